"""Builds small .hprof dumps and runs the tool on them (scratch directory only)."""
import atexit, json, os, shutil, struct, subprocess, sys, tempfile

OBJ, BOOL, CHAR, FLOAT, DOUBLE, BYTE, SHORT, INT, LONG = 2, 4, 5, 6, 7, 8, 9, 10, 11

class Dump:
    def __init__(self, idsize=8, timestamp=1700000000000):
        self.n = idsize
        self.out = [b"JAVA PROFILE 1.0.2\0" + struct.pack(">IQ", idsize, timestamp)]
        self.seg = []
        self.segs = []
        self.strs = {}
        self.next = 0x1000
        self.serial = 0
        self.sizes = {OBJ: idsize, BOOL: 1, CHAR: 2, FLOAT: 4, DOUBLE: 8, BYTE: 1, SHORT: 2, INT: 4, LONG: 8}

    def id(self, v):
        return struct.pack(">Q" if self.n == 8 else ">I", v)

    def new(self):
        self.next += 8
        return self.next

    def rec(self, tag, body):
        self.out.append(struct.pack(">BII", tag, 0, len(body)) + body)

    def utf8(self, s):
        if s not in self.strs:
            self.strs[s] = self.new()
            self.rec(1, self.id(self.strs[s]) + s.encode())
        return self.strs[s]

    def val(self, ty, v):
        f = {BOOL: ">B", CHAR: ">H", FLOAT: ">f", DOUBLE: ">d", BYTE: ">b", SHORT: ">h", INT: ">i", LONG: ">q"}
        return self.id(v) if ty == OBJ else struct.pack(f[ty], v)

    def load_class(self, name, cid=None):
        cid = cid or self.new()
        self.serial += 1
        self.rec(2, struct.pack(">I", self.serial) + self.id(cid) + struct.pack(">I", 0) + self.id(self.utf8(name)))
        return cid, self.serial

    def class_dump(self, cid, sup=0, size=0, consts=(), statics=(), fields=()):
        """consts: (index, type, value); statics: (name, type, value); fields: (name, type)"""
        b = self.id(cid) + struct.pack(">I", 0) + self.id(sup) + self.id(0) * 5 + struct.pack(">i", size)
        b += struct.pack(">H", len(consts))
        for i, t, v in consts:
            b += struct.pack(">HB", i, t) + self.val(t, v)
        b += struct.pack(">H", len(statics))
        for nm, t, v in statics:
            b += self.id(self.utf8(nm)) + struct.pack(">B", t) + self.val(t, v)
        b += struct.pack(">H", len(fields))
        for nm, t in fields:
            b += self.id(self.utf8(nm)) + struct.pack(">B", t)
        self.seg.append(b"\x20" + b)

    def instance(self, cid, vals, oid=None):
        """vals: (type, value) in layout order"""
        oid = oid or self.new()
        p = b"".join(self.val(t, v) for t, v in vals)
        self.seg.append(b"\x21" + self.id(oid) + struct.pack(">I", 0) + self.id(cid) + struct.pack(">I", len(p)) + p)
        return oid

    def obj_array(self, cid, ids, oid=None):
        oid = oid or self.new()
        self.seg.append(b"\x22" + self.id(oid) + struct.pack(">II", 0, len(ids)) + self.id(cid) + b"".join(map(self.id, ids)))
        return oid

    def prim_array(self, ty, vals, oid=None):
        oid = oid or self.new()
        self.seg.append(b"\x23" + self.id(oid) + struct.pack(">IIB", 0, len(vals), ty) + b"".join(self.val(ty, v) for v in vals))
        return oid

    def root(self, tag, body):
        self.seg.append(bytes([tag]) + body)

    def flush(self):
        if self.seg:
            body = b"".join(self.seg)
            self.segs.append(struct.pack(">BII", 0x1c, 0, len(body)) + body)
            self.seg = []

    def frame(self, method, sig, src, serial, line):
        fid = self.new()
        self.rec(4, self.id(fid) + self.id(self.utf8(method)) + self.id(self.utf8(sig)) + self.id(self.utf8(src)) + struct.pack(">Ii", serial, line))
        return fid

    def trace(self, serial, thread, frames):
        self.rec(5, struct.pack(">III", serial, thread, len(frames)) + b"".join(map(self.id, frames)))

    def done(self):
        self.flush()
        return b"".join(self.out + self.segs) + struct.pack(">BII", 0x2c, 0, 0)


class World(Dump):
    """A dump that all three subcommands accept."""

    def __init__(self, idsize=8, props=None, buckets=8, chain=False, threads=None, start=1700000000000 - 65000, **kw):
        super().__init__(idsize, **kw)
        self.obj, _ = self.load_class("java/lang/Object")
        self.str, _ = self.load_class("java/lang/String")
        self.bytesarr, _ = self.load_class("[B")
        self.system, _ = self.load_class("java/lang/System")
        self.props, _ = self.load_class("java/util/Properties")
        self.chm, _ = self.load_class("java/util/concurrent/ConcurrentHashMap")
        self.node, _ = self.load_class("java/util/concurrent/ConcurrentHashMap$Node")
        self.nodearr, _ = self.load_class("[Ljava/util/concurrent/ConcurrentHashMap$Node;")
        self.mfh, _ = self.load_class("sun/management/ManagementFactoryHelper")
        self.rt, _ = self.load_class("sun/management/RuntimeImpl")
        self.thread, self.thread_serial = self.load_class("java/lang/Thread")
        self.sub, self.sub_serial = self.load_class("app/Worker")
        self.intarr, _ = self.load_class("[I")
        self.class_dump(self.obj)
        self.class_dump(self.str, self.obj, 24, fields=[("hash", INT), ("value", OBJ), ("coder", BYTE)])
        self.class_dump(self.props, self.obj, 48, fields=[("map", OBJ)])
        self.class_dump(self.chm, self.obj, 64, fields=[("sizeCtl", INT), ("table", OBJ)])
        self.class_dump(self.node, self.obj, 32, fields=[("hash", INT), ("key", OBJ), ("val", OBJ), ("next", OBJ)])
        self.class_dump(self.rt, self.obj, 32, fields=[("flag", BOOL), ("vmStartupTime", LONG)])
        self.class_dump(self.thread, self.obj, 100, fields=[("daemon", BOOL), ("priority", INT), ("name", OBJ), ("tid", LONG), ("threadStatus", INT)])
        self.class_dump(self.sub, self.thread, 120, fields=[("name2", OBJ), ("count", INT)])
        props = props or {"os.name": "Linux", "os.arch": "amd64", "java.home": "/jdk", "java.version": "17.0.1",
                          "java.vm.name": "VM", "java.vm.version": "17.0.1+1", "java.vm.info": "mixed", "java.vm.vendor": "Acme"}
        slots = [0] * buckets
        for i, (k, v) in enumerate(props.items()):
            ks, vs = self.string(k), self.string(v)
            slot = 0 if chain else i % buckets
            slots[slot] = self.instance(self.node, [(INT, i), (OBJ, ks), (OBJ, vs), (OBJ, slots[slot])])
        table = self.obj_array(self.nodearr, slots)
        m = self.instance(self.chm, [(INT, 0), (OBJ, table)])
        p = self.instance(self.props, [(OBJ, m)])
        bean = self.instance(self.rt, [(BOOL, 1), (LONG, start)])
        self.class_dump(self.system, self.obj, statics=[("security", OBJ, 0), ("props", OBJ, p)])
        self.class_dump(self.mfh, self.obj, statics=[("count", INT, 3), ("runtimeMBean", OBJ, bean)])

    def string(self, s):
        a = self.prim_array(BYTE, [c if c < 128 else c - 256 for c in s.encode("latin1")])
        return self.instance(self.str, [(INT, 0), (OBJ, a), (BYTE, 0)])

    def add_thread(self, serial, trace, name="t", daemon=0, prio=5, tid=1, status=5, frames=(), cls=None):
        nm = self.string(name)
        vals = [(BOOL, daemon), (INT, prio), (OBJ, nm), (LONG, tid), (INT, status)]
        t = self.instance(cls or self.thread, vals)
        self.flush()
        self.trace(trace, serial, list(frames))
        self.root(0x08, self.id(t) + struct.pack(">II", serial, trace))
        return t


def build(where):
    nj = os.path.join(where, "nj")
    subprocess.run(["go", "build", "-buildvcs=false", "-o", nj, "./cmd/neojhat"], check=True)
    return nj


def scratch():
    d = tempfile.mkdtemp(prefix="njdemo")
    atexit.register(shutil.rmtree, d, True)
    return d


def run(nj, where, data, args, name="d.hprof", timeout=60):
    p = os.path.join(where, name)
    with open(p, "wb") as f:
        f.write(data)
    return rerun(nj, p, args, timeout)


def rerun(nj, path, args, timeout=60):
    r = subprocess.run([nj] + args[:1] + ["--hprof", path] + args[1:], stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")


def expect(cond, what):
    if not cond:
        print("DEMO FAILED:", what)
        sys.exit(1)


def gotest(pkg, src, timeout=200):
    """Runs an in-package Go test given as text; returns (exit status, output)."""
    d = tempfile.mkdtemp(prefix="gotest")
    try:
        f = os.path.join(d, "demo_verif_test.go")
        open(f, "w").write(src)
        ov = os.path.join(d, "overlay.json")
        json.dump({"Replace": {os.path.join(os.getcwd(), pkg, "demo_verif_test.go"): f}}, open(ov, "w"))
        r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-overlay", ov, "-run", "TestDemo", "./" + pkg],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)
