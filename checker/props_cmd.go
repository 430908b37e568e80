package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The command as a whole: main is analysed with every flag, every argument
// and every outcome of the operating system; the functions that read the
// dump and that print the reports are left as calls.

type cmdRun struct {
	R    *Report
	it   *Interp
	out  State
	main *ssa.Function
	cmds map[string]*Term // when the command runs: its flags are parsed
}

var commands = []string{"threads", "summary", "objects"}

var reportFn = map[string]string{"threads": "threads.GetThreadDump", "summary": "summary.GetSummary", "objects": "objects.GetObjects"}
var printFns = map[string][]string{
	"threads": {"output.ThreadsPlain", "output.ThreadsPlainColor", "output.ThreadsHtml"},
	"summary": {"output.SummaryPlain", "output.SummaryPlainColor", "output.SummaryHtml"},
	"objects": {"output.ObjectsPlain", "output.ObjectsPlainColor", "output.ObjectsHtml"},
}

// osUsers: functions that call, directly or not, functions of package os.
func (P *Program) osUsers() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range P.all {
			if out[f] {
				continue
			}
			hit := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && out[mc.Fn.(*ssa.Function)] {
						hit = true
					}
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := c.Common().StaticCallee()
					if g == nil {
						continue
					}
					if g.Pkg != nil && (g.Pkg.Pkg.Path() == "os" || g.Pkg.Pkg.Path() == "syscall" || g.Pkg.Pkg.Path() == "os/exec") && g.Signature.Recv() == nil && g.Name() != "init" {
						hit = true
					}
					if out[g] {
						hit = true
					}
				}
			}
			if hit {
				out[f] = true
				changed = true
			}
		}
	}
	return out
}

func (R *Report) cmdRun(ok bool) *cmdRun {
	P := R.P
	m := P.fn("neojhat.main")
	if !R.need(m, "main") {
		return nil
	}
	it, st := P.newRun(false)
	it.okAll = ok
	users := P.osUsers()
	it.opaqueAll = func(f *ssa.Function) bool {
		if f.Pkg == nil || f.Pkg.Pkg.Name() == "main" || strings.HasSuffix(f.Pkg.Pkg.Path(), "/internal/cmd") || users[f] || f.Parent() != nil || f.Synthetic != "" && !strings.HasSuffix(f.Name(), "$bound") {
			return false
		}
		if !strings.HasPrefix(f.Pkg.Pkg.Path(), repoModule) {
			return false
		}
		switch f.Name() {
		case "Set", "String":
			return false
		}
		return true
	}
	_, out := it.rootCall(st, m, nil)
	c := &cmdRun{R: R, it: it, out: out, main: m, cmds: map[string]*Term{}}
	R.used(it)
	for _, e := range it.events {
		if e.kind != "flagok" {
			continue
		}
		set, has := e.st.heap.get(e.args[0].id)
		if has && set.k == KOp && set.op == "flagset" && set.args[0].k == KStr {
			n := set.args[0].op
			if c.cmds[n] == nil {
				c.cmds[n] = tFalse
			}
			c.cmds[n] = bOr(c.cmds[n], e.st.pc)
			full := false
			if len(e.args) > 1 {
				full = strings.Contains(show(e.args[1]), "sub(deref(glob:os.Args), 2, (len(options(deref(glob:os.Args))) + -1))")
			}
			R.check(full, "arguments", n, it.posStr(e.pos), "the options parsed are "+cleanTerm(showN(e.args[1], 6)))
		}
	}
	for _, n := range commands {
		if !R.check(c.cmds[n] != nil, "command", n, rootPos(P, m), "the command parses no options") {
			return nil
		}
	}
	return c
}

// hasDump: the command runs and was given a dump.
func (c *cmdRun) hasDump(n string) *Term {
	return bAnd(c.cmds[n], bNot(asBool(tEq(c.flagOf(n, "hprof", types.Typ[types.String]), mkStr("")))))
}

func (c *cmdRun) flagOf(n, f string, t types.Type) *Term {
	return typed(mkSym("flag:"+n+":"+f, 0, nil), t)
}

func (c *cmdRun) boolFlag(n, f string) *Term { return c.flagOf(n, f, types.Typ[types.Bool]) }

// chosen: the option of own type was given with this value.
func (c *cmdRun) chosen(n, f, v string) *Term {
	given := mkSym("?given:"+n+":"+f, 0, nil)
	val := typed(mkSym("flagval:"+n+":"+f, 0, nil), types.Typ[types.String])
	return bAnd(asBool(given), asBool(tEq(val, mkStr(v))))
}

// calls of a function while the command runs.
func (c *cmdRun) calls(n, fn string) []*Event {
	return c.events(c.hasDump(n), func(e *Event) bool { return e.kind == "opaque" && cleanTerm(e.name) == fn })
}

// events that happen under a condition, as they are then.
func (c *cmdRun) events(D *Term, which func(e *Event) bool) []*Event {
	var out []*Event
	for _, e := range c.it.events {
		if !which(e) {
			continue
		}
		pc := bAnd(e.st.pc, D)
		if pc == tFalse {
			continue
		}
		x := *e
		x.st.pc = pc
		x.args = nil
		for _, a := range e.args {
			x.args = append(x.args, restrict(a, pc))
		}
		if e.res != nil {
			x.res = restrict(e.res, pc)
		}
		out = append(out, &x)
	}
	return out
}

func unionPC(es []*Event) *Term {
	u := tFalse
	for _, e := range es {
		u = bOr(u, e.st.pc)
	}
	return u
}

func firstOf(t *Term) *Term {
	if t != nil && t.k == KTuple {
		return t.args[0]
	}
	return t
}

// path splits a path into parts: text and unknowns.
func (c *cmdRun) path(t *Term) []*Term {
	var flat []*Term
	var rec func(x *Term)
	rec = func(x *Term) {
		switch {
		case x.k == KOp && x.op == "cat":
			for _, a := range x.args {
				rec(a)
			}
		case x.k == KOp && (x.op == "ext:path/filepath.Clean" || x.op == "ext:path.Clean") && len(x.args) == 1:
			rec(x.args[0])
		default:
			flat = append(flat, x)
		}
	}
	rec(t)
	return normPath(flat)
}

func normPath(flat []*Term) []*Term {
	var out []*Term
	for _, x := range flat {
		if x.k == KStr {
			if x.op == "" {
				continue
			}
			s := x.op
			if n := len(out); n > 0 && out[n-1].k == KStr {
				s = out[n-1].op + s
				out = out[:n-1]
			}
			for strings.Contains(s, "//") {
				s = strings.ReplaceAll(s, "//", "/")
			}
			for strings.Contains(s, "/./") {
				s = strings.ReplaceAll(s, "/./", "/")
			}
			out = append(out, mkStr(s))
			continue
		}
		out = append(out, x)
	}
	return out
}

func trimSlash(p []*Term) []*Term {
	if n := len(p); n > 0 && p[n-1].k == KStr && strings.HasSuffix(p[n-1].op, "/") {
		s := strings.TrimRight(p[n-1].op, "/")
		q := append([]*Term{}, p[:n-1]...)
		if s != "" {
			q = append(q, mkStr(s))
		}
		return q
	}
	return p
}

func showPath(p []*Term) string {
	var b []string
	for _, x := range p {
		if x.k == KStr {
			b = append(b, x.op)
		} else {
			b = append(b, "<"+cleanTerm(showN(x, 4))+">")
		}
	}
	return strings.Join(b, "")
}

// under: path p lies in directory dir (or is it); the rest is returned.
func under(p, dir []*Term) ([]*Term, bool) {
	d := trimSlash(dir)
	if len(d) == 0 || len(p) < len(d) {
		return nil, false
	}
	for i, x := range d {
		if p[i] == x {
			continue
		}
		if i == len(d)-1 && x.k == KStr && p[i].k == KStr && strings.HasPrefix(p[i].op, x.op+"/") {
			return normPath(append([]*Term{mkStr(p[i].op[len(x.op):])}, p[i+1:]...)), true
		}
		return nil, false
	}
	if d[len(d)-1].k != KStr && len(p) > len(d) && !(p[len(d)].k == KStr && strings.HasPrefix(p[len(d)].op, "/")) {
		return nil, false
	}
	return p[len(d):], true
}

// fileOf: the path of an open file.
func (c *cmdRun) fileOf(e *Event, t *Term) []*Term {
	return c.path(restrict(c.it.fileName(e.st, stripIface(t)), e.st.pc))
}

// published: the name a file written during the parse has in the end.
func (c *cmdRun) published(n string, p []*Term) []*Term {
	for _, e := range c.events(c.hasDump(n), func(e *Event) bool { return e.kind == "fs" && e.name == "os.Rename" }) {
		from, to := c.path(e.args[0]), c.path(e.args[1])
		if rest, ok := under(p, from); ok {
			return normPath(append(append([]*Term{}, to...), rest...))
		}
	}
	return p
}

func samePath(a, b []*Term) bool {
	a, b = trimSlash(a), trimSlash(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkWiring: the collections filled by the parse are the ones stored, and
// the ones stored are the ones the reports are made from.
func (R *Report) checkWiring() {
	c := R.cmdRun(true)
	if c == nil {
		return
	}
	pos := rootPos(R.P, c.main)
	for _, n := range commands {
		hprof := c.path(c.flagOf(n, "hprof", types.Typ[types.String]))
		D := c.hasDump(n)
		ps := c.calls(n, "dump.NewParser")
		ph := c.calls(n, "(*dump.Parser).ParseHeapDump")
		acc := c.calls(n, "dump.NewParsedAccessor")
		rep := c.calls(n, reportFn[n])
		if !R.check(len(ps) == 1 && len(ph) == 1 && len(acc) == 1 && len(rep) == 1, "wiring", n+": parse and report", pos, "the command does not parse the dump once and make its report from it") {
			continue
		}
		R.check(eqUnder(ph[0].st.pc, ph[0].args[0], ps[0].res), "wiring", n+": parser", c.it.posStr(ph[0].pos), "another parser is run")
		R.check(samePath(c.fileOf(ps[0], ps[0].args[0]), hprof), "wiring", n+": dump parsed", c.it.posStr(ps[0].pos), "parses "+showPath(c.fileOf(ps[0], ps[0].args[0])))
		R.check(samePath(c.fileOf(acc[0], acc[0].args[0]), hprof), "wiring", n+": dump read", c.it.posStr(acc[0].pos), "reads "+showPath(c.fileOf(acc[0], acc[0].args[0])))
		R.check(eqUnder(rep[0].st.pc, rep[0].args[0], acc[0].res), "wiring", n+": report", c.it.posStr(rep[0].pos), "the report is made from something else")
		R.check(implied(D, rep[0].st.pc), "wiring", n+": report made", c.it.posStr(rep[0].pos), "no report when "+cleanTerm(showN(restrict(bNot(rep[0].st.pc), D), 6)))
		fresh := ph[0].st.pc
		for _, k := range [][3]string{{"Small", "1", "2"}, {"Meta", "3", "3"}} {
			w := c.calls(n, "(*storage."+storeName(k[0], "Write")+").SerializeTo")
			r := c.calls(n, "(*storage."+storeName(k[0], "Read")+").RestoreFrom")
			what := n + ": " + strings.ToLower(k[0]) + " records"
			if !R.check(len(w) == 1 && len(r) == 1, "wiring", what, pos, "the collection is not stored once and restored once") {
				continue
			}
			wi, ri := int(k[1][0]-'0'), int(k[2][0]-'0')
			R.check(eqUnder(w[0].st.pc, w[0].args[0], stripIface(ps[0].args[wi])), "wiring", what+": stored", c.it.posStr(w[0].pos), "what is stored is not what the parser fills")
			R.check(w[0].seq > ph[0].seq && implied(bAnd(D, fresh), w[0].st.pc), "wiring", what+": stored after the parse", c.it.posStr(w[0].pos), "not stored when "+cleanTerm(showN(restrict(bNot(w[0].st.pc), bAnd(D, fresh)), 6)))
			R.check(eqUnder(r[0].st.pc, r[0].args[0], stripIface(acc[0].args[ri])), "wiring", what+": restored", c.it.posStr(r[0].pos), "what is restored is not what the report reads")
			R.check(r[0].seq < rep[0].seq && implied(acc[0].st.pc, r[0].st.pc), "wiring", what+": restored before the report", c.it.posStr(r[0].pos), "not restored when "+cleanTerm(showN(restrict(bNot(r[0].st.pc), acc[0].st.pc), 6)))
			wp, rp := c.published(n, c.fileOf(w[0], w[0].args[1])), c.fileOf(r[0], r[0].args[1])
			R.check(samePath(wp, rp), "wiring", what+": file", c.it.posStr(r[0].pos), "stored in "+showPath(wp)+", restored from "+showPath(rp))
			R.check(w[0].seq < r[0].seq, "wiring", what+": order", c.it.posStr(r[0].pos), "restored before it is stored")
		}
		bw := c.calls(n, "storage.NewBigRecordsWriteStorage")
		br := c.calls(n, "storage.NewBigRecordsReadStorage")
		if R.check(len(bw) == 1 && len(br) == 1, "wiring", n+": positions", pos, "the positions are not written and read once") {
			R.check(eqUnder(bw[0].st.pc, stripIface(ps[0].args[2]), firstOf(bw[0].res)), "wiring", n+": positions written", c.it.posStr(ps[0].pos), "what the parser fills is not the index")
			R.check(eqUnder(br[0].st.pc, stripIface(acc[0].args[1]), firstOf(br[0].res)), "wiring", n+": positions read", c.it.posStr(acc[0].pos), "what the report reads is not the index")
		}
		// parsed unless an index is there
		dir := rep[0].st.pc
		R.check(implied(bAnd(dir, bNot(fresh)), c.statOK(n, rep[0].seq)), "wiring", n+": parsed once", c.it.posStr(ph[0].pos), "no parse although no index is there")
	}
	R.atLeast("wiring", 60)
}

func storeName(kind, dir string) string {
	if kind == "Small" {
		return "SmallRecords" + dir + "Storage"
	}
	return kind + dir + "Storage"
}

// statOK: a probe for something beside the dump succeeded.
func (c *cmdRun) statOK(n string, before int) *Term {
	u := tFalse
	for _, e := range c.events(c.hasDump(n), func(e *Event) bool {
		return e.kind == "fs" && (e.name == "os.Stat" || e.name == "os.Lstat" || e.name == "os.Open")
	}) {
		if p := c.path(e.args[0]); len(p) < 2 || p[0] != c.flagOf(n, "hprof", types.Typ[types.String]) {
			continue
		}
		out := mkSym("outcome:"+c.it.siteAt(e), 0, nil)
		if e.seq < before {
			u = bOr(u, bAnd(e.st.pc, mkGuard(out, []*Term{mkInt(0)}, false)))
		}
	}
	return u
}

// constOf: the value of a named constant.
func (P *Program) constOf(pkg, name string) *Term {
	for _, p := range P.pkgs {
		if !strings.HasSuffix(p.PkgPath, "/internal/"+pkg) {
			continue
		}
		if o, ok := p.Types.Scope().Lookup(name).(*types.Const); ok {
			if v, ok := constant.Int64Val(o.Val()); ok {
				return mkInt(v)
			}
		}
	}
	return nil
}
