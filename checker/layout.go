package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The HPROF record layouts (format specification, "HPROF Agent" / JDK
// heapDumper.cpp), written as field sequences.  kinds: u1 u2 u4 id type value;
// ids:<count field> a list of identifiers; list:<layout>:<count field>;
// text:rest; skip:<kind> for bytes that carry no reported field.
type layField struct{ name, kind string }

type layout struct {
	fn     string // parser method
	result string
	fields []layField
}

var layouts = []layout{
	{"ParseRecordHeader", "RecordHeader", []layField{{"Tag", "u1"}, {"", "u4"}, {"Remaining", "u4"}}},
	{"ParseHprofUtf8", "HprofUtf8", []layField{{"Identifier", "id"}, {"Characters", "text"}}},
	{"ParseHprofLoadClass", "HprofLoadClass", []layField{{"ClassSerialNumber", "u4"}, {"ClassObjectId", "id"}, {"StackTraceSerialNumber", "u4"}, {"ClassNameId", "id"}}},
	{"ParseHprofFrame", "HprofFrame", []layField{{"StackFrameId", "id"}, {"MethodNameId", "id"}, {"MethodSignatureId", "id"}, {"SourceFileNameId", "id"}, {"ClassSerialNumber", "u4"}, {"LineNumber", "u4"}}},
	{"ParseHprofTrace", "HprofTrace", []layField{{"StackTraceSerialNumber", "u4"}, {"ThreadSerialNumber", "u4"}, {"NumberOfFrames", "u4"}, {"StackFrameIds", "ids:NumberOfFrames"}}},
	{"ParseSubRecordHeader", "SubRecordHeader", []layField{{"SubRecordType", "u1"}}},
	{"ParseHprofGcRootThreadObj", "HprofGcRootThreadObj", []layField{{"ThreadObjectId", "id"}, {"ThreadSequenceNumber", "u4"}, {"StackTraceSequenceNumber", "u4"}}},
	{"ParseHprofGcRootJniGlobal", "HprofGcRootJniGlobal", []layField{{"ObjectId", "id"}, {"JniGlobalRefId", "id"}}},
	{"ParseHprofGcRootJniLocal", "HprofGcRootJniLocal", []layField{{"ObjectId", "id"}, {"ThreadSerialNumber", "u4"}, {"FrameNumberInStackTrace", "u4"}}},
	{"ParseHprofGcRootJavaFrame", "HprofGcRootJavaFrame", []layField{{"ObjectId", "id"}, {"ThreadSerialNumber", "u4"}, {"FrameNumberInStackTrace", "u4"}}},
	{"ParseHprofGcRootStickyClass", "HprofGcRootStickyClass", []layField{{"ObjectId", "id"}}},
	{"ParseHprofGcClassDump", "HprofGcClassDump", []layField{
		{"ClassObjectId", "id"}, {"StackTraceSerialNumber", "u4"}, {"SuperclassObjectId", "id"}, {"ClassloaderObjectId", "id"},
		{"SignersObjectId", "id"}, {"ProtectionDomainObjectId", "id"}, {"", "id"}, {"", "id"}, {"InstanceSize", "u4"},
		{"SizeOfConstantPool", "u2"}, {"ConstantPoolRecords", "list:cp:SizeOfConstantPool"},
		{"NumberOfStaticFields", "u2"}, {"StaticFieldRecords", "list:static:NumberOfStaticFields"},
		{"NumberOfInstanceFields", "u2"}, {"InstanceFieldRecords", "list:inst:NumberOfInstanceFields"}}},
	{"ParseHprofGcClassDumpInstanceDumpHeader", "HprofGcClassDumpInstanceDumpHeader", []layField{{"ObjectId", "id"}, {"StackTraceSerialNumber", "u4"}, {"ClassObjectId", "id"}, {"NumberOfBytesThatFollow", "u4"}}},
	{"ParseHprofGcObjArrayDumpHeader", "HprofGcObjArrayDumpHeader", []layField{{"ArrayObjectId", "id"}, {"StackTraceSerialNumber", "u4"}, {"NumberOfElements", "u4"}, {"ArrayClassId", "id"}}},
	{"ParseHprofGcPrimArrayDumpHeader", "HprofGcPrimArrayDumpHeader", []layField{{"ArrayObjectId", "id"}, {"StackTraceSerialNumber", "u4"}, {"NumberOfElements", "u4"}, {"ElementType", "type"}}},
}

var subLayouts = map[string][]layField{
	"cp":     {{"ConstantPoolIndex", "u2"}, {"Ty", "type"}, {"Value", "value:Ty"}},
	"static": {{"StaticFieldName", "id"}, {"Ty", "type"}, {"Value", "value:Ty"}},
	"inst":   {{"InstanceFieldName", "id"}, {"Ty", "type"}},
}

// basic types of the format: code -> size in bytes (0: identifier size)
var basicTypes = []struct {
	code, size int
	name, desc string
	goType     string
}{
	{2, 0, "object", "L", "uint64"}, {4, 1, "boolean", "Z", "bool"}, {5, 2, "char", "C", "string"}, {6, 4, "float", "F", "float32"},
	{7, 8, "double", "D", "float64"}, {8, 1, "byte", "B", "int8"}, {9, 2, "short", "S", "int16"}, {10, 4, "int", "I", "int32"}, {11, 8, "long", "J", "int64"},
}

func validType(t *Term) *Term {
	var vs []*Term
	for _, b := range basicTypes {
		vs = append(vs, mkInt(int64(b.code)))
	}
	return tEqAny(t, vs)
}

func tEqAny(t *Term, vs []*Term) *Term {
	r := tFalse
	for _, v := range vs {
		r = bOr(r, asBool(tEq(t, v)))
	}
	return r
}

func typeSize(t *Term, id int) *Term {
	bySize := map[int][]*Term{}
	var order []int
	for _, b := range basicTypes {
		s := b.size
		if s == 0 {
			s = id
		}
		if bySize[s] == nil {
			order = append(order, s)
		}
		bySize[s] = append(bySize[s], mkInt(int64(b.code)))
	}
	res, pc := tBot, tFalse
	for _, s := range order {
		g := tEqAny(t, bySize[s])
		res = iteDC(pc, res, g, mkInt(int64(s)))
		pc = bOr(pc, g)
	}
	return res
}

// layRun is one matching of an analysed result against a layout.
type layRun struct {
	R    *Report
	it   *Interp
	st   State
	pc   *Term // success condition
	src  *Term
	id   int
	tag  string
	pos  string
	off  *Term
	vals map[string]*Term
	rest *Term // remaining size parameter for text
}

func (l *layRun) check(ok bool, f, detail string) {
	l.R.check(ok, "layout", l.tag+"."+f+" (ids of "+strconv.Itoa(l.id)+" bytes)", l.pos, detail)
}

func kindSize(k string, id int) int {
	switch k {
	case "u1", "type":
		return 1
	case "u2":
		return 2
	case "u4":
		return 4
	case "id":
		return id
	}
	return 0
}

// sameNumber: v is the n-byte number at off, in some Go representation.
func sameNumber(pc, v *Term, n int, raw *Term) bool {
	if eqUnder(pc, v, raw) {
		return true
	}
	if n < 8 {
		s := mapLeaves(raw, func(x *Term) *Term { return mkOp("s"+strconv.Itoa(8*n), x) })
		if eqUnder(pc, v, s) {
			return true
		}
	}
	return false
}

// walk matches the fields of struct value v laid out from l.off, advancing it.
func (l *layRun) walk(v *Term, stt *types.Struct, fields []layField, prefix string, pc *Term) {
	idx := map[string]int{}
	if stt != nil {
		for i := 0; i < stt.NumFields(); i++ {
			idx[stt.Field(i).Name()] = i
		}
	}
	vals := map[string]*Term{}
	for _, f := range fields {
		name := prefix + f.name
		var got *Term
		if f.name != "" {
			i, ok := idx[f.name]
			if !ok {
				l.check(false, name, "no such field in the result")
				continue
			}
			got = restrict(l.it.resolve(l.st, mkFld(v, i, stt.Field(i).Type())), pc)
		}
		kind, arg, _ := strings.Cut(f.kind, ":")
		switch kind {
		case "u1", "u2", "u4", "id", "type":
			n := kindSize(kind, l.id)
			raw := mkRead(n, l.src, l.off)
			if f.name != "" {
				l.check(sameNumber(pc, got, n, raw), name, fmt.Sprintf("want the %d-byte big-endian number at offset %s, got %s", n, show(l.off), show(got)))
				vals[f.name] = raw
			}
			l.off = tAdd(l.off, mkInt(int64(n)))
		case "text":
			n := tSub(l.rest, mkInt(int64(l.id)))
			want := mkStrOf(mkSeq([]*Term{mkOp("src", l.src, l.off, n)}))
			l.check(eqUnder(pc, got, want), name, "want the bytes from "+show(l.off)+" of length "+show(n)+", got "+show(got))
			l.off = tAdd(l.off, n)
		case "ids":
			n := vals[arg]
			e := l.each(got, n, name, pc)
			if e == nil {
				return
			}
			it := e.args[0]
			raw := mkRead(l.id, l.src, tAdd(l.off, tScale(it, int64(l.id))))
			l.check(eqUnder(pc, e.args[3], raw), name, "element "+show(e.args[3])+", want "+show(raw))
			l.off = tAdd(l.off, tScale(n, int64(l.id)))
		case "value":
			ty := vals[arg]
			l.value(got, ty, name, pc)
			l.off = tAdd(l.off, typeSize(ty, l.id))
		case "list":
			lay, cnt, _ := strings.Cut(arg, ":")
			n := vals[cnt]
			e := l.each(got, n, name, pc)
			if e == nil {
				return
			}
			it := e.args[0]
			el := e.args[3]
			base := l.off
			var est *types.Struct
			if el.k == KStruct {
				est = structOf(el.typ)
			} else {
				l.check(false, name, "element is not a record: "+show(el))
				return
			}
			sub := *l
			// constant stride or running offset?
			size := 0
			constant := true
			for _, sf := range subLayouts[lay] {
				k, _, _ := strings.Cut(sf.kind, ":")
				if k == "value" {
					constant = false
				}
				size += kindSize(k, l.id)
			}
			if constant {
				mu := l.findMu(el, base, mkInt(int64(size)))
				if mu != nil {
					sub.off = mu
				} else {
					sub.off = tAdd(base, tScale(it, int64(size)))
				}
				sub.walk(el, est, subLayouts[lay], name+"[i].", pc)
				l.off = tAdd(base, tScale(n, int64(size)))
				break
			}
			mu := l.runningOffset(el, base)
			if mu == nil {
				l.check(false, name, "no running offset starting at "+show(base)+" in element "+show(el))
				return
			}
			sub.off = mu
			ep := bAnd(pc, l.validAt(subLayouts[lay], mu))
			sub.walk(el, est, subLayouts[lay], name+"[i].", ep)
			step := tSub(sub.off, mu)
			d := l.it.muDefs[mu]
			l.check(eqUnder(l.validAt(subLayouts[lay], mu), d.step, tAdd(mu, step)), name+" stride", "each entry advances by "+show(tSub(d.step, mu))+", want "+show(step))
			l.off = tAdd(base, mkSum(it, n, step))
		}
	}
	if prefix == "" {
		l.vals = vals
	}
}

func (l *layRun) validAt(fields []layField, off *Term) *Term {
	for _, f := range fields {
		if f.kind == "type" {
			return validType(mkRead(1, l.src, off))
		}
		off = tAdd(off, mkInt(int64(kindSize(f.kind, l.id))))
	}
	return tTrue
}

func (l *layRun) findMu(el, base, size *Term) *Term {
	mu := l.runningOffset(el, base)
	if mu == nil {
		return nil
	}
	d := l.it.muDefs[mu]
	if tSub(d.step, tAdd(mu, size)) == mkInt(0) {
		return mu
	}
	return nil
}

// runningOffset finds the loop-carried offset the element is read at.
func (l *layRun) runningOffset(el, base *Term) *Term {
	var best *Term
	for mu, d := range l.it.muDefs {
		if d.init != nil && tSub(d.init, base) == mkInt(0) && contains(el, mu) {
			if best == nil || mu.id < best.id {
				best = mu
			}
		}
	}
	return best
}

// each: v is a sequence of exactly n elements, one per iteration.
func (l *layRun) each(v, n *Term, name string, pc *Term) *Term {
	v = restrict(l.it.content(l.st, v), pc)
	if v.k == KGamma {
		// an explicit empty case next to the general one
		var gen *Term
		ok := true
		for _, c := range v.cases {
			g := mkGuard(v.args[0], c.vals, c.neg)
			if c.kid.k == KNil || c.kid.k == KOp && c.kid.op == "seq" && len(c.kid.args) == 0 {
				if !eqUnder(bAnd(pc, g), n, mkInt(0)) {
					ok = false
				}
				continue
			}
			if gen != nil {
				ok = false
			}
			gen = c.kid
		}
		if ok && gen != nil {
			v = gen
		}
	}
	if v.k == KOp && v.op == "seq" && len(v.args) == 1 && v.args[0].op == "each" {
		e := v.args[0]
		l.check(eqUnder(pc, e.args[1], n) && e.args[2] == tTrue, name+" count", "want "+show(n)+" entries, got "+show(v))
		return e
	}
	l.check(false, name+" count", "want "+show(n)+" entries, got "+show(v))
	return nil
}

// value: a typed value of the format held as JavaValue{Type, Value}.
func (l *layRun) value(v, ty *Term, name string, pc *Term) {
	stt := structOf(v.typ)
	if v.k != KStruct || stt == nil {
		l.check(false, name, "not a typed value: "+show(v))
		return
	}
	for _, b := range basicTypes {
		p := bAnd(pc, asBool(tEq(ty, mkInt(int64(b.code)))))
		if p == tFalse {
			l.check(false, name+"("+b.name+")", "this type is never accepted")
			continue
		}
		l.typedValue(v, stt, b.code, p, name+"("+b.name+")")
	}
}

func (l *layRun) typedValue(v *Term, stt *types.Struct, code int, p *Term, name string) {
	n := l.id
	for _, b := range basicTypes {
		if b.code == code && b.size != 0 {
			n = b.size
		}
	}
	raw := mkRead(n, l.src, l.off)
	for i := 0; i < stt.NumFields(); i++ {
		f := restrict(mkFld(v, i, stt.Field(i).Type()), p)
		if _, isI := stt.Field(i).Type().Underlying().(*types.Interface); isI {
			if f.k != KIface {
				l.check(false, name, "value is "+show(f))
				continue
			}
			in := restrict(l.it.resolve(l.st, f.args[0]), p)
			bt, _ := f.typ.Underlying().(*types.Basic)
			want := raw
			switch {
			case bt == nil:
				l.check(false, name, "unexpected representation "+types.TypeString(f.typ, nil))
				continue
			case bt.Info()&types.IsString != 0:
				want = mkStrOf(mkSeq([]*Term{mkOp("src", l.src, l.off, mkInt(int64(n)))}))
			default:
				want = fromRaw(raw, n, f.typ)
			}
			okT := true
			switch code {
			case 4:
				okT = bt.Kind() == types.Bool
			case 6:
				okT = bt.Kind() == types.Float32
			case 7:
				okT = bt.Kind() == types.Float64
			}
			l.check(okT && eqUnder(p, in, want), name, "want "+show(want)+" as "+bt.String()+", got "+show(in))
		} else {
			l.check(eqUnder(p, f, mkInt(int64(code))), name+" kind", "kind is "+show(f))
		}
	}
}

// coreParser builds a record parser over a fresh stream with ids of n bytes.
func coreParser(P *Program, it *Interp, st State, id int) (parser, reader *Term, out State, ok bool) {
	fn := P.fn("core.NewRecordParser")
	if fn == nil {
		return nil, nil, st, false
	}
	reader = typed(mkSym("p:dump", 0, nil), fn.Params[0].Type())
	var args []*Term
	for _, p := range fn.Params {
		if b, isB := p.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
			args = append(args, mkInt(int64(id)))
		} else {
			args = append(args, reader)
		}
	}
	parser, out = it.callFn(nil, "mk:"+fn.String(), st, fn, args, nil)
	return parser, reader, out, true
}

func resultParts(r *Term, sig *types.Signature) (val, err *Term) {
	n := sig.Results().Len()
	if n == 1 {
		return r, tNil
	}
	return mkExtract(r, 0, sig.Results().At(0).Type()), mkExtract(r, n-1, sig.Results().At(n-1).Type())
}

func okPC(out State, err *Term) *Term { return bAnd(out.pc, asBool(tEq(err, tNil))) }

func rootPos(P *Program, fn *ssa.Function) string {
	return trimRepo(P.prog.Fset.Position(fn.Pos()).Filename) + ":" + strconv.Itoa(P.prog.Fset.Position(fn.Pos()).Line)
}

func checkLayouts(R *Report) {
	P := R.P
	for _, id := range []int{4, 8} {
		for _, ly := range layouts {
			fn := P.fn("(*core.RecordParser)." + ly.fn)
			if !R.need(fn, "core.RecordParser."+ly.fn) {
				continue
			}
			it, st := P.newRun(true)
			it.okReads = true
			parser, reader, st, ok := coreParser(P, it, st, id)
			if !ok {
				R.fail("anchor", "core.NewRecordParser", "-", "missing")
				return
			}
			args := []*Term{parser}
			rest := tAdd(mkSym("p:textlen", 31, nil), mkInt(int64(id)))
			for range fn.Params[1:] {
				args = append(args, rest)
			}
			r, out := it.rootCall(st, fn, args)
			v, err := resultParts(r, fn.Signature)
			pc := okPC(out, err)
			l := &layRun{R: R, it: it, st: out, pc: pc, src: reader, id: id, tag: ly.fn, pos: rootPos(P, fn), off: mkInt(0), rest: rest}
			v = it.resolve(out, v)
			var stt *types.Struct
			if t := fn.Signature.Results().At(0).Type(); structOf(t) != nil {
				stt = structOf(t)
			}
			if v.k == KSym || stt == nil {
				l.check(false, "result", "result is "+show(v))
				continue
			}
			l.walk(v, stt, ly.fields, "", pc)
			got := it.getPos(State{pc, out.heap}, reader)
			l.check(eqUnder(pc, got, l.off), "consumed", "consumes "+show(got)+" bytes, want "+show(l.off))
			// with enough input and only defined types, no error is reported
			if !strings.Contains(ly.fn, "ClassDump") || strings.Contains(ly.fn, "Instance") {
				valid := tTrue
				if t := l.vals["ElementType"]; t != nil {
					valid = validType(t)
				}
				R.check(implied(bAnd(out.pc, valid), pc) && implied(valid, out.pc), "accepts", ly.fn+" (ids of "+strconv.Itoa(id)+" bytes)", l.pos, "a complete record can be rejected: "+show(bAnd(valid, bNot(pc))))
			}
			for _, e := range it.events {
				if e.kind == "undecided" {
					R.fail("undecided", ly.fn+": "+e.name, it.posStr(e.pos), "")
				}
			}
			R.used(it)
		}
	}
	checkValues(R)
	checkFileHeader(R)
}

// checkValues: every typed value of the format.
func checkValues(R *Report) {
	P := R.P
	fn := P.fn("(*core.PrimitiveParser).ParseJavaValue")
	mk := P.fn("core.NewPrimitiveParser")
	if !R.need(fn, "core.PrimitiveParser.ParseJavaValue") || !R.need(mk, "core.NewPrimitiveParser") {
		return
	}
	for _, id := range []int{4, 8} {
		for _, b := range basicTypes {
			it, st := P.newRun(true)
			it.okReads = true
			reader := typed(mkSym("p:dump", 0, nil), mk.Params[0].Type())
			parser, st := it.callFn(nil, "mk", st, mk, []*Term{reader, mkInt(int64(id))}, nil)
			r, out := it.rootCall(st, fn, []*Term{parser, mkInt(int64(b.code))})
			v, err := resultParts(r, fn.Signature)
			pc := okPC(out, err)
			l := &layRun{R: R, it: it, st: out, pc: pc, src: reader, id: id, tag: "ParseJavaValue", pos: rootPos(P, fn), off: mkInt(0)}
			v = it.resolve(out, v)
			if pc == tFalse || v.k != KStruct {
				l.check(false, b.name, "value of this type is not decoded: "+show(v))
				continue
			}
			l.typedValue(v, structOf(v.typ), b.code, pc, b.name)
			n := b.size
			if n == 0 {
				n = id
			}
			got := it.getPos(State{pc, out.heap}, reader)
			l.check(eqUnder(pc, got, mkInt(int64(n))), b.name+" consumed", "consumes "+show(got))
			R.used(it)
		}
	}
}

func checkFileHeader(R *Report) {
	P := R.P
	fn := P.fn("core.ParseFileHeader")
	if !R.need(fn, "core.ParseFileHeader") {
		return
	}
	it, st := P.newRun(true)
	it.okReads = true
	reader := typed(mkSym("p:dump", 0, nil), fn.Params[0].Type())
	r, out := it.rootCall(st, fn, []*Term{reader})
	v, err := resultParts(r, fn.Signature)
	pc := okPC(out, err)
	pos := rootPos(P, fn)
	v = it.resolve(out, v)
	stt := structOf(fn.Signature.Results().At(0).Type())
	const magic = "JAVA PROFILE 1.0.2"
	if pc == tFalse || stt == nil {
		R.fail("layout", "ParseFileHeader", pos, "never succeeds")
		return
	}
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		got := restrict(it.resolve(out, mkFld(v, i, f.Type())), pc)
		switch f.Name() {
		case "IdentifierSize":
			want := mkRead(4, reader, mkInt(int64(len(magic)+1)))
			R.check(sameNumber(pc, got, 4, want), "layout", "ParseFileHeader.IdentifierSize", pos, "got "+show(got))
		case "Timestamp":
			R.check(timestampTerm(got, reader, int64(len(magic)+5)), "layout", "ParseFileHeader.Timestamp", pos, "got "+showN(got, 12))
		case "Header":
			R.check(mentionsOnly(got, reader, magic), "layout", "ParseFileHeader.Header", pos, "got "+show(got))
		}
	}
	got := it.getPos(State{pc, out.heap}, reader)
	R.check(eqUnder(pc, got, mkInt(int64(len(magic)+13))), "layout", "ParseFileHeader consumed", pos, "consumes "+show(got)+", want "+strconv.Itoa(len(magic)+13))
	// the profile version must be compared with the supported one
	R.check(pc != tTrue && diagMentions(pc, reader), "layout", "ParseFileHeader version", pos, "the version text is not checked: "+show(pc))
	R.used(it)
}

func diagMentions(t, x *Term) bool {
	found := false
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(y *Term) {
		if seen[y] || found {
			return
		}
		seen[y] = true
		if y == x {
			found = true
			return
		}
		for _, a := range y.args {
			rec(a)
		}
		for _, c := range y.cases {
			for _, v := range c.vals {
				rec(v)
			}
			rec(c.kid)
		}
	}
	rec(t)
	return found
}

func mentionsOnly(t, reader *Term, magic string) bool {
	return t == mkStr(magic) || diagMentions(t, reader)
}

func init() {
	props["C01"] = propCheck{checkLayouts, "For every record, sub-record and value kind of the format, the value-flow analysis of the parsing method (callees inlined, loops solved symbolically, all dump bytes unknown) is compared field by field with the layout table of the format specification, for 4- and 8-byte identifiers: which bytes of the stream each reported field is made of, list lengths and strides, total bytes consumed, and that a complete record is not rejected."}
}
