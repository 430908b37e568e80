package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pairText = " The comparison is of symbolic results: both functions are analysed over the same unknown inputs, with the same unknown outcomes of the exported look-ups of the layers below (decided by their own properties), and their results are brought into a normal form in which loops are maps, filters, sums or last-iteration values of what they range over; every field of the result must be the same term."

func init() {
	props["C20"] = propCheck{checkThreads, "The threads report (threads.GetThreadDump) is compared, field by field, with a specification that makes one entry per thread-object root with the attributes read from the named fields of that root's own object and the frames of its own stack trace." + pairText + " A second rule demands that the loops over threads and frames go on wherever the specification's do, so that a name missing from the dump does not end the report."}
	props["C21"] = propCheck{checkLocals, "The local variables of the frames in the threads report (threads.GetThreadDump) are compared with a specification that takes, for every frame of every thread, the JNI local roots and then the Java frame roots that name this thread and this position, each with the type of the object it refers to." + pairText}
	props["C22"] = propCheck{checkSummaryEnv, "The environment and the property list of the summary (summary.GetSummary) are compared with a specification that follows System.props through its map to the table and every chain of nodes in it." + pairText}
	props["C23"] = propCheck{checkTotals, "The heap numbers of the summary (summary.GetSummary) and the objects report (objects.GetObjects) are compared with specifications that compute them from the counters of the parse and the instance sizes of the classes." + pairText}
	props["C25"] = propCheck{checkTypes, "The conversions of decoded values (bool, int, long, object), the size and the name of a type and the text of a line number are compared with specifications, in both directions: the same result, and success in the same cases." + pairText}
	props["C08"] = propCheck{checkFields, "The look-up of an instance field by name is compared with a specification that goes up the chain of superclasses, adding the sizes of the fields it passes, and decodes the value found there." + pairText}
	props["C30"] = propCheck{checkStrings, "The decoding of Java strings is compared with a specification that follows the reference to the object, its value field and the bytes of the array, and refuses everything else." + pairText}
	props["C09"] = propCheck{checkPayloads, "The reading of an object and of an object array is compared with specifications that seek to the indexed position, decode the header there and read the payload behind it." + pairText}
	props["C32"] = propCheck{checkClasses, "The class put together from a class record is compared with a specification: its name from the load record, its own static and instance fields in order. The superclass is the result of the same function for the identifier in the record, and none for identifier 0." + pairText}
	props["C07"] = propCheck{checkStore, "For every kind of record a driver puts arbitrary records, in any number and order, into the collection the parser fills, stores it, restores it into the collection the reports read, and looks up or lists; the symbolic result must equal that of a specification without storage (latest record of a name, all roots in order). Storing is modelled as gob does it: exported fields, by name, and every concrete type that can be in an interface registered. The command is then analysed from main: the collection stored is the one the parser was given, after the parse, under the path (after renaming) from which the collection given to the report is restored; both concern the dump named on the command line; the parse is skipped only when an index is there."}
	props["C24"] = propCheck{checkUptime, "The uptime of the summary (summary.GetSummary) is compared with a specification that subtracts the start time kept by the runtime bean from the time stamp of the dump." + pairText}
}

func checkThreads(R *Report) {
	p := R.runPair("threads.GetThreadDump", "threads.njRefThreads", func(it *Interp) {
		it.okAll = true
		it.mayFail = func(n string) bool { return strings.HasSuffix(n, "GetHprofUtf8") }
	})
	if p == nil {
		return
	}
	layers(R, true, false)
	pc := bAnd(okPC(p.fout, p.fe), okPC(p.rout, p.re))
	p.differ("thread", pc, p.fv, p.rv, "", func(s string) bool { return strings.HasSuffix(s, ".LocalFrames") })
	R.atLeast("thread", 11)
	p.accepts("goes-on", false)
	R.atLeast("goes-on", 1)
}

func checkSummaryWith(R *Report, rule string, skip func(string) bool) {
	p := R.runPair("summary.GetSummary", "summary.njRefSummary", func(it *Interp) {
		it.okAll = true
	})
	if p == nil {
		return
	}
	pc := bAnd(okPC(p.fout, p.fe), okPC(p.rout, p.re))
	p.differ(rule, pc, p.fv, p.rv, "", skip)
	p.accepts("succeeds", true)
}

// layers: what a report reads objects with. Its numbers are right only if these are.
func layers(R *Report, strs, arrays bool) {
	fields(R)
	classes(R, false)
	payload(R, "Object")
	if strs {
		checkStrings(R)
	}
	if arrays {
		payload(R, "Array")
	}
}

func checkSummaryEnv(R *Report) {
	layers(R, true, true)
	classes(R, true)
	checkSummaryWith(R, "properties", func(s string) bool { return strings.HasPrefix(s, "Heap") || strings.HasPrefix(s, "System") })
	R.atLeast("properties", 7)
}

func checkUptime(R *Report) {
	layers(R, false, false)
	classes(R, true)
	checkSummaryWith(R, "uptime", func(s string) bool { return s != "" && s != "System" && s != "System.JvmUptime" })
	R.atLeast("uptime", 1)
}

func checkTotals(R *Report) {
	checkSummaryWith(R, "totals", func(s string) bool { return s != "" && !strings.HasPrefix(s, "Heap") })
	R.atLeast("totals", 4)
	p := R.runPair("objects.GetObjects", "objects.njRefObjects", func(it *Interp) {
		it.okAll = true
	})
	if p == nil {
		return
	}
	pc := bAnd(okPC(p.fout, p.fe), okPC(p.rout, p.re))
	// the order of the items is that of the text printed of them
	p.differ("objects", pc, asSet(p.fv), asSet(p.rv), "", nil)
	p.accepts("succeeds", true)
	R.atLeast("objects", 4)
}

// asSet: the lists in t in an order that does not depend on how they were made.
func asSet(t *Term) *Term {
	return rewriteTerm(t, func(x *Term) *Term {
		if x.k != KOp {
			return x
		}
		if x.op == "sorted" && len(x.args) == 2 {
			x = x.args[0]
		}
		if x.op == "seq" {
			parts := append([]*Term(nil), x.args...)
			for _, s := range parts {
				if len(s.args) < 2 || s.op != "each" && s.op != "flat" {
					return x
				}
			}
			sort.SliceStable(parts, func(i, j int) bool { return parts[i].args[1].id < parts[j].args[1].id })
			return rebuild(x, parts)
		}
		return x
	})
}

// specified compares a function with its specification in both directions:
// the same result, and success in the same cases.
func (R *Report) specified(rule, got, ref string, setup func(it *Interp)) *pairRun {
	p := R.runPair(got, ref, setup)
	if p == nil {
		return nil
	}
	f, r := okPC(p.fout, p.fe), okPC(p.rout, p.re)
	p.differ(rule, bAnd(f, r), p.fv, p.rv, "", nil)
	p.accepts(rule, true)
	if p.re != nil {
		R.check(implied(f, r), rule, p.name+": failures", p.pos, "succeeds when "+cleanTerm(showN(restrict(bNot(r), f), 6))+", where it has to fail")
	}
	return p
}

func checkTypes(R *Report) {
	for _, n := range []string{"Size", "TypeName", "Bool", "Int", "Long", "Object", "Line"} {
		R.specified("types", "core.njGot"+n, "core.Nj"+n, nil)
	}
	R.specified("types", "core.njGotValue", "core.NjValue", func(it *Interp) { it.okReads = true })
}

func checkFields(R *Report) {
	fields(R)
	R.atLeast("field", 5)
}

func fields(R *Report) {
	R.specified("field", "java.njGotField", "java.njRefField", func(it *Interp) {
		it.okReads = true
		it.opaqueAll = nil
	})
}

func checkStrings(R *Report) {
	R.specified("string", "java.njGotString", "java.njRefString", func(it *Interp) {
		it.opaqueAll = func(f *ssa.Function) bool { return heapOpaque(f) && f.Name() != "ParseJavaString" }
	})
}

func checkPayloads(R *Report) {
	payload(R, "Object")
	payload(R, "Array")
	R.atLeast("payload", 8)
}

func payload(R *Report, n string) {
	keep := func(f *ssa.Function) bool {
		switch f.Name() {
		case "ParseClass", "HprofGcInstanceDumpGetOffset", "HprofGcObjArrayDumpGetOffset", "HprofGcPrimArrayDumpGetOffset":
			return heapOpaque(f)
		}
		return false
	}
	R.specified("payload", "java.njGot"+n, "java.njRef"+n, func(it *Interp) {
		it.okReads = true
		it.opaqueAll = keep
	})
}

func checkClasses(R *Report) {
	classes(R, true)
	R.atLeast("class", 3)
	R.atLeast("superclass", 5)
}

func classes(R *Report, static bool) {
	p := R.runPair("java.njGotClass", "java.njRefClass", func(it *Interp) {
		it.opaqueAll = func(f *ssa.Function) bool { return heapOpaque(f) && f.Name() != "ParseClass" }
	})
	if p == nil {
		return
	}
	f, r := okPC(p.fout, p.fe), okPC(p.rout, p.re)
	pc := bAnd(f, r)
	p.differ("class", pc, p.fv, p.rv, "", func(s string) bool { return s == "Superclass" || s == "StaticFields" && !static })
	// the superclass: the same function again, for the identifier in the
	// class's own record, and none for identifier 0
	var super, id *Term
	var typ types.Type
	raw := restrict(p.raw, pc)
	for i := 0; raw.k == KStruct && i < len(raw.args); i++ {
		if structOf(raw.typ).Field(i).Name() == "Superclass" {
			super = raw.args[i]
			if pt, ok := structOf(raw.typ).Field(i).Type().Underlying().(*types.Pointer); ok {
				typ = pt.Elem()
			}
		}
	}
	for _, e := range p.fev {
		if e.kind == "opaque" && strings.HasSuffix(e.name, "GetHprofGcClassDump") && e.res != nil {
			id = classSuper(e)
		}
	}
	if super == nil || id == nil || typ == nil {
		R.fail("superclass", p.name, p.pos, "the record of the class is not looked up")
		return
	}
	none := asBool(tEq(id, mkInt(0)))
	isNil := asBool(tEq(super, tNil))
	R.check(implied(bAnd(pc, none), isNil), "superclass", p.name+": identifier 0", p.pos, "a class without superclass gets one")
	R.check(implied(bAnd(pc, bNot(none)), bNot(isNil)), "superclass", p.name+": other identifiers", p.pos, "a class with a superclass gets none")
	n := 0
	for _, e := range p.fev {
		if e.kind != "opaque" || !strings.HasPrefix(e.name, "rec:") {
			continue
		}
		n++
		found := false
		for _, a := range e.args {
			found = found || eqUnder(e.st.pc, a, id)
		}
		R.check(found, "superclass", p.name+": which class", p.it.posStr(e.pos), "the superclass is not looked up by the identifier in the class record")
		g := bAnd(pc, bNot(none))
		want := e.res
		if want != nil && want.k == KTuple {
			want = want.args[0]
		}
		got := p.it.derefAll(p.fout, p.it.load(p.fout, restrict(super, g), typ))
		R.check(want != nil && eqUnder(g, got, p.it.derefAll(p.fout, want)), "superclass", p.name+": result", p.it.posStr(e.pos), "the superclass is "+cleanTerm(showN(got, 5)))
	}
	R.check(n > 0, "superclass", p.name+": chain", p.pos, "the chain of superclasses is not followed")
}

func classSuper(e *Event) *Term {
	v := e.res
	if v.k == KTuple {
		v = v.args[0]
	}
	stt := structOf(v.typ)
	if stt == nil {
		return nil
	}
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == "SuperclassObjectId" {
			return mkFld(v, i, stt.Field(i).Type())
		}
	}
	return nil
}

func checkStore(R *Report) {
	names := []string{"Fresh", "NewMeta"}
	for _, n := range []string{"Utf8", "Class", "Frame", "Trace", "Dump", "JniGlobal", "JniLocal", "JavaFrame", "StickyClass", "ThreadObj",
		"IdSize", "Timestamp", "Instance", "ObjArray", "PrimArray"} {
		names = append(names, n, "New"+n)
	}
	for _, n := range names {
		p := R.runPair("storage.njGot"+n, "storage.njRef"+n, func(it *Interp) { it.opaqueAll = nil; it.okAll = true })
		if p == nil {
			return
		}
		p.differ("store", bAnd(okPC(p.fout, p.fe), okPC(p.rout, p.re)), p.fv, p.rv, "", nil)
		p.accepts("store", true)
		for _, e := range p.fev {
			if e.kind == "ob" && e.name == "nilmap" {
				R.check(e.st.pc == tFalse, "store-put", n, p.it.posStr(e.pos), "puts into a map that is not there")
			}
		}
	}
	R.atLeast("store", 17*22)
	R.checkGobTypes()
	R.checkWiring()
}

// checkLocals: the local variables of every frame of the threads report.
func checkLocals(R *Report) {
	p := R.runPair("threads.GetThreadDump", "threads.njRefLocals", func(it *Interp) {
		it.okAll, it.errByCall = true, true
		it.mayFail = func(n string) bool {
			return strings.HasSuffix(n, "GetHprofGcInstanceDump") || strings.HasSuffix(n, "GetHprofGcObjArray") || strings.HasSuffix(n, "GetHprofGcPrimArray")
		}
	})
	if p == nil {
		return
	}
	pc := bAnd(okPC(p.fout, p.fe), okPC(p.rout, p.re))
	p.differ("locals", pc, p.fv, p.rv, "", func(s string) bool {
		return s != "" && s != "StackTraces" && !strings.Contains(s, ".LocalFrames") && !strings.HasSuffix(s, ".Frames") && !strings.HasSuffix(s, "[]")
	})
	R.atLeast("locals", 1)
	p = R.runPair("threads.GetThreadDump", "threads.njRefNames", func(it *Interp) {
		it.okAll, it.errByCall = true, true
		it.mayFail = func(n string) bool {
			return strings.HasSuffix(n, "GetHprofGcInstanceDump") || strings.HasSuffix(n, "GetHprofGcObjArray") || strings.HasSuffix(n, "GetHprofGcPrimArray")
		}
	})
	if p == nil {
		return
	}
	p.accepts("name-found", false)
}

func checkNames(R *Report) {
	none := func(it *Interp) {
		it.opaqueAll = nil
		it.exitOf = map[*Term]exitVal{}
	}
	R.specified("names", "format.njGotClassName", "format.njRefClassName", none)
	R.specified("names", "format.njGotSize", "format.njRefSizeOf", none)
	// the state of the loop over a descriptor can be kept in several ways
	var best *pairRun
	var t []*Term
	for i := 0; i < 6; i++ {
		p := R.runPair("format.njGotSignature", "format.njRefSignature"+strconv.Itoa(i), none)
		if p == nil {
			return
		}
		u := p.it.coupled(p.fout.pc, p.rout.pc, p.fv, p.rv, p.fe, p.re)
		both := bAnd(u[0], u[1])
		same := implied(u[1], u[0]) && eqUnder(both, u[2], u[3]) && eqUnder(both, u[4], u[5])
		if best == nil || same {
			best, t = p, u
		}
		if same {
			break
		}
	}
	R.check(implied(t[1], t[0]), "names", best.name, best.pos, "fails when "+cleanTerm(showN(restrict(bNot(t[0]), t[1]), 6)))
	best.differ("names", bAnd(t[0], t[1]), t[2], t[3], "arguments", nil)
	best.differ("names", bAnd(t[0], t[1]), t[4], t[5], "result", nil)
	R.atLeast("names", 8)
}

// coupled rewrites the terms so that variables which run through the same
// values in two loops are the same: the coarsest partition of the loop
// variables that their first values and their steps respect.
func (it *Interp) coupled(ts ...*Term) []*Term {
	type lv struct{ v, init, step, of, first, other *Term }
	var vs []*lv
	var mus []*Term
	for m := range it.muDefs {
		mus = append(mus, m)
	}
	sort.Slice(mus, func(i, j int) bool { return mus[i].id < mus[j].id })
	sels := map[string]*Term{}
	var find func(t *Term, seen map[*Term]bool)
	find = func(t *Term, seen map[*Term]bool) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.k == KSym && strings.HasPrefix(t.op, "sel:") {
			sels[strings.TrimPrefix(t.op, "sel:")] = t
		}
		for _, a := range t.args {
			find(a, seen)
		}
		for _, c := range t.cases {
			find(c.kid, seen)
		}
	}
	seen := map[*Term]bool{}
	for _, t := range ts {
		find(t, seen)
	}
	for _, m := range mus {
		find(it.muDefs[m].step, seen)
	}
	// a choice among places is a variable of its own: 1 for the first place
	for _, m := range mus {
		d := it.muDefs[m]
		if d.init == nil || d.step == nil {
			continue
		}
		if s := sels[strings.TrimPrefix(m.op, "mu:")]; s != nil {
			vs = append(vs, &lv{v: s, init: mkInt(1), step: mapLeaves(d.step, func(l *Term) *Term {
				if l == d.init {
					return mkInt(1)
				}
				return mkInt(0)
			})})
		}
		vs = append(vs, &lv{v: m, init: d.init, step: d.step, of: m})
	}
	// variables with two values become truth values
	var twos []*lv
	m := map[*Term]*Term{}
	for _, v := range vs {
		var other *Term
		two := v.init.k == KInt || v.init == tTrue || v.init == tFalse
		mapLeaves(v.step, func(l *Term) *Term {
			switch {
			case l == v.init || l == v.v:
			case l.k != KInt && l != tTrue && l != tFalse, other != nil && other != l:
				two = false
			default:
				other = l
			}
			return l
		})
		if two && other != nil {
			b := mkSym("two:"+v.v.op, 0, nil)
			m[v.v] = iteDC(asBool(b), other, bNot(asBool(b)), v.init)
			twos = append(twos, &lv{v: b, init: v.v, step: other})
		}
	}
	for i := range ts {
		ts[i] = subst(ts[i], m)
	}
	for _, v := range vs {
		v.step = subst(v.step, m)
	}
	for _, b := range twos {
		for _, v := range vs {
			if v.v == b.init {
				v.first, v.other = v.init, b.step
				v.v, v.init, v.step = b.v, tFalse, asBool(tEq(v.step, b.step))
			}
		}
	}
	for _, v := range vs {
		// a list that grows: when, and by what
		grows, val := true, tNil
		when := mapLeaves(v.step, func(l *Term) *Term { return asBool0(l != v.v) })
		val = mapLeaves(v.step, func(l *Term) *Term {
			if l == v.v {
				return mkSym("nothing", 0, nil)
			}
			if l.k != KOp || l.op != "seq" || len(l.args) != 2 || l.args[0].op != "sub" || l.args[0].args[0] != v.v || l.args[1].op != "elem" {
				grows = false
				return l
			}
			return l.args[1].args[0]
		})
		if grows && v.step != v.v {
			v.step = mkOp("grows", when, val)
		}
	}
	class := make([]int, len(vs))
	n := 0
	for round := 0; ; round++ {
		rep := map[*Term]*Term{}
		for i, v := range vs {
			rep[v.v] = typed(mkSym("loopvar:"+strconv.Itoa(class[i]), 0, nil), v.v.typ)
		}
		type key struct {
			c int
			t *Term
		}
		ids := map[key]int{}
		for i, v := range vs {
			k := key{class[i], v.init}
			if round > 0 {
				k.t = subst(v.step, rep)
			}
			if _, ok := ids[k]; !ok {
				ids[k] = len(ids)
			}
			class[i] = ids[k]
		}
		if round > 0 && len(ids) == n || round > len(vs)+1 {
			for x, e := range it.exitOf {
				for i, v := range vs {
					if v.of == e.m {
						l := mkOp("last", x.args[0], mkInt(int64(class[i])), asBool0(e.over))
						if v.v != e.m {
							l = iteDC(asBool(l), v.other, bNot(asBool(l)), v.first)
						}
						rep[x] = typed(l, x.typ)
					}
				}
			}
			for i := range ts {
				ts[i] = rewrite(subst(ts[i], rep), nil, eachForm)
			}
			return ts
		}
		n = len(ids)
	}
}

func asBool0(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// eachForm: what is added in a round is only said for the rounds that add
// something, and their number is a sum.
func eachForm(t *Term) *Term {
	if t.k != KOp {
		return t
	}
	switch t.op {
	case "each":
		c := asBool(t.args[2])
		return mkOp("each", t.args[0], t.args[1], t.args[2], iteDC(c, t.args[3], bNot(c), mkSym("nothing", 0, nil)))
	case "catfor":
		if !dependsOn(t.args[2], t.args[0]) {
			return typed(mkOp("ext:strings.Repeat", t.args[2], t.args[1]), types.Typ[types.String])
		}
	case "count":
		if e := t.args[0]; e.k == KOp && e.op == "each" {
			c := asBool(e.args[2])
			return mkOp("sum", e.args[0], e.args[1], iteDC(c, mkInt(1), bNot(c), mkInt(0)))
		}
	}
	return t
}

func init() {
	props["C34"] = propCheck{checkNames, "The functions that turn a class name, a signature and a number of bytes into text are interpreted for an unknown argument and compared with reference functions in normal form; the variables of the loop over a signature and of the loop of the reference are merged where their first values and steps agree (partition refinement)."}
}
