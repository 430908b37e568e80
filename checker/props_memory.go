package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The parse keeps nothing of an object but what the index and the counters
// hold, so that a dump need not fit into memory.

// objectKinds: the sub-records that dumps are full of, and where in them the
// class or element type stands, behind the identifier, for n-byte identifiers.
var objectKinds = []struct {
	tag  int64
	name string
	at   func(n int) (off, size int)
}{
	{0x21, "instance", func(n int) (int, int) { return n + 4, n }},
	{0x22, "object array", func(n int) (int, int) { return n + 8, n }},
	{0x23, "primitive array", func(n int) (int, int) { return n + 8, 1 }},
}

func checkMemory(R *Report) {
	const n = 8
	t := newTraversal(R, n)
	if t == nil {
		return
	}
	P, it := R.P, t.it
	parse := rootPos(P, t.fn)
	// the part of a path on which an object is handled
	object := func(pc *Term) []int {
		var ks []int
		for i, k := range objectKinds {
			for _, h := range t.subs {
				if bAnd(pc, bAnd(h.st.pc, isTag(t.tagAt(h.args[2]), k.tag))) != tFalse && contains(pc, t.tagAt(h.args[2])) {
					ks = append(ks, i)
					break
				}
			}
		}
		return ks
	}
	// class, type: the same for many objects
	shared := map[*Term]*Term{}
	for _, h := range t.subs {
		for _, k := range objectKinds {
			off, size := k.at(n)
			shared[mkRead(size, t.src, tAdd(h.args[2], mkInt(int64(1+off))))] = mkInt(7)
		}
	}
	perObject := func(key *Term) bool {
		x := subst(key, shared)
		return diagMentions(x, t.src)
	}
	judge := func(ev []*Event, pc *Term, where string) {
		for _, e := range ev {
			ks := object(bAnd(pc, e.st.pc))
			if len(ks) == 0 {
				continue
			}
			what := objectKinds[ks[0]].name
			switch e.kind {
			case "makeslice":
				R.check(e.args[0].k == KInt, "payload", where, it.posStr(e.pos), "memory of "+cleanTerm(showN(e.args[0], 5))+" elements is taken while an "+what+" is handled")
			case "readall":
				R.check(false, "payload", where, it.posStr(e.pos), "the stream is read as a whole while an "+what+" is handled")
			case "append":
				l := mkSeqLen(e.args[0])
				R.check(allInts(l), "kept", where, it.posStr(e.pos), "something is added for every "+what+" to a list that is never emptied")
			case "mapput":
				R.check(!perObject(e.args[1]), "kept", where, it.posStr(e.pos), "an entry is made for every "+what+", under "+cleanTerm(showN(e.args[1], 5)))
			}
		}
	}
	judge(it.events, tTrue, "(*dump.Parser).ParseHeapDump")
	for _, e := range it.events {
		if e.kind == "readall" {
			R.check(false, "payload", "(*dump.Parser).ParseHeapDump", it.posStr(e.pos), "a stream is read as a whole")
		}
	}
	// what decodes and what keeps an object
	decoded, kept := map[string]*Event{}, map[string]*Event{}
	for name, es := range t.recs {
		for _, e := range es {
			if len(object(e.st.pc)) > 0 {
				decoded[name] = e
			}
		}
	}
	for name, es := range t.puts {
		for _, e := range es {
			if len(object(e.st.pc)) > 0 {
				kept[name] = e
			}
		}
	}
	for name := range decoded {
		f := P.fn("(*core.RecordParser)." + name)
		if !R.need(f, "RecordParser."+name) {
			continue
		}
		R.check(!holdsMany(f.Signature.Results().At(0).Type(), 0), "payload", shortFn(f), rootPos(P, f), "the decoded record holds the contents of the object")
		jt, st := P.newRun(true)
		jt.okReads = true
		jt.rootCall(st, f, symParams(f))
		R.used(jt)
		for _, e := range jt.events {
			switch e.kind {
			case "makeslice":
				R.check(e.args[0].k == KInt, "payload", shortFn(f), jt.posStr(e.pos), "memory of "+cleanTerm(showN(e.args[0], 5))+" elements is taken to decode the head of an object")
			case "readall":
				R.check(false, "payload", shortFn(f), jt.posStr(e.pos), "the stream is read as a whole to decode the head of an object")
			}
		}
	}
	R.atLeast("payload", 3)
	index := map[string]bool{}
	for _, k := range indexKinds {
		index[k+"PutOffset"] = true
	}
	for name, e := range kept {
		if index[name] || e.fn == nil {
			continue
		}
		var f *ssa.Function
		for _, g := range P.all {
			if g.String() == e.name {
				f = g
			}
		}
		if !R.need(f, name) {
			continue
		}
		from := len(it.events)
		old := it.opaqueAll
		it.opaqueAll = nil
		it.callFn(nil, "kept", e.st, f, e.args, nil)
		it.opaqueAll = old
		judge(it.events[from:], e.st.pc, shortFn(f))
		it.events = it.events[:from]
	}
	R.check(len(kept) >= 4, "anchor", "what is kept of an object", parse, fmt.Sprintf("only %d calls keep something of an object", len(kept)))
	// the index: held in batches
	mk := P.fn("storage.NewBigRecordsWriteStorage")
	if !R.need(mk, "storage.NewBigRecordsWriteStorage") {
		return
	}
	for _, k := range indexKinds {
		put := P.fn("(*storage.BigRecordsWriteStorage)." + k + "PutOffset")
		if !R.need(put, k+"PutOffset") {
			continue
		}
		R.onIndex = func(s *ixState) { boundedBatch(R, k, s) }
		checkIndexPut(R, k, mk, put)
		R.onIndex = nil
	}
	R.atLeast("batch", len(indexKinds))
	// the dump as a whole
	for _, f := range P.all {
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/internal/cmd") && !strings.HasSuffix(f.Pkg.Pkg.Path(), "/internal/dump") {
			continue
		}
		R.fns[shortFn(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				g := c.Common().StaticCallee().String()
				R.check(!wholeFile[g], "whole", shortFn(f)+" calls "+g, it.posStr(in.Pos()), "a file is read into memory as a whole")
			}
		}
	}
}

var wholeFile = map[string]bool{
	"io.ReadAll": true, "os.ReadFile": true, "io/ioutil.ReadAll": true, "io/ioutil.ReadFile": true, "(*bytes.Buffer).ReadFrom": true,
}

func allInts(t *Term) bool {
	ok := true
	mapLeaves(t, func(x *Term) *Term {
		ok = ok && (x.k == KInt || x.k == KBot)
		return x
	})
	return ok
}

// holdsMany: a value of the type can be of any size.
func holdsMany(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Array:
		return holdsMany(u.Elem(), depth+1)
	case *types.Pointer:
		return holdsMany(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsMany(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// boundedBatch: the batch is written out and emptied after a bounded number of
// records. A count that goes up by a constant with every record kept, starts
// again when the batch is written, and at a fixed limit makes it be written.
func boundedBatch(R *Report, kind string, s *ixState) {
	it, w := s.w.it, s.w
	t := w.put.Params[0].Type()
	flush := tFalse
	for _, e := range s.writes {
		flush = bOr(flush, e.st.pc)
	}
	ok := s.after.pc
	flush = bAnd(restrict(flush, ok), ok)
	held := func(st State) *Term { return it.leafValue(st, w.obj, t, s.leaf.steps) }
	if !R.check(flush != tFalse, "batch", kind, w.pos, "what is kept of an object is never written before the end") {
		return
	}
	for _, e := range s.events {
		switch e.kind {
		case "append":
			l := mkSeqLen(e.args[0])
			R.check(allInts(l) || contains(e.args[0], held(s.gen)), "kept", kind, it.posStr(e.pos), "something is added for every object to a list besides the batch")
		case "mapput":
			R.check(!contains(e.args[1], s.key) && !contains(e.args[1], s.off), "kept", kind, it.posStr(e.pos), "an entry is made for every object, under "+cleanTerm(showN(e.args[1], 5)))
		}
	}
	stay := bAnd(ok, bNot(flush))
	rest := restrict(mkSeqLen(held(s.after)), flush)
	R.check(allInts(rest), "batch", kind+", after writing", w.pos, "what was written is still held: "+cleanTerm(showN(rest, 5)))
	// the numbers that change from record to record
	type count struct{ now, next, first *Term }
	var counts []count
	changed := map[*Term]bool{}
	s.s0.heap.diff(s.gen.heap, func(c int, av *Term, aok bool, bv *Term, bok bool) {
		if !aok || !bok || bv.k != KStruct {
			return
		}
		nv, _ := s.after.heap.get(c)
		stt := structOf(bv.typ)
		for i, f := range bv.args {
			if f == mkFld(av, i, stt.Field(i).Type()) {
				continue
			}
			changed[f] = true
			if isInteger(stt.Field(i).Type()) && nv != nil {
				counts = append(counts, count{f, mkFld(nv, i, stt.Field(i).Type()), mkFld(av, i, stt.Field(i).Type())})
			}
		}
	})
	counts = append(counts, count{mkSeqLen(held(s.gen)), mkSeqLen(held(s.after)), mkInt(0)})
	why := "no count leads to that"
	for _, x := range counts {
		step := tSub(restrict(x.next, stay), x.now)
		if x.now.k == KInt || step.k != KInt || step.i == 0 {
			continue
		}
		again := restrict(x.next, flush)
		if !allInts(again) || !allInts(x.first) {
			why = "the count does not start again"
			continue
		}
		for _, d := range discs(flush) {
			lin, bound := d, d
			if d.k == KOp && d.op == "neg" {
				lin = d.args[0]
			}
			if !contains(lin, x.now) {
				continue
			}
			slope := tSub(subst(lin, map[*Term]*Term{x.now: tAdd(x.now, mkInt(1))}), lin)
			if slope.k != KInt || slope.i != 1 && slope.i != -1 {
				continue
			}
			moving := false
			for c := range changed {
				moving = moving || contains(subst(lin, map[*Term]*Term{x.now: mkInt(0)}), c)
			}
			if moving {
				continue
			}
			up := slope.i * step.i
			var limits []*Term
			if lin != d {
				// beyond the limit, whichever side the count moves to
				if up > 0 {
					bound = bNot(d)
				}
				limits = append(limits, bound)
			} else if up == 1 || up == -1 {
				at := func(v *Term) *Term { return subst(lin, map[*Term]*Term{x.now: v}) }
				for _, v := range caseVals(flush, d) {
					near := true
					for _, from := range []*Term{x.first, again} {
						gap := tScale(tSub(v, mapLeaves(from, at)), up)
						near = near && tNeg(gap) != tTrue
					}
					if near {
						limits = append(limits, asBool(tEq(lin, v)))
					}
				}
			}
			for _, l := range limits {
				if implied(bAnd(ok, l), flush) {
					R.check(true, "batch", kind+", limit", w.pos, "")
					return
				}
			}
			why = "the count can go beyond its limit without that"
		}
	}
	R.check(false, "batch", kind+", limit", w.pos, "what is kept of an object is not certain to be written after a fixed number of objects: "+why+"; it is when "+cleanTerm(showN(flush, 8)))
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// caseVals: the values the choices on d in t tell apart.
func caseVals(t, d *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x.k != KGamma || seen[x] {
			return
		}
		seen[x] = true
		for _, c := range x.cases {
			if x.args[0] == d {
				out = append(out, c.vals...)
			}
			rec(c.kid)
		}
	}
	rec(t)
	return out
}

func init() {
	props["C11"] = propCheck{checkMemory, "The parse is analysed over an arbitrary dump. On the paths that handle an instance or array no memory is taken whose size the dump decides, nothing is added to a list, and maps are only written under the class or type of the object; the same for the functions that decode the head of an object (whose result holds nothing of variable size) and those that keep something of it. The index holds a batch: by induction over arbitrary states of the writer a count goes up with every pair kept, starts again when the batch is written and emptied, and makes it be written at a fixed limit. No function of the command or the parser reads a file as a whole."}
}
