package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The index of object positions: pairs of 8-byte identifier and 8-byte
// offset, written in increasing order and looked up by bisection.

var indexKinds = []string{"HprofGcInstanceDump", "HprofGcObjArrayDump", "HprofGcPrimArrayDump"}

// leafPath: a []byte reachable from an object through struct fields and
// pointers.
type leafPath struct {
	steps []int // field numbers; pointers are followed
	name  string
}

func byteLeaves(t types.Type, pre []int, name string, seen map[string]bool, out *[]leafPath) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	stt := structOf(t)
	if stt == nil || len(pre) > 8 {
		return
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), repoModule) || seen[n.String()+fmt.Sprint(len(pre))] {
			return
		}
	}
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		p := append(append([]int(nil), pre...), i)
		if sl, ok := f.Type().Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				*out = append(*out, leafPath{p, name + "." + f.Name()})
				continue
			}
		}
		byteLeaves(f.Type(), p, name+"."+f.Name(), seen, out)
	}
}

// leafValue: the bytes held at a path; nil counts as no bytes.
func (it *Interp) leafValue(st State, v *Term, t types.Type, steps []int) *Term {
	if v.k == KGamma {
		return mapLeaves(v, func(l *Term) *Term { return it.leafValue(st, l, t, steps) })
	}
	if v.k == KNil {
		return mkSeq(nil)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return it.leafValue(st, it.load(st, v, p.Elem()), p.Elem(), steps)
	}
	if len(steps) == 0 {
		return mapLeaves(it.content(st, v), func(l *Term) *Term {
			if l.k == KNil {
				return mkSeq(nil)
			}
			return l
		})
	}
	ft := structOf(t).Field(steps[0]).Type()
	return it.leafValue(st, mkFld(v, steps[0], ft), ft, steps[1:])
}

// ctorArgs: one unknown per parameter of a constructor.
func ctorArgs(fn *ssa.Function) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, typed(mkSym(fmt.Sprintf("p:arg%d", i), 0, nil), p.Type()))
	}
	return args
}

type ixWriter struct {
	R    *Report
	it   *Interp
	kind string
	put  *ssa.Function
	obj  *Term
	args []*Term
	pos  string
}

// ixState: the writer before anything is put, after the first record, in the
// middle of a batch, and after one more record.
type ixState struct {
	w                  *ixWriter
	s0, s1, gen, after State
	writes             []*Event
	leaf               *leafPath
	events             []*Event // of the put in the middle of a batch
	key, off           *Term
}

func (w *ixWriter) doPut(st State, tag string, key, off *Term) (err *Term, out State, writes []*Event) {
	n := len(w.it.events)
	err, out = w.it.callFn(nil, tag, st, w.put, []*Term{w.obj, key, off}, nil)
	return err, out, writesOf(w.it.events[n:])
}

func writesOf(evs []*Event) []*Event {
	var ws []*Event
	for _, e := range evs {
		if e.kind == "write" || e.kind == "writeat" {
			ws = append(ws, e)
		}
	}
	return ws
}

// written: the bytes delivered to file f by the given writes.
func written(ws []*Event, f *Term) *Term {
	w := mkSeq(nil)
	for _, e := range ws {
		if stripIface(e.args[0]) != stripIface(f) {
			continue
		}
		d := e.args[1]
		d = mapLeaves(d, func(l *Term) *Term {
			if l.k == KOp && l.op == "str" {
				return l.args[0]
			}
			return l
		})
		w = iteDC(e.st.pc, mkConcat(w, d), bNot(e.st.pc), w)
	}
	return w
}

func checkIndexFiles(R *Report) {
	P := R.P
	mk := P.fn("storage.NewBigRecordsWriteStorage")
	mkR := P.fn("storage.NewBigRecordsReadStorage")
	if !R.need(mk, "storage.NewBigRecordsWriteStorage") || !R.need(mkR, "storage.NewBigRecordsReadStorage") {
		return
	}
	wfile, rfile := map[string]int{}, map[string]int{}
	rsize := map[string]*Term{}
	for _, k := range indexKinds {
		put := P.fn("(*storage.BigRecordsWriteStorage)." + k + "PutOffset")
		get := P.fn("(*storage.BigRecordsReadStorage)." + k + "GetOffset")
		if !R.need(put, k+"PutOffset") || !R.need(get, k+"GetOffset") {
			continue
		}
		wfile[k] = checkIndexPut(R, k, mk, put)
		rfile[k], rsize[k] = checkIndexGet(R, k, mkR, get)
	}
	checkIndexNames(R, mk, mkR, wfile, rfile, rsize)
}

// checkIndexPut returns the constructor parameter holding the file of kind k.
func checkIndexPut(R *Report, k string, mk, put *ssa.Function) int {
	P := R.P
	it, st := P.newRun(true)
	w := &ixWriter{R: R, it: it, kind: k, put: put, args: ctorArgs(mk), pos: rootPos(P, put)}
	obj, s0 := it.callFn(nil, "mk", st, mk, w.args, nil)
	w.obj = obj
	key := func(i int) *Term { return typed(mkSym(fmt.Sprintf("p:key%d", i), 64, nil), put.Params[1].Type()) }
	off := func(i int) *Term { return mkSym(fmt.Sprintf("p:off%d", i), 62, nil) }

	// States: fresh; arbitrary with a batch in progress; and those after one
	// accepted record. Together these are all reachable ones.
	e1, s1, _ := w.doPut(s0, "a", key(0), off(0))
	s1.pc = okPC(s1, e1)
	type slot struct{ cell, field int }
	havoc := map[slot]*Term{}
	pc := s0.pc
	// widen: what changes from a to b is arbitrary from then on
	widen := func(a, b State, first bool) bool {
		more := false
		s0.heap.diff(b.heap, func(c int, zv *Term, zok bool, bv *Term, bok bool) {
			av, aok := a.heap.get(c)
			if !zok || !aok || !bok || av.k != KStruct || structOf(av.typ) == nil {
				return
			}
			stt := structOf(av.typ)
			for i := range av.args {
				ft := stt.Field(i).Type()
				k := slot{c, i}
				if havoc[k] != nil || av.args[i] == mkFld(restrict(bv, b.pc), i, ft) {
					continue
				}
				v := typed(mkSym(fmt.Sprintf("hv:%d.%d", c, i), 0, nil), ft)
				if _, ok := ft.Underlying().(*types.Pointer); ok && first {
					pc = bAnd(pc, bNot(asBool(tEq(v, tNil))))
				}
				havoc[k], more = v, true
			}
		})
		return more
	}
	widen(s0, s1, true)
	var gen, sg State
	var eg *Term
	var wg []*Event
	from := 0
	for round := 0; ; round++ {
		gen = State{pc, s0.heap}
		for k, v := range havoc {
			z, _ := gen.heap.get(k.cell)
			fs := append([]*Term(nil), z.args...)
			fs[k.field] = v
			gen.heap = gen.heap.set(k.cell, mkStruct(z.typ, fs...))
		}
		from = len(it.events)
		eg, sg, wg = w.doPut(gen, "g", key(1), off(1))
		if round == 3 || !widen(gen, State{okPC(sg, eg), sg.heap}, false) {
			break
		}
		it.events = it.events[:from]
	}

	var leaves []leafPath
	byteLeaves(put.Params[0].Type(), nil, "", map[string]bool{}, &leaves)
	var leaf *leafPath
	file := -1
	// the file and the buffer of this kind
	sgok := State{okPC(sg, eg), sg.heap}
	for fi, f := range w.args {
		hit := false
		for _, e := range wg {
			if stripIface(e.args[0]) == stripIface(f) {
				hit = true
			}
		}
		if hit {
			R.check(file < 0, "put-one-file", k, w.pos, "records of this kind are written to two files")
			file = fi
		}
	}
	if !R.check(file >= 0, "put-one-file", k, w.pos, "records of this kind are never written to a file") {
		return -1
	}
	enc := func(key, off *Term) *Term {
		return mkSeq([]*Term{mkOp("enc", mkInt(8), key), mkOp("enc", mkInt(8), off)})
	}
	eq := func(before, after State, ws []*Event, key, off *Term, lp leafPath) (bool, string) {
		t := put.Params[0].Type()
		p0 := it.leafValue(before, w.obj, t, lp.steps)
		p1 := it.leafValue(after, w.obj, t, lp.steps)
		lhs := mkConcat(written(ws, w.args[file]), p1)
		rhs := mkConcat(p0, enc(key, off))
		return eqUnder(after.pc, lhs, rhs), "written and kept: " + showN(restrict(lhs, after.pc), 9) + "\nwant: " + showN(restrict(rhs, after.pc), 9)
	}
	msg := ""
	for i := range leaves {
		ok, m := eq(gen, sgok, wg, key(1), off(1), leaves[i])
		if ok {
			leaf = &leaves[i]
			break
		}
		if len(m) > len(msg) {
			msg = m
		}
	}
	if !R.check(leaf != nil, "put-keeps-every-record", k+", batch in progress", w.pos, msg) {
		return file
	}
	if R.onIndex != nil {
		R.onIndex(&ixState{w, s0, s1, gen, sgok, wg, leaf, it.events[from:], key(1), off(1)})
		return file
	}
	ok, m := eq(s0, s1, nil, key(0), off(0), *leaf)
	R.check(ok, "put-keeps-every-record", k+", first record", w.pos, m)
	run2 := func(name string, a State, ka *Term) {
		eb, sb, wb := w.doPut(a, "b"+name, key(2), off(2))
		pcok := okPC(sb, eb)
		ok, m := eq(a, State{pcok, sb.heap}, wb, key(2), off(2), *leaf)
		R.check(ok, "put-keeps-every-record", k+", "+name, w.pos, m)
		back := tNeg(tSub(key(2), ka))
		R.check(implied(bAnd(pcok, a.pc), bNot(back)), "put-rejects-disorder", k+", "+name, w.pos, "a record whose identifier goes backwards is accepted: "+showN(bAnd(pcok, back), 8))
		failed := failedIn(sb)
		more := tNeg(tSub(ka, key(2)))
		R.check(implied(bAnd(bAnd(sb.pc, more), bNot(failed)), pcok), "put-accepts-order", k+", "+name, w.pos, "a record in order is rejected: "+showN(bAnd(bAnd(bAnd(sb.pc, more), bNot(failed)), bNot(pcok)), 8))
		R.check(implied(bAnd(sb.pc, failed), bNot(pcok)), "put-reports-failure", k+", "+name, w.pos, "a failed write is not reported")
		for _, e := range wb {
			R.check(stripIface(e.args[0]) == stripIface(w.args[file]) && e.kind == "write", "put-one-file", k, it.posStr(e.pos), "written to "+show(e.args[0]))
		}
	}
	run2("after the first record", s1, key(0))
	run2("after a record in the middle", sgok, key(1))
	// Close
	cl := P.fn("(*storage.BigRecordsWriteStorage).Close")
	if R.need(cl, "BigRecordsWriteStorage.Close") {
		for _, c := range []struct {
			n string
			s State
		}{{"nothing put", s0}, {"after the first record", s1}, {"batch in progress", gen}, {"after a record in the middle", sgok}} {
			n := len(it.events)
			c.s.heap = c.s.heap.set(ghostFail.id, tFalse)
			e, out := it.callFn(nil, "cl"+c.n, c.s, cl, []*Term{w.obj}, nil)
			pcok := okPC(out, e)
			ws := writesOf(it.events[n:])
			pend := it.leafValue(c.s, w.obj, put.Params[0].Type(), leaf.steps)
			got := written(ws, w.args[file])
			R.check(eqUnder(pcok, got, pend), "close-writes-rest", k+", "+c.n, rootPos(P, cl), "writes "+showN(restrict(got, pcok), 8)+" of "+showN(restrict(pend, pcok), 8))
			closed := tFalse
			for _, ev := range it.events[n:] {
				if ev.kind == "close" && stripIface(ev.args[0]) == stripIface(w.args[file]) {
					closed = bOr(closed, ev.st.pc)
					for _, wv := range ws {
						if wv.seq > ev.seq && stripIface(wv.args[0]) == stripIface(w.args[file]) && bAnd(wv.st.pc, ev.st.pc) != tFalse {
							R.check(false, "close-order", k+", "+c.n, it.posStr(ev.pos), "the file is closed before the last records are written")
						}
					}
				}
			}
			R.check(implied(pcok, closed), "close-closes", k+", "+c.n, rootPos(P, cl), "the file stays open when "+showN(bAnd(pcok, bNot(closed)), 6))
			failed := failedIn(out)
			R.check(implied(bAnd(out.pc, failed), bNot(pcok)), "close-reports-failure", k+", "+c.n, rootPos(P, cl), "reports success when "+showN(bAnd(bAnd(out.pc, failed), pcok), 8))
			R.check(implied(bAnd(c.s.pc, bNot(failed)), bOr(pcok, bNot(out.pc))), "close-succeeds", k+", "+c.n, rootPos(P, cl), "reports an error when nothing failed")
		}
	}
	R.used(it)
	return file
}

// checkIndexGet: bisection over the n records of the file.
func checkIndexGet(R *Report, k string, mk, get *ssa.Function) (file int, size *Term) {
	P := R.P
	it, st := P.newRun(true)
	args := ctorArgs(mk)
	pos := rootPos(P, get)
	file = -1
	r, st := it.callFn(nil, "mk", st, mk, args, nil)
	obj, err := resultParts(r, mk.Signature)
	st.pc = okPC(st, err)
	obj = restrict(obj, st.pc)
	n0 := len(it.events)
	key := typed(mkSym("p:key", 64, nil), get.Params[1].Type())
	r, out := it.callFn(nil, "get", st, get, []*Term{obj, key}, nil)
	v, err := resultParts(r, get.Signature)
	pcok := okPC(out, err)
	R.used(it)

	var reads []*Event
	for _, e := range it.events[n0:] {
		switch e.kind {
		case "readat", "read":
			reads = append(reads, e)
		case "undecided", "unknowncall", "unknownext":
			R.fail("undecided", e.kind+" "+e.name, it.posStr(e.pos), "")
		}
	}
	// found: the value next to an equal key
	var src, at *Term
	lv := restrict(v, pcok)
	var leaves []*Term
	mapLeaves(lv, func(l *Term) *Term { leaves = append(leaves, l); return l })
	R.check(pcok != tFalse, "get-finds", k, pos, "never finds anything")
	for _, l := range leaves {
		x := l
		for x.k == KOp && strings.HasPrefix(x.op, "s64") {
			x = x.args[0]
		}
		if !R.check(x.k == KOp && x.op == "u8", "get-finds", k, pos, "the position reported is "+show(l)) {
			return file, nil
		}
		src, at = x.args[0], tSub(x.args[1], mkInt(8))
	}
	if src == nil {
		return file, nil
	}
	for i, a := range args {
		if stripIface(a) == stripIface(src) {
			file = i
		}
	}
	R.check(file >= 0, "get-one-file", k, pos, "reads from "+show(src))
	kv := mkRead(8, src, at)
	R.check(implied(pcok, asBool(tEq(kv, key))), "get-finds", k+", key equal", pos, "reports a position of another identifier: "+showN(pcok, 9))
	for _, e := range reads {
		R.check(stripIface(e.args[0]) == stripIface(src), "get-one-file", k, it.posStr(e.pos), "reads from "+show(e.args[0]))
	}
	// Bisection: the window of candidates is [a, b+c), the probe its middle.
	type cand struct {
		a, b, num, mid *Term
		c              int64
	}
	var w *cand
	var mus []*Term
	for m := range it.muDefs {
		mus = append(mus, m)
	}
	sort.Slice(mus, func(i, j int) bool { return mus[i].id < mus[j].id })
	sized := false
	for _, a := range mus {
		for _, b := range mus {
			da, db := it.muDefs[a], it.muDefs[b]
			if a == b || da.loop != db.loop || da.init != mkInt(0) {
				continue
			}
			var c int64
			num, ok := sizeOf16(db.init, args)
			if !ok {
				num, ok = sizeOf16(tAdd(db.init, mkInt(1)), args)
				c = 1
			}
			if !ok {
				continue
			}
			sized = true
			for _, e := range reads {
				off := e.args[1]
				if e.kind == "read" {
					off = e.args[2]
				}
				m := mkDiv(off, mkInt(16))
				if tScale(m, 16) != off {
					continue
				}
				for _, h := range []*Term{tAdd(a, mkDiv(tSub(b, a), mkInt(2))), mkDiv(tAdd(a, b), mkInt(2)), tAdd(a, mkDiv(tAdd(tSub(b, a), mkInt(c)), mkInt(2))),
					mkOp("shr", tAdd(a, b), mkInt(1)), tAdd(a, mkOp("shr", tSub(b, a), mkInt(1)))} {
					if m == h {
						w = &cand{a, b, num, m, c}
					}
				}
			}
		}
	}
	if !R.check(sized, "get-window", k, pos, "the search does not cover the records of the file from the first to the last") {
		return file, nil
	}
	if !R.check(w != nil, "get-middle", k, pos, "the record in the middle of the window is not what is read") {
		return file, nil
	}
	size = w.num
	a, b, mid, c := w.a, w.b, w.mid, w.c
	da, db := it.muDefs[a], it.muDefs[b]
	end := tAdd(b, mkInt(c))
	nonempty := tNeg(tSub(a, end))
	kv = mkRead(8, src, tScale(mid, 16))
	back := da.back
	na, nb := da.step, db.step
	inv := bNot(tNeg(tSub(end, a))) // a <= end
	R.check(implied(bAnd(back, bAnd(inv, nonempty)), bNot(tNeg(tSub(tAdd(nb, mkInt(c)), na)))), "get-step", k+", window", pos, "the bounds can cross")
	R.check(implied(bAnd(back, inv), nonempty), "get-step", k+", bounds", pos, "reads outside the window")
	lo, hi, eq := bAnd(back, tNeg(tSub(kv, key))), bAnd(back, tNeg(tSub(key, kv))), bAnd(back, asBool(tEq(kv, key)))
	R.check(eqUnder(lo, na, tAdd(mid, mkInt(1))) && eqUnder(lo, nb, b), "get-step", k+", key further on", pos, "next bounds "+show(restrict(na, lo))+", "+show(restrict(nb, lo)))
	R.check(eqUnder(hi, tAdd(nb, mkInt(c)), mid) && eqUnder(hi, na, a), "get-step", k+", key before", pos, "next bounds "+show(restrict(na, hi))+", "+show(restrict(nb, hi)))
	failed := failedIn(out)
	miss := bAnd(bAnd(out.pc, bNot(pcok)), bNot(failed))
	if implied(eq, tFalse) {
		// an equal identifier ends the search
		R.check(at == tScale(mid, 16), "get-finds", k+", place", pos, "position taken from "+show(at))
		R.check(implied(miss, bNot(nonempty)), "get-misses", k, pos, "reports not found when records are left: "+showN(bAnd(miss, nonempty), 8))
	} else {
		// the search goes on to the first identifier that is not smaller
		R.check(eqUnder(eq, tAdd(nb, mkInt(c)), mid) && eqUnder(eq, na, a), "get-step", k+", key found", pos, "next bounds "+show(restrict(na, eq))+", "+show(restrict(nb, eq)))
		R.check(at == tScale(a, 16) || at == tScale(end, 16), "get-finds", k+", place", pos, "position taken from "+show(at))
		R.check(implied(bAnd(pcok, inv), bNot(nonempty)), "get-finds", k+", end of search", pos, "ends early")
		n := mkDiv(w.num, mkInt(16))
		there := bAnd(tNeg(tSub(mkDiv(at, mkInt(16)), n)), asBool(tEq(mkRead(8, src, at), key)))
		R.check(implied(miss, bNot(bAnd(nonempty, inv))) && implied(miss, bNot(there)), "get-misses", k, pos, "reports not found when the record is there: "+showN(bAnd(miss, there), 8))
	}
	R.check(implied(bAnd(out.pc, failed), bNot(pcok)), "get-reports-failure", k, pos, "a failed read is not reported")
	num := w.num
	// a corrupted size is rejected
	it2, st2 := P.newRun(true)
	r2, out2 := it2.callFn(nil, "mk", st2, mk, args, nil)
	_, err2 := resultParts(r2, mk.Signature)
	R.check(bAnd(okPC(out2, err2), bNot(asBool(tEq(mkOp("rem", num, mkInt(16)), mkInt(0))))) == tFalse, "size-checked", k, rootPos(P, mk), "a file of "+show(num)+" bytes is accepted")
	return file, size
}

// failedIn: the condition under which some fallible operation failed.
func failedIn(st State) *Term {
	g, has := st.heap.get(ghostFail.id)
	if !has {
		return tFalse
	}
	return mapLeaves(g, func(l *Term) *Term { return mkBool(l != tFalse) })
}

// sizeOf16: n = size/16 for one of the unknowns.
func sizeOf16(n *Term, args []*Term) (*Term, bool) {
	for _, a := range args {
		if n == mkDiv(a, mkInt(16)) {
			return a, true
		}
	}
	return nil, false
}

// checkIndexNames: what is written under a name is read under that name.
func checkIndexNames(R *Report, mk, mkR *ssa.Function, wfile, rfile map[string]int, rsize map[string]*Term) {
	P := R.P
	names := func(entry string, target *ssa.Function) (map[int]*Term, []*Term, *Interp) {
		fn := P.fn(entry)
		if !R.need(fn, entry) {
			return nil, nil, nil
		}
		it, st := P.newRun(true)
		it.okAll = true
		it.opaqueAll = func(f *ssa.Function) bool {
			return f.Pkg != nil && !strings.HasSuffix(f.Pkg.Pkg.Path(), "/internal/cmd")
		}
		it.rootCall(st, fn, symParams(fn))
		for _, e := range it.events {
			if e.kind == "opaque" && e.name == target.String() {
				out := map[int]*Term{}
				for i, a := range e.args {
					out[i] = it.fileName(e.st, stripIface(a))
				}
				R.used(it)
				return out, e.args, it
			}
		}
		R.fail("index-names", entry+" opens the index files", rootPos(P, fn), "no call of "+shortFn(target))
		return nil, nil, nil
	}
	w, _, _ := names("cmd.ParseHprof", mk)
	for _, entry := range []string{"cmd.GetThreads", "cmd.GetSummary", "cmd.GetObjects"} {
		r, rargs, it := names(entry, mkR)
		if w == nil || r == nil {
			continue
		}
		for _, k := range indexKinds {
			wi, ok1 := wfile[k]
			ri, ok2 := rfile[k]
			if !ok1 || !ok2 || wi < 0 || ri < 0 {
				continue
			}
			wn, rn := lastPart(w[wi]), lastPart(r[ri])
			R.check(wn != "" && wn == rn, "index-names", entry+": "+k, rootPos(P, mkR), "written to "+show(w[wi])+", read from "+show(r[ri]))
			// the size used is that of the same file
			sz := rsize[k]
			for i := range rargs {
				if sz != nil && sz == mkSym(fmt.Sprintf("p:arg%d", i), 0, nil) {
					R.check(diagMentions(rargs[i], stripIface(rargs[ri])), "index-size", entry+": "+k, rootPos(P, mkR), "size is "+show(rargs[i]))
				}
			}
			_ = it
		}
	}
}

// lastPart: the constant file name at the end of a path.
func lastPart(t *Term) string {
	for t.k == KOp && len(t.args) > 0 {
		t = t.args[len(t.args)-1]
	}
	if t.k != KStr {
		return ""
	}
	s := t.op
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func init() {
	props["C28"] = propCheck{checkIndexFiles, "The writer of the position index is analysed from every reachable state (fresh, batch in progress, just flushed) with unknown identifier and position: the bytes written to the file plus the bytes still held must grow by exactly the new pair, in order; a decreasing identifier must be refused and an increasing one accepted; closing must write what is held. The reader's loop is analysed as a bisection: window, probe, step in each direction, exit. The file names of writer and reader are compared per kind across all commands."}
}
