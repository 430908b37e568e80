package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// parseRun analyses the dump traversal with identifiers of id bytes; storage
// operations are recorded as opaque effects.
func parseRun(P *Program, id int, okReads bool) (it *Interp, r *Term, out State, reader *Term, fn *ssa.Function) {
	fn = P.fn("(*dump.Parser).ParseHeapDump")
	mk := P.fn("dump.NewParser")
	if fn == nil || mk == nil {
		return nil, nil, State{}, nil, nil
	}
	it, st := P.newRun(true)
	it.okReads = okReads
	var args []*Term
	for i, p := range mk.Params {
		a := typed(mkSym("p:arg"+fmt.Sprint(i), 0, nil), p.Type())
		if strings.HasSuffix(p.Type().String(), "io.Reader") {
			reader = a
		}
		args = append(args, a)
	}
	parser, st := it.callFn(nil, "mk", st, mk, args, nil)
	it.opaqueAll = func(f *ssa.Function) bool {
		return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/internal/storage")
	}
	it.onCall = func(fr *Frame, s State, in ssa.CallInstruction, f *ssa.Function, a []*Term) (*Term, State, bool) {
		if shortFn(f) != "core.ParseFileHeader" {
			return it.sumRecord(fr, s, in, f, a, id)
		}
		ref := stripIface(a[0])
		off := it.getPos(s, ref)
		it.emit(fr, s, in, "fileheader", "", nil, ref, off)
		s = it.setPos(s, ref, tAdd(off, mkInt(31)))
		rt := f.Signature.Results().At(0).Type()
		stt := structOf(rt)
		var fs []*Term
		for i := 0; i < stt.NumFields(); i++ {
			switch stt.Field(i).Name() {
			case "IdentifierSize":
				fs = append(fs, mkInt(int64(id)))
			case "Header":
				fs = append(fs, mkStr("JAVA PROFILE 1.0.2"))
			default:
				fs = append(fs, typed(mkSym("p:timestamp", 0, nil), stt.Field(i).Type()))
			}
		}
		e := tNil
		if !okReads {
			ok := mkSym("?ok:fileheader", 0, nil)
			s = it.noteFail(fr, s, in, "ParseFileHeader", ok)
			e = iteDC(ok, tNil, bNot(ok), tErr)
		}
		return mkTuple(mkStruct(rt, fs...), e), s, true
	}
	r, out = it.rootCall(st, fn, []*Term{parser})
	return
}

// The record kinds of a dump: tag, parser, and the storage call that keeps it.
var topKinds = []struct {
	tag        int64
	parse, put string
}{
	{0x01, "ParseHprofUtf8", "PutHprofUtf8"},
	{0x02, "ParseHprofLoadClass", "PutHprofLoadClass"},
	{0x04, "ParseHprofFrame", "PutHprofFrame"},
	{0x05, "ParseHprofTrace", "PutHprofTrace"},
}

var subKinds = []struct {
	tag               int64
	parse, put, index string
}{
	{0x01, "ParseHprofGcRootJniGlobal", "PutHprofGcRootJniGlobal", ""},
	{0x02, "ParseHprofGcRootJniLocal", "PutHprofGcRootJniLocal", ""},
	{0x03, "ParseHprofGcRootJavaFrame", "PutHprofGcRootJavaFrame", ""},
	{0x05, "ParseHprofGcRootStickyClass", "PutHprofGcRootStickyClass", ""},
	{0x08, "ParseHprofGcRootThreadObj", "PutHprofGcRootThreadObj", ""},
	{0x20, "ParseHprofGcClassDump", "PutHprofGcClassDump", ""},
	{0x21, "ParseHprofGcClassDumpInstanceDumpHeader", "AddInstance", "HprofGcInstanceDumpPutOffset"},
	{0x22, "ParseHprofGcObjArrayDumpHeader", "AddInstance", "HprofGcObjArrayDumpPutOffset"},
	{0x23, "ParseHprofGcPrimArrayDumpHeader", "AddInstance", "HprofGcPrimArrayDumpPutOffset"},
}

// traversal is one analysed run over an arbitrary dump.
type traversal struct {
	R      *Report
	id     int
	it     *Interp
	ret    *Term
	out    State
	src    *Term
	fn     *ssa.Function
	heads  []*Event // record headers
	subs   []*Event // sub-record headers
	recs   map[string][]*Event
	puts   map[string][]*Event
	suffix string
}

func newTraversal(R *Report, id int) *traversal {
	it, r, out, src, fn := parseRun(R.P, id, true)
	if !R.need(fn, "dump.Parser.ParseHeapDump") {
		return nil
	}
	t := &traversal{R: R, id: id, it: it, ret: r, out: out, src: src, fn: fn, recs: map[string][]*Event{}, puts: map[string][]*Event{},
		suffix: " (ids of " + fmt.Sprint(id) + " bytes)"}
	for _, e := range it.events {
		switch e.kind {
		case "record":
			switch e.name {
			case "ParseRecordHeader":
				t.heads = append(t.heads, e)
			case "ParseSubRecordHeader":
				t.subs = append(t.subs, e)
			default:
				t.recs[e.name] = append(t.recs[e.name], e)
			}
		case "opaque":
			n := e.name[strings.LastIndex(e.name, ".")+1:]
			t.puts[n] = append(t.puts[n], e)
		case "undecided", "unknowncall", "unknownext":
			R.fail("undecided", e.kind+" "+e.name+t.suffix, it.posStr(e.pos), "")
		}
	}
	R.used(it)
	R.check(len(t.heads) > 0, "anchor", "record headers are read"+t.suffix, rootPos(R.P, fn), "no record header is read from the dump")
	R.check(len(t.subs) > 0, "anchor", "sub-record headers are read"+t.suffix, rootPos(R.P, fn), "no sub-record header is read from the dump")
	return t
}

func (t *traversal) at(e *Event) string { return t.it.posStr(e.pos) }

// tagAt: the kind byte at off.
func (t *traversal) tagAt(off *Term) *Term { return mkRead(1, t.src, off) }

func isTag(v *Term, k int64) *Term { return asBool(tEq(v, mkInt(k))) }

// bodyGuard: under which the body at off of kind (tag byte delta before it) is
// what the dump contains, given that the header event is reached.
func (t *traversal) covers(es []*Event, need *Term, ok func(e *Event) bool) (missing *Term) {
	for _, e := range es {
		if ok == nil || ok(e) {
			need = bAnd(need, bNot(e.st.pc))
		}
	}
	return need
}

func (t *traversal) expected(parse string, rt types.Type, off *Term) (v, size *Term) {
	return recordAt(layoutNamed(parse), rt, t.src, off, t.id, []*Term{mkRead(4, t.src, tSub(off, mkInt(4)))})
}

func (t *traversal) resultType(parse string) types.Type {
	f := t.R.P.fn("(*core.RecordParser)." + parse)
	if f == nil {
		return nil
	}
	return f.Signature.Results().At(0).Type()
}

// nextOffset: where the next header of the same kind is read, after the one of
// event e, per case of the loop; nil when the offset is not loop-carried.
func (t *traversal) nextOffset(e *Event) (next, back *Term, ok bool) {
	off := e.args[2]
	var mu *Term
	for m := range t.it.muDefs {
		if contains(off, m) && tSub(off, m).k == KInt {
			mu = m
		}
	}
	if mu == nil {
		return nil, nil, false
	}
	d := t.it.muDefs[mu]
	return tAdd(d.step, tSub(off, mu)), d.back, true
}

// checkRecordBodies: each kind of record is decoded where its tag stands.
func (t *traversal) checkBodies() {
	one := func(parse string, hdrs []*Event, delta int64, tag int64) {
		es := t.recs[parse]
		var rule = "decoded-by-kind"
		for _, e := range es {
			okk := false
			for _, h := range hdrs {
				if tSub(e.args[2], h.args[2]) == mkInt(delta) && implied(e.st.pc, isTag(t.tagAt(h.args[2]), tag)) {
					okk = true
				}
			}
			t.R.check(okk, rule, parse+t.suffix, t.at(e), "records of this kind are decoded at "+show(e.args[2])+" when "+show(e.st.pc))
		}
		for _, h := range hdrs {
			miss := t.covers(es, bAnd(h.st.pc, isTag(t.tagAt(h.args[2]), tag)), func(e *Event) bool { return tSub(e.args[2], h.args[2]) == mkInt(delta) })
			t.R.check(miss == tFalse, "decoded-always", parse+t.suffix, t.at(h), "not decoded when "+show(miss))
		}
	}
	for _, k := range topKinds {
		one(k.parse, t.heads, 9, k.tag)
	}
	for _, k := range subKinds {
		one(k.parse, t.subs, 1, k.tag)
	}
}

// checkSync: after each record the next header is read right behind it.
func (t *traversal) checkSync() {
	id := t.id
	for _, h := range t.heads {
		t.R.check(h.args[1] == t.src, "stream", "record headers come from the dump"+t.suffix, t.at(h), show(h.args[1]))
		next, back, ok := t.nextOffset(h)
		if !t.R.check(ok, "sync", "record header position"+t.suffix, t.at(h), "position "+show(h.args[2])+" is not a running position") {
			continue
		}
		off := h.args[2]
		tag := t.tagAt(off)
		// records before the first header: the 31 bytes of the file header
		for _, k := range topKinds {
			g := bAnd(back, bAnd(h.st.pc, isTag(tag, k.tag)))
			want := tAdd(off, tAdd(mkInt(9), mkRead(4, t.src, tAdd(off, mkInt(5)))))
			switch k.tag {
			case 2:
				want = tAdd(off, mkInt(int64(9+8+2*id)))
			case 4:
				want = tAdd(off, mkInt(int64(9+8+4*id)))
			case 5:
				want = tAdd(tAdd(off, mkInt(21)), tScale(mkRead(4, t.src, tAdd(off, mkInt(17))), int64(id)))
			}
			t.R.check(!dead(g) && eqUnder(g, next, want), "sync", "after "+k.parse+t.suffix, t.at(h), "next header at "+show(restrict(next, g))+", record ends at "+show(want))
		}
		g := bAnd(back, bAnd(h.st.pc, isTag(tag, 0x1c)))
		// the segment ends where the kind byte that ended it stands
		nx := restrict(next, g)
		good := nx.k != KBot
		mapLeaves(nx, func(l *Term) *Term {
			hit := false
			for _, s := range t.subs {
				if l == s.args[2] {
					hit = true
				}
			}
			good = good && hit
			return l
		})
		t.R.check(good, "sync", "after a segment"+t.suffix, t.at(h), "next header at "+show(nx))
	}
	for _, s := range t.subs {
		t.R.check(s.args[1] == t.src, "stream", "sub-record headers come from the dump"+t.suffix, t.at(s), show(s.args[1]))
		next, back, ok := t.nextOffset(s)
		if !t.R.check(ok, "sync", "sub-record header position"+t.suffix, t.at(s), "position "+show(s.args[2])+" is not a running position") {
			continue
		}
		off := s.args[2]
		tag := t.tagAt(off)
		for _, k := range subKinds {
			g := bAnd(back, bAnd(s.st.pc, isTag(tag, k.tag)))
			body := tAdd(off, mkInt(1))
			_, size := t.expected(k.parse, t.resultType(k.parse), body)
			switch k.tag {
			case 0x21:
				size = tAdd(size, mkRead(4, t.src, tAdd(body, mkInt(int64(2*id+4)))))
			case 0x22:
				size = tAdd(size, tScale(mkRead(4, t.src, tAdd(body, mkInt(int64(id+4)))), int64(id)))
			case 0x23:
				n := mkRead(4, t.src, tAdd(body, mkInt(int64(id+4))))
				ty := mkRead(1, t.src, tAdd(body, mkInt(int64(id+8))))
				g = bAnd(g, validType(ty))
				base := size
				size = mapLeaves(typeSize(ty, id), func(l *Term) *Term { return tAdd(base, tScale(n, l.i)) })
			}
			want := mapLeaves(size, func(l *Term) *Term { return tAdd(body, l) })
			d := distribute(tSub(next, want))
			t.R.check(!dead(g) && (eqUnder(g, next, want) || t.it.eqAssuming(g, d)), "sync", "after "+k.parse+t.suffix, t.at(s),
				"next kind byte at "+show(restrict(next, g))+", record ends at "+show(want))
		}
		// first position of a segment: right behind its header
		mu := tSub(off, mkInt(0))
		for m, d := range t.it.muDefs {
			if contains(off, m) && tSub(off, m).k == KInt {
				mu = tAdd(d.init, tSub(off, m))
			}
		}
		good := false
		for _, h := range t.heads {
			if mu == tAdd(h.args[2], mkInt(9)) && implied(s.st.pc, isTag(t.tagAt(h.args[2]), 0x1c)) {
				good = true
			}
		}
		t.R.check(good, "sync", "first sub-record"+t.suffix, t.at(s), "segment starts at "+show(mu))
	}
	// the first record header
	for _, h := range t.heads {
		for m, d := range t.it.muDefs {
			if contains(h.args[2], m) && tSub(h.args[2], m).k == KInt {
				first := tAdd(d.init, tSub(h.args[2], m))
				t.R.check(first == mkInt(31), "sync", "first record"+t.suffix, t.at(h), "first record header at "+show(first)+", the file header has 31 bytes")
			}
		}
	}
}

// checkIndex: offsets recorded for objects.
func (t *traversal) checkIndex() {
	for _, k := range subKinds {
		if k.index == "" {
			continue
		}
		es := t.puts[k.index]
		for _, e := range es {
			if len(e.args) != 3 {
				t.R.fail("index-offset", k.index+t.suffix, t.at(e), "unexpected arguments")
				continue
			}
			key, off := e.args[1], e.args[2]
			tagOK := false
			for _, s := range t.subs {
				if eqUnder(e.st.pc, off, tAdd(s.args[2], mkInt(1))) && implied(e.st.pc, isTag(t.tagAt(s.args[2]), k.tag)) {
					tagOK = true
				}
			}
			t.R.check(tagOK, "index-offset", k.index+t.suffix, t.at(e), "offset "+show(off)+" is not where a record of this kind starts")
			if tagOK {
				t.R.check(eqUnder(e.st.pc, key, mkRead(t.id, t.src, off)), "index-key", k.index+t.suffix, t.at(e), "key "+show(key)+" is not the identifier stored at "+show(off))
			}
		}
		for _, s := range t.subs {
			g := t.bodyOK(s, k.tag)
			miss := t.covers(es, g, nil)
			t.R.check(miss == tFalse, "indexed", k.index+t.suffix, t.at(s), "no offset is recorded when "+show(miss))
		}
	}
}

// bodyOK: a sub-record of the kind stands at the header event s.
func (t *traversal) bodyOK(s *Event, tag int64) *Term {
	g := bAnd(s.st.pc, isTag(t.tagAt(s.args[2]), tag))
	if tag == 0x23 {
		g = bAnd(g, validType(t.tagAt(tAdd(s.args[2], mkInt(int64(1+t.id+8))))))
	}
	return g
}

// checkKept: every decoded record reaches its storage.
func (t *traversal) checkKept() {
	one := func(parse, put string, hdrs []*Event, delta, tag int64, idx string) {
		rt := t.resultType(parse)
		if rt == nil {
			t.R.fail("anchor", parse, "-", "missing")
			return
		}
		var mine []*Event
		for _, e := range t.puts[put] {
			if len(e.args) != 2 {
				continue
			}
			a := e.args[1]
			if a.k == KIface {
				if !types.Identical(a.typ, rt) {
					continue
				}
				a = a.args[0]
			} else if put == "AddInstance" {
				t.R.fail("kept", put+" argument"+t.suffix, t.at(e), "cannot tell what is counted: "+show(a))
				continue
			}
			hit := false
			for _, h := range hdrs {
				off := tAdd(h.args[2], mkInt(delta))
				want, _ := t.expected(parse, rt, off)
				if eqUnder(e.st.pc, a, want) && implied(e.st.pc, isTag(t.tagAt(h.args[2]), tag)) {
					hit = true
				}
			}
			t.R.check(hit, "kept", parse+t.suffix, t.at(e), "stored record is "+show(a)+" when "+show(e.st.pc))
			if hit {
				mine = append(mine, e)
				t.R.check(countIn(t.puts[put], e) == 1, "kept-once", parse+t.suffix, t.at(e), "stored more than once")
			}
		}
		for _, h := range hdrs {
			g := bAnd(h.st.pc, isTag(t.tagAt(h.args[2]), tag))
			if idx != "" {
				// counting may follow a failed index write, which aborts
				g = t.bodyOK(h, tag)
				for _, e := range t.puts[idx] {
					if ok := e.res; ok != nil {
						g = bAnd(g, asBool(tEq(ok, tNil)))
					}
				}
			}
			miss := t.covers(mine, g, nil)
			t.R.check(miss == tFalse, "kept-always", parse+t.suffix, t.at(h), "not stored when "+show(miss))
		}
		// no record counted twice
		for i, a := range mine {
			for _, b := range mine[i+1:] {
				t.R.check(bAnd(a.st.pc, b.st.pc) == tFalse, "kept-once", parse+t.suffix, t.at(b), "stored more than once")
			}
		}
	}
	for _, k := range topKinds {
		one(k.parse, k.put, t.heads, 9, k.tag, "")
	}
	for _, k := range subKinds {
		one(k.parse, k.put, t.subs, 1, k.tag, k.index)
	}
	for put, want := range map[string]string{"PutIdSize": "8", "PutTimestamp": "p:timestamp"} {
		es := t.puts[put]
		ok := len(es) > 0
		for _, e := range es {
			got := e.args[len(e.args)-1]
			if put == "PutIdSize" {
				ok = ok && got == mkInt(int64(t.id))
			} else {
				ok = ok && strings.Contains(showN(got, 12), want)
			}
		}
		t.R.check(ok, "kept", put+t.suffix, rootPos(t.R.P, t.fn), "file header value not stored")
	}
}

func countIn(es []*Event, e *Event) int {
	n := 0
	for _, x := range es {
		if x == e {
			n++
		}
	}
	return n
}

// checkUnknown: record kinds the tool does not know are reported.
func (t *traversal) checkUnknown() {
	for _, h := range t.heads {
		var known []*Term
		for _, k := range topKinds {
			known = append(known, mkInt(k.tag))
		}
		known = append(known, mkInt(0x1c), mkInt(0x2c))
		g := bAnd(h.st.pc, bNot(tEqAny(t.tagAt(h.args[2]), known)))
		t.rejects(h, g, "records of unknown kind")
	}
	for _, s := range t.subs {
		var known []*Term
		for _, k := range subKinds {
			known = append(known, mkInt(k.tag))
		}
		known = append(known, mkInt(0x1c), mkInt(0x2c))
		// root kinds of the format that carry nothing reported
		known = append(known, mkInt(0xff), mkInt(4), mkInt(6), mkInt(7))
		g := bAnd(s.st.pc, bNot(tEqAny(t.tagAt(s.args[2]), known)))
		t.rejects(s, g, "sub-records of unknown kind")
		size := map[int64]int{0xff: t.id, 4: t.id + 4, 6: t.id + 4, 7: t.id}
		for _, k := range []int64{0xff, 4, 6, 7} {
			g := bAnd(s.st.pc, isTag(t.tagAt(s.args[2]), k))
			next, back, ok := t.nextOffset(s)
			nx := restrict(next, bAnd(back, g))
			if ok && !dead(bAnd(back, g)) {
				g = bAnd(back, g)
				want := tAdd(s.args[2], mkInt(int64(1+size[k])))
				t.R.check(eqUnder(g, next, want), "unknown", fmt.Sprintf("sub-records of kind 0x%02x%s", k, t.suffix), t.at(s), "next kind byte at "+show(nx)+", record ends at "+show(want))
				continue
			}
			t.rejects(s, g, fmt.Sprintf("sub-records of kind 0x%02x", k))
		}
	}
}

func (t *traversal) rejects(e *Event, g *Term, what string) {
	// the traversal does not go on …
	next, back, ok := t.nextOffset(e)
	if ok {
		g2 := bAnd(back, g)
		nx := restrict(next, g2)
		skipped := false
		for _, h := range t.heads {
			if h == e { // records carry their length
				skipped = eqUnder(g2, next, tAdd(e.args[2], tAdd(mkInt(9), mkRead(4, t.src, tAdd(e.args[2], mkInt(5))))))
			}
		}
		t.R.check(dead(g2) || skipped, "unknown", what+" stop the traversal or are skipped"+t.suffix, t.at(e), "continues at "+show(nx))
	}
	// … and the result is an error
	_, err := resultParts(t.ret, t.fn.Signature)
	if t.fn.Signature.Results().Len() == 1 {
		err = t.ret
	}
	bad := bAnd(bAnd(t.out.pc, g), asBool(tEq(err, tNil)))
	t.R.check(bad == tFalse, "unknown", what+" are reported"+t.suffix, t.at(e), "success is possible when "+show(bad))
}

func dead(pc *Term) bool { return pc == tFalse || pc.k == KBot }

func forIDs(R *Report, f func(t *traversal)) {
	for _, id := range []int{4, 8} {
		if t := newTraversal(R, id); t != nil {
			f(t)
		}
	}
}

// checkClassSize: the size accounted for a class dump is what decoding it
// consumed.
func checkClassSize(R *Report) {
	for _, id := range []int{4, 8} {
		fn, of, mk := R.P.fn("(*core.RecordParser).ParseHprofGcClassDump"), R.P.fn("(core.SizeInfo).Of"), R.P.fn("core.NewSizeInfo")
		if of == nil {
			of = R.P.fn("(*core.SizeInfo).Of")
		}
		if !R.need(fn, "ParseHprofGcClassDump") || !R.need(of, "core.SizeInfo.Of") || !R.need(mk, "core.NewSizeInfo") {
			return
		}
		it, st := R.P.newRun(true)
		it.okReads = true
		parser, reader, st, ok := coreParser(R.P, it, st, id)
		if !ok {
			R.fail("anchor", "core.NewRecordParser", "-", "missing")
			return
		}
		r, out := it.rootCall(st, fn, []*Term{parser})
		v, err := resultParts(r, fn.Signature)
		out.pc = okPC(out, err)
		got := it.getPos(out, reader)
		si, out2 := it.callFn(nil, "mksize", out, mk, []*Term{mkInt(int64(id))}, nil)
		if _, isPtr := of.Params[0].Type().Underlying().(*types.Pointer); !isPtr {
			if pt, ok := mk.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
				si = it.load(out2, si, pt.Elem())
			}
		}
		sz, out3 := it.callFn(nil, "size", out2, of, []*Term{si, mkIface(fn.Signature.Results().At(0).Type(), restrict(v, out2.pc))}, nil)
		R.check(eqUnder(out3.pc, sz, got), "class-size", fmt.Sprintf("size of a class dump (ids of %d bytes)", id), rootPos(R.P, of), "accounts "+show(restrict(sz, out3.pc))+" for a record of "+show(got))
		R.used(it)
	}
}

func init() {
	props["C02"] = propCheck{func(R *Report) {
		checkClassSize(R)
		forIDs(R, func(t *traversal) {
			t.checkBodies()
			t.checkSync()
			t.checkIndex()
		})
	}, "The traversal of a dump is interpreted abstractly over an arbitrary byte string, record parsers replaced by their decided layouts; the loop-carried position is related to the stream position by induction, and for every kind byte the next header's position, the decoded body's position and the recorded index offset and key are compared with the format's record length."}
	props["C03"] = propCheck{func(R *Report) {
		forIDs(R, func(t *traversal) { t.checkKept() })
	}, "For every record kind the condition under which its storage call happens, and the stored value, are compared with the condition under which the dump contains such a record and with the record decoded there; conditions are decision diagrams over the dump's bytes."}
	props["C06"] = propCheck{func(R *Report) {
		forIDs(R, func(t *traversal) { t.checkUnknown() })
	}, "For the values of the kind byte no handler is required for, at record and sub-record level, the traversal either cannot continue and cannot succeed, or continues exactly behind that record."}
}
