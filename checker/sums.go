package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Summaries of the record parsers, as established by the layout rules (C01):
// the record at the current position is decoded field by field, the stream
// advances by exactly the length of the record, and an error is reported
// exactly when something is wrong with it.

func layoutOf(fn *ssa.Function) *layout {
	n := shortFn(fn)
	n, ok := strings.CutPrefix(n, "(*core.RecordParser).")
	if !ok {
		return nil
	}
	for i := range layouts {
		if layouts[i].fn == n {
			return &layouts[i]
		}
	}
	return nil
}

// findReader: the input stream held (directly or inside a nested parser) by a
// parser object.
func (it *Interp) findReader(st State, v *Term, typ types.Type, d int) *Term {
	if d > 6 {
		return nil
	}
	switch t := typ.Underlying().(type) {
	case *types.Interface:
		for i := 0; i < t.NumMethods(); i++ {
			if t.Method(i).Name() == "Read" {
				return stripIface(v)
			}
		}
	case *types.Pointer:
		if isReaderPtr(t) {
			return v
		}
		if structOf(t.Elem()) != nil {
			return it.findReader(st, it.load(st, v, t.Elem()), t.Elem(), d+1)
		}
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			ft := t.Field(i).Type()
			if r := it.findReader(st, mkFld(v, i, ft), ft, d+1); r != nil {
				return r
			}
		}
	}
	return nil
}

func isReaderPtr(t *types.Pointer) bool {
	switch t.String() {
	case "*bufio.Reader", "*os.File", "*bytes.Reader", "*bufio.ReadWriter":
		return true
	}
	return false
}

// recordAt builds the record decoded at off; size is its length.
func recordAt(ly *layout, rt types.Type, src, off *Term, id int, args []*Term) (v, size *Term) {
	stt := structOf(rt)
	start := off
	vals := map[string]*Term{}
	for _, f := range ly.fields {
		k := kindSize(f.kind, id)
		switch {
		case k > 0:
			if f.name != "" {
				vals[f.name] = mkRead(k, src, off)
			}
			off = tAdd(off, mkInt(int64(k)))
		case f.kind == "text":
			n := tNil
			if len(args) > 0 {
				n = tSub(args[0], mkInt(int64(id)))
			}
			vals[f.name] = mkStrOf(mkSeq([]*Term{mkOp("src", src, off, n)}))
			off = tAdd(off, n)
		case strings.HasPrefix(f.kind, "ids:"):
			n := vals[strings.TrimPrefix(f.kind, "ids:")]
			vals[f.name] = mkOp("idlist", src, off, n)
			off = tAdd(off, tScale(n, int64(id)))
		default: // variable lists of a class dump
			vals[f.name] = mkOp("rec:"+f.name, src, start)
			off = tAdd(start, mkOpB("classdumpsize", 40, src, start))
		}
	}
	var fs []*Term
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		x := vals[f.Name()]
		if x == nil {
			x = mkOp("rec:"+f.Name(), src, start)
		}
		if b, uns := intInfo(f.Type()); b > 0 && b < 64 && !uns && x.k == KOp && strings.HasPrefix(x.op, "u") {
			x = mkOp("s"+strconv.Itoa(b), x)
		}
		fs = append(fs, typed(x, f.Type()))
	}
	// a class dump's counts lie behind variable parts
	if ly.fn == "ParseHprofGcClassDump" {
		for i := range fs {
			switch stt.Field(i).Name() {
			case "NumberOfStaticFields", "NumberOfInstanceFields":
				fs[i] = typed(mkOpB("rec:"+stt.Field(i).Name(), 16, src, start), stt.Field(i).Type())
			}
		}
	}
	return mkStruct(rt, fs...), tSub(off, start)
}

// sumRecord is the onCall hook applying the summaries.
func (it *Interp) sumRecord(fr *Frame, st State, in ssa.CallInstruction, f *ssa.Function, a []*Term, id int) (*Term, State, bool) {
	ly := layoutOf(f)
	if ly == nil || len(a) == 0 {
		return it.sumSize(st, f, a, id)
	}
	pt := f.Params[0].Type().Underlying().(*types.Pointer).Elem()
	ref := it.findReader(st, it.load(st, a[0], pt), pt, 0)
	if ref == nil {
		return nil, st, false
	}
	off := it.getPos(st, ref)
	src, _ := it.srcOf(st, ref)
	rt := f.Signature.Results().At(0).Type()
	if structOf(rt) == nil {
		return nil, st, false
	}
	v, size := recordAt(ly, rt, src, off, id, a[1:])
	if ly.fn == "ParseRecordHeader" {
		// lengths of the fixed-shape records follow from their kind
		vs := []*Term{}
		tag := mkRead(1, src, off)
		n := mkRead(4, src, tAdd(off, mkInt(5)))
		at := func(tagv int64, val *Term) {
			g := asBool(tEq(tag, mkInt(tagv)))
			n = iteDC(g, val, bNot(g), n)
		}
		at(2, mkInt(int64(8+2*id)))
		at(4, mkInt(int64(8+4*id)))
		at(5, tAdd(mkInt(12), tScale(mkRead(4, src, tAdd(off, mkInt(9+8))), int64(id))))
		stt := structOf(rt)
		for i := 0; i < stt.NumFields(); i++ {
			x := mkFld(v, i, stt.Field(i).Type())
			if stt.Field(i).Name() == "Remaining" {
				x = n
			}
			vs = append(vs, x)
		}
		v = mkStruct(rt, vs...)
	}
	it.emit(fr, st, in, "record", ly.fn, v, ref, src, off, size)
	st = it.setPos(st, ref, tAdd(off, size))
	e := tNil
	ok := tTrue
	if ly.fn == "ParseHprofGcPrimArrayDumpHeader" {
		ok = validType(mkRead(1, src, tAdd(off, mkInt(int64(id+8)))))
	}
	if !it.okReads {
		ok = bAnd(ok, mkOp("recok:"+ly.fn, src, off))
		st = it.noteFail(fr, st, in, ly.fn, ok)
	}
	if ok != tTrue {
		e = iteDC(ok, tNil, bNot(ok), tErr)
	}
	return mkTuple(v, e), st, true
}

// sumSize: the size of a class dump, decided separately to be what its
// decoding consumes.
func (it *Interp) sumSize(st State, f *ssa.Function, a []*Term, id int) (*Term, State, bool) {
	n := shortFn(f)
	if n != "(core.SizeInfo).Of" && n != "(*core.SizeInfo).Of" || len(a) != 2 {
		return nil, st, false
	}
	v := a[1]
	if v.k != KIface {
		return nil, st, false
	}
	rec := v.args[0]
	stt := structOf(v.typ)
	if stt == nil || rec.k != KStruct || !strings.HasSuffix(v.typ.String(), ".HprofGcClassDump") {
		return nil, st, false
	}
	first := rec.args[0]
	if first.k != KOp || first.op != "u"+strconv.Itoa(id) {
		return nil, st, false
	}
	want, size := recordAt(layoutNamed("ParseHprofGcClassDump"), v.typ, first.args[0], first.args[1], id, nil)
	if want != rec {
		return nil, st, false
	}
	return size, st, true
}

func layoutNamed(n string) *layout {
	for i := range layouts {
		if layouts[i].fn == n {
			return &layouts[i]
		}
	}
	return nil
}
