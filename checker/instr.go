package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Transfer functions of the individual SSA instructions.

func (it *Interp) val(fr *Frame, st State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Function:
		return mkFunc(x.String(), x, nil)
	case *ssa.Global:
		t := mkSym("glob:"+x.String(), 0, nil)
		if t.typ == nil {
			t.typ = x.Type()
		}
		return t
	case *ssa.Builtin:
		return mkFunc("builtin:"+x.Name(), x, nil)
	}
	if t, ok := fr.env[v]; ok {
		return restrict(t, st.pc)
	}
	return tBot
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mkFloat(c.Value.ExactString())
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return mkInt(i)
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return mkSym("const:"+strconv.FormatUint(u, 10), 64, nil)
		}
	case constant.Float:
		return mkFloat(c.Value.ExactString())
	}
	return mkSym("const:"+c.Value.ExactString(), 0, nil)
}

func (it *Interp) newObj(fr *Frame, st State, in ssa.Instruction, tag string, typ types.Type, content *Term) (*Term, State) {
	loops := it.activeLoops()
	r := mkSym("new:"+it.site(fr, in)+tag, 0, loops)
	if r.typ == nil {
		r.typ = typ
	}
	for _, l := range it.loopStack {
		l.alloc[r] = true
	}
	st.heap = st.heap.set(r.id, content)
	return r, st
}

func (it *Interp) instr(fr *Frame, st State, in ssa.Instruction) State {
	set := func(v ssa.Value, t *Term) {
		fr.env[v] = typed(t, v.Type())
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		var r *Term
		r, st = it.newObj(fr, st, in, "", x.Type(), zeroOf(et))
		if isBufferType(et) {
			st.heap = st.heap.set(sbCell(r).id, mkStr(""))
		}
		fr.env[x] = r
	case *ssa.BinOp:
		set(x, it.binop(fr, st, x, x.Op, it.val(fr, st, x.X), it.val(fr, st, x.Y), x.X.Type(), x.Type()))
	case *ssa.UnOp:
		v := it.val(fr, st, x.X)
		switch x.Op {
		case token.MUL:
			it.nilCheck(fr, st, in, v)
			if v.k == KSym && strings.HasPrefix(v.op, "glob:") {
				it.emit(fr, st, in, "gload", v.op, nil, v)
			}
			it.access(fr, st, in, "load", v)
			set(x, restrict(it.load(st, v, x.Type()), st.pc))
		case token.NOT:
			set(x, bNot(asBool(v)))
		case token.SUB:
			if isIntType(x.Type()) {
				set(x, it.narrow(fr, st, tScale(v, -1), x.Type()))
			} else {
				set(x, mkOp("fneg", v))
			}
		case token.ARROW:
			it.emit(fr, st, in, "recv", "recv", nil, v)
			t := it.fresh("recv:", fr, in, x.Type())
			set(x, t)
		default:
			set(x, mkOp("un"+x.Op.String(), v))
		}
	case *ssa.ChangeType:
		v := it.val(fr, st, x.X)
		if v.k == KStruct {
			v = mkStruct(x.Type(), v.args...)
		}
		set(x, v)
	case *ssa.ChangeInterface:
		fr.env[x] = it.val(fr, st, x.X)
	case *ssa.MakeInterface:
		v := it.val(fr, st, x.X)
		fr.env[x] = mkIface(x.X.Type(), v)
	case *ssa.Convert:
		set(x, it.convert(fr, st, in, it.val(fr, st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(x, mkOp("conv", it.val(fr, st, x.X)))
	case *ssa.SliceToArrayPointer:
		set(x, it.fresh("s2a:", fr, in, x.Type()))
	case *ssa.Extract:
		set(x, mkExtract(it.val(fr, st, x.Tuple), x.Index, x.Type()))
	case *ssa.Field:
		v := it.val(fr, st, x.X)
		set(x, mkFld(v, x.Field, x.Type()))
	case *ssa.FieldAddr:
		v := it.val(fr, st, x.X)
		it.nilCheck(fr, st, in, v)
		stt := x.X.Type().Underlying().(*types.Pointer).Elem()
		fr.env[x] = mapPtr(v, func(l *Term) *Term { return mkPtr(l, fieldStep(x.Field, stt)) })
	case *ssa.IndexAddr:
		v := it.val(fr, st, x.X)
		i := it.val(fr, st, x.Index)
		it.idxCheck(fr, st, in, v, i, x.X.Type())
		fr.env[x] = it.indexAddr(v, i, x.X.Type())
	case *ssa.Index:
		v := it.val(fr, st, x.X)
		i := it.val(fr, st, x.Index)
		it.idxCheck(fr, st, in, v, i, x.X.Type())
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			set(x, it.strIdx(v, i, x.Type()))
		} else {
			set(x, mkSeqIdx(it.content(st, v), i, x.Type()))
		}
	case *ssa.Lookup:
		m := it.val(fr, st, x.X)
		k := it.val(fr, st, x.Index)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			mc := it.mapContent(st, m)
			v, okv := mkMapGet(mc, k, mt.Elem())
			it.emit(fr, st, in, "mapget", "", v, m, k, mc)
			if isMapType(mt.Elem()) && m.k != KGamma && k.k != KGamma && m.k != KNil {
				// a map in a map is known by its place
				v = typed(mkOp("mref", m, k), mt.Elem())
				if !isGroup(mc) || !onlyLookedUp(x) {
					v = iteDC(okv, v, bNot(okv), tNil)
				}
			}
			if x.CommaOk {
				fr.env[x] = mkTuple(typed(v, mt.Elem()), okv)
			} else {
				set(x, v)
			}
		} else {
			it.idxCheck(fr, st, in, m, k, x.X.Type())
			set(x, it.strIdx(m, k, x.Type()))
		}
	case *ssa.MakeSlice:
		n := it.val(fr, st, x.Len)
		et := x.Type().Underlying().(*types.Slice).Elem()
		it.emit(fr, st, in, "makeslice", types.TypeString(et, nil), nil, n)
		if n == mkInt(0) {
			set(x, mkSeq(nil))
			break
		}
		content := mkSeq([]*Term{mkOp("rep", n, zeroOf(et))})
		if n.k == KInt && n.i <= 64 {
			var segs []*Term
			for i := int64(0); i < n.i; i++ {
				segs = append(segs, mkOp("elem", zeroOf(et)))
			}
			content = mkSeq(segs)
		}
		var r *Term
		r, st = it.newObj(fr, st, in, "", nil, content)
		set(x, mkOp("slice", r, mkInt(0), n))
	case *ssa.MakeMap:
		var r *Term
		r, st = it.newObj(fr, st, in, "", x.Type(), tMapEmpty)
		fr.env[x] = r
	case *ssa.MakeChan:
		it.emit(fr, st, in, "makechan", "", nil, it.val(fr, st, x.Size))
		fr.env[x] = mkSym("new:"+it.site(fr, in), 0, it.activeLoops())
	case *ssa.MakeClosure:
		var binds []*Term
		for _, b := range x.Bindings {
			binds = append(binds, it.val(fr, st, b))
		}
		fn := x.Fn.(*ssa.Function)
		fr.env[x] = mkFunc(fn.String(), fn, binds)
	case *ssa.MapUpdate:
		m := it.val(fr, st, x.Map)
		k := it.val(fr, st, x.Key)
		v := it.val(fr, st, x.Value)
		if isMapType(x.Value.Type()) && m.k != KGamma {
			v, st = it.moveIn(fr, st, in, m, k, v)
		}
		if s, ok := x.Value.Type().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
			v = tTrue // a map used as a set
		}
		st = it.mapPut(fr, st, in, m, k, v)
	case *ssa.Range:
		v := it.val(fr, st, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			mc := it.mapContent(st, v)
			if it.refArgs {
				mc = restrict(mc, st.pc)
			}
			it.emit(fr, st, in, "maprange", "", nil, mc)
			fr.env[x] = mkOp("maprange", mc)
		} else {
			fr.env[x] = mkOp("strrange", v)
		}
	case *ssa.Next:
		r := it.val(fr, st, x.Iter)
		fr.env[x] = it.next(fr, st, x, r)
	case *ssa.Phi:
	case *ssa.Slice:
		fr.env[x] = it.slice(fr, st, x)
	case *ssa.Store:
		p := it.val(fr, st, x.Addr)
		v := it.val(fr, st, x.Val)
		it.nilCheck(fr, st, in, p)
		it.access(fr, st, in, "store", p)
		st = it.store(st, p, v)
	case *ssa.TypeAssert:
		it.typeAssert(fr, st, x)
	case *ssa.Send:
		it.emit(fr, st, in, "send", "", nil, it.val(fr, st, x.Chan))
	case *ssa.Select:
		it.doSelect(fr, st, x)
	case *ssa.Go:
		st = it.doGo(fr, st, x)
	case *ssa.Defer:
		e := deferEntry{pc: st.pc, instr: x, ctx: fr.ctx}
		if x.Call.IsInvoke() {
			e.fnv = it.val(fr, st, x.Call.Value)
		} else {
			e.fnv = it.val(fr, st, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			e.args = append(e.args, it.val(fr, st, a))
		}
		// one entry per site
		done := false
		for i := range fr.defers {
			if fr.defers[i].instr == x {
				fr.defers[i] = e
				done = true
			}
		}
		if !done {
			fr.defers = append(fr.defers, e)
		}
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			e := fr.defers[i]
			on := State{bAnd(st.pc, e.pc), st.heap}
			off := State{bAnd(st.pc, bNot(e.pc)), st.heap}
			if on.dead() {
				continue
			}
			var res *Term
			res, on = it.doCall(fr, on, e.instr, &e.instr.Call, e.fnv, e.args, "D")
			_ = res
			st = it.join(on, off)
		}
	case ssa.CallInstruction:
		c := x.Common()
		fnv := it.val(fr, st, c.Value)
		var args []*Term
		for _, a := range c.Args {
			args = append(args, it.val(fr, st, a))
		}
		var res *Term
		res, st = it.doCall(fr, st, x, c, fnv, args, "")
		if v := x.Value(); v != nil {
			set(v, res)
		}
	default:
		it.emit(fr, st, in, "undecided", "instruction "+in.String(), nil)
		if v, ok := in.(ssa.Value); ok {
			set(v, it.fresh("?u:", fr, in, v.Type()))
		}
	}
	return st
}

func mapPtr(v *Term, f func(*Term) *Term) *Term {
	if v.k == KGamma {
		return mapLeaves(v, func(l *Term) *Term {
			if l.k == KNil || l.k == KBot {
				return tBot
			}
			return f(l)
		})
	}
	if v.k == KNil || v.k == KBot {
		return tBot
	}
	return f(v)
}

func (it *Interp) nilCheck(fr *Frame, st State, in ssa.Instruction, p *Term) {
	if it.noRec > 0 {
		return
	}
	c := tEq(p, tNil)
	if p.k == KSym || p.k == KOp {
		return
	}
	if bAnd(st.pc, c) != tFalse {
		it.emit(fr, st, in, "ob", "nil", nil, bNot(c))
	}
}

func (it *Interp) access(fr *Frame, st State, in ssa.Instruction, kind string, p *Term) {
	if it.noRec > 0 || it.watch == nil && it.conc == 0 && !it.trackAccess {
		return
	}
	it.emit(fr, st, in, kind, "", nil, p)
}

func (it *Interp) idxCheck(fr *Frame, st State, in ssa.Instruction, v, i *Term, t types.Type) {
	if it.noRec > 0 {
		return
	}
	var n *Term
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		n = mkInt(u.Elem().Underlying().(*types.Array).Len())
	case *types.Array:
		n = mkInt(u.Len())
	case *types.Basic:
		n = mkStrLen(v)
	default:
		n = it.seqLen(st, v)
	}
	lo, hi := tNeg(i), bNot(tNeg(tSub(i, n)))
	bad := bAnd(st.pc, bOr(lo, hi))
	if bad != tFalse && bad.k != KBot {
		it.emit(fr, st, in, "ob", "index", nil, bNot(bOr(lo, hi)), i, n)
	}
}

func (it *Interp) seqLen(st State, v *Term) *Term {
	switch {
	case v.k == KGamma:
		return mapLeaves(v, func(l *Term) *Term { return it.seqLen(st, l) })
	case v.k == KOp && v.op == "slice":
		return tSub(v.args[2], v.args[1])
	}
	return mkSeqLen(v)
}

func (it *Interp) strIdx(v, i *Term, t types.Type) *Term {
	if v.k == KStr && i.k == KInt && i.i >= 0 && int(i.i) < len(v.op) {
		return mkInt(int64(v.op[i.i]))
	}
	return typed(mkOp("stridx", v, i), t)
}

func (it *Interp) indexAddr(v, i *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return mapPtr(v, func(l *Term) *Term { return mkPtr(l, indexStep(i)) })
	}
	return mapPtr(v, func(l *Term) *Term {
		if l.k == KOp && l.op == "slice" {
			return mkPtr(l.args[0], indexStep(tAdd(l.args[1], i)))
		}
		return mkPtr(mkOp("elemref", l), indexStep(i))
	})
}

func (it *Interp) slice(fr *Frame, st State, x *ssa.Slice) *Term {
	v := it.val(fr, st, x.X)
	lo := mkInt(0)
	if x.Low != nil {
		lo = it.val(fr, st, x.Low)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		hi := mkInt(u.Elem().Underlying().(*types.Array).Len())
		if x.High != nil {
			hi = it.val(fr, st, x.High)
		}
		return mapPtr(v, func(l *Term) *Term { return mkOp("slice", l, lo, hi) })
	case *types.Basic: // string
		n := mkStrLen(v)
		hi := n
		if x.High != nil {
			hi = it.val(fr, st, x.High)
		}
		it.sliceCheck(fr, st, x, lo, hi, n)
		return mapLeaves(v, func(l *Term) *Term { return mkStrSlice(l, lo, hi, n) })
	}
	n := it.seqLen(st, v)
	hi := n
	if x.High != nil {
		hi = it.val(fr, st, x.High)
	}
	it.sliceCheck(fr, st, x, lo, hi, n)
	return mapLeaves(v, func(l *Term) *Term {
		if l.k == KNil {
			return l
		}
		if l.k == KOp && l.op == "slice" {
			return mkOp("slice", l.args[0], tAdd(l.args[1], lo), tAdd(l.args[1], hi))
		}
		return mkSeqSlice(it.content(st, l), lo, hi)
	})
}

func (it *Interp) sliceCheck(fr *Frame, st State, in ssa.Instruction, lo, hi, n *Term) {
	if it.noRec > 0 {
		return
	}
	bad := bOr(tNeg(lo), bOr(tNeg(tSub(hi, lo)), tNeg(tSub(n, hi))))
	if b := bAnd(st.pc, bad); b != tFalse && b.k != KBot {
		it.emit(fr, st, in, "ob", "slice", nil, bNot(bad), lo, hi, n)
	}
}

func mkStrSlice(s, lo, hi, n *Term) *Term {
	if s.k == KBot {
		return s
	}
	if lo == mkInt(0) && hi == n {
		return s
	}
	if s.k == KStr && lo.k == KInt && hi.k == KInt && lo.i >= 0 && hi.i <= int64(len(s.op)) && lo.i <= hi.i {
		return mkStr(s.op[lo.i:hi.i])
	}
	if s.k == KOp && s.op == "str" {
		return mkStrOf(mkSeqSlice(s.args[0], lo, hi))
	}
	return mkOp("substr", s, lo, hi)
}

// ---------------------------------------------------------------------------
// Integers.

func intInfo(t types.Type) (bits int, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, true
	}
	return 64, false
}

// rangeOf: an interval known to contain t (ok false: unknown on that side).
func rangeOf(t *Term) (lo, hi int64, lok, hok bool) {
	const big = int64(1) << 61
	atom := func(a *Term) (lo, hi int64, lok, hok bool) {
		switch {
		case a.k == KInt:
			return a.i, a.i, true, true
		case a.k == KGamma:
			first := true
			lok, hok = true, true
			for _, c := range a.cases {
				l, h, lk, hk := rangeOf(c.kid)
				if first {
					lo, hi = l, h
				}
				first = false
				lok, hok = lok && lk, hok && hk
				if l < lo {
					lo = l
				}
				if h > hi {
					hi = h
				}
			}
			return
		case a.k == KOp && strings.HasPrefix(a.op, "s") && len(a.op) == 3 && a.op[1] >= '1' && a.op[1] <= '9' || a.k == KOp && a.op == "s8":
			n, err := strconv.Atoi(a.op[1:])
			if err == nil && n < 62 {
				return -(1 << uint(n-1)), 1<<uint(n-1) - 1, true, true
			}
		case a.ub > 0 && a.ub < 61:
			return 0, 1<<uint(a.ub) - 1, true, true
		case nonNegAtom(a):
			return 0, 0, true, false
		case a.typ != nil && isIntType(a.typ):
			if b, u := intInfo(a.typ); !u && b < 61 {
				return -(1 << uint(b-1)), 1<<uint(b-1) - 1, true, true
			}
		}
		return 0, 0, false, false
	}
	c, m, f := linParts(t)
	lo, hi, lok, hok = c, c, true, true
	for i, a := range m {
		l, h, lk, hk := atom(a)
		k := f[i]
		if k > 1<<31 || k < -(1<<31) {
			return 0, 0, false, false
		}
		if k < 0 {
			l, h, lk, hk = h, l, hk, lk
		}
		lok, hok = lok && lk, hok && hk
		if lok {
			if (l != 0 && abs64(k) > big/(abs64(l)+1)) || abs64(lo) > big {
				lok = false
			} else {
				lo += k * l
			}
		}
		if hok {
			if (h != 0 && abs64(k) > big/(abs64(h)+1)) || abs64(hi) > big {
				hok = false
			} else {
				hi += k * h
			}
		}
	}
	return
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// boundedUnder: pc implies lo <= r <= hi (structural argument only).
func boundedUnder(pc, r *Term, lo, hi int64) bool {
	if r.k == KGamma {
		ok := true
		for _, c := range r.cases {
			p := bAnd(pc, mkGuard(r.args[0], c.vals, c.neg))
			if p == tFalse || p.k == KBot {
				continue
			}
			if !boundedUnder(p, c.kid, lo, hi) {
				ok = false
			}
		}
		return ok
	}
	if g := pullGamma(r); g != nil {
		return boundedUnder(pc, g, lo, hi)
	}
	l, h, lk, hk := rangeOf(r)
	lok := lk && l >= lo
	hok := hk && h <= hi
	if !lok {
		lok = implied(pc, bNot(tNeg(tSub(r, mkInt(lo)))))
	}
	if !lok && lo == 0 {
		// r = x-1 with x unsigned and x != 0
		x := tAdd(r, mkInt(1))
		if implied(pc, bNot(tEq(x, mkInt(0)))) {
			if xl, _, xk, _ := rangeOf(x); xk && xl >= 0 {
				lok = true
			} else if c, m, f := linParts(x); c == 0 && len(m) == 2 && f[0]*f[1] == -1 {
				// n - it inside the counted loop over n
				for i := range m {
					if f[i] == -1 && strings.HasPrefix(m[i].op, "it:") && m[i].k == KSym {
						lok = true
					}
				}
			}
		}
	}
	if lok && hok {
		return true
	}
	// use a known strict inequality e < 0
	for _, e := range negFacts(pc) {
		if !hok {
			if _, h, _, hk := rangeOf(tSub(r, e)); hk && h-1 <= hi {
				hok = true
			}
		}
		if !lok {
			if l, _, lk, _ := rangeOf(tAdd(r, e)); lk && l+1 >= lo {
				lok = true
			}
		}
	}
	return lok && hok
}

// negFacts: terms e with pc ⇒ e < 0.
func negFacts(pc *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var atoms []*Term
	var rec func(x *Term)
	rec = func(x *Term) {
		d, cs, ok := asNode(x)
		if !ok || seen[x] || len(atoms) > 60 {
			return
		}
		seen[x] = true
		if d.k == KOp && (d.op == "neg") {
			atoms = append(atoms, d)
		}
		if x.k == KGamma {
			for _, c := range cs {
				rec(c.kid)
			}
		}
	}
	rec(pc)
	for _, a := range atoms {
		if implied(pc, a) {
			out = append(out, a.args[0])
		} else if implied(pc, bNot(a)) {
			out = append(out, tAdd(tScale(a.args[0], -1), mkInt(-1)))
		}
	}
	return out
}

// narrow wraps an exact result to the width of its type unless it provably fits.
func (it *Interp) narrow(fr *Frame, st State, r *Term, t types.Type) *Term {
	bits, uns := intInfo(t)
	if r.k == KBot {
		return r
	}
	if bits == 64 && !uns {
		return r
	}
	if r.k == KGamma {
		return mapLeaves(r, func(l *Term) *Term { return it.narrow(fr, st, l, t) })
	}
	if bits == 64 {
		// only wrap-around below zero is tracked for 64-bit unsigned values
		lo, _, lk, _ := rangeOf(r)
		if lk && lo >= 0 || nonNeg(r) {
			return r
		}
		if c, m, f := linParts(r); len(m) == 1 && f[0] == 1 && c == 0 {
			return r
		}
		if boundedUnder(st.pc, r, 0, 1<<62) || implied(st.pc, bNot(tNeg(r))) {
			return r
		}
		return mkOpB("wrap64", 64, r)
	}
	var lo, hi int64
	if uns {
		lo, hi = 0, int64(1)<<uint(bits)-1
	} else {
		lo, hi = -(int64(1) << uint(bits-1)), int64(1)<<uint(bits-1)-1
	}
	if r.k == KInt {
		v := r.i
		m := v & (int64(1)<<uint(bits) - 1)
		if !uns && m > hi {
			m -= int64(1) << uint(bits)
		}
		return mkInt(m)
	}
	if boundedUnder(st.pc, r, lo, hi) {
		return r
	}
	if uns {
		return mkOpB("wrap"+strconv.Itoa(bits), bits, r)
	}
	return typed(mkOp("s"+strconv.Itoa(bits), r), t)
}

func (it *Interp) binop(fr *Frame, st State, in ssa.Instruction, op token.Token, a, b *Term, opt, rt types.Type) *Term {
	if a.k == KBot || b.k == KBot {
		return tBot
	}
	u := opt.Underlying()
	if bt, ok := u.(*types.Basic); ok {
		switch {
		case bt.Info()&types.IsString != 0:
			switch op {
			case token.ADD:
				return mkCat(a, b)
			case token.EQL:
				return tEqStr(a, b)
			case token.NEQ:
				return bNot(tEqStr(a, b))
			case token.LSS:
				return strLess(a, b)
			case token.GTR:
				return strLess(b, a)
			case token.LEQ:
				return bNot(strLess(b, a))
			case token.GEQ:
				return bNot(strLess(a, b))
			}
		case bt.Info()&types.IsInteger != 0:
			return it.intop(fr, st, in, op, a, b, opt)
		case bt.Info()&types.IsFloat != 0:
			return floatop(op, a, b)
		}
	}
	switch op {
	case token.EQL:
		return tEqDeep(a, b)
	case token.NEQ:
		return bNot(tEqDeep(a, b))
	}
	return mkOp("bin"+op.String(), a, b)
}

func tEqStr(a, b *Term) *Term { return tEq(a, b) }

func strLess(a, b *Term) *Term {
	return gammaApply2(a, b, func(p, q *Term) *Term {
		if p == q {
			return tFalse
		}
		if p.k == KStr && q.k == KStr {
			return mkBool(p.op < q.op)
		}
		return mkOp("strlt", p, q)
	})
}

func floatop(op token.Token, a, b *Term) *Term {
	switch op {
	case token.EQL:
		return mkOp("?feq", a, b)
	case token.NEQ:
		return bNot(mkOp("?feq", a, b))
	case token.LSS:
		return mkOp("?flt", a, b)
	case token.GTR:
		return mkOp("?flt", b, a)
	case token.LEQ:
		return mkOp("?fle", a, b)
	case token.GEQ:
		return mkOp("?fle", b, a)
	}
	return mkOp("f"+op.String(), a, b)
}

// cmpForm marks values whose machine representation differs from their exact
// value when compared in this signedness.
func cmpForm(t *Term, uns bool) *Term {
	return mapLeaves(t, func(l *Term) *Term {
		c, m, _ := linParts(l)
		for _, a := range m {
			if !uns && a.ub == 64 {
				return mkOp("as-signed", l)
			}
			if uns && !nonNegAtom(a) {
				if lo, _, lk, _ := rangeOf(l); lk && lo >= 0 {
					continue
				}
				return mkOpB("as-unsigned", 64, l)
			}
		}
		if uns && len(m) == 0 && c < 0 {
			return mkOpB("as-unsigned", 64, l)
		}
		return l
	})
}

func (it *Interp) intop(fr *Frame, st State, in ssa.Instruction, op token.Token, a, b *Term, t types.Type) *Term {
	bits, uns := intInfo(t)
	_ = bits
	switch op {
	case token.ADD:
		return it.narrow(fr, st, tAdd(a, b), t)
	case token.SUB:
		return it.narrow(fr, st, tSub(a, b), t)
	case token.MUL:
		return it.narrow(fr, st, tMul(a, b), t)
	case token.EQL:
		return eqInt(a, b)
	case token.NEQ:
		return bNot(eqInt(a, b))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		x, y := cmpForm(a, uns), cmpForm(b, uns)
		switch op {
		case token.LSS:
			return tNeg(tSub(x, y))
		case token.GTR:
			return tNeg(tSub(y, x))
		case token.LEQ:
			return bNot(tNeg(tSub(y, x)))
		default:
			return bNot(tNeg(tSub(x, y)))
		}
	case token.QUO:
		it.divCheck(fr, st, in, b)
		return gammaApply2(a, b, mkDiv)
	case token.REM:
		it.divCheck(fr, st, in, b)
		return gammaApply2(a, b, func(p, q *Term) *Term {
			if p.k == KInt && q.k == KInt && q.i != 0 {
				return mkInt(p.i % q.i)
			}
			if q == mkInt(1) {
				return mkInt(0)
			}
			return mkOpB("rem", remBits(p, q), p, q)
		})
	case token.SHL:
		return gammaApply2(a, b, func(p, q *Term) *Term {
			if q.k == KInt && q.i >= 0 && q.i < 62 {
				return it.narrow(fr, st, tScale(p, 1<<uint(q.i)), t)
			}
			return typed(mkOp("shl", p, q), t)
		})
	case token.SHR:
		return gammaApply2(a, b, func(p, q *Term) *Term {
			if q.k == KInt && q.i >= 0 && q.i < 62 && nonNeg(p) {
				return mkDiv(p, mkInt(1<<uint(q.i)))
			}
			return typed(mkOp("shr", p, q), t)
		})
	case token.OR, token.XOR:
		return gammaApply2(a, b, func(p, q *Term) *Term {
			if p == mkInt(0) {
				return q
			}
			if q == mkInt(0) {
				return p
			}
			if p.k == KInt && q.k == KInt {
				if op == token.OR {
					return mkInt(p.i | q.i)
				}
				return mkInt(p.i ^ q.i)
			}
			if disjointBits(p, q) || disjointBits(q, p) {
				return tAdd(p, q)
			}
			return symOp("bin"+op.String(), p, q, t)
		})
	case token.AND:
		return gammaApply2(a, b, func(p, q *Term) *Term {
			if p.k == KInt && q.k == KInt {
				return mkInt(p.i & q.i)
			}
			if p.k == KInt {
				p, q = q, p
			}
			if q.k == KInt && q.i >= 0 {
				if q.i == 0 {
					return q
				}
				if _, h, lk, hk := rangeOf(p); lk && hk && nonNeg(p) && (q.i&(q.i+1)) == 0 && h <= q.i {
					return p
				}
				n := 0
				for (int64(1) << uint(n)) <= q.i {
					n++
				}
				return mkOpB("and", n, p, q)
			}
			return symOp("bin&", p, q, t)
		})
	}
	return typed(mkOp("bin"+op.String(), a, b), t)
}

func remBits(p, q *Term) int {
	if q.k == KInt && q.i > 0 && nonNeg(p) {
		n := 0
		for (int64(1) << uint(n)) < q.i {
			n++
		}
		if n == 0 {
			n = 1
		}
		return n
	}
	return 0
}

func symOp(op string, p, q *Term, t types.Type) *Term {
	if p.id > q.id {
		p, q = q, p
	}
	return typed(mkOp(op, p, q), t)
}

// disjointBits: q < 2^k and p is a multiple of 2^k, both non-negative.
func disjointBits(p, q *Term) bool {
	if !nonNeg(p) || !nonNeg(q) {
		return false
	}
	_, h, _, hk := rangeOf(q)
	if !hk {
		return false
	}
	c, _, f := linParts(p)
	k := int64(1)
	for k <= h {
		k <<= 1
	}
	if c%k != 0 {
		return false
	}
	for _, x := range f {
		if x%k != 0 {
			return false
		}
	}
	return true
}

func mkDiv(p, q *Term) *Term {
	if p.k == KInt && q.k == KInt && q.i != 0 {
		return mkInt(p.i / q.i)
	}
	if q == mkInt(1) {
		return p
	}
	if q.k == KInt && q.i > 1 {
		// exact multiples
		c, m, f := linParts(p)
		ok := c%q.i == 0 && len(m) > 0
		for _, x := range f {
			if x%q.i != 0 {
				ok = false
			}
		}
		if ok {
			r := mkInt(c / q.i)
			for i := range m {
				r = tAdd(r, tScale(m[i], f[i]/q.i))
			}
			return r
		}
		if nonNeg(p) {
			if p.k == KOp && p.op == "div" && p.args[1].k == KInt {
				return mkDiv(p.args[0], mkInt(p.args[1].i*q.i))
			}
			b := 62
			if _, h, _, hk := rangeOf(p); hk {
				b = 1
				for (int64(1) << uint(b)) <= h/q.i {
					b++
				}
			}
			return mkOpB("div", b, p, q)
		}
	}
	return mkOp("div", p, q)
}

func eqInt(a, b *Term) *Term {
	return gammaApply2(a, b, func(p, q *Term) *Term {
		if p == q {
			return tTrue
		}
		return eqZero(tSub(p, q))
	})
}

func (it *Interp) divCheck(fr *Frame, st State, in ssa.Instruction, b *Term) {
	if it.noRec > 0 {
		return
	}
	z := eqInt(b, mkInt(0))
	if c := bAnd(st.pc, z); c != tFalse && c.k != KBot {
		it.emit(fr, st, in, "ob", "div", nil, bNot(z), b)
	}
}

func (it *Interp) convert(fr *Frame, st State, in ssa.Instruction, v *Term, from, to types.Type) *Term {
	if v.k == KBot {
		return v
	}
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	isStr := func(b *types.Basic, ok bool) bool { return ok && b.Info()&types.IsString != 0 }
	isInt := func(b *types.Basic, ok bool) bool { return ok && b.Info()&types.IsInteger != 0 }
	isFl := func(b *types.Basic, ok bool) bool { return ok && b.Info()&types.IsFloat != 0 }
	switch {
	case isStr(tb, tok) && isStr(fb, fok):
		return v
	case isInt(tb, tok) && isInt(fb, fok):
		tbits, tu := intInfo(to)
		fbits, fu := intInfo(from)
		if tbits == 64 {
			_ = tu
			return v // machine value preserved; comparisons look at signedness
		}
		if fu == tu && tbits >= fbits || fu && tbits > fbits {
			return v
		}
		return it.narrow(fr, st, v, to)
	case isStr(tb, tok):
		if sl, ok := from.Underlying().(*types.Slice); ok {
			if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				return mkStrOf(it.content(st, v))
			}
			return mkOp("runes2str", it.content(st, v))
		}
		return mapLeaves(v, func(l *Term) *Term {
			if l.k == KInt {
				return mkStr(string(rune(l.i)))
			}
			return mkOp("strrune", l)
		})
	case isStr(fb, fok):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				return mapLeaves(v, func(l *Term) *Term {
					if l.k == KOp && l.op == "str" {
						return l.args[0]
					}
					return mkSeq([]*Term{mkOp("bytesof", l)})
				})
			}
			return mkOp("str2runes", v)
		}
	case isFl(tb, tok):
		return mapLeaves(v, func(l *Term) *Term { return mkOp("float", l) })
	case isInt(tb, tok) && isFl(fb, fok):
		return typed(mkOp("f2i", v), to)
	}
	return v
}

// ---------------------------------------------------------------------------
// Maps, ranges, interfaces.

// onlyLookedUp: nothing but look-ups are made in the map x, so that no map and
// an empty one are the same.
func onlyLookedUp(x ssa.Value) bool {
	for _, r := range *x.Referrers() {
		if l, ok := r.(*ssa.Lookup); !ok || l.X != x {
			return false
		}
	}
	return true
}

func (it *Interp) mapContent(st State, m *Term) *Term {
	switch {
	case m.k == KGamma:
		return mapLeaves(m, func(l *Term) *Term { return it.mapContent(st, l) })
	case m.k == KNil, m.k == KBot:
		return m
	}
	if m.k == KOp && m.op == "mref" {
		v, _ := mkMapGet(it.mapContent(st, m.args[0]), m.args[1], m.typ)
		v = restrict(v, st.pc)
		if v.k == KGamma {
			v = mapLeaves(v, func(l *Term) *Term {
				if l.k == KNil {
					return tBot
				}
				return l
			})
		}
		return v
	}
	if c, ok := st.heap.get(m.id); ok {
		if c.k == KOp && c.op == "mref" {
			return it.mapContent(st, c)
		}
		return c
	}
	if m.k == KOp && m.op == "ref" {
		return m.args[0]
	}
	return m
}

func isMapType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// moveIn puts map v into map m under k: from now on it is known by that place.
func (it *Interp) moveIn(fr *Frame, st State, in ssa.Instruction, m, k, v *Term) (*Term, State) {
	if v.k == KGamma || v.k == KNil || v.k == KBot {
		if v.k == KGamma {
			it.emit(fr, st, in, "undecided", "map kept in a map", nil, v)
		}
		return v, st
	}
	if v.k == KOp && v.op == "mref" {
		if v.args[0] != m || v.args[1] != k {
			it.emit(fr, st, in, "undecided", "map kept in two maps", nil, v)
		}
		return it.mapContent(st, v), st
	}
	c := it.mapContent(st, v)
	if old, ok := st.heap.get(v.id); ok {
		if old.k == KOp && old.op == "mref" && (old.args[0] != m || old.args[1] != k) {
			it.emit(fr, st, in, "undecided", "map kept in two maps", nil, v)
		}
		st.heap = st.heap.set(v.id, mkOp("mref", m, k))
	}
	return c, st
}

func (it *Interp) mapPut(fr *Frame, st State, in ssa.Instruction, m, k, v *Term) State {
	if m.k == KGamma {
		for _, c := range m.cases {
			g := mkGuard(m.args[0], c.vals, c.neg)
			if bAnd(st.pc, g) == tFalse {
				continue
			}
			on := it.mapPut(fr, State{bAnd(st.pc, g), st.heap}, in, c.kid, k, v)
			st.heap = it.mergeHeaps(on, State{bAnd(st.pc, bNot(g)), st.heap})
		}
		return st
	}
	if m.k == KNil {
		it.emit(fr, st, in, "ob", "nilmap", nil, tFalse)
		return st
	}
	if m.k == KBot {
		return st
	}
	if c, ok := st.heap.get(m.id); ok && c.k == KOp && c.op == "mref" {
		m = c
	}
	old := it.mapContent(st, m)
	it.emit(fr, st, in, "mapput", "", nil, m, k, v, old)
	if m.k == KOp && m.op == "mref" {
		return it.mapPut(fr, st, in, m.args[0], m.args[1], mkMapPut(old, k, v))
	}
	st.heap = st.heap.set(m.id, mkMapPut(old, k, v))
	return st
}

func (it *Interp) next(fr *Frame, st State, x *ssa.Next, r *Term) *Term {
	var iv *Term
	if len(it.loopStack) > 0 {
		iv = it.loopStack[len(it.loopStack)-1].it
	} else {
		iv = it.fresh("next:", fr, x, nil)
	}
	if r.k != KOp {
		return it.fresh("next:", fr, x, x.Type())
	}
	n := mkOp("len", keySet(r.args[0]))
	if r.args[0].k == KNil || r.args[0] == tMapEmpty {
		n = mkInt(0)
	}
	ok := tNeg(tSub(iv, n))
	tup := x.Type().(*types.Tuple)
	if r.op == "maprange" {
		m := r.args[0]
		kt, vt := tup.At(1).Type(), tup.At(2).Type()
		k := mapKey(m, iv, kt)
		var v *Term = tNil
		if b, isB := vt.(*types.Basic); !isB || b.Kind() != types.Invalid {
			v = mapLeaves(m, func(l *Term) *Term { return typed(mkOp("mget", l, mapKey(l, iv, kt)), vt) })
		}
		return mkTuple(ok, k, v)
	}
	s := r.args[0]
	okv := tNeg(tSub(iv, mkOpB("runes", 62, s)))
	return mkTuple(okv, mkOpB("runepos", 62, s, iv), typed(mkOp("rune", s, iv), tup.At(2).Type()))
}

func mapKey(m, iv *Term, kt types.Type) *Term {
	return mapLeaves(m, func(l *Term) *Term {
		k := mkOp("mkey", l, iv)
		if b, ok := kt.(*types.Basic); !ok || b.Kind() != types.Invalid {
			typed(k, kt)
		}
		return k
	})
}

func typeTag(t types.Type) *Term { return mkStr("type:" + types.TypeString(t, nil)) }

func (it *Interp) typeAssert(fr *Frame, st State, x *ssa.TypeAssert) {
	v := it.val(fr, st, x.X)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	var okOf func(l *Term) *Term
	okOf = func(l *Term) *Term {
		switch {
		case l.k == KNil:
			return tFalse
		case l.k == KBot:
			return l
		case l.k == KIface:
			if toIface {
				return mkBool(types.Implements(l.typ, x.AssertedType.Underlying().(*types.Interface)))
			}
			return mkBool(types.Identical(l.typ, x.AssertedType))
		}
		return mkOp("typeis", l, typeTag(x.AssertedType))
	}
	ok := mapLeaves(v, okOf)
	res := mapLeaves(v, func(l *Term) *Term {
		if l.k == KIface {
			if toIface {
				return l
			}
			if types.Identical(l.typ, x.AssertedType) {
				return l.args[0]
			}
			return tBot
		}
		if l.k == KNil || l.k == KBot {
			return tBot
		}
		if toIface {
			return l
		}
		return typed(mkOp("as", l, typeTag(x.AssertedType)), x.AssertedType)
	})
	if x.CommaOk {
		z := zeroOf(x.AssertedType)
		fr.env[x] = mkTuple(iteDC(ok, res, bNot(ok), z), ok)
		return
	}
	if it.noRec == 0 {
		if c := bAnd(st.pc, bNot(ok)); c != tFalse && c.k != KBot {
			it.emit(fr, st, x, "ob", "typeassert", nil, ok)
		}
	}
	fr.env[x] = typed(res, x.Type())
}

func (it *Interp) doSelect(fr *Frame, st State, x *ssa.Select) {
	tup := x.Type().(*types.Tuple)
	args := make([]*Term, tup.Len())
	// one of the choices, or the default when there is one
	pick := it.fresh("select:", fr, x, nil)
	idx := mkInt(-1)
	k := len(x.States) - 1
	if x.Blocking && k >= 0 {
		idx = mkInt(int64(k))
		k--
	}
	for ; k >= 0; k-- {
		c := asBool(tEq(pick, mkInt(int64(k))))
		idx = iteDC(c, mkInt(int64(k)), bNot(c), idx)
	}
	args[0] = idx
	for i := 1; i < tup.Len(); i++ {
		args[i] = typed(mkSym("selrecv:"+it.site(fr, x)+"."+strconv.Itoa(i), 0, it.activeLoops()), tup.At(i).Type())
	}
	var chans []*Term
	for _, s := range x.States {
		chans = append(chans, it.val(fr, st, s.Chan))
	}
	it.emit(fr, st, x, "select", "", nil, chans...)
	fr.env[x] = mkTuple(args...)
}

func (it *Interp) doGo(fr *Frame, st State, x *ssa.Go) State {
	fnv := it.val(fr, st, x.Call.Value)
	var args []*Term
	for _, a := range x.Call.Args {
		args = append(args, it.val(fr, st, a))
	}
	it.emit(fr, st, x, "go", "", nil, append([]*Term{fnv}, args...)...)
	it.conc++
	it.doCall(fr, st, x, &x.Call, fnv, args, "G")
	it.conc--
	it.spawned = true
	return st
}

// ---------------------------------------------------------------------------
// Calls.

func (it *Interp) doCall(fr *Frame, st State, in ssa.CallInstruction, c *ssa.CallCommon, fnv *Term, args []*Term, tag string) (*Term, State) {
	if st.dead() {
		return tBot, st
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return it.builtin(fr, st, in, b.Name(), c, args)
	}
	if c.IsInvoke() {
		return it.invoke(fr, st, in, c, fnv, args, tag)
	}
	return it.callVal(fr, st, in, c, fnv, args, tag)
}

// split evaluates f on every leaf of v under its own condition.
func (it *Interp) split(st State, v *Term, f func(st State, l *Term) (*Term, State)) (*Term, State) {
	type lf struct{ g, l *Term }
	var ls []lf
	idx := map[*Term]int{}
	var rec func(x, g *Term)
	rec = func(x, g *Term) {
		if g == tFalse || x.k == KBot {
			return
		}
		if x.k == KGamma {
			for _, cs := range x.cases {
				rec(cs.kid, bAnd(g, mkGuard(x.args[0], cs.vals, cs.neg)))
			}
			return
		}
		if i, ok := idx[x]; ok {
			ls[i].g = bOr(ls[i].g, g)
			return
		}
		idx[x] = len(ls)
		ls = append(ls, lf{g, x})
	}
	rec(v, st.pc)
	out := State{pc: tFalse}
	res := tBot
	for _, l := range ls {
		r, s := f(State{l.g, st.heap}, l.l)
		if s.dead() {
			continue
		}
		if out.dead() {
			res, out = r, s
			continue
		}
		res = iteDC(out.pc, res, s.pc, r)
		out = it.join(out, s)
	}
	return res, out
}

func (it *Interp) callVal(fr *Frame, st State, in ssa.CallInstruction, c *ssa.CallCommon, fnv *Term, args []*Term, tag string) (*Term, State) {
	switch fnv.k {
	case KGamma:
		return it.split(st, fnv, func(s State, l *Term) (*Term, State) {
			return it.callVal(fr, s, in, c, l, args, tag)
		})
	case KBot:
		return tBot, State{pc: tFalse}
	case KNil:
		it.emit(fr, st, in, "ob", "nilcall", nil, tFalse)
		return tBot, State{pc: tFalse}
	case KFunc:
		fn := fnv.fn.(*ssa.Function)
		return it.callStatic(fr, st, in, fn, args, fnv.args, tag)
	}
	it.emit(fr, st, in, "dyncall", show(fnv), nil, args...)
	return it.unknownResult(fr, in, c.Signature(), "dyn:"), st
}

func (it *Interp) unknownResult(fr *Frame, in ssa.Instruction, sig *types.Signature, p string) *Term {
	n := sig.Results().Len()
	if n == 0 {
		return tNil
	}
	if n == 1 {
		return it.fresh(p, fr, in, sig.Results().At(0).Type())
	}
	var rs []*Term
	for i := 0; i < n; i++ {
		rs = append(rs, typed(mkSym(p+it.site(fr, in)+"#"+strconv.Itoa(i), 0, it.activeLoops()), sig.Results().At(i).Type()))
	}
	return mkTuple(rs...)
}

func (it *Interp) callStatic(fr *Frame, st State, in ssa.CallInstruction, fn *ssa.Function, args, binds []*Term, tag string) (*Term, State) {
	it.callsSeen++
	if it.onCall != nil {
		if r, s, ok := it.onCall(fr, st, in, fn, args); ok {
			return r, s
		}
	}
	lib := len(fn.Blocks) > 0 && analysedFn(fn) && !it.onStack(fn)
	if !lib && (len(fn.Blocks) == 0 || !it.inRepo(fn)) {
		return it.external(fr, st, in, fn.String(), fn.Signature, args)
	}
	if !lib && (it.opaque[fn.String()] || it.opaqueAll != nil && it.opaqueAll(fn)) {
		return it.opaqueCall(fr, st, in, fn.String(), fn.Signature, args)
	}
	if it.onStack(fn) || len(it.stackFns) > 60 {
		it.emit(fr, st, in, "reccall", fn.String(), nil, args...)
		return it.opaqueCall(fr, st, in, "rec:"+fn.String(), fn.Signature, args)
	}
	ctx := strconv.Itoa(fr.ctx) + "/" + strconv.Itoa(it.instrIdx(fr.fn, in)) + tag + ":" + fn.String()
	if fr.fn != nil {
		it.emit(fr, st, in, "call", fn.String(), nil, args...)
	}
	return it.callFn(fr, ctx, st, fn, args, binds)
}

func (it *Interp) inRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	for f := fn; p == nil && f.Parent() != nil; f = f.Parent() {
		p = f.Parent().Pkg
	}
	if p == nil {
		// wrappers and thunks
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), repoModule)
		}
		return len(fn.Blocks) > 0
	}
	return strings.HasPrefix(p.Pkg.Path(), repoModule)
}

const repoModule = "github.com/danielleontiev/neojhat"

// opaqueCall summarises a call by an unknown function of its arguments; an
// error result is non-nil exactly when the unknown outcome says so.
func (it *Interp) opaqueCall(fr *Frame, st State, in ssa.Instruction, name string, sig *types.Signature, args []*Term) (*Term, State) {
	rargs := make([]*Term, len(args))
	for i, a := range args {
		rargs[i] = it.resolve(st, a)
		if it.refArgs {
			rargs[i] = it.refArg(st, rargs[i], 8)
		}
	}
	seqno := it.opaqueState(st)
	key := mkOp("args", append(append([]*Term(nil), rargs...), seqno)...)
	n := sig.Results().Len()
	ok := mkOp("?ok:"+name, key)
	if it.okBySite != nil && it.okBySite(name) {
		ok = mkOp("?ok:"+name, key, it.okSym(fr, in, ""))
	}
	if it.okAll && (it.mayFail == nil || !it.mayFail(name)) {
		ok = tTrue
	}
	var rs []*Term
	for i := 0; i < n; i++ {
		rt := sig.Results().At(i).Type()
		if isErrorType(rt) {
			rs = append(rs, iteDC(ok, tNil, bNot(ok), it.errOf(name, key)))
			continue
		}
		v := typed(mkOp("call:"+name+"#"+strconv.Itoa(i), key), rt)
		rs = append(rs, v)
	}
	hasErr := n > 0 && isErrorType(sig.Results().At(n-1).Type())
	if hasErr {
		st = it.noteFail(fr, st, in, name, ok)
	}
	var r *Term
	switch n {
	case 0:
		r = tNil
	case 1:
		r = rs[0]
	default:
		r = mkTuple(rs...)
	}
	it.emit(fr, st, in, "opaque", name, r, rargs...)
	return r, st
}

func (it *Interp) opaqueState(st State) *Term {
	if it.stateKey != nil {
		return it.stateKey(st)
	}
	return tNil
}

// errOf: the error value of an opaque function.
func (it *Interp) errOf(name string, key *Term) *Term {
	if it.errByCall {
		return mkOp("errof:"+name, key)
	}
	if it.opaqueErr != nil {
		if e := it.opaqueErr(name); e != nil {
			return e
		}
	}
	return tErr
}

var ghostFail = mkSym("ghost:fail", 0, nil)

// noteFail records in the state that a fallible operation failed.
func (it *Interp) noteFail(fr *Frame, st State, in ssa.Instruction, name string, ok *Term) State {
	if it.exempt != nil && it.exempt(name, fr, ok) {
		return st
	}
	old, has := st.heap.get(ghostFail.id)
	if !has {
		old = tFalse
	} else {
		old = restrict(old, st.pc)
	}
	pos := token.NoPos
	if in != nil {
		pos = in.Pos()
	}
	site := mkStr("fail:" + name + "@" + it.posStr(pos))
	st.heap = st.heap.set(ghostFail.id, iteDC(ok, old, bNot(ok), site))
	return st
}

func (it *Interp) builtin(fr *Frame, st State, in ssa.CallInstruction, name string, c *ssa.CallCommon, args []*Term) (*Term, State) {
	switch name {
	case "len":
		t := c.Args[0].Type().Underlying()
		switch u := t.(type) {
		case *types.Basic:
			return mkStrLen(args[0]), st
		case *types.Map:
			return mapLeaves(it.mapContent(st, args[0]), mkMapLen), st
		case *types.Pointer:
			return mkInt(u.Elem().Underlying().(*types.Array).Len()), st
		case *types.Array:
			return mkInt(u.Len()), st
		}
		return it.seqLen(st, args[0]), st
	case "cap":
		return typed(mkOp("cap", args[0]), types.Typ[types.Int]), st
	case "append":
		a := it.content(st, args[0])
		if len(args) < 2 {
			return a, st
		}
		var b *Term
		if bt, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			b = mkSeq([]*Term{mkOp("bytesof", args[1])})
		} else {
			b = it.content(st, args[1])
		}
		if b.k == KNil {
			return a, st
		}
		it.emit(fr, st, in, "append", "", nil, a, b)
		return mkConcat(a, b), st
	case "copy":
		dst := args[0]
		var src *Term
		if bt, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			src = mkSeq([]*Term{mkOp("bytesof", args[1])})
		} else {
			src = it.content(st, args[1])
		}
		dn, sn := it.seqLen(st, dst), mkSeqLen(src)
		n := dn
		if dn != sn {
			less := tNeg(tSub(sn, dn))
			n = iteDC(less, sn, bNot(less), dn)
		}
		st = it.writeBytes(st, dst, mkInt(0), mkSeqSlice(src, mkInt(0), n))
		return n, st
	case "delete":
		m := args[0]
		if m.k != KGamma && m.k != KNil && m.k != KBot {
			it.emit(fr, st, in, "mapdel", "", nil, m, args[1])
			st.heap = st.heap.set(m.id, mkOp("mdel", it.mapContent(st, m), args[1]))
		}
		return tNil, st
	case "panic":
		it.emit(fr, st, in, "panic", "panic", nil, args...)
		return tBot, State{pc: tFalse}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			less := tNeg(tSub(a, r))
			if name == "min" {
				r = iteDC(less, a, bNot(less), r)
			} else {
				r = iteDC(less, r, bNot(less), a)
			}
		}
		return r, st
	case "close":
		it.emit(fr, st, in, "chanclose", "", nil, args...)
		return tNil, st
	case "ssa:wrapnilchk":
		return args[0], st
	case "print", "println":
		it.emit(fr, st, in, "print", "stderr", nil, args...)
		return tNil, st
	case "recover":
		it.emit(fr, st, in, "recover", "", nil)
		return it.fresh("recover:", fr, in, nil), st
	case "clear":
		return tNil, st
	}
	it.emit(fr, st, in, "undecided", "builtin "+name, nil)
	if v := in.Value(); v != nil {
		return it.fresh("?b:", fr, in, v.Type()), st
	}
	return tNil, st
}

func mkMapLen(m *Term) *Term {
	if m.k == KNil || m == tMapEmpty {
		return mkInt(0)
	}
	return mkOp("len", keySet(m))
}

// writeBytes stores the elements of seq x at position off of slice dst.
func (it *Interp) writeBytes(st State, dst, off, x *Term) State {
	switch {
	case dst.k == KGamma:
		for _, c := range dst.cases {
			g := mkGuard(dst.args[0], c.vals, c.neg)
			if bAnd(st.pc, g) == tFalse {
				continue
			}
			on := it.writeBytes(State{bAnd(st.pc, g), st.heap}, c.kid, off, x)
			st.heap = it.mergeHeaps(on, State{bAnd(st.pc, bNot(g)), st.heap})
		}
		return st
	case dst.k == KNil, dst.k == KBot:
		return st
	case dst.k == KOp && dst.op == "slice":
		p := dst.args[0]
		old := it.load(st, p, nil)
		return it.store(st, p, mkSeqWrite(old, tAdd(dst.args[1], off), segsOf(x)))
	}
	r := mkOp("elemref", dst)
	st.heap = st.heap.set(r.id, mkSeqWrite(it.content(st, dst), off, segsOf(x)))
	return st
}

// invoke: a method call through an interface.
func (it *Interp) invoke(fr *Frame, st State, in ssa.CallInstruction, c *ssa.CallCommon, recv *Term, args []*Term, tag string) (*Term, State) {
	switch recv.k {
	case KGamma:
		return it.split(st, recv, func(s State, l *Term) (*Term, State) {
			return it.invoke(fr, s, in, c, l, args, tag)
		})
	case KBot:
		return tBot, State{pc: tFalse}
	case KNil:
		it.emit(fr, st, in, "ob", "nilcall", nil, tFalse)
		return tBot, State{pc: tFalse}
	case KIface:
		ms := it.prog.MethodSets.MethodSet(recv.typ)
		sel := ms.Lookup(c.Method.Pkg(), c.Method.Name())
		if sel != nil {
			if fn := it.prog.MethodValue(sel); fn != nil {
				a := append([]*Term{recv.args[0]}, args...)
				return it.callStatic(fr, st, in, fn, a, nil, tag)
			}
		}
	}
	return it.ifaceMethod(fr, st, in, c.Method.Name(), c.Signature(), recv, args)
}
