package main

import (
	"go/types"
	"strconv"
	"strings"
)

// Smart constructors for aggregates, sequences, maps and stream reads.

func bitsOf(t types.Type) int {
	if t == nil {
		return 0
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	case types.Uint64, types.Uint, types.Uintptr:
		return 64
	}
	return 0
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// typed records what is statically known about an unknown of Go type typ.
func typed(t *Term, typ types.Type) *Term {
	if typ == nil || (t.k != KSym && t.k != KOp) {
		return t
	}
	if isBoolType(typ) {
		t.bl = true
	}
	if t.ub == 0 {
		t.ub = bitsOf(typ)
	}
	if t.typ == nil {
		t.typ = typ
	}
	return t
}

func zeroOf(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsFloat != 0:
			return mkFloat("0")
		}
		return tNil
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mkStruct(typ, args...)
	case *types.Array:
		z := zeroOf(u.Elem())
		if u.Len() <= 64 {
			var segs []*Term
			for i := int64(0); i < u.Len(); i++ {
				segs = append(segs, mkOp("elem", z))
			}
			return mkSeq(segs)
		}
		return mkSeq([]*Term{mkOp("rep", mkInt(u.Len()), z)})
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = zeroOf(u.At(i).Type())
		}
		return mkTuple(args...)
	}
	return tNil
}

func mkFld(t *Term, i int, ftyp types.Type) *Term {
	switch t.k {
	case KStruct:
		return t.args[i]
	case KGamma:
		return mapLeaves(t, func(l *Term) *Term { return mkFld(l, i, ftyp) })
	case KBot:
		return t
	}
	r := typed(mkOp("fld"+strconv.Itoa(i), t), ftyp)
	if countedFields && r.ub == 0 && r.typ != nil {
		if b, ok := r.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			r.ub = 62
		}
	}
	return r
}

// countedFields: the int fields of the given values are numbers of things,
// sizes and identifiers, none of them negative.
var countedFields bool

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func setFld(t *Term, typ types.Type, i int, v *Term) *Term {
	st := structOf(typ)
	args := make([]*Term, st.NumFields())
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = mkFld(t, j, st.Field(j).Type())
		}
	}
	return mkStruct(typ, args...)
}

// mkExtract takes component i of a tuple.
func mkExtract(t *Term, i int, typ types.Type) *Term {
	switch t.k {
	case KTuple:
		if i < len(t.args) {
			return t.args[i]
		}
	case KGamma:
		return mapLeaves(t, func(l *Term) *Term { return mkExtract(l, i, typ) })
	case KBot:
		return t
	}
	return typed(mkOp("ext"+strconv.Itoa(i), t), typ)
}

// ---------------------------------------------------------------------------
// Sequences (slice contents, array contents, byte strings).

func segLen(s *Term) *Term {
	switch s.op {
	case "elem":
		return mkInt(1)
	case "rep":
		return s.args[0]
	case "src":
		return s.args[2]
	case "enc", "encle":
		return s.args[0]
	case "sub":
		return s.args[2]
	case "bytesof":
		return mkStrLen(s.args[0])
	case "each":
		if s.args[2] == tTrue {
			return s.args[1]
		}
	}
	return mkOp("count", s)
}

func mkSeq(segs []*Term) *Term {
	var out []*Term
	for _, s := range segs {
		if segLen(s) == mkInt(0) {
			continue
		}
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.op == "src" && s.op == "src" && p.args[0] == s.args[0] && tAdd(p.args[1], p.args[2]) == s.args[1] {
				out[n-1] = mkOp("src", p.args[0], p.args[1], tAdd(p.args[2], s.args[2]))
				continue
			}
			if p.op == "sub" && s.op == "sub" && p.args[0] == s.args[0] && tAdd(p.args[1], p.args[2]) == s.args[1] {
				out[n-1] = mkOp("sub", p.args[0], p.args[1], tAdd(p.args[2], s.args[2]))
				continue
			}
			if p.op == "encpart" && s.op == "encpart" && p.args[0] == s.args[0] && p.args[1] == s.args[1] && p.args[2].i+p.args[3].i == s.args[2].i {
				m := mkOp("encpart", p.args[0], p.args[1], p.args[2], mkInt(p.args[3].i+s.args[3].i))
				if m.args[2].i == 0 && m.args[3] == m.args[0] {
					m = mkOp("enc", m.args[0], m.args[1])
				}
				out[n-1] = m
				continue
			}
		}
		out = append(out, s)
	}
	if len(out) == 1 && out[0].op == "sub" && out[0].args[1] == mkInt(0) && out[0].args[2] == mkSeqLen(out[0].args[0]) {
		return out[0].args[0]
	}
	return mkOp("seq", out...)
}

func segsOf(x *Term) []*Term {
	switch {
	case x.k == KNil:
		return nil
	case x.k == KOp && x.op == "seq":
		return x.args
	}
	return []*Term{mkOp("sub", x, mkInt(0), mkSeqLen(x))}
}

func mkSeqLen(x *Term) *Term {
	switch x.k {
	case KNil:
		return mkInt(0)
	case KGamma:
		return mapLeaves(x, mkSeqLen)
	case KBot:
		return x
	case KStr:
		return mkInt(int64(len(x.op)))
	case KOp:
		if x.op == "seq" {
			r := mkInt(0)
			for _, s := range x.args {
				r = tAdd(r, segLen(s))
			}
			return r
		}
		if x.op == "upd" || x.op == "sorted" {
			return mkSeqLen(x.args[0])
		}
		if x.op == "slice" {
			return tSub(x.args[2], x.args[1])
		}
		if x.op == "str2runes" {
			return mkOpB("runes", 62, x.args[0])
		}
		if x.op == "deref" && x.args[0].k == KSym && x.args[0].op == "glob:os.Args" {
			// the name of the program is always there
			return tAdd(mkInt(1), mkOp("len", mkOp("options", x)))
		}
	}
	return mkOp("len", keySet(x))
}

func mkStrLen(x *Term) *Term {
	if x.k == KStr {
		return mkInt(int64(len(x.op)))
	}
	if x.k == KGamma {
		return mapLeaves(x, mkStrLen)
	}
	if x.k == KOp && x.op == "str" {
		return mkSeqLen(x.args[0])
	}
	if x.k == KOp && x.op == "cat" {
		r := mkInt(0)
		for _, a := range x.args {
			r = tAdd(r, mkStrLen(a))
		}
		return r
	}
	if x.k == KSym && strings.HasPrefix(x.op, "flag") {
		// an option is empty exactly when it has no length
		no := tEq(x, mkStr(""))
		return iteDC(no, mkInt(0), bNot(no), tAdd(mkInt(1), mkOp("len", mkOp("rest", x))))
	}
	return mkOp("len", keySet(x))
}

func splitSeg(s, p *Term) (*Term, *Term, bool) {
	switch s.op {
	case "src":
		return mkOp("src", s.args[0], s.args[1], p), mkOp("src", s.args[0], tAdd(s.args[1], p), tSub(s.args[2], p)), true
	case "sub":
		return mkOp("sub", s.args[0], s.args[1], p), mkOp("sub", s.args[0], tAdd(s.args[1], p), tSub(s.args[2], p)), true
	case "rep":
		return mkOp("rep", p, s.args[1]), mkOp("rep", tSub(s.args[0], p), s.args[1]), true
	case "enc":
		if p.k == KInt && s.args[0].k == KInt {
			return mkOp("encpart", s.args[0], s.args[1], mkInt(0), p), mkOp("encpart", s.args[0], s.args[1], p, mkInt(s.args[0].i-p.i)), true
		}
	case "encpart":
		if p.k == KInt {
			return mkOp("encpart", s.args[0], s.args[1], s.args[2], p), mkOp("encpart", s.args[0], s.args[1], mkInt(s.args[2].i+p.i), mkInt(s.args[3].i-p.i)), true
		}
	}
	return nil, nil, false
}

// cut splits a segment list at position p.
func cut(segs []*Term, p *Term) (a, b []*Term, ok bool) {
	rest := p
	for i, s := range segs {
		if rest == mkInt(0) {
			return segs[:i:i], segs[i:], true
		}
		l := segLen(s)
		d := tSub(rest, l)
		if nonNeg(d) {
			rest = d
			continue
		}
		if tNeg(d) == tTrue || i == len(segs)-1 {
			x, y, ok := splitSeg(s, rest)
			if !ok {
				return nil, nil, false
			}
			return append(append([]*Term(nil), segs[:i]...), x), append([]*Term{y}, segs[i+1:]...), true
		}
		return nil, nil, false
	}
	if rest == mkInt(0) {
		return segs, nil, true
	}
	return nil, nil, false
}

func mkSeqSlice(x, lo, hi *Term) *Term {
	if x.k == KGamma {
		return mapLeaves(x, func(l *Term) *Term { return mkSeqSlice(l, lo, hi) })
	}
	if x.k == KBot {
		return x
	}
	if lo.k == KGamma || hi.k == KGamma {
		return gammaApply2(lo, hi, func(l, h *Term) *Term { return mkSeqSlice(x, l, h) })
	}
	if lo == mkInt(0) && hi == mkSeqLen(x) {
		return x
	}
	segs := segsOf(x)
	if _, b, ok := cut(segs, lo); ok {
		if m, _, ok := cut(b, tSub(hi, lo)); ok {
			return mkSeq(m)
		}
	}
	return mkOp("cut", x, lo, hi)
}

func mkSeqIdx(x, i *Term, et types.Type) *Term {
	if x.k == KGamma {
		return mapLeaves(x, func(l *Term) *Term { return mkSeqIdx(l, i, et) })
	}
	if x.k == KBot {
		return x
	}
	if x.k == KOp && x.op == "upd" {
		c := tEq(i, x.args[1])
		return iteDC(c, x.args[2], bNot(c), mkSeqIdx(x.args[0], i, et))
	}
	if x.k == KOp && x.op == "str2runes" {
		return typed(mkOp("rune", x.args[0], i), types.Typ[types.Rune])
	}
	if x.k == KOp && x.op == "seq" {
		segs := x.args
		if len(segs) == 1 {
			s := segs[0]
			if s.op == "each" {
				if i == s.args[0] {
					return s.args[3]
				}
				if d := eachDom(s); d != nil && d == i {
					return s.args[3]
				}
				if s.args[2] == tTrue && !hasMu(s.args[3]) {
					return subst(s.args[3], map[*Term]*Term{s.args[0]: i})
				}
			}
		}
		if i.k == KGamma {
			return mapLeaves(i, func(l *Term) *Term { return mkSeqIdx(x, l, et) })
		}
		if _, b, ok := cut(segs, i); ok && len(b) > 0 {
			s := b[0]
			switch s.op {
			case "elem":
				return s.args[0]
			case "rep":
				return s.args[1]
			case "src":
				return mkRead(1, s.args[0], s.args[1])
			case "sub":
				return typed(mkOp("idx", s.args[0], s.args[1]), et)
			case "bytesof":
				return typed(mkOp("idx", s.args[0], mkInt(0)), et)
			case "encpart", "enc":
				return typed(mkOp("byteof", s.args...), et)
			}
		}
		if i.k != KInt && len(segs) > 0 && len(segs) <= 16 {
			// symbolic index into a literal sequence
			all := true
			for _, s := range segs {
				if s.op != "elem" {
					all = false
				}
			}
			if all && isConstSeq(segs) {
				var cs []Case
				for j, s := range segs {
					cs = append(cs, Case{[]*Term{mkInt(int64(j))}, false, s.args[0]})
				}
				if i.k == KSym || i.k == KOp {
					return mkGamma(i, cs)
				}
			}
		}
	}
	return typed(mkOp("idx", x, i), et)
}

func isConstSeq(segs []*Term) bool {
	for _, s := range segs {
		if !isConst(s.args[0]) && s.args[0].k != KStruct && s.args[0].k != KFunc {
			return false
		}
	}
	return true
}

// eachDom: the iteration variable used to traverse a filtered list.
func eachDom(s *Term) *Term {
	return termTab["y"+itName(segLen(s), 0)]
}

func hasMu(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if len(x.loops) == 0 || seen[x] {
			return false
		}
		seen[x] = true
		if x.k == KSym && strings.HasPrefix(x.op, "mu:") {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		for _, c := range x.cases {
			if rec(c.kid) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func mkSeqUpd(x, i, v *Term) *Term {
	if x.k == KGamma {
		return mapLeaves(x, func(l *Term) *Term { return mkSeqUpd(l, i, v) })
	}
	segs := segsOf(x)
	if i.k != KGamma {
		if a, b, ok := cut(segs, i); ok {
			if _, c, ok := cut(b, mkInt(1)); ok {
				out := append([]*Term(nil), a...)
				out = append(out, mkOp("elem", v))
				out = append(out, c...)
				return mkOp("seq", out...)
			}
		}
	}
	return mkOp("upd", x, i, v)
}

// mkSeqWrite replaces [lo,lo+len(segs)) of x.
func mkSeqWrite(x, lo *Term, segs []*Term) *Term {
	if x.k == KGamma {
		return mapLeaves(x, func(l *Term) *Term { return mkSeqWrite(l, lo, segs) })
	}
	n := mkInt(0)
	for _, s := range segs {
		n = tAdd(n, segLen(s))
	}
	old := segsOf(x)
	if a, b, ok := cut(old, lo); ok {
		if _, c, ok := cut(b, n); ok {
			out := append([]*Term(nil), a...)
			out = append(out, segs...)
			out = append(out, c...)
			return mkSeq(out)
		}
	}
	return mkOp("overw", x, lo, mkSeq(segs))
}

func mkConcat(x, y *Term) *Term {
	if x.k == KGamma {
		return mapLeaves(x, func(l *Term) *Term { return mkConcat(l, y) })
	}
	if y.k == KGamma {
		return mapLeaves(y, func(l *Term) *Term { return mkConcat(x, l) })
	}
	if x.k == KBot || y.k == KBot {
		return tBot
	}
	return mkSeq(append(append([]*Term(nil), segsOf(x)...), segsOf(y)...))
}

// mkRead: the n-byte big-endian number at offset off of stream src.
func mkRead(n int, src, off *Term) *Term {
	if off.k == KGamma {
		return mapLeaves(off, func(l *Term) *Term { return mkRead(n, src, l) })
	}
	return mkOpB("u"+strconv.Itoa(n), 8*n, src, off)
}

// mkBE decodes n bytes of a sequence as a big-endian number.
func mkBE(x *Term, n int) *Term {
	if x.k == KGamma {
		return mapLeaves(x, func(l *Term) *Term { return mkBE(l, n) })
	}
	if x.k == KBot {
		return x
	}
	v := mkSeqSlice(x, mkInt(0), mkInt(int64(n)))
	if v.k == KOp && v.op == "seq" && len(v.args) == 1 {
		s := v.args[0]
		switch s.op {
		case "src":
			return mkRead(n, s.args[0], s.args[1])
		case "sub":
			return mkRead(n, s.args[0], s.args[1])
		case "enc":
			if s.args[0] == mkInt(int64(n)) {
				return s.args[1]
			}
		}
	}
	if v.k == KOp && v.op == "seq" && len(v.args) == n {
		r := mkInt(0)
		for _, s := range v.args {
			if s.op != "elem" || s.args[0].k != KInt {
				r = nil
				break
			}
			r = tAdd(tScale(r, 256), s.args[0])
		}
		if r != nil {
			return r
		}
	}
	return mkOpB("be"+strconv.Itoa(n), 8*n, v)
}

// mkStrOf: the string with the bytes of sequence x.
func mkStrOf(x *Term) *Term {
	if x.k == KGamma {
		return mapLeaves(x, mkStrOf)
	}
	if x.k == KNil {
		return mkStr("")
	}
	if x.k == KOp && x.op == "seq" && len(x.args) == 1 && x.args[0].op == "bytesof" {
		return x.args[0].args[0]
	}
	if x.k == KOp && x.op == "seq" && len(x.args) == 0 {
		return mkStr("")
	}
	return mkOp("str", x)
}

// catBudget bounds the size of the choice a text is spread into.
const catBudget = 1500

// mkAlt: a choice as one part of a text, when spreading it over the whole
// text would make too many cases.
func mkAlt(x *Term) *Term {
	if x.k != KGamma {
		return x
	}
	return mkOp("alt", x)
}

// mkCat: string concatenation.
func mkCat(parts ...*Term) *Term {
	var out []*Term
	for i, p := range parts {
		if p.k == KBot {
			return p
		}
		if p.k == KGamma {
			// pointwise: each part may be a choice of its own
			acc := mkCat(parts[:i]...)
			for j := i; j < len(parts) && acc.k != KBot; j++ {
				k := j + 1
				x := parts[j]
				if x.k != KGamma {
					for k < len(parts) && parts[k].k != KGamma {
						k++
					}
					x = mkCat(parts[j:k]...)
					j = k - 1
				}
				if acc.k != KGamma && x.k != KGamma {
					acc = mkCat(acc, x)
					continue
				}
				join := func(p, q *Term) *Term { return mkCat(p, q) }
				if r := gammaApplyMax(acc, x, catBudget, join); r != nil {
					acc = r
				} else {
					acc = mapLeaves(acc, func(l *Term) *Term { return mkCat(l, mkAlt(x)) })
				}
			}
			return acc
		}
		fl := []*Term{p}
		if p.k == KOp && p.op == "cat" {
			fl = p.args
		}
		for _, f := range fl {
			if f.k == KStr && f.op == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].k == KStr && f.k == KStr {
				out[n-1] = mkStr(out[n-1].op + f.op)
				continue
			}
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkOp("cat", out...)
}

// mkCatFor: the text d of every iteration it < n, one after the other.
func mkCatFor(it, n, d *Term) *Term {
	if n == mkInt(0) || d.k == KStr && d.op == "" {
		return mkStr("")
	}
	if d.k == KBot {
		return d
	}
	if n.k == KGamma {
		res, pc := tBot, tFalse
		for _, c := range n.cases {
			g := guardOf(n.args[0], c.vals, c.neg)
			w := mkSym(itName(c.kid, 0), 0, it.loops)
			if w.ub == 0 {
				w.ub = it.ub
			}
			res = iteDC(pc, res, g, mkCatFor(w, c.kid, restrict(subst(restrict(d, g), map[*Term]*Term{it: w}), g)))
			pc = bOr(pc, g)
		}
		return res
	}
	// what does not depend on the iteration is decided once
	if x := outerCase(d, func(x *Term) bool { return dependsOn(x, it) }); x != nil {
		res, pc := tBot, tFalse
		for _, c := range x.cases {
			g := guardOf(x.args[0], c.vals, c.neg)
			if g == tFalse {
				continue
			}
			res = iteDC(pc, res, g, mkCatFor(it, n, restrict(d, g)))
			pc = bOr(pc, g)
		}
		return res
	}
	if ps := overSegs(it, n, d); ps != nil {
		var parts []*Term
		for _, p := range ps {
			v := p.val(d)
			if p.it == nil {
				parts = append(parts, iteDC(p.cond, v, bNot(p.cond), mkStr("")))
			} else {
				parts = append(parts, mkCatFor(p.it, p.n, iteDC(p.cond, v, bNot(p.cond), mkStr(""))))
			}
		}
		return mkCat(parts...)
	}
	if n.k == KInt && n.i <= 16 {
		var parts []*Term
		for i := int64(0); i < n.i; i++ {
			parts = append(parts, subst(d, map[*Term]*Term{it: mkInt(i)}))
		}
		return mkCat(parts...)
	}
	return mkOp("catfor", it, n, d)
}

// outerCase finds a case distinction of d that is the same in every iteration.
func outerCase(d *Term, varies func(*Term) bool) *Term {
	seen := map[*Term]bool{}
	var rec func(d *Term) *Term
	rec = func(d *Term) *Term {
		if d.k != KGamma || seen[d] {
			return nil
		}
		seen[d] = true
		if !varies(d.args[0]) {
			return d
		}
		for _, c := range d.cases {
			if x := rec(c.kid); x != nil {
				return x
			}
		}
		return nil
	}
	return rec(d)
}

// textStep: b is the text m with something behind it; that something.
func textStep(b, m *Term) *Term { return textStepIn(b, m, false) }

func textStepIn(b, m *Term, inner bool) *Term {
	memo := map[*Term]*Term{}
	clean := map[*Term]bool{}
	var rec func(b *Term, inner bool) *Term
	rec = func(b *Term, inner bool) *Term {
		if b.k == KGamma {
			if r, ok := memo[b]; ok {
				return r
			}
			var r *Term
			var cs []Case
			for _, c := range b.cases {
				x := rec(c.kid, true)
				if x == nil {
					cs = nil
					break
				}
				cs = append(cs, Case{c.vals, c.neg, x})
			}
			if cs != nil {
				r = gammaOrdered(b.args[0], cs)
			}
			memo[b] = r
			return r
		}
		if b == m && inner {
			return mkStr("")
		}
		if b.k != KOp || b.op != "cat" || b.args[0] != m {
			return nil
		}
		for _, a := range b.args[1:] {
			has, ok := clean[a]
			if !ok {
				has = contains(a, m)
				clean[a] = has
			}
			if has {
				return nil
			}
		}
		return mkCat(b.args[1:]...)
	}
	return rec(b, inner)
}

// ---------------------------------------------------------------------------
// Maps.

var tMapEmpty = mkOp("mempty")

func mkMapPut(m, k, v *Term) *Term {
	if m.k == KGamma {
		return mapLeaves(m, func(l *Term) *Term { return mkMapPut(l, k, v) })
	}
	if m.k == KOp && m.op == "mput" && m.args[1] == k {
		return mkOp("mput", m.args[0], k, v)
	}
	return mkOp("mput", m, k, v)
}

func mkMapGet(m, k *Term, vt types.Type) (v, ok *Term) {
	if m.k == KGamma {
		return mapLeaves(m, func(l *Term) *Term { x, _ := mkMapGet(l, k, vt); return x }),
			mapLeaves(m, func(l *Term) *Term { _, y := mkMapGet(l, k, vt); return y })
	}
	if k.k == KGamma {
		return mapLeaves(k, func(l *Term) *Term { x, _ := mkMapGet(m, l, vt); return x }),
			mapLeaves(k, func(l *Term) *Term { _, y := mkMapGet(m, l, vt); return y })
	}
	z := tNil
	if vt != nil {
		z = zeroOf(vt)
	}
	if m.k == KNil || m == tMapEmpty {
		return z, tFalse
	}
	if m.k == KOp && m.op == "mput" {
		c := tEqDeep(k, m.args[1])
		if c == tTrue {
			return m.args[2], tTrue
		}
		v0, ok0 := mkMapGet(m.args[0], k, vt)
		return iteDC(c, m.args[2], bNot(c), v0), bOr(c, ok0)
	}
	if isGroup(m) {
		has := tTrue
		if !isKeyOf(k, m) {
			has = mkOp("mapok", keySet(m), k)
		}
		return groupGet(m, k, vt), has
	}
	if isKeyOf(k, m) {
		return typed(mkOp("mget", m, k), vt), tTrue // a key met while ranging over that map
	}
	ok = mkOp("mapok", keySet(m), k)
	if setMaps[m] {
		return asBool(ok), ok
	}
	v = typed(mkOp("mget", m, k), vt)
	return iteDC(ok, v, bNot(ok), z), ok
}

// isKeyOf: k is a key met while ranging over m, maybe by way of a list of them.
func isKeyOf(k, m *Term) bool {
	if k.k != KOp {
		return false
	}
	if k.op == "mkey" {
		return k.args[0] == keySet(m)
	}
	if k.op == "idx" {
		l := k.args[0]
		if l.k == KOp && l.op == "sorted" {
			l = l.args[0]
		}
		if l.k == KOp && l.op == "seq" && len(l.args) == 1 && l.args[0].op == "each" {
			return isKeyOf(l.args[0].args[3], m)
		}
	}
	return false
}

// keySet forgets the values of a map where only its keys matter.
func keySet(m *Term) *Term {
	if m.k != KOp {
		return m
	}
	switch m.op {
	case "meach":
		return mkOp("meach", m.args[0], m.args[1], m.args[2], m.args[3], tNil, keySet(m.args[5]))
	case "group":
		return mkOp("meach", m.args[0], m.args[1], m.args[2], m.args[5], tNil, keySet(m.args[4]))
	case "mput":
		return mkOp("mput", keySet(m.args[0]), m.args[1], tNil)
	}
	return m
}

// ---------------------------------------------------------------------------
// Grouping: group(it, n, cond, body, init, k1, k2…) is the map init after
// rounds it < n, where each round with cond adds body to the list kept under
// k1 (within the map kept there, under k2, …).

func isGroup(m *Term) bool { return m.k == KOp && m.op == "group" }

// groupStep: the value v put at key k of m is what was there with something added.
func groupStep(v, m, k *Term) (body *Term, keys []*Term) {
	cur, ok := mkOp("mget", m, k), mkOp("mapok", keySet(m), k)
	body, keys = groupDelta(decided(v, ok, true), decided(v, ok, false), cur)
	if body == nil || contains(body, m) {
		return nil, nil
	}
	for _, x := range keys {
		if contains(x, m) {
			return nil, nil
		}
	}
	return body, keys
}

// decided is v where the question ok, wherever it is asked, has that answer.
func decided(v, ok *Term, yes bool) *Term {
	return decideIn(v, ok, []*Term{mkBool(yes)}, false)
}

// groupDelta: vt, the value when there was one (cur), and vf when there was none.
func groupDelta(vt, vf, cur *Term) (*Term, []*Term) {
	if vt.k == KOp && vt.op == "mput" {
		if vt.args[0] != cur || vf.k != KOp || vf.op != "mput" || vf.args[0] != tMapEmpty || vf.args[1] != vt.args[1] {
			return nil, nil
		}
		p := vt.args[1]
		in, ok := mkOp("mget", cur, p), mkOp("mapok", keySet(cur), p)
		w := vt.args[2]
		if decided(w, ok, false) != vf.args[2] {
			return nil, nil
		}
		body, keys := groupDelta(decided(w, ok, true), vf.args[2], in)
		return body, append([]*Term{p}, keys...)
	}
	bad := false
	body := mapLeaves(vt, func(l *Term) *Term {
		if l == cur {
			return mkOp("seq")
		}
		if l.k == KOp && l.op == "seq" && len(l.args) > 1 {
			if h := l.args[0]; h.op == "sub" && h.args[0] == cur && h.args[1] == mkInt(0) && h.args[2] == mkSeqLen(cur) {
				return mkOp("seq", l.args[1:]...)
			}
		}
		bad = true
		return l
	})
	if bad || body != mapLeaves(vf, func(l *Term) *Term {
		if l.k == KNil {
			return mkOp("seq")
		}
		return l
	}) {
		return nil, nil
	}
	return body, nil
}

// groupGet is what group m holds under k; nothing and the empty list are not told apart.
func groupGet(m, k *Term, vt types.Type) *Term {
	it, n, cond, body, init, keys := m.args[0], m.args[1], m.args[2], m.args[3], m.args[4], m.args[5:]
	if contains(k, it) {
		d := 0
		var w *Term
		for {
			w = mkSym(itName(n, d), 0, it.loops)
			if w.ub == 0 {
				w.ub = it.ub
			}
			if !contains(k, w) && !contains(body, w) && !contains(cond, w) {
				break
			}
			d++
		}
		f := map[*Term]*Term{it: w}
		cond, body = subst(cond, f), subst(body, f)
		ks := make([]*Term, len(keys))
		for i := range keys {
			ks[i] = subst(keys[i], f)
		}
		it, keys = w, ks
	}
	rest, _ := mkMapGet(init, k, vt)
	cond = bAnd(cond, tEqDeep(k, keys[0]))
	if len(keys) > 1 {
		return typed(mkOp("group", append([]*Term{it, n, cond, body, rest}, keys[1:]...)...), vt)
	}
	if cond == tFalse {
		return rest
	}
	// a gamma of lists: "added to whichever it is"
	return mapLeaves(rest, func(l *Term) *Term {
		return typed(mkSeq(append(segsOf(l), roundsOf(it, n, cond, restrict(body, cond)))), vt)
	})
}

// groupAbsent: a list that is read from a group where the key is in it, and
// elsewhere is what is left without the rounds of that group, is that list.
func groupAbsent(t *Term) *Term {
	if t.k != KGamma || len(t.cases) != 2 {
		return t
	}
	d := t.args[0]
	if d.k != KOp || d.op != "mapok" || d.args[0].k != KOp || d.args[0].op != "meach" {
		return t
	}
	g := mkGuard(d, []*Term{tTrue}, false)
	in, out := restrict(t, g), restrict(t, bNot(g))
	if out.k == KNil {
		out = mkOp("seq")
	}
	if in.k != KOp || in.op != "seq" || out.k != KOp || out.op != "seq" {
		return t
	}
	key := d.args[1]
	var left []*Term
	for _, s := range in.args {
		absent := false
		for m := d.args[0]; m.k == KOp && m.op == "meach" && !absent; m = m.args[5] {
			if (s.op != "each" && s.op != "flat") || s.args[1] != m.args[1] {
				continue
			}
			is := subst(bAnd(asBool(m.args[2]), tEqDeep(key, m.args[3])), map[*Term]*Term{m.args[0]: s.args[0]})
			absent = implied(asBool(s.args[2]), is)
		}
		if !absent {
			left = append(left, s)
		}
	}
	if !sameTerms(left, out.args) {
		return t
	}
	return in
}

// roundsOf is the part of a list that rounds it < n with cond add, body each.
func roundsOf(it, n, cond, body *Term) *Term {
	single := true
	v := mapLeaves(body, func(l *Term) *Term {
		if l.k == KBot {
			return l
		}
		if l.op != "seq" || len(l.args) != 1 || l.args[0].op != "elem" {
			single = false
			return l
		}
		return l.args[0].args[0]
	})
	if single {
		return mkOp("each", it, n, cond, v)
	}
	return mkOp("flat", it, n, cond, body)
}

// reOp re-applies an operator's simplifications to new arguments.
func reOp(op string, ub int, a []*Term) *Term {
	switch op {
	case "eq0":
		return eqZero(a[0])
	case "neg":
		return tNeg(a[0])
	case "seq":
		return mkSeq(a)
	case "len":
		return mkSeqLen(a[0])
	case "idx":
		return mkSeqIdx(a[0], a[1], nil)
	case "str":
		return mkStrOf(a[0])
	case "cat":
		return mkCat(a...)
	case "alt":
		return mkAlt(a[0])
	case "catfor":
		return mkCatFor(a[0], a[1], a[2])
	case "u1", "u2", "u4", "u8":
		n, _ := strconv.Atoi(op[1:])
		return mkRead(n, a[0], a[1])
	case "ptr":
		return mkPtr(a[0], a[1:]...)
	case "sum":
		return mkSum(a[0], a[1], a[2])
	case "mget":
		if a[0].k == KOp && (a[0].op == "mput" || a[0].op == "mempty" || a[0].op == "group") {
			v, _ := mkMapGet(a[0], a[1], nil)
			return v
		}
	case "mapok":
		_, ok := mkMapGet(a[0], a[1], nil)
		return ok
	case "deref":
		if a[0].k == KOp && a[0].op == "ref" {
			return a[0].args[0]
		}
		if a[0].k == KGamma {
			return mapLeaves(a[0], func(l *Term) *Term { return reOp(op, ub, []*Term{l}) })
		}
	}
	if strings.HasPrefix(op, "fld") {
		i, _ := strconv.Atoi(op[3:])
		var ft types.Type
		if st := structOf(a[0].typ); st != nil && i < st.NumFields() {
			ft = st.Field(i).Type()
		}
		return mkFld(a[0], i, ft)
	}
	if strings.HasPrefix(op, "ext") && len(op) <= 5 {
		if i, err := strconv.Atoi(op[3:]); err == nil {
			return mkExtract(a[0], i, nil)
		}
	}
	return mkOpB(op, ub, a...)
}

// overSegs: when an iteration over [0,n) uses its number only to index a list
// of length n put together from parts, the iteration over the parts.
type segIter struct {
	it, n, cond *Term // nil it: a single element
	val         func(t *Term) *Term
}

func overSegs(it, n *Term, ts ...*Term) []segIter {
	var S *Term
	seen := map[*Term]bool{}
	var find func(x *Term)
	find = func(x *Term) {
		if S != nil || seen[x] || x.size == 1 {
			return
		}
		seen[x] = true
		if x.k == KOp && x.op == "idx" && len(x.args) == 2 && x.args[1] == it && x.args[0].k == KOp && x.args[0].op == "seq" && mkSeqLen(x.args[0]) == n {
			S = x.args[0]
			return
		}
		for _, a := range x.args {
			find(a)
		}
		for _, c := range x.cases {
			find(c.kid)
		}
	}
	for _, t := range ts {
		find(t)
	}
	if S == nil {
		return nil
	}
	var at []*Term // the elements of the list taken in the iteration, by type
	seen = map[*Term]bool{}
	var coll func(x *Term)
	coll = func(x *Term) {
		if seen[x] || x.size == 1 {
			return
		}
		seen[x] = true
		if x.k == KOp && x.op == "idx" && len(x.args) == 2 && x.args[1] == it && x.args[0] == S {
			at = append(at, x)
		}
		for _, a := range x.args {
			coll(a)
		}
		for _, c := range x.cases {
			coll(c.kid)
		}
	}
	for _, t := range ts {
		coll(t)
	}
	hole := mkSym("@element", 0, nil)
	m := map[*Term]*Term{}
	for _, a := range at {
		m[a] = hole
	}
	for _, t := range ts {
		if t != tTrue && changesWith(subst(t, m), it) {
			return nil
		}
	}
	var out []segIter
	for _, s := range S.args {
		e := segIter{cond: tTrue}
		var v *Term
		switch s.op {
		case "elem":
			v = s.args[0]
		case "each":
			e.it, e.n, e.cond, v = s.args[0], s.args[1], s.args[2], s.args[3]
		default:
			return nil
		}
		m := map[*Term]*Term{}
		for _, a := range at {
			m[a] = v
		}
		e.val = func(t *Term) *Term { return subst(t, m) }
		out = append(out, e)
	}
	return out
}

// forwards1: what is added up from the last to the first is the same from the
// first to the last.
func forwards1(it, n, d *Term) *Term {
	r := tSub(tSub(n, mkInt(1)), it)
	if !contains(d, r) {
		return d
	}
	holes, back := map[*Term]*Term{}, map[*Term]*Term{}
	seen := map[*Term]bool{}
	var find func(x *Term)
	find = func(x *Term) {
		if seen[x] || x.size == 1 {
			return
		}
		seen[x] = true
		if x.k == KOp && x.op == "idx" && len(x.args) == 2 && x.args[1] == r {
			h := mkSym("@from the end "+strconv.Itoa(x.id), 0, nil)
			holes[x], back[h] = h, mkSeqIdx(x.args[0], it, x.typ)
			return
		}
		for _, a := range x.args {
			find(a)
		}
		for _, c := range x.cases {
			find(c.kid)
		}
	}
	find(d)
	x := subst(d, holes)
	if changesWith(x, it) {
		return d
	}
	return subst(x, back)
}

// mkSum: the sum over it in [0,n) of d.
func mkSum(it, n, d *Term) *Term {
	d = forwards1(it, n, d)
	if parts := overSegs(it, n, d); parts != nil {
		res := mkInt(0)
		for _, p := range parts {
			x := p.val(d)
			if p.it == nil {
				res = tAdd(res, x)
				continue
			}
			res = tAdd(res, mkSum(p.it, p.n, iteDC(p.cond, x, bNot(p.cond), mkInt(0))))
		}
		return res
	}
	c, m, f := linParts(d)
	res := tScale(n, c)
	for i, x := range m {
		if !dependsOn(x, it) {
			res = tAdd(res, tScale(tMul(n, x), f[i]))
		} else {
			if x.k == KGamma {
				// normal form: the smallest leaf of a numeric table is 0
				lo, all := int64(0), true
				first := true
				mapLeaves(x, func(l *Term) *Term {
					if l.k != KInt {
						all = false
					} else if first || l.i < lo {
						lo, first = l.i, false
					}
					return l
				})
				if all && lo != 0 {
					res = tAdd(res, tScale(tScale(n, lo), f[i]))
					x = mapLeaves(x, func(l *Term) *Term { return mkInt(l.i - lo) })
				}
			}
			k := mkInt(1) // constant factors go before the sum
			if x.k == KMul {
				dep := mkInt(1)
				for _, y := range x.args {
					if dependsOn(y, it) {
						dep = tMul(dep, y)
					} else {
						k = tMul(k, y)
					}
				}
				x = dep
			}
			s := mkOp("sum", it, n, x)
			if nonNegAtom(x) && s.ub == 0 {
				s.bl = false
			}
			res = tAdd(res, tScale(tMul(k, s), f[i]))
		}
	}
	return res
}

// changesWith is dependsOn, but does not count the rounds of loops around.
func changesWith(x, it *Term) bool {
	if !dependsOn(x, it) {
		return false
	}
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(y *Term) bool {
		if y == it {
			return true
		}
		if seen[y] {
			return false
		}
		seen[y] = true
		if y.k == KSym {
			return !strings.HasPrefix(y.op, "it:") && dependsOn(y, it)
		}
		for _, a := range y.args {
			if rec(a) {
				return true
			}
		}
		for _, c := range y.cases {
			if rec(c.kid) {
				return true
			}
		}
		return false
	}
	return rec(x)
}

// dependsOn: does x vary with the loop iteration variable it?
func dependsOn(x, it *Term) bool {
	for _, l := range it.loops {
		if x.inLoop(l) {
			return true
		}
	}
	return contains(x, it)
}

func contains(t, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(y *Term) bool {
		if y == x {
			return true
		}
		if seen[y] || y.size == 1 {
			return false
		}
		seen[y] = true
		for _, a := range y.args {
			if rec(a) {
				return true
			}
		}
		for _, c := range y.cases {
			if rec(c.kid) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func itName(n *Term, d int) string {
	return "it:" + strconv.Itoa(n.id) + "." + strconv.Itoa(d)
}

// ---------------------------------------------------------------------------
// Pointers: a root object plus a path of field/index steps.

func fieldStep(i int, st types.Type) *Term {
	return intern("step"+strconv.Itoa(i)+":"+typeKey(st), func() *Term {
		return &Term{k: KOp, op: "." + strconv.Itoa(i), typ: st, i: int64(i)}
	})
}

func indexStep(i *Term) *Term { return mkOp("[]", i) }

func mkPtr(root *Term, steps ...*Term) *Term {
	if root.k == KGamma {
		return mapLeaves(root, func(l *Term) *Term { return mkPtr(l, steps...) })
	}
	if len(steps) == 0 {
		return root
	}
	if root.k == KOp && root.op == "ptr" {
		return mkOp("ptr", append(append([]*Term(nil), root.args...), steps...)...)
	}
	return mkOp("ptr", append([]*Term{root}, steps...)...)
}

func ptrParts(p *Term) (*Term, []*Term) {
	if p.k == KOp && p.op == "ptr" {
		return p.args[0], p.args[1:]
	}
	return p, nil
}
