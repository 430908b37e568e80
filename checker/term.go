package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Value-graph terms.
//
// Every abstract value is a hash-consed node of a gated value graph, so that
// two program expressions which compute the same value from the same inputs
// are the same node whatever statements, helpers or loops produced them.
// Where control flow merges, values become decision diagrams (KGamma) over the
// conditions that selected them; control conditions themselves are decision
// diagrams with boolean leaves.  The diagrams are ordered, hence canonical.
// ---------------------------------------------------------------------------

type Kind uint8

const (
	KInt Kind = iota
	KStr
	KBool
	KFloat
	KNil
	KSym
	KOp
	KLin
	KMul
	KGamma
	KStruct
	KTuple
	KFunc
	KIface
	KBot // no value reaches here
)

type Term struct {
	id    int
	k     Kind
	op    string // KSym/KOp name, KStr value, KFloat text
	i     int64  // KInt/KBool value, KLin constant
	args  []*Term
	coefs []int64 // KLin
	cases []Case  // KGamma (args[0] is the discriminant)
	typ   types.Type
	fn    any
	ub    int // known to lie in [0,2^ub) when >0
	gam   bool
	bl    bool // boolean-valued unknown
	loc   any
	loops []int // ids of loops whose iteration this value depends on
	size  int
}

// Case is one branch of a decision node. neg: the complement of vals.
type Case struct {
	vals []*Term
	neg  bool
	kid  *Term
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	typeIDs  = map[string]int{}
)

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	s := types.TypeString(t, nil)
	id, ok := typeIDs[s]
	if !ok {
		id = len(typeIDs)
		typeIDs[s] = id
	}
	return strconv.Itoa(id)
}

func mergeLoops(a, b []int) []int {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	out := make([]int, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	if len(out) == len(a) {
		return a
	}
	return out
}

func (t *Term) inLoop(l int) bool {
	for _, x := range t.loops {
		if x == l {
			return true
		}
	}
	return false
}

// termLimit is the number of terms at which a limited attempt is given up.
var termLimit int

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	if overLimit.Load() || termLimit > 0 && len(termList) > termLimit {
		panic(budgetErr{})
	}
	t := mk()
	t.id = len(termList)
	for _, a := range t.args {
		t.loops = mergeLoops(t.loops, a.loops)
		t.gam = t.gam || a.gam || a.k == KGamma
		t.size += a.size
	}
	for _, c := range t.cases {
		t.loops = mergeLoops(t.loops, c.kid.loops)
		t.size += c.kid.size
	}
	t.size++
	if t.k == KGamma {
		t.gam = true
	}
	termList = append(termList, t)
	termTab[key] = t
	return t
}

func idList(ts []*Term) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(strconv.Itoa(t.id))
		b.WriteByte(',')
	}
	return b.String()
}

func mkInt(v int64) *Term {
	return intern("i"+strconv.FormatInt(v, 10), func() *Term { return &Term{k: KInt, i: v} })
}
func mkStr(s string) *Term {
	return intern("s"+s, func() *Term { return &Term{k: KStr, op: s} })
}
func mkFloat(s string) *Term {
	return intern("f"+s, func() *Term { return &Term{k: KFloat, op: s} })
}

var (
	tFalse = intern("bF", func() *Term { return &Term{k: KBool, i: 0} })
	tTrue  = intern("bT", func() *Term { return &Term{k: KBool, i: 1} })
	tNil   = intern("nil", func() *Term { return &Term{k: KNil} })
	tBot   = intern("bot", func() *Term { return &Term{k: KBot} })
	tErr   = intern("err", func() *Term { return &Term{k: KOp, op: "error"} }) // some non-nil error value
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// mkSym makes (or finds) a named unknown. bits: known unsigned width; loops:
// the loops whose iterations give it a new value each time.
func mkSym(name string, bits int, loops []int) *Term {
	key := "y" + name
	return intern(key, func() *Term { return &Term{k: KSym, op: name, ub: bits, loops: loops} })
}

func mkOp(op string, args ...*Term) *Term { return mkOpB(op, 0, args...) }

func mkOpB(op string, bits int, args ...*Term) *Term {
	for _, a := range args {
		if a == nil {
			panic("nil arg in " + op)
		}
	}
	return intern("o"+op+"("+idList(args), func() *Term {
		return &Term{k: KOp, op: op, args: append([]*Term(nil), args...), ub: bits}
	})
}

func mkTuple(args ...*Term) *Term {
	return intern("t("+idList(args), func() *Term { return &Term{k: KTuple, args: append([]*Term(nil), args...)} })
}

func mkStruct(typ types.Type, args ...*Term) *Term {
	// a struct all of whose fields are read from one unknown is that unknown
	if len(args) > 0 {
		var base *Term
		same := true
		for i, a := range args {
			if a.k != KOp || a.op != "fld"+strconv.Itoa(i) {
				same = false
				break
			}
			if base == nil {
				base = a.args[0]
			} else if base != a.args[0] {
				same = false
				break
			}
		}
		if same && base.typ != nil && types.Identical(base.typ, typ) {
			return base
		}
	}
	return intern("S"+typeKey(typ)+"("+idList(args), func() *Term {
		return &Term{k: KStruct, typ: typ, args: append([]*Term(nil), args...)}
	})
}

func mkIface(typ types.Type, v *Term) *Term {
	return intern("I"+typeKey(typ)+"("+strconv.Itoa(v.id), func() *Term {
		return &Term{k: KIface, typ: typ, args: []*Term{v}}
	})
}

func mkFunc(name string, fn any, binds []*Term) *Term {
	return intern("F"+name+"("+idList(binds), func() *Term {
		return &Term{k: KFunc, op: name, fn: fn, args: append([]*Term(nil), binds...)}
	})
}

// ---------------------------------------------------------------------------
// Linear integer arithmetic over atoms and products of atoms.

func linParts(t *Term) (int64, []*Term, []int64) {
	switch t.k {
	case KInt:
		return t.i, nil, nil
	case KLin:
		return t.i, t.args, t.coefs
	}
	return 0, []*Term{t}, []int64{1}
}

func mkLin(c int64, mons []*Term, coefs []int64) *Term {
	type mc struct {
		m *Term
		c int64
	}
	var ms []mc
	idx := map[*Term]int{}
	for i, m := range mons {
		if j, ok := idx[m]; ok {
			ms[j].c += coefs[i]
		} else {
			idx[m] = len(ms)
			ms = append(ms, mc{m, coefs[i]})
		}
	}
	var out []mc
	for _, x := range ms {
		if x.c != 0 {
			out = append(out, x)
		}
	}
	// decision nodes on the same discriminant are added pointwise
	top := map[*Term]int{}
	for i, x := range out {
		if x.m.k == KGamma {
			if j, ok := top[x.m.args[0]]; ok {
				a, b := out[j], out[i]
				g := gammaApply2(a.m, b.m, func(p, q *Term) *Term { return tAdd(tScale(p, a.c), tScale(q, b.c)) })
				var m2 []*Term
				var c2 []int64
				for k, y := range out {
					if k != i && k != j {
						m2 = append(m2, y.m)
						c2 = append(c2, y.c)
					}
				}
				rest := mkLin(c, m2, c2)
				return tAdd(rest, g)
			}
			top[x.m.args[0]] = i
		}
	}
	// adjacent bytes weighted as digits make one big-endian number
	for i, lo := range out {
		n := readWidth(lo.m)
		if n == 0 || n > 4 {
			continue
		}
		for j, hi := range out {
			if i == j || readWidth(hi.m) != n || hi.m.args[0] != lo.m.args[0] || hi.c != lo.c<<(8*n) || lo.c != hi.c>>(8*n) {
				continue
			}
			if tAdd(hi.m.args[1], mkInt(int64(n))) != lo.m.args[1] {
				continue
			}
			var m2 []*Term
			var c2 []int64
			for k, y := range out {
				if k != i && k != j {
					m2, c2 = append(m2, y.m), append(c2, y.c)
				}
			}
			return mkLin(c, append(m2, mkRead(2*n, lo.m.args[0], hi.m.args[1])), append(c2, lo.c))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].m.id < out[j].m.id })
	if len(out) == 0 {
		return mkInt(c)
	}
	if c == 0 && len(out) == 1 && out[0].c == 1 {
		return out[0].m
	}
	var b strings.Builder
	fmt.Fprintf(&b, "L%d", c)
	args := make([]*Term, len(out))
	cs := make([]int64, len(out))
	for i, x := range out {
		fmt.Fprintf(&b, "+%d*%d", x.c, x.m.id)
		args[i] = x.m
		cs[i] = x.c
	}
	return intern(b.String(), func() *Term { return &Term{k: KLin, i: c, args: args, coefs: cs} })
}

// readWidth: the number of bytes of a big-endian number read from a source.
func readWidth(t *Term) int {
	if t.k == KOp && len(t.args) == 2 {
		switch t.op {
		case "u1":
			return 1
		case "u2":
			return 2
		case "u4":
			return 4
		}
	}
	return 0
}

func tAdd(a, b *Term) *Term {
	ca, ma, fa := linParts(a)
	cb, mb, fb := linParts(b)
	ms := append(append([]*Term(nil), ma...), mb...)
	fs := append(append([]int64(nil), fa...), fb...)
	return mkLin(ca+cb, ms, fs)
}

func tScale(a *Term, k int64) *Term {
	c, m, f := linParts(a)
	f2 := make([]int64, len(f))
	for i := range f {
		f2[i] = f[i] * k
	}
	return mkLin(c*k, m, f2)
}

func tSub(a, b *Term) *Term { return tAdd(a, tScale(b, -1)) }

func monFactors(t *Term) []*Term {
	if t.k == KMul {
		return t.args
	}
	return []*Term{t}
}

func tMul(a, b *Term) *Term {
	if a.k == KInt {
		return tScale(b, a.i)
	}
	if b.k == KInt {
		return tScale(a, b.i)
	}
	ca, ma, fa := linParts(a)
	cb, mb, fb := linParts(b)
	res := mkInt(ca * cb)
	for i, m := range ma {
		res = tAdd(res, tScale(m, fa[i]*cb))
	}
	for j, m := range mb {
		res = tAdd(res, tScale(m, fb[j]*ca))
	}
	for i, x := range ma {
		for j, y := range mb {
			res = tAdd(res, tScale(mkMon(x, y), fa[i]*fb[j]))
		}
	}
	return res
}

func mkMon(x, y *Term) *Term {
	if x.k == KGamma || y.k == KGamma {
		return gammaApply2(x, y, tMul)
	}
	fs := append(append([]*Term(nil), monFactors(x)...), monFactors(y)...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return intern("M"+idList(fs), func() *Term { return &Term{k: KMul, args: fs} })
}

func isNum(t *Term) bool {
	switch t.k {
	case KInt, KLin, KMul:
		return true
	}
	return false
}

// ---------------------------------------------------------------------------
// Decision nodes.

func valIn(vals []*Term, v *Term) bool {
	for _, x := range vals {
		if x == v {
			return true
		}
	}
	return false
}

func sortVals(vals []*Term) []*Term {
	out := append([]*Term(nil), vals...)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// mkGamma builds the node "case disc of ...". Cases must be disjoint; values
// in none of them cannot occur.
func mkGamma(disc *Term, cases []Case) *Term {
	var cs []Case
	for _, c := range pinDisc(disc, cases) {
		if c.kid.k == KBot || (!c.neg && len(c.vals) == 0) {
			continue
		}
		merged := false
		for i := range cs {
			if cs[i].kid == c.kid {
				cs[i].vals, cs[i].neg = setUnion(cs[i].vals, cs[i].neg, c.vals, c.neg)
				merged = true
				break
			}
		}
		if !merged {
			cs = append(cs, c)
		}
	}
	if len(cs) == 0 {
		return tBot
	}
	if len(cs) == 1 {
		return cs[0].kid
	}
	// boolean atom itself
	if len(cs) == 2 && isBoolAtom(disc) {
		if kidFor(cs, tTrue) == tTrue && kidFor(cs, tFalse) == tFalse {
			return disc
		}
	}
	// aggregates of one shape are selected componentwise
	if t := gammaShape(disc, cs); t != nil {
		return t
	}
	// numeric: factor the common linear part out
	num := true
	anyNum := false
	for _, c := range cs {
		switch c.kid.k {
		case KInt, KLin:
			anyNum = true
		case KMul, KSym, KOp, KGamma:
		default:
			num = false
		}
	}
	if num && anyNum {
		c0, m0, f0 := linParts(cs[0].kid)
		common := map[*Term]int64{}
		for i, m := range m0 {
			common[m] = f0[i]
		}
		sameC := true
		for _, c := range cs[1:] {
			ck, mk, fk := linParts(c.kid)
			if ck != c0 {
				sameC = false
			}
			has := map[*Term]int64{}
			for i, m := range mk {
				has[m] = fk[i]
			}
			for m, f := range common {
				if has[m] != f {
					delete(common, m)
				}
			}
		}
		base := mkInt(0)
		for _, m := range m0 { // deterministic order
			if f, ok := common[m]; ok {
				base = tAdd(base, tScale(m, f))
			}
		}
		if sameC && c0 != 0 {
			base = tAdd(base, mkInt(c0))
		}
		// k*disc + b over all listed values?
		if lin := gammaLinear(disc, cs, base); lin != nil {
			return tAdd(base, lin)
		}
		if base != mkInt(0) {
			var rc []Case
			for _, c := range cs {
				rc = append(rc, Case{c.vals, c.neg, tSub(c.kid, base)})
			}
			return tAdd(base, mkGammaRaw(disc, rc))
		}
	}
	return mkGammaRaw(disc, cs)
}

// pinDisc replaces disc by its value where the case says what it is.
func pinDisc(disc *Term, cases []Case) []Case {
	var out []Case
	for i, c := range cases {
		f := int64(0)
		if !c.neg && len(c.vals) > 0 && len(c.vals) <= 16 && (c.kid == disc || c.kid.k == KLin) {
			_, ms, fs := linParts(c.kid)
			for j, m := range ms {
				if m == disc {
					f = fs[j]
				}
			}
		}
		for _, v := range c.vals {
			if v.k != KInt {
				f = 0
			}
		}
		if f == 0 {
			if out != nil {
				out = append(out, c)
			}
			continue
		}
		if out == nil {
			out = append([]Case{}, cases[:i]...)
		}
		for _, v := range c.vals {
			out = append(out, Case{[]*Term{v}, false, tAdd(c.kid, tAdd(tScale(disc, -f), mkInt(f*v.i)))})
		}
	}
	if out == nil {
		return cases
	}
	return out
}

func gammaLinear(disc *Term, cs []Case, base *Term) *Term {
	type pt struct{ x, y int64 }
	var pts []pt
	for _, c := range cs {
		r := tSub(c.kid, base)
		if c.neg || r.k != KInt {
			return nil
		}
		for _, v := range c.vals {
			if v.k != KInt {
				return nil
			}
			pts = append(pts, pt{v.i, r.i})
		}
	}
	if len(pts) < 2 {
		return nil
	}
	dx, dy := pts[1].x-pts[0].x, pts[1].y-pts[0].y
	if dx == 0 || dy%dx != 0 {
		return nil
	}
	k := dy / dx
	b := pts[0].y - k*pts[0].x
	for _, p := range pts {
		if k*p.x+b != p.y {
			return nil
		}
	}
	if len(pts) == 2 && b != 0 {
		return nil // two points always fit a line; only keep proportional ones
	}
	return tAdd(tScale(disc, k), mkInt(b))
}

func gammaShape(disc *Term, cs []Case) *Term {
	k0 := cs[0].kid
	switch k0.k {
	case KStruct, KTuple, KIface:
	default:
		return nil
	}
	for _, c := range cs[1:] {
		if c.kid.k != k0.k || len(c.kid.args) != len(k0.args) {
			return nil
		}
		if k0.k != KTuple && !types.Identical(c.kid.typ, k0.typ) {
			return nil
		}
	}
	args := make([]*Term, len(k0.args))
	for i := range args {
		var sub []Case
		for _, c := range cs {
			sub = append(sub, Case{c.vals, c.neg, c.kid.args[i]})
		}
		args[i] = mkGamma(disc, sub)
	}
	switch k0.k {
	case KStruct:
		return mkStruct(k0.typ, args...)
	case KTuple:
		return mkTuple(args...)
	}
	return mkIface(k0.typ, args[0])
}

func mkGammaRaw(disc *Term, cs []Case) *Term {
	if len(cs) == 1 {
		return cs[0].kid
	}
	norm := make([]Case, len(cs))
	for i, c := range cs {
		norm[i] = Case{sortVals(c.vals), c.neg, c.kid}
	}
	sort.Slice(norm, func(i, j int) bool {
		if norm[i].neg != norm[j].neg {
			return !norm[i].neg
		}
		if len(norm[i].vals) == 0 || len(norm[j].vals) == 0 {
			return len(norm[i].vals) > len(norm[j].vals)
		}
		return norm[i].vals[0].id < norm[j].vals[0].id
	})
	var b strings.Builder
	fmt.Fprintf(&b, "G%d", disc.id)
	for _, c := range norm {
		fmt.Fprintf(&b, "|%v%s:%d", c.neg, idList(c.vals), c.kid.id)
	}
	return intern(b.String(), func() *Term {
		return &Term{k: KGamma, args: []*Term{disc}, cases: norm}
	})
}

func setUnion(a []*Term, an bool, b []*Term, bn bool) ([]*Term, bool) {
	switch {
	case !an && !bn:
		out := append([]*Term(nil), a...)
		for _, v := range b {
			if !valIn(out, v) {
				out = append(out, v)
			}
		}
		return out, false
	case an && bn:
		var out []*Term
		for _, v := range a {
			if valIn(b, v) {
				out = append(out, v)
			}
		}
		return out, true
	case an:
		var out []*Term
		for _, v := range a {
			if !valIn(b, v) {
				out = append(out, v)
			}
		}
		return out, true
	default:
		return setUnion(b, bn, a, an)
	}
}

func setInter(a []*Term, an bool, b []*Term, bn bool) ([]*Term, bool) {
	u, n := setUnion(a, !an, b, !bn) // De Morgan
	return u, !n
}

func setEmpty(vals []*Term, neg bool) bool { return !neg && len(vals) == 0 }

func kidFor(cs []Case, v *Term) *Term {
	for _, c := range cs {
		if valIn(c.vals, v) != c.neg {
			return c.kid
		}
	}
	return tBot
}

// isBoolAtom: terms which range over true/false.
func isBoolAtom(t *Term) bool {
	if t.bl {
		return true
	}
	if t.k == KSym {
		return strings.HasPrefix(t.op, "?")
	}
	if t.k != KOp {
		return false
	}
	switch t.op {
	case "eq0", "neg", "negu", "same", "readok", "mapok", "typeis", "bool1", "strlt":
		return true
	}
	return strings.HasPrefix(t.op, "?")
}

// asNode views a term as a decision node.
func asNode(t *Term) (*Term, []Case, bool) {
	if t.k == KGamma {
		return t.args[0], t.cases, true
	}
	if isBoolAtom(t) {
		return t, []Case{{[]*Term{tTrue}, false, tTrue}, {[]*Term{tFalse}, false, tFalse}}, true
	}
	return nil, nil, false
}

func isLeaf(t *Term) bool { return t.k != KGamma }

func leafBool(t *Term) (bool, bool) {
	if t == tTrue {
		return true, true
	}
	if t == tFalse {
		return false, true
	}
	return false, false
}

// mapLeaves applies f below the decision nodes at the top of t.
func mapLeaves(t *Term, f func(*Term) *Term) *Term {
	if t.k == KBot {
		return t
	}
	if t.k != KGamma {
		return f(t)
	}
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if x.k == KBot {
			return x
		}
		if x.k != KGamma {
			return f(x)
		}
		if r, ok := memo[x]; ok {
			return r
		}
		var cs []Case
		for _, c := range x.cases {
			cs = append(cs, Case{c.vals, c.neg, rec(c.kid)})
		}
		r := gammaOrdered(x.args[0], cs)
		memo[x] = r
		return r
	}
	return rec(t)
}

// gammaOrdered builds a node whose kids may contain nodes on smaller
// discriminants (results of f), restoring the variable order.
func gammaOrdered(disc *Term, cs []Case) *Term {
	ok := true
	for _, c := range cs {
		if d, _, isn := asNode(c.kid); isn && d.id <= disc.id {
			ok = false
		}
	}
	if ok {
		return mkGamma(disc, cs)
	}
	// rebuild with ite on the guard of each case
	res := tBot
	pc := tFalse
	for _, c := range cs {
		g := mkGuard(disc, c.vals, c.neg)
		res = iteDC(pc, res, g, c.kid)
		pc = bOr(pc, g)
	}
	return res
}

func mkGuard(disc *Term, vals []*Term, neg bool) *Term {
	if isConst(disc) {
		return mkBool(valIn(vals, disc) != neg)
	}
	if setEmpty(vals, neg) {
		return tFalse
	}
	if neg && len(vals) == 0 {
		return tTrue
	}
	if isBoolAtom(disc) {
		t := valIn(vals, tTrue) != neg
		f := valIn(vals, tFalse) != neg
		switch {
		case t && f:
			return tTrue
		case t:
			return disc
		case !f:
			return tFalse
		}
		return mkGammaRaw(disc, []Case{{[]*Term{tTrue}, false, tFalse}, {[]*Term{tFalse}, false, tTrue}})
	}
	return mkGammaRaw(disc, []Case{{vals, neg, tTrue}, {vals, !neg, tFalse}})
}

// gammaApply2 combines two terms pointwise below their decision nodes.
func gammaApply2(a, b *Term, f func(p, q *Term) *Term) *Term {
	return gammaApplyMax(a, b, 0, f)
}

// gammaApplyMax gives up with nil when there are more than max combinations.
func gammaApplyMax(a, b *Term, max int, f func(p, q *Term) *Term) *Term {
	over := false
	memo := map[[2]*Term]*Term{}
	var rec func(a, b *Term) *Term
	rec = func(a, b *Term) *Term {
		if a.k == KBot || b.k == KBot {
			return tBot
		}
		if a.k != KGamma && b.k != KGamma {
			return f(a, b)
		}
		key := [2]*Term{a, b}
		if r, ok := memo[key]; ok {
			return r
		}
		if max > 0 && len(memo) > max {
			over = true
		}
		if over {
			return tBot
		}
		var d *Term
		var r *Term
		switch {
		case a.k == KGamma && (b.k != KGamma || a.args[0].id < b.args[0].id):
			d = a.args[0]
			var cs []Case
			for _, c := range a.cases {
				cs = append(cs, Case{c.vals, c.neg, rec(c.kid, b)})
			}
			r = gammaOrdered(d, cs)
		case b.k == KGamma && (a.k != KGamma || b.args[0].id < a.args[0].id):
			d = b.args[0]
			var cs []Case
			for _, c := range b.cases {
				cs = append(cs, Case{c.vals, c.neg, rec(a, c.kid)})
			}
			r = gammaOrdered(d, cs)
		default:
			d = a.args[0]
			var cs []Case
			for _, x := range a.cases {
				for _, y := range b.cases {
					v, n := setInter(x.vals, x.neg, y.vals, y.neg)
					if setEmpty(v, n) {
						continue
					}
					cs = append(cs, Case{v, n, rec(x.kid, y.kid)})
				}
			}
			r = gammaOrdered(d, cs)
		}
		memo[key] = r
		return r
	}
	r := rec(a, b)
	if over {
		return nil
	}
	return r
}

// ---------------------------------------------------------------------------
// Boolean diagrams.

type k3 struct{ a, b, c, d int }

var boolMemo = map[k3]*Term{}

// bApply is binary apply on boolean diagrams (leaves True/False/Bot).
func bApply(op int, a, b *Term) *Term {
	// a missing branch is one that cannot be taken
	switch op {
	case 0: // and
		if a == tFalse || b == tFalse || a.k == KBot || b.k == KBot {
			return tFalse
		}
		if a == tTrue {
			return b
		}
		if b == tTrue || a == b {
			return a
		}
	case 1: // or
		if a == tTrue || b == tTrue {
			return tTrue
		}
		if a == tFalse || a.k == KBot {
			return b
		}
		if b == tFalse || a == b || b.k == KBot {
			return a
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	key := k3{op, a.id, b.id, 0}
	if r, ok := boolMemo[key]; ok {
		return r
	}
	da, _, oka := asNode(a)
	db, _, okb := asNode(b)
	if !oka || !okb {
		panic("non-boolean in diagram: " + show(a) + " / " + show(b))
	}
	d := da
	if db.id < d.id {
		d = db
	}
	var cs []Case
	for _, p := range refine(d, a, b) {
		cs = append(cs, Case{p.vals, p.neg, bApply(op, cofactor(a, d, p), cofactor(b, d, p))})
	}
	r := mkGamma(d, cs)
	boolMemo[key] = r
	return r
}

func bAnd(a, b *Term) *Term { return bApply(0, a, b) }
func bOr(a, b *Term) *Term  { return bApply(1, a, b) }

func bNot(a *Term) *Term {
	if a == tTrue {
		return tFalse
	}
	if a == tFalse {
		return tTrue
	}
	if a.k == KBot {
		return a
	}
	key := k3{2, a.id, 0, 0}
	if r, ok := boolMemo[key]; ok {
		return r
	}
	d, cs, ok := asNode(a)
	if !ok {
		panic("bNot of " + show(a))
	}
	var out []Case
	for _, c := range cs {
		out = append(out, Case{c.vals, c.neg, bNot(c.kid)})
	}
	r := mkGamma(d, out)
	boolMemo[key] = r
	return r
}

// iteDC: the value that is v1 under p1 and v2 under p2; elsewhere anything.
func iteDC(p1, v1, p2, v2 *Term) *Term {
	if p1 == tFalse || p1.k == KBot {
		if p2 == tFalse || p2.k == KBot {
			return tBot
		}
		return v2
	}
	if p2 == tFalse || p2.k == KBot {
		return v1
	}
	if v1 == v2 || v2.k == KBot {
		return v1
	}
	if v1.k == KBot {
		return v2
	}
	key := [4]int{p1.id, v1.id, p2.id, v2.id}
	if r, ok := iteMemo[key]; ok {
		return r
	}
	var r *Term
	// componentwise first: keeps aggregates exposed
	if v1.k == v2.k && (v1.k == KStruct || v1.k == KTuple || v1.k == KIface) && len(v1.args) == len(v2.args) &&
		(v1.k == KTuple || types.Identical(v1.typ, v2.typ)) {
		args := make([]*Term, len(v1.args))
		for i := range args {
			args[i] = iteDC(p1, v1.args[i], p2, v2.args[i])
		}
		switch v1.k {
		case KStruct:
			r = mkStruct(v1.typ, args...)
		case KTuple:
			r = mkTuple(args...)
		default:
			r = mkIface(v1.typ, args[0])
		}
		iteMemo[key] = r
		return r
	}
	// top discriminant among the two guards and the values' top nodes
	var d *Term
	pick := func(t *Term) {
		if x, _, ok := asNode(t); ok && (d == nil || x.id < d.id) {
			d = x
		}
	}
	pick(p1)
	pick(p2)
	pick(v1)
	pick(v2)
	if d == nil {
		// both reachable with no distinguishing condition: not expected
		r = mkOp("either", v1, v2)
		iteMemo[key] = r
		return r
	}
	parts := refine(d, p1, p2, v1, v2)
	var cs []Case
	for _, pt := range parts {
		cs = append(cs, Case{pt.vals, pt.neg, iteDC(cofactor(p1, d, pt), cofactor(v1, d, pt), cofactor(p2, d, pt), cofactor(v2, d, pt))})
	}
	r = gammaOrdered(d, cs)
	iteMemo[key] = r
	return r
}

var iteMemo = map[[4]int]*Term{}

type part struct {
	vals []*Term
	neg  bool
}

// refine splits the values of d into parts on which all given diagrams have a
// single branch at d.
func refine(d *Term, ts ...*Term) []part {
	parts := []part{{nil, true}}
	if isBoolAtom(d) {
		return []part{{[]*Term{tTrue}, false}, {[]*Term{tFalse}, false}}
	}
	for _, t := range ts {
		x, cs, ok := asNode(t)
		if !ok || x != d {
			continue
		}
		var np []part
		for _, p := range parts {
			rest := p
			for _, c := range cs {
				v, n := setInter(p.vals, p.neg, c.vals, c.neg)
				if !setEmpty(v, n) {
					np = append(np, part{v, n})
				}
				rv, rn := setInter(rest.vals, rest.neg, c.vals, !c.neg)
				rest = part{rv, rn}
			}
			if !setEmpty(rest.vals, rest.neg) {
				np = append(np, rest)
			}
		}
		parts = np
	}
	return parts
}

func cofactor(t, d *Term, p part) *Term {
	x, cs, ok := asNode(t)
	if !ok || x != d {
		return t
	}
	for _, c := range cs {
		v, n := setInter(p.vals, p.neg, c.vals, c.neg)
		if !setEmpty(v, n) {
			return c.kid
		}
	}
	return tBot
}

// restrict simplifies v under the assumption pc (dropping branches pc excludes).
var restrictMemo = map[[2]int]*Term{}

func restrict(v, pc *Term) *Term {
	if pc == tTrue || v.k == KInt || v.k == KStr || v.k == KNil || v.k == KBool {
		return v
	}
	if isBoolAtom(v) {
		if pc == tFalse {
			return tBot
		}
		t, f := bAnd(v, pc) != tFalse, bAnd(bNot(v), pc) != tFalse
		if t && !f {
			return tTrue
		}
		if f && !t {
			return tFalse
		}
		return v
	}
	if !v.gam {
		return v
	}
	key := [2]int{v.id, pc.id}
	if r, ok := restrictMemo[key]; ok {
		return r
	}
	r := restrict1(v, pc)
	restrictMemo[key] = r
	return r
}

func restrict1(v, pc *Term) *Term {
	if pc == tFalse || pc.k == KBot {
		return tBot
	}
	switch v.k {
	case KGamma:
		dp, _, okp := asNode(pc)
		dv := v.args[0]
		if okp && dp.id < dv.id {
			// split on pc's variable, keep the node only if the halves differ
			parts := refine(dp, pc)
			var cs []Case
			for _, p := range parts {
				cpc := cofactor(pc, dp, p)
				if cpc == tFalse || cpc.k == KBot {
					continue
				}
				cs = append(cs, Case{p.vals, p.neg, restrict(v, cpc)})
			}
			same := true
			for _, c := range cs {
				if c.kid != cs[0].kid {
					same = false
				}
			}
			if same {
				return cs[0].kid
			}
			return gammaOrdered(dp, cs)
		}
		var cs []Case
		for _, c := range v.cases {
			if okp && dp == dv {
				for _, p := range refine(dv, pc) {
					vv, n := setInter(p.vals, p.neg, c.vals, c.neg)
					if setEmpty(vv, n) {
						continue
					}
					cpc := cofactor(pc, dv, p)
					if cpc == tFalse || cpc.k == KBot {
						continue
					}
					cs = append(cs, Case{vv, n, restrict(c.kid, cpc)})
				}
			} else {
				cs = append(cs, Case{c.vals, c.neg, restrict(c.kid, pc)})
			}
		}
		return gammaOrdered(dv, cs)
	}
	args := make([]*Term, len(v.args))
	ch := false
	for i, a := range v.args {
		args[i] = restrict(a, pc)
		if args[i].k == KBot {
			// component undefined here; keep the original
			args[i] = a
		}
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return v
	}
	return rebuild(v, args)
}

// rebuild makes a term like v with new arguments.
func rebuild(v *Term, args []*Term) *Term {
	switch v.k {
	case KLin:
		r := mkInt(v.i)
		for i, a := range args {
			r = tAdd(r, tScale(a, v.coefs[i]))
		}
		return r
	case KMul:
		r := mkInt(1)
		for _, a := range args {
			r = tMul(r, a)
		}
		return r
	case KStruct:
		return mkStruct(v.typ, args...)
	case KTuple:
		return mkTuple(args...)
	case KIface:
		return mkIface(v.typ, args[0])
	case KFunc:
		return mkFunc(v.op, v.fn, args)
	case KOp:
		r := reOp(v.op, v.ub, args)
		if r.k == KOp && r.op == v.op {
			if v.bl {
				r.bl = true
			}
			if r.typ == nil {
				r.typ = v.typ
			}
		}
		return r
	case KGamma:
		panic("rebuild gamma")
	}
	return v
}

// subst replaces atoms by terms everywhere.
func subst(t *Term, m map[*Term]*Term) *Term { return rewrite(t, m, nil) }

// rewrite is subst with a rule applied to every rebuilt operator.
func rewrite(t *Term, m map[*Term]*Term, post func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.args) == 0 && len(x.cases) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		var r *Term
		if x.k == KGamma {
			d := rec(x.args[0])
			ch := d != x.args[0]
			var cs []Case
			for _, c := range x.cases {
				k := rec(c.kid)
				if k != c.kid {
					ch = true
				}
				cs = append(cs, Case{c.vals, c.neg, k})
			}
			switch {
			case !ch:
				r = x
			case d == x.args[0]:
				r = gammaOrdered(d, cs)
			default:
				res, pc := tBot, tFalse
				for _, c := range cs {
					g := guardOf(d, c.vals, c.neg)
					if g == tFalse {
						continue
					}
					res = iteDC(pc, res, g, c.kid)
					pc = bOr(pc, g)
				}
				r = res
			}
		} else {
			args := make([]*Term, len(x.args))
			ch := false
			for i, a := range x.args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			if ch {
				rebind(x, args)
				r = rebuild(x, args)
			} else {
				r = x
			}
			if post != nil {
				r = post(r)
			}
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

// rebind renames the variable a closed form binds after the number of rounds
// it now ranges over.
func rebind(x *Term, args []*Term) {
	if x.k != KOp || (x.op != "each" && x.op != "sum" && x.op != "flat" && x.op != "meach" && x.op != "group" && x.op != "catfor") || args[1] == x.args[1] || args[0] != x.args[0] {
		return
	}
	v := args[0]
	if v.k != KSym || !strings.HasPrefix(v.op, "it:"+strconv.Itoa(x.args[1].id)+".") {
		return
	}
	d := 0
	fmt.Sscanf(v.op[strings.LastIndex(v.op, ".")+1:], "%d", &d)
	w := mkSym(itName(args[1], d), 0, v.loops)
	if w.ub == 0 {
		w.ub = v.ub
	}
	for _, a := range args[1:] {
		if contains(a, w) {
			return
		}
	}
	m := map[*Term]*Term{v: w}
	for i := range args {
		if i != 1 {
			args[i] = subst(args[i], m)
		}
	}
}

// guardOf: the condition "d ∈ vals" for any term d.
func guardOf(d *Term, vals []*Term, neg bool) *Term {
	g := tFalse
	for _, v := range vals {
		g = bOr(g, tEq(d, v))
	}
	if neg {
		return bNot(g)
	}
	return g
}

// existsOut removes the discriminants selected by drop from a condition.
func existsOut(t *Term, drop func(*Term) bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		d, cs, ok := asNode(x)
		if !ok {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		var r *Term
		if drop(d) {
			r = tFalse
			for _, c := range cs {
				r = bOr(r, rec(c.kid))
			}
		} else {
			var out []Case
			for _, c := range cs {
				out = append(out, Case{c.vals, c.neg, rec(c.kid)})
			}
			r = gammaOrdered(d, out)
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

// ---------------------------------------------------------------------------
// Comparisons.

func isConst(t *Term) bool {
	switch t.k {
	case KInt, KStr, KBool, KNil, KFloat:
		return true
	}
	return false
}

// neverNil: values that are certainly not nil.
func neverNil(t *Term) bool {
	switch t.k {
	case KFunc, KIface:
		return true
	case KSym:
		return strings.HasPrefix(t.op, "new:") || strings.HasPrefix(t.op, "glob:") || strings.HasPrefix(t.op, "nn:")
	case KOp:
		return strings.HasPrefix(t.op, "errof:") || sentinel(t) && isErrorType(t.typ) && !strings.Contains(t.args[0].op, repoModule) || t.op == "ptr" || t.op == "error" || t.op == "slice" || t.op == "errval" || t.op == "errexist" || t.op == "errnotexist" || t.op == "errnew" || t.op == "wrapped"
	}
	return false
}

// newError: an error value made on the spot, equal to no variable's value.
func newError(t *Term) bool { return t.k == KOp && (t.op == "errnew" || t.op == "wrapped") }

func sentinel(t *Term) bool {
	return t.k == KOp && t.op == "deref" && t.args[0].k == KSym && strings.HasPrefix(t.args[0].op, "glob:")
}

// tEq: a == b as a condition.
func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.k == KGamma || b.k == KGamma {
		return gammaApply2(a, b, tEq)
	}
	if (a.k == KStr) != (b.k == KStr) && isConst(a) && isConst(b) {
		return tFalse
	}
	if a.k == KBool || b.k == KBool {
		if a.k == KBool {
			a, b = b, a
		}
		if b == tTrue {
			return asBool(a)
		}
		return bNot(asBool(a))
	}
	if isConst(a) && isConst(b) {
		if a.k == b.k {
			return tFalse
		}
		return mkBool(false)
	}
	if isBoolAtom(a) && isBoolAtom(b) {
		return bOr(bAnd(a, b), bAnd(bNot(a), bNot(b)))
	}
	if a.k == KNil {
		a, b = b, a
	}
	if b.k == KNil {
		if neverNil(a) {
			return tFalse
		}
		if a.k == KOp && a.op == "seq" {
			return tFalse
		}
		return mkGuard(a, []*Term{tNil}, false)
	}
	if neverNil(a) && neverNil(b) && a.k == KSym && b.k == KSym {
		return tFalse
	}
	if newError(a) && sentinel(b) || newError(b) && sentinel(a) {
		return tFalse
	}
	if a.k == KIface && b.k == KIface {
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return tEq(a.args[0], b.args[0])
	}
	if (a.k == KStruct) && b.k == KStruct && len(a.args) == len(b.args) {
		r := tTrue
		for i := range a.args {
			r = bAnd(r, tEq(a.args[i], b.args[i]))
		}
		return r
	}
	// numeric
	if isNum(a) || isNum(b) {
		d := tSub(a, b)
		return eqZero(d)
	}
	if isConst(b) {
		return mkGuard(a, []*Term{b}, false)
	}
	if isConst(a) {
		return mkGuard(b, []*Term{a}, false)
	}
	return eqSym(a, b)
}

func eqSym(a, b *Term) *Term {
	d := tSub(a, b)
	if d.k == KLin && d.coefs[0] < 0 {
		d = tScale(d, -1)
	}
	return mkOp("eq0", d)
}

func eqZero(d *Term) *Term {
	switch d.k {
	case KInt:
		return mkBool(d.i == 0)
	case KGamma:
		return mapLeaves(d, eqZero)
	case KLin:
		if below := beforeEnd(d); below != nil {
			return bNot(below)
		}
		if len(d.args) == 1 && (d.coefs[0] == 1 || d.coefs[0] == -1) {
			v := -d.i * d.coefs[0]
			a := d.args[0]
			if a.k == KGamma {
				return mapLeaves(a, func(l *Term) *Term { return tEq(l, mkInt(v)) })
			}
			if a.ub > 0 && (v < 0 || (a.ub < 62 && v >= 1<<uint(a.ub))) {
				return tFalse
			}
			return mkGuard(a, []*Term{mkInt(v)}, false)
		}
		if g := pullGamma(d); g != nil {
			return mapLeaves(g, eqZero)
		}
		if d.coefs[0] < 0 {
			d = tScale(d, -1)
		}
		return mkOp("eq0", d)
	}
	return mkGuard(d, []*Term{mkInt(0)}, false)
}

// beforeEnd: when d is 0 exactly at the end of a loop that counts up to it,
// the condition of not being there.
func beforeEnd(d *Term) *Term {
	for i, a := range d.args {
		if a.k != KSym || d.coefs[i] != 1 && d.coefs[i] != -1 || !strings.HasPrefix(a.op, "it:") {
			continue
		}
		rest, ok := strings.CutPrefix(a.op, "it:")
		id, _, dot := strings.Cut(rest, ".")
		n, err := strconv.Atoi(id)
		if !ok || !dot || err != nil || n >= len(termList) {
			continue
		}
		e := tScale(d, d.coefs[i])
		if N := termList[n]; nonNeg(N) && tSub(a, e) == N {
			return tNeg(e)
		}
	}
	return nil
}

// pullGamma turns a linear term with decision-node atoms into a decision node
// with linear leaves.
func pullGamma(t *Term) *Term {
	if t.k != KLin {
		return nil
	}
	for i, a := range t.args {
		if a.k == KGamma {
			rest := mkInt(t.i)
			for j, b := range t.args {
				if j != i {
					rest = tAdd(rest, tScale(b, t.coefs[j]))
				}
			}
			c := t.coefs[i]
			memo := map[*Term]*Term{}
			var rec func(x *Term) *Term
			rec = func(x *Term) *Term {
				if x.k != KGamma {
					return tAdd(rest, tScale(x, c))
				}
				if r, ok := memo[x]; ok {
					return r
				}
				var cs []Case
				for _, cc := range x.cases {
					cs = append(cs, Case{cc.vals, cc.neg, rec(cc.kid)})
				}
				r := mkGammaRaw(x.args[0], cs)
				memo[x] = r
				return r
			}
			return rec(a)
		}
	}
	return nil
}

// nonNegAtom: atoms known to be >= 0.
func nonNegAtom(t *Term) bool {
	if t.ub > 0 {
		return true
	}
	if t.k == KOp {
		switch t.op {
		case "len", "count":
			return true
		case "sum":
			return nonNeg(t.args[2])
		}
	}
	if t.k == KMul {
		for _, a := range t.args {
			if !nonNegAtom(a) {
				return false
			}
		}
		return true
	}
	if t.k == KGamma {
		for _, c := range t.cases {
			if !nonNeg(c.kid) {
				return false
			}
		}
		return true
	}
	return false
}

func nonNeg(t *Term) bool {
	c, m, f := linParts(t)
	if c < 0 {
		return false
	}
	for i, a := range m {
		if f[i] < 0 || !nonNegAtom(a) {
			return false
		}
	}
	return true
}

// tNeg: the condition d < 0 over the integers.
func tNeg(d *Term) *Term {
	switch d.k {
	case KInt:
		return mkBool(d.i < 0)
	case KGamma:
		return mapLeaves(d, tNeg)
	}
	if nonNeg(d) {
		return tFalse
	}
	m := tAdd(tScale(d, -1), mkInt(-1)) // !(d<0) <=> -d-1 < 0
	if nonNeg(m) {
		return tTrue
	}
	if g := pullGamma(d); g != nil {
		return mapLeaves(g, tNeg)
	}
	_, _, f := linParts(d)
	if f[0] < 0 {
		return bNot(mkNeg(m))
	}
	return mkNeg(d)
}

func mkNeg(d *Term) *Term {
	// x < 1 for a value known >= 0 is x == 0
	c, m, f := linParts(d)
	if c == -1 && len(m) == 1 && f[0] == 1 && nonNegAtom(m[0]) {
		return tEq(m[0], mkInt(0))
	}
	// x in [0,2^k): decide against the bound
	if len(m) == 1 && m[0].ub > 0 && m[0].ub < 62 && f[0] > 0 && f[0] < 1<<20 {
		if f[0]*(int64(1)<<uint(m[0].ub)-1)+c < 0 {
			return tTrue
		}
	}
	return mkOp("neg", d)
}

func asBool(t *Term) *Term {
	if t == tTrue || t == tFalse || t.k == KBot || isBoolAtom(t) {
		return t
	}
	if t.k == KGamma {
		return mapLeaves(t, asBool)
	}
	return mkGuard(t, []*Term{tTrue}, false)
}

// implied: pc ⇒ c.
func implied(pc, c *Term) bool {
	r := bAnd(pc, bNot(c))
	return r == tFalse || arithUnsat(r)
}

// eqUnder: a and b are the same value wherever pc holds.
func eqUnder(pc, a, b *Term) bool {
	if a == b {
		return true
	}
	a, b = restrict(a, pc), restrict(b, pc)
	if a == b {
		return true
	}
	return implied(pc, tEqCong(a, b))
}

// tEqCong: a condition under which a and b are equal, not the only one.
func tEqCong(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.k == KGamma || b.k == KGamma {
		return gammaApply2(a, b, tEqCong)
	}
	if a.k == b.k && len(a.args) == len(b.args) && len(a.args) > 0 {
		switch {
		case a.k == KIface && !types.Identical(a.typ, b.typ):
			return tFalse
		case a.k == KTuple, a.k == KIface, a.k == KStruct, a.k == KOp && a.op == b.op:
			r := tTrue
			for i := range a.args {
				r = bAnd(r, tEqCong(a.args[i], b.args[i]))
				if r == tFalse {
					break
				}
			}
			if r != tFalse || a.k != KOp {
				return r
			}
		}
	}
	return tEq(a, b)
}

// tEqDeep: a == b.
func tEqDeep(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.k == KGamma || b.k == KGamma {
		return gammaApply2(a, b, tEqDeep)
	}
	if a.k == b.k && (a.k == KTuple || a.k == KIface || a.k == KStruct) && len(a.args) == len(b.args) {
		if a.k == KIface && !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		r := tTrue
		for i := range a.args {
			r = bAnd(r, tEqDeep(a.args[i], b.args[i]))
		}
		return r
	}
	if a.k == KOp && b.k == KOp && a.op == "str" && b.op == "str" {
		return tEqDeep(a.args[0], b.args[0])
	}
	return tEq(a, b)
}

// ---------------------------------------------------------------------------
// Printing.

func show(t *Term) string { return showN(t, 6) }

func showN(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d <= 0 && len(t.args) > 0 {
		return "…"
	}
	j := func(ts []*Term) string {
		var s []string
		for _, a := range ts {
			s = append(s, showN(a, d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.k {
	case KInt:
		return strconv.FormatInt(t.i, 10)
	case KStr:
		return strconv.Quote(t.op)
	case KBool:
		return strconv.FormatBool(t.i == 1)
	case KFloat:
		return t.op
	case KNil:
		return "nil"
	case KBot:
		return "⊥"
	case KSym:
		return t.op
	case KOp:
		if t.op == "neg" {
			return "(" + showN(t.args[0], d-1) + " < 0)"
		}
		if t.op == "eq0" {
			return "(" + showN(t.args[0], d-1) + " == 0)"
		}
		return t.op + "(" + j(t.args) + ")"
	case KLin:
		var s []string
		for i, a := range t.args {
			switch t.coefs[i] {
			case 1:
				s = append(s, showN(a, d-1))
			case -1:
				s = append(s, "-"+showN(a, d-1))
			default:
				s = append(s, fmt.Sprintf("%d*%s", t.coefs[i], showN(a, d-1)))
			}
		}
		if t.i != 0 {
			s = append(s, strconv.FormatInt(t.i, 10))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case KMul:
		return strings.ReplaceAll(j(t.args), ", ", "*")
	case KGamma:
		var s []string
		for _, c := range t.cases {
			p := ""
			if c.neg {
				p = "¬"
			}
			s = append(s, p+"{"+j(c.vals)+"}: "+showN(c.kid, d-1))
		}
		return "case " + showN(t.args[0], d-1) + " of [" + strings.Join(s, "; ") + "]"
	case KStruct:
		n := ""
		if nt, ok := t.typ.(*types.Named); ok {
			n = nt.Obj().Name()
		}
		return n + "{" + j(t.args) + "}"
	case KTuple:
		return "<" + j(t.args) + ">"
	case KFunc:
		return "func " + t.op
	case KIface:
		return "iface[" + types.TypeString(t.typ, func(p *types.Package) string { return p.Name() }) + "](" + showN(t.args[0], d-1) + ")"
	}
	return "?"
}
