package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C31"] = propCheck{checkEnds, "Every loop and every recursive call that can be reached from main is shown to come to an end, from the values it carries around (symbolic step functions under the condition of going round again). Accepted measures: a traversal or count with a number of rounds fixed on entry; a bound that the condition of going round compares with and that every round comes at least one closer to; input that every round reads at least one byte of; a set of visited keys that every round adds a new one to; a chain of pointers that is built without cycles and followed. Loops of goroutines are left to C27."}
}

func checkEnds(R *Report) {
	P := R.P
	c := newConc(P)
	main := P.fn("neojhat.main")
	if main == nil {
		R.fail("reached", "main", "-", "not found")
		return
	}
	reach := map[*ssa.Function]bool{main: true}
	for n := -1; n != len(reach); {
		n = len(reach)
		for f := range reach {
			for _, g := range c.succ[f] {
				reach[g] = true
			}
			for _, g := range P.callees(f) {
				reach[g] = true
			}
		}
	}
	var fns []*ssa.Function
	back := map[*ssa.Function]bool{} // run in the background only
	for f := range reach {
		if f.Parent() == nil && f.Synthetic == "" && len(f.Blocks) > 0 && !P.isRef(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	fore := map[*ssa.Function]bool{}
	for f := range c.from(main) {
		fore[f] = true
	}
	for f := range reach {
		back[f] = !fore[f]
	}
	weight := P.weights()
	for _, f := range fns {
		R.fns[f.String()] = true
		if back[f] {
			R.check(true, "background", shortFn(f), rootPos(P, f), "")
			continue
		}
		if !loopsIn(f) && !inCycle(P, f) {
			R.check(true, "straight", shortFn(f), rootPos(P, f), "")
			continue
		}
		var obs []endOb
		for _, inline := range []int{0, 40, 80, 160, 320, 1 << 19} {
			more := endObs(P, f, back, inline > 0, func(g *ssa.Function) bool { return weight[g] > inline })
			if more == nil {
				break
			}
			obs = more
			bad := false
			for _, o := range obs {
				bad = bad || o.measure == ""
			}
			if debugTrace {
				fmt.Println("LEVEL", shortFn(f), inline, bad, len(termList))
			}
			if !bad {
				break
			}
		}
		for _, o := range obs {
			R.check(o.measure != "", "ends", o.what, o.pos, o.detail)
			if debugTrace {
				fmt.Println("ENDS", o.what, o.pos, o.measure)
			}
		}
	}
}

func loopsIn(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	for _, g := range f.AnonFuncs {
		if loopsIn(g) {
			return true
		}
	}
	return false
}

// inCycle: f can call itself.
func inCycle(P *Program, f *ssa.Function) bool {
	return inSame(P, f, f)
}

// inSame: g is on a way of calls from f back to f.
func inSame(P *Program, f, g *ssa.Function) bool {
	to := func(from, to *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		work := P.callees(from)
		for len(work) > 0 {
			h := work[0]
			work = work[1:]
			if h == to {
				return true
			}
			if !seen[h] {
				seen[h] = true
				work = append(work, P.callees(h)...)
			}
		}
		return false
	}
	return to(f, g) && to(g, f)
}

type endOb struct{ what, pos, measure, detail string }

// endObs analyses f with the calls of what is not big put in. With limited,
// it returns nil when that takes too much.
func endObs(P *Program, f *ssa.Function, back map[*ssa.Function]bool, limited bool, big func(*ssa.Function) bool) (obs []endOb) {
	if limited {
		termLimit = len(termList) + 2000000
		late := time.AfterFunc(60*time.Second, func() { overLimit.Store(true) })
		defer func() {
			late.Stop()
			overLimit.Store(false)
			termLimit = 0
			if x := recover(); x != nil {
				if _, ok := x.(budgetErr); !ok {
					panic(x)
				}
				obs = nil
			}
		}()
	}
	it, st := P.newRun(f.Name() != "main")
	it.exitOf = map[*Term]exitVal{}
	it.opaqueAll = func(g *ssa.Function) bool {
		if g == f || g.Parent() != nil || g.Synthetic != "" {
			return false
		}
		return big(g) && !inSame(P, f, g)
	}
	m := &measures{P: P, it: it, mono: map[*Term]*Term{}}
	byLoop := map[string]*endOb{}
	it.onLoop = func(r *loopRun) {
		why := m.loop(r)
		if it.noRec > 0 {
			return
		}
		g := r.fr.fn
		for g.Parent() != nil {
			g = g.Parent()
		}
		if g != f || it.conc > 0 || back[r.fr.fn] {
			return
		}
		pos := loopPos(P, r.fr.fn, r.l)
		k := shortFn(r.fr.fn) + pos + fmt.Sprint(" ", r.l.idx)
		if o := byLoop[k]; o != nil && o.measure == "" {
			return
		}
		byLoop[k] = &endOb{fmt.Sprintf("loop %d of %s", r.l.idx, shortFn(r.fr.fn)), pos, why, "nothing shows that the loop comes to an end: it goes round again when " + showN(r.back, 9)}
	}
	params := symParams(f)
	it.rootCall(st, f, params)
	n := 0
	for _, ev := range it.events {
		if ev.kind == "reccall" && ev.name == f.String() {
			why := m.call(f, params, st, ev)
			n++
			byLoop[fmt.Sprint("rec", n)] = &endOb{"recursive call in " + shortFn(ev.fn), it.posStr(ev.pos), why, "nothing shows that the recursion comes to an end: called when " + showN(ev.st.pc, 9)}
		}
	}
	var ks []string
	for k := range byLoop {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	obs = []endOb{}
	for _, k := range ks {
		obs = append(obs, *byLoop[k])
	}
	return obs
}

func loopPos(P *Program, f *ssa.Function, l *loop) string {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			q := P.prog.Fset.Position(in.Pos())
			return fmt.Sprintf("%s:%d", trimRepo(q.Filename), q.Line)
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				q := P.prog.Fset.Position(in.Pos())
				return fmt.Sprintf("%s:%d", trimRepo(q.Filename), q.Line)
			}
		}
	}
	return rootPos(P, f)
}

// measures looks for what comes to an end.
type measures struct {
	P    *Program
	it   *Interp
	mono map[*Term]*Term // values that a loop never makes smaller: the first one
}

// atoms of a condition: its comparisons and questions.
func atomsOf(c *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.k == KOp && isBoolAtom(x) {
			out = append(out, x)
			return
		}
		if x.k == KGamma {
			rec(x.args[0])
			for _, c := range x.cases {
				rec(c.kid)
			}
		}
	}
	rec(c)
	return out
}

// unequals: the differences that are not 0 when c holds.
func unequals(c *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		switch {
		case x.k == KOp && x.op == "eq0":
			if implied(c, bNot(x)) {
				out = append(out, x.args[0])
			}
		case x.k == KGamma:
			d := x.args[0]
			if !isBoolAtom(d) && numericTerm(d) {
				for _, k := range x.cases {
					for _, v := range k.vals {
						if v.k == KInt && implied(c, bNot(asBool(tEq(d, v)))) {
							out = append(out, tSub(d, v))
						}
					}
				}
			}
			rec(d)
			for _, k := range x.cases {
				rec(k.kid)
			}
		}
	}
	rec(c)
	return out
}

// loop names what makes the loop end, or nothing.
func (m *measures) loop(r *loopRun) string {
	if r.back == nil || r.back == tFalse || r.back.k == KBot {
		return "never goes round"
	}
	next := map[*Term]*Term{r.lc.it: tAdd(r.lc.it, mkInt(1))}
	for _, x := range r.mus {
		if r.repr[x] == nil && r.steps[x] != nil {
			next[x] = r.steps[x]
		}
	}
	// what only grows
	for _, x := range r.mus {
		if s := r.steps[x]; s != nil && r.repr[x] == nil && numericTerm(x) {
			if m.atLeast(distribute(tSub(restrict(s, r.back), x)), 0, r.back) {
				m.mono[x] = r.inits[x]
			}
		}
	}
	if r.n != nil {
		return "the number of rounds is fixed on entry: " + showN(r.n, 4)
	}
	// a distance that never becomes negative, and that is not nothing when
	// going round
	for _, e := range unequals(r.back) {
		for _, d := range []*Term{e, tScale(e, -1)} {
			pc := bAnd(r.back, asBool(tNeg(tScale(d, -1))))
			if !m.atLeast(restrict(subst(d, r.inits), r.entry.pc), 0, r.entry.pc) {
				continue
			}
			step := restrict(subst(d, next), pc)
			if m.atLeast(distribute(step), 0, pc) && m.atLeast(distribute(tSub(d, step)), 1, pc) {
				return "comes closer to the end of " + showN(e, 4)
			}
		}
	}
	for _, a := range atomsOf(r.back) {
		switch a.op {
		case "neg":
			for _, d := range []*Term{a.args[0], tAdd(tScale(a.args[0], -1), mkInt(-1))} {
				if !implied(r.back, tNeg(d)) {
					continue
				}
				if m.atLeast(distribute(tSub(restrict(subst(d, next), r.back), d)), 1, r.back) {
					return "comes closer to the bound of " + showN(a, 4)
				}
			}
		case "readok":
			if !implied(r.back, a) {
				continue
			}
			for _, x := range r.mus {
				s := r.steps[x]
				if s == nil || r.repr[x] != nil || !numericTerm(x) || !dependsOn(a.args[1], x) {
					continue
				}
				if m.atLeast(distribute(tSub(restrict(s, r.back), x)), 1, r.back) {
					return "reads on in the input"
				}
			}
			if dependsOn(a.args[1], r.lc.it) {
				if m.atLeast(distribute(tSub(subst(a.args[1], next), a.args[1])), 1, r.back) {
					return "reads on in the input"
				}
			}
		case "mapok":
			for _, x := range r.mus {
				if s := r.steps[x]; s != nil && m.visits(x, a.args[1], r.back, restrict(s, r.back)) {
					return "a new key is visited each time: " + showN(a.args[1], 4)
				}
			}
		}
	}
	for _, x := range r.mus {
		if s := r.steps[x]; s != nil && m.descends(restrict(s, r.back), x, 0) {
			return "follows a chain of pointers"
		}
	}
	if os.Getenv("NJDEBUG") != "" {
		fmt.Println("NO MEASURE", shortFn(r.fr.fn), r.l.idx)
		for _, x := range r.mus {
			fmt.Println("  ", showN(x, 3), "init", showN(r.inits[x], 5), "repr", showN(r.repr[x], 5), "step", showN(restrict(r.steps[x], r.back), 9))
		}
		for _, a := range atomsOf(r.back) {
			fmt.Println("   atom", showN(a, 6))
		}
	}
	return ""
}

// visits: k is not in the map x yet, and in what becomes of it.
func (m *measures) visits(x, k, pc, step *Term) bool {
	fresh := func(v *Term) bool { // absent, or present with another value
		val, ok := mkMapGet(x, k, nil)
		c := ok
		if v != nil && isBoolish(v) {
			c = bAnd(ok, asBool(val))
		}
		return implied(pc, bNot(c))
	}
	var adds func(t *Term) bool
	adds = func(t *Term) bool {
		switch {
		case t.k == KGamma:
			for _, c := range t.cases {
				if !adds(c.kid) {
					return false
				}
			}
			return true
		case t.k == KBot:
			return true
		case t.k == KOp && t.op == "mput":
			if (t.args[1] == k || eqUnder(pc, t.args[1], k)) && grows(t.args[0], x) {
				if isBoolish(t.args[2]) && asBool(t.args[2]) != tTrue {
					return false
				}
				return fresh(t.args[2])
			}
			return adds(t.args[0])
		}
		return false
	}
	return adds(step)
}

func isBoolish(v *Term) bool { return v == tTrue || v == tFalse || v.bl || isBoolAtom(v) }

// grows: t is x with more entries.
func grows(t, x *Term) bool {
	switch {
	case t == x:
		return true
	case t.k == KGamma:
		for _, c := range t.cases {
			if !grows(c.kid, x) {
				return false
			}
		}
		return true
	case t.k == KOp && t.op == "mput":
		return grows(t.args[0], x)
	}
	return false
}

// atLeast: t is at least n when pc holds.
func (m *measures) atLeast(t *Term, n int64, pc *Term) bool {
	if v, ok := m.low(t, pc, 0); ok && v >= n {
		return true
	}
	return implied(pc, bNot(asBool(tNeg(tSub(t, mkInt(n))))))
}

// low: a number t is never below of, when pc holds.
func (m *measures) low(t, pc *Term, depth int) (int64, bool) {
	type res struct {
		v  int64
		ok bool
	}
	memo := map[*Term]res{}
	var rec func(t *Term, d int) (int64, bool)
	rec = func(t *Term, d int) (int64, bool) {
		if t.k == KInt {
			return t.i, true
		}
		if r, ok := memo[t]; ok {
			return r.v, r.ok
		}
		memo[t] = res{}
		v, ok := m.low1(t, pc, d, rec)
		memo[t] = res{v, ok}
		return v, ok
	}
	return rec(t, depth)
}

func (m *measures) low1(t, pc *Term, depth int, rec func(*Term, int) (int64, bool)) (int64, bool) {
	if depth > 40 {
		return 0, false
	}
	switch t.k {
	case KGamma:
		first := true
		var low int64
		for _, c := range t.cases {
			if c.kid.k == KBot || implied(pc, bNot(guardOf(t.args[0], c.vals, c.neg))) {
				continue
			}
			v, ok := rec(c.kid, depth+1)
			if !ok {
				return 0, false
			}
			if first || v < low {
				low, first = v, false
			}
		}
		return low, !first
	case KBot:
		return 1 << 40, true
	}
	c, xs, fs := linParts(t)
	if len(xs) == 1 && xs[0] == t {
		if e, ok := m.it.exitOf[t]; ok && m.mono[e.m] != nil {
			if e.over {
				return 0, true
			}
			return rec(m.mono[e.m], depth+1)
		}
		if i := m.mono[t]; i != nil {
			return rec(i, depth+1)
		}
		if k := divisor(t); k > 0 {
			if v, ok := m.least(t.args[0], pc, rec, depth+1); ok && v >= 0 {
				return v / k, true
			}
		}
		if nonNegAtom(t) || m.nonNegFld(t) {
			return 0, true
		}
		if t.k == KOp && t.op == "sum" {
			if v, ok := rec(t.args[2], depth+1); ok && v >= 0 {
				return 0, true
			}
		}
		return 0, false
	}
	// what a loop made of a value is at least what it was
	for i, x := range xs {
		var of *Term
		if e, ok := m.it.exitOf[x]; ok && !e.over {
			of = m.mono[e.m]
		} else if m.mono[x] != nil {
			of = m.mono[x]
		}
		if of == nil || fs[i] < 0 || depth > 20 {
			continue
		}
		// only when the first value is what the rest is compared with
		if v, ok := rec(tAdd(tSub(t, tScale(x, fs[i])), tScale(of, fs[i])), depth+8); ok {
			return v, true
		}
	}
	// x - x/2
	for i, q := range xs {
		if fs[i] >= 0 || divisor(q) < 2 {
			continue
		}
		x, k := q.args[0], divisor(q)
		xv, ok := m.least(x, pc, rec, depth+1)
		if !ok || xv < 0 {
			continue
		}
		if rest := distribute(tSub(t, tSub(x, q))); fs[i] == -1 && !dependsOn(rest, q) {
			if v, ok := rec(rest, depth+4); ok {
				return xv - xv/k + v, true
			}
		}
		_, ys, gs := linParts(x)
		for j, y := range ys {
			if gs[j] != 1 {
				continue
			}
			// y = k*q + e - (x - y)
			q2 := mkSym("div:q", 0, nil)
			q2.ub = 62
			e := mkSym("div:e", 0, nil)
			e.ub = 62
			sub := subst(t, map[*Term]*Term{q: q2})
			sub = subst(sub, map[*Term]*Term{y: tAdd(tAdd(tScale(q2, k), e), tScale(tSub(x, y), -1))})
			if sub != t && !dependsOn(sub, q) {
				if v, ok := rec(distribute(sub), depth+4); ok {
					return v, true
				}
			}
		}
	}
	low := c
	for i, x := range xs {
		if fs[i] < 0 {
			if x.k == KGamma {
				hi, ok := rec(tScale(x, -1), depth+1)
				_ = hi
				if !ok {
					return 0, false
				}
				low += -fs[i] * hi
				continue
			}
			return 0, false
		}
		v, ok := rec(x, depth+1)
		if !ok {
			return 0, false
		}
		low += fs[i] * v
	}
	return low, true
}

// divisor: t is a division by that much, of a number that is not negative.
func divisor(t *Term) int64 {
	if t.k == KOp && len(t.args) == 2 && t.args[1].k == KInt {
		switch k := t.args[1].i; {
		case t.op == "div" && k > 0:
			return k
		case t.op == "shr" && k >= 0 && k < 31:
			return 1 << k
		}
	}
	return 0
}

// nonNegFld: t is a field that is only ever given values that are not negative.
func (m *measures) nonNegFld(t *Term) bool {
	if t.k != KOp || !strings.HasPrefix(t.op, "fld") || t.args[0].typ == nil {
		return false
	}
	var i int
	if _, err := fmt.Sscanf(t.op, "fld%d", &i); err != nil {
		return false
	}
	n := nonNegs{m.P, map[any]bool{}}
	return n.field(t.args[0].typ, i)
}

type nonNegs struct {
	P    *Program
	seen map[any]bool
}

type fieldOf struct {
	t string
	i int
}

func (n nonNegs) field(typ types.Type, i int) bool {
	k := fieldOf{typ.String(), i}
	if n.seen[k] {
		return true
	}
	n.seen[k] = true
	for _, f := range n.P.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != i || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), typ) {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch u := u.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if u.Addr != fa || !n.value(u.Val) {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

func (n nonNegs) value(v ssa.Value) bool {
	if n.seen[v] {
		return true
	}
	n.seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Int64() >= 0
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD, token.MUL, token.QUO, token.REM, token.SHR:
			return n.value(v.X) && n.value(v.Y)
		case token.AND:
			return n.value(v.X) || n.value(v.Y)
		}
	case *ssa.Convert:
		return n.value(v.X)
	case *ssa.ChangeType:
		return n.value(v.X)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !n.value(e) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		if m := v.Call.Method; m != nil {
			return (m.Name() == "Size" || m.Name() == "Len") && (m.Pkg() == nil || !strings.HasPrefix(m.Pkg().Path(), repoModule))
		}
		if g := v.Call.StaticCallee(); g != nil {
			if g.Pkg != nil && (g.Pkg.Pkg.Path() == "bytes" || g.Pkg.Pkg.Path() == "strings") {
				return g.Name() == "Len" || g.Name() == "Size"
			}
			return n.result(g, 0)
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
			return n.result(c.Call.StaticCallee(), v.Index)
		}
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			return n.field(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
		}
	case *ssa.Parameter:
		f := v.Parent()
		i := 0
		for f.Params[i] != v {
			i++
		}
		for _, g := range n.P.all {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						if *o != f {
							continue
						}
						c, ok := in.(ssa.CallInstruction)
						if !ok || c.Common().Value != f || !n.value(c.Common().Args[i]) {
							return false
						}
					}
				}
			}
		}
		return true
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		return b.Kind() != types.Uint && b.Kind() != types.Uint64 && b.Kind() != types.Uintptr
	}
	return false
}

func (n nonNegs) result(f *ssa.Function, i int) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && !n.value(r.Results[i]) {
				return false
			}
		}
	}
	return true
}

// least: like low, with what pc compares taken into account.
func (m *measures) least(x, pc *Term, rec func(*Term, int) (int64, bool), depth int) (int64, bool) {
	if v, ok := rec(x, depth); ok {
		return v, true
	}
	for v := int64(1); v >= 0; v-- {
		if implied(pc, bNot(tNeg(tSub(x, mkInt(v))))) {
			return v, true
		}
	}
	return 0, false
}

// descends: t is reached from the pointer x by following fields that never
// lead back.
func (m *measures) descends(t, x *Term, steps int) bool {
	switch {
	case t.k == KBot || t.k == KNil && steps == 0:
		return true
	case t.k == KGamma:
		for _, c := range t.cases {
			if !m.descends(c.kid, x, steps) {
				return false
			}
		}
		return true
	case t.k == KOp && strings.HasPrefix(t.op, "fld") && t.args[0].k == KOp && t.args[0].op == "deref":
		p := t.args[0].args[0]
		if !m.acyclic(t.typ, t.args[0].typ) {
			return false
		}
		return p == x || m.descends(p, x, steps+1)
	case t == x:
		return steps > 0
	}
	return false
}

// acyclic: objects of the type are only linked, by a field of type ft, to
// objects that were there before.
func (m *measures) acyclic(ft, in types.Type) bool {
	p, ok := ft.(*types.Pointer)
	if !ok {
		return false
	}
	named := p.Elem()
	if _, ok := named.Underlying().(*types.Struct); !ok {
		return false
	}
	holds := func(t types.Type) bool { // a struct with such a pointer in it
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), ft) {
				return true
			}
		}
		return false
	}
	for _, f := range m.P.all {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				v := s.Val.Type()
				_, isField := s.Addr.(*ssa.FieldAddr)
				if !(types.Identical(v, ft) && isField && holds(s.Addr.(*ssa.FieldAddr).X.Type().Underlying().(*types.Pointer).Elem())) && !types.Identical(v, named) {
					continue
				}
				// into a new object, once
				root := s.Addr
				for {
					if fa, ok := root.(*ssa.FieldAddr); ok {
						root = fa.X
						continue
					}
					break
				}
				if ia, ok := root.(*ssa.IndexAddr); ok && types.Identical(v, named) {
					_ = ia
					return false
				}
				a, ok := root.(*ssa.Alloc)
				if !ok {
					return false
				}
				if again(s, a) {
					return false
				}
				if types.Identical(v, ft) {
					// its address is not known elsewhere yet
					for _, u := range *a.Referrers() {
						switch y := u.(type) {
						case *ssa.FieldAddr, *ssa.DebugRef:
						case *ssa.UnOp:
						case *ssa.Store:
							if y.Val == a && !before(s, y) {
								return false
							}
						default:
							if !before(s, u) {
								return false
							}
						}
					}
				}
			}
		}
	}
	return true
}

// again: s can be done twice to the same object a.
func again(s ssa.Instruction, a ssa.Instruction) bool {
	for _, i := range after(s, func(i ssa.Instruction) bool { return i == a }) {
		if i == s {
			return true
		}
	}
	return false
}

// before: a is always done before b.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				return true
			}
			if i == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// call names what makes the recursion end, or nothing.
func (m *measures) call(f *ssa.Function, params []*Term, st State, ev *Event) string {
	if m.it.impossible(ev.st.pc) {
		return "never called"
	}
	if len(ev.args) != len(params) {
		return ""
	}
	pc := ev.st.pc
	next := map[*Term]*Term{}
	for i, p := range params {
		next[p] = ev.args[i]
	}
	for i, p := range params {
		a := restrict(ev.args[i], pc)
		switch f.Params[i].Type().Underlying().(type) {
		case *types.Map:
			if a != p {
				continue
			}
			was, is := m.it.mapContent(st, p), restrict(m.it.mapContent(ev.st, p), pc)
			for _, q := range atomsOf(pc) {
				if q.op == "mapok" && m.visits(was, q.args[1], pc, is) {
					return "a new key is visited each time"
				}
			}
		case *types.Pointer:
			if m.descends(a, p, 0) {
				return "follows a chain of pointers"
			}
		}
	}
	for _, q := range atomsOf(pc) {
		if q.op != "neg" {
			continue
		}
		for _, d := range []*Term{q.args[0], tAdd(tScale(q.args[0], -1), mkInt(-1))} {
			if !implied(pc, tNeg(d)) {
				continue
			}
			if m.atLeast(distribute(tSub(restrict(subst(d, next), pc), d)), 1, pc) {
				return "comes closer to a bound"
			}
		}
	}
	return ""
}
