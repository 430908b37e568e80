package main

import "sort"

// Linear integer reasoning over path conditions: a condition is impossible
// when the comparisons along each of its paths contradict one another.

type ineq struct { // sum c*x + k <= 0
	c map[int]int64
	k int64
}

const arithCap = 1 << 40

func gcd64(a, b int64) int64 {
	a, b = abs64(a), abs64(b)
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 { // b > 0
	q := a / b
	if a%b != 0 && a < 0 {
		q--
	}
	return q
}

// norm tightens an inequality over the integers.
func (e *ineq) norm() (contradiction, trivial bool) {
	var g int64
	for i, c := range e.c {
		if c == 0 {
			delete(e.c, i)
			continue
		}
		g = gcd64(g, c)
	}
	if len(e.c) == 0 {
		return e.k > 0, e.k <= 0
	}
	if g > 1 {
		for i := range e.c {
			e.c[i] /= g
		}
		e.k = -floorDiv(-e.k, g)
	}
	return false, false
}

func linIneq(t *Term) (ineq, bool) { // t <= 0
	k, ms, cs := linParts(t)
	e := ineq{map[int]int64{}, k}
	for i, m := range ms {
		if abs64(cs[i]) > arithCap {
			return e, false
		}
		e.c[m.id] += cs[i]
	}
	return e, abs64(k) < arithCap
}

// fmUnsat: Fourier-Motzkin elimination with integer tightening.
func fmUnsat(es []ineq) bool {
	cur := make([]ineq, 0, len(es))
	add := func(list []ineq, e ineq) ([]ineq, bool) {
		bad, triv := e.norm()
		if bad {
			return list, true
		}
		if triv {
			return list, false
		}
		for i, o := range list {
			if len(o.c) != len(e.c) {
				continue
			}
			same := true
			for x, c := range e.c {
				if o.c[x] != c {
					same = false
					break
				}
			}
			if same {
				if e.k > o.k {
					list[i] = e
				}
				return list, false
			}
		}
		return append(list, e), false
	}
	for _, e := range es {
		c := map[int]int64{}
		for x, v := range e.c {
			c[x] = v
		}
		var bad bool
		if cur, bad = add(cur, ineq{c, e.k}); bad {
			return true
		}
	}
	for {
		pos, neg := map[int]int{}, map[int]int{}
		for _, e := range cur {
			for x, c := range e.c {
				if c > 0 {
					pos[x]++
				} else {
					neg[x]++
				}
			}
		}
		best, cost := -1, 1<<30
		var ids []int
		for x := range pos {
			ids = append(ids, x)
		}
		for x := range neg {
			if pos[x] == 0 {
				ids = append(ids, x)
			}
		}
		sort.Ints(ids)
		for _, x := range ids {
			if c := pos[x]*neg[x] - pos[x] - neg[x]; c < cost {
				best, cost = x, c
			}
		}
		if best < 0 {
			return false
		}
		var next []ineq
		var ps, ns []ineq
		for _, e := range cur {
			switch c := e.c[best]; {
			case c > 0:
				ps = append(ps, e)
			case c < 0:
				ns = append(ns, e)
			default:
				next = append(next, e)
			}
		}
		if len(next)+len(ps)*len(ns) > 400 {
			return false
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := p.c[best], -n.c[best]
				g := gcd64(a, b)
				a, b = a/g, b/g
				if a > 1<<20 || b > 1<<20 {
					continue
				}
				e := ineq{map[int]int64{}, p.k*b + n.k*a}
				over := abs64(e.k) > arithCap
				for x, c := range p.c {
					e.c[x] += c * b
				}
				for x, c := range n.c {
					e.c[x] += c * a
				}
				for _, c := range e.c {
					over = over || abs64(c) > arithCap
				}
				if over {
					continue
				}
				var bad bool
				if next, bad = add(next, e); bad {
					return true
				}
			}
		}
		cur = next
	}
}

type diseq struct{ t *Term } // t != 0

// arithPath: the facts along one path contradict one another.
func arithPath(le []*Term, ne []*Term) bool {
	var es []ineq
	vars := map[int]bool{}
	var addT func(t *Term)
	var todo []*Term
	addT = func(t *Term) { // t <= 0
		e, ok := linIneq(t)
		if !ok {
			return
		}
		es = append(es, e)
		_, ms, _ := linParts(t)
		for _, m := range ms {
			if !vars[m.id] {
				vars[m.id] = true
				todo = append(todo, m)
			}
		}
	}
	for _, t := range le {
		addT(t)
	}
	for _, t := range ne {
		_, ms, _ := linParts(t)
		for _, m := range ms {
			if !vars[m.id] {
				vars[m.id] = true
				todo = append(todo, m)
			}
		}
	}
	for len(todo) > 0 && len(es) < 120 {
		m := todo[0]
		todo = todo[1:]
		lo, hi, lok, hok := rangeOf(m)
		if lok {
			addT(tSub(mkInt(lo), m))
		}
		if hok && hi < arithCap {
			addT(tSub(m, mkInt(hi)))
		}
		if m.k == KOp && m.op == "shr" && m.args[1].k == KInt && m.args[1].i > 0 && m.args[1].i < 40 && m.args[0].k != KGamma {
			k := int64(1) << uint(m.args[1].i)
			addT(tSub(tScale(m, k), m.args[0]))
			addT(tSub(tSub(m.args[0], tScale(m, k)), mkInt(k-1)))
		}
		if m.k == KOp && (m.op == "div" || m.op == "rem") && len(m.args) == 2 && m.args[1].k == KInt && m.args[1].i > 0 {
			p, k := m.args[0], m.args[1].i
			if p.k == KGamma {
				continue
			}
			// only for p >= 0
			if e, ok := linIneq(tAdd(p, mkInt(1))); !nonNeg(p) && (!ok || !fmUnsat(append(append([]ineq(nil), es...), e))) {
				continue
			}
			if m.op == "div" {
				addT(tSub(tScale(m, k), p))
				addT(tSub(tSub(p, tScale(m, k)), mkInt(k-1)))
			} else {
				addT(tScale(m, -1))
				addT(tSub(m, mkInt(k-1)))
			}
		}
	}
	for _, t := range append(append([]*Term(nil), le...), ne...) {
		for _, g := range sumGroups(t) {
			addT(g)
		}
	}
	if fmUnsat(es) {
		return true
	}
	// t != 0 with t >= 0 is t >= 1
	for i, t := range ne {
		if i > 8 {
			break
		}
		up, ok1 := linIneq(tAdd(t, mkInt(1)))             // t <= -1
		dn, ok2 := linIneq(tAdd(tScale(t, -1), mkInt(1))) // t >= 1
		if !ok1 || !ok2 {
			continue
		}
		neg := fmUnsat(append(append([]ineq(nil), es...), up))
		pos := fmUnsat(append(append([]ineq(nil), es...), dn))
		switch {
		case neg && pos:
			return true
		case neg:
			es = append(es, dn)
		case pos:
			es = append(es, up)
		}
	}
	return fmUnsat(es)
}

// arithUnsat: every way of satisfying c is arithmetically impossible.
func arithUnsat(c *Term) bool {
	paths, steps := 0, 0
	feasible := false
	var rec func(x *Term, le, ne []*Term)
	rec = func(x *Term, le, ne []*Term) {
		steps++
		if feasible || x == tFalse || x.k == KBot {
			return
		}
		if x == tTrue || steps > 3000 {
			paths++
			if steps > 3000 || paths > 300 || len(le) == 0 || !arithPath(le, ne) {
				feasible = true
			}
			return
		}
		d, cs, ok := asNode(x)
		if !ok {
			feasible = true
			return
		}
		for _, cc := range cs {
			if cc.kid == tFalse {
				continue
			}
			l2, n2 := le, ne
			switch {
			case d.k == KOp && (d.op == "neg" || d.op == "eq0"):
				truth := len(cc.vals) == 1 && (cc.vals[0] == tTrue) != cc.neg
				e := d.args[0]
				if hasCases(e) {
					break
				}
				switch {
				case d.op == "neg" && truth:
					l2 = append(le[:len(le):len(le)], tAdd(e, mkInt(1)))
				case d.op == "neg":
					l2 = append(le[:len(le):len(le)], tScale(e, -1))
				case truth:
					l2 = append(le[:len(le):len(le)], e, tScale(e, -1))
				default:
					n2 = append(ne[:len(ne):len(ne)], e)
				}
			case len(cc.vals) > 0 && cc.vals[0].k == KInt && !hasCases(d):
				if cc.neg {
					for _, v := range cc.vals {
						n2 = append(n2[:len(n2):len(n2)], tSub(d, v))
					}
				} else if len(cc.vals) == 1 {
					e := tSub(d, cc.vals[0])
					l2 = append(le[:len(le):len(le)], e, tScale(e, -1))
				}
			}
			rec(cc.kid, l2, n2)
			if feasible {
				return
			}
		}
	}
	rec(c, nil, nil)
	return !feasible
}

// sumGroups: the parts of t that are sums over the same range and whose
// summands together never have one of the signs, as terms <= 0.
func sumGroups(t *Term) []*Term {
	_, ms, cs := linParts(t)
	type group struct{ sum, leaf *Term }
	gs := map[[2]*Term]*group{}
	for i, m := range ms {
		it, n, x := sumOf(m)
		if it == nil {
			continue
		}
		k := [2]*Term{it, n}
		if gs[k] == nil {
			gs[k] = &group{mkInt(0), mkInt(0)}
		}
		gs[k].sum = tAdd(gs[k].sum, tScale(m, cs[i]))
		c := cs[i]
		gs[k].leaf = gammaApply2(gs[k].leaf, x, func(a, b *Term) *Term { return tAdd(a, tScale(b, c)) })
	}
	var out []*Term
	for _, g := range gs {
		lo, hi := true, true
		mapLeaves(g.leaf, func(l *Term) *Term {
			if l != tBot {
				lo = lo && nonNeg(l)
				hi = hi && nonNeg(tScale(l, -1))
			}
			return l
		})
		if lo {
			out = append(out, tScale(g.sum, -1))
		} else if hi {
			out = append(out, g.sum)
		}
	}
	return out
}

// sumOf: m as a sum of a term over an iteration variable.
func sumOf(m *Term) (it, n, x *Term) {
	switch {
	case m.k == KOp && m.op == "sum":
		return m.args[0], m.args[1], m.args[2]
	case m.k == KOp && m.op == "count" && m.args[0].op == "flat":
		f := m.args[0]
		k := mkSeqLen(f.args[3])
		return f.args[0], f.args[1], iteDC(f.args[2], k, bNot(f.args[2]), mkInt(0))
	case m.k == KOp && m.op == "count" && m.args[0].op == "each":
		f := m.args[0]
		return f.args[0], f.args[1], iteDC(f.args[2], mkInt(1), bNot(f.args[2]), mkInt(0))
	}
	return nil, nil, nil
}

// hasCases: t or one of its monomials is a case distinction.
func hasCases(t *Term) bool {
	if t.k == KGamma {
		return true
	}
	if t.k == KLin || t.k == KMul {
		for _, a := range t.args {
			if hasCases(a) {
				return true
			}
		}
	}
	return false
}
