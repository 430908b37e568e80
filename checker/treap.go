package main

// Persistent treap keyed by int with deterministic priorities, so that two maps
// built from the same bindings share structure and are cheap to compare/join.

type tnode[V comparable] struct {
	k    int
	p    uint64
	v    V
	l, r *tnode[V]
}

type tmap[V comparable] struct{ root *tnode[V] }

func prio(k int) uint64 {
	x := uint64(k)*0x9E3779B97F4A7C15 + 0x1234567
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return x
}

func (m tmap[V]) get(k int) (V, bool) {
	n := m.root
	for n != nil {
		if k == n.k {
			return n.v, true
		}
		if k < n.k {
			n = n.l
		} else {
			n = n.r
		}
	}
	var z V
	return z, false
}

func (m tmap[V]) set(k int, v V) tmap[V] { return tmap[V]{tset(m.root, k, v)} }

func tset[V comparable](n *tnode[V], k int, v V) *tnode[V] {
	if n == nil {
		return &tnode[V]{k: k, p: prio(k), v: v}
	}
	if n.k == k {
		if n.v == v {
			return n
		}
		return &tnode[V]{k: k, p: n.p, v: v, l: n.l, r: n.r}
	}
	if k < n.k {
		l := tset(n.l, k, v)
		if l == n.l {
			return n
		}
		if l.p > n.p {
			return &tnode[V]{k: l.k, p: l.p, v: l.v, l: l.l, r: &tnode[V]{k: n.k, p: n.p, v: n.v, l: l.r, r: n.r}}
		}
		return &tnode[V]{k: n.k, p: n.p, v: n.v, l: l, r: n.r}
	}
	r := tset(n.r, k, v)
	if r == n.r {
		return n
	}
	if r.p > n.p {
		return &tnode[V]{k: r.k, p: r.p, v: r.v, l: &tnode[V]{k: n.k, p: n.p, v: n.v, l: n.l, r: r.l}, r: r.r}
	}
	return &tnode[V]{k: n.k, p: n.p, v: n.v, l: n.l, r: r}
}

func tmerge[V comparable](a, b *tnode[V]) *tnode[V] {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.p > b.p {
		return &tnode[V]{k: a.k, p: a.p, v: a.v, l: a.l, r: tmerge(a.r, b)}
	}
	return &tnode[V]{k: b.k, p: b.p, v: b.v, l: tmerge(a, b.l), r: b.r}
}

func (m tmap[V]) del(k int) tmap[V] { return tmap[V]{tdel(m.root, k)} }

func tdel[V comparable](n *tnode[V], k int) *tnode[V] {
	if n == nil {
		return nil
	}
	if n.k == k {
		return tmerge(n.l, n.r)
	}
	if k < n.k {
		l := tdel(n.l, k)
		if l == n.l {
			return n
		}
		return &tnode[V]{k: n.k, p: n.p, v: n.v, l: l, r: n.r}
	}
	r := tdel(n.r, k)
	if r == n.r {
		return n
	}
	return &tnode[V]{k: n.k, p: n.p, v: n.v, l: n.l, r: r}
}

// each visits bindings in key order.
func (m tmap[V]) each(f func(k int, v V)) { teach(m.root, f) }

func teach[V comparable](n *tnode[V], f func(k int, v V)) {
	if n == nil {
		return
	}
	teach(n.l, f)
	f(n.k, n.v)
	teach(n.r, f)
}

func (m tmap[V]) size() int {
	c := 0
	m.each(func(int, V) { c++ })
	return c
}

// diff calls f for every key bound differently (or only on one side).
func (m tmap[V]) diff(o tmap[V], f func(k int, av V, aok bool, bv V, bok bool)) {
	tdiff(m.root, o.root, f)
}

func tdiff[V comparable](a, b *tnode[V], f func(k int, av V, aok bool, bv V, bok bool)) {
	var z V
	if a == b {
		return
	}
	if a == nil {
		teach(b, func(k int, v V) { f(k, z, false, v, true) })
		return
	}
	if b == nil {
		teach(a, func(k int, v V) { f(k, v, true, z, false) })
		return
	}
	if a.k == b.k {
		tdiff(a.l, b.l, f)
		if a.v != b.v {
			f(a.k, a.v, true, b.v, true)
		}
		tdiff(a.r, b.r, f)
		return
	}
	// different roots: split the lower-priority side
	if a.p > b.p {
		bl, bv, br := tsplit(b, a.k)
		tdiff(a.l, bl, f)
		if bv == nil {
			f(a.k, a.v, true, z, false)
		} else if bv.v != a.v {
			f(a.k, a.v, true, bv.v, true)
		}
		tdiff(a.r, br, f)
		return
	}
	al, av, ar := tsplit(a, b.k)
	tdiff(al, b.l, f)
	if av == nil {
		f(b.k, z, false, b.v, true)
	} else if av.v != b.v {
		f(b.k, av.v, true, b.v, true)
	}
	tdiff(ar, b.r, f)
}

func tsplit[V comparable](n *tnode[V], k int) (l *tnode[V], m *tnode[V], r *tnode[V]) {
	if n == nil {
		return nil, nil, nil
	}
	if n.k == k {
		return n.l, n, n.r
	}
	if k < n.k {
		ll, mm, rr := tsplit(n.l, k)
		if rr == n.l {
			return ll, mm, n
		}
		return ll, mm, &tnode[V]{k: n.k, p: n.p, v: n.v, l: rr, r: n.r}
	}
	ll, mm, rr := tsplit(n.r, k)
	if ll == n.r {
		return n, mm, rr
	}
	return &tnode[V]{k: n.k, p: n.p, v: n.v, l: n.l, r: ll}, mm, rr
}
