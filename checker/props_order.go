package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C17"] = propCheck{checkSame, "The symbolic results of the report functions and the symbolic texts of the printing functions are walked for what differs from run to run: values taken from the clock, the environment, random numbers or addresses, and the order in which a map is traversed. A traversal may end in a sum, a count, a set, a map under the same keys, or a list that is then sorted by a comparison that tells any two entries apart by all that is printed of them; any list, text or chosen element that keeps its order is reported. Lists that leave a report function unsorted are followed into the printing functions by the field they are kept in."}
}

// runDependent: external functions whose result is not given by their arguments.
func runDependent(name string) bool {
	switch name {
	case "time.Now", "time.Since", "time.Until", "time.After", "time.Tick":
		return true
	}
	for _, p := range []string{"os.", "math/rand.", "math/rand/v2.", "crypto/rand.", "runtime.", "runtime/debug.", "os/user.", "net.", "syscall.", "maps.Keys", "maps.Values", "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "hash/maphash."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// orderWalk looks for what differs from run to run in a term.
type orderWalk struct {
	bad    func(list *Term) bool // lists in no particular order
	faults map[string]bool
	n      int
	free   map[*Term]bool // rounds whose order does not matter here
	seen   map[*Term]bool // under the free rounds there are
	seenBy map[string]map[*Term]bool
	travBy map[[2]*Term]*Term
	mus    map[*Term]*muDef
}

func newOrderWalk(it *Interp, bad func(*Term) bool) *orderWalk {
	return &orderWalk{bad: bad, mus: it.muDefs, faults: map[string]bool{}, seen: map[*Term]bool{}, free: map[*Term]bool{}, seenBy: map[string]map[*Term]bool{}, travBy: map[[2]*Term]*Term{}}
}

// traverses: the rounds it of t go over a map, or a list in no particular order.
func (w *orderWalk) traverses(it *Term, ts ...*Term) *Term {
	for _, t := range ts {
		key := [2]*Term{it, t}
		if x, ok := w.travBy[key]; ok {
			if x != nil {
				return x
			}
			continue
		}
		var found *Term
		rewriteTermSeen(t, func(x *Term) bool {
			if x.k == KOp && x.op == "mkey" && x.args[1] == it || x.k == KOp && x.op == "idx" && x.args[1] == it && w.unorderedList(x.args[0]) {
				found = x
			}
			return found == nil && !(x.k == KOp && binds(x) && x.args[0] == it) && !(it == roundSym && leftBehind(x))
		})
		w.travBy[key] = found
		if found != nil {
			return found
		}
	}
	return nil
}

// under walks ts, where the order of the rounds it does not matter.
func (w *orderWalk) under(it *Term, ts ...*Term) {
	if !w.free[it] {
		old := w.seen
		w.free[it] = true
		defer func() {
			delete(w.free, it)
			w.seen = old
		}()
		var ids []int
		for f := range w.free {
			ids = append(ids, f.id)
		}
		sort.Ints(ids)
		k := fmt.Sprint(ids)
		if w.seenBy[k] == nil {
			w.seenBy[k] = map[*Term]bool{}
		}
		w.seen = w.seenBy[k]
	}
	for _, x := range ts {
		w.walk(x)
	}
}

func binds(x *Term) bool {
	switch x.op {
	case "each", "flat", "sum", "catfor", "meach", "group":
		return len(x.args) > 2
	}
	return false
}

// rewriteTermSeen visits every term in t while f says so.
func rewriteTermSeen(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.args {
			rec(a)
		}
		for _, c := range x.cases {
			rec(c.kid)
		}
	}
	rec(t)
}

func (w *orderWalk) unorderedList(l *Term) bool {
	if w.bad != nil && w.bad(l) {
		return true
	}
	if l.k == KOp && l.op == "seq" {
		for _, s := range l.args {
			if (s.op == "each" || s.op == "flat") && w.traverses(s.args[0], s.args[2:]...) != nil {
				return true
			}
		}
	}
	if l.k == KGamma {
		for _, c := range l.cases {
			if w.unorderedList(c.kid) {
				return true
			}
		}
	}
	return false
}

func (w *orderWalk) fault(f string, a ...any) { w.faults[fmt.Sprintf(f, a...)] = true }

func (w *orderWalk) walk(t *Term) {
	if w.seen[t] {
		return
	}
	w.seen[t] = true
	w.n++
	if t.k == KSym {
		p, rest, _ := strings.Cut(t.op, ":")
		if what := map[string]string{
			"next": "an entry of a map in no particular order", "now": "the time of the run", "env": "the environment of the run",
			"timer": "a timer", "select": "which channel is ready", "recv": "what other goroutines send", "atomic": "what other goroutines store",
		}[p]; what != "" {
			w.fault("depends on %s (%s)", what, rest)
		}
		if d := w.mus[t]; d != nil && d.step != nil {
			if d.it == nil {
				w.walk(d.step)
			} else {
				if x := w.traverses(d.it, d.step); x != nil && !w.free[d.it] && !w.commutes(d) {
					w.fault("what is left in %s at the end of a traversal of %s", muName(t), cleanTerm(showN(x.args[0], 3)))
				}
				w.under(d.it, d.step)
			}
			w.walk(d.init)
		}
	}
	if t.k == KGamma && t.args[0].k == KOp && t.args[0].op == "exit#" {
		// more than one way out before the end
		y := t.args[0]
		var early *Term
		var where *Term
		for _, c := range t.cases {
			for _, v := range c.vals {
				if c.neg || v.k != KInt || int(v.i)+1 >= len(y.args) {
					continue
				}
				if x := w.traverses(roundSym, y.args[v.i+1]); x != nil {
					if early != nil && early != c.kid {
						where = x
					}
					early = c.kid
				}
			}
		}
		if where != nil {
			w.fault("which of several ways out a traversal of %s takes first", cleanTerm(showN(where.args[0], 3)))
		}
	}
	if t.k == KOp {
		if n, ok := strings.CutPrefix(t.op, "ext:"); ok && runDependent(n) {
			w.fault("depends on %s", n)
		}
		if binds(t) {
			if x := w.traverses(t.args[0], t.args[2:]...); x != nil {
				for _, a := range t.args[2:] {
					rewriteTermSeen(a, func(m *Term) bool {
						if d := w.mus[m]; d != nil && d.it == t.args[0] {
							w.fault("what a round of the traversal of %s does with %s depends on the rounds before", cleanTerm(showN(x.args[0], 3)), muName(m))
						}
						return true
					})
				}
			}
		}
		switch t.op {
		case "xit#":
			if x := w.traverses(roundSym, t.args[0].args...); x != nil {
				w.fault("the round in which a traversal of %s ends", cleanTerm(showN(x.args[0], 3)))
			}
		case "xmu#":
			c := t.args[1]
			if c.k == KOp && c.op == "@mu" && c.args[1] != tNil {
				if x := w.traverses(roundSym, c.args[1]); x != nil && !commutes(c.args[1], roundSym, func(l *Term) bool { return l.k == KOp && l.op == "@mu" && l.args[0] == c.args[0] }, carried) {
					w.fault("what is left at the end of a traversal of %s", cleanTerm(showN(x.args[0], 3)))
				}
			}
		case "sum", "count":
			s := t
			if t.op == "count" {
				s = t.args[0]
			}
			if s.k == KOp && len(s.args) > 2 {
				w.walk(s.args[1])
				w.under(s.args[0], s.args[2:]...)
				return
			}
		case "sorted":
			l := t.args[0]
			if w.unorderedList(l) {
				w.total(t)
				// the order of its parts is the one it is sorted in
				if l.k == KOp && l.op == "seq" {
					for _, s := range l.args {
						if s.op == "each" || s.op == "flat" {
							w.walk(s.args[1])
							w.under(s.args[0], s.args[2:]...)
						} else {
							w.walk(s)
						}
					}
					return
				}
				if l.k != KGamma {
					for _, a := range l.args {
						w.walk(a)
					}
					return
				}
			}
		case "meach":
			it, k := t.args[0], t.args[3]
			if x := w.traverses(it, t.args[2:5]...); x != nil && t.args[4] != tNil && !(x.op == "mkey" && k == x) {
				w.fault("a map under other keys than those of the map %s it is made from: the last entry wins", cleanTerm(showN(x.args[0], 3)))
			}
			w.walk(t.args[1])
			w.walk(t.args[5])
			w.under(it, t.args[2:5]...)
			return
		case "group", "each", "flat", "catfor":
			it := t.args[0]
			if x := w.traverses(it, t.args[2:]...); x != nil && !w.free[it] {
				what := map[string]string{"group": "lists", "catfor": "a text"}[t.op]
				if what == "" {
					what = "a list"
				}
				w.fault("%s in the order in which %s is traversed", what, cleanTerm(showN(x.args[0], 3)))
			}
			for _, x := range t.args[1:] {
				w.under(it, x)
			}
			return
		case "mkey":
			if i := t.args[1]; !w.free[i] && !(i.k == KSym && i.op == "@it") {
				w.fault("an arbitrary entry of the map %s", cleanTerm(showN(t.args[0], 3)))
			}
		case "idx":
			if i := t.args[1]; w.unorderedList(t.args[0]) && !w.free[i] && !(i.k == KSym && i.op == "@it") {
				w.fault("an arbitrary element of %s", cleanTerm(showN(t.args[0], 3)))
			}
			if w.unorderedList(t.args[0]) {
				w.walk(t.args[1])
				return
			}
		}
	}
	for _, a := range t.args {
		w.walk(a)
	}
	for _, c := range t.cases {
		w.walk(c.kid)
	}
}

// roundSym stands for the rounds of a loop in the names of what it leaves behind.
var roundSym = mkSym("@it", 0, nil)

// carried: t depends on what the rounds before left behind.
func carried(t *Term) bool {
	found := false
	rewriteTermSeen(t, func(x *Term) bool {
		found = found || x.k == KOp && x.op == "@mu"
		return !found && !leftBehind(x)
	})
	return found
}

// leftBehind: x names what a loop left behind, with rounds of its own.
func leftBehind(x *Term) bool {
	return x.k == KOp && (x.op == "exit#" || x.op == "xmu#" || x.op == "xit#")
}

func muName(m *Term) string {
	n := m.op[strings.LastIndexByte(m.op, ':')+1:]
	return strings.TrimLeft(strings.TrimPrefix(n, "p"), "0123456789")
}

func (w *orderWalk) commutes(d *muDef) bool {
	return commutes(d.step, d.it, func(l *Term) bool { return l == d.mu }, func(t *Term) bool {
		for m, e := range w.mus {
			if e.loop == d.loop && contains(t, m) {
				return true
			}
		}
		return false
	})
}

// commutes: what a loop leaves behind does not depend on the order of its
// rounds: it is set to one value for all rounds, or is the largest or the
// smallest of what the rounds offer.
func commutes(step, it *Term, same, carried func(*Term) bool) bool {
	var v, m *Term
	for _, l := range leavesOf(step) {
		switch {
		case same(l):
			m = l
		case v != nil && v != l:
			return false
		default:
			v = l
		}
	}
	if v == nil {
		return true
	}
	if v.k == KOp && (v.op == "mput" || v.op == "mdel") && same(v.args[0]) {
		// one entry for each round
		k := v.args[1]
		return !carried(k) && (v.op == "mdel" || v.args[2] == tNil || k.k == KOp && k.op == "mkey" && !carried(v.args[2])) && (m == nil || !carried(mapLeaves(step, func(l *Term) *Term { return mkBool(l == m) })))
	}
	if m == nil || carried(v) {
		return m == nil && !dependsOn(v, it)
	}
	when := bNot(mapLeaves(step, func(l *Term) *Term { return mkBool(l == m) }))
	if !carried(when) {
		return !dependsOn(v, it)
	}
	// the larger or the smaller of the two
	lt := func(a, b *Term) *Term { return tNeg(tSub(a, b)) }
	if v.typ != nil {
		if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			lt = strLess
		}
	}
	for _, c := range []*Term{lt(v, m), lt(m, v), bNot(lt(v, m)), bNot(lt(m, v))} {
		if implied(when, c) && !carried(restrict(when, c)) {
			return true
		}
	}
	return false
}

// total: the comparison a list in no particular order is sorted by has to tell
// its entries apart.
func (w *orderWalk) total(s *Term) {
	elem := types.Type(nil)
	if s.args[0].typ != nil {
		if sl, ok := s.args[0].typ.Underlying().(*types.Slice); ok {
			elem = sl.Elem()
		}
	}
	if elem == nil {
		rewriteTermSeen(s.args[1], func(x *Term) bool {
			if x.k == KOp && x.op == "idx" && x.typ != nil && elem == nil {
				if _, i, j := cmpSyms(x.typ); x.args[1] == i || x.args[1] == j {
					elem = x.typ
				}
			}
			return elem == nil
		})
	}
	if elem == nil {
		w.fault("sorted by a comparison the analysis has no meaning for")
		return
	}
	keys := keysOf(s.args[1], elem)
	if stt, ok := elem.Underlying().(*types.Struct); ok {
		has := map[int]bool{}
		for _, k := range keys {
			has[k] = true
		}
		for k := 0; k < stt.NumFields(); k++ {
			if !has[k] {
				w.fault("sorted, but entries that differ in %s only keep the order in which they were met", stt.Field(k).Name())
			}
		}
	}
	tab := orderTable(s.args[1], elem, keys)
	var names []string
	for n := range tab {
		names = append(names, n)
	}
	sort.Strings(names)
	swap := strings.NewReplacer("less", "more", "more", "less")
	for _, n := range names {
		if !strings.Contains(n, "less") && !strings.Contains(n, "more") {
			continue
		}
		a, b := tab[n], tab[swap.Replace(n)]
		if !(a == tTrue && b == tFalse || a == tFalse && b == tTrue) {
			w.fault("sorted, but two entries are left in the order in which they were met when %s", n)
		}
	}
}

// unorderedFields: the fields of struct types in which t keeps lists in no order.
func unorderedFields(it *Interp, t *Term, fields map[*types.Var]bool) *Term {
	w := newOrderWalk(it, nil)
	return rewriteTerm(t, func(x *Term) *Term {
		if x.k == KStruct {
			if stt := structOf(x.typ); stt != nil {
				for i, a := range x.args {
					if w.unorderedList(a) {
						fields[stt.Field(i)] = true
						args := append([]*Term(nil), x.args...)
						args[i] = tNil
						x = rebuild(x, args)
					}
				}
			}
		}
		return x
	})
}

func (R *Report) orderFaults(rule, construct, pos string, w *orderWalk) {
	R.faults(rule, construct, pos, w.faults, w.n)
}

func checkSame(R *Report) {
	P := R.P
	fields := map[*types.Var]bool{}
	for _, name := range []string{"threads.GetThreadDump", "summary.GetSummary", "objects.GetObjects"} {
		fn := P.fn(name)
		if !R.need(fn, name) {
			return
		}
		it, st := P.newRun(true)
		it.refArgs, it.okAll = true, true
		it.opaqueAll = heapOpaque
		r, out := it.rootCall(st, fn, symParams(fn))
		R.used(it)
		v, _ := resultParts(r, fn.Signature)
		v = restrict(it.derefAll(out, v), out.pc)
		v = unorderedFields(it, v, fields)
		w := newOrderWalk(it, nil)
		w.walk(v)
		R.orderFaults("same-report", name, rootPos(P, fn), w)
	}
	// the look-ups they leave open
	for _, fn := range P.all {
		if P.isRef(fn) || fn.Parent() != nil || fn.Synthetic != "" || len(fn.Blocks) == 0 || !heapOpaque(fn) {
			continue
		}
		it, st := P.newRun(true)
		it.refArgs, it.okAll = true, true
		it.opaqueAll = func(g *ssa.Function) bool { return g != fn && heapOpaque(g) }
		r, out := it.rootCall(st, fn, symParams(fn))
		R.used(it)
		v, _ := resultParts(r, fn.Signature)
		w := newOrderWalk(it, nil)
		w.walk(restrict(it.derefAll(out, v), out.pc))
		R.orderFaults("same-answer", shortFn(fn), rootPos(P, fn), w)
	}
	R.atLeast("same-answer", 20)
	for f := range fields {
		R.check(true, "unsorted", f.Pkg().Name()+"."+f.Name(), trimRepo(P.prog.Fset.Position(f.Pos()).Filename), "")
	}
	for _, sub := range []string{"Threads", "Summary", "Objects"} {
		ts := R.printed(sub)
		if ts == nil {
			return
		}
		w := newOrderWalk(ts.it, func(l *Term) bool {
			if l.k == KOp && strings.HasPrefix(l.op, "fld") && len(l.args) == 1 && l.args[0].typ != nil {
				if stt := structOf(l.args[0].typ); stt != nil {
					for f := range fields {
						if i := fieldIndex(stt, f); i >= 0 && mkFld(l.args[0], i, f.Type()) == l {
							return true
						}
					}
				}
			}
			return false
		})
		for k, g := range ts.cases() {
			for _, form := range []string{"Plain", "Color", "Html"} {
				t := ts.run[form]
				w.faults, w.n, w.seen, w.seenBy = map[string]bool{}, 0, map[*Term]bool{}, map[string]map[*Term]bool{}
				w.walk(within(t.text, g))
				R.orderFaults("same-text", t.name+": "+k, t.pos, w)
			}
		}
	}
	R.atLeast("same-text", 9)
}

func fieldIndex(stt *types.Struct, f *types.Var) int {
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i) == f {
			return i
		}
	}
	return -1
}
