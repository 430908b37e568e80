package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Comparison of a function's result with its specification function, both in
// normal form over the same unknown inputs.

type pairRun struct {
	R          *Report
	it         *Interp
	fn, ref    *ssa.Function
	name, pos  string
	args       []*Term
	fv, fe     *Term // value and error of the function
	raw        *Term // the value with its references
	rv, re     *Term // of the specification
	fout, rout State
	fev, rev   []*Event
	ffacts     map[*Term]*Term // what holds when a loop of the function goes round
}

// heapOpaque: the layers below the reports, decided by their own rules.
func heapOpaque(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		f = g
	}
	if f.Pkg == nil {
		return false
	}
	p := f.Pkg.Pkg.Path()
	if strings.HasSuffix(p, "/internal/format") && f.Name() == "Signature" {
		return true
	}
	if f.Signature.Recv() == nil {
		return false
	}
	switch {
	case strings.HasSuffix(p, "/internal/dump"), strings.HasSuffix(p, "/internal/storage"), strings.HasSuffix(p, "/internal/java"):
		return f.Object() != nil && f.Object().Exported() && hasErr(f)
	}
	return false
}

func (R *Report) runPair(fname, rname string, setup func(it *Interp)) *pairRun {
	P := R.P
	fn := P.refs[fname]
	if fn == nil {
		fn = P.fn(fname)
	}
	ref := P.refs[rname]
	if fn == nil || ref == nil {
		R.fail("anchor", "specification "+rname, "-", "the specification no longer fits the declarations it refers to")
		return nil
	}
	if len(fn.Params) != len(ref.Params) {
		R.fail("anchor", "parameters of "+fname, rootPos(P, fn), "the parameters changed")
		return nil
	}
	it, st := P.newRun(true)
	it.refArgs = true
	it.opaqueAll = heapOpaque
	if setup != nil {
		setup(it)
	}
	// a driver in the specification stands for the function it calls
	real := fn
	if P.isRef(fn) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && !P.isRef(c.Call.StaticCallee()) {
					real = c.Call.StaticCallee()
				}
			}
		}
	}
	p := &pairRun{R: R, it: it, fn: fn, ref: ref, name: shortFn(real), pos: rootPos(P, real), args: symParams(ref)}
	r, out := it.rootCall(st, fn, p.args)
	p.fev = it.events
	it.events = nil
	p.ffacts = map[*Term]*Term{}
	for k, v := range it.facts {
		p.ffacts[k] = v
		delete(it.facts, k)
	}
	p.fout = out
	p.fv, p.fe = resultParts(r, fn.Signature)
	p.raw = p.fv
	p.fv = it.derefAll(out, p.fv)
	r, out = it.rootCall(st, ref, p.args)
	p.rev = it.events
	it.events = p.fev
	p.rout = out
	p.rv, p.re = resultParts(r, ref.Signature)
	p.rv = it.derefAll(out, p.rv)
	for _, e := range p.fev {
		switch e.kind {
		case "undecided", "unknowncall", "unknownext":
			R.fail("undecided", e.kind+" "+e.name, it.posStr(e.pos), "the analysis has no meaning for this construct")
		}
	}
	R.used(it)
	return p
}

// accepts: the function fails in no case in which its specification does not,
// other failures of the layers below aside; loops are compared by what they
// range over.
func (p *pairRun) accepts(rule string, whole bool) {
	pos := p.pos
	if whole {
		f, r := okPC(p.fout, p.fe), okPC(p.rout, p.re)
		p.R.check(implied(r, f), rule, p.name, pos, "fails when "+cleanTerm(showN(restrict(bNot(f), r), 6))+", where it has to succeed")
		return
	}
	for i, r := range p.it.facts {
		f := p.ffacts[i]
		if f == nil || i == nil {
			continue
		}
		p.R.check(implied(r, f), rule, p.name+": loop over "+cleanTerm(showN(p.it.loopN[i], 4)), pos, "the loop is left when "+cleanTerm(showN(restrict(bNot(f), r), 6))+", where it has to go on")
	}
}

// differ walks two values and reports the fields in which they differ.
func (p *pairRun) differ(rule string, pc, a, b *Term, path string, skip func(string) bool) int {
	if skip != nil && skip(path) {
		return 0
	}
	R, pos := p.R, p.pos
	a, b = groupAbsent(restrict(a, pc)), groupAbsent(restrict(b, pc))
	if a.k == KStruct && b.k == KStruct && len(a.args) == len(b.args) {
		stt := structOf(b.typ)
		n := 0
		for i := range a.args {
			name := fmt.Sprint(i)
			if stt != nil {
				name = stt.Field(i).Name()
			}
			q := name
			if path != "" {
				q = path + "." + name
			}
			n += p.differ(rule, pc, a.args[i], b.args[i], q, skip)
		}
		return n
	}
	if a.k == KOp && b.k == KOp && a.op == "seq" && b.op == "seq" && len(a.args) == len(b.args) {
		same := true
		for i := range a.args {
			x, y := a.args[i], b.args[i]
			if x.op != y.op || len(x.args) != len(y.args) {
				same = false
				break
			}
			for j := 0; j < len(x.args)-1; j++ {
				if x.args[j] != y.args[j] {
					same = false
				}
			}
			if x.op != "each" && x.op != "elem" && x != y {
				same = false
			}
		}
		if same {
			n := 0
			for i := range a.args {
				x, y := a.args[i], b.args[i]
				q := path
				if len(a.args) > 1 {
					q = fmt.Sprintf("%s[%d]", path, i)
				} else {
					q += "[]"
				}
				if x.op == "each" || x.op == "elem" {
					g := pc
					if x.op == "each" {
						g = bAnd(pc, asBool(x.args[2]))
					}
					n += p.differ(rule, g, x.args[len(x.args)-1], y.args[len(y.args)-1], q, skip)
				}
			}
			return n
		}
	}
	ok := eqUnder(pc, a, b)
	if path == "" {
		path = "result"
	}
	R.check(ok, rule, p.name+": "+path, pos, diffText(a, b))
	if ok {
		return 0
	}
	return 1
}

// deepDiff follows the first difference of two terms downwards.
func deepDiff(a, b *Term, d int) string {
	if a.k == KSym && b.k == KSym && strings.HasPrefix(a.op, "it:") && strings.HasPrefix(b.op, "it:") {
		num := func(s string) int {
			n := 0
			fmt.Sscanf(s, "it:%d.", &n)
			return n
		}
		if x, y := num(a.op), num(b.op); x != y && x > 0 && y > 0 {
			return "trip/" + deepDiff(termList[x], termList[y], d+1)
		}
	}
	if a.k == KLin && b.k == KLin {
		_, ms, fs := linParts(tSub(a, b))
		for i, x := range ms {
			for j, y := range ms {
				if fs[i] > 0 && fs[j] < 0 && x.op == y.op && (len(x.args) == 0 || x.args[0] != y.args[0] || len(ms) == 2) && (x.op != "xmu#" || len(x.args[0].args) == len(y.args[0].args)) {
					return "lin/" + deepDiff(x, y, d+1)
				}
			}
		}
	}
	if d > 60 || a.k != b.k || a.op != b.op || len(a.args) != len(b.args) || len(a.cases) != len(b.cases) {
		lay := func(t *Term) string {
			s := fmt.Sprintf("kind %d op %s: %.300s", t.k, t.op, cleanTerm(showN(t, 4)))
			for i, a := range t.args {
				s += fmt.Sprintf("\n      arg%d: %.500s", i, cleanTerm(showN(a, 5)))
			}
			for i, c := range t.cases {
				s += fmt.Sprintf("\n      case%d: %.500s", i, cleanTerm(showN(c.kid, 5)))
			}
			return s
		}
		return "\n  A: " + lay(a) + "\n  B: " + lay(b)
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			return fmt.Sprintf("%s.%d/", a.op, i) + deepDiff(a.args[i], b.args[i], d+1)
		}
	}
	for i := range a.cases {
		x, y := a.cases[i], b.cases[i]
		if x.kid != y.kid {
			return fmt.Sprintf("case%d/", i) + deepDiff(x.kid, y.kid, d+1)
		}
	}
	return fmt.Sprintf("\n  A= %.700s\n  B= %.700s", cleanTerm(showN(a, 6)), cleanTerm(showN(b, 6)))
}

func diffText(a, b *Term) string {
	if a != b && os.Getenv("NJDIFF") != "" {
		fmt.Fprintln(os.Stderr, deepDiff(a, b, 0))
		return "differs"
	}
	x, y := cleanTerm(showN(a, 9)), cleanTerm(showN(b, 9))
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	if i > 60 {
		i -= 60
	} else {
		i = 0
	}
	cut := func(s string) string {
		if i < len(s) {
			s = s[i:]
		}
		if len(s) > 260 {
			s = s[:260] + "…"
		}
		if i > 0 {
			s = "…" + s
		}
		return s
	}
	return "is " + cut(x) + " instead of " + cut(y)
}

func cleanTerm(s string) string {
	return strings.ReplaceAll(s, repoModule+"/internal/", "")
}

var _ = types.Identical

// refArg replaces references to objects made by the analysed code by what
// they hold.
func (it *Interp) refArg(st State, v *Term, d int) *Term {
	if d == 0 || v.size > 100000 {
		return v
	}
	switch v.k {
	case KSym:
		if strings.HasPrefix(v.op, "new:") {
			if c, ok := st.heap.get(v.id); ok && !contains(c, v) {
				return mkOp("ref", it.refArg(st, it.resolve(st, c), d-1))
			}
		}
	case KStruct, KIface, KTuple:
		args := make([]*Term, len(v.args))
		for i, a := range v.args {
			args[i] = it.refArg(st, a, d-1)
		}
		return rebuild(v, args)
	case KGamma:
		return mapLeaves(v, func(l *Term) *Term { return it.refArg(st, l, d-1) })
	}
	return v
}
