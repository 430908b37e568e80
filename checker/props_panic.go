package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func checkPanics(R *Report) {
	P := R.P
	called := map[*ssa.Function]bool{}
	for _, f := range P.all {
		for _, g := range P.callees(f) {
			called[g] = true
		}
	}
	var fns []*ssa.Function
	for _, f := range P.all {
		if f.Synthetic != "" || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		if hasErr(f) && !takesErr(f) || !called[f] || f.Object() != nil && f.Object().Exported() {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	weight := P.weights()
	for _, f := range fns {
		// calls of small functions are looked into only where the summary of
		// a call does not suffice
		var obs []panicOb
		var it *Interp
		for _, inline := range []int{0, 40, 300} {
			obs, it = panicObs(P, f, func(g *ssa.Function) bool { return weight[g] > inline })
			bad := false
			for _, o := range obs {
				bad = bad || !o.ok
			}
			if !bad {
				break
			}
		}
		for _, o := range obs {
			R.check(o.ok, "no-panic", o.what+" from "+shortFn(f), o.pos, o.detail)
		}
		R.check(true, "analysed", shortFn(f), rootPos(P, f), "")
		R.used(it)
	}
	checkDecodedTypes(R)
}

type panicOb struct {
	ok                bool
	what, pos, detail string
}

func panicObs(P *Program, f *ssa.Function, big func(*ssa.Function) bool) (obs []panicOb, it *Interp) {
	it, st := P.newRun(f.Name() != "main")
	it.opaqueAll = func(g *ssa.Function) bool {
		if g == f || g.Parent() != nil || g.Synthetic != "" {
			return false
		}
		return hasErr(g) && !takesErr(g) && big(g) || (shortPkg(g) == "output" || shortPkg(g) == "format") && g.Object() != nil && g.Object().Exported()
	}
	it.rootCall(st, f, symParams(f))
	for _, ev := range it.events {
		switch ev.kind {
		case "panic":
			if isSizeOf(f) {
				continue // asked for the size of something else than a record
			}
			pc := ev.st.pc
			if shortPkg(f) != "core" {
				// decoded records hold known types only (see checkDecodedTypes)
				pc = bAnd(pc, knownTypes(P, pc))
			}
			obs = append(obs, panicOb{it.impossible(pc), "panic in " + shortFn(ev.fn), it.posStr(ev.pos), "reached when " + showN(pc, 9)})
		case "ob":
			if ev.name == "repeat" && (shortPkg(ev.fn) == "output" || shortPkg(ev.fn) == "cmd") {
				continue // column widths
			}
			bad := bAnd(ev.st.pc, bNot(ev.args[0]))
			obs = append(obs, panicOb{it.impossible(bad), ev.name + " in " + shortFn(ev.fn), it.posStr(ev.pos), "fails when " + showN(bad, 9)})
		}
	}
	return obs, it
}

// weights: the number of basic blocks of each function and everything it calls.
func (P *Program) weights() map[*ssa.Function]int {
	w := map[*ssa.Function]int{}
	var rec func(f *ssa.Function) int
	rec = func(f *ssa.Function) int {
		if n, ok := w[f]; ok {
			return n
		}
		w[f] = 1 << 20 // recursive functions are not small
		n := len(f.Blocks)
		for _, g := range P.callees(f) {
			n = min(n+rec(g), 1<<20)
		}
		w[f] = n
		return n
	}
	for _, f := range P.all {
		rec(f)
	}
	return w
}

// knownType: t is one of the Java types of the dump format.
func knownType(P *Program, t *Term) *Term {
	r := tFalse
	for _, v := range []int64{2, 4, 5, 6, 7, 8, 9, 10, 11} {
		r = bOr(r, asBool(tEq(t, mkInt(v))))
	}
	return r
}

func isJavaType(t types.Type) bool {
	return t != nil && strings.HasSuffix(t.String(), "/internal/core.JavaType")
}

// knownTypes: the Java types c depends on are known ones.
func knownTypes(P *Program, c *Term) *Term {
	r := tTrue
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if isJavaType(x.typ) && !strings.HasPrefix(x.op, "call:") {
			r = bAnd(r, knownType(P, x))
		}
		for _, a := range x.args {
			rec(a)
		}
		for _, cc := range x.cases {
			rec(cc.kid)
		}
	}
	rec(c)
	return r
}

// checkDecodedTypes: the record decoders hand out records with known types
// only, in all their lists.
func checkDecodedTypes(R *Report) {
	P := R.P
	n := 0
	for _, f := range P.all {
		if shortPkg(f) != "core" || f.Parent() != nil || !hasErr(f) || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() != 2 {
			continue
		}
		if structOf(f.Signature.Results().At(0).Type()) == nil {
			continue
		}
		it, st := P.newRun(true)
		r, out := it.rootCall(st, f, symParams(f))
		vs, err := resultParts(r, f.Signature)
		ok := okPC(out, err)
		seen := map[*Term]bool{}
		var in []*Term // what held in the iterations that made the list elements looked at
		var rec func(x *Term)
		rec = func(x *Term) {
			if seen[x] {
				return
			}
			seen[x] = true
			if x.k == KOp && x.op == "each" {
				in = append(in, it.iterBack[x.args[0]])
				defer func() { in = in[:len(in)-1] }()
			}
			if x.k == KStruct {
				stt := structOf(x.typ)
				for i := 0; stt != nil && i < stt.NumFields(); i++ {
					if !isJavaType(stt.Field(i).Type()) {
						continue
					}
					n++
					c := ok
					for _, b := range in {
						if b != nil {
							c = bAnd(c, b)
						}
					}
					R.check(it.impossible(bAnd(c, bNot(knownType(P, x.args[i])))), "known-types", shortFn(f)+" "+stt.Field(i).Name(), rootPos(P, f), "a record with type "+showN(x.args[i], 6)+" is accepted")
				}
			}
			for _, a := range x.args {
				rec(a)
			}
			for _, cc := range x.cases {
				rec(cc.kid)
			}
		}
		rec(restrict(vs, ok))
		R.used(it)
	}
	R.atLeast("known-types", 4)
}

// isSizeOf: the size functions of core, which panic on records and types they
// do not know.
func isSizeOf(f *ssa.Function) bool {
	return strings.HasPrefix(shortFn(f), "(core.SizeInfo).")
}

func init() {
	props["C10"] = propCheck{checkPanics, "For every function that can report an error, is exported or is not called from within the program, the abstract interpreter collects for each index, slice, division, pointer dereference, map write, type assertion and explicit panic the condition under which it fails, and shows that condition contradicts the path condition together with what the surrounding loops keep true (non-nil and non-negative loop variables). Calls to other such functions are summarised as returning any value. The record decoders are shown to hand out known Java types only, in every element of every list, which is what the size computation relies on."}
}

func pkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return ""
	}
	return f.Pkg.Pkg.Path()
}

// impossible: c cannot hold, given what the loops keep true of their variables.
func (it *Interp) impossible(c *Term) bool {
	if implied(c, tFalse) {
		return true
	}
	lemma, texts := tTrue, 0
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if md := it.muDefs[x]; md != nil {
			if loopKeeps(md, neverNilOr) {
				lemma = bAnd(lemma, bNot(asBool(tEq(x, tNil))))
			}
			if numericTerm(x) && loopKeeps(md, nonNegOr) {
				lemma = bAnd(lemma, bNot(tNeg(x)))
			}
		}
		for _, a := range x.args {
			rec(a)
		}
		for _, cc := range x.cases {
			rec(cc.kid)
			for _, v := range cc.vals {
				if v.k == KStr && texts < 20 {
					// a text is this constant only if it has its length
					texts++
					is, sized := asBool(tEq(x.args[0], v)), asBool(tEq(mkStrLen(x.args[0]), mkInt(int64(len(v.op)))))
					lemma = bAnd(lemma, bOr(bNot(is), sized))
					if v.op == "" {
						lemma = bAnd(lemma, bOr(is, bNot(sized)))
					}
				}
			}
		}
	}
	rec(c)
	return implied(bAnd(c, lemma), tFalse)
}

func neverNilOr(x, mu *Term) bool {
	return x == mu || x == tBot || neverNil(x) || x.k == KOp && x.op == "ref"
}
func nonNegOr(x, mu *Term) bool {
	return x == tBot || nonNeg(x) || nonNeg(tSub(x, mu))
}

// loopKeeps: the loop-carried value starts with and is only replaced by values
// that satisfy ok.
func loopKeeps(md *muDef, ok func(x, mu *Term) bool) bool {
	if md.init == nil || md.step == nil {
		return false
	}
	r := true
	mapLeaves(md.init, func(l *Term) *Term { r = r && ok(l, nil2(md.mu)); return l })
	mapLeaves(cleanGamma(restrict(md.step, md.back)), func(l *Term) *Term { r = r && ok(l, md.mu); return l })
	return r
}

func nil2(*Term) *Term { return mkInt(0) }

func shortPkg(f *ssa.Function) string {
	p := pkgPath(f)
	return p[strings.LastIndex(p, "/")+1:]
}
