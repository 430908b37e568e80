package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hasErr: the function's last result is an error.
func hasErr(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
}

func checkErrors(R *Report) {
	P := R.P
	var fns []*ssa.Function
	for _, f := range P.all {
		if hasErr(f) && f.Synthetic == "" && f.Parent() == nil && len(f.Blocks) > 0 {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	// errors of an opaque function that are made on the spot in all cases
	fresh := map[string]*Term{}
	busy := map[*ssa.Function]bool{}
	var decide func(f *ssa.Function)
	decide = func(f *ssa.Function) {
		if busy[f] {
			return
		}
		busy[f] = true
		for _, g := range P.callees(f) {
			decide(g)
		}
		if !hasErr(f) || f.Synthetic != "" || f.Parent() != nil || len(f.Blocks) == 0 {
			return
		}
		it, st := P.newRun(true)
		it.opaqueAll = func(g *ssa.Function) bool {
			return g != f && hasErr(g) && !takesErr(g) && g.Parent() == nil && g.Synthetic == ""
		}
		it.exempt = exemptFail
		it.okBySite = P.impureName
		it.opaqueErr = func(n string) *Term { return fresh[n] }
		r, out := it.rootCall(st, f, symParams(f))
		_, err := resultParts(r, f.Signature)
		if f.Signature.Results().Len() == 1 {
			err = r
		}
		all, wraps := true, false
		mapLeaves(err, func(x *Term) *Term {
			y := stripIface(x)
			all = all && (y == tNil || y == tBot || newError(y))
			wraps = wraps || y.k == KOp && y.op == "wrapped"
			return x
		})
		if all {
			fresh[f.String()] = mkOp("errnew", mkStr(f.String()))
			if wraps {
				fresh[f.String()] = mkOp("wrapped", tErr)
			}
		}
		bad := bAnd(bAnd(out.pc, failedIn(out)), asBool(tEq(err, tNil)))
		R.check(implied(bad, tFalse), "failure-reported", shortFn(f), rootPos(P, f), "reports success although "+whatFailed(it, out, bad)+" failed, when "+showN(bad, 6))
		R.used(it)
	}
	for _, f := range fns {
		decide(f)
	}
	R.atLeast("failure-reported", 60)
	checkExit(R, fresh)
}

// checkExit: the command ends with a non-zero status exactly when something
// failed, and says what.
func checkExit(R *Report, fresh map[string]*Term) {
	P := R.P
	f := P.fn("neojhat.main")
	if !R.need(f, "main") {
		return
	}
	it, st := P.newRun(false)
	it.opaqueAll = func(g *ssa.Function) bool {
		return hasErr(g) && !takesErr(g) && g.Parent() == nil && g.Synthetic == ""
	}
	it.exempt = exemptFail
	it.okBySite = P.impureName
	it.opaqueErr = func(n string) *Term { return fresh[n] }
	_, out := it.rootCall(st, f, nil)
	R.used(it)
	calls := tFalse
	for _, ev := range it.events {
		if ev.kind == "opaque" {
			calls = bOr(calls, ev.st.pc)
		}
	}
	bad := bAnd(out.pc, failedIn(out))
	R.check(implied(bad, tFalse), "exit-status", "normal end of main", rootPos(P, f), "the command ends with status 0 although "+whatFailed(it, out, bad)+" failed")
	n := 0
	for _, ev := range it.events {
		if ev.kind != "exit" {
			continue
		}
		n++
		pc := ev.st.pc
		failed := failedIn(ev.st)
		code := ev.args[0]
		zero := asBool(tEq(code, mkInt(0)))
		where := fmt.Sprintf("exit in %s", shortFn(ev.fn))
		bad := bAnd(bAnd(pc, failed), zero)
		R.check(implied(bad, tFalse), "exit-status", where, it.posStr(ev.pos), "ends with status 0 although "+whatFailed(it, ev.st, bad)+" failed")
		bad = bAnd(bAnd(pc, calls), bAnd(bNot(failed), bNot(zero)))
		R.check(implied(bad, tFalse), "exit-status", where+" without failure", it.posStr(ev.pos), "ends with a failure status although nothing failed, when "+showN(bad, 6))
		// the error is told
		told := tFalse
		for _, p := range it.events {
			if (p.kind == "print" || p.kind == "write") && p.seq < ev.seq {
				for _, a := range p.args {
					if holdsErr(a) {
						told = bOr(told, p.st.pc)
					}
				}
			}
		}
		bad = bAnd(bAnd(pc, failed), bNot(told))
		R.check(implied(bad, tFalse), "failure-told", where, it.posStr(ev.pos), "ends without a message although "+whatFailed(it, ev.st, bad)+" failed")
	}
	R.check(n > 0, "exit-status", "exits", rootPos(P, f), "main never sets an exit status")
}

// holdsErr: the text shows an error value.
func holdsErr(t *Term) bool {
	hit := false
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if hit || seen[x] {
			return
		}
		seen[x] = true
		if neverNil(x) && x.k == KOp && x.op != "ptr" && x.op != "slice" {
			hit = true
			return
		}
		for _, a := range x.args {
			rec(a)
		}
		for _, c := range x.cases {
			rec(c.kid)
		}
	}
	rec(t)
	return hit
}

// madeBy: the term uses a result of the function.
func madeBy(t *Term, fn string) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if x.k == KOp && strings.Contains(x.op, fn) {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		for _, c := range x.cases {
			if rec(c.kid) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// takesErr: helpers that combine or wrap errors are looked into.
func takesErr(f *ssa.Function) bool {
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if isErrorType(t) {
			return true
		}
	}
	return false
}

func whatFailed(it *Interp, out State, bad *Term) string {
	g, _ := out.heap.get(ghostFail.id)
	if g == nil {
		return "?"
	}
	var l []string
	seen := map[*Term]bool{}
	var add func(g *Term)
	add = func(g *Term) {
		mapLeaves(g, func(x *Term) *Term {
			if seen[x] {
				return x
			}
			seen[x] = true
			if x.k == KStr {
				l = append(l, show(x))
			} else if x != tFalse {
				for m, d := range it.muDefs {
					if d.step != nil && (m == x || contains(x, m)) {
						add(d.step)
					}
				}
			}
			return x
		})
		for _, m := range discs(g) {
			if d := it.muDefs[m]; d != nil && d.step != nil && !seen[m] {
				seen[m] = true
				add(d.step)
			}
		}
	}
	add(restrict(g, bad))
	if len(l) > 4 {
		l = l[:4]
	}
	if len(l) == 0 {
		return "a step of a loop"
	}
	return strings.Join(l, ", ")
}

func exemptFail(name string, fr *Frame, ok *Term) bool {
	if name == "os.Stat" || name == "os.Lstat" {
		return true // a probe: nothing was to be read or written
	}
	if fr != nil && strings.HasSuffix(name, ").GetHprofUtf8") && inThreads(fr) && !madeBy(ok, ").GetHprofLoadClassByClassObjectId#") {
		// names of a frame that the dump does not have are shown as unknown;
		// the class of a local variable is looked up by the class identifier
		return true
	}
	return fr != nil && fr.fn.Pkg != nil && strings.HasSuffix(fr.fn.Pkg.Pkg.Path(), "/internal/output")
}

func init() {
	props["C04"] = propCheck{checkErrors, "Every repository function with an error result is analysed on its own (other error-returning functions may succeed or fail): a ghost variable records that some fallible operation failed; no path may reach a return with a nil error while the ghost is set. The command's main function is analysed the same way: with the ghost set, the process must not end normally or with status 0, and a message showing the error is printed first. Probing with os.Stat, repeated Close of a file, Close of files opened for reading and the writes of the plain output are not counted as failures."}
}

// discs lists the discriminants of the decisions at the top of t.
func discs(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x.k != KGamma || seen[x] {
			return
		}
		seen[x] = true
		out = append(out, x.args[0])
		for _, c := range x.cases {
			rec(c.kid)
		}
	}
	rec(t)
	return out
}

// inThreads: called while the frames of a thread are put together.
func inThreads(fr *Frame) bool {
	return fr.fn.Pkg != nil && strings.HasSuffix(fr.fn.Pkg.Pkg.Path(), "/internal/threads") || fr.fn.Parent() != nil && inThreads(&Frame{fn: fr.fn.Parent()})
}
