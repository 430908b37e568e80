package main

import "fmt"

// C19: the state shown for a thread.

// stateRule is one line of the JVM's own translation of the status bits
// (jdk.internal.misc.VM.toThreadState), tried in turn.
type stateRule struct {
	text string
	has  int64 // one of these bits is set
	name string
}

var stateRules = []stateRule{
	{"runnable (0x4)", 0x4, "RUNNABLE"},
	{"blocked on a monitor (0x400)", 0x400, "BLOCKED"},
	{"waiting indefinitely (0x10)", 0x10, "WAITING"},
	{"waiting with a timeout (0x20)", 0x20, "TIMED_WAITING"},
	{"terminated (0x2)", 0x2, "TERMINATED"},
	{"alive (0x1), none of the states", 0x1, "RUNNABLE"},
	{"not alive, none of the states", 0, "NEW"},
}

func checkState(R *Report) {
	P := R.P
	fn := P.refs["threads.njGotState"]
	if !R.need(fn, "threads.ThreadStatus.String") {
		return
	}
	it, st := P.newRun(true)
	args := symParams(fn)
	r, out := it.rootCall(st, fn, args)
	r = restrict(r, out.pc)
	R.used(it)
	pos := ""
	if f := P.fn("(threads.ThreadStatus).String"); f != nil {
		pos = rootPos(P, f)
	}
	ts := args[0]
	if bNot(out.pc) != tFalse {
		R.fail("undecided", "threads.ThreadStatus.String", pos, "gives no state when "+cleanTerm(showN(bNot(out.pc), 5)))
		return
	}
	// the state depends on bits of the status only, or on the whole of it being
	// some constant
	masks := map[*Term]int64{}
	bits := int64(0)
	for _, s := range stateRules {
		bits |= s.has
	}
	var odd *Term
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.k == KOp && x.op == "and" && len(x.args) == 2 {
			for i := range x.args {
				if m := x.args[1-i]; x.args[i] == ts && m.k == KInt {
					masks[x] = m.i
					bits |= m.i
					return
				}
			}
		}
		if x == ts {
			odd = x
			return
		}
		if x.k == KGamma && x.args[0] == ts {
			for _, c := range x.cases {
				for _, v := range c.vals {
					if v.k == KInt {
						bits |= v.i
					}
				}
				rec(c.kid)
			}
			return
		}
		for _, a := range x.args {
			rec(a)
		}
		for _, c := range x.cases {
			rec(c.kid)
		}
	}
	rec(r)
	var list []int64
	spare := int64(0)
	for b := int64(1); b > 0 && b < 1<<32; b <<= 1 {
		if bits&b != 0 {
			list = append(list, b)
		} else if b < 1<<30 {
			spare = b // stands for all bits that do not matter
		}
	}
	if odd != nil || len(list) > 14 || bits < 0 {
		R.fail("undecided", "threads.ThreadStatus.String", pos, "the state is not told from single bits of the status: "+cleanTerm(showN(r, 6)))
		return
	}
	list = append(list, spare)
	wrong := map[string]string{}
	for n := 0; n < 1<<len(list); n++ {
		v := int64(0)
		for i, b := range list {
			if n>>i&1 == 1 {
				v |= b
			}
		}
		m := map[*Term]*Term{ts: mkInt(v)}
		for x, k := range masks {
			m[x] = mkInt(v & k)
		}
		got := subst(r, m)
		for _, s := range stateRules {
			if s.has != 0 && v&s.has == 0 {
				continue
			}
			if got.k != KStr || got.op != s.name {
				c := s.text + ": " + s.name + " shown as " + cleanTerm(showN(got, 3))
				if _, ok := wrong[c]; !ok {
					wrong[c] = fmt.Sprintf("f.e. for the status %#x", v)
				}
			}
			break
		}
	}
	for _, s := range stateRules {
		ok := true
		for c, d := range wrong {
			if len(c) > len(s.text) && c[:len(s.text)+1] == s.text+":" {
				ok = false
				R.fail("state", c, pos, d)
			}
		}
		if ok {
			R.check(true, "state", s.text, pos, "")
		}
	}
	R.check(true, "cases", fmt.Sprintf("%d combinations of bits", 1<<len(list)), pos, "")
}

func init() {
	props["C19"] = propCheck{checkState, "The result of ThreadStatus.String is a term over the unknown status; it has to depend on single bits of it only. It is tabulated over all combinations of the bits it depends on and the bits that matter, and compared with the translation the JVM itself uses for Thread.getState."}
}
