package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// want: a condition is exactly another one, under D.
func (R *Report) want(rule, construct, pos string, D, got, exp *Term, not, yes string) {
	a, b := bAnd(D, exp), bAnd(D, got)
	R.check(implied(a, got), rule, construct, pos, not+" when "+cleanTerm(showN(restrict(bNot(got), a), 6)))
	R.check(implied(b, exp), rule, construct+" only", pos, yes+" when "+cleanTerm(showN(restrict(bNot(exp), b), 6)))
}

// checkOptions: every option does what its description says.
func checkOptions(R *Report) {
	c := R.cmdRun(true)
	if c == nil {
		return
	}
	P := R.P
	main := rootPos(P, c.main)
	for _, n := range commands {
		D := c.hasDump(n)
		// which report
		for _, m := range commands {
			rep := c.calls(n, reportFn[m])
			if m == n {
				R.check(implied(D, unionPC(rep)), "report", n, main, "the report is not made when "+cleanTerm(showN(restrict(bNot(unionPC(rep)), D), 6)))
			} else {
				R.check(len(rep) == 0, "report", n+" not "+m, main, "makes the report of another command")
			}
		}
		rep := c.calls(n, reportFn[n])
		if len(rep) == 0 {
			continue
		}
		// what goes into it
		for _, e := range rep {
			pos := c.it.posStr(e.pos)
			switch n {
			case "summary":
				R.check(eqUnder(e.st.pc, e.args[1], c.boolFlag(n, "all-props")), "option", "summary -all-props", pos, "is "+cleanTerm(showN(e.args[1], 5)))
			case "objects":
				size, count := P.constOf("objects", "Size"), P.constOf("objects", "Count")
				if R.check(size != nil && count != nil, "option", "objects -sort-by constants", pos, "the orders are not there") {
					ch := c.chosen(n, "sort-by", "size")
					R.check(eqUnder(bAnd(e.st.pc, ch), e.args[1], size), "option", "objects -sort-by size", pos, "is "+cleanTerm(showN(restrict(e.args[1], ch), 5)))
					R.check(eqUnder(bAnd(e.st.pc, bNot(ch)), e.args[1], count), "option", "objects -sort-by count", pos, "is "+cleanTerm(showN(restrict(e.args[1], bNot(ch)), 5)))
				}
			}
		}
		// how it is printed
		html, plain := c.chosen(n, "output", "html"), c.boolFlag(n, "no-color")
		exp := []*Term{bAnd(bNot(html), plain), bAnd(bNot(html), bNot(plain)), html}
		for i, f := range printFns[n] {
			es := c.calls(n, f)
			R.want("output", n+": "+strings.TrimPrefix(f, "output."), main, D, unionPC(es), exp[i], "is not used", "is used")
			for _, e := range es {
				pos := c.it.posStr(e.pos)
				var src *Term = tBot
				for _, r := range rep {
					if bAnd(r.st.pc, e.st.pc) != tFalse {
						src = firstOf(r.res)
					}
				}
				R.check(eqUnder(e.st.pc, e.args[0], src), "output", n+": what "+f+" shows", pos, "shows "+cleanTerm(showN(e.args[0], 5)))
				rest := e.args[1:]
				if n == "threads" {
					R.check(len(rest) > 0 && eqUnder(e.st.pc, rest[0], c.boolFlag(n, "local-vars")), "option", "threads -local-vars for "+f, pos, "is "+cleanTerm(showN(e.args[1], 5)))
					rest = rest[1:]
				}
				if i != 1 && len(rest) > 0 {
					R.check(stripIface(rest[len(rest)-1]) == c.it.stdout("Stdout"), "output", n+": destination of "+f, pos, "goes to "+cleanTerm(showN(rest[len(rest)-1], 5)))
				}
			}
			// printed once
			for j := 1; j < len(es); j++ {
				R.check(bAnd(es[j].st.pc, es[j-1].st.pc) == tFalse, "output", n+": once", c.it.posStr(es[j].pos), "the report is printed twice")
			}
		}
		// values that are not known are refused
		sets := []string{"output"}
		if n == "objects" {
			sets = append(sets, "sort-by")
		}
		for _, s := range sets {
			given := asBool(mkSym("?given:"+n+":"+s, 0, nil))
			val := typed(mkSym("flagval:"+n+":"+s, 0, nil), types.Typ[types.String])
			ok := tFalse
			allowed := []string{"", "plain", "html"}
			if s == "sort-by" {
				allowed = []string{"", "count", "size"}
			}
			for _, v := range allowed {
				ok = bOr(ok, asBool(tEq(val, mkStr(v))))
			}
			R.check(implied(bAnd(c.cmds[n], given), ok), "refused", n+" -"+s, main, "another value is accepted, when "+cleanTerm(showN(restrict(bNot(ok), bAnd(c.cmds[n], given)), 5)))
			for _, v := range allowed[1:] {
				R.check(bAnd(c.cmds[n], c.chosen(n, s, v)) != tFalse, "accepted", n+" -"+s+" "+v, main, "the value is refused")
			}
		}
		// nothing is done without a dump
		no := bAnd(c.cmds[n], asBool(tEq(c.flagOf(n, "hprof", types.Typ[types.String]), mkStr(""))))
		for _, e := range c.events(no, func(e *Event) bool { return e.kind == "fs" || e.kind == "opaque" }) {
			R.fail("usage", n+": "+cleanTerm(e.name), c.it.posStr(e.pos), "done without a dump being named")
		}
		used := c.events(no, func(e *Event) bool { return e.kind == "exit" })
		R.check(implied(no, unionPC(used)), "usage", n, main, "goes on without a dump being named")
	}
	// which command
	arg := tNil
	for _, n := range commands {
		mapLeaves(c.cmds[n], func(l *Term) *Term { return l })
		R.check(commandCond(c.cmds[n], n), "command-name", n, main, "runs when "+cleanTerm(showN(c.cmds[n], 6)))
	}
	_ = arg
	all := tFalse
	for _, n := range commands {
		all = bOr(all, c.cmds[n])
	}
	parsed := tFalse
	for _, e := range c.it.events {
		if e.kind == "flagparse" {
			parsed = bOr(parsed, e.st.pc)
		}
	}
	for _, e := range c.events(bNot(parsed), func(e *Event) bool { return e.kind == "fs" || e.kind == "opaque" }) {
		R.fail("command-name", "other: "+cleanTerm(e.name), c.it.posStr(e.pos), "done for an unknown command")
	}
	// the flag sets stop at an option they do not know
	for _, e := range c.it.events {
		if e.kind == "flagok" {
			if set, has := e.st.heap.get(e.args[0].id); has && set.k == KOp && set.op == "flagset" {
				R.check(set.args[1] == mkInt(1), "unknown-option", show(set.args[0]), c.it.posStr(e.pos), "an option that does not exist is not refused")
			}
		}
	}
	// defaults
	seen := map[string]bool{}
	for _, e := range c.it.events {
		if e.kind != "flagok" {
			continue
		}
		set, has := e.st.heap.get(e.args[0].id)
		if !has || set.k != KOp || set.op != "flagset" || set.args[0].k != KStr {
			continue
		}
		for _, r := range c.it.flags[e.args[0]] {
			if r.name.k != KStr {
				continue
			}
			k := set.args[0].op + " -" + r.name.op
			if seen[k] {
				continue
			}
			seen[k] = true
			if strings.HasSuffix(r.kind, "BoolVar") || strings.HasSuffix(r.kind, ").Bool") {
				R.check(r.def == tFalse, "option", k+" default", c.it.posStr(e.pos), "is on by default")
			}
			if strings.HasSuffix(r.kind, "StringVar") || strings.HasSuffix(r.kind, ").String") {
				R.check(r.def == mkStr(""), "option", k+" default", c.it.posStr(e.pos), "has the default "+show(r.def))
			}
		}
	}
	for _, n := range commands {
		opts := []string{"hprof", "no-color", "non-interactive", "output"}
		switch n {
		case "threads":
			opts = append(opts, "local-vars")
		case "summary":
			opts = append(opts, "all-props")
		case "objects":
			opts = append(opts, "sort-by")
		}
		for _, o := range opts {
			R.check(seen[n+" -"+o], "option", n+" -"+o, main, "the option does not exist")
		}
	}
	R.atLeast("option", 25)
	R.atLeast("output", 30)
}

// commandCond: the condition is that the first argument is the command's name
// (and that the options are valid).
func commandCond(pc *Term, n string) bool {
	notGiven := tTrue
	for _, o := range []string{"output", "sort-by"} {
		notGiven = bAnd(notGiven, bNot(asBool(mkSym("?given:"+n+":"+o, 0, nil))))
	}
	args := func(t *Term) bool { return strings.Contains(show(t), "glob:os.Args") }
	for _, d := range discs(pc) {
		if d.k != KOp || d.op != "idx" || !args(d) || show(d.args[0]) == "deref(glob:os.Args)" && d.args[1] != mkInt(1) {
			continue
		}
		is := asBool(tEq(d, mkStr(n)))
		rest := restrict(bNot(pc), bAnd(is, notGiven))
		if !implied(pc, is) || rest == tTrue {
			continue
		}
		ok := true
		for _, x := range discs(rest) {
			ok = ok && args(x) && x != d
		}
		if ok {
			return true
		}
	}
	return false
}

// checkStreams: what goes to standard output and standard error.
func checkStreams(R *Report) {
	c := R.cmdRun(true)
	if c == nil {
		return
	}
	P := R.P
	out, errw := c.it.stdout("Stdout"), c.it.stdout("Stderr")
	writes := func(e *Event) bool { return e.kind == "print" || e.kind == "write" }
	for _, n := range commands {
		D := c.hasDump(n)
		quiet := c.boolFlag(n, "non-interactive")
		k := 0
		for _, e := range c.events(D, writes) {
			w := stripIface(e.args[0])
			k++
			pos := c.it.posStr(e.pos)
			if w != errw && w != out {
				continue // a file of the index, see C12
			}
			R.check(w == errw, "stdout", n+": "+e.name+" in "+shortFn(e.fn), pos, "something other than the report is printed to standard output when "+cleanTerm(showN(e.st.pc, 5)))
			R.check(bAnd(e.st.pc, asBool(quiet)) == tFalse, "non-interactive", n+": "+e.name+" in "+shortFn(e.fn), pos, "printed with -non-interactive")
		}
		R.check(true, "stdout", n, "-", "")
		for _, e := range c.events(bAnd(D, asBool(quiet)), func(e *Event) bool { return e.kind == "go" }) {
			R.fail("non-interactive", n+": goroutine in "+shortFn(e.fn), c.it.posStr(e.pos), "progress is shown with -non-interactive")
		}
	}
	// nothing else in the program prints
	for _, f := range P.all {
		if P.isRef(f) || f.Pkg == nil || f.Pkg.Pkg.Name() == "main" || strings.HasSuffix(f.Pkg.Pkg.Path(), "/internal/cmd") {
			continue
		}
		color := strings.HasSuffix(f.Pkg.Pkg.Path(), "/internal/output")
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s := printsTo(in); s != "" {
					n++
					R.check(color && s == "stdout", "stray-output", shortFn(f), P.pos(in), "writes to "+s)
				}
			}
		}
		R.check(true, "stray-output", shortFn(f)+" scanned", "-", "")
	}
	// the report functions write where they are told to
	for _, n := range commands {
		for i, f := range printFns[n] {
			fn := P.fn(f)
			if !R.need(fn, f) {
				continue
			}
			it, st := P.newRun(true)
			it.opaqueAll = func(f *ssa.Function) bool {
				return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/internal/format") && f.Parent() == nil
			}
			args := symParams(fn)
			it.rootCall(st, fn, args)
			R.used(it)
			dest := out
			if i != 1 && len(args) > 0 {
				dest = args[len(args)-1]
			}
			k := 0
			for _, e := range it.events {
				if e.kind != "print" && e.kind != "write" && e.kind != "tmplexec" {
					continue
				}
				w := stripIface(e.args[0])
				if last := e.args[len(e.args)-1]; e.kind == "tmplexec" && last.k == KIface && isBufferType(last.typ) {
					continue // a text in memory; where that is written counts
				}
				k++
				R.check(w == dest || w == stripIface(dest), "destination", f, it.posStr(e.pos), "writes to "+cleanTerm(showN(w, 4)))
			}
			R.check(k > 0, "destination", f+" writes", rootPos(P, fn), "nothing is written")
		}
	}
}

// printsTo: the instruction uses a standard stream.
func printsTo(in ssa.Instruction) string {
	if c, ok := in.(ssa.CallInstruction); ok {
		if b, ok := c.Common().Value.(*ssa.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
			return "stderr"
		}
		if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil {
			s := g.String()
			switch {
			case s == "fmt.Print" || s == "fmt.Println" || s == "fmt.Printf":
				return "stdout"
			case g.Pkg.Pkg.Path() == "log" || g.Pkg.Pkg.Path() == "log/slog":
				return "stderr"
			}
		}
	}
	for _, op := range in.Operands(nil) {
		if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
			switch g.Name() {
			case "Stdout":
				return "stdout"
			case "Stderr":
				return "stderr"
			}
		}
	}
	return ""
}

// beside: the path belongs to the index of the dump: its name starts with the
// dump's and goes on with ".db", or it is a new directory named so.
func (c *cmdRun) beside(n string, p []*Term) bool {
	h := c.flagOf(n, "hprof", types.Typ[types.String])
	if len(p) >= 2 && p[0] == h && p[1].k == KStr && strings.HasPrefix(p[1].op, ".db") && !strings.Contains(p[1].op+"/", "/../") {
		return true
	}
	if len(p) > 0 && p[0].k == KOp && p[0].op == "tempdir" && len(p[0].args) == 2 {
		for _, x := range p[1:] {
			if x.k != KStr || strings.Contains(x.op+"/", "/../") {
				return false
			}
		}
		d, b := p[0].args[0], p[0].args[1]
		if d.k == KOp && d.op == "ext:path/filepath.Dir" && len(d.args) == 1 && d.args[0] == h {
			ps := c.path(b)
			return len(ps) == 2 && ps[0].k == KOp && ps[0].op == "ext:path/filepath.Base" && ps[0].args[0] == h && ps[1].k == KStr && strings.HasPrefix(ps[1].op, ".db") && !strings.Contains(ps[1].op, "/")
		}
	}
	return false
}

func mutates(e *Event) bool {
	switch e.name {
	case "os.Open", "os.Stat", "os.Lstat", "os.ReadFile", "os.ReadDir":
		return false
	case "os.OpenFile":
		m, _ := e.extra.(string)
		return m != "r"
	case "(*os.File).Sync":
		return false
	}
	return true
}

// checkUntouched: the dump is only read, and everything written belongs to
// its index.
func checkUntouched(R *Report) {
	c := R.cmdRun(false)
	if c == nil {
		return
	}
	for _, n := range commands {
		k := 0
		for _, e := range c.events(c.hasDump(n), func(e *Event) bool { return e.kind == "fs" }) {
			k++
			what := n + ": " + e.name + " in " + shortFn(e.fn)
			pos := c.it.posStr(e.pos)
			if !mutates(e) {
				R.check(true, "read-only", what, pos, "")
				continue
			}
			var ps [][]*Term
			switch e.name {
			case "os.Rename", "os.Link", "os.Symlink":
				ps = [][]*Term{c.path(e.args[0]), c.path(e.args[1])}
			case "os.MkdirTemp", "os.CreateTemp":
				ps = [][]*Term{{mkOp("tempdir", e.args...)}}
			case "(*os.File).Truncate", "(*os.File).Chmod":
				ps = [][]*Term{c.fileOf(e, e.args[0])}
			default:
				ps = [][]*Term{c.path(e.args[0])}
			}
			for _, p := range ps {
				R.check(c.beside(n, p), "writes-beside", what, pos, "changes "+showPath(p)+", which is not part of the index of the dump")
			}
		}
		R.check(k >= 10, "read-only", n, rootPos(R.P, c.main), "the files of the command are not found")
	}
	// other ways to change files
	for _, f := range R.P.all {
		if R.P.isRef(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.Pkg != nil {
						switch p := g.Pkg.Pkg.Path(); {
						case p == "syscall" || p == "os/exec" || p == "io/ioutil" || p == "net" || p == "net/http" || p == "unsafe" || strings.HasPrefix(p, "golang.org/x/sys"):
							R.fail("read-only", shortFn(f)+" calls "+g.String(), R.P.pos(in), "not analysed")
						}
					}
				}
			}
		}
		R.check(true, "scanned", shortFn(f), "-", "")
	}
}

// checkAtomic: the index appears under its name only when it is complete.
func checkAtomic(R *Report) {
	c := R.cmdRun(false)
	if c == nil {
		return
	}
	P := R.P
	main := rootPos(P, c.main)
	for _, n := range commands {
		D := c.hasDump(n)
		fs := c.events(D, func(e *Event) bool { return e.kind == "fs" })
		h := c.flagOf(n, "hprof", types.Typ[types.String])
		// what the report is made from, and the directory it lies in
		var dir []*Term
		reads := map[string]bool{}
		for _, e := range fs {
			if (e.name == "os.Open" || e.name == "os.OpenFile" && !mutates(e)) && e.seq > firstSeq(c.calls(n, "dump.NewParser")) {
				p := c.path(e.args[0])
				if len(p) == 2 && p[0] == h && p[1].k == KStr {
					if i := strings.LastIndexByte(p[1].op, '/'); i > 0 {
						d := []*Term{h, mkStr(p[1].op[:i])}
						R.check(dir == nil || samePath(d, dir), "index", n+": directory", c.it.posStr(e.pos), "the index is read from two directories")
						dir = d
						reads[showPath(p)] = true
					}
				}
			}
		}
		if !R.check(dir != nil && len(reads) == 5, "index", n+": files read", main, "the files of the index are not found") {
			continue
		}
		for _, e := range fs {
			if e.name != "os.Stat" && e.name != "os.Lstat" {
				continue
			}
			if p := c.path(e.args[0]); len(p) > 1 && p[0] == h {
				_, in := under(p, dir)
				R.check(in, "index", n+": probe", c.it.posStr(e.pos), "looks for "+showPath(p)+" instead of the index")
			}
		}
		var ren *Event
		for _, e := range fs {
			if !mutates(e) {
				continue
			}
			pos := c.it.posStr(e.pos)
			if e.name == "os.Rename" {
				if samePath(c.path(e.args[1]), dir) {
					R.check(ren == nil, "index", n+": published once", pos, "published twice")
					ren = e
					continue
				}
			}
			for _, a := range e.args {
				if _, in := under(c.path(a), dir); in && e.name != "os.RemoveAll" && e.name != "os.Remove" {
					R.fail("index", n+": "+e.name+" in "+shortFn(e.fn), pos, "the index is changed where it is looked for, before it is complete")
				}
			}
		}
		if !R.check(ren != nil, "index", n+": published", main, "the index never gets its name") {
			continue
		}
		pos := c.it.posStr(ren.pos)
		from := c.path(ren.args[0])
		// built in a new directory of its own, on the same file system
		R.check(len(from) == 1 && from[0].k == KOp && from[0].op == "tempdir" && from[0].args[0].k == KOp && from[0].args[0].op == "ext:path/filepath.Dir" && from[0].args[0].args[0] == h, "index", n+": built aside", pos, "built in "+showPath(from)+", which another run may use or from which it cannot be renamed")
		// complete when it is published
		need := map[string]bool{"(*dump.Parser).ParseHeapDump": true}
		for _, s := range []string{"Small", "Meta"} {
			need["(*storage."+storeName(s, "Write")+").SerializeTo"] = true
		}
		for f := range need {
			es := c.calls(n, f)
			if !R.check(len(es) > 0, "complete", n+": "+f, main, "is not called") {
				continue
			}
			done := tFalse
			for _, e := range es {
				err := e.res
				if err != nil && err.k == KTuple {
					err = err.args[len(err.args)-1]
				}
				if e.seq < ren.seq && err != nil {
					done = bOr(done, bAnd(e.st.pc, asBool(tEq(err, tNil))))
				}
			}
			R.check(implied(ren.st.pc, done), "complete", n+": "+f, pos, "the index is published although this was not done or failed")
		}
		made := map[string]*Term{}
		for _, e := range fs {
			if e.name == "os.OpenFile" && mutates(e) || e.name == "os.Create" {
				if p := c.path(e.args[0]); e.seq < ren.seq {
					if rest, in := under(p, from); in {
						k := showPath(normPath(append(append([]*Term{}, dir...), rest...)))
						if made[k] == nil {
							made[k] = tFalse
						}
						made[k] = bOr(made[k], bAnd(e.st.pc, mkGuard(mkSym("outcome:"+c.it.siteAt(e), 0, nil), []*Term{mkInt(0)}, false)))
					}
				}
			}
		}
		for r := range reads {
			R.check(made[r] != nil && implied(ren.st.pc, made[r]), "complete", n+": "+strings.TrimPrefix(r, showPath(dir)), pos, "the index is published without this file")
		}
		// nothing is written to it afterwards
		for _, e := range fs {
			if mutates(e) && e.seq > ren.seq && e.name != "os.RemoveAll" && e.name != "os.Remove" {
				R.fail("complete", n+": "+e.name+" in "+shortFn(e.fn)+" afterwards", c.it.posStr(e.pos), "the index is changed after it was published")
			}
		}
		for _, f := range []string{"(*dump.Parser).ParseHeapDump", "(*storage." + storeName("Small", "Write") + ").SerializeTo", "(*storage." + storeName("Meta", "Write") + ").SerializeTo"} {
			for _, e := range c.calls(n, f) {
				R.check(e.seq < ren.seq, "complete", n+": "+f+" before", c.it.posStr(e.pos), "done after the index is published")
			}
		}
		// what is not published is taken away
		for _, e := range fs {
			if e.name != "os.MkdirTemp" {
				continue
			}
			okd := bAnd(e.st.pc, mkGuard(mkSym("outcome:"+c.it.siteAt(e), 0, nil), []*Term{mkInt(0)}, false))
			gone := bAnd(ren.st.pc, mkGuard(mkSym("outcome:"+c.it.siteAt(ren), 0, nil), []*Term{mkInt(0)}, false))
			for _, x := range fs {
				if x.name == "os.RemoveAll" && x.seq > e.seq && samePath(c.path(x.args[0]), []*Term{mkOp("tempdir", e.args...)}) {
					gone = bOr(gone, x.st.pc)
				}
			}
			R.check(implied(okd, gone), "cleaned", n+": "+e.name, c.it.posStr(e.pos), "stays behind when "+cleanTerm(showN(restrict(bNot(gone), okd), 6)))
		}
		// it is not removed once published
		for _, x := range fs {
			if x.name == "os.RemoveAll" || x.name == "os.Remove" {
				_, in := under(c.path(x.args[0]), dir)
				R.check(!in, "complete", n+": kept", c.it.posStr(x.pos), "the index is removed")
			}
		}
		// a report is made only from a published index
		pub := bAnd(ren.st.pc, mkGuard(mkSym("outcome:"+c.it.siteAt(ren), 0, nil), []*Term{mkInt(0), mkInt(1)}, false))
		for _, e := range c.calls(n, reportFn[n]) {
			have := c.statOK(n, e.seq)
			R.check(implied(e.st.pc, bOr(pub, have)), "complete", n+": report", c.it.posStr(e.pos), "made without an index when "+cleanTerm(showN(restrict(bNot(bOr(pub, have)), e.st.pc), 6)))
		}
		// an index that is there is used as it is
		for _, e := range fs {
			if mutates(e) {
				R.check(bAnd(e.st.pc, c.statOK(n, e.seq)) == tFalse, "reused", n+": "+e.name+" in "+shortFn(e.fn), c.it.posStr(e.pos), "done although an index is there")
			}
		}
	}
	R.atLeast("complete", 40)
}

func firstSeq(es []*Event) int {
	if len(es) == 0 {
		return 0
	}
	return es[0].seq
}

func init() {
	props["C12"] = propCheck{checkUntouched, "main is analysed with arbitrary arguments and with every file operation free to fail. Every operation that can change the file system is listed with the path it is given, as text and unknowns: the path must start with the name of the dump followed by .db, or be a new directory of such a name beside the dump, and must not lead out of it. The dump itself is only opened for reading. No function of the program reaches the file system, the network or other programs in a way that is not analysed."}
	props["C13"] = propCheck{checkAtomic, "In the same analysis, with failures: the directory the reports read the index from is changed by one operation only, a rename of a new directory beside the dump. Where it happens, the parse and both serialisations have been called and have succeeded, and all five files the reports read have been created in that directory; nothing is written afterwards. On every other path after the directory was made it is removed. A report is made only behind that rename or a successful probe for the directory, and a successful probe is followed by no change."}
	props["C14"] = propCheck{checkStreams, "In the analysis of main with all operations succeeding, every print is listed with its destination and condition: standard output receives nothing while a report is made except from the report functions, standard error nothing under -non-interactive, where no progress goroutine is started either. The report functions are analysed for their destination. All other functions of the program are scanned for uses of the standard streams."}
	props["C18"] = propCheck{checkOptions, "In the analysis of main the options are unknowns: which report function runs, its arguments, which output function runs, its arguments and destination are compared, as conditions on those unknowns, with the documented meaning, in both directions; values outside the documented ones, unknown options and missing dumps must end the command first; the defaults are checked."}
}
