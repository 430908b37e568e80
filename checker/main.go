package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type propCheck struct {
	run         func(R *Report)
	explanation string
}

var props = map[string]propCheck{}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "where evidence goes")
	prop := flag.String("prop", "", "property id (comma separated, or all)")
	tier := flag.String("tier", "quick", "quick or thorough")
	dump := flag.String("dump", "", "debug: analyse one function and print the result")
	opq := flag.String("opaque", "", "debug: comma separated opaque functions")
	depth := flag.Int("depth", 8, "print depth")
	list := flag.Bool("list", false, "list functions")
	flag.Parse()
	if *prop != "" {
		ids := strings.Split(*prop, ",")
		if *prop == "all" {
			ids = nil
			for i := 1; i < 100; i++ {
				id := fmt.Sprintf("C%02d", i)
				if _, ok := props[id]; ok {
					ids = append(ids, id)
				}
			}
		}
		rc := 0
		for _, id := range ids {
			if runProp(*repo, *verif, id, *tier) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	P, err := loadProgram(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if *list {
		for _, f := range P.all {
			fmt.Println(shortFn(f))
		}
		return
	}
	if *dump != "" {
		debugDump(P, *dump, *opq, *depth)
	}
}

var loaded = map[string]*Program{}

func runProp(repo, verif, id, tier string) int {
	pc, ok := props[id]
	if !ok {
		fmt.Println("no such property", id)
		return 2
	}
	P, err := loaded[repo], error(nil)
	if P == nil {
		// types are part of terms: one program per process
		P, err = loadProgram(repo)
		loaded[repo] = P
	}
	R := newReport(id, tier, P)
	if err != nil {
		R.P = &Program{}
		R.fail("load", "source", "-", err.Error())
		return R.finish(verif, pc.explanation)
	}
	defer watch(R, verif, pc.explanation)()
	func() {
		defer func() {
			if x := recover(); x != nil {
				overLimit.Store(false)
				st := ""
				if os.Getenv("NJDEBUG") != "" {
					st = string(debug.Stack())
				}
				if _, ok := x.(budgetErr); ok {
					x = "analysis budget exceeded"
				}
				R.fail("undecided", "analysis", "-", fmt.Sprint(x)+st)
			}
		}()
		pc.run(R)
	}()
	return R.finish(verif, pc.explanation)
}

// overLimit tells the analysis to give up.
var overLimit atomic.Bool

// watch limits time and memory of one check: it ends with a report of what it
// could not decide before it is ended from outside.
func watch(R *Report, verif, explanation string) (stop func()) {
	limit, memory := 540*time.Second, uint64(9<<30)
	if s, err := time.ParseDuration(os.Getenv("NJ_LIMIT")); err == nil {
		limit = s
	}
	done := make(chan bool)
	start := time.Now()
	go func() {
		tick := time.NewTicker(500 * time.Millisecond)
		defer tick.Stop()
		var since time.Time
		for {
			select {
			case <-done:
				return
			case <-tick.C:
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if since.IsZero() && (time.Since(start) > limit || m.HeapAlloc > memory) {
				since = time.Now()
				overLimit.Store(true)
			}
			if !since.IsZero() && time.Since(since) > 40*time.Second {
				// the analysis does not react
				R2 := newReport(R.id, R.tier, &Program{})
				R2.fail("undecided", "analysis", "-", "analysis budget exceeded")
				os.Exit(R2.finish(verif, explanation))
			}
		}
	}()
	return func() { close(done); overLimit.Store(false) }
}

func debugDump(P *Program, name, opq string, depth int) {
	fn := P.fn(name)
	if fn == nil {
		fn = P.refs[name]
	}
	if fn == nil {
		fmt.Println("no function", name)
		os.Exit(1)
	}
	if os.Getenv("SSA") != "" {
		fn.WriteTo(os.Stdout)
	}
	it, st := P.newRun(name != "neojhat.main")
	it.okReads = os.Getenv("OKREADS") != ""
	it.okAll = os.Getenv("OKALL") != ""
	if pk := os.Getenv("OPQPKG"); pk != "" {
		it.opaqueAll = func(f *ssa.Function) bool {
			return f.Pkg != nil && !strings.HasSuffix(f.Pkg.Pkg.Path(), pk) && f.Pkg.Pkg.Name() != "main"
		}
	}
	for _, o := range strings.Split(opq, ",") {
		if f := P.fn(o); f != nil {
			it.opaque[f.String()] = true
		}
	}
	r, out := it.rootCall(st, fn, symParams(fn))
	for _, ev := range it.events {
		var as []string
		for _, a := range ev.args {
			as = append(as, showN(a, depth))
		}
		fmt.Printf("EV %-8s %-30s %s\n     (%s)\n     res %s\n     pc %s\n", ev.kind, ev.name, it.posStr(ev.pos), strings.Join(as, ", "), showN(ev.res, depth), showN(ev.st.pc, depth))
	}
	fmt.Println("RET", showN(r, depth))
	fmt.Println("PC", showN(out.pc, depth))
	if g, ok := out.heap.get(ghostFail.id); ok {
		fmt.Println("FAIL", showN(g, depth))
	}
	fmt.Println("mu:")
	for _, d := range it.muDefs {
		fmt.Println("  ", d.desc, showN(d.mu, 4), "init", showN(d.init, 5), "step", showN(d.step, 6), "n", d.n != nil)
	}
	fmt.Println("terms", len(termList), "events", len(it.events), "unknownExt", it.unknownExt)
}
