package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report collects the obligations of one property run.
type Report struct {
	id      string
	onIndex func(*ixState) // takes over the states of the index writer
	tier    string
	P       *Program
	obs     int
	ok      int
	byRule  map[string]int
	viol    []Violation
	known   []string
	samples []string
	fns     map[string]bool
	blocks  int
	events  int
	roots   int
	notes   []string
	start   time.Time
	seen    map[string]bool
}

type Violation struct{ rule, construct, pos, detail string }

func newReport(id, tier string, P *Program) *Report {
	return &Report{id: id, tier: tier, P: P, byRule: map[string]int{}, fns: map[string]bool{}, start: time.Now(), seen: map[string]bool{}}
}

// check records one obligation.
func (R *Report) check(ok bool, rule, construct, pos, detail string) bool {
	R.obs++
	R.byRule[rule]++
	if len(R.samples) < 400 {
		R.samples = append(R.samples, rule+" | "+construct)
	}
	if ok {
		R.ok++
		return true
	}
	key := rule + "|" + construct
	if !R.seen[key] {
		R.seen[key] = true
		R.viol = append(R.viol, Violation{rule, construct, pos, detail})
	}
	return false
}

func (R *Report) fail(rule, construct, pos, detail string) {
	R.check(false, rule, construct, pos, detail)
}

// atLeast: a rule that matched fewer sites than confirmed by hand has lost
// its subject.
func (R *Report) atLeast(rule string, n int) {
	if R.byRule[rule] < n {
		R.fail("instance-floor", rule, "-", fmt.Sprintf("rule matched %d constructs, at least %d expected", R.byRule[rule], n))
	}
}

func (R *Report) used(it *Interp) {
	R.roots++
	R.blocks += it.blocks
	R.events += len(it.events)
	for f := range it.analysed {
		R.fns[f.String()] = true
	}
}

func (R *Report) need(fn *ssa.Function, name string) bool {
	if fn == nil {
		R.fail("anchor", name, "-", "the function this rule starts from is not in the program")
		return false
	}
	return true
}

func loadKnown(verif string) map[string]bool {
	out := map[string]bool{}
	b, _ := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "known: ") {
			out[strings.TrimPrefix(l, "known: ")] = true
		}
	}
	return out
}

// finish prints the verdict, writes evidence, and returns the exit status.
func (R *Report) finish(verif, explanation string) int {
	known := loadKnown(verif)
	var viol []Violation
	for _, v := range R.viol {
		k := "property=" + R.id + " " + v.rule + "|" + v.construct
		hit := false
		for kn := range known {
			if strings.HasPrefix(kn, k+" ::") || kn == k {
				hit = true
			}
		}
		if hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s at %s: %s\n", R.id, v.rule+"|"+v.construct, v.pos, v.detail)
			R.known = append(R.known, k)
			continue
		}
		viol = append(viol, v)
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].rule < viol[j].rule })
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0o755)
	rep := filepath.Join(ev, R.id+".violations.txt")
	os.Remove(rep)
	if len(viol) > 0 {
		var b strings.Builder
		for _, v := range viol {
			fmt.Fprintf(&b, "rule: %s\nconstruct: %s\nat: %s\n%s\n\n", v.rule, v.construct, v.pos, v.detail)
		}
		os.WriteFile(rep, []byte(b.String()), 0o644)
		for i, v := range viol {
			if i == 12 {
				fmt.Printf("  … %d more\n", len(viol)-i)
				break
			}
			d := v.detail
			if len(d) > 500 {
				d = strings.ToValidUTF8(d[:500], "") + "…"
			}
			fmt.Printf("  %s | %s | %s | %s\n", v.rule, v.construct, v.pos, d)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", R.id, rep)
	}
	var fns []string
	for f := range R.fns {
		fns = append(fns, strings.ReplaceAll(f, repoModule+"/", ""))
	}
	sort.Strings(fns)
	sm := R.samples
	if len(sm) > 60 {
		sm = sm[:60]
	}
	cov := map[string]any{
		"explanation":         explanation,
		"obligations":         R.obs,
		"discharged":          R.ok,
		"obligations_by_rule": R.byRule,
		"functions_analysed":  len(fns),
		"functions":           fns,
		"entry_points":        R.roots,
		"blocks_interpreted":  R.blocks,
		"effects_recorded":    R.events,
		"packages":            len(R.P.pkgs),
		"files":               R.P.files,
		"samples":             sm,
		"known_findings":      R.known,
	}
	if len(R.notes) > 0 {
		cov["notes"] = R.notes
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	doc := map[string]any{
		"property": R.id, "tier": R.tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(R.start).Seconds(), "violations": len(viol),
		"assumptions": []string{
			"the standard library behaves as its documentation says (models in checker/ext.go)",
			"integers of 64 bits do not overflow except where a subtraction below zero is tracked",
		},
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	if err := os.WriteFile(filepath.Join(ev, R.id+".json"), b, 0o644); err != nil {
		fmt.Println(err)
	}
	if len(viol) > 0 {
		return 1
	}
	fmt.Printf("property %s: %d obligations in %d functions hold (%.1fs)\n", R.id, R.obs, len(fns), time.Since(R.start).Seconds())
	return 0
}
