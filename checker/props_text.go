package main

import (
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The printed reports: the text each output function writes, as a term.

type textRun struct {
	name string // e.g. output.ThreadsHtml
	pos  string
	form string // Ref, Plain, Color, Html
	text *Term
	out  State
	evs  []*Event
}

type texts struct {
	it   *Interp
	run  map[string]*textRun // form
	sub  string
	args []*Term
}

// printed analyses the specification and the three output functions of a report.
func (R *Report) printed(sub string) *texts {
	P := R.P
	countedFields = true
	defer func() { countedFields = false }()
	it, st := P.newRun(true)
	it.refArgs = true
	it.okAll = true
	it.opaqueAll = func(f *ssa.Function) bool { return heapOpaque(f) }
	ts := &texts{it: it, run: map[string]*textRun{}, sub: sub}
	var args []*Term
	for _, form := range []string{"Ref", "Plain", "Color", "Html"} {
		fn := P.refs["output.nj"+form+sub]
		if fn == nil {
			R.fail("anchor", "printing of "+sub, "-", "the specification no longer fits the declarations it refers to")
			return nil
		}
		if args == nil {
			args = symParams(fn)
			ts.args = args
		}
		t := &textRun{name: sub, form: form}
		s0 := st
		it.capture = nil
		if form == "Color" {
			it.capture = it.stdout("Stdout")
			s0.heap = s0.heap.set(sbCell(it.capture).id, mkStr(""))
		}
		it.events = nil
		r, out := it.rootCall(s0, fn, args)
		t.evs, t.out = it.events, out
		t.text = restrict(r, out.pc)
		if form == "Color" {
			t.text = it.sbGet(out, it.capture)
		}
		// a separator behind the last part of a list is no text
		t.text = rewriteTerm(t.text, func(x *Term) *Term {
			if x.k == KOp && x.op == "chop" && x.args[1].k == KStr && !strings.ContainsFunc(ansi.ReplaceAllString(x.args[1].op, ""), isWord) {
				return x.args[0]
			}
			if x.k == KOp && x.op == "cat" {
				return mkCat(x.args...)
			}
			return x
		})
		// the function of the program
		for _, e := range t.evs {
			if e.kind == "call" && form != "Ref" && t.pos == "" && !strings.Contains(e.name, ".nj") {
				t.name = strings.TrimPrefix(e.name, repoModule+"/internal/")
				if f := P.fn(t.name); f != nil {
					t.pos = rootPos(P, f)
				}
			}
			switch e.kind {
			case "undecided", "unknowncall", "unknownext":
				R.fail("undecided", t.name+": "+e.kind+" "+e.name, it.posStr(e.pos), "the analysis has no meaning for this construct")
			case "print", "write":
				if form != "Ref" {
					R.fail("elsewhere", t.name+": "+e.name, it.posStr(e.pos), "writes to something else than its destination")
				}
			}
		}
		ts.run[form] = t
		R.used(it)
	}
	it.capture = nil
	return ts
}

var spaces = regexp.MustCompile(" +")
var ansi = regexp.MustCompile("\x1b\\[[0-9;]*[A-Za-z]")

// visible reduces a text to its words: what is written, without padding,
// punctuation, colours and markup.
func visible(t *Term, html bool) *Term { return trimSep(vis(t, html)) }

var sep = mkStr(" ")

func vis(t *Term, html bool) *Term {
	return mapLeaves(t, func(l *Term) *Term { return visLeaf(l, html) })
}

func isWord(r rune) bool {
	return r == '_' || r >= 0x80 || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
}

func visLeaf(l *Term, html bool) *Term {
	parts := []*Term{l}
	if l.k == KOp && l.op == "cat" {
		parts = l.args
	}
	tag, skip := false, ""
	var out []*Term
	for _, p := range parts {
		escaped := false
		for {
			if p.k == KOp && p.op == "padded" {
				out = append(out, sep)
				p = p.args[1]
			} else if p.k == KOp && p.op == "ext:strings.TrimSpace" {
				p = p.args[0]
			} else if p.k == KOp && (p.op == "esc" || p.op == "htmlesc") && html && !escaped {
				p, escaped = p.args[0], true
			} else {
				break
			}
		}
		switch {
		case p.k == KStr:
			s := ansi.ReplaceAllString(p.op, "")
			w := ""
			for i := 0; i < len(s); {
				r := rune(s[i])
				n := 1
				if r >= 0x80 {
					for i+n < len(s) && s[i+n]&0xC0 == 0x80 {
						n++
					}
				}
				c := s[i : i+n]
				switch {
				case html && r == '<':
					tag = true
					w += " "
					low := strings.ToLower(s[i:])
					for _, e := range []string{"style", "title", "script"} {
						if strings.HasPrefix(low, "<"+e) {
							skip = e
						}
						if skip == e && strings.HasPrefix(low, "</"+e) {
							skip = ""
						}
					}
				case tag:
					tag = r != '>'
				case skip != "":
				case r < 0x80 && !isWord(r):
					w += " "
				default:
					w += c
				}
				i += n
			}
			for i, f := range strings.Fields(w) {
				if i > 0 || strings.HasPrefix(w, " ") {
					out = append(out, sep)
				}
				out = append(out, mkStr(f))
			}
			if strings.HasSuffix(w, " ") {
				out = append(out, sep)
			}
		case tag || skip != "":
		case p.k == KOp && p.op == "ext:strings.Repeat" && p.args[0].k == KStr && !strings.ContainsFunc(p.args[0].op, isWord):
			out = append(out, sep)
		case p.k == KOp && p.op == "alt":
			out = append(out, vis(p.args[0], html))
		case p.k == KOp && p.op == "catfor":
			b := vis(p.args[2], html)
			d := trimSep(b)
			if !separated(b) {
				d = mkOp("unseparated", d)
			}
			// an empty list writes nothing
			none := asBool(tEq(p.args[1], mkInt(0)))
			out = append(out, iteDC(none, sep, bNot(none), mkCat(sep, mkCatFor(p.args[0], p.args[1], d), sep)))
		default:
			out = append(out, p)
		}
	}
	return mkCat(out...)
}

// separated: entries of a loop do not run into each other.
func separated(b *Term) bool {
	ok := true
	mapLeaves(b, func(l *Term) *Term {
		s := showEdge(l)
		ok = ok && s
		return l
	})
	return ok
}

func showEdge(l *Term) bool {
	first, last := l, l
	if l.k == KOp && l.op == "cat" {
		first, last = l.args[0], l.args[len(l.args)-1]
	}
	sp := func(t *Term, pre bool) bool {
		if t.k == KStr {
			return t.op == "" || pre && strings.HasPrefix(t.op, " ") || !pre && strings.HasSuffix(t.op, " ")
		}
		return false
	}
	return sp(first, true) || sp(last, false)
}

func trimSep(t *Term) *Term {
	return mapLeaves(t, func(l *Term) *Term {
		parts := []*Term{l}
		if l.k == KOp && l.op == "cat" {
			parts = append([]*Term(nil), l.args...)
		}
		n := len(parts) - 1
		for i, p := range parts {
			if p.k == KStr {
				parts[i] = mkStr(spaces.ReplaceAllString(p.op, " "))
			}
		}
		if parts[0].k == KStr {
			parts[0] = mkStr(strings.TrimLeft(parts[0].op, " "))
		}
		if parts[n].k == KStr {
			parts[n] = mkStr(strings.TrimRight(parts[n].op, " "))
		}
		return mkCat(parts...)
	})
}

// within restricts a text, and every term in it, to a case.
func within(t, g *Term) *Term {
	if g == tTrue {
		return t
	}
	return rewriteTerm(t, func(x *Term) *Term { return restrict(x, g) })
}

// unordered forgets by what lists are sorted.
func unordered(t *Term) *Term {
	return rewriteTerm(t, func(x *Term) *Term {
		if x.k == KOp && x.op == "sorted" {
			return mkOp("ordered", x.args[0])
		}
		return x
	})
}

// rewriteTerm applies f to every term from the leaves up.
func rewriteTerm(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if len(x.args) == 0 && len(x.cases) == 0 {
			return f(x)
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := x
		if x.k == KGamma {
			res, pc := tBot, tFalse
			d := rec(x.args[0])
			for _, c := range x.cases {
				g := guardOf(d, c.vals, c.neg)
				res = iteDC(pc, res, g, rec(c.kid))
				pc = bOr(pc, g)
			}
			r = res
		} else {
			args := make([]*Term, len(x.args))
			ch := false
			for i, a := range x.args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			if ch {
				rebind(x, args)
				r = rebuild(x, args)
			}
		}
		r = f(r)
		memo[x] = r
		return r
	}
	return rec(t)
}

// cases of a report the text is compared in.
func (ts *texts) cases() map[string]*Term {
	m := map[string]*Term{}
	if ts.sub != "Objects" {
		m["any"] = tTrue
		return m
	}
	stt := structOf(ts.args[0].typ)
	for i := 0; stt != nil && i < stt.NumFields(); i++ {
		if f := stt.Field(i); f.Name() == "SortBy" {
			for _, n := range []string{"Count", "Size"} {
				if c, ok := f.Type().(*types.Named).Obj().Pkg().Scope().Lookup(n).(*types.Const); ok {
					v, _ := constant.Int64Val(c.Val())
					m["by "+n] = asBool(tEq(mkFld(ts.args[0], i, f.Type()), mkInt(v)))
				}
			}
		}
	}
	return m
}

func checkPrinted(R *Report) {
	for _, sub := range []string{"Threads", "Summary", "Objects"} {
		ts := R.printed(sub)
		if ts == nil {
			return
		}
		for k, g := range ts.cases() {
			want := visible(unordered(within(ts.run["Ref"].text, g)), false)
			for _, form := range []string{"Plain", "Color", "Html"} {
				t := ts.run[form]
				got := visible(unordered(within(t.text, g)), form == "Html")
				if form == "Html" {
					got = dropHeading(got, want)
				}
				ok := eqUnder(g, got, want)
				R.check(ok, "shown", t.name+": "+k, t.pos, diffText(got, want))
			}
		}
	}
	R.atLeast("shown", 12)
}

// dropHeading removes the words of a page's heading before the text itself.
func dropHeading(got, want *Term) *Term {
	lead := func(t *Term) string {
		for t.k == KGamma {
			t = t.cases[0].kid
		}
		if t.k == KOp && t.op == "cat" {
			t = t.args[0]
		}
		if t.k == KStr {
			return t.op
		}
		return ""
	}
	w := lead(want)
	return mapLeaves(got, func(l *Term) *Term {
		parts := []*Term{l}
		if l.k == KOp && l.op == "cat" {
			parts = append([]*Term(nil), l.args...)
		}
		if parts[0].k == KStr {
			if s := parts[0].op; strings.HasSuffix(s, w) && (w == "" || len(s) == len(w) || s[len(s)-len(w)-1] == ' ') {
				parts[0] = mkStr(w)
			}
		}
		return mkCat(parts...)
	})
}

// elements of the list a report is made of, as its text uses them
func sortedIn(t *Term, list *Term) (srt []*Term, raw []*Term, other []*Term) {
	binders := map[*Term]bool{}
	seen := map[*Term]bool{}
	var use []*Term
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.k == KOp && x.op == "catfor" {
			binders[x.args[0]] = true
		}
		if x.k == KOp && x.op == "idx" {
			b := x.args[0]
			if b.k == KOp && b.op == "sorted" && b.args[0] == list {
				srt = appendNew(srt, b)
				use = append(use, x)
			} else if b == list {
				raw = append(raw, x)
			}
		}
		for _, a := range x.args {
			rec(a)
		}
		for _, c := range x.cases {
			rec(c.kid)
		}
	}
	rec(t)
	for _, u := range use {
		if !binders[u.args[1]] {
			other = append(other, u)
		}
	}
	return
}

func appendNew(l []*Term, t *Term) []*Term {
	for _, x := range l {
		if x == t {
			return l
		}
	}
	return append(l, t)
}

// orderTable gives, for each way two elements can compare in the keys, whether
// the first goes before the second.
func orderTable(less *Term, elem types.Type, keys []int) map[string]*Term {
	S, i, j := cmpSyms(elem)
	stt, _ := elem.Underlying().(*types.Struct)
	a, b := typed(mkOp("idx", S, i), elem), typed(mkOp("idx", S, j), elem)
	m := map[string]*Term{}
	var rec func(n int, name string, pc *Term)
	rec = func(n int, name string, pc *Term) {
		if n == len(keys) {
			m[name] = restrict(asBool(less), pc)
			return
		}
		x, y := a, b
		fname := "it"
		if stt != nil {
			f := stt.Field(keys[n])
			x, y = mkFld(a, keys[n], f.Type()), mkFld(b, keys[n], f.Type())
			fname = f.Name()
		}
		var lt, gt *Term
		if isIntType(x.typ) {
			lt, gt = asBool(tNeg(tSub(x, y))), asBool(tNeg(tSub(y, x)))
		} else {
			lt, gt = asBool(strLess(x, y)), asBool(strLess(y, x))
		}
		eq := asBool(tEq(x, y))
		for _, c := range []struct {
			n string
			g *Term
		}{{"less", bAnd(lt, bAnd(bNot(gt), bNot(eq)))}, {"more", bAnd(gt, bAnd(bNot(lt), bNot(eq)))}, {"equal", bAnd(eq, bAnd(bNot(lt), bNot(gt)))}} {
			rec(n+1, strings.TrimPrefix(name+", "+fname+" "+c.n, ", "), bAnd(pc, c.g))
		}
	}
	rec(0, "", tTrue)
	return m
}

// keysOf: the fields of the elements a comparison looks at.
func keysOf(less *Term, elem types.Type) []int {
	stt, ok := elem.Underlying().(*types.Struct)
	if !ok {
		return []int{0}
	}
	S, i, _ := cmpSyms(elem)
	a := typed(mkOp("idx", S, i), elem)
	var ks []int
	for k := 0; k < stt.NumFields(); k++ {
		if contains(less, mkFld(a, k, stt.Field(k).Type())) {
			ks = append(ks, k)
		}
	}
	return ks
}

// sameOrder compares two comparisons; where the specification leaves two elements
// tied, either order will do.
func (R *Report) sameOrder(rule, construct, pos string, got, want *Term, elem types.Type) {
	keys := keysOf(want, elem)
	w, g := orderTable(want, elem, keys), orderTable(got, elem, keys)
	var names []string
	for n := range w {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if !strings.Contains(n, "less") && !strings.Contains(n, "more") {
			continue
		}
		R.check(g[n] == w[n], rule, construct+": "+n, pos, "the first of two such elements "+beforeText(g[n])+", it has to be that it "+beforeText(w[n]))
	}
}

func beforeText(t *Term) string {
	switch {
	case t == tTrue:
		return "goes first"
	case t == tFalse:
		return "does not go first"
	}
	return "goes first when " + cleanTerm(showN(t, 6))
}

func checkOrdered(R *Report) {
	for _, sub := range []string{"Threads", "Objects"} {
		ts := R.printed(sub)
		if ts == nil {
			return
		}
		for k, g := range ts.cases() {
			ref := visible(within(ts.run["Ref"].text, g), false)
			spec := sortedAll(ref)
			if len(spec) != 1 {
				R.fail("order", sub+": "+k, "-", "the specification has no single order")
				continue
			}
			list := spec[0].args[0]
			elem := list.typ.Underlying().(*types.Slice).Elem()
			for _, form := range []string{"Plain", "Color", "Html"} {
				t := ts.run[form]
				txt := visible(within(t.text, g), form == "Html")
				srt, raw, other := sortedIn(txt, list)
				name := t.name + ": " + k
				for _, s := range srt {
					R.sameOrder("order", name, t.pos, s.args[1], spec[0].args[1], elem)
				}
				d := ""
				for _, x := range append(raw, other...) {
					d = cleanTerm(showN(x, 4)) + " is printed, not the elements of the sorted list in turn"
				}
				if len(srt) == 0 {
					d = "prints nothing from the sorted list"
				}
				R.check(d == "", "in-turn", name, t.pos, d)
			}
		}
	}
	R.atLeast("in-turn", 9)
	R.atLeast("order", 100)
	p := R.runPair("summary.GetSummary", "summary.njRefSummary", func(it *Interp) { it.okAll = true })
	if p == nil {
		return
	}
	got, want := sortedAll(p.fv), sortedAll(p.rv)
	if len(want) == 1 {
		R.check(len(got) > 0, "in-turn", "summary.GetSummary: properties", p.pos, "the properties are not sorted")
		for _, s := range got {
			R.sameOrder("order", "summary.GetSummary: properties", p.pos, s.args[1], want[0].args[1], types.Typ[types.String])
		}
	} else {
		R.fail("order", "summary", "-", "the specification has no single order")
	}
}

func sortedAll(t *Term) []*Term {
	var res []*Term
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.k == KOp && x.op == "sorted" {
			res = appendNew(res, x)
		}
		for _, a := range x.args {
			rec(a)
		}
		for _, c := range x.cases {
			rec(c.kid)
		}
	}
	rec(t)
	return res
}

// bodies calls f for every straight text in t: each case of t and of the bodies of
// its loops, with the parts in order. f returns what it knows at the end of a part.
func leavesOf(t *Term) []*Term {
	var ls []*Term
	mapLeaves(t, func(l *Term) *Term {
		if l.k != KBot {
			ls = append(ls, l)
		}
		return l
	})
	return ls
}

func partsOf(l *Term) []*Term {
	if l.k == KOp && l.op == "cat" {
		return l.args
	}
	return []*Term{l}
}

// colourFaults walks a coloured text: every colour that is switched on is switched
// off before the line ends, in every case and every loop.
func colourFaults(t *Term, faults map[string]bool, n *int) {
	for on := range colourWalk(t, "", faults, n) {
		if on != "" {
			faults["colour "+strconv.Quote(on)+" is never switched off"] = true
		}
	}
}

// colourWalk: the colours that may be on behind t.
func colourWalk(t *Term, from string, faults map[string]bool, n *int) map[string]bool {
	ends := map[string]bool{}
	for _, l := range leavesOf(t) {
		ons := map[string]bool{from: true}
		for _, p := range partsOf(l) {
			for p.k == KOp && p.op == "padded" {
				p = p.args[1]
			}
			next := map[string]bool{}
			for on := range ons {
				switch {
				case p.k == KStr:
					next[colourStep(p.op, on, faults, n)] = true
				case p.k == KOp && p.op == "alt":
					for e := range colourWalk(p.args[0], on, faults, n) {
						next[e] = true
					}
				case p.k == KOp && p.op == "catfor":
					if on != "" {
						faults["colour "+strconv.Quote(on)+" is still on where a list begins"] = true
					}
					colourFaults(p.args[2], faults, n)
					next[""] = true
				default:
					next[on] = true
				}
			}
			ons = next
		}
		for on := range ons {
			ends[on] = true
		}
	}
	return ends
}

func colourStep(s, on string, faults map[string]bool, n *int) string {
	for s != "" {
		if loc := ansi.FindStringIndex(s); loc != nil && loc[0] == 0 {
			*n++
			if c := s[:loc[1]]; c == "\x1b[0m" || c == "\x1b[m" {
				on = ""
			} else {
				on = c
			}
			s = s[loc[1]:]
			continue
		}
		if s[0] == '\x1b' {
			faults["an incomplete control sequence is printed"] = true
		}
		if s[0] == '\n' && on != "" {
			faults["colour "+strconv.Quote(on)+" is still on at the end of a line"] = true
			on = ""
		}
		s = s[1:]
	}
	return on
}

// controlFaults: no control codes in a text without colours.
func controlFaults(t *Term, faults map[string]bool, n *int) {
	for _, l := range leavesOf(t) {
		for _, p := range partsOf(l) {
			for p.k == KOp && (p.op == "padded" || p.op == "esc" || p.op == "htmlesc") {
				p = p.args[len(p.args)-1]
			}
			*n++
			switch {
			case p.k == KStr:
				for i := 0; i < len(p.op); i++ {
					if c := p.op[i]; c < ' ' && c != '\n' && c != '\t' && c != '\r' || c == 0x7f {
						faults["control code "+strconv.Quote(p.op[i:min(i+5, len(p.op))])+" is printed"] = true
					}
				}
			case p.k == KOp && p.op == "catfor":
				controlFaults(p.args[2], faults, n)
			case p.k == KOp && p.op == "alt":
				controlFaults(p.args[0], faults, n)
			}
		}
	}
}

func (R *Report) faults(rule, construct, pos string, faults map[string]bool, n int) {
	var fs []string
	for f := range faults {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	R.check(len(fs) == 0 && n > 0, rule, construct, pos, strings.Join(fs, "; "))
}

func checkColours(R *Report) {
	for _, sub := range []string{"Threads", "Summary", "Objects"} {
		ts := R.printed(sub)
		if ts == nil {
			return
		}
		for k, g := range ts.cases() {
			for _, form := range []string{"Plain", "Html", "Color"} {
				t := ts.run[form]
				fs, n := map[string]bool{}, 0
				if form == "Color" {
					colourFaults(within(t.text, g), fs, &n)
					R.faults("switched-off", t.name+": "+k, t.pos, fs, n)
					got := visible(unordered(within(t.text, g)), false)
					want := visible(unordered(within(ts.run["Plain"].text, g)), false)
					R.check(eqUnder(g, got, want), "same-text", t.name+": "+k, t.pos, diffText(got, want))
				} else {
					controlFaults(within(t.text, g), fs, &n)
					R.faults("no-codes", t.name+": "+k, t.pos, fs, n)
				}
			}
		}
	}
	R.atLeast("switched-off", 4)
	R.atLeast("same-text", 4)
	R.atLeast("no-codes", 8)
}

// page is where a reader of the page is.
type page struct {
	open  string // open elements, each with a space behind it
	tag   string // the tag read so far, with its <
	quote byte   // inside a quoted attribute
	raw   string // inside an element without markup (style, script, title)
	note  string // inside a comment or declaration
}

var voidTags = map[string]bool{"meta": true, "link": true, "br": true, "hr": true, "img": true, "input": true, "col": true, "wbr": true, "base": true, "source": true, "area": true, "embed": true, "track": true}
var optionalEnd = map[string]bool{"p": true, "li": true, "td": true, "th": true, "tr": true, "dt": true, "dd": true, "thead": true, "tbody": true, "tfoot": true, "option": true, "colgroup": true}

func (g *page) pop(name string) bool {
	os := strings.Fields(g.open)
	for i := len(os) - 1; i >= 0; i-- {
		if os[i] == name {
			g.open = strings.Join(os[:i], " ")
			return true
		}
		if !optionalEnd[os[i]] {
			return false
		}
	}
	return false
}

// settled drops the elements whose end may be left out.
func (g page) settled() page {
	os := strings.Fields(g.open)
	for len(os) > 0 && optionalEnd[os[len(os)-1]] {
		os = os[:len(os)-1]
	}
	g.open = strings.Join(os, " ")
	return g
}

func (g *page) read(s string, faults map[string]bool) {
	for s != "" {
		c := s[0]
		switch {
		case g.note != "":
			if strings.HasPrefix(s, g.note) {
				s = s[len(g.note):]
				g.note = ""
				continue
			}
		case g.tag != "":
			if g.quote != 0 {
				if c == g.quote {
					g.quote = 0
				}
			} else if c == '"' || c == '\'' {
				g.quote = c
			} else if c == '>' {
				g.close(faults)
				s = s[1:]
				continue
			}
			g.tag += string(c)
		case g.raw != "":
			if len(s) > len(g.raw)+1 && strings.EqualFold(s[:len(g.raw)+2], "</"+g.raw) {
				g.raw = ""
				g.tag = "<"
			}
		case strings.HasPrefix(s, "<!--"):
			g.note = "-->"
		case strings.HasPrefix(s, "<!"):
			g.note = ">"
		case c == '<':
			g.tag = "<"
		}
		s = s[1:]
	}
}

func (g *page) close(faults map[string]bool) {
	t := g.tag[1:]
	g.tag = ""
	end := strings.HasPrefix(t, "/")
	self := strings.HasSuffix(t, "/")
	t = strings.TrimPrefix(t, "/")
	name := strings.ToLower(strings.FieldsFunc(t+" ", func(r rune) bool { return r == ' ' || r == '\n' || r == '\t' || r == '/' || r == '\r' })[0])
	switch {
	case end:
		if !g.pop(name) {
			faults["</"+name+"> closes nothing (open: "+g.open+")"] = true
		}
	case self || voidTags[name]:
	default:
		g.open = strings.TrimSpace(g.open + " " + name)
		if name == "style" || name == "script" || name == "title" || name == "textarea" {
			g.raw = name
		}
	}
}

func pageFaults(t *Term, at page, faults map[string]bool, n *int) (ends []page) {
	add := func(to []page, g page) []page {
		for _, x := range to {
			if x == g {
				return to
			}
		}
		return append(to, g)
	}
	for _, l := range leavesOf(t) {
		gs := []page{at}
		for _, p := range partsOf(l) {
			for p.k == KOp && p.op == "padded" {
				p = p.args[1]
			}
			var next []page
			for _, g := range gs {
				switch {
				case p.k == KStr:
					g.read(p.op, faults)
				case p.k == KOp && p.op == "catfor":
					for _, e := range pageFaults(p.args[2], g, faults, n) {
						if e.settled() != g.settled() {
							faults["one round of a list leaves open ["+e.open+"] where it found ["+g.open+"]"] = true
						}
					}
				case p.k == KOp && p.op == "alt":
					for _, e := range pageFaults(p.args[0], g, faults, n) {
						next = add(next, e)
					}
					continue
				case p.k == KOp && p.op == "itoa" || p.k == KOp && p.op == "esc":
					*n++
				case p.k == KOp && p.op == "htmlesc":
					*n++
					if g.raw == "style" || g.raw == "script" || g.note != "" || g.tag != "" && g.quote == 0 {
						faults["an escaped text stands where escaping does not protect: "+cleanTerm(showN(p, 4))] = true
					}
				case p.k == KOp && p.op == "ext:strings.Repeat" && p.args[0].k == KStr && !strings.ContainsAny(p.args[0].op, "<>"):
				default:
					faults["written without escaping: "+cleanTerm(showN(p, 4))] = true
				}
				next = add(next, g)
			}
			gs = next
		}
		for _, g := range gs {
			ends = add(ends, g)
		}
	}
	return
}

func checkPages(R *Report) {
	for _, sub := range []string{"Threads", "Summary", "Objects"} {
		ts := R.printed(sub)
		if ts == nil {
			return
		}
		t := ts.run["Html"]
		fs, n := map[string]bool{}, 0
		ends := pageFaults(t.text, page{}, fs, &n)
		esc, bal := map[string]bool{}, map[string]bool{}
		for f := range fs {
			if strings.Contains(f, "escap") {
				esc[f] = true
			} else {
				bal[f] = true
			}
		}
		for _, e := range ends {
			if e.settled() != (page{}) {
				bal["the page ends inside ["+e.open+e.tag+e.raw+"]"] = true
			}
		}
		R.faults("escaped", t.name, t.pos, esc, n)
		R.faults("closed", t.name, t.pos, bal, len(ends))
	}
	R.atLeast("escaped", 3)
	R.atLeast("closed", 3)
}

const textText = "Every printing function of the package output (plain, coloured, HTML; threads, summary, objects) is analysed over an unknown report; the text it writes is a term: constants, values, texts of loops, by case. HTML templates are read from their embedded sources and analysed with their data. "

func init() {
	props["C15"] = propCheck{checkColours, textText + "In the coloured text a colour switched on has to be switched off before the line ends, a list begins or the text ends, in every case and in every round of every loop, and without its colours, padding and punctuation it has to be the plain text. Plain and HTML text must contain no control codes."}
	props["C16"] = propCheck{checkPages, textText + "Every value in the page that is no number has to pass through the escaping of html/template (not lifted by its types for trusted text). Tags are followed through constants, cases and loops: every end tag has to close the element that is open, every round of a loop has to leave open what it found open, and the page has to end with everything closed."}
	props["C26"] = propCheck{checkOrdered, textText + "The elements a report prints have to be those of the sorted list, in turn; the comparison it is sorted by is tabulated over all ways two elements can compare in the keys (less, equal, more in each) and has to answer as specified wherever the keys differ."}
	props["C29"] = propCheck{checkPrinted, textText + "Without padding, punctuation, colours and markup it has to be the text of a specification that writes every entry of the report with each of its values: the same values under the same conditions, in the same order, in every round of every loop, each apart from the next."}
}
