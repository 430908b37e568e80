package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C27"] = propCheck{checkRaces, "Every go statement of the program is followed: the code its goroutine runs (call graph by variable-type analysis, function values included) against the code that can run at the same time, which is what comes after the go statement in the functions that start it and in their callers, up to the call that stops it. A location the goroutine can get at from outside (captured variables, arguments, globals, and the fields, elements and map entries reached from them) that one side writes must be accessed by both sides atomically or under one mutex. Waiting is decided on the control-flow graph: whoever sends on an unbuffered channel, or waits for a group or a channel, needs a partner that cannot return, and cannot run on for ever, without answering; stopping happens at most once; and after the stop nothing of the goroutine runs that writes output."}
}

// conc is what the analysis of concurrent code needs of the program.
type conc struct {
	P     *Program
	fns   map[*ssa.Function]bool
	out   map[ssa.CallInstruction][]*ssa.Function
	succ  map[*ssa.Function][]*ssa.Function
	reach map[*ssa.Function]map[*ssa.Function]bool
	sites map[*ssa.Function][]ssa.CallInstruction // calls of f
}

func newConc(P *Program) *conc {
	c := &conc{P: P, fns: map[*ssa.Function]bool{}, out: map[ssa.CallInstruction][]*ssa.Function{}, succ: map[*ssa.Function][]*ssa.Function{}, reach: map[*ssa.Function]map[*ssa.Function]bool{}, sites: map[*ssa.Function][]ssa.CallInstruction{}}
	fns := c.fns
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || fns[f] || len(f.Blocks) == 0 || P.isRef(f) {
			return
		}
		fns[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && (g.Synthetic != "" || g.Parent() != nil) {
						add(g)
					}
				}
			}
		}
	}
	for _, f := range P.all {
		add(f)
	}
	g := vta.CallGraph(fns, nil)
	g = vta.CallGraph(fns, g) // once more, with what it found
	for f, n := range g.Nodes {
		if f == nil || !fns[f] {
			continue
		}
		for _, e := range n.Out {
			if e.Site != nil && e.Callee.Func != nil && fns[e.Callee.Func] {
				c.edge(f, e.Site, e.Callee.Func)
			}
		}
	}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if fn := call.Common().StaticCallee(); fn != nil && fns[fn] {
					c.edge(f, call, fn)
					continue
				}
				if len(c.out[call]) > 0 {
					continue
				}
				// a function handed to code outside of the program may be called there
				for _, a := range call.Common().Args {
					for _, h := range funcsOf(a, 0) {
						if fns[h] {
							c.edge(f, call, h)
						}
					}
				}
			}
		}
	}
	return c
}

func funcsOf(v ssa.Value, d int) []*ssa.Function {
	if d > 4 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.MakeInterface:
		return funcsOf(x.X, d+1)
	case *ssa.ChangeType:
		return funcsOf(x.X, d+1)
	case *ssa.Phi:
		var fs []*ssa.Function
		for _, e := range x.Edges {
			fs = append(fs, funcsOf(e, d+1)...)
		}
		return fs
	}
	return nil
}

func (c *conc) edge(f *ssa.Function, site ssa.CallInstruction, g *ssa.Function) {
	for _, h := range c.out[site] {
		if h == g {
			return
		}
	}
	c.out[site] = append(c.out[site], g)
	c.succ[f] = append(c.succ[f], g)
	c.sites[g] = append(c.sites[g], site)
}

// from: the functions f can run, go statements in it aside.
func (c *conc) from(f *ssa.Function) map[*ssa.Function]bool {
	if r := c.reach[f]; r != nil {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var rec func(*ssa.Function)
	rec = func(g *ssa.Function) {
		if seen[g] {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					for _, h := range c.out[call] {
						rec(h)
					}
				}
			}
		}
	}
	rec(f)
	c.reach[f] = seen
	return seen
}

// loc is a memory location, as far as two goroutines may share it.
type loc struct {
	base any // *types.Var of a field, *ssa.Global, *ssa.Alloc, or a type
	sub  string
}

func (l loc) String() string {
	s := ""
	switch b := l.base.(type) {
	case *types.Var:
		s = "field " + b.Name()
		if b.Pkg() != nil {
			s = "field " + b.Pkg().Name() + "." + b.Name()
		}
	case *ssa.Global:
		s = "global " + b.Pkg.Pkg.Name() + "." + b.Name()
	case *ssa.Alloc:
		s = "variable " + b.Comment
	case types.Type:
		s = "a " + types.TypeString(b, func(p *types.Package) string { return p.Name() })
	}
	if l.sub != "" {
		s += " (" + l.sub + ")"
	}
	return s
}

type access struct {
	l      loc
	write  bool
	atomic bool
	locks  map[string]bool
	in     ssa.Instruction
}

// addrLoc names the location an address points to; base is what it is in.
func (c *conc) addrLoc(v ssa.Value, d int) (l loc, base ssa.Value) {
	if d > 12 {
		return loc{v.Type(), ""}, v
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return loc{st.Field(x.Field), ""}, x.X
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return c.addrLoc(x.X, d+1)
		}
		l, b := c.valLoc(x.X, d+1)
		return loc{l.base, "elements"}, b
	case *ssa.Global:
		return loc{x, ""}, x
	case *ssa.Alloc:
		return loc{x, ""}, x
	case *ssa.FreeVar:
		if b := binding(x); len(b) == 1 {
			return c.addrLoc(b[0], d+1)
		}
		return loc{x.Type(), ""}, x
	}
	return loc{v.Type().Underlying(), ""}, v
}

// valLoc names where a reference comes from.
func (c *conc) valLoc(v ssa.Value, d int) (loc, ssa.Value) {
	if d > 12 {
		return loc{v.Type(), ""}, v
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return c.addrLoc(x.X, d+1)
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return c.addrLoc(x.X, d+1)
		}
		return c.valLoc(x.X, d+1)
	case *ssa.ChangeType:
		return c.valLoc(x.X, d+1)
	case *ssa.MakeInterface:
		return c.valLoc(x.X, d+1)
	case *ssa.FreeVar:
		if b := binding(x); len(b) == 1 {
			return c.valLoc(b[0], d+1)
		}
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return loc{st.Field(x.Field), ""}, x.X
		}
	}
	return loc{v.Type(), ""}, v
}

// binding: what the closures made of a free variable's function bind it to.
func binding(fv *ssa.FreeVar) []ssa.Value {
	f := fv.Parent()
	k := -1
	for i, x := range f.FreeVars {
		if x == fv {
			k = i
		}
	}
	var out []ssa.Value
	if f.Referrers() != nil {
		for _, r := range *f.Referrers() {
			if mc, ok := r.(*ssa.MakeClosure); ok && k >= 0 {
				out = append(out, mc.Bindings[k])
			}
		}
	}
	if len(out) == 0 && f.Parent() != nil {
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && k >= 0 {
					out = append(out, mc.Bindings[k])
				}
			}
		}
	}
	return out
}

// ownedIn: the object v refers to was made in the function it is used in.
func ownedIn(v ssa.Value, d int) bool {
	if d > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return true
	case *ssa.FieldAddr:
		return ownedIn(x.X, d+1)
	case *ssa.IndexAddr:
		return ownedIn(x.X, d+1)
	case *ssa.Slice:
		return ownedIn(x.X, d+1)
	case *ssa.Const:
		return true
	case *ssa.Call:
		// append keeps what it is given; nothing else is known to be fresh
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return ownedIn(x.Call.Args[0], d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !ownedIn(e, d+3) {
				return false
			}
		}
		return true
	}
	return false
}

// captured: a local variable that closures share.
func captured(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if _, ok := r.(*ssa.MakeClosure); ok {
			return true
		}
	}
	return false
}

// safeType: values that several goroutines may use at once.
func safeType(t types.Type) bool {
	s := t.String()
	for _, p := range []string{"*os.File", "sync.", "*sync.", "sync/atomic.", "*sync/atomic.", "context.", "*time.", "time.", "*log.Logger", "*regexp.Regexp", "*text/template.Template", "*html/template.Template", "os.FileInfo", "io/fs.FileInfo", "error", "reflect.Type"} {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func isAtomicCall(call ssa.CallInstruction) (write, ok bool) {
	fn := call.Common().StaticCallee()
	if fn == nil {
		return
	}
	n := fn.String()
	if o := fn.Origin(); o != nil {
		n = o.String()
	}
	if !strings.Contains(n, "sync/atomic") {
		return
	}
	return !strings.HasPrefix(fn.Name(), "Load"), true
}

// accesses lists what an instruction touches that others may touch too.
func (c *conc) accesses(in ssa.Instruction) []access {
	var out []access
	add := func(l loc, base ssa.Value, write, atomic bool) {
		if base != nil && ownedIn(base, 0) {
			if a, ok := l.base.(*ssa.Alloc); ok && captured(a) {
				// shared with closures
			} else if a, ok := base.(*ssa.Alloc); !ok || !captured(a) {
				return
			}
		}
		out = append(out, access{l: l, write: write, atomic: atomic, in: in})
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			if g, ok := x.X.(*ssa.Global); ok && c.P.consts[g] {
				return nil
			}
			l, b := c.addrLoc(x.X, 0)
			add(l, b, false, false)
		}
	case *ssa.Store:
		l, b := c.addrLoc(x.Addr, 0)
		add(l, b, true, false)
	case *ssa.MapUpdate:
		l, b := c.valLoc(x.Map, 0)
		add(loc{l.base, "entries"}, own(x.Map, b), true, false)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			l, b := c.valLoc(x.X, 0)
			add(loc{l.base, "entries"}, own(x.X, b), false, false)
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			l, b := c.valLoc(x.X, 0)
			add(loc{l.base, "entries"}, own(x.X, b), false, false)
		}
	}
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return out
	}
	cc := call.Common()
	if b, isB := cc.Value.(*ssa.Builtin); isB {
		switch b.Name() {
		case "append", "copy":
			l, base := c.valLoc(cc.Args[0], 0)
			add(loc{l.base, "elements"}, own(cc.Args[0], base), true, false)
			if len(cc.Args) > 1 {
				l, base = c.valLoc(cc.Args[1], 0)
				add(loc{l.base, "elements"}, own(cc.Args[1], base), false, false)
			}
		case "delete", "clear":
			l, base := c.valLoc(cc.Args[0], 0)
			add(loc{l.base, "entries"}, own(cc.Args[0], base), true, false)
		}
		return out
	}
	if w, ok := isAtomicCall(call); ok && len(cc.Args) > 0 {
		l, b := c.addrLoc(cc.Args[0], 0)
		add(l, b, w, true)
		return out
	}
	if len(c.out[call]) > 0 {
		return out
	}
	// outside of the program: what is handed over by reference may be changed
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for _, a := range args {
		switch a.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			x := a
			if mi, ok := a.(*ssa.MakeInterface); ok {
				x = mi.X
				if _, ok := x.Type().Underlying().(*types.Pointer); !ok {
					continue
				}
			}
			if safeType(x.Type()) {
				continue
			}
			l, b := c.valLoc(x, 0)
			if ownedIn(x, 0) {
				continue
			}
			add(loc{l.base, "what it refers to"}, b, true, false)
		}
	}
	return out
}

func own(v, base ssa.Value) ssa.Value {
	if ownedIn(v, 0) {
		return v
	}
	return base
}

// locksAt: the mutexes held at each instruction of f, by where they live.
func (c *conc) locksAt(f *ssa.Function) map[ssa.Instruction]map[string]bool {
	in := map[*ssa.BasicBlock]map[string]bool{}
	res := map[ssa.Instruction]map[string]bool{}
	if len(f.Blocks) == 0 {
		return res
	}
	in[f.Blocks[0]] = map[string]bool{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		held := map[string]bool{}
		for k := range in[b] {
			held[k] = true
		}
		for _, i := range b.Instrs {
			snap := map[string]bool{}
			for k := range held {
				snap[k] = true
			}
			res[i] = snap
			call, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			fn := call.Call.StaticCallee()
			if fn == nil || !strings.HasPrefix(fn.String(), "(*sync.") || len(call.Call.Args) == 0 {
				continue
			}
			l, _ := c.addrLoc(call.Call.Args[0], 0)
			k := fmt.Sprintf("%p", l.base)
			switch fn.Name() {
			case "Lock":
				held[k], held[k+"r"] = true, true
			case "RLock":
				held[k+"r"] = true
			case "Unlock", "RUnlock":
				delete(held, k)
				delete(held, k+"r")
			}
		}
		for _, s := range b.Succs {
			old, ok := in[s]
			if !ok {
				n := map[string]bool{}
				for k := range held {
					n[k] = true
				}
				in[s] = n
				work = append(work, s)
				continue
			}
			changed := false
			for k := range old {
				if !held[k] {
					delete(old, k)
					changed = true
				}
			}
			if changed {
				work = append(work, s)
			}
		}
	}
	return res
}

// side collects the accesses of one side: some instructions and all that the
// functions they call do.
type side struct {
	c    *conc
	accs []access
	fns  map[*ssa.Function]bool
	lks  map[*ssa.Function]map[ssa.Instruction]map[string]bool
	ctx  map[string]map[string]bool
}

func (c *conc) newSide() *side {
	return &side{c: c, fns: map[*ssa.Function]bool{}, lks: map[*ssa.Function]map[ssa.Instruction]map[string]bool{}}
}

func (s *side) instr(in ssa.Instruction, held map[string]bool) {
	f := in.Parent()
	if s.lks[f] == nil {
		s.lks[f] = s.c.locksAt(f)
	}
	all := map[string]bool{}
	for k := range held {
		all[k] = true
	}
	for k := range s.lks[f][in] {
		all[k] = true
	}
	for _, a := range s.c.accesses(in) {
		a.locks = all
		s.accs = append(s.accs, a)
	}
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	if _, isGo := in.(*ssa.Go); isGo {
		all = nil
	}
	for _, g := range s.c.out[call] {
		s.fn(g, all)
	}
}

func (s *side) fn(g *ssa.Function, held map[string]bool) {
	// a function is looked at once for each set of locks it is called with
	var ks []string
	for k := range held {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	key := g.String() + "|" + strings.Join(ks, ",")
	if s.ctx == nil {
		s.ctx = map[string]map[string]bool{}
	}
	if s.ctx[key] != nil {
		return
	}
	s.ctx[key] = map[string]bool{}
	s.fns[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			s.instr(in, held)
		}
	}
}

// follows: the ways an If may go once start has run, as far as that is known:
// its condition is one that start depends on, or asks whether a function that
// was set on the way is there.
func follows(start ssa.Instruction, br *ssa.If) (yes, no bool) {
	same := func(a, b ssa.Value) (bool, bool) { // equal, negated
		neg := false
		strip := func(v ssa.Value) ssa.Value {
			for {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					return v
				}
				neg, v = !neg, u.X
			}
		}
		a, b = strip(a), strip(b)
		if a == b {
			return true, neg
		}
		x, ok1 := a.(*ssa.BinOp)
		y, ok2 := b.(*ssa.BinOp)
		if ok1 && ok2 && x.X == y.X {
			j, ok1 := x.Y.(*ssa.Const)
			k, ok2 := y.Y.(*ssa.Const)
			if x.Y == y.Y || ok1 && ok2 && j.String() == k.String() {
				if x.Op == y.Op {
					return true, neg
				}
				if x.Op == token.EQL && y.Op == token.NEQ || x.Op == token.NEQ && y.Op == token.EQL {
					return true, !neg
				}
			}
		}
		return false, false
	}
	if br.Block().Succs[0] == br.Block().Succs[1] {
		return true, true
	}
	for b := start.Block(); b != nil; b = b.Idom() {
		p := b.Idom()
		if p == nil || len(b.Preds) != 1 || b.Preds[0] != p {
			continue
		}
		if at, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && !reaches(br, at) {
			if eq, neg := same(at.Cond, br.Cond); eq {
				took := (p.Succs[0] == b) != neg
				return took, !took
			}
		}
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
		return true, true
	}
	phi, ok := cmp.X.(*ssa.Phi)
	k, ok2 := cmp.Y.(*ssa.Const)
	if !ok || !ok2 || !k.IsNil() {
		return true, true
	}
	if _, ok := phi.Type().Underlying().(*types.Signature); !ok || phi.Block().Dominates(start.Block()) {
		return true, true
	}
	seen := map[*ssa.BasicBlock]bool{start.Block(): true}
	work := []*ssa.BasicBlock{start.Block()}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	set := false
	for i, e := range phi.Edges {
		if !seen[phi.Block().Preds[i]] {
			continue
		}
		if k, ok := e.(*ssa.Const); ok && k.IsNil() {
			return true, true
		}
		set = true
	}
	if !set {
		return true, true
	}
	return cmp.Op == token.NEQ, cmp.Op == token.EQL
}

// after: the instructions of f that can run after in, as far as stop says.
func after(in ssa.Instruction, stop func(ssa.Instruction) bool) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[*ssa.BasicBlock]bool{}
	var block func(b *ssa.BasicBlock, k int)
	block = func(b *ssa.BasicBlock, k int) {
		for _, i := range b.Instrs[k:] {
			out = append(out, i)
			if stop != nil && stop(i) {
				return
			}
		}
		for k, s := range b.Succs {
			if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && stop != nil {
				if yes, no := follows(in, br); k == 0 && !yes || k == 1 && !no {
					continue
				}
			}
			if !seen[s] {
				seen[s] = true
				block(s, 0)
			}
		}
	}
	b := in.Block()
	for k, i := range b.Instrs {
		if i == in {
			block(b, k+1)
		}
	}
	return out
}

func checkRaces(R *Report) {
	P := R.P
	c := newConc(P)
	var gos []*ssa.Go
	for _, f := range P.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					gos = append(gos, g)
				}
			}
		}
	}
	for _, g := range gos {
		c.checkGo(R, g)
	}
	R.check(true, "goroutines", fmt.Sprintf("%d go statements in %d functions", len(gos), len(P.all)), "-", "")
}

// makers: the channels a value may be.
func (c *conc) makers(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeChan:
			out = append(out, x)
		case *ssa.ChangeType:
			rec(x.X)
		case *ssa.MakeInterface:
			rec(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.FreeVar:
			for _, b := range binding(x) {
				rec(b)
			}
		case *ssa.Alloc:
			stored := false
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					rec(st.Val)
					stored = true
				}
			}
			if !stored {
				out = append(out, x)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				rec(x.X)
			} else {
				out = append(out, x)
			}
		case *ssa.FieldAddr:
			// a field: what is stored to it anywhere
			l, _ := c.addrLoc(x, 0)
			stored := false
			for f := range c.fns {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok {
							if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
								if m, _ := c.addrLoc(fa, 0); m == l {
									rec(st.Val)
									stored = true
								}
							}
						}
					}
				}
			}
			if !stored {
				out = append(out, fieldCell{x, l})
			}
		case *ssa.Parameter:
			k := -1
			for i, p := range x.Parent().Params {
				if p == x {
					k = i
				}
			}
			any := false
			for _, site := range c.sites[x.Parent()] {
				if as := site.Common().Args; !site.Common().IsInvoke() && len(as) == len(x.Parent().Params) && k >= 0 {
					rec(as[k])
					any = true
				}
			}
			if !any {
				out = append(out, x)
			}
		case *ssa.Call:
			any := false
			for _, g := range c.out[x] {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
							rec(r.Results[0])
							any = true
						}
					}
				}
			}
			if !any {
				out = append(out, x)
			}
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				for _, g := range c.out[call] {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if r, ok := in.(*ssa.Return); ok && len(r.Results) > x.Index {
								rec(r.Results[x.Index])
							}
						}
					}
				}
				if len(c.out[call]) == 0 {
					out = append(out, x)
				}
			}
		default:
			out = append(out, v)
		}
	}
	rec(v)
	return out
}

// fieldCell: a field nothing but its zero value is known to be stored in.
type fieldCell struct {
	*ssa.FieldAddr
	l loc
}

func (c *conc) meet(a, b ssa.Value) bool {
	for _, x := range c.makers(a) {
		for _, y := range c.makers(b) {
			if x == y {
				return true
			}
			fx, ok1 := x.(fieldCell)
			fy, ok2 := y.(fieldCell)
			if ok1 && ok2 && fx.l == fy.l {
				return true
			}
		}
	}
	return false
}

// op is something one goroutine waits for or tells others.
type op struct {
	kind string // send, recv, close, wait, done, add
	on   ssa.Value
	in   ssa.Instruction
	sel  *ssa.Select // the select it is one of several choices of
	idx  int
}

func (c *conc) ops(in ssa.Instruction) []op {
	switch x := in.(type) {
	case *ssa.Send:
		return []op{{kind: "send", on: x.Chan, in: in}}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return []op{{kind: "recv", on: x.X, in: in}}
		}
	case *ssa.Next:
		return nil
	case *ssa.Select:
		var out []op
		for i, st := range x.States {
			k := "send"
			if st.Dir == types.RecvOnly {
				k = "recv"
			}
			out = append(out, op{kind: k, on: st.Chan, in: in, sel: x, idx: i})
		}
		return out
	}
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	cc := call.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "close" {
		return []op{{kind: "close", on: cc.Args[0], in: in}}
	}
	if fn := cc.StaticCallee(); fn != nil && len(cc.Args) > 0 {
		switch fn.String() {
		case "(*sync.WaitGroup).Wait":
			return []op{{kind: "wait", on: cc.Args[0], in: in}}
		case "(*sync.WaitGroup).Done":
			return []op{{kind: "done", on: cc.Args[0], in: in}}
		}
	}
	// the cancel function of a context
	if ex, ok := cc.Value.(*ssa.Extract); ok && ex.Index == 1 {
		if k, ok := ex.Tuple.(*ssa.Call); ok {
			if fn := k.Call.StaticCallee(); fn != nil && strings.HasPrefix(fn.String(), "context.With") {
				return []op{{kind: "cancel", on: ex, in: in}}
			}
		}
	}
	return nil
}

// within lists what the code of the functions does to others.
func (c *conc) within(fns map[*ssa.Function]bool) []op {
	var out []op
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				out = append(out, c.ops(in)...)
			}
		}
	}
	return out
}

func unbuffered(v ssa.Value) bool {
	m, ok := v.(*ssa.MakeChan)
	if !ok {
		return false
	}
	k, ok := m.Size.(*ssa.Const)
	return ok && k.Int64() == 0
}

func (c *conc) unbuffered(v ssa.Value) bool {
	for _, m := range c.makers(v) {
		if !unbuffered(m) {
			return false
		}
	}
	return true
}

// meets: every way through f, from its start to a return, does what hit says;
// the first way that does not is returned.
func (c *conc) escapes(f *ssa.Function, hit func(ssa.Instruction, *ssa.BasicBlock) bool) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) ssa.Instruction
	rec = func(b *ssa.BasicBlock) ssa.Instruction {
		if seen[b] {
			return nil
		}
		seen[b] = true
		if hit(nil, b) {
			return nil
		}
		for _, in := range b.Instrs {
			if hit(in, b) {
				return nil
			}
			if _, ok := in.(*ssa.Return); ok {
				return in
			}
		}
		for _, s := range b.Succs {
			if r := rec(s); r != nil {
				return r
			}
		}
		return nil
	}
	return rec(f.Blocks[0])
}

// chosen: b is only reached when choice idx of sel was taken.
func chosen(b *ssa.BasicBlock, sel *ssa.Select, idx int) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(p.Instrs) == 0 || len(d.Preds) != 1 || d.Preds[0] != p {
			continue
		}
		br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] != d {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL {
			continue
		}
		ex, ok := cmp.X.(*ssa.Extract)
		if !ok || ex.Tuple != sel || ex.Index != 0 {
			continue
		}
		if k, ok := cmp.Y.(*ssa.Const); ok && int(k.Int64()) == idx {
			return true
		}
	}
	// a blocking select with one choice
	return sel.Blocking && len(sel.States) == 1 && sel.Block().Dominates(b) && b != sel.Block()
}

// says: from here on it is certain that f did the operation o.
func (c *conc) says(o op) func(in ssa.Instruction, b *ssa.BasicBlock) bool {
	return func(in ssa.Instruction, b *ssa.BasicBlock) bool {
		if o.sel == nil {
			return in == o.in
		}
		return in == nil && chosen(b, o.sel, o.idx)
	}
}

// always: f does one of the operations on every way to a return, itself, in a
// deferred call or in a function it calls.
func (c *conc) always(f *ssa.Function, match func(op) bool, d int) (bool, ssa.Instruction) {
	if d > 6 || len(f.Blocks) == 0 {
		return false, nil
	}
	esc := c.escapes(f, func(in ssa.Instruction, b *ssa.BasicBlock) bool {
		if in == nil {
			// the branch of a select
			for _, g := range f.Blocks {
				for _, i := range g.Instrs {
					if sel, ok := i.(*ssa.Select); ok {
						for _, o := range c.ops(sel) {
							if match(o) && chosen(b, sel, o.idx) {
								return true
							}
						}
					}
				}
			}
			return false
		}
		for _, o := range c.ops(in) {
			if o.sel == nil && match(o) {
				return true
			}
		}
		if call, ok := in.(ssa.CallInstruction); ok {
			if _, isGo := in.(*ssa.Go); isGo {
				return false
			}
			gs := c.out[call]
			for _, g := range gs {
				if ok, _ := c.always(g, match, d+1); !ok {
					return false
				}
			}
			return len(gs) > 0
		}
		return false
	})
	return esc == nil, esc
}

// endless: a loop of f that is never left and in which match does not come up.
func (c *conc) endless(f *ssa.Function, match func(op) bool) *ssa.BasicBlock {
	polls := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			for _, o := range c.ops(in) {
				if match(o) {
					return true
				}
			}
			if call, ok := in.(ssa.CallInstruction); ok {
				for _, g := range c.out[call] {
					if g != f {
						for _, o := range c.within(c.from(g)) {
							if match(o) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	// reach a return or a poll from every block
	good := map[*ssa.BasicBlock]bool{}
	for n := -1; n != len(good); {
		n = len(good)
		for _, b := range f.Blocks {
			ok := polls(b)
			switch b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return, *ssa.Panic:
				ok = true
			}
			for _, s := range b.Succs {
				ok = ok || good[s]
			}
			if ok {
				good[b] = true
			}
		}
	}
	for _, b := range f.Blocks {
		if !good[b] {
			return b
		}
	}
	return nil
}

// effects: in writes something others can see, itself or in what it calls.
func (c *conc) effects(in ssa.Instruction) bool {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	out := func(call ssa.CallInstruction) bool {
		fn := call.Common().StaticCallee()
		if fn == nil {
			return call.Common().IsInvoke() && strings.HasPrefix(call.Common().Method.Name(), "Write")
		}
		n := fn.String()
		return strings.HasPrefix(n, "(*os.File).Write") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "fmt.Print") || n == "io.WriteString" || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(*log.")
	}
	if out(call) {
		return true
	}
	for _, g := range c.out[call] {
		for h := range c.from(g) {
			for _, b := range h.Blocks {
				for _, i := range b.Instrs {
					if k, ok := i.(ssa.CallInstruction); ok && out(k) {
						return true
					}
				}
			}
		}
	}
	return false
}

func reaches(from, to ssa.Instruction) bool {
	for _, i := range after(from, nil) {
		if i == to {
			return true
		}
	}
	return false
}

func (c *conc) checkGo(R *Report, g *ssa.Go) {
	name := shortFn(g.Parent()) + ": go statement"
	pos := c.posOf(g)
	bodies := c.out[g]
	if !R.check(len(bodies) > 0, "goroutine", name, pos, "the function that is run is not known") {
		return
	}
	body := bodies[0]
	inG := map[*ssa.Function]bool{}
	a := c.newSide()
	for _, b := range bodies {
		for f := range c.from(b) {
			inG[f] = true
		}
		a.fn(b, nil)
	}
	gops := c.within(inG)
	has := func(kind string, on ssa.Value) (op, bool) {
		for _, o := range gops {
			if o.kind == kind && c.meet(o.on, on) {
				return o, true
			}
		}
		return op{}, false
	}

	// what tells the goroutine to stop, and what waits for it
	type stop struct {
		op
		sync bool // the goroutine is known to be over, or about to return
		why  string
	}
	var stops []stop
	for f := range c.fns {
		if inG[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range c.ops(in) {
					at := c.posOf(in)
					what := shortFn(f) + ": " + o.kind
					switch o.kind {
					case "send":
						r, ok := has("recv", o.on)
						if !ok {
							continue
						}
						match := func(x op) bool { return x.kind == "recv" && c.meet(x.on, o.on) }
						yes, esc := c.always(body, match, 0)
						d := ""
						if esc != nil {
							d = "the goroutine may return at " + c.posOf(esc) + " without receiving: the sender waits for ever"
						}
						unb := c.unbuffered(o.on)
						if unb && o.sel == nil {
							R.check(yes, "answered", what, at, d)
							R.check(c.endless(body, match) == nil, "answered", what+", loops", at, "the goroutine may go round for ever without receiving")
						}
						s := stop{op: o, sync: unb}
						if unb {
							// nothing is written between the receipt and the end
							for _, blk := range r.in.Parent().Blocks {
								if r.sel == nil && blk != r.in.Block() || r.sel != nil && !chosen(blk, r.sel, r.idx) {
									continue
								}
								first := blk.Instrs[0]
								rest := append([]ssa.Instruction{first}, after(first, nil)...)
								if r.sel == nil {
									rest = after(r.in, nil)
								}
								for _, i := range rest {
									if c.effects(i) {
										s.sync, s.why = false, "the goroutine still writes at "+c.posOf(i)+" after it was told to stop"
									}
								}
							}
						}
						stops = append(stops, s)
					case "close", "cancel":
						if _, ok := has("recv", o.on); ok || o.kind == "cancel" {
							stops = append(stops, stop{op: o})
						}
					case "wait":
						if _, ok := has("done", o.on); ok {
							yes, esc := c.always(body, func(x op) bool { return x.kind == "done" && c.meet(x.on, o.on) }, 0)
							d := "the goroutine may end without telling: the waiter waits for ever"
							if esc != nil {
								d = "the goroutine may return at " + c.posOf(esc) + " without telling: the waiter waits for ever"
							}
							R.check(yes, "answered", what, at, d)
							stops = append(stops, stop{op: o, sync: yes})
						}
					case "recv":
						_, snd := has("send", o.on)
						_, cls := has("close", o.on)
						if snd || cls {
							yes, esc := c.always(body, func(x op) bool { return (x.kind == "send" || x.kind == "close") && c.meet(x.on, o.on) }, 0)
							d := "the goroutine may end without answering: the receiver waits for ever"
							if esc != nil {
								d = "the goroutine may return at " + c.posOf(esc) + " without answering: the receiver waits for ever"
							}
							if o.sel == nil {
								R.check(yes, "answered", what, at, d)
							}
							stops = append(stops, stop{op: o, sync: yes && o.sel == nil})
						}
					}
				}
			}
		}
	}
	writes := false
	for f := range inG {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				writes = writes || c.effects(in)
			}
		}
	}
	var sync []stop
	why := "nothing waits for it to end"
	for _, s := range stops {
		if s.sync {
			sync = append(sync, s)
		} else if s.why != "" {
			why = s.why
		}
	}
	if writes {
		R.check(len(sync) > 0, "stopped", name, pos, "the goroutine may write on while the report is written: "+why)
	}
	// whoever is told to stop, or waited for, was started
	for _, s := range stops {
		f := s.in.Parent()
		var from ssa.Instruction
		if f == g.Parent() {
			from = s.in
		} else {
			for _, b := range g.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						from = in
					}
				}
			}
		}
		if from == nil || s.kind == "close" || s.kind == "cancel" || s.kind == "wait" {
			continue
		}
		// a way to it, and from it to a return, without the go statement
		before := c.escapesTo(g.Parent(), g, from)
		behind := false
		for _, i := range after(from, func(i ssa.Instruction) bool { return i == g }) {
			if _, ok := i.(*ssa.Return); ok {
				behind = true
			}
		}
		if f == g.Parent() {
			behind = true
		}
		R.check(!(before && behind), "started", shortFn(f)+": "+s.kind, c.posOf(s.in), "waits for a goroutine that is not always started")
	}

	// the stop in the code that runs the goroutine
	isSync := func(in ssa.Instruction) bool {
		for _, s := range sync {
			if s.in == in {
				return true
			}
		}
		return false
	}
	stopFns := map[*ssa.Function]bool{}
	tells := map[*ssa.Function]bool{}
	for _, s := range stops {
		if f := s.in.Parent(); f != g.Parent() {
			_, answers := has("send", s.on)
			if s.kind == "send" || s.kind == "close" || s.kind == "recv" && answers {
				tells[f] = true
			}
			if s.sync {
				if esc := c.escapes(f, func(in ssa.Instruction, _ *ssa.BasicBlock) bool { return in != nil && isSync(in) }); esc == nil {
					stopFns[f] = true
				}
			}
		}
	}
	idle := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Return, *ssa.DebugRef, *ssa.Jump:
				default:
					return false
				}
			}
		}
		return true
	}
	callsStop := func(in ssa.Instruction) bool {
		if isSync(in) {
			return true
		}
		call, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		any := false
		for _, h := range c.out[call] {
			if stopFns[h] {
				any = true
			} else if !idle(h) {
				return false
			}
		}
		return any
	}
	isStop := func(in ssa.Instruction) bool {
		if _, ok := in.(*ssa.Defer); ok {
			return false
		}
		return callsStop(in)
	}
	// functions that stop it, or tell it to stop, by means of others
	for n := -1; n != len(stopFns)+len(tells); {
		n = len(stopFns) + len(tells)
		for f := range c.fns {
			if inG[f] || c.from(f)[g.Parent()] {
				continue
			}
			for _, in := range instrsOf(f) {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if fn := call.Common().StaticCallee(); fn != nil && fn.String() == "(*sync.Once).Do" {
					continue
				}
				for _, h := range c.out[call] {
					if tells[h] {
						tells[f] = true
					}
				}
			}
			if !stopFns[f] {
				some := false
				if esc := c.escapes(f, func(in ssa.Instruction, _ *ssa.BasicBlock) bool {
					if in == nil {
						return false
					}
					hit := callsStop(in)
					some = some || hit
					return hit
				}); esc == nil && some {
					stopFns[f] = true
				}
			}
		}
	}

	// what runs at the same time
	b := c.newSide()
	type visit struct {
		f       *ssa.Function
		handled bool
	}
	done := map[visit]bool{}
	// until: what a call that stops it does before that
	var until func(in ssa.Instruction, seen map[*ssa.Function]bool)
	until = func(in ssa.Instruction, seen map[*ssa.Function]bool) {
		call, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		for _, h := range c.out[call] {
			if seen[h] || len(h.Blocks) == 0 {
				continue
			}
			seen[h] = true
			first := h.Blocks[0].Instrs[0]
			for _, i := range append([]ssa.Instruction{first}, after(first, isStop)...) {
				if isStop(i) {
					until(i, seen)
				} else {
					b.instr(i, nil)
				}
				if first == i && isStop(i) {
					break
				}
			}
		}
	}
	// handled: one of the functions further in has the stop in its hands
	var region func(start ssa.Instruction, handled bool)
	region = func(start ssa.Instruction, handled bool) {
		f := start.Parent()
		rest := after(start, isStop)
		live, stopped := false, 0
		for _, in := range rest {
			if isStop(in) {
				stopped++
				until(in, map[*ssa.Function]bool{})
				continue
			}
			b.instr(in, nil)
			if _, ok := in.(*ssa.Return); ok {
				live = true
			}
		}
		ends := false // stopped by a deferred call
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				if d, ok := in.(*ssa.Defer); ok {
					if callsStop(d) {
						ends = true
						stopped++
						until(d, map[*ssa.Function]bool{})
						continue
					}
					for _, h := range c.out[d] {
						b.fn(h, nil)
					}
				}
			}
		}
		// told at most once
		var tell []ssa.Instruction
		for _, in := range append([]ssa.Instruction{}, instrsOf(f)...) {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, h := range c.out[call] {
				if tells[h] && !inG[f] {
					tell = append(tell, in)
					break
				}
			}
		}
		for i, x := range tell {
			for j, y := range tell {
				_, dx := x.(*ssa.Defer)
				_, dy := y.(*ssa.Defer)
				if i == j && !dx && reaches(x, x) && !reaches(x, start) || i != j && !dx && !dy && reaches(x, y) || i != j && dx && !dy && (reaches(x, y) || reaches(y, x)) {
					R.fail("once", shortFn(f)+": stop", c.posOf(y), "the goroutine is told to stop a second time, after "+c.posOf(x)+": nobody answers any more")
				}
			}
		}
		if len(tell) > 0 {
			R.check(true, "once", shortFn(f)+": stop", pos, "")
		}
		// a success is only reported when it is over
		if writes && stopped > 0 && !ends {
			bad := ""
			for _, in := range rest {
				if r, ok := in.(*ssa.Return); ok && len(r.Results) > 0 {
					if isErrorType(r.Parent().Signature.Results().At(len(r.Results)-1).Type()) && maySucceed(r.Results[len(r.Results)-1], r.Block(), 0) {
						bad = "returns at " + c.posOf(r) + " without an error while the goroutine still runs"
					}
				}
			}
			R.check(bad == "", "stopped", shortFn(f), c.posOf(start), bad)
		}
		handled = handled || stopped > 0
		if !live || ends || done[visit{f, handled}] {
			return
		}
		done[visit{f, handled}] = true
		up := 0
		for _, site := range c.sites[f] {
			if !inG[site.Parent()] || site.Parent() == f {
				region(site, handled)
				up++
			}
		}
		if up == 0 && writes && !handled {
			R.fail("stopped", shortFn(f), c.posOf(start), "nothing from here on stops the goroutine, which may write on while the report is written")
		}
	}
	region(g, false)
	for f := range inG {
		R.fns[shortFn(f)] = true
	}
	for f := range b.fns {
		R.fns[shortFn(f)] = true
	}
	if reaches(g, g) {
		for _, h := range bodies {
			b.fn(h, nil)
		}
	}
	n := 0
	bad := map[loc]string{}
	for _, x := range a.accs {
		for _, y := range b.accs {
			if x.l != y.l || !x.write && !y.write || x.atomic && y.atomic || x.in == y.in && !reaches(g, g) {
				continue
			}
			n++
			common := false
			for k := range x.locks {
				r := strings.HasSuffix(k, "r")
				if y.locks[k] && (!r || x.locks[strings.TrimSuffix(k, "r")] || y.locks[strings.TrimSuffix(k, "r")]) {
					common = true
				}
			}
			if !common && bad[x.l] == "" {
				bad[x.l] = "accessed at " + c.posOf(x.in) + " in the goroutine and at " + c.posOf(y.in) + " beside it, with nothing that orders the two"
			}
		}
	}
	seen := map[loc]bool{}
	for _, x := range a.accs {
		if !seen[x.l] {
			seen[x.l] = true
			R.check(bad[x.l] == "", "shared", x.l.String(), c.posOf(x.in), bad[x.l])
		}
	}
}

// maySucceed: an error that is returned here can be nil.
func maySucceed(v ssa.Value, at *ssa.BasicBlock, d int) bool {
	if k, ok := v.(*ssa.Const); ok {
		return k.IsNil()
	}
	if nonNilAt(v, at) || d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			pre := x.Block().Preds[i]
			if br, ok := pre.Instrs[len(pre.Instrs)-1].(*ssa.If); ok && notNil(br, e, x.Block()) {
				continue
			}
			if maySucceed(e, pre, d+1) {
				return true
			}
		}
	case *ssa.Extract:
		return true
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil && (fn.String() == "fmt.Errorf" || fn.String() == "errors.New") {
			return false
		}
		for _, a := range x.Call.Args {
			if isErrorType(a.Type()) && !maySucceed(a, at, d+1) {
				return false // an error wrapped by a helper
			}
		}
		return true
	}
	return false
}

// nonNilAt: at is only reached where v was compared with nil and differs.
func nonNilAt(v ssa.Value, at *ssa.BasicBlock) bool {
	for b := at; b != nil; b = b.Idom() {
		p := b.Idom()
		if p == nil || len(b.Preds) != 1 || b.Preds[0] != p {
			continue
		}
		if br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && notNil(br, v, b) {
			return true
		}
	}
	return false
}

// notNil: the branch only goes to b when v differs from nil.
func notNil(br *ssa.If, v ssa.Value, b *ssa.BasicBlock) bool {
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.X != v && cmp.Y != v {
		return false
	}
	p := br.Block()
	if p.Succs[0] == p.Succs[1] {
		return false
	}
	k, ok := cmp.Y.(*ssa.Const)
	if !ok {
		k, ok = cmp.X.(*ssa.Const)
	}
	return ok && k.IsNil() && (cmp.Op == token.NEQ && p.Succs[0] == b || cmp.Op == token.EQL && p.Succs[1] == b)
}

func instrsOf(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range f.Blocks {
		out = append(out, b.Instrs...)
	}
	return out
}

// escapesTo: to can be reached from the start of f without passing by.
func (c *conc) escapesTo(f *ssa.Function, by, to ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if in == to {
				return true
			}
			if in == by {
				return false
			}
		}
		for _, s := range b.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(f.Blocks[0])
}

func (c *conc) posOf(in ssa.Instruction) string {
	f := in.Parent()
	p := in.Pos()
	for f != nil && !p.IsValid() {
		p = f.Pos()
		f = f.Parent()
	}
	q := c.P.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", trimRepo(q.Filename), q.Line)
}
