package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Flow analysis over go/ssa.  Functions are analysed in the context of their
// callers (so helpers are transparent); control-flow merges join values into
// decision nodes; loops are solved by widening loop-carried values to one
// unknown per loop, with affine relations and counted iteration recognised.
// ---------------------------------------------------------------------------

var debugTrace = os.Getenv("TRACE") != ""

// State is the abstract state on a control-flow edge.
type State struct {
	pc   *Term // condition under which the edge is taken
	heap tmap[*Term]
}

func (s State) dead() bool { return s.pc == tFalse || s.pc.k == KBot }

// Event is one effect met during the final (stable) pass over its site.
type Event struct {
	kind  string
	name  string
	args  []*Term
	res   *Term
	st    State
	pos   token.Pos
	fn    *ssa.Function
	stack []string
	its   []*Term // iteration variables of the active loops
	seq   int
	conc  bool
	instr ssa.Instruction
	extra any
	ctx   int
}

type deferEntry struct {
	pc    *Term
	instr *ssa.Defer
	fnv   *Term
	args  []*Term
	ctx   int
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	parent *Frame
	ctx    int
	defers []deferEntry
	rets   []retEdge
	loops  *loopInfo
	depth  int
}

type retEdge struct {
	st  State
	val *Term
}

type LoopCtx struct {
	id    int
	key   string
	it    *Term
	alloc map[*Term]bool // objects created in the body
}

type muDef struct {
	mu         *Term
	init, step *Term
	loop       int
	it, n      *Term
	back       *Term // condition of going round again
	desc       string
}

type Interp struct {
	prog        *ssa.Program
	mainPkgs    map[*ssa.Package]bool
	noRec       int
	events      []*Event
	ctxs        map[string]int
	loopIDs     map[string]int
	loopStack   []*LoopCtx
	opaque      map[string]bool // functions summarised as unknowns
	opaqueAll   func(fn *ssa.Function) bool
	muDefs      map[*Term]*muDef
	iterBack    map[*Term]*Term // iteration variable -> condition of completing the body
	facts       map[*Term]*Term // iteration variable -> what held in the body
	loopN       map[*Term]*Term // iteration variable -> trip count
	onLoop      func(*loopRun)
	exitOf      map[*Term]exitVal
	assumeEq    func(pc, d *Term) bool
	exempt      func(name string, fr *Frame, ok *Term) bool
	loopCache   map[*ssa.Function]*loopInfo
	recCalls    []string
	unknownExt  map[string]int
	analysed    map[*ssa.Function]bool
	callsSeen   int
	blocks      int
	budget      int
	conc        int
	watch       func(ev *Event)
	curIndex    map[*ssa.Function]map[ssa.Instruction]int
	globals     map[*ssa.Global]*Term
	stackFns    []*ssa.Function
	exitKinds   map[*Term][]string
	onCall      func(fr *Frame, st State, in ssa.CallInstruction, fn *ssa.Function, args []*Term) (*Term, State, bool)
	trackAccess bool
	spawned     bool
	stateKey    func(State) *Term
	flags       map[*Term][]flagReg // flag set -> registered flags
	embeds      map[string]string   // global -> embedded file text
	sortCmps    map[*Term]bool
	passes      int
	condSites   map[*Term]string
	opaqueErr   func(name string) *Term
	okBySite    func(name string) bool // each call of an impure opaque function has its own outcome
	errByCall   bool                   // an unknown error of every failing call, not just some error
	capture     *Term                  // a stream whose text is kept like a buffer's
	okAll       bool                   // assume nothing fails
	mayFail     func(name string) bool // except these
	refArgs     bool                   // arguments of opaque calls by content
	okReads     bool                   // assume every read of the input succeeds
}

func newInterp(prog *ssa.Program, mains map[*ssa.Package]bool) *Interp {
	return &Interp{
		prog: prog, mainPkgs: mains, ctxs: map[string]int{}, loopIDs: map[string]int{},
		opaque: map[string]bool{}, muDefs: map[*Term]*muDef{}, facts: map[*Term]*Term{}, iterBack: map[*Term]*Term{}, loopN: map[*Term]*Term{},
		loopCache: map[*ssa.Function]*loopInfo{}, unknownExt: map[string]int{}, analysed: map[*ssa.Function]bool{},
		budget: 4_000_000, curIndex: map[*ssa.Function]map[ssa.Instruction]int{}, globals: map[*ssa.Global]*Term{},
		exitKinds: map[*Term][]string{}, condSites: map[*Term]string{},
	}
}

var ctxCount, loopCount int

type budgetErr struct{}

func (it *Interp) tick() {
	it.budget--
	if it.budget < 0 {
		panic(budgetErr{})
	}
}

func (it *Interp) ctxID(s string) int {
	if id, ok := it.ctxs[s]; ok {
		return id
	}
	// numbers are not shared between analyses: terms are
	id := ctxCount
	ctxCount++
	it.ctxs[s] = id
	return id
}

func (it *Interp) instrIdx(fn *ssa.Function, in ssa.Instruction) int {
	m := it.curIndex[fn]
	if m == nil {
		m = map[ssa.Instruction]int{}
		n := 0
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				m[i] = n
				n++
			}
		}
		it.curIndex[fn] = m
	}
	return m[in]
}

// site names one instruction in one calling context.
func (it *Interp) site(fr *Frame, in ssa.Instruction) string {
	return strconv.Itoa(fr.ctx) + "." + strconv.Itoa(it.instrIdx(fr.fn, in))
}

func (it *Interp) siteAt(e *Event) string {
	return strconv.Itoa(e.ctx) + "." + strconv.Itoa(it.instrIdx(e.fn, e.instr))
}

func (it *Interp) activeLoops() []int {
	var out []int
	for _, l := range it.loopStack {
		out = mergeLoops(out, []int{l.id})
		if l.it != nil {
			out = mergeLoops(out, l.it.loops)
		}
	}
	return out
}

// fresh names the unknown produced at one site (a new value per iteration of
// the enclosing loops).
func (it *Interp) fresh(prefix string, fr *Frame, in ssa.Instruction, typ types.Type) *Term {
	t := mkSym(prefix+it.site(fr, in), 0, it.activeLoops())
	return typed(t, typ)
}

func (it *Interp) emit(fr *Frame, st State, in ssa.Instruction, kind, name string, res *Term, args ...*Term) *Event {
	ev := &Event{kind: kind, name: name, args: args, res: res, st: st, fn: fr.fn, instr: in, conc: it.conc > 0, ctx: fr.ctx}
	if in != nil {
		ev.pos = in.Pos()
	}
	if it.noRec > 0 {
		return ev
	}
	for f := fr; f != nil; f = f.parent {
		ev.stack = append(ev.stack, f.fn.String())
	}
	for _, l := range it.loopStack {
		if l.it != nil {
			ev.its = append(ev.its, l.it)
		}
	}
	ev.seq = len(it.events)
	it.events = append(it.events, ev)
	if it.watch != nil {
		it.watch(ev)
	}
	return ev
}

func (it *Interp) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := it.prog.Fset.Position(p)
	return trimRepo(q.Filename) + ":" + strconv.Itoa(q.Line)
}

func trimRepo(f string) string {
	if i := strings.Index(f, "/internal/"); i >= 0 {
		return f[i+1:]
	}
	if i := strings.Index(f, "/cmd/neojhat"); i >= 0 {
		return f[i+1:]
	}
	return f
}

// ---------------------------------------------------------------------------
// Heap.

func (it *Interp) rootContent(st State, root *Term, typ types.Type) *Term {
	if c, ok := st.heap.get(root.id); ok {
		return c
	}
	return initialOf(root, &Term{typ: typ})
}

func isMapTerm(t *Term) bool {
	if t.typ == nil {
		return false
	}
	_, ok := t.typ.Underlying().(*types.Map)
	return ok
}

func stepType(steps []*Term) types.Type {
	if len(steps) > 0 && strings.HasPrefix(steps[0].op, ".") {
		return steps[0].typ
	}
	return nil
}

func (it *Interp) load(st State, p *Term, typ types.Type) *Term {
	if p.k == KGamma {
		return mapLeaves(p, func(l *Term) *Term { return it.load(st, l, typ) })
	}
	if p.k == KBot || p.k == KNil {
		return tBot
	}
	root, steps := ptrParts(p)
	rt := typ
	if len(steps) > 0 {
		rt = stepType(steps)
	}
	c := it.rootContent(st, root, rt)
	for i, s := range steps {
		var nt types.Type
		if i+1 < len(steps) {
			nt = stepType(steps[i+1:])
		} else {
			nt = typ
		}
		if strings.HasPrefix(s.op, ".") {
			c = mkFld(c, int(s.i), nt)
		} else {
			c = mkSeqIdx(c, s.args[0], nt)
		}
	}
	return typed(c, typ)
}

func setPath(c *Term, steps []*Term, v *Term) *Term {
	if len(steps) == 0 {
		return v
	}
	s := steps[0]
	if strings.HasPrefix(s.op, ".") {
		st := structOf(s.typ)
		i := int(s.i)
		old := mkFld(c, i, st.Field(i).Type())
		return setFld(c, s.typ, i, setPath(old, steps[1:], v))
	}
	if len(steps) == 1 {
		return mkSeqUpd(c, s.args[0], v)
	}
	old := mkSeqIdx(c, s.args[0], stepType(steps[1:]))
	return mkSeqUpd(c, s.args[0], setPath(old, steps[1:], v))
}

func (it *Interp) store(st State, p, v *Term) State {
	if p.k == KBot || p.k == KNil {
		return st
	}
	if p.k == KGamma {
		d := p.args[0]
		for _, c := range p.cases {
			g := mkGuard(d, c.vals, c.neg)
			st = it.storeIf(st, g, c.kid, v)
		}
		return st
	}
	root, steps := ptrParts(p)
	old := it.rootContent(st, root, stepType(steps))
	st.heap = st.heap.set(root.id, setPath(old, steps, v))
	return st
}

func (it *Interp) storeIf(st State, g, p, v *Term) State {
	if bAnd(st.pc, g) == tFalse {
		return st
	}
	s2 := it.store(st, p, v)
	return it.joinHeap(st, State{bAnd(st.pc, g), s2.heap}, State{bAnd(st.pc, bNot(g)), st.heap})
}

func (it *Interp) joinHeap(out, a, b State) State {
	out.heap = it.mergeHeaps(a, b)
	return out
}

func (it *Interp) mergeHeaps(a, b State) tmap[*Term] {
	if a.dead() {
		return b.heap
	}
	if b.dead() {
		return a.heap
	}
	h := a.heap
	type upd struct {
		k int
		v *Term
	}
	var ups []upd
	a.heap.diff(b.heap, func(k int, av *Term, aok bool, bv *Term, bok bool) {
		switch {
		case aok && bok:
			if av != bv {
				ups = append(ups, upd{k, iteDC(a.pc, av, b.pc, bv)})
			}
		case aok && !bok:
			// created or first touched on one side only
			root := termList[k]
			if isAllocRoot(root) || root.op == "elemref" {
				return
			}
			ups = append(ups, upd{k, iteDC(a.pc, av, b.pc, initialOf(root, av))})
		case bok:
			root := termList[k]
			if isAllocRoot(root) {
				ups = append(ups, upd{k, bv})
				return
			}
			ups = append(ups, upd{k, iteDC(b.pc, bv, a.pc, initialOf(root, bv))})
		}
	})
	for _, u := range ups {
		h = h.set(u.k, u.v)
	}
	return h
}

func isAllocRoot(root *Term) bool {
	return root.k == KSym && strings.HasPrefix(root.op, "new:")
}

func initialOf(root, like *Term) *Term {
	if root.k == KOp && (root.op == "ref" || root.op == "elemref") {
		return root.args[0]
	}
	if root.k == KSym && strings.HasPrefix(root.op, "ghost:") {
		return tFalse
	}
	if root.k == KSym && strings.HasPrefix(root.op, "pos:") {
		return mkInt(0)
	}
	if isMapTerm(root) {
		return root
	}
	return typed(mkOp("deref", root), like.typ)
}

func (it *Interp) join(a, b State) State {
	if a.dead() {
		return b
	}
	if b.dead() {
		return a
	}
	return State{pc: bOr(a.pc, b.pc), heap: it.mergeHeaps(a, b)}
}

// content resolves a slice value to its element sequence.
func (it *Interp) content(st State, x *Term) *Term {
	switch {
	case x.k == KGamma:
		return mapLeaves(x, func(l *Term) *Term { return it.content(st, l) })
	case x.k == KNil, x.k == KBot, x.k == KStr:
		return x
	case x.k == KOp && x.op == "slice":
		c := it.load(st, x.args[0], nil)
		return mkSeqSlice(c, x.args[1], x.args[2])
	}
	if c, ok := st.heap.get(mkOp("elemref", x).id); ok {
		return c
	}
	return x
}

// resolve replaces references to slices held in v by their contents, so that
// values can be compared without a heap.
func (it *Interp) resolve(st State, v *Term) *Term {
	return it.resolveN(st, v, 12, map[*Term]*Term{})
}

func (it *Interp) resolveN(st State, v *Term, d int, memo map[*Term]*Term) *Term {
	if d == 0 {
		return v
	}
	if r, ok := memo[v]; ok {
		return r
	}
	r := it.resolve1(st, v, d, memo)
	memo[v] = r
	return r
}

func (it *Interp) resolve1(st State, v *Term, d int, memo map[*Term]*Term) *Term {
	switch v.k {
	case KStruct, KTuple, KIface:
		args := make([]*Term, len(v.args))
		ch := false
		for i, a := range v.args {
			args[i] = it.resolveN(st, a, d-1, memo)
			ch = ch || args[i] != a
		}
		if !ch {
			return v
		}
		return rebuild(v, args)
	case KGamma:
		return mapLeaves(v, func(l *Term) *Term { return it.resolveN(st, l, d-1, memo) })
	case KOp:
		if v.op == "slice" {
			return it.resolveN(st, it.content(st, v), d-1, memo)
		}
		if v.op == "seq" || isSliceType(v.typ) {
			// sorted, or written to, since it was made
			if c, ok := st.heap.get(mkOp("elemref", v).id); ok && c != v {
				return it.resolveN(st, c, d-1, memo)
			}
		}
		if v.op == "seq" {
			segs := make([]*Term, len(v.args))
			for i, s := range v.args {
				segs[i] = s
				switch s.op {
				case "elem":
					segs[i] = mkOp("elem", it.resolveN(st, s.args[0], d-1, memo))
				case "each":
					segs[i] = mkOp("each", s.args[0], s.args[1], s.args[2], it.resolveN(st, s.args[3], d-1, memo))
				}
			}
			return mkSeq(segs)
		}
	}
	return v
}

// ---------------------------------------------------------------------------
// Loop structure.

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	idx    int
}

type loopInfo struct {
	rpo    []*ssa.BasicBlock
	num    map[*ssa.BasicBlock]int
	byHead map[*ssa.BasicBlock]*loop
	inner  map[*ssa.BasicBlock]*loop // innermost loop containing block
}

func (it *Interp) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := it.loopCache[fn]; ok {
		return li
	}
	li := &loopInfo{num: map[*ssa.BasicBlock]int{}, byHead: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.num[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHead[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, idx: len(li.byHead)}
					li.byHead[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var ls []*loop
	for _, l := range li.byHead {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return li.num[ls[i].header] < li.num[ls[j].header]
	})
	for i, l := range ls { // from largest to smallest
		l.idx = li.num[l.header]
		for j := i - 1; j >= 0; j-- {
			if ls[j].blocks[l.header] && ls[j] != l {
				l.parent = ls[j]
				break
			}
		}
		for b := range l.blocks {
			li.inner[b] = l
		}
	}
	it.loopCache[fn] = li
	return li
}

type edge struct {
	from, to *ssa.BasicBlock
	st       State
	// phi operand values captured on this edge
	phis []*Term
	// what the head of the next round sees, when the edge stands for leaving there
	next map[*Term]*Term
	// what values known at its head stand for, when the edge leaves there
	was map[*Term]*Term
}

// atHead: the edge leaves at the test of the loop's header.
func (e edge) atHead(l *loop) bool { return e.from == l.header && e.next == nil }

func (it *Interp) mkEdge(fr *Frame, from, to *ssa.BasicBlock, st State) edge {
	e := edge{from: from, to: to, st: st}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.phis = append(e.phis, it.val(fr, st, ph.Edges[pi]))
	}
	return e
}

func (it *Interp) joinEdges(es []edge) (State, []*Term) {
	st := State{pc: tFalse}
	var phis []*Term
	for _, e := range es {
		if e.st.dead() {
			continue
		}
		if st.dead() {
			phis = append([]*Term(nil), e.phis...)
			st = e.st
			continue
		}
		for i := range phis {
			phis[i] = iteDC(st.pc, phis[i], e.st.pc, e.phis[i])
		}
		st = it.join(st, e.st)
	}
	return st, phis
}

func setPhis(fr *Frame, b *ssa.BasicBlock, phis []*Term) {
	i := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if i < len(phis) {
			fr.env[ph] = typed(phis[i], ph.Type())
		}
		i++
	}
}

// runRegion analyses the blocks of one loop body (or of the whole function),
// inner loops being solved as units. It returns the edges that leave the region
// and those that return to its header.
func (it *Interp) runRegion(fr *Frame, reg *loop, entry *ssa.BasicBlock, st State) (exits, backs []edge) {
	li := fr.loops
	pending := map[*ssa.BasicBlock][]edge{}
	started := false
	for _, b := range li.rpo {
		if reg != nil && !reg.blocks[b] {
			continue
		}
		var cur State
		if b == entry {
			cur = st
			started = true
		} else {
			if !started {
				continue
			}
			// blocks of inner loops are handled by their header
			l := li.inner[b]
			if l != reg {
				if l == nil || l.header != b || l.parent != reg {
					continue
				}
				es := pending[b]
				if len(es) == 0 {
					continue
				}
				h, phis := it.joinEdges(es)
				if h.dead() {
					continue
				}
				for _, e := range it.runLoop(fr, l, h, phis) {
					it.deliver(reg, e, pending, &exits, &backs)
				}
				continue
			}
			es := pending[b]
			if len(es) == 0 {
				continue
			}
			var phis []*Term
			cur, phis = it.joinEdges(es)
			if cur.dead() {
				continue
			}
			setPhis(fr, b, phis)
		}
		if b == entry && reg == nil {
			// entry block could itself be a loop header only via runLoop
			if l := li.byHead[b]; l != nil {
				for _, e := range it.runLoop(fr, l, cur, nil) {
					it.deliver(reg, e, pending, &exits, &backs)
				}
				continue
			}
		}
		for _, e := range it.runBlock(fr, b, cur) {
			it.deliver(reg, e, pending, &exits, &backs)
		}
	}
	return exits, backs
}

func (it *Interp) deliver(reg *loop, e edge, pending map[*ssa.BasicBlock][]edge, exits, backs *[]edge) {
	if e.st.dead() {
		return
	}
	if reg != nil {
		if e.to == reg.header {
			*backs = append(*backs, e)
			return
		}
		if !reg.blocks[e.to] {
			*exits = append(*exits, e)
			return
		}
	}
	pending[e.to] = append(pending[e.to], e)
}

// runBlock executes one block and yields its outgoing edges.
func (it *Interp) runBlock(fr *Frame, b *ssa.BasicBlock, st State) []edge {
	it.blocks++
	for _, in := range b.Instrs {
		it.tick()
		if st.dead() {
			return nil
		}
		if debugTrace {
			fmt.Println("TRACE", fr.fn.Name(), b.Index, in, "pc", show(st.pc))
		}
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			return []edge{it.mkEdge(fr, b, b.Succs[0], st)}
		case *ssa.If:
			c := asBool(it.val(fr, st, x.Cond))
			if c.k == KBot {
				return nil
			}
			var out []edge
			tpc := bAnd(st.pc, c)
			fpc := bAnd(st.pc, bNot(c))
			if it.noRec == 0 && tpc != tFalse && fpc != tFalse {
				if d, _, ok := asNode(c); ok {
					if _, ok := it.condSites[d]; !ok {
						it.condSites[d] = it.posStr(x.Cond.Pos())
					}
				}
			}
			if tpc != tFalse {
				s := st
				s.pc = tpc
				out = append(out, it.mkEdge(fr, b, b.Succs[0], s))
			}
			if fpc != tFalse {
				s := st
				s.pc = fpc
				out = append(out, it.mkEdge(fr, b, b.Succs[1], s))
			}
			return out
		case *ssa.Return:
			var vals []*Term
			for _, r := range x.Results {
				vals = append(vals, it.val(fr, st, r))
			}
			var v *Term
			switch len(vals) {
			case 0:
				v = tNil
			case 1:
				v = vals[0]
			default:
				v = mkTuple(vals...)
			}
			if fr.parent == nil {
				it.emit(fr, st, in, "rootreturn", fr.fn.String(), v, v)
			}
			fr.rets = append(fr.rets, retEdge{st, v})
			return nil
		case *ssa.Panic:
			it.emit(fr, st, in, "panic", "panic", nil, it.val(fr, st, x.X))
			return nil
		default:
			st = it.instr(fr, st, in)
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// Loops.

const (
	cellPhi = iota
	cellHeap
)

type cellKey struct {
	kind int
	idx  int // phi index or root id
}

const maxUnroll = 6

// unroll executes a loop whose number of rounds is a small constant round by
// round; ok is false when it is not.
func (it *Interp) unroll(fr *Frame, l *loop, key string, entry State, phis0 []*Term) (out []edge, ok bool) {
	cond, isIf := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, false
	}
	if _, isCmp := cond.Cond.(*ssa.BinOp); !isCmp {
		return nil, false
	}
	counts := false
	for i, in := range l.header.Instrs {
		switch in.(type) {
		case *ssa.Phi:
			counts = counts || i < len(phis0) && phis0[i].k == KInt
		case ssa.CallInstruction:
			c := in.(ssa.CallInstruction).Common()
			if b, isB := c.Value.(*ssa.Builtin); !isB || b.Name() != "len" {
				return nil, false
			}
		}
	}
	if !counts {
		return nil, false
	}
	ctx := fr.ctx
	defer func() { fr.ctx = ctx }()
	// decided: the header alone decides whether there is another round
	decided := func(st State, phis []*Term) bool {
		it.noRec++
		setPhis(fr, l.header, phis)
		es := it.runBlock(fr, l.header, st)
		it.noRec--
		return len(es) <= 1
	}
	nd := len(fr.defers)
	pass := func() bool {
		st, phis := entry, phis0
		var env map[ssa.Value]*Term
		var seen *Term
		out = nil
		for i := 0; ; i++ {
			fr.ctx = it.ctxID("unroll:" + key + "#" + strconv.Itoa(i))
			if i > maxUnroll || !decided(st, phis) {
				return false
			}
			setPhis(fr, l.header, phis)
			exits, backs := it.runRegion(fr, l, l.header, st)
			epc := tFalse
			for _, e := range exits {
				epc = bOr(epc, e.st.pc)
			}
			if epc != tFalse {
				cur := map[ssa.Value]*Term{}
				for b := range l.blocks {
					for _, in := range b.Instrs {
						if v, isV := in.(ssa.Value); isV {
							if t, has := fr.env[v]; has {
								cur[v] = t
							}
						}
					}
				}
				if env == nil {
					env, seen = cur, epc
				} else {
					for v, t := range cur {
						if o, has := env[v]; has {
							if o != t && t.k != KBot && o.k != KBot {
								env[v] = iteDC(seen, o, epc, t)
							}
						} else {
							env[v] = t
						}
					}
					seen = bOr(seen, epc)
				}
			}
			out = append(out, exits...)
			st, phis = it.joinEdges(backs)
			if st.dead() {
				break
			}
		}
		for v, t := range env {
			fr.env[v] = t
		}
		return true
	}
	if !decided(entry, phis0) {
		return nil, false
	}
	it.noRec++
	ok = pass()
	it.noRec--
	fr.defers = fr.defers[:nd]
	if !ok {
		return nil, false
	}
	return out, pass()
}

// runLoop solves one loop from its joined entry state and returns its exit edges.
func (it *Interp) runLoop(fr *Frame, l *loop, entry State, phis0 []*Term) []edge {
	key := strconv.Itoa(fr.ctx) + ".L" + strconv.Itoa(l.idx)
	id, ok := it.loopIDs[key]
	if !ok {
		loopCount++
		id = loopCount
		it.loopIDs[key] = id
	}
	if es, ok := it.unroll(fr, l, key, entry, phis0); ok {
		return es
	}
	outer := it.activeLoops()
	lc := &LoopCtx{id: id, key: key, alloc: map[*Term]bool{}}
	myLoops := mergeLoops(outer, []int{id})
	lc.it = mkSym("it:?"+key, 0, myLoops)
	lc.it.ub = 62
	it.loopStack = append(it.loopStack, lc)
	defer func() { it.loopStack = it.loopStack[:len(it.loopStack)-1] }()

	heapRepl := map[int]*Term{}               // root id -> head content
	phiRepl := append([]*Term(nil), phis0...) // head phi values
	repr := map[*Term]*Term{}                 // Mu -> refined representation
	inits := map[*Term]*Term{}                // Mu -> value on entry
	steps := map[*Term]*Term{}                // Mu -> value on the back edge (under backPC)
	muOrder := []*Term{}
	var tripN *Term
	var backPC *Term

	muFor := func(name string, init *Term, like *Term) *Term {
		m := mkSym("mu:"+key+":"+name, 0, myLoops)
		if m.ub == 0 && like.ub > 0 {
			m.ub = like.ub
		}
		if m.ub == 0 && init.ub > 0 && init.k != KBot {
			m.ub = init.ub
		}
		if init.k == KBool || isBoolAtom(init) {
			m.bl = true
		}
		if m.typ == nil {
			m.typ = like.typ
			if m.typ == nil {
				m.typ = init.typ
			}
			if init.k == KStruct {
				m.typ = init.typ
			}
		}
		if _, ok := inits[m]; !ok {
			muOrder = append(muOrder, m)
		}
		inits[m] = init
		return m
	}
	applyRepr := func(t *Term) *Term {
		if len(repr) == 0 {
			return t
		}
		return subst(t, repr)
	}

	// widen h (head) against b (back edge) with entry value e
	var widen func(name string, e, h, b *Term, bpc *Term, typ types.Type) *Term
	widen = func(name string, e, h, b *Term, bpc *Term, typ types.Type) *Term {
		if h == b {
			return h
		}
		if h.k == KSym && strings.HasPrefix(h.op, "mu:"+key+":") {
			steps[h] = b
			return h
		}
		if h.k == KStruct && b.k == KStruct && e.k == KStruct && len(h.args) == len(b.args) {
			stt := structOf(h.typ)
			args := make([]*Term, len(h.args))
			for i := range args {
				args[i] = widen(name+"."+stt.Field(i).Name(), e.args[i], h.args[i], b.args[i], bpc, stt.Field(i).Type())
			}
			return mkStruct(h.typ, args...)
		}
		// one side is an unknown struct: compare by fields
		if stt := structOf(h.typ); stt != nil && (h.k == KStruct || b.k == KStruct) && h.k != KGamma && b.k != KGamma {
			args := make([]*Term, stt.NumFields())
			for i := range args {
				ft := stt.Field(i).Type()
				args[i] = widen(name+"."+stt.Field(i).Name(), mkFld(e, i, ft), mkFld(h, i, ft), mkFld(b, i, ft), bpc, ft)
			}
			return mkStruct(h.typ, args...)
		}
		if h.k == KIface && b.k == KIface && e.k == KIface && types.Identical(h.typ, b.typ) && types.Identical(h.typ, e.typ) {
			return mkIface(h.typ, widen(name+".v", e.args[0], h.args[0], b.args[0], bpc, h.typ))
		}
		if eqUnder(bpc, h, b) {
			return h
		}
		if h.k == KOp && b.k == KOp && e.k == KOp && h.op == "seq" && b.op == "seq" && e.op == "seq" && len(h.args) == len(b.args) && len(h.args) == len(e.args) && len(h.args) > 0 {
			ok := true
			for i := range h.args {
				if h.args[i].op != "elem" || b.args[i].op != "elem" || e.args[i].op != "elem" {
					ok = false
				}
			}
			if ok {
				segs := make([]*Term, len(h.args))
				for i := range segs {
					segs[i] = mkOp("elem", widen(name+"["+strconv.Itoa(i)+"]", e.args[i].args[0], h.args[i].args[0], b.args[i].args[0], bpc, nil))
				}
				return mkSeq(segs)
			}
		}
		// a pointer carried around the loop may still point where it did
		sel := mkSym("sel:"+key+":"+name, 0, myLoops)
		if h.k == KGamma && h.args[0] == sel {
			for _, c := range h.cases {
				if c.neg {
					steps[c.kid] = b
				}
			}
			return h
		}
		m := muFor(name, e, b)
		if typ != nil {
			typed(m, typ)
		}
		steps[m] = b
		if _, isPtr := typ.(*types.Pointer); isPtr && e.k == KSym && isAllocRoot(e) {
			sel.ub = 8
			return mkGammaRaw(sel, []Case{{[]*Term{mkInt(1)}, false, e}, {[]*Term{mkInt(1)}, true, m}})
		}
		return m
	}

	var exits []edge
	headState := func() (State, []*Term) {
		st := entry
		for k, v := range heapRepl {
			st.heap = st.heap.set(k, applyRepr(v))
		}
		ph := make([]*Term, len(phiRepl))
		for i, p := range phiRepl {
			ph[i] = applyRepr(p)
		}
		return st, ph
	}
	runOnce := func() (back State, bphis []*Term) {
		it.passes++
		st, ph := headState()
		if f := it.facts[lc.it]; f != nil && false {
			st.pc = bAnd(st.pc, f)
		}
		lc.alloc = map[*Term]bool{}
		setPhis(fr, l.header, ph)
		var backs []edge
		exits, backs = it.runRegion(fr, l, l.header, st)
		back, bphis = it.joinEdges(backs)
		if back.dead() {
			return
		}
		// objects created in this iteration: their references become values
		if len(lc.alloc) > 0 {
			for i := range bphis {
				bphis[i] = it.freeze(back, bphis[i], lc.alloc, 0)
			}
			h := back.heap
			back.heap.diff(st.heap, func(k int, av *Term, aok bool, bv *Term, bok bool) {
				if !aok {
					return
				}
				root := termList[k]
				if lc.alloc[root] {
					return
				}
				f := it.freeze(back, av, lc.alloc, 0)
				if f != av {
					h = h.set(k, f)
				}
			})
			back.heap = h
		}
		return
	}

	header := l.header
	phiNames := []string{}
	for _, in := range header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			n := ph.Comment
			if n == "" {
				n = ph.Name()
			}
			phiNames = append(phiNames, n)
		} else {
			break
		}
	}

	it.noRec++
	stable := false
	for pass := 0; pass < 12 && !stable; pass++ {
		for m := range steps {
			delete(steps, m)
		}
		back, bphis := runOnce()
		backPC = back.pc
		if back.dead() {
			stable = true
			break
		}
		st, ph := headState()
		stable = true
		for i := range ph {
			e := phis0[i]
			w := widen("p"+strconv.Itoa(i)+phiNames[i], e, phiRepl[i], bphis[i], back.pc, header.Instrs[i].(*ssa.Phi).Type())
			if w != phiRepl[i] {
				phiRepl[i] = w
				stable = false
			}
		}
		type ch struct {
			k int
			v *Term
		}
		var chs []ch
		back.heap.diff(st.heap, func(k int, bv *Term, bok bool, hv *Term, hok bool) {
			root := termList[k]
			if lc.alloc[root] {
				return
			}
			if !bok {
				return
			}
			if !hok {
				if isAllocRoot(root) && !inHeap(entry.heap, k) {
					return // object created inside (e.g. by a callee) and dead at the next iteration
				}
				hv = initialOf(root, bv)
			}
			ev, eok := entry.heap.get(k)
			if !eok {
				ev = initialOf(root, bv)
			}
			h0 := hv
			if r, ok := heapRepl[k]; ok {
				h0 = r
			}
			w := widen("h"+strconv.Itoa(k), ev, h0, bv, back.pc, nil)
			chs = append(chs, ch{k, w})
		})
		sort.Slice(chs, func(i, j int) bool { return chs[i].k < chs[j].k })
		for _, c := range chs {
			old, ok := heapRepl[c.k]
			if !ok {
				old, ok = entry.heap.get(c.k)
				if !ok {
					old = nil
				}
			}
			if old != c.v {
				heapRepl[c.k] = c.v
				stable = false
			}
		}
	}
	if !stable {
		it.emitForced(fr, entry, header.Instrs[0], "undecided", "loop did not stabilise")
	}

	// second phase: relations between the widened values, trip count
	if backPC != nil && backPC != tFalse && backPC.k != KBot && len(muOrder) > 0 {
		it.refineLoop(fr, l, lc, key, myLoops, muOrder, inits, steps, backPC, repr, &tripN, func() (map[*Term]*Term, *Term, bool) {
			for m := range steps {
				delete(steps, m)
			}
			back, bphis := runOnce()
			if back.dead() {
				return steps, back.pc, false
			}
			st, ph := headState()
			got := map[*Term]*Term{}
			var collect func(pat, head, b *Term)
			collect = func(pat, head, b *Term) {
				if pat == nil {
					return
				}
				if _, ok := inits[pat]; ok {
					got[pat] = b
					return
				}
				if pat.k == KStruct {
					stt := structOf(pat.typ)
					for i, a := range pat.args {
						collect(a, nil, mkFld(b, i, stt.Field(i).Type()))
					}
				}
				if pat.k == KGamma && strings.HasPrefix(pat.args[0].op, "sel:"+key+":") {
					for _, c := range pat.cases {
						if c.neg {
							collect(c.kid, nil, b)
						}
					}
				}
				if pat.k == KIface && b.k == KIface {
					collect(pat.args[0], nil, b.args[0])
				}
				if pat.k == KOp && pat.op == "seq" && b.k == KOp && b.op == "seq" && len(pat.args) == len(b.args) {
					for i, a := range pat.args {
						if a.op == "elem" && b.args[i].op == "elem" {
							collect(a.args[0], nil, b.args[i].args[0])
						}
					}
				}
			}
			for i := range ph {
				collect(phiRepl[i], ph[i], bphis[i])
			}
			for k, pat := range heapRepl {
				b, ok := back.heap.get(k)
				if !ok {
					b, _ = st.heap.get(k)
				}
				if b != nil {
					collect(pat, nil, b)
				}
			}
			// anything else changed that the representation says is constant?
			return got, back.pc, true
		}, func() []edge { return exits }, phis0, entry)
	}
	it.noRec--

	// final, recorded pass
	evs0 := len(it.events)
	back, _ := runOnce()
	if !back.dead() && lc.it != nil {
		loc := back.pc
		loc = existsOut(loc, func(d *Term) bool { return !(d.inLoop(id) || contains(d, lc.it)) })
		it.facts[lc.it] = loc
		it.iterBack[lc.it] = back.pc
		it.loopN[lc.it] = tripN
	}
	for _, m := range muOrder {
		it.muDefs[m] = &muDef{mu: m, init: inits[m], step: steps[m], loop: id, it: lc.it, n: tripN, back: back.pc}
	}
	if it.onLoop != nil {
		it.onLoop(&loopRun{fr: fr, l: l, lc: lc, repr: repr, mus: muOrder, inits: inits, steps: steps, n: tripN, back: back.pc, entry: entry, head: heapRepl, events: it.events[evs0:]})
	}
	return it.finishLoop(fr, l, lc, outer, entry, exits, repr, muOrder, inits, steps, tripN, backPC, back.pc)
}

// exitVal: the value a loop leaves for m, or how much it is over the first one.
type exitVal struct {
	m    *Term
	over bool
}

// loopRun is what is known of a loop once it is solved.
type loopRun struct {
	fr           *Frame
	l            *loop
	lc           *LoopCtx
	repr         map[*Term]*Term // what is known of the values carried around
	mus          []*Term
	inits, steps map[*Term]*Term
	n            *Term // number of rounds
	back         *Term // condition of going round again
	entry        State
	head         map[int]*Term
	events       []*Event
}

func inHeap(h tmap[*Term], k int) bool { _, ok := h.get(k); return ok }

func (it *Interp) emitForced(fr *Frame, st State, in ssa.Instruction, kind, name string, args ...*Term) {
	save := it.noRec
	if save > 1 {
		return
	}
	it.noRec = 0
	it.emit(fr, st, in, kind, name, nil, args...)
	it.noRec = save
}

// freeze turns references to objects in set into references to their value.
func (it *Interp) freeze(st State, v *Term, set map[*Term]bool, d int) *Term {
	if d > 6 || v.size == 1 && !set[v] {
		return v
	}
	hit := false
	for r := range set {
		if contains(v, r) {
			hit = true
			break
		}
	}
	if !hit {
		return v
	}
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if set[x] {
			c, ok := st.heap.get(x.id)
			if !ok {
				return x
			}
			if contains(c, x) {
				return x
			}
			return mkOp("ref", it.freeze(st, c, set, d+1))
		}
		if len(x.args) == 0 && len(x.cases) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		var r *Term
		switch {
		case x.k == KOp && x.op == "slice":
			root, _ := ptrParts(x.args[0])
			if set[root] {
				r = it.freeze(st, it.content(st, x), set, d+1)
			} else {
				r = x
			}
		case x.k == KGamma:
			var cs []Case
			for _, c := range x.cases {
				cs = append(cs, Case{c.vals, c.neg, rec(c.kid)})
			}
			r = gammaOrdered(x.args[0], cs)
		default:
			args := make([]*Term, len(x.args))
			ch := false
			for i, a := range x.args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			r = x
			if ch {
				rebind(x, args)
				r = rebuild(x, args)
			}
		}
		memo[x] = r
		return r
	}
	return rec(v)
}

// refineLoop looks for affine relations among the loop-carried numbers and for
// the trip count, verifying each candidate by another pass over the body.
func (it *Interp) refineLoop(fr *Frame, l *loop, lc *LoopCtx, key string, myLoops []int, muOrder []*Term,
	inits, steps map[*Term]*Term, backPC *Term, repr map[*Term]*Term, tripN **Term,
	rerun func() (map[*Term]*Term, *Term, bool), curExits func() []edge, phis0 []*Term, entry State) {

	local := func(t *Term) bool { return t.inLoop(lc.id) || dependsOn(t, lc.it) }
	for round := 0; round < 3; round++ {
		// candidates
		type cand struct {
			m, d *Term
		}
		var cs []cand
		for _, m := range muOrder {
			b := steps[m]
			if b == nil {
				continue
			}
			d := distribute(tSub(restrict(b, backPC), m))
			if debugTrace {
				fmt.Println("REFINE", show(m), numericTerm(inits[m]), numericStep(b), showN(d, 9))
			}
			if !numericTerm(inits[m]) || !numericStep(b) {
				continue
			}
			cs = append(cs, cand{m, d})
		}
		nr := map[*Term]*Term{}
		for _, c := range cs {
			if c.d.k == KInt || !local(c.d) {
				nr[c.m] = tAdd(inits[c.m], tMul(c.d, lc.it))
			}
		}
		for i, c := range cs {
			if nr[c.m] != nil {
				continue
			}
			for j := 0; j < i; j++ {
				o := cs[j]
				if nr[o.m] != nil {
					continue
				}
				if o.d == c.d || eqUnder(backPC, o.d, c.d) || it.eqAssuming(backPC, tSub(o.d, c.d)) {
					nr[c.m] = tAdd(o.m, tSub(inits[c.m], inits[o.m]))
					break
				}
			}
		}
		changed := false
		for _, m := range muOrder {
			if steps[m] == nil || repr[m] != nil {
				continue
			}
			b := restrict(steps[m], backPC)
			if k := dropsFirst(b, m); k > 0 {
				nr[m] = mapLeaves(inits[m], func(l *Term) *Term {
					off := tScale(lc.it, k)
					if l.k == KNil {
						return l
					}
					if l.k == KOp && l.op == "slice" {
						return mkOp("slice", l.args[0], tAdd(l.args[1], off), l.args[2])
					}
					c := it.content(entry, l)
					return mkSeqSlice(c, off, mkSeqLen(c))
				})
			}
			if inits[m] == tMapEmpty && onlyAdds(b, m) && !setMaps[m] {
				setMaps[m] = true
				changed = true
			}
		}
		for m, r := range nr {
			if repr[m] == nil {
				repr[m] = r
				changed = true
			}
		}
		// verify
		for tries := 0; tries < 4; tries++ {
			got, bpc, ok := rerun()
			if !ok {
				break
			}
			backPC = bpc
			bad := false
			next := map[*Term]*Term{lc.it: tAdd(lc.it, mkInt(1))}
			for _, m := range muOrder {
				if repr[m] == nil && got[m] != nil {
					next[m] = got[m]
				}
			}
			for _, m := range muOrder {
				if got[m] == nil {
					continue
				}
				steps[m] = got[m]
				r := repr[m]
				if r == nil {
					continue
				}
				want := subst(r, next)
				if eqUnder(bpc, want, got[m]) {
					continue
				}
				if it.eqAssuming(bpc, tSub(want, got[m])) {
					continue
				}
				delete(repr, m)
				if debugTrace {
					fmt.Println("REFINEFAIL", show(m), "want", showN(want, 9), "got", showN(got[m], 9))
				}
				bad = true
			}
			if !bad {
				break
			}
			changed = true
		}
		// trip count from the header's exit test
		n := it.tripCount(fr, l, lc, curExits(), it.listLens(lc, muOrder, inits, steps, backPC))
		if n != nil && *tripN == nil {
			d := 0
			for _, o := range it.loopStack[:len(it.loopStack)-1] {
				if o.it != nil && strings.HasPrefix(o.it.op, "it:"+strconv.Itoa(n.id)+".") {
					d++
				}
			}
			*tripN = n
			old := lc.it
			nit := mkSym(itName(n, d), 0, mergeLoops(myLoops, n.loops))
			nit.ub = 62
			lc.it = nit
			for m, r := range repr {
				repr[m] = subst(r, map[*Term]*Term{old: nit})
			}
			for m, s := range steps {
				steps[m] = subst(s, map[*Term]*Term{old: nit})
			}
			backPC = subst(backPC, map[*Term]*Term{old: nit})
			changed = true
			got, bpc, ok := rerun()
			if ok {
				backPC = bpc
				for m, s := range got {
					steps[m] = s
				}
			}
		}
		if !changed {
			break
		}
	}
	// final sanity: re-collect steps under the final representation
	if got, _, ok := rerun(); ok {
		for m, s := range got {
			steps[m] = s
		}
	}
}

// dropsFirst: b is the list m without so many elements at the beginning.
func dropsFirst(b, m *Term) int64 {
	if b.k == KOp && b.op == "seq" && len(b.args) == 1 {
		s := b.args[0]
		if s.op == "sub" && s.args[0] == m && s.args[1].k == KInt && s.args[2] == tSub(mkSeqLen(m), s.args[1]) {
			return s.args[1].i
		}
	}
	return 0
}

// setMaps are the maps of a loop in which every value is true.
var setMaps = map[*Term]bool{}

func onlyAdds(b, m *Term) bool {
	switch {
	case b == m || b.k == KBot:
		return true
	case b.k == KGamma:
		for _, c := range b.cases {
			if !onlyAdds(c.kid, m) {
				return false
			}
		}
		return true
	case b.k == KOp && b.op == "mput":
		return b.args[2] == tTrue && onlyAdds(b.args[0], m)
	}
	return false
}

func numericTerm(t *Term) bool {
	switch t.k {
	case KInt, KLin, KMul:
		return true
	case KSym, KOp:
		return t.ub > 0 || isIntType(t.typ) || strings.HasPrefix(t.op, "len") || t.op == "div"
	case KGamma:
		for _, c := range t.cases {
			if !numericTerm(c.kid) {
				return false
			}
		}
		return true
	}
	return false
}

func numericStep(t *Term) bool {
	switch t.k {
	case KInt, KLin, KMul:
		return true
	case KGamma:
		for _, c := range t.cases {
			if !numericStep(c.kid) && !numericTerm(c.kid) {
				return false
			}
		}
		return true
	}
	return numericTerm(t)
}

// eqAssuming: d is zero on every case, given the declared input assumptions.
func (it *Interp) eqAssuming(pc, d *Term) bool {
	d = restrict(d, pc)
	var rec func(d, pc *Term, depth int) bool
	rec = func(d, pc *Term, depth int) bool {
		if d == mkInt(0) || d.k == KBot {
			return true
		}
		if pc == tFalse || pc.k == KBot {
			return true
		}
		if d.k == KGamma {
			for _, c := range d.cases {
				g := mkGuard(d.args[0], c.vals, c.neg)
				if !rec(restrict(c.kid, bAnd(pc, g)), bAnd(pc, g), depth) {
					return false
				}
			}
			return true
		}
		if d.k == KLin {
			for i, a := range d.args {
				if a.k != KGamma {
					continue
				}
				rest := tSub(d, tScale(a, d.coefs[i]))
				for _, c := range a.cases {
					g := bAnd(pc, mkGuard(a.args[0], c.vals, c.neg))
					if g == tFalse {
						continue
					}
					if !rec(restrict(tAdd(rest, tScale(c.kid, d.coefs[i])), g), g, depth+1) {
						return false
					}
				}
				return true
			}
		}
		return it.assumeEq != nil && it.assumeEq(pc, d)
	}
	return rec(d, pc, 0)
}

// distribute pushes linear arithmetic below decision nodes.
func distribute(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := memo[x]; ok {
			return r
		}
		r := x
		if x.k == KGamma {
			var cs []Case
			for _, c := range x.cases {
				cs = append(cs, Case{c.vals, c.neg, rec(c.kid)})
			}
			r = mkGammaRaw(x.args[0], cs)
		} else if g := pullGamma(x); g != nil {
			r = rec(g)
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

// listLens: the lengths of the lists that grow by the same number of elements
// in every iteration.
func (it *Interp) listLens(lc *LoopCtx, muOrder []*Term, inits, steps map[*Term]*Term, backPC *Term) map[*Term]*Term {
	r := map[*Term]*Term{}
	for _, m := range muOrder {
		if steps[m] == nil || inits[m] == nil {
			continue
		}
		parts, ok := listStep(restrict(steps[m], backPC), m)
		if !ok || len(parts) != 1 || parts[0].cond != tTrue {
			continue
		}
		for _, s := range parts[0].segs {
			ok = ok && s.op == "elem"
		}
		n := mkSeqLen(inits[m])
		if ok && !n.inLoop(lc.id) {
			r[mkSeqLen(m)] = tAdd(n, tScale(lc.it, int64(len(parts[0].segs))))
		}
	}
	return r
}

// tripCount solves the header's exit condition for the iteration number.
func (it *Interp) tripCount(fr *Frame, l *loop, lc *LoopCtx, exits []edge, lens map[*Term]*Term) *Term {
	// single exit edge leaving from a block that only tests the induction value
	var hx *edge
	for i := range exits {
		if exits[i].from == l.header {
			hx = &exits[i]
		}
	}
	if hx == nil {
		return nil
	}
	ifi, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	c := fr.env[ifi.Cond]
	if c == nil {
		return nil
	}
	c = asBool(c)
	// condition to continue
	if !l.blocks[l.header.Succs[0]] {
		c = bNot(c)
	}
	if next, ok := it.nextDomain(fr, ifi.Cond); ok {
		return next
	}
	return solveTrip(subst(c, lens), lc)
}

func (it *Interp) nextDomain(fr *Frame, cond ssa.Value) (*Term, bool) {
	ex, ok := cond.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return nil, false
	}
	nx, ok := ex.Tuple.(*ssa.Next)
	if !ok {
		return nil, false
	}
	r := fr.env[nx.Iter]
	if r == nil {
		return nil, false
	}
	if r.k == KOp && r.op == "strrange" {
		return mkOpB("runes", 62, r.args[0]), true
	}
	if r.k == KOp && r.op == "maprange" {
		return mkOp("len", keySet(r.args[0])), true
	}
	return nil, false
}

func solveTrip(c *Term, lc *LoopCtx) *Term {
	i := lc.it
	coefIt := func(d *Term) (int64, bool) {
		cc := int64(0)
		_, m, f := linParts(d)
		for k, a := range m {
			if a == i {
				cc = f[k]
			} else if a.inLoop(lc.id) {
				return 0, false
			}
		}
		return cc, cc != 0
	}
	try := func(t *Term, negated bool) *Term {
		if t.k == KOp && t.op == "neg" {
			d := t.args[0]
			if negated { // !(d<0)  ==> -d-1 < 0
				d = tAdd(tScale(d, -1), mkInt(-1))
			}
			if k, ok := coefIt(d); ok && k == 1 {
				return tSub(i, d) // it - N < 0
			}
			if k, ok := coefIt(d); ok && k > 1 {
				return nil
			}
		}
		return nil
	}
	if n := try(c, false); n != nil {
		return n
	}
	if c.k == KGamma {
		nc := bNot(c)
		if n := try(nc, true); n != nil && nc.k == KOp {
			return n
		}
		// i != n : not eq0
		if nc.k == KOp && nc.op == "eq0" {
			d := nc.args[0]
			if k, ok := coefIt(d); ok && (k == 1 || k == -1) {
				return tSub(i, tScale(d, k))
			}
		}
		// i < const / i != const as a guard on it
		if c.args[0] == i && len(c.cases) == 2 {
			for _, cs := range c.cases {
				if cs.kid == tFalse && !cs.neg && len(cs.vals) == 1 && cs.vals[0].k == KInt {
					return cs.vals[0]
				}
			}
		}
		// it == 0: a single round
		if c.args[0] == i && len(c.cases) == 2 {
			a, b := c.cases[0], c.cases[1]
			if a.neg {
				a, b = b, a
			}
			if !a.neg && b.neg && a.kid == tTrue && b.kid == tFalse && len(a.vals) == 1 && a.vals[0] == mkInt(0) {
				return mkInt(1)
			}
		}
		// the length depends on something settled before the loop
		if x := outerCase(c, func(d *Term) bool { return d.inLoop(lc.id) || contains(d, i) }); x != nil {
			res, pc := tBot, tFalse
			for _, k := range x.cases {
				g := guardOf(x.args[0], k.vals, k.neg)
				if g == tFalse {
					continue
				}
				n := mkInt(0)
				ck := restrict(c, g)
				if ck.k == KBot {
					continue
				}
				if ck != tFalse {
					n = solveTrip(ck, lc)
				}
				if n == nil || n.inLoop(lc.id) {
					return nil
				}
				res = iteDC(pc, res, g, n)
				pc = bOr(pc, g)
			}
			return res
		}
	}
	return nil
}

// finishLoop turns exit edges into edges of the enclosing region.
func (it *Interp) finishLoop(fr *Frame, l *loop, lc *LoopCtx, outer []int, entry State, exits []edge, repr map[*Term]*Term,
	muOrder []*Term, inits, steps map[*Term]*Term, tripN, backPC, lastBack *Term) []edge {
	id := lc.id
	local := func(d *Term) bool { return d.inLoop(id) || contains(d, lc.it) }
	var live []edge
	for _, e := range exits {
		if !e.st.dead() {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		return nil
	}
	if len(live) > 1 {
		live, steps, lastBack = it.leaveAtOnce(fr, l, lc, entry, live, muOrder, inits, steps, lastBack)
		if it.refArgs && tripN == nil {
			live, lastBack = it.mergePeeled(fr, l, lc, entry, live, muOrder, steps, lastBack)
		}
	}
	var x *Term
	if len(live) > 1 {
		x = mkSym("exit:"+lc.key, 0, outer)
	}
	var canon map[*Term]*Term
	if it.refArgs {
		x, canon = it.canonLoop(l, lc, entry, live, muOrder, inits, steps, tripN, lastBack)
	}
	closed := map[*Term]*Term{}
	if tripN != nil {
		for _, m := range muOrder {
			init := inits[m]
			if steps[m] != nil && isListStep(steps[m]) {
				init = mapLeaves(init, func(l *Term) *Term {
					if l.k == KOp && l.op == "slice" {
						return it.content(entry, l)
					}
					return l
				})
			}
			v := it.closedForm(m, init, steps[m], repr, lc, tripN, backPC)
			if v != nil {
				closed[m] = v
			}
		}
	}
	// what a value computed in the loop is after leaving it by that exit
	after := func(e edge, hdr bool) func(t *Term) *Term {
		var ms []map[*Term]*Term
		if hdr && tripN != nil {
			m := map[*Term]*Term{lc.it: tripN}
			for mu, v := range closed {
				m[mu] = v
			}
			ms = append(ms, m)
		}
		if canon != nil {
			ms = append(ms, canon)
		}
		return func(t *Term) *Term {
			for _, m := range ms {
				if t.inLoop(id) || contains(t, lc.it) {
					t = substClosed(t, m, lc.it)
				}
			}
			return t
		}
	}
	var out []edge
	for k, e := range live {
		hdr := e.atHead(l)
		if hdr && tripN != nil {
			e.st.pc = existsOut(e.st.pc, local)
		}
		if x != nil {
			e.st.pc = bAnd(e.st.pc, mkGuard(x, []*Term{mkInt(int64(k))}, false))
		}
		// drop objects created in the body, keeping their value where referenced
		f := after(e, hdr)
		h := e.st.heap
		e.st.heap.each(func(key int, v *Term) {
			if n := f(v); n != v {
				h = h.set(key, n)
			}
		})
		e.st.heap = h
		for i := range e.phis {
			e.phis[i] = f(e.phis[i])
		}
		e.st.pc = f(e.st.pc)
		if x != nil {
			it.exitKinds[x] = append(it.exitKinds[x], it.posStr(lastPos(e.from)))
		}
		out = append(out, e)
	}
	// values computed in the loop and used after it
	for b := range l.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			t := fr.env[v]
			if t == nil {
				continue
			}
			n := t
			if b != l.header {
				n = after(edge{}, false)(t)
			} else {
				var cs []Case
				same := true
				for k, e := range live {
					y := t
					if e.next != nil {
						y = subst(y, e.next)
					} else if e.was != nil {
						y = subst(y, e.was)
					}
					y = after(e, e.atHead(l))(y)
					same = same && (k == 0 || y == n)
					n = y
					cs = append(cs, Case{[]*Term{mkInt(int64(k))}, false, y})
				}
				if !same {
					n = mkGamma(x, cs)
				}
			}
			fr.env[v] = n
		}
	}
	return out
}

// leaveAtOnce: a carried value that ends the loop at the head of the next round
// as soon as it changes is followed where it changes.
func (it *Interp) leaveAtOnce(fr *Frame, l *loop, lc *LoopCtx, entry State, live []edge, muOrder []*Term, inits, steps map[*Term]*Term, backPC *Term) ([]edge, map[*Term]*Term, *Term) {
	if backPC == nil || backPC == tFalse {
		return live, steps, backPC
	}
	// values whose change alone ends the loop come before those that only change
	// together with them
	for k := range 2 * len(muOrder) {
		m, alone := muOrder[k%len(muOrder)], k < len(muOrder)
		if steps[m] == nil || steps[m] == m || !isConstTerm(inits[m]) {
			continue
		}
		stay := tEq(m, inits[m])
		cover := tFalse
		for _, e := range live {
			cover = bOr(cover, restrict(e.st.pc, entry.pc))
		}
		if cover == tTrue {
			continue
		}
		S := map[*Term]*Term{lc.it: tAdd(lc.it, mkInt(1))}
		F := map[*Term]*Term{m: inits[m]}
		ok := true
		for _, x := range muOrder {
			if steps[x] == nil {
				ok = false
				break
			}
			S[x] = restrict(steps[x], backPC)
		}
		if !ok {
			continue
		}
		if implied(bNot(stay), cover) != alone {
			continue
		}
		if !alone {
			// by induction: the value is the first one, or it changed in the last
			// round, and what it changed to ends the loop
			was := subst(bAnd(backPC, bNot(subst(stay, S))), F)
			if !implied(was, subst(subst(cover, S), F)) {
				continue
			}
		}
		changes := bNot(subst(stay, S))
		if !alone && implied(backPC, bNot(changes)) {
			continue
		}
		var kept, moved []edge
		for _, e := range live {
			late := bAnd(backPC, bAnd(changes, subst(restrict(e.st.pc, entry.pc), S)))
			k := substEdge(e, F)
			if !k.st.dead() {
				if k.next == nil {
					was := map[*Term]*Term{m: inits[m]}
					for x, v := range k.was {
						was[x] = v
					}
					k.was = was
				}
				kept = append(kept, k)
			}
			if late == tFalse || e.next != nil {
				continue
			}
			ok = ok && usedByPhisOnly(l, e.from)
			n := substEdge(substEdge(e, S), F)
			late = subst(late, F)
			n.st.pc = late
			n.next = S
			for k := 0; k < 4 && len(n.to.Instrs) == 1 && len(n.to.Succs) == 1; k++ {
				n = it.mkEdge(fr, n.to, n.to.Succs[0], n.st)
				n.next = S
				for i := range n.phis {
					n.phis[i] = subst(subst(n.phis[i], S), F)
				}
			}
			for i := range n.phis {
				n.phis[i] = restrict(n.phis[i], late)
			}
			same := false
			for i, o := range moved {
				if same = it.sameLeaving(lc, entry, o, n); same {
					moved[i].st.pc = bOr(o.st.pc, late)
					break
				}
			}
			if !same {
				moved = append(moved, n)
			}
		}
		if !ok {
			continue
		}
		live = append(kept, moved...)
		ns := map[*Term]*Term{}
		for x, t := range steps {
			ns[x] = subst(t, F)
		}
		ns[m] = inits[m]
		for x := range S {
			S[x] = subst(S[x], F)
		}
		steps = ns
		backPC = subst(bAnd(backPC, bNot(changes)), F)
	}
	return live, steps, backPC
}

func substEdge(e edge, m map[*Term]*Term) edge {
	e.phis = append([]*Term(nil), e.phis...)
	for i := range e.phis {
		e.phis[i] = subst(e.phis[i], m)
	}
	e.st.pc = subst(e.st.pc, m)
	h := e.st.heap
	e.st.heap.each(func(key int, v *Term) {
		if n := subst(v, m); n != v {
			h = h.set(key, n)
		}
	})
	e.st.heap = h
	return e
}

// sameLeaving: both edges go to the same place with the same values.
func (it *Interp) sameLeaving(lc *LoopCtx, entry State, a, b edge) bool {
	if a.to != b.to || len(a.phis) != len(b.phis) {
		return false
	}
	eq := func(x, y *Term) bool {
		return x == y || eqUnder(b.st.pc, x, y)
	}
	for i := range a.phis {
		if !eq(a.phis[i], b.phis[i]) {
			return false
		}
	}
	ok := true
	a.st.heap.diff(b.st.heap, func(k int, x *Term, xok bool, y *Term, yok bool) {
		root := termList[k]
		if lc.alloc[root] || ((!xok || !yok) && isAllocRoot(root) && !inHeap(entry.heap, k)) {
			return
		}
		if !xok {
			x = initialOf(root, y)
		}
		if !yok {
			y = initialOf(root, x)
		}
		ok = ok && eq(x, y)
	})
	return ok
}

// usedByPhisOnly: what the body of a loop computes before a block reaches the
// code after the loop only by the edges that leave it.
func usedByPhisOnly(l *loop, from *ssa.BasicBlock) bool {
	for b := range l.blocks {
		if b == l.header || !b.Dominates(from) {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if l.blocks[r.Block()] {
					continue
				}
				ph, ok := r.(*ssa.Phi)
				if !ok {
					return false
				}
				for k, o := range ph.Edges {
					if o == v && !l.blocks[ph.Block().Preds[k]] && len(ph.Block().Preds[k].Instrs) > 1 {
						return false
					}
				}
			}
		}
	}
	return true
}

func isConstTerm(t *Term) bool {
	switch t.k {
	case KInt, KStr, KBool, KNil:
		return true
	}
	return false
}

// mergePeeled leaves out exits that anticipate the test at the head of the
// next iteration: going round once more would leave there in the same state.
func (it *Interp) mergePeeled(fr *Frame, l *loop, lc *LoopCtx, entry State, live []edge, muOrder []*Term, steps map[*Term]*Term, backPC *Term) ([]edge, *Term) {
	h := -1
	for i, e := range live {
		if e.atHead(l) {
			if h >= 0 {
				return live, backPC
			}
			h = i
		}
	}
	if h < 0 {
		return live, backPC
	}
	S := map[*Term]*Term{lc.it: tAdd(lc.it, mkInt(1))}
	for _, m := range muOrder {
		if steps[m] == nil {
			return live, backPC
		}
		S[m] = restrict(steps[m], backPC)
	}
	hp := subst(restrict(live[h].st.pc, entry.pc), S)
	same := func(e edge, hv, ev *Term) bool {
		n := subst(hv, S)
		return n == ev || eqUnder(e.st.pc, n, ev)
	}
	var out []edge
	for i, orig := range live {
		e := orig
		// a block that only jumps on
		for k := 0; k < 4 && e.to != live[h].to && len(e.to.Instrs) == 1 && len(e.to.Succs) == 1; k++ {
			e = it.mkEdge(fr, e.to, e.to.Succs[0], e.st)
		}
		ok := i != h && e.to == live[h].to && implied(restrict(e.st.pc, entry.pc), hp)
		for k := range e.phis {
			ok = ok && same(e, live[h].phis[k], e.phis[k])
		}
		if ok {
			live[h].st.heap.diff(e.st.heap, func(k int, hv *Term, hok bool, ev *Term, eok bool) {
				root := termList[k]
				if lc.alloc[root] {
					return
				}
				if !hok || !eok {
					if isAllocRoot(root) && !inHeap(entry.heap, k) {
						return
					}
				}
				if !hok {
					hv = initialOf(root, ev)
				}
				if !eok {
					ev = initialOf(root, hv)
				}
				ok = ok && same(e, hv, ev)
			})
		}
		if ok {
			for _, in := range l.header.Instrs {
				v, isV := in.(ssa.Value)
				if !isV || fr.env[v] == nil || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					out := !l.blocks[r.Block()]
					if ph, isPhi := r.(*ssa.Phi); isPhi && out {
						// captured on the edges unless it is the value on another edge
						out = false
						for k, o := range ph.Edges {
							if o == v && !l.blocks[ph.Block().Preds[k]] {
								out = true
							}
						}
					}
					if out {
						ok = ok && same(e, fr.env[v], fr.env[v])
					}
				}
			}
		}
		if ok {
			backPC = bOr(backPC, e.st.pc)
			continue
		}
		out = append(out, orig)
	}
	return out, backPC
}

// canonLoop names the way a loop ended, its last iteration and its unresolved
// carried values by what the loop does rather than by where it stands; exits
// come in an order of their own.
func (it *Interp) canonLoop(l *loop, lc *LoopCtx, entry State, live []edge, muOrder []*Term, inits, steps map[*Term]*Term, tripN, backPC *Term) (*Term, map[*Term]*Term) {
	ph := mkSym("@it", 0, nil)
	ph.ub = 62
	P := map[*Term]*Term{}
	zero := map[*Term]*Term{}
	for r := 0; r < 3; r++ {
		next := map[*Term]*Term{lc.it: ph}
		for _, m := range muOrder {
			step := tNil
			init := inits[m]
			adds := false
			if steps[m] != nil {
				step = steps[m]
				if backPC != nil && backPC != tFalse {
					step = restrict(step, backPC)
				}
				// counted from zero, with the start added
				if d := addsTo(step, m); d != nil {
					adds = true
					init = mkInt(0)
					step = tNil
					if r > 0 {
						step = tAdd(zero[m], subst(d, P))
					}
				} else if r > 0 {
					step = subst(step, P)
				} else {
					step = tNil
				}
			}
			c := mkOp("@mu", init, step)
			if step == init && isConstTerm(init) {
				next[m], zero[m] = init, init
				continue
			}
			if c.ub == 0 {
				c.ub = m.ub
			}
			if c.typ == nil {
				c.typ = m.typ
			}
			c.bl = c.bl || m.bl
			next[m] = c
			zero[m] = c
			if adds {
				next[m] = tAdd(inits[m], c)
			}
		}
		P = next
	}
	type ex struct {
		c *Term
		e edge
	}
	var xs []ex
	for _, e := range live {
		c := e.st.pc
		if e.atHead(l) && tripN != nil {
			id := lc.id
			c = existsOut(c, func(d *Term) bool { return d.inLoop(id) || contains(d, lc.it) })
		}
		c = subst(restrict(c, entry.pc), P)
		xs = append(xs, ex{c, e})
	}
	sort.SliceStable(xs, func(i, j int) bool { return xs[i].c.id < xs[j].c.id })
	n := tripN
	if n == nil {
		n = tNil
	}
	key := []*Term{n}
	for i, x := range xs {
		live[i] = x.e
		key = append(key, x.c)
	}
	// the carried values the conditions depend on
	var ms []*Term
	for _, m := range muOrder {
		for _, k := range key[1:] {
			if !isConstTerm(zero[m]) && contains(k, zero[m]) {
				ms = append(ms, zero[m])
				break
			}
		}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	key = append(key, ms...)
	y := mkOp("exit#", key...)
	canon := map[*Term]*Term{}
	canon[lc.it] = mkOpB("xit#", 62, y)
	for _, m := range muOrder {
		if isConstTerm(zero[m]) {
			canon[m] = zero[m]
			continue
		}
		t := mkOp("xmu#", y, zero[m])
		if it.exitOf != nil {
			it.exitOf[t] = exitVal{m, zero[m] != P[m]}
		}
		if t.ub == 0 {
			t.ub = m.ub
		}
		if t.typ == nil {
			t.typ = m.typ
		}
		t.bl = t.bl || m.bl
		if zero[m] != P[m] {
			t = tAdd(inits[m], t)
		}
		canon[m] = t
	}
	if len(live) < 2 {
		return nil, canon
	}
	return y, canon
}

// addsTo: what a step adds to its carried value, when it does nothing else.
func addsTo(step, m *Term) *Term {
	if step.k != KLin {
		return nil
	}
	_, ms, fs := linParts(step)
	for i, a := range ms {
		if a == m && fs[i] == 1 {
			if d := tSub(step, m); !contains(d, m) {
				return d
			}
		}
	}
	return nil
}

func lastPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
		if f, ok := b.Instrs[i].(*ssa.If); ok && f.Cond.Pos().IsValid() {
			return f.Cond.Pos()
		}
	}
	return token.NoPos
}

// substClosed substitutes, but leaves bound iteration variables of closed forms
// (each/sum over the same variable) alone.
func substClosed(t *Term, m map[*Term]*Term, iter *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.args) == 0 && len(x.cases) == 0 {
			return x
		}
		if x.k == KOp && (x.op == "each" || x.op == "sum" || x.op == "flat" || x.op == "meach" || x.op == "group" || x.op == "catfor") && x.args[0] == iter {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		var r *Term
		if x.k == KGamma {
			d := rec(x.args[0])
			res, pc := tBot, tFalse
			for _, c := range x.cases {
				g := guardOf(d, c.vals, c.neg)
				if g == tFalse {
					continue
				}
				k := rec(c.kid)
				res = iteDC(pc, res, g, k)
				pc = bOr(pc, g)
			}
			r = res
		} else {
			args := make([]*Term, len(x.args))
			ch := false
			for i, a := range x.args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			r = x
			if ch {
				r = rebuild(x, args)
			}
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

// closedForm: the value after tripN iterations, when it can be expressed.
func (it *Interp) closedForm(m, init, step *Term, repr map[*Term]*Term, lc *LoopCtx, n, backPC *Term) *Term {
	if len(repr) > 0 && len(backPC.loops) > 0 {
		backPC = subst(backPC, repr)
	}
	if n.k == KGamma && step != nil {
		// a different number of rounds in different cases
		res, pc := tBot, tFalse
		for _, c := range n.cases {
			g := guardOf(n.args[0], c.vals, c.neg)
			l := *lc
			l.it = mkSym(itName(c.kid, 0), 0, lc.it.loops)
			if l.it.ub == 0 {
				l.it.ub = lc.it.ub
			}
			m2 := map[*Term]*Term{lc.it: l.it}
			at := func(t *Term) *Term { return restrict(subst(restrict(t, g), m2), g) }
			r2 := repr
			if repr[m] != nil {
				r2 = map[*Term]*Term{m: at(repr[m])}
			}
			v := it.closedForm(m, restrict(init, g), at(step), r2, &l, c.kid, at(backPC))
			if v == nil {
				return nil
			}
			res = iteDC(pc, res, g, v)
			pc = bOr(pc, g)
		}
		return res
	}
	if r := repr[m]; r != nil {
		if contains(r, lc.it) || r.k != KLin {
			// init + d*it
			if !hasLocalMu(r, lc.id) {
				return subst(r, map[*Term]*Term{lc.it: n})
			}
		}
		// expressed through another loop-carried value: its closed form applies
		base := r
		for _, a := range r.args {
			if a.k == KSym && strings.HasPrefix(a.op, "mu:"+lc.key+":") {
				base = a
			}
		}
		_ = base
		return nil
	}
	if step == nil {
		return nil
	}
	b := restrict(step, backPC)
	if numericTerm(init) && b.k != KGamma {
		d := tSub(b, m)
		direct := false
		_, ms, _ := linParts(d)
		for _, a := range ms {
			if a == m {
				direct = true
			}
		}
		if !direct {
			return tAdd(init, mkSum(lc.it, n, d))
		}
		return nil
	}
	if numericTerm(init) && b.k == KGamma {
		d := mapLeaves(b, func(l *Term) *Term { return tSub(l, m) })
		if topContains(d, m) {
			d = mapLeaves(cleanGamma(b), func(l *Term) *Term { return tSub(l, m) })
		}
		if !topContains(d, m) {
			return tAdd(init, mkSum(lc.it, n, d))
		}
		return nil
	}
	if d := textStep(b, m); d != nil {
		return mkCat(init, mkCatFor(lc.it, n, d))
	}
	// lists
	if parts, ok := listStep(b, m); ok {
		var segs []*Term
		segs = append(segs, segsOf(init)...)
		if len(parts) == 1 && len(parts[0].segs) == 1 && parts[0].segs[0].op == "elem" {
			c, v := parts[0].cond, parts[0].segs[0].args[0]
			if ps := overSegs(lc.it, n, c, v); ps != nil {
				for _, p := range ps {
					g := bAnd(p.cond, p.val(c))
					if p.it == nil && g != tTrue {
						ps = nil
						break
					}
				}
				if ps != nil {
					for _, p := range ps {
						if p.it == nil {
							segs = append(segs, mkOp("elem", p.val(v)))
						} else {
							segs = append(segs, mkOp("each", p.it, p.n, bAnd(p.cond, p.val(c)), p.val(v)))
						}
					}
					return mkSeq(segs)
				}
			}
			segs = append(segs, mkOp("each", lc.it, n, c, v))
		} else {
			// what a round adds, in the order of the rounds
			cond, body := tFalse, tBot
			for _, p := range parts {
				body = iteDC(cond, body, p.cond, mkOp("seq", p.segs...))
				cond = bOr(cond, p.cond)
			}
			segs = append(segs, roundsOf(lc.it, n, cond, body))
		}
		return mkSeq(segs)
	}
	if b.k == KOp && b.op == "upd" && b.args[0] == m && b.args[1] == lc.it && mkSeqLen(init) == n {
		return mkSeq([]*Term{mkOp("each", lc.it, n, tTrue, b.args[2])})
	}
	// every element of a list of the right length set in turn
	if v := setInTurn(b, m, init, lc.it); v != nil && mkSeqLen(init) == n {
		return mkSeq([]*Term{mkOp("each", lc.it, n, tTrue, v)})
	}
	// maps
	if c, k, v, ok := mapStep(b, m); ok {
		if body, keys := groupStep(v, m, k); body != nil && !contains(c, m) && !contains(k, m) {
			return mkOp("group", append([]*Term{lc.it, n, c, body, init, k}, keys...)...)
		}
		return mkOp("meach", lc.it, n, c, k, v, init)
	}
	return nil
}

// setInTurn: round i replaces element i of list m, or leaves it, and touches no other.
func setInTurn(b, m, init, i *Term) *Term {
	bad, some := false, false
	v := mapLeaves(b, func(l *Term) *Term {
		if l == m {
			return mkSeqIdx(init, i, nil)
		}
		if l.k != KOp || l.op != "seq" || len(l.args) != 3 {
			bad = true
			return l
		}
		x, e, y := l.args[0], l.args[1], l.args[2]
		if x.op != "sub" || x.args[0] != m || x.args[1] != mkInt(0) || x.args[2] != i || e.op != "elem" ||
			y.op != "sub" || y.args[0] != m || y.args[1] != tAdd(i, mkInt(1)) {
			bad = true
			return l
		}
		some = true
		v := e.args[0]
		if contains(v, m) {
			v = rewriteTerm(v, func(t *Term) *Term {
				if t.k == KOp && t.op == "idx" && t.args[0] == m && t.args[1] == i {
					return mkSeqIdx(init, i, t.typ)
				}
				return t
			})
		}
		if contains(v, m) {
			bad = true
		}
		return v
	})
	if bad || !some {
		return nil
	}
	return v
}

// cleanGamma decides inner case distinctions by the outer ones.
func cleanGamma(v *Term) *Term {
	if v.k != KGamma {
		return v
	}
	d := v.args[0]
	var cs []Case
	for _, c := range v.cases {
		cs = append(cs, Case{c.vals, c.neg, cleanGamma(decideIn(c.kid, d, c.vals, c.neg))})
	}
	return gammaOrdered(d, cs)
}

// decideIn resolves every distinction by d inside t, d being in the given set.
func decideIn(t, d *Term, vals []*Term, neg bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if !x.gam && x.k != KGamma {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := x
		if x.k == KGamma {
			var cs []Case
			for _, c := range x.cases {
				if x.args[0] == d {
					v, n := setInter(vals, neg, c.vals, c.neg)
					if setEmpty(v, n) {
						continue
					}
				}
				cs = append(cs, Case{c.vals, c.neg, rec(c.kid)})
			}
			if x.args[0] == d && len(cs) == 1 {
				r = cs[0].kid
			} else {
				r = gammaOrdered(x.args[0], cs)
			}
		} else {
			args := make([]*Term, len(x.args))
			ch := false
			for i, a := range x.args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			if ch {
				r = rebuild(x, args)
			}
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

func topContains(d, m *Term) bool {
	if d.k == KGamma {
		for _, c := range d.cases {
			if topContains(c.kid, m) {
				return true
			}
		}
		return false
	}
	_, ms, _ := linParts(d)
	for _, a := range ms {
		if a == m {
			return true
		}
	}
	return false
}

func hasLocalMu(t *Term, id int) bool {
	found := false
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if found || seen[x] || !x.inLoop(id) {
			return
		}
		seen[x] = true
		if x.k == KSym && strings.HasPrefix(x.op, "mu:") {
			found = true
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(t)
	return found
}

type listPart struct {
	cond *Term
	segs []*Term
}

// listStep recognises "append to m" on every path of b.
func listStep(b, m *Term) ([]listPart, bool) {
	var parts []listPart
	var rec func(b, cond *Term) bool
	rec = func(b, cond *Term) bool {
		if b == m {
			return true
		}
		if b.k == KGamma {
			for _, c := range b.cases {
				if !rec(c.kid, bAnd(cond, mkGuard(b.args[0], c.vals, c.neg))) {
					return false
				}
			}
			return true
		}
		if b.k == KOp && b.op == "seq" && len(b.args) >= 2 {
			h := b.args[0]
			if h.op == "sub" && h.args[0] == m && h.args[1] == mkInt(0) && h.args[2] == mkSeqLen(m) {
				for _, s := range b.args[1:] {
					if contains(s, m) {
						return false
					}
				}
				for i := range parts {
					if sameTerms(parts[i].segs, b.args[1:]) {
						parts[i].cond = bOr(parts[i].cond, cond)
						return true
					}
				}
				parts = append(parts, listPart{cond, b.args[1:]})
				return true
			}
		}
		return false
	}
	if !rec(b, tTrue) || len(parts) == 0 {
		return nil, false
	}
	return parts, true
}

func isListStep(b *Term) bool {
	is := false
	mapLeaves(b, func(l *Term) *Term {
		is = is || l.k == KOp && l.op == "seq"
		return l
	})
	return is
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// mapStep recognises "put into m" on every path of b (at most one binding).
func mapStep(b, m *Term) (cond, k, v *Term, ok bool) {
	cond = tFalse
	var rec func(b, c *Term) bool
	rec = func(b, c *Term) bool {
		if b == m {
			return true
		}
		if b.k == KGamma {
			for _, cs := range b.cases {
				if !rec(cs.kid, bAnd(c, mkGuard(b.args[0], cs.vals, cs.neg))) {
					return false
				}
			}
			return true
		}
		if b.k == KOp && b.op == "mput" && b.args[0] == m {
			if k != nil && k != b.args[1] {
				return false
			}
			if k == nil {
				k, v, cond = b.args[1], b.args[2], c
			} else {
				v = iteDC(cond, v, c, b.args[2])
				cond = bOr(cond, c)
			}
			return true
		}
		return false
	}
	if !rec(b, tTrue) || k == nil {
		return nil, nil, nil, false
	}
	return cond, k, v, true
}

// ---------------------------------------------------------------------------
// Functions.

// callFn analyses fn with the given arguments in the context of its caller.
func (it *Interp) callFn(parent *Frame, ctxName string, st State, fn *ssa.Function, args, binds []*Term) (*Term, State) {
	it.analysed[fn] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, parent: parent, ctx: it.ctxID(ctxName), loops: it.loopsOf(fn)}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = typed(args[i], p.Type())
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			fr.env[f] = binds[i]
		}
	}
	it.stackFns = append(it.stackFns, fn)
	it.runRegion(fr, nil, fn.Blocks[0], st)
	it.stackFns = it.stackFns[:len(it.stackFns)-1]
	out := State{pc: tFalse}
	var val *Term = tBot
	for _, r := range fr.rets {
		if r.st.dead() {
			continue
		}
		val = iteDC(out.pc, val, r.st.pc, r.val)
		if out.dead() {
			val = r.val
			out = r.st
		} else {
			out = it.join(out, r.st)
		}
	}
	return val, out
}

func (it *Interp) onStack(fn *ssa.Function) bool {
	for _, f := range it.stackFns {
		if f == fn {
			return true
		}
	}
	return false
}

func (it *Interp) describe(ev *Event) string {
	return fmt.Sprintf("%s in %s", it.posStr(ev.pos), ev.fn.String())
}
