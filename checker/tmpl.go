package main

import (
	"go/types"
	"strconv"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// Symbolic execution of html/template and text/template: the text a template
// with a known source writes for unknown data.

type tmplRun struct {
	it    *Interp
	fr    *Frame
	in    ssa.CallInstruction
	trees map[string]*parse.Tree
	vars  map[string]*Term
	outer []*Term // iteration variables of the enclosing ranges
	depth int
	bad   string
	html  bool
}

// render gives the text of executing template c on the data in args.
func (it *Interp) render(fr *Frame, st State, in ssa.CallInstruction, name string, c *Term, args []*Term) (*Term, State) {
	data := args[len(args)-1]
	var srcs []string
	main := ""
	html := false
	for c.k == KOp && c.op == "parsed" {
		if c.args[1].k != KStr {
			break
		}
		srcs = append([]string{c.args[1].op}, srcs...)
		c = c.args[0]
	}
	unknown := func(why string) (*Term, State) {
		it.emit(fr, st, in, "undecided", "template: "+why, nil, c)
		return mkOp("rendered", c, it.resolve(st, data)), st
	}
	if c.k != KOp || c.op != "tmpl" || c.args[1].k != KStr {
		return unknown("source not known")
	}
	main, html = c.args[1].op, c.args[0].op == "html"
	r := &tmplRun{html: html, it: it, fr: fr, in: in, trees: map[string]*parse.Tree{}, vars: map[string]*Term{}}
	for _, s := range srcs {
		ts := map[string]*parse.Tree{}
		t := parse.New(main)
		t.Mode = parse.SkipFuncCheck
		if _, err := t.Parse(s, "", "", ts); err != nil {
			return unknown(err.Error())
		}
		for n, t := range ts {
			if old := r.trees[n]; old != nil && parse.IsEmptyTree(t.Root) {
				continue
			}
			r.trees[n] = t
		}
	}
	if strings.HasSuffix(name, "ExecuteTemplate") {
		if args[2].k != KStr {
			return unknown("name not known")
		}
		main = args[2].op
	}
	t := r.trees[main]
	if t == nil {
		return unknown("no template " + main)
	}
	r.vars["$"] = data
	s, st := r.walk(st, data, t.Root)
	if r.bad != "" {
		return unknown(r.bad)
	}
	return s, st
}

func (r *tmplRun) fail(why string) *Term {
	if r.bad == "" {
		r.bad = why
	}
	return mkStr("")
}

func (r *tmplRun) walk(st State, dot *Term, n parse.Node) (*Term, State) {
	switch n := n.(type) {
	case *parse.ListNode:
		out := mkStr("")
		if n == nil {
			return out, st
		}
		for _, k := range n.Nodes {
			var s *Term
			s, st = r.walk(st, dot, k)
			out = mkCat(out, s)
		}
		return out, st
	case *parse.TextNode:
		return mkStr(string(n.Text)), st
	case *parse.CommentNode:
		return mkStr(""), st
	case *parse.ActionNode:
		var v *Term
		v, st = r.pipe(st, dot, n.Pipe)
		if len(n.Pipe.Decl) > 0 {
			return mkStr(""), st
		}
		s, st := r.it.fmtValue(r.fr, st, r.in, "v", v)
		if r.html && !trusted(v) {
			s = mkEsc("esc", s)
		}
		return s, st
	case *parse.IfNode:
		v, st := r.pipe(st, dot, n.Pipe)
		c := r.truth(st, v)
		a, st := r.walk(st, dot, n.List)
		b, st := r.walk(st, dot, n.ElseList)
		return iteDC(c, a, bNot(c), b), st
	case *parse.WithNode:
		v, st := r.pipe(st, dot, n.Pipe)
		c := r.truth(st, v)
		a, st := r.walk(st, v, n.List)
		b, st := r.walk(st, dot, n.ElseList)
		return iteDC(c, a, bNot(c), b), st
	case *parse.RangeNode:
		v, st := r.pipe(st, dot, n.Pipe)
		return r.rng(st, dot, v, n)
	case *parse.TemplateNode:
		t := r.trees[n.Name]
		if t == nil || r.depth > 20 {
			return r.fail("no template " + n.Name), st
		}
		v := tNil
		if n.Pipe != nil {
			v, st = r.pipe(st, dot, n.Pipe)
		}
		old := r.vars
		r.vars = map[string]*Term{"$": v}
		r.depth++
		s, st := r.walk(st, v, t.Root)
		r.depth--
		r.vars = old
		return s, st
	}
	return r.fail("construct " + n.String()), st
}

func (r *tmplRun) rng(st State, dot, v *Term, n *parse.RangeNode) (*Term, State) {
	if v.k == KGamma {
		res, pc := tBot, tFalse
		for _, c := range v.cases {
			g := guardOf(v.args[0], c.vals, c.neg)
			s2 := st
			s2.pc = bAnd(st.pc, g)
			s, _ := r.rng(s2, dot, c.kid, n)
			res = iteDC(pc, res, g, s)
			pc = bOr(pc, g)
		}
		return res, st
	}
	var et types.Type
	if v.k == KIface {
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		}
	}
	if et == nil {
		return r.fail("range over something else than a list"), st
	}
	list := r.it.content(st, v.args[0])
	if list.k == KGamma {
		res, pc := tBot, tFalse
		for _, c := range list.cases {
			g := guardOf(list.args[0], c.vals, c.neg)
			if bAnd(g, st.pc) == tFalse {
				continue
			}
			s, _ := r.overList(st, dot, c.kid, et, n)
			res = iteDC(pc, res, g, s)
			pc = bOr(pc, g)
		}
		return res, st
	}
	return r.overList(st, dot, list, et, n)
}

func (r *tmplRun) overList(st State, dot, list *Term, et types.Type, n *parse.RangeNode) (*Term, State) {
	if list.k == KGamma {
		res, pc := tBot, tFalse
		for _, c := range list.cases {
			g := guardOf(list.args[0], c.vals, c.neg)
			s, _ := r.overList(st, dot, c.kid, et, n)
			res = iteDC(pc, res, g, s)
			pc = bOr(pc, g)
		}
		return res, st
	}
	cnt := mkSeqLen(list)
	if list.k == KNil {
		cnt = mkInt(0)
	}
	d := 0
	for _, o := range r.outer {
		if strings.HasPrefix(o.op, "it:"+strconv.Itoa(cnt.id)+".") {
			d++
		}
	}
	i := mkSym(itName(cnt, d), 0, cnt.loops)
	if i.ub == 0 {
		i.ub = 62
	}
	elem := mkSeqIdx(list, i, et)
	if !types.IsInterface(et) {
		elem = mkIface(et, elem)
	}
	old := map[string]*Term{}
	for k, v := range r.vars {
		old[k] = v
	}
	if ds := n.Pipe.Decl; len(ds) > 0 {
		r.vars[ds[len(ds)-1].Ident[0]] = elem
		if len(ds) == 2 {
			r.vars[ds[0].Ident[0]] = mkIface(types.Typ[types.Int], i)
		}
	}
	r.outer = append(r.outer, i)
	body, st := r.walk(st, elem, n.List)
	r.outer = r.outer[:len(r.outer)-1]
	r.vars = old
	s := mkCatFor(i, cnt, body)
	if n.ElseList != nil {
		var e *Term
		e, st = r.walk(st, dot, n.ElseList)
		c := asBool(tEq(cnt, mkInt(0)))
		s = iteDC(c, e, bNot(c), s)
	}
	return s, st
}

func (r *tmplRun) pipe(st State, dot *Term, p *parse.PipeNode) (*Term, State) {
	var v *Term
	for i, c := range p.Cmds {
		v, st = r.cmd(st, dot, c, v)
		if i > 0 && v == nil {
			return r.fail("pipeline " + p.String()), st
		}
	}
	if v == nil {
		return r.fail("pipeline " + p.String()), st
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			return r.fail("assignment " + p.String()), st
		}
		r.vars[d.Ident[0]] = v
	}
	return v, st
}

func (r *tmplRun) cmd(st State, dot *Term, c *parse.CommandNode, piped *Term) (*Term, State) {
	if id, ok := c.Args[0].(*parse.IdentifierNode); ok {
		var as []*Term
		for _, a := range c.Args[1:] {
			var v *Term
			v, st = r.arg(st, dot, a)
			as = append(as, v)
		}
		if piped != nil {
			as = append(as, piped)
		}
		boolean := func(c *Term) *Term { return mkIface(types.Typ[types.Bool], c) }
		switch {
		case id.Ident == "len" && len(as) == 1 && as[0].k == KIface:
			if b, ok := as[0].typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return mkIface(types.Typ[types.Int], mkStrLen(as[0].args[0])), st
			}
			return mkIface(types.Typ[types.Int], mkSeqLen(r.it.content(st, as[0].args[0]))), st
		case id.Ident == "not" && len(as) == 1:
			return boolean(bNot(r.truth(st, as[0]))), st
		case id.Ident == "and" && len(as) == 2:
			t := r.truth(st, as[0])
			return iteDC(t, as[1], bNot(t), as[0]), st
		case id.Ident == "or" && len(as) == 2:
			t := r.truth(st, as[0])
			return iteDC(t, as[0], bNot(t), as[1]), st
		case (id.Ident == "eq" || id.Ident == "ne") && len(as) == 2 && as[0].k == KIface && as[1].k == KIface:
			e := asBool(tEq(as[0].args[0], as[1].args[0]))
			if id.Ident == "ne" {
				e = bNot(e)
			}
			return boolean(e), st
		case (id.Ident == "printf") && len(as) > 0 && as[0].k == KIface && as[0].args[0].k == KStr:
			va := mkSeq(nil)
			var segs []*Term
			for _, a := range as[1:] {
				segs = append(segs, mkOp("elem", a))
			}
			if len(segs) > 0 {
				va = mkSeq(segs)
			}
			s, st := r.it.sprintf(r.fr, st, r.in, as[0].args[0], va)
			return mkIface(types.Typ[types.String], s), st
		case (id.Ident == "print" || id.Ident == "html" || id.Ident == "urlquery" || id.Ident == "js") && len(as) == 1:
			s, st := r.it.fmtValue(r.fr, st, r.in, "v", as[0])
			if id.Ident == "html" {
				s = mkEsc("htmlesc", s)
			}
			return mkIface(types.Typ[types.String], s), st
		}
		return r.fail("function " + id.Ident), st
	}
	if len(c.Args) > 1 || piped != nil {
		return r.fail("command " + c.String()), st
	}
	return r.arg(st, dot, c.Args[0])
}

func (r *tmplRun) arg(st State, dot *Term, n parse.Node) (*Term, State) {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot, st
	case *parse.NilNode:
		return tNil, st
	case *parse.BoolNode:
		return mkIface(types.Typ[types.Bool], mkBool(n.True)), st
	case *parse.StringNode:
		return mkIface(types.Typ[types.String], mkStr(n.Text)), st
	case *parse.NumberNode:
		if n.IsInt {
			return mkIface(types.Typ[types.Int], mkInt(n.Int64)), st
		}
	case *parse.FieldNode:
		return r.chain(st, dot, n.Ident)
	case *parse.VariableNode:
		v := r.vars[n.Ident[0]]
		if v == nil {
			return r.fail("variable " + n.Ident[0]), st
		}
		return r.chain(st, v, n.Ident[1:])
	case *parse.ChainNode:
		v, st := r.arg(st, dot, n.Node)
		return r.chain(st, v, n.Field)
	case *parse.PipeNode:
		return r.pipe(st, dot, n)
	}
	return r.fail("operand " + n.String()), st
}

func (r *tmplRun) chain(st State, v *Term, names []string) (*Term, State) {
	for _, n := range names {
		v, st = r.field(st, v, n)
	}
	return v, st
}

func (r *tmplRun) field(st State, v *Term, name string) (*Term, State) {
	if v.k == KGamma {
		res, pc := tBot, tFalse
		for _, c := range v.cases {
			g := guardOf(v.args[0], c.vals, c.neg)
			x, _ := r.field(st, c.kid, name)
			res = iteDC(pc, res, g, x)
			pc = bOr(pc, g)
		}
		return res, st
	}
	if v.k != KIface {
		return r.fail("field " + name + " of an unknown value"), st
	}
	t, x := v.typ, v.args[0]
	obj, path, _ := types.LookupFieldOrMethod(t, true, nil, name)
	switch o := obj.(type) {
	case *types.Var:
		for _, i := range path {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
				x = r.it.load(st, x, t)
			}
			s := structOf(t)
			if s == nil {
				return r.fail("field " + name), st
			}
			t = s.Field(i).Type()
			x = mkFld(x, i, t)
		}
		x = restrict(x, st.pc)
		if types.IsInterface(t) {
			return x, st
		}
		return mkIface(t, x), st
	case *types.Func:
		sg := o.Type().(*types.Signature)
		sel := r.it.prog.MethodSets.MethodSet(t).Lookup(o.Pkg(), name)
		if sel == nil || sg.Params().Len() != 0 || sg.Results().Len() != 1 {
			break
		}
		fn := r.it.prog.MethodValue(sel)
		if fn == nil {
			break
		}
		res, st := r.it.callStatic(r.fr, st, r.in, fn, []*Term{x}, nil, "T"+strconv.Itoa(x.id)+name)
		rt := sg.Results().At(0).Type()
		if types.IsInterface(rt) {
			return res, st
		}
		return mkIface(rt, res), st
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		val, _ := mkMapGet(r.it.content(st, x), mkStr(name), m.Elem())
		if types.IsInterface(m.Elem()) {
			return val, st
		}
		return mkIface(m.Elem(), val), st
	}
	return r.fail("field " + name), st
}

// truth: what a template takes for true.
func (r *tmplRun) truth(st State, v *Term) *Term {
	if v.k == KGamma {
		return asBool(mapLeaves(v, func(l *Term) *Term { return r.truth(st, l) }))
	}
	if v.k == KNil {
		return tFalse
	}
	if v.k != KIface {
		r.fail("condition on an unknown value")
		return tFalse
	}
	x := v.args[0]
	switch u := v.typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return asBool(x)
		case u.Info()&types.IsString != 0:
			return bNot(asBool(tEq(x, mkStr(""))))
		case u.Info()&types.IsNumeric != 0:
			return bNot(asBool(tEq(x, mkInt(0))))
		}
	case *types.Slice, *types.Array:
		return bNot(asBool(tEq(mkSeqLen(r.it.content(st, x)), mkInt(0))))
	case *types.Pointer, *types.Signature, *types.Chan:
		return bNot(asBool(tEq(x, tNil)))
	case *types.Struct:
		return tTrue
	}
	r.fail("condition on a " + v.typ.String())
	return tFalse
}

// trusted: a value a template writes as it is, because of its type.
func trusted(v *Term) bool {
	t := false
	mapLeaves(v, func(l *Term) *Term {
		if l.k == KIface {
			if n, ok := l.typ.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "html/template" {
				t = true
			}
		}
		return l
	})
	return t
}

// mkEsc: a text with the characters of markup replaced.
func mkEsc(op string, s *Term) *Term {
	switch {
	case s.k == KGamma:
		return mapLeaves(s, func(l *Term) *Term { return mkEsc(op, l) })
	case s.k == KBot:
		return s
	case s.k == KStr && !strings.ContainsAny(s.op, "<>&'\"\x00"):
		return s
	case s.k == KOp && s.op == "cat":
		parts := make([]*Term, len(s.args))
		for i, a := range s.args {
			parts[i] = mkEsc(op, a)
		}
		return mkCat(parts...)
	case s.k == KOp && s.op == "catfor":
		return mkCatFor(s.args[0], s.args[1], mkEsc(op, s.args[2]))
	case s.k == KOp && s.op == "alt":
		return mkAlt(mkEsc(op, s.args[0]))
	case s.k == KOp && (s.op == "itoa" || s.op == "esc" && op == "esc"):
		return s
	}
	return typed(mkOp(op, s), s.typ)
}
