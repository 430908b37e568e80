package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the standard library functions the program uses.  Everything not
// listed is an unknown function of its arguments (pure packages) or an unknown
// effect, which is recorded so that rules can refuse to conclude.

type flagReg struct {
	name *Term
	ptr  *Term
	kind string
	def  *Term
	val  *Term // flag.Value interface for Var
}

func stripIface(t *Term) *Term {
	for t.k == KIface {
		t = t.args[0]
	}
	return t
}

func (it *Interp) okSym(fr *Frame, in ssa.Instruction, tag string) *Term {
	if it.okAll {
		return tTrue
	}
	return mkSym("?ok:"+it.site(fr, in)+tag, 0, it.activeLoops())
}

// outcome: 0 done, 1 and 2 the distinguished failures of a file system call.
func (it *Interp) outcome(fr *Frame, in ssa.Instruction) *Term {
	if it.okAll {
		return mkInt(0)
	}
	return mkSym("outcome:"+it.site(fr, in), 0, it.activeLoops())
}

func caseOf(d *Term, cs []Case) *Term {
	if isConst(d) {
		return kidFor(cs, d)
	}
	return mkGammaRaw(d, cs)
}

func (it *Interp) errIf(fr *Frame, in ssa.Instruction, ok *Term) *Term {
	e := mkOp("errval", mkStr(it.site(fr, in)))
	return iteDC(ok, tNil, bNot(ok), e)
}

// ---------------------------------------------------------------------------
// Streams.

// closedCell: has the file been closed? Closing it again is no new failure.
func closedCell(ref *Term) *Term { return mkSym("closed:"+strconv.Itoa(ref.id), 0, nil) }

func posCell(ref *Term) *Term { return mkSym("pos:"+strconv.Itoa(ref.id), 0, nil) }

func (it *Interp) getPos(st State, ref *Term) *Term {
	c := posCell(ref)
	if v, ok := st.heap.get(c.id); ok {
		return restrict(v, st.pc)
	}
	return mkInt(0)
}

func (it *Interp) setPos(st State, ref, v *Term) State {
	st.heap = st.heap.set(posCell(ref).id, v)
	return st
}

// srcOf: the underlying data of a reader.
func (it *Interp) srcOf(st State, ref *Term) (src *Term, isSeq bool) {
	if c, ok := st.heap.get(ref.id); ok && c.k == KOp {
		switch c.op {
		case "bufr":
			return c.args[0], false
		case "bytesr":
			return c.args[0], true
		}
	}
	return ref, false
}

// readSeq consumes n bytes.
func (it *Interp) readSeq(fr *Frame, st State, in ssa.Instruction, ref, n *Term, name string, advance bool) (data, ok *Term, out State) {
	off := it.getPos(st, ref)
	src, isSeq := it.srcOf(st, ref)
	if isSeq {
		data = mkSeqSlice(src, off, tAdd(off, n))
	} else {
		data = mkSeq([]*Term{mkOp("src", src, off, n)})
	}
	ok = tTrue
	if n != mkInt(0) && !it.okReads && !it.okAll {
		ok = mkOp("readok", src, off, n)
	}
	it.emit(fr, st, in, "read", name, data, ref, src, off, n)
	if advance {
		st = it.setPos(st, ref, tAdd(off, n))
	}
	st = it.noteFail(fr, st, in, name, ok)
	return data, ok, st
}

func numFrom(data *Term, n int) *Term {
	if n == 1 {
		return mapLeaves(data, func(l *Term) *Term { return mkSeqIdx(l, mkInt(0), types.Typ[types.Uint8]) })
	}
	return mkBE(data, n)
}

// ---------------------------------------------------------------------------
// Text buffers.

func sbCell(ref *Term) *Term { return mkSym("sb:"+strconv.Itoa(ref.id), 0, nil) }

func (it *Interp) sbGet(st State, ref *Term) *Term {
	if v, ok := st.heap.get(sbCell(ref).id); ok {
		return restrict(v, st.pc)
	}
	return mkStr("")
}

func (it *Interp) sbAppend(st State, ref, s *Term) State {
	st.heap = st.heap.set(sbCell(ref).id, mkCat(it.sbGet(st, ref), s))
	return st
}

func isBufferType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := types.TypeString(t, nil)
	return s == "strings.Builder" || s == "bytes.Buffer"
}

func isBufferRef(r *Term) bool { return r.typ != nil && isBufferType(r.typ) }

// writeTo delivers text to a writer.
func (it *Interp) writeTo(fr *Frame, st State, in ssa.Instruction, w, s *Term, kind, name string) (ok *Term, out State) {
	if w.k == KGamma {
		r, o := it.split(st, w, func(s2 State, l *Term) (*Term, State) {
			return it.writeTo(fr, s2, in, l, s, kind, name)
		})
		return r, o
	}
	if w.k == KIface && isBufferType(w.typ) || w.typ != nil && isBufferType(w.typ) {
		return tTrue, it.sbAppend(st, stripIface(w), s)
	}
	ref := stripIface(w)
	if it.capture != nil && ref == it.capture {
		return tTrue, it.sbAppend(st, ref, s)
	}
	if c, has := st.heap.get(ref.id); has && c.k == KOp && c.op == "bufw" {
		if u := c.args[0]; u == it.capture && u != nil || isBufferRef(u) {
			return tTrue, it.sbAppend(st, u, s)
		}
		it.emit(fr, st, in, kind, name, nil, c.args[0], s, ref)
		st.heap = st.heap.set(dirtyCell(ref).id, tTrue)
		return tTrue, st
	}
	if w.k == KIface && it.repoWriter(w.typ) != nil {
		// a writer type of the program itself: run its Write method
		fn := it.repoWriter(w.typ)
		ci, isCall := in.(ssa.CallInstruction)
		if isCall {
			data := mkSeq([]*Term{mkOp("bytesof", s)})
			if s.k == KOp && s.op == "str" {
				data = s.args[0]
			}
			r, o := it.callStatic(fr, st, ci, fn, []*Term{w.args[0], data}, nil, "W")
			return tEq(mkExtract(r, 1, nil), tNil), o
		}
	}
	it.emit(fr, st, in, kind, name, nil, ref, s, w)
	ok = it.okSym(fr, in, "w")
	return ok, st
}

// A stream that values are encoded to and then decoded from keeps them in order.
func (it *Interp) gobCell(st State, ref *Term) *Term {
	ref = stripIface(ref)
	if c, ok := st.heap.get(ref.id); ok && c.k == KOp && (c.op == "bufw" || c.op == "bufr") {
		ref = stripIface(c.args[0])
	}
	return mkSym("gob:"+strconv.Itoa(ref.id), 0, nil)
}

func (it *Interp) gobPush(st State, ref, v *Term) State {
	cell := it.gobCell(st, ref)
	var q []*Term
	if c, ok := st.heap.get(cell.id); ok {
		if c.k != KOp || c.op != "gobq" {
			return st
		}
		q = c.args
	}
	st.heap = st.heap.set(cell.id, mkOp("gobq", append(append([]*Term(nil), q...), v)...))
	return st
}

func (it *Interp) gobPop(st State, ref, dst *Term, typ types.Type) (*Term, State) {
	cell := it.gobCell(st, ref)
	c, ok := st.heap.get(cell.id)
	if !ok || c.k != KOp || c.op != "gobq" || len(c.args) == 0 {
		return nil, st
	}
	// fields that are zero in the stream leave the target as it is
	if old := it.load(st, dst, typ); old != zeroOf(typ) {
		return nil, st
	}
	st.heap = st.heap.set(cell.id, mkOp("gobq", c.args[1:]...))
	v := c.args[0]
	if v.k != KIface {
		return nil, st
	}
	src := v.typ
	if p, ok := src.Underlying().(*types.Pointer); ok {
		src = p.Elem()
	}
	return gobConv(v.args[0], src, typ), st
}

// gobConv: what arrives in a target of the given type: exported fields by name.
func gobConv(v *Term, from, typ types.Type) *Term {
	stt, ok := typ.Underlying().(*types.Struct)
	if !ok || gobSelf(typ) {
		return v
	}
	if v.k == KGamma {
		return mapLeaves(v, func(l *Term) *Term { return gobConv(l, from, typ) })
	}
	src, _ := from.Underlying().(*types.Struct)
	args := make([]*Term, stt.NumFields())
	for i := range args {
		f := stt.Field(i)
		args[i] = zeroOf(f.Type())
		for j := 0; src != nil && f.Exported() && j < src.NumFields(); j++ {
			if src.Field(j).Name() == f.Name() {
				args[i] = gobConv(mkFld(v, j, src.Field(j).Type()), src.Field(j).Type(), f.Type())
			}
		}
	}
	return mkStruct(typ, args...)
}

// gobSelf: the type encodes itself.
func gobSelf(t types.Type) bool {
	for _, m := range []string{"GobEncode", "MarshalBinary", "MarshalText"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o != nil {
			return true
		}
	}
	return false
}

func dirtyCell(ref *Term) *Term { return mkSym("ghost:dirty:"+strconv.Itoa(ref.id), 0, nil) }

func (it *Interp) repoWriter(t types.Type) *ssa.Function {
	n := t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		n = p.Elem()
	}
	nt, ok := n.(*types.Named)
	if !ok || nt.Obj().Pkg() == nil || !strings.HasPrefix(nt.Obj().Pkg().Path(), repoModule) {
		return nil
	}
	sel := it.prog.MethodSets.MethodSet(t).Lookup(nil, "Write")
	if sel == nil {
		return nil
	}
	return it.prog.MethodValue(sel)
}

// ---------------------------------------------------------------------------
// Formatting.

func (it *Interp) fmtValue(fr *Frame, st State, in ssa.CallInstruction, verb string, a *Term) (*Term, State) {
	if a.k == KGamma {
		return it.split(st, a, func(s State, l *Term) (*Term, State) { return it.fmtValue(fr, s, in, verb, l) })
	}
	if a.k == KNil {
		return mkStr("<nil>"), st
	}
	if a.k == KOp && (a.op == "error" || a.op == "errval" || a.op == "errnew" || a.op == "wrapped") {
		return mkOp("errstr", a), st
	}
	if a.k != KIface {
		return mkOp("fmt:"+verb, a), st
	}
	t, v := a.typ, a.args[0]
	if verb == "T" {
		return mkStr(types.TypeString(t, nil)), st
	}
	if isErrorType(t) {
		return mkOp("errstr", v), st
	}
	if verb == "v" || verb == "s" || verb == "q" {
		for _, m := range []string{"Error", "String"} {
			sel := it.prog.MethodSets.MethodSet(t).Lookup(nil, m)
			if sel == nil {
				if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != nil {
					sel = it.prog.MethodSets.MethodSet(t).Lookup(nt.Obj().Pkg(), m)
				}
			}
			if sel == nil {
				continue
			}
			sg, ok := sel.Type().(*types.Signature)
			if !ok || sg.Params().Len() != 0 || sg.Results().Len() != 1 {
				continue
			}
			fn := it.prog.MethodValue(sel)
			if fn == nil {
				continue
			}
			r, s := it.callStatic(fr, st, in, fn, []*Term{v}, nil, "S"+strconv.Itoa(v.id))
			if verb == "q" {
				r = mkOp("quoted", r)
			}
			return r, s
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			if verb == "q" {
				return mkOp("quoted", v), st
			}
			if verb == "s" || verb == "v" {
				return v, st
			}
		case b.Info()&types.IsInteger != 0 && (verb == "v" || verb == "d"):
			return itoa(v), st
		case b.Info()&types.IsBoolean != 0 && (verb == "v" || verb == "t"):
			return iteDC(v, mkStr("true"), bNot(v), mkStr("false")), st
		}
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && verb == "s" {
		if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
			return mkStrOf(it.content(st, v)), st
		}
	}
	return mkOp("fmt:"+verb, typeTag(t), it.resolve(st, v)), st
}

func itoa(v *Term) *Term {
	return mapLeaves(v, func(l *Term) *Term {
		if l.k == KInt {
			return mkStr(strconv.FormatInt(l.i, 10))
		}
		return mkOp("itoa", l)
	})
}

// variadic: the elements of the variadic argument slice, when known.
func (it *Interp) variadic(st State, a *Term) ([]*Term, bool) {
	if a.k == KNil {
		return nil, true
	}
	c := it.content(st, a)
	if c.k == KNil {
		return nil, true
	}
	if c.k == KOp && c.op == "seq" {
		var out []*Term
		for _, s := range c.args {
			if s.op != "elem" {
				return nil, false
			}
			out = append(out, s.args[0])
		}
		return out, true
	}
	return nil, false
}

// joined: the texts of a list with a separator between them.
func joined(l, by *Term) *Term {
	if l.k == KNil || l.k == KBot {
		return mkStr("")
	}
	if l.k != KOp || l.op != "seq" {
		return nil
	}
	if els := elemsOf(l); els != nil {
		var out []*Term
		for i, e := range els {
			if i > 0 {
				out = append(out, by)
			}
			out = append(out, e)
		}
		return mkCat(out...)
	}
	// without the last separator
	r := ended(l, by)
	if r == nil {
		return nil
	}
	return mapLeaves(r, func(l *Term) *Term { return mkOp("chop", l, by) })
}

func elemsOf(l *Term) []*Term {
	var out []*Term
	for _, s := range l.args {
		if s.op != "elem" {
			return nil
		}
		out = append(out, s.args[0])
	}
	return out
}

// ended: the texts of a list with a separator behind each.
func ended(l, by *Term) *Term {
	if l.k == KGamma {
		bad := false
		r := mapLeaves(l, func(k *Term) *Term {
			e := ended(k, by)
			bad = bad || e == nil
			if e == nil {
				return k
			}
			return e
		})
		if bad {
			return nil
		}
		return r
	}
	if l.k == KBot {
		return l
	}
	if l.k != KOp || l.op != "seq" {
		return nil
	}
	var out []*Term
	for _, s := range l.args {
		var b *Term
		switch s.op {
		case "elem":
			out = append(out, s.args[0], by)
			continue
		case "each":
			b = mkCat(s.args[3], by)
		case "flat":
			b = ended(s.args[3], by)
		}
		if b == nil {
			return nil
		}
		out = append(out, mkCatFor(s.args[0], s.args[1], iteDC(s.args[2], b, bNot(s.args[2]), mkStr(""))))
	}
	return mkCat(out...)
}

func (it *Interp) sprintf(fr *Frame, st State, in ssa.CallInstruction, f *Term, va *Term) (*Term, State) {
	if f.k == KGamma {
		return it.split(st, f, func(s State, l *Term) (*Term, State) { return it.sprintf(fr, s, in, l, va) })
	}
	args, ok := it.variadic(st, va)
	if f.k != KStr || !ok {
		return mkOp("sprintf", f, it.resolve(st, va)), st
	}
	var parts []*Term
	s := f.op
	lit := ""
	ai := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit += string(s[i])
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.*[]", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			lit += s[i:]
			break
		}
		verb := s[i+1 : j+1]
		i = j
		if verb == "%" {
			lit += "%"
			continue
		}
		parts = append(parts, mkStr(lit))
		lit = ""
		flags := verb[:len(verb)-1]
		pad := strings.Trim(flags, "-0123456789*") == "" && flags != "" && !strings.HasPrefix(flags, "0")
		var width *Term = mkStr(flags)
		if pad {
			verb = verb[len(verb)-1:]
			if strings.Contains(flags, "*") && ai < len(args) {
				width = mkOp("width", width, args[ai])
				ai++
			}
		}
		if ai >= len(args) {
			parts = append(parts, mkStr("%!"+verb+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		if verb == "w" {
			verb = "v"
		}
		var p *Term
		p, st = it.fmtValue(fr, st, in, verb, a)
		if pad {
			p = mapLeaves(p, func(l *Term) *Term { return mkOp("padded", width, l) })
		}
		parts = append(parts, p)
	}
	if ai < len(args) {
		lit += "%!(EXTRA)"
	}
	parts = append(parts, mkStr(lit))
	return mkCat(parts...), st
}

func (it *Interp) sprint(fr *Frame, st State, in ssa.CallInstruction, va *Term, ln bool) (*Term, State) {
	args, ok := it.variadic(st, va)
	if !ok {
		return mkOp("sprint", it.resolve(st, va)), st
	}
	isStr := func(t *Term) bool {
		if t.k != KIface {
			return false
		}
		b, ok := t.typ.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	var parts []*Term
	for i, a := range args {
		if i > 0 && (ln || !isStr(a) && !isStr(args[i-1])) {
			parts = append(parts, mkStr(" "))
		}
		var p *Term
		p, st = it.fmtValue(fr, st, in, "v", a)
		parts = append(parts, p)
	}
	if ln {
		parts = append(parts, mkStr("\n"))
	}
	return mkCat(parts...), st
}

// ---------------------------------------------------------------------------
// Dispatch.

func baseName(n string) string {
	if i := strings.IndexByte(n, '['); i > 0 && !strings.HasPrefix(n, "(") {
		return n[:i]
	}
	return n
}

func (it *Interp) stdout(w string) *Term {
	return mkOp("deref", mkSym("glob:os."+w, 0, nil))
}

func (it *Interp) fallible(fr *Frame, st State, in ssa.Instruction, name string) (*Term, State) {
	ok := it.okSym(fr, in, "")
	return ok, it.noteFail(fr, st, in, name, ok)
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "math": true,
	"math/bits": true, "path": true, "path/filepath": true, "time": true, "encoding/base64": true, "encoding/hex": true,
	"errors": true, "html": true, "bytes": true, "cmp": true, "slices": true, "maps": true, "io/fs": true, "regexp": true,
	"encoding/json": true, "net/url": true, "text/tabwriter": false, "runtime": true, "runtime/debug": true,
}

func pkgOf(name string) string {
	n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		j := strings.IndexByte(n[i:], '.')
		if j < 0 {
			return n
		}
		return n[:i+j]
	}
	if j := strings.IndexByte(n, '.'); j >= 0 {
		return n[:j]
	}
	return n
}

func (it *Interp) external(fr *Frame, st State, in ssa.CallInstruction, fullName string, sig *types.Signature, args []*Term) (*Term, State) {
	name := baseName(fullName)
	two := func(a, b *Term) *Term { return mkTuple(a, b) }
	if strings.HasSuffix(name, ".init") {
		return tNil, st
	}
	// readers selected by a condition
	if len(args) > 0 && args[0].k == KGamma && streamFuncs[name] {
		return it.split(st, args[0], func(s State, l *Term) (*Term, State) {
			a := append([]*Term{l}, args[1:]...)
			return it.external(fr, s, in, fullName, sig, a)
		})
	}
	switch name {
	// ---- errors
	case "errors.New":
		return mkOp("errnew", mkStr(it.site(fr, in)), args[0]), st
	case "fmt.Errorf":
		va, ok := it.variadic(st, args[1])
		if ok && args[0].k == KStr && strings.Contains(args[0].op, "%w") {
			// keep the identity of wrapped sentinel errors
			n := strings.Count(args[0].op[:strings.Index(args[0].op, "%w")], "%") - 2*strings.Count(args[0].op[:strings.Index(args[0].op, "%w")], "%%")
			if n >= 0 && n < len(va) {
				return mapLeaves(va[n], func(l *Term) *Term { return wrapErr(l) }), st
			}
		}
		return mkOp("errnew", mkStr(it.site(fr, in))), st
	case "errors.Is":
		return gammaApply2(args[0], args[1], errIs), st
	case "bytes.Equal":
		return asBool(tEq(mkStrOf(it.content(st, args[0])), mkStrOf(it.content(st, args[1])))), st
	case "errors.Unwrap":
		return mapLeaves(args[0], func(l *Term) *Term {
			if l.k == KOp && l.op == "wrapped" {
				return l.args[0]
			}
			return typed(mkOp("unwrap", l), sig.Results().At(0).Type())
		}), st
	case "errors.As":
		return mkOp("?errorsas", args[0]), st
	case "errors.Join":
		va, ok := it.variadic(st, args[0])
		if ok {
			r := tTrue
			for _, a := range va {
				r = bAnd(r, tEq(a, tNil))
			}
			return iteDC(r, tNil, bNot(r), tErr), st
		}
		return typed(mkOp("joinerr", it.resolve(st, args[0])), sig.Results().At(0).Type()), st
	case "path/filepath.Join", "path.Join":
		if va, ok := it.variadic(st, args[0]); ok && len(va) > 0 {
			var ps []*Term
			for i, a := range va {
				if i > 0 {
					ps = append(ps, mkStr("/"))
				}
				ps = append(ps, a)
			}
			return typed(mkOp("ext:"+strings.TrimSuffix(name, "Join")+"Clean", mkCat(ps...)), sig.Results().At(0).Type()), st
		}
		return typed(mkOp("ext:"+name, it.resolve(st, args[0])), sig.Results().At(0).Type()), st
	case "os.IsExist", "os.IsNotExist":
		op := "errexist"
		if name == "os.IsNotExist" {
			op = "errnotexist"
		}
		return mapLeaves(args[0], func(l *Term) *Term {
			if l.k == KOp && l.op == op {
				return tTrue
			}
			if l.k == KNil || l.k == KOp && (l.op == "errval" || l.op == "errexist" || l.op == "errnotexist" || l.op == "error" || l.op == "errnew" || l.op == "wrapped") {
				return tFalse
			}
			return mkOp("?"+name, l)
		}), st

	// ---- formatting
	case "strings.Join":
		bad := false
		r := mapLeaves(it.content(st, args[0]), func(l *Term) *Term {
			s := joined(l, args[1])
			bad = bad || s == nil
			if s == nil {
				return l
			}
			return s
		})
		if bad || args[1].k == KGamma {
			break
		}
		return r, st
	case "fmt.Sprintf":
		return it.sprintf(fr, st, in, args[0], args[1])
	case "fmt.Sprint":
		return it.sprint(fr, st, in, args[0], false)
	case "fmt.Sprintln":
		return it.sprint(fr, st, in, args[0], true)
	case "fmt.Printf", "fmt.Print", "fmt.Println", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		w := it.stdout("Stdout")
		rest := args
		if strings.HasPrefix(name, "fmt.F") {
			w, rest = args[0], args[1:]
		}
		var s *Term
		if strings.HasSuffix(name, "f") {
			s, st = it.sprintf(fr, st, in, rest[0], rest[1])
		} else {
			s, st = it.sprint(fr, st, in, rest[0], strings.HasSuffix(name, "ln"))
		}
		ok, st := it.writeTo(fr, st, in, w, s, "print", name)
		return two(typed(mkOp("printed", s), types.Typ[types.Int]), it.errIf(fr, in, ok)), st
	case "fmt.Appendf":
		s, st := it.sprintf(fr, st, in, args[1], args[2])
		return mkConcat(it.content(st, args[0]), mkSeq([]*Term{mkOp("bytesof", s)})), st
	case "io.WriteString", "(*os.File).WriteString", "(*bufio.Writer).WriteString":
		w := args[0]
		if !strings.HasPrefix(name, "io.") && w.typ == nil {
			w = args[0]
		}
		ok, st := it.writeTo(fr, st, in, w, args[1], "print", name)
		return two(mkStrLen(args[1]), it.errIf(fr, in, ok)), st
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		return two(mkStrLen(args[1]), tNil), it.sbAppend(st, args[0], args[1])
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		return tNil, it.sbAppend(st, args[0], mapLeaves(args[1], func(l *Term) *Term {
			if l.k == KInt {
				return mkStr(string([]byte{byte(l.i)}))
			}
			return mkOp("strbyte", l)
		}))
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		s := mapLeaves(args[1], func(l *Term) *Term {
			if l.k == KInt {
				return mkStr(string(rune(l.i)))
			}
			return mkOp("strrune", l)
		})
		return two(mkStrLen(s), tNil), it.sbAppend(st, args[0], s)
	case "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		c := it.content(st, args[1])
		return two(mkSeqLen(c), tNil), it.sbAppend(st, args[0], mkStrOf(c))
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return it.sbGet(st, args[0]), st
	case "(*bytes.Buffer).Bytes":
		s := it.sbGet(st, args[0])
		return mapLeaves(s, func(l *Term) *Term {
			if l.k == KOp && l.op == "str" {
				return l.args[0]
			}
			return mkSeq([]*Term{mkOp("bytesof", l)})
		}), st
	case "(*bytes.Buffer).WriteTo", "io.Copy":
		dst, src := args[0], args[1]
		if name != "io.Copy" {
			dst, src = args[1], args[0]
		}
		ref := stripIface(src)
		var s *Term
		if src.k == KIface && isBufferType(src.typ) || isBufferRef(ref) {
			s = it.sbGet(st, ref)
			st.heap = st.heap.set(sbCell(ref).id, mkStr(""))
		} else if c, has := st.heap.get(ref.id); has && c.k == KOp && c.op == "bytesr" && it.getPos(st, ref) == mkInt(0) {
			s = mkStrOf(c.args[0])
			st = it.setPos(st, ref, mkSeqLen(c.args[0]))
		}
		if s == nil || dst.k == KGamma {
			break
		}
		ok, st := it.writeTo(fr, st, in, dst, s, "write", name)
		st = it.noteFail(fr, st, in, name, ok)
		n := mkStrLen(s)
		return two(iteDC(ok, n, bNot(ok), it.fresh("nwrite:", fr, in, types.Typ[types.Int])), it.errIf(fr, in, ok)), st
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return mkStrLen(it.sbGet(st, args[0])), st
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		st.heap = st.heap.set(sbCell(args[0]).id, mkStr(""))
		return tNil, st
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return tNil, st
	case "bytes.NewBuffer", "bytes.NewBufferString":
		r, st := it.newObj(fr, st, in, "buf", sig.Results().At(0).Type(), tNil)
		c := args[0]
		if name == "bytes.NewBuffer" {
			c = mkStrOf(it.content(st, c))
		}
		st.heap = st.heap.set(sbCell(r).id, c)
		return r, st

	// ---- readers
	case "bufio.NewReader", "bufio.NewReaderSize":
		if args[0].k == KGamma {
			break
		}
		under := stripIface(args[0])
		src, _ := it.srcOf(st, under)
		r, st := it.newObj(fr, st, in, "bufr", sig.Results().At(0).Type(), mkOp("bufr", src))
		st = it.setPos(st, r, it.getPos(st, under))
		st = it.setPos(st, under, it.fresh("pos?", fr, in, types.Typ[types.Uint64]))
		return r, st
	case "bytes.NewReader", "strings.NewReader":
		c := args[0]
		if name == "strings.NewReader" {
			c = mkSeq([]*Term{mkOp("bytesof", c)})
		} else {
			c = it.content(st, c)
		}
		r, st := it.newObj(fr, st, in, "bytesr", sig.Results().At(0).Type(), mkOp("bytesr", c))
		st = it.setPos(st, r, mkInt(0))
		return r, st
	case "(*bytes.Reader).Len":
		src, _ := it.srcOf(st, args[0])
		return tSub(mkSeqLen(src), it.getPos(st, args[0])), st
	case "(*bytes.Reader).Size":
		src, _ := it.srcOf(st, args[0])
		return mkSeqLen(src), st
	case "io.ReadFull", "io.ReadAtLeast":
		n := it.seqLen(st, args[1])
		if name == "io.ReadAtLeast" && !eqUnder(st.pc, args[2], n) {
			it.emit(fr, st, in, "shortread", name, nil, args...)
		}
		data, ok, st := it.readSeq(fr, st, in, stripIface(args[0]), n, name, true)
		st = it.writeBytes(st, args[1], mkInt(0), data)
		return two(iteDC(ok, n, bNot(ok), it.fresh("nread:", fr, in, types.Typ[types.Int])), it.errIf(fr, in, ok)), st
	case "io.CopyN":
		data, ok, st := it.readSeq(fr, st, in, stripIface(args[1]), args[2], name, true)
		if !isDiscard(args[0]) {
			var wok *Term
			wok, st = it.writeTo(fr, st, in, args[0], mkStrOf(data), "write", name)
			st = it.noteFail(fr, st, in, name, wok)
			ok = bAnd(ok, wok)
		}
		return two(iteDC(ok, args[2], bNot(ok), it.fresh("nread:", fr, in, types.Typ[types.Int])), it.errIf(fr, in, ok)), st
	case "encoding/binary.Read":
		return it.binaryRead(fr, st, in, args)
	case "encoding/binary.Write":
		return it.binaryWrite(fr, st, in, args)
	case "(*bufio.Reader).ReadByte", "(*bytes.Reader).ReadByte":
		data, ok, st := it.readSeq(fr, st, in, args[0], mkInt(1), name, true)
		return two(numFrom(data, 1), it.errIf(fr, in, ok)), st
	case "(*bufio.Reader).UnreadByte", "(*bytes.Reader).UnreadByte":
		it.emit(fr, st, in, "unread", name, nil, args[0])
		st = it.setPos(st, args[0], tSub(it.getPos(st, args[0]), mkInt(1)))
		if it.okReads {
			return tNil, st
		}
		ok, st := it.fallible(fr, st, in, name)
		return it.errIf(fr, in, ok), st
	case "(*bufio.Reader).Discard":
		_, ok, st := it.readSeq(fr, st, in, args[0], args[1], name, true)
		return two(iteDC(ok, args[1], bNot(ok), it.fresh("nread:", fr, in, types.Typ[types.Int])), it.errIf(fr, in, ok)), st
	case "(*bufio.Reader).Peek":
		data, ok, st := it.readSeq(fr, st, in, args[0], args[1], name, false)
		return two(data, it.errIf(fr, in, ok)), st
	case "(*bufio.Reader).Read", "(*os.File).Read", "(*bytes.Reader).Read":
		return it.ifaceMethod(fr, st, in, "Read", sig, args[0], args[1:])
	case "(*os.File).ReadAt", "(*bytes.Reader).ReadAt":
		return it.ifaceMethod(fr, st, in, "ReadAt", sig, args[0], args[1:])
	case "(*os.File).Seek", "(*bytes.Reader).Seek":
		return it.ifaceMethod(fr, st, in, "Seek", sig, args[0], args[1:])
	case "(*os.File).Write", "(*bufio.Writer).Write":
		return it.ifaceMethod(fr, st, in, "Write", sig, args[0], args[1:])
	case "(*os.File).Close":
		return it.ifaceMethod(fr, st, in, "Close", sig, args[0], args[1:])
	case "io.ReadAll":
		it.emit(fr, st, in, "readall", name, nil, args[0])
		ok, st := it.fallible(fr, st, in, name)
		ref := stripIface(args[0])
		off := it.getPos(st, ref)
		src, _ := it.srcOf(st, ref)
		d := mkOp("rest", src, off)
		st = it.setPos(st, ref, it.fresh("pos?", fr, in, types.Typ[types.Uint64]))
		return two(d, it.errIf(fr, in, ok)), st
	case "bufio.NewWriter", "bufio.NewWriterSize":
		r, st := it.newObj(fr, st, in, "bufw", sig.Results().At(0).Type(), mkOp("bufw", stripIface(args[0])))
		st.heap = st.heap.set(dirtyCell(r).id, tFalse)
		return r, st
	case "(*bufio.Writer).Flush":
		st.heap = st.heap.set(dirtyCell(args[0]).id, tFalse)
		it.emit(fr, st, in, "flush", name, nil, args[0])
		ok, st := it.fallible(fr, st, in, name)
		return it.errIf(fr, in, ok), st

	// ---- binary orders
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64",
		"(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64":
		bits, _ := strconv.Atoi(name[strings.LastIndex(name, "Uint")+4:])
		n := bits / 8
		l := it.seqLen(st, args[1])
		bad := tNeg(tSub(l, mkInt(int64(n))))
		if b := bAnd(st.pc, bad); b != tFalse && b.k != KBot {
			it.emit(fr, st, in, "ob", "slice", nil, bNot(bad), l)
		}
		c := it.content(st, args[1])
		if strings.Contains(name, "little") {
			return mkOpB("le"+strconv.Itoa(n), bits, mapLeaves(c, func(l *Term) *Term { return mkSeqSlice(l, mkInt(0), mkInt(int64(n))) })), st
		}
		return mkBE(c, n), st
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64",
		"(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64":
		bits, _ := strconv.Atoi(name[strings.LastIndex(name, "Uint")+4:])
		n := bits / 8
		l := it.seqLen(st, args[1])
		bad := tNeg(tSub(l, mkInt(int64(n))))
		if b := bAnd(st.pc, bad); b != tFalse && b.k != KBot {
			it.emit(fr, st, in, "ob", "slice", nil, bNot(bad), l)
		}
		op := "enc"
		if strings.Contains(name, "little") {
			op = "encle"
		}
		return tNil, it.writeBytes(st, args[1], mkInt(0), mkSeq([]*Term{mkOp(op, mkInt(int64(n)), args[2])}))
	case "(encoding/binary.bigEndian).AppendUint16", "(encoding/binary.bigEndian).AppendUint32", "(encoding/binary.bigEndian).AppendUint64",
		"(encoding/binary.littleEndian).AppendUint16", "(encoding/binary.littleEndian).AppendUint32", "(encoding/binary.littleEndian).AppendUint64":
		bits, _ := strconv.Atoi(name[strings.LastIndex(name, "Uint")+4:])
		op := "enc"
		if strings.Contains(name, "little") {
			op = "encle"
		}
		return mkConcat(it.content(st, args[1]), mkSeq([]*Term{mkOp(op, mkInt(int64(bits/8)), args[2])})), st

	// ---- gob
	case "encoding/gob.NewEncoder":
		return it.newObj(fr, st, in, "genc", sig.Results().At(0).Type(), mkOp("gobw", stripIface(args[0])))
	case "encoding/gob.NewDecoder":
		return it.newObj(fr, st, in, "gdec", sig.Results().At(0).Type(), mkOp("gobr", stripIface(args[0])))
	case "(*encoding/gob.Encoder).Encode":
		c, _ := st.heap.get(args[0].id)
		if c == nil {
			c = mkOp("gobw", args[0])
		}
		v := args[1]
		for v.k == KIface {
			pt, ok := v.typ.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			v = mkIface(pt.Elem(), it.load(st, v.args[0], pt.Elem()))
		}
		v = it.derefAll(st, v)
		it.emit(fr, st, in, "gobenc", name, nil, c.args[0], v)
		ok, st := it.fallible(fr, st, in, name)
		st = it.gobPush(st, c.args[0], v)
		return it.errIf(fr, in, ok), st
	case "(*encoding/gob.Decoder).Decode":
		c, _ := st.heap.get(args[0].id)
		if c == nil {
			c = mkOp("gobr", args[0])
		}
		v := args[1]
		if v.k == KIface {
			if pt, ok := v.typ.Underlying().(*types.Pointer); ok {
				var g *Term
				g, st = it.gobPop(st, c.args[0], v.args[0], pt.Elem())
				if g == nil {
					g = it.fresh("gob:", fr, in, pt.Elem())
				}
				it.emit(fr, st, in, "gobdec", name, g, c.args[0], v)
				st = it.store(st, v.args[0], g)
			}
		}
		ok, st := it.fallible(fr, st, in, name)
		return it.errIf(fr, in, ok), st
	case "encoding/gob.Register":
		return tNil, st

	// ---- sorting
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "sort.Strings", "slices.Sort", "sort.Ints", "sort.Sort", "sort.Stable":
		return it.sortCall(fr, st, in, name, args)

	// ---- operating system
	case "os.Exit":
		it.emit(fr, st, in, "exit", name, nil, args...)
		return tNil, State{pc: tFalse}
	case "log.Fatal", "log.Fatalf", "log.Fatalln":
		it.emit(fr, st, in, "exit", name, nil, mkInt(1))
		return tNil, State{pc: tFalse}
	case "os.Open", "os.OpenFile", "os.Create", "os.CreateTemp":
		return it.openFile(fr, st, in, name, sig, args)
	case "os.Mkdir", "os.MkdirAll", "os.Rename", "os.Remove", "os.RemoveAll", "os.WriteFile", "os.Truncate", "os.Chmod",
		"os.Symlink", "os.Link", "os.Chtimes", "os.Chown", "os.MkdirTemp":
		ra := it.resolveAll(st, args)
		it.emit(fr, st, in, "fs", name, nil, ra...)
		out := it.outcome(fr, in)
		okc := mkGuard(out, []*Term{mkInt(0)}, false)
		ex := mkGuard(out, []*Term{mkInt(1)}, false)
		site := mkStr(it.site(fr, in))
		err := caseOf(out, []Case{
			{[]*Term{mkInt(0)}, false, tNil},
			{[]*Term{mkInt(1)}, false, mkOp("errexist", site)},
			{[]*Term{mkInt(0), mkInt(1)}, true, mkOp("errval", site)}})
		if name != "os.Remove" && name != "os.RemoveAll" {
			if name == "os.Mkdir" || name == "os.Rename" {
				okc = bOr(okc, ex) // already there
			}
			st = it.noteFail(fr, st, in, name, okc)
		}
		if name == "os.MkdirTemp" {
			return two(mkOp("tempdir", ra...), err), st
		}
		return err, st
	case "os.Stat", "os.Lstat":
		ra := it.resolveAll(st, args)
		it.emit(fr, st, in, "fs", name, nil, ra...)
		out := mkSym("outcome:"+it.site(fr, in), 0, it.activeLoops()) // both outcomes are ordinary
		okc := mkGuard(out, []*Term{mkInt(0)}, false)
		ne := mkGuard(out, []*Term{mkInt(1)}, false)
		site := mkStr(it.site(fr, in))
		err := caseOf(out, []Case{
			{[]*Term{mkInt(0)}, false, tNil},
			{[]*Term{mkInt(1)}, false, mkOp("errnotexist", site)},
			{[]*Term{mkInt(0), mkInt(1)}, true, mkOp("errval", site)}})
		st = it.noteFail(fr, st, in, name, bOr(okc, ne))
		return two(typed(mkOp("fileinfo", ra[0]), sig.Results().At(0).Type()), err), st
	case "(*os.File).Stat":
		ok, st := it.fallible(fr, st, in, name)
		return two(typed(mkOp("fileinfo", args[0]), sig.Results().At(0).Type()), it.errIf(fr, in, ok)), st
	case "(*os.File).Sync", "(*os.File).Truncate", "(*os.File).Chmod":
		it.emit(fr, st, in, "fs", name, nil, args...)
		ok, st := it.fallible(fr, st, in, name)
		return it.errIf(fr, in, ok), st
	case "(*os.File).Name":
		return it.fileName(st, args[0]), st
	case "(*os.File).Fd":
		return typed(mkOp("fd", args[0]), sig.Results().At(0).Type()), st
	case "os.ReadFile":
		it.emit(fr, st, in, "fs", name, nil, it.resolveAll(st, args)...)
		ok, st := it.fallible(fr, st, in, name)
		return two(mkOp("filebytes", args[0]), it.errIf(fr, in, ok)), st
	case "os.Getenv", "os.Getpid", "os.Hostname", "os.Getwd", "os.TempDir", "os.LookupEnv":
		it.emit(fr, st, in, "nondet", name, nil, args...)
		return it.unknownResult(fr, in, sig, "env:"), st
	case "time.Now", "time.Since", "time.Until":
		it.emit(fr, st, in, "nondet", name, nil, args...)
		return it.unknownResult(fr, in, sig, "now:"), st
	case "time.Sleep":
		return tNil, st
	case "time.After", "time.Tick", "time.NewTicker", "time.NewTimer", "(*time.Ticker).Stop", "(*time.Timer).Stop", "(*time.Ticker).Reset":
		return it.unknownResult(fr, in, sig, "timer:"), st

	// ---- concurrency
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		k := "lock"
		if strings.Contains(name, "nlock") {
			k = "unlock"
		}
		it.emit(fr, st, in, k, name, nil, args[0])
		if k == "lock" {
			st.heap = st.heap.set(lockCell(args[0]).id, tTrue)
		} else {
			st.heap = st.heap.set(lockCell(args[0]).id, tFalse)
		}
		return tNil, st
	case "(*sync.Once).Do":
		return it.callVal(fr, st, in, in.Common(), args[1], nil, "O")
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		it.emit(fr, st, in, "wg", name, nil, args...)
		return tNil, st

	// ---- command line
	case "flag.NewFlagSet":
		r, st := it.newObj(fr, st, in, "flagset", sig.Results().At(0).Type(), mkOp("flagset", args[0], args[1]))
		return r, st
	case "(*flag.FlagSet).StringVar", "(*flag.FlagSet).BoolVar", "(*flag.FlagSet).IntVar":
		it.addFlag(args[0], flagReg{name: args[2], ptr: args[1], kind: name, def: args[3]})
		it.emit(fr, st, in, "flagreg", name, nil, args...)
		return tNil, it.store(st, args[1], args[3])
	case "(*flag.FlagSet).String", "(*flag.FlagSet).Bool", "(*flag.FlagSet).Int":
		r, st := it.newObj(fr, st, in, "flagv", sig.Results().At(0).Type(), args[2])
		it.addFlag(args[0], flagReg{name: args[1], ptr: r, kind: name, def: args[2]})
		it.emit(fr, st, in, "flagreg", name, nil, args...)
		return r, st
	case "(*flag.FlagSet).Var":
		it.addFlag(args[0], flagReg{name: args[2], val: args[1], kind: name})
		it.emit(fr, st, in, "flagreg", name, nil, args...)
		return tNil, st
	case "(*flag.FlagSet).Parse":
		return it.flagParse(fr, st, in, args)
	case "(*flag.FlagSet).SetOutput":
		it.emit(fr, st, in, "flagout", name, nil, args...)
		return tNil, st
	case "(*flag.FlagSet).PrintDefaults", "(*flag.FlagSet).Name", "(*flag.FlagSet).Output", "(*flag.FlagSet).NArg", "(*flag.FlagSet).Arg", "(*flag.FlagSet).Args", "(*flag.FlagSet).Parsed", "(*flag.FlagSet).NFlag":
		return it.unknownResult(fr, in, sig, "flagq:"), st

	// ---- templates
	case "html/template.New", "text/template.New":
		r, st := it.newObj(fr, st, in, "tmpl", sig.Results().At(0).Type(), mkOp("tmpl", mkStr(name[:4]), args[0]))
		return r, st
	case "(*html/template.Template).Parse", "(*text/template.Template).Parse":
		c, has := st.heap.get(args[0].id)
		if !has {
			c = mkOp("deref", args[0])
		}
		st.heap = st.heap.set(args[0].id, mkOp("parsed", c, args[1]))
		it.emit(fr, st, in, "tmplparse", name, nil, args...)
		ok := it.okSym(fr, in, "")
		return two(args[0], it.errIf(fr, in, ok)), st
	case "html/template.Must", "text/template.Must":
		return args[0], st
	case "(*html/template.Template).Execute", "(*text/template.Template).Execute", "(*html/template.Template).ExecuteTemplate", "(*text/template.Template).ExecuteTemplate":
		c, has := st.heap.get(args[0].id)
		if !has {
			c = mkOp("deref", args[0])
		}
		dest := args[1]
		it.emit(fr, st, in, "tmplexec", name, nil, stripIface(dest), c, it.resolve(st, args[len(args)-1]), dest)
		if d := stripIface(dest); dest.k == KIface && isBufferType(dest.typ) || it.capture != nil && d == it.capture {
			var s *Term
			s, st = it.render(fr, st, in, name, c, args)
			st = it.sbAppend(st, d, s)
		}
		ok, st := it.fallible(fr, st, in, name)
		return it.errIf(fr, in, ok), st
	}
	if strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "sync/atomic.") {
		return it.atomicCall(fr, st, in, name, sig, args)
	}
	if r, ok := pureFold(name, args); ok {
		return r, st
	}
	return it.genericExt(fr, st, in, name, sig, args)
}

var streamFuncs = map[string]bool{
	"io.ReadFull": true, "io.ReadAtLeast": true, "encoding/binary.Read": true, "(*bufio.Reader).ReadByte": true, "(*bufio.Reader).UnreadByte": true,
	"(*bufio.Reader).Discard": true, "(*bufio.Reader).Peek": true, "bufio.NewReader": true, "bufio.NewReaderSize": true, "io.ReadAll": true,
	"(*bytes.Reader).ReadByte": true, "(*os.File).Close": true, "(*os.File).Stat": true, "(*html/template.Template).Parse": true,
	"(*html/template.Template).Execute": true, "(*strings.Builder).WriteString": true, "(*flag.FlagSet).Parse": true,
}

func (it *Interp) resolveAll(st State, args []*Term) []*Term {
	out := make([]*Term, len(args))
	for i, a := range args {
		out[i] = it.resolve(st, a)
	}
	return out
}

func isDiscard(w *Term) bool {
	s := stripIface(w)
	return s.k == KOp && s.op == "deref" && s.args[0].op == "glob:io.Discard"
}

func wrapErr(l *Term) *Term {
	s := stripIface(l)
	if s.k == KOp {
		switch s.op {
		case "errnew":
			return mkOp("wrapped", s)
		case "wrapped":
			return s
		case "deref":
			return mkOp("wrapped", s)
		}
	}
	if s.k == KSym && strings.HasPrefix(s.op, "glob:") {
		return mkOp("wrapped", s)
	}
	if s.k == KOp && (s.op == "errval" || s.op == "errexist" || s.op == "errnotexist") {
		return mkOp("wrapped", s)
	}
	return mkOp("wrapped", tErr)
}

// errIs: does error e match the sentinel s?
func errIs(e, s *Term) *Term {
	if e.k == KNil {
		return tEq(s, tNil)
	}
	b := e
	for b.k == KOp && b.op == "wrapped" {
		b = b.args[0]
	}
	if b == s {
		return tTrue
	}
	if s.k == KOp && s.op == "errnew" {
		if b.k == KOp && (b.op == "errnew" || b.op == "errval" || b.op == "error" || b.op == "errexist" || b.op == "errnotexist") {
			return tFalse
		}
	}
	if s.k == KOp && s.op == "deref" && s.args[0].k == KSym {
		if b.k == KOp && b.op == "errnew" {
			return tFalse
		}
		g := s.args[0].op
		switch {
		case strings.HasSuffix(g, "ErrExist"):
			if b.k == KOp && (b.op == "errexist") {
				return tTrue
			}
			if b.k == KOp && (b.op == "errval" || b.op == "errnotexist" || b.op == "errnew") {
				return tFalse
			}
		case strings.HasSuffix(g, "ErrNotExist"):
			if b.k == KOp && (b.op == "errnotexist") {
				return tTrue
			}
			if b.k == KOp && (b.op == "errval" || b.op == "errexist" || b.op == "errnew") {
				return tFalse
			}
		}
	}
	return mkOp("?errIs", e, s)
}

// derefAll replaces pointers, maps and slices by their contents (deep value).
func (it *Interp) derefAll(st State, v *Term) *Term {
	v = it.resolve(st, v)
	memo := map[*Term]*Term{}
	var rec func(x *Term, d int) *Term
	rec = func(x *Term, d int) *Term {
		if d > 8 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := x
		switch x.k {
		case KSym:
			if strings.HasPrefix(x.op, "new:") {
				if c, ok := st.heap.get(x.id); ok {
					r = rec(it.resolve(st, c), d+1)
				}
			}
		case KStruct, KIface, KTuple:
			args := make([]*Term, len(x.args))
			for i, a := range x.args {
				args[i] = rec(a, d+1)
			}
			r = rebuild(x, args)
		case KGamma:
			r = mapLeaves(x, func(l *Term) *Term { return rec(l, d+1) })
		case KOp:
			if c, ok := st.heap.get(x.id); ok {
				r = c
			}
		}
		memo[x] = r
		return r
	}
	return rec(v, 0)
}

func (it *Interp) binaryRead(fr *Frame, st State, in ssa.CallInstruction, args []*Term) (*Term, State) {
	dst := args[2]
	if dst.k != KIface {
		it.emit(fr, st, in, "undecided", "binary.Read into an unknown target", nil)
		ok, st := it.fallible(fr, st, in, "encoding/binary.Read")
		return it.errIf(fr, in, ok), st
	}
	order := stripIface(args[1])
	little := false
	if args[1].k == KIface && strings.Contains(types.TypeString(args[1].typ, nil), "littleEndian") {
		little = true
	}
	_ = order
	var fields []types.Type
	pt, ok := dst.typ.Underlying().(*types.Pointer)
	if !ok {
		if sl, isSl := dst.typ.Underlying().(*types.Slice); isSl {
			if eb, isB := sl.Elem().Underlying().(*types.Basic); isB && eb.Kind() == types.Uint8 {
				n := it.seqLen(st, dst.args[0])
				data, rok, st := it.readSeq(fr, st, in, stripIface(args[0]), n, "encoding/binary.Read", true)
				st = it.writeBytes(st, dst.args[0], mkInt(0), data)
				return it.errIf(fr, in, rok), st
			}
		}
		it.emit(fr, st, in, "undecided", "binary.Read target", nil)
		o, st := it.fallible(fr, st, in, "encoding/binary.Read")
		return it.errIf(fr, in, o), st
	}
	et := pt.Elem()
	stt := structOf(et)
	if at, isArr := et.Underlying().(*types.Array); isArr {
		if eb, isB := at.Elem().Underlying().(*types.Basic); isB && eb.Kind() == types.Uint8 {
			n := mkInt(at.Len())
			data, rok, st := it.readSeq(fr, st, in, stripIface(args[0]), n, "encoding/binary.Read", true)
			st = it.writeBytes(st, mapPtr(dst.args[0], func(l *Term) *Term { return mkOp("slice", l, mkInt(0), n) }), mkInt(0), data)
			return it.errIf(fr, in, rok), st
		}
	}
	if stt != nil {
		for i := 0; i < stt.NumFields(); i++ {
			fields = append(fields, stt.Field(i).Type())
		}
	} else {
		fields = []types.Type{et}
	}
	total := int64(0)
	for _, f := range fields {
		n, ok := fixedSize(f)
		if !ok {
			it.emit(fr, st, in, "undecided", "binary.Read target", nil)
			o, st := it.fallible(fr, st, in, "encoding/binary.Read")
			return it.errIf(fr, in, o), st
		}
		total += int64(n)
	}
	data, rok, st := it.readSeq(fr, st, in, stripIface(args[0]), mkInt(total), "encoding/binary.Read", true)
	var vals []*Term
	at := int64(0)
	for _, f := range fields {
		n, _ := fixedSize(f)
		part := mapLeaves(data, func(l *Term) *Term { return mkSeqSlice(l, mkInt(at), mkInt(at+int64(n))) })
		at += int64(n)
		raw := numFrom(part, n)
		if little && n > 1 {
			raw = mkOpB("le"+strconv.Itoa(n), 8*n, part)
		}
		vals = append(vals, fromRaw(raw, n, f))
	}
	v := vals[0]
	if stt != nil {
		v = mkStruct(et, vals...)
	}
	old := it.load(st, dst.args[0], et)
	st = it.store(st, dst.args[0], iteDC(rok, v, bNot(rok), old))
	return it.errIf(fr, in, rok), st
}

// prefixOfBytes: whether a text made of a known number of bytes begins with q;
// nil when p is no such text.
func prefixOfBytes(p *Term, q string) *Term {
	if p.k != KOp || p.op != "str" {
		return nil
	}
	n := mkSeqLen(p.args[0])
	if n.k != KInt {
		return nil
	}
	if n.i < int64(len(q)) {
		return tFalse
	}
	return asBool(tEq(mkStrOf(mkSeqSlice(p.args[0], mkInt(0), mkInt(int64(len(q))))), mkStr(q)))
}

func fixedSize(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.Int8, types.Uint8:
		return 1, true
	case types.Int16, types.Uint16:
		return 2, true
	case types.Int32, types.Uint32, types.Float32:
		return 4, true
	case types.Int64, types.Uint64, types.Float64:
		return 8, true
	}
	return 0, false
}

// fromRaw reinterprets an unsigned n-byte number as a value of type t.
func fromRaw(raw *Term, n int, t types.Type) *Term {
	b := t.Underlying().(*types.Basic)
	switch {
	case b.Info()&types.IsBoolean != 0:
		return bNot(tEq(raw, mkInt(0)))
	case b.Info()&types.IsFloat != 0:
		return mapLeaves(raw, func(l *Term) *Term { return mkOp("f"+strconv.Itoa(n), l) })
	case b.Info()&types.IsUnsigned == 0 && n < 8:
		return mapLeaves(raw, func(l *Term) *Term { return typed(mkOp("s"+strconv.Itoa(8*n), l), t) })
	}
	return raw
}

func (it *Interp) binaryWrite(fr *Frame, st State, in ssa.CallInstruction, args []*Term) (*Term, State) {
	v := args[2]
	op := "enc"
	if args[1].k == KIface && strings.Contains(types.TypeString(args[1].typ, nil), "littleEndian") {
		op = "encle"
	}
	var data *Term
	if v.k == KIface {
		if n, ok := fixedSize(v.typ); ok {
			data = mkSeq([]*Term{mkOp(op, mkInt(int64(n)), v.args[0])})
		} else if _, ok := v.typ.Underlying().(*types.Slice); ok {
			c := it.content(st, v.args[0])
			if el, n, ok := fixedElems(c, v.typ.Underlying().(*types.Slice).Elem()); ok {
				var segs []*Term
				for _, e := range el {
					segs = append(segs, mkOp(op, mkInt(int64(n)), e))
				}
				data = mkSeq(segs)
			}
		} else if stt := structOf(v.typ); stt != nil {
			var segs []*Term
			for i := 0; i < stt.NumFields(); i++ {
				n, ok := fixedSize(stt.Field(i).Type())
				if !ok {
					segs = nil
					break
				}
				segs = append(segs, mkOp(op, mkInt(int64(n)), mkFld(v.args[0], i, stt.Field(i).Type())))
			}
			if segs != nil {
				data = mkSeq(segs)
			}
		}
	}
	if data == nil {
		it.emit(fr, st, in, "undecided", "binary.Write value", nil)
		data = mkOp("binwrite", it.resolve(st, v))
	}
	ok, st := it.writeTo(fr, st, in, args[0], mkStrOf(data), "write", "encoding/binary.Write")
	st = it.noteFail(fr, st, in, "encoding/binary.Write", ok)
	return it.errIf(fr, in, ok), st
}

func fixedElems(c *Term, et types.Type) ([]*Term, int, bool) {
	n, ok := fixedSize(et)
	if !ok || c.k != KOp || c.op != "seq" {
		return nil, 0, false
	}
	var out []*Term
	for _, s := range c.args {
		if s.op != "elem" {
			return nil, 0, false
		}
		out = append(out, s.args[0])
	}
	return out, n, true
}

// cmpSyms: the list and the two indexes a comparison is analysed with.
func cmpSyms(et types.Type) (S, i, j *Term) {
	n := "cmp:S"
	if et != nil {
		n += ":" + types.TypeString(et, nil)
	}
	return mkSym(n, 0, nil), mkSym("cmp:i", 62, nil), mkSym("cmp:j", 62, nil)
}

// sortCall: the slice keeps its elements, reordered by the comparison.
func (it *Interp) sortCall(fr *Frame, st State, in ssa.CallInstruction, name string, args []*Term) (*Term, State) {
	sv := stripIface(args[0])
	var et types.Type
	if args[0].k == KIface {
		if sl, ok := args[0].typ.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
	} else if t := in.Common().Args[0].Type(); t != nil {
		if sl, ok := t.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
	}
	if sv.k == KNil {
		return tNil, st
	}
	if sv.k == KGamma {
		return it.split(st, args[0], func(s State, l *Term) (*Term, State) {
			return it.sortCall(fr, s, in, name, append([]*Term{l}, args[1:]...))
		})
	}
	old := it.content(st, sv)
	S, i, j := cmpSyms(et)
	a, b := typed(mkOp("idx", S, i), et), typed(mkOp("idx", S, j), et)
	st2 := it.setContent(st, sv, S)
	if sv.k == KOp && sv.op == "slice" {
		st2.heap = st2.heap.set(sv.args[0].id, mkOp("padded", S, sv.args[1]))
		if sv.args[1] == mkInt(0) {
			st2.heap = st2.heap.set(sv.args[0].id, S)
		}
	}
	it.noRec++
	less := tBot
	switch name {
	case "sort.Slice", "sort.SliceStable":
		less, _ = it.callVal(fr, st2, in, in.Common(), args[1], []*Term{i, j}, "cmp")
	case "slices.SortFunc", "slices.SortStableFunc":
		r, _ := it.callVal(fr, st2, in, in.Common(), args[1], []*Term{a, b}, "cmp")
		less = tNeg(r)
		if r.k == KGamma {
			less = mapLeaves(r, tNeg)
		}
	case "sort.Strings":
		less = strLess(a, b)
	case "slices.Sort":
		if b2, ok := et.Underlying().(*types.Basic); ok && b2.Info()&types.IsString != 0 {
			less = strLess(a, b)
		} else {
			less = tNeg(tSub(a, b))
		}
	case "sort.Ints":
		less = tNeg(tSub(a, b))
	case "sort.Sort", "sort.Stable":
		if args[0].k == KIface {
			if sel := it.prog.MethodSets.MethodSet(args[0].typ).Lookup(nil, "Less"); sel != nil {
				if fn := it.prog.MethodValue(sel); fn != nil {
					less, _ = it.callStatic(fr, st2, in, fn, []*Term{args[0].args[0], i, j}, nil, "cmp")
				}
			}
		}
	}
	it.noRec--
	it.emit(fr, st, in, "sort", name, nil, old, less)
	stable := strings.Contains(name, "Stable") || name == "sort.Stable"
	old = mapLeaves(old, func(l *Term) *Term {
		if r := sortedByKey(l, less, et); r != nil {
			return mkOp("insorted", r)
		}
		return l
	})
	st = it.setContent(st, sv, mapLeaves(old, func(l *Term) *Term {
		if l.k == KOp && l.op == "insorted" {
			return l.args[0]
		}
		// sorted again: the earlier order counts where the later one does not decide
		if l.k == KOp && l.op == "sorted" {
			ls := less
			if stable {
				t := mkSym("cmp:t", 62, nil)
				rev := subst(subst(less, map[*Term]*Term{i: t, j: i}), map[*Term]*Term{t: j})
				c, r := asBool(less), asBool(rev)
				ls = bOr(c, bAnd(bNot(r), asBool(l.args[1])))
			}
			return mkOp("sorted", l.args[0], ls)
		}
		return mkOp("sorted", l, less)
	}))
	return tNil, st
}

// sortedByKey: a list of values made each from its own key, and sorted by it, is
// the list of the values of the sorted keys.
func sortedByKey(l, less *Term, et types.Type) *Term {
	if et == nil || l.k != KOp || l.op != "seq" || len(l.args) != 1 || l.args[0].op != "each" || l.args[0].args[2] != tTrue {
		return nil
	}
	stt, ok := et.Underlying().(*types.Struct)
	e := l.args[0]
	i, n, v := e.args[0], e.args[1], e.args[3]
	if !ok || v.k != KStruct {
		return nil
	}
	S, ci, cj := cmpSyms(et)
	a, b := typed(mkOp("idx", S, ci), et), typed(mkOp("idx", S, cj), et)
	for k := range v.args {
		ft := stt.Field(k).Type()
		x, y := mkFld(a, k, ft), mkFld(b, k, ft)
		ls := restrict(asBool(less), bNot(asBool(tEq(x, y))))
		S2, _, _ := cmpSyms(ft)
		m := map[*Term]*Term{x: typed(mkOp("idx", S2, ci), ft), y: typed(mkOp("idx", S2, cj), ft)}
		ls = restrict(subst(ls, m), bNot(asBool(tEq(m[x], m[y]))))
		if contains(ls, S) || !contains(ls, S2) || !contains(v.args[k], i) {
			continue
		}
		key := mkSym("cmp:key", 0, nil)
		w := subst(v, map[*Term]*Term{v.args[k]: key})
		if contains(w, i) {
			continue
		}
		keys := mkOp("sorted", mkSeq([]*Term{mkOp("each", i, n, tTrue, v.args[k])}), ls)
		return mkSeq([]*Term{mkOp("each", i, n, tTrue, subst(w, map[*Term]*Term{key: mkSeqIdx(keys, i, ft)}))})
	}
	return nil
}

func (it *Interp) setContent(st State, sv, c *Term) State {
	if sv.k == KOp && sv.op == "slice" {
		p := sv.args[0]
		if root, steps := ptrParts(p); len(steps) == 0 && sv.args[1] == mkInt(0) {
			cur := it.rootContent(st, root, nil)
			if mkSeqLen(cur) == sv.args[2] || true {
				st.heap = st.heap.set(root.id, c)
				return st
			}
		}
		return it.store(st, p, c)
	}
	st.heap = st.heap.set(mkOp("elemref", sv).id, c)
	return st
}

func (it *Interp) fileName(st State, ref *Term) *Term {
	if c, ok := st.heap.get(ref.id); ok && c.k == KOp && c.op == "file" {
		return c.args[0]
	}
	return mkOp("filename", ref)
}

func (it *Interp) openFile(fr *Frame, st State, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term) (*Term, State) {
	ra := it.resolveAll(st, args)
	mode := mkStr("r")
	fname := ra[0]
	switch name {
	case "os.Create":
		mode = mkStr("w:create-trunc")
	case "os.CreateTemp":
		mode = mkStr("w:temp")
		fname = mkOp("tempdir", ra...)
	case "os.OpenFile":
		if ra[1].k == KInt {
			acc := ra[1].i & 3
			mode = mkStr("r")
			if acc != 0 || ra[1].i&0x240 != 0 {
				mode = mkStr("w:" + strconv.FormatInt(ra[1].i, 16))
			}
		} else {
			mode = mkStr("w:?")
		}
	}
	ev := it.emit(fr, st, in, "fs", name, nil, ra...)
	ev.extra = mode.op
	ref, st := it.newObj(fr, st, in, "file", sig.Results().At(0).Type(), mkOp("file", fname, mode))
	st = it.setPos(st, ref, mkInt(0))
	st.heap = st.heap.set(closedCell(ref).id, tFalse)
	out := it.outcome(fr, in)
	okc := mkGuard(out, []*Term{mkInt(0)}, false)
	site := mkStr(it.site(fr, in))
	err := caseOf(out, []Case{
		{[]*Term{mkInt(0)}, false, tNil},
		{[]*Term{mkInt(1)}, false, mkOp("errnotexist", site)},
		{[]*Term{mkInt(2)}, false, mkOp("errexist", site)},
		{[]*Term{mkInt(0), mkInt(1), mkInt(2)}, true, mkOp("errval", site)}})
	st = it.noteFail(fr, st, in, name, okc)
	return mkTuple(iteDC(okc, ref, bNot(okc), tNil), err), st
}

func (it *Interp) addFlag(set *Term, r flagReg) {
	if it.flags == nil {
		it.flags = map[*Term][]flagReg{}
	}
	for i, o := range it.flags[set] {
		if o.name == r.name {
			it.flags[set][i] = r
			return
		}
	}
	it.flags[set] = append(it.flags[set], r)
}

func (it *Interp) flagParse(fr *Frame, st State, in ssa.CallInstruction, args []*Term) (*Term, State) {
	set := args[0]
	it.emit(fr, st, in, "flagparse", "", nil, args...)
	tag := ""
	if c, ok := st.heap.get(set.id); ok && c.k == KOp && c.op == "flagset" && c.args[0].k == KStr {
		tag = c.args[0].op
	}
	for _, r := range it.flags[set] {
		n := tag + ":"
		if r.name.k == KStr {
			n += r.name.op
		} else {
			n += show(r.name)
		}
		if r.ptr != nil {
			var t types.Type
			switch {
			case strings.Contains(r.kind, "Bool"):
				t = types.Typ[types.Bool]
			case strings.Contains(r.kind, "String"):
				t = types.Typ[types.String]
			default:
				t = types.Typ[types.Int]
			}
			st = it.store(st, r.ptr, typed(mkSym("flag:"+n, 0, nil), t))
			continue
		}
		if r.val != nil && r.val.k == KIface {
			sel := it.prog.MethodSets.MethodSet(r.val.typ).Lookup(nil, "Set")
			if sel == nil {
				continue
			}
			fn := it.prog.MethodValue(sel)
			given := mkSym("?given:"+n, 0, nil)
			raw := typed(mkSym("flagval:"+n, 0, nil), types.Typ[types.String])
			on := State{bAnd(st.pc, given), st.heap}
			off := State{bAnd(st.pc, bNot(given)), st.heap}
			// the option may have been given before: the last one counts
			again := mkSym("?again:"+n, 0, nil)
			raw0 := typed(mkSym("flagval0:"+n, 0, nil), types.Typ[types.String])
			on0, on1 := State{bAnd(on.pc, again), on.heap}, State{bAnd(on.pc, bNot(again)), on.heap}
			res0, on0 := it.callStatic(fr, on0, in, fn, []*Term{r.val.args[0], raw0}, nil, "set0:"+n)
			on0.pc = bAnd(on0.pc, tEq(res0, tNil))
			on = it.join(on0, on1)
			res, on := it.callStatic(fr, on, in, fn, []*Term{r.val.args[0], raw}, nil, "set:"+n)
			on.pc = bAnd(on.pc, tEq(res, tNil)) // otherwise usage is printed and the program exits
			st = it.join(on, off)
		}
	}
	it.emit(fr, st, in, "flagok", "", nil, args...)
	return tNil, st
}

func lockCell(m *Term) *Term { return mkSym("ghost:lock:"+strconv.Itoa(m.id), 0, nil) }

func (it *Interp) atomicCall(fr *Frame, st State, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term) (*Term, State) {
	p := args[0]
	m := name[strings.LastIndexByte(name, '.')+1:]
	var vt types.Type
	if strings.HasPrefix(name, "(*") {
		if pt, ok := in.Common().Args[0].Type().Underlying().(*types.Pointer); ok {
			if stt := structOf(pt.Elem()); stt != nil {
				for i := 0; i < stt.NumFields(); i++ {
					if stt.Field(i).Name() == "v" {
						vt = stt.Field(i).Type()
						pe := pt.Elem()
						k := i
						p = mapPtr(p, func(l *Term) *Term { return mkPtr(l, fieldStep(k, pe)) })
					}
				}
			}
		}
	} else if pt, ok := in.Common().Args[0].Type().Underlying().(*types.Pointer); ok {
		vt = pt.Elem()
	}
	if vt == nil {
		it.emit(fr, st, in, "unknownext", name, nil, args...)
		return it.unknownResult(fr, in, sig, "atomic:"), st
	}
	it.emit(fr, st, in, "atomic", m, nil, p)
	if _, isB := vt.Underlying().(*types.Basic); !isB && strings.Contains(name, "Pointer") {
		it.emit(fr, st, in, "unknownext", name, nil, args...)
		return it.unknownResult(fr, in, sig, "atomic:"), st
	}
	boolT := strings.Contains(name, "atomic.Bool")
	cur := it.load(st, p, vt)
	switch {
	case strings.HasPrefix(m, "Load"):
		if boolT {
			return bNot(tEq(cur, mkInt(0))), st
		}
		return cur, st
	case strings.HasPrefix(m, "Store"):
		v := args[1]
		if boolT {
			v = iteDC(v, mkInt(1), bNot(v), mkInt(0))
		}
		return tNil, it.store(st, p, v)
	case strings.HasPrefix(m, "Add"):
		v := it.narrow(fr, st, tAdd(cur, args[1]), vt)
		return v, it.store(st, p, v)
	}
	it.emit(fr, st, in, "unknownext", name, nil, args...)
	return it.unknownResult(fr, in, sig, "atomic:"), it.store(st, p, it.fresh("atomic:", fr, in, vt))
}

func pureFold(name string, a []*Term) (*Term, bool) {
	str := func(t *Term) bool { return t.k == KStr }
	switch name {
	case "strconv.Itoa":
		return itoa(a[0]), true
	case "strconv.FormatInt", "strconv.FormatUint":
		if a[1] == mkInt(10) {
			return itoa(a[0]), true
		}
	case "strings.HasPrefix":
		return gammaApply2(a[0], a[1], func(p, q *Term) *Term {
			if str(p) && str(q) {
				return mkBool(strings.HasPrefix(p.op, q.op))
			}
			if q.k == KStr && p.k == KOp && p.op == "cat" && p.args[0].k == KStr {
				h := p.args[0].op
				if strings.HasPrefix(h, q.op) {
					return tTrue
				}
				n := len(h)
				if len(q.op) < n {
					n = len(q.op)
				}
				if h[:n] != q.op[:n] {
					return tFalse
				}
			}
			if q.k == KStr {
				if q.op == "" {
					return tTrue
				}
				if c := prefixOfBytes(p, q.op); c != nil {
					return c
				}
				if !(p.k == KOp && p.op == "cat") {
					c := asBool(tEq(mkOpB("byte0", 9, p), mkInt(int64(q.op[0]))))
					if len(q.op) > 1 {
						c = bAnd(c, mkOp("?hasprefix", p, q))
					}
					return c
				}
			}
			return mkOp("?hasprefix", p, q)
		}), true
	case "strings.CutPrefix", "strings.TrimPrefix":
		if a[1].k != KStr {
			break
		}
		c, _ := pureFold("strings.HasPrefix", a)
		c = asBool(c)
		rest := mapLeaves(a[0], func(l *Term) *Term {
			if c, _ := pureFold("strings.HasPrefix", []*Term{l, a[1]}); asBool(c) == tFalse {
				return l
			}
			if n := mkStrLen(l); n.k != KInt || n.i >= int64(len(a[1].op)) {
				return mkStrSlice(l, mkInt(int64(len(a[1].op))), n, n)
			}
			return l
		})
		if a[1].op == "" {
			rest = a[0]
		}
		rest = iteDC(c, rest, bNot(c), a[0])
		if name == "strings.TrimPrefix" {
			return rest, true
		}
		return mkTuple(rest, c), true
	case "strings.HasSuffix":
		return gammaApply2(a[0], a[1], func(p, q *Term) *Term {
			if str(p) && str(q) {
				return mkBool(strings.HasSuffix(p.op, q.op))
			}
			return mkOp("?hassuffix", p, q)
		}), true
	case "strings.Contains":
		return gammaApply2(a[0], a[1], func(p, q *Term) *Term {
			if str(p) && str(q) {
				return mkBool(strings.Contains(p.op, q.op))
			}
			return mkOp("?contains", p, q)
		}), true
	case "strings.Replace":
		if a[3].k == KInt && a[3].i < 0 {
			if r, ok := pureFold("strings.ReplaceAll", a[:3]); ok {
				return r, true
			}
			return typed(mkOp("ext:strings.ReplaceAll", a[:3]...), types.Typ[types.String]), true
		}
	case "strings.ReplaceAll":
		if str(a[0]) && str(a[1]) && str(a[2]) {
			return mkStr(strings.ReplaceAll(a[0].op, a[1].op, a[2].op)), true
		}
		// idempotent on its own result
		if a[0].k == KOp && a[0].op == "ext:strings.ReplaceAll" && a[0].args[1] == a[1] && a[0].args[2] == a[2] && str(a[2]) && str(a[1]) && !strings.Contains(a[2].op, a[1].op) && len(a[1].op) == 1 {
			return a[0], true
		}
	case "html.EscapeString", "html/template.HTMLEscapeString", "text/template.HTMLEscapeString":
		return mkEsc("htmlesc", a[0]), true
	case "strings.TrimSpace":
		if str(a[0]) {
			return mkStr(strings.TrimSpace(a[0].op)), true
		}
	case "strings.Compare", "cmp.Compare":
		return gammaApply2(a[0], a[1], func(p, q *Term) *Term {
			var lt *Term
			if isNum(p) || isNum(q) || isIntType(p.typ) || isIntType(q.typ) {
				lt = tNeg(tSub(p, q))
			} else {
				lt = strLess(p, q)
			}
			eq := tEq(p, q)
			return iteDC(lt, mkInt(-1), bNot(lt), iteDC(eq, mkInt(0), bNot(eq), mkInt(1)))
		}), true
	case "strings.Clone":
		return a[0], true
	}
	return nil, false
}

func (it *Interp) genericExt(fr *Frame, st State, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term) (*Term, State) {
	if name == "strings.Repeat" {
		bad := mapLeaves(args[1], tNeg)
		if b := bAnd(st.pc, bad); it.noRec == 0 && b != tFalse && b.k != KBot {
			it.emit(fr, st, in, "ob", "repeat", nil, bNot(bad), args[1])
		}
	}
	pure := purePkgs[pkgOf(name)]
	ra := it.resolveAll(st, args)
	if !pure {
		it.unknownExt[name]++
		it.emit(fr, st, in, "unknownext", name, nil, ra...)
	}
	if name == "maps.Keys" || name == "maps.Values" {
		it.emit(fr, st, in, "maporder", name, nil, ra...)
	}
	it.emit(fr, st, in, "ext", name, nil, ra...)
	n := sig.Results().Len()
	var rs []*Term
	var ok *Term
	for i := 0; i < n; i++ {
		rt := sig.Results().At(i).Type()
		if isErrorType(rt) {
			if pure {
				ok = mkOp("?ok:"+name, ra...)
			} else {
				ok = it.okSym(fr, in, "")
			}
			rs = append(rs, it.errIf(fr, in, ok))
			continue
		}
		op := "ext:" + name
		if i > 0 {
			op += "#" + strconv.Itoa(i)
		}
		if pure {
			rs = append(rs, typed(mkOp(op, ra...), rt))
		} else {
			rs = append(rs, typed(mkSym("x:"+it.site(fr, in)+"#"+strconv.Itoa(i), 0, it.activeLoops()), rt))
		}
	}
	if ok != nil {
		st = it.noteFail(fr, st, in, name, ok)
	}
	switch n {
	case 0:
		return tNil, st
	case 1:
		return rs[0], st
	}
	return mkTuple(rs...), st
}

// ifaceMethod: a method of a value whose concrete type is not known here, or of
// a standard library type with the same meaning.
func (it *Interp) ifaceMethod(fr *Frame, st State, in ssa.CallInstruction, method string, sig *types.Signature, recv *Term, args []*Term) (*Term, State) {
	if recv.k == KGamma {
		return it.split(st, recv, func(s State, l *Term) (*Term, State) {
			return it.ifaceMethod(fr, s, in, method, sig, l, args)
		})
	}
	ref := stripIface(recv)
	switch method {
	case "Error":
		if sig.Params().Len() == 0 {
			return mkOp("errstr", ref), st
		}
	case "Read":
		it.emit(fr, st, in, "shortread", method, nil, append([]*Term{recv}, args...)...)
		n := it.seqLen(st, args[0])
		data, _, st := it.readSeq(fr, st, in, ref, n, "Read", true)
		st = it.writeBytes(st, args[0], mkInt(0), mapLeaves(data, func(l *Term) *Term { return mkSeq([]*Term{mkOp("rep", n, mkOp("partial", l))}) }))
		ok := it.okSym(fr, in, "r")
		st = it.setPos(st, ref, it.fresh("pos?", fr, in, types.Typ[types.Uint64]))
		return mkTuple(it.fresh("nread:", fr, in, types.Typ[types.Int]), it.errIf(fr, in, ok)), st
	case "ReadAt":
		n := it.seqLen(st, args[0])
		src, _ := it.srcOf(st, ref)
		ok := mkOp("readok", src, args[1], n)
		it.emit(fr, st, in, "readat", method, nil, ref, args[1], n)
		st = it.writeBytes(st, args[0], mkInt(0), mapLeaves(args[1], func(o *Term) *Term { return mkSeq([]*Term{mkOp("src", src, o, n)}) }))
		st = it.noteFail(fr, st, in, "ReadAt", ok)
		return mkTuple(iteDC(ok, n, bNot(ok), it.fresh("nread:", fr, in, types.Typ[types.Int])), it.errIf(fr, in, ok)), st
	case "Seek":
		cur := it.getPos(st, ref)
		np := mapLeaves(args[1], func(w *Term) *Term {
			switch w {
			case mkInt(0):
				return args[0]
			case mkInt(1):
				return tAdd(cur, args[0])
			}
			return mkOp("fromend", ref, args[0])
		})
		it.emit(fr, st, in, "seek", method, np, ref, np)
		st = it.setPos(st, ref, np)
		ok := mkOp("?seekok", ref, np)
		if _, isSeq := it.srcOf(st, ref); isSeq {
			ok = bNot(mapLeaves(np, tNeg))
		}
		st = it.noteFail(fr, st, in, "Seek", ok)
		return mkTuple(np, it.errIf(fr, in, ok)), st
	case "Write":
		c := it.content(st, args[0])
		s := mkStrOf(c)
		ok, st := it.writeTo(fr, st, in, recv, s, "write", "Write")
		st = it.noteFail(fr, st, in, "Write", ok)
		n := mkSeqLen(c)
		if ok == tTrue {
			return mkTuple(n, tNil), st
		}
		return mkTuple(iteDC(ok, n, bNot(ok), it.fresh("nwrite:", fr, in, types.Typ[types.Int])), it.errIf(fr, in, ok)), st
	case "WriteString":
		ok, st := it.writeTo(fr, st, in, recv, args[0], "print", "WriteString")
		return mkTuple(mkStrLen(args[0]), it.errIf(fr, in, ok)), st
	case "Close":
		it.emit(fr, st, in, "close", method, nil, ref)
		ok := it.okSym(fr, in, "c")
		ro := false
		if c, has := st.heap.get(ref.id); has && c.k == KOp && c.op == "file" && c.args[1].k == KStr && c.args[1].op == "r" {
			ro = true
		}
		cc := closedCell(ref)
		if !ro {
			done := tFalse
			if c, has := st.heap.get(cc.id); has {
				done = asBool(c)
			}
			st = it.noteFail(fr, st, in, "Close", bOr(ok, done))
		}
		st.heap = st.heap.set(cc.id, tTrue)
		return it.errIf(fr, in, ok), st
	}
	name := "method:" + method
	ra := it.resolveAll(st, append([]*Term{recv}, args...))
	known := recv.typ != nil && purePkgs[pkgOf(types.TypeString(recv.typ, nil))] || ref.k == KOp && ref.op == "fileinfo"
	if !known {
		it.emit(fr, st, in, "unknowncall", name, nil, ra...)
	}
	n := sig.Results().Len()
	var rs []*Term
	for i := 0; i < n; i++ {
		rt := sig.Results().At(i).Type()
		if isErrorType(rt) {
			ok := it.okSym(fr, in, "m")
			st = it.noteFail(fr, st, in, name, ok)
			rs = append(rs, it.errIf(fr, in, ok))
			continue
		}
		rs = append(rs, typed(mkOp(name+"#"+strconv.Itoa(i), ra...), rt))
	}
	switch n {
	case 0:
		return tNil, st
	case 1:
		return rs[0], st
	}
	return mkTuple(rs...), st
}
