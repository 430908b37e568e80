package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05: a read that yields less than was asked for is never taken for the
// whole.

// wholeReads fill what they are given, or take what they are told to, or
// report an error; the pieces in which the bytes arrive do not show.
var wholeReads = map[string]bool{
	"io.ReadFull": true, "encoding/binary.Read": true, "io.ReadAll": true, "io.CopyN": true, "io.Copy": true,
	"io.CopyBuffer": true, "os.ReadFile": true,
	"(*bufio.Reader).Discard": true, "(*bufio.Reader).Peek": true, "(*bufio.Reader).ReadByte": true,
	"(*bufio.Reader).ReadBytes": true, "(*bufio.Reader).ReadString": true, "(*bufio.Reader).ReadRune": true,
	"(*bufio.Reader).WriteTo": true, "(*os.File).WriteTo": true, "(*bytes.Buffer).ReadFrom": true,
	"(*encoding/gob.Decoder).Decode": true, "encoding/binary.ReadUvarint": true, "encoding/binary.ReadVarint": true,
	"(*bufio.Scanner).Scan": true, "(*encoding/json.Decoder).Decode": true,
}

// isReadSig: func([]byte) (int, error).
func isReadSig(s *types.Signature) bool {
	if s == nil || s.Params().Len() != 1 || s.Results().Len() != 2 {
		return false
	}
	sl, ok := s.Params().At(0).Type().Underlying().(*types.Slice)
	if !ok || !types.Identical(sl.Elem(), types.Typ[types.Byte]) {
		return false
	}
	b, ok := s.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int && isErrorType(s.Results().At(1).Type())
}

// readCall tells what a call takes from a stream, and how: "raw" with the
// buffer, "least" with buffer and minimum, "whole", or nothing.
func readCall(c *ssa.CallCommon) (kind, name string, buf, min ssa.Value) {
	if c.IsInvoke() {
		sig := c.Method.Type().(*types.Signature)
		switch {
		case c.Method.Name() == "Read" && isReadSig(sig):
			return "raw", "Read", c.Args[0], nil
		case c.Method.Name() == "ReadAt", c.Method.Name() == "ReadByte", c.Method.Name() == "WriteTo", c.Method.Name() == "ReadFrom":
			return "whole", c.Method.Name(), nil, nil
		}
		return
	}
	f := c.StaticCallee()
	if f == nil {
		if s, ok := c.Value.Type().Underlying().(*types.Signature); ok && isReadSig(s) {
			// a function that may be the Read of some reader
			return "raw", "Read", c.Args[0], nil
		}
		return
	}
	n := f.String()
	if f.Origin() != nil {
		n = f.Origin().String()
	}
	recv := f.Signature.Recv() != nil
	switch {
	case f.Name() == "Read" && recv && isReadSig(f.Signature):
		return "raw", n, c.Args[1], nil
	case strings.HasPrefix(f.Name(), "Read$bound") && len(c.Args) == 1 && isReadSig(f.Signature):
		return "raw", "Read", c.Args[0], nil
	case n == "syscall.Read" || n == "syscall.Pread":
		return "raw", n, c.Args[1], nil
	case n == "io.ReadAtLeast":
		return "least", n, c.Args[1], c.Args[2]
	case n == "(*bufio.Reader).Buffered" || n == "(*bufio.Reader).ReadLine" || n == "(*bufio.Reader).ReadSlice":
		return "partial", n, nil, nil
	case wholeReads[n], recv && f.Name() == "ReadAt" && (f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), repoModule)):
		return "whole", n, nil, nil
	}
	return
}

func unconv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// bufLen is the length of a buffer, as a value or a constant.
func bufLen(b ssa.Value) (ssa.Value, int64) {
	switch x := unconv(b).(type) {
	case *ssa.MakeSlice:
		if k, ok := unconv(x.Len).(*ssa.Const); ok && k.Value != nil {
			if n, ok := constant.Int64Val(constant.ToInt(k.Value)); ok {
				return nil, n
			}
		}
		return unconv(x.Len), -1
	case *ssa.Slice:
		if x.Low != nil {
			return nil, -1
		}
		if x.High != nil {
			if k, ok := unconv(x.High).(*ssa.Const); ok && k.Value != nil {
				if n, ok := constant.Int64Val(constant.ToInt(k.Value)); ok {
					return nil, n
				}
			}
			return unconv(x.High), -1
		}
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return nil, a.Len()
			}
		}
		return bufLen(x.X)
	}
	return nil, -1
}

// isLenOf: v is len(b), or the length b was made with.
func isLenOf(v, b ssa.Value) bool {
	v = unconv(v)
	if c, ok := v.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && unconv(c.Call.Args[0]) == unconv(b) {
			return true
		}
	}
	lv, n := bufLen(b)
	if lv != nil && lv == v {
		return true
	}
	if k, ok := v.(*ssa.Const); ok && n >= 0 && k.Value != nil {
		m, ok := constant.Int64Val(constant.ToInt(k.Value))
		return ok && m == n
	}
	return false
}

// blockRepeats: the block can be reached from itself.
func blockRepeats(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if rec(s) {
					return true
				}
			}
		}
		return false
	}
	return rec(b)
}

// countUse is what becomes of the count of a raw read within its function.
type countUse struct {
	sliced   bool // bounds a slice: what was read, or what is left to read
	returned bool
	compared token.Pos // the count of one read compared with a wanted length
}

func countUses(n ssa.Value) (u countUse) {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, single bool)
	stored := func(addr ssa.Value) {
		// a local, a field or a captured variable: what is loaded from the same
		// place anywhere in the function
		if addr.Referrers() == nil {
			return
		}
		same := []ssa.Value{addr}
		if fa, ok := addr.(*ssa.FieldAddr); ok && fa.X.Referrers() != nil {
			for _, r := range *fa.X.Referrers() {
				if o, ok := r.(*ssa.FieldAddr); ok && o.Field == fa.Field {
					same = append(same, o)
				}
			}
		}
		for _, a := range same {
			for _, r := range *a.Referrers() {
				if l, ok := r.(*ssa.UnOp); ok && l.Op == token.MUL {
					rec(l, false)
				}
			}
		}
	}
	rec = func(v ssa.Value, single bool) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Slice:
				if x.Low == v || x.High == v {
					u.sliced = true
				}
			case *ssa.BinOp:
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					other := x.X
					if other == v {
						other = x.Y
					}
					if k, ok := other.(*ssa.Const); ok && (k.Value == nil || constant.Compare(k.Value, token.LEQ, constant.MakeInt64(1))) {
						continue
					}
					if single {
						u.compared = x.Pos()
					}
				default:
					rec(x, false)
				}
			case *ssa.Convert:
				rec(x, single)
			case *ssa.ChangeType:
				rec(x, single)
			case *ssa.Phi:
				rec(x, false)
			case *ssa.Store:
				if x.Val == v {
					stored(x.Addr)
				}
			case *ssa.Return:
				u.returned = true
			}
		}
	}
	rec(n, true)
	return
}

// forwards: the function is a Read method whose result is the count of the
// read it makes, and which keeps nothing derived from the length it was asked
// for.
func forwards(f *ssa.Function, n ssa.Value) (bool, string) {
	sig := f.Signature
	if sig.Recv() == nil || f.Name() != "Read" || !isReadSig(sig) {
		return false, ""
	}
	from := map[ssa.Value]bool{}
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		if from[v] || v.Referrers() == nil {
			return
		}
		from[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi:
				mark(x)
			case *ssa.Convert:
				mark(x)
			case *ssa.ChangeType:
				mark(x)
			}
		}
	}
	mark(n)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return:
				if k, ok := x.Results[0].(*ssa.Const); ok && (k.Value == nil || k.Int64() == 0) {
					continue
				}
				if !from[x.Results[0]] {
					return false, "returns another count than that of the read it forwards"
				}
			case *ssa.Store:
				if asked(x.Val, f.Params[1], map[ssa.Value]bool{}) {
					return false, "keeps the length it was asked for as if all of it had been read"
				}
			}
		}
	}
	return true, ""
}

// asked: the value is computed from the length of the buffer.
func asked(v, buf ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return unconv(x.Call.Args[0]) == buf
		}
		return false
	case *ssa.BinOp:
		return asked(x.X, buf, seen) || asked(x.Y, buf, seen)
	case *ssa.Convert:
		return asked(x.X, buf, seen)
	case *ssa.ChangeType:
		return asked(x.X, buf, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if asked(e, buf, seen) {
				return true
			}
		}
	}
	return false
}

func extractOf(c *ssa.Call, i int) *ssa.Extract {
	if c == nil || c.Referrers() == nil {
		return nil
	}
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i && e.Referrers() != nil && len(*e.Referrers()) > 0 {
			return e
		}
	}
	return nil
}

func checkReads(R *Report) {
	P := R.P
	count := map[string]int{}
	for _, f := range P.all {
		if P.isRef(f) || f.Synthetic != "" {
			continue
		}
		R.fns[f.String()] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				kind, name, buf, min := readCall(ci.Common())
				if kind == "" {
					continue
				}
				call, _ := in.(*ssa.Call)
				pos := trimRepo(P.prog.Fset.Position(in.Pos()).String())
				count[name+shortFn(f)]++
				construct := shortFn(f) + " " + name
				if k := count[name+shortFn(f)]; k > 1 {
					construct += " #" + string(rune('0'+k%10))
				}
				if kind == "least" {
					kind = "raw"
					if isLenOf(min, buf) {
						kind = "whole"
					}
				}
				switch kind {
				case "whole":
					R.check(true, "whole-read", construct, pos, "")
				case "partial":
					R.check(false, "short-read", construct, pos, "what it yields depends on how much of the file happens to be buffered")
				case "raw":
					if _, n := bufLen(buf); n == 1 {
						R.check(extractOf(call, 0) != nil || extractOf(call, 1) != nil, "short-read", construct, pos, "neither count nor error of the read is looked at")
						continue
					}
					n := extractOf(call, 0)
					if n == nil {
						R.check(false, "short-read", construct, pos, "may yield fewer bytes than asked for; its count is not looked at")
						continue
					}
					u := countUses(n)
					if u.returned {
						ok, why := forwards(f, n)
						if ok || why != "" {
							R.check(ok, "forwarded-read", construct, pos, why)
							continue
						}
					}
					switch {
					case !blockRepeats(b):
						R.check(false, "short-read", construct, pos, "may yield fewer bytes than asked for and is not repeated for the rest")
					case !u.sliced:
						R.check(false, "short-read", construct, pos, "may yield fewer bytes than asked for; the count does not tell where the next read goes on")
					case u.compared != token.NoPos:
						R.check(false, "short-read", construct, pos, "a read that yields less than wanted is taken for the last one at "+trimRepo(P.prog.Fset.Position(u.compared).String()))
					default:
						R.check(true, "repeated-read", construct, pos, "")
					}
				}
			}
		}
	}
	R.atLeast("whole-read", 3)
}

func init() {
	props["C05"] = propCheck{checkReads, "Every call in the program that takes bytes from a stream or file is enumerated. Calls that fill their destination or report an error (io.ReadFull, ReadAt, binary.Read, Discard, ...) are discharged. A raw Read has to be forwarded by a Read method that returns and keeps that read's own count, or to stand in a loop in which its count bounds the slice of what was read or is left to read, without a short read being taken for the end; io.ReadAtLeast counts as whole only when its minimum is the length of the buffer."}
	props["C33"] = propCheck{checkHeader, "The parse is analysed from its start for an arbitrary dump, the header inlined and the later steps opaque: every one of them, and the successful end, is reached only where a specification of the header (the text of the supported version) holds, and reached where it holds with its closing zero byte. The reading of an identifier succeeds for sizes 4 and 8 and no other."}
}

// checkHeader: only what begins as a dump of the supported version is read.
func checkHeader(R *Report) {
	P := R.P
	fn, mk, ref, strict := P.fn("(*dump.Parser).ParseHeapDump"), P.fn("dump.NewParser"), P.refs["core.njRefHeader"], P.refs["core.njRefHeaderFull"]
	if !R.need(fn, "dump.Parser.ParseHeapDump") || !R.need(mk, "dump.NewParser") || !R.need(ref, "core.njRefHeader") || !R.need(strict, "core.njRefHeaderFull") {
		return
	}
	var reader *Term
	args := symParams(mk)
	for i, p := range mk.Params {
		if strings.HasSuffix(p.Type().String(), "io.Reader") {
			reader = args[i]
		}
	}
	if !R.check(reader != nil, "anchor", "dump.NewParser", rootPos(P, mk), "takes no reader") {
		return
	}
	it, st0 := P.newRun(true)
	it.okReads = true
	right := func(f *ssa.Function) *Term {
		r, out := it.rootCall(st0, f, []*Term{reader})
		return okPC(out, r)
	}
	good, full := right(ref), right(strict)
	it.events = nil
	parser, st := it.callFn(nil, "mk", st0, mk, args, nil)
	it.opaqueAll = afterHeader
	r, out := it.rootCall(st, fn, []*Term{parser})
	R.used(it)
	pos := rootPos(P, fn)
	bad := bAnd(okPC(out, r), bNot(good))
	R.check(implied(bad, tFalse), "refused", shortFn(fn)+" as a whole", pos, "ends without an error when "+cleanTerm(showN(bad, 6)))
	began := okPC(out, r)
	for _, e := range it.events {
		if e.kind != "opaque" {
			continue
		}
		began = bOr(began, e.st.pc)
		bad := bAnd(e.st.pc, bNot(good))
		R.check(implied(bad, tFalse), "refused", trimRepo(e.name), it.posStr(e.pos), "goes on when "+cleanTerm(showN(bad, 6)))
	}
	R.check(implied(full, began), "accepted", shortFn(fn), pos, "a dump of the supported version is refused when "+cleanTerm(showN(bAnd(full, bNot(began)), 6)))
	R.atLeast("refused", 5)
	// identifiers
	idr, ido := P.fn("(*core.PrimitiveParser).ParseIdentifier"), P.refs["core.njRefIdSize"]
	if !R.need(idr, "core.PrimitiveParser.ParseIdentifier") || !R.need(ido, "core.njRefIdSize") {
		return
	}
	it, st = P.newRun(true)
	it.okReads = true
	a := symParams(idr)
	rr, ro := it.rootCall(st, ido, a)
	fr, fo := it.rootCall(st, idr, a)
	R.used(it)
	_, e := resultParts(fr, idr.Signature)
	got, want := okPC(fo, e), okPC(ro, rr)
	bad = bAnd(got, bNot(want))
	R.check(implied(bad, tFalse), "id-refused", shortFn(idr), rootPos(P, idr), "reads an identifier when "+cleanTerm(showN(bad, 6)))
	bad = bAnd(want, bNot(got))
	R.check(implied(bad, tFalse), "id-accepted", shortFn(idr), rootPos(P, idr), "reads no identifier when "+cleanTerm(showN(bad, 6)))
}

func afterHeader(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	p := f.Pkg.Pkg.Path()
	if strings.HasSuffix(p, "/internal/storage") {
		return true
	}
	rt := f.Signature.Recv()
	return rt != nil && strings.HasSuffix(p, "/internal/core")
}
