package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkGobTypes: what gob is given survives: every field is exported, no
// field has a kind gob leaves out, and every concrete type that can be in an
// interface is known to it.
func (R *Report) checkGobTypes() {
	P := R.P
	reg := map[string]bool{}
	for _, f := range P.all {
		if !isInit(f) {
			continue
		}
		for _, c := range staticCalls(f, "encoding/gob.Register") {
			if mi, ok := c.Common().Args[0].(*ssa.MakeInterface); ok {
				reg[types.TypeString(mi.X.Type(), nil)] = true
			}
		}
	}
	n := 0
	for _, f := range P.all {
		if P.isRef(f) {
			continue
		}
		for _, c := range staticCalls(f, "(*encoding/gob.Encoder).Encode") {
			mi, ok := c.Common().Args[1].(*ssa.MakeInterface)
			if !ok {
				continue
			}
			n++
			R.gobType(mi.X.Type(), shortFn(f), R.P.pos(c), reg, map[types.Type]bool{})
		}
	}
	R.check(n > 0, "stored-types", "encoders", "-", "nothing is stored")
}

func isInit(f *ssa.Function) bool {
	return f.Signature.Recv() == nil && f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

func staticCalls(f *ssa.Function, name string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.String() == name {
					out = append(out, c)
				}
			}
		}
	}
	return out
}

func (P *Program) pos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		return "-"
	}
	q := P.prog.Fset.Position(p)
	return trimRepo(q.Filename) + ":" + strconv.Itoa(q.Line)
}

func (R *Report) gobType(t types.Type, path, pos string, reg map[string]bool, seen map[types.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	ms := types.NewMethodSet(types.NewPointer(t))
	for _, m := range []string{"GobEncode", "MarshalBinary"} {
		if ms.Lookup(nil, m) != nil {
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			k := types.TypeString(t, func(p *types.Package) string { return p.Name() }) + "." + f.Name()
			switch f.Type().Underlying().(type) {
			case *types.Signature, *types.Chan:
				R.fail("stored-types", k, pos, "a field of this kind is not stored")
				continue
			}
			R.check(f.Exported(), "stored-types", k, pos, "a field that is not exported is not stored")
			if it, ok := f.Type().Underlying().(*types.Interface); ok && it.Empty() {
				for _, c := range R.P.dynTypes(f) {
					R.check(gobKnows(c, reg), "stored-types", k+" holding "+types.TypeString(c, func(p *types.Package) string { return p.Name() }), pos, "a value of this type in an interface cannot be stored: the type is not registered")
				}
			}
			R.gobType(f.Type(), k, pos, reg, seen)
		}
	case *types.Map:
		R.gobType(u.Key(), path, pos, reg, seen)
		R.gobType(u.Elem(), path, pos, reg, seen)
	case *types.Slice:
		R.gobType(u.Elem(), path, pos, reg, seen)
	case *types.Array:
		R.gobType(u.Elem(), path, pos, reg, seen)
	case *types.Pointer:
		R.gobType(u.Elem(), path, pos, reg, seen)
	}
}

func gobKnows(t types.Type, reg map[string]bool) bool {
	if reg[types.TypeString(t, nil)] {
		return true
	}
	if s, ok := t.(*types.Slice); ok {
		t = s.Elem()
	}
	_, basic := types.Unalias(t).(*types.Basic)
	return basic
}

// dynTypes: the concrete types that can be stored in a field of interface type.
func (P *Program) dynTypes(fld *types.Var) []types.Type {
	found := map[string]types.Type{}
	seen := map[ssa.Value]bool{}
	var trace func(v ssa.Value)
	ret := func(f *ssa.Function, i int) {
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
				trace(r.Results[i])
			}
		}
	}
	trace = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			found[types.TypeString(x.X.Type(), nil)] = x.X.Type()
		case *ssa.Phi:
			for _, e := range x.Edges {
				trace(e)
			}
		case *ssa.ChangeInterface:
			trace(x.X)
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil {
				ret(g, 0)
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil {
					ret(g, x.Index)
				}
			}
		case *ssa.Parameter:
			idx := -1
			for i, p := range x.Parent().Params {
				if p == x {
					idx = i
				}
			}
			for _, f := range P.all {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == x.Parent() && idx >= 0 && idx < len(c.Common().Args) {
							trace(c.Common().Args[idx])
						}
					}
				}
			}
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						trace(s.Val)
					}
				}
			}
		}
	}
	for _, f := range P.all {
		if P.isRef(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				if sst, ok := st.Elem().Underlying().(*types.Struct); ok && sst.Field(fa.Field) == fld {
					trace(s.Val)
				}
			}
		}
	}
	var ks []string
	for k := range found {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []types.Type
	for _, k := range ks {
		out = append(out, found[k])
	}
	return out
}
