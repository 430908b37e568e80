package main

import (
	"embed"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-built current source of the repository.
type Program struct {
	impureMemo map[*ssa.Function]bool
	dir        string
	pkgs       []*packages.Package
	prog       *ssa.Program
	spkgs      []*ssa.Package
	mainPkg    *ssa.Package
	embeds     map[string]string
	files      int
	consts     map[*ssa.Global]bool // globals fixed once the package inits ran
	all        []*ssa.Function      // all repository functions incl. closures
	storageDir string
	refs       map[string]*ssa.Function // specification functions
}

// Specification functions: what a result has to be, written down in terms of
// the records of the dump.  They are compiled into the analysed packages and
// never run.
//
//go:embed refs/*.txt
var refFS embed.FS

const refFile = "zz_nj_ref.go"

func refOverlay(dir string) map[string][]byte {
	out := map[string][]byte{}
	es, _ := refFS.ReadDir("refs")
	for _, e := range es {
		b, _ := refFS.ReadFile("refs/" + e.Name())
		pkg := strings.TrimSuffix(e.Name(), ".go.txt")
		d := filepath.Join(dir, "internal", pkg)
		if _, err := os.Stat(d); err == nil {
			out[filepath.Join(d, refFile)] = b
		}
	}
	return out
}

func (P *Program) isRef(f *ssa.Function) bool {
	return filepath.Base(P.prog.Fset.Position(f.Pos()).Filename) == refFile
}

func loadProgram(dir string) (*Program, error) {
	overlay := refOverlay(dir)
	var ps []*packages.Package
	var err error
	for {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Tests: false, Overlay: overlay}
		if ps, err = packages.Load(cfg, "./..."); err != nil {
			return nil, err
		}
		// a reference that no longer fits the code is left out
		drop := false
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				for f := range overlay {
					if strings.Contains(e.Pos, filepath.Base(filepath.Dir(f))+"/"+refFile) {
						delete(overlay, f)
						drop = true
					}
				}
			}
		})
		if !drop {
			break
		}
	}
	if ov := rangeIntOverlay(ps); len(ov) > 0 {
		for k, v := range overlay {
			ov[k] = v
		}
		cfg2 := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Tests: false, Overlay: ov}
		if ps2, err := packages.Load(cfg2, "./..."); err == nil && !hasErrors(ps2) {
			ps = ps2
		}
	}
	var msgs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, repoModule) {
			for _, e := range p.Errors {
				msgs = append(msgs, e.Error())
			}
		}
	})
	if len(msgs) > 0 {
		return nil, fmt.Errorf("the source does not type-check: %s", strings.Join(msgs, "; "))
	}
	P := &Program{dir: dir, pkgs: ps, embeds: map[string]string{}, consts: map[*ssa.Global]bool{}, refs: map[string]*ssa.Function{}}
	P.buildSSA()
	for i, p := range ps {
		if P.spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		P.files += len(p.Syntax)
		if p.Name == "main" && P.mainPkg == nil {
			P.mainPkg = P.spkgs[i]
		}
		P.findEmbeds(p)
	}
	if P.mainPkg == nil {
		return nil, fmt.Errorf("no main package")
	}
	P.collectFuncs()
	P.findConsts()
	return P, nil
}

// buildSSA makes SSA packages: with bodies for the repository and the library
// packages that are analysed rather than modelled.
func (P *Program) buildSSA() {
	P.prog = ssa.NewProgram(P.pkgs[0].Fset, ssa.InstantiateGenerics)
	made := map[*packages.Package]*ssa.Package{}
	packages.Visit(P.pkgs, nil, func(p *packages.Package) {
		if p.Types == nil || p.IllTyped {
			return
		}
		if strings.HasPrefix(p.PkgPath, repoModule) || analysedLib[p.PkgPath] {
			made[p] = P.prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		} else {
			made[p] = P.prog.CreatePackage(p.Types, nil, nil, true)
		}
	})
	P.prog.Build()
	for _, p := range P.pkgs {
		P.spkgs = append(P.spkgs, made[p])
	}
}

// Library packages and the functions of them that are analysed from their
// source.
var analysedLib = map[string]bool{"slices": true, "maps": true, "cmp": true}

var analysedLibFns = map[string]bool{
	"slices.Index": true, "slices.IndexFunc": true, "slices.Contains": true, "slices.ContainsFunc": true,
	"slices.Reverse": true, "slices.Values": true, "slices.All": true, "slices.Backward": true,
	"slices.Collect": true, "slices.AppendSeq": true, "slices.Equal": true, "slices.EqualFunc": true,
	"slices.Max": true, "slices.Min": true, "slices.MaxFunc": true, "slices.MinFunc": true,
	"slices.Sorted": true, "slices.SortedFunc": true, "slices.SortedStableFunc": true,
	"maps.All": true, "maps.Collect": true, "maps.Insert": true, "maps.Copy": true, "cmp.Or": true,
}

// analysed: fn is, or belongs to, such a library function.
func analysedFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.Pkg != nil && analysedLib[fn.Pkg.Pkg.Path()] && analysedLibFns[fn.Pkg.Pkg.Path()+"."+fn.Name()]
}

func hasErrors(ps []*packages.Package) bool {
	bad := false
	packages.Visit(ps, nil, func(p *packages.Package) { bad = bad || len(p.Errors) > 0 })
	return bad
}

func (P *Program) findEmbeds(p *packages.Package) {
	for _, f := range p.Syntax {
		base := filepath.Dir(p.Fset.Position(f.Pos()).Filename)
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for _, cg := range []*ast.CommentGroup{g.Doc, vs.Doc} {
					if cg == nil {
						continue
					}
					for _, c := range cg.List {
						rest, ok := strings.CutPrefix(c.Text, "//go:embed ")
						if !ok {
							continue
						}
						fn := strings.Trim(strings.TrimSpace(rest), "\"`")
						b, err := os.ReadFile(filepath.Join(base, fn))
						if err == nil && len(vs.Names) == 1 {
							P.embeds[p.PkgPath+"."+vs.Names[0].Name] = string(b)
						}
					}
				}
			}
		}
	}
}

func (P *Program) collectFuncs() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		if P.isRef(f) {
			P.refs[shortFn(f)] = f
			return
		}
		P.all = append(P.all, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range P.spkgs {
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := P.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if fo, ok := ms.At(i).Obj().(*types.Func); ok {
							add(P.prog.FuncValue(fo))
						}
					}
				}
			}
		}
	}
	// instances of generic functions
	for f := range ssautil.AllFunctions(P.prog) {
		p := f.Pkg
		if p == nil && f.Origin() != nil {
			p = f.Origin().Pkg
		}
		if p != nil && strings.HasPrefix(p.Pkg.Path(), repoModule) {
			add(f)
		}
	}
	sort.Slice(P.all, func(i, j int) bool { return P.all[i].String() < P.all[j].String() })
}

func isInitFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// findConsts: a global is constant when nothing outside the package inits
// can change it or what it refers to.
func (P *Program) findConsts() {
	bad := map[*ssa.Global]bool{}
	var readOnly func(v ssa.Value, d int) bool
	readOnly = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
				// load, below
				if uo, ok := x.(*ssa.UnOp); ok && uo.Op == token.MUL {
					if !valueReadOnly(uo, 0) {
						return false
					}
				}
			case *ssa.FieldAddr:
				if !readOnly(x, d+1) {
					return false
				}
			case *ssa.IndexAddr:
				if !readOnly(x, d+1) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for _, f := range P.all {
		inInit := isInitFn(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if !inInit && !valueReadOnly(x, 0) {
							bad[g] = true
						}
					case *ssa.Store:
						if !inInit || x.Val == ssa.Value(g) {
							bad[g] = true
						}
					case *ssa.FieldAddr:
						if inInit {
							if !initAddr(x) {
								bad[g] = true
							}
						} else if !readOnly(x, 0) {
							bad[g] = true
						}
					case *ssa.IndexAddr:
						if !inInit && !readOnly(x, 0) {
							bad[g] = true
						}
					case *ssa.DebugRef:
					default:
						bad[g] = true
					}
				}
			}
		}
	}
	for _, sp := range P.spkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !bad[g] {
				P.consts[g] = true
			}
		}
	}
}

// initAddr: an address taken during init that is only stored to or loaded.
func initAddr(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !initAddr(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// valueReadOnly: a loaded value (map, slice, pointer) is not written through.
func valueReadOnly(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
	default:
		return true
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				return false
			}
		case *ssa.IndexAddr:
			for _, w := range *x.Referrers() {
				if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
					return false
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() != "len" && b.Name() != "cap" {
				if b.Name() == "delete" || b.Name() == "clear" || b.Name() == "copy" {
					return false
				}
			}
		case *ssa.Phi:
			if !valueReadOnly(x, d+1) {
				return false
			}
		}
	}
	return true
}

// newRun makes an interpreter whose state holds the effect of the package
// inits. modular: globals that the program changes later are unknown.
func (P *Program) newRun(modular bool) (*Interp, State) {
	it := newInterp(P.prog, nil)
	it.embeds = P.embeds
	st := State{pc: tTrue}
	for _, sp := range P.spkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				root, _ := ptrParts(it.val(nil, st, g))
				v := zeroOf(g.Type().Underlying().(*types.Pointer).Elem())
				if txt, ok := P.embeds[g.String()]; ok {
					v = mkStr(txt)
				}
				st.heap = st.heap.set(root.id, v)
			}
		}
	}
	_, st = it.callFn(nil, "init", st, P.mainPkg.Func("init"), nil, nil)
	// packages not imported by main
	for _, sp := range P.spkgs {
		if f := sp.Func("init"); f != nil && !it.analysed[f] {
			_, st = it.callFn(nil, "init:"+sp.Pkg.Path(), st, f, nil, nil)
		}
	}
	if modular {
		for _, sp := range P.spkgs {
			for _, m := range sp.Members {
				if g, ok := m.(*ssa.Global); ok && !P.consts[g] {
					root, _ := ptrParts(it.val(nil, st, g))
					st.heap = st.heap.del(root.id)
				}
			}
		}
	}
	it.events = nil
	return it, st
}

// fn finds a function by its ssa string suffix.
func (P *Program) fn(name string) *ssa.Function {
	for _, f := range P.all {
		if f.String() == name || shortFn(f) == name {
			return f
		}
	}
	return nil
}

// shortFn: package-relative name, e.g. core.RecordParser.ParseLoadClass
func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, repoModule+"/internal/", "")
	s = strings.ReplaceAll(s, repoModule+"/cmd/", "")
	return s
}

func (it *Interp) rootCall(st State, fn *ssa.Function, args []*Term) (*Term, State) {
	return it.callFn(nil, "root:"+fn.String(), st, fn, args, nil)
}

func symParams(fn *ssa.Function) []*Term {
	var out []*Term
	for _, p := range fn.Params {
		// parameters of the same name and different types are different symbols
		n := "p:" + p.Name()
		v := mkSym(n, 0, nil)
		for v.typ != nil && !types.Identical(v.typ, p.Type()) {
			n += "'"
			v = mkSym(n, 0, nil)
		}
		out = append(out, typed(v, p.Type()))
	}
	return out
}

// callees: the repository functions f may call directly (static calls,
// closures and method values it makes).
func (P *Program) callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && !seen[g] && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), repoModule) {
					seen[g] = true
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// impureName: calling the function twice with the same arguments need not
// give the same result, because it reads from or changes its surroundings.
func (P *Program) impureName(name string) bool {
	for _, f := range P.all {
		if f.String() == name {
			return P.impure(f)
		}
	}
	return true
}

func (P *Program) impure(f *ssa.Function) bool {
	if P.impureMemo == nil {
		P.impureMemo = map[*ssa.Function]bool{}
	}
	if r, ok := P.impureMemo[f]; ok {
		return r
	}
	P.impureMemo[f] = false
	r := P.impureBody(f)
	P.impureMemo[f] = r
	return r
}

func (P *Program) impureBody(f *ssa.Function) bool {
	var local func(v ssa.Value) bool
	local = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return true
		case *ssa.FieldAddr:
			return local(x.X)
		case *ssa.IndexAddr:
			return local(x.X)
		case *ssa.Slice:
			return local(x.X)
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !local(x.Addr) {
					return true
				}
			case *ssa.MapUpdate:
				if !local(x.Map) {
					return true
				}
			case *ssa.Go, *ssa.Send, *ssa.Select:
				return true
			case ssa.CallInstruction:
				c := x.Common()
				if c.IsInvoke() {
					if n := c.Method.Name(); n != "Error" && n != "String" {
						return true
					}
					continue
				}
				switch g := c.Value.(type) {
				case *ssa.Builtin:
				case *ssa.Function:
					if len(g.Blocks) == 0 || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), repoModule) {
						if o := g.Object(); o == nil || o.Pkg() == nil || !purePkgs[o.Pkg().Path()] && !strings.HasPrefix(g.String(), "fmt.Sprint") && g.String() != "fmt.Errorf" {
							return true
						}
					} else if P.impure(g) {
						return true
					}
				default:
					return true
				}
			}
		}
	}
	return false
}
