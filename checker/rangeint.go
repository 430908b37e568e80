package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// rangeIntOverlay rewrites `for i := range n` over an integer into the
// three-clause loop it abbreviates, on the same line, so that the two forms
// have one representation.  The rewritten text only exists in memory.
func rangeIntOverlay(ps []*packages.Package) map[string][]byte {
	out := map[string][]byte{}
	for _, p := range ps {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			type edit struct {
				from, to int
				text     string
			}
			var edits []edit
			src, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			off := func(x token.Pos) int { return p.Fset.Position(x).Offset }
			qual := func(o *types.Package) string {
				if o == p.Types {
					return ""
				}
				for _, im := range f.Imports {
					if strings.Trim(im.Path.Value, "\"") == o.Path() && im.Name != nil {
						return im.Name.Name
					}
				}
				return o.Name()
			}
			n := 0
			ast.Inspect(f, func(nd ast.Node) bool {
				rs, ok := nd.(*ast.RangeStmt)
				if !ok {
					return true
				}
				tv, ok := p.TypesInfo.Types[rs.X]
				if !ok {
					return true
				}
				b, ok := tv.Type.Underlying().(*types.Basic)
				if !ok || b.Info()&types.IsInteger == 0 {
					return true
				}
				if rs.Key != nil && rs.Tok != token.DEFINE {
					return true
				}
				key := ""
				var T types.Type = tv.Type
				if rs.Key != nil {
					id, ok := rs.Key.(*ast.Ident)
					if !ok {
						return true
					}
					if id.Name != "_" {
						key = id.Name
						obj := p.TypesInfo.Defs[id]
						if obj == nil || assignedIn(p, rs.Body, obj) {
							return true
						}
						T = obj.Type()
					}
				}
				if bt, ok := T.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
					T = types.Typ[types.Int]
				}
				n++
				if key == "" {
					key = fmt.Sprintf("njI%d", n)
				}
				lim := fmt.Sprintf("njN%d", n)
				ts := types.TypeString(T, qual)
				x := string(src[off(rs.X.Pos()):off(rs.X.End())])
				if strings.Contains(x, "\n") {
					return true
				}
				edits = append(edits, edit{off(rs.For), off(rs.Body.Lbrace),
					fmt.Sprintf("for %s, %s := %s(0), %s(%s); %s < %s; %s++ ", key, lim, ts, ts, x, key, lim, key)})
				return true
			})
			if len(edits) == 0 {
				continue
			}
			sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
			s := string(src)
			for _, e := range edits {
				s = s[:e.from] + e.text + s[e.to:]
			}
			out[name] = []byte(s)
		}
	}
	return out
}

// assignedIn tells whether the body assigns obj or takes its address.
func assignedIn(p *packages.Package, body ast.Node, obj types.Object) bool {
	bad := false
	is := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		return ok && p.TypesInfo.Uses[id] == obj
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				bad = bad || is(l)
			}
		case *ast.IncDecStmt:
			bad = bad || is(x.X)
		case *ast.UnaryExpr:
			bad = bad || x.Op == token.AND && is(x.X)
		case *ast.RangeStmt:
			bad = bad || x.Key != nil && is(x.Key) || x.Value != nil && is(x.Value)
		}
		return true
	})
	return bad
}
