package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Which statements deserve the scheduler's special attention: those that write
// package-level state or hand it out, that use synchronisation or atomics, and
// those that write to a node through a receiver or parameter. This only steers
// the search; what counts as a violation doesn't depend on it.
type suspects struct {
	info     *types.Info
	mod      map[string]*listedPkg
	expr     *types.Interface // parser.Expr
	written  map[*types.Var]bool
	mutating map[*types.Func]bool
	params   map[types.Object]bool
}

func rootOf(info *types.Info, e ast.Expr) (*ast.Ident, int) {
	for n := 0; ; {
		switch x := e.(type) {
		case *ast.Ident:
			return x, n
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if _, ok := info.Uses[id].(*types.PkgName); ok {
					return x.Sel, n
				}
			}
			e, n = x.X, n+1
		case *ast.IndexExpr:
			e, n = x.X, n+1
		case *ast.SliceExpr:
			e, n = x.X, n+1
		case *ast.StarExpr:
			e, n = x.X, n+1
		case *ast.ParenExpr:
			e = x.X
		case *ast.TypeAssertExpr:
			e, n = x.X, n+1
		case *ast.UnaryExpr:
			if x.Op != token.AND {
				return nil, 0
			}
			e = x.X
		default:
			return nil, 0
		}
	}
}

func (s *suspects) pkgVar(e ast.Expr) *types.Var {
	id, _ := rootOf(s.info, e)
	if id == nil {
		return nil
	}
	v, ok := s.info.Uses[id].(*types.Var)
	if !ok || v.Pkg() == nil || v.IsField() || s.mod[v.Pkg().Path()] == nil || v.Parent() != v.Pkg().Scope() {
		return nil
	}
	return v
}

// targets calls f with everything a node itself (not its blocks) writes to.
func targets(n ast.Node, f func(ast.Expr)) {
	switch x := n.(type) {
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			for _, l := range x.Lhs {
				f(l)
			}
		}
	case *ast.IncDecStmt:
		f(x.X)
	case *ast.RangeStmt:
		if x.Tok == token.ASSIGN {
			if x.Key != nil {
				f(x.Key)
			}
			if x.Value != nil {
				f(x.Value)
			}
		}
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if _, ok := x.X.(*ast.CompositeLit); !ok {
				f(x.X)
			}
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear" || id.Name == "copy") && len(x.Args) > 0 {
			f(x.Args[0])
		}
	}
}

// newSuspects looks at all the packages first.
func newSuspects(m *modImporter) map[string]*suspects {
	written, mutating := map[*types.Var]bool{}, map[*types.Func]bool{}
	var expr *types.Interface
	for _, p := range m.done {
		if o := p.Scope().Lookup("Expr"); o != nil {
			if i, ok := o.Type().Underlying().(*types.Interface); ok {
				expr = i
			}
		}
	}
	all := map[string]*suspects{}
	for path, info := range m.info {
		all[path] = &suspects{info: info, mod: m.by, expr: expr, written: written, mutating: mutating, params: map[types.Object]bool{}}
	}
	for again := true; again; {
		again = false
		for path, files := range m.file {
			s := all[path]
			for _, af := range files {
				for _, d := range af.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Body == nil || fd.Recv == nil && fd.Name.Name == "init" {
						continue
					}
					fn, _ := s.info.Defs[fd.Name].(*types.Func)
					// a parser filling in the node it is making is nothing special
					isParser := fd.Recv != nil && strings.Contains(types.ExprString(fd.Recv.List[0].Type), "Parser")
					var recv types.Object
					for _, l := range []*ast.FieldList{fd.Recv, fd.Type.Params} {
						if l == nil {
							continue
						}
						for _, f := range l.List {
							for _, nm := range f.Names {
								if o := s.info.Defs[nm]; o != nil {
									s.params[o] = !isParser
									if l == fd.Recv {
										recv = o
									}
								}
							}
						}
					}
					ast.Inspect(fd.Body, func(n ast.Node) bool {
						targets(n, func(e ast.Expr) {
							if v := s.pkgVar(e); v != nil && !written[v] {
								written[v], again = true, true
							}
							if id, k := rootOf(s.info, e); id != nil && k > 0 && recv != nil && s.info.Uses[id] == recv && !mutating[fn] {
								mutating[fn], again = true, true
							}
						})
						if c, ok := n.(*ast.CallExpr); ok {
							if sel, ok := c.Fun.(*ast.SelectorExpr); ok && s.changes(sel) {
								if v := s.pkgVar(sel.X); v != nil && !written[v] {
									written[v], again = true, true
								}
								if id, _ := rootOf(s.info, sel.X); id != nil && recv != nil && s.info.Uses[id] == recv && !mutating[fn] {
									mutating[fn], again = true, true
								}
							}
						}
						return true
					})
				}
			}
		}
	}
	return all
}

// changes says whether a method call may write to what it is called on.
func (s *suspects) changes(sel *ast.SelectorExpr) bool {
	se, ok := s.info.Selections[sel]
	if !ok || se.Kind() != types.MethodVal {
		return false
	}
	fn, ok := se.Obj().(*types.Func)
	if !ok || fn.Pkg() == nil {
		return false
	}
	if s.mod[fn.Pkg().Path()] != nil {
		return s.mutating[fn.Origin()] || s.mutating[fn]
	}
	r := fn.Type().(*types.Signature).Recv()
	if r == nil {
		return false
	}
	_, ptr := r.Type().(*types.Pointer)
	return ptr
}

// is judges one statement, not looking into its blocks.
func (s *suspects) is(st ast.Stmt) bool {
	found := false
	benign := map[ast.Node]bool{} // uses of package-level variables that only look
	ast.Inspect(st, func(n ast.Node) bool {
		if found {
			return false
		}
		switch n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
			found = true
			return false
		}
		targets(n, func(e ast.Expr) {
			if s.pkgVar(e) != nil {
				found = true
			}
			id, k := rootOf(s.info, e)
			if id != nil && k > 0 && s.expr != nil && s.params[s.info.Uses[id]] {
				t := s.info.Uses[id].Type()
				if _, ok := t.Underlying().(*types.Interface); types.Implements(t, s.expr) && !ok {
					found = true
				}
			}
		})
		look := func(e ast.Expr) {
			for {
				if p, ok := e.(*ast.ParenExpr); ok {
					e = p.X
					continue
				}
				break
			}
			if sel, ok := e.(*ast.SelectorExpr); ok {
				benign[sel.Sel] = true
			}
			benign[e] = true
		}
		switch x := n.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if pn, ok := s.info.Uses[id].(*types.PkgName); ok {
					if p := pn.Imported().Path(); p == "sync/atomic" || p == "sync" || p == "unsafe" {
						found = true
					}
				}
			}
			if se, ok := s.info.Selections[x]; ok {
				if o := se.Obj(); o.Pkg() != nil && (o.Pkg().Path() == "sync" || o.Pkg().Path() == "sync/atomic") {
					found = true
				}
			}
			look(x.X)
		case *ast.CallExpr:
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok && s.pkgVar(sel.X) != nil && s.changes(sel) {
				found = true
			}
			if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap") {
				for _, a := range x.Args {
					look(a)
				}
			}
		case *ast.IndexExpr:
			look(x.X)
		case *ast.RangeStmt:
			look(x.X)
		case *ast.BinaryExpr:
			look(x.X)
			look(x.Y)
		case *ast.Ident:
			v := s.pkgVar(x)
			if v == nil {
				break
			}
			if s.written[v] {
				found = true
				break
			}
			switch v.Type().Underlying().(type) {
			case *types.Slice, *types.Map, *types.Pointer, *types.Chan:
				if !benign[x] {
					found = true
				}
			}
		}
		return true
	})
	return found
}
