package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

var fset = token.NewFileSet()
var cnt int

func id(n string) *ast.Ident { return ast.NewIdent(n) }
func fresh(p string) string  { cnt++; return fmt.Sprintf("%s%d", p, cnt) }

func src(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, token.NewFileSet(), n)
	return b.String()
}

func terminating(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch x := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BlockStmt:
		return terminating(x.List)
	case *ast.IfStmt:
		if x.Else == nil {
			return false
		}
		e, ok := x.Else.(*ast.BlockStmt)
		if !ok {
			return terminating([]ast.Stmt{x.Else}) && terminating(x.Body.List)
		}
		return terminating(x.Body.List) && terminating(e.List)
	}
	return false
}

// blocks calls f on every statement list
func lists(n ast.Node, f func([]ast.Stmt) []ast.Stmt) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			x.List = f(x.List)
		case *ast.CaseClause:
			x.Body = f(x.Body)
		case *ast.CommClause:
			x.Body = f(x.Body)
		}
		return true
	})
}

func hasBreak(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.FuncLit:
			return false
		case *ast.BranchStmt:
			if x.Tok == token.BREAK && x.Label == nil {
				r = true
			}
		}
		return true
	})
	return r
}

func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return false
	case *ast.UnaryExpr:
		return x.Op == token.SUB && simple(x.X)
	}
	return false
}

func not(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}} }

func inspectOwn(body ast.Node, f func(n ast.Node) bool) {
	ast.Inspect(body, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			return false
		}
		return f(n)
	})
}

func nres(t *ast.FuncType) int {
	if t.Results == nil {
		return 0
	}
	return t.Results.NumFields()
}

type funcT struct {
	typ  *ast.FuncType
	body *ast.BlockStmt
	decl *ast.FuncDecl
}

func allFuncs(f *ast.File) []funcT {
	var r []funcT
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				r = append(r, funcT{x.Type, x.Body, x})
			}
		case *ast.FuncLit:
			r = append(r, funcT{x.Type, x.Body, nil})
		}
		return true
	})
	return r
}

func named(t *ast.FuncType) bool {
	return t.Results != nil && len(t.Results.List) > 0 && len(t.Results.List[0].Names) > 0
}

// own lists of function, not those of nested literals
func ownLists(b *ast.BlockStmt, f func([]ast.Stmt) []ast.Stmt) {
	inspectOwn(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			x.List = f(x.List)
		case *ast.CaseClause:
			x.Body = f(x.Body)
		case *ast.CommClause:
			x.Body = f(x.Body)
		}
		return true
	})
}

func params(t *ast.FuncType) ([]ast.Expr, token.Pos) {
	var a []ast.Expr
	var ell token.Pos
	for _, p := range t.Params.List {
		if len(p.Names) == 0 {
			p.Names = []*ast.Ident{id(fresh("p"))}
		}
		for _, n := range p.Names {
			if n.Name == "_" {
				n.Name = fresh("p")
			}
			a = append(a, id(n.Name))
		}
		if _, ok := p.Type.(*ast.Ellipsis); ok {
			ell = 1
		}
	}
	return a, ell
}

var T = map[string]func(f *ast.File){
	"outline": func(f *ast.File) {
		var add []ast.Decl
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || !fd.Name.IsExported() || len(fd.Body.List) < 2 {
				continue
			}
			args, ell := params(fd.Type)
			name := "do" + fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List[0].Names) == 0 {
				fd.Recv.List[0].Names = []*ast.Ident{id("recv")}
			}
			nf := &ast.FuncDecl{Name: id(name), Type: fd.Type, Recv: fd.Recv, Body: fd.Body}
			var fun ast.Expr = id(name)
			if fd.Recv != nil {
				fun = &ast.SelectorExpr{X: id(fd.Recv.List[0].Names[0].Name), Sel: id(name)}
			}
			call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}
			var st ast.Stmt = &ast.ReturnStmt{Results: []ast.Expr{call}}
			if nres(fd.Type) == 0 {
				st = &ast.ExprStmt{X: call}
			}
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{st}}
			add = append(add, nf)
		}
		f.Decls = append(f.Decls, add...)
	},
	"closure": func(f *ast.File) {
		for _, x := range allFuncs(f) {
			if x.decl == nil || len(x.body.List) < 2 {
				continue
			}
			t := &ast.FuncType{Params: &ast.FieldList{}, Results: x.typ.Results}
			lit := &ast.FuncLit{Type: t, Body: &ast.BlockStmt{List: x.body.List}}
			call := &ast.CallExpr{Fun: id("run")}
			var st ast.Stmt = &ast.ReturnStmt{Results: []ast.Expr{call}}
			if nres(x.typ) == 0 {
				st = &ast.ExprStmt{X: call}
			}
			x.body.List = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("run")}, Tok: token.DEFINE, Rhs: []ast.Expr{lit}}, st}
		}
	},
	"named": func(f *ast.File) {
		for _, x := range allFuncs(f) {
			if nres(x.typ) == 0 || named(x.typ) {
				continue
			}
			var ns []string
			for _, r := range x.typ.Results.List {
				n := fresh("res")
				r.Names = []*ast.Ident{id(n)}
				ns = append(ns, n)
			}
			ownLists(x.body, func(l []ast.Stmt) []ast.Stmt {
				var o []ast.Stmt
				for _, s := range l {
					if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) > 0 {
						var lhs []ast.Expr
						for _, n := range ns {
							lhs = append(lhs, id(n))
						}
						o = append(o, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: r.Results}, &ast.ReturnStmt{})
						continue
					}
					o = append(o, s)
				}
				return o
			})
		}
	},
	"invert": func(f *ast.File) {
		for _, x := range allFuncs(f) {
			var rec func(l []ast.Stmt) []ast.Stmt
			rec = func(l []ast.Stmt) []ast.Stmt {
				for i, s := range l {
					c, ok := s.(*ast.IfStmt)
					if !ok || c.Init != nil || c.Else != nil || !terminating(c.Body.List) || i+1 >= len(l) || !terminating(l[len(l)-1:]) {
						continue
					}
					rest := rec(append([]ast.Stmt(nil), l[i+1:]...))
					n := &ast.IfStmt{Cond: not(c.Cond), Body: &ast.BlockStmt{List: rest}, Else: c.Body}
					return append(append([]ast.Stmt(nil), l[:i]...), n)
				}
				return l
			}
			x.body.List = rec(x.body.List)
		}
	},
	"switch": func(f *ast.File) {
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			o := append([]ast.Stmt(nil), l...)
			for i, s := range o {
				c, ok := s.(*ast.IfStmt)
				if !ok || hasBreak(c) {
					continue
				}
				sw := &ast.SwitchStmt{Init: c.Init, Body: &ast.BlockStmt{}}
				sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{c.Cond}, Body: c.Body.List})
				if c.Else != nil {
					b := []ast.Stmt{c.Else}
					if e, ok := c.Else.(*ast.BlockStmt); ok {
						b = e.List
					}
					sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: b})
				}
				o[i] = sw
			}
			return o
		})
	},
	"splitinit": func(f *ast.File) {
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			o := append([]ast.Stmt(nil), l...)
			for i, s := range o {
				c, ok := s.(*ast.IfStmt)
				if !ok || c.Init == nil {
					continue
				}
				in := c.Init
				c.Init = nil
				o[i] = &ast.BlockStmt{List: []ast.Stmt{in, c}}
			}
			return o
		})
	},
	"temps": func(f *ast.File) {
		for _, x := range allFuncs(f) {
			ownLists(x.body, func(l []ast.Stmt) []ast.Stmt {
				var o []ast.Stmt
				for _, s := range l {
					r, ok := s.(*ast.ReturnStmt)
					if !ok || len(r.Results) == 0 {
						o = append(o, s)
						continue
					}
					n := nres(x.typ)
					if len(r.Results) == 1 && n > 1 {
						var lhs, res []ast.Expr
						for i := 0; i < n; i++ {
							v := fresh("tmp")
							lhs = append(lhs, id(v))
							res = append(res, id(v))
						}
						o = append(o, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: r.Results}, &ast.ReturnStmt{Results: res})
						continue
					}
					var res []ast.Expr
					for _, e := range r.Results {
						if simple(e) {
							res = append(res, e)
							continue
						}
						v := fresh("tmp")
						o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
						res = append(res, id(v))
					}
					o = append(o, &ast.ReturnStmt{Results: res})
				}
				return o
			})
		}
	},
	"condvar": func(f *ast.File) {
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				c, ok := s.(*ast.IfStmt)
				if ok && !simple(c.Cond) {
					v := fresh("cond")
					as := &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Cond}}
					c.Cond = id(v)
					if c.Init != nil {
						in := c.Init
						c.Init = nil
						o = append(o, &ast.BlockStmt{List: []ast.Stmt{in, as, c}})
						continue
					}
					o = append(o, as)
				}
				o = append(o, s)
			}
			return o
		})
	},
	"andor": func(f *ast.File) {
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				c, ok := s.(*ast.IfStmt)
				if !ok {
					o = append(o, s)
					continue
				}
				b, ok := c.Cond.(*ast.BinaryExpr)
				switch {
				case ok && b.Op == token.LAND && c.Else == nil:
					c.Cond = b.X
					c.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: c.Body}}}
					o = append(o, c)
				case ok && b.Op == token.LOR && c.Else == nil && c.Init == nil && terminating(c.Body.List):
					c.Cond = b.X
					o = append(o, c, &ast.IfStmt{Cond: b.Y, Body: c.Body})
				case ok && b.Op == token.NEQ && c.Else == nil:
					c.Cond = not(&ast.BinaryExpr{X: b.X, Op: token.EQL, Y: b.Y})
					o = append(o, c)
				case ok && b.Op == token.LSS && c.Else == nil:
					c.Cond = &ast.BinaryExpr{X: b.Y, Op: token.GTR, Y: b.X}
					o = append(o, c)
				case c.Else == nil && !ok:
					c.Cond = not(c.Cond)
					c.Else = c.Body
					c.Body = &ast.BlockStmt{}
					o = append(o, c)
				default:
					o = append(o, c)
				}
			}
			return o
		})
	},
	"fields": func(f *ast.File) {
		// x := &T{a: b} / return &T{..}: allocate, then set the fields
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			lit := func(e ast.Expr) *ast.CompositeLit {
				u, ok := e.(*ast.UnaryExpr)
				if !ok || u.Op != token.AND {
					return nil
				}
				c, ok := u.X.(*ast.CompositeLit)
				if !ok || len(c.Elts) == 0 {
					return nil
				}
				for _, k := range c.Elts {
					if _, ok := k.(*ast.KeyValueExpr); !ok {
						return nil
					}
				}
				return c
			}
			expand := func(v string, c *ast.CompositeLit) {
				o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: id("new"), Args: []ast.Expr{c.Type}}}})
				for _, k := range c.Elts {
					kv := k.(*ast.KeyValueExpr)
					o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(v), Sel: id(kv.Key.(*ast.Ident).Name)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
				}
			}
			for _, s := range l {
				switch x := s.(type) {
				case *ast.ReturnStmt:
					for i, e := range x.Results {
						if c := lit(e); c != nil {
							v := fresh("obj")
							expand(v, c)
							x.Results[i] = id(v)
						}
					}
				case *ast.AssignStmt:
					if x.Tok == token.DEFINE && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
						if c := lit(x.Rhs[0]); c != nil {
							expand(x.Lhs[0].(*ast.Ident).Name, c)
							continue
						}
					}
				}
				o = append(o, s)
			}
			return o
		})
	},
	"deferfn": func(f *ast.File) {
		ast.Inspect(f, func(n ast.Node) bool {
			d, ok := n.(*ast.DeferStmt)
			if !ok || len(d.Call.Args) > 0 {
				return true
			}
			if _, ok := d.Call.Fun.(*ast.FuncLit); ok {
				return true
			}
			d.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: d.Call}}}}}
			return false
		})
	},
	"nodefer": func(f *ast.File) {
		for _, x := range allFuncs(f) {
			var un []*ast.CallExpr
			var keep []ast.Stmt
			bad := false
			for i, s := range x.body.List {
				if d, ok := s.(*ast.DeferStmt); ok {
					if i < 3 && strings.HasSuffix(src(d.Call.Fun), "nlock") {
						un = append(un, d.Call)
						continue
					}
					bad = true
				}
				keep = append(keep, s)
			}
			inspectOwn(x.body, func(n ast.Node) bool {
				if _, ok := n.(*ast.DeferStmt); ok && len(un) == 0 {
					bad = true
				}
				return true
			})
			if len(un) != 1 || bad || named(x.typ) {
				continue
			}
			x.body.List = keep
			n := nres(x.typ)
			ownLists(x.body, func(l []ast.Stmt) []ast.Stmt {
				var o []ast.Stmt
				for _, s := range l {
					r, ok := s.(*ast.ReturnStmt)
					if !ok {
						o = append(o, s)
						continue
					}
					if len(r.Results) == 1 && n > 1 {
						var lhs, res []ast.Expr
						for i := 0; i < n; i++ {
							v := fresh("tmp")
							lhs = append(lhs, id(v))
							res = append(res, id(v))
						}
						o = append(o, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: r.Results})
						r = &ast.ReturnStmt{Results: res}
					} else {
						var res []ast.Expr
						for _, e := range r.Results {
							if simple(e) {
								res = append(res, e)
								continue
							}
							v := fresh("tmp")
							o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
							res = append(res, id(v))
						}
						r = &ast.ReturnStmt{Results: res}
					}
					o = append(o, &ast.ExprStmt{X: un[0]}, r)
				}
				return o
			})
			if !terminating(x.body.List) && n == 0 {
				x.body.List = append(x.body.List, &ast.ExprStmt{X: un[0]})
			}
		}
	},
	"mualias": func(f *ast.File) {
		for _, x := range allFuncs(f) {
			seen := map[string]string{}
			var pre []ast.Stmt
			ast.Inspect(x.body, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				s, ok := c.Fun.(*ast.SelectorExpr)
				if !ok || !strings.HasSuffix(s.Sel.Name, "ock") {
					return true
				}
				fs, ok := s.X.(*ast.SelectorExpr)
				if !ok || x.decl == nil {
					return true
				}
				if b, ok := fs.X.(*ast.Ident); !ok || x.decl.Recv == nil || len(x.decl.Recv.List[0].Names) == 0 || b.Name != x.decl.Recv.List[0].Names[0].Name {
					return true
				}
				k := src(fs)
				if seen[k] == "" {
					seen[k] = fresh("mux")
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(seen[k])}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: fs}}})
				}
				s.X = id(seen[k])
				return true
			})
			x.body.List = append(pre, x.body.List...)
		}
	},
	"selorder": func(f *ast.File) {
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectStmt); ok {
				l := s.Body.List
				for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
					l[i], l[j] = l[j], l[i]
				}
			}
			if c, ok := n.(*ast.CompositeLit); ok && len(c.Elts) > 1 {
				if _, ok := c.Elts[0].(*ast.KeyValueExpr); ok {
					for i, j := 0, len(c.Elts)-1; i < j; i, j = i+1, j-1 {
						c.Elts[i], c.Elts[j] = c.Elts[j], c.Elts[i]
					}
				}
			}
			return true
		})
	},
	"vars": func(f *ast.File) {
		// x := T{} -> var x T; x := e -> var x = e; return early through else-less blocks
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			o := append([]ast.Stmt(nil), l...)
			for i, s := range o {
				a, ok := s.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 {
					continue
				}
				sp := &ast.ValueSpec{Names: []*ast.Ident{a.Lhs[0].(*ast.Ident)}}
				if c, ok := a.Rhs[0].(*ast.CompositeLit); ok && len(c.Elts) == 0 && c.Type != nil {
					if _, isMap := c.Type.(*ast.MapType); !isMap {
						if _, isArr := c.Type.(*ast.ArrayType); !isArr {
							sp.Type = c.Type
						}
					}
				}
				if sp.Type == nil {
					sp.Values = a.Rhs
				}
				o[i] = &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{sp}}}
			}
			return o
		})
	},
	"args": func(f *ast.File) {
		// hoist the arguments and receivers that are calls out of expression statements, assignments and returns
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			hoist := func(e ast.Expr) {
				c, ok := e.(*ast.CallExpr)
				if !ok {
					return
				}
				if s, ok := c.Fun.(*ast.SelectorExpr); ok {
					if rc, ok := s.X.(*ast.CallExpr); ok {
						v := fresh("arg")
						o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{rc}})
						s.X = id(v)
					}
				}
				if fn, ok := c.Fun.(*ast.Ident); ok && (fn.Name == "make" || fn.Name == "new") {
					return
				}
				for i, a := range c.Args {
					if ac, ok := a.(*ast.CallExpr); ok && c.Ellipsis == 0 {
						if _, isArr := ac.Fun.(*ast.ArrayType); isArr {
							continue
						}
						v := fresh("arg")
						o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{ac}})
						c.Args[i] = id(v)
					}
				}
			}
			for _, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt:
					hoist(x.X)
				case *ast.AssignStmt:
					if len(x.Rhs) == 1 {
						hoist(x.Rhs[0])
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 1 {
						hoist(x.Results[0])
					}
				}
				o = append(o, s)
			}
			return o
		})
	},
	"unblock": func(f *ast.File) {
		// if c { A } else { B } with A terminating -> if c { A }; B  (B without declarations clash is up to the compiler)
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				c, ok := s.(*ast.IfStmt)
				if ok && c.Else != nil && c.Init == nil && terminating(c.Body.List) {
					e := c.Else
					c.Else = nil
					o = append(o, c, e)
					continue
				}
				o = append(o, s)
			}
			return o
		})
	},
	"loopidx": func(f *ast.File) {
		// accumulate a flag/err and return after the loop: return inside loops becomes break with a result variable
		for _, x := range allFuncs(f) {
			if x.decl == nil || named(x.typ) {
				continue
			}
			ownLists(x.body, func(l []ast.Stmt) []ast.Stmt {
				var o []ast.Stmt
				for _, s := range l {
					r, ok := s.(*ast.RangeStmt)
					if !ok {
						o = append(o, s)
						continue
					}
					// only plain returns in ifs directly in the loop
					cand := 0
					nested := false
					ast.Inspect(r.Body, func(n ast.Node) bool {
						switch n.(type) {
						case *ast.ReturnStmt:
							cand++
						case *ast.FuncLit, *ast.RangeStmt, *ast.ForStmt, *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
							nested = true
						}
						return true
					})
					if cand == 0 || nested {
						o = append(o, s)
						continue
					}
					done := fresh("done")
					var decls []ast.Stmt
					var vars []string
					for _, t := range x.typ.Results.List {
						v := fresh("out")
						vars = append(vars, v)
						decls = append(decls, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(v)}, Type: t.Type}}}})
					}
					ids := func() []ast.Expr {
						var e []ast.Expr
						for _, v := range vars {
							e = append(e, id(v))
						}
						return e
					}
					lists(r.Body, func(l []ast.Stmt) []ast.Stmt {
						var o []ast.Stmt
						for _, s := range l {
							if q, ok := s.(*ast.ReturnStmt); ok {
								o = append(o, &ast.AssignStmt{Lhs: ids(), Tok: token.ASSIGN, Rhs: q.Results}, &ast.AssignStmt{Lhs: []ast.Expr{id(done)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id("true")}}, &ast.BranchStmt{Tok: token.BREAK})
								continue
							}
							o = append(o, s)
						}
						return o
					})
					o = append(o, decls...)
					o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{id(done)}, Tok: token.DEFINE, Rhs: []ast.Expr{id("false")}}, r,
						&ast.IfStmt{Cond: id(done), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: ids()}}}})
				}
				return o
			})
		}
	},
	"bodyfn": func(f *ast.File) {
		// the body of a range loop without jumps becomes a local function called per element
		for _, x := range allFuncs(f) {
			ownLists(x.body, func(l []ast.Stmt) []ast.Stmt {
				for _, s := range l {
					r, ok := s.(*ast.RangeStmt)
					if !ok {
						continue
					}
					bad := false
					ast.Inspect(r.Body, func(n ast.Node) bool {
						switch n.(type) {
						case *ast.ReturnStmt, *ast.BranchStmt, *ast.FuncLit:
							bad = true
						}
						return true
					})
					if bad {
						continue
					}
					r.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: r.Body}}}}}
				}
				return l
			})
		}
	},
}

func main() {
	if len(os.Args) == 1 {
		for k := range T {
			fmt.Println(k)
		}
		return
	}
	for _, file := range os.Args[2:] {
		b, _ := os.ReadFile(file)
		// drop comments: positions would be wrong
		f, err := parser.ParseFile(fset, file, b, 0)
		if err != nil {
			panic(err)
		}
		T[os.Args[1]](f)
		// reprint without positions
		var buf bytes.Buffer
		if err := format.Node(&buf, fset, f); err != nil {
			panic(err)
		}
		os.WriteFile(file, buf.Bytes(), 0o644)
	}
}
