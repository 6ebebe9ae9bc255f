package main

// Statement and expression rewriting (goroutines, channels, select, package names).

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

const chanPkg = "vrt/vchan"

func applyRewrite(n ast.Node, r *rewriter) {
	astutil.Apply(n, nil, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.SelectorExpr:
			if e := r.selector(x); e != nil {
				c.Replace(e)
			}
		case *ast.ChanType:
			// chan T
			c.Replace(&ast.StarExpr{X: &ast.IndexExpr{X: r.sel(chanPkg, "Chan"), Index: x.Value}})
		case *ast.CallExpr:
			id, ok := x.Fun.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			switch id.Name {
			case "make":
				if el := chanElem(x.Args[0]); el != nil {
					size := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
					if len(x.Args) > 1 {
						size = x.Args[1]
					}
					c.Replace(&ast.CallExpr{Fun: &ast.IndexExpr{X: r.sel(chanPkg, "Make"), Index: el}, Args: []ast.Expr{size}})
				}
			case "close":
				c.Replace(r.call(chanPkg, "Close", x.Args...))
			case "len", "cap":
				if len(x.Args) == 1 && r.isChan(x.Args[0]) {
					c.Replace(r.call(chanPkg, strings.Title(id.Name), x.Args...))
				}
			}
		case *ast.RangeStmt:
			if r.isChan(x.X) {
				c.Replace(r.rangeChan(x))
			}
		case *ast.UnaryExpr:
			if x.Op != token.ARROW {
				return true
			}
			fn := "Recv"
			switch p := c.Parent().(type) {
			case *ast.AssignStmt:
				if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
					fn = "Recv2"
				}
			case *ast.ValueSpec:
				if len(p.Names) == 2 && len(p.Values) == 1 {
					fn = "Recv2"
				}
			}
			if commOf(c) {
				return true // handled with its select statement
			}
			c.Replace(r.call(chanPkg, fn, x.X))
		case *ast.SendStmt:
			if _, ok := c.Parent().(*ast.CommClause); ok && c.Name() == "Comm" {
				return true
			}
			c.Replace(&ast.ExprStmt{X: r.call(chanPkg, "Send", x.Chan, x.Value)})
		case *ast.SelectStmt:
			c.Replace(r.selectStmt(x))
		case *ast.GoStmt:
			c.Replace(r.goStmt(x))
		}
		return true
	})
}

// isChan: the expression names something this package declares as a channel
// and as nothing else, or is the channel of a timer.
func (r *rewriter) isChan(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.isChan(x.X)
	case *ast.Ident:
		if x.Obj != nil {
			return r.chanIds[x]
		}
		return r.chans[x.Name]
	case *ast.SelectorExpr:
		return r.chans[x.Sel.Name] || x.Sel.Name == "C" && r.imports["time"] == "time"
	case *ast.CallExpr:
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Name == alias("vrt/vtime") {
				return s.Sel.Name == "Tick" || s.Sel.Name == "After"
			}
		}
	}
	return false
}

// markChans notes the uses of local channels, by what the parser resolved them to.
func (r *rewriter) markChans(f *ast.File) {
	r.chanIds = map[*ast.Ident]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || id.Obj == nil {
			return true
		}
		switch d := id.Obj.Decl.(type) {
		case *ast.Field:
			_, r.chanIds[id] = d.Type.(*ast.ChanType)
		case *ast.ValueSpec:
			for i, x := range d.Names {
				if x.Name == id.Name {
					r.chanIds[id] = chanDecl(d.Type, at(d.Values, i))
				}
			}
		case *ast.AssignStmt:
			for i, l := range d.Lhs {
				if x, ok := l.(*ast.Ident); ok && x.Name == id.Name && len(d.Lhs) == len(d.Rhs) {
					r.chanIds[id] = chanDecl(nil, d.Rhs[i])
					if !r.chanIds[id] {
						// a copy of another channel
						r.chanIds[id] = r.isChan(d.Rhs[i])
					}
				}
			}
		}
		return true
	})
}

func at(l []ast.Expr, i int) ast.Expr {
	if i < len(l) {
		return l[i]
	}
	return nil
}

// chanDecl: something declared with this type or this value is a channel.
func chanDecl(t, v ast.Expr) bool {
	_, c := t.(*ast.ChanType)
	if mk, ok := v.(*ast.CallExpr); ok && t == nil {
		if id, ok := mk.Fun.(*ast.Ident); ok && id.Name == "make" && len(mk.Args) > 0 {
			_, c = mk.Args[0].(*ast.ChanType)
		}
	}
	return c
}

// rangeChan: for v := range ch { ... } receives until the channel is closed.
// The channel is evaluated once, and continue goes on with the next receive.
func (r *rewriter) rangeChan(x *ast.RangeStmt) ast.Stmt {
	r.tmp++
	ch, ok, v := fmt.Sprintf("zzch%d", r.tmp), fmt.Sprintf("zzok%d", r.tmp), fmt.Sprintf("zzv%d", r.tmp)
	if x.Key == nil {
		v = "_"
	}
	stop := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
	body := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call(chanPkg, "Recv2", ast.NewIdent(ch))}},
		stop,
	}
	if x.Key != nil {
		if id, isId := x.Key.(*ast.Ident); isId && id.Name == "_" {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v)}})
		} else {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(v)}})
		}
	}
	body = append(body, x.Body.List...)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}},
		Body: &ast.BlockStmt{List: body},
	}
}

// chanNames are the fields and package variables the files of a directory
// declare as channels and as nothing else.
func chanNames(dir string) map[string]bool {
	is, not := map[string]bool{}, map[string]bool{}
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, m := range ms {
		if strings.HasSuffix(m, "_test.go") {
			continue
		}
		if ok, err := goCtx.MatchFile(dir, filepath.Base(m)); err != nil || !ok {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), m, nil, 0)
		if err != nil {
			continue
		}
		note := func(ids []*ast.Ident, t, v ast.Expr) {
			c := chanDecl(t, v)
			for _, id := range ids {
				if c {
					is[id.Name] = true
				} else {
					not[id.Name] = true
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				return false
			case *ast.Field:
				note(x.Names, x.Type, nil)
			case *ast.ValueSpec:
				for i, id := range x.Names {
					note([]*ast.Ident{id}, x.Type, at(x.Values, i))
				}
			}
			return true
		})
	}
	for n := range not {
		delete(is, n)
	}
	return is
}

func chanElem(e ast.Expr) ast.Expr {
	// after the children were rewritten: *vchan.Chan[T]
	st, ok := e.(*ast.StarExpr)
	if !ok {
		return nil
	}
	ix, ok := st.X.(*ast.IndexExpr)
	if !ok {
		return nil
	}
	se, ok := ix.X.(*ast.SelectorExpr)
	if !ok || se.Sel.Name != "Chan" {
		return nil
	}
	if id, ok := se.X.(*ast.Ident); !ok || id.Name != alias(chanPkg) {
		return nil
	}
	return ix.Index
}

// commOf: the receive expression is the communication of a select clause.
func commOf(c *astutil.Cursor) bool {
	switch c.Parent().(type) {
	case *ast.ExprStmt, *ast.AssignStmt:
	default:
		return false
	}
	return selectComms[c.Parent()]
}

// selectComms is filled lazily by markSelects.
var selectComms = map[ast.Node]bool{}

func markSelects(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		if cc, ok := n.(*ast.CommClause); ok && cc.Comm != nil {
			selectComms[cc.Comm] = true
		}
		return true
	})
}

// selectStmt: switch over the clause picked by the model.
func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	r.tmp++
	res := fmt.Sprintf("zzsel%d", r.tmp)
	var pre []ast.Stmt
	hasDef := "false"
	var args []ast.Expr
	sw := &ast.SwitchStmt{Tag: ast.NewIdent(res), Body: &ast.BlockStmt{}}
	k := 0
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cc.Body})
			continue
		}
		r.tmp++
		ch := fmt.Sprintf("zzch%d", r.tmp)
		var chx ast.Expr
		var body []ast.Stmt
		recv := func(e ast.Expr) (ast.Expr, bool) {
			for {
				if p, ok := e.(*ast.ParenExpr); ok {
					e = p.X
					continue
				}
				break
			}
			u, ok := e.(*ast.UnaryExpr)
			if ok && u.Op == token.ARROW {
				return u.X, true
			}
			return nil, false
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			chx = cm.Chan
			v := ch + "v"
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch), ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{chx, cm.Value}})
			args = append(args, r.call(chanPkg, "SendCase", ast.NewIdent(ch)))
			body = append(body, &ast.ExprStmt{X: r.call(chanPkg, "Send", ast.NewIdent(ch), ast.NewIdent(v))})
		case *ast.ExprStmt:
			chx, _ = recv(cm.X)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{chx}})
			args = append(args, r.call(chanPkg, "RecvCase", ast.NewIdent(ch)))
			body = append(body, &ast.ExprStmt{X: r.call(chanPkg, "Recv", ast.NewIdent(ch))})
		case *ast.AssignStmt:
			chx, _ = recv(cm.Rhs[0])
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{chx}})
			args = append(args, r.call(chanPkg, "RecvCase", ast.NewIdent(ch)))
			fn := "Recv"
			if len(cm.Lhs) == 2 {
				fn = "Recv2"
			}
			body = append(body, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: []ast.Expr{r.call(chanPkg, fn, ast.NewIdent(ch))}})
		}
		body = append(body, cc.Body...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(k)}}, Body: body})
		k++
	}
	all := append([]ast.Expr{ast.NewIdent(hasDef)}, args...)
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(res)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call(chanPkg, "Select", all...)}})
	sw.Init = nil
	return &ast.BlockStmt{List: append(pre, sw)}
}

func (r *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	call := g.Call
	mk := func(c *ast.CallExpr) ast.Stmt {
		return &ast.ExprStmt{X: r.call("vrt/verif", "Go", &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}})}
	}
	if _, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		return &ast.ExprStmt{X: r.call("vrt/verif", "Go", &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}})}
	}
	if id, ok := call.Fun.(*ast.Ident); ok && id.Obj == nil {
		switch id.Name {
		case "print", "println", "panic", "delete", "copy", "append", "recover":
			return mk(call)
		}
	}
	var lhs, rhs []ast.Expr
	inner := &ast.CallExpr{Ellipsis: call.Ellipsis}
	name := func() *ast.Ident { r.tmp++; return ast.NewIdent(fmt.Sprintf("zzgo%d", r.tmp)) }
	if _, ok := call.Fun.(*ast.FuncLit); ok {
		inner.Fun = call.Fun
	} else {
		f := name()
		lhs, rhs = append(lhs, f), append(rhs, call.Fun)
		inner.Fun = ast.NewIdent(f.Name)
	}
	for _, a := range call.Args {
		if _, ok := a.(*ast.BasicLit); ok {
			inner.Args = append(inner.Args, a)
			continue
		}
		if id, ok := a.(*ast.Ident); ok && id.Obj == nil && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
			inner.Args = append(inner.Args, a)
			continue
		}
		v := name()
		lhs, rhs = append(lhs, v), append(rhs, a)
		inner.Args = append(inner.Args, ast.NewIdent(v.Name))
	}
	if len(lhs) == 0 {
		return mk(inner)
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs},
		mk(inner)}}
}
