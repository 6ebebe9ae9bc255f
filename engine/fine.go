package main

// Fine-grained interleaving: before a statement that reads or writes fields of a shared
// struct, verif.Touch(...) is inserted. It is a scheduling point, and it reports two tasks
// that are about to make conflicting accesses at the same time (a data race). Only used
// for harnesses that ask for it (verif.Fine). Harnesses that set verif.Steps get a
// scheduling point (verif.Step) before every statement instead.

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// shared describes the struct types of one package directory.
type shared struct {
	fields map[string]map[string]bool // type -> field -> is it a map
}

func sharedOf(dir string) *shared {
	sh := &shared{fields: map[string]map[string]bool{}}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return sh
	}
	embeds := map[string][]string{}
	structs := map[string]*ast.StructType{}
	syncName := map[*ast.StructType]map[string]bool{}
	fset := token.NewFileSet()
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		if ok, err := goCtx.MatchFile(dir, e.Name()); err != nil || !ok {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			continue
		}
		sn := map[string]bool{}
		for _, s := range f.Imports {
			path, _ := strconv.Unquote(s.Path.Value)
			if strings.Contains(path, "sync") {
				n := path[strings.LastIndex(path, "/")+1:]
				if s.Name != nil {
					n = s.Name.Name
				}
				sn[n] = true
			}
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				if ts, ok := s.(*ast.TypeSpec); ok {
					if st, ok := ts.Type.(*ast.StructType); ok {
						structs[ts.Name.Name] = st
						syncName[st] = sn
					}
				}
			}
		}
	}
	for name, st := range structs {
		m := map[string]bool{}
		for _, f := range st.Fields.List {
			t := f.Type
			if len(f.Names) == 0 {
				if id, ok := t.(*ast.Ident); ok {
					embeds[name] = append(embeds[name], id.Name)
				}
				continue
			}
			if id, ok := t.(*ast.Ident); ok && structs[id.Name] != nil {
				continue
			}
			if se, ok := t.(*ast.SelectorExpr); ok {
				if id, ok := se.X.(*ast.Ident); ok && syncName[st][id.Name] {
					continue
				}
			}
			_, isMap := t.(*ast.MapType)
			for _, n := range f.Names {
				if n.Name != "_" {
					m[n.Name] = isMap
				}
			}
		}
		sh.fields[name] = m
	}
	for i := 0; i < 3; i++ {
		for name, es := range embeds {
			for _, e := range es {
				for f, isMap := range sh.fields[e] {
					if _, ok := sh.fields[name][f]; !ok {
						sh.fields[name][f] = isMap
					}
				}
			}
		}
	}
	return sh
}

const (
	accR = iota
	accW
	accMR
	accMW
)

type acc struct {
	base  *ast.Ident
	field string
	kind  int
}

type finer struct {
	sh *shared
	r  *rewriter
	as []acc
	ok bool
}

func (f *finer) field(x *ast.SelectorExpr) (isField, isMap bool, id *ast.Ident) {
	id, ok := x.X.(*ast.Ident)
	if !ok || id.Obj == nil {
		return
	}
	fd, ok := id.Obj.Decl.(*ast.Field)
	if !ok {
		return
	}
	st, ok := fd.Type.(*ast.StarExpr)
	if !ok {
		return
	}
	tn, ok := st.X.(*ast.Ident)
	if !ok {
		return
	}
	isMap, isField = f.sh.fields[tn.Name][x.Sel.Name]
	return isField, isMap, id
}

// alias: a local variable that was defined as the map in a field.
func (f *finer) alias(id *ast.Ident) (*ast.Ident, string) {
	if id.Obj == nil {
		return nil, ""
	}
	as, ok := id.Obj.Decl.(*ast.AssignStmt)
	if !ok || len(as.Lhs) != len(as.Rhs) {
		return nil, ""
	}
	for i, l := range as.Lhs {
		if li, ok := l.(*ast.Ident); ok && li.Obj == id.Obj {
			if se, ok := as.Rhs[i].(*ast.SelectorExpr); ok {
				if is, isMap, b := f.field(se); is && isMap {
					return b, se.Sel.Name
				}
			}
		}
	}
	return nil, ""
}

func (f *finer) add(id *ast.Ident, field string, kind int) {
	for _, a := range f.as {
		if a.base.Name == id.Name && a.field == field && a.kind == kind {
			return
		}
	}
	f.as = append(f.as, acc{id, field, kind})
}

var builtins = map[string]bool{"append": true, "len": true, "cap": true, "delete": true, "make": true, "copy": true, "new": true, "min": true, "max": true, "clear": true,
	"int": true, "int64": true, "uint64": true, "int32": true, "uint32": true, "string": true, "byte": true}

// expr collects the accesses made when e is evaluated. root: nothing else of the
// statement is evaluated before a call in this position.
func (f *finer) expr(e ast.Expr, write, root bool) {
	switch x := e.(type) {
	case nil:
	case *ast.SelectorExpr:
		if is, _, id := f.field(x); is {
			k := accR
			if write {
				k = accW
			}
			f.add(id, x.Sel.Name, k)
			return
		}
		f.expr(x.X, false, false)
	case *ast.IndexExpr:
		if se, ok := x.X.(*ast.SelectorExpr); ok {
			if is, isMap, id := f.field(se); is && isMap {
				f.add(id, se.Sel.Name, accR)
				k := accMR
				if write {
					k = accMW
				}
				f.add(id, se.Sel.Name, k)
				f.expr(x.Index, false, false)
				return
			}
		}
		if id, ok := x.X.(*ast.Ident); ok {
			if b, field := f.alias(id); b != nil {
				k := accMR
				if write {
					k = accMW
				}
				f.add(b, field, k)
				f.expr(x.Index, false, false)
				return
			}
		}
		f.expr(x.X, false, false)
		f.expr(x.Index, false, false)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Obj == nil && builtins[id.Name] {
			for i, a := range x.Args {
				if id.Name == "delete" && i == 0 {
					if id, ok := a.(*ast.Ident); ok {
						if b, field := f.alias(id); b != nil {
							f.add(b, field, accMW)
							continue
						}
					}
					if se, ok := a.(*ast.SelectorExpr); ok {
						if is, _, b := f.field(se); is {
							f.add(b, se.Sel.Name, accR)
							f.add(b, se.Sel.Name, accMW)
							continue
						}
					}
				}
				f.expr(a, false, false)
			}
			return
		}
		if !root {
			f.ok = false
			return
		}
		switch fn := x.Fun.(type) {
		case *ast.SelectorExpr:
			if is, _, _ := f.field(fn); is {
				f.expr(fn, false, false)
			} else {
				f.expr(fn.X, false, false)
			}
		case *ast.FuncLit, *ast.Ident:
		default:
			f.expr(fn, false, false)
		}
		for _, a := range x.Args {
			f.expr(a, false, false)
		}
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if _, ok := x.X.(*ast.SelectorExpr); ok {
				return
			}
		}
		if x.Op == token.ARROW {
			f.ok = false
			return
		}
		f.expr(x.X, false, root)
	case *ast.BinaryExpr:
		f.expr(x.X, false, false)
		if x.Op != token.LAND && x.Op != token.LOR {
			f.expr(x.Y, false, false)
		}
	case *ast.ParenExpr:
		f.expr(x.X, write, root)
	case *ast.StarExpr:
		f.expr(x.X, false, false)
	case *ast.SliceExpr:
		f.expr(x.X, false, false)
		f.expr(x.Low, false, false)
		f.expr(x.High, false, false)
		f.expr(x.Max, false, false)
	case *ast.TypeAssertExpr:
		f.expr(x.X, false, root)
	case *ast.KeyValueExpr:
		f.expr(x.Value, false, false)
	case *ast.CompositeLit:
		for _, el := range x.Elts {
			f.expr(el, false, false)
		}
	}
}

func isCall(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	id, ok := c.Fun.(*ast.Ident)
	return !ok || id.Obj != nil || !builtins[id.Name]
}

func (f *finer) stmt(s ast.Stmt) ast.Stmt {
	f.as, f.ok = nil, true
	switch x := s.(type) {
	case *ast.ExprStmt:
		f.expr(x.X, false, true)
	case *ast.IncDecStmt:
		f.expr(x.X, true, false)
	case *ast.ReturnStmt:
		for _, e := range x.Results {
			f.expr(e, false, len(x.Results) == 1)
		}
	case *ast.IfStmt:
		if x.Init == nil {
			f.expr(x.Cond, false, true)
		}
	case *ast.RangeStmt:
		f.expr(x.X, false, true)
		if se, ok := x.X.(*ast.SelectorExpr); ok {
			if is, isMap, id := f.field(se); is && isMap {
				f.add(id, se.Sel.Name, accMR)
			}
		}
	case *ast.SwitchStmt:
		if x.Init == nil {
			f.expr(x.Tag, false, true)
		}
	case *ast.AssignStmt:
		calls := len(x.Rhs) == 1 && isCall(x.Rhs[0])
		for _, e := range x.Rhs {
			f.expr(e, false, calls)
		}
		if !calls && x.Tok != token.DEFINE {
			for _, e := range x.Lhs {
				f.expr(e, true, false)
				if x.Tok != token.ASSIGN {
					f.expr(e, false, false)
				}
			}
		}
	}
	if !f.ok || len(f.as) == 0 {
		return nil
	}
	var args []ast.Expr
	for _, a := range f.as {
		args = append(args, f.r.call("vrt/verif", "A",
			&ast.UnaryExpr{Op: token.AND, X: &ast.SelectorExpr{X: &ast.Ident{Name: a.base.Name, Obj: a.base.Obj}, Sel: ast.NewIdent(a.field)}},
			&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(a.kind)}))
	}
	return &ast.ExprStmt{X: f.r.call("vrt/verif", "Touch", args...)}
}

func (f *finer) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			out = append(out, s)
			continue
		}
		if f.r.p.steps {
			out = append(out, &ast.ExprStmt{X: f.r.call("vrt/verif", "Step")})
		}
		if f.r.p.fine {
			if t := f.stmt(s); t != nil {
				out = append(out, t)
			}
		}
		out = append(out, s)
	}
	return out
}

// refine inserts the calls in every statement list of the file.
func (r *rewriter) refine(sh *shared) {
	f := &finer{sh: sh, r: r}
	for _, d := range r.f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if fd.Recv == nil && fd.Name.Name == "init" {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				x.List = f.list(x.List)
			case *ast.CaseClause:
				x.Body = f.list(x.Body)
			case *ast.CommClause:
				x.Body = f.list(x.Body)
			}
			return true
		})
	}
}
