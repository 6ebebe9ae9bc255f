package main

// Preparation: a scratch module made from the current tree, with the operating
// system, the clock and goroutines replaced by models. The same tree is executed
// symbolically and compiled natively for replay.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Scratch struct {
	Dir     string // scratch root
	Gev     string // module directory of the program
	Main    string // module path
	Notes   []string
	Files   map[string]string // scratch file -> original file
	ModHash string
}

const modPath = "github.com/Allenxuxu/gev"

// redirect says which import is replaced by which model package.
var redirect = map[string]string{
	"golang.org/x/sys/unix":          "vrt/vunix",
	"syscall":                        "vrt/vunix",
	"sync":                           "vrt/vsync",
	"sync/atomic":                    "vrt/vatomic",
	"time":                           "vrt/vtime",
	"net":                            "vrt/vnet",
	"os":                             "vrt/vos",
	"runtime":                        "vrt/vruntime",
	"math/rand":                      "vrt/vrand",
	"github.com/libp2p/go-reuseport": "vrt/vnet",
}

var renamed = map[string]string{
	"github.com/libp2p/go-reuseport.Listen": "ReuseportListen",
}

// never redirected although the model package happens to define the name
var keep = map[string]bool{
	"time.Duration": true, "time.Time": true,
}

type prepper struct {
	defs  map[string]map[string]bool // model package -> exported names
	fset  *token.FileSet
	notes map[string]bool
	files map[string]string

	fine   bool // insert verif.Touch
	steps  bool // insert verif.Step
	shared map[string]*shared
	chans  map[string]map[string]bool // directory -> names of channels
}

func exported(dir string) (map[string]bool, error) {
	m := map[string]bool{}
	fset := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() {
					m[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						m[s.Name.Name] = true
					case *ast.ValueSpec:
						_ = s // variables and constants of models are harness controls
					}
				}
			}
		}
	}
	return m, nil
}

func newPrepper(modelDir string) (*prepper, error) {
	p := &prepper{chans: map[string]map[string]bool{}, defs: map[string]map[string]bool{}, fset: token.NewFileSet(), notes: map[string]bool{}, files: map[string]string{}}
	for _, m := range redirect {
		if p.defs[m] != nil {
			continue
		}
		d, err := exported(filepath.Join(modelDir, m))
		if err != nil {
			return nil, err
		}
		p.defs[m] = d
	}
	// harness-side types of the kernel model are not part of its call surface
	for _, n := range []string{"FD", "Conn", "Listener", "Open", "Lookup", "Table", "NewConn", "NewListener", "DupListener", "NewPeer", "Interest", "Registrations"} {
		delete(p.defs["vrt/vunix"], n)
	}
	for _, n := range []string{"Fire", "Advance"} {
		delete(p.defs["vrt/vtime"], n)
	}
	delete(p.defs["vrt/vnet"], "ReuseportListen")
	return p, nil
}

var goCtx = func() build.Context {
	c := build.Default
	c.GOOS, c.GOARCH, c.CgoEnabled = "linux", "amd64", false
	c.BuildTags = nil
	return c
}()

// copyTree copies a module, rewriting its Go files. skip tells directories to leave out.
func (p *prepper) copyTree(src, dst string, skip func(rel string) bool) error {
	return filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		if info.IsDir() {
			if rel != "." && (strings.HasPrefix(info.Name(), ".") || info.Name() == "testdata" || info.Name() == "vendor" || skip(rel)) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || !info.Mode().IsRegular() {
			return nil
		}
		ok, err := goCtx.MatchFile(filepath.Dir(path), info.Name())
		if err != nil || !ok {
			return nil
		}
		out := filepath.Join(dst, rel)
		if err := os.MkdirAll(filepath.Dir(out), 0o755); err != nil {
			return err
		}
		b, err := p.rewrite(path, rel)
		if err != nil {
			return err
		}
		p.files[out] = path
		return os.WriteFile(out, b, 0o644)
	})
}

func (p *prepper) rewrite(path, rel string) ([]byte, error) {
	f, err := parser.ParseFile(p.fset, path, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	r := &rewriter{p: p, f: f, path: path, imports: map[string]string{}, need: map[string]bool{}, used: map[string]bool{}}
	if f.Name.Name == "main" {
		// example programs become importable
		f.Name.Name = "x" + regexp.MustCompile(`[^a-z0-9]`).ReplaceAllString(strings.ToLower(filepath.Base(filepath.Dir(rel))), "")
	}
	if p.fine || p.steps {
		d := filepath.Dir(path)
		if p.shared[d] == nil {
			p.shared[d] = sharedOf(d)
		}
		r.refine(p.shared[d])
	}
	d := filepath.Dir(path)
	if p.chans[d] == nil {
		p.chans[d] = chanNames(d)
	}
	r.chans = p.chans[d]
	r.markChans(f)
	markSelects(f)
	r.run()
	f.Comments = []*ast.CommentGroup{}
	var buf bytes.Buffer
	if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}).Fprint(&buf, p.fset, f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

type rewriter struct {
	p       *prepper
	f       *ast.File
	path    string
	imports map[string]string   // local name -> path
	need    map[string]bool     // model packages needed
	used    map[string]bool     // local import names still used
	chans   map[string]bool     // names of channels in the package
	chanIds map[*ast.Ident]bool // uses of local channels
	tmp     int
}

func alias(model string) string { return "zz" + filepath.Base(model) }

func (r *rewriter) run() {
	for _, s := range r.f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		name := path[strings.LastIndex(path, "/")+1:]
		if path == "github.com/libp2p/go-reuseport" {
			name = "reuseport"
		}
		if s.Name != nil {
			name = s.Name.Name
		}
		r.imports[name] = path
	}
	for i, d := range r.f.Decls {
		r.f.Decls[i] = r.decl(d)
	}
	// drop imports that are no longer used
	var decls []ast.Decl
	for _, d := range r.f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var specs []ast.Spec
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := ""
			for n, q := range r.imports {
				if q == path && (is.Name == nil || is.Name.Name == n) {
					name = n
				}
			}
			if redirect[path] != "" && name != "_" && name != "." && !r.used[name] {
				continue
			}
			specs = append(specs, s)
		}
		if len(specs) > 0 {
			g.Specs = specs
			if len(specs) > 1 {
				g.Lparen = g.Pos()
			}
			decls = append(decls, g)
		}
	}
	var extra []ast.Decl
	var ks []string
	for m := range r.need {
		ks = append(ks, m)
	}
	sort.Strings(ks)
	for _, m := range ks {
		extra = append(extra, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent(alias(m)), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(m)}}}})
	}
	r.f.Decls = append(extra, decls...)
}

func (r *rewriter) sel(model, name string) ast.Expr {
	r.need[model] = true
	return &ast.SelectorExpr{X: ast.NewIdent(alias(model)), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(model, name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sel(model, name), Args: args}
}

func (r *rewriter) decl(d ast.Decl) ast.Decl {
	applyRewrite(d, r)
	return d
}

// selector rewrites pkg.Name; it returns nil when nothing changes.
func (r *rewriter) selector(x *ast.SelectorExpr) ast.Expr {
	id, ok := x.X.(*ast.Ident)
	if !ok || id.Obj != nil {
		return nil
	}
	path, ok := r.imports[id.Name]
	if !ok {
		return nil
	}
	full := path + "." + x.Sel.Name
	model := redirect[path]
	if model != "" && !keep[full] {
		name := x.Sel.Name
		if n, ok := renamed[full]; ok {
			return r.sel(model, n)
		}
		if path != "github.com/libp2p/go-reuseport" && r.p.defs[model][name] {
			return r.sel(model, name)
		}
	}
	r.used[id.Name] = true
	return nil
}

// Prepare makes the scratch module. repo is the program, root is /verif.
func Prepare(repo, root, dir string, harness []string) (*Scratch, error) {
	modelDir := filepath.Join(root, "model")
	p, err := newPrepper(modelDir)
	if err != nil {
		return nil, err
	}
	p.shared = map[string]*shared{}
	for _, h := range harness {
		ms, _ := filepath.Glob(filepath.Join(root, "harness", h, "*.go"))
		for _, m := range ms {
			if b, err := os.ReadFile(m); err == nil {
				p.fine = p.fine || bytes.Contains(b, []byte("verif.Fine = true"))
				p.steps = p.steps || bytes.Contains(b, []byte("verif.Steps = true"))
			}
		}
	}
	s := &Scratch{Dir: dir, Gev: filepath.Join(dir, "gev"), Main: modPath}
	if err := p.copyTree(repo, s.Gev, func(rel string) bool {
		return rel == "benchmarks" || (strings.HasPrefix(rel, "example/") && rel != "example/protocol") || rel == "example/protocol/client" || strings.HasPrefix(rel, "zz_")
	}); err != nil {
		return nil, fmt.Errorf("prepare %s: %v", repo, err)
	}
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	p.fine, p.steps = false, false // the dependencies are left as they are
	mc := modCache()
	var rep []string
	deps := []string{"github.com/Allenxuxu/ringbuffer", "github.com/Allenxuxu/toolkit", "github.com/gobwas/pool", "github.com/gobwas/httphead"}
	for _, d := range deps {
		v := modVersion(string(gomod), d)
		if v == "" {
			p.notes["dependency "+d+" no longer required"] = true
			continue
		}
		src := filepath.Join(mc, escapeMod(d)+"@"+v)
		dst := filepath.Join(dir, "deps", filepath.Base(d))
		if err := p.copyTree(src, dst, func(string) bool { return false }); err != nil {
			return nil, fmt.Errorf("prepare %s: %v", d, err)
		}
		if err := os.WriteFile(filepath.Join(dst, "go.mod"), []byte(depMod(src, d)), 0o644); err != nil {
			return nil, err
		}
		rep = append(rep, fmt.Sprintf("replace %s => %s", d, dst))
	}
	// models
	for _, m := range []string{"vrt", "timingwheel"} {
		dst := filepath.Join(dir, "model", m)
		if err := copyPlain(filepath.Join(modelDir, m), dst); err != nil {
			return nil, err
		}
	}
	rep = append(rep, "replace vrt => "+filepath.Join(dir, "model", "vrt"))
	rep = append(rep, "replace github.com/RussellLuo/timingwheel => "+filepath.Join(dir, "model", "timingwheel"))
	g := regexp.MustCompile(`(?m)^go .*$`).ReplaceAllString(string(gomod), "go 1.21")
	g = regexp.MustCompile(`(?m)^toolchain .*$`).ReplaceAllString(g, "")
	g += "\nrequire vrt v0.0.0\n" + strings.Join(rep, "\n") + "\n"
	if err := os.WriteFile(filepath.Join(s.Gev, "go.mod"), []byte(g), 0o644); err != nil {
		return nil, err
	}
	if b, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(s.Gev, "go.sum"), b, 0o644)
	}
	for _, h := range append([]string{"hx", "wsx"}, harness...) {
		src := filepath.Join(root, "harness", h)
		if _, err := os.Stat(src); err != nil {
			continue
		}
		if err := copyPlain(src, filepath.Join(s.Gev, "zz_harness", h)); err != nil {
			return nil, err
		}
	}
	s.Files = p.files
	for n := range p.notes {
		s.Notes = append(s.Notes, n)
	}
	sort.Strings(s.Notes)
	return s, nil
}

func modVersion(gomod, mod string) string {
	m := regexp.MustCompile(`(?m)^\s*(?:require\s+)?` + regexp.QuoteMeta(mod) + `\s+(v\S+)`).FindStringSubmatch(gomod)
	if m == nil {
		return ""
	}
	return m[1]
}

func depMod(src, mod string) string {
	b, err := os.ReadFile(filepath.Join(src, "go.mod"))
	req := ""
	if err == nil {
		for _, m := range regexp.MustCompile(`(?m)^\s*(?:require\s+)?(\S+\.\S+/\S+)\s+(v\S+)`).FindAllStringSubmatch(string(b), -1) {
			req += "require " + m[1] + " " + m[2] + "\n"
		}
	}
	return "module " + mod + "\n\ngo 1.21\n\n" + req + "require vrt v0.0.0\n"
}

func escapeMod(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'A' && c <= 'Z' {
			sb.WriteByte('!')
			c += 'a' - 'A'
		}
		sb.WriteRune(c)
	}
	return sb.String()
}

func modCache() string {
	if v := os.Getenv("GOMODCACHE"); v != "" {
		return v
	}
	out, err := exec.Command("go", "env", "GOMODCACHE").Output()
	if err == nil && len(bytes.TrimSpace(out)) > 0 {
		return string(bytes.TrimSpace(out))
	}
	return filepath.Join(os.Getenv("HOME"), "go/pkg/mod")
}

func copyPlain(src, dst string) error {
	return filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		out := filepath.Join(dst, rel)
		if info.IsDir() {
			return os.MkdirAll(out, 0o755)
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		return os.WriteFile(out, b, 0o644)
	})
}
