// Package instr makes a copy of the repository in which package sync, channel
// operations, go statements and the accesses to package-level state that can
// change go through mcsync, the controlled scheduler.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	SFiles     []string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct{ Path string }
	Imports    []string
}

// Stats says what was instrumented.
type Stats struct {
	Files, ChanOps, GoStmts, SyncImports, Points int
	Vars                                         []string
}

// Copy instruments the module at repo into dst. Packages is a list of patterns
// (relative to the module) to instrument. mcsync is the directory with the scheduler's sources.
func Copy(repo, dst, mcsync string, patterns ...string) (*Stats, error) {
	if err := copyTree(repo, dst); err != nil {
		return nil, err
	}
	// the copy may use generics
	mod := filepath.Join(dst, "go.mod")
	b, err := os.ReadFile(mod)
	if err != nil {
		return nil, err
	}
	m := regexp.MustCompile(`(?m)^go\s+1\.(\d+).*$`).FindSubmatch(b)
	if m == nil {
		b = append(b, "\ngo 1.21\n"...)
	} else if v, _ := strconv.Atoi(string(m[1])); v < 21 {
		b = bytes.Replace(b, m[0], []byte("go 1.21"), 1)
	}
	if err := os.WriteFile(mod, b, 0644); err != nil {
		return nil, err
	}
	mm := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(b)
	if mm == nil {
		return nil, fmt.Errorf("no module path")
	}
	module := strings.Trim(string(mm[1]), `"`)

	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,SFiles,Standard,ImportMap,Module,Imports"}, patterns...)
	cmd := exec.Command("go", args...)
	cmd.Dir = dst
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, stderr.String())
	}
	var pkgs []*pkgInfo
	byPath := map[string]*pkgInfo{}
	for d := json.NewDecoder(bytes.NewReader(out)); ; {
		p := &pkgInfo{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		pkgs = append(pkgs, p)
		byPath[p.ImportPath] = p
	}
	in := &instr{fset: token.NewFileSet(), module: module, pkgs: map[string]*types.Package{}, stats: &Stats{}, hot: map[types.Object]bool{}}
	gc := importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	in.imp = importFunc(func(path string) (*types.Package, error) {
		if p := in.pkgs[path]; p != nil {
			return p, nil
		}
		return gc.Import(path)
	})
	var units []*unit
	for _, p := range pkgs {
		if p.Module == nil || p.Module.Path != module {
			continue
		}
		if len(p.CgoFiles)+len(p.SFiles) > 0 {
			return nil, fmt.Errorf("%s is not pure Go", p.ImportPath)
		}
		u := &unit{info: p}
		for _, name := range p.GoFiles {
			path := filepath.Join(p.Dir, name)
			f, err := parser.ParseFile(in.fset, path, nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			for _, g := range f.Comments {
				for _, c := range g.List {
					if strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//go:linkname") {
						return nil, fmt.Errorf("%s: %s", name, c.Text)
					}
				}
			}
			f, err = parser.ParseFile(in.fset, path, nil, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			u.files = append(u.files, f)
			u.paths = append(u.paths, path)
		}
		u.types = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: in.imp}
		tp, err := conf.Check(p.ImportPath, in.fset, u.files, u.types)
		if err != nil {
			return nil, err
		}
		in.pkgs[p.ImportPath] = tp
		units = append(units, u)
	}
	for _, u := range units {
		for _, f := range u.files {
			if err := in.survey(u, f); err != nil {
				return nil, err
			}
		}
	}
	for v := range in.hot {
		in.stats.Vars = append(in.stats.Vars, v.Pkg().Name()+"."+v.Name())
	}
	for _, u := range units {
		for i, f := range u.files {
			if err := in.file(u, f); err != nil {
				return nil, err
			}
			var buf bytes.Buffer
			// build constraints were applied by go list
			if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, token.NewFileSet(), f); err != nil {
				return nil, err
			}
			name := u.paths[i]
			if err := os.WriteFile(name, buf.Bytes(), 0644); err != nil {
				return nil, err
			}
			in.stats.Files++
		}
	}
	// the scheduler
	sd := filepath.Join(dst, "mcsync")
	if err := os.MkdirAll(sd, 0755); err != nil {
		return nil, err
	}
	list, err := filepath.Glob(filepath.Join(mcsync, "*.go.txt"))
	if err != nil || len(list) == 0 {
		return nil, fmt.Errorf("no scheduler in %s", mcsync)
	}
	for _, s := range list {
		b, err := os.ReadFile(s)
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(sd, strings.TrimSuffix(filepath.Base(s), ".txt")), b, 0644); err != nil {
			return nil, err
		}
	}
	return in.stats, nil
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		if fi.IsDir() {
			if b := fi.Name(); rel != "." && (strings.HasPrefix(b, ".") || b == "testdata") {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0755)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		if e := filepath.Ext(path); e != ".go" && fi.Name() != "go.mod" && fi.Name() != "go.sum" {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0644)
	})
}

type importFunc func(string) (*types.Package, error)

func (f importFunc) Import(p string) (*types.Package, error) { return f(p) }

type unit struct {
	info  *pkgInfo
	files []*ast.File
	paths []string
	types *types.Info
}

type instr struct {
	fset   *token.FileSet
	module string
	imp    types.Importer
	pkgs   map[string]*types.Package
	stats  *Stats
	hot    map[types.Object]bool
	ntmp   int
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// root is the package-level variable at the root of an lvalue.
func (in *instr) root(u *unit, e ast.Expr) types.Object {
	for {
		switch x := unparen(e).(type) {
		case *ast.Ident:
			return in.pkgVar(u.types.Uses[x])
		case *ast.SelectorExpr:
			if v := in.pkgVar(u.types.Uses[x.Sel]); v != nil {
				return v
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.TypeAssertExpr:
			e = x.X
		default:
			return nil
		}
	}
}

// pkgVar is o if it is a package-level variable of the module.
func (in *instr) pkgVar(o types.Object) types.Object {
	v, ok := o.(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
		return nil
	}
	if p := v.Pkg().Path(); p != in.module && !strings.HasPrefix(p, in.module+"/") {
		return nil
	}
	return v
}

// safe types are synchronised or immutable themselves.
func safe(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return types.Identical(t, types.Universe.Lookup("error").Type())
	}
	if n.Obj().Pkg() == nil {
		return true // error
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "regexp", "log":
		return true
	}
	return false
}

func aliasing(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer, *types.Interface:
		return true
	}
	return false
}

func external(in *instr, p *types.Package) bool {
	return p != nil && p.Path() != in.module && !strings.HasPrefix(p.Path(), in.module+"/")
}

func hasChan(t types.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := t.(type) {
	case *types.Chan:
		return true
	case *types.Pointer:
		return hasChan(x.Elem(), depth+1)
	case *types.Slice:
		return hasChan(x.Elem(), depth+1)
	case *types.Named:
		if x.Obj().Pkg() != nil && x.Obj().Pkg().Path() == "time" && (x.Obj().Name() == "Timer" || x.Obj().Name() == "Ticker") {
			return true
		}
		if _, ok := x.Underlying().(*types.Chan); ok {
			return true
		}
	}
	return false
}

// survey finds the variables that can change and what cannot be instrumented.
func (in *instr) survey(u *unit, f *ast.File) error {
	var err error
	mark := func(e ast.Expr) {
		if v := in.root(u, e); v != nil && !safe(v.Type()) {
			in.hot[v] = true
		}
	}
	// a reference-typed variable used as a value can be changed elsewhere
	value := func(e ast.Expr) {
		e = unparen(e)
		switch e.(type) {
		case *ast.Ident, *ast.SelectorExpr:
		default:
			return
		}
		tv, ok := u.types.Types[e]
		if ok && aliasing(tv.Type) && !safe(tv.Type) {
			if v := in.root(u, e); v != nil && !flagPtr(v) {
				in.hot[v] = true
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			p, _ := strconv.Unquote(x.Path.Value)
			switch p {
			case "os/signal", "C", "plugin":
				err = fmt.Errorf("imports %s", p)
			}
			if x.Name != nil && x.Name.Name == "." {
				err = fmt.Errorf("dot import")
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if x.Tok != token.DEFINE {
					mark(l)
				}
			}
			for _, r := range x.Rhs {
				value(r)
			}
		case *ast.IncDecStmt:
			mark(x.X)
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				mark(x.X)
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				value(r)
			}
		case *ast.CompositeLit:
			for _, r := range x.Elts {
				if kv, ok := r.(*ast.KeyValueExpr); ok {
					r = kv.Value
				}
				value(r)
			}
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				if x.Key != nil {
					mark(x.Key)
				}
				if x.Value != nil {
					mark(x.Value)
				}
			}
		case *ast.SliceExpr:
			mark(x.X)
		case *ast.SendStmt:
			value(x.Value)
		case *ast.SelectorExpr:
			// a pointer method
			if s := u.types.Selections[x]; s != nil && s.Kind() == types.MethodVal {
				if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
					if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
						mark(x.X)
					}
					if _, ifc := sig.Recv().Type().Underlying().(*types.Interface); ifc {
						mark(x.X)
					}
				}
			}
			if s := u.types.Selections[x]; s != nil && s.Kind() == types.FieldVal && external(in, s.Obj().Pkg()) && hasChan(s.Obj().Type(), 0) {
				err = fmt.Errorf("channel of another package")
			}
		case *ast.CallExpr:
			if id, ok := unparen(x.Fun).(*ast.Ident); ok {
				if _, b := u.types.Uses[id].(*types.Builtin); b {
					switch id.Name {
					case "delete", "copy", "clear":
						mark(x.Args[0])
					case "append":
						if len(x.Args) > 0 {
							mark(x.Args[0])
						}
					}
					return true
				}
			}
			for _, a := range x.Args {
				value(a)
			}
			var fo types.Object
			switch fx := unparen(x.Fun).(type) {
			case *ast.Ident:
				fo = u.types.Uses[fx]
			case *ast.SelectorExpr:
				fo = u.types.Uses[fx.Sel]
			}
			if fn, ok := fo.(*types.Func); ok && external(in, fn.Pkg()) {
				sig := fn.Type().(*types.Signature)
				if fn.Pkg().Path() == "time" && fn.Name() == "AfterFunc" {
					err = fmt.Errorf("time.AfterFunc")
				}
				for _, t := range []*types.Tuple{sig.Params(), sig.Results()} {
					for i := 0; i < t.Len(); i++ {
						if hasChan(t.At(i).Type(), 0) {
							err = fmt.Errorf("%s uses channels", fn.FullName())
						}
					}
				}
				for _, a := range x.Args {
					if tv, ok := u.types.Types[a]; ok && tv.Type != nil && hasChan(tv.Type, 0) {
						err = fmt.Errorf("a channel is given to %s", fn.FullName())
					}
				}
			}
		}
		return true
	})
	return err
}

// flagPtr is true for pointers made by package flag, which only flag.Parse changes.
func flagPtr(v types.Object) bool {
	p, ok := v.Type().(*types.Pointer)
	if !ok {
		return false
	}
	_, basic := p.Elem().(*types.Basic)
	return basic
}

func ident(s string) *ast.Ident { return ast.NewIdent(s) }
func mc(name string) ast.Expr   { return &ast.SelectorExpr{X: ident("mcsync"), Sel: ident(name)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}
func intLit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }
func define(l ...string) func(r ...ast.Expr) ast.Stmt {
	return func(r ...ast.Expr) ast.Stmt {
		a := &ast.AssignStmt{Tok: token.DEFINE, Rhs: r}
		for _, x := range l {
			a.Lhs = append(a.Lhs, ident(x))
		}
		return a
	}
}

func (in *instr) tmp(s string) string {
	in.ntmp++
	return fmt.Sprintf("%s__%d", s, in.ntmp)
}

// file rewrites one file in place.
func (in *instr) file(u *unit, f *ast.File) error {
	r := &rewriter{in: in, u: u, cmd: u.info.Name == "main"}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "sync" {
			im.Path.Value = strconv.Quote(in.module + "/mcsync")
			if im.Name == nil {
				im.Name = ident("sync")
			}
			in.stats.SyncImports++
		}
		if p == "runtime" || p == "time" || p == "os" {
			name := p
			if im.Name != nil {
				name = im.Name.Name
			}
			if name != "_" {
				keep := map[string]string{"runtime": "NumCPU", "time": "Now", "os": "Exit"}[p]
				r.keep = append(r.keep, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ident("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ident(name), Sel: ident(keep)}}}}})
			}
		}
	}
	for _, d := range f.Decls {
		r.node(d)
		if r.err != nil {
			return r.err
		}
		if fd, ok := d.(*ast.FuncDecl); ok && r.cmd && fd.Recv == nil && fd.Name.Name == "main" {
			fd.Name.Name = "mcMain"
		}
	}
	im := &ast.ImportSpec{Name: ident("mcsync"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(in.module + "/mcsync")}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{im}}}, f.Decls...)
	f.Decls = append(f.Decls, r.keep...)
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ident("_")}, Values: []ast.Expr{mc("Point")}}}})
	f.Imports = append(f.Imports, im)
	f.Doc = nil
	f.Comments = nil
	return nil
}

type rewriter struct {
	in   *instr
	u    *unit
	cmd  bool
	keep []ast.Decl
	err  error
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.u.types.Types[e]; ok {
		return tv.Type
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

var (
	stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// node rewrites the children of n.
func (r *rewriter) node(n ast.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	r.fields(v.Elem())
}

func (r *rewriter) fields(v reflect.Value) {
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() {
			continue
		}
		switch f.Kind() {
		case reflect.Interface, reflect.Ptr:
			r.slot(f)
		case reflect.Slice:
			if f.Type().Elem() == stmtType {
				r.list(f)
				continue
			}
			for k := 0; k < f.Len(); k++ {
				r.slot(f.Index(k))
			}
		}
	}
}

// slot rewrites what is in an assignable place.
func (r *rewriter) slot(f reflect.Value) {
	if f.Kind() != reflect.Interface && f.Kind() != reflect.Ptr || f.IsNil() || !f.Type().Implements(nodeType) {
		return
	}
	switch x := f.Interface().(type) {
	case *ast.Object, *ast.Scope:
		return
	case ast.Expr:
		y := r.expr(x)
		if v := reflect.ValueOf(y); v.Type().AssignableTo(f.Type()) {
			f.Set(v)
		} else if y != x {
			r.err = fmt.Errorf("cannot rewrite here")
		}
	case ast.Stmt:
		l := r.stmt(x, false)
		if len(l) == 1 {
			if f.Type() == stmtType || reflect.TypeOf(l[0]) == reflect.TypeOf(x) {
				f.Set(reflect.ValueOf(l[0]))
				return
			}
			r.err = fmt.Errorf("statement cannot be rewritten here")
		} else if f.Type() == stmtType {
			f.Set(reflect.ValueOf(&ast.BlockStmt{List: l}))
		} else {
			r.err = fmt.Errorf("statements cannot be rewritten here")
		}
	case ast.Node:
		r.node(x)
	}
}

func (r *rewriter) list(f reflect.Value) {
	old := f.Interface().([]ast.Stmt)
	var out []ast.Stmt
	for _, s := range old {
		out = append(out, r.stmt(s, true)...)
	}
	f.Set(reflect.ValueOf(out))
}

// expr rewrites an expression and its children.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			r.in.stats.ChanOps++
			return call(mc("Recv"), r.expr(x.X))
		}
	case *ast.CallExpr:
		if id, ok := unparen(x.Fun).(*ast.Ident); ok {
			if _, b := r.u.types.Uses[id].(*types.Builtin); b && len(x.Args) == 1 && isChan(r.typeOf(x.Args[0])) {
				switch id.Name {
				case "close":
					r.in.stats.ChanOps++
					return call(mc("Close"), r.expr(x.Args[0]))
				case "len":
					return call(mc("Len"), r.expr(x.Args[0]))
				}
			}
		}
		if s, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
			if fn, ok := r.u.types.Uses[s.Sel].(*types.Func); ok && fn.Pkg() != nil {
				switch fn.FullName() {
				case "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.Gosched", "time.Sleep", "os.Exit":
					for i := range x.Args {
						x.Args[i] = r.expr(x.Args[i])
					}
					return call(mc(fn.Name()), x.Args...)
				}
			}
		}
	}
	r.node(e)
	return e
}

// recv is the channel of a receive expression.
func recv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

// pointsFor are the places to give way before a statement.
func (r *rewriter) pointsFor(s ast.Stmt) []ast.Stmt {
	class := 0
	see := func(n ast.Node) {
		if n == nil || reflect.ValueOf(n).Kind() == reflect.Ptr && reflect.ValueOf(n).IsNil() {
			return
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.Ident:
				if v := r.in.pkgVar(r.u.types.Uses[x]); v != nil && r.in.hot[v] && class == 0 {
					class = 2
				}
			case *ast.CallExpr:
				var o types.Object
				switch f := unparen(x.Fun).(type) {
				case *ast.Ident:
					o = r.u.types.Uses[f]
				case *ast.SelectorExpr:
					o = r.u.types.Uses[f.Sel]
				}
				fn, ok := o.(*types.Func)
				if !ok || fn.Pkg() == nil {
					break
				}
				switch p := fn.Pkg().Path(); {
				case p == "sync/atomic":
					class = 1
				case r.cmd && (p == "os" || p == "io/ioutil" || p == "bufio" && (fn.Name() == "Flush" || fn.Name() == "NewWriter" || fn.Name() == "Reset") || p == "fmt" && strings.HasPrefix(fn.Name(), "Fprint")):
					class = 1
				}
			}
			return true
		})
	}
	switch x := s.(type) {
	case *ast.IfStmt:
		see2(see, x.Init, x.Cond)
	case *ast.ForStmt:
		see2(see, x.Init, x.Cond, x.Post)
	case *ast.RangeStmt:
		see2(see, x.X)
	case *ast.SwitchStmt:
		see2(see, x.Init, x.Tag)
	case *ast.TypeSwitchStmt:
		see2(see, x.Init, x.Assign)
	case *ast.BlockStmt, *ast.LabeledStmt, *ast.SelectStmt, *ast.CaseClause, *ast.CommClause, *ast.GoStmt, *ast.DeferStmt:
	default:
		see(s)
	}
	if class == 0 {
		return nil
	}
	r.in.stats.Points++
	return []ast.Stmt{&ast.ExprStmt{X: call(mc("Point"), intLit(class))}}
}

func see2(see func(ast.Node), ns ...ast.Node) {
	for _, n := range ns {
		if n != nil {
			see(n)
		}
	}
}

// stmt rewrites a statement, in a list or alone.
func (r *rewriter) stmt(s ast.Stmt, inList bool) []ast.Stmt {
	var out []ast.Stmt
	if inList {
		out = r.pointsFor(s)
	}
	switch x := s.(type) {
	case *ast.SendStmt:
		r.in.stats.ChanOps++
		return append(out, &ast.ExprStmt{X: call(call(mc("SendTo"), r.expr(x.Chan)), r.expr(x.Value))})
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := recv(x.Rhs[0]); ok {
				r.in.stats.ChanOps++
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				x.Rhs[0] = call(mc("Recv2"), r.expr(u.X))
				return append(out, x)
			}
		}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u, ok := recv(vs.Values[0]); ok {
						r.in.stats.ChanOps++
						vs.Values[0] = call(mc("Recv2"), r.expr(u.X))
					}
				}
			}
		}
	case *ast.RangeStmt:
		if isChan(r.typeOf(x.X)) {
			return append(out, r.rangeChan(x))
		}
	case *ast.GoStmt:
		return append(out, r.goStmt(x)...)
	case *ast.SelectStmt:
		return append(out, r.selectStmt(x, nil))
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return append(out, r.selectStmt(sel, x.Label))
		}
		if l := r.stmt(x.Stmt, false); len(l) == 1 {
			x.Stmt = l[0]
		} else {
			r.err = fmt.Errorf("label")
		}
		return append(out, x)
	}
	r.node(s)
	return append(out, s)
}

func (r *rewriter) rangeChan(x *ast.RangeStmt) ast.Stmt {
	r.in.stats.ChanOps++
	ch := r.expr(x.X)
	c, v, ok := r.in.tmp("c"), r.in.tmp("v"), r.in.tmp("ok")
	f := &ast.ForStmt{}
	name := ""
	blank := x.Key == nil
	if id, isId := x.Key.(*ast.Ident); isId && id.Name == "_" {
		blank = true
	}
	if !blank && x.Tok == token.DEFINE {
		name = x.Key.(*ast.Ident).Name
		f.Init = define(c, name)(call(mc("RangeInit"), ch))
	} else {
		f.Init = define(c)(ch)
	}
	if blank {
		v = "_"
	}
	body := []ast.Stmt{
		define(v, ok)(call(mc("Recv2"), ident(c))),
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ident(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
	}
	if !blank {
		lhs := ast.Expr(ident(name))
		if name == "" {
			lhs = r.expr(x.Key)
		}
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{ident(v)}})
	}
	r.node(x.Body)
	f.Body = &ast.BlockStmt{List: append(body, x.Body)}
	return f
}

func (r *rewriter) goStmt(x *ast.GoStmt) []ast.Stmt {
	r.in.stats.GoStmts++
	c := x.Call
	var pre []ast.Stmt
	hoist := func(e ast.Expr, s string) ast.Expr {
		tv := r.u.types.Types[e]
		if tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin() {
			return r.expr(e)
		}
		if t, ok := tv.Type.(*types.Tuple); ok && t.Len() != 1 {
			return r.expr(e)
		}
		n := r.in.tmp(s)
		pre = append(pre, define(n)(r.expr(e)))
		return ident(n)
	}
	builtin := false
	isFunc := false
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		_, builtin = r.u.types.Uses[f].(*types.Builtin)
		_, isFunc = r.u.types.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if r.u.types.Selections[f] == nil {
			_, isFunc = r.u.types.Uses[f.Sel].(*types.Func)
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		isFunc = true // an instantiated function, or an element: evaluated late
	}
	if builtin {
		// the only ones with an effect here
		cc := r.expr(c)
		return []ast.Stmt{&ast.ExprStmt{X: call(mc("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: cc}}}})}}
	}
	if isFunc {
		c.Fun = r.expr(c.Fun)
	} else {
		c.Fun = hoist(c.Fun, "f")
	}
	for i := range c.Args {
		c.Args[i] = hoist(c.Args[i], "a")
	}
	st := &ast.ExprStmt{X: call(mc("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}})}
	if len(pre) == 0 {
		return []ast.Stmt{st}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, st)}}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	r.in.stats.ChanOps++
	i, v, ok := r.in.tmp("i"), r.in.tmp("v"), r.in.tmp("ok")
	var pre []ast.Stmt
	def := "false"
	var ops []ast.Expr
	sw := &ast.SwitchStmt{Tag: ident(i), Body: &ast.BlockStmt{}}
	n := 0
	for _, st := range x.Body.List {
		cc := st.(*ast.CommClause)
		out := &ast.CaseClause{}
		var first []ast.Stmt
		if cc.Comm == nil {
			def = "true"
			out.List = nil
		} else {
			out.List = []ast.Expr{intLit(n)}
			n++
			c := r.in.tmp("c")
			use := func(u *ast.UnaryExpr) {
				pre = append(pre, define(c)(r.expr(u.X)))
				ops = append(ops, call(mc("RecvOp"), ident(c)))
			}
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				pre = append(pre, define(c)(r.expr(s.Chan)))
				ops = append(ops, call(call(mc("SendOpTo"), ident(c)), r.expr(s.Value)))
			case *ast.ExprStmt:
				u, isRecv := recv(s.X)
				if !isRecv {
					r.err = fmt.Errorf("select case")
					return x
				}
				use(u)
			case *ast.AssignStmt:
				u, isRecv := recv(s.Rhs[0])
				if !isRecv {
					r.err = fmt.Errorf("select case")
					return x
				}
				use(u)
				as := "As1"
				if len(s.Lhs) == 2 {
					as = "As"
				}
				for k := range s.Lhs {
					s.Lhs[k] = r.expr(s.Lhs[k])
				}
				s.Rhs = []ast.Expr{call(mc(as), ident(c), ident(v), ident(ok))}
				first = append(first, s)
			}
		}
		b := &ast.BlockStmt{List: cc.Body}
		r.node(b)
		out.Body = append(first, b.List...)
		sw.Body.List = append(sw.Body.List, out)
	}
	if def == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ident("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	pre = append(pre, define(i, v, ok)(call(mc("Select"), append([]ast.Expr{ident(def)}, ops...)...)),
		&ast.AssignStmt{Lhs: []ast.Expr{ident("_"), ident("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ident(v), ident(ok)}})
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, last)}
}
