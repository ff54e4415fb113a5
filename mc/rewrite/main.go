// Command rewrite copies the code under test and the programs that exercise it, and turns
// their goroutines, channels, locks, atomics, clocks, contexts and file operations into
// operations of package rt. Everything else is left as it is.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

const rtName = "verifrt"

// shims are the packages whose names are replaced, if the replacement has them.
var shims = map[string]string{
	"sync": "verif/v/sync", "sync/atomic": "verif/v/atomic", "time": "verif/v/time", "context": "verif/v/context",
	"os": "verif/v/os", "path/filepath": "verif/v/filepath", "io/ioutil": "verif/v/ioutil", "runtime": "verif/v/runtime",
}

// osFuncs are functions of package os that need no replacement.
var osFuncs = map[string]bool{"IsNotExist": true, "IsExist": true, "IsPermission": true, "IsTimeout": true, "Getenv": true, "LookupEnv": true,
	"Getpid": true, "Getppid": true, "NewSyscallError": true, "Environ": true, "Expand": true, "ExpandEnv": true, "IsPathSeparator": true, "Getuid": true, "Getpagesize": true}

// passive are functions of the other replaced packages that need no replacement.
var refused = map[string]map[string]bool{
	"io/ioutil": {},
	"runtime":   {"Goexit": true},
}

var shimNames = map[string]map[string]bool{}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+format+"\n", args...)
	os.Exit(1)
}

type listed struct {
	Dir, ImportPath, Name, Export string
	GoFiles, OtherFiles           []string
	CgoFiles, SFiles, HFiles      []string
	Imports                       []string
	Standard                      bool
	Module                        *struct{ Path, Dir, GoVersion string }
	Error                         *struct{ Err string }
}

func golist(dir string, args ...string) []*listed {
	cmd := exec.Command("go", append([]string{"list", "-e", "-export", "-deps", "-json"}, args...)...)
	cmd.Dir = dir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	b, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, errb.String())
	}
	var out []*listed
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p listed
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list: %v", err)
		}
		if p.Error != nil && !strings.Contains(p.Error.Err, "build constraints exclude") {
			fatal("go list: %s: %s", p.ImportPath, p.Error.Err)
		}
		out = append(out, &p)
	}
	return out
}

type pkgInfo struct {
	*listed
	files []*ast.File
	info  *types.Info
	tpkg  *types.Package
	reset bool
}

type world struct {
	fset    *token.FileSet
	exports map[string]string
	src     map[string]*types.Package
	gc      types.Importer
}

func (w *world) Import(p string) (*types.Package, error) {
	if t := w.src[p]; t != nil {
		return t, nil
	}
	return w.gc.Import(p)
}

func main() {
	repo := flag.String("repo", "/repo", "the code under test")
	mc := flag.String("mc", "", "the machinery")
	out := flag.String("out", "", "where to write")
	flag.Parse()
	mod := strings.TrimSpace(run(*repo, "go", "list", "-m"))
	for imp, shim := range shims {
		shimNames[imp] = exported(filepath.Join(*mc, strings.TrimPrefix(shim, "verif/")))
	}
	w := &world{fset: token.NewFileSet(), exports: map[string]string{}, src: map[string]*types.Package{}}
	w.gc = importer.ForCompiler(w.fset, "gc", func(p string) (io.ReadCloser, error) {
		f := w.exports[p]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(f)
	})
	var pkgs []*pkgInfo
	seen := map[string]bool{}
	add := func(ls []*listed, want func(*listed) bool) {
		for _, l := range ls {
			if seen[l.ImportPath] {
				continue
			}
			seen[l.ImportPath] = true
			if l.Export != "" {
				w.exports[l.ImportPath] = l.Export
			}
			if want(l) {
				pkgs = append(pkgs, &pkgInfo{listed: l})
			}
		}
	}
	inRepo := func(l *listed) bool { return l.ImportPath == mod || strings.HasPrefix(l.ImportPath, mod+"/") }
	// the programs, and what they import; in the order of their dependencies
	ls := golist(*mc, "./progs")
	add(ls, func(l *listed) bool { return inRepo(l) || l.ImportPath == "verif/progs" })

	// the other packages of the machinery, as they are
	copyTree(*mc, *out, func(rel string, d fs.DirEntry) bool {
		if d.IsDir() {
			return rel == "." || rel == "rt" || rel == "core" || rel == "conc" || rel == "spec" || rel == "v" || strings.HasPrefix(rel, "v/")
		}
		return strings.HasSuffix(rel, ".go") && !strings.HasSuffix(rel, "_test.go") || strings.HasSuffix(rel, ".s")
	})
	var resetOrder []*pkgInfo
	for _, p := range pkgs {
		p.check(w)
		var dst string
		if p.ImportPath == "verif/progs" {
			dst = filepath.Join(*out, "progs")
		} else {
			dst = filepath.Join(*out, "gosb", strings.TrimPrefix(p.ImportPath, mod))
		}
		p.write(w, dst)
		if p.reset {
			resetOrder = append(resetOrder, p)
		}
	}
	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	must(err)
	// without requirements: only test code has any
	version := "1.20"
	if m := regexp.MustCompile(`(?m)^go\s+(\S+)`).FindSubmatch(gomod); m != nil {
		version = string(m[1])
	}
	var reqs bytes.Buffer
	for _, p := range pkgs {
		for _, i := range p.Imports {
			first := strings.Split(i, "/")[0]
			if strings.Contains(first, ".") && !strings.HasPrefix(i, mod) {
				reqs.Write(gomod) // the code itself needs other modules
			}
		}
	}
	gm := fmt.Sprintf("module %s\n\ngo %s\n", mod, version)
	if reqs.Len() > 0 {
		gm = string(gomod)
		if b, err := os.ReadFile(filepath.Join(*repo, "go.sum")); err == nil {
			write(filepath.Join(*out, "gosb", "go.sum"), b)
			write(filepath.Join(*out, "go.sum"), b)
		}
	}
	gm += "\nrequire verif v0.0.0\n\nreplace verif => ../\n"
	write(filepath.Join(*out, "gosb", "go.mod"), []byte(gm))
	write(filepath.Join(*out, "go.mod"), []byte(fmt.Sprintf("module verif\n\ngo 1.24\n\nrequire %s v0.0.0\n\nreplace %s => ./gosb\n", mod, mod)))

	var rs bytes.Buffer
	rs.WriteString("package resets\n\nimport (\n")
	for i, p := range resetOrder {
		fmt.Fprintf(&rs, "\tp%d %q\n", i, p.ImportPath)
	}
	rs.WriteString(")\n\n// All resets everything.\nfunc All() {\n")
	for i := range resetOrder {
		fmt.Fprintf(&rs, "\tp%d.VerifReset()\n", i)
	}
	rs.WriteString("}\n")
	write(filepath.Join(*out, "resets", "resets.go"), rs.Bytes())
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func run(dir, name string, args ...string) string {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	b, err := cmd.CombinedOutput()
	if err != nil {
		fatal("%s %v: %v\n%s", name, args, err, b)
	}
	return string(b)
}

func write(name string, b []byte) {
	must(os.MkdirAll(filepath.Dir(name), 0o755))
	must(os.WriteFile(name, b, 0o644))
}

func copyTree(from, to string, want func(rel string, d fs.DirEntry) bool) {
	must(filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if !want(rel, d) {
			if d.IsDir() {
				return fs.SkipDir
			}
			return nil
		}
		if d.IsDir() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		write(filepath.Join(to, rel), b)
		return nil
	}))
}

// exported lists the exported names of the package in a directory.
func exported(dir string) map[string]bool {
	names := map[string]bool{}
	ps, err := parser.ParseDir(token.NewFileSet(), dir, nil, 0)
	must(err)
	for _, p := range ps {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.IsExported() {
						names[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							names[s.Name.Name] = s.Name.IsExported()
						case *ast.ValueSpec:
							for _, n := range s.Names {
								names[n.Name] = n.IsExported()
							}
						}
					}
				}
			}
		}
	}
	return names
}

var directive = regexp.MustCompile(`(?m)^//go:(linkname|embed|noescape|nosplit|cgo)`)

func (p *pkgInfo) check(w *world) {
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(w.fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		must(err)
		p.files = append(p.files, a)
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: w, FakeImportC: true}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	t, err := conf.Check(p.ImportPath, w.fset, p.files, p.info)
	if err != nil {
		fatal("type checking %s: %v", p.ImportPath, err)
	}
	p.tpkg = t
	w.src[p.ImportPath] = t
}

// write rewrites the files of a package.
func (p *pkgInfo) write(w *world, dst string) {
	type reset struct{ file, n int }
	raw := map[int][]byte{}
	fileOf := map[*token.File]int{}
	for i, f := range p.files {
		b, err := os.ReadFile(filepath.Join(p.Dir, p.GoFiles[i]))
		must(err)
		fileOf[w.fset.File(f.Pos())] = i
		if directive.Match(b) {
			raw[i] = b
		}
	}
	for _, f := range append(append([]string{}, p.SFiles...), p.HFiles...) {
		b, err := os.ReadFile(filepath.Join(p.Dir, f))
		must(err)
		write(filepath.Join(dst, f), b)
	}
	// what gives the variables their first values, before the expressions are rewritten in place
	var calls []string
	extra := make([][]ast.Decl, len(p.files))
	inits := map[types.Object]bool{}
	addReset := func(file int, stmt ast.Stmt) {
		name := fmt.Sprintf("verifReset%d_%d", file, len(extra[file]))
		calls = append(calls, name)
		extra[file] = append(extra[file], &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{stmt}}})
	}
	for i, f := range p.files { // variables without a value come first
		if raw[i] != nil {
			continue
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				if len(v.Values) > 0 {
					continue
				}
				for _, n := range v.Names {
					if n.Name != "_" {
						addReset(i, &ast.ExprStmt{X: call(rt("Zero"), &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(n.Name)})})
						inits[p.info.Defs[n]] = true
					}
				}
			}
		}
	}
	for _, in := range p.info.InitOrder {
		i := fileOf[w.fset.File(in.Rhs.Pos())]
		if raw[i] != nil {
			continue
		}
		var lhs []ast.Expr
		named := false
		for _, v := range in.Lhs {
			lhs = append(lhs, ast.NewIdent(v.Name()))
			named = named || v.Name() != "_"
		}
		if named {
			addReset(i, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{in.Rhs}})
		}
	}
	var initCalls []string
	for i, f := range p.files {
		if raw[i] != nil {
			continue
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				name := fmt.Sprintf("verifInit%d_%d", i, len(initCalls))
				fd.Name = ast.NewIdent(name)
				initCalls = append(initCalls, name)
				extra[i] = append(extra[i], &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent(name))}}}})
			}
		}
	}
	calls = append(calls, initCalls...)
	p.reset = len(calls) > 0
	for i, f := range p.files {
		name := filepath.Join(dst, p.GoFiles[i])
		if raw[i] != nil {
			r := &rewriter{p: p, w: w, dry: true}
			r.file(f)
			if r.changed {
				fatal("%s has directives and code that would have to be rewritten", p.GoFiles[i])
			}
			write(name, raw[i])
			continue
		}
		r := &rewriter{p: p, w: w}
		r.extra = extra[i]
		r.file(f)
		var buf bytes.Buffer
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}
		must(cfg.Fprint(&buf, w.fset, f))
		b := buf.Bytes()
		// the printed parts without a position would get wrong lines; names are enough
		b = regexp.MustCompile(`(?m)^//line (.*/)?([^/\n]+):(\d+)$`).ReplaceAll(b, []byte("//line "+strings.TrimPrefix(p.ImportPath, "github.com/")+"/$2:$3"))
		if _, err := format.Source(b); err != nil {
			fatal("%s: the rewritten file does not parse: %v\n%s", p.GoFiles[i], err, b)
		}
		write(name, b)
	}
	if p.reset {
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\n// VerifReset gives the package variables their first values.\nfunc VerifReset() {\n", p.Name)
		for _, c := range calls {
			fmt.Fprintf(&b, "\t%s()\n", c)
		}
		b.WriteString("}\n")
		write(filepath.Join(dst, "verif_reset.go"), b.Bytes())
	}
}

func rt(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(rtName), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func intLit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

type rewriter struct {
	p       *pkgInfo
	w       *world
	dry     bool
	changed bool
	usesRT  bool
	two     map[*ast.UnaryExpr]bool // receive expressions with two results
	shimUse map[string]bool
	realUse map[string]bool
	extra   []ast.Decl
	done    map[ast.Expr]bool
}

func (r *rewriter) rt(name string) ast.Expr {
	r.usesRT, r.changed = true, true
	return rt(name)
}

func (r *rewriter) core(e ast.Expr) types.Type {
	tv, ok := r.p.info.Types[e]
	if !ok {
		return nil
	}
	return coreOf(tv.Type)
}

func coreOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		// the core type of the constraint
		it, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		var u types.Type
		for i := 0; i < it.NumEmbeddeds(); i++ {
			e := it.EmbeddedType(i)
			if un, ok := e.(*types.Union); ok {
				for j := 0; j < un.Len(); j++ {
					u = un.Term(j).Type().Underlying()
				}
			} else if _, ok := e.Underlying().(*types.Interface); !ok {
				u = e.Underlying()
			} else if n, ok := e.Underlying().(*types.Interface); ok && n.NumEmbeddeds() > 0 {
				for k := 0; k < n.NumEmbeddeds(); k++ {
					if un, ok := n.EmbeddedType(k).(*types.Union); ok && un.Len() == 1 {
						u = un.Term(0).Type().Underlying()
					}
				}
			}
		}
		return u
	}
	return t.Underlying()
}

func (r *rewriter) isChan(e ast.Expr) bool {
	_, ok := r.core(e).(*types.Chan)
	return ok
}

func (r *rewriter) isMap(e ast.Expr) bool {
	_, ok := r.core(e).(*types.Map)
	return ok
}

func (r *rewriter) file(f *ast.File) {
	r.two = map[*ast.UnaryExpr]bool{}
	r.shimUse, r.realUse = map[string]bool{}, map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		mark := func(e ast.Expr) {
			for {
				if pe, ok := e.(*ast.ParenExpr); ok {
					e = pe.X
					continue
				}
				break
			}
			if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.two[u] = true
			}
		}
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				mark(n.Rhs[0])
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				mark(n.Values[0])
			}
		}
		return true
	})
	imports := f.Imports
	if !r.dry {
		r.ticks(f)
	}
	for i, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		f.Decls[i] = r.node(d).(ast.Decl)
	}
	if r.dry {
		return
	}
	// The expressions of the extra declarations are those of the variables, which have been rewritten in place where
	// they are not at the top.
	for _, d := range r.extra {
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == rtName {
					r.usesRT = true
				}
			}
			return true
		})
		f.Decls = append(f.Decls, d)
	}
	// imports
	var specs []ast.Spec
	for _, im := range imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if _, is := shims[p]; is && !r.realUse[p] && (im.Name == nil || im.Name.Name != "_") {
			continue
		}
		specs = append(specs, &ast.ImportSpec{Name: im.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: im.Path.Value}})
	}
	var ps []string
	for p := range r.shimUse {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(shimIdent(p)), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(shims[p])}})
	}
	if r.usesRT {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(rtName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/rt"`}})
	}
	var decls []ast.Decl
	if len(specs) > 0 {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs, Rparen: 1})
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
	f.Imports = nil
	f.Comments = nil
}

// counted are the parts of the module in which the passes of loops and the calls of functions are counted.
var counted = regexp.MustCompile(`/gogenerics/(gds|gcontainers|gconstraints)(/|$)`)

// ticks makes every function and every pass of a loop count.
func (r *rewriter) ticks(f *ast.File) {
	if !counted.MatchString(r.p.ImportPath) {
		return
	}
	ast.Inspect(f, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch n := n.(type) {
		case *ast.FuncDecl:
			b = n.Body
		case *ast.FuncLit:
			b = n.Body
		case *ast.ForStmt:
			b = n.Body
		case *ast.RangeStmt:
			b = n.Body
		}
		if b != nil {
			b.List = append([]ast.Stmt{&ast.ExprStmt{X: call(r.rt("Tick"))}}, b.List...)
		}
		return true
	})
}

func shimIdent(p string) string { return "verif_" + path.Base(p) }

var nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()

// node rewrites a node and everything below it, and returns what takes its place.
func (r *rewriter) node(n ast.Node) ast.Node {
	switch n := n.(type) {
	case *ast.SelectStmt:
		return r.selectStmt(n)
	case *ast.GoStmt:
		return r.goStmt(n)
	case *ast.LabeledStmt:
		n.Stmt = r.node(n.Stmt).(ast.Stmt)
		return n
	case *ast.CallExpr:
		if x := r.builtin(n); x != nil {
			return x
		}
	case *ast.RangeStmt:
		if x := r.rangeStmt(n); x != nil {
			return x
		}
	case *ast.SelectorExpr:
		if x := r.selector(n); x != nil {
			return x
		}
	case *ast.Ident:
		return n
	}
	r.children(n)
	switch n := n.(type) {
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.rt("Chan"), Index: n.Value}}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			if r.two[n] {
				return call(r.rt("Recv2"), n.X)
			}
			return call(r.rt("Recv"), n.X)
		}
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(r.rt("SendTo"), n.Chan), n.Value)}
	}
	return n
}

// children rewrites the fields of a node.
func (r *rewriter) children(n ast.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Pointer || v.IsNil() {
		return
	}
	v = v.Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		r.field(v.Field(i))
	}
}

func (r *rewriter) field(f reflect.Value) {
	switch f.Kind() {
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			r.field(f.Index(i))
		}
	case reflect.Interface, reflect.Pointer:
		if f.IsNil() || !f.Type().Implements(nodeType) && f.Kind() != reflect.Interface {
			return
		}
		n, ok := f.Interface().(ast.Node)
		if !ok {
			return
		}
		if _, is := n.(*ast.CommentGroup); is {
			return
		}
		m := r.node(n)
		if m != n {
			f.Set(reflect.ValueOf(m))
		}
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.node(e).(ast.Expr)
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	for i, s := range l {
		l[i] = r.node(s).(ast.Stmt)
	}
	return l
}

func (r *rewriter) selector(n *ast.SelectorExpr) ast.Expr {
	x, ok := n.X.(*ast.Ident)
	if !ok {
		return nil
	}
	pn, ok := r.p.info.Uses[x].(*types.PkgName)
	if !ok {
		return nil
	}
	p := pn.Imported().Path()
	if _, is := shims[p]; !is {
		return n
	}
	if shimNames[p][n.Sel.Name] {
		r.shimUse[p] = true
		r.changed = true
		return &ast.SelectorExpr{X: &ast.Ident{NamePos: x.NamePos, Name: shimIdent(p)}, Sel: n.Sel}
	}
	if _, isFunc := r.p.info.Uses[n.Sel].(*types.Func); isFunc {
		if p == "os" && !osFuncs[n.Sel.Name] || p == "sync" || p == "sync/atomic" || p == "context" || refused[p][n.Sel.Name] {
			fatal("%s: %s.%s is not supported", r.w.fset.Position(n.Pos()), p, n.Sel.Name)
		}
	}
	r.realUse[p] = true
	return n
}

func (r *rewriter) builtin(n *ast.CallExpr) ast.Expr {
	fun := n.Fun
	if pe, ok := fun.(*ast.ParenExpr); ok {
		fun = pe.X
	}
	id, ok := fun.(*ast.Ident)
	if !ok {
		return nil
	}
	b, ok := r.p.info.Uses[id].(*types.Builtin)
	if !ok || len(n.Args) == 0 {
		return nil
	}
	a := n.Args[0]
	if !r.isChan(a) {
		return nil
	}
	switch b.Name() {
	case "close":
		return call(r.rt("Close"), r.expr(a))
	case "len":
		return call(r.rt("Len"), r.expr(a))
	case "cap":
		return call(r.rt("Cap"), r.expr(a))
	case "make":
		size := intLit(0)
		if len(n.Args) > 1 {
			size = call(ast.NewIdent("int"), r.expr(n.Args[1]))
		}
		if ct, ok := a.(*ast.ChanType); ok {
			return call(&ast.IndexExpr{X: r.rt("MakeChan"), Index: r.expr(ct.Value)}, size)
		}
		t := &ast.ParenExpr{X: r.expr(a)}
		return call(t, call(r.rt("MakeLike"), call(t, ast.NewIdent("nil")), size))
	}
	return nil
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func ident(s string) *ast.Ident { return ast.NewIdent(s) }

func define(lhs []ast.Expr, rhs ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func assign(lhs []ast.Expr, rhs ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs}
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) ast.Stmt {
	switch {
	case r.isChan(n.X):
		x := r.expr(n.X)
		r.stmts(n.Body.List)
		if blank(n.Key) {
			return &ast.ForStmt{For: n.For, Init: define([]ast.Expr{ident("verifC"), ident("verifOK")}, call(r.rt("RangeFirst0"), x)), Cond: ident("verifOK"),
				Post: assign([]ast.Expr{ident("verifOK")}, call(r.rt("RecvOK"), ident("verifC"))), Body: n.Body}
		}
		v := n.Key
		if n.Tok != token.DEFINE {
			v = ident("verifV")
			n.Body.List = append([]ast.Stmt{assign([]ast.Expr{r.expr(n.Key)}, v)}, n.Body.List...)
		}
		return &ast.ForStmt{For: n.For, Init: define([]ast.Expr{ident("verifC"), v, ident("verifOK")}, call(r.rt("RangeFirst"), x)), Cond: ident("verifOK"),
			Post: assign([]ast.Expr{v, ident("verifOK")}, call(r.rt("Recv2"), ident("verifC"))), Body: n.Body}
	case r.isMap(n.X):
		x := r.expr(n.X)
		r.stmts(n.Body.List)
		k, v := n.Key, n.Value
		if n.Tok != token.DEFINE {
			var lhs, rhs []ast.Expr
			if blank(k) {
				k = ident("_")
			} else {
				lhs, rhs, k = append(lhs, r.expr(k)), append(rhs, ident("verifK")), ident("verifK")
			}
			if blank(v) {
				v = ident("_")
			} else {
				lhs, rhs, v = append(lhs, r.expr(v)), append(rhs, ident("verifV")), ident("verifV")
			}
			if len(lhs) > 0 {
				n.Body.List = append([]ast.Stmt{assign(lhs, rhs...)}, n.Body.List...)
			}
		}
		if k == nil {
			k = ident("_")
		}
		if v == nil {
			v = ident("_")
		}
		return &ast.ForStmt{For: n.For, Init: define([]ast.Expr{ident("verifI"), k, v, ident("verifOK")}, call(r.rt("MapFirst"), x)), Cond: ident("verifOK"),
			Post: assign([]ast.Expr{k, v, ident("verifOK")}, call(&ast.SelectorExpr{X: ident("verifI"), Sel: ident("Next")})), Body: n.Body}
	}
	return nil
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) ast.Stmt {
	var names, cases []ast.Expr
	var clauses []ast.Stmt
	var def *ast.CaseClause
	i := 0
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		name := ident(fmt.Sprintf("verifS%d", i))
		var pre []ast.Stmt
		switch m := c.Comm.(type) {
		case nil:
			def = &ast.CaseClause{Case: c.Case, Body: r.stmts(c.Body)}
			continue
		case *ast.SendStmt:
			cases = append(cases, call(call(r.rt("SendCase"), r.expr(m.Chan)), r.expr(m.Value)))
		case *ast.ExprStmt:
			cases = append(cases, call(r.rt("RecvCase"), r.expr(recv(m.X).X)))
		case *ast.AssignStmt:
			cases = append(cases, call(r.rt("RecvCase"), r.expr(recv(m.Rhs[0]).X)))
			var lhs, rhs []ast.Expr
			for j, l := range m.Lhs {
				f := "V"
				if j == 1 {
					f = "OK"
				}
				if m.Tok != token.DEFINE {
					l = r.expr(l)
				} else if blank(l) {
					continue
				}
				lhs = append(lhs, l)
				rhs = append(rhs, &ast.SelectorExpr{X: name, Sel: ident(f)})
			}
			if len(lhs) > 0 {
				pre = append(pre, &ast.AssignStmt{Lhs: lhs, TokPos: m.TokPos, Tok: m.Tok, Rhs: rhs})
			}
		}
		names = append(names, name)
		clauses = append(clauses, &ast.CaseClause{Case: c.Case, List: []ast.Expr{intLit(i)}, Body: append(pre, r.stmts(c.Body)...)})
		i++
	}
	has := "false"
	if def != nil {
		has = "true"
	} else {
		def = &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ident("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}}
	}
	clauses = append(clauses, def)
	sw := &ast.SwitchStmt{Switch: n.Select, Tag: call(r.rt("Select"), append([]ast.Expr{ident(has)}, names...)...), Body: &ast.BlockStmt{List: clauses}}
	if len(names) > 0 {
		sw.Init = define(names, cases...)
	}
	return sw
}

func recv(e ast.Expr) *ast.UnaryExpr {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		return e.(*ast.UnaryExpr)
	}
}

// simple tells that an expression means the same now and later, whatever happens in between.
func (r *rewriter) simple(e ast.Expr) bool {
	if tv, ok := r.p.info.Types[e]; ok && (tv.Value != nil || tv.IsNil() || tv.IsBuiltin()) {
		return true
	}
	switch e := e.(type) {
	case *ast.Ident:
		_, ok := r.p.info.Uses[e].(*types.Func)
		return ok
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok {
			if _, ok := r.p.info.Uses[x].(*types.PkgName); ok {
				_, ok := r.p.info.Uses[e.Sel].(*types.Func)
				return ok
			}
		}
	case *ast.IndexExpr:
		return r.simple(e.X)
	case *ast.IndexListExpr:
		return r.simple(e.X)
	case *ast.FuncLit:
		return true
	case *ast.ParenExpr:
		return r.simple(e.X)
	}
	return false
}

func (r *rewriter) goStmt(n *ast.GoStmt) ast.Stmt {
	c := n.Call
	if lit, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call(r.rt("Go"), r.expr(lit))}
	}
	// function and arguments are evaluated first
	var pre []ast.Stmt
	keep := func(e ast.Expr, name string) ast.Expr {
		if r.simple(e) {
			return r.expr(e)
		}
		pre = append(pre, define([]ast.Expr{ident(name)}, r.expr(e)))
		return ident(name)
	}
	plain := &ast.CallExpr{Ellipsis: c.Ellipsis}
	isBuiltin := false
	if id, ok := c.Fun.(*ast.Ident); ok {
		_, isBuiltin = r.p.info.Uses[id].(*types.Builtin)
	}
	if isBuiltin {
		for i, a := range c.Args {
			c.Args[i] = keep(a, fmt.Sprintf("verifA%d", i))
		}
		// a builtin of a channel is rewritten like everywhere else
		if b := c.Fun.(*ast.Ident); b.Name == "close" {
			plain = call(r.rt("Close"), c.Args...)
		} else {
			plain = c
		}
	} else {
		plain.Fun = keep(c.Fun, "verifF")
		for i, a := range c.Args {
			plain.Args = append(plain.Args, keep(a, fmt.Sprintf("verifA%d", i)))
		}
	}
	g := &ast.ExprStmt{X: call(r.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: plain}}}})}
	if len(pre) == 0 {
		return g
	}
	return &ast.BlockStmt{List: append(pre, g)}
}
