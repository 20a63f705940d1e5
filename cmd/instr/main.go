// instr copies a Go module (all its non-main, non-test packages) into a build
// directory, rewriting it so that every synchronisation operation, every
// goroutine start, every clock and network access and every access to possibly
// shared memory goes through the verif/mc scheduler.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mcName = "vmc__"

var shims = map[string]string{
	"sync":        "verif/mc/vsync",
	"sync/atomic": "verif/mc/vatomic",
	"time":        "verif/mc/vtime",
	"log":         "verif/mc/vlog",
	"runtime":     "verif/mc/vruntime",
	"net":         "verif/mc/vnet",
}

var baseName = map[string]string{"sync/atomic": "atomic"}

type pkg struct {
	dir, path string
	files     []*ast.File
	names     []string
	imports   []string
	tpkg      *types.Package
	info      *types.Info
	full      bool
	nreset    int
	resets    []string
}

type instr struct {
	fset     *token.FileSet
	p        *pkg
	sites    []string
	escaped  map[types.Object]bool
	memOnly  map[string]bool
	instPkgs map[string]bool
	tmp      int
	full     bool
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	out := flag.String("out", "", "build directory")
	harness := flag.String("harness", "", "comma separated harness package directories (instrumented sync-only)")
	syncOnly := flag.Bool("sync-only", false, "do not instrument plain memory accesses")
	flag.Parse()
	if *out == "" {
		fatal("need -out")
	}
	modb, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	if err != nil {
		fatal(err)
	}
	mod := ""
	for _, l := range strings.Split(string(modb), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			mod = f[1]
		}
	}
	fset := token.NewFileSet()
	pkgs := map[string]*pkg{}
	trylocks := false
	load := func(dir, path string, full bool) {
		bp, err := build.Default.ImportDir(dir, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				return
			}
			fatal(err)
		}
		if bp.Name == "main" && full {
			return
		}
		p := &pkg{dir: dir, path: path, full: full}
		for _, f := range bp.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				fatal(err)
			}
			ast.Inspect(af, func(n ast.Node) bool {
				if x, ok := n.(*ast.SelectorExpr); ok && (x.Sel.Name == "TryLock" || x.Sel.Name == "TryRLock") {
					trylocks = true
				}
				return true
			})
			p.files = append(p.files, af)
			p.names = append(p.names, f)
		}
		p.imports = bp.Imports
		pkgs[path] = p
	}
	filepath.Walk(*src, func(path string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		b := fi.Name()
		if path != *src && (strings.HasPrefix(b, ".") || b == "testdata" || strings.HasPrefix(b, "_")) {
			return filepath.SkipDir
		}
		rel, _ := filepath.Rel(*src, path)
		ip := mod
		if rel != "." {
			ip = mod + "/" + filepath.ToSlash(rel)
		}
		load(path, ip, true)
		return nil
	})
	for _, h := range strings.Split(*harness, ",") {
		if h != "" {
			load(h, mod+"/mcharness/"+filepath.Base(h), false)
		}
	}
	std := stdImporter(fset, pkgs)
	// topological order
	var order []*pkg
	state := map[string]int{}
	var visit func(string)
	visit = func(path string) {
		p := pkgs[path]
		if p == nil || state[path] == 2 {
			return
		}
		if state[path] == 1 {
			fatal("import cycle at", path)
		}
		state[path] = 1
		for _, i := range p.imports {
			visit(i)
		}
		state[path] = 2
		order = append(order, p)
	}
	var paths []string
	for k := range pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		visit(k)
	}
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p := pkgs[path]; p != nil {
			return p.tpkg, nil
		}
		return std.Import(path)
	})
	in := &instr{fset: fset, instPkgs: map[string]bool{}}
	for k := range pkgs {
		in.instPkgs[k] = true
	}
	for _, p := range order {
		p.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: imp, GoVersion: "go1.21"}
		tp, err := conf.Check(p.path, fset, p.files, p.info)
		if err != nil {
			fatal("type checking", p.path+":", err)
		}
		p.tpkg = tp
	}
	os.MkdirAll(*out, 0o755)
	for _, p := range order {
		in.pkg(p, p.full && !*syncOnly)
		rel := strings.TrimPrefix(strings.TrimPrefix(p.path, mod), "/")
		dst := filepath.Join(*out, rel)
		os.MkdirAll(dst, 0o755)
		for i, f := range p.files {
			var b bytes.Buffer
			if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, token.NewFileSet(), f); err != nil {
				fatal(err)
			}
			if err := os.WriteFile(filepath.Join(dst, p.names[i]), b.Bytes(), 0o644); err != nil {
				fatal(err)
			}
		}
		if !p.full {
			os.WriteFile(filepath.Join(dst, "mc_main__.go"), []byte("package main\n\nimport (\n\t\""+mod+"/mcglue\"\n\t\"verif/mc\"\n)\n\nfunc main() { mc.Main(scenarios, mcglue.Reset) }\n"), 0o644)
		}
		if p.full {
			var b bytes.Buffer
			fmt.Fprintf(&b, "package %s\n\nfunc MCReset__() {\n", p.tpkg.Name())
			for _, r := range p.resets {
				fmt.Fprintf(&b, "\t%s()\n", r)
			}
			fmt.Fprintf(&b, "}\n")
			os.WriteFile(filepath.Join(dst, "mc_reset__.go"), b.Bytes(), 0o644)
		}
	}
	// glue: resets in dependency order, site table
	var g bytes.Buffer
	fmt.Fprintf(&g, "package mcglue\n\nimport (\n\t\"verif/mc\"\n")
	n := 0
	for _, p := range order {
		if p.full {
			fmt.Fprintf(&g, "\tp%d %q\n", n, p.path)
			n++
		}
	}
	fmt.Fprintf(&g, ")\n\nfunc init() { mc.SiteNames = sites; mc.TryLocks = %v }\n\nfunc Reset() {\n", trylocks)
	for i := 0; i < n; i++ {
		fmt.Fprintf(&g, "\tp%d.MCReset__()\n", i)
	}
	fmt.Fprintf(&g, "}\n\nvar sites = []string{\n")
	for _, s := range in.sites {
		s = strings.TrimPrefix(s, *src+"/")
		fmt.Fprintf(&g, "\t%q,\n", s)
	}
	fmt.Fprintf(&g, "}\n")
	os.MkdirAll(filepath.Join(*out, "mcglue"), 0o755)
	os.WriteFile(filepath.Join(*out, "mcglue", "glue.go"), g.Bytes(), 0o644)
	vdir, _ := os.Getwd()
	if v := os.Getenv("VERIF_DIR"); v != "" {
		vdir = v
	}
	os.WriteFile(filepath.Join(*out, "go.mod"), []byte(fmt.Sprintf("module %s\n\ngo 1.21\n\nrequire verif v0.0.0\n\nreplace verif => %s\n", mod, vdir)), 0o644)
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

// stdImporter imports the standard library (and verif/mc) from export data.
func stdImporter(fset *token.FileSet, pkgs map[string]*pkg) types.Importer {
	need := map[string]bool{}
	for _, p := range pkgs {
		for _, i := range p.imports {
			if pkgs[i] == nil && i != "unsafe" && !strings.HasSuffix(i, "/mcglue") {
				need[i] = true
			}
		}
	}
	var l []string
	for k := range need {
		l = append(l, k)
	}
	sort.Strings(l)
	exports := map[string]string{}
	if len(l) > 0 {
		cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Export"}, l...)...)
		cmd.Stderr = os.Stderr
		outb, err := cmd.Output()
		if err != nil {
			fatal("go list:", err)
		}
		dec := json.NewDecoder(bytes.NewReader(outb))
		for {
			var e struct{ ImportPath, Export string }
			if err := dec.Decode(&e); err == io.EOF {
				break
			} else if err != nil {
				fatal(err)
			}
			exports[e.ImportPath] = e.Export
		}
	}
	return importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
}

func (in *instr) site(n ast.Node, what string) ast.Expr {
	pos := in.fset.Position(n.Pos())
	in.sites = append(in.sites, fmt.Sprintf("%s:%d %s", pos.Filename, pos.Line, what))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(in.sites) - 1)}
}

func id(n string) *ast.Ident { return &ast.Ident{Name: n} }

func mcf(name string) ast.Expr { return &ast.SelectorExpr{X: id(mcName), Sel: id(name)} }

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func mcall(name string, args ...ast.Expr) *ast.CallExpr { return call(mcf(name), args...) }

func (in *instr) newName(p string) string {
	in.tmp++
	return fmt.Sprintf("mc__%s%d", p, in.tmp)
}

func (in *instr) pkg(p *pkg, full bool) {
	in.p = p
	in.full = full
	in.escaped = map[types.Object]bool{}
	for _, f := range p.files {
		in.findEscaped(f)
	}
	ninit := 0
	// remember the initialisers per variable before rewriting
	type ini struct {
		lhs []*types.Var
		rhs ast.Expr
	}
	fileOf := func(pos token.Pos) int {
		for i, f := range p.files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return i
			}
		}
		return -1
	}
	var inits []ini
	for _, i := range p.info.InitOrder {
		inits = append(inits, ini{i.Lhs, i.Rhs})
	}
	var zeros = make([][]string, len(p.files))
	rhsMap := map[ast.Expr]ast.Expr{}
	var initFuncs []string
	for fi, f := range p.files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for _, n := range vs.Names {
						if n.Name != "_" && len(vs.Values) == 0 {
							zeros[fi] = append(zeros[fi], n.Name)
						}
					}
					for i, v := range vs.Values {
						nv := in.expr(v)
						rhsMap[v] = nv
						vs.Values[i] = nv
					}
				}
			case *ast.FuncDecl:
				if d.Body != nil {
					d.Body = in.block(d.Body)
				}
				if d.Recv == nil && d.Name.Name == "init" && p.full {
					ninit++
					d.Name = id(fmt.Sprintf("mcInit__%d", ninit))
					initFuncs = append(initFuncs, d.Name.Name)
				}
			}
		}
	}
	for i, f := range p.files {
		if p.full {
			if len(zeros[i]) > 0 {
				fn := fmt.Sprintf("mcZero__%d", i)
				var l []ast.Stmt
				for _, z := range zeros[i] {
					l = append(l, &ast.ExprStmt{X: mcall("Zero", &ast.UnaryExpr{Op: token.AND, X: id(z)})})
				}
				f.Decls = append(f.Decls, fdecl(fn, l))
				p.resets = append(p.resets, fn)
			}
		}
	}
	if p.full {
		for k, x := range inits {
			all := true
			for _, v := range x.lhs {
				if v.Name() != "_" {
					all = false
				}
			}
			if all || len(x.lhs) == 0 {
				continue
			}
			fi := fileOf(x.lhs[0].Pos())
			nv, ok := rhsMap[x.rhs]
			if fi < 0 || !ok {
				continue
			}
			var lhs []ast.Expr
			for _, v := range x.lhs {
				lhs = append(lhs, id(v.Name()))
			}
			fn := fmt.Sprintf("mcVar__%d", k)
			p.files[fi].Decls = append(p.files[fi].Decls, fdecl(fn, []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{nv}}}))
			p.resets = append(p.resets, fn)
		}
		p.resets = append(p.resets, initFuncs...)
		if len(initFuncs) > 0 {
			var l []ast.Stmt
			for _, n := range initFuncs {
				l = append(l, &ast.ExprStmt{X: call(id(n))})
			}
			p.files[0].Decls = append(p.files[0].Decls, fdecl("init", l))
		}
	}
	for _, f := range p.files {
		f.Comments = nil
		f.Doc = nil
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				for _, s := range g.Specs {
					is := s.(*ast.ImportSpec)
					path, _ := strconv.Unquote(is.Path.Value)
					if sh, ok := shims[path]; ok {
						if is.Name == nil {
							n := path
							if b := baseName[path]; b != "" {
								n = b
							}
							is.Name = id(n)
						}
						is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(sh)}
						is.EndPos = 0
					}
				}
			}
		}
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id(mcName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/mc"`}}}}
		use := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{mcf("Tick")}}}}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
		f.Decls = append(f.Decls, use)
	}
}

func fdecl(name string, l []ast.Stmt) *ast.FuncDecl {
	return &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: l}}
}

// findEscaped collects local variables that are captured by a function literal
// or whose address is taken: they may be shared between goroutines.
func (in *instr) findEscaped(f *ast.File) {
	info := in.p.info
	type fr struct{ lit ast.Node }
	var stack []ast.Node
	declIn := map[types.Object]ast.Node{}
	var cur func() ast.Node
	cur = func() ast.Node {
		if len(stack) == 0 {
			return nil
		}
		return stack[len(stack)-1]
	}
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncLit:
				if x == n {
					return true
				}
				stack = append(stack, x)
				walk(x)
				stack = stack[:len(stack)-1]
				return false
			case *ast.FuncDecl:
				if x == n {
					return true
				}
				stack = append(stack, x)
				walk(x)
				stack = stack[:len(stack)-1]
				return false
			case *ast.Ident:
				if o := info.Defs[x]; o != nil {
					if v, ok := o.(*types.Var); ok && !v.IsField() {
						declIn[o] = cur()
					}
				}
				if o := info.Uses[x]; o != nil {
					if v, ok := o.(*types.Var); ok && !v.IsField() && v.Parent() != in.p.tpkg.Scope() {
						if d, ok := declIn[o]; ok && d != cur() {
							in.escaped[o] = true
						}
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if r := rootVar(info, x.X); r != nil {
						in.escaped[r] = true
					}
				}
			}
			return true
		})
	}
	walk(f)
}

// rootVar returns the local variable an addressable expression lives in.
func rootVar(info *types.Info, e ast.Expr) types.Object {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.Ident:
			if v, ok := info.Uses[x].(*types.Var); ok {
				return v
			}
			return nil
		case *ast.SelectorExpr:
			if _, ok := info.Types[x.X]; !ok {
				return nil
			}
			if _, ok := info.Types[x.X].Type.Underlying().(*types.Pointer); ok {
				return nil
			}
			e = x.X
		case *ast.IndexExpr:
			if _, ok := info.Types[x.X].Type.Underlying().(*types.Array); ok {
				e = x.X
				continue
			}
			return nil
		default:
			return nil
		}
	}
}

func (in *instr) typ(e ast.Expr) types.Type {
	if tv, ok := in.p.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := in.p.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := in.p.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool { _, ok := under(t).(*types.Pointer); return ok }
func isMap(t types.Type) bool { _, ok := under(t).(*types.Map); return ok }
func isChan(t types.Type) bool {
	_, ok := under(t).(*types.Chan)
	return ok
}

// opaque types are handled by their own shims.
func opaque(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if p := n.Obj().Pkg(); p != nil {
		switch p.Path() {
		case "sync", "sync/atomic":
			return true
		}
	}
	return false
}

// shared: e denotes an addressable variable that other goroutines may reach.
func (in *instr) shared(e ast.Expr) bool {
	if !in.full {
		return false
	}
	info := in.p.info
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.shared(x.X)
	case *ast.Ident:
		v, ok := info.Uses[x].(*types.Var)
		if !ok || v.IsField() {
			return false
		}
		if v.Parent() == in.p.tpkg.Scope() {
			return true
		}
		return in.escaped[v]
	case *ast.SelectorExpr:
		sel := info.Selections[x]
		if sel == nil {
			v, ok := info.Uses[x.Sel].(*types.Var)
			return ok && v.Pkg() != nil && in.instPkgs[v.Pkg().Path()]
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		if isPtr(in.typ(x.X)) || sel.Indirect() {
			return true
		}
		return in.shared(x.X)
	case *ast.IndexExpr:
		switch t := under(in.typ(x.X)).(type) {
		case *types.Slice:
			if b, ok := under(t.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return false
			}
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			if b, ok := under(t.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return false
			}
			return in.shared(x.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

func hasCall(e ast.Expr) bool {
	f := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			f = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				f = true
			}
		}
		return !f
	})
	return f
}

func (in *instr) exprs(l []ast.Expr) []ast.Expr {
	for i, e := range l {
		l[i] = in.expr(e)
	}
	return l
}

func and(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

func desc(e ast.Expr) string {
	var b bytes.Buffer
	printer.Fprint(&b, token.NewFileSet(), e)
	s := b.String()
	if len(s) > 40 {
		s = s[:40]
	}
	return strings.ReplaceAll(s, "\n", " ")
}

// expr rewrites e as an rvalue.
func (in *instr) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	tv, known := in.p.info.Types[e]
	if known && (tv.IsType() || tv.Value != nil || tv.IsBuiltin() || tv.IsVoid() && false) {
		return e
	}
	if known && tv.IsValue() && in.shared(e) && tv.Addressable() && !opaque(tv.Type) {
		d := desc(e)
		a := in.addr(e)
		return mcall("R", and(a), in.site(e, d))
	}
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return e
	case *ast.ParenExpr:
		x.X = in.expr(x.X)
		return x
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return in.addr(e)
	case *ast.CallExpr:
		return in.call(x)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			x.X = in.addr(x.X)
			return x
		case token.ARROW:
			return mcall("Recv", in.expr(x.X))
		}
		x.X = in.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X = in.expr(x.X)
		x.Y = in.expr(x.Y)
		return x
	case *ast.SliceExpr:
		if _, ok := under(in.typ(x.X)).(*types.Array); ok {
			x.X = in.addr(x.X)
		} else {
			x.X = in.expr(x.X)
		}
		x.Low, x.High, x.Max = in.expr(x.Low), in.expr(x.High), in.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = in.expr(x.X)
		return x
	case *ast.CompositeLit:
		in.complit(x)
		return x
	case *ast.FuncLit:
		x.Body = in.block(x.Body)
		return x
	case *ast.KeyValueExpr:
		x.Value = in.expr(x.Value)
		return x
	}
	return e
}

func (in *instr) complit(x *ast.CompositeLit) {
	t := under(in.typ(x))
	if p, ok := t.(*types.Pointer); ok {
		t = under(p.Elem())
	}
	_, isStruct := t.(*types.Struct)
	for i, el := range x.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			if !isStruct {
				kv.Key = in.expr(kv.Key)
			}
			kv.Value = in.expr(kv.Value)
		} else {
			x.Elts[i] = in.expr(el)
		}
	}
}

// addr rewrites e as an operand whose address (or method with pointer
// receiver, or map element) is used: its own value is not read here.
func (in *instr) addr(e ast.Expr) ast.Expr {
	info := in.p.info
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = in.addr(x.X)
		return x
	case *ast.Ident:
		return x
	case *ast.StarExpr:
		if tv, ok := info.Types[x]; ok && tv.IsType() {
			return x
		}
		x.X = in.expr(x.X)
		return x
	case *ast.SelectorExpr:
		sel := info.Selections[x]
		if sel == nil {
			return x // qualified identifier
		}
		switch sel.Kind() {
		case types.FieldVal:
			if isPtr(in.typ(x.X)) {
				x.X = in.expr(x.X)
			} else {
				x.X = in.addr(x.X)
			}
		case types.MethodVal:
			bt := in.typ(x.X)
			sig := sel.Obj().Type().(*types.Signature)
			ptrRecv := false
			if r := sig.Recv(); r != nil {
				ptrRecv = isPtr(r.Type())
			}
			if !isPtr(bt) && (ptrRecv || len(sel.Index()) > 1) {
				x.X = in.addr(x.X)
			} else if opaque(bt) {
				x.X = in.addr(x.X)
			} else {
				x.X = in.expr(x.X)
			}
		}
		return x
	case *ast.IndexExpr:
		if tv, ok := info.Types[x.X]; ok && (tv.IsType() || func() bool { _, f := under(tv.Type).(*types.Signature); return f }()) {
			return x // generic instantiation
		}
		switch under(in.typ(x.X)).(type) {
		case *types.Map:
			m := in.expr(x.X)
			if in.full {
				m = mcall("MapR", m, in.site(e, desc(e)))
			}
			x.X = m
			x.Index = in.expr(x.Index)
		case *types.Array:
			x.X = in.addr(x.X)
			x.Index = in.expr(x.Index)
		default:
			x.X = in.expr(x.X)
			x.Index = in.expr(x.Index)
		}
		return x
	case *ast.CompositeLit:
		in.complit(x)
		return x
	}
	return in.expr(e)
}

func (in *instr) builtin(x *ast.CallExpr) string {
	f := x.Fun
	for {
		p, ok := f.(*ast.ParenExpr)
		if !ok {
			break
		}
		f = p.X
	}
	if i, ok := f.(*ast.Ident); ok {
		if b, ok := in.p.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (in *instr) call(x *ast.CallExpr) ast.Expr {
	switch in.builtin(x) {
	case "make":
		t := in.typ(x.Args[0])
		for i := 1; i < len(x.Args); i++ {
			x.Args[i] = in.expr(x.Args[i])
		}
		if isChan(t) {
			var n ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
			if len(x.Args) > 1 {
				n = x.Args[1]
			}
			return mcall("MakeChan", call(id("make"), x.Args[0]), n)
		}
		return x
	case "new":
		return x
	case "close":
		return mcall("Close", in.expr(x.Args[0]))
	case "len", "cap":
		t := in.typ(x.Args[0])
		if isChan(t) {
			n := "Len"
			if in.builtin(x) == "cap" {
				n = "Cap"
			}
			return mcall(n, in.expr(x.Args[0]))
		}
		if isMap(t) && in.full {
			d := desc(x)
			x.Args[0] = mcall("MapLen", in.expr(x.Args[0]), in.site(x, d))
			return x
		}
		x.Args = in.exprs(x.Args)
		return x
	case "delete":
		d := desc(x)
		m := in.expr(x.Args[0])
		if in.full {
			m = mcall("MapW", m, in.site(x, d))
		}
		x.Args[0] = m
		x.Args[1] = in.expr(x.Args[1])
		return x
	case "recover", "print", "println":
		x.Args = in.exprs(x.Args)
		return x
	case "copy":
		d, t := desc(x), in.typ(x.Args[1])
		x.Args = in.exprs(x.Args)
		if !in.full {
			return x
		}
		f := "Copy"
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			f = "CopyStr"
		}
		return mcall(f, x.Args[0], x.Args[1], in.site(x, d))
	case "append":
		d := desc(x)
		if _, ok := under(in.typ(x.Args[0])).(*types.Slice); !ok || len(x.Args) < 2 {
			x.Args = in.exprs(x.Args)
			return x
		}
		str := false
		if b, ok := under(in.typ(x.Args[len(x.Args)-1])).(*types.Basic); ok && x.Ellipsis != 0 && b.Info()&(types.IsString|types.IsUntyped) != 0 {
			str = true
		}
		x.Args = in.exprs(x.Args)
		if !in.full || str {
			return x
		}
		c := call(mcall("Append", x.Args[0], in.site(x, d)), x.Args[1:]...)
		c.Ellipsis = x.Ellipsis
		return c
	case "":
	default:
		x.Args = in.exprs(x.Args)
		return x
	}
	if tv, ok := in.p.info.Types[x.Fun]; ok && tv.IsType() {
		x.Args = in.exprs(x.Args)
		return x
	}
	if in.full && len(x.Args) > 0 {
		// byte order methods access the bytes they are given
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			if f, ok := in.p.info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "encoding/binary" {
				n, wr := 0, strings.HasPrefix(f.Name(), "Put")
				switch strings.TrimPrefix(f.Name(), "Put") {
				case "Uint16":
					n = 2
				case "Uint32":
					n = 4
				case "Uint64":
					n = 8
				}
				if n > 0 {
					d := desc(x)
					w := "BytesR"
					if wr {
						w = "BytesW"
					}
					x.Fun = in.expr(x.Fun)
					x.Args = in.exprs(x.Args)
					x.Args[0] = mcall(w, x.Args[0], &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}, in.site(x, d))
					return x
				}
			}
		}
	}
	x.Fun = in.expr(x.Fun)
	x.Args = in.exprs(x.Args)
	return x
}

func (in *instr) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = in.stmts(b.List)
	return b
}

func (in *instr) stmts(l []ast.Stmt) []ast.Stmt {
	for i, s := range l {
		l[i] = in.stmt(s)
	}
	return l
}

func estmt(e ast.Expr) ast.Stmt { return &ast.ExprStmt{X: e} }

func tick() ast.Stmt { return estmt(mcall("Tick")) }

func (in *instr) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		x.X = in.expr(x.X)
		return x
	case *ast.SendStmt:
		return estmt(call(mcall("Send", in.expr(x.Chan)), in.expr(x.Value)))
	case *ast.IncDecStmt:
		return in.incdec(x)
	case *ast.AssignStmt:
		return in.assign(x)
	case *ast.GoStmt:
		return in.gostmt(x)
	case *ast.DeferStmt:
		in.deferstmt(x)
		return x
	case *ast.ReturnStmt:
		x.Results = in.exprs(x.Results)
		return x
	case *ast.BlockStmt:
		return in.block(x)
	case *ast.IfStmt:
		x.Init = in.stmt(x.Init)
		x.Cond = in.expr(x.Cond)
		x.Body = in.block(x.Body)
		x.Else = in.stmt(x.Else)
		if b, ok := x.Init.(*ast.BlockStmt); ok {
			x.Init = nil
			return &ast.BlockStmt{List: []ast.Stmt{b, x}}
		}
		return x
	case *ast.CaseClause:
		x.List = in.exprs(x.List)
		x.Body = in.stmts(x.Body)
		return x
	case *ast.SwitchStmt:
		x.Init = in.stmt(x.Init)
		x.Tag = in.expr(x.Tag)
		x.Body = in.block(x.Body)
		if b, ok := x.Init.(*ast.BlockStmt); ok {
			x.Init = nil
			return &ast.BlockStmt{List: []ast.Stmt{b, x}}
		}
		return x
	case *ast.TypeSwitchStmt:
		x.Init = in.stmt(x.Init)
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			a.X = in.expr(a.X)
		case *ast.AssignStmt:
			a.Rhs[0] = in.expr(a.Rhs[0])
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = in.stmts(cc.Body)
		}
		return x
	case *ast.SelectStmt:
		return in.selectstmt(x)
	case *ast.ForStmt:
		x.Init = in.stmt(x.Init)
		x.Cond = in.expr(x.Cond)
		x.Post = in.stmt(x.Post)
		x.Body = in.block(x.Body)
		x.Body.List = append([]ast.Stmt{tick()}, x.Body.List...)
		return x
	case *ast.RangeStmt:
		return in.rangestmt(x)
	case *ast.LabeledStmt:
		x.Stmt = in.stmt(x.Stmt)
		return x
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u := recvOf(vs.Values[0]); u != nil {
						vs.Values[0] = mcall("Recv2", in.expr(u.X))
						continue
					}
				}
				vs.Values = in.exprs(vs.Values)
			}
		}
		return x
	}
	return s
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func strip(e ast.Expr) ast.Expr {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		return e
	}
}

func (in *instr) isMapIndex(e ast.Expr) bool {
	ix, ok := strip(e).(*ast.IndexExpr)
	return ok && isMap(in.typ(ix.X))
}

// mapLhs rewrites m[k] as an assignment target.
func (in *instr) mapLhs(e ast.Expr) ast.Expr {
	ix := strip(e).(*ast.IndexExpr)
	mt := under(in.typ(ix.X)).(*types.Map)
	simple := false
	if b, ok := under(mt.Key()).(*types.Basic); ok && b.Info()&types.IsOrdered != 0 {
		simple = true
	}
	d := desc(e)
	st := in.site(e, d)
	k := ix.Index
	again := !simple && !hasCall(ix.X)
	m := in.expr(ix.X)
	k = in.expr(k)
	if again {
		k = call(mcall("MK", m), k)
	}
	if in.full {
		m = mcall("MapW", m, st)
	}
	return &ast.IndexExpr{X: m, Index: k}
}

// lhs rewrites an assignment target without announcing the store.
func (in *instr) lhs(e ast.Expr) ast.Expr {
	if in.isMapIndex(e) {
		return in.mapLhs(e)
	}
	return in.addr(e)
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (in *instr) sharedVar(e ast.Expr) bool {
	if isBlank(e) || in.isMapIndex(e) {
		return false
	}
	t := in.typ(e)
	return in.shared(e) && t != nil && !opaque(t)
}

func (in *instr) incdec(x *ast.IncDecStmt) ast.Stmt {
	if in.isMapIndex(x.X) {
		x.X = in.mapLhs(x.X)
		return x
	}
	if in.sharedVar(x.X) {
		st := in.site(x.X, desc(x.X))
		d := "1"
		if x.Tok == token.DEC {
			d = "-1"
		}
		return estmt(mcall("Inc", and(in.addr(x.X)), st, &ast.BasicLit{Kind: token.INT, Value: d}))
	}
	x.X = in.addr(x.X)
	return x
}

func (in *instr) assign(x *ast.AssignStmt) ast.Stmt {
	// comma-ok receive
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u := recvOf(x.Rhs[0]); u != nil {
			x.Rhs[0] = mcall("Recv2", in.expr(u.X))
			return in.assignLhs(x, false)
		}
		switch strip(x.Rhs[0]).(type) {
		case *ast.IndexExpr, *ast.TypeAssertExpr:
			x.Rhs[0] = in.expr(x.Rhs[0])
			return in.assignLhs(x, true)
		}
	}
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		// op-assign
		l := x.Lhs[0]
		if in.sharedVar(l) && !hasCall(l) {
			st1 := in.site(l, desc(l))
			st2 := in.site(l, desc(l))
			a := in.addr(l)
			op := binOp(x.Tok)
			r := in.expr(x.Rhs[0])
			return estmt(call(mcall("St", and(a), st1),
				&ast.BinaryExpr{X: mcall("R", and(a), st2), Op: op, Y: &ast.ParenExpr{X: r}}))
		}
		x.Lhs[0] = in.lhs(l)
		x.Rhs[0] = in.expr(x.Rhs[0])
		return x
	}
	x.Rhs = in.exprs(x.Rhs)
	return in.assignLhs(x, false)
}

func binOp(t token.Token) token.Token {
	return map[token.Token]token.Token{
		token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
		token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND,
		token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
		token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
	}[t]
}

// assignLhs handles the targets of = and := (right sides are done already).
func (in *instr) assignLhs(x *ast.AssignStmt, commaOk bool) ast.Stmt {
	if x.Tok == token.DEFINE {
		return x
	}
	any, bad := false, false
	for _, l := range x.Lhs {
		if in.sharedVar(l) {
			any = true
		}
		if in.isMapIndex(l) || !isBlank(l) && opaque(in.typ(l)) {
			bad = true
		}
	}
	if !any || bad && len(x.Lhs) > 1 || len(x.Lhs) > 4 {
		for i, l := range x.Lhs {
			if !isBlank(l) {
				x.Lhs[i] = in.lhs(l)
			}
		}
		return x
	}
	if len(x.Lhs) == 1 {
		l := x.Lhs[0]
		st := in.site(l, desc(l))
		return estmt(call(mcall("St", and(in.addr(l)), st), x.Rhs[0]))
	}
	var args []ast.Expr
	for _, l := range x.Lhs {
		if isBlank(l) {
			args = append(args, mcall("Bl"), &ast.BasicLit{Kind: token.INT, Value: "-1"})
			continue
		}
		var st ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "-1"}
		if in.sharedVar(l) {
			st = in.site(l, desc(l))
		}
		args = append(args, and(in.addr(l)), st)
	}
	f := mcall(fmt.Sprintf("St%d", len(x.Lhs)), args...)
	if commaOk {
		a, b := in.newName("v"), in.newName("ok")
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{id(a), id(b)}, Tok: token.DEFINE, Rhs: x.Rhs},
			estmt(call(f, id(a), id(b))),
		}}
	}
	return estmt(call(f, x.Rhs...))
}

func (in *instr) gostmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	fn := func(e *ast.CallExpr) ast.Stmt {
		return estmt(mcall("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{estmt(e)}}}))
	}
	if b := in.builtin(c); b != "" {
		return fn(in.call(c).(*ast.CallExpr))
	}
	var list []ast.Stmt
	pre := func(e ast.Expr) ast.Expr {
		tv := in.p.info.Types[e]
		ne := in.expr(e)
		if tv.Value != nil || tv.IsNil() {
			return ne
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return ne
		}
		if _, ok := e.(*ast.FuncLit); ok {
			return ne
		}
		n := in.newName("a")
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{ne}})
		return id(n)
	}
	var f ast.Expr
	switch strip(c.Fun).(type) {
	case *ast.FuncLit:
		f = in.expr(c.Fun)
	default:
		if i, ok := strip(c.Fun).(*ast.Ident); ok {
			if _, isf := in.p.info.Uses[i].(*types.Func); isf {
				f = c.Fun
				break
			}
		}
		f = pre(c.Fun)
	}
	multi := false
	if len(c.Args) == 1 {
		if _, ok := in.typ(c.Args[0]).(*types.Tuple); ok {
			multi = true
		}
	}
	var args []ast.Expr
	for _, a := range c.Args {
		if multi {
			args = append(args, in.expr(a))
		} else {
			args = append(args, pre(a))
		}
	}
	nc := &ast.CallExpr{Fun: f, Args: args}
	if c.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	list = append(list, fn(nc))
	if len(list) == 1 {
		return list[0]
	}
	return &ast.BlockStmt{List: list}
}

func (in *instr) deferstmt(x *ast.DeferStmt) {
	switch in.builtin(x.Call) {
	case "close":
		x.Call = mcall("Close", in.expr(x.Call.Args[0]))
		return
	case "":
		x.Call.Fun = in.expr(x.Call.Fun)
		x.Call.Args = in.exprs(x.Call.Args)
		return
	}
	x.Call.Args = in.exprs(x.Call.Args)
}

func (in *instr) selectstmt(x *ast.SelectStmt) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{estmt(mcall("BlockForever")), estmt(call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `""`}))}}
	}
	var names, inits []ast.Expr
	var clauses []ast.Stmt
	hasDef := false
	var selArgs []ast.Expr
	k := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		var pre []ast.Stmt
		var list []ast.Expr
		switch cm := cc.Comm.(type) {
		case nil:
			hasDef = true
		case *ast.SendStmt:
			n := in.newName("c")
			names = append(names, id(n))
			inits = append(inits, call(mcall("SendCase", in.expr(cm.Chan)), in.expr(cm.Value)))
			selArgs = append(selArgs, id(n))
			list = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}
			k++
		default:
			var u *ast.UnaryExpr
			n := in.newName("c")
			switch cm := cm.(type) {
			case *ast.ExprStmt:
				u = recvOf(cm.X)
			case *ast.AssignStmt:
				u = recvOf(cm.Rhs[0])
				m := "V"
				if len(cm.Lhs) == 2 {
					m = "V2"
				}
				as := &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: id(n), Sel: id(m)})}}
				if cm.Tok == token.ASSIGN {
					pre = append(pre, in.assignLhs(as, false))
				} else {
					pre = append(pre, as)
					// silence "declared and not used" differences: none expected
				}
			}
			names = append(names, id(n))
			inits = append(inits, mcall("RecvCase", in.expr(u.X)))
			selArgs = append(selArgs, id(n))
			list = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}
			k++
		}
		body := append(pre, in.stmts(cc.Body)...)
		clauses = append(clauses, &ast.CaseClause{List: list, Body: body})
	}
	def := "false"
	if hasDef {
		def = "true"
	} else {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{estmt(call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"mc: select"`}))}})
	}
	sw := &ast.SwitchStmt{
		Tag:  mcall("Select", append([]ast.Expr{id(def)}, selArgs...)...),
		Body: &ast.BlockStmt{List: clauses},
	}
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: inits}
	}
	return sw
}

func (in *instr) rangestmt(x *ast.RangeStmt) ast.Stmt {
	t := under(in.typ(x.X))
	if p, ok := t.(*types.Pointer); ok {
		t = under(p.Elem())
	}
	switch t.(type) {
	case *types.Chan:
		ch, ok := in.newName("ch"), in.newName("ok")
		f := &ast.ForStmt{}
		f.Init = &ast.AssignStmt{Lhs: []ast.Expr{id(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{in.expr(x.X)}}
		v := in.newName("v")
		var head []ast.Stmt
		head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{mcall("Recv2", id(ch))}})
		head = append(head, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		if x.Key != nil && !isBlank(x.Key) {
			as := &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{id(v)}}
			if x.Tok == token.DEFINE {
				head = append(head, as)
			} else {
				head = append(head, in.assignLhs(as, false))
			}
		} else {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
		}
		body := in.block(x.Body)
		f.Body = &ast.BlockStmt{List: append(head, body)}
		return f
	case *types.Map:
		i, m := in.newName("i"), in.newName("m")
		st := in.site(x.X, "range "+desc(x.X))
		f := &ast.ForStmt{}
		f.Init = &ast.AssignStmt{Lhs: []ast.Expr{id(i), id(m)}, Tok: token.DEFINE, Rhs: []ast.Expr{
			&ast.BasicLit{Kind: token.INT, Value: "0"}, mcall("MapSnap", in.expr(x.X), st)}}
		f.Cond = &ast.BinaryExpr{X: id(i), Op: token.LSS, Y: call(&ast.SelectorExpr{X: id(m), Sel: id("Len")})}
		f.Post = &ast.IncDecStmt{X: id(i), Tok: token.INC}
		var head []ast.Stmt
		head = append(head, tick(), &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: call(&ast.SelectorExpr{X: id(m), Sel: id("Has")}, id(i))},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		add := func(l ast.Expr, g string) {
			if l == nil || isBlank(l) {
				return
			}
			as := &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: x.Tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: id(m), Sel: id(g)}, id(i))}}
			if x.Tok == token.DEFINE {
				head = append(head, as)
			} else {
				head = append(head, in.assignLhs(as, false))
			}
		}
		add(x.Key, "K")
		add(x.Value, "V")
		f.Body = &ast.BlockStmt{List: append(head, in.block(x.Body))}
		return f
	}
	if _, ok := t.(*types.Array); ok {
		if isPtr(in.typ(x.X)) {
			x.X = in.expr(x.X)
		} else {
			x.X = in.addr(x.X)
		}
	} else {
		x.X = in.expr(x.X)
	}
	if x.Tok == token.ASSIGN {
		if x.Key != nil && !isBlank(x.Key) {
			x.Key = in.lhs(x.Key)
		}
		if x.Value != nil && !isBlank(x.Value) {
			x.Value = in.lhs(x.Value)
		}
	}
	x.Body = in.block(x.Body)
	x.Body.List = append([]ast.Stmt{tick()}, x.Body.List...)
	return x
}
