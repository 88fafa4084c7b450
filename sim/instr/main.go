// Command instr copies a Go package into a scratch module and rewrites it so that
// every goroutine start, channel operation, select, sync and sync/atomic use and
// every access to memory that may be shared between goroutines becomes a call into
// the simulator runtime (verifrt/simrt). It works on the type-checked syntax tree
// and knows nothing about sorty.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath, Dir, Name, Export string
	GoFiles, CgoFiles, SFiles     []string
	DepOnly                       bool
	Module                        *struct{ Path, GoVersion string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	src := flag.String("src", "/repo", "package directory")
	out := flag.String("out", "", "output directory")
	tags := flag.String("tags", "", "build tags")
	mode := flag.String("mode", "fine", "fine: hook element accesses and loops; coarse: only synchronization and non-element shared memory")
	rt := flag.String("rt", "", "directory of module verifrt")
	modfile := flag.String("modfile", "", "modfile to load dependencies with")
	flag.Parse()

	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,SFiles,DepOnly,Module"}
	if *modfile != "" {
		args = append(args, "-modfile="+*modfile)
	}
	args = append(args, "-tags="+*tags, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	js, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var target *listPkg
	exports := map[string]string{}
	for dec := json.NewDecoder(bytes.NewReader(js)); ; {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly {
			target = p
		}
	}
	if target == nil || len(target.GoFiles) == 0 {
		die("no package in %s", *src)
	}
	if len(target.CgoFiles)+len(target.SFiles) > 0 {
		die("cgo or assembly in the package cannot be simulated")
	}

	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range target.GoFiles {
		full := filepath.Join(target.Dir, f)
		b, err := os.ReadFile(full)
		if err != nil {
			die("%v", err)
		}
		if bytes.Contains(b, []byte("//go:linkname")) {
			die("%s: go:linkname cannot be simulated", f)
		}
		af, err := parser.ParseFile(fset, full, b, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	}), Sizes: types.SizesFor("gc", goarch())}
	if target.Module != nil && target.Module.GoVersion != "" {
		conf.GoVersion = "go" + target.Module.GoVersion
	}
	pkg, err := conf.Check(target.ImportPath, fset, files, info)
	if err != nil {
		die("type check: %v", err)
	}

	r := &rewriter{fset: fset, info: info, pkg: pkg, fine: *mode == "fine", base: target.Dir}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	reset := r.resetFile(files) // before rewriting: needs original trees
	for i, f := range files {
		nf := r.file(f)
		clearPos(reflect.ValueOf(nf), map[uintptr]bool{})
		var buf bytes.Buffer
		if err := printer.Fprint(&buf, token.NewFileSet(), nf); err != nil {
			die("print: %v", err)
		}
		if err := os.WriteFile(filepath.Join(*out, target.GoFiles[i]), buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	must(os.WriteFile(filepath.Join(*out, "zz_sim_reset.go"), reset(), 0o644))
	sj, _ := json.Marshal(map[string]any{"sites": r.sites})
	must(os.WriteFile(filepath.Join(*out, "sites.json"), sj, 0o644))

	gomod, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	gm := string(gomod) + "\nrequire verifrt v0.0.0\nreplace verifrt => " + *rt + "\n"
	must(os.WriteFile(filepath.Join(*out, "go.mod"), []byte(gm), 0o644))
	if gs, err := os.ReadFile(filepath.Join(*src, "go.sum")); err == nil {
		must(os.WriteFile(filepath.Join(*out, "go.sum"), gs, 0o644))
	}
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func goarch() string {
	if a := os.Getenv("GOARCH"); a != "" {
		return a
	}
	return "amd64"
}

// clearPos zeroes positions so that the printer lays the tree out afresh.
func clearPos(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			clearPos(v.Elem(), seen)
		}
	case reflect.Pointer:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		if _, ok := v.Interface().(*ast.Object); ok {
			return
		}
		if _, ok := v.Interface().(*ast.Scope); ok {
			return
		}
		clearPos(v.Elem(), seen)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			clearPos(v.Index(i), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == reflect.TypeOf(token.Pos(0)) {
				switch v.Type().Field(i).Name {
				case "Ellipsis", "Assign":
					continue // meaningful when non-zero
				case "Lparen":
					if v.Type() == reflect.TypeOf(ast.GenDecl{}) {
						continue
					}
				case "Arrow":
					if v.Type() == reflect.TypeOf(ast.ChanType{}) {
						continue
					}
				case "Func":
					if v.Type() == reflect.TypeOf(ast.FuncType{}) {
						if f.Int() != 0 {
							f.SetInt(1)
						}
						continue
					}
				}
				if f.CanSet() {
					f.SetInt(0)
				}
				continue
			}
			if v.Type() == reflect.TypeOf(ast.File{}) {
				switch v.Type().Field(i).Name {
				case "Scope", "Unresolved", "Comments", "Imports", "FileStart", "FileEnd":
					continue
				}
			}
			clearPos(f, seen)
		}
	}
}

const rtName = "_simrt" // local name of verifrt/simrt in rewritten files

var importSubst = map[string]string{
	"sync/atomic": "verifrt/satomic",
	"sync":        "verifrt/ssync",
	"time":        "verifrt/stime",
	"runtime":     "verifrt/sruntime",
	"math/rand":   "verifrt/srand",
}

type rewriter struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	fine     bool
	base     string
	sites    []string
	shared   map[types.Object]bool
	fn       string
	tmpN     int
	usedRT   bool
	gotoLbl  map[string]bool
	nInit    int
	globalIn bool
}

func (r *rewriter) site(n ast.Node, kind string) ast.Expr {
	p := r.fset.Position(n.Pos())
	file := p.Filename
	if rel, err := filepath.Rel(r.base, file); err == nil {
		file = rel
	}
	r.sites = append(r.sites, fmt.Sprintf("%s:%d:%d %s %s", file, p.Line, p.Column, r.fn, kind))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(r.sites))}
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *rewriter) rt(name string) ast.Expr {
	r.usedRT = true
	return &ast.SelectorExpr{X: id(rtName), Sel: id(name)}
}

func (r *rewriter) rtCall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}

func (r *rewriter) tmp(p string) *ast.Ident {
	r.tmpN++
	return id("_" + p + strconv.Itoa(r.tmpN))
}

func addr(e ast.Expr) ast.Expr  { return &ast.UnaryExpr{Op: token.AND, X: e} }
func deref(e ast.Expr) ast.Expr { return &ast.StarExpr{X: e} }
func define(l, v ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}
}
func assign(l, v ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}
}

// under returns the underlying type, looking through type parameters with one core type.
func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		return coreOf(tp.Constraint().Underlying())
	}
	return t.Underlying()
}

func coreOf(t types.Type) types.Type {
	it, ok := t.(*types.Interface)
	if !ok {
		return t
	}
	var core types.Type
	for i := 0; i < it.NumEmbeddeds(); i++ {
		e := it.EmbeddedType(i)
		if u, ok := e.(*types.Union); ok {
			for k := 0; k < u.Len(); k++ {
				tu := u.Term(k).Type().Underlying()
				if core != nil && !types.Identical(core, tu) {
					return it
				}
				core = tu
			}
		} else {
			tu := coreOf(e.Underlying())
			if core != nil && !types.Identical(core, tu) {
				return it
			}
			core = tu
		}
	}
	if core == nil {
		return it
	}
	return core
}

func isAggregate(t types.Type) bool {
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.obj(i); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

func (r *rewriter) obj(i *ast.Ident) types.Object {
	if o := r.info.Uses[i]; o != nil {
		return o
	}
	return r.info.Defs[i]
}

func (r *rewriter) isVar(i *ast.Ident) (*types.Var, bool) {
	v, ok := r.obj(i).(*types.Var)
	return v, ok
}

func pkgLevel(v *types.Var) bool {
	return v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
}

// ---- which local variables may be shared between goroutines ----

func (r *rewriter) findShared(files []*ast.File) {
	r.shared = map[types.Object]bool{}
	var root func(e ast.Expr) // marks the variable at the root of an addressed path
	root = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.ParenExpr:
			root(e.X)
		case *ast.Ident:
			if v, ok := r.isVar(e); ok {
				r.shared[v] = true
			}
		case *ast.SelectorExpr:
			if _, isPtr := under(r.typeOf(e.X)).(*types.Pointer); !isPtr {
				root(e.X)
			}
		case *ast.IndexExpr:
			if _, isArr := under(r.typeOf(e.X)).(*types.Array); isArr {
				root(e.X)
			}
		}
	}
	for _, f := range files {
		var lits []*ast.FuncLit
		var stack []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				if _, ok := stack[len(stack)-1].(*ast.FuncLit); ok {
					lits = lits[:len(lits)-1]
				}
				stack = stack[:len(stack)-1]
				return true
			}
			stack = append(stack, n)
			switch n := n.(type) {
			case *ast.FuncLit:
				lits = append(lits, n)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					root(n.X)
				}
			case *ast.SliceExpr:
				if _, isArr := under(r.typeOf(n.X)).(*types.Array); isArr {
					root(n.X)
				}
			case *ast.SelectorExpr:
				if s := r.info.Selections[n]; s != nil && s.Kind() == types.MethodVal {
					if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
						_, pr := sig.Recv().Type().(*types.Pointer)
						_, px := under(r.typeOf(n.X)).(*types.Pointer)
						if pr && !px {
							root(n.X)
						}
					}
				}
			case *ast.Ident:
				if v, ok := r.info.Uses[n].(*types.Var); ok && !v.IsField() && !pkgLevel(v) {
					for _, l := range lits {
						if v.Pos() < l.Pos() || v.Pos() > l.End() {
							r.shared[v] = true
						}
					}
				}
			}
			return true
		})
	}
}

// ---- expressions ----

// loc rewrites an addressable expression without reading it. hook tells whether
// the location may be shared between goroutines. In coarse mode only package-level
// variables are hooked: other hooks would move variables to the heap, where the
// harness measures real allocation.
func (r *rewriter) loc(e ast.Expr) (ne ast.Expr, hook, ok bool) {
	ne, hook, ok = r.loc1(e)
	if hook && !r.fine {
		hook = false
		if i, isID := e.(*ast.Ident); isID {
			v, isv := r.isVar(i)
			hook = isv && pkgLevel(v)
		}
	}
	return
}

func (r *rewriter) loc1(e ast.Expr) (ne ast.Expr, hook, ok bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		x, h, ok := r.loc(e.X)
		return &ast.ParenExpr{X: x}, h, ok
	case *ast.Ident:
		v, isv := r.isVar(e)
		if !isv || e.Name == "_" {
			return e, false, false
		}
		return id(e.Name), pkgLevel(v) || r.shared[v], true
	case *ast.SelectorExpr:
		s := r.info.Selections[e]
		if s == nil { // qualified identifier
			if _, isv := r.info.Uses[e.Sel].(*types.Var); isv {
				return &ast.SelectorExpr{X: e.X, Sel: e.Sel}, true, true
			}
			return e, false, false
		}
		if s.Kind() != types.FieldVal {
			return e, false, false
		}
		if _, isPtr := under(r.typeOf(e.X)).(*types.Pointer); isPtr {
			return &ast.SelectorExpr{X: r.expr(e.X), Sel: id(e.Sel.Name)}, true, true
		}
		x, h, ok := r.loc(e.X)
		if !ok {
			return e, false, s.Indirect()
		}
		return &ast.SelectorExpr{X: x, Sel: id(e.Sel.Name)}, h || s.Indirect(), true
	case *ast.IndexExpr:
		switch t := under(r.typeOf(e.X)).(type) {
		case *types.Slice:
			return &ast.IndexExpr{X: r.expr(e.X), Index: r.expr(e.Index)}, r.fine, true
		case *types.Pointer:
			if _, isArr := under(t.Elem()).(*types.Array); isArr {
				return &ast.IndexExpr{X: r.expr(e.X), Index: r.expr(e.Index)}, r.fine, true
			}
		case *types.Array:
			x, h, ok := r.loc(e.X)
			if !ok {
				return e, false, false
			}
			return &ast.IndexExpr{X: x, Index: r.expr(e.Index)}, h && r.fine, true
		}
		return e, false, false
	case *ast.StarExpr:
		if r.info.Types[e].IsType() {
			return e, false, false
		}
		return &ast.StarExpr{X: r.expr(e.X)}, true, true
	}
	return e, false, false
}

func (r *rewriter) exprs(l []ast.Expr) []ast.Expr {
	var o []ast.Expr
	for _, e := range l {
		o = append(o, r.expr(e))
	}
	return o
}

// expr rewrites an expression that is read.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	tv, has := r.info.Types[e]
	if has && (tv.IsType() || tv.Value != nil || tv.IsNil() || tv.IsBuiltin()) {
		return e
	}
	switch x := e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		if sel, ok := x.(*ast.SelectorExpr); ok {
			if s := r.info.Selections[sel]; s != nil && s.Kind() != types.FieldVal {
				return r.methodSel(sel, s)
			}
		}
		if ne, hook, ok := r.loc(e); ok {
			if hook {
				name := "Rd"
				if isAggregate(r.typeOf(e)) {
					name = "RdS"
				}
				return r.rtCall(name, r.site(e, "read"), addr(ne))
			}
			return ne
		}
		switch x := e.(type) {
		case *ast.SelectorExpr:
			if r.info.Selections[x] != nil {
				return &ast.SelectorExpr{X: r.expr(x.X), Sel: x.Sel}
			}
		case *ast.IndexExpr:
			if xt := r.info.Types[x.X]; xt.IsValue() {
				switch under(xt.Type).(type) {
				case *types.Map:
					return &ast.IndexExpr{X: r.rtCall("MapR", r.site(e, "mapread"), r.expr(x.X)), Index: r.expr(x.Index)}
				case *types.Signature:
					return e
				}
				return &ast.IndexExpr{X: r.expr(x.X), Index: r.expr(x.Index)}
			}
		}
		return e
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.expr(x.X)}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if ne, _, ok := r.loc(x.X); ok {
				return addr(ne)
			}
			return addr(r.expr(x.X))
		case token.ARROW:
			return r.rtCall("Recv", r.site(e, "recv"), r.expr(x.X))
		}
		return &ast.UnaryExpr{Op: x.Op, X: r.expr(x.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: r.expr(x.X), Op: x.Op, Y: r.expr(x.Y)}
	case *ast.CallExpr:
		return r.call(x)
	case *ast.SliceExpr:
		var base ast.Expr
		if _, isArr := under(r.typeOf(x.X)).(*types.Array); isArr {
			if ne, _, ok := r.loc(x.X); ok {
				base = ne
			}
		}
		if base == nil {
			base = r.expr(x.X)
		}
		return &ast.SliceExpr{X: base, Low: r.expr(x.Low), High: r.expr(x.High), Max: r.expr(x.Max), Slice3: x.Slice3}
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: r.expr(x.X), Type: x.Type}
	case *ast.CompositeLit:
		return r.compLit(x)
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: x.Key, Value: r.expr(x.Value)}
	case *ast.FuncLit:
		return r.funcLit(x)
	case *ast.IndexListExpr, *ast.BasicLit, *ast.Ellipsis:
		return e
	}
	return e
}

func (r *rewriter) methodSel(x *ast.SelectorExpr, s *types.Selection) ast.Expr {
	if s.Kind() == types.MethodExpr {
		return x
	}
	sig := s.Obj().Type().(*types.Signature)
	_, pr := sig.Recv().Type().(*types.Pointer)
	_, px := under(r.typeOf(x.X)).(*types.Pointer)
	if pr && !px {
		if ne, _, ok := r.loc(x.X); ok {
			return &ast.SelectorExpr{X: ne, Sel: x.Sel}
		}
	}
	return &ast.SelectorExpr{X: r.expr(x.X), Sel: x.Sel}
}

func (r *rewriter) compLit(x *ast.CompositeLit) ast.Expr {
	n := &ast.CompositeLit{Type: x.Type}
	_, isMap := under(r.typeOf(x)).(*types.Map)
	for _, el := range x.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			k := kv.Key
			if isMap {
				k = r.expr(k)
			}
			n.Elts = append(n.Elts, &ast.KeyValueExpr{Key: k, Value: r.expr(kv.Value)})
		} else {
			n.Elts = append(n.Elts, r.expr(el))
		}
	}
	return n
}

func (r *rewriter) funcLit(x *ast.FuncLit) ast.Expr {
	og := r.gotoLbl
	nl := &ast.FuncLit{Type: x.Type, Body: r.funcBody(x.Body, x)}
	r.gotoLbl = og
	return nl
}

func (r *rewriter) funcBody(b *ast.BlockStmt, at ast.Node) *ast.BlockStmt {
	r.gotoLbl = map[string]bool{}
	ast.Inspect(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BranchStmt:
			if n.Tok == token.GOTO {
				r.gotoLbl[n.Label.Name] = true
			}
		}
		return true
	})
	nb := r.block(b)
	if !r.fine && len(b.List) <= 2 {
		return nb // keep tiny functions of the coarse variant cheap
	}
	pre := []ast.Stmt{
		&ast.DeferStmt{Call: r.rtCall("Leave", r.rtCall("Enter", r.site(at, "enter")))},
	}
	nb.List = append(pre, nb.List...)
	return nb
}

func (r *rewriter) builtinName(f ast.Expr) string {
	for {
		if p, ok := f.(*ast.ParenExpr); ok {
			f = p.X
			continue
		}
		break
	}
	switch i := f.(type) {
	case *ast.Ident:
		if b, ok := r.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	case *ast.SelectorExpr:
		if b, ok := r.info.Uses[i.Sel].(*types.Builtin); ok {
			return "unsafe." + b.Name()
		}
	}
	return ""
}

func (r *rewriter) isChan(e ast.Expr) bool {
	_, ok := under(r.typeOf(e)).(*types.Chan)
	return ok
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (r *rewriter) call(x *ast.CallExpr) ast.Expr {
	if r.info.Types[x.Fun].IsType() { // conversion
		return &ast.CallExpr{Fun: x.Fun, Args: r.exprs(x.Args)}
	}
	switch name := r.builtinName(x.Fun); name {
	case "":
	case "make":
		n := &ast.CallExpr{Fun: x.Fun, Args: append([]ast.Expr{x.Args[0]}, r.exprs(x.Args[1:])...)}
		switch under(r.typeOf(x)).(type) {
		case *types.Chan:
			return r.rtCall("MadeChan", r.site(x, "makechan"), n)
		case *types.Slice:
			return r.rtCall("MadeSlice", r.site(x, "makeslice"), n)
		}
		return n
	case "new":
		return x
	case "close":
		return r.rtCall("Close", r.site(x, "close"), r.expr(x.Args[0]))
	case "len", "cap":
		if r.isChan(x.Args[0]) {
			return r.rtCall(map[string]string{"len": "ChLen", "cap": "ChCap"}[name], r.expr(x.Args[0]))
		}
		if _, isArr := under(r.typeOf(x.Args[0])).(*types.Array); isArr {
			return x
		}
		return &ast.CallExpr{Fun: x.Fun, Args: r.exprs(x.Args)}
	case "copy":
		if r.fine && !isString(r.typeOf(x.Args[1])) {
			return r.rtCall("Copy", append([]ast.Expr{r.site(x, "copy")}, r.exprs(x.Args)...)...)
		}
	case "append":
		if !(len(x.Args) == 2 && x.Ellipsis != 0 && isString(r.typeOf(x.Args[1]))) && !r.info.Types[x.Args[0]].IsNil() {
			c := r.rtCall("Append", append([]ast.Expr{r.site(x, "append")}, r.exprs(x.Args)...)...)
			c.Ellipsis = x.Ellipsis
			return c
		}
	case "clear":
		if _, isMap := under(r.typeOf(x.Args[0])).(*types.Map); !isMap && r.fine {
			return r.rtCall("Clear", r.site(x, "clear"), r.expr(x.Args[0]))
		}
	case "delete":
		return &ast.CallExpr{Fun: x.Fun, Args: []ast.Expr{
			r.rtCall("MapW", r.site(x, "delete"), r.expr(x.Args[0])), r.expr(x.Args[1])}}
	default:
		n := &ast.CallExpr{Fun: x.Fun, Ellipsis: x.Ellipsis}
		for _, a := range x.Args {
			if strings.HasPrefix(name, "unsafe.") && (name == "unsafe.Sizeof" || name == "unsafe.Offsetof" || name == "unsafe.Alignof") {
				n.Args = append(n.Args, a)
			} else {
				n.Args = append(n.Args, r.expr(a))
			}
		}
		return n
	}
	nc := &ast.CallExpr{Fun: r.fun(x.Fun), Args: r.exprs(x.Args), Ellipsis: x.Ellipsis}
	if r.foreignSliceCall(x) {
		return r.rtCall("ExtSlice", r.site(x, "external slice"), nc)
	}
	return nc
}

// foreignSliceCall: a call into another package whose single result is a slice
// (slices.Clone and the like): its storage counts as an allocation unless it aliases.
func (r *rewriter) foreignSliceCall(x *ast.CallExpr) bool {
	var o types.Object
	switch f := x.Fun.(type) {
	case *ast.SelectorExpr:
		o = r.info.Uses[f.Sel]
	case *ast.IndexExpr:
		if s, ok := f.X.(*ast.SelectorExpr); ok {
			o = r.info.Uses[s.Sel]
		}
	}
	fn, ok := o.(*types.Func)
	if !ok || fn.Pkg() == nil || fn.Pkg() == r.pkg {
		return false
	}
	_, isSlice := r.typeOf(x).Underlying().(*types.Slice)
	return isSlice
}

func (r *rewriter) fun(f ast.Expr) ast.Expr {
	switch x := f.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.fun(x.X)}
	case *ast.Ident:
		if _, isv := r.isVar(x); isv {
			return r.expr(x)
		}
		return x
	case *ast.SelectorExpr:
		if r.info.Selections[x] != nil {
			return r.expr(x)
		}
		if _, isv := r.info.Uses[x.Sel].(*types.Var); isv {
			return r.expr(x)
		}
		return x
	}
	return r.expr(f)
}

// ---- statements ----

func (r *rewriter) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: r.stmts(b.List)}
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		if ls, ok := s.(*ast.LabeledStmt); ok {
			o = append(o, r.labeled(ls)...)
		} else {
			o = append(o, r.stmt(s, ""))
		}
	}
	return o
}

func (r *rewriter) tick(n ast.Node) ast.Stmt {
	return &ast.ExprStmt{X: r.rtCall("Tick", r.site(n, "loop"))}
}

func (r *rewriter) labeled(ls *ast.LabeledStmt) []ast.Stmt {
	lbl := ls.Label.Name
	switch ls.Stmt.(type) {
	case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
		return []ast.Stmt{r.stmt(ls.Stmt, lbl)}
	}
	out := []ast.Stmt{&ast.LabeledStmt{Label: ls.Label, Stmt: r.tick(ls)}}
	if inner, ok := ls.Stmt.(*ast.LabeledStmt); ok {
		return append(out, r.labeled(inner)...)
	}
	return append(out, r.stmt(ls.Stmt, ""))
}

func lab(lbl string, s ast.Stmt) ast.Stmt {
	if lbl == "" {
		return s
	}
	return &ast.LabeledStmt{Label: id(lbl), Stmt: s}
}

// simple rewrites a statement where only a simple statement may stand.
func (r *rewriter) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	n := r.stmt(s, "")
	if b, ok := n.(*ast.BlockStmt); ok {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Func: 1, Params: &ast.FieldList{}}, Body: b}}}
	}
	return n
}

func (r *rewriter) stmt(s ast.Stmt, lbl string) ast.Stmt {
	switch x := s.(type) {
	case *ast.ExprStmt:
		return &ast.ExprStmt{X: r.expr(x.X)}
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.rtCall("Send", r.site(x, "send"), r.expr(x.Chan)), Args: []ast.Expr{r.expr(x.Value)}}}
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		return r.opAssign(x, x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"}, true, x)
	case *ast.AssignStmt:
		return r.assign(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		c := r.call(x.Call)
		if ce, ok := c.(*ast.CallExpr); ok {
			return &ast.DeferStmt{Call: ce}
		}
		return &ast.DeferStmt{Call: x.Call}
	case *ast.ReturnStmt:
		return &ast.ReturnStmt{Results: r.exprs(x.Results)}
	case *ast.BranchStmt, *ast.EmptyStmt:
		return s
	case *ast.BlockStmt:
		return r.block(x)
	case *ast.IfStmt:
		n := &ast.IfStmt{Init: r.simple(x.Init), Cond: r.expr(x.Cond), Body: r.block(x.Body)}
		if x.Else != nil {
			n.Else = r.stmt(x.Else, "")
		}
		return n
	case *ast.ForStmt:
		n := &ast.ForStmt{Init: r.simple(x.Init), Cond: r.expr(x.Cond), Post: r.simple(x.Post), Body: r.block(x.Body)}
		n.Body.List = append([]ast.Stmt{r.tick(x)}, n.Body.List...)
		return lab(lbl, n)
	case *ast.RangeStmt:
		return r.rangeStmt(x, lbl)
	case *ast.SwitchStmt:
		n := &ast.SwitchStmt{Init: r.simple(x.Init), Tag: r.expr(x.Tag), Body: &ast.BlockStmt{}}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			n.Body.List = append(n.Body.List, &ast.CaseClause{List: r.exprs(cc.List), Body: r.stmts(cc.Body)})
		}
		return lab(lbl, n)
	case *ast.TypeSwitchStmt:
		n := &ast.TypeSwitchStmt{Init: r.simple(x.Init), Body: &ast.BlockStmt{}}
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			n.Assign = &ast.ExprStmt{X: r.expr(a.X)}
		case *ast.AssignStmt:
			n.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: r.exprs(a.Rhs)}
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			n.Body.List = append(n.Body.List, &ast.CaseClause{List: cc.List, Body: r.stmts(cc.Body)})
		}
		return lab(lbl, n)
	case *ast.SelectStmt:
		return r.selectStmt(x, lbl)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			ng := &ast.GenDecl{Tok: token.VAR, Lparen: g.Lparen}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				ng.Specs = append(ng.Specs, &ast.ValueSpec{Names: vs.Names, Type: vs.Type, Values: r.rhsList(vs.Values, len(vs.Names))})
			}
			return &ast.DeclStmt{Decl: ng}
		}
		return s
	case *ast.LabeledStmt:
		return &ast.BlockStmt{List: r.labeled(x)}
	}
	die("unhandled statement %T", s)
	return nil
}

// rhsList rewrites right-hand sides, taking care of comma-ok receive.
func (r *rewriter) rhsList(rhs []ast.Expr, nl int) []ast.Expr {
	if len(rhs) == 1 && nl == 2 {
		e := rhs[0]
		for {
			if p, ok := e.(*ast.ParenExpr); ok {
				e = p.X
				continue
			}
			break
		}
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return []ast.Expr{r.rtCall("Recv2", r.site(u, "recv"), r.expr(u.X))}
		}
	}
	return r.exprs(rhs)
}

func (r *rewriter) inlineable(e ast.Expr) bool {
	tv := r.info.Types[e]
	if tv.Value != nil || tv.IsNil() {
		return true
	}
	_, lit := e.(*ast.BasicLit)
	return lit
}

func (r *rewriter) untyped(e ast.Expr) bool {
	b, ok := r.typeOf(e).(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func (r *rewriter) wr(at ast.Node, p ast.Expr, t types.Type) ast.Expr {
	name := "W"
	if isAggregate(t) {
		name = "WS"
	}
	return deref(r.rtCall(name, r.site(at, "write"), p))
}

func (r *rewriter) opAssign(at ast.Node, lhs ast.Expr, op token.Token, rhs ast.Expr, incdec bool, orig ast.Stmt) ast.Stmt {
	nr := rhs
	if !incdec {
		nr = r.expr(rhs)
	}
	if ix, ok := lhs.(*ast.IndexExpr); ok {
		if _, isMap := under(r.typeOf(ix.X)).(*types.Map); isMap {
			l := &ast.IndexExpr{X: r.rtCall("MapW", r.site(at, "mapwrite"), r.expr(ix.X)), Index: r.expr(ix.Index)}
			if incdec {
				return &ast.IncDecStmt{X: l, Tok: orig.(*ast.IncDecStmt).Tok}
			}
			return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: orig.(*ast.AssignStmt).Tok, Rhs: []ast.Expr{nr}}
		}
	}
	ne, hook, ok := r.loc(lhs)
	if !ok || !hook {
		if !ok {
			ne = lhs
		}
		if incdec {
			return &ast.IncDecStmt{X: ne, Tok: orig.(*ast.IncDecStmt).Tok}
		}
		return &ast.AssignStmt{Lhs: []ast.Expr{ne}, Tok: orig.(*ast.AssignStmt).Tok, Rhs: []ast.Expr{nr}}
	}
	b := &ast.BlockStmt{}
	p, t := r.tmp("p"), r.tmp("t")
	b.List = append(b.List, define(p, addr(ne)))
	if !incdec && !r.inlineable(rhs) {
		v := r.tmp("v")
		b.List = append(b.List, define(v, nr))
		nr = v
	}
	ty := r.typeOf(lhs)
	b.List = append(b.List, define(t, r.rtCall("Rd", r.site(at, "read"), p)),
		assign(r.wr(at, p, ty), &ast.BinaryExpr{X: t, Op: op, Y: nr}))
	return b
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
	token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}

func (r *rewriter) assign(x *ast.AssignStmt) ast.Stmt {
	if x.Tok == token.DEFINE {
		return &ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, Rhs: r.rhsList(x.Rhs, len(x.Lhs))}
	}
	if op, ok := opOf[x.Tok]; ok {
		return r.opAssign(x, x.Lhs[0], op, x.Rhs[0], false, x)
	}
	// plain =
	type dst struct {
		e    ast.Expr
		hook bool
	}
	var ds []dst
	any := false
	for _, l := range x.Lhs {
		ul := l
		for {
			if p, ok := ul.(*ast.ParenExpr); ok {
				ul = p.X
				continue
			}
			break
		}
		if ix, ok := ul.(*ast.IndexExpr); ok {
			if _, isMap := under(r.typeOf(ix.X)).(*types.Map); isMap {
				ds = append(ds, dst{&ast.IndexExpr{X: r.rtCall("MapW", r.site(l, "mapwrite"), r.expr(ix.X)), Index: r.expr(ix.Index)}, false})
				continue
			}
		}
		ne, hook, ok := r.loc(ul)
		if !ok {
			ne, hook = l, false
		}
		any = any || hook
		ds = append(ds, dst{ne, hook})
	}
	rhs := r.rhsList(x.Rhs, len(x.Lhs))
	if !any {
		n := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: rhs}
		for _, d := range ds {
			n.Lhs = append(n.Lhs, d.e)
		}
		return n
	}
	b := &ast.BlockStmt{}
	for i := range ds {
		if ds[i].hook {
			p := r.tmp("p")
			b.List = append(b.List, define(p, addr(ds[i].e)))
			ds[i].e = p
		}
	}
	vals := make([]ast.Expr, len(ds))
	if len(x.Rhs) == len(x.Lhs) {
		def := &ast.AssignStmt{Tok: token.DEFINE}
		for i, e := range x.Rhs {
			if r.inlineable(e) || r.untyped(e) {
				vals[i] = rhs[i]
				continue
			}
			v := r.tmp("v")
			vals[i] = v
			def.Lhs = append(def.Lhs, v)
			def.Rhs = append(def.Rhs, rhs[i])
		}
		if len(def.Lhs) > 0 {
			b.List = append(b.List, def)
		}
	} else {
		def := &ast.AssignStmt{Tok: token.DEFINE, Rhs: rhs}
		for i := range ds {
			v := r.tmp("v")
			vals[i] = v
			def.Lhs = append(def.Lhs, v)
		}
		b.List = append(b.List, def)
	}
	for i, d := range ds {
		l := d.e
		if d.hook {
			l = r.wr(x.Lhs[i], d.e, r.typeOf(x.Lhs[i]))
		}
		b.List = append(b.List, assign(l, vals[i]))
	}
	return b
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	b := &ast.BlockStmt{}
	c := x.Call
	st := r.site(x, "go")
	name := r.builtinName(c.Fun)
	nc := &ast.CallExpr{Ellipsis: c.Ellipsis}
	if name != "" {
		die("go %s: unsupported", name)
	}
	// function value
	switch f := c.Fun.(type) {
	case *ast.Ident:
		if _, isv := r.isVar(f); isv {
			v := r.tmp("f")
			b.List = append(b.List, define(v, r.expr(f)))
			nc.Fun = v
		} else {
			nc.Fun = f
		}
	case *ast.FuncLit:
		v := r.tmp("f")
		b.List = append(b.List, define(v, r.funcLit(f)))
		nc.Fun = v
	default:
		nf := r.fun(c.Fun)
		v := r.tmp("f")
		b.List = append(b.List, define(v, nf))
		nc.Fun = v
	}
	for _, a := range c.Args {
		if r.inlineable(a) || r.untyped(a) {
			nc.Args = append(nc.Args, r.expr(a))
			continue
		}
		v := r.tmp("a")
		b.List = append(b.List, define(v, r.expr(a)))
		nc.Args = append(nc.Args, v)
	}
	b.List = append(b.List, &ast.ExprStmt{X: r.rtCall("Go", st, &ast.FuncLit{
		Type: &ast.FuncType{Func: 1, Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})})
	return b
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt, lbl string) ast.Stmt {
	t := under(r.typeOf(x.X))
	if _, ok := t.(*types.Chan); ok {
		// for { v, ok := Recv2(ch); if !ok {break}; body }
		ch := r.tmp("ch")
		v, okv := r.tmp("v"), r.tmp("ok")
		body := r.block(x.Body)
		var pre []ast.Stmt
		var lv ast.Expr = v
		if x.Key == nil || isBlank(x.Key) {
			lv = id("_")
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{lv, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{r.rtCall("Recv2", r.site(x, "recv"), ch)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: okv}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		if lv == ast.Expr(v) {
			if x.Tok == token.DEFINE {
				pre = append(pre, define(x.Key, v), assign(id("_"), x.Key))
			} else {
				pre = append(pre, assign(x.Key, v))
			}
		}
		body.List = append(pre, body.List...)
		f := &ast.ForStmt{Body: body}
		return &ast.BlockStmt{List: []ast.Stmt{define(ch, r.expr(x.X)), lab(lbl, f)}}
	}
	n := &ast.RangeStmt{Key: x.Key, Value: x.Value, Tok: x.Tok, Body: r.block(x.Body)}
	var xe ast.Expr
	if _, isArr := t.(*types.Array); isArr {
		if ne, _, ok := r.loc(x.X); ok {
			xe = ne
		}
	}
	if xe == nil {
		xe = r.expr(x.X)
	}
	n.X = xe
	n.Body.List = append([]ast.Stmt{r.tick(x)}, n.Body.List...)
	if _, isSlice := t.(*types.Slice); isSlice && r.fine && x.Value != nil && !isBlank(x.Value) && x.Tok == token.DEFINE && (lbl == "" || !r.gotoLbl[lbl]) {
		// for i, v := range s  =>  { _s := s; for i := range _s { v := Rd(&_s[i]); ... } }
		s := r.tmp("s")
		key := x.Key
		if key == nil || isBlank(key) {
			key = r.tmp("i")
		}
		n.Key, n.Value, n.X = key, nil, s
		n.Body.List = append([]ast.Stmt{define(x.Value, r.rtCall("Rd", r.site(x, "read"), addr(&ast.IndexExpr{X: s, Index: key}))), assign(id("_"), x.Value)}, n.Body.List...)
		return &ast.BlockStmt{List: []ast.Stmt{define(s, xe), lab(lbl, n)}}
	}
	return lab(lbl, n)
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, lbl string) ast.Stmt {
	sel := r.tmp("sel")
	hasDef := "false"
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var pre []ast.Stmt
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body := r.stmts(cc.Body)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: body})
			continue
		}
		var head []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			cases = append(cases, &ast.CallExpr{Fun: r.rtCall("CaseSend", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}})
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			cases = append(cases, r.rtCall("CaseRecv", r.expr(u.X)))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			ch := r.tmp("ch")
			pre = append(pre, define(ch, r.expr(u.X)))
			cases = append(cases, r.rtCall("CaseRecv", ch))
			fn := "SelVal"
			if len(cm.Lhs) == 2 {
				fn = "SelVal2"
			}
			head = append(head, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: []ast.Expr{r.rtCall(fn, sel, ch)}})
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: append(head, body...)})
		idx++
	}
	pre = append(pre, define(sel, r.rtCall("Select", append([]ast.Expr{r.site(x, "select"), id(hasDef)}, cases...)...)))
	sw.Tag = &ast.SelectorExpr{X: sel, Sel: id("Idx")}
	return &ast.BlockStmt{List: append(pre, lab(lbl, sw))}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// ---- files ----

func (r *rewriter) file(f *ast.File) *ast.File {
	r.usedRT = false
	nf := &ast.File{Name: f.Name}
	imports := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				for _, s := range d.Specs {
					is := s.(*ast.ImportSpec)
					p, _ := strconv.Unquote(is.Path.Value)
					ns := &ast.ImportSpec{Name: is.Name, Path: is.Path}
					if sub := importSubst[p]; sub != "" {
						if ns.Name == nil {
							ns.Name = id(filepath.Base(p))
						}
						ns.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(sub)}
					}
					imports.Specs = append(imports.Specs, ns)
				}
				continue
			}
			if d.Tok == token.VAR {
				ng := &ast.GenDecl{Tok: token.VAR, Lparen: d.Lparen}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					r.fn = "init"
					ng.Specs = append(ng.Specs, &ast.ValueSpec{Names: vs.Names, Type: vs.Type, Values: r.rhsList(vs.Values, len(vs.Names))})
				}
				nf.Decls = append(nf.Decls, ng)
				continue
			}
			nf.Decls = append(nf.Decls, d)
		case *ast.FuncDecl:
			r.fn = d.Name.Name
			nd := &ast.FuncDecl{Recv: d.Recv, Name: d.Name, Type: d.Type}
			if d.Recv == nil && d.Name.Name == "init" {
				r.nInit++
				nd.Name = id("_simInit" + strconv.Itoa(r.nInit))
			}
			if d.Body == nil {
				die("function %s without body", d.Name.Name)
			}
			nd.Body = r.funcBody(d.Body, d)
			nf.Decls = append(nf.Decls, nd)
		}
	}
	imports.Specs = append(imports.Specs, &ast.ImportSpec{Name: id(rtName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifrt/simrt"`}})
	use := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: id(rtName), Sel: id("Tick")}}}}}
	nf.Decls = append([]ast.Decl{imports}, append(nf.Decls, use)...)
	return nf
}

// resetFile prepares a file with SimReset__, which brings all package variables back
// to their state at program start, so that runs in one process are independent.
func (r *rewriter) resetFile(files []*ast.File) func() []byte {
	r.findShared(files)
	inits := 0
	type vinfo struct {
		spec *ast.ValueSpec
		file *ast.File
	}
	specOf := map[types.Object]vinfo{}
	var order []types.Object
	for _, f := range files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for _, n := range vs.Names {
							if n.Name != "_" {
								o := r.info.Defs[n]
								specOf[o] = vinfo{vs, f}
								order = append(order, o)
							}
						}
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					inits++
				}
			}
		}
	}
	return func() []byte {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n", r.pkg.Name())
		b.WriteString("func init() {\n")
		for i := 1; i <= inits; i++ {
			fmt.Fprintf(&b, "\t_simInit%d()\n", i)
		}
		b.WriteString("}\n\nfunc _zero[T any](p *T) { var z T; *p = z }\n\n")
		b.WriteString("// SimReset__ restores the package variables to their initial state.\nfunc SimReset__() { _simStart(func() {}, false) }\n\n")
		b.WriteString("// SimInit__ starts the package anew; set is called after every initialised variable.\n")
		b.WriteString("func SimInit__(set func()) { _simStart(set, true) }\n\nfunc _simStart(set func(), blank bool) {\n")
		sort.SliceStable(order, func(i, k int) bool { return order[i].Name() < order[k].Name() })
		for _, o := range order {
			fmt.Fprintf(&b, "\t_zero(&%s)\n", o.Name())
		}
		b.WriteString("\tset()\n\t_simInitVars(set, blank)\n")
		for i := 1; i <= inits; i++ {
			fmt.Fprintf(&b, "\t_simInit%d()\n", i)
		}
		b.WriteString("}\n\nfunc _simInitVars(set func(), blank bool) {\n")
		imp := map[string]string{}
		for _, in := range r.info.InitOrder {
			if len(in.Lhs) == 0 {
				continue
			}
			var names []string
			blank := true
			for _, l := range in.Lhs {
				names = append(names, l.Name())
				if l.Name() != "_" {
					blank = false
				}
			}
			r.fn = "init"
			e := r.expr(in.Rhs)
			vi := specOf[in.Lhs[0]]
			if vi.file != nil {
				for _, is := range vi.file.Imports {
					p, _ := strconv.Unquote(is.Path.Value)
					name := filepath.Base(p)
					if is.Name != nil {
						name = is.Name.Name
					}
					if sub := importSubst[p]; sub != "" {
						p = sub
					}
					used := false
					ast.Inspect(in.Rhs, func(n ast.Node) bool {
						if s, ok := n.(*ast.SelectorExpr); ok {
							if i, ok := s.X.(*ast.Ident); ok {
								if pn, ok := r.info.Uses[i].(*types.PkgName); ok && (pn.Name() == name) {
									used = true
								}
							}
						}
						return true
					})
					if used {
						imp[name] = p
					}
				}
			}
			clearPos(reflect.ValueOf(e), map[uintptr]bool{})
			var eb bytes.Buffer
			if err := printer.Fprint(&eb, token.NewFileSet(), e); err != nil {
				die("print: %v", err)
			}
			if blank {
				fmt.Fprintf(&b, "\tif blank {\n\t\t%s = %s\n\t}\n", strings.Join(names, ", "), eb.String())
			} else {
				fmt.Fprintf(&b, "\t%s = %s\n\tset()\n", strings.Join(names, ", "), eb.String())
			}
		}
		b.WriteString("}\n")
		body := b.String()
		var ib strings.Builder
		ib.WriteString("\nimport (\n\t" + rtName + " \"verifrt/simrt\"\n")
		var ks []string
		for k := range imp {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&ib, "\t%s %q\n", k, imp[k])
		}
		ib.WriteString(")\n\nvar _ = " + rtName + ".Tick\n")
		i := strings.Index(body, "\n")
		return []byte(body[:i] + "\n" + ib.String() + body[i:])
	}
}
