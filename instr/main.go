// Command instr rewrites a Go program so that every source of nondeterminism
// goes through the simulation runtime (simrt): goroutines, channels, select,
// locks, clocks, timers, map order, randomness, network, disk, HTTP, process
// exit. It copies the packages under test and the dependencies that block or do
// I/O into one generated module; the originals are never touched.
//
// usage: instr -src COPY_OF_REPO -verif /verif -out GEN
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/iomz/gosstrak"
const rt = modPath + "/verif/simrt"

// dependencies that are copied and instrumented
var depPrefixes = []string{
	"github.com/looplab/fsm",
	"github.com/iomz/go-llrp",
	"github.com/influxdata/influxdb1-client",
	"github.com/moby/spdystream",
	"github.com/alecthomas/kingpin/v2",
	"gopkg.in/alecthomas/kingpin.v2",
}

// standard packages with a simulated replacement
var shims = map[string]string{
	"sync": "xsync", "time": "xtime", "net": "xnet", "os": "xos", "log": "xlog", "fmt": "xfmt",
	"math/rand": "xrand", "context": "xcontext", "reflect": "xreflect", "runtime": "xruntime",
	"net/http": "xhttp", "io/ioutil": "xioutil", "os/signal": "xsignal",
	"maps": "xmaps", "math/rand/v2": "xrandv2",
}

type goPkg struct {
	Dir, ImportPath, Name, Export string
	Standard                      bool
	GoFiles                       []string
	Imports                       []string
	ImportMap                     map[string]string
	Module                        *struct{ Path, Version, GoVersion string }
	Error                         *struct{ Err string }
	DepsErrors                    []*struct{ Err string }
}

var (
	src, verif, out string
	pkgs            = map[string]*goPkg{}
	order           []string
	sites           []string
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func isDep(p string) bool {
	for _, d := range depPrefixes {
		if p == d || strings.HasPrefix(p, d+"/") {
			return true
		}
	}
	return false
}

func isRepo(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

// newPath is the import path of a package inside the generated module.
func newPath(p string) string {
	if isDep(p) {
		return modPath + "/verifdeps/" + p
	}
	return p
}

func main() {
	flag.StringVar(&src, "src", "", "")
	flag.StringVar(&verif, "verif", "", "")
	flag.StringVar(&out, "out", "", "")
	flag.Parse()
	args := append([]string{"list", "-deps", "-export", "-json=Dir,ImportPath,Name,Export,Standard,GoFiles,Imports,ImportMap,Module,Error,DepsErrors"}, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Dir = src
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &goPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p.ImportPath)
	}
	sites = append(sites, "-")
	var repo []string
	for _, ip := range order {
		if isRepo(ip) || isDep(ip) {
			instrument(pkgs[ip])
			if isRepo(ip) {
				repo = append(repo, ip)
			}
		}
	}
	copyTree(filepath.Join(verif, "simrt"), filepath.Join(out, "verif/simrt"))
	copyTree(filepath.Join(verif, "runner"), filepath.Join(out, "verif/runner"))
	for std, d := range shims {
		reexport(std, filepath.Join(out, "verif/simrt", d))
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package simrt\n\nfunc init() {\n\tSiteNames = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	fmt.Fprintf(&b, "\t}\n}\n")
	put(filepath.Join(out, "verif/simrt/zz_sites.go"), b.Bytes())
	// registry of the packages under test
	b.Reset()
	fmt.Fprintf(&b, "package main\n\nimport (\n")
	sort.Strings(repo)
	byDeps := []string{}
	for _, ip := range order {
		if isRepo(ip) {
			byDeps = append(byDeps, ip)
		}
	}
	for i, ip := range byDeps {
		fmt.Fprintf(&b, "\tp%d %q\n", i, ip)
	}
	fmt.Fprintf(&b, ")\n\nfunc init() {\n")
	for i, ip := range byDeps {
		fmt.Fprintf(&b, "\tresets = append(resets, p%d.VerifReset)\n", i)
		if pkgs[ip].Name == "main" {
			fmt.Fprintf(&b, "\tmains[%q] = p%d.VerifMain\n", filepath.Base(ip), i)
		}
	}
	fmt.Fprintf(&b, "}\n")
	put(filepath.Join(out, "verif/runner/zz_registry.go"), b.Bytes())
	gomod()
}

func put(p string, data []byte) {
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		die("%v", err)
	}
	if old, err := os.ReadFile(p); err == nil && bytes.Equal(old, data) {
		return
	}
	if err := os.WriteFile(p, data, 0644); err != nil {
		die("%v", err)
	}
}

func copyTree(from, to string) {
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		for _, d := range depPrefixes {
			for _, end := range []string{"\"", "/"} {
				data = bytes.ReplaceAll(data, []byte("\""+d+end), []byte("\""+newPath(d)+end))
			}
		}
		put(filepath.Join(to, rel), data)
		return nil
	})
	if err != nil {
		die("%v", err)
	}
}

// gomod writes a go.mod that needs only what stays uninstrumented.
func gomod() {
	req := map[string]string{}
	for _, p := range pkgs {
		if p.Standard || isRepo(p.ImportPath) || isDep(p.ImportPath) || p.Module == nil {
			continue
		}
		req[p.Module.Path] = p.Module.Version
	}
	var ks []string
	for k := range req {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b bytes.Buffer
	fmt.Fprintf(&b, "module %s\n\ngo 1.24\n\n", modPath)
	for _, k := range ks {
		fmt.Fprintf(&b, "require %s %s\n", k, req[k])
	}
	put(filepath.Join(out, "go.mod"), b.Bytes())
	if s, err := os.ReadFile(filepath.Join(src, "go.sum")); err == nil {
		put(filepath.Join(out, "go.sum"), s)
	}
}

func lookup(im map[string]string) importer.Lookup {
	return func(path string) (io.ReadCloser, error) {
		if m, ok := im[path]; ok {
			path = m
		}
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	}
}

// ---- shims ----

func reexport(std, dir string) {
	fset := token.NewFileSet()
	have := map[string]bool{}
	ents, err := os.ReadDir(dir)
	if err != nil {
		die("%v", err)
	}
	name := ""
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || e.Name() == "zz_reexport.go" {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			die("%v", err)
		}
		name = f.Name.Name
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	p := pkgs[std]
	if p == nil {
		// not used by the program at all: nothing to redirect, but the shim
		// packages import each other, so give it the minimum
		p = listOne(std)
	}
	tp, err := importer.ForCompiler(fset, "gc", lookup(nil)).Import(std)
	if err != nil {
		die("import %s: %v", std, err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport std %q\n\n", name, std)
	n := 0
	for _, id := range tp.Scope().Names() {
		o := tp.Scope().Lookup(id)
		if !o.Exported() || have[id] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", id, id)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", id, id)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", id, id)
		case *types.TypeName:
			if nm, ok := o.Type().(*types.Named); ok && nm.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = std.%s\n", id, id)
		}
		n++
	}
	if n == 0 {
		b.Reset()
		fmt.Fprintf(&b, "package %s\n", name)
	}
	put(filepath.Join(dir, "zz_reexport.go"), b.Bytes())
}

func listOne(std string) *goPkg {
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=Dir,ImportPath,Name,Export,Standard", std)
	cmd.Dir = src
	data, err := cmd.Output()
	if err != nil {
		die("go list %s: %v", std, err)
	}
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &goPkg{}
		if err := dec.Decode(p); err != nil {
			break
		}
		if pkgs[p.ImportPath] == nil {
			pkgs[p.ImportPath] = p
		}
	}
	return pkgs[std]
}

// ---- instrumentation of one package ----

type pkgRW struct {
	p     *goPkg
	fset  *token.FileSet
	info  *types.Info
	tpkg  *types.Package
	full  bool // statement-level preemption
	rtIn  map[*ast.File]bool

	file *ast.File
	base string
	two  map[ast.Expr]bool // receives in v, ok form
	fn   string
	lits []*ast.FuncLit
	tmp  int
}

func instrument(p *goPkg) {
	r := &pkgRW{p: p, fset: token.NewFileSet(), rtIn: map[*ast.File]bool{}}
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(r.fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
	}
	r.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(r.fset, "gc", lookup(p.ImportMap)), Error: func(error) {}}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	tp, err := conf.Check(p.ImportPath, r.fset, files, r.info)
	if err != nil {
		die("type checking %s: %v", p.ImportPath, err)
	}
	r.tpkg = tp
	if isRepo(p.ImportPath) {
		rel := strings.TrimPrefix(p.ImportPath, modPath+"/")
		r.full = !strings.HasPrefix(rel, "tdt") && !strings.HasPrefix(rel, "scheme")
	}
	name := p.Name
	if name == "main" {
		name = "main_" + strings.Map(func(c rune) rune {
			if c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
				return c
			}
			return '_'
		}, filepath.Base(p.ImportPath))
	}
	outDir := filepath.Join(out, strings.TrimPrefix(newPath(p.ImportPath), modPath))
	var inits []string
	for i, f := range files {
		r.file = f
		r.base = p.GoFiles[i]
		r.two = map[ast.Expr]bool{}
		f.Comments = nil
		f.Doc = nil
		f.Name = ast.NewIdent(name)
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				d.Doc = nil
				r.fn = d.Name.Name
				if d.Recv != nil && len(d.Recv.List) == 1 {
					r.fn = recvName(d.Recv.List[0].Type) + "." + r.fn
				}
				if d.Recv == nil && d.Name.Name == "init" && isRepo(p.ImportPath) {
					n := fmt.Sprintf("verifInit%d", len(inits))
					d.Name = ast.NewIdent(n)
					inits = append(inits, n)
				}
				if d.Recv == nil && d.Name.Name == "main" && p.Name == "main" {
					d.Name = ast.NewIdent("VerifMain")
				}
				if d.Body != nil {
					r.walk(d.Body)
				}
			case *ast.GenDecl:
				d.Doc = nil
				if d.Tok == token.IMPORT {
					continue
				}
				r.fn = "package"
				r.walk(d)
			}
		}
	}
	if isRepo(p.ImportPath) {
		r.reset(files, inits)
	}
	for i, f := range files {
		r.imports(f)
		r.write(f, filepath.Join(outDir, p.GoFiles[i]))
	}
}

func recvName(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.StarExpr:
		return recvName(e.X)
	case *ast.Ident:
		return e.Name
	case *ast.IndexExpr:
		return recvName(e.X)
	}
	return "?"
}

func (r *pkgRW) write(f *ast.File, path string) {
	var b bytes.Buffer
	clearPos(f)
	if err := (&printer.Config{Mode: printer.TabIndent, Tabwidth: 8}).Fprint(&b, token.NewFileSet(), f); err != nil {
		die("print %s: %v", path, err)
	}
	put(path, b.Bytes())
}

func (r *pkgRW) imports(f *ast.File) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			is.Doc, is.Comment = nil, nil
			p := strings.Trim(is.Path.Value, "\"`")
			if m, ok := r.p.ImportMap[p]; ok {
				p = m
			}
			np := newPath(p)
			if sh, ok := shims[p]; ok {
				np = rt + "/" + sh
			}
			if np != p {
				if is.Name == nil && pkgs[p] != nil {
					is.Name = ast.NewIdent(pkgs[p].Name)
				}
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", np)}
			}
		}
		// one import per declaration keeps the printer simple
	}
	if r.rtIn[f] {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("simrt_"), Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", rt)}}}}}, f.Decls...)
	}
}

// reset generates VerifReset, which puts the package variables back to their
// initial values and runs the init functions again.
func (r *pkgRW) reset(files []*ast.File, inits []string) {
	type def struct {
		f    *ast.File
		spec *ast.ValueSpec
		i    int
	}
	defs := map[types.Object]def{}
	var zero []ast.Stmt
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if o := r.info.Defs[n]; o != nil && n.Name != "_" {
						defs[o] = def{f, vs, i}
						if len(vs.Values) == 0 {
							zero = append(zero, stmtOf(call(sel("simrt_", "Zero"), &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(n.Name)})))
						}
					}
				}
			}
		}
	}
	last := files[len(files)-1]
	body := zero
	if len(zero) > 0 {
		r.rtIn[last] = true
	}
	for k, in := range r.info.InitOrder {
		var d def
		ok := false
		for _, l := range in.Lhs {
			if x, has := defs[l]; has {
				d, ok = x, true
			}
		}
		if !ok {
			continue
		}
		var lhs []ast.Expr
		for _, l := range in.Lhs {
			lhs = append(lhs, ast.NewIdent(l.Name()))
		}
		rhs := d.spec.Values[0]
		if len(d.spec.Values) > 1 {
			rhs = d.spec.Values[d.i]
		}
		fn := fmt.Sprintf("verifReset%d", k)
		d.f.Decls = append(d.f.Decls, fnDecl(fn, []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}))
		body = append(body, stmtOf(call(ast.NewIdent(fn))))
	}
	var initBody []ast.Stmt
	for _, n := range inits {
		initBody = append(initBody, stmtOf(call(ast.NewIdent(n))))
	}
	if len(inits) > 0 {
		last.Decls = append(last.Decls, fnDecl("init", initBody))
	}
	last.Decls = append(last.Decls, fnDecl("VerifReset", append(body, initBody...)))
}

func fnDecl(name string, body []ast.Stmt) *ast.FuncDecl {
	return &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func stmtOf(e ast.Expr) ast.Stmt                      { return &ast.ExprStmt{X: e} }
func sel(p, n string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(p), Sel: ast.NewIdent(n)}
}
func num(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)} }
