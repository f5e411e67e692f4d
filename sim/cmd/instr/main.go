// Command instr rewrites the Go sources of the code under test so that it runs
// under the simulator: imports of sync, time, context and friends are redirected
// to simulated versions, and goroutine starts, channel operations, map iterations
// and shared memory accesses become calls of the simulation runtime. It writes the
// rewritten files to a scratch directory together with an overlay for go build;
// the sources themselves are left alone.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	simMod = "verif.local/sim"
	rtName = "_simrt"
	osName = "_simos"
)

// redirected imports
var redirect = map[string]string{
	"sync":        simMod + "/ssync",
	"sync/atomic": simMod + "/satomic",
	"time":        simMod + "/stime",
	"context":     simMod + "/sctx",
}

// gonum packages that hold shared mutable state: instrumented copies are used.
var copied = map[string]string{
	"gonum.org/v1/gonum/graph/simple":       simMod + "/gen/gsimple",
	"gonum.org/v1/gonum/graph/iterator":     simMod + "/gen/giterator",
	"gonum.org/v1/gonum/graph/set/uid":      simMod + "/gen/guid",
	"gonum.org/v1/gonum/graph/internal/set": simMod + "/gen/gset",
	"github.com/google/uuid":                simMod + "/gen/guuid",
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Error      *struct{ Err string }
}

var (
	level   = flag.Int("level", 3, "3: everything; 2: no memory accesses; 1: no output redirection either")
	outDir  = flag.String("out", "", "scratch directory")
	modDir  = flag.String("mod", ".", "directory of the simulator module")
	target  = flag.String("target", "github.com/milosgajdos/netscrape", "module under test")
	verbose = flag.Bool("v", false, "")
)

func main() {
	flag.Parse()
	if err := run(); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func run() error {
	if err := os.MkdirAll(*outDir, 0o755); err != nil {
		return err
	}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Error", *target + "/..."}
	args = append(args, sortedKeys(copied)...) // also when the code under test no longer uses them
	cmd := exec.Command("go", args...)
	cmd.Dir = *modDir
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	pkgs := map[string]*listPkg{}
	var order []string
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		pkgs[p.ImportPath] = &p
		order = append(order, p.ImportPath)
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	overlay := map[string]string{}
	words := newDictionary()
	simAbs, err := filepath.Abs(*modDir)
	if err != nil {
		return err
	}
	for _, path := range order {
		p := pkgs[path]
		isTarget := path == *target || strings.HasPrefix(path, *target+"/")
		gen, isCopy := copied[path]
		if !isTarget && !isCopy {
			continue
		}
		if p.Error != nil {
			return fmt.Errorf("%s: %s", path, p.Error.Err)
		}
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			if isCopy && (strings.HasPrefix(f, "dense_") || f == "nodes_map_safe.go" || f == "doc.go" || f == "lines.go") {
				continue
			}
			full := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, full, nil, parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			files = append(files, af)
			names = append(names, full)
		}
		if isCopy && path == "gonum.org/v1/gonum/graph/iterator" {
			src := iterSrc
			af, err := parser.ParseFile(fset, "giterator_maps.go", src, parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			files = append(files, af)
			names = append(names, "giterator_maps.go")
		}
		info := &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits:  map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
		if isCopy {
			conf.Error = func(error) {}
		}
		tp, err := conf.Check(path, fset, files, info)
		if err != nil && !isCopy {
			return fmt.Errorf("type-checking %s: %v", path, err)
		}
		if isTarget && !strings.Contains(path, "/internal") {
			words.collect(files, info)
		}
		pk := &pkgCtx{fset: fset, info: info, pkg: tp, files: files, level: *level, own: !isCopy}
		if gen == simMod+"/gen/guuid" {
			pk.level = min(pk.level, 2)
		}
		pk.analyse()
		for i, af := range files {
			src, err := pk.file(af)
			if err != nil {
				return fmt.Errorf("%s: %v", names[i], err)
			}
			base := strings.ReplaceAll(strings.ReplaceAll(path, "/", "_"), ".", "_") + "__" + filepath.Base(names[i])
			dst := filepath.Join(*outDir, base)
			if err := os.WriteFile(dst, src, 0o644); err != nil {
				return err
			}
			key := names[i]
			if isCopy {
				key = filepath.Join(simAbs, strings.TrimPrefix(gen, simMod+"/"), filepath.Base(names[i]))
			}
			overlay[key] = dst
		}
	}
	dst := filepath.Join(*outDir, "dictionary.go")
	if err := os.WriteFile(dst, words.source(), 0o644); err != nil {
		return err
	}
	overlay[filepath.Join(simAbs, "dict", "dict.go")] = dst
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	return os.WriteFile(filepath.Join(*outDir, "overlay.json"), b, 0o644)
}

type pkgCtx struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	files   []*ast.File
	level   int
	own     bool                  // of the repository under test
	tracked map[types.Object]bool // variables shared with closures, or package-level, that change
}

// analyse finds the variables whose accesses have to be observed.
func (p *pkgCtx) analyse() {
	p.tracked = map[types.Object]bool{}
	if p.level < 3 {
		return
	}
	captured := map[types.Object]bool{}
	mutated := map[types.Object]bool{}
	obj := func(e ast.Expr) types.Object {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.Ident:
				if o := p.info.Uses[x]; o != nil {
					return o
				}
				return p.info.Defs[x]
			}
			return nil
		}
	}
	mut := func(e ast.Expr) {
		if id, ok := e.(*ast.Ident); ok {
			if o := p.info.Uses[id]; o != nil { // not a fresh definition
				mutated[o] = true
			}
			return
		}
		if o := obj(e); o != nil {
			mutated[o] = true
		}
	}
	for _, f := range p.files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					mut(l)
				}
			case *ast.IncDecStmt:
				mut(x.X)
			case *ast.RangeStmt:
				for _, e := range []ast.Expr{x.Key, x.Value} {
					if e == nil {
						continue
					}
					if o := obj(e); o != nil {
						mutated[o] = true
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					mut(x.X)
				}
			case *ast.FuncLit:
				ast.Inspect(x.Body, func(m ast.Node) bool {
					id, ok := m.(*ast.Ident)
					if !ok {
						return true
					}
					v, ok := p.info.Uses[id].(*types.Var)
					if ok && !v.IsField() && v.Pkg() == p.pkg && v.Parent() != p.pkg.Scope() && (v.Pos() < x.Pos() || v.Pos() > x.End()) {
						captured[v] = true
					}
					return true
				})
			}
			return true
		})
	}
	for o := range mutated {
		v, ok := o.(*types.Var)
		if !ok || v.IsField() || v.Pkg() != p.pkg {
			continue
		}
		if captured[o] || v.Parent() == p.pkg.Scope() {
			p.tracked[o] = true
		}
	}
}

type fileCtx struct {
	*pkgCtx
	af      *ast.File
	sites   []string
	siteVar string
	tmp     int
	usesOS  bool
	drop    map[string]int // uses of an import that disappeared, by path
}

func (p *pkgCtx) file(af *ast.File) ([]byte, error) {
	f := &fileCtx{pkgCtx: p, af: af, drop: map[string]int{}}
	fname := p.fset.Position(af.Package).Filename
	base := filepath.Base(fname)
	f.siteVar = "_sim_sites_" + sanitize(base)
	// count the uses of each import before
	uses := f.importUses()
	f.output()
	var inits []string // the names given to the init functions of the file
	for _, d := range af.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
				n := fmt.Sprintf("_sim_init%d_%s", len(inits), sanitize(base))
				inits = append(inits, n)
				d.Name = ast.NewIdent(n)
			}
			if d.Body != nil {
				d.Body = f.block(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					f.valueSpec(s.(*ast.ValueSpec))
				}
			}
		}
	}
	resets := f.resets()
	// imports
	var specs []ast.Spec
	for _, s := range af.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if n := f.drop[path]; n > 0 && n >= uses[path] && (s.Name == nil || s.Name.Name != "_") {
			continue
		}
		np := redirect[path]
		if np == "" {
			np = copied[path]
		}
		if np != "" {
			s.Path.Value = strconv.Quote(np)
			if s.Name == nil {
				s.Name = ast.NewIdent(path[strings.LastIndex(path, "/")+1:])
			}
		}
		specs = append(specs, s)
	}
	specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(rtName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simMod + "/simrt")}})
	if f.usesOS {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(osName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simMod + "/sos")}})
	}
	var decls []ast.Decl
	for _, s := range specs {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	for _, d := range af.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	af.Decls = decls
	af.Comments = nil
	af.Doc = nil
	stripDocs(af)
	var buf bytes.Buffer
	buf.WriteString("//go:build go1.21\n\n")
	cfg := printer.Config{Mode: printer.SourcePos | printer.TabIndent | printer.UseSpaces, Tabwidth: 8}
	if err := cfg.Fprint(&buf, p.fset, af); err != nil {
		return nil, err
	}
	fmt.Fprintf(&buf, "\n\nvar %s = %s.SiteTable(", f.siteVar, rtName)
	for _, s := range f.sites {
		fmt.Fprintf(&buf, "%q, ", s)
	}
	buf.WriteString(")\n")
	if resets != "" {
		fmt.Fprintf(&buf, "\nfunc init() {\n%s.RegisterReset(func() {\n%s})\n}\n", rtName, resets)
	}
	for _, n := range inits {
		fmt.Fprintf(&buf, "\nfunc init() { %s.RegisterInit(%s) }\n", rtName, n)
	}
	if *verbose {
		if _, err := format.Source(buf.Bytes()); err != nil {
			return buf.Bytes(), err
		}
	}
	return buf.Bytes(), nil
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func stripDocs(af *ast.File) {
	ast.Inspect(af, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

func (f *fileCtx) importUses() map[string]int {
	uses := map[string]int{}
	ast.Inspect(f.af, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := f.info.Uses[id].(*types.PkgName); ok {
				uses[pn.Imported().Path()]++
			}
		}
		return true
	})
	return uses
}

// resets returns statements restoring the package-level variables of the file.
func (f *fileCtx) resets() string {
	var out strings.Builder
	for _, d := range f.af.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			for i, n := range vs.Names {
				if n.Name == "_" {
					continue
				}
				o := f.info.Defs[n]
				if o == nil {
					continue
				}
				if len(vs.Values) == 0 {
					fmt.Fprintf(&out, "%s.Zero(&%s)\n", rtName, n.Name)
					continue
				}
				if len(vs.Values) != len(vs.Names) || f.skipReset(vs.Values[i], o.Type()) {
					continue
				}
				var b bytes.Buffer
				if err := format.Node(&b, f.fset, vs.Values[i]); err != nil {
					continue
				}
				fmt.Fprintf(&out, "%s = %s\n", n.Name, b.String())
			}
		}
	}
	return out.String()
}

func (f *fileCtx) skipReset(e ast.Expr, t types.Type) bool {
	errs := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	if types.Implements(t, errs) {
		return true // compared by identity
	}
	if !f.own {
		switch t.Underlying().(type) {
		case *types.Signature, *types.Interface:
			return true
		}
	}
	skip := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "MustCompile" || s.Sel.Name == "Errorf") {
				skip = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				skip = true
			}
		}
		return true
	})
	return skip
}

func (f *fileCtx) site(pos token.Pos) ast.Expr {
	p := f.fset.Position(pos)
	file := p.Filename
	if i := strings.Index(file, "/pkg/"); i >= 0 && !strings.Contains(file, "/pkg/mod/") {
		file = file[i+1:]
	} else {
		file = filepath.Base(file)
	}
	f.sites = append(f.sites, fmt.Sprintf("%s:%d", file, p.Line))
	return &ast.BinaryExpr{X: ast.NewIdent(f.siteVar), Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(f.sites) - 1)}}
}

func rt(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(rtName), Sel: ast.NewIdent(name)}
}

func call(fn ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: fn, Args: args} }

func (f *fileCtx) fresh(p string) string {
	f.tmp++
	return fmt.Sprintf("_sim_%s%d", p, f.tmp)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
