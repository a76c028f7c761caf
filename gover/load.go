package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Package loading: non-test files of one directory of /repo, type checked.

type Pkg struct {
	Path  string
	Name  string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
}

type Program struct {
	Fset   *token.FileSet
	Repo   string
	Module string
	GoVer  string
	Pkgs   map[string]*Pkg
	std    types.Importer
	// declared functions, by key ("crossplane.analyze", "crossplane.(*parser).parse")
	Funcs map[string]*FuncDecl
	ByObj map[types.Object]*FuncDecl
}

type FuncDecl struct {
	Key  string
	Pkg  *Pkg
	Decl *ast.FuncDecl
	Obj  *types.Func
}

func loadProgram(repo string) (*Program, error) {
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(mod)
	if m == nil {
		return nil, fmt.Errorf("no module line in go.mod")
	}
	gv := "1.19"
	if v := regexp.MustCompile(`(?m)^go\s+(\S+)`).FindSubmatch(mod); v != nil {
		gv = string(v[1])
	}
	p := &Program{Fset: token.NewFileSet(), Repo: repo, Module: string(m[1]), GoVer: gv,
		Pkgs: map[string]*Pkg{}, Funcs: map[string]*FuncDecl{}, ByObj: map[types.Object]*FuncDecl{}}
	p.std = importer.ForCompiler(p.Fset, "source", nil)
	return p, nil
}

func (p *Program) Import(path string) (*types.Package, error) {
	if strings.HasPrefix(path, p.Module) {
		pk, err := p.load(path)
		if err != nil {
			return nil, err
		}
		return pk.Types, nil
	}
	return p.std.Import(path)
}

func (p *Program) load(path string) (*Pkg, error) {
	if pk, ok := p.Pkgs[path]; ok {
		return pk, nil
	}
	dir := filepath.Join(p.Repo, strings.TrimPrefix(strings.TrimPrefix(path, p.Module), "/"))
	bp, err := build.Default.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	files := append([]string{}, bp.GoFiles...)
	sort.Strings(files)
	pk := &Pkg{Path: path}
	for _, f := range files {
		af, err := parser.ParseFile(p.Fset, filepath.Join(dir, f), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		pk.Files = append(pk.Files, af)
	}
	pk.Info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: p, GoVersion: "go" + p.GoVer}
	tp, err := conf.Check(path, p.Fset, pk.Files, pk.Info)
	if err != nil {
		return nil, err
	}
	pk.Types = tp
	pk.Name = tp.Name()
	p.Pkgs[path] = pk
	for _, f := range pk.Files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			obj, _ := pk.Info.Defs[fd.Name].(*types.Func)
			if obj == nil {
				continue
			}
			k := funcKey(obj)
			x := &FuncDecl{Key: k, Pkg: pk, Decl: fd, Obj: obj}
			p.Funcs[k] = x
			p.ByObj[obj] = x
		}
	}
	return pk, nil
}

// funcKey names a function: pkg.name, pkg.T.name, pkg.(*T).name.
func funcKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pn := ""
	if f.Pkg() != nil {
		pn = f.Pkg().Name()
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			return pn + ".(*" + typeBase(pt.Elem()) + ")." + f.Name()
		}
		return pn + "." + typeBase(t) + "." + f.Name()
	}
	return pn + "." + f.Name()
}

func typeBase(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		return x.Obj().Name()
	case *types.Alias:
		return x.Obj().Name()
	}
	return t.String()
}

func goVersionAtLeast(v string, maj, min int) bool {
	var a, b int
	fmt.Sscanf(v, "%d.%d", &a, &b)
	return a > maj || a == maj && b >= min
}
