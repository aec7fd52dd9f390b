package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/hsiaosiyuan0/mole"

// Prog is the type-checked, SSA-built view of the repository's non-test source.
type Prog struct {
	Root  string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // by path relative to the module ("ecma/parser")
	SSA   *ssa.Program
	SPkgs map[string]*ssa.Package
	All   []*ssa.Function // every function with a body declared in the repository (incl. anonymous)
}

func repoRoot() string {
	if r := os.Getenv("MOLE_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func loadEnv(wasm bool) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOOS", "GOARCH", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
	if wasm {
		env = append(env, "GOOS=js", "GOARCH=wasm")
	}
	return env
}

func load(wasm bool, patterns ...string) (*Prog, error) {
	root := repoRoot()
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedDeps,
		Dir:  root,
		Fset: fset,
		Env:  loadEnv(wasm),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	pr := &Prog{Root: root, Fset: fset, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	pr.SSA = prog
	for i, p := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
		pr.Pkgs[rel] = p
		pr.SPkgs[rel] = spkgs[i]
	}
	own := map[*ssa.Package]bool{}
	for _, s := range spkgs {
		if s != nil {
			own[s] = true
		}
	}
	have := map[*ssa.Function]bool{}
	var anon func(f *ssa.Function)
	anon = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil || have[f] {
			return
		}
		have[f] = true
		pr.All = append(pr.All, f)
		for _, a := range f.AnonFuncs {
			anon(a)
		}
	}
	for _, p := range pkgs { // bodies of generic methods are not reached below
		for _, o := range p.TypesInfo.Defs {
			if f, ok := o.(*types.Func); ok {
				anon(prog.FuncValue(f))
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		pk := fn.Package()
		if pk == nil && fn.Origin() != nil {
			pk = fn.Origin().Package()
		}
		if pk != nil && own[pk] && fn.Blocks != nil && !have[fn] {
			pr.All = append(pr.All, fn)
		}
	}
	sort.Slice(pr.All, func(i, j int) bool {
		a, b := pr.All[i], pr.All[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return pr, nil
}

// pos renders a position relative to the repository.
func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.Fset.Position(ps)
	r, err := filepath.Rel(p.Root, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func (p *Prog) pkg(rel string) *ssa.Package { return p.SPkgs[rel] }

// fn looks up a package-level function or method ("Type.Method").
func (p *Prog) fn(rel, name string) *ssa.Function {
	sp := p.SPkgs[rel]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, m := name[:i], name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		ms := types.NewMethodSet(types.NewPointer(t.Type()))
		sel := ms.Lookup(sp.Pkg, m)
		if sel == nil {
			return nil
		}
		if f, ok := sel.Obj().(*types.Func); ok {
			return p.SSA.FuncValue(f)
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) namedType(rel, name string) *types.Named {
	sp := p.SPkgs[rel]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// files returns syntax files of a package with their names.
func (p *Prog) files(rel string) []*ast.File {
	pk := p.Pkgs[rel]
	if pk == nil {
		return nil
	}
	return pk.Syntax
}

func relPkg(pk *types.Package) string {
	if pk == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), modPath), "/")
}

func inMod(pk *types.Package) bool {
	return pk != nil && strings.HasPrefix(pk.Path(), modPath)
}
