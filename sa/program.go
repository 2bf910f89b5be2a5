package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	deflectPath = "github.com/lubgr/deflect/deflect"
	integrPath  = "github.com/lubgr/deflect/integr"
	matPath     = "gonum.org/v1/gonum/mat"
)

type Program struct {
	root  string
	fset  *token.FileSet
	pkgs  []*packages.Package
	byID  map[string]*packages.Package
	ssa   *ssa.Program
	built map[*ssa.Package]bool
	def   *ssa.Package
	integ *ssa.Package
}

func loadProgram(root string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax | packages.NeedModule,
		Dir:   root,
		Fset:  fset,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./deflect/...", "./integr/...")
	if err != nil {
		return nil, err
	}
	p := &Program{root: root, fset: fset, pkgs: pkgs, byID: map[string]*packages.Package{}, built: map[*ssa.Package]bool{}}
	var errs []string
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		p.byID[q.PkgPath] = q
		if p.isRepoPkg(q.PkgPath) {
			for _, e := range q.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.ssa = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %v", pkgs[i].PkgPath)
		}
		sp.Build()
		p.built[sp] = true
		switch sp.Pkg.Path() {
		case deflectPath:
			p.def = sp
		case integrPath:
			p.integ = sp
		}
	}
	if p.def == nil {
		return nil, fmt.Errorf("package %v not found", deflectPath)
	}
	return p, nil
}

func (p *Program) isRepoPkg(path string) bool {
	return strings.HasPrefix(path, "github.com/lubgr/deflect")
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o != f {
			return fnPkgPath(o)
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

func (p *Program) isForeign(fn *ssa.Function) bool {
	path := fnPkgPath(fn)
	return path != "" && !p.isRepoPkg(path)
}

var interpretablePkgs = map[string]bool{
	"slices": true, "maps": true, "cmp": true, "iter": true, "unicode/utf8": true,
	"gonum.org/v1/gonum/spatial/r3": true, "gonum.org/v1/gonum/spatial/r2": true,
	"gonum.org/v1/gonum/floats/scalar": true, "gonum.org/v1/gonum/floats": true,
	"math/bits": true, "sort": true,
}

func (p *Program) interpretable(fn *ssa.Function) bool { return interpretablePkgs[fnPkgPath(fn)] }

func (p *Program) ensureBuilt(fn *ssa.Function) {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil && !p.built[f.Pkg] {
		p.built[f.Pkg] = true
		f.Pkg.Build()
	}
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	ms := p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

// fn resolves an exported function of the deflect package; the API is the anchor of all rules.
func (p *Program) fn(name string) *ssa.Function {
	f := p.def.Func(name)
	if f == nil {
		unsupported("exported function deflect.%v not found (unresolved anchor)", name)
	}
	return f
}

func (p *Program) typ(name string) types.Type {
	o := p.def.Pkg.Scope().Lookup(name)
	if o == nil {
		unsupported("exported type deflect.%v not found (unresolved anchor)", name)
	}
	return o.Type()
}

func (p *Program) constInt(name string) int {
	o, ok := p.def.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		unsupported("constant deflect.%v not found (unresolved anchor)", name)
	}
	i, err := fmt.Sscanf(o.Val().ExactString(), "%d", new(int))
	_ = i
	_ = err
	n := 0
	fmt.Sscanf(o.Val().ExactString(), "%d", &n)
	return n
}

func (p *Program) extType(pkg, name string) types.Type {
	q := p.byID[pkg]
	if q == nil {
		unsupported("package %v is not part of the program", pkg)
	}
	o := q.Types.Scope().Lookup(name)
	if o == nil {
		unsupported("type %v.%v not found", pkg, name)
	}
	return o.Type()
}

// sourceFuncs lists all functions of the repository (not tests) including closures.
func (p *Program) sourceFuncs() []*ssa.Function {
	var r []*ssa.Function
	for fn := range ssautil.AllFunctions(p.ssa) {
		if fn.Synthetic != "" || fn.Pos() == token.NoPos || len(fn.Blocks) == 0 {
			continue
		}
		file := p.fset.Position(fn.Pos()).Filename
		if strings.HasPrefix(file, p.root+string(filepath.Separator)) {
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}

// repoPkgs lists the packages of the repository.
func (p *Program) repoPkgs() []*ssa.Package {
	var r []*ssa.Package
	for _, q := range p.ssa.AllPackages() {
		if p.isRepoPkg(q.Pkg.Path()) {
			r = append(r, q)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pkg.Path() < r[j].Pkg.Path() })
	return r
}
