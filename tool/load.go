package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// repoDir is the tree under analysis. It is always the working tree of the
// repository; VERIF_REPO exists only so that development runs can point the
// same tool at a scratch copy.
func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

const modPath = "github.com/use-go/gosips"

// Program is the type-checked, SSA-form program under analysis.
type Program struct {
	Prog  *ssa.Program
	Pkgs  []*ssa.Package
	ByImp map[string]*ssa.Package
	Files int
	Funcs int
	Info  []*packages.Package

	all      *ssa.Program
	mu       sync.Mutex
	methods  map[string]*ssa.Function
	elemType types.Type
	listType types.Type
}

func loadProgram() (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   repoDir(),
		Env:   env,
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Prog: prog, ByImp: map[string]*ssa.Package{}, Info: pkgs, methods: map[string]*ssa.Function{}}
	for _, x := range pkgs {
		if l := x.Imports["container/list"]; l != nil && l.Types != nil {
			p.elemType = l.Types.Scope().Lookup("Element").Type()
			p.listType = l.Types.Scope().Lookup("List").Type()
		}
	}
	if p.elemType == nil {
		return nil, fmt.Errorf("container/list is not used anywhere")
	}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.Pkgs = append(p.Pkgs, sp)
		p.ByImp[sp.Pkg.Path()] = sp
		p.Files += len(pkgs[i].CompiledGoFiles)
	}
	return p, nil
}
