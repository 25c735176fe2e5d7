// Package load type-checks bantling/micro from its current source, together with a synthetic in-memory package that
// instantiates the generic API, and builds go/ssa for it.
package load

import (
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded program.
type Program struct {
	Fset *token.FileSet
	Pkgs []*packages.Package
	SSA  *ssa.Program
	// ByPath: import path relative to the module ("conv", "encoding/json") -> ssa package
	ByPath map[string]*ssa.Package
	Typed  map[string]*packages.Package
	Driver *ssa.Package
	Module string
	Repo   string
}

const driverDir = "zzverifdriver"

// Load loads ./... of repo and the driver source (Go source of package zzverifdriver), if non-empty.
func Load(repo, driver string) (*Program, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:  repo,
		Env:  env,
		Fset: token.NewFileSet(),
	}
	patterns := []string{"./..."}
	if driver != "" {
		cfg.Overlay = map[string][]byte{filepath.Join(repo, driverDir, "driver.go"): []byte(driver)}
		patterns = append(patterns, "./"+driverDir)
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	seen := map[string]bool{}
	uniq := pkgs[:0]
	for _, p := range pkgs {
		if seen[p.ID] {
			continue
		}
		seen[p.ID] = true
		uniq = append(uniq, p)
	}
	pkgs = uniq
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check errors: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	out := &Program{Fset: cfg.Fset, Pkgs: pkgs, SSA: prog, ByPath: map[string]*ssa.Package{}, Typed: map[string]*packages.Package{}, Repo: repo}
	for _, p := range pkgs {
		if p.Module != nil && out.Module == "" {
			out.Module = p.Module.Path
		}
	}
	for i, p := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, out.Module), "/")
		if rel == driverDir {
			out.Driver = spkgs[i]
			continue
		}
		out.ByPath[rel] = spkgs[i]
		out.Typed[rel] = p
	}
	return out, nil
}
