package vm

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Load builds SSA for the harness packages and everything they import.
func Load(dir string, env []string, overlay map[string][]byte, patterns []string) (*Program, []*ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Overlay: overlay}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{SSA: prog, globals: map[*ssa.Global]int{}, overrides: map[string]*ssa.Function{}}
	look := func(pkg, name string) types.Type {
		pk := prog.ImportedPackage(pkg)
		if pk == nil {
			return nil
		}
		o := pk.Pkg.Scope().Lookup(name)
		if o == nil {
			return nil
		}
		return o.Type()
	}
	if t := look("flowverif/vsym", "RuntimeError"); t != nil {
		p.rtErrType = canon(t)
	} else {
		return nil, nil, fmt.Errorf("vsym.RuntimeError not found")
	}
	if t := look("errors", "errorString"); t != nil {
		p.errStrPtr = canon(types.NewPointer(t))
	}
	if t := look("reflect", "rtype"); t != nil {
		p.rtypePtr = canon(types.NewPointer(t))
	} else {
		return nil, nil, fmt.Errorf("reflect.rtype not found")
	}
	return p, spkgs, nil
}

// Override replaces the body of the named function by an interpreted model.
func (p *Program) Override(name string, pkg, fn string) error {
	pk := p.pkgByPath(pkg)
	if pk == nil {
		return fmt.Errorf("no package %s", pkg)
	}
	pk.Build()
	f := pk.Func(fn)
	if f == nil {
		return fmt.Errorf("no function %s.%s", pkg, fn)
	}
	p.overrides[name] = f
	return nil
}

// Harnesses lists exported functions of pkg with the given prefix, sorted.
func Harnesses(pkg *ssa.Package, prefix string) []*ssa.Function {
	var out []*ssa.Function
	for n, m := range pkg.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prefix) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func (p *Program) pkgByPath(path string) *ssa.Package {
	if pk := p.SSA.ImportedPackage(path); pk != nil {
		return pk
	}
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() == path {
			return pk
		}
	}
	return nil
}
