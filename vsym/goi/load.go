package goi

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// LoadTolerant is Load for independent packages: those that do not compile are
// reported in bad (by package path) and left out.
func LoadTolerant(dir string, env []string, patterns ...string) (*Program, map[string]string, error) {
	bad := map[string]string{}
	{
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), env...)}
		pkgs, err := packages.Load(cfg, patterns...)
		if err != nil {
			return nil, nil, err
		}
		var good []*packages.Package
		for _, p := range pkgs {
			msg := ""
			packages.Visit([]*packages.Package{p}, nil, func(q *packages.Package) {
				for _, e := range q.Errors {
					if msg == "" {
						msg = e.Error()
					}
				}
			})
			if msg != "" {
				bad[p.PkgPath] = msg
			} else {
				good = append(good, p)
			}
		}
		if len(good) == 0 {
			return nil, bad, fmt.Errorf("no package loads: %v", bad)
		}
		prog, _ := ssautil.AllPackages(good, ssa.InstantiateGenerics)
		prog.Build()
		pr := &Program{SSA: prog, Pkgs: map[string]*ssa.Package{}}
		for _, p := range prog.AllPackages() {
			pr.Pkgs[p.Pkg.Path()] = p
		}
		return pr, bad, nil
	}
}

// Load builds SSA for the packages matched by patterns in dir, with all their
// dependencies from source.
func Load(dir string, env []string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), env...)}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	n := 0
	var first error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			n++
			if first == nil {
				first = e
			}
		}
	})
	if n > 0 {
		return nil, fmt.Errorf("%d load errors: %v", n, first)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{SSA: prog, Pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		pr.Pkgs[p.Pkg.Path()] = p
	}
	return pr, nil
}
