package eng

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Load type checks the packages below dir and builds their SSA form.
func Load(dir string) (*ssa.Program, []*ssa.Package, []*packages.Package, error) {
	// slices is there for the bodies of some of its functions (see inlined)
	pkgs, err := load(dir, "./...", "slices")
	if err != nil {
		pkgs, err = load(dir, "./...")
	}
	if err != nil {
		return nil, nil, nil, err
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	for i, p := range pkgs {
		if p.PkgPath == "slices" {
			pkgs = append(append([]*packages.Package{}, pkgs[:i]...), pkgs[i+1:]...)
			sp = append(append([]*ssa.Package{}, sp[:i]...), sp[i+1:]...)
			break
		}
	}
	return prog, sp, pkgs, nil
}

func load(dir string, patterns ...string) ([]*packages.Package, error) {
	pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir}, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
		if p.IllTyped {
			return nil, fmt.Errorf("%s: a dependency has type errors", p.PkgPath)
		}
	}
	return pkgs, nil
}

// FuncsOf lists all functions of a package, with methods and closures, in a
// fixed order.
func FuncsOf(p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	var add func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := p.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := p.Prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" && f.Pkg == p {
						add(f)
					}
				}
			}
		}
	}
	return out
}
