package eng

import (
	"golang.org/x/tools/go/ssa"
)

// initGlobals evaluates package initialisation so that package level
// variables which are never written afterwards have known values.
func (e *Engine) initGlobals() {
	for _, p := range e.Pkgs {
		if p == nil {
			continue
		}
		for _, fn := range funcsOf(p) {
			if fn.Name() == "init" && fn.Parent() == nil && fn.Signature.Recv() == nil {
				continue
			}
			inInit := false
			for q := fn; q != nil; q = q.Parent() {
				if q.Name() == "init" && q.Signature.Recv() == nil {
					inInit = true
				}
			}
			if inInit {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if g := globalRoot(x.Addr); g != nil {
							e.mutG[g] = true
						}
					case *ssa.MapUpdate:
						if g := globalRoot(x.Map); g != nil {
							e.mutG[g] = true
						}
					default:
						// the address escapes into a call or another value
						var ops [10]*ssa.Value
						for _, o := range in.Operands(ops[:0]) {
							if g, ok := (*o).(*ssa.Global); ok {
								switch in.(type) {
								case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
								default:
									e.mutG[g] = true
								}
							}
						}
					}
				}
			}
		}
	}
	e.initMode = true
	defer func() { e.initMode = false }()
	done := map[*ssa.Package]bool{}
	var run func(p *ssa.Package)
	run = func(p *ssa.Package) {
		if p == nil || done[p] || !e.Repo[p] {
			return
		}
		done[p] = true
		for _, i := range p.Pkg.Imports() {
			run(e.Prog.Package(i))
		}
		fn := p.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			return
		}
		h := &Hooks{PeelConst: 300, Opaque: func(f *ssa.Function) bool { return f != fn && f.Name() == "init" && f.Pkg != p }}
		outs, _, err := e.Run(fn, h, nil)
		if err != nil || len(outs) != 1 || outs[0].Panic {
			return
		}
		for k, v := range outs[0].St.heap {
			if r := Root(k); r.Op == OGlobal && e.mutG[r.G] {
				continue
			}
			if _, ok := e.globalHeap[k]; !ok {
				e.globalHeap[k] = v
			}
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !e.mutG[g] {
				e.constG[g] = true
			}
		}
	}
	for _, p := range e.Pkgs {
		run(p)
	}
}

func (e *Engine) constGlobal(g *ssa.Global) bool { return e.constG[g] && e.Repo[g.Pkg] }

func globalRoot(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			return nil
		}
	}
}

// funcsOf lists all functions of a package, with methods and closures.
func funcsOf(p *ssa.Package) []*ssa.Function { return FuncsOf(p) }
