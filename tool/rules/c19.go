package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C19", Run: runC19, Floor: 100,
		Method:      "Shared state analysis over the side effect summaries: every write that may reach a package level variable or an object published through one is classified as initialisation, synchronised (lock held on every path, sync.Once, synchronised container) or a race; objects handed to a shared container must not be written on any path after the hand-over, nor through any field which holds them.",
		Assumptions: []string{"functions outside the module are free of races when used as documented", "separate objects do not share memory through what the caller put into them"}})
}

// c19sync: is the type a synchronised container of the library?
func syncType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

func runC19(c *Ctx) {
	m := c.modref()
	lib := func(p *ssa.Package) bool {
		if p == nil {
			return false
		}
		switch p.Pkg.Path() {
		case pkgRdap, pkgBoot, pkgCache, pkgSand, pkgMain:
			return true
		}
		return c.E.Repo[p] && !strings.HasPrefix(p.Pkg.Path(), pkgRdap+"/test")
	}
	pkgOf := func(f *ssa.Function) *ssa.Package {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg == nil && f.Origin() != nil {
			return f.Origin().Pkg
		}
		return f.Pkg
	}
	// functions which run after initialisation
	live := map[*ssa.Function]bool{}
	once := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	other := map[*ssa.Function]bool{} // used other than by a plain call
	for _, f := range m.order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, _ := in.(ssa.CallInstruction)
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if *op == nil {
						continue
					}
					g, _ := (*op).(*ssa.Function)
					if mc, ok := (*op).(*ssa.MakeClosure); ok && call != nil {
						g = mc.Fn.(*ssa.Function)
					}
					if g == nil {
						continue
					}
					if call != nil {
						if call.Common().StaticCallee() == g && op == &call.Common().Value {
							callers[g] = append(callers[g], call)
							continue
						}
						if cal := call.Common().StaticCallee(); cal != nil && cal.Pkg != nil && cal.Pkg.Pkg.Path() == "sync" && strings.Contains(cal.Name(), "Once") || isOnceDo(call) {
							once[g] = true
							continue
						}
					}
					if _, ok := in.(*ssa.MakeClosure); ok {
						continue
					}
					other[g] = true
				}
			}
		}
	}
	isInit := func(f *ssa.Function) bool {
		return f.Signature.Recv() == nil && f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
	}
	var mark func(f *ssa.Function)
	mark = func(f *ssa.Function) {
		if f == nil || live[f] || m.sums[f] == nil || isInit(f) {
			return
		}
		live[f] = true
		for _, g := range c.refsOf(f) {
			mark(g)
		}
		for _, a := range f.AnonFuncs {
			mark(a)
		}
	}
	for _, f := range m.order {
		if f.Parent() == nil && !isInit(f) && (f.Object() == nil || f.Object().Exported() || f.Signature.Recv() != nil || f.Name() == "main" || other[f]) {
			mark(f)
		}
	}
	locks := &lockInfo{c: c, callers: callers, other: other, cache: map[*ssa.Function]map[ssa.Instruction]lockState{}}

	// fields which hold what a package level variable gives access to
	shared := map[string]string{}
	for _, f := range m.order {
		s := m.sums[f]
		if !lib(pkgOf(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !mutableType(st.Val.Type()) {
					continue
				}
				for r := range m.val(s, st.Val) {
					if r.o.glob != nil && r.o.glob.Pkg != nil && lib(r.o.glob.Pkg) && r.o.steps != "" {
						shared[fieldKey(fa)] = r.o.glob.Name()
					}
				}
			}
		}
	}
	written := map[*ssa.Global]map[string]bool{} // locations, under a lock
	for _, f := range m.order {
		if !live[f] || !lib(pkgOf(f)) {
			continue
		}
		c.Functions[f.String()] = true
		s := m.sums[f]
		bad := false
		for _, md := range sortedMods(s) {
			if md.o.glob == nil || md.fn != f && m.sums[md.fn] != nil && lib(pkgOf(md.fn)) && globMod(m.sums[md.fn], md) {
				continue // reported where it happens
			}
			g := md.o.glob
			if !lib(g.Pkg) && md.o.steps == "" && md.path == "" && md.kind != "store" {
				continue
			}
			if !lib(g.Pkg) && md.kind != "store" && md.kind != "map update" {
				continue
			}
			if md.kind == "append" || md.kind == "(*sync.Pool).Put" {
				continue
			}
			if syncType(g.Type().Underlying().(*types.Pointer).Elem()) && md.o.steps == "" && md.kind != "store" {
				continue
			}
			if once[f] || once[md.fn] {
				continue
			}
			if locks.held(md.via, true) || md.in != md.via && locks.held(md.in, true) {
				if written[g] == nil {
					written[g] = map[string]bool{}
				}
				written[g][md.o.steps+"|"+md.path] = true
				continue
			}
			bad = true
			what := "package level variable " + g.Name()
			if md.o.steps != "" {
				what = "an object shared through package level variable " + g.Name()
			}
			c.Bad("global", md.fn, posOf(md.in), "%s writes to %s (%s) without synchronisation", md.fn.Name(), what, md.kind)
		}
		// what was handed over
		for _, p := range s.pub {
			reach := map[*mobj]bool{}
			s.reachObjs(p.o, reach)
			for _, l := range s.local {
				if !reach[l.o] || l.at == p.in || !after(p.in, l.at, p.o.site) || locks.held(l.at, true) {
					continue
				}
				bad = true
				c.Bad("published", l.fn, posOf(l.in), "writes to an object after it was published through %s", p.glob.Name())
			}
			for _, md := range sortedMods(s) {
				if !reach[md.o] || md.o.glob != nil || md.via == p.in || !after(p.in, md.via, nil) {
					continue
				}
				bad = true
				c.Bad("published", md.fn, posOf(md.in), "writes to an object after it was published through %s", p.glob.Name())
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var v ssa.Value
				switch x := in.(type) {
				case *ssa.MapUpdate:
					v = x.Map
				case *ssa.Store:
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						v = ia.X
					}
				case *ssa.Call:
					if bt, ok := x.Call.Value.(*ssa.Builtin); ok && (bt.Name() == "delete" || bt.Name() == "clear") {
						v = x.Call.Args[0]
					} else if cal := x.Call.StaticCallee(); cal != nil {
						n := cal.String()
						if o := cal.Origin(); o != nil {
							n = o.String()
						}
						if i, ok := extMut[n]; ok && i < len(x.Call.Args) {
							v = x.Call.Args[i]
						}
					}
				}
				if v == nil {
					continue
				}
				for k, g := range shared {
					if fromField(v, k, map[ssa.Value]bool{}) {
						bad = true
						c.Bad("published", f, posOf(in), "writes through %s, which shares an object with package level variable %s", k, g)
					}
				}
			}
		}
		if !bad {
			c.Ok("global", "%s writes no shared state without synchronisation", f.String())
		}
	}
	// variables written under a lock are read under one
	for g, locs := range written {
		for _, f := range m.order {
			if !live[f] || !lib(pkgOf(f)) || once[f] {
				continue
			}
			s := m.sums[f]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var v ssa.Value
					switch x := in.(type) {
					case *ssa.UnOp:
						v = x.X
					case *ssa.Lookup:
						v = x.X
					case *ssa.Range:
						v = x.X
					}
					if v == nil {
						continue
					}
					suf := "[]"
					if _, ok := in.(*ssa.UnOp); ok {
						suf = ""
					}
					hit := false
					for r := range m.val(s, v) {
						if r.o.glob == g && locs[r.o.steps+"|"+r.path+suf] {
							hit = true
						}
					}
					if !hit {
						continue
					}
					if !locks.held(in, false) {
						c.Bad("lock", f, posOf(in), "%s reads %s without the lock it is written under", f.Name(), g.Name())
					}
				}
			}
		}
	}
}

func globMod(s *msum, md *mmod) bool {
	for _, x := range s.mods {
		if x.in == md.in && x.o.glob == md.o.glob {
			return true
		}
	}
	return false
}

func isOnceDo(call ssa.CallInstruction) bool {
	cal := call.Common().StaticCallee()
	return cal != nil && cal.String() == "(*sync.Once).Do"
}

func mutableType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer:
		return true
	}
	return false
}

func fieldKey(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return types.TypeString(t, func(p *types.Package) string { return p.Name() }) + fname(fa.X.Type(), fa.Field)
}

// fromField: was the value loaded from the field?
func fromField(v ssa.Value, key string, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldKey(fa) == key
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fromField(e, key, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return fromField(x.X, key, seen)
	case *ssa.Slice:
		return fromField(x.X, key, seen)
	}
	return false
}

// reachObjs marks what can be reached from an object.
func (s *msum) reachObjs(o *mobj, seen map[*mobj]bool) {
	if seen[o] {
		return
	}
	seen[o] = true
	for k, v := range s.cont {
		if k.o == o {
			for r := range v {
				s.reachObjs(r.o, seen)
			}
		}
	}
	for _, cp := range s.copys[o] {
		for k, v := range s.cont {
			if k.o == cp.src.o && strings.HasPrefix(k.path, cp.src.path) {
				for r := range v {
					s.reachObjs(r.o, seen)
				}
			}
		}
	}
}

// after: can b run after a, without passing the instruction that makes the
// object anew?
func after(a, b, site ssa.Instruction) bool {
	if a.Block() == nil || b.Block() == nil || a.Parent() != b.Parent() {
		return false
	}
	// scan returns: reached b, passed the end
	scan := func(blk *ssa.BasicBlock, from int) (bool, bool) {
		for i := from; i < len(blk.Instrs); i++ {
			if blk.Instrs[i] == b {
				return true, false
			}
			if site != nil && blk.Instrs[i] == site {
				return false, false
			}
		}
		return false, true
	}
	idx := 0
	for i, in := range a.Block().Instrs {
		if in == a {
			idx = i + 1
		}
	}
	hit, on := scan(a.Block(), idx)
	if hit {
		return true
	}
	if !on {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(blk *ssa.BasicBlock) bool
	walk = func(blk *ssa.BasicBlock) bool {
		for _, n := range blk.Succs {
			if seen[n] {
				continue
			}
			seen[n] = true
			hit, on := scan(n, 0)
			if hit || on && walk(n) {
				return true
			}
		}
		return false
	}
	return walk(a.Block())
}

// lockState: which locks are certainly held.
type lockState int

const (
	lockNone lockState = iota
	lockRead
	lockWrite
)

type lockInfo struct {
	c       *Ctx
	callers map[*ssa.Function][]ssa.CallInstruction
	other   map[*ssa.Function]bool
	cache   map[*ssa.Function]map[ssa.Instruction]lockState
	depth   int
}

// held: is a package level lock held at the instruction, on every path?
func (l *lockInfo) held(in ssa.Instruction, write bool) bool {
	if in == nil || in.Parent() == nil {
		return false
	}
	f := in.Parent()
	st, ok := l.cache[f]
	if !ok {
		st = lockFlow(f)
		l.cache[f] = st
	}
	if s := st[in]; s == lockWrite || !write && s == lockRead {
		return true
	}
	// every caller holds it
	if l.depth > 6 || l.other[f] || f.Object() != nil && f.Object().Exported() || len(l.callers[f]) == 0 {
		return false
	}
	l.depth++
	defer func() { l.depth-- }()
	for _, c := range l.callers[f] {
		if _, ok := c.(*ssa.Go); ok {
			return false
		}
		if !l.held(c.(ssa.Instruction), write) {
			return false
		}
	}
	return true
}

func lockFlow(f *ssa.Function) map[ssa.Instruction]lockState {
	out := map[ssa.Instruction]lockState{}
	in := map[*ssa.BasicBlock]lockState{}
	for _, b := range f.Blocks {
		in[b] = lockWrite
	}
	if len(f.Blocks) > 0 {
		in[f.Blocks[0]] = lockNone
	}
	step := func(b *ssa.BasicBlock) lockState {
		s := in[b]
		for _, x := range b.Instrs {
			out[x] = s
			call, ok := x.(*ssa.Call)
			if !ok {
				continue
			}
			cal := call.Call.StaticCallee()
			if cal == nil || len(call.Call.Args) == 0 || !globalLock(call.Call.Args[0], 0) {
				continue
			}
			switch cal.String() {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
				s = lockWrite
			case "(*sync.RWMutex).RLock":
				s = lockRead
			case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
				s = lockNone
			}
		}
		return s
	}
	for ch := true; ch; {
		ch = false
		for _, b := range f.Blocks {
			o := step(b)
			for _, n := range b.Succs {
				if o < in[n] {
					in[n] = o
					ch = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		step(b)
	}
	return out
}

// globalLock: is the lock part of a package level variable? A lock in a
// per-object struct guards nothing shared.
func globalLock(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Global:
		return true
	case *ssa.FieldAddr:
		return globalLock(x.X, d+1)
	case *ssa.UnOp:
		return globalLock(x.X, d+1)
	}
	return false
}
