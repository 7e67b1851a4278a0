package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

// A flow-insensitive, field-sensitive side effect analysis with one summary
// per function. Objects are named by how they are reached: from a parameter
// or global through a list of loads, or by the allocation that made them.

type mobj struct {
	param int         // parameter (or free variable) number, -1 if none
	glob  *ssa.Global // global variable
	site  ssa.Instruction
	call  ssa.Instruction // the call it came from, if any
	sub   string
	steps string // loads from the parameter or global, "/" before each
	fn    *ssa.Function
	bind  [][]mref // bindings of a closure
	id    int
}

type mobjKey struct {
	param int
	glob  *ssa.Global
	site  ssa.Instruction
	call  ssa.Instruction
	sub   string
	steps string
	fn    *ssa.Function
}

func (o *mobj) String() string {
	switch {
	case o.glob != nil:
		return "global " + o.glob.Name() + o.steps
	case o.param >= 0:
		return fmt.Sprintf("param %d%s", o.param, o.steps)
	case o.fn != nil:
		return "func " + o.fn.Name()
	}
	return fmt.Sprintf("alloc#%d", o.id)
}

func (o *mobj) fresh() bool { return o.param < 0 && o.glob == nil }

// mref is a location: an object and a path of fields inside it.
type mref struct {
	o     *mobj
	path  string
	short bool // a slice cut short: appending overwrites what follows
}

type mset map[mref]bool

func (s mset) add(o mset) bool {
	ch := false
	for k := range o {
		if !s[k] {
			s[k] = true
			ch = true
		}
	}
	return ch
}

// mmod is a write to something reached from a parameter or global.
type mmod struct {
	o    *mobj
	path string
	kind string
	in   ssa.Instruction // the writing instruction
	fn   *ssa.Function
	via  ssa.Instruction // the instruction of the summarised function
}

type mkey struct {
	o    *mobj
	path string
}

type mcopy struct {
	dst string
	src mref
}

type msum struct {
	fn    *ssa.Function
	mods  map[string]*mmod
	rets  []mset
	cont  map[mkey]mset // what objects hold
	copys map[*mobj][]mcopy
	env   map[ssa.Value]mset
	local []lmod // writes to objects made here, for publication checks
	ver   int
	objs  map[mobjKey]*mobj
	pub   []mpub
}

type lmod struct {
	o  *mobj
	in ssa.Instruction
	fn *ssa.Function
	at ssa.Instruction
}

// mpub is the hand-over of an object to a shared container.
type mpub struct {
	o    *mobj
	glob *ssa.Global
	in   ssa.Instruction
}

type modref struct {
	c     *Ctx
	sums  map[*ssa.Function]*msum
	order []*ssa.Function
	impls map[string][]*ssa.Function
	n     int
	// argument writes and aliases of functions outside the repository
}

const maxSteps = 2

func refLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Tuple:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refLike(u.Elem())
	}
	return false
}

func isAggr(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// newModref analyses all functions of the repository.
func (c *Ctx) modref() *modref {
	if c.mr != nil {
		return c.mr
	}
	m := &modref{c: c, sums: map[*ssa.Function]*msum{}, impls: map[string][]*ssa.Function{}}
	c.mr = m
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		if o := f.Origin(); o != nil && o.Pkg != nil && !c.E.Repo[o.Pkg] {
			return
		}
		if f.Pkg != nil && !c.E.Repo[f.Pkg] {
			return
		}
		seen[f] = true
		m.order = append(m.order, f)
		for _, g := range c.refsOf(f) {
			add(g)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range c.SSA {
		if p == nil || !c.E.Repo[p] {
			continue
		}
		for _, f := range eng.FuncsOf(p) {
			add(f)
		}
		for _, mem := range p.Members {
			t, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			if types.IsInterface(t.Type()) {
				continue
			}
			for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := c.Prog.MethodSets.MethodSet(ty)
				for i := 0; i < ms.Len(); i++ {
					f := c.Prog.MethodValue(ms.At(i))
					if f == nil {
						continue
					}
					add(f)
					m.impls[f.Name()] = append(m.impls[f.Name()], f)
				}
			}
		}
	}
	sort.Slice(m.order, func(i, j int) bool { return m.order[i].String() < m.order[j].String() })
	for k := range m.impls {
		l := m.impls[k]
		sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	}
	for _, f := range m.order {
		m.sums[f] = &msum{fn: f, mods: map[string]*mmod{}, cont: map[mkey]mset{}, copys: map[*mobj][]mcopy{}, env: map[ssa.Value]mset{}, objs: map[mobjKey]*mobj{}}
	}
	for round := 0; round < 30; round++ {
		ch := false
		for _, f := range m.order {
			if m.fn(m.sums[f]) {
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	return m
}

func (s *msum) obj(m *modref, o mobj) *mobj {
	k := mobjKey{o.param, o.glob, o.site, o.call, o.sub, o.steps, o.fn}
	if x := s.objs[k]; x != nil {
		return x
	}
	m.n++
	o.id = m.n
	s.objs[k] = &o
	return &o
}

// contents of a location.
func (s *msum) contents(m *modref, r mref) mset {
	out := mset{}
	s.contents1(m, r, out, map[mref]bool{})
	return out
}

func (s *msum) contents1(m *modref, r mref, out mset, seen map[mref]bool) {
	if seen[r] {
		return
	}
	seen[r] = true
	out.add(s.cont[mkey{r.o, r.path}])
	out.add(s.cont[mkey{r.o, "*"}])
	for _, cp := range s.copys[r.o] {
		if rest, ok := strings.CutPrefix(r.path, cp.dst); ok {
			s.contents1(m, mref{o: cp.src.o, path: cp.src.path + rest}, out, seen)
		}
	}
	if !r.o.fresh() && r.o.fn == nil {
		if strings.Count(r.o.steps, "/") >= maxSteps {
			out[mref{o: r.o, path: ""}] = true
		} else {
			out[mref{o: s.obj(m, mobj{param: r.o.param, glob: r.o.glob, steps: r.o.steps + "/" + r.path})}] = true
		}
	}
}

func one(o *mobj) mset { return mset{mref{o: o, path: ""}: true} }

func (m *modref) val(s *msum, v ssa.Value) mset {
	switch x := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return one(s.obj(m, mobj{param: -1, glob: x}))
	case *ssa.Function:
		return one(s.obj(m, mobj{param: -1, fn: x}))
	case *ssa.Parameter:
		if !refLike(x.Type()) {
			return nil
		}
		for i, p := range s.fn.Params {
			if p == x {
				return one(s.obj(m, mobj{param: i}))
			}
		}
		return nil
	case *ssa.FreeVar:
		for i, p := range s.fn.FreeVars {
			if p == x {
				return one(s.obj(m, mobj{param: len(s.fn.Params) + i}))
			}
		}
		return nil
	}
	return s.env[v]
}

// store records that location r gets value v of type t.
func (m *modref) store(s *msum, r mref, v mset, t types.Type) bool {
	ch := false
	if isAggr(t) {
		for x := range v {
			if x.o == r.o && x.path == r.path {
				continue
			}
			cp := mcopy{r.path, x}
			dup := false
			for _, y := range s.copys[r.o] {
				if y == cp {
					dup = true
				}
			}
			if !dup && len(s.copys[r.o]) < 200 {
				s.copys[r.o] = append(s.copys[r.o], cp)
				ch = true
			}
		}
		return ch
	}
	k := mkey{r.o, r.path}
	if s.cont[k] == nil {
		s.cont[k] = mset{}
	}
	return s.cont[k].add(v)
}

func (m *modref) mod(s *msum, r mref, kind string, in, via ssa.Instruction, fn *ssa.Function) bool {
	if r.o.fn != nil {
		return false
	}
	if r.o.fresh() {
		for _, l := range s.local {
			if l.o == r.o && l.in == in && l.at == via {
				return false
			}
		}
		s.local = append(s.local, lmod{r.o, in, fn, via})
		return false
	}
	soft := ""
	if kind == "append" {
		soft = "append"
	}
	k := fmt.Sprintf("%d|%p|%s|%s|%p%s", r.o.param, r.o.glob, r.o.steps, r.path, in, soft)
	if s.mods[k] != nil {
		return false
	}
	s.mods[k] = &mmod{r.o, r.path, kind, in, fn, via}
	return true
}

// resolve maps an object of a callee to locations at a call.
func (m *modref) resolve(s *msum, o *mobj, args []mset, call ssa.Instruction, cs *msum) mset {
	switch {
	case o.glob != nil:
		return one(s.obj(m, mobj{param: -1, glob: o.glob, steps: o.steps}))
	case o.param >= 0:
		if o.param >= len(args) {
			return nil
		}
		cur := args[o.param]
		if o.steps != "" {
			for _, st := range strings.Split(o.steps[1:], "/") {
				nx := mset{}
				for r := range cur {
					nx.add(s.contents(m, mref{o: r.o, path: r.path + st}))
				}
				cur = nx
				if len(cur) > 400 {
					return cur
				}
			}
		}
		return cur
	case o.fn != nil:
		if o.site == nil {
			return one(s.obj(m, mobj{param: -1, fn: o.fn}))
		}
		return one(s.obj(m, mobj{param: -1, fn: o.fn, site: o.site, call: call}))
	}
	return one(s.obj(m, mobj{param: -1, site: o.site, sub: o.sub, call: call}))
}

func (m *modref) fn(s *msum) bool {
	changed := false
	for round := 0; round < 20; round++ {
		ch := false
		for _, b := range s.fn.Blocks {
			for _, in := range b.Instrs {
				if m.instr(s, in) {
					ch = true
				}
			}
		}
		if !ch {
			break
		}
		changed = true
	}
	return changed
}

func (s *msum) set(v ssa.Value, r mset) bool {
	if len(r) == 0 {
		return false
	}
	if s.env[v] == nil {
		s.env[v] = mset{}
	}
	return s.env[v].add(r)
}

func shift(v mset, p string) mset {
	r := mset{}
	for x := range v {
		r[mref{o: x.o, path: x.path + p}] = true
	}
	return r
}

// load reads a value of type t from locations.
func (m *modref) load(s *msum, v mset, t types.Type) mset {
	if !refLike(t) {
		return nil
	}
	if isAggr(t) {
		return v
	}
	r := mset{}
	for x := range v {
		r.add(s.contents(m, x))
	}
	return r
}

func fname(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return "." + t.Underlying().(*types.Struct).Field(i).Name()
}

func (m *modref) instr(s *msum, in ssa.Instruction) bool {
	ch := false
	switch x := in.(type) {
	case *ssa.Alloc:
		return s.set(x, one(s.obj(m, mobj{param: -1, site: x})))
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return s.set(x.(ssa.Value), one(s.obj(m, mobj{param: -1, site: in})))
	case *ssa.MakeClosure:
		o := s.obj(m, mobj{param: -1, site: in, fn: x.Fn.(*ssa.Function)})
		if o.bind == nil {
			o.bind = make([][]mref, len(x.Bindings))
		}
		for i, b := range x.Bindings {
			for r := range m.val(s, b) {
				dup := false
				for _, y := range o.bind[i] {
					if y == r {
						dup = true
					}
				}
				if !dup {
					o.bind[i] = append(o.bind[i], r)
					ch = true
				}
			}
		}
		return s.set(x, one(o)) || ch
	case *ssa.FieldAddr:
		return s.set(x, shift(m.val(s, x.X), fname(x.X.Type(), x.Field)))
	case *ssa.Field:
		return s.set(x, m.load(s, shift(m.val(s, x.X), fname(x.X.Type(), x.Field)), x.Type()))
	case *ssa.IndexAddr:
		return s.set(x, shift(m.val(s, x.X), "[]"))
	case *ssa.Index:
		return s.set(x, m.load(s, shift(m.val(s, x.X), "[]"), x.Type()))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return false
		}
		t := x.X.Type().Underlying().(*types.Map).Elem()
		return s.set(x, m.load(s, shift(m.val(s, x.X), "[]"), t))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok && plainCell(a) {
				for _, v := range reachingStores(a, x) {
					if s.set(x, m.val(s, v)) {
						ch = true
					}
				}
				return ch
			}
			return s.set(x, m.load(s, m.val(s, x.X), x.Type()))
		}
		if x.Op == token.ARROW {
			return s.set(x, m.load(s, shift(m.val(s, x.X), "[]"), x.Type()))
		}
	case *ssa.Store:
		v := m.val(s, x.Val)
		for r := range m.val(s, x.Addr) {
			if m.mod(s, r, "store", in, in, s.fn) {
				ch = true
			}
			if m.store(s, r, v, x.Val.Type()) {
				ch = true
			}
		}
	case *ssa.MapUpdate:
		for r := range m.val(s, x.Map) {
			l := mref{o: r.o, path: r.path + "[]"}
			if m.mod(s, l, "map update", in, in, s.fn) {
				ch = true
			}
			if m.store(s, l, m.val(s, x.Value), x.Value.Type()) {
				ch = true
			}
		}
	case *ssa.Range:
		return s.set(x, m.val(s, x.X))
	case *ssa.Next:
		if x.IsString {
			return false
		}
		return s.set(x, m.val(s, x.Iter))
	case *ssa.Extract:
		t := x.Tuple
		switch y := t.(type) {
		case *ssa.Next:
			if y.IsString {
				return false
			}
			return s.set(x, m.load(s, shift(m.val(s, y), "[]"), x.Type()))
		case *ssa.Call:
			v := mset{}
			for r := range m.val(s, y) {
				if rest, ok := strings.CutPrefix(r.path, fmt.Sprintf("#%d", x.Index)); ok {
					v[mref{o: r.o, path: rest}] = true
				}
			}
			return s.set(x, v)
		default:
			if x.Index == 0 {
				return s.set(x, m.val(s, t))
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s.set(x, m.val(s, e)) {
				ch = true
			}
		}
	case *ssa.ChangeType:
		return s.set(x, m.val(s, x.X))
	case *ssa.ChangeInterface:
		return s.set(x, m.val(s, x.X))
	case *ssa.MakeInterface:
		if !refLike(x.X.Type()) {
			return false
		}
		return s.set(x, m.val(s, x.X))
	case *ssa.TypeAssert:
		t := x.AssertedType
		if !refLike(t) {
			return false
		}
		return s.set(x, m.val(s, x.X))
	case *ssa.Slice:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return false
		}
		v := m.val(s, x.X)
		if x.High != nil && x.Max == nil {
			w := mset{}
			for r := range v {
				r.short = true
				w[r] = true
			}
			v = w
		}
		return s.set(x, v)
	case *ssa.SliceToArrayPointer:
		return s.set(x, m.val(s, x.X))
	case *ssa.Convert:
		if refLike(x.Type()) && refLike(x.X.Type()) {
			return s.set(x, m.val(s, x.X))
		}
		if refLike(x.Type()) {
			return s.set(x, one(s.obj(m, mobj{param: -1, site: in})))
		}
	case *ssa.Return:
		for len(s.rets) < len(x.Results) {
			s.rets = append(s.rets, mset{})
		}
		for i, r := range x.Results {
			if refLike(r.Type()) && s.rets[i].add(m.val(s, r)) {
				ch = true
			}
		}
	case *ssa.Send:
		for r := range m.val(s, x.Chan) {
			if m.store(s, mref{o: r.o, path: r.path + "[]"}, m.val(s, x.X), x.X.Type()) {
				ch = true
			}
		}
	case ssa.CallInstruction:
		return m.call(s, x)
	}
	return ch
}

func (m *modref) call(s *msum, in ssa.CallInstruction) bool {
	c := in.Common()
	var res ssa.Value
	if v, ok := in.(*ssa.Call); ok {
		res = v
	}
	var args []mset
	for _, a := range c.Args {
		args = append(args, m.val(s, a))
	}
	if c.IsInvoke() {
		recv := m.val(s, c.Value)
		args = append([]mset{recv}, args...)
		ch := false
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range m.impls[c.Method.Name()] {
			if f.Signature.Recv() == nil || it == nil {
				continue
			}
			if !types.Implements(f.Signature.Recv().Type(), it) {
				continue
			}
			if m.apply(s, in, f, args, res) {
				ch = true
			}
		}
		if m.external(s, in, "(iface)."+c.Method.Name(), c.Value.Type(), args, res) {
			ch = true
		}
		return ch
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return m.builtin(s, in, b.Name(), c.Args, args, res)
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				args = append(args, m.val(s, b))
			}
		}
		if m.sums[f] != nil {
			return m.apply(s, in, f, args, res)
		}
		return m.external(s, in, eng.FuncName(f), nil, args, res)
	}
	// a function value
	ch := false
	for r := range m.val(s, c.Value) {
		if r.o.fn == nil || m.sums[r.o.fn] == nil {
			continue
		}
		a := args
		for _, b := range r.o.bind {
			st := mset{}
			for _, y := range b {
				st[y] = true
			}
			a = append(append([]mset{}, a...), st)
		}
		if m.apply(s, in, r.o.fn, a, res) {
			ch = true
		}
	}
	return ch
}

// setRes gives a call its result values.
func (s *msum) setRes(m *modref, res ssa.Value, i, n int, v mset) bool {
	if res == nil {
		return false
	}
	if n > 1 {
		w := mset{}
		for r := range v {
			w[mref{o: r.o, path: fmt.Sprintf("#%d", i) + r.path}] = true
		}
		v = w
	}
	return s.set(res, v)
}

func (m *modref) apply(s *msum, in ssa.CallInstruction, f *ssa.Function, args []mset, res ssa.Value) bool {
	cs := m.sums[f]
	if cs == nil {
		return false
	}
	ch := false
	inst := in.(ssa.Instruction)
	var keys []string
	for k := range cs.mods {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		md := cs.mods[k]
		for r := range m.resolve(s, md.o, args, inst, cs) {
			if md.kind == "append" {
				kind := "append"
				if r.short {
					kind = "append to a reslice"
				} else if r.o.glob != nil && spareCap(r.o.glob) {
					kind = "append within the capacity"
				} else if r.o.param < 0 {
					continue
				}
				if m.mod(s, mref{o: r.o, path: r.path + md.path}, kind, md.in, inst, md.fn) {
					ch = true
				}
				continue
			}
			if m.mod(s, mref{o: r.o, path: r.path + md.path}, md.kind, md.in, inst, md.fn) {
				ch = true
			}
		}
	}
	// what the callee stored
	live := map[*mobj]bool{}
	var mark func(o *mobj)
	mark = func(o *mobj) {
		if live[o] {
			return
		}
		live[o] = true
		for k, v := range cs.cont {
			if k.o == o {
				for r := range v {
					mark(r.o)
				}
			}
		}
		for _, cp := range cs.copys[o] {
			mark(cp.src.o)
		}
		for _, b := range o.bind {
			for _, r := range b {
				mark(r.o)
			}
		}
	}
	for _, v := range cs.rets {
		for r := range v {
			mark(r.o)
		}
	}
	for k := range cs.cont {
		if !k.o.fresh() {
			mark(k.o)
		}
	}
	for o := range cs.copys {
		if !o.fresh() {
			mark(o)
		}
	}
	tr := func(v mset) mset {
		out := mset{}
		for r := range v {
			for q := range m.resolve(s, r.o, args, inst, cs) {
				if q.o.fn != nil && len(r.o.bind) > 0 && q.o.bind == nil {
					q.o.bind = make([][]mref, len(r.o.bind))
				}
				if q.o.fn != nil {
					for i, b := range r.o.bind {
						for _, y := range b {
							for z := range m.resolve(s, y.o, args, inst, cs) {
								z = mref{o: z.o, path: z.path + y.path}
								dup := false
								for _, w := range q.o.bind[i] {
									if w == z {
										dup = true
									}
								}
								if !dup && len(q.o.bind[i]) < 100 {
									q.o.bind[i] = append(q.o.bind[i], z)
									ch = true
								}
							}
						}
					}
				}
				out[mref{o: q.o, path: q.path + r.path}] = true
			}
		}
		return out
	}
	for k, v := range cs.cont {
		if !live[k.o] {
			continue
		}
		w := tr(v)
		if len(w) == 0 {
			continue
		}
		for r := range m.resolve(s, k.o, args, inst, cs) {
			kk := mkey{r.o, r.path + k.path}
			if s.cont[kk] == nil {
				s.cont[kk] = mset{}
			}
			if s.cont[kk].add(w) {
				ch = true
			}
		}
	}
	for o, l := range cs.copys {
		if !live[o] {
			continue
		}
		for r := range m.resolve(s, o, args, inst, cs) {
			for _, cp := range l {
				for q := range m.resolve(s, cp.src.o, args, inst, cs) {
					n := mcopy{r.path + cp.dst, mref{o: q.o, path: q.path + cp.src.path}}
					if q.o == r.o && n.dst == n.src.path {
						continue
					}
					dup := false
					for _, y := range s.copys[r.o] {
						if y == n {
							dup = true
						}
					}
					if !dup && len(s.copys[r.o]) < 200 {
						s.copys[r.o] = append(s.copys[r.o], n)
						ch = true
					}
				}
			}
		}
	}
	for i, v := range cs.rets {
		if s.setRes(m, res, i, len(cs.rets), tr(v)) {
			ch = true
		}
	}
	for _, p := range cs.pub {
		for r := range m.resolve(s, p.o, args, inst, cs) {
			if m.publish(s, r.o, p.glob, inst) {
				ch = true
			}
		}
	}
	return ch
}

func (m *modref) builtin(s *msum, in ssa.CallInstruction, name string, av []ssa.Value, args []mset, res ssa.Value) bool {
	ch := false
	inst := in.(ssa.Instruction)
	elemT := func(v ssa.Value) types.Type {
		switch u := v.Type().Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Map:
			return u.Elem()
		}
		return types.Typ[types.Int]
	}
	modAll := func(v mset, kind string) {
		for r := range v {
			if m.mod(s, mref{o: r.o, path: r.path + "[]"}, kind, inst, inst, s.fn) {
				ch = true
			}
		}
	}
	copyElems := func(dst mset, src mset, t types.Type) {
		for r := range dst {
			l := mref{o: r.o, path: r.path + "[]"}
			if m.store(s, l, m.load(s, shift(src, "[]"), t), t) {
				ch = true
			}
		}
	}
	switch name {
	case "append":
		n := one(s.obj(m, mobj{param: -1, site: inst}))
		t := elemT(av[0])
		copyElems(n, args[0], t)
		if len(args) > 1 {
			copyElems(n, args[1], t)
			copyElems(args[0], args[1], t)
		}
		r := mset{}
		r.add(n)
		if sl, ok := av[0].(*ssa.Slice); ok && sl.Max != nil {
			// a copy is made
			if s.set(res, n) {
				ch = true
			}
			return ch
		}
		for q := range args[0] {
			kind := "append"
			if q.short {
				kind = "append to a reslice"
			} else if q.o.glob != nil && spareCap(q.o.glob) {
				kind = "append within the capacity"
			} else if q.o.param < 0 {
				continue
			}
			if m.mod(s, mref{o: q.o, path: q.path + "[]"}, kind, inst, inst, s.fn) {
				ch = true
			}
		}
		r.add(args[0])
		if s.set(res, r) {
			ch = true
		}
	case "copy":
		modAll(args[0], "copy")
		copyElems(args[0], args[1], elemT(av[0]))
	case "delete":
		modAll(args[0], "delete")
	case "clear":
		modAll(args[0], "clear")
	case "ssa:wrapnilchk":
		if s.set(res, args[0]) {
			ch = true
		}
	case "min", "max":
	}
	return ch
}

// extMut lists library functions which write to the elements or fields
// reachable from an argument (by number).
var extMut = map[string]int{
	"sort.Strings": 0, "sort.Ints": 0, "sort.Float64s": 0, "sort.Slice": 0, "sort.SliceStable": 0, "sort.Sort": 0, "sort.Stable": 0,
	"slices.Sort": 0, "slices.SortFunc": 0, "slices.SortStableFunc": 0, "slices.Reverse": 0, "slices.Delete": 0, "slices.DeleteFunc": 0,
	"slices.Compact": 0, "slices.CompactFunc": 0, "slices.Replace": 0, "slices.Insert": 0, "maps.Copy": 0, "maps.DeleteFunc": 0, "maps.Insert": 0,
	"(net/url.Values).Set": 0, "(net/url.Values).Add": 0, "(net/url.Values).Del": 0,
	"(net/http.Header).Set": 0, "(net/http.Header).Add": 0, "(net/http.Header).Del": 0,
	"math/rand.Shuffle": 1, "io.ReadFull": 1, "io.ReadAtLeast": 1, "encoding/json.Unmarshal": 1, "encoding/hex.Decode": 0, "encoding/hex.Encode": 0,
	"(*net/url.URL).UnmarshalBinary": 0,
}

// extSelf lists library functions whose result shares memory with an argument.
var extSelf = map[string]int{
	"slices.Clip": 0, "slices.Grow": 0, "slices.Delete": 0, "slices.DeleteFunc": 0, "slices.Compact": 0, "slices.CompactFunc": 0, "slices.Insert": 0, "slices.Replace": 0,
	"bytes.TrimSpace": 0, "bytes.Trim": 0, "bytes.TrimRight": 0, "bytes.TrimLeft": 0, "bytes.TrimPrefix": 0, "bytes.TrimSuffix": 0, "bytes.Fields": 0, "bytes.Split": 0, "bytes.SplitN": 0,
	"(net.IP).To4": 0, "(net.IP).To16": 0, "reflect.ValueOf": 0, "reflect.Indirect": 0, "(reflect.Value).Elem": 0, "(reflect.Value).Field": 0, "(reflect.Value).FieldByIndex": 0,
	"(reflect.Value).FieldByName": 0, "(reflect.Value).Index": 0, "(reflect.Value).MapIndex": 0, "(reflect.Value).Interface": 0, "(reflect.Value).Addr": 0, "reflect.Append": 0,
	"sort.StringSlice": 0, "sort.Reverse": 0, "maps.Keys": 0, "maps.Values": 0, "slices.Values": 0, "slices.All": 0,
	"bytes.NewReader": 0, "bytes.NewBuffer": 0, "context.WithValue": 0,
}

func (m *modref) external(s *msum, in ssa.CallInstruction, key string, it types.Type, args []mset, res ssa.Value) bool {
	ch := false
	inst := in.(ssa.Instruction)
	deep := func(v mset, kind string) {
		for r := range v {
			p := r.path
			if m.mod(s, mref{o: r.o, path: p + "[]"}, kind, inst, inst, s.fn) {
				ch = true
			}
		}
	}
	if i, ok := extMut[key]; ok && i < len(args) {
		deep(args[i], key)
	}
	if len(args) > 0 && mutRecv(key) {
		for r := range args[0] {
			if m.mod(s, r, key, inst, inst, s.fn) {
				ch = true
			}
		}
	}
	elems := func(dst, src mset) {
		v := mset{}
		for r := range shift(src, "[]") {
			v.add(s.contents(m, r))
		}
		for r := range dst {
			k := mkey{r.o, r.path + "[]"}
			if s.cont[k] == nil {
				s.cont[k] = mset{}
			}
			if s.cont[k].add(v) {
				ch = true
			}
		}
	}
	switch key {
	case "maps.Copy":
		elems(args[0], args[1])
	case "slices.Clone", "maps.Clone", "slices.Concat", "slices.Collect", "slices.Sorted", "slices.SortedFunc", "maps.Collect":
		if res == nil {
			return ch
		}
		o := one(s.obj(m, mobj{param: -1, site: inst, sub: "x0"}))
		elems(o, args[0])
		return s.set(res, o) || ch
	}
	if strings.HasPrefix(key, "(reflect.Value).Set") {
		for r := range args[0] {
			if m.mod(s, r, key, inst, inst, s.fn) {
				ch = true
			}
		}
		if len(args) > 1 {
			for r := range args[0] {
				if m.store(s, r, args[len(args)-1], types.NewInterfaceType(nil, nil)) {
					ch = true
				}
			}
		}
	}
	switch key {
	case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap":
		for r := range args[0] {
			if r.o.glob != nil && r.o.steps == "" {
				for v := range args[2] {
					if m.publish(s, v.o, r.o.glob, inst) {
						ch = true
					}
				}
			}
		}
	case "(*sync.Pool).Put", "(*sync/atomic.Value).Store", "(*sync/atomic.Pointer).Store":
		for r := range args[0] {
			if r.o.glob != nil && key != "(*sync.Pool).Put" {
				for v := range args[1] {
					if m.publish(s, v.o, r.o.glob, inst) {
						ch = true
					}
				}
			}
		}
	}
	switch key {
	case "(*sync.Map).Load", "(*sync.Map).LoadOrStore", "(*sync.Map).LoadAndDelete", "(*sync/atomic.Value).Load", "(*sync/atomic.Pointer).Load":
		v := mset{}
		for r := range args[0] {
			v.add(s.contents(m, mref{o: r.o, path: r.path + "[]"}))
		}
		n := 1
		if strings.HasPrefix(key, "(*sync.Map)") {
			n = 2
		}
		return s.setRes(m, res, 0, n, v) || ch
	}
	if i, ok := extSelf[key]; ok && i < len(args) && res != nil {
		if s.set(res, args[i]) {
			ch = true
		}
		return ch
	}
	if res != nil {
		t := res.Type()
		n := 1
		if tt, ok := t.(*types.Tuple); ok {
			n = tt.Len()
		}
		for i := 0; i < n; i++ {
			rt := t
			if tt, ok := t.(*types.Tuple); ok {
				rt = tt.At(i).Type()
			}
			if !refLike(rt) {
				continue
			}
			if s.setRes(m, res, i, n, one(s.obj(m, mobj{param: -1, site: inst, sub: fmt.Sprint("x", i)}))) {
				ch = true
			}
		}
	}
	return ch
}

func (m *modref) publish(s *msum, o *mobj, g *ssa.Global, in ssa.Instruction) bool {
	if o.glob != nil || o.fn != nil {
		return false
	}
	for _, p := range s.pub {
		if p.o == o && p.in == in {
			return false
		}
	}
	s.pub = append(s.pub, mpub{o, g, in})
	return true
}

// plainCell: is the variable only read and assigned, and at most read by
// closures?
func plainCell(a *ssa.Alloc) bool {
	if isAggr(a.Type().Underlying().(*types.Pointer).Elem()) {
		return false
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != a || x.Val == a {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b != a {
					continue
				}
				for _, q := range *f.FreeVars[i].Referrers() {
					switch q.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

// reachingStores lists the values the variable may hold at a load.
func reachingStores(a *ssa.Alloc, at ssa.Instruction) []ssa.Value {
	var out []ssa.Value
	last := func(b *ssa.BasicBlock, end int) ssa.Value {
		for i := end - 1; i >= 0; i-- {
			if st, ok := b.Instrs[i].(*ssa.Store); ok && st.Addr == a {
				return st.Val
			}
		}
		return nil
	}
	b := at.Block()
	end := len(b.Instrs)
	for i, in := range b.Instrs {
		if in == at {
			end = i
		}
	}
	if v := last(b, end); v != nil {
		return []ssa.Value{v}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		for _, p := range b.Preds {
			if seen[p] {
				continue
			}
			seen[p] = true
			if v := last(p, len(p.Instrs)); v != nil {
				out = append(out, v)
				continue
			}
			walk(p)
		}
	}
	walk(b)
	return out
}

// mutRecv: does the library method change its receiver without locking?
func mutRecv(key string) bool {
	for _, p := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "(*bufio.", "(*math/rand.Rand).", "(*math/rand/v2.Rand).", "(*text/tabwriter.Writer).", "(*encoding/json.Decoder).", "(*encoding/json.Encoder).", "(*container/list.List).", "(*encoding/csv."} {
		if strings.HasPrefix(key, p) {
			i := strings.LastIndexByte(key, '.')
			switch key[i+1:] {
			case "String", "Len", "Cap", "Bytes", "Available":
				return false
			}
			return true
		}
	}
	switch key {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "io.Copy":
		return false // the writer decides
	}
	return false
}

// spareCap: may the slice a global is initialised with have unused capacity?
func spareCap(g *ssa.Global) bool {
	if _, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice); !ok || g.Pkg == nil {
		return false
	}
	f := g.Pkg.Func("init")
	if f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != g {
				continue
			}
			switch x := st.Val.(type) {
			case *ssa.MakeSlice:
				return x.Cap != x.Len
			case *ssa.Slice:
				return x.High != nil && x.Max == nil
			}
		}
	}
	return false
}
