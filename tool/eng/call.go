package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callRes struct {
	s *bstate
	v *Term
}

// callArgs evaluates the callee (nil for interface calls) and arguments.
func (e *Engine) callArgs(s *bstate, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var callee *Term
	if c.IsInvoke() {
		args = append(args, e.val(s, c.Value))
	} else {
		callee = e.val(s, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	return callee, args
}

// FuncName is the full name of a function, without type arguments.
func FuncName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func resType(sig *types.Signature) types.Type {
	r := sig.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func (e *Engine) doCall(s *bstate, fr *Frame, c *ssa.CallCommon, callee *Term, args []*Term, in ssa.Instruction, deferred bool) []callRes {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(s, fr, b.Name(), c, args, in)
	}
	if c.IsInvoke() {
		return e.invoke(s, fr, c, args, in, deferred)
	}
	return e.callValue(s, fr, callee, c.Signature(), args, in, deferred)
}

func (e *Engine) callValue(s *bstate, fr *Frame, callee *Term, sig *types.Signature, args []*Term, in ssa.Instruction, deferred bool) []callRes {
	switch callee.Op {
	case OFunc:
		return e.callFn(s, fr, callee.Fn, nil, args, in, deferred)
	case OClosure:
		return e.callFn(s, fr, callee.Fn, callee.Args, args, in, deferred)
	case OJoin:
		var out []callRes
		for _, x := range callee.Args {
			if x.Op == ONil {
				continue
			}
			out = append(out, e.callValue(s.clone(), fr, x, sig, args, in, deferred)...)
		}
		return out
	case OCall:
		if (callee.S == "sync.OnceValue" || callee.S == "sync.OnceFunc") && len(callee.Args) == 1 {
			return e.callValue(s, fr, callee.Args[0], sig, args, in, deferred)
		}
	}
	if !e.checkNil(s.State, callee, fr, in) {
		return nil
	}
	ev := &Event{Key: "dyn", Kind: "dyn", Args: append([]*Term{callee}, args...), Raw: append([]*Term{callee}, args...), Instr: in, Fn: fr.Fn, Defer: deferred}
	// a cancel function etc. is named by the call it came from
	if callee.Op == OExtract && callee.Args[0].Op == OCall {
		ev.Key = callee.Args[0].S + "#" + strconv.Itoa(callee.I)
	}
	ev.Res = e.mk(Term{Op: OCall, S: "dyn", Args: append([]*Term{callee}, args...), I: e.inst(in, fr), T: resType(sig)})
	return e.finish(s, fr, ev)
}

func (e *Engine) inst(in ssa.Instruction, fr *Frame) int {
	k := fmt.Sprintf("%p@%d", in, fr.Ctx)
	if id, ok := e.insts[k]; ok {
		return id
	}
	id := len(e.insts) + 1
	e.insts[k] = id
	return id
}

func (e *Engine) finish(s *bstate, fr *Frame, ev *Event) []callRes {
	if e.H.Override != nil {
		if t := e.H.Override(s.State, ev); t != nil {
			ev.Res = t
		}
	}
	e.event(s.State, ev, fr)
	if s.State.Dead {
		return nil
	}
	return []callRes{{s, ev.Res}}
}

// inlined: functions of the standard library whose bodies are analysed.
var inlined = map[string]bool{"slices.IndexFunc": true, "slices.ContainsFunc": true, "slices.All": true, "slices.Values": true, "slices.Backward": true}

func outermost(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func (e *Engine) isRepo(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if o := outermost(fn).Origin(); o != nil && o.Pkg != nil && !e.Repo[o.Pkg] {
		return inlined[o.String()]
	}
	if fn.Pkg != nil {
		return e.Repo[fn.Pkg]
	}
	return true // wrappers and instances with a body
}

func (e *Engine) callFn(s *bstate, fr *Frame, fn *ssa.Function, bind, args []*Term, in ssa.Instruction, deferred bool) []callRes {
	if o := fn.Origin(); o != nil && o.String() == "reflect.TypeFor" && len(fn.TypeArgs()) == 1 {
		return []callRes{{s, e.RType(fn.TypeArgs()[0])}}
	}
	if !e.isRepo(fn) {
		return e.external(s, fr, fn, FuncName(fn), args, in, deferred)
	}
	opaque := e.H.Opaque != nil && e.H.Opaque(fn)
	rec := onStack(fr, fn) > e.H.Rec
	if fn.Parent() != nil && !opaque && onStack(fr, fn) == 0 {
		rec = false
	}
	if opaque || rec {
		kind := "call"
		if rec && !opaque {
			kind = "recurse"
		}
		ev := &Event{Key: FuncName(fn), Kind: kind, Instr: in, Fn: fr.Fn, Defer: deferred, Raw: args}
		for _, a := range args {
			ev.Args = append(ev.Args, e.snapshot(s.State, a))
		}
		ev.Res = e.mk(Term{Op: OCall, S: ev.Key, Args: ev.Args, I: e.inst(in, fr), T: resType(fn.Signature)})
		if kind == "recurse" {
			e.havocArgs(s.State, args, ev.Res)
		}
		return e.finish(s, fr, ev)
	}
	if fr != nil && fr.depth > 60 {
		panic(limitError{"call depth"})
	}
	outs := e.call(fn, args, bind, s.State, fr, in)
	var res []callRes
	for _, o := range outs {
		if o.Panic {
			continue
		}
		n := &bstate{State: o.St, env: make(map[ssa.Value]*Term, len(s.env)+4), defers: s.defers}
		for k, v := range s.env {
			n.env[k] = v
		}
		n.Loops = s.Loops
		var v *Term
		if len(o.Rets) == 1 {
			v = o.Rets[0]
		} else {
			v = e.Tuple(o.Rets...)
		}
		res = append(res, callRes{n, v})
	}
	return res
}

func (e *Engine) invoke(s *bstate, fr *Frame, c *ssa.CallCommon, args []*Term, in ssa.Instruction, deferred bool) []callRes {
	r := args[0]
	if r.Op == OJoin {
		all := true
		for _, x := range r.Args {
			if x.Op != OIface && x.Op != ONil {
				all = false
			}
		}
		if all {
			var out []callRes
			for _, x := range r.Args {
				if x.Op == ONil {
					continue
				}
				out = append(out, e.invoke(s.clone(), fr, c, append([]*Term{x}, args[1:]...), in, deferred)...)
			}
			return out
		}
	}
	if r.Op != OIface {
		if r.IsNil() {
			e.Conds = []*Term{e.BoolC(false)}
			e.check(s.State, "nil", false, func() string { return "method call on nil interface" }, fr, in)
			return nil
		}
		d := e.Dyn(r)
		if av := s.F.av[d]; av != nil && av.Fin && len(av.In) == 1 && av.In[0].Op == OType && e.repoType(av.In[0].T) {
			r = e.mk(Term{Op: OIface, Args: []*Term{e.mk(Term{Op: OAssert, Args: []*Term{r}, T: av.In[0].T})}, T: av.In[0].T})
		}
	}
	if r.Op == OIface {
		if fn := e.Prog.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name()); fn != nil {
			a := append([]*Term{r.Args[0]}, args[1:]...)
			return e.callFn(s, fr, fn, nil, a, in, deferred)
		}
	}
	if !e.checkNilIface(s.State, r, fr, in) {
		return nil
	}
	key := "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	return e.externalSig(s, fr, key, "invoke", c.Signature(), args, in, deferred)
}

func (e *Engine) repoType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := e.Prog.Package(n.Obj().Pkg())
	return p != nil && e.Repo[p]
}

func (e *Engine) checkNilIface(st *State, r *Term, fr *Frame, in ssa.Instruction) bool {
	return e.checkNil(st, r, fr, in)
}

func (e *Engine) builtin(s *bstate, fr *Frame, name string, c *ssa.CallCommon, args []*Term, in ssa.Instruction) []callRes {
	st := s.State
	one := func(v *Term) []callRes { return []callRes{{s, v}} }
	var rt types.Type
	if v, ok := in.(ssa.Value); ok {
		rt = v.Type()
	}
	switch name {
	case "len":
		x := args[0]
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return one(e.Len(e.MapContent(st, x)))
		}
		if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return one(e.IntC(a.Len()))
			}
		}
		ln := e.Len(x)
		if e.H.PeelConst > 0 && !ln.IsConst() {
			if v, ok := st.AVOf(ln).Values(1); ok && len(v) == 1 {
				return one(e.IntC(v[0]))
			}
		}
		return one(ln)
	case "cap":
		return one(e.mk(Term{Op: OCap, Args: []*Term{args[0]}, T: types.Typ[types.Int]}))
	case "append":
		base := args[0]
		if e.H.OnStore != nil && len(args) > 1 {
			e.H.OnStore(st, "append", base, nil, args[1], fr, in)
		}
		if len(args) == 1 {
			return one(base)
		}
		if base.Op == OAlloc || base.Op == OSlice && base.Args[0].Op == OAlloc {
			if b := e.Elems(st, base); b != nil {
				base = e.listOf(rt, b)
			}
		}
		x := args[1]
		if el := e.Elems(st, x); el != nil {
			return one(e.Append(rt, base, el...))
		}
		x = e.snapshot(st, x)
		if base.IsNil() {
			// a copy of x: keep it distinct, the backing array is new
		}
		return one(e.mk(Term{Op: OAppendAll, Args: []*Term{base, x}, T: rt}))
	case "copy":
		dst, src := args[0], args[1]
		if e.H.OnStore != nil {
			e.H.OnStore(st, "copy", dst, nil, src, fr, in)
		}
		src = e.snapshot(st, src)
		r := e.mk(Term{Op: OCall, S: "builtin.copy", Args: []*Term{e.Len(dst), e.Len(src)}, T: types.Typ[types.Int]})
		e.refine(st, r, avGE(0))
		e.assumeLe(st, r, e.Len(dst), 0)
		e.assumeLe(st, r, e.Len(src), 0)
		root := dst
		for root.Op == OSlice {
			root = root.Args[0]
		}
		for k := range st.heap {
			if k.Op == OIndexAddr && k.Args[0] == root {
				delete(st.heap, k)
			}
		}
		if root == dst && dst.Op == OAlloc && e.Decide(st, e.Eq(e.Len(dst), e.Len(src))) == 1 {
			st.heap[e.Contents(dst)] = src
			return one(e.Len(dst))
		}
		st.heap[e.Contents(root)] = e.Sym("copied:"+e.site(in, fr), root.T)
		return one(r)
	case "delete":
		m := args[0]
		if e.H.OnStore != nil {
			e.H.OnStore(st, "mapdelete", m, args[1], nil, fr, in)
		}
		e.SetMapContent(st, m, e.mk(Term{Op: OMapDel, Args: []*Term{e.MapContent(st, m), args[1]}}))
		return one(e.nilT)
	case "clear":
		if e.H.OnStore != nil {
			e.H.OnStore(st, "clear", args[0], nil, nil, fr, in)
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			e.SetMapContent(st, args[0], e.mk(Term{Op: OMapEmpty}))
		} else {
			e.havocRoot(st, Root(args[0]), "clear:"+e.site(in, fr))
		}
		return one(e.nilT)
	case "min", "max":
		r := args[0]
		for _, b := range args[1:] {
			a := r
			switch e.Decide(st, e.Lt(b, a)) {
			case 1:
				if name == "min" {
					r = b
				}
			case -1:
				if name == "max" {
					r = b
				}
			default:
				r = e.mk(Term{Op: OCall, S: "builtin." + name, Args: []*Term{a, b}, T: rt})
				if isInt(rt) {
					if name == "min" {
						e.assumeLe(st, r, a, 0)
						e.assumeLe(st, r, b, 0)
					} else {
						e.assumeLe(st, a, r, 0)
						e.assumeLe(st, b, r, 0)
					}
				}
			}
		}
		return one(r)
	case "panic":
		e.check(st, "panic", false, func() string { return "panic" }, fr, in)
		return nil
	case "ssa:wrapnilchk":
		if !e.checkNil(st, args[0], fr, in) {
			return nil
		}
		return one(args[0])
	case "recover":
		return one(e.nilT)
	case "print", "println", "close":
		ev := &Event{Key: "builtin." + name, Kind: "call", Args: args, Raw: args, Instr: in, Fn: fr.Fn, Res: e.nilT}
		return e.finish(s, fr, ev)
	}
	return one(e.Sym("builtin:"+name+":"+e.site(in, fr), rt))
}

func (e *Engine) listOf(t types.Type, els []*Term) *Term {
	if len(els) == 0 {
		return e.nilT
	}
	return e.Append(t, e.nilT, els...)
}

// snapshot makes the current content of an argument part of its term.
func (e *Engine) snapshot(st *State, a *Term) *Term {
	if a == nil || a.T == nil {
		return a
	}
	switch u := a.T.Underlying().(type) {
	case *types.Pointer:
		if a.Op == OJoin || a.IsNil() {
			return a
		}
		s, ok := u.Elem().Underlying().(*types.Struct)
		if !ok || a.Op == OGlobal {
			return a
		}
		if t := strings.TrimPrefix(shortType(u.Elem()), "*"); t == "strings.Builder" || t == "bytes.Buffer" || t == "sync.Mutex" {
			return a
		}
		if e.hasSub(st, a, s) {
			return e.Load(st, a, u.Elem())
		}
		if v, ok := e.heapGet(st, a); ok {
			return v
		}
		if a.Op == OAlloc {
			return e.Zero(u.Elem())
		}
	case *types.Map:
		c := e.MapContent(st, a)
		if c.Op == OMapInit {
			return a
		}
		return c
	case *types.Slice:
		root := a
		for root.Op == OSlice {
			root = root.Args[0]
		}
		if root.Op == OAlloc {
			if strings.HasPrefix(root.S, "slice:") {
				if c, ok := st.heap[e.Contents(root)]; ok {
					if root == a {
						return c
					}
					return e.SliceT(c, a.Args[1], a.Args[2], a.T)
				}
				return a
			}
			if el := e.Elems(st, a); el != nil {
				return e.listOf(a.T, el)
			}
			if w, ok := e.arrayWhole(st, root); ok && a.Op == OSlice {
				c := e.mk(Term{Op: OConv, Args: []*Term{w}, T: a.T})
				if root == a.Args[0] {
					return e.SliceT(c, a.Args[1], a.Args[2], a.T)
				}
				return c
			}
		}
	}
	return a
}

// havocRoot forgets what is known about an object.
func (e *Engine) havocRoot(st *State, root *Term, tag string) {
	var ks []*Term
	for k := range st.heap {
		if Root(k) == root {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, k := range ks {
		t := k.Args
		_ = t
		if k.Op == OContents {
			if k.S != "" {
				continue
			}
			st.heap[k] = e.Sym(tag+"·"+strconv.Itoa(k.ID), k.Args[0].T)
			continue
		}
		st.heap[k] = e.Sym(tag+"·"+strconv.Itoa(k.ID), ptrElem(k.T))
	}
}

func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// havocArgs: an unknown function may write through its pointer arguments.
func (e *Engine) havocArgs(st *State, args []*Term, res *Term) {
	for i, a := range args {
		x := a
		if x.Op == OIface {
			x = x.Args[0]
		}
		e.havocPtr(st, x, "hv:"+strconv.Itoa(res.ID)+":"+strconv.Itoa(i))
	}
}

func (e *Engine) havocPtr(st *State, x *Term, tag string) {
	switch x.Op {
	case OJoin:
		for _, y := range x.Args {
			e.havocPtr(st, y, tag)
		}
	case OAlloc:
		if x.T == nil {
			return
		}
		if p, ok := x.T.Underlying().(*types.Pointer); ok {
			e.havocRoot(st, x, tag)
			if _, isS := p.Elem().Underlying().(*types.Struct); !isS {
				st.heap[x] = e.Sym(tag, p.Elem())
			} else {
				for k := range st.heap {
					if k != x && under(k, x) {
						delete(st.heap, k)
					}
				}
				st.heap[x] = e.Sym(tag, p.Elem())
			}
		} else if _, ok := x.T.Underlying().(*types.Map); ok {
			st.heap[e.Contents(x)] = e.Sym(tag, x.T)
		} else if _, ok := x.T.Underlying().(*types.Slice); ok {
			for k := range st.heap {
				if k.Op == OIndexAddr && k.Args[0] == x {
					delete(st.heap, k)
				}
			}
			st.heap[e.Contents(x)] = e.Sym(tag, x.T)
		}
	case OFieldAddr, OIndexAddr:
		if Root(x).Op == OAlloc {
			st.heap[x] = e.Sym(tag, ptrElem(x.T))
		}
	case OSlice:
		e.havocPtr(st, x.Args[0], tag)
	}
}

// runCallback analyses a function value handed to code we do not see, for any
// number of calls: what it writes is widened. It returns the outcomes of one
// generic call.
// predicate evaluates a function value without recording checks; nil if it
// cannot be followed.
func (e *Engine) predicate(s *bstate, fr *Frame, f *Term, args []*Term, in ssa.Instruction) []*Outcome {
	if f.Op == OIface {
		f = f.Args[0]
	}
	if f.Op != OFunc && f.Op != OClosure || !e.isRepo(f.Fn) || onStack(fr, f.Fn) > 0 || e.H.Opaque != nil && e.H.Opaque(f.Fn) {
		return nil
	}
	h := *e.H
	h.OnCall, h.OnCheck, h.OnStore, h.OnEnter, h.Keep = nil, nil, nil, nil, nil
	old := e.H
	e.H = &h
	defer func() { e.H = old }()
	mark := len(e.records)
	outs := e.call(f.Fn, args, f.Args, s.State.Clone(), fr, in)
	e.records = e.records[:mark]
	for _, o := range outs {
		o.St.Trace = s.Trace
	}
	return outs
}

func (e *Engine) runCallback(s *bstate, fr *Frame, f *Term, args []*Term, in ssa.Instruction) []*Outcome {
	if f.Op == OIface {
		f = f.Args[0]
	}
	if f.Op != OFunc && f.Op != OClosure || !e.isRepo(f.Fn) {
		return nil
	}
	if onStack(fr, f.Fn) > 0 || e.H.Opaque != nil && e.H.Opaque(f.Fn) {
		return nil
	}
	var outs []*Outcome
	given := map[*Term]bool{}
	for _, a := range append(append([]*Term{}, f.Args...), args...) {
		given[Root(a)] = true
	}
	for pass := 0; ; pass++ {
		mark := len(e.records)
		outs = e.call(f.Fn, args, f.Args, s.State, fr, in)
		changed := false
		for _, o := range outs {
			for k, v := range o.St.heap {
				if old, ok := s.heap[k]; ok && old != v {
					sym := e.Sym("cb·"+strconv.Itoa(k.ID)+"·"+strconv.Itoa(e.inst(in, fr)), v.T)
					if s.heap[k] != sym {
						s.heap[k] = sym
						changed = true
					}
				} else if !ok && (Root(k).Op != OAlloc || given[Root(k)]) && k.Op != OContents {
					sym := e.Sym("cb·"+strconv.Itoa(k.ID)+"·"+strconv.Itoa(e.inst(in, fr)), v.T)
					s.heap[k] = sym
					changed = true
				}
			}
		}
		if !changed || pass > 6 {
			break
		}
		e.records = e.records[:mark]
	}
	return outs
}

var _ = token.ADD

// SliceContent is the content of a slice made here, false if never filled.
func (e *Engine) SliceContent(st *State, x *Term) (*Term, bool) {
	return e.heapGet(st, e.Contents(x))
}
