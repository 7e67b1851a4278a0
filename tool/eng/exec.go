package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Hooks customise an analysis run.
type Hooks struct {
	// Opaque functions are events and not entered.
	Opaque func(fn *ssa.Function) bool
	// OnCall sees every call that is not entered.
	OnCall func(st *State, ev *Event)
	// Keep decides whether an event becomes part of the trace.
	Keep func(ev *Event) bool
	// OnStore sees every store (address, value) and map update (map, key, value).
	OnStore func(st *State, kind string, addr, key, val *Term, fr *Frame, in ssa.Instruction)
	// OnCheck sees every operation that may panic; ok tells whether it was proved safe.
	// Engine.Conds are the conditions for it to be safe.
	OnCheck func(st *State, kind string, ok bool, detail string, fr *Frame, in ssa.Instruction)
	// OnEnter sees every function entered.
	OnEnter func(st *State, fn *ssa.Function, args []*Term)
	// KeepLoops puts loop marks in the trace.
	KeepLoops bool
	// MemoMiss: lookups in package level maps that are filled at run time miss.
	MemoMiss bool
	// Override supplies the result of a call (nil: default).
	Override func(st *State, ev *Event) *Term
	// MaxStates bounds the disjunction kept per program point.
	MaxStates int
	// SplitFacts keeps states with different facts apart, up to this many.
	SplitFacts int
	// Peel executes up to this many iterations of every loop one by one
	// before generalising.
	Peel int
	// PeelConst executes loops whose exit test is decided in every iteration
	// one by one, up to this many iterations.
	PeelConst int
	// ElemValue supplies the initial value of a list element by its address.
	ElemValue func(addr *Term) *Term
	// RevMaps reverses the order in which known maps are iterated.
	RevMaps bool
	// Steps bounds the run.
	Steps int
	// TraceRoots keeps what the events of the trace refer to.
	TraceRoots bool
	// Rec is how often a function may be on the stack again.
	Rec int
}

// Engine analyses one program.
type Engine struct {
	Stopped atomic.Bool // no further analysis
	Conds   []*Term     // see Hooks.OnCheck
	Prog    *ssa.Program
	Pkgs    []*ssa.Package
	Repo    map[*ssa.Package]bool

	fnames     map[*ssa.Function]string
	fnameN     map[string]int
	rtypeT     types.Type
	rvalueT    types.Type
	rfieldT    types.Type
	tt         *termTable
	nilT       *Term
	H          *Hooks
	Origins    map[*Term][]Origin
	originLog  []*Term
	LoopInfos  map[string]*LoopInfo
	LoopList   []*LoopInfo // every solved loop of the run
	globalHeap map[*Term]*Term
	constG     map[*ssa.Global]bool
	mutG       map[*ssa.Global]bool
	initMode   bool

	ctxIDs   map[ctxKey]int
	insts    map[string]int
	traceIDs map[[2]int]int
	evIDs    map[string]int
	loopIDs  map[string]int
	fnInfo   map[*ssa.Function]*fnInfo
	widen    map[string]*widenSet

	records []any
	estores []elemStore
	steps   int
	Entered map[*ssa.Function]bool
	allocN  int

	// statistics
	NStates, NBlocks, NMerges, NCalls, NForced int
}

type ctxKey struct {
	parent int
	in     ssa.Instruction
}

// Origin is a possible value of a widened variable.
type Origin struct {
	Val  *Term
	St   *State
	Init bool
}

// LoopInfo describes a solved loop.
type LoopInfo struct {
	ID     int
	Key    string
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Ctx    int
	MapC   *Term // content of the map ranged over
	Back   []*BackEdge
	Exits  []*LoopExit
	Entry  *State
	Phis   map[*ssa.Phi]*Term // widened values
	Cells  map[*Term]*Term    // widened memory: symbol -> address
	Index  *Term              // value of the induction variable in the header (sym), nil if none
	Outer  []*LoopInfo
}

// BackEdge is a completed generic iteration.
type BackEdge struct {
	St   *State
	Vals map[*ssa.Phi]*Term
	Seg  []*Event
	From *ssa.BasicBlock
}

// LoopExit leaves the loop.
type LoopExit struct {
	St       *State
	From, To *ssa.BasicBlock
	Return   bool
}

type widenSet struct {
	phis  map[*ssa.Phi]bool
	cells map[*Term]types.Type
	bases map[*Term]bool // containers written at varying positions
	nolo  map[*ssa.Phi]bool
	nohi  map[*ssa.Phi]bool
	nolt  map[boundKey]bool
}

// Frame is one function activation.
type Frame struct {
	Fn     *ssa.Function
	Parent *Frame
	Ctx    int
	unroll map[*ssa.BasicBlock]int // loops being unrolled
	Call   ssa.Instruction
	depth  int
	fi     *fnInfo
}

// Stack lists the functions of the frame, innermost first.
func (f *Frame) Stack() []*ssa.Function {
	var r []*ssa.Function
	for x := f; x != nil; x = x.Parent {
		r = append(r, x.Fn)
	}
	return r
}

type deferred struct {
	common *ssa.CallCommon
	args   []*Term
	callee *Term
	in     *ssa.Defer
}

// bstate is a state inside a function.
type bstate struct {
	*State
	env    map[ssa.Value]*Term
	defers []deferred
}

func (b *bstate) clone() *bstate {
	n := &bstate{State: b.State.Clone(), env: make(map[ssa.Value]*Term, len(b.env)+8), defers: b.defers}
	for k, v := range b.env {
		n.env[k] = v
	}
	return n
}

// Outcome is a way a function ends.
type Outcome struct {
	St    *State
	Rets  []*Term
	Panic bool
	In    ssa.Instruction
}

type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	order []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	live  []map[ssa.Value]bool                         // live in, by block index
}

type limitError struct{ msg string }

func (l limitError) Error() string { return l.msg }

// New makes an engine for a program.
func New(prog *ssa.Program, pkgs []*ssa.Package) *Engine {
	e := &Engine{Prog: prog, Pkgs: pkgs, Repo: map[*ssa.Package]bool{}, tt: newTermTable(),
		Origins: map[*Term][]Origin{}, LoopInfos: map[string]*LoopInfo{}, globalHeap: map[*Term]*Term{},
		constG: map[*ssa.Global]bool{}, mutG: map[*ssa.Global]bool{}, ctxIDs: map[ctxKey]int{}, insts: map[string]int{}, traceIDs: map[[2]int]int{}, evIDs: map[string]int{}, loopIDs: map[string]int{},
		fnInfo: map[*ssa.Function]*fnInfo{}, widen: map[string]*widenSet{}, Entered: map[*ssa.Function]bool{}}
	e.nilT = e.tt.mk(Term{Op: ONil})
	for _, p := range pkgs {
		if p != nil {
			e.Repo[p] = true
		}
	}
	lenArg = func(x *Term) *Term {
		b, c := lin(e.Len(x))
		if c != 0 {
			return nil
		}
		return b
	}
	e.H = &Hooks{}
	e.initGlobals()
	return e
}

// Emit records a rule result; results of discarded passes are dropped.
func (e *Engine) Emit(r any) { e.records = append(e.records, r) }

// Run analyses fn from a generic entry state. setup may refine it.
func (e *Engine) Run(fn *ssa.Function, h *Hooks, setup func(st *State, params []*Term) []*Term) (outs []*Outcome, recs []any, err error) {
	if h == nil {
		h = &Hooks{}
	}
	old := e.H
	e.H = h
	e.records = nil
	e.steps = 0
	e.Origins = map[*Term][]Origin{}
	e.originLog = nil
	e.LoopInfos = map[string]*LoopInfo{}
	e.LoopList = nil
	e.estores = nil
	e.widen = map[string]*widenSet{}
	defer func() {
		e.H = old
		if r := recover(); r != nil {
			if l, ok := r.(limitError); ok {
				err = l
				return
			}
			if os.Getenv("RDAPVERIF_DEBUG") != "" {
				panic(r)
			}
			err = fmt.Errorf("internal error: %v", r)
		}
	}()
	if len(fn.Blocks) == 0 {
		return nil, nil, fmt.Errorf("no body for %s", fn)
	}
	st := &State{heap: map[*Term]*Term{}, F: newFacts()}
	var params []*Term
	for i, p := range fn.Params {
		t := e.Param(p.Name(), p.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			t = e.Param(p.Name()+"·recv", p.Type())
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				e.Assume(st, e.Eq(t, e.nilT), false)
			}
		}
		params = append(params, t)
	}
	if setup != nil {
		if p := setup(st, params); p != nil {
			params = p
		}
	}
	outs = e.call(fn, params, nil, st, nil, nil)
	return outs, e.records, nil
}

func (e *Engine) step() {
	e.steps++
	max := e.H.Steps
	if max == 0 {
		max = 3000000
	}
	if e.steps > max || e.Stopped.Load() {
		panic(limitError{"analysis budget exceeded"})
	}
}

func (e *Engine) ctx(parent int, in ssa.Instruction) int {
	k := ctxKey{parent, in}
	if id, ok := e.ctxIDs[k]; ok {
		return id
	}
	id := len(e.ctxIDs) + 1
	e.ctxIDs[k] = id
	return id
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.fnInfo[fn]; ok {
		return fi
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo[post[i]] = len(fi.order)
		fi.order = append(fi.order, post[i])
	}
	for _, b := range fi.order {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				body := fi.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fi.loops[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// liveness
	n := len(fn.Blocks)
	fi.live = make([]map[ssa.Value]bool, n)
	for i := range fi.live {
		fi.live[i] = map[ssa.Value]bool{}
	}
	changed := true
	for changed {
		changed = false
		for i := len(fi.order) - 1; i >= 0; i-- {
			b := fi.order[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.live[s.Index] {
					live[v] = true
				}
				for pi, p := range s.Preds {
					if p == b {
						for _, in := range s.Instrs {
							if phi, ok := in.(*ssa.Phi); ok {
								delete(live, phi)
								live[phi.Edges[pi]] = true
							}
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(live, v)
					}
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if *o != nil {
						live[*o] = true
					}
				}
			}
			for _, in := range b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					live[phi] = live[phi] || false
					if !live[phi] {
						delete(live, phi)
					}
				}
			}
			m := fi.live[b.Index]
			for v := range live {
				switch v.(type) {
				case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
					continue
				}
				if !m[v] {
					m[v] = true
					changed = true
				}
			}
		}
	}
	e.fnInfo[fn] = fi
	return fi
}

func onStack(fr *Frame, fn *ssa.Function) int {
	n := 0
	for x := fr; x != nil; x = x.Parent {
		if x.Fn == fn {
			n++
		}
	}
	return n
}

// call runs a repository function.
func (e *Engine) call(fn *ssa.Function, args, bindings []*Term, st *State, parent *Frame, in ssa.Instruction) []*Outcome {
	fr := &Frame{Fn: fn, Parent: parent, Call: in, fi: e.info(fn)}
	if parent != nil {
		fr.Ctx = e.ctx(parent.Ctx, in)
		fr.depth = parent.depth + 1
	}
	e.Entered[fn] = true
	e.NCalls++
	if e.H.OnEnter != nil {
		e.H.OnEnter(st, fn, args)
	}
	bs := &bstate{State: st.Clone(), env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		if i < len(args) {
			bs.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			bs.env[fv] = bindings[i]
		}
	}
	r := &region{e: e, fr: fr, blocks: nil}
	r.run(fn.Blocks[0], []edgeState{{bs, nil}})
	return e.mergeOutcomes(fr, r.outs)
}

type edgeState struct {
	st   *bstate
	from *ssa.BasicBlock
}

type region struct {
	e      *Engine
	fr     *Frame
	blocks map[*ssa.BasicBlock]bool // nil: all
	header *ssa.BasicBlock
	back   []edgeState
	exits  map[*ssa.BasicBlock][]edgeState
	outs   []*Outcome
}

func (r *region) in(b *ssa.BasicBlock) bool { return r.blocks == nil || r.blocks[b] }

// run processes the region's blocks in reverse post order.
func (r *region) run(entry *ssa.BasicBlock, init []edgeState) {
	e, fi := r.e, r.fr.fi
	r.exits = map[*ssa.BasicBlock][]edgeState{}
	pending := map[*ssa.BasicBlock][]edgeState{entry: init}
	route := func(to *ssa.BasicBlock, es edgeState) {
		switch {
		case r.header != nil && to == r.header:
			r.back = append(r.back, es)
		case !r.in(to):
			r.exits[to] = append(r.exits[to], es)
		default:
			pending[to] = append(pending[to], es)
		}
	}
	for _, b := range fi.order {
		if !r.in(b) {
			continue
		}
		ess := pending[b]
		if len(ess) == 0 {
			continue
		}
		delete(pending, b)
		if body, ok := fi.loops[b]; ok && b != r.header {
			var sts []*bstate
			for _, es := range ess {
				sts = append(sts, r.enter(b, es))
			}
			sts = e.merge(r.fr, b, sts)
			for _, s := range sts {
				ex, outs := e.loop(r.fr, b, body, s)
				r.outs = append(r.outs, outs...)
				for to, l := range ex {
					for _, x := range l {
						route(to, x)
					}
				}
			}
			continue
		}
		var sts []*bstate
		for _, es := range ess {
			if es.from == nil {
				sts = append(sts, es.st)
			} else {
				sts = append(sts, r.enter(b, es))
			}
		}
		sts = e.merge(r.fr, b, sts)
		for _, s := range sts {
			e.NBlocks++
			r.block(b, s, 0, func(to *ssa.BasicBlock, s *bstate) { route(to, edgeState{s, b}) })
		}
	}
	if len(pending) != 0 {
		for b, l := range pending {
			if len(l) > 0 {
				panic(limitError{"irreducible control flow in " + r.fr.Fn.String() + " " + b.String()})
			}
		}
	}
}

// enter evaluates the phis of b for an edge.
func (r *region) enter(b *ssa.BasicBlock, es edgeState) *bstate {
	idx := -1
	for i, p := range b.Preds {
		if p == es.from {
			idx = i
			break
		}
	}
	if idx < 0 {
		return es.st
	}
	s := es.st
	type pv struct {
		p *ssa.Phi
		v *Term
	}
	var vals []pv
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, pv{phi, r.e.val(s, phi.Edges[idx])})
	}
	for _, x := range vals {
		s.env[x.p] = x.v
	}
	return s
}

// merge joins states that agree on everything but facts.
func (e *Engine) merge(fr *Frame, b *ssa.BasicBlock, sts []*bstate) []*bstate {
	if len(sts) == 0 {
		return sts
	}
	live := fr.fi.live[b.Index]
	isPhi := map[ssa.Value]bool{}
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			isPhi[p] = true
		}
	}
	for _, s := range sts {
		for v := range s.env {
			if !live[v] && !isPhi[v] {
				delete(s.env, v)
			}
		}
		e.gc(fr, s)
	}
	if len(sts) == 1 {
		return sts
	}
	key := func(s *bstate) uint64 {
		h := s.State.hash()
		for v, t := range s.env {
			h += mix(uint64(hashVal(e, v)), uint64(t.ID)*31+7)
		}
		h = mix(h, uint64(len(s.defers)))
		return h
	}
	if e.H.SplitFacts > 0 {
		seen := map[uint64]bool{}
		var uniq []*bstate
		for _, s := range sts {
			k := mix(key(s), s.F.hash())
			if !seen[k] {
				seen[k] = true
				uniq = append(uniq, s)
			}
		}
		if len(uniq) <= e.H.SplitFacts {
			e.NStates += len(uniq)
			return uniq
		}
		sts = uniq
	}
	var out []*bstate
	byKey := map[uint64]*bstate{}
	for _, s := range sts {
		k := key(s)
		if o, ok := byKey[k]; ok {
			o.F = e.joinFacts(o.F, s.F)
			e.NMerges++
			continue
		}
		byKey[k] = s
		out = append(out, s)
	}
	max := e.H.MaxStates
	if max == 0 {
		max = 160
	}
	if len(out) > max {
		out = e.forceJoin(out)
	}
	e.NStates += len(out)
	return out
}

// forceJoin joins states that agree on trace and property only.
func (e *Engine) forceJoin(sts []*bstate) []*bstate {
	byKey := map[string]*bstate{}
	var out []*bstate
	for _, s := range sts {
		id := 0
		if s.Trace != nil {
			id = s.Trace.ID
		}
		k := fmt.Sprintf("%d|%s|%d|%d", id, s.Prop, len(s.defers), len(s.Loops))
		o, ok := byKey[k]
		if !ok {
			byKey[k] = s
			out = append(out, s)
			continue
		}
		e.NForced++
		o.F = e.joinFacts(o.F, s.F)
		for v, t := range o.env {
			if u, ok := s.env[v]; !ok {
				delete(o.env, v)
			} else if u != t {
				o.env[v] = e.Join(t, u)
			}
		}
		for a, t := range o.heap {
			u, ok := s.heap[a]
			if !ok {
				u = e.cellDefault(s.State, a, t)
			}
			if u == nil {
				delete(o.heap, a)
				continue
			}
			if u != t {
				o.heap[a] = e.Join(t, u)
			}
		}
		for a, u := range s.heap {
			if _, ok := o.heap[a]; !ok {
				t := e.cellDefault(o.State, a, u)
				if t != nil {
					o.heap[a] = e.Join(t, u)
				}
			}
		}
	}
	return out
}

func (e *Engine) cellDefault(st *State, a, like *Term) *Term {
	if a.Op == OContents {
		if a.S == "dirty" || a.S == "sorted" {
			return nil
		}
		return e.contentOf(st, a.Args[0])
	}
	if p, ok := a.T.(*types.Pointer); ok {
		return e.Load(st, a, p.Elem())
	}
	return nil
}

var valIDs = map[ssa.Value]int{}

func hashVal(e *Engine, v ssa.Value) int {
	if id, ok := valIDs[v]; ok {
		return id
	}
	id := len(valIDs) + 1
	valIDs[v] = id
	return id
}

// gc drops cells of objects allocated by this activation that are dead.
func (e *Engine) gc(fr *Frame, s *bstate) {
	var cand []*Term
	pre := "@" + strconv.Itoa(fr.Ctx) + ":"
	_ = pre
	for k := range s.heap {
		r := Root(k)
		if r.Op == OAlloc && r.I == fr.Ctx+1 {
			cand = append(cand, k)
		}
	}
	if len(cand) == 0 {
		return
	}
	reach := map[*Term]bool{}
	var mark func(t *Term)
	seen := map[*Term]bool{}
	var work []*Term
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OAlloc {
			reach[t] = true
			work = append(work, t)
		}
		for _, a := range t.Args {
			mark(a)
		}
	}
	for _, t := range s.env {
		mark(t)
	}
	for _, d := range s.defers {
		for _, a := range d.args {
			mark(a)
		}
		if d.callee != nil {
			mark(d.callee)
		}
	}
	if e.H.TraceRoots {
		for _, ev := range s.Trace.Events() {
			for _, a := range ev.Raw {
				mark(a)
			}
		}
	}
	byRoot := map[*Term][]*Term{}
	for k, v := range s.heap {
		r := Root(k)
		if r.Op == OAlloc && r.I == fr.Ctx+1 {
			byRoot[r] = append(byRoot[r], v)
			continue
		}
		mark(v)
	}
	for len(work) > 0 {
		r := work[len(work)-1]
		work = work[:len(work)-1]
		for _, v := range byRoot[r] {
			mark(v)
		}
	}
	for _, k := range cand {
		if !reach[Root(k)] {
			delete(s.heap, k)
		}
	}
}

// mergeOutcomes joins outcomes of a call.
func (e *Engine) mergeOutcomes(fr *Frame, outs []*Outcome) []*Outcome {
	if len(outs) == 0 {
		return outs
	}
	byKey := map[uint64]*Outcome{}
	var res []*Outcome
	split := e.H.SplitFacts > 0 && len(outs) <= e.H.SplitFacts
	for _, o := range outs {
		// drop dead local objects
		bs := &bstate{State: o.St, env: map[ssa.Value]*Term{}}
		for i, r := range o.Rets {
			bs.env[fakeVals[i]] = r
		}
		e.gc(fr, bs)
		if o.Panic {
			res = append(res, o)
			continue
		}
		h := o.St.hash()
		for _, r := range o.Rets {
			h = mix(h, uint64(r.ID))
		}
		if split {
			h = mix(h, o.St.F.hash())
		}
		if p, ok := byKey[h]; ok {
			p.St.F = e.joinFacts(p.St.F, o.St.F)
			e.NMerges++
			continue
		}
		byKey[h] = o
		res = append(res, o)
	}
	max := e.H.MaxStates
	if max == 0 {
		max = 160
	}
	n := 0
	for _, o := range res {
		if !o.Panic {
			n++
		}
	}
	if n > max {
		var sts []*bstate
		var keep []*Outcome
		var nr int
		for _, o := range res {
			if o.Panic {
				keep = append(keep, o)
				continue
			}
			b := &bstate{State: o.St, env: map[ssa.Value]*Term{}}
			nr = len(o.Rets)
			for i, r := range o.Rets {
				b.env[fakeVals[i]] = r
			}
			sts = append(sts, b)
		}
		for _, b := range e.forceJoin(sts) {
			o := &Outcome{St: b.State}
			for i := 0; i < nr; i++ {
				o.Rets = append(o.Rets, b.env[fakeVals[i]])
			}
			keep = append(keep, o)
		}
		res = keep
	}
	return res
}

var fakeVals = func() []ssa.Value {
	var r []ssa.Value
	for i := 0; i < 8; i++ {
		r = append(r, &ssa.Parameter{})
	}
	return r
}()

// val evaluates an operand.
func (e *Engine) val(s *bstate, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.Zero(x.Type())
		}
		return e.Const(x.Value, x.Type())
	case *ssa.Global:
		return e.mk(Term{Op: OGlobal, G: x, T: x.Type()})
	case *ssa.Function:
		return e.mk(Term{Op: OFunc, Fn: x, T: x.Type()})
	case *ssa.Builtin:
		return e.mk(Term{Op: OSym, S: "builtin:" + x.Name(), T: x.Type()})
	}
	if t, ok := s.env[v]; ok {
		return t
	}
	// undefined on this path (dead value)
	return e.Sym("undef:"+v.Name(), v.Type())
}

func (e *Engine) check(st *State, kind string, ok bool, detail func() string, fr *Frame, in ssa.Instruction) {
	if e.H.OnCheck != nil {
		d := ""
		if !ok {
			d = detail()
		}
		e.H.OnCheck(st, kind, ok, d, fr, in)
	}
	e.Conds = nil
}

// checkNil reports a dereference of p.
func (e *Engine) checkNil(st *State, p *Term, fr *Frame, in ssa.Instruction) bool {
	if nonNil(p) || p.Op == OParam && false {
		return true
	}
	d := e.Decide(st, e.Eq(p, e.nilT))
	if d == -1 {
		return true
	}
	e.Conds = []*Term{e.Not(e.Eq(p, e.nilT))}
	e.check(st, "nil", false, func() string { return "nil dereference of " + p.String() }, fr, in)
	if d == 1 {
		return false
	}
	return e.Assume(st, e.Eq(p, e.nilT), false)
}

func (e *Engine) checkIndex(st *State, idx, ln *Term, what string, fr *Frame, in ssa.Instruction) bool {
	lo := e.Not(e.Lt(idx, e.IntC(0)))
	hi := e.Lt(idx, ln)
	a, b := e.Decide(st, lo), e.Decide(st, hi)
	e.Conds = []*Term{lo, hi}
	e.check(st, "index", a == 1 && b == 1, func() string {
		return "index " + idx.String() + " of " + what + " not proved within 0.." + ln.String()
	}, fr, in)
	if a == -1 || b == -1 {
		return false
	}
	return e.Assume(st, lo, true) && e.Assume(st, hi, true)
}

// block executes instructions of b from index i.
func (r *region) block(b *ssa.BasicBlock, s *bstate, i int, next func(*ssa.BasicBlock, *bstate)) {
	e, fr := r.e, r.fr
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		e.step()
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			next(b.Succs[0], s)
			return
		case *ssa.If:
			c := e.val(s, x.Cond)
			switch e.Decide(s.State, c) {
			case 1:
				next(b.Succs[0], s)
			case -1:
				next(b.Succs[1], s)
			default:
				s2 := s.clone()
				if e.Assume(s.State, c, true) {
					next(b.Succs[0], s)
				}
				if e.Assume(s2.State, c, false) {
					next(b.Succs[1], s2)
				}
			}
			return
		case *ssa.Return:
			var rets []*Term
			for _, v := range x.Results {
				rets = append(rets, e.val(s, v))
			}
			r.outs = append(r.outs, &Outcome{St: s.State, Rets: rets, In: in})
			return
		case *ssa.Panic:
			e.Conds = nil
			e.check(s.State, "panic", false, func() string { return "explicit panic(" + e.val(s, x.X).String() + ")" }, fr, in)
			r.outs = append(r.outs, &Outcome{St: s.State, Panic: true, In: in})
			return
		case *ssa.RunDefers:
			ds := s.defers
			s.defers = nil
			sts := []*bstate{s}
			for j := len(ds) - 1; j >= 0; j-- {
				var nx []*bstate
				for _, q := range sts {
					for _, cr := range e.doCall(q, fr, ds[j].common, ds[j].callee, ds[j].args, ds[j].in, true) {
						nx = append(nx, cr.s)
					}
				}
				sts = nx
			}
			for k, q := range sts {
				_ = k
				r.block(b, q, i+1, next)
			}
			return
		case *ssa.Defer:
			callee, args := e.callArgs(s, &x.Call)
			s.defers = append(append([]deferred{}, s.defers...), deferred{&x.Call, args, callee, x})
		case *ssa.Go:
			callee, args := e.callArgs(s, &x.Call)
			ev := &Event{Key: "go", Args: append([]*Term{callee}, args...), Instr: in, Fn: fr.Fn, Kind: "go"}
			e.event(s.State, ev, fr)
		case *ssa.Call:
			callee, args := e.callArgs(s, &x.Call)
			rs := e.doCall(s, fr, &x.Call, callee, args, in, false)
			if len(rs) == 1 {
				s = rs[0].s
				s.env[x] = rs[0].v
				continue
			}
			for _, cr := range rs {
				cr.s.env[x] = cr.v
				r.block(b, cr.s, i+1, next)
			}
			return
		default:
			if !e.simple(s, fr, in) {
				// contradiction: this state cannot continue
				r.outs = append(r.outs, &Outcome{St: s.State, Panic: true, In: in})
				return
			}
		}
	}
}

// simple executes a non-branching instruction.
func (e *Engine) simple(s *bstate, fr *Frame, in ssa.Instruction) bool {
	st := s.State
	switch x := in.(type) {
	case *ssa.Alloc:
		a := e.mk(Term{Op: OAlloc, S: e.site(in, fr), I: fr.Ctx + 1, T: x.Type()})
		a.At = in
		for k := range st.heap {
			if Root(k) == a {
				delete(st.heap, k)
			}
		}
		s.env[x] = a
	case *ssa.BinOp:
		a, b := e.val(s, x.X), e.val(s, x.Y)
		if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.Type()) {
			d := e.Decide(st, e.Eq(b, e.IntC(0)))
			e.Conds = []*Term{e.Not(e.Eq(b, e.IntC(0)))}
			e.check(st, "div", d == -1, func() string { return "division by " + b.String() }, fr, in)
		}
		s.env[x] = e.Bin(x.Op, a, b, x.Type())
	case *ssa.UnOp:
		v := e.val(s, x.X)
		switch x.Op {
		case token.MUL:
			if !e.checkNil(st, v, fr, in) {
				return false
			}
			s.env[x] = e.Load(st, v, x.Type())
		case token.NOT:
			s.env[x] = e.Not(v)
		case token.SUB:
			if v.Op == OConst {
				s.env[x] = e.Bin(token.SUB, e.Const(e.Zero(x.Type()).V, x.Type()), v, x.Type())
			} else {
				s.env[x] = e.mk(Term{Op: OUn, S: "-", Args: []*Term{v}, T: x.Type()})
			}
		default:
			s.env[x] = e.mk(Term{Op: OUn, S: x.Op.String(), Args: []*Term{v}, T: x.Type()})
		}
	case *ssa.ChangeType:
		s.env[x] = e.val(s, x.X)
	case *ssa.ChangeInterface:
		s.env[x] = e.val(s, x.X)
	case *ssa.Convert:
		s.env[x] = e.Conv(e.val(s, x.X), x.Type())
	case *ssa.MultiConvert:
		s.env[x] = e.Conv(e.val(s, x.X), x.Type())
	case *ssa.Extract:
		s.env[x] = e.Extract(e.val(s, x.Tuple), x.Index, x.Type())
	case *ssa.Field:
		s.env[x] = e.Field(e.val(s, x.X), x.Field, x.X.Type().Underlying())
	case *ssa.FieldAddr:
		v := e.val(s, x.X)
		if !e.checkNil(st, v, fr, in) {
			return false
		}
		f := structOf(x.X.Type()).Field(x.Field)
		s.env[x] = e.fieldAddrJoin(v, x.Field, f)
	case *ssa.Index:
		a, i := e.val(s, x.X), e.val(s, x.Index)
		ln := e.Len(a)
		if arr, ok := x.X.Type().Underlying().(*types.Array); ok {
			ln = e.IntC(arr.Len())
		}
		if !e.checkIndex(st, i, ln, a.String(), fr, in) {
			return false
		}
		s.env[x] = e.Index(a, i, x.Type())
	case *ssa.IndexAddr:
		a, i := e.val(s, x.X), e.val(s, x.Index)
		var et types.Type
		ln := e.Len(a)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Pointer:
			arr := u.Elem().Underlying().(*types.Array)
			et, ln = arr.Elem(), e.IntC(arr.Len())
			if !e.checkNil(st, a, fr, in) {
				return false
			}
		}
		if !e.checkIndex(st, i, ln, a.String(), fr, in) {
			return false
		}
		s.env[x] = e.IndexAddr(a, i, et)
	case *ssa.Lookup:
		m, k := e.val(s, x.X), e.val(s, x.Index)
		if isString(x.X.Type()) {
			if !e.checkIndex(st, k, e.Len(m), m.String(), fr, in) {
				return false
			}
			s.env[x] = e.Index(m, k, x.Type())
			break
		}
		mt := x.X.Type().Underlying().(*types.Map)
		v, has := e.MapLookup(st, e.MapContent(st, m), k, mt.Elem())
		if u, ok := x.X.(*ssa.UnOp); ok && e.H.MemoMiss {
			if g, ok := u.X.(*ssa.Global); ok && e.mutG[g] && e.Repo[g.Pkg] {
				// a cache: what it would give is what is built on a miss
				v, has = e.Zero(mt.Elem()), e.BoolC(false)
			}
		}
		if x.CommaOk {
			s.env[x] = e.Tuple(v, has)
		} else {
			if e.Decide(st, has) == -1 {
				v = e.Zero(mt.Elem())
			}
			s.env[x] = v
		}
	case *ssa.MakeChan:
		s.env[x] = e.mk(Term{Op: OAlloc, S: e.site(in, fr), I: fr.Ctx + 1, T: x.Type()})
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(s, b))
		}
		s.env[x] = e.mk(Term{Op: OClosure, Fn: x.Fn.(*ssa.Function), Args: bs, T: x.Type()})
	case *ssa.MakeInterface:
		v := e.val(s, x.X)
		if v.IsNil() {
			v = e.mk(Term{Op: OSym, S: "typednil:" + x.X.Type().String(), T: x.X.Type()})
			e.Assume(st, e.Eq(v, e.nilT), true)
		}
		s.env[x] = e.mk(Term{Op: OIface, Args: []*Term{v}, T: x.X.Type()})
	case *ssa.MakeMap:
		a := e.mk(Term{Op: OAlloc, S: "map:" + e.site(in, fr), I: fr.Ctx + 1, T: x.Type()})
		a.At = in
		st.heap[e.Contents(a)] = e.mk(Term{Op: OMapEmpty})
		s.env[x] = a
	case *ssa.MakeSlice:
		l := e.val(s, x.Len)
		d := e.Decide(st, e.Lt(l, e.IntC(0)))
		e.Conds = []*Term{e.Not(e.Lt(l, e.IntC(0)))}
		e.check(st, "makeslice", d == -1, func() string { return "make with length " + l.String() }, fr, in)
		a := e.mk(Term{Op: OAlloc, S: "slice:" + e.site(in, fr), I: fr.Ctx + 1, Args: []*Term{l}, T: x.Type()})
		a.At = in
		for k := range st.heap {
			if Root(k) == a {
				delete(st.heap, k)
			}
		}
		s.env[x] = a
	case *ssa.MapUpdate:
		m, k, v := e.val(s, x.Map), e.val(s, x.Key), e.val(s, x.Value)
		if e.H.OnCheck != nil {
			d := -1
			if !nonNil(m) {
				d = e.Decide(st, e.Eq(m, e.nilT))
			}
			e.Conds = []*Term{e.Not(e.Eq(m, e.nilT))}
			e.check(st, "nilmap", d == -1, func() string { return "assignment to entry of possibly nil map " + m.String() }, fr, in)
		}
		if e.H.OnStore != nil {
			e.H.OnStore(st, "mapupdate", m, k, v, fr, in)
		}
		e.SetMapContent(st, m, e.MapUpd(e.MapContent(st, m), k, v))
	case *ssa.Range:
		v := e.val(s, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			v = e.MapContent(st, v)
		}
		s.env[x] = v
	case *ssa.Next:
		c := e.val(s, x.Iter)
		if x.IsString {
			id := e.loopSite(in, fr)
			idx := e.mk(Term{Op: ORangeKey, S: id, Args: []*Term{c}, T: types.Typ[types.Int]})
			e.refine(st, idx, avGE(0))
			e.assumeLe(st, idx, e.Len(c), -1)
			s.env[x] = e.Tuple(e.mk(Term{Op: ORangeOk, S: id, Args: []*Term{c}, T: types.Typ[types.Bool]}), idx,
				e.mk(Term{Op: ORangeVal, S: id, Args: []*Term{c}, T: types.Typ[types.Rune]}))
			break
		}
		id := e.loopSite(in, fr)
		tt := x.Type().(*types.Tuple)
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		if m, ok := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); ok {
			kt, vt = m.Key(), m.Elem()
		}
		ok := e.mk(Term{Op: ORangeOk, S: id, Args: []*Term{c}, T: types.Typ[types.Bool]})
		if c.Op == OMapEmpty {
			ok = e.BoolC(false)
		}
		if n := len(st.Loops); n > 0 && st.Loops[n-1].Fn == fr.Fn {
			st.Loops[n-1].MapC = c
		}
		if fr.unroll[in.Block()] > 0 && c.Op == OMapUpd && finiteMap(c) {
			k, v, rest := e.nextEntry(c)
			s.env[x] = e.Tuple(e.BoolC(true), k, v)
			s.env[x.Iter] = rest
			break
		}
		s.env[x] = e.Tuple(ok,
			e.mk(Term{Op: ORangeKey, S: id, Args: []*Term{c}, T: kt}),
			e.mk(Term{Op: ORangeVal, S: id, Args: []*Term{c}, T: vt}))
	case *ssa.Slice:
		v := e.val(s, x.X)
		var lo, hi, mx *Term
		if x.Low != nil {
			lo = e.val(s, x.Low)
		}
		if x.High != nil {
			hi = e.val(s, x.High)
		}
		if x.Max != nil {
			mx = e.val(s, x.Max)
		}
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if !e.checkNil(st, v, fr, in) {
				return false
			}
		}
		if e.H.OnCheck != nil || true {
			ln := e.Len(v)
			l, h := lo, hi
			if l == nil {
				l = e.IntC(0)
			}
			if h == nil {
				h = ln
			}
			c1 := e.Not(e.Lt(l, e.IntC(0)))
			c2 := e.Not(e.Lt(h, l))
			c3 := e.Not(e.Lt(ln, h))
			ok := e.Decide(st, c1) == 1 && e.Decide(st, c2) == 1 && (e.Decide(st, c3) == 1)
			if mx != nil {
				ok = false
			}
			e.Conds = []*Term{c1, c2}
			if isString(x.X.Type()) {
				e.Conds = append(e.Conds, c3)
			}
			e.check(st, "slice", ok, func() string {
				return "slice bounds [" + l.String() + ":" + h.String() + "] of " + v.String() + " not proved within its length"
			}, fr, in)
			for _, c := range []*Term{c1, c2} {
				if !e.Assume(st, c, true) {
					return false
				}
			}
			if isString(x.X.Type()) && !e.Assume(st, c3, true) {
				return false
			}
		}
		s.env[x] = e.SliceT(v, lo, hi, x.Type())
	case *ssa.SliceToArrayPointer:
		s.env[x] = e.val(s, x.X)
	case *ssa.Store:
		a, v := e.val(s, x.Addr), e.val(s, x.Val)
		if !e.checkNil(st, a, fr, in) {
			return false
		}
		if e.H.OnStore != nil {
			e.H.OnStore(st, "store", a, nil, v, fr, in)
		}
		e.Store(st, a, v, x.Val.Type())
	case *ssa.TypeAssert:
		v := e.val(s, x.X)
		var ok, val *Term
		if isIfaceT(x.AssertedType) {
			if v.Op == OIface {
				i := x.AssertedType.Underlying().(*types.Interface)
				ok = e.BoolC(types.Implements(v.T, i))
			} else if v.IsNil() {
				ok = e.BoolC(false)
			} else {
				ok = e.mk(Term{Op: OIsIface, Args: []*Term{v}, T: x.AssertedType})
				if e.Decide(st, e.Eq(e.Dyn(v), e.nilT)) == 1 {
					ok = e.BoolC(false)
				}
			}
			val = v
		} else {
			ok = e.Eq(e.Dyn(v), e.TypeC(x.AssertedType))
			if v.Op == OIface {
				val = v.Args[0]
			} else {
				val = e.mk(Term{Op: OAssert, Args: []*Term{v}, T: x.AssertedType})
			}
		}
		if x.CommaOk {
			if e.Decide(st, ok) == -1 {
				val = e.Zero(x.AssertedType)
			}
			s.env[x] = e.Tuple(val, ok)
		} else {
			d := e.Decide(st, ok)
			if isIfaceT(x.AssertedType) && d == 0 && types.AssignableTo(x.X.Type(), x.AssertedType) {
				d = 1
			}
			e.Conds = []*Term{ok}
			e.check(st, "assert", d == 1, func() string { return "type assertion " + v.String() + ".(" + shortType(x.AssertedType) + ")" }, fr, in)
			if d == -1 || !e.Assume(st, ok, true) {
				return false
			}
			s.env[x] = val
		}
	case *ssa.Send, *ssa.Select:
		if v, ok := in.(ssa.Value); ok {
			s.env[v] = e.Sym("chan:"+e.site(in, fr), v.Type())
		}
	default:
		if v, ok := in.(ssa.Value); ok {
			s.env[v] = e.Sym("instr:"+e.site(in, fr), v.Type())
		}
	}
	return true
}

func (e *Engine) fieldAddrJoin(v *Term, i int, f *types.Var) *Term {
	if v.Op == OJoin {
		var vs []*Term
		for _, a := range v.Args {
			if a.IsNil() {
				continue
			}
			vs = append(vs, e.FieldAddr(a, i, f.Name(), f.Type()))
		}
		if len(vs) > 0 {
			return e.Join(vs...)
		}
	}
	return e.FieldAddr(v, i, f.Name(), f.Type())
}

// finiteMap: are all entries of the map content known, with fixed keys?
func finiteMap(c *Term) bool {
	seen := map[*Term]bool{}
	if c.Op == OMapUpd && c.Args[0].Op == OMapEmpty {
		return true
	}
	for c.Op == OMapUpd {
		if c.Args[1].Op != OConst || seen[c.Args[1]] {
			return false
		}
		seen[c.Args[1]] = true
		c = c.Args[0]
	}
	return c.Op == OMapEmpty
}

// nextEntry takes one entry off a finite map.
func (e *Engine) nextEntry(c *Term) (k, v, rest *Term) {
	if !e.H.RevMaps {
		return c.Args[1], c.Args[2], c.Args[0]
	}
	var l []*Term
	for ; c.Op == OMapUpd; c = c.Args[0] {
		l = append(l, c)
	}
	first := l[len(l)-1]
	for i := len(l) - 2; i >= 0; i-- {
		c = e.MapUpd(c, l[i].Args[1], l[i].Args[2])
	}
	return first.Args[1], first.Args[2], c
}

// mapKeys lists the keys of a finite map in iteration order.
func (e *Engine) mapKeys(c *Term) ([]*Term, bool) {
	r := []*Term{}
	if c.Op != OMapEmpty && (c.Op != OMapUpd || !finiteMap(c)) {
		return nil, false
	}
	for c.Op == OMapUpd {
		var k *Term
		k, _, c = e.nextEntry(c)
		r = append(r, k)
	}
	return r, true
}

func (e *Engine) site(in ssa.Instruction, fr *Frame) string {
	return fmt.Sprintf("%s.%d.%d@%d", e.fname(fr.Fn), in.Block().Index, instrIndex(in), fr.Ctx)
}

func (e *Engine) loopSite(in ssa.Instruction, fr *Frame) string {
	return fmt.Sprintf("%s.%d@%d", e.fname(fr.Fn), in.Block().Index, fr.Ctx)
}

var instrIdx = map[ssa.Instruction]int{}

func instrIndex(in ssa.Instruction) int {
	if i, ok := instrIdx[in]; ok {
		return i
	}
	for i, x := range in.Block().Instrs {
		instrIdx[x] = i
	}
	return instrIdx[in]
}

// ---- loops ----

func (e *Engine) loop(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, s0 *bstate) (map[*ssa.BasicBlock][]edgeState, []*Outcome) {
	if n := e.H.PeelConst; n > 0 {
		if x, o, ok := e.unroll(fr, h, body, s0, n); ok {
			return x, o
		}
	}
	if e.H.Peel == 0 {
		return e.solveLoop(fr, h, body, s0)
	}
	exits := map[*ssa.BasicBlock][]edgeState{}
	var outs []*Outcome
	cur := []*bstate{s0.clone()}
	for k := 0; k < e.H.Peel && len(cur) > 0 && len(cur) < 20; k++ {
		var next []*bstate
		for _, s := range cur {
			r := &region{e: e, fr: fr, blocks: body, header: h}
			r.run(h, []edgeState{{s, nil}})
			for _, es := range r.back {
				next = append(next, r.enter(h, es))
			}
			for to, l := range r.exits {
				exits[to] = append(exits[to], l...)
			}
			outs = append(outs, r.outs...)
		}
		cur = next
	}
	for _, s := range cur {
		x, o := e.solveLoop(fr, h, body, s)
		for to, l := range x {
			exits[to] = append(exits[to], l...)
		}
		outs = append(outs, o...)
	}
	return exits, outs
}

// unroll executes a loop with decided iteration count; false if it is not one.
func (e *Engine) unroll(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, s0 *bstate, max int) (map[*ssa.BasicBlock][]edgeState, []*Outcome, bool) {
	mark, es, ll := len(e.records), len(e.estores), len(e.LoopList)
	exits := map[*ssa.BasicBlock][]edgeState{}
	var outs []*Outcome
	cur := []*bstate{s0.clone()}
	base := fr.Ctx
	if fr.unroll == nil {
		fr.unroll = map[*ssa.BasicBlock]int{}
	}
	fr.unroll[h]++
	defer func() { fr.Ctx = base; fr.unroll[h]-- }()
	for k := 0; ; k++ {
		if k > 0 {
			// objects made in different iterations are different
			fr.Ctx = e.ctx(fr.Ctx, h.Instrs[0])
		}
		var next []*bstate
		for _, s := range cur {
			r := &region{e: e, fr: fr, blocks: body, header: h}
			r.run(h, []edgeState{{s, nil}})
			for _, es := range r.back {
				next = append(next, r.enter(h, es))
			}
			n := 0
			for to, l := range r.exits {
				exits[to] = append(exits[to], l...)
				n += len(l)
			}
			outs = append(outs, r.outs...)
			if len(r.back) > 0 && n > 0 && k == 0 || k > max {
				// not decided: general solution
				e.records = e.records[:mark]
				e.estores = e.estores[:es]
				e.LoopList = e.LoopList[:ll]
				return nil, nil, false
			}
		}
		if len(next) == 0 {
			return exits, outs, true
		}
		if len(next) > 1 {
			next = e.merge(fr, h, next)
		}
		if len(next) > 8 {
			e.records = e.records[:mark]
			e.estores = e.estores[:es]
			e.LoopList = e.LoopList[:ll]
			return nil, nil, false
		}
		cur = next
	}
}

func (e *Engine) solveLoop(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, s0 *bstate) (map[*ssa.BasicBlock][]edgeState, []*Outcome) {
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	wkey := fmt.Sprintf("%p@%d", h, fr.Ctx)
	w := e.widen[wkey]
	if w == nil {
		w = &widenSet{phis: map[*ssa.Phi]bool{}, cells: map[*Term]types.Type{}, bases: map[*Term]bool{}, nolo: map[*ssa.Phi]bool{}, nohi: map[*ssa.Phi]bool{}, nolt: map[boundKey]bool{}}
		e.widen[wkey] = w
	}
	var vec []string
	for _, p := range phis {
		vec = append(vec, strconv.Itoa(s0.env[p].ID))
	}
	runKey := wkey + "[" + strings.Join(vec, ",") + "]"
	id, ok := e.loopIDs[runKey]
	if !ok {
		id = len(e.loopIDs) + 1
		e.loopIDs[runKey] = id
	}
	name := fmt.Sprintf("L%d", id)
	bounds := e.loopBounds(h, body, phis, s0)
	sawPasses := 0
	for {
		sawPasses++
		if sawPasses > 40 {
			panic(limitError{"loop fixpoint did not stabilise in " + fr.Fn.String()})
		}
		mark, lmark, smark, omark := len(e.records), len(e.LoopList), len(e.estores), len(e.originLog)
		li := &LoopInfo{ID: id, Key: runKey, Fn: fr.Fn, Header: h, Ctx: fr.Ctx, Entry: s0.State.Freeze(), Phis: map[*ssa.Phi]*Term{}, Outer: s0.Loops}
		hs := s0.clone()
		li.Outer = hs.Loops
		hs.Loops = append(append([]*LoopInfo{}, hs.Loops...), li)
		for _, p := range phis {
			if w.phis[p] {
				sym := e.Sym(name+"."+p.Name(), p.Type())
				init := s0.env[p]
				hs.env[p] = sym
				li.Phis[p] = sym
				e.addOrigin(sym, init, s0.State, true)
				if isInt(p.Type()) {
					if !w.nolo[p] {
						e.assumeLe(hs.State, init, sym, 0)
					}
					if !w.nohi[p] {
						e.assumeLe(hs.State, sym, init, 0)
					}
				}
				for _, b := range bounds[p] {
					if w.nolt[boundKey{p, b.y, b.le}] {
						continue
					}
					if b.le {
						e.assumeLe(hs.State, sym, b.t, 0)
					} else {
						e.Assume(hs.State, e.Lt(sym, b.t), true)
					}
				}
				if e.keepsNonNil(s0.State, p, init) {
					e.Assume(hs.State, e.Eq(sym, e.nilT), false)
				}
			}
		}
		for a, t := range w.cells {
			if Root(a).Op == OAlloc && !e.allocLive(s0, Root(a)) {
				continue
			}
			sym := e.Sym(name+".*"+strconv.Itoa(a.ID), t)
			var init *Term
			if a.Op == OContents {
				init = e.contentOf(s0.State, a.Args[0])
			} else {
				init = e.Load(s0.State, a, t)
			}
			e.addOrigin(sym, init, s0.State, true)
			for k := range hs.heap {
				if k != a && under(k, a) {
					delete(hs.heap, k)
				}
			}
			hs.heap[a] = sym
		}
		for b := range w.bases {
			for k := range hs.heap {
				if k.Op == OIndexAddr && k.Args[0] == b {
					delete(hs.heap, k)
				}
			}
			hs.heap[e.dirtyKey(b)] = e.BoolC(true)
		}
		if e.H.KeepLoops {
			hs.Trace = e.push(hs.Trace, &Event{Key: "loop", Kind: "loop", Loop: li, Fn: fr.Fn, Instr: h.Instrs[0]}, "loop:"+runKey)
		}
		start := hs.Trace
		r := &region{e: e, fr: fr, blocks: body, header: h}
		// the header itself is executed as the region entry
		r.run(h, []edgeState{{hs, nil}})
		// stability
		grow := false
		for _, es := range r.back {
			bs := r.enter(h, es)
			for _, p := range phis {
				v := bs.env[p]
				if w.phis[p] {
					e.addOrigin(li.Phis[p], v, bs.State, false)
					if isInt(p.Type()) {
						init := s0.env[p]
						if !w.nolo[p] && e.Decide(bs.State, e.Not(e.Lt(v, init))) != 1 {
							w.nolo[p] = true
							grow = true
						}
						if !w.nohi[p] && e.Decide(bs.State, e.Not(e.Lt(init, v))) != 1 {
							w.nohi[p] = true
							grow = true
						}
						for _, b := range bounds[p] {
							k := boundKey{p, b.y, b.le}
							if w.nolt[k] {
								continue
							}
							c := e.Lt(v, b.t)
							if b.le {
								c = e.Not(e.Lt(b.t, v))
							}
							if e.Decide(bs.State, c) != 1 {
								w.nolt[k] = true
								grow = true
							}
						}
					}
					continue
				}
				if v != s0.env[p] {
					w.phis[p] = true
					grow = true
				}
			}
			for a, v := range bs.heap {
				if a.Op == OContents && (a.S == "dirty" || a.S == "sorted") {
					if _, ok := hs0Get(s0, a); !ok && !w.bases[a.Args[0]] && a.S == "dirty" && e.allocLive(s0, Root(a.Args[0])) {
						w.bases[a.Args[0]] = true
						grow = true
					}
					continue
				}
				root := Root(a)
				if root.Op == OAlloc && !e.allocLive(s0, root) {
					continue // born in the loop
				}
				if hv, ok := w.cells[a]; ok {
					_ = hv
					sym := e.Sym(name+".*"+strconv.Itoa(a.ID), w.cells[a])
					if v != sym {
						e.addOrigin(sym, v, bs.State, false)
					}
					continue
				}
				var init *Term
				var t types.Type
				if a.Op == OContents {
					init = e.contentOf(s0.State, a.Args[0])
					t = contentType(a.Args[0])
				} else {
					p, ok := a.T.(*types.Pointer)
					if !ok {
						if pt, ok2 := a.T.Underlying().(*types.Pointer); ok2 {
							p, ok = pt, true
						}
					}
					if !ok {
						continue
					}
					t = p.Elem()
					init = e.Load(s0.State, a, t)
				}
				if v == init {
					continue
				}
				if v0, ok := s0.heap[a]; ok && v0 == v && a.Op != OContents {
					// a struct cell below overriding field cells
					same := true
					for k := range s0.heap {
						if k != a && under(k, a) {
							if _, ok := bs.heap[k]; !ok {
								same = false
							}
						}
					}
					if same {
						continue
					}
				}
				if e.variant(a, name, id, fr, body) {
					b := containerOf(a)
					if b != nil && !w.bases[b] {
						w.bases[b] = true
						grow = true
					}
					continue
				}
				w.cells[a] = t
				grow = true
			}
		}
		if grow {
			e.records = e.records[:mark]
			e.LoopList = e.LoopList[:lmark]
			e.estores = e.estores[:smark]
			e.undoOrigins(omark)
			continue
		}
		// final
		for _, es := range r.back {
			vals := map[*ssa.Phi]*Term{}
			for _, p := range phis {
				vals[p] = es.st.env[p]
			}
			li.Back = append(li.Back, &BackEdge{St: es.st.State, Vals: vals, Seg: segment(es.st.Trace, start), From: es.from})
		}
		li.Cells = map[*Term]*Term{}
		for a, t := range w.cells {
			li.Cells[e.Sym(name+".*"+strconv.Itoa(a.ID), t)] = a
		}
		e.indexOf(li, phis, s0)
		qs := e.quantified(li)
		e.LoopList = append(e.LoopList, li)
		if e.H.KeepLoops {
			e.LoopInfos[runKey] = li
		}
		for to, l := range r.exits {
			for _, es := range l {
				es.st.Loops = li.Outer
				es.st.F.q = append(append([]QFact{}, es.st.F.q...), qs...)
				li.Exits = append(li.Exits, &LoopExit{St: es.st.State.Freeze(), From: es.from, To: to})
			}
		}
		for _, o := range r.outs {
			o.St.Loops = li.Outer
			o.St.F.q = append(append([]QFact{}, o.St.F.q...), qs...)
			li.Exits = append(li.Exits, &LoopExit{St: o.St.Freeze(), From: o.In.Block(), Return: true})
		}
		return r.exits, r.outs
	}
}

type boundKey struct {
	p  *ssa.Phi
	y  ssa.Value
	le bool
}

// loopBound: a counter stays below (or, le, not above) a value from outside of
// the loop.
type loopBound struct {
	y  ssa.Value
	t  *Term
	le bool
}

// loopBounds lists the values from outside of a loop which its counters may be
// bounded by: those a test at the end of the loop compares with, and those a
// counter itself is compared with.
func (e *Engine) loopBounds(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, s0 *bstate) map[*ssa.Phi][]loopBound {
	r := map[*ssa.Phi][]loopBound{}
	inside := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && body[in.Block()]
	}
	bound := func(v ssa.Value) *Term {
		if !isInt(v.Type()) {
			return nil
		}
		if !inside(v) {
			if _, ok := v.(*ssa.Const); !ok && s0.env[v] == nil {
				return nil
			}
			return e.val(s0, v)
		}
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && !inside(c.Call.Args[0]) {
				x := c.Call.Args[0]
				switch x.Type().Underlying().(type) {
				case *types.Slice, *types.Basic:
					if s0.env[x] != nil {
						return e.Len(s0.env[x])
					}
				}
			}
		}
		return nil
	}
	have := map[boundKey]bool{}
	add := func(p *ssa.Phi, y ssa.Value, t *Term, le bool) {
		k := boundKey{p, y, le}
		if have[k] {
			return
		}
		have[k] = true
		c := e.Lt(s0.env[p], t)
		if le {
			c = e.Not(e.Lt(t, s0.env[p]))
		}
		if e.Decide(s0.State, c) == 1 {
			r[p] = append(r[p], loopBound{y, t, le})
		}
	}
	for _, b := range h.Parent().Blocks {
		if !body[b] {
			continue
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] == h {
			if cmp, ok := iff.Cond.(*ssa.BinOp); ok && cmp.Op == token.LSS {
				if t := bound(cmp.Y); t != nil && !inside(cmp.Y) {
					for _, p := range phis {
						if isInt(p.Type()) && types.Identical(p.Type(), cmp.Y.Type()) && s0.env[p] != nil {
							add(p, cmp.Y, t, false)
						}
					}
				}
			}
		}
		for _, in := range b.Instrs {
			cmp, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			x, y := cmp.X, cmp.Y
			switch cmp.Op {
			case token.LSS, token.GEQ, token.NEQ, token.EQL:
			case token.GTR, token.LEQ:
				x, y = y, x
			default:
				continue
			}
			p, ok := x.(*ssa.Phi)
			if !ok || p.Block() != h || !isInt(p.Type()) || s0.env[p] == nil {
				continue
			}
			if _, c := y.(*ssa.Const); c {
				continue
			}
			if t := bound(y); t != nil {
				add(p, y, t, true)
			}
		}
	}
	return r
}

// EdgeVal is the value a loop-widened symbol has after an iteration.
func (e *Engine) EdgeVal(li *LoopInfo, b *BackEdge, sym *Term) *Term {
	for p, s := range li.Phis {
		if s == sym {
			return b.Vals[p]
		}
	}
	if a, ok := li.Cells[sym]; ok {
		if v, ok := e.heapGet(b.St, a); ok {
			return v
		}
		return sym
	}
	return nil
}

func hs0Get(s *bstate, a *Term) (*Term, bool) { v, ok := s.heap[a]; return v, ok }

func segment(t, start *Trace) []*Event {
	var r []*Event
	for x := t; x != nil && x != start; x = x.Prev {
		r = append(r, x.Ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// allocLive: the object existed when the state was taken.
func (e *Engine) allocLive(s *bstate, root *Term) bool {
	if root.Op != OAlloc {
		return true
	}
	for k, v := range s.heap {
		if Root(k) == root || v.Contains(root) {
			return true
		}
	}
	for _, v := range s.env {
		if v.Contains(root) {
			return true
		}
	}
	for _, d := range s.defers {
		for _, a := range d.args {
			if a.Contains(root) {
				return true
			}
		}
		if d.callee != nil && d.callee.Contains(root) {
			return true
		}
	}
	return false
}

func (e *Engine) keepsNonNil(st *State, p *ssa.Phi, init *Term) bool { return false }

// variant: the address depends on values of this loop's iterations.
func (e *Engine) variant(a *Term, name string, id int, fr *Frame, body map[*ssa.BasicBlock]bool) bool {
	return a.Any(func(t *Term) bool {
		if t.Op == OSym && strings.HasPrefix(t.S, name+".") {
			return true
		}
		return false
	})
}

func containerOf(a *Term) *Term {
	for x := a; x != nil; x = x.Args[0] {
		if x.Op == OIndexAddr {
			return x.Args[0]
		}
		if x.Op != OFieldAddr {
			return nil
		}
	}
	return nil
}

func (e *Engine) addOrigin(sym, v *Term, st *State, init bool) {
	for _, o := range e.Origins[sym] {
		if o.Val == v && o.Init == init {
			if !init {
				break
			}
			return
		}
	}
	if len(e.Origins[sym]) > 60 {
		return
	}
	e.Origins[sym] = append(e.Origins[sym], Origin{v, st.Freeze(), init})
	e.originLog = append(e.originLog, sym)
}

// undoOrigins forgets the origins an abandoned pass over a loop recorded.
func (e *Engine) undoOrigins(mark int) {
	for i := len(e.originLog) - 1; i >= mark; i-- {
		s := e.originLog[i]
		if l := e.Origins[s]; len(l) > 0 {
			e.Origins[s] = l[:len(l)-1]
		}
	}
	e.originLog = e.originLog[:mark]
}

// indexOf finds the induction variable: init constant, every back edge +1.
func (e *Engine) indexOf(li *LoopInfo, phis []*ssa.Phi, s0 *bstate) {
	for _, p := range phis {
		sym := li.Phis[p]
		if sym == nil || !isInt(p.Type()) {
			continue
		}
		if len(li.Back) == 0 {
			continue
		}
		ok := true
		for _, b := range li.Back {
			base, c := lin(b.Vals[p])
			if base != sym || c != 1 {
				ok = false
			}
		}
		if ok {
			li.Index = sym
			return
		}
	}
}

// quantified derives facts on all elements visited before the exit.
func (e *Engine) quantified(li *LoopInfo) []QFact {
	if li.Index == nil || len(li.Back) == 0 {
		return nil
	}
	init := int64(0)
	for _, o := range e.Origins[li.Index] {
		if o.Init {
			n, ok := o.Val.Int()
			if !ok {
				return nil
			}
			init = n
		}
	}
	var qs []QFact
	for t := range li.Back[0].St.F.av {
		var seq, idx *Term
		switch {
		case t.Op == OIndex:
			seq, idx = t.Args[0], t.Args[1]
		case t.Op == OLoad && t.Args[0].Op == OIndexAddr:
			seq, idx = t.Args[0].Args[0], t.Args[0].Args[1]
		default:
			continue
		}
		base, c := lin(idx)
		if base != li.Index || init+c != 0 {
			continue // does not start at element 0
		}
		av := li.Back[0].St.AVOf(t)
		for _, b := range li.Back[1:] {
			av = avJoin(av, b.St.AVOf(t), isInt(t.T))
		}
		if av == nil {
			continue
		}
		qs = append(qs, QFact{Seq: seq, Upto: idx, Av: av})
	}
	sort.Slice(qs, func(i, j int) bool { return qs[i].Seq.ID < qs[j].Seq.ID })
	return qs
}

// Quantified returns the facts known for every element of seq with index
// below upto (nil: all elements).
func (e *Engine) Quantified(st *State, seq, upto *Term) *AV {
	var r *AV
	for _, q := range st.F.q {
		if q.Seq != seq {
			continue
		}
		end := upto
		if end == nil {
			end = e.Len(seq)
		}
		if e.Decide(st, e.Not(e.Lt(q.Upto, end))) == 1 {
			r = avMeet(r, q.Av, true)
			continue
		}
		// the element at Upto was visited too
		next := e.Bin(token.ADD, q.Upto, e.IntC(1), types.Typ[types.Int])
		if e.Decide(st, e.Not(e.Lt(next, end))) != 1 {
			continue
		}
		for t := range st.F.av {
			if t.Op == OIndex && t.Args[0] == seq && t.Args[1] == q.Upto || t.Op == OLoad && t.Args[0].Op == OIndexAddr && t.Args[0].Args[0] == seq && t.Args[0].Args[1] == q.Upto {
				if j := avJoin(q.Av, st.AVOf(t), isInt(t.T)); j != nil {
					r = avMeet(r, j, true)
				}
			}
		}
	}
	return r
}

// ---- traces ----

func (e *Engine) push(t *Trace, ev *Event, key string) *Trace {
	id, ok := e.evIDs[key]
	if !ok {
		id = len(e.evIDs) + 1
		e.evIDs[key] = id
	}
	p := 0
	n := 1
	if t != nil {
		p = t.ID
		n = t.N + 1
	}
	k := [2]int{p, id}
	tid, ok := e.traceIDs[k]
	if !ok {
		tid = len(e.traceIDs) + 1
		e.traceIDs[k] = tid
	}
	return &Trace{Prev: t, Ev: ev, ID: tid, N: n}
}

func (e *Engine) event(st *State, ev *Event, fr *Frame) {
	ev.Stack = fr.Stack()
	if e.H.OnCall != nil {
		e.H.OnCall(st, ev)
	}
	if e.H.Keep != nil && e.H.Keep(ev) {
		ev.St = st.Freeze()
		k := ev.Kind + ":" + ev.Key + fmt.Sprintf("@%p/%d", ev.Instr, fr.Ctx)
		for _, a := range ev.Args {
			if a != nil {
				k += "," + strconv.Itoa(a.ID)
			}
		}
		st.Trace = e.push(st.Trace, ev, k)
	}
}
