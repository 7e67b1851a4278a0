package eng

import (
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is a call that was not analysed further.
type Event struct {
	Key   string // callee full name
	Args  []*Term
	Raw   []*Term // arguments before snapshotting
	Res   *Term
	Instr ssa.Instruction
	Fn    *ssa.Function // function containing the call
	Loop  *LoopInfo     // loop marks
	Kind  string        // "call", "invoke", "dyn", "loop", "store", "recurse"
	St    *State        // state at the event (kept events only)
	Stack []*ssa.Function
	Defer bool
}

// Trace is a persistent event list.
type Trace struct {
	Prev *Trace
	Ev   *Event
	ID   int
	N    int
}

func (t *Trace) Events() []*Event {
	var r []*Event
	for x := t; x != nil; x = x.Prev {
		r = append(r, x.Ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// State is one abstract state.
type State struct {
	heap  map[*Term]*Term
	F     *Facts
	Trace *Trace
	Loops []*LoopInfo // active loops, outermost first
	Prop  string      // rule specific property state
	Dead  bool        // set by a hook: this path is not of interest
}

func (s *State) Clone() *State {
	n := &State{heap: make(map[*Term]*Term, len(s.heap)+4), F: s.F.clone(), Trace: s.Trace, Loops: s.Loops, Prop: s.Prop}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

// Freeze returns a snapshot that will not change.
func (s *State) Freeze() *State { return s.Clone() }

// ---- facts ----

// Decide evaluates a boolean term: 1 true, -1 false, 0 unknown.
func (e *Engine) Decide(st *State, t *Term) int {
	if b, ok := t.Bool(); ok {
		if b {
			return 1
		}
		return -1
	}
	switch t.Op {
	case ONot:
		return -e.Decide(st, t.Args[0])
	case OEq:
		return e.decideEq(st.F, t.Args[0], t.Args[1])
	case OLt:
		return e.decideLt(st.F, t.Args[0], t.Args[1])
	case OJoin:
		r := 0
		for i, a := range t.Args {
			d := e.Decide(st, a)
			if i == 0 {
				r = d
			} else if d != r {
				r = 0
			}
		}
		if r != 0 {
			return r
		}
	}
	if t.Op == OCall && t.S == outsideKey {
		a, b := e.decideLt(st.F, t.Args[0], t.Args[1]), e.decideLt(st.F, t.Args[2], t.Args[0])
		if a == 1 || b == 1 {
			return 1
		}
		if a == -1 && b == -1 {
			return -1
		}
	}
	if a := st.F.av[t]; a != nil && a.Fin && len(a.In) == 1 {
		if b, ok := a.In[0].Bool(); ok {
			if b {
				return 1
			}
			return -1
		}
	}
	return 0
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return -1
}

func (e *Engine) decideEq(f *Facts, a, b *Term) int {
	if a == b {
		return 1
	}
	if v, ok := f.eq[pair{a, b}]; ok {
		return b2i(v)
	}
	if a.Op == OJoin && b.IsConst() {
		r, first := 0, true
		for _, x := range a.Args {
			t := e.Eq(x, b)
			d := 0
			if bv, ok := t.Bool(); ok {
				d = b2i(bv)
			} else if t.Op == OEq {
				d = e.decideEq(f, t.Args[0], t.Args[1])
			}
			if first {
				r, first = d, false
			} else if d != r {
				r = 0
			}
		}
		if r != 0 {
			return r
		}
	}
	if isNum(a.T) || a.Op == OConst && isNum(b.T) {
		ra, rb := f.Range(a), f.Range(b)
		if ra != nil && rb != nil {
			if avMeet(ra, rb, isInt(a.T)).Empty() {
				return -1
			}
			if len(ra.Iv) == 1 && len(rb.Iv) == 1 && ra.Iv[0].Lo != nil && ra.Iv[0].Hi != nil && rb.Iv[0].Lo != nil && rb.Iv[0].Hi != nil &&
				ra.Iv[0].Lo.Cmp(ra.Iv[0].Hi) == 0 && rb.Iv[0].Lo.Cmp(rb.Iv[0].Hi) == 0 && ra.Iv[0].Lo.Cmp(rb.Iv[0].Lo) == 0 {
				return 1
			}
		}
		if isInt(a.T) {
			u1, u2 := f.UB(a, b), f.UB(b, a)
			if u1 < 0 || u2 < 0 {
				return -1
			}
			if u1 == 0 && u2 == 0 {
				return 1
			}
		}
		return 0
	}
	// constants
	if b.IsConst() {
		if av := f.av[a]; av != nil && !av.Num {
			if !av.has(b) {
				return -1
			}
			if av.Fin && len(av.In) == 1 && av.In[0] == b {
				return 1
			}
		}
		if s, ok := b.Str(); ok {
			if r := f.Range(e.Len(a)); r != nil && !r.HasNum(int64(len(s))) {
				return -1
			} else if s == "" && r != nil && r.Within(big.NewRat(0, 1), big.NewRat(0, 1)) {
				return 1
			}
			if a.Op == OConcat && s == "" {
				for _, p := range a.Args {
					if q, ok := p.Str(); ok && q != "" {
						return -1
					}
				}
			}
		}
		if b.IsNil() {
			if a.T != nil {
				switch a.T.Underlying().(type) {
				case *types.Slice, *types.Map:
					if r := f.Range(e.Len(a)); r != nil && !r.HasNum(0) {
						return -1
					}
				}
			}
			if e.externNonNil(f, a) {
				return -1
			}
			if a.Op == ODyn && e.externNonNil(f, a.Args[0]) {
				return -1
			}
		}
	} else {
		// via known constant values of both
		va, vb := f.av[a], f.av[b]
		if va != nil && vb != nil && !va.Num && !vb.Num {
			if m := avMeet(va, vb, false); m.Empty() {
				return -1
			}
			if va.Fin && vb.Fin && len(va.In) == 1 && len(vb.In) == 1 && va.In[0] == vb.In[0] {
				return 1
			}
		}
	}
	return 0
}

// externNonNil: by convention a (T, error) result's T is non-nil when the
// error is nil; some results never are nil.
func (e *Engine) externNonNil(f *Facts, a *Term) bool {
	if nonNil(a) {
		return true
	}
	switch a.Op {
	case OExtract:
		c := a.Args[0]
		if c.Op != OCall {
			return false
		}
		n := e.resultCount(c)
		if n >= 2 && a.I < n-1 {
			er := e.callErr(c)
			if er != nil {
				d := e.Eq(er, e.nilT)
				if d.Op == OEq && e.decideEq(f, d.Args[0], d.Args[1]) == 1 {
					return true
				}
			}
		}
	case OLoad:
		// the body of a received response is never nil
		if ad := a.Args[0]; ad.Op == OFieldAddr && ad.S == "Body" && strings.Contains(shortType(ad.Args[0].T), "http.Response") {
			return true
		}
		if ad := a.Args[0]; ad.Op == OFieldAddr && ad.S == "Header" && strings.Contains(shortType(ad.Args[0].T), "http.Request") {
			return true
		}
	}
	return false
}

func (e *Engine) resultCount(c *Term) int {
	if t, ok := c.T.(*types.Tuple); ok {
		return t.Len()
	}
	return 1
}

// callErr returns the term of a call's trailing error result.
func (e *Engine) callErr(c *Term) *Term {
	t, ok := c.T.(*types.Tuple)
	if !ok || t.Len() == 0 {
		return nil
	}
	l := t.At(t.Len() - 1).Type()
	if l.String() != "error" {
		return nil
	}
	return e.Extract(c, t.Len()-1, l)
}

func (e *Engine) decideLt(f *Facts, a, b *Term) int {
	if isString(a.T) {
		if v, ok := f.av[e.mk(Term{Op: OLt, Args: []*Term{a, b}})]; ok && v.Fin && len(v.In) == 1 {
			bv, _ := v.In[0].Bool()
			return b2i(bv)
		}
		return 0
	}
	ra, rb := f.Range(a), f.Range(b)
	if ra != nil && rb != nil && ra.Num && rb.Num && len(ra.Iv) > 0 && len(rb.Iv) > 0 {
		ah, al := ra.Iv[len(ra.Iv)-1], ra.Iv[0]
		bh, bl := rb.Iv[len(rb.Iv)-1], rb.Iv[0]
		if ah.Hi != nil && bl.Lo != nil {
			if c := ah.Hi.Cmp(bl.Lo); c < 0 || c == 0 && (ah.HiOpen || bl.LoOpen) {
				return 1
			}
		}
		if al.Lo != nil && bh.Hi != nil && al.Lo.Cmp(bh.Hi) >= 0 {
			return -1
		}
	}
	if isInt(a.T) || isInt(b.T) {
		if f.UB(a, b) <= -1 {
			return 1
		}
		if f.UB(b, a) <= 0 {
			return -1
		}
	}
	return 0
}

// Assume refines st; false means the assumption is contradictory.
func (e *Engine) Assume(st *State, t *Term, val bool) bool {
	if d := e.Decide(st, t); d != 0 {
		return (d == 1) == val
	}
	f := st.F
	if x := byteVar(t); x != nil && !e.assumeByte(st, t, x, val) {
		return false
	}
	switch t.Op {
	case ONot:
		return e.Assume(st, t.Args[0], !val)
	case OEq:
		return e.assumeEq(st, t.Args[0], t.Args[1], val)
	case OLt:
		a, b := t.Args[0], t.Args[1]
		if isString(a.T) {
			f.av[t] = &AV{Fin: true, In: []*Term{e.BoolC(val)}}
			return true
		}
		if !val { // b <= a
			return e.assumeLe(st, b, a, 0)
		}
		return e.assumeLe(st, a, b, -1)
	case OCall:
		if t.S == outsideKey {
			x, lo, hi := t.Args[0], t.Args[1], t.Args[2]
			if !val {
				return e.assumeLe(st, lo, x, 0) && e.assumeLe(st, x, hi, 0)
			}
			one := big.NewRat(1, 1)
			if base, k := lin(x); base != nil && k == 0 {
				if !e.refine(st, base, &AV{Num: true, Iv: []Iv{{Hi: new(big.Rat).Sub(constRat(lo.V), one)}, {Lo: new(big.Rat).Add(constRat(hi.V), one)}}}) {
					return false
				}
			}
		}
	case OJoin:
		// keep only compatible alternatives: nothing to refine
	}
	f.av[t] = &AV{Fin: true, In: []*Term{e.BoolC(val)}}
	if t.Op == OMapHas && val {
		// a map with a key is not nil and not empty
		c := t.Args[0]
		if c.Op == OMapInit {
			e.refine(st, e.Len(c.Args[0]), avGE(1))
		}
	}
	e.assumeCall(st, t, val)
	return true
}

// byteVar is the only byte a condition depends on, nil when there is none or
// several, or the condition is a plain comparison the intervals express.
func byteVar(t *Term) *Term {
	switch t.Op {
	case OEq, OLt:
		for i := range t.Args {
			if b, _ := lin(t.Args[i]); b != nil && t.Args[1-i].Op == OConst && (b.Op == OIndex || b.Op == OSym || b.Op == OParam || b.Op == OLoad || b.Op == OLen) {
				return nil
			}
		}
	case OCall, OIndex, OMapGet, OMapHas:
	default:
		return nil
	}
	var r *Term
	n := 0
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		if x == nil {
			return true
		}
		if n++; n > 2000 {
			return false
		}
		if x != t && !x.IsConst() {
			if b, ok := x.T.(*types.Basic); ok && (b.Kind() == types.Uint8) {
				switch x.Op {
				case OIndex, OSym, OParam, OLoad:
					if x.Op == OIndex && x.Args[0].IsConst() {
						break
					}
					if r != nil && r != x {
						return false
					}
					r = x
					return true
				}
			}
		}
		if x.Op == OSym || x.Op == OParam {
			return true
		}
		for _, a := range x.Args {
			if !walk(a) {
				return false
			}
		}
		return true
	}
	if !walk(t) {
		return nil
	}
	return r
}

// assumeByte keeps the values of byte x for which t can be val.
func (e *Engine) assumeByte(st *State, t, x *Term, val bool) bool {
	av := st.F.Range(x)
	vals, ok := av.Values(256)
	if !ok || len(vals) == 0 {
		return true
	}
	var keep []Iv
	for _, v := range vals {
		c := e.Subst(t, map[*Term]*Term{x: e.Const(constant.MakeInt64(v), x.T)})
		if c.Op == OConst && c.V.Kind() == constant.Bool && constant.BoolVal(c.V) != val {
			continue
		}
		r := big.NewRat(v, 1)
		keep = append(keep, Iv{Lo: r, Hi: r})
	}
	if len(keep) == len(vals) {
		return true
	}
	if len(keep) == 0 {
		return false
	}
	return e.refine(st, x, &AV{Num: true, Iv: normIv(keep, true)})
}

// assumeLe: a - b <= c (c 0 or -1); for non integers -1 means strict.
func (e *Engine) assumeLe(st *State, a, b *Term, c int64) bool {
	f := st.F
	integer := isInt(a.T) || isInt(b.T)
	if a.Op == OConst || b.Op == OConst {
		if a.Op == OConst { // lower bound on b
			r := constRat(a.V)
			if r == nil {
				return true
			}
			if integer {
				base, k := lin(b)
				if base == nil {
					return true
				}
				lo := new(big.Rat).Sub(r, big.NewRat(k+c, 1)) // a - base - k <= c
				return e.refine(st, base, &AV{Num: true, Iv: []Iv{{Lo: lo}}})
			}
			return e.refine(st, b, &AV{Num: true, Iv: []Iv{{Lo: r, LoOpen: c < 0}}})
		}
		r := constRat(b.V)
		if r == nil {
			return true
		}
		if integer {
			base, k := lin(a)
			if base == nil {
				return true
			}
			hi := new(big.Rat).Add(r, big.NewRat(c-k, 1))
			return e.refine(st, base, &AV{Num: true, Iv: []Iv{{Hi: hi}}})
		}
		return e.refine(st, a, &AV{Num: true, Iv: []Iv{{Hi: r, HiOpen: c < 0}}})
	}
	if integer {
		ab, ac := lin(a)
		bb, bc := lin(b)
		k := pair{ab, bb}
		n := c - ac + bc
		if o, ok := f.le[k]; !ok || n < o {
			f.le[k] = n
		}
		if f.ub(bb, ab)+n < 0 {
			return false
		}
		return true
	}
	f.av[e.Lt(a, b)] = &AV{Fin: true, In: []*Term{e.BoolC(c < 0)}}
	return true
}

// refine meets the abstract value of t with a.
func (e *Engine) refine(st *State, t *Term, a *AV) bool {
	if t == nil || t.IsConst() {
		return true
	}
	f := st.F
	old := f.av[t]
	var n *AV
	if a.Num {
		n = avMeet(f.Range(t), a, isInt(t.T))
	} else {
		n = avMeet(old, a, false)
	}
	if n.Empty() {
		return false
	}
	if avEqual(old, n) {
		return true
	}
	f.av[t] = n
	// relate a string or slice with its length
	if t.Op == OLen {
		x := t.Args[0]
		if isString(x.T) {
			if !n.HasNum(0) {
				if !e.refine(st, x, &AV{Not: []*Term{e.StrC("")}}) {
					return false
				}
			} else if n.Within(new(big.Rat), new(big.Rat)) {
				return e.refine(st, x, &AV{Fin: true, In: []*Term{e.StrC("")}})
			}
		}
	}
	if isString(t.T) && !n.Num && t.Op == OSlice && t.Args[1] != nil {
		hi := t.Args[2]
		if hi == nil {
			hi = e.Len(t.Args[0])
		}
		empty := e.StrC("")
		switch {
		case n.Fin && len(n.In) == 1 && n.In[0] == empty:
			if !e.assumeLe(st, hi, t.Args[1], 0) {
				return false
			}
		case !n.Fin && inTerms(n.Not, empty):
			if !e.assumeLe(st, t.Args[1], hi, -1) {
				return false
			}
		}
	}
	if isString(t.T) && !n.Num && t.Op != OConst {
		l := e.Len(t)
		if l.Op == OLen && l.Args[0] == t {
			if n.Fin {
				var iv []Iv
				for _, c := range n.In {
					s, _ := c.Str()
					r := big.NewRat(int64(len(s)), 1)
					iv = append(iv, Iv{Lo: r, Hi: r})
				}
				if !e.refine(st, l, &AV{Num: true, Iv: normIv(iv, true)}) {
					return false
				}
			} else if inTerms(n.Not, e.StrC("")) {
				if !e.refine(st, l, avGE(1)) {
					return false
				}
			}
		}
	}
	return true
}

func (e *Engine) assumeEq(st *State, a, b *Term, val bool) bool {
	f := st.F
	if isNum(a.T) || isNum(b.T) {
		if b.Op == OConst {
			r := constRat(b.V)
			if r != nil {
				if val {
					return e.refine(st, a, avPoint(r))
				}
				return e.refine(st, a, &AV{Num: true, Iv: []Iv{{Hi: r, HiOpen: true}, {Lo: r, LoOpen: true}}})
			}
		}
		if isInt(a.T) {
			if val {
				f.eq[pair{a, b}] = true
				return e.assumeLe(st, a, b, 0) && e.assumeLe(st, b, a, 0)
			}
			f.eq[pair{a, b}] = false
			if f.UB(a, b) <= 0 {
				return e.assumeLe(st, a, b, -1)
			}
			if f.UB(b, a) <= 0 {
				return e.assumeLe(st, b, a, -1)
			}
			return true
		}
		f.eq[pair{a, b}] = val
		return true
	}
	if b.IsConst() {
		if val {
			if !e.refine(st, a, &AV{Fin: true, In: []*Term{b}}) {
				return false
			}
			if b.IsNil() && a.T != nil {
				switch a.T.Underlying().(type) {
				case *types.Slice, *types.Map:
					return e.refine(st, e.Len(a), avRange(0, 0))
				}
			}
			return true
		}
		return e.refine(st, a, &AV{Not: []*Term{b}})
	}
	f.eq[pair{a, b}] = val
	if val {
		// copy known abstract values both ways
		if va := f.av[a]; va != nil {
			if !e.refine(st, b, va) {
				return false
			}
		}
		if vb := f.av[b]; vb != nil {
			if !e.refine(st, a, vb) {
				return false
			}
		}
	}
	return true
}

// assumeCall adds what a known predicate implies.
func (e *Engine) assumeCall(st *State, t *Term, val bool) {
	if t.Op != OCall {
		return
	}
	switch t.S {
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		if s, ok := t.Args[1].Str(); ok && val && s != "" {
			e.refine(st, e.Len(t.Args[0]), avGE(int64(len(s))))
		}
	case "strings.ContainsAny":
		if val {
			e.refine(st, e.Len(t.Args[0]), avGE(1))
		}
	case "slices.Contains":
		if val {
			e.refine(st, e.Len(t.Args[0]), avGE(1))
		}
	}
}

// ---- heap ----

// Root follows an address to its base object.
func Root(a *Term) *Term {
	for a != nil && (a.Op == OFieldAddr || a.Op == OIndexAddr || a.Op == OContents) {
		a = a.Args[0]
	}
	return a
}

func under(a, base *Term) bool {
	for a != nil {
		if a == base {
			return true
		}
		if a.Op != OFieldAddr && a.Op != OIndexAddr {
			return false
		}
		a = a.Args[0]
	}
	return false
}

func (e *Engine) heapGet(st *State, a *Term) (*Term, bool) {
	if v, ok := st.heap[a]; ok {
		return v, true
	}
	if v, ok := e.globalHeap[a]; ok {
		return v, true
	}
	return nil, false
}

// Load reads a value of type t at address a.
func (e *Engine) Load(st *State, a *Term, t types.Type) *Term {
	if a.Op == OJoin {
		var vs []*Term
		for _, x := range a.Args {
			if x.IsNil() {
				continue
			}
			vs = append(vs, e.Load(st, x, t))
		}
		if len(vs) == 0 {
			return e.Sym("nilload", t)
		}
		return e.Join(vs...)
	}
	if s, ok := t.Underlying().(*types.Struct); ok && e.hasSub(st, a, s) {
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			f := s.Field(i)
			fs[i] = e.Load(st, e.FieldAddr(a, i, f.Name(), f.Type()), f.Type())
		}
		return e.structTerm(t, fs)
	}
	if arr, ok := t.Underlying().(*types.Array); ok && arr.Len() <= 1024 {
		if v, ok := e.arrayValue(st, a, arr, t); ok {
			return v
		}
	}
	return e.cell(st, a, t)
}

// arrayValue is the value of an array written element by element.
func (e *Engine) arrayValue(st *State, a *Term, arr *types.Array, t types.Type) (*Term, bool) {
	if _, d := st.heap[e.dirtyKey(a)]; d {
		return e.Sym("array:"+strconv.Itoa(a.ID)+":"+strconv.Itoa(len(e.estores)), t), true
	}
	some := false
	for i := int64(0); i < arr.Len() && !some; i++ {
		_, some = e.heapGet(st, e.IndexAddr(a, e.IntC(i), arr.Elem()))
	}
	if !some {
		return nil, false
	}
	vs := make([]*Term, arr.Len())
	zero := true
	for i := range vs {
		vs[i] = e.Load(st, e.IndexAddr(a, e.IntC(int64(i)), arr.Elem()), arr.Elem())
		zero = zero && vs[i] == e.Zero(arr.Elem())
	}
	if zero {
		return e.Zero(t), true
	}
	return e.mk(Term{Op: OStruct, Args: vs, T: t}), true
}

// structTerm builds a struct value, collapsing an unmodified copy.
func (e *Engine) structTerm(t types.Type, fs []*Term) *Term {
	var base *Term
	zero := true
	same := true
	s := t.Underlying().(*types.Struct)
	for i, f := range fs {
		if f != e.Zero(s.Field(i).Type()) {
			zero = false
		}
		switch {
		case f.Op == OLoad && f.Args[0].Op == OFieldAddr && f.Args[0].I == i:
			b := f.Args[0].Args[0]
			if base == nil {
				base = b
			} else if base != b {
				same = false
			}
		default:
			same = false
		}
	}
	if zero {
		return e.Zero(t)
	}
	if same && base != nil {
		if bs := structOf(base.T); bs != nil && bs == s {
			return e.LoadTerm(base, t)
		}
	}
	return e.mk(Term{Op: OStruct, Args: fs, T: t})
}

func (e *Engine) hasSub(st *State, a *Term, s *types.Struct) bool {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		fa := e.FieldAddr(a, i, f.Name(), f.Type())
		if _, ok := e.heapGet(st, fa); ok {
			return true
		}
		if fs, ok := f.Type().Underlying().(*types.Struct); ok && e.hasSub(st, fa, fs) {
			return true
		}
	}
	return false
}

func (e *Engine) isFresh(a *Term) bool {
	return a != nil && a.Op == OAlloc
}

func (e *Engine) dirtyKey(a *Term) *Term {
	return e.mk(Term{Op: OContents, S: "dirty", Args: []*Term{a}})
}

func (e *Engine) cell(st *State, a *Term, t types.Type) *Term {
	if v, ok := e.heapGet(st, a); ok {
		return v
	}
	switch a.Op {
	case OFieldAddr:
		base := a.Args[0]
		if w, ok := e.whole(st, base); ok {
			return e.Field(w, a.I, t)
		}
		if e.isFresh(Root(a)) {
			if _, d := st.heap[e.dirtyKey(base)]; !d {
				return e.zeroUnder(st, a, t)
			}
		}
	case OIndexAddr:
		base, idx := a.Args[0], a.Args[1]
		if e.H != nil && e.H.ElemValue != nil {
			if v := e.H.ElemValue(a); v != nil {
				return v
			}
		}
		if _, d := st.heap[e.dirtyKey(base)]; d {
			return e.dirtyElem(st, base, idx, t)
		}
		if v := e.elemOf(st, base, idx, t); v != nil {
			return v
		}
		if base.Op == OConv && isString(base.Args[0].T) {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				if _, ok := e.heapGet(st, e.Contents(base)); !ok {
					return e.Index(base.Args[0], idx, t)
				}
			}
		}
		if w, ok := e.whole(st, base); ok {
			return e.Index(w, idx, t)
		}
	case OAlloc:
		if e.isFresh(a) && (len(a.Args) == 0) {
			return e.Zero(t)
		}
	case OGlobal:
		if e.constGlobal(a.G) {
			return e.Zero(t)
		}
		if e.initMode {
			return e.Zero(t)
		}
	}
	return e.LoadTerm(a, t)
}

// zeroUnder: content of a never written part of a fresh object.
func (e *Engine) zeroUnder(st *State, a *Term, t types.Type) *Term {
	// inside an array element with symbolic index?
	for x := a; x != nil && x.Op != OAlloc; x = x.Args[0] {
		if x.Op == OIndexAddr {
			if _, ok := x.Args[1].Int(); !ok {
				return e.LoadTerm(a, t)
			}
			if x.Args[0].Op == OAlloc && strings.HasPrefix(x.Args[0].S, "slice:") {
				if _, ok := st.heap[e.Contents(x.Args[0])]; ok {
					return e.LoadTerm(a, t)
				}
			}
		}
	}
	return e.Zero(t)
}

func (e *Engine) whole(st *State, a *Term) (*Term, bool) {
	if v, ok := e.heapGet(st, a); ok {
		return v, true
	}
	if a.Op == OFieldAddr {
		if w, ok := e.whole(st, a.Args[0]); ok {
			return e.Field(w, a.I, nil), true
		}
	}
	if a.Op == OIndexAddr && e.H != nil && e.H.ElemValue != nil {
		if v := e.H.ElemValue(a); v != nil {
			return v, true
		}
	}
	return nil, false
}

// Contents is the pseudo cell of a container's content.
func (e *Engine) Contents(x *Term) *Term { return e.mk(Term{Op: OContents, Args: []*Term{x}}) }

// elemOf resolves an element of a sequence, nil if unknown.
func (e *Engine) elemOf(st *State, base, idx *Term, t types.Type) *Term {
	n, isC := idx.Int()
	switch base.Op {
	case OAlloc:
		if p, ok := base.T.Underlying().(*types.Pointer); ok {
			if arr, ok := p.Elem().Underlying().(*types.Array); ok {
				if w, ok := e.arrayWhole(st, base); ok {
					return e.Index(w, idx, t)
				}
				if isC {
					return e.Zero(t) // exact cell was not found
				}
				if arr.Len() > 0 && arr.Len() <= 64 {
					var vs []*Term
					for i := int64(0); i < arr.Len(); i++ {
						vs = append(vs, e.Load(st, e.IndexAddr(base, e.IntC(i), t), t))
					}
					return e.Join(vs...)
				}
			}
		}
		if strings.HasPrefix(base.S, "slice:") {
			if c, ok := st.heap[e.Contents(base)]; ok {
				return e.Index(c, idx, t)
			}
			return e.Zero(t)
		}
	case OAppend:
		if how := e.SortedBy(st, base); how != nil && len(base.Args) > 2 {
			if x, ok := how.Str(); !ok || x != "known" {
				// any of the elements
				if l := e.Elems(st, base); l != nil {
					return e.Join(l...)
				}
				return nil
			}
		}
		// by position, when the base length is known
		bl := e.Len(base.Args[0])
		if b, ok := bl.Int(); ok && isC && n >= b && int(n-b) < len(base.Args)-1 {
			return base.Args[1+n-b]
		}
		if b, ok := bl.Int(); ok && b == 0 && !isC {
			return e.Join(base.Args[1:]...)
		}
	case OSym:
		// an accumulated list of objects: the generic object
		els, ok := e.accElems(base)
		if !ok {
			return nil
		}
		var vs []*Term
		for _, el := range els {
			v := el.Val
			if v.Op == OIface {
				v = v.Args[0]
			}
			if v.Op != OAlloc {
				return nil
			}
			for k, c := range el.St.heap {
				if _, have := st.heap[k]; !have && e.reach(k, v, el.St) {
					st.heap[k] = c
				}
			}
			vs = append(vs, el.Val)
		}
		if len(vs) > 0 {
			return e.Join(vs...)
		}
	}
	return nil
}

type elemStore struct {
	base, idx, val *Term
	st             *State
}

// dirtyElem is an element of a sequence written at varying positions: the
// generic object stored, or a symbol whose origins are the values stored.
func (e *Engine) dirtyElem(st *State, base, idx *Term, t types.Type) *Term {
	sym := e.Sym("elem:"+strconv.Itoa(base.ID)+":"+strconv.Itoa(idx.ID), t)
	var vs []*Term
	objs := true
	for _, s := range e.estores {
		if s.base != base {
			continue
		}
		v := s.val
		if v.Op == OIface {
			v = v.Args[0]
		}
		if v.Op != OAlloc {
			objs = false
		}
		vs = append(vs, s.val)
	}
	if len(vs) == 0 {
		return sym
	}
	if !objs {
		for _, s := range e.estores {
			if s.base == base {
				e.addOrigin(sym, s.val, s.st, false)
			}
		}
		return sym
	}
	for _, s := range e.estores {
		if s.base != base {
			continue
		}
		v := s.val
		if v.Op == OIface {
			v = v.Args[0]
		}
		for k, c := range s.st.heap {
			if _, have := st.heap[k]; !have && e.reach(k, v, s.st) {
				st.heap[k] = c
			}
		}
	}
	return e.Join(vs...)
}

func (e *Engine) reach(k, v *Term, st *State) bool {
	r := Root(k)
	if r == v {
		return true
	}
	// one level: cells of objects stored in v
	for kk, c := range st.heap {
		if Root(kk) == v && c.Any(func(x *Term) bool { return x == r && x.Op == OAlloc }) {
			return true
		}
	}
	return false
}

// Elem is an element appended to an accumulator.
type Elem struct {
	Val *Term
	St  *State
	All bool // Val is a slice whose elements all are appended
}

// accElems lists what a loop-widened sequence was built from by appending.
func (e *Engine) accElems(sym *Term) ([]Elem, bool) {
	seen := map[*Term]bool{}
	var out []Elem
	ok := true
	var add func(t *Term, st *State)
	add = func(t *Term, st *State) {
		if !ok {
			return
		}
		switch t.Op {
		case ONil:
		case OAlloc:
			if !strings.HasPrefix(t.S, "slice:") {
				ok = false
			}
			if n, c := t.Args[0].Int(); !c || n != 0 {
				ok = false
			}
		case OSlice:
			if t.Args[2] != nil && t.Args[1] == nil {
				if n, c := t.Args[2].Int(); c && n == 0 {
					return
				}
			}
			if t.Args[0].Op == OAlloc && t.Args[1] == nil && t.Args[2] == nil {
				if el := e.Elems(st, t); el != nil {
					for _, x := range el {
						out = append(out, Elem{Val: x, St: st})
					}
					return
				}
				if n, c := e.Len(t).Int(); c && n == 0 {
					return
				}
			}
			ok = false
		case OAppend:
			add(t.Args[0], st)
			for _, x := range t.Args[1:] {
				out = append(out, Elem{Val: x, St: st})
			}
		case OAppendAll:
			add(t.Args[0], st)
			out = append(out, Elem{Val: t.Args[1], St: st, All: true})
		case OSym:
			if seen[t] {
				return
			}
			seen[t] = true
			os := e.Origins[t]
			if len(os) == 0 {
				ok = false
			}
			for _, o := range os {
				add(o.Val, o.St)
			}
		default:
			ok = false
		}
	}
	add(sym, nil)
	return out, ok
}

// AccElems exposes accElems to rules.
func (e *Engine) AccElems(sym *Term) ([]Elem, bool) { return e.accElems(sym) }

// arrayWhole is the value an array variable was set to as a whole.
func (e *Engine) arrayWhole(st *State, b *Term) (*Term, bool) {
	if st == nil {
		return nil, false
	}
	if w, ok := e.heapGet(st, b); ok && w.Op != OZero {
		return w, true
	}
	if w, ok := e.heapGet(st, e.Contents(b)); ok {
		return w, true
	}
	return nil, false
}

// Elems lists the elements of a sequence of known shape, nil if unknown.
func (e *Engine) Elems(st *State, x *Term) []*Term {
	switch x.Op {
	case ONil:
		return []*Term{}
	case OSlice:
		b := x.Args[0]
		if b.Op == OAlloc && st != nil {
			p, ok := b.T.Underlying().(*types.Pointer)
			if !ok {
				return nil
			}
			arr, ok := p.Elem().Underlying().(*types.Array)
			if !ok {
				return nil
			}
			if _, ok := e.arrayWhole(st, b); ok {
				return nil
			}
			lo, hi := int64(0), arr.Len()
			if x.Args[1] != nil {
				n, ok := x.Args[1].Int()
				if !ok {
					return nil
				}
				lo = n
			}
			if x.Args[2] != nil {
				n, ok := x.Args[2].Int()
				if !ok {
					return nil
				}
				hi = n
			}
			var r []*Term
			for i := lo; i < hi && i < arr.Len(); i++ {
				r = append(r, e.Load(st, e.IndexAddr(b, e.IntC(i), arr.Elem()), arr.Elem()))
			}
			if r == nil {
				r = []*Term{}
			}
			return r
		}
	case OAlloc:
		if strings.HasPrefix(x.S, "slice:") {
			if n, ok := x.Args[0].Int(); ok && n == 0 {
				return []*Term{}
			}
		}
	case OAppend:
		b := e.Elems(st, x.Args[0])
		if b == nil {
			return nil
		}
		return append(append([]*Term{}, b...), x.Args[1:]...)
	case OAppendAll:
		b, c := e.Elems(st, x.Args[0]), e.Elems(st, x.Args[1])
		if b == nil || c == nil {
			return nil
		}
		return append(append([]*Term{}, b...), c...)
	}
	return nil
}

// Store writes v of type t at address a.
func (e *Engine) Store(st *State, a, v *Term, t types.Type) {
	if a.Op == OJoin {
		for _, x := range a.Args {
			if x.IsNil() {
				continue
			}
			old := e.Load(st, x, t)
			e.Store(st, x, e.Join(old, v), t)
		}
		return
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		for k := range st.heap {
			if k != a && under(k, a) {
				delete(st.heap, k)
			}
		}
		delete(st.heap, e.dirtyKey(a))
	}
	if a.Op == OIndexAddr {
		base := a.Args[0]
		if _, c := a.Args[1].Int(); !c {
			for k := range st.heap {
				if k != a && k.Op == OIndexAddr && k.Args[0] == base {
					delete(st.heap, k)
				}
			}
			st.heap[e.dirtyKey(base)] = e.BoolC(true)
			if Root(base).Op == OAlloc {
				e.estores = append(e.estores, elemStore{base, a.Args[1], v, st.Freeze()})
			}
		} else {
			for k := range st.heap {
				if k != a && k.Op == OIndexAddr && k.Args[0] == base {
					if _, c := k.Args[1].Int(); !c {
						delete(st.heap, k)
					}
				}
			}
		}
	}
	st.heap[a] = v
}

// MapContent is the current content of map m.
func (e *Engine) MapContent(st *State, m *Term) *Term {
	if m.IsNil() {
		return e.mk(Term{Op: OMapEmpty})
	}
	if c, ok := e.heapGet(st, e.Contents(m)); ok {
		return c
	}
	if m.Op == OAlloc {
		return e.mk(Term{Op: OMapEmpty})
	}
	return e.mk(Term{Op: OMapInit, Args: []*Term{m}, T: m.T})
}

func (e *Engine) SetMapContent(st *State, m, c *Term) { st.heap[e.Contents(m)] = c }

func (e *Engine) MapUpd(c, k, v *Term) *Term {
	// overwrite of the same key
	if c.Op == OMapUpd && c.Args[1] == k {
		c = c.Args[0]
	}
	return e.mk(Term{Op: OMapUpd, Args: []*Term{c, k, v}})
}

// MapLookup returns value and presence (presence may be nil terms of bool).
func (e *Engine) MapLookup(st *State, c, k *Term, vt types.Type) (val, has *Term) {
	orig := c
	for {
		switch c.Op {
		case OMapEmpty:
			return e.Zero(vt), e.BoolC(false)
		case OMapUpd:
			d := e.Decide(st, e.Eq(k, c.Args[1]))
			if d == 1 {
				return c.Args[2], e.BoolC(true)
			}
			if d == -1 {
				c = c.Args[0]
				continue
			}
		case OMapDel:
			d := e.Decide(st, e.Eq(k, c.Args[1]))
			if d == 1 {
				return e.Zero(vt), e.BoolC(false)
			}
			if d == -1 {
				c = c.Args[0]
				continue
			}
		case OMapCopy:
			v2, h2 := e.MapLookup(st, c.Args[1], k, vt)
			if b, ok := h2.Bool(); ok {
				if b {
					return v2, h2
				}
				c = c.Args[0]
				continue
			}
		}
		break
	}
	_ = orig
	if k.Op == ORangeKey && k.Args[0] == c {
		return e.mk(Term{Op: ORangeVal, S: k.S, Args: []*Term{c}, T: vt}), e.BoolC(true)
	}
	return e.mk(Term{Op: OMapGet, Args: []*Term{c, k}, T: vt}), e.mk(Term{Op: OMapHas, Args: []*Term{c, k}, T: types.Typ[types.Bool]})
}

// ---- state merging ----

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b+0x7F4A7C15)*0xBF58476D1CE4E5B9
	x ^= x >> 31
	x *= 0x94D049BB133111EB
	x ^= x >> 29
	return x
}

func (s *State) hash() uint64 {
	var h uint64
	for k, v := range s.heap {
		h += mix(uint64(k.ID), uint64(v.ID))
	}
	if s.Trace != nil {
		h ^= mix(uint64(s.Trace.ID), 77)
	}
	for _, l := range s.Loops {
		h = mix(h, uint64(l.ID))
	}
	for _, c := range s.Prop {
		h = mix(h, uint64(c))
	}
	return h
}

func (a *AV) hash() uint64 {
	if a == nil {
		return 1
	}
	var h uint64 = 3
	rat := func(r *big.Rat, open bool) uint64 {
		if r == nil {
			return 11
		}
		x := uint64(17)
		for _, c := range r.RatString() {
			x = x*131 + uint64(c)
		}
		if open {
			x ^= 1 << 60
		}
		return x
	}
	for _, v := range a.Iv {
		h = mix(h, rat(v.Lo, v.LoOpen))
		h = mix(h, rat(v.Hi, v.HiOpen))
	}
	var s uint64
	for _, x := range a.In {
		s += mix(uint64(x.ID), 5)
	}
	for _, x := range a.Not {
		s += mix(uint64(x.ID), 9)
	}
	return mix(h, s)
}

func (f *Facts) hash() uint64 {
	id := func(t *Term) uint64 {
		if t == nil {
			return 0
		}
		return uint64(t.ID)
	}
	var h uint64
	for t, a := range f.av {
		h += mix(uint64(t.ID), a.hash())
	}
	for k, v := range f.eq {
		x := mix(id(k[0]), id(k[1]))
		if v {
			x = mix(x, 1)
		}
		h += x
	}
	for k, c := range f.le {
		h += mix(mix(id(k[0]), id(k[1])), uint64(c)+99)
	}
	for _, q := range f.q {
		h += mix(mix(id(q.Seq), id(q.Upto)), q.Av.hash())
	}
	return h
}

func (e *Engine) joinFacts(a, b *Facts) *Facts {
	r := newFacts()
	empty := func(f *Facts, seq *Term) bool {
		v := f.Range(e.Len(seq))
		return v != nil && v.Within(new(big.Rat), new(big.Rat))
	}
	// facts on elements hold vacuously for an empty sequence
	vac := func(x, y *Facts) {
		for t, v := range x.av {
			if t.Op == OIndex && y.av[t] == nil && empty(y, t.Args[0]) {
				r.av[t] = v
			}
		}
		for _, q := range x.q {
			if empty(y, q.Seq) {
				r.q = append(r.q, q)
			}
		}
	}
	vac(a, b)
	vac(b, a)
	for t, x := range a.av {
		y := b.av[t]
		if y == nil {
			continue
		}
		if j := avJoin(x, y, isInt(t.T)); j != nil {
			r.av[t] = j
		}
	}
	for k, v := range a.eq {
		if w, ok := b.eq[k]; ok && v == w {
			r.eq[k] = v
		}
	}
	for k, c := range a.le {
		if d, ok := b.le[k]; ok {
			if d > c {
				c = d
			}
			r.le[k] = c
		} else if u := b.ub(k[0], k[1]); u < inf {
			if u > c {
				c = u
			}
			r.le[k] = c
		}
	}
	for k, c := range b.le {
		if _, ok := a.le[k]; ok {
			continue
		}
		if u := a.ub(k[0], k[1]); u < inf {
			if u > c {
				c = u
			}
			r.le[k] = c
		}
	}
	for _, q := range a.q {
		for _, p := range b.q {
			if p.Seq == q.Seq && p.Upto == q.Upto {
				if j := avJoin(p.Av, q.Av, true); j != nil {
					r.q = append(r.q, QFact{q.Seq, q.Upto, j})
				}
			}
		}
	}
	return r
}

// FactString prints the facts of a state, for reports.
func (s *State) FactString() string {
	var l []string
	for t, a := range s.F.av {
		if t.Op == OLen && isString(t.Args[0].T) {
			continue
		}
		l = append(l, t.String()+"∈"+a.String())
	}
	for k, v := range s.F.eq {
		op := "=="
		if !v {
			op = "!="
		}
		l = append(l, k[0].String()+op+k[1].String())
	}
	for k, c := range s.F.le {
		l = append(l, k[0].String()+"-"+k[1].String()+"<="+strconv.FormatInt(c, 10))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// AVOf returns the abstract value recorded or derived for t.
func (s *State) AVOf(t *Term) *AV {
	if isNum(t.T) {
		return s.F.Range(t)
	}
	return s.F.av[t]
}

// FactTerms lists the terms with facts.
func (s *State) FactTerms() []*Term {
	var r []*Term
	for t := range s.F.av {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// Truth returns 1/-1/0 for boolean term t in the state.
func (e *Engine) Truth(st *State, t *Term) int { return e.Decide(st, t) }

var _ = constant.MakeBool
