package rules

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C08", Run: func(c *Ctx) { runRegs(c, "C08") }, Floor: 10,
		Method: "path-sensitive dataflow over every Lookup and registry constructor: the answer's URLs are traced back to one registry record, whose coverage of the query must follow from the path condition",
		Assumptions: []string{
			"net.ParseCIDR, (*net.IPNet).Contains, strconv.ParseUint and url.Parse behave as documented",
			"a record's fields are changed by nobody but the constructor (unexported fields; package scan)",
		}})
	register(&Rule{ID: "C09", Run: func(c *Ctx) { runRegs(c, "C09") }, Floor: 10,
		Method: "path-sensitive dataflow: every skipped record must be refuted as a better match by the path condition, search predicates are analysed for a generic element, and constructors must establish the order searched",
		Assumptions: []string{
			"AS number ranges of a registry file do not overlap",
			"sort.Sort and sort.Search behave as documented",
		}})
}

type regs struct {
	c    *Ctx
	prop string
	sort bool // a list is searched that must be sorted

	keyList, keyIdx *eng.Term // the loop over a list of the entries' keys
}

func (r *regs) ok(p, rule, f string, a ...any) {
	if p == r.prop {
		r.c.Ok(rule, f, a...)
	}
}
func (r *regs) bad(p, rule string, fn *ssa.Function, pos token.Pos, f string, a ...any) {
	if p == r.prop {
		r.c.Bad(rule, fn, pos, f, a...)
	}
}
func (r *regs) unk(p, rule, f string, a ...any) {
	if p == r.prop {
		r.c.Unknown(rule, f, a...)
	}
}

func runRegs(c *Ctx, prop string) {
	r := &regs{c: c, prop: prop}
	r.asn()
	r.net(4)
	r.net(6)
	r.dns()
	r.tags()
	r.file()
}

// record is one element of a list, found in a term that reads a field of it.
type record struct {
	base *eng.Term // address or value of the record
	addr bool
	list *eng.Term
	idx  *eng.Term
}

func (r *regs) recordOf(t *eng.Term) *record {
	if t == nil {
		return nil
	}
	if t.Op == eng.OLoad && t.Args[0].Op == eng.OFieldAddr {
		b := t.Args[0].Args[0]
		if l, i, ok := elemAccess(b); ok {
			return &record{b, b.Op == eng.OIndexAddr, l, i}
		}
	}
	if t.Op == eng.OField {
		b := t.Args[0]
		if l, i, ok := elemAccess(b); ok {
			return &record{b, false, l, i}
		}
	}
	return nil
}

func structUnder(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (r *regs) field(st *eng.State, x *record, i int) *eng.Term {
	s := structUnder(x.base.T)
	if s == nil || i >= s.NumFields() {
		return nil
	}
	f := s.Field(i)
	if x.addr || isPtrT(x.base.T) {
		return r.c.E.Load(st, r.c.E.FieldAddr(x.base, i, f.Name(), f.Type()), f.Type())
	}
	return r.c.E.Field(x.base, i, f.Type())
}

func isPtrT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// fieldsOf lists the fields of a struct with a type.
func fieldsOf(t types.Type, want string) []int {
	s := structUnder(t)
	var l []int
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Type().String() == want {
			l = append(l, i)
		}
	}
	return l
}

const urlList = "[]*net/url.URL"

// searchRec is the predicate of a sort.Search, run on a generic element.
type searchRec struct {
	ev   *eng.Event
	i    *eng.Term
	outs []*eng.Outcome
}

func (r *regs) hooks() *eng.Hooks {
	c := r.c
	h := &eng.Hooks{SplitFacts: 80, Keep: func(*eng.Event) bool { return true }}
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		if ev.Key != "sort.Search" || len(ev.Args) != 2 {
			return
		}
		i := c.E.Sym("probe", types.Typ[types.Int])
		s := st.Clone()
		if !c.E.Assume(s, c.E.Lt(i, c.E.IntC(0)), false) || !c.E.Assume(s, c.E.Lt(i, ev.Args[0]), true) {
			return
		}
		outs := c.E.Apply(s, &eng.Hooks{SplitFacts: 80}, ev.Args[1], []*eng.Term{i})
		c.E.Emit(&searchRec{ev, i, outs})
	}
	return h
}

// split applies f to the states in which a predicate outcome is v.
func (r *regs) split(outs []*eng.Outcome, v bool, f func(st *eng.State)) {
	for _, o := range outs {
		if o.Panic || len(o.Rets) != 1 {
			continue
		}
		s := o.St.Clone()
		if r.c.E.Assume(s, o.Rets[0], v) && !s.Dead {
			f(s)
		}
	}
}

// possible tells whether all terms can hold together.
func (r *regs) possible(st *eng.State, ts ...*eng.Term) bool {
	s := st.Clone()
	for _, t := range ts {
		if !r.c.E.Assume(s, t, true) || s.Dead {
			return false
		}
	}
	// a second round: facts learned late may decide earlier ones
	for _, t := range ts {
		if r.c.E.Decide(s, t) == -1 {
			return false
		}
	}
	return true
}

func (r *regs) le(a, b *eng.Term) *eng.Term { return r.c.E.Not(r.c.E.Lt(b, a)) }

// answers pairs the URLs and the entry name of an answer, with the state they
// were chosen in. Loop variables are resolved to the values the iterations
// give them.
type answer struct {
	urls, entry *eng.Term
	st          *eng.State
	li          *eng.LoopInfo
	edge        *eng.BackEdge
}

func (r *regs) answers(o *eng.Outcome) ([]answer, bool) {
	c := r.c
	u := c.FieldOf(o.St, o.Rets[0], "URLs")
	n := c.FieldOf(o.St, o.Rets[0], "Entry")
	if u == nil || n == nil {
		return nil, false
	}
	return r.resolve(answer{u, n, o.St, nil, nil}, 0)
}

func (r *regs) resolve(a answer, d int) ([]answer, bool) {
	c := r.c
	if c.IsNil(a.st, a.urls) == 1 {
		return []answer{a}, true
	}
	var sym *eng.Term
	var li *eng.LoopInfo
	find := func(t *eng.Term) {
		// the value itself, or the record it is a field of
		for t != nil && sym == nil {
			if t.Op == eng.OSym {
				for _, l := range c.E.LoopList {
					for _, s := range l.Phis {
						if s == t {
							sym, li = t, l
						}
					}
					if _, ok := l.Cells[t]; ok {
						sym, li = t, l
					}
				}
				return
			}
			switch t.Op {
			case eng.OLoad, eng.OField, eng.OFieldAddr:
				t = t.Args[0]
			default:
				return
			}
		}
	}
	find(a.urls)
	if sym == nil {
		return []answer{a}, true
	}
	if d > 3 {
		return nil, false
	}
	var res []answer
	// the value before the loop
	for _, o := range c.E.Origins[sym] {
		if !o.Init || o.St == nil {
			continue
		}
		u := c.E.Subst(a.urls, map[*eng.Term]*eng.Term{sym: o.Val})
		if o.Val.IsNil() || u.IsNil() || c.IsNil(o.St, u) == 1 {
			continue
		}
		x, ok := r.resolve(answer{u, a.entry, o.St, a.li, a.edge}, d+1)
		if !ok {
			return nil, false
		}
		res = append(res, x...)
	}
	for _, b := range li.Back {
		if b.St == nil || b.St.Dead {
			continue
		}
		m := map[*eng.Term]*eng.Term{}
		for _, t := range []*eng.Term{a.urls, a.entry} {
			t.Walk(func(x *eng.Term) bool {
				if x.Op == eng.OSym {
					if v := c.E.EdgeVal(li, b, x); v != nil {
						m[x] = v
					}
				}
				return true
			})
		}
		if m[sym] == sym {
			continue
		}
		u, n := r.reload(b.St, c.E.Subst(a.urls, m)), r.reload(b.St, c.E.Subst(a.entry, m))
		x, ok := r.resolve(answer{u, n, b.St, li, b}, d+1)
		if !ok {
			return nil, false
		}
		res = append(res, x...)
	}
	return res, true
}

// reload reads a term's address again in a state.
func (r *regs) reload(st *eng.State, t *eng.Term) *eng.Term {
	if t.Op == eng.OLoad {
		return r.c.E.Load(st, t.Args[0], t.T)
	}
	return t
}

// constructor analyses New* with the parsed file as given.
func (r *regs) constructor(fn *ssa.Function, rule string, setup func(st *eng.State, ps []*eng.Term) []*eng.Term) ([]*eng.Outcome, []any, bool) {
	h := &eng.Hooks{SplitFacts: 80, Keep: func(*eng.Event) bool { return true }, Opaque: func(f *ssa.Function) bool { return f.Name() == "NewFile" && f.Pkg == fn.Pkg }}
	c := r.c
	h.OnStore = func(st *eng.State, kind string, addr, key, val *eng.Term, fr *eng.Frame, in ssa.Instruction) {
		c.E.Emit(&storeRec{kind, addr, key, val, st.Clone(), fr, in})
	}
	return c.Run(rule, fn, h, setup)
}

type storeRec struct {
	kind           string
	addr, key, val *eng.Term
	st             *eng.State
	fr             *eng.Frame
	in             ssa.Instruction
}

// isFileEntries matches the entries of the parsed file.
func isFileEntries(t *eng.Term) bool {
	if t == nil {
		return false
	}
	if t.Op == eng.OMapInit {
		t = t.Args[0]
	}
	if t.FieldName() != "Entries" && !(t.Op == eng.OLoad && t.Args[0].FieldName() == "Entries") {
		return false
	}
	return t.Any(func(x *eng.Term) bool { return x.Op == eng.OCall && strings.HasSuffix(x.S, ".NewFile") })
}

// isKeyList matches a list of all the keys of the parsed file's entries.
func (r *regs) isKeyList(t *eng.Term) bool {
	if t == nil {
		return false
	}
	if t.Op == eng.OCall {
		if t.S != "slices.Sorted" && t.S != "slices.Collect" && t.S != "slices.SortedFunc" {
			return false
		}
		k := t.Args[0]
		return isCall(k, "maps.Keys") && isFileEntries(k.Args[0])
	}
	if t.Op != eng.OSym && t.Op != eng.OSlice {
		return false
	}
	for t.Op == eng.OSlice {
		t = t.Args[0]
	}
	els, ok := r.c.E.AccElems(t)
	if !ok || len(els) == 0 {
		return false
	}
	for _, x := range els {
		if x.All || x.Val.Op != eng.ORangeKey || !isFileEntries(x.Val.Args[0]) {
			return false
		}
	}
	return true
}

// isKey: a key of the parsed file's entries.
func (r *regs) isKey(t *eng.Term) bool {
	if t.Op == eng.ORangeKey {
		return true
	}
	if l, i, ok := elemAccess(t); ok && t.Op != eng.OIndexAddr && r.isKeyList(l) {
		r.keyList, r.keyIdx = l, i
		return true
	}
	return false
}

// keyIn finds a key in a term.
func (r *regs) keyIn(t *eng.Term) *eng.Term {
	var k *eng.Term
	t.Walk(func(x *eng.Term) bool {
		if k == nil && r.isKey(x) {
			k = x
		}
		return k == nil
	})
	return k
}

// isURLs: the URLs of an entry of the file.
func isURLs(u *eng.Term) bool {
	return (u.Op == eng.ORangeVal || u.Op == eng.OMapGet) && isFileEntries(u.Args[0])
}

// sameEntry: are the URLs those of the entry with key k? 1, -1, 0.
func (r *regs) sameEntry(u, k *eng.Term) int {
	switch {
	case u.Op == eng.ORangeVal && k.Op == eng.ORangeKey:
		if u.S == k.S {
			return 1
		}
		return -1
	case u.Op == eng.OMapGet && u.Args[1] == k:
		return 1
	case u.Op == eng.OMapGet && (r.isKey(u.Args[1]) || u.Args[1].IsConst()):
		return -1
	}
	return 0
}

// entriesLoop finds the loop over the parsed file's entries.
func (r *regs) entriesLoop() *eng.LoopInfo {
	if r.keyIdx != nil {
		if b, _ := eng.Lin(r.keyIdx); b != nil {
			if li := r.c.loopOf(b); li != nil {
				if d, why := r.c.fullRange(nil, r.keyList, r.keyIdx); d == -1 {
					r.bad("C09", "file", li.Fn, 0, "not all entries of the file are visited: %s", why)
				}
				return li
			}
		}
	}
	for _, li := range r.c.E.LoopList {
		if li.MapC != nil && isFileEntries(li.MapC) {
			return li
		}
	}
	return nil
}

// ---------------------------------------------------------------- AS numbers

// asnText: the number is parsed from the query without an "as" prefix.
func (r *regs) asnText(st *eng.State, t, q *eng.Term) (int, string) {
	for i := 0; i < 10; i++ {
		if t == q {
			return 1, ""
		}
		if t.Op == eng.OSlice && t.Args[1] != nil && t.Args[2] == nil {
			if n, isc := t.Args[1].Int(); isc && n == 2 && r.prefixed(st, t.Args[0]) {
				t = t.Args[0]
				continue
			}
			return 0, "part of the query " + short(t)
		}
		if t.Op == eng.OJoin {
			return 0, short(t)
		}
		if t.Op != eng.OCall {
			return 0, short(t)
		}
		switch t.S {
		case "strings.ToLower", "strings.ToUpper":
			t = t.Args[0]
		case "strings.TrimPrefix":
			s, ok := t.Args[1].Str()
			if !ok {
				return 0, short(t)
			}
			if strings.ToLower(s) != "as" {
				return -1, "prefix " + s + " is removed"
			}
			t = t.Args[0]
		case "strings.TrimLeft", "strings.Trim", "strings.TrimSpace", "strings.Replace", "strings.ReplaceAll", "strings.TrimRight", "strings.TrimSuffix", "strings.TrimFunc", "strings.TrimLeftFunc":
			return -1, t.S + " turns other texts into numbers"
		default:
			return 0, short(t)
		}
	}
	return 0, ""
}

func (r *regs) asn() {
	c := r.c
	cons := c.Func(pkgBoot, "NewASNRegistry")
	look := c.Func(pkgBoot, "*ASNRegistry.Lookup")
	if cons == nil || look == nil {
		r.unk(r.prop, "asn", "NewASNRegistry or Lookup not found")
		return
	}
	// which field of a record is the lower bound is decided by the constructor
	order := r.asnConstructor(cons)

	var q *eng.Term
	outs, recs, ok := c.Run("asn", look, r.hooks(), func(st *eng.State, ps []*eng.Term) []*eng.Term {
		c.assumeNil(st, ps[0], false)
		c.assumeNil(st, ps[1], false)
		q = c.Field(st, ps[1], "Query")
		return ps
	})
	if !ok {
		return
	}
	type miss struct{ o *eng.Outcome }
	var list *eng.Term
	var pos token.Pos
	var asn *eng.Term
	var misses []*eng.Outcome
	var hitIdx []*eng.Term
	searched := func(idx *eng.Term) (l []*searchRec) {
		b, _ := eng.Lin(idx)
		for _, x := range recs {
			if s, ok := x.(*searchRec); ok && s.ev.Res == b {
				l = append(l, s)
			}
		}
		return l
	}
	for _, o := range outs {
		if o.Panic {
			continue // C14
		}
		if c.IsNil(o.St, o.Rets[1]) == -1 {
			continue
		}
		pe := hasEvent(o.St.Trace, "strconv.ParseUint")
		if pe == nil {
			r.unk("C08", "asn", "how the number is parsed")
			return
		}
		if !r.parsed(o, pe, "asn", look) {
			continue
		}
		r.wide(pe, "AS numbers of queries")
		n := c.resultOf(pe.Res, 0)
		v, why := r.asnText(o.St, pe.Args[0], q)
		switch v {
		case 1:
			r.ok("C08", "asn", "the number is read from the query")
		case -1:
			r.bad("C08", "asn", look, posOf(pe.Instr), "a text that is no AS number is accepted: %s", why)
		default:
			r.unk("C08", "asn", "text of the number: %s", why)
		}
		if b, isc := pe.Args[1].Int(); isc {
			if b != 10 {
				r.bad("C08", "asn", look, posOf(pe.Instr), "the AS number is parsed in base %d", b)
			} else {
				r.ok("C08", "asn", "decimal number")
			}
		}
		av := o.St.AVOf(n)
		bits, isc := pe.Args[2].Int()
		if !(isc && bits > 0 && bits <= 32) && !av.Within(big.NewRat(0, 1), big.NewRat(1<<32-1, 1)) {
			if isc && (bits > 32 || bits == 0) {
				r.bad("C08", "asn", look, posOf(pe.Instr), "a number above 32 bits is accepted as an AS number")
			} else {
				r.unk("C08", "asn", "range of the number")
			}
		} else {
			r.ok("C08", "asn", "the number fits 32 bits")
		}
		as, ok := r.answers(o)
		if !ok {
			r.unk("C08", "asn", "answer of unknown shape")
			continue
		}
		hit := false
		for _, a := range as {
			if c.IsNil(a.st, a.urls) == 1 {
				continue
			}
			if l, isc := c.E.Len(a.urls).Int(); isc && l == 0 {
				continue
			}
			rec := r.recordOf(a.urls)
			if rec == nil {
				r.unk("C08", "asn", "URLs %s are not those of a record", short(a.urls))
				return
			}
			fs := fieldsOf(rec.base.T, "uint32")
			if len(fs) != 2 {
				r.unk("C08", "asn", "record of unknown shape")
				return
			}
			if order == -1 {
				fs[0], fs[1] = fs[1], fs[0]
			}
			hit = true
			list = rec.list
			hitIdx = append(hitIdx, rec.idx)
			lo, hi := r.field(a.st, rec, fs[0]), r.field(a.st, rec, fs[1])
			asn = r.numIn(a.st, n, lo)
			pos = posOf(o.In)
			lc := r.decideLe(a.st, lo, n)
			hc := r.decideLe(a.st, n, hi)
			switch {
			case lc && hc:
				r.ok("C08", "asn", "the record answered contains the number")
			default:
				what := "ends below"
				if !lc {
					what = "starts above"
				}
				r.bad("C08", "asn", look, pos, "the URLs of a record that %s the number queried are answered", what)
			}
			// the entry is the record's
			other := false
			own := false
			a.entry.Walk(func(x *eng.Term) bool {
				if x == lo || x == hi {
					own = true
				}
				if x2 := r.recordOf(x); x2 != nil && x2.base != rec.base {
					other = true
				}
				return true
			})
			switch {
			case other:
				r.bad("C08", "asn", look, pos, "the answer names another record than the one whose URLs it gives (%s)", short(a.entry))
			case own:
				var nums []*eng.Term
				off := false
				a.entry.Walk(func(x *eng.Term) bool {
					if x == lo || x == hi {
						nums = append(nums, x)
						return false
					}
					if b, k := eng.Lin(x); (b == lo || b == hi) && b != x && k != 0 {
						off = true
					}
					return true
				})
				same := c.E.Eq(lo, hi)
				switch {
				case off:
					r.bad("C08", "asn", look, pos, "the answer names a number that is no bound of the record: %s", short(a.entry))
				case a.entry.Op == eng.OConcat && len(nums) == 2 && nums[0] == hi && nums[1] == lo && r.possible(a.st, c.E.Not(same)):
					r.bad("C08", "asn", look, pos, "the answer names the bounds of the record in the wrong order: %s", short(a.entry))
				case a.entry.Op == eng.OConcat && len(nums) == 1 && c.E.Decide(a.st, same) == -1:
					r.bad("C08", "asn", look, pos, "the answer names a single number for a range of several: %s", short(a.entry))
				default:
					r.ok("C08", "asn", "the answer names the record")
				}
			default:
				if _, isc := a.entry.Str(); isc {
					r.bad("C08", "asn", look, pos, "the answer with URLs does not name its record")
				} else {
					r.unk("C08", "asn", "entry %s", short(a.entry))
				}
			}
		}
		if !hit {
			misses = append(misses, o)
		}
	}
	if r.prop != "C09" {
		return
	}
	if list == nil {
		r.bad("C09", "asn", look, 0, "no AS number is ever found")
		return
	}
	_ = asn
	// every record passed over cannot contain the number
	fieldsAt := func(st *eng.State, idx *eng.Term) (lo, hi *eng.Term) {
		et := list.T.Underlying().(*types.Slice).Elem()
		a := c.E.IndexAddr(list, idx, et)
		rec := &record{a, true, list, idx}
		fs := fieldsOf(et, "uint32")
		if order == -1 {
			fs[0], fs[1] = fs[1], fs[0]
		}
		return r.field(st, rec, fs[0]), r.field(st, rec, fs[1])
	}
	idx := hitIdx[0]
	for _, x := range hitIdx[1:] {
		if x != idx {
			r.unk("C09", "asn", "several ways to find a record")
			return
		}
	}
	b, k := eng.Lin(idx)
	if ss := searched(idx); len(ss) > 0 && b != nil {
		if k != 0 && k != -1 {
			r.unk("C09", "asn", "record %s of the search", short(idx))
			return
		}
		for _, s := range ss {
			num := r.numOf(s)
			if r.opaquePredicate(s) || num == nil {
				r.unk("C09", "asn", "search predicate")
				return
			}
			badF, badT := false, false
			styleA := k == 0
			r.split(s.outs, false, func(st *eng.State) {
				lo, hi := fieldsAt(st, s.i)
				if styleA && !r.decideLt(st, hi, num) || !styleA && !r.decideLe(st, lo, num) {
					badF = true
				}
			})
			r.split(s.outs, true, func(st *eng.State) {
				lo, hi := fieldsAt(st, s.i)
				if styleA && !r.decideLe(st, num, hi) || !styleA && !r.decideLt(st, num, lo) {
					badT = true
				}
			})
			switch {
			case badF:
				r.bad("C09", "asn", look, posOf(s.ev.Instr), "the search passes over records that may contain the number (its predicate is false for one)")
			case badT:
				r.bad("C09", "asn", look, posOf(s.ev.Instr), "the search stops at a record before the one containing the number (its predicate holds too early)")
			default:
				r.ok("C09", "asn", "the search finds the first candidate")
			}
		}
		for _, o := range misses {
			num := c.resultOf(hasEvent(o.St.Trace, "strconv.ParseUint").Res, 0)
			lo, hi := fieldsAt(o.St, idx)
			if r.possible(o.St, c.E.Lt(idx, c.E.Len(list)), r.le(c.E.IntC(0), idx), r.leN(o.St, lo, num), r.leN(o.St, num, hi)) {
				r.bad("C09", "asn", look, posOf(o.In), "a record containing the number is found and not answered")
			} else {
				r.ok("C09", "asn", "a record containing the number is answered")
			}
		}
		r.asnSorted(cons, order)
		return
	}
	// a scan of the list
	li := c.loopOf(b)
	if li == nil {
		r.unk("C09", "asn", "the record is chosen in an unknown way (%s)", short(idx))
		return
	}
	num := (*eng.Term)(nil)
	for _, o := range outs {
		if e := hasEvent(o.St.Trace, "strconv.ParseUint"); e != nil && c.IsNil(o.St, o.Rets[1]) == 1 {
			if n := c.resultOf(e.Res, 0); num != nil && n != num {
				r.unk("C09", "asn", "several ways to read the number")
				return
			} else {
				num = n
			}
		}
	}
	for _, e := range li.Back {
		lo, hi := fieldsAt(e.St, idx)
		chosen := false
		for _, v := range e.Vals {
			if rr := r.recordOf(v); rr != nil && rr.idx == idx {
				chosen = true
			}
		}
		if chosen {
			continue
		}
		if r.possible(e.St, r.leN(e.St, lo, num), r.leN(e.St, num, hi)) {
			r.bad("C09", "asn", look, posOf(firstPos(e.From)), "a record containing the number is passed over")
		} else {
			r.ok("C09", "asn", "records passed over do not contain the number")
		}
	}
	r.scanWhole(li, list, idx, look, "asn")
}

// scanWhole: the loop visits all elements unless it answers.
func (r *regs) scanWhole(li *eng.LoopInfo, list, idx *eng.Term, fn *ssa.Function, rule string) {
	c := r.c
	b, k := eng.Lin(idx)
	for _, o := range c.E.Origins[b] {
		ob, n := eng.Lin(o.Val)
		if o.Init && ob == nil && n+k != 0 {
			r.bad("C09", rule, fn, 0, "the scan leaves out the first records")
			return
		}
	}
	for _, x := range li.Exits {
		if x.St.Dead || x.Return {
			continue
		}
		if c.E.Decide(x.St, c.E.Lt(idx, c.E.Len(list))) == 1 {
			// left at an element: it must be because of a match
			continue
		}
		r.ok("C09", rule, "the scan ends after the last record")
	}
}

// opaquePredicate: a search predicate uses more than comparisons.
func (r *regs) opaquePredicate(s *searchRec) bool {
	if len(s.outs) == 0 {
		return true
	}
	for _, o := range s.outs {
		for _, t := range o.St.FactTerms() {
			if t.Contains(s.i) && t.Any(func(x *eng.Term) bool {
				return x.Op == eng.OCall && x.Contains(s.i)
			}) {
				return true
			}
		}
	}
	return false
}

// numIn is the number as it is compared with a field.
func (r *regs) numIn(st *eng.State, n, f *eng.Term) *eng.Term {
	if n.T != f.T {
		return r.c.E.Conv(n, f.T)
	}
	return n
}

func (r *regs) variants(t *eng.Term) []*eng.Term {
	t = stripConv(t)
	l := []*eng.Term{t}
	for _, k := range []types.BasicKind{types.Uint32, types.Uint64, types.Int64, types.Int, types.Uint} {
		if t.T != nil && t.T.Underlying() == types.Typ[k] {
			continue
		}
		l = append(l, r.c.E.Conv(t, types.Typ[k]))
	}
	return l
}

// decideLe: a <= b follows, whatever integer type they are compared as.
func (r *regs) decideLe(st *eng.State, a, b *eng.Term) bool {
	for _, x := range r.variants(a) {
		for _, y := range r.variants(b) {
			if r.c.E.Decide(st, r.c.E.Lt(y, x)) == -1 {
				return true
			}
		}
	}
	return false
}

func (r *regs) decideLt(st *eng.State, a, b *eng.Term) bool {
	for _, x := range r.variants(a) {
		for _, y := range r.variants(b) {
			if r.c.E.Decide(st, r.c.E.Lt(x, y)) == 1 {
				return true
			}
		}
	}
	return false
}

// leN is a <= b in the form the state knows about.
func (r *regs) leN(st *eng.State, a, b *eng.Term) *eng.Term {
	for _, x := range r.variants(a) {
		for _, y := range r.variants(b) {
			if r.c.E.Decide(st, r.c.E.Lt(y, x)) == 1 {
				return r.c.E.BoolC(false)
			}
		}
	}
	return r.le(stripConv(a), r.numIn(st, stripConv(b), stripConv(a)))
}

// parsed: an answer without error is given only when the text was valid.
func (r *regs) parsed(o *eng.Outcome, ev *eng.Event, rule string, fn *ssa.Function) bool {
	c := r.c
	e := c.errOf(ev.Res)
	switch c.IsNil(o.St, e) {
	case 1:
		r.ok("C08", rule, "an answer needs a valid query")
		return true
	case -1:
		if c.IsNil(o.St, o.Rets[1]) == 1 {
			r.bad("C08", rule, fn, posOf(o.In), "a query that %s rejects is no error", ev.Key)
		}
		return false
	}
	if o.Rets[1] == e {
		return true // returned as it is
	}
	if c.IsNil(o.St, o.Rets[1]) == 1 {
		r.bad("C08", rule, fn, posOf(o.In), "the error of %s is not looked at", ev.Key)
	} else {
		r.unk("C08", rule, "error %s", short(o.Rets[1]))
	}
	return false
}

// asnConstructor checks the records made from a file and tells whether the
// first number of a record is its lower bound (1), its upper bound (-1).
func (r *regs) asnConstructor(fn *ssa.Function) int {
	c := r.c
	outs, _, ok := r.constructor(fn, "asn", nil)
	if !ok {
		return 1
	}
	order := 0
	for _, o := range outs {
		if o.Panic || c.IsNil(o.St, o.Rets[1]) != 1 {
			continue
		}
		list := r.listField(o)
		if list == nil {
			r.unk(r.prop, "asn", "constructor result of unknown shape")
			return 1
		}
		els, ok := c.E.AccElems(list)
		if !ok {
			r.unk(r.prop, "asn", "list of records %s", short(list))
			return 1
		}
		for _, el := range els {
			if el.All || el.St == nil {
				r.unk(r.prop, "asn", "record %s", short(el.Val))
				continue
			}
			fs := fieldsOf(el.Val.T, "uint32")
			us := fieldsOf(el.Val.T, urlList)
			if len(fs) != 2 || len(us) != 1 {
				r.unk(r.prop, "asn", "record of unknown shape")
				return 1
			}
			a, b := c.E.Field(el.Val, fs[0], nil), c.E.Field(el.Val, fs[1], nil)
			u := c.E.Field(el.Val, us[0], nil)
			first, second := r.decideLe(el.St, a, b), r.decideLe(el.St, b, a)
			switch {
			case first && second:
			case first && order >= 0:
				order = 1
			case second && order <= 0:
				order = -1
			default:
				r.bad("C08", "asn", fn, 0, "the bounds of a record are not in order: %s, %s", short(a), short(b))
			}
			if isURLs(u) {
				r.ok("C08", "asn", "a record has the URLs of its entry")
				// numbers are of the same entry
				for _, x := range []*eng.Term{a, b} {
					k := r.keyIn(x)
					switch {
					case k == nil || r.sameEntry(u, k) == 0:
						r.unk("C08", "asn", "bound %s", short(x))
					case r.sameEntry(u, k) == -1:
						r.bad("C08", "asn", fn, 0, "a record has the URLs of another entry")
					default:
						r.ok("C08", "asn", "a bound is read from the entry")
					}
				}
			} else {
				r.unk("C08", "asn", "URLs %s", short(u))
			}
		}
	}
	if order == 0 {
		order = 1
	}
	if r.prop == "C09" {
		r.asnKept(fn)
		r.allVisited("asn", fn, 0)
	}
	return order
}

// listField is the list of records of a constructed registry.
func (r *regs) listField(o *eng.Outcome) *eng.Term {
	s := structUnder(o.Rets[0].T)
	var l *eng.Term
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && structUnder(sl.Elem()) != nil {
			if l != nil {
				return nil
			}
			l = r.c.Field(o.St, o.Rets[0], s.Field(i).Name())
		}
	}
	return l
}

// wide: the conversion accepts every AS number in its decimal form.
func (r *regs) wide(ev *eng.Event, what string) {
	if len(ev.Args) != 3 {
		return
	}
	need := int64(32)
	if ev.Key == "strconv.ParseInt" {
		need = 33
	}
	if b, ok := ev.Args[2].Int(); ok && b != 0 && b < need {
		r.bad("C09", "asn", ev.Fn, posOf(ev.Instr), "%s above %d bits are refused", what, b-(need-32))
	}
	if b, ok := ev.Args[1].Int(); ok && b != 10 {
		r.bad("C09", "asn", ev.Fn, posOf(ev.Instr), "%s are read in base %d", what, b)
	}
}

// asnKept: every well formed entry of a file becomes a record.
func (r *regs) asnKept(fn *ssa.Function) {
	c := r.c
	for _, parts := range []int64{1, 2} {
		r.keyIdx = nil
		h := &eng.Hooks{SplitFacts: 80, Opaque: func(f *ssa.Function) bool { return f.Name() == "NewFile" && f.Pkg == fn.Pkg }}
		seen, skip := false, token.NoPos
		unk := ""
		h.OnCall = func(st *eng.State, ev *eng.Event) {
			for _, a := range ev.Args {
				if a != nil {
					r.keyIn(a)
				}
			}
			switch ev.Key {
			case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
				c.assumeNil(st, c.errOf(ev.Res), true)
				r.wide(ev, "AS numbers of the file")
			case "strings.Split", "strings.SplitN":
				if s, ok := ev.Args[1].Str(); ok && s == "-" {
					c.assume(st, c.E.Eq(c.E.Len(ev.Res), c.E.IntC(parts)), true)
				}
			case "strings.Count":
				if s, ok := ev.Args[1].Str(); ok && s == "-" {
					c.assume(st, c.E.Eq(ev.Res, c.E.IntC(parts-1)), true)
				}
			default:
				if len(ev.Args) > 0 && strings.HasPrefix(ev.Key, "strings.") {
					// a part of the entry has no hyphen
					whole := r.isKey(ev.Args[0])
					c.containsScenario(st, ev, ev.Args[0], '-', whole && parts == 2)
				} else if ev.Kind == "call" && !eng.Pure(ev.Key) {
					unk = ev.Key
				}
			}
		}
		outs, _, ok := c.Run("asn", fn, h, nil)
		if !ok {
			return
		}
		li := r.entriesLoop()
		var list *eng.Term
		for _, o := range outs {
			if !o.Panic && c.IsNil(o.St, o.Rets[1]) == 1 {
				list = r.listField(o)
			}
		}
		if li == nil || list == nil {
			r.unk("C09", "asn", "how the entries of the file are visited")
			return
		}
		_ = unk
		sym := list
		for sym != nil && sym.Op == eng.OSlice {
			sym = sym.Args[0]
		}
		if n, isc := c.E.Len(list).Int(); isc && n == 0 {
			r.bad("C09", "asn", fn, 0, "well formed entries (%d number(s)) of the file are left out", parts)
			continue
		}
		if c.E.EdgeVal(li, &eng.BackEdge{St: li.Entry, Vals: map[*ssa.Phi]*eng.Term{}}, sym) == nil && c.loopOf(sym) != li {
			r.unk("C09", "asn", "list %s", short(list))
			return
		}
		for _, b := range li.Back {
			if b.St.Dead {
				continue
			}
			if c.E.EdgeVal(li, b, sym) == sym {
				skip = posOf(firstPos(b.From))
			} else {
				seen = true
			}
		}
		switch {
		case skip != token.NoPos:
			r.bad("C09", "asn", fn, skip, "a well formed entry (%d number(s)) of the file is left out", parts)
		case seen:
			r.ok("C09", "asn", "every well formed entry becomes a record")
		}
		for _, x := range li.Exits {
			if x.St.Dead {
				continue
			}
			if c.exhausted(x, li) == -1 {
				r.bad("C09", "asn", fn, posOf(firstPos(x.From)), "the loop over the entries is left early")
			}
		}
	}
}

// allVisited: an entry that cannot be used does not end the visit of the
// others, unless the whole file is refused.
func (r *regs) allVisited(rule string, fn *ssa.Function, version int64) {
	c := r.c
	r.keyIdx = nil
	h := &eng.Hooks{SplitFacts: 80, Opaque: func(f *ssa.Function) bool { return f.Name() == "NewFile" && f.Pkg == fn.Pkg }}
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		for _, a := range ev.Args {
			if a != nil {
				r.keyIn(a)
			}
		}
	}
	_, _, ok := c.Run(rule, fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		if version != 0 {
			return []*eng.Term{ps[0], c.E.IntC(version)}
		}
		return ps
	})
	if !ok {
		return
	}
	li := r.entriesLoop()
	if li == nil {
		r.unk("C09", rule, "how the entries of the file are visited")
		return
	}
	for _, x := range li.Exits {
		if x.St.Dead || errorExit(x) {
			continue
		}
		switch {
		case x.Return:
			r.unk("C09", rule, "the loop over the entries returns")
		case c.exhausted(x, li) == -1:
			r.bad("C09", rule, fn, posOf(firstPos(x.From)), "the loop over the entries is left early, the entries that remain are not in the registry")
		default:
			r.ok("C09", rule, "an entry that is no record does not end the visit of the others")
		}
	}
}

// asnSorted: the constructed list is in the order searched.
func (r *regs) asnSorted(fn *ssa.Function, order int) {
	c := r.c
	outs, recs, ok := r.constructor(fn, "asn", nil)
	if !ok {
		return
	}
	for _, o := range outs {
		if o.Panic || c.IsNil(o.St, o.Rets[1]) != 1 {
			continue
		}
		list := r.listField(o)
		if list == nil {
			continue
		}
		how := c.E.SortedBy(o.St, list)
		if how == nil {
			if sorts(recs) {
				r.unk("C09", "asn", "order of the list of records")
			} else {
				r.bad("C09", "asn", fn, posOf(o.In), "the list of records is searched but not sorted")
			}
			continue
		}
		r.ascending("asn", fn, o.St, list, how, func(st *eng.State, a, b *record) []*eng.Term {
			fs := fieldsOf(a.base.T, "uint32")
			if order == -1 {
				fs[0], fs[1] = fs[1], fs[0]
			}
			alo, ahi := r.field(st, a, fs[0]), r.field(st, a, fs[1])
			blo, bhi := r.field(st, b, fs[0]), r.field(st, b, fs[1])
			return []*eng.Term{r.le(alo, ahi), c.E.Lt(ahi, blo), r.le(blo, bhi), r.c.E.Lt(alo, blo), c.E.Lt(alo, bhi), c.E.Lt(ahi, bhi)}
		})
	}
}

func sorts(recs []any) bool {
	for _, x := range recs {
		if s, ok := x.(*storeRec); ok && s.kind == "sort" {
			return true
		}
	}
	return false
}

// ascending: the comparison a list was sorted with puts a before b, for any
// two records of which before says that a comes first.
func (r *regs) ascending(rule string, fn *ssa.Function, st *eng.State, list, how *eng.Term, before func(st *eng.State, a, b *record) []*eng.Term) {
	c := r.c
	sl, ok := list.T.Underlying().(*types.Slice)
	if !ok {
		r.unk("C09", rule, "list %s", short(list))
		return
	}
	i, j := c.E.Sym("probe.i", types.Typ[types.Int]), c.E.Sym("probe.j", types.Typ[types.Int])
	et := sl.Elem()
	base := list
	for base.Op == eng.OSlice {
		base = base.Args[0]
	}
	mk := func(x *eng.Term) *record {
		return &record{c.E.IndexAddr(base, x, et), true, base, x}
	}
	try := func(x, y *eng.Term) (less int, known bool) {
		s := st.Clone()
		for _, t := range before(s, mk(i), mk(j)) {
			if !c.E.Assume(s, t, true) {
				return 0, false
			}
		}
		outs, isInt := r.compare(s, how, list, x, y, et)
		if outs == nil {
			return 0, false
		}
		res := 0
		for k, o := range outs {
			if o.Panic || len(o.Rets) != 1 {
				return 0, false
			}
			t := o.Rets[0]
			if isInt {
				t = c.E.Lt(t, c.E.IntC(0))
			}
			d := c.E.Decide(o.St, t)
			if k > 0 && d != res {
				d = 0
			}
			res = d
			if d == 0 {
				return 0, true
			}
		}
		return res, true
	}
	up, k1 := try(i, j)
	down, k2 := try(j, i)
	switch {
	case !k1 || !k2 || up == 0 || down == 0:
		r.unk("C09", rule, "the order of the sort (%s)", short(how))
	case up == 1 && down == -1:
		r.ok("C09", rule, "records are sorted ascending")
	default:
		r.bad("C09", rule, fn, 0, "records are not sorted in the order the search needs")
	}
}

// compare runs the comparison of a sort on elements x and y.
func (r *regs) compare(st *eng.State, how, list, x, y *eng.Term, et types.Type) (outs []*eng.Outcome, isInt bool) {
	c := r.c
	h := &eng.Hooks{SplitFacts: 80}
	f := Unwrap(how)
	if f.Op == eng.OClosure || f.Op == eng.OFunc {
		sig := f.Fn.Signature
		if sig.Params().Len() != 2 {
			return nil, false
		}
		if b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			return c.E.Apply(st, h, f, []*eng.Term{x, y}), false
		}
		rb, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		ex := c.E.Load(st, c.E.IndexAddr(list, x, et), et)
		ey := c.E.Load(st, c.E.IndexAddr(list, y, et), et)
		return c.E.Apply(st, h, f, []*eng.Term{ex, ey}), rb.Info()&types.IsInteger != 0
	}
	// a sort.Interface: its Less method
	t := how.T
	f = list
	if how.Op == eng.OType {
		ms := c.Prog.MethodSets.MethodSet(t)
		for k := 0; k < ms.Len(); k++ {
			if ms.At(k).Obj().Name() == "Less" {
				m := c.Prog.MethodValue(ms.At(k))
				if m == nil {
					return nil, false
				}
				return c.E.Apply(st, h, c.E.FuncT(m), []*eng.Term{f, x, y}), false
			}
		}
	}
	return nil, false
}

// numOf is the number a search is about.
func (r *regs) numOf(s *searchRec) *eng.Term {
	for _, o := range s.outs {
		if ev := hasEvent(o.St.Trace, "strconv.ParseUint"); ev != nil {
			return r.c.resultOf(ev.Res, 0)
		}
	}
	return nil
}

// prefixed: the text is known to start with "as".
func (r *regs) prefixed(st *eng.State, t *eng.Term) bool {
	for _, f := range st.FactTerms() {
		if f.Op != eng.OCall || len(f.Args) != 2 || r.c.E.Decide(st, f) != 1 {
			continue
		}
		x, y := f.Args[0], f.Args[1]
		if _, ok := x.Str(); ok {
			x, y = y, x
		}
		s, ok := y.Str()
		if !ok || strings.ToLower(s) != "as" {
			continue
		}
		switch f.S {
		case "strings.EqualFold":
			if x.Op == eng.OSlice && x.Args[0] == t && x.Args[1] == nil && x.Args[2] != nil {
				if n, isc := x.Args[2].Int(); isc && n == 2 {
					return true
				}
			}
		case "strings.HasPrefix":
			for x.Op == eng.OCall && (x.S == "strings.ToLower" || x.S == "strings.ToUpper") {
				x = x.Args[0]
			}
			if x == t || t.Op == eng.OCall && x == t.Args[0] {
				return true
			}
		}
	}
	return false
}
