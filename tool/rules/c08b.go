package rules

import (
	"go/token"
	"go/types"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------------ networks

const (
	kParseCIDR = "net.ParseCIDR"
	kContains  = "(*net.IPNet).Contains"
	kMaskSize  = "(net.IPMask).Size"
	kNetString = "(*net.IPNet).String"
)

func (r *regs) net(version int64) {
	c := r.c
	rule := "ipv4"
	bits := int64(32)
	if version == 6 {
		rule, bits = "ipv6", 128
	}
	cons := c.Func(pkgBoot, "NewNetRegistry")
	look := c.Func(pkgBoot, "*NetRegistry.Lookup")
	if cons == nil || look == nil {
		r.unk(r.prop, rule, "NewNetRegistry or Lookup not found")
		return
	}
	ints := r.netConstructor(cons, rule, version, bits)
	if ints == nil {
		return
	}
	r.sort = false
	for _, slash := range []bool{false, true} {
		r.netLookup(cons, look, rule, version, bits, slash, ints)
	}
	if r.sort {
		r.netSorted(cons, rule, version)
	}
}

// netConstructor checks the table made from a file. It returns the constant
// integer fields of the registry.
func (r *regs) netConstructor(fn *ssa.Function, rule string, version, bits int64) map[string]int64 {
	c := r.c
	setup := func(st *eng.State, ps []*eng.Term) []*eng.Term {
		return []*eng.Term{ps[0], c.E.IntC(version)}
	}
	outs, recs, ok := r.constructor(fn, rule, setup)
	if !ok {
		return nil
	}
	ints := map[string]int64{}
	n := 0
	for _, o := range outs {
		if o.Panic || c.IsNil(o.St, o.Rets[1]) != 1 {
			continue
		}
		n++
		s := structUnder(o.Rets[0].T)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			f := s.Field(i)
			if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if v, isc := c.Field(o.St, o.Rets[0], f.Name()).Int(); isc {
					ints[f.Name()] = v
				}
			}
		}
	}
	if n == 0 {
		r.bad("C09", rule, fn, 0, "no registry of IP version %d is ever built", version)
		return nil
	}
	// every record goes where its mask size says, with its own URLs
	for _, x := range recs {
		s, ok := x.(*storeRec)
		if !ok || s.kind != "mapupdate" || s.val == nil || structSliceElem(s.val.T) == nil {
			continue
		}
		els, ok := r.appended(s.st, s.val)
		if !ok {
			r.unk("C08", rule, "network list %s", short(s.val))
			continue
		}
		for _, el := range els {
			nf := fieldsOf(el.T, "*net.IPNet")
			uf := fieldsOf(el.T, urlList)
			if len(nf) != 1 || len(uf) != 1 {
				r.unk("C08", rule, "record of unknown shape")
				continue
			}
			nt, u := c.E.Field(el, nf[0], nil), c.E.Field(el, uf[0], nil)
			pos := posOf(s.in)
			k := r.keyIn(nt)
			switch {
			case !isURLs(u) || k == nil || r.sameEntry(u, k) == 0 || !isResult(nt, kParseCIDR, 1):
				r.unk("C08", rule, "record %s", short(el))
			case r.sameEntry(u, k) == -1:
				r.bad("C08", rule, fn, pos, "a network gets the URLs of another entry")
			case nt.Args[0].Args[0] != k:
				r.unk("C08", rule, "network text %s", short(nt.Args[0].Args[0]))
			default:
				r.ok("C08", rule, "a network has the URLs of its entry")
			}
			// its key
			switch {
			case isResult(s.key, kMaskSize, 0) && s.key.Args[0].Any(func(x *eng.Term) bool { return x == nt }):
				r.ok("C08", rule, "a network is filed under its prefix length")
			case isResult(s.key, kMaskSize, 1):
				r.bad("C08", rule, fn, pos, "a network is filed under its address length instead of its prefix length")
			default:
				if v, isc := s.key.Int(); isc {
					r.bad("C08", rule, fn, pos, "a network is filed under %d instead of its prefix length", v)
				} else {
					r.unk("C08", rule, "network filed under %s", short(s.key))
				}
			}
			if isResult(nt, kParseCIDR, 1) {
				ip := c.FieldOf(s.st, nt, "IP")
				if c.E.Decide(s.st, c.E.Eq(c.E.Len(ip), c.E.IntC(bits/8))) != 1 {
					if r.possible(s.st, c.E.Eq(c.E.Len(ip), c.E.IntC(20-bits/8))) {
						r.bad("C08", rule, fn, pos, "networks of the other IP version are filed in the %s registry", rule)
					} else {
						r.unk("C08", rule, "address length")
					}
				} else {
					r.ok("C08", rule, "only networks of the version are filed")
				}
			}
		}
	}
	if r.prop == "C09" {
		r.netKept(fn, rule, version, bits)
		r.allVisited(rule, fn, version)
	}
	return ints
}

// netLists: the names of the fields holding the table.
func structSliceElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok || structUnder(s.Elem()) == nil {
		return nil
	}
	return s.Elem()
}

// appended lists what is added to a list read from the table.
func (r *regs) appended(st *eng.State, t *eng.Term) ([]*eng.Term, bool) {
	switch t.Op {
	case eng.OAppend:
		b, ok := r.appended(st, t.Args[0])
		return append(b, t.Args[1:]...), ok
	case eng.OMapGet, eng.ONil, eng.OZero, eng.OSym, eng.OJoin:
		return nil, true
	}
	if el := r.c.E.Elems(st, t); el != nil {
		return el, true
	}
	return nil, false
}

// netKept: every network of the version in a file is filed.
func (r *regs) netKept(fn *ssa.Function, rule string, version, bits int64) {
	c := r.c
	h := &eng.Hooks{SplitFacts: 80, Opaque: func(f *ssa.Function) bool { return f.Name() == "NewFile" && f.Pkg == fn.Pkg }}
	known := true
	r.keyIdx = nil
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		if ev.Key == kParseCIDR {
			r.keyIn(ev.Args[0])
			c.assumeNil(st, c.resultOf(ev.Res, 2), true)
			nt := c.resultOf(ev.Res, 1)
			c.assumeNil(st, nt, false)
			c.assume(st, c.E.Eq(c.E.Len(c.FieldOf(st, nt, "IP")), c.E.IntC(bits/8)), true)
		} else if strings.HasPrefix(ev.Key, "net/netip.") || strings.HasPrefix(ev.Key, "(net.IP).") {
			known = false
		}
	}
	h.OnStore = func(st *eng.State, kind string, addr, key, val *eng.Term, fr *eng.Frame, in ssa.Instruction) {
		if kind == "mapupdate" && structSliceElem(val.T) != nil {
			st.Prop = "filed"
		}
	}
	outs, _, ok := c.Run(rule, fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		return []*eng.Term{ps[0], c.E.IntC(version)}
	})
	if !ok {
		return
	}
	li := r.entriesLoop()
	if li == nil || len(outs) == 0 {
		r.unk("C09", rule, "how the entries of the file are visited")
		return
	}
	for _, b := range li.Back {
		if b.St.Dead {
			continue
		}
		switch {
		case r.filed(li, b):
			r.ok("C09", rule, "a network of the version is filed")
		case !known:
			r.unk("C09", rule, "a network may be left out")
		default:
			r.bad("C09", rule, fn, posOf(firstPos(b.From)), "a network of the version is left out")
		}
	}
	for _, x := range li.Exits {
		if !x.St.Dead && c.exhausted(x, li) == -1 {
			r.bad("C09", rule, fn, posOf(firstPos(x.From)), "the loop over the entries is left early")
		}
	}
}

// ofLoop: the value which a variable of the loop has when a round begins.
func ofLoop(li *eng.LoopInfo, t *eng.Term) bool {
	if t.Op != eng.OSym {
		return false
	}
	for _, s := range li.Phis {
		if s == t {
			return true
		}
	}
	_, ok := li.Cells[t]
	return ok
}

// filed: an iteration changes a map.
func (r *regs) filed(li *eng.LoopInfo, b *eng.BackEdge) bool {
	for sym := range li.Cells {
		if v := r.c.E.EdgeVal(li, b, sym); v != nil && v != sym && (v.Op == eng.OMapUpd || v.Op == eng.OSym || v.Op == eng.OJoin) {
			return true
		}
	}
	return false
}

// netOf: the network of the record whose URLs these are.
func (r *regs) netLookup(cons, look *ssa.Function, rule string, version, bits int64, slash bool, ints map[string]int64) {
	c := r.c
	var q *eng.Term
	h := r.hooks()
	base := h.OnCall
	split := false
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		before := st.FactString()
		c.containsScenario(st, ev, q, '/', slash)
		if st.Dead || before != st.FactString() {
			split = true
		}
		if ev.Key == kParseCIDR && slash {
			// without an error the text has a slash anyway
		}
		base(st, ev)
	}
	outs, recs, ok := c.Run(rule, look, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		c.assumeNil(st, ps[0], false)
		c.assumeNil(st, ps[1], false)
		q = c.Field(st, ps[1], "Query")
		for f, v := range ints {
			t := c.Field(st, ps[0], f)
			c.assume(st, c.E.Eq(t, c.E.Const(c.E.IntC(v).V, t.T)), true)
		}
		return ps
	})
	if !ok {
		return
	}
	hits := 0
	answered := false
	for _, o := range outs {
		if o.Panic || c.IsNil(o.St, o.Rets[1]) == -1 {
			continue
		}
		pe := hasEvent(o.St.Trace, kParseCIDR)
		if pe == nil {
			r.unk("C08", rule, "how the query is parsed")
			return
		}
		if !r.parsed(o, pe, rule, look) {
			continue
		}
		answered = true
		// what is parsed
		if split {
			r.cidrText(look, rule, pe, o.St, q, slash, bits)
		} else {
			r.unk("C08", rule, "addresses and networks are told apart in an unknown way")
		}
		ln := c.resultOf(pe.Res, 1)
		ip := c.FieldOf(o.St, ln, "IP")
		if d := c.E.Decide(o.St, c.E.Eq(c.E.Len(ip), c.E.IntC(bits/8))); d != 1 {
			if r.possible(o.St, c.E.Eq(c.E.Len(ip), c.E.IntC(20-bits/8))) {
				r.bad("C08", rule, look, posOf(o.In), "a query of the other IP version is no error")
			} else {
				r.unk("C08", rule, "length of the address")
			}
		} else {
			r.ok("C08", rule, "a query of the other IP version is an error")
		}
		as, ok := r.answers(o)
		if !ok {
			r.unk("C08", rule, "answer of unknown shape")
			return
		}
		for _, a := range as {
			if c.IsNil(a.st, a.urls) == 1 {
				continue
			}
			hits++
			if !r.netHit(cons, look, rule, o, pe, recs, a, version) {
				return
			}
		}
	}
	if answered && hits == 0 {
		r.bad("C09", rule, look, 0, "no network is ever found")
	}
}

// cidrText: addresses become the network of the whole address.
func (r *regs) cidrText(fn *ssa.Function, rule string, pe *eng.Event, st *eng.State, q *eng.Term, slash bool, bits int64) {
	ps := flatText(pe.Args[0])
	if slash {
		switch {
		case len(ps) == 1 && ps[0] == q:
			r.ok("C08", rule, "a network is parsed as it is")
		case len(ps) > 1 && ps[0] == q:
			r.bad("C08", rule, fn, posOf(pe.Instr), "a valid network is rejected (%s is parsed)", short(pe.Args[0]))
		default:
			r.unk("C08", rule, "text parsed: %s", short(pe.Args[0]))
		}
		return
	}
	if len(ps) == 1 && ps[0] == q {
		r.bad("C08", rule, fn, posOf(pe.Instr), "a valid address is rejected (parsed without a prefix length)")
		return
	}
	want := "/" + itoa(bits)
	got := ""
	for _, p := range ps[1:] {
		s, ok := p.Str()
		if !ok {
			if p.Op == eng.OFmt && len(p.Args) == 1 {
				if v, isc := r.constOf(st, p.Args[0]); isc {
					got += itoa(v)
					continue
				}
			}
			r.unk("C08", rule, "text parsed: %s", short(pe.Args[0]))
			return
		}
		got += s
	}
	if ps[0] != q {
		r.unk("C08", rule, "text parsed: %s", short(pe.Args[0]))
		return
	}
	if got == want {
		r.ok("C08", rule, "an address is looked up as %s network", want)
	} else {
		r.bad("C08", rule, fn, posOf(pe.Instr), "an address is looked up as a %s network instead of %s", got, want)
	}
}

func itoa(n int64) string { return eng.Itoa(n) }

// constOf is the value of a number in a state.
func (r *regs) constOf(st *eng.State, t *eng.Term) (int64, bool) {
	t = Unwrap(t)
	if v, ok := t.Int(); ok {
		return v, true
	}
	if vs, ok := st.AVOf(t).Values(1); ok && len(vs) == 1 {
		return vs[0], true
	}
	if t.Op == eng.OBin && t.S == "*" {
		a, ok1 := r.constOf(st, t.Args[0])
		b, ok2 := r.constOf(st, t.Args[1])
		return a * b, ok1 && ok2
	}
	return 0, false
}

// netHit judges one way a network is answered.
func (r *regs) netHit(cons, look *ssa.Function, rule string, o *eng.Outcome, pe *eng.Event, recs []any, a answer, version int64) bool {
	c := r.c
	rec := r.recordOf(a.urls)
	if rec == nil {
		r.unk("C08", rule, "URLs %s are not those of a record", short(a.urls))
		return false
	}
	nf := fieldsOf(rec.base.T, "*net.IPNet")
	if len(nf) != 1 {
		r.unk("C08", rule, "record of unknown shape")
		return false
	}
	pos := posOf(o.In)
	if a.edge != nil {
		pos = posOf(firstPos(a.edge.From))
	}
	lookNet := c.resultOf(pe.Res, 1)
	lookIP := c.FieldOf(a.st, lookNet, "IP")
	nt := r.field(a.st, rec, nf[0])
	contains := r.callsOn(a.st, kContains, nt)
	in := 0
	for _, t := range contains {
		if len(t.Args) < 2 || !r.isQueryIP(a.st, t.Args[1], pe, lookIP) {
			continue
		}
		if d := c.E.Decide(a.st, t); d != 0 {
			in = d
		}
	}
	switch {
	case in == 1:
		r.ok("C08", rule, "the network answered contains the address queried")
	case in == -1 || len(contains) > 0:
		r.bad("C08", rule, look, pos, "the URLs of a network that need not contain the address queried are answered")
	case r.anyNetTest(a.st, nt):
		r.unk("C08", rule, "containment test of unknown shape")
	default:
		r.bad("C08", rule, look, pos, "the URLs of a network are answered without testing that it contains the query")
	}
	// not longer than the query
	lookMask := r.maskOf(a.st, lookNet)
	mask, list := r.recMask(a.st, rec, nt)
	if lookMask == nil || mask == nil {
		r.unk("C08", rule, "prefix length of the network or of the query")
		return true
	}
	if c.E.Decide(a.st, c.E.Lt(lookMask, mask)) == -1 || r.descends(mask, lookMask) == 1 {
		r.ok("C08", rule, "the network answered is not smaller than the query")
	} else {
		r.bad("C08", rule, look, pos, "a network smaller than the one queried is answered")
	}
	// the name
	switch {
	case a.entry.Op == eng.OCall && a.entry.S == kNetString && a.entry.Args[0] == nt:
		r.ok("C08", rule, "the answer names the network")
	case a.entry.Op == eng.OCall && a.entry.S == kNetString:
		r.bad("C08", rule, look, pos, "the answer names %s instead of the network answered", short(a.entry))
	default:
		if s, isc := a.entry.Str(); isc {
			r.bad("C08", rule, look, pos, "the answer names %q instead of the network answered", s)
		} else if a.li != nil && a.edge != nil && ofLoop(a.li, a.entry) && rec.idx.Any(func(x *eng.Term) bool { return x.Op == eng.OMapGet || ofLoop(a.li, x) || x.Op == eng.OCall }) {
			r.bad("C08", rule, look, pos, "the answer names what an earlier round of the search found instead of the network answered")
		} else {
			r.unk("C08", rule, "entry %s", short(a.entry))
		}
	}
	if r.prop == "C09" {
		r.netBest(cons, look, rule, pe, recs, a, rec, nt, mask, lookMask, list, lookIP, version)
	}
	return true
}

// callsOn lists the calls of key on receiver x known in a state.
func (r *regs) callsOn(st *eng.State, key string, x *eng.Term) []*eng.Term {
	var l []*eng.Term
	seen := map[*eng.Term]bool{}
	for _, t := range st.FactTerms() {
		t.Walk(func(y *eng.Term) bool {
			if y.Op == eng.OCall && y.S == key && len(y.Args) > 0 && y.Args[0] == x && !seen[y] {
				seen[y] = true
				l = append(l, y)
			}
			return true
		})
	}
	return l
}

func (r *regs) isQueryIP(st *eng.State, t *eng.Term, pe *eng.Event, ip *eng.Term) bool {
	return t == ip || isResult(t, kParseCIDR, 0) && t.Args[0] == pe.Res
}

func (r *regs) anyNetTest(st *eng.State, nt *eng.Term) bool {
	for _, t := range st.FactTerms() {
		if t.Any(func(x *eng.Term) bool { return x.Op == eng.OCall && x.Contains(nt) }) {
			return true
		}
	}
	return false
}

// maskOf is the prefix length of a network value.
func (r *regs) maskOf(st *eng.State, nt *eng.Term) *eng.Term {
	m := r.c.FieldOf(st, nt, "Mask")
	if m == nil {
		return nil
	}
	t := r.c.E.CallT(kMaskSize, r.sizeTuple(), m)
	return r.c.E.Extract(t, 0, types.Typ[types.Int])
}

func (r *regs) sizeTuple() types.Type {
	return types.NewTuple(types.NewVar(token.NoPos, nil, "ones", types.Typ[types.Int]), types.NewVar(token.NoPos, nil, "bits", types.Typ[types.Int]))
}

// recMask is the prefix length of a record: the key its list is filed under.
func (r *regs) recMask(st *eng.State, rec *record, nt *eng.Term) (mask, list *eng.Term) {
	l := rec.list
	switch l.Op {
	case eng.ORangeVal:
		for _, li := range r.c.E.LoopList {
			_ = li
		}
		return r.c.E.RangeKeyOf(l), l
	case eng.OMapGet:
		return l.Args[1], l
	}
	return r.maskOf(st, nt), l
}

// descends: the prefix length counts down from the query's.
func (r *regs) descends(mask, from *eng.Term) int {
	c := r.c
	b, k := eng.Lin(mask)
	if b == nil || b.Op != eng.OSym || c.loopOf(b) == nil {
		return 0
	}
	for _, o := range c.E.Origins[b] {
		ob, n := eng.Lin(o.Val)
		if o.Init {
			fb, fk := eng.Lin(from)
			if ob != fb {
				return 0
			}
			if n+k > fk {
				return -1
			}
			continue
		}
		if ob != b {
			return 0
		}
		if n >= 0 {
			return -1
		}
	}
	return 1
}

// counts: a loop variable only grows (1) or shrinks (-1).
func (r *regs) counts(t *eng.Term) int {
	b, _ := eng.Lin(t)
	if b == nil || r.c.loopOf(b) == nil {
		return 0
	}
	res := 0
	for _, o := range r.c.E.Origins[b] {
		if o.Init {
			continue
		}
		ob, n := eng.Lin(o.Val)
		d := 1
		if n < 0 {
			d = -1
		}
		if ob != b || n == 0 || res != 0 && res != d {
			return 0
		}
		res = d
	}
	return res
}

// notHit: the network was not found to contain the query.
func (r *regs) notHit(st *eng.State, nt *eng.Term) bool {
	for _, t := range r.callsOn(st, kContains, nt) {
		if r.c.E.Decide(st, t) == 1 {
			return false
		}
	}
	return true
}

// netBest: networks passed over are no better match.
func (r *regs) netBest(cons, look *ssa.Function, rule string, pe *eng.Event, recs []any, a answer, rec *record, nt, mask, lookMask, list, lookIP *eng.Term, version int64) {
	c := r.c
	idx := rec.idx
	b, _ := eng.Lin(idx)
	var s *searchRec
	for _, x := range recs {
		if y, ok := x.(*searchRec); ok && y.ev.Res == b {
			s = y
		}
	}
	et := structSliceElem(rec.list.T)
	if et == nil {
		r.unk("C09", rule, "list %s", short(rec.list))
		return
	}
	nf := fieldsOf(et, "*net.IPNet")[0]
	netAt := func(st *eng.State, i *eng.Term) *eng.Term {
		return r.field(st, &record{c.E.IndexAddr(rec.list, i, et), true, rec.list, i}, nf)
	}
	has := func(n, ip *eng.Term) *eng.Term { return c.E.CallT(kContains, types.Typ[types.Bool], n, ip) }
	if s != nil {
		if idx != b {
			r.unk("C09", rule, "record %s of the search", short(idx))
			return
		}
		bad := ""
		r.split(s.outs, false, func(st *eng.State) {
			n := netAt(st, s.i)
			nip := c.FieldOf(st, n, "IP")
			notIn := false
			for _, t := range r.callsOn(st, kContains, n) {
				if c.E.Decide(st, t) == -1 {
					notIn = true
				}
			}
			cmp := r.compared(st, nip, lookIP)
			switch {
			case !notIn && strings.HasPrefix(cmp, "<"):
				bad = "passes over a network containing the address"
			case !notIn:
				bad = "?"
			case cmp == "" || strings.HasPrefix(cmp, ">"):
				bad = "passes over networks after the address"
			}
		})
		r.split(s.outs, true, func(st *eng.State) {
			n := netAt(st, s.i)
			nip := c.FieldOf(st, n, "IP")
			in := false
			for _, t := range r.callsOn(st, kContains, n) {
				if c.E.Decide(st, t) == 1 {
					in = true
				}
			}
			if !in && strings.HasPrefix(r.compared(st, nip, lookIP), "<") {
				bad = "stops at a network before the address"
			}
		})
		switch bad {
		case "":
			r.ok("C09", rule, "the search finds the network containing the address")
		case "?":
			r.unk("C09", rule, "search predicate")
		default:
			r.bad("C09", rule, look, posOf(s.ev.Instr), "the search %s", bad)
		}
		r.sort = true
	}
	li := a.li
	if li == nil {
		if x := c.loopOf(firstSym(mask)); x != nil {
			li = x
		}
	}
	if li == nil {
		r.unk("C09", rule, "how prefix lengths are visited")
		return
	}
	if a.edge == nil {
		// answered from inside the loop: prefix lengths must descend
		switch r.descends(mask, lookMask) {
		case 1:
			r.ok("C09", rule, "prefix lengths are visited from the longest")
		case -1:
			r.bad("C09", rule, look, posOf(firstPos(li.Header)), "a shorter prefix may be answered before a longer one")
		default:
			if r.counts(mask) == 1 {
				r.bad("C09", rule, look, posOf(firstPos(li.Header)), "a shorter prefix may be answered before a longer one")
			} else if mask.Op == eng.ORangeKey {
				r.bad("C09", rule, look, posOf(firstPos(li.Header)), "the first network found in random map order is answered")
			} else {
				r.unk("C09", rule, "order of prefix lengths")
			}
		}
	}
	// the best mask so far
	var best *eng.Term
	if a.edge != nil {
		for p, v := range a.edge.Vals {
			if v == mask && li.Phis[p] != v {
				best = li.Phis[p]
			}
		}
		for sym := range li.Cells {
			if v := c.E.EdgeVal(li, a.edge, sym); v == mask {
				best = sym
			}
		}
		if best == nil {
			if r.forcedOrder(li) {
				r.unk("C09", rule, "how the longest prefix is kept")
			} else {
				r.bad("C09", rule, look, posOf(firstPos(a.edge.From)), "the prefix length of the network chosen is not remembered: a shorter prefix may replace it")
			}
			return
		}
		if c.E.Decide(a.edge.St, c.E.Lt(mask, best)) == -1 {
			r.ok("C09", rule, "a network is never replaced by one with a shorter prefix")
		} else {
			r.bad("C09", rule, look, posOf(firstPos(a.edge.From)), "a network found may be replaced by one with a shorter prefix")
		}
	}
	initBelow := true
	for _, org := range c.E.Origins[best] {
		if org.Init {
			v, isc := org.Val.Int()
			if !isc || v >= 0 {
				initBelow = false
			}
			if isc && v > 0 {
				r.bad("C09", rule, look, posOf(firstPos(li.Header)), "networks with a prefix shorter than %d are never found", v)
			}
		}
	}
	for _, e := range li.Back {
		if e.St.Dead {
			continue
		}
		if a.edge != nil && c.E.EdgeVal(li, e, best) != best {
			continue
		}
		st := e.St.Clone()
		var ts []*eng.Term
		if best != nil {
			if initBelow {
				ts = append(ts, c.E.Lt(best, mask)) // strictly better
			} else {
				ts = append(ts, r.le(best, mask))
			}
		}
		ts = append(ts, r.le(mask, lookMask), c.E.Lt(idx, c.E.Len(rec.list)), r.le(c.E.IntC(0), idx), has(netAt(st, idx), lookIP))
		if rec.list.Op == eng.OMapGet {
			ts = append(ts, c.E.Not(c.E.Eq(rec.list, c.E.Nil())))
		}
		if r.possible(st, ts...) {
			r.bad("C09", rule, look, posOf(firstPos(e.From)), "a network containing the query with a longer prefix is passed over")
		} else {
			r.ok("C09", rule, "networks passed over are no better match")
		}
	}
	for _, x := range li.Exits {
		if x.St.Dead || x.Return && a.edge == nil {
			continue
		}
		if a.edge == nil {
			// a count down
			if c.E.Decide(x.St, c.E.Lt(mask, c.E.IntC(0))) == 1 {
				r.ok("C09", rule, "all prefix lengths are visited")
			} else if r.notHit(x.St, nt) && c.E.Decide(x.St, c.E.Lt(c.E.IntC(0), mask)) == -1 && r.possible(x.St, c.E.Eq(mask, c.E.IntC(0))) {
				r.bad("C09", rule, look, posOf(firstPos(x.From)), "prefix length 0 is not visited")
			}
			continue
		}
		if c.exhausted(x, li) == -1 {
			r.bad("C09", rule, look, posOf(firstPos(x.From)), "the loop over prefix lengths is left early")
		} else {
			r.ok("C09", rule, "all prefix lengths are visited")
		}
	}
}

// forcedOrder: the loop does not run over a map.
func (r *regs) forcedOrder(li *eng.LoopInfo) bool { return li.MapC == nil }

func firstSym(t *eng.Term) *eng.Term {
	b, _ := eng.Lin(t)
	if b != nil && b.Op == eng.OSym {
		return b
	}
	return nil
}

// compared: how bytes.Compare orders a and b in a state.
func (r *regs) compared(st *eng.State, a, b *eng.Term) string {
	c := r.c
	res := ""
	for _, t := range st.FactTerms() {
		t.Walk(func(x *eng.Term) bool {
			if x.Op == eng.OCall && x.S == "bytes.Compare" && len(x.Args) == 2 {
				z := c.E.IntC(0)
				lt, gt := c.E.Decide(st, c.E.Lt(x, z)), c.E.Decide(st, c.E.Lt(z, x))
				if x.Args[0] == b && x.Args[1] == a {
					lt, gt = gt, lt
				} else if x.Args[0] != a || x.Args[1] != b {
					return true
				}
				switch {
				case lt == 1:
					res = "<"
				case gt == 1:
					res = ">"
				case lt == -1:
					res = ">="
				case gt == -1:
					res = "<="
				}
			}
			return true
		})
	}
	return res
}

// netSorted: the lists of the table are sorted by address.
func (r *regs) netSorted(fn *ssa.Function, rule string, version int64) {
	c := r.c
	outs, recs, ok := r.constructor(fn, rule, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		return []*eng.Term{ps[0], c.E.IntC(version)}
	})
	if !ok || len(outs) == 0 {
		return
	}
	var sorted *storeRec
	for _, x := range recs {
		if s, ok := x.(*storeRec); ok && s.kind == "sort" {
			sorted = s
		}
	}
	if sorted == nil {
		for _, x := range c.E.LoopList {
			_ = x
		}
		r.bad("C09", rule, fn, 0, "the network lists are searched but not sorted")
		return
	}
	list := Unwrap(sorted.addr)
	switch list.Op {
	case eng.ORangeVal:
		var li *eng.LoopInfo
		for _, x := range c.E.LoopList {
			if x.MapC != nil && x.MapC == list.Args[0] {
				li = x
			}
		}
		if li == nil {
			r.unk("C09", rule, "loop sorting the lists")
			return
		}
		for _, b := range li.Back {
			if b.St.Dead {
				continue
			}
			if how := c.E.SortedBy(b.St, list); how == nil {
				r.bad("C09", rule, fn, posOf(firstPos(b.From)), "a network list is left unsorted")
			} else {
				r.ascending(rule, fn, b.St, list, how, r.netBefore(nil))
			}
		}
		for _, x := range li.Exits {
			if !x.St.Dead && c.exhausted(x, li) == -1 {
				r.bad("C09", rule, fn, posOf(firstPos(x.From)), "not all network lists are sorted")
			}
		}
	default:
		r.unk("C09", rule, "sorted list %s", short(list))
	}
}

func (r *regs) netBefore(_ any) func(st *eng.State, a, b *record) []*eng.Term {
	c := r.c
	return func(st *eng.State, a, b *record) []*eng.Term {
		nf := fieldsOf(a.base.T, "*net.IPNet")
		if len(nf) != 1 {
			return nil
		}
		x, y := c.FieldOf(st, r.field(st, a, nf[0]), "IP"), c.FieldOf(st, r.field(st, b, nf[0]), "IP")
		cmp := func(p, q *eng.Term) *eng.Term { return c.E.CallT("bytes.Compare", types.Typ[types.Int], p, q) }
		return []*eng.Term{c.E.Lt(cmp(x, y), c.E.IntC(0)), c.E.Lt(c.E.IntC(0), cmp(y, x))}
	}
}
