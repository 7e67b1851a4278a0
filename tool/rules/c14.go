package rules

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C14", Run: runC14, Floor: 400,
		Method:      "Abstract interpretation of every entry point that takes data of a server or a user, over symbolic arguments: each instruction that can panic (index, slice, nil dereference, type assertion, nil map store, division, negative count, explicit panic) is an obligation, discharged when the facts on the path exclude it, reported when the value it depends on is data and the facts leave a panicking value open. The same obligations are collected in the classes of documents and objects which the rules for decoding, vCards, printing, the WHOIS view and registry files analyse; there an explicit panic is a violation too.",
		Assumptions: []string{"callers pass non-nil receivers, printers, options and requests of a known type", "the lists of properties of a vCard hold no nil pointers (they are only made by the vCard decoder)", "allocation does not fail", "functions of other packages which return one pointer do not return nil"}})
}

// pchk is the verdict on one operation that may panic.
type pchk struct {
	d    int // 1 safe, -1 panics, 0 unknown
	kind string
	msg  string
	fn   *ssa.Function
	in   ssa.Instruction
}

// panicHook returns a check hook; scenario tells that explicit panics count.
func (c *Ctx) panicHook(scenario bool) func(st *eng.State, kind string, ok bool, detail string, fr *eng.Frame, in ssa.Instruction) {
	e := c.E
	return func(st *eng.State, kind string, ok bool, detail string, fr *eng.Frame, in ssa.Instruction) {
		if kind == "exit" {
			return
		}
		if ok {
			e.Emit(&pchk{1, kind, "", fr.Fn, in})
			return
		}
		if len(detail) > 300 {
			detail = strings.ToValidUTF8(detail[:300], "") + "…"
		}
		if kind == "panic" {
			d := 0
			if scenario {
				d = -1
			}
			if c.noJSON(st) {
				d = 1
			}
			e.Emit(&pchk{d, kind, detail, fr.Fn, in})
			return
		}
		conds := e.Conds
		d := 1
		if len(conds) == 0 {
			d = 0
		}
		for _, cd := range conds {
			switch e.Decide(st, cd) {
			case 1:
			case -1:
				d = -1
				if widened(cd) {
					d = 0 // the path may not be possible
				}
			case 0:
				switch c.mayFail(st, kind, cd) {
				case -1:
					d = -1
				case 0:
					if d == 1 {
						d = 0
					}
				}
			}
			if d == -1 {
				break
			}
		}
		e.Emit(&pchk{d, kind, detail, fr.Fn, in})
	}
}

// widened: does a condition depend on what a loop computed?
func widened(t *eng.Term) bool {
	if t.Op == eng.OSym {
		return true
	}
	for _, a := range t.Args {
		if widened(a) {
			return true
		}
	}
	return false
}

// shapeOf reads the shape of a decoded value off a state.
func (c *Ctx) shapeOf(st *eng.State, v *eng.Term) *jshape {
	if v == nil {
		return nil
	}
	if v.IsNil() {
		return jK("null")
	}
	if v.Op != eng.OIface {
		return nil
	}
	for k, t := range jsonTypes() {
		if t == nil || !types.Identical(t, v.T) {
			continue
		}
		switch k {
		case "object":
			return jO()
		case "array":
			l, ok := c.seq(st, v.Args[0])
			if !ok {
				return nil
			}
			r := jA()
			for _, x := range l {
				y := c.shapeOf(st, x)
				if y == nil {
					return nil
				}
				r.elems = append(r.elems, y)
			}
			return r
		}
		return jK(k)
	}
	return nil
}

// panicVCard: what the vCard decoder makes of values of all shapes goes
// through all accessors.
func (c *Ctx) panicVCard() {
	shapes := append(kindsBut(""), jA(), jA(jA()), jA(jA(jA())), jA(jK("null")), jA(jK("null"), jA(jK("null"))),
		jA(jO()), jA(jS(""), jO("k", jS(""))), jA(jA(jS(""), jO())), jO("k", jK("null")), jA(strs(6)...), jA(strs(7)...), jA(strs(8)...))
	ct, pt := c.typeOf(pkgRdap, "VCard"), c.typeOf(pkgRdap, "VCardProperty")
	if ct == nil || pt == nil {
		c.Unknown("class", "vCard types not found")
		return
	}
	var methods []*ssa.Function
	for _, p := range c.SSA {
		if p.Pkg.Path() != pkgRdap {
			continue
		}
		for _, fn := range eng.FuncsOf(p) {
			if n, ok := c.dataFunc(fn); ok && strings.HasPrefix(n, "*VCard.") && fn.Signature.Params().Len() == 0 {
				methods = append(methods, fn)
			}
		}
	}
	vf := c.Func(pkgRdap, "*VCardProperty.Values")
	run := func(sh *jshape, par int) {
		e := c.E
		build := func(st *eng.State, nm string) *eng.Term {
			q := e.Param(nm, types.NewPointer(pt))
			c.assumeNil(st, q, false)
			f := map[string]*eng.Term{"Name": e.Param(nm+".name", types.Typ[types.String]), "Value": c.jbuild(st, nm+".v", sh)}
			mt := types.NewMap(types.Typ[types.String], types.NewSlice(types.Typ[types.String]))
			m := e.Param(nm+".params", mt)
			c.assumeNil(st, m, false)
			mc := e.MapContent(st, e.Nil())
			if par > 0 {
				sl := types.NewSlice(types.Typ[types.String])
				var l []*eng.Term
				for i := 1; i < par; i++ {
					l = append(l, e.Param(fmt.Sprintf("%s.type%d", nm, i), types.Typ[types.String]))
				}
				mc = e.MapUpd(mc, e.StrC("type"), c.listT(st, nm+".types", sl, l))
			}
			e.SetMapContent(st, m, mc)
			f["Parameters"] = m
			e.Store(st, q, e.StructT(pt, f), pt)
			return q
		}
		if vf != nil {
			c.Run("class", vf, c.c20hooks(), func(st *eng.State, ps []*eng.Term) []*eng.Term {
				return []*eng.Term{build(st, "p")}
			})
		}
		for _, m := range methods {
			c.Run("class", m, c.c20hooks(), func(st *eng.State, ps []*eng.Term) []*eng.Term {
				sl := types.NewSlice(types.NewPointer(pt))
				c.setField(st, ps[0], "Properties", c.listT(st, "props", sl, []*eng.Term{build(st, "p")}))
				return ps
			})
		}
	}
	for _, sh := range shapes {
		_, outs, ok := c.vcardParse(jA(jS("vcard"), jA(jA(jS(""), jO(), jS(""), sh))), false)
		if !ok {
			continue
		}
		for _, o := range outs {
			if o.St.Dead || o.Panic || c.E.Decide(o.St, c.E.Eq(o.Rets[1], c.E.Nil())) != 1 {
				continue
			}
			l, ok := c.seq(o.St, c.Field(o.St, o.Rets[0], "Properties"))
			if !ok || len(l) != 1 {
				continue
			}
			if got := c.shapeOf(o.St, c.Field(o.St, l[0], "Value")); got != nil {
				run(got, 0)
			}
		}
	}
	for par := 1; par <= 3; par++ {
		run(jA(), par)
		run(jS(""), par)
	}
}

// noJSON: the path needs a value of the data to be of a kind that decoding
// JSON does not give.
func (c *Ctx) noJSON(st *eng.State) bool {
	e := c.E
	kinds := jsonTypes()
	for _, t := range st.FactTerms() {
		if t.Op != eng.ODyn || t.Args[0].IsConst() {
			continue
		}
		out := true
		for n, k := range kinds {
			if k == nil || n == "object" && !t.Args[0].Any(func(x *eng.Term) bool { return x.Op == eng.OOut }) {
				continue
			}
			if e.Decide(st, e.Eq(t, e.TypeC(k))) != -1 {
				out = false
			}
		}
		if out && e.Decide(st, e.Eq(t.Args[0], e.Nil())) == -1 {
			return true
		}
	}
	return false
}

// mayFail: is there data for which an undecided condition is false? -1 yes,
// 1 no, 0 unknown.
func (c *Ctx) mayFail(st *eng.State, kind string, cd *eng.Term) int {
	e := c.E
	switch kind {
	case "nil", "nilmap":
		p := nilOperand(cd)
		if p == nil {
			return 0
		}
		switch {
		case p.Op == eng.OParam:
			return 1 // what the caller passes
		case ptrElement(p):
			return 1 // see the assumptions
		case p.Op == eng.OCall || p.Op == eng.OJoin && allAllocs(p):
			return 1 // a library's constructor
		case p.Op == eng.OLoad && p.Any(func(x *eng.Term) bool { return x.Op == eng.OCall && strings.Contains(x.S, "kingpin") }):
			return 1
		case c.optional(p) && !c.guarded(st, p):
			return -1
		}
		// the result of a parser that failed
		if p.Op == eng.OExtract && p.Args[0].Op == eng.OCall && len(p.Args[0].Args) > 0 {
			call := p.Args[0]
			n := map[string]int{"net.ParseCIDR": 2, "net/url.Parse": 1, "net/url.ParseRequestURI": 1}[call.S]
			if n > 0 && p.I == n-1 && dataSeq(call.Args[0]) && !c.guarded(st, call.Args[0]) && e.Decide(st, e.Eq(e.Extract(call, n, types.Universe.Lookup("error").Type()), e.Nil())) != 1 {
				return -1
			}
		}
		return 0
	case "assert":
		v := dynOperand(cd)
		if v == nil || !jsonAny(v) || c.guarded(st, v) {
			return 0
		}
		s2 := st.Clone()
		if !e.Assume(s2, cd, false) || s2.Dead {
			return 1
		}
		return -1
	case "index", "slice", "makeslice", "repeat", "div":
		atoms := arithAtoms(cd)
		if len(atoms) == 2 {
			return c.mayFailIndex(st, cd, atoms)
		}
		if len(atoms) != 1 {
			return 0
		}
		a := atoms[0]
		root, ok := lenOfData(a)
		if !ok || c.guarded(st, root) {
			return 0
		}
		av := st.AVOf(a)
		for v := int64(0); v < 12; v++ {
			if av != nil && !av.HasNum(v) {
				continue
			}
			if minLen(root) > v {
				continue
			}
			s2 := st.Clone()
			if !e.Assume(s2, e.Eq(a, e.IntC(v)), true) || s2.Dead {
				continue
			}
			x := e.Subst(cd, map[*eng.Term]*eng.Term{a: e.IntC(v)})
			if e.Decide(s2, cd) == -1 || e.Decide(s2, x) == -1 {
				return -1
			}
		}
		return 0
	}
	return 0
}

// mayFailIndex: a condition on the length of a text of the data and on the
// place of a character in it. Any place from -1 up to the length is possible.
func (c *Ctx) mayFailIndex(st *eng.State, cd *eng.Term, atoms []*eng.Term) int {
	e := c.E
	l, x := atoms[0], atoms[1]
	if l.Op != eng.OLen {
		l, x = x, l
	}
	root, ok := lenOfData(l)
	if !ok || x.Op != eng.OCall || len(x.Args) != 2 || x.Args[0] != root || !x.Args[1].IsConst() {
		return 0
	}
	switch x.S {
	case "strings.IndexByte", "strings.LastIndexByte", "strings.Index", "strings.LastIndex":
	default:
		return 0
	}
	for _, t := range st.FactTerms() {
		if t == root || t == l || t == x || !t.Contains(root) {
			continue
		}
		// comparisons of the two
		for _, a := range arithAtoms(t) {
			if a != l && a != x {
				return 0
			}
		}
	}
	for n := int64(0); n < 8; n++ {
		for i := int64(-1); i < n; i++ {
			s2 := st.Clone()
			if !e.Assume(s2, e.Eq(l, e.IntC(n)), true) || s2.Dead || !e.Assume(s2, e.Eq(x, e.IntC(i)), true) || s2.Dead {
				continue
			}
			m := map[*eng.Term]*eng.Term{l: e.IntC(n), x: e.IntC(i)}
			if !c.factsHold(s2, m) {
				continue
			}
			if y := e.Subst(cd, m); e.Decide(s2, y) == -1 {
				return -1
			}
		}
	}
	return 0
}

// factsHold: do the facts of a state allow the values?
func (c *Ctx) factsHold(st *eng.State, m map[*eng.Term]*eng.Term) bool {
	e := c.E
	for _, t := range st.FactTerms() {
		if m[t] != nil {
			continue
		}
		y := e.Subst(t, m)
		if y == t || !y.IsConst() {
			continue
		}
		av := st.AVOf(t)
		if av == nil {
			continue
		}
		if n, ok := y.Int(); ok && !av.HasNum(n) {
			return false
		}
		if d := e.Decide(st, t); d != 0 && e.Decide(st, y) != 0 && (d == 1) != (e.Decide(st, y) == 1) {
			return false
		}
	}
	return true
}

// nilOperand of not(x == nil).
func nilOperand(t *eng.Term) *eng.Term {
	if t.Op == eng.ONot {
		t = t.Args[0]
	}
	if t.Op == eng.OEq {
		if t.Args[1].IsNil() {
			return t.Args[0]
		}
		if t.Args[0].IsNil() {
			return t.Args[1]
		}
	}
	return nil
}

// dynOperand of dyn(x) == T.
func dynOperand(t *eng.Term) *eng.Term {
	if t.Op != eng.OEq {
		return nil
	}
	for _, a := range t.Args {
		if a.Op == eng.ODyn {
			return a.Args[0]
		}
	}
	return nil
}

// ptrElement: an element of a list of pointers.
func ptrElement(p *eng.Term) bool {
	_, _, ok := elemAccess(p)
	if !ok || p.T == nil {
		return false
	}
	_, ptr := p.T.Underlying().(*types.Pointer)
	return ptr
}

// optional: a member of an object of the data model which may be absent.
func (c *Ctx) optional(p *eng.Term) bool {
	if p.Op != eng.OLoad || p.T == nil {
		return false
	}
	if _, ok := p.T.Underlying().(*types.Pointer); !ok {
		return false
	}
	a := p.Args[0]
	if a.Op != eng.OFieldAddr || a.Args[0].T == nil {
		return false
	}
	pt, ok := a.Args[0].T.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	structs, _ := c.modelStructs()
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok {
		return false
	}
	_, ok = structs[n.Obj().Name()]
	return ok
}

// jsonAny: a value out of a decoded JSON document.
func jsonAny(v *eng.Term) bool {
	r := v
	for {
		switch r.Op {
		case eng.OParam:
			return isIface(r.T) || strings.Contains(r.T.String(), "interface{}") || strings.Contains(r.T.String(), "any")
		case eng.OLoad, eng.OIndexAddr, eng.OField, eng.OFieldAddr, eng.OAssert, eng.OSlice, eng.OMapGet, eng.OIndex:
			r = r.Args[0]
		case eng.ORangeVal:
			r = r.Args[0]
		case eng.OMapInit:
			r = r.Args[0]
		case eng.OOut:
			return len(r.Args) > 0 && strings.Contains(r.Args[0].S, "json.")
		default:
			return false
		}
	}
}

// arithAtoms lists the terms of a condition which are no arithmetic.
func arithAtoms(t *eng.Term) []*eng.Term {
	seen := map[*eng.Term]bool{}
	var out []*eng.Term
	var walk func(t *eng.Term)
	walk = func(t *eng.Term) {
		if t.IsConst() {
			return
		}
		switch t.Op {
		case eng.ONot, eng.OLt, eng.OEq, eng.OBin:
			for _, a := range t.Args {
				walk(a)
			}
			return
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	walk(t)
	return out
}

// lenOfData: the length of a list or text which is data.
func lenOfData(a *eng.Term) (*eng.Term, bool) {
	if a.Op != eng.OLen {
		return nil, false
	}
	x := a.Args[0]
	if dataSeq(x) {
		return x, true
	}
	return nil, false
}

func dataSeq(x *eng.Term) bool {
	for {
		switch x.Op {
		case eng.OParam:
			return true
		case eng.OLoad, eng.OIndexAddr, eng.OField, eng.OFieldAddr, eng.OAssert, eng.OIndex, eng.OMapGet, eng.ORangeVal, eng.ORangeKey, eng.OMapInit:
			x = x.Args[0]
		case eng.OOut:
			return len(x.Args) > 0 && strings.Contains(x.Args[0].S, "json.")
		case eng.OExtract:
			return x.Args[0].Op == eng.OCall && x.Args[0].S == pkgBoot+".NewFile"
		case eng.OCall:
			switch x.S {
			case "slices.Sorted", "maps.Keys", "strings.Split", "strings.Fields", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.SplitN":
				x = x.Args[0]
			default:
				return false
			}
		default:
			return false
		}
	}
}

// minLen of a sequence by what made it.
func minLen(x *eng.Term) int64 {
	if x.Op == eng.OCall && (x.S == "strings.Split" || x.S == "strings.SplitN") {
		return 1
	}
	return 0
}

// guarded: is there a fact about the value which the analysis does not
// understand?
func (c *Ctx) guarded(st *eng.State, x *eng.Term) bool {
	base := x
	for base.Op == eng.OCall && len(base.Args) > 0 {
		base = base.Args[0]
	}
	for _, t := range st.FactTerms() {
		if t == x || t == base || !t.Contains(base) {
			continue
		}
		switch {
		case t.Op == eng.OLen && t.Args[0] == x:
		case t.Op == eng.ODyn && t.Args[0] == x:
		case t.Op == eng.OEq && nilOperand(t) == x:
		case t.Op == eng.ODyn || t.Op == eng.OLoad || t.Op == eng.OAssert || t.Op == eng.OLen && dataSeq(t.Args[0]) && x != base && t.Args[0] != base:
			// other parts of the same document
		case t.Op == eng.OLen && t.Args[0] != base && t.Args[0].Contains(x):
			// parts of it
		case t.Op == eng.OEq && !t.Args[0].Contains(x) && !t.Args[1].Contains(x):
		default:
			return true
		}
	}
	return false
}

type panicEntry struct {
	pkg, name string
	setup     func(st *eng.State, ps []*eng.Term) []*eng.Term
	hooks     func() *eng.Hooks
	what      string
}

func runC14(c *Ctx) {
	c.panicEntries()
	c.panicScenarios()
}

func (c *Ctx) panicEntries() {
	e := c.E
	var list []panicEntry
	add := func(pkg string, names ...string) {
		for _, n := range names {
			list = append(list, panicEntry{pkg: pkg, name: n})
		}
	}
	// every exported function and method of the library whose arguments hold
	// only data, and the constructors and lookups of the registries
	add(pkgBoot, "NewFile", "NewASNRegistry", "NewNetRegistry", "NewDNSRegistry", "NewServiceProviderRegistry",
		"*ASNRegistry.Lookup", "*NetRegistry.Lookup", "*DNSRegistry.Lookup", "*ServiceProviderRegistry.Lookup")
	for _, p := range c.SSA {
		if p.Pkg.Path() != pkgRdap {
			continue
		}
		for _, fn := range eng.FuncsOf(p) {
			if n, ok := c.dataFunc(fn); ok {
				add(pkgRdap, n)
			}
		}
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].pkg+list[i].name < list[j].pkg+list[j].name })
	for _, en := range list {
		fn := c.Func(en.pkg, en.name)
		if fn == nil {
			continue
		}
		h := &eng.Hooks{MemoMiss: true, Steps: 600000}
		h.OnCheck = c.panicHook(false)
		_, recs, ok := c.Run("entry", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
			for i, p := range ps {
				if i < len(fn.Params) {
					switch fn.Params[i].Type().Underlying().(type) {
					case *types.Pointer:
						c.assumeNil(st, p, false)
					}
				}
			}
			if en.name == "NewNetRegistry" {
				ps = append([]*eng.Term{}, ps...)
			}
			return ps
		})
		if !ok {
			continue
		}
		c.panicResults("entry", strings.TrimPrefix(en.name, "*"), recs)
	}
	_ = e
}

// dataFunc: exported functions over data only.
func (c *Ctx) dataFunc(fn *ssa.Function) (string, bool) {
	if fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() || fn.Parent() != nil {
		return "", false
	}
	sig := fn.Signature
	name := fn.Name()
	if r := sig.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t, star = p.Elem(), "*"
		}
		n, ok := types.Unalias(t).(*types.Named)
		if !ok {
			return "", false
		}
		switch n.Obj().Name() {
		case "VCard", "VCardProperty", "DecodeData", "Response", "Request", "Domain", "Entity", "Nameserver", "Autnum", "IPNetwork", "RequestType", "ClientError":
		default:
			return "", false
		}
		name = star + n.Obj().Name() + "." + name
	} else if !strings.HasPrefix(name, "New") || name == "NewDecoder" {
		return "", false
	}
	return name, true
}

// panicResults records the verdicts per operation.
func (c *Ctx) panicResults(rule, what string, recs []any) {
	by := map[ssa.Instruction]*pchk{}
	kinds := map[string]int{}
	for _, x := range recs {
		p, ok := x.(*pchk)
		if !ok {
			continue
		}
		o := by[p.in]
		if o == nil || p.d < o.d && (p.d == -1 || o.d == 1) {
			by[p.in] = p
		}
	}
	var ins []ssa.Instruction
	for in := range by {
		ins = append(ins, in)
	}
	sort.Slice(ins, func(i, j int) bool {
		a, b := ins[i], ins[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, in := range ins {
		p := by[in]
		kinds[p.kind]++
		switch p.d {
		case 1:
			c.Ok(rule, "%s: %s in %s", what, p.kind, p.fn)
		case -1:
			c.Bad(rule, p.fn, posOf(p.in), "%s can panic: %s", what, p.msg)
		default:
			if p.kind == "panic" && rule == "entry" {
				continue // decided by the classes of data
			}
			c.Unknown(rule, "%s: %s in %s: %s", what, p.kind, p.fn, p.msg)
		}
	}
	c.Ok(rule, "%s: %d operations that can panic", what, len(ins))
}

// panicScenarios collects the operations in the classes of data which other
// rules analyse.
func (c *Ctx) panicScenarios() {
	type sc struct {
		name string
		run  func(c *Ctx)
	}
	list := []sc{
		{"vcard", runC20}, {"vcard values", (*Ctx).panicVCard}, {"whois", runC30}, {"member types", runC16}, {"conversions", runC17}, {"decoded type", runC15},
		{"registry", func(c *Ctx) { runRegs(c, "C08") }}, {"print", (*Ctx).panicPrint}, {"url", runC01}, {"cli", runC28}, {"output", runC25}, {"client", runC03}, {"bootstrap", runC07}, {"auto", runC31},
	}
	for _, s := range list {
		sub := &Ctx{E: c.E, Prog: c.Prog, SSA: c.SSA, Pkgs: c.Pkgs, Dir: c.Dir, Oblig: map[string]int{}, Functions: c.Functions, seen: map[string]bool{}, flagPtr: nil, reach: c.reach, mr: c.mr}
		sub.watch = sub.panicHook(true)
		func() {
			defer func() {
				if p := recover(); p != nil {
					if os.Getenv("RDAPVERIF_DEBUG") != "" {
						println(string(debug.Stack()))
					}
					c.Unknown("class", "%s: %v", s.name, p)
				}
			}()
			s.run(sub)
		}()
		c.panicResults("class", s.name, sub.watched)
	}
	_ = fmt.Sprint
}

// panicPrint prints objects with members present and absent.
func (c *Ctx) panicPrint() {
	for _, typ := range tops {
		paths, ends := c.ppaths(typ, 1)
		for i, p := range paths {
			c.print("print", typ, popts{}, atPath(p, 1, 0))
			c.print("print", typ, popts{}, func(tr []string, ty string, f *types.Var) int {
				if len(tr) < len(p) && eqTrail(tr, p[:len(tr)]) && f.Name() == p[len(tr)] {
					return 1
				}
				return 0
			})
			for _, dd := range []int{1, 2, 3, 4, 6} {
				c.print("print", typ, popts{}, atPath(p, 1, dd))
			}
			// long lists without the optional objects
			c.print("print", typ, popts{}, func(tr []string, ty string, f *types.Var) int {
				kind, _ := memberKind(f)
				switch {
				case len(tr) < len(p):
					if eqTrail(tr, p[:len(tr)]) && f.Name() == p[len(tr)] {
						return 1
					}
				case len(tr) == len(p) && eqTrail(tr, p) && (kind == "strings" || kind == "objects" || kind == "string"):
					return 4
				}
				return 0
			})
			for _, m := range c.membersOf(ends[i]) {
				c.print("print", typ, popts{}, onlyMember(p, m, 1))
			}
		}
	}
}

func allAllocs(p *eng.Term) bool {
	for _, a := range p.Args {
		if a.Op != eng.OAlloc {
			return false
		}
	}
	return true
}
