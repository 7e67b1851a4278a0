package rules

import (
	"fmt"
	"go/types"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

// ownData is the decode data object a struct run stores in its destination at
// an outcome: the pointer, and the index path it is stored at.
func (r *structRun) ownData(st *eng.State) (ptr *eng.Term, path string, n int) {
	for _, ev := range st.Trace.Events() {
		if ev.Key != "(reflect.Value).Set" || len(ev.Raw) < 2 {
			continue
		}
		p, ok := r.stepPath(ev.Args[0])
		v := ev.Raw[1]
		if !ok || v.Op != eng.OCall || v.S != "reflect.ValueOf" {
			continue
		}
		x := Unwrap(v.Args[0])
		if !strings.HasSuffix(typeStrSafe(x), ".DecodeData") {
			continue
		}
		ptr, path = x, p
		n++
	}
	return
}

func runC18(c *Ctx) {
	const rule = "kept"
	e := c.E
	R := c.findDecoder()
	if R == nil {
		c.Unknown(rule, "the recursive decoder was not found")
		return
	}
	ms, names := c.modelStructs()
	acc := map[string]*ssa.Function{}
	for _, n := range []string{"UnknownFields", "Fields", "Value", "Notes"} {
		acc[n] = c.Func(pkgRdap, "*DecodeData."+n)
		if acc[n] == nil {
			c.Unknown(rule, "(*DecodeData).%s not found", n)
		}
	}
	other := map[string]bool{"fred": true, "ext_unknown": true, "Handle": true, "decodeData": true, "DecodeData": true, "": true}
	for _, l := range rfcNames {
		for _, f := range strings.Fields(l) {
			k, v, _ := strings.Cut(f, ":")
			other[k], other[v] = true, true
		}
	}
	for _, n := range names {
		t := ms[n]
		if n == "Common" || rfcNames[n] == "" {
			continue
		}
		r, ok := c.decodeRun(rule, R, t, "object")
		if !ok {
			continue
		}
		r.name = n
		want := map[string]bool{}
		for _, f := range strings.Fields(rfcNames[n]) {
			_, v, _ := strings.Cut(f, ":")
			want[v] = true
		}
		// members the decoder takes besides the table's (C16 judges them)
		for _, x := range r.calls {
			key := r.memberKey(x)
			if key == nil {
				continue
			}
			for m := range other {
				if !want[m] && c.possible(x.st, key, m) {
					want[m] = true
				}
			}
		}
		for _, w := range r.writes {
			if w.kind == "data" {
				c.Bad("unchanged", w.fn, posOf(w.in), "decoding a %s member changes what is kept of the object it is part of", n)
				continue
			}
			c.Bad("unchanged", w.fn, posOf(w.in), "decoding a %s object changes its JSON object (%s)", n, w.kind)
		}
		if len(r.writes) == 0 {
			c.Ok("unchanged", "decoding a %s object leaves its JSON object as it is", n)
		}
		ff := flatFields(t)
		for _, o := range r.outs {
			if o.Panic || r.failed(c, R, o.St) {
				continue
			}
			ptr, path, k := r.ownData(o.St)
			switch {
			case k == 0 && !hasDecodeData(ff):
				c.Unknown(rule, "%s has no decode data", n)
				continue
			case k == 0:
				c.Bad(rule, R.fn, posOf(o.In), "a decoded %s object gets no decode data", n)
				continue
			case ff[path] != "DecodeData":
				c.Bad(rule, R.fn, posOf(o.In), "the decode data of a %s object is stored in %s", n, ff[path])
				continue
			}
			c.keptMembers(r, o.St, ptr, acc, want, other)
		}
	}
	_ = e
	c.notesOf(acc["Notes"])
	// the values of members, too, are left as they are
	ft := map[string]bool{}
	for _, n := range names {
		s := structUnder(ms[n])
		for i := 0; i < s.NumFields(); i++ {
			t := s.Field(i).Type()
			k := typeStr(t)
			if ft[k] || strings.HasSuffix(k, ".DecodeData") || structUnder(t) != nil {
				continue
			}
			ft[k] = true
			for _, js := range []string{"null", "bool", "number", "string", "array", "object"} {
				r, ok := c.decodeRun("unchanged", R, t, js)
				if !ok {
					continue
				}
				for _, w := range r.writes {
					if w.kind == "data" {
						c.Bad("unchanged", w.fn, posOf(w.in), "decoding a %s member changes what is kept of the object it is part of", k)
						continue
					}
					c.Bad("unchanged", w.fn, posOf(w.in), "decoding a JSON %s into a %s changes it (%s)", js, k, w.kind)
				}
				if len(r.writes) == 0 {
					c.Ok("unchanged", "decoding a JSON %s into a %s leaves it as it is", js, k)
				}
			}
		}
	}
	c.printUnknown()
}

func hasDecodeData(ff map[string]string) bool {
	for _, f := range ff {
		if f == "DecodeData" {
			return true
		}
	}
	return false
}

// keptMembers applies the accessors to the decode data a struct run leaves.
func (c *Ctx) keptMembers(r *structRun, st0 *eng.State, ptr *eng.Term, acc map[string]*ssa.Function, want, other map[string]bool) {
	const rule = "kept"
	e := c.E
	src := e.MapInit(r.src)
	apply := func(name string, args ...*eng.Term) []*eng.Outcome {
		if acc[name] == nil {
			return nil
		}
		return e.Apply(st0.Clone(), &eng.Hooks{SplitFacts: 60, Steps: 20000000}, e.FuncT(acc[name]), append([]*eng.Term{ptr}, args...))
	}
	// the content of a map that holds exactly the members
	same := func(m *eng.Term) bool {
		l := e.MapLayers(m)
		return len(l) == 1 && l[0].All == src
	}
	// Value
	nm := e.Param("name", types.Typ[types.String])
	for _, o := range apply("Value", nm) {
		if o.Panic {
			continue
		}
		v := o.Rets[0]
		has, odd := 0, false
		for _, t := range o.St.FactTerms() {
			if t.Op == eng.OMapHas && t.Args[1] == nm {
				if same(t.Args[0]) {
					has = e.Decide(o.St, t)
				} else {
					odd = true
				}
			}
		}
		switch {
		case v.Op == eng.OMapGet && same(v.Args[0]) && v.Args[1] == nm:
			c.Ok(rule, "the value of a member of a %s object is the one in its JSON object", r.name)
		case v.Op == eng.OMapGet && same(v.Args[0]):
			c.Bad(rule, acc["Value"], posOf(o.In), "the value given for a member of a %s object is that of another name: %s", r.name, short(v.Args[1]))
		case v.IsNil() && has == -1:
			c.Ok(rule, "a name which is not in the JSON object of a %s has no value", r.name)
		case v.IsNil() && has == 1:
			c.Bad(rule, acc["Value"], posOf(o.In), "the value of a member of a %s object is not kept", r.name)
		case v.IsNil() && !odd:
			c.Bad(rule, acc["Value"], posOf(o.In), "the value of a member of a %s object can be missing: it is not looked up in the JSON object", r.name)
		default:
			c.Unknown(rule, "%s: Value gives %s", r.name, short(v))
		}
	}
	for _, fn := range []string{"Fields", "UnknownFields"} {
		n0 := len(e.LoopList)
		outs := apply(fn)
		var loops []*eng.LoopInfo
		for _, li := range e.LoopList[n0:] {
			if li.MapC != nil && same(li.MapC) {
				loops = append(loops, li)
			}
		}
		if len(outs) == 0 {
			c.Unknown(rule, "%s on %s: no outcome", fn, r.name)
			continue
		}
		if len(loops) == 0 {
			over, fixed := "", 0
			for _, li := range e.LoopList[n0:] {
				if li.MapC != nil {
					over = short(li.MapC)
					if fixed == 0 {
						fixed = 1
					}
					for _, l := range e.MapLayers(li.MapC) {
						if l.All != nil || !l.Key.IsConst() {
							fixed = -1
						}
					}
				}
			}
			if fixed == 1 {
				c.Bad(rule, acc[fn], acc[fn].Pos(), "%s lists fixed names and not the members of a %s object", fn, r.name)
				continue
			}
			for _, o := range outs {
				if o.Panic {
					continue
				}
				if isZeroTerm(o.Rets[0]) || e.Decide(o.St, e.Eq(e.Len(o.Rets[0]), e.IntC(0))) == 1 {
					c.Bad(rule, acc[fn], acc[fn].Pos(), "%s does not list the members of a %s object (it ranges over %s)", fn, r.name, over)
				} else {
					c.Unknown(rule, "%s on %s gives %s", fn, r.name, short(o.Rets[0]))
				}
			}
			continue
		}
		li := loops[len(loops)-1]
		c.nameList(rule, fn, acc[fn], r, li, outs, want, other)
	}
}

// nameList checks one of the member lists against the names it must hold.
func (c *Ctx) nameList(rule, fn string, f *ssa.Function, r *structRun, li *eng.LoopInfo, outs []*eng.Outcome, want, other map[string]bool) {
	e := c.E
	// the accumulator: the widened sequence which is returned
	var accs []*eng.Term
	for _, o := range outs {
		if o.Panic {
			continue
		}
		x := o.Rets[0]
		if x.Op == eng.OSlice && x.Args[1] == nil && x.Args[2] == nil {
			x = x.Args[0]
		}
		found := false
		for _, s := range li.Phis {
			if s == x {
				found = true
			}
		}
		for s := range li.Cells {
			if s == x {
				found = true
			}
		}
		if !found {
			if isZeroTerm(x) && e.Decide(o.St, e.Eq(e.Len(e.MapInit(r.src)), e.IntC(0))) == 1 {
				continue
			}
			c.Unknown(rule, "%s on %s gives %s", fn, r.name, short(x))
			return
		}
		accs = append(accs, x)
	}
	if len(accs) == 0 {
		c.Unknown(rule, "%s on %s: no list", fn, r.name)
		return
	}
	acc := accs[0]
	for _, x := range li.Exits {
		if !x.St.Dead && x.From != li.Header {
			c.Bad(rule, f, posOf(firstPos(x.From)), "%s can stop before all members are seen", fn)
			return
		}
	}
	var rk *eng.Term
	isKey := func(t *eng.Term) bool {
		if t.Op == eng.ORangeKey && t.Args[0] == li.MapC {
			rk = t
			return true
		}
		return false
	}
	for _, b := range li.Back {
		if v := e.EdgeVal(li, b, acc); v != nil && v.Op == eng.OAppend {
			for _, x := range v.Args[1:] {
				x.Any(isKey)
			}
		}
		for _, t := range b.St.FactTerms() {
			if rk == nil {
				t.Any(isKey)
			}
		}
	}
	names := map[string]bool{}
	for m := range want {
		names[m] = true
	}
	for m := range other {
		names[m] = true
	}
	for _, m := range sortedKeys(names) {
		listed := fn == "Fields" || !want[m]
		nOk, und := 0, ""
		for _, b := range li.Back {
			if b.St.Dead {
				continue
			}
			v := e.EdgeVal(li, b, acc)
			var key *eng.Term
			added := 0
			switch {
			case v == acc:
			case v != nil && v.Op == eng.OAppend && v.Args[0] == acc:
				added = len(v.Args) - 1
				key = v.Args[1]
			default:
				und = "the list is changed to " + short(v)
				continue
			}
			if rk == nil {
				und = "no key"
				continue
			}
			if key != nil && key != rk {
				if key.Contains(rk) && key.Op != eng.OJoin {
					c.Bad(rule, f, posOf(firstPos(b.From)), "%s lists %s instead of the name of a member", fn, short(key))
					return
				}
				und = "lists " + short(key)
				continue
			}
			if !c.possible(b.St, rk, m) {
				continue
			}
			switch {
			case listed && added == 1, !listed && added == 0:
				nOk++
			case added > 1:
				c.Bad(rule, f, posOf(firstPos(b.From)), "%s lists a member of a %s object %d times", fn, r.name, added)
				return
			default:
				if !c.membershipKnown(b.St, rk, m) {
					und = "membership of " + m
					continue
				}
				if listed && want[m] {
					c.Bad(rule, f, posOf(firstPos(b.From)), "%s does not list member %q of a %s object", fn, m, r.name)
				} else if listed {
					c.Bad(rule, f, posOf(firstPos(b.From)), "%s can leave out member %q of a %s object, which no field stands for", fn, m, r.name)
				} else {
					c.Bad(rule, f, posOf(firstPos(b.From)), "%s lists member %q of a %s object, which a field stands for", fn, m, r.name)
				}
				return
			}
		}
		if und != "" || nOk == 0 {
			c.Unknown(rule, "%s on %s, member %q: %s", fn, r.name, m, und)
			return
		}
	}
	c.Ok(rule, "%s lists exactly the right members of a %s object", fn, r.name)
}

// membershipKnown: every map membership in the state's facts is decided once
// the key is known.
func (c *Ctx) membershipKnown(st *eng.State, key *eng.Term, name string) bool {
	for _, t := range st.FactTerms() {
		bad := t.Any(func(x *eng.Term) bool {
			if x.Op != eng.OMapHas && x.Op != eng.OMapGet || !x.Contains(key) {
				return false
			}
			v := c.given(x, key, name)
			return v.Any(func(y *eng.Term) bool { return y.Op == eng.OMapHas || y.Op == eng.OMapGet })
		})
		if bad {
			return false
		}
	}
	return true
}

// notesOf: Notes looks the name up among the notes.
func (c *Ctx) notesOf(f *ssa.Function) {
	const rule = "notes"
	e := c.E
	if f == nil {
		return
	}
	var recv, name *eng.Term
	outs, _, ok := c.Run(rule, f, &eng.Hooks{SplitFacts: 60}, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		recv, name = ps[0], ps[1]
		return ps
	})
	if !ok {
		return
	}
	s := structUnder(f.Signature.Recv().Type())
	if s == nil {
		return
	}
	for _, o := range outs {
		if o.Panic {
			continue
		}
		v := o.Rets[0]
		good, miss := false, false
		for i := 0; i < s.NumFields(); i++ {
			if typeStr(s.Field(i).Type()) != "map[string][]string" {
				continue
			}
			m := c.Field(o.St, recv, s.Field(i).Name())
			val, has := e.MapLookup(o.St, e.MapContent(o.St, m), name, s.Field(i).Type())
			if v == val {
				good = true
			}
			if v.IsNil() || v.Op == eng.OZero {
				if e.Decide(o.St, has) == -1 || e.Decide(o.St, e.Eq(m, e.Nil())) == 1 {
					good = true
				} else if e.Decide(o.St, has) == 1 {
					miss = true
				}
			}
		}
		switch {
		case good:
			c.Ok(rule, "the notes of a member are those recorded under its name")
		case miss:
			c.Bad(rule, f, posOf(o.In), "notes recorded for a member are not returned")
		default:
			if v.Op == eng.OMapGet && len(v.Args) > 1 && v.Args[1] != name {
				c.Bad(rule, f, posOf(o.In), "the notes returned are those of another name: %s", short(v.Args[1]))
			} else if x, ok := c.constSlice(v); ok && x.Op == eng.OMapGet && !guardedLen(o.St, x) {
				c.Bad(rule, f, posOf(o.In), "only some of the notes recorded for a member are returned: %s", short(v))
			} else {
				c.Unknown(rule, "Notes gives %s", short(v))
			}
		}
	}
}

// constSlice: part of a list cut at fixed places.
func (c *Ctx) constSlice(v *eng.Term) (*eng.Term, bool) {
	if v.Op != eng.OSlice {
		return nil, false
	}
	for _, a := range v.Args[1:] {
		if n, ok := a.Int(); ok && n > 0 {
			return v.Args[0], true
		}
	}
	return nil, false
}

// guardedLen: does the path depend on the length of the list?
func guardedLen(st *eng.State, x *eng.Term) bool {
	for _, t := range st.FactTerms() {
		if t.Any(func(y *eng.Term) bool { return y.Op == eng.OLen && y.Args[0] == x }) {
			return true
		}
	}
	return false
}

// printUnknown: all unknown members, and no known ones, are shown under their
// names, in order.
func (c *Ctx) printUnknown() {
	const rule = "shown"
	e := c.E
	dt := c.typeOf(pkgRdap, "DecodeData")
	if dt == nil {
		return
	}
	if s, ok := dt.Underlying().(*types.Struct); !ok || !c.decodeShape(s) {
		c.Unknown(rule, "DecodeData is not as expected")
		return
	}
	depth := 2
	if c.Deep {
		depth = 3
	}
	for _, typ := range tops {
		paths, ends := c.ppaths(typ, depth)
		for i, p := range paths {
			for _, dd := range []int{1, 2, 3, 4, 6} {
				if len(p) > 1 && dd == 2 {
					continue
				}
				root, rs, ok := c.print(rule, typ, popts{}, atPath(p, 1, dd))
				if !ok {
					continue
				}
				n := root
				root.all(func(x *pnode) {
					if eqTrail(x.trail(), p) {
						n = x
					}
				})
				for _, r := range rs {
					c.unknownShown(rule, n, r, dd, ends[i], fmt.Sprintf("%s%v", typ, p))
				}
			}
		}
	}
	_ = e
}

func (c *Ctx) unknownShown(rule string, n *pnode, r *presult, dd int, typ, where string) {
	e := c.E
	good := true
	bad := func(format string, a ...any) {
		good = false
		if r.fuzzy {
			c.Unknown(rule, format, a...)
			return
		}
		c.Bad(rule, c.printFn(&pnode{typ: typ}), 0, format, a...)
	}
	names := map[string]int{}
	line := map[int]int{}
	var lab []string
	for _, l := range n.leaves {
		if l.label || l.member != "unknown" {
			continue
		}
		at := -1
		for i, ln := range r.lines {
			if ln.has(l.term) {
				if at >= 0 {
					bad("an unknown member of %s is shown twice", typ)
				}
				at = i
			}
		}
		if at < 0 && l.kind == "bool" {
			// decided on this path
			if d := e.Decide(r.st, l.term); d != 0 {
				want := "false"
				if d == 1 {
					want = "true"
				}
				for i, ln := range r.lines {
					if lb, ok := ln.label(); ok && lb == "flag" {
						at = i
						if v := c.lineValue(ln); v != nil {
							if s, ok := v.Str(); ok && s != want {
								bad("an unknown member of %s with value %s is shown as %s", typ, want, s)
							}
						}
					}
				}
			}
		}
		if at < 0 {
			bad("an unknown member of %s is not shown", typ)
			continue
		}
		line[l.idx] = at
		v := c.lineValue(r.lines[at])
		if l.kind == "number" && v != nil {
			x := v
			switch {
			case x.Op == eng.OCall && x.S == "strconv.FormatFloat" && len(x.Args) == 4:
				f, ok1 := x.Args[1].Int()
				pr, ok2 := x.Args[2].Int()
				bs, ok3 := x.Args[3].Int()
				if ok1 && ok2 && ok3 && (pr != -1 || bs != 64 || stripConv(x.Args[0]) != l.term || f == 'b' || f == 'x') {
					bad("a number of an unknown member of %s is not shown in full", typ)
				}
			case x.Op == eng.OFmt && (x.S == "%d" || x.S == "%f") || x.Op == eng.OCall && (x.S == "strconv.FormatInt" || x.S == "strconv.Itoa"):
				bad("a number of an unknown member of %s is not shown in full", typ)
			}
		} else if l.kind == "string" && v != nil && dd >= 3 {
			if c.shownAs(r.st, v, l) == -1 {
				bad("an unknown member of %s is shown as %s", typ, short(v))
			}
		}
		if lb, ok := r.lines[at].label(); ok {
			names[lb] = at
			lab = append(lab, lb)
		} else if dd >= 3 {
			good = false
			c.Unknown(rule, "label of an unknown member of %s", where)
			return
		}
	}
	switch dd {
	case 1, 2:
		k := 0
		for _, l := range n.leaves {
			if !l.label || l.member != "unknown name" {
				continue
			}
			found := 0
			for _, ln := range r.lines {
				if ln.has(l.term) {
					found++
				}
			}
			if found == 0 {
				bad("the name of an unknown member of %s is not shown", typ)
			}
			k++
		}
		if dd == 2 {
			if a, ok1 := line[0]; ok1 {
				if b, ok2 := line[1]; ok2 && b < a {
					bad("the values of an unknown member of %s are shown in another order", typ)
				}
			}
		}
	case 3:
		for i, x := range []string{"zeta", "alpha", "mid", "Beta", "yy", "aa", "mm"} {
			at, ok := line[i]
			if !ok {
				continue
			}
			if lb, _ := r.lines[at].label(); lb != x {
				bad("the unknown member %s of %s is shown under the name %q", x, typ, lb)
			}
		}
		for _, o := range [][]string{{"alpha", "mid", "zeta"}, {"aa", "mm", "yy"}} {
			for i := 1; i < len(o); i++ {
				a, ok1 := names[o[i-1]]
				b, ok2 := names[o[i]]
				if ok1 && ok2 && b < a {
					bad("the unknown members of %s are not shown in name order", typ)
				}
			}
		}
		// the nested object: below its name, in place
		hd := -1
		for i, ln := range r.lines {
			if lb, ok := ln.label(); ok && lb == "nested" {
				hd = i
			}
		}
		if hd < 0 {
			bad("the name of an unknown member of %s which is an object is not shown", typ)
		} else {
			for _, x := range []string{"yy", "aa", "mm"} {
				if at, ok := names[x]; ok && (at < hd || r.lines[at].indent >= 0 && r.lines[hd].indent >= 0 && r.lines[at].indent <= r.lines[hd].indent) {
					bad("the members of an unknown object in %s are not shown below it", typ)
				}
			}
			if z, ok := names["zeta"]; ok && hd > z {
				bad("the unknown members of %s are not shown in name order", typ)
			}
			if z, ok := names["mid"]; ok && hd < z {
				bad("the unknown members of %s are not shown in name order", typ)
			}
		}
		// the known one
		for _, ln := range r.lines {
			for _, p := range ln.parts {
				if p.Any(func(x *eng.Term) bool { return x.Op == eng.OParam && strings.HasSuffix(x.S, "DecodeData.handle") }) {
					bad("a known member of %s is shown among the unknown ones", typ)
				}
			}
		}
	case 6:
		// null members are members
		need := map[string]int{"none": 2, "object": 1, "list": 1}
		for _, ln := range r.lines {
			if lb, ok := ln.label(); ok {
				need[lb]--
			}
		}
		for _, x := range []string{"none", "object", "list"} {
			if need[x] > 0 {
				bad("an unknown member of %s without a value (null, or holding nothing but null) is not shown", typ)
			}
		}
	case 4:
		want := []string{"num", "flag", "list", "list", "list"}
		for i, x := range want {
			if at, ok := line[i]; ok {
				if lb, _ := r.lines[at].label(); lb != x {
					bad("the unknown member %s of %s is shown under the name %q", x, typ, lb)
				}
			}
		}
		for i := 3; i <= 4; i++ {
			a, ok1 := line[i-1]
			b, ok2 := line[i]
			if ok1 && ok2 && b < a {
				bad("the values of an unknown member of %s are shown in another order", typ)
			}
		}
	}
	if good {
		c.Ok(rule, "unknown members of %s (%d)", where, dd)
	}
}
