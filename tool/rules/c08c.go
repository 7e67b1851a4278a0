package rules

import (
	"go/types"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------- domain names

// dnsText: the query in lower case without its trailing dot.
func (r *regs) dnsText(t, q *eng.Term) (int, string) {
	lower, dot := false, false
	for i := 0; i < 10; i++ {
		if t == q {
			switch {
			case !lower:
				return -1, "the query is not lowercased"
			case !dot:
				return -1, "the trailing dot of the query is kept"
			}
			return 1, ""
		}
		if t.Op != eng.OCall {
			return 0, short(t)
		}
		switch t.S {
		case "strings.ToLower":
			lower = true
		case "strings.TrimSuffix", "strings.TrimRight":
			if s, ok := t.Args[1].Str(); !ok || s != "." {
				return 0, short(t)
			}
			if t.S == "strings.TrimRight" {
				return -1, "several trailing dots are removed"
			}
			if dot {
				return -1, "two trailing dots are removed"
			}
			dot = true
		case "strings.ToUpper", "strings.Trim", "strings.TrimLeft", "strings.TrimPrefix", "strings.TrimSpace":
			return -1, t.S + " changes the query"
		default:
			return 0, short(t)
		}
		t = t.Args[0]
	}
	return 0, short(t)
}

func (r *regs) dns() {
	c := r.c
	look := c.Func(pkgBoot, "*DNSRegistry.Lookup")
	cons := c.Func(pkgBoot, "NewDNSRegistry")
	if look == nil || cons == nil {
		r.unk(r.prop, "dns", "NewDNSRegistry or Lookup not found")
		return
	}
	table := r.tableField(cons, "dns")
	var q *eng.Term
	var reg *eng.Term
	outs, _, ok := c.Run("dns", look, r.hooks(), func(st *eng.State, ps []*eng.Term) []*eng.Term {
		c.assumeNil(st, ps[0], false)
		c.assumeNil(st, ps[1], false)
		q = c.Field(st, ps[1], "Query")
		reg = ps[0]
		return ps
	})
	if !ok {
		return
	}
	found := false
	for _, o := range outs {
		if o.Panic {
			continue
		}
		pos := posOf(o.In)
		if c.IsNil(o.St, o.Rets[1]) == -1 {
			r.bad("C08", "dns", look, pos, "a domain name is refused")
			continue
		}
		u := c.FieldOf(o.St, o.Rets[0], "URLs")
		n := c.FieldOf(o.St, o.Rets[0], "Entry")
		if u == nil || n == nil {
			r.unk("C08", "dns", "answer of unknown shape")
			continue
		}
		key, content := mapRead(u)
		if key == nil {
			key, content = r.aliased(u)
		}
		if key == nil {
			if c.IsNil(o.St, u) == 1 {
				// nothing was found
				r.dnsMiss(look, o)
				continue
			}
			r.unk("C08", "dns", "URLs %s", short(u))
			continue
		}
		if !r.isTable(content, reg, table) {
			r.unk("C08", "dns", "table %s", short(content))
			continue
		}
		has := r.has(o.St, content, key)
		if has == -1 {
			r.dnsMiss(look, o)
			continue
		}
		found = true
		switch {
		case n == key || c.E.Decide(o.St, c.E.Eq(n, key)) == 1:
			r.ok("C08", "dns", "the answer names the entry")
		default:
			if _, isc := n.Str(); isc && has == 0 {
				r.unk("C08", "dns", "entry %s", short(n))
			} else {
				r.bad("C08", "dns", look, pos, "the answer names %s, the URLs are those of %s", short(n), short(key))
			}
		}
		r.dnsKey(look, o, content, key, q)
		if r.prop == "C09" && has == 0 {
			// the loop ended without an entry: only at the root
			d := c.E.Decide(o.St, c.E.Eq(key, c.E.StrC("")))
			if d != 1 {
				r.bad("C09", "dns", look, pos, "shorter suffixes are not tried")
			} else {
				r.ok("C09", "dns", "all suffixes are tried")
			}
		}
	}
	if !found {
		r.bad("C09", "dns", look, 0, "no domain is ever found")
	}
}

// dnsMiss: nothing is found only when all suffixes were tried.
func (r *regs) dnsMiss(look *ssa.Function, o *eng.Outcome) {
	c := r.c
	// some suffix variable must be empty
	for _, li := range c.E.LoopList {
		for _, s := range li.Phis {
			if isStringT(s.T) && c.E.Decide(o.St, c.E.Eq(s, c.E.StrC(""))) == 1 {
				r.ok("C09", "dns", "nothing is found after all suffixes were tried")
				return
			}
		}
	}
	r.unk("C09", "dns", "when nothing is found")
}

// edges lists the values a loop gives a symbol, paired with those of another.
func (r *regs) edges(li *eng.LoopInfo, a, b *eng.Term, f func(x, y *eng.Term) bool) bool {
	c := r.c
	n := 0
	var ia, ib []*eng.Term
	for _, o := range c.E.Origins[a] {
		if o.Init {
			ia = append(ia, o.Val)
		}
	}
	for _, o := range c.E.Origins[b] {
		if o.Init {
			ib = append(ib, o.Val)
		}
	}
	if len(ia) != 1 || len(ib) != 1 || !f(ia[0], ib[0]) {
		return false
	}
	for _, e := range li.Back {
		if e.St.Dead {
			continue
		}
		n++
		x, y := c.E.EdgeVal(li, e, a), c.E.EdgeVal(li, e, b)
		if x == nil || y == nil || !f(x, y) {
			return false
		}
	}
	return n > 0
}

// aliased: a loop variable that always is what the table holds for another.
func (r *regs) aliased(u *eng.Term) (key, content *eng.Term) {
	c := r.c
	li := c.loopOf(u)
	if li == nil {
		return nil, nil
	}
	for _, k := range li.Phis {
		if !isStringT(k.T) {
			continue
		}
		var ct *eng.Term
		if r.edges(li, u, k, func(x, y *eng.Term) bool {
			kk, cc := mapRead(x)
			if kk != y || ct != nil && ct != cc {
				return false
			}
			ct = cc
			return true
		}) {
			return k, ct
		}
	}
	return nil, nil
}

// has decides whether the table has a key, directly or through a loop variable
// that always tells.
func (r *regs) has(st *eng.State, content, key *eng.Term) int {
	c := r.c
	if d := c.E.Decide(st, c.E.MapHasT(content, key)); d != 0 {
		return d
	}
	li := c.loopOf(key)
	if li == nil {
		return 0
	}
	for _, k := range li.Phis {
		if k.T == nil || k.T.Underlying() != types.Typ[types.Bool] {
			continue
		}
		if r.edges(li, k, key, func(x, y *eng.Term) bool { return x == c.E.MapHasT(content, y) }) {
			return c.E.Decide(st, k)
		}
	}
	return 0
}

// mapRead splits a map lookup.
func mapRead(t *eng.Term) (key, content *eng.Term) {
	if t != nil && t.Op == eng.OMapGet {
		return t.Args[1], t.Args[0]
	}
	return nil, nil
}

// isTable: content is what the registry's map field held.
func (r *regs) isTable(content, reg *eng.Term, field string) bool {
	if content.Op != eng.OMapInit {
		return false
	}
	m := content.Args[0]
	if m.Op != eng.OLoad || !m.Contains(reg) {
		return false
	}
	n := m.Args[0].FieldName()
	return field == "" || n == field || n == "Entries"
}

// dnsKey: the key tried is a suffix of whole labels, longest first.
func (r *regs) dnsKey(look *ssa.Function, o *eng.Outcome, content, key, q *eng.Term) {
	c := r.c
	li := c.loopOf(key)
	if li == nil {
		v, why := r.dnsText(key, q)
		switch {
		case v == 1:
			r.bad("C09", "dns", look, posOf(o.In), "only the whole name is looked up")
		case key.Op == eng.OSlice || isCall(key, "strings.Join"):
			r.unk("C08", "dns", "suffix %s", short(key))
		default:
			r.unk("C08", "dns", "key %s %s", short(key), why)
		}
		return
	}
	for _, org := range c.E.Origins[key] {
		if org.Init {
			v, why := r.dnsText(org.Val, q)
			switch v {
			case 1:
				r.ok("C08", "dns", "the first suffix is the whole name")
			case -1:
				r.bad("C08", "dns", look, posOf(firstPos(li.Header)), "the name looked up is not the lowercased query without trailing dot: %s", why)
			default:
				if org.Val.Op == eng.OSlice {
					r.unk("C09", "dns", "first suffix %s", short(org.Val))
				} else {
					r.unk("C08", "dns", "first suffix %s", why)
				}
			}
			continue
		}
	}
	for _, b := range li.Back {
		if b.St.Dead {
			continue
		}
		nv := c.E.EdgeVal(li, b, key)
		pos := posOf(firstPos(b.From))
		if nv == key || nv == nil {
			continue
		}
		v, why := r.nextSuffix(b.St, nv, key)
		switch v {
		case 1:
			r.ok("C08", "dns", "the next suffix drops the first label")
			r.ok("C09", "dns", "the next suffix drops one label")
		case -1:
			r.bad("C08", "dns", look, pos, "a key that is no suffix of whole labels is tried: %s", why)
			r.bad("C09", "dns", look, pos, "a key that is no suffix of whole labels is tried: %s", why)
		case -2:
			r.bad("C09", "dns", look, pos, "suffixes are left out: %s", why)
			r.ok("C08", "dns", "the next key is a suffix")
		default:
			r.unk("C08", "dns", "next suffix %s", why)
		}
		// it was tried and not found
		if r.has(b.St, content, key) == -1 {
			r.ok("C09", "dns", "a suffix is dropped when it has no entry")
		} else {
			r.bad("C09", "dns", look, pos, "a suffix with an entry may be passed over")
		}
	}
	for _, x := range li.Exits {
		if x.St.Dead {
			continue
		}
		has := r.has(x.St, content, key)
		root := c.E.Decide(x.St, c.E.Eq(key, c.E.StrC("")))
		switch {
		case has == 1 || root == 1 && has == -1:
			r.ok("C09", "dns", "the search ends at an entry or at the root")
		case has == -1:
			r.bad("C09", "dns", look, posOf(firstPos(x.From)), "the search ends without trying all suffixes")
		case root == 1:
			r.unk("C09", "dns", "whether the root is looked up")
		default:
			r.unk("C09", "dns", "end of the search")
		}
	}
}

// nextSuffix judges the step from one suffix to the next: 1 drops one label,
// -1 no suffix of whole labels, -2 drops several labels, 0 unknown.
func (r *regs) nextSuffix(st *eng.State, nv, key *eng.Term) (int, string) {
	c := r.c
	dot := func(t *eng.Term) bool {
		if s, ok := t.Str(); ok {
			return s == "."
		}
		n, ok := t.Int()
		return ok && n == '.'
	}
	if s, ok := nv.Str(); ok {
		if s != "" {
			return -1, "key " + s
		}
		// no dot is left
		for _, t := range st.FactTerms() {
			done := 0
			t.Walk(func(x *eng.Term) bool {
				if x.Op != eng.OCall && x.Op != eng.OExtract {
					return true
				}
				y := x
				if x.Op == eng.OExtract {
					y = x.Args[0]
				}
				if y.Op != eng.OCall || len(y.Args) < 2 || y.Args[0] != key || !dot(y.Args[1]) {
					return true
				}
				switch {
				case x.Op == eng.OCall && (strings.HasPrefix(y.S, "strings.Index") || strings.HasPrefix(y.S, "strings.LastIndex")):
					if c.E.Decide(st, c.E.Lt(x, c.E.IntC(0))) == 1 {
						done = 1
					} else if d := c.E.Decide(st, c.E.Eq(x, c.E.IntC(0))); d == 1 && done == 0 {
						done = -1
					} else if done == 0 {
						done = -1
					}
				case x.Op == eng.OExtract && y.S == "strings.Cut" && x.I == 2:
					if c.E.Decide(st, x) == -1 {
						done = 1
					}
				case y.S == "strings.Contains" || y.S == "strings.ContainsRune" || y.S == "strings.ContainsAny":
					if c.E.Decide(st, x) == -1 {
						done = 1
					}
				}
				return true
			})
			if done == 1 {
				return 1, ""
			}
			if done == -1 {
				return -2, "the root is tried although labels are left"
			}
		}
		return 0, "the root"
	}
	if isResult(nv, "strings.Cut", 1) && nv.Args[0].Args[0] == key {
		if dot(nv.Args[0].Args[1]) {
			return 1, ""
		}
		return -1, short(nv)
	}
	if isResult(nv, "strings.Cut", 0) && nv.Args[0].Args[0] == key {
		return -1, "the last label is dropped"
	}
	if nv.Op == eng.OSlice && nv.Args[0] == key && nv.Args[1] != nil {
		if nv.Args[2] != nil && c.E.Decide(st, c.E.Eq(nv.Args[2], c.E.Len(key))) != 1 {
			return -1, "the end of the name is cut off"
		}
		b, k := eng.Lin(nv.Args[1])
		if b == nil {
			return -1, "a fixed number of characters is dropped"
		}
		if b.Op == eng.OCall && len(b.Args) == 2 && b.Args[0] == key && dot(b.Args[1]) {
			switch b.S {
			case "strings.IndexByte", "strings.Index", "strings.IndexRune", "strings.IndexAny":
				if k == 1 {
					return 1, ""
				}
				return -1, "the dot is kept or a character lost"
			case "strings.LastIndexByte", "strings.LastIndex", "strings.LastIndexAny":
				if k == 1 {
					return -2, "all but the last label are dropped at once"
				}
				return -1, "the dot is kept or a character lost"
			}
		}
		return 0, short(nv)
	}
	if nv.Op == eng.OSlice && nv.Args[0] == key && nv.Args[1] == nil {
		return -1, "the end of the name is cut off"
	}
	return 0, short(nv)
}

// tableField: the map of a registry is the parsed file's entries.
func (r *regs) tableField(cons *ssa.Function, rule string) string {
	c := r.c
	outs, _, ok := r.constructor(cons, rule, nil)
	if !ok {
		return ""
	}
	name := ""
	for _, o := range outs {
		if o.Panic || c.IsNil(o.St, o.Rets[1]) != 1 {
			continue
		}
		s := structUnder(o.Rets[0].T)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			m, ok := s.Field(i).Type().Underlying().(*types.Map)
			if !ok || m.Elem().String() != urlList {
				continue
			}
			name = s.Field(i).Name()
			v := c.Field(o.St, o.Rets[0], name)
			switch {
			case isFileEntries(v):
				r.ok("C08", rule, "the table is the parsed file's entries")
			case c.IsNil(o.St, v) == 1:
				r.bad("C09", rule, cons, posOf(o.In), "the table is empty")
			default:
				// a copy: every entry under its own name
				r.tableCopy(cons, rule, o, v)
			}
		}
	}
	return name
}

func (r *regs) tableCopy(cons *ssa.Function, rule string, o *eng.Outcome, v *eng.Term) {
	c := r.c
	content := c.E.MapContent(o.St, v)
	layers := c.E.MapLayers(content)
	if len(layers) == 0 {
		r.unk("C08", rule, "table %s", short(v))
		return
	}
	r.unk("C08", rule, "table %s", short(content))
}

// -------------------------------------------------------------- object tags

func (r *regs) tags() {
	c := r.c
	look := c.Func(pkgBoot, "*ServiceProviderRegistry.Lookup")
	cons := c.Func(pkgBoot, "NewServiceProviderRegistry")
	if look == nil || cons == nil {
		r.unk(r.prop, "tag", "NewServiceProviderRegistry or Lookup not found")
		return
	}
	table := r.tableField(cons, "tag")
	for _, hyphen := range []bool{true, false} {
		var q, reg *eng.Term
		h := r.hooks()
		h.OnCall = func(st *eng.State, ev *eng.Event) {
			c.containsScenario(st, ev, q, '-', hyphen)
		}
		outs, _, ok := c.Run("tag", look, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
			c.assumeNil(st, ps[0], false)
			c.assumeNil(st, ps[1], false)
			q = c.Field(st, ps[1], "Query")
			reg = ps[0]
			return ps
		})
		if !ok {
			return
		}
		found := false
		for _, o := range outs {
			if o.Panic || c.IsNil(o.St, o.Rets[1]) == -1 {
				continue
			}
			pos := posOf(o.In)
			u := c.FieldOf(o.St, o.Rets[0], "URLs")
			n := c.FieldOf(o.St, o.Rets[0], "Entry")
			if u == nil || n == nil {
				r.unk("C08", "tag", "answer of unknown shape")
				continue
			}
			key, content := mapRead(u)
			if key == nil {
				if c.IsNil(o.St, u) == 1 {
					// must not have been found
					r.tagMiss(look, o, q, hyphen)
				} else {
					r.unk("C08", "tag", "URLs %s", short(u))
				}
				continue
			}
			if !r.isTable(content, reg, table) {
				r.unk("C08", "tag", "table %s", short(content))
				continue
			}
			has := c.E.Decide(o.St, c.E.MapHasT(content, key))
			if has == -1 {
				r.ok("C08", "tag", "no entry, no URLs")
				continue
			}
			found = true
			if !hyphen {
				r.bad("C08", "tag", look, pos, "a handle without a tag is found under %s", short(key))
				continue
			}
			v, why := r.tagText(o.St, key, q)
			switch v {
			case 1:
				r.ok("C08", "tag", "the tag is what follows the last hyphen")
			case -1:
				r.bad("C08", "tag", look, pos, "the tag looked up is not what follows the last hyphen: %s", why)
			default:
				r.unk("C08", "tag", "tag %s", why)
			}
			if n == key || c.E.Decide(o.St, c.E.Eq(n, key)) == 1 {
				r.ok("C08", "tag", "the answer names the tag")
			} else if has == 1 {
				r.bad("C08", "tag", look, pos, "the answer for tag %s is named %s", short(key), short(n))
			} else {
				r.unk("C08", "tag", "entry %s", short(n))
			}
		}
		if hyphen && !found {
			r.bad("C09", "tag", look, 0, "no tag is ever found")
		} else if hyphen {
			r.ok("C09", "tag", "tags are found")
		}
	}
}

// tagMiss: no URLs although the handle has a hyphen: only without a tag.
func (r *regs) tagMiss(look *ssa.Function, o *eng.Outcome, q *eng.Term, hyphen bool) {
	c := r.c
	if !hyphen {
		r.ok("C08", "tag", "no tag, no URLs")
		return
	}
	for _, t := range o.St.FactTerms() {
		miss := false
		t.Walk(func(x *eng.Term) bool {
			if x.Op == eng.OMapHas && c.E.Decide(o.St, x) == -1 {
				miss = true
			}
			return true
		})
		if miss {
			r.ok("C09", "tag", "no entry, no URLs")
			return
		}
	}
	// the tag is empty: the hyphen is the last character
	for _, t := range o.St.FactTerms() {
		found := 0
		t.Walk(func(x *eng.Term) bool {
			if x.Op == eng.OCall && strings.HasPrefix(x.S, "strings.LastIndex") && x.Args[0] == q {
				last := c.E.Bin2Sub(c.E.Len(q), 1)
				if c.E.Decide(o.St, c.E.Lt(x, last)) == -1 {
					found = 1
				} else if found == 0 {
					found = -1
				}
			}
			return true
		})
		if found == 1 {
			r.ok("C09", "tag", "an empty tag has no entry")
			return
		}
		if found == -1 {
			r.bad("C09", "tag", look, posOf(o.In), "a handle with a tag is not looked up")
			return
		}
	}
	r.unk("C09", "tag", "when a handle is not looked up")
}

func (r *regs) tagText(st *eng.State, key, q *eng.Term) (int, string) {
	c := r.c
	hy := func(t *eng.Term) bool {
		if s, ok := t.Str(); ok {
			return s == "-"
		}
		n, ok := t.Int()
		return ok && n == '-'
	}
	switch {
	case key.Op == eng.OSlice && key.Args[0] == q && key.Args[1] != nil:
		if key.Args[2] != nil && c.E.Decide(st, c.E.Eq(key.Args[2], c.E.Len(q))) != 1 {
			return -1, "the end is cut off"
		}
		b, k := eng.Lin(key.Args[1])
		if b == nil {
			return -1, "a fixed number of characters is dropped"
		}
		if b.Op != eng.OCall || len(b.Args) != 2 || b.Args[0] != q || !hy(b.Args[1]) {
			return 0, short(key)
		}
		switch b.S {
		case "strings.LastIndexByte", "strings.LastIndex", "strings.LastIndexAny":
			if k == 1 {
				return 1, ""
			}
			return -1, "the hyphen is kept or a character lost"
		case "strings.IndexByte", "strings.Index", "strings.IndexRune", "strings.IndexAny":
			return -1, "the first hyphen is used"
		}
	case isResult(key, "strings.Cut", 1) && key.Args[0].Args[0] == q:
		return -1, "the first hyphen is used"
	case key.Op == eng.OCall && (key.S == "strings.ToUpper" || key.S == "strings.ToLower"):
		return -1, "the tag is not compared exactly"
	case key.Op == eng.OCall && strings.HasPrefix(key.S, "strings.Trim"):
		return -1, "the tag is changed by " + key.S
	case key == q:
		return -1, "the whole handle"
	}
	// the last part of a split
	if l, i, ok := elemAccess(key); ok && isCall(l, "strings.Split") && l.Args[0] == q && hy(l.Args[1]) {
		b, k := eng.Lin(i)
		if b == c.E.Len(l) && k == -1 {
			return 1, ""
		}
		if c.E.Decide(st, c.E.Eq(i, c.E.Bin2Sub(c.E.Len(l), 1))) == 1 {
			return 1, ""
		}
		return -1, "not the last part"
	}
	return 0, short(key)
}

// -------------------------------------------------------------- the file

func (r *regs) file() {
	c := r.c
	fn := c.Func(pkgBoot, "NewFile")
	if fn == nil {
		r.unk("C08", "file", "NewFile not found")
		return
	}
	for _, n := range []int64{0, 1, 2, 3, 4} {
		r.fileShape(fn, n)
	}
}

// fileShape analyses NewFile for services arrays of n lists.
func (r *regs) fileShape(fn *ssa.Function, n int64) {
	c := r.c
	var svc *eng.Term // element of the services list
	var recs []*storeRec
	h := &eng.Hooks{SplitFacts: 80, Keep: func(*eng.Event) bool { return true }}
	h.OnStore = func(st *eng.State, kind string, addr, key, val *eng.Term, fr *eng.Frame, in ssa.Instruction) {
		if kind == "mapupdate" {
			c.E.Emit(&storeRec{kind, addr, key, val, st.Clone(), fr, in})
		}
	}
	outs, rs, ok := c.Run("file", fn, h, nil)
	if !ok {
		return
	}
	for _, x := range rs {
		if s, ok := x.(*storeRec); ok {
			recs = append(recs, s)
		}
	}
	if len(recs) == 0 {
		r.bad("C08", "file", fn, 0, "no entry of a file is kept")
		return
	}
	// the list of services and its elements
	var services *eng.Term
	for _, li := range c.E.LoopList {
		for _, b := range li.Back {
			for _, t := range b.St.FactTerms() {
				t.Walk(func(x *eng.Term) bool {
					if l, _, ok := elemAccess(x); ok && l.T != nil && l.T.String() == "[][][]string" && services == nil {
						services, svc = l, x
					}
					return true
				})
			}
		}
	}
	if services == nil {
		r.unk("C08", "file", "services of the file")
		return
	}
	ln := func(st *eng.State) *eng.Term {
		t := svc
		if t.Op == eng.OIndexAddr {
			t = c.E.Load(st, t, t.T.Underlying().(*types.Pointer).Elem())
		}
		return c.E.Len(t)
	}
	kept := 0
	for _, s := range recs {
		st := s.st.Clone()
		if !c.E.Assume(st, c.E.Eq(ln(st), c.E.IntC(n)), true) || st.Dead {
			continue
		}
		kept++
		pos := posOf(s.in)
		if n != 2 && n != 3 {
			r.bad("C08", "file", fn, pos, "entries of a malformed service (%d lists) are kept", n)
			continue
		}
		we := n - 2 // index of the entries
		l, _, ok := elemAccess(s.key)
		if !ok {
			r.unk("C08", "file", "entry %s", short(s.key))
			continue
		}
		r.listOf(fn, s, st, l, svc, we, "entries")
		els, ok := c.E.AccElems(s.val)
		if !ok {
			r.unk("C08", "file", "URLs %s", short(s.val))
			continue
		}
		for _, el := range els {
			v := el.Val
			if !isResult(v, "net/url.Parse", 0) {
				r.unk("C08", "file", "URL %s", short(v))
				continue
			}
			if l, _, ok := elemAccess(v.Args[0].Args[0]); ok {
				es := st
				if el.St != nil {
					es = el.St.Clone()
					if !c.E.Assume(es, c.E.Eq(ln(es), c.E.IntC(n)), true) {
						continue
					}
				}
				r.listOf(fn, s, es, l, svc, we+1, "URLs")
				if el.St != nil && c.IsNil(el.St, c.resultOf(v.Args[0], 1)) != 1 {
					r.bad("C08", "file", fn, pos, "an unparsable URL is kept")
				}
			} else {
				r.unk("C08", "file", "URL text %s", short(v.Args[0].Args[0]))
			}
		}
	}
	if (n == 2 || n == 3) && kept == 0 {
		r.bad("C08", "file", fn, 0, "services of %d lists are not kept", n)
	}
	if n != 2 && n != 3 {
		r.ok("C08", "file", "malformed services (%d lists) are not kept", n)
	}
	_ = outs
	if n == 2 || n == 3 {
		r.fileLoops(fn, recs, svc, func(st *eng.State) bool { return r.possible(st, c.E.Eq(ln(st), c.E.IntC(n))) })
	}
}

// fileLoops: all services, entries and URLs are visited.
func (r *regs) fileLoops(fn *ssa.Function, recs []*storeRec, svc *eng.Term, here func(st *eng.State) bool) {
	c := r.c
	full := func(st *eng.State, what string, l, i *eng.Term) {
		v, why := c.fullRangeBut(st, l, i, func(x *eng.LoopExit) bool { return errorExit(x) || !here(x.St) })
		switch v {
		case 1:
			r.ok(r.prop, "file", "all %s are visited", what)
		case -1:
			r.bad(r.prop, "file", fn, 0, "not all %s are kept: %s", what, why)
		default:
			r.unk(r.prop, "file", "%s: %s", what, why)
		}
	}
	if l, i, ok := elemAccess(svc); ok {
		full(nil, "services", l, i)
	}
	// whether an entry is kept does not depend on its text
	ins := map[ssa.Instruction]bool{}
	free := 0
	var cond *eng.Term
	var at *storeRec
	for _, s := range recs {
		if !here(s.st) {
			continue
		}
		ins[s.in] = true
		if _, _, ok := elemAccess(s.key); !ok {
			continue
		}
		k := len(s.st.FactTerms())
		for _, t := range s.st.FactTerms() {
			if t.Contains(s.key) && !(t.Op == eng.OLen && t.Args[0] == s.key && c.E.Decide(s.st, c.E.Lt(c.E.IntC(0), t)) == 0) {
				cond, at = t, s
				k--
			}
		}
		if k == len(s.st.FactTerms()) {
			free++
		}
	}
	switch {
	case free > 0:
		r.ok("C09", "file", "every entry of a service is kept")
	case cond != nil && len(ins) == 1:
		r.bad("C09", "file", fn, posOf(at.in), "an entry of a service is only kept depending on %s", short(cond))
	default:
		r.unk("C09", "file", "which entries of a service are kept")
	}
	for _, s := range recs {
		if !here(s.st) {
			continue
		}
		if l, i, ok := elemAccess(s.key); ok {
			full(s.st, "entries of a service", l, i)
		}
		if s.val.Any(func(x *eng.Term) bool { return x.Op == eng.OMapGet && x.Args[1] == s.key }) {
			r.bad("C08", "file", fn, posOf(s.in), "an entry also gets the URLs of an earlier entry of the same name")
		}
		els, ok := c.E.AccElems(s.val)
		if !ok {
			continue
		}
		for _, el := range els {
			if isResult(el.Val, "net/url.Parse", 0) && el.St != nil && here(el.St) {
				if l, i, ok := elemAccess(el.Val.Args[0].Args[0]); ok {
					sa := svc
					if sa.Op == eng.OLoad {
						sa = sa.Args[0]
					}
					if b, _ := eng.Lin(i); b != nil && l.Contains(sa) {
						full(el.St, "URLs of a service", l, i)
						if c.E.Decide(s.st, c.E.Eq(c.E.Len(s.val), c.E.Len(l))) == 1 {
							r.bad("C09", "file", fn, posOf(s.in), "the entries of a service are left out if one of its URLs cannot be parsed")
						}
					}
				}
			}
		}
		// the URLs are of this service only
		t := s.val
		sl := c.loopOf(firstSym(elemIdx(svc)))
		for k := 0; k < 5 && t != nil && t.Op == eng.OSym; k++ {
			if li := c.loopOf(t); li != nil && li == sl {
				r.bad("C08", "file", fn, posOf(s.in), "an entry also gets the URLs of the services before its own")
				break
			}
			var init *eng.Term
			for _, o := range c.E.Origins[t] {
				if !o.Init {
					continue
				}
				b := o.Val
				for b.Op == eng.OSlice {
					b = b.Args[0]
				}
				if b.Op == eng.OSym {
					init = b
				}
				if b != o.Val && b.Op == eng.OSym && (c.loopOf(b) == sl || c.loopOf(b) != nil && inLoop(c.loopOf(b), sl)) {
					r.bad("C08", "file", fn, posOf(s.in), "the URLs of a service are written over those of the services before it")
					init = nil
					break
				}
			}
			t = init
		}
	}
}

// inLoop: a loop inside another.
func inLoop(a, b *eng.LoopInfo) bool {
	for _, x := range a.Outer {
		if x == b {
			return true
		}
	}
	return false
}

func elemIdx(t *eng.Term) *eng.Term {
	if _, i, ok := elemAccess(t); ok {
		return i
	}
	return t
}

func typeStr(t types.Type) string {
	if t == nil {
		return ""
	}
	return t.String()
}

// listOf: l is list number want of the service.
func (r *regs) listOf(fn *ssa.Function, s *storeRec, st *eng.State, l, svc *eng.Term, want int64, what string) {
	var cands []*eng.Term
	switch l.Op {
	case eng.OJoin:
		cands = l.Args
	default:
		cands = []*eng.Term{l}
	}
	for _, x := range cands {
		sv, i, ok := elemAccess(x)
		if !ok {
			r.unk("C08", "file", "%s %s", what, short(x))
			continue
		}
		sa := sv
		if sa.Op == eng.OLoad {
			sa = sa.Args[0]
		}
		sb := svc
		if sb.Op == eng.OLoad {
			sb = sb.Args[0]
		}
		if sa != sb {
			if l, i, ok := elemAccess(sa); ok {
				if l2, _, ok := elemAccess(sb); ok && l == l2 && i.IsConst() {
					continue // of an iteration generalised later
				}
			}
			r.unk("C08", "file", "%s of another service %s %s", what, sa, sb)
			continue
		}
		k, isc := i.Int()
		switch {
		case !isc:
			r.unk("C08", "file", "%s %s", what, short(x))
		case k == want:
			r.ok("C08", "file", "the %s are list %d of the service", what, want)
		case len(cands) > 1:
		default:
			r.bad("C08", "file", fn, posOf(s.in), "the %s are taken from list %d of a service of %d lists", what, k, want+2)
		}
	}
}

// errorExit: the loop is left to return an error.
func errorExit(x *eng.LoopExit) bool {
	b := x.To
	for i := 0; b != nil && i < 8; i++ {
		if len(b.Instrs) == 0 {
			return false
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(ret.Results) == 0 {
				return false
			}
			last := ret.Results[len(ret.Results)-1]
			if k, ok := last.(*ssa.Const); ok && k.IsNil() {
				return false
			}
			return last.Type().String() == "error"
		}
		if len(b.Succs) != 1 {
			return false
		}
		b = b.Succs[0]
	}
	return false
}
