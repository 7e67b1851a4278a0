package rules

import (
	"fmt"
	"go/types"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	asm := []string{"fmt, strconv, sort and strings behave as documented"}
	register(&Rule{ID: "C21", Run: runC21, Floor: 300,
		Method:      "Abstract interpretation of Printer.Print over classes of objects: each class fixes the type, which members are present and the number of elements (each type at the end of every member path, all members at once and each member alone), all texts and numbers symbolic; the sequence of lines written is compared with the object: every member on exactly one line, in order, below its own heading. The loops over lists are also analysed without fixing the number of elements.",
		Assumptions: asm})
	register(&Rule{ID: "C22", Run: runC22, Floor: 100,
		Method:      "Taint analysis by abstract interpretation of Printer.Print and of the WHOIS output: every text of an object of known shape is a source assumed to contain a given control character; everything written is searched for a source which has not gone through a function that removes the character (the mapping functions are themselves evaluated on it).",
		Assumptions: asm})
	register(&Rule{ID: "C24", Run: runC24, Floor: 300,
		Method:      "Abstract interpretation of Printer.Print for every combination of options and object classes as in C21: the members shown are compared with those which the options leave visible.",
		Assumptions: asm})
}

func runC21(c *Ctx) {
	depth := 3
	if c.Deep {
		depth = 4
	}
	for _, typ := range tops {
		// each member alone; long lists
		paths, ends := c.ppaths(typ, depth-2)
		for i, p := range paths {
			for _, m := range c.membersOf(ends[i]) {
				for _, k := range []int{1, 3} {
					c.printCase("alone", typ, p, popts{}, onlyMember(p, m, k), fmt.Sprintf("%s of %s alone", m, ends[i]))
				}
				c.printCase("without", typ, p, popts{}, allBut(p, m, 1), fmt.Sprintf("%s without %s", ends[i], m))
			}
			for _, dd := range []int{1, 2, 4} {
				c.printCase("unknown", typ, p, popts{}, atPath(p, 0, dd), fmt.Sprintf("unknown members of %s alone", ends[i]))
			}
		}
		paths, ends = c.ppaths(typ, depth)
		seen := map[string]bool{}
		for i, p := range paths {
			c.printCase("members", typ, p, popts{}, atPath(p, 2, 0), "all members of "+ends[i])
			if !seen[ends[i]] {
				seen[ends[i]] = true
				c.printCase("lists", typ, p, popts{}, atPath(p, 12, 0), "long lists in "+ends[i])
			}
		}
		c.printCase("decoded", typ, nil, popts{}, atPath(nil, 2, 3), "a decoded "+typ)
		c.printCase("indent", typ, nil, popts{size: 3, char: '\t'}, atPath(nil, 2, 0), typ+" with tabs")
	}
	// long chains of nested objects
	for _, ch := range []struct {
		typ  string
		path []string
	}{
		{"Entity", []string{"Entities", "Entities", "Entities", "Entities", "Entities", "Entities", "Entities", "Entities"}},
		{"Domain", []string{"Entities", "Networks", "Entities", "Autnums", "Entities", "Networks", "Entities"}},
		{"Domain", []string{"Network", "Entities", "Entities", "Networks", "Links"}},
		{"DomainSearchResults", []string{"Domains", "Nameservers", "Entities", "Entities", "Remarks", "Links"}},
	} {
		for i := 1; i <= len(ch.path); i++ {
			p := ch.path[:i]
			c.printCase("nested", ch.typ, p, popts{}, atPath(p, 1, 0), "nested objects")
		}
	}
	c.printLoops()
	c.printOther()
}

// allBut: all members of the object at the end of a path but one.
func allBut(p []string, m string, k int) pspec {
	full := atPath(p, k, 0)
	return func(tr []string, typ string, f *types.Var) int {
		if len(tr) == len(p) && f.Name() == m {
			return 0
		}
		return full(tr, typ, f)
	}
}

func (c *Ctx) printCase(rule, typ string, p []string, o popts, spec pspec, what string) {
	root, rs, ok := c.print(rule, typ, o, spec)
	if !ok {
		c.eachMember(typ, p, spec, func(sp pspec, m string) {
			if root, rs, ok := c.print(rule, typ, o, sp); ok {
				for _, r := range rs {
					if c.shows(rule, root, r, o) && !r.fuzzy {
						c.Ok(rule, "%s%v: %s, %s alone (%s)", typ, p, what, m, o)
					}
				}
			}
		})
		return
	}
	good := true
	for _, r := range rs {
		if r.fuzzy {
			good = false
			c.Unknown(rule, "output of %s%v", typ, p)
		}
		if !c.shows(rule, root, r, o) {
			good = false
		}
	}
	if good {
		c.Ok(rule, "%s%v: %s (%s)", typ, p, what, o)
	}
}

// eachMember splits a class of objects which is too large into those with one
// member.
func (c *Ctx) eachMember(typ string, p []string, spec pspec, f func(sp pspec, m string)) {
	end := typ
	for _, ty := range append([]string{}, tops...) {
		if ty != typ {
			continue
		}
		paths, ends := c.ppaths(typ, len(p))
		for i := range paths {
			if eqTrail(paths[i], p) {
				end = ends[i]
			}
		}
	}
	for _, m := range append(c.membersOf(end), "DecodeData") {
		f(func(tr []string, ty string, v *types.Var) int {
			if len(tr) == len(p) && v.Name() != m {
				return 0
			}
			return spec(tr, ty, v)
		}, m)
	}
}

// printLoops analyses the loops over the lists of each type without fixing
// the number of elements.
func (c *Ctx) printLoops() {
	fn := c.Func(pkgRdap, "*Printer.Print")
	pt := c.typeOf(pkgRdap, "Printer")
	if fn == nil || pt == nil {
		return
	}
	e := c.E
	for _, typ := range tops {
		t := c.typeOf(pkgRdap, typ)
		if t == nil {
			continue
		}
		paths, ends := c.ppaths(typ, 2)
		seen := map[string]bool{}
		for i, p := range paths {
			if seen[ends[i]] {
				continue
			}
			seen[ends[i]] = true
			et := c.typeOf(pkgRdap, ends[i])
			s := et.Underlying().(*types.Struct)
			for j := 0; j < s.NumFields(); j++ {
				f := s.Field(j)
				switch k, _ := memberKind(f); k {
				case "strings", "objects":
					c.printLoop(fn, pt, typ, t, p, f)
				case "decodedata":
					if len(p) == 0 {
						c.printLoop(fn, pt, typ, t, p, f)
					}
				}
			}
		}
	}
	_ = e
}

func (c *Ctx) printLoop(fn *ssa.Function, pt types.Type, typ string, t types.Type, p []string, f *types.Var) {
	e := c.E
	type rec struct {
		st  *eng.State
		idx *eng.Term
		lst *eng.Term
		in  ssa.Instruction
	}
	var w *eng.Term
	lt, what := f.Type(), f.Name()
	unknown := false
	if k, _ := memberKind(f); k == "decodedata" {
		unknown, lt, what = true, jsonTypes()["array"], "a list in an unknown member"
	}
	list := e.Param("list", lt)
	h := c.c20hooks()
	h.Rec = len(p) + 2
	if kind, et := memberKind(f); kind == "objects" {
		// elements with one member which every kind of output shows
		es := et.Underlying().(*types.Struct)
		h.ElemValue = func(a *eng.Term) *eng.Term {
			base := a.Args[0]
			for base.Op == eng.OSlice {
				base = base.Args[0]
			}
			if base != list {
				return nil
			}
			fs := map[string]*eng.Term{}
			for i := 0; i < es.NumFields(); i++ {
				g := es.Field(i)
				if k, _ := memberKind(g); k == "string" && g.Name() != "ObjectClassName" && len(fs) == 0 {
					fs[g.Name()] = e.LoadTerm(e.FieldAddr(a, i, g.Name(), g.Type()), g.Type())
				}
			}
			return e.StructT(et, fs)
		}
	}
	if unknown {
		h.ElemValue = func(a *eng.Term) *eng.Term {
			base := a.Args[0]
			for base.Op == eng.OSlice {
				base = base.Args[0]
			}
			if base != list {
				return nil
			}
			str := types.Typ[types.String]
			return e.IfaceT(e.LoadTerm(e.FieldAddr(a, 0, "text", str), str), str)
		}
	}
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		if ct, ok := c.writesTo(ev, w); ok {
			for _, x := range ct {
				x.Walk(func(y *eng.Term) bool {
					l, i, ok := elemAccess(y)
					if !ok {
						return true
					}
					base := l
					for base.Op == eng.OSlice {
						base = base.Args[0]
					}
					if base == list {
						e.Emit(rec{st.Clone(), i, l, ev.Instr})
					}
					return true
				})
			}
		}
	}
	outs, recs, ok := c.Run("loops", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		ps = append([]*eng.Term{}, ps...)
		w = e.Param("w", c.fieldType(pt, "Writer"))
		c.assumeNil(st, w, false)
		c.assumeNil(st, ps[0], false)
		e.Store(st, ps[0], e.StructT(pt, map[string]*eng.Term{"Writer": w}), pt)
		root := &pnode{typ: typ}
		x := list
		if unknown {
			x = c.pdecodeList(st, f, list)
		}
		v := c.pbuildWith(st, t, root, p, f.Name(), x)
		q := e.Param("obj", types.NewPointer(t))
		c.assumeNil(st, q, false)
		e.Store(st, q, v, t)
		ps[1] = e.IfaceT(q, types.NewPointer(t))
		return ps
	})
	_ = outs
	if !ok {
		return
	}
	n, open := 0, ""
	for _, x := range recs {
		r, ok := x.(rec)
		if !ok || r.st.Dead {
			continue
		}
		n++
		if r.lst.Op == eng.OSlice && r.lst != list {
			if hi := r.lst.Args[2]; hi != nil && hi != e.Len(list) || r.lst.Args[1] != nil && !isZero(r.lst.Args[1]) {
				c.Bad("loops", r.in.Parent(), posOf(r.in), "only a part of %s%v.%s is shown", typ, p, what)
				return
			}
		}
		switch d, why := c.fullRange(r.st, r.lst, r.idx); d {
		case -1:
			c.Bad("loops", r.in.Parent(), posOf(r.in), "not all of %s%v.%s is shown: %s", typ, p, what, why)
			return
		case 0:
			open = why
		}
	}
	if open != "" {
		c.Unknown("loops", "%s%v.%s: %s", typ, p, what, open)
		return
	}
	if n == 0 {
		c.Unknown("loops", "%s%v.%s: no output found", typ, p, what)
		return
	}
	c.Ok("loops", "all elements of %s%v.%s are shown", typ, p, what)
}

func (c *Ctx) fieldType(t types.Type, name string) types.Type {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return types.Universe.Lookup("any").Type()
}

// pbuildWith builds an object which holds only a given value, at a path.
func (c *Ctx) pbuildWith(st *eng.State, t types.Type, n *pnode, p []string, member string, v *eng.Term) *eng.Term {
	e := c.E
	if len(p) == 0 {
		return e.StructT(t, map[string]*eng.Term{member: v})
	}
	ft := c.fieldType(t, p[0])
	name := n.path() + "." + p[0]
	kid := &pnode{member: p[0], parent: n}
	var x *eng.Term
	switch u := ft.Underlying().(type) {
	case *types.Pointer:
		x = e.Param(name, ft)
		c.assumeNil(st, x, false)
		e.Store(st, x, c.pbuildWith(st, u.Elem(), kid, p[1:], member, v), u.Elem())
	case *types.Slice:
		x = c.listT(st, name, ft, []*eng.Term{c.pbuildWith(st, u.Elem(), kid, p[1:], member, v)})
	}
	return e.StructT(t, map[string]*eng.Term{p[0]: x})
}

// printOther: values which are no objects are accepted.
func (c *Ctx) printOther() {
	fn := c.Func(pkgRdap, "*Printer.Print")
	if fn == nil {
		return
	}
	e := c.E
	for _, what := range []string{"nil", "a string"} {
		outs, _, ok := c.Run("other", fn, c.c20hooks(), func(st *eng.State, ps []*eng.Term) []*eng.Term {
			ps = append([]*eng.Term{}, ps...)
			c.assumeNil(st, ps[0], false)
			ps[1] = e.Nil()
			if what != "nil" {
				ps[1] = e.IfaceT(e.Param("s", types.Typ[types.String]), types.Typ[types.String])
			}
			return ps
		})
		if !ok {
			continue
		}
		good := c.returns("other", fn, outs, "printing "+what)
		for _, o := range outs {
			if o.Panic && !o.St.Dead {
				good = false
				c.Bad("other", fn, posOf(o.In), "printing %s panics", what)
			}
		}
		if good {
			c.Ok("other", "printing %s returns", what)
		}
	}
}

// ---- C24 ----

func runC24(c *Ctx) {
	depth := 2
	if c.Deep {
		depth = 3
	}
	for _, typ := range tops {
		paths, ends := c.ppaths(typ, depth)
		for i, p := range paths {
			for m := 1; m < 16; m++ {
				if !c.Deep && len(p) == depth && m != 1 && m != 2 && m != 4 && m != 8 && m != 15 {
					continue
				}
				o := popts{omitNotices: m&1 > 0, omitRemarks: m&2 > 0, brief: m&4 > 0, briefLinks: m&8 > 0}
				c.printCase("options", typ, p, o, atPath(p, 2, 0), "members of "+ends[i])
				if len(p) < depth {
					c.printCase("unknowns", typ, p, o, atPath(p, 0, 1), "unknown member of "+ends[i])
				}
			}
		}
	}
}

// ---- C22 ----

const ctlChars = "\n\r\x00"

func runC22(c *Ctx) {
	depth := 2
	if c.Deep {
		depth = 3
	}
	for _, typ := range tops {
		paths, ends := c.ppaths(typ, depth)
		for i, p := range paths {
			for _, ch := range ctlChars {
				for dd := 1; dd <= 2; dd++ {
					if dd == 2 && len(p) > 1 {
						continue
					}
					for _, bl := range []bool{false, true} {
						if bl && (dd == 2 || ends[i] == "Link") {
							continue
						}
						c.cleanCase(typ, p, popts{bad: string(ch), briefLinks: bl}, atPath(p, 1, dd), false)
					}
				}
			}
		}
	}
	c.whoisClean()
}

// scansText: does a function that was analysed look at the characters of texts
// one by one?
func (c *Ctx) scansText() bool {
	for f := range c.E.Entered {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Range:
					if isStringT(x.X.Type()) {
						return true
					}
				case *ssa.Lookup:
					if isStringT(x.X.Type()) {
						return true
					}
				case *ssa.Index:
					if isStringT(x.X.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *Ctx) cleanCase(typ string, p []string, o popts, spec pspec, one bool) {
	root, rs, ok := c.print("clean", typ, o, spec)
	if !ok {
		if !one {
			c.eachMember(typ, p, spec, func(sp pspec, m string) { c.cleanCase(typ, p, o, sp, true) })
		}
		return
	}
	scan := c.scansText()
	for _, r := range rs {
		good := true
		parts := []*eng.Term{r.text}
		if r.text.Op == eng.OConcat {
			parts = r.text.Args
		}
		for _, l := range root.allLeaves() {
			if l.kind != "string" {
				continue
			}
			for _, x := range parts {
				if !x.Contains(l.term) {
					continue
				}
				d := c.tainted(r.st, x, l.term, o.bad)
				if d == 1 && (scan || queried(r.st, l.term)) {
					d = 0
				}
				switch d {
				case 1:
					good = false
					c.Bad("clean", c.printFn(root), 0, "%q in %s reaches the output: %s", o.bad, leafKind(l), short(x))
				case 0:
					good = false
					c.Unknown("clean", "%s of %s%v: %s", leafKind(l), typ, p, short(x))
				}
			}
		}
		if r.fuzzy {
			good = false
			c.Unknown("clean", "output of %s%v", typ, p)
		}
		if good {
			c.Ok("clean", "%s%v with %q", typ, p, o.bad)
		}
	}
}

func leafKind(l *pleaf) string { return l.node.typ + "." + l.member }

// queried: is there a condition about a text on the path which the scenario
// did not decide?
func queried(st *eng.State, x *eng.Term) bool {
	for _, t := range st.FactTerms() {
		if !t.Contains(x) || t == x {
			continue
		}
		if t.Op == eng.OCall && !strings.HasPrefix(t.S, "strings.Contains") && !strings.HasPrefix(t.S, "strings.Index") && !strings.HasPrefix(t.S, "strings.Map") && !strings.HasPrefix(t.S, "strings.Has") {
			return true
		}
	}
	return false
}

// tainted: can the character get from src into the text t? 1, -1, 0 unknown.
func (c *Ctx) tainted(st *eng.State, t, src *eng.Term, ch string) int {
	if t == src {
		return 1
	}
	if !t.Contains(src) {
		return -1
	}
	any := func(l []*eng.Term) int {
		r := -1
		for _, a := range l {
			switch c.tainted(st, a, src, ch) {
			case 1:
				return 1
			case 0:
				r = 0
			}
		}
		return r
	}
	clean := func(s string) bool { return !strings.ContainsAny(s, ctlChars) }
	switch t.Op {
	case eng.OConcat, eng.OConv:
		return any(t.Args)
	case eng.OSlice:
		return c.tainted(st, t.Args[0], src, ch)
	case eng.OFmt:
		switch {
		case strings.HasSuffix(t.S, "q"), strings.HasSuffix(t.S, "x"), strings.HasSuffix(t.S, "X"):
			return -1
		case strings.HasSuffix(t.S, "s"), strings.HasSuffix(t.S, "v"):
			return any(t.Args)
		}
		return 0
	case eng.OCall:
		switch t.S {
		case "strings.Map":
			r, ok := c.applyRune(st, t.Args[0], ch)
			if !ok {
				return 0
			}
			n, ok := r.Int()
			if !ok {
				return 0
			}
			if n < 0 || n > 0x10ffff || clean(string(rune(n))) {
				return -1
			}
			return c.tainted(st, t.Args[1], src, ch)
		case "strings.ReplaceAll", "strings.Replace":
			old, ok1 := t.Args[1].Str()
			nw, ok2 := t.Args[2].Str()
			if !ok1 || !ok2 {
				return 0
			}
			all := true
			if len(t.Args) > 3 {
				n, ok := t.Args[3].Int()
				all = ok && n < 0
			}
			if old == ch && all && clean(nw) {
				return -1
			}
			return c.tainted(st, t.Args[0], src, ch)
		case "(*strings.Replacer).Replace":
			return c.replacer(st, t, src, ch)
		case "strconv.Quote", "strconv.QuoteToASCII", "strconv.QuoteToGraphic", "net/url.QueryEscape", "net/url.PathEscape":
			return -1
		case "strings.TrimSpace", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc", "strings.ToLower", "strings.ToUpper", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Clone", "strings.ToValidUTF8":
			return c.tainted(st, t.Args[0], src, ch)
		case "fmt.Sprintf", "fmt.Sprint":
			return 0
		}
	}
	return 0
}

func (c *Ctx) replacer(st *eng.State, t, src *eng.Term, ch string) int {
	d := c.tainted(st, t.Args[1], src, ch)
	if d == -1 {
		return -1
	}
	r := t.Args[0]
	var l []*eng.Term
	r.Walk(func(x *eng.Term) bool {
		if x.Op == eng.OCall && x.S == "strings.NewReplacer" && l == nil {
			for _, a := range x.Args {
				if els := c.E.Elems(st, a); els != nil && len(els) > 0 {
					l = append(l, els...)
				} else {
					l = append(l, a)
				}
			}
		}
		return l == nil
	})
	for i := 0; i+1 < len(l); i += 2 {
		a, ok1 := l[i].Str()
		b, ok2 := l[i+1].Str()
		if !ok1 || !ok2 {
			return 0
		}
		if a == ch && !strings.ContainsAny(b, ctlChars) {
			return -1
		}
	}
	if len(l) < 2 {
		return 0
	}
	return d
}

// whoisClean: the values of the WHOIS view.
func (c *Ctx) whoisClean() {
	for _, chr := range ctlChars {
		ch := string(chr)
		type rec struct {
			st *eng.State
			ev *eng.Event
			ct []*eng.Term
		}
		s := &cliScn{name: "whois", args: 1, sandbox: -1, flags: map[string]string{"whois": "true", "type": "domain"}, doOK: 1}
		var w, stdout *eng.Term
		isVal := func(x *eng.Term) bool {
			l, _, ok := elemAccess(x)
			return ok && w != nil && l.Op == eng.OMapGet && l.Contains(w)
		}
		s.setup = func(st *eng.State, ps []*eng.Term) { stdout = ps[1] }
		s.onCall = func(st *eng.State, ev *eng.Event) {
			if ev.Key == kWhois {
				w = ev.Res
				c.assumeNil(st, w, false)
				return
			}
			c.badQuery(st, ev, ch, isVal)
			if ct, ok := c.writesTo(ev, stdout); ok && w != nil {
				c.E.Emit(rec{st.Freeze(), ev, ct})
			}
		}
		o := c.cli("whois", s)
		if o == nil {
			continue
		}
		n := 0
		scan := false
		for _, x := range o.recs {
			r := x.(rec)
			for _, t := range r.ct {
				t.Walk(func(v *eng.Term) bool {
					if !isVal(v) {
						return true
					}
					n++
					d := c.tainted(r.st, t, v, ch)
					if d == 1 && (scan || queried(r.st, v)) {
						d = 0
					}
					c.verdict(d*-1, "whois", r.ev.Fn, "WHOIS values are cleaned", "%q in a value of the WHOIS view reaches the output", ch)
					return false
				})
			}
		}
		if n == 0 {
			c.Unknown("whois", "no WHOIS values in the output")
		}
	}
}
