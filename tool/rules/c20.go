package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C20", Run: runC20, Floor: 60,
		Method:      "Abstract interpretation of the vCard parser and accessors over classes of cards: each class fixes the shape of the document (array lengths, JSON kinds, property names and types) and leaves all texts and numbers symbolic; the resulting objects and texts are compared with the documented ones. The loops over properties and values are also analysed without fixing their number.",
		Assumptions: []string{"encoding/json, strconv and strings behave as documented"}})
}

// jshape is a JSON value of known shape.
type jshape struct {
	kind  string // null bool number string array object
	text  string // fixed text of a string
	elems []*jshape
	keys  []string
	t     *eng.Term // what was built
	any   *eng.Term
}

func jS(text string) *jshape  { return &jshape{kind: "string", text: text} }
func jK(kind string) *jshape  { return &jshape{kind: kind} }
func jA(e ...*jshape) *jshape { return &jshape{kind: "array", elems: e} }
func jO(kv ...any) *jshape {
	s := &jshape{kind: "object"}
	for i := 0; i < len(kv); i += 2 {
		s.keys = append(s.keys, kv[i].(string))
		s.elems = append(s.elems, kv[i+1].(*jshape))
	}
	return s
}

// build makes the term of a shape (of type any).
func (c *Ctx) jbuild(st *eng.State, name string, s *jshape) *eng.Term {
	e := c.E
	jt := jsonTypes()[s.kind]
	switch s.kind {
	case "null":
		s.t, s.any = e.Nil(), e.Nil()
		return e.Nil()
	case "string":
		if s.text != "" {
			s.t = e.StrC(s.text)
		} else {
			s.t = e.Param(name, jt)
		}
	case "bool", "number":
		s.t = e.Param(name, jt)
	case "array":
		var l []*eng.Term
		for i, x := range s.elems {
			l = append(l, c.jbuild(st, fmt.Sprintf("%s.%d", name, i), x))
		}
		s.t = c.listT(st, name, jt, l)
	case "object":
		s.t = e.Param(name, jt)
		c.assumeNil(st, s.t, false)
		m := e.MapContent(st, e.Nil())
		for i, k := range s.keys {
			m = e.MapUpd(m, e.StrC(k), c.jbuild(st, name+"."+k, s.elems[i]))
		}
		e.SetMapContent(st, s.t, m)
	}
	s.any = e.IfaceT(s.t, jt)
	return s.any
}

// listT makes a slice with known elements.
func (c *Ctx) listT(st *eng.State, name string, t types.Type, l []*eng.Term) *eng.Term {
	e := c.E
	p := e.Param(name, t)
	et := t.Underlying().(*types.Slice).Elem()
	c.assume(st, e.Eq(e.Len(p), e.IntC(int64(len(l)))), true)
	if len(l) > 0 {
		c.assumeNil(st, p, false)
	}
	for i, x := range l {
		e.Store(st, e.IndexAddr(p, e.IntC(int64(i)), et), x, et)
	}
	return p
}

// seq lists the elements of a slice of decided length.
func (c *Ctx) seq(st *eng.State, x *eng.Term) ([]*eng.Term, bool) {
	return c.E.KnownElems(st, x)
}

// ---- expectations ----

func (c *Ctx) c20hooks() *eng.Hooks { return &eng.Hooks{PeelConst: 60, Rec: 8, Steps: 3000000} }

// flat lists the texts a value flattens to.
func (s *jshape) flat() []*jshape {
	if s.kind != "array" {
		return []*jshape{s}
	}
	var r []*jshape
	for _, x := range s.elems {
		r = append(r, x.flat()...)
	}
	return r
}

// textOf is the text of a scalar value.
func (c *Ctx) jtext(st *eng.State, s *jshape) *eng.Term {
	e := c.E
	switch s.kind {
	case "null":
		return e.StrC("")
	case "bool":
		switch e.Decide(st, s.t) {
		case 1:
			return e.StrC("true")
		case -1:
			return e.StrC("false")
		}
		return e.Fmt("%t", s.t)
	case "number":
		return e.CallT("strconv.FormatFloat", types.Typ[types.String], s.t, e.Const(constant.MakeInt64('f'), types.Typ[types.Byte]), e.IntC(-1), e.IntC(64))
	}
	return s.t
}

// pureText: is the term a function of the card's texts alone, without
// anything the analysis could not follow?
func pureText(t *eng.Term) bool {
	if t == nil {
		return true
	}
	switch t.Op {
	case eng.OSym, eng.OJoin, eng.OLoad, eng.OExtract, eng.OMapGet, eng.ORangeVal, eng.ORangeKey, eng.OContents, eng.OAlloc:
		return false
	case eng.OCall:
		if !strings.HasPrefix(t.S, "strings.") && !strings.HasPrefix(t.S, "strconv.") && !strings.HasPrefix(t.S, "fmt.") {
			return false
		}
	}
	for _, a := range t.Args {
		if !pureText(a) {
			return false
		}
	}
	return true
}

// same compares a text with the expected one: 1 same, -1 different, 0 unknown.
func (c *Ctx) same(st *eng.State, got, want *eng.Term) int {
	e := c.E
	if got == nil {
		return 0
	}
	if got == want || got.String() == want.String() {
		return 1
	}
	if d := e.Decide(st, e.Eq(got, want)); d != 0 {
		return d
	}
	if pureText(got) && pureText(want) {
		return -1
	}
	return 0
}

// verdict records the result of a comparison.
func (c *Ctx) verdict(d int, rule string, fn *ssa.Function, good, format string, a ...any) {
	switch d {
	case 1:
		c.Ok(rule, "%s", good)
	case -1:
		c.Bad(rule, fn, fn.Pos(), format, a...)
	default:
		c.Unknown(rule, format, a...)
	}
}

// returns: does any path come back with a result?
func (c *Ctx) returns(rule string, fn *ssa.Function, outs []*eng.Outcome, what string) bool {
	for _, o := range outs {
		if !o.St.Dead {
			return true
		}
	}
	c.Bad(rule, fn, fn.Pos(), "no path returns for %s: it panics", what)
	return false
}

func (s *jshape) String() string {
	switch s.kind {
	case "string":
		if s.text != "" {
			return fmt.Sprintf("%q", s.text)
		}
		return "text"
	case "array":
		var l []string
		for _, x := range s.elems {
			l = append(l, x.String())
		}
		return "[" + strings.Join(l, " ") + "]"
	case "object":
		return "{" + strings.Join(s.keys, " ") + "}"
	}
	return s.kind
}

func strs(n int) []*jshape {
	var r []*jshape
	for i := 0; i < n; i++ {
		r = append(r, jS(""))
	}
	return r
}

func runC20(c *Ctx) {
	c.c20values()
	c.c20accessors()
	c.c20parse()
}

func (c *Ctx) c20values() {
	fn := c.Func(pkgRdap, "*VCardProperty.Values")
	if fn == nil {
		c.Unknown("values", "VCardProperty.Values not found")
		return
	}
	shapes := []*jshape{jS(""), jK("null"), jK("bool"), jK("number"), jA(), jA(strs(3)...), jA(strs(20)...),
		jA(jK("null"), jS(""), jK("number"), jK("bool"), jK("null")),
		jA(jS(""), jA(jS(""), jK("null")), jK("bool"), jK("number")),
		jA(jA(jA(jS(""), jK("number")), jS("")), jA(), jS(""), jA(jK("bool")))}
	for _, sh := range shapes {
		outs, _, ok := c.Run("values", fn, c.c20hooks(), func(st *eng.State, ps []*eng.Term) []*eng.Term {
			c.setField(st, ps[0], "Value", c.jbuild(st, "v", sh))
			return nil
		})
		if !ok {
			continue
		}
		good := c.returns("values", fn, outs, "Values of "+sh.String())
		want := sh.flat()
		for _, o := range outs {
			if o.St.Dead {
				continue
			}
			if o.Panic {
				good = false
				c.Bad("values", fn, posOf(o.In), "Values panics on the value %s", sh)
				continue
			}
			l, ok := c.seq(o.St, o.Rets[0])
			if !ok {
				good = false
				c.Unknown("values", "Values of %s: %s", sh, short(o.Rets[0]))
				continue
			}
			if len(l) != len(want) {
				good = false
				c.Bad("values", fn, fn.Pos(), "Values of %s has %d entries, expected %d", sh, len(l), len(want))
				continue
			}
			for i, x := range l {
				w := c.jtext(o.St, want[i])
				if d := c.same(o.St, x, w); d != 1 {
					good = false
					c.verdict(d, "values", fn, "", "Values of %s: entry %d is %s, expected %s", sh, i, short(x), short(w))
				}
			}
		}
		if good {
			c.Ok("values", "%s flattens in order", sh)
		}
	}
	// any number of values
	e := c.E
	var list *eng.Term
	type rec struct {
		st  *eng.State
		val *eng.Term
		in  ssa.Instruction
	}
	h := &eng.Hooks{Rec: 3, Steps: 3000000}
	h.OnStore = func(st *eng.State, kind string, addr, key, val *eng.Term, fr *eng.Frame, in ssa.Instruction) {
		if kind == "append" && val != nil {
			if l, ok := c.seq(st, val); ok {
				for _, x := range l {
					e.Emit(rec{st.Clone(), x, in})
				}
			}
		}
	}
	_, recs, ok := c.Run("values", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		jt := jsonTypes()["array"]
		list = e.Param("v", jt)
		c.setField(st, ps[0], "Value", e.IfaceT(list, jt))
		return nil
	})
	if !ok {
		return
	}
	for _, r := range recs {
		x, ok := r.(rec)
		if !ok || x.st.Dead {
			continue
		}
		idx := indexInto(x.val, list)
		if idx == nil {
			continue
		}
		if d, why := c.fullRange(x.st, list, idx); d == -1 {
			c.Bad("values", x.in.Parent(), posOf(x.in), "not every element of a value is flattened: %s", why)
		} else if d == 1 {
			c.Ok("values", "every element of a value is flattened")
		}
	}
}

// indexInto finds the index with which list is read in a term.
func indexInto(t, list *eng.Term) *eng.Term {
	if t == nil {
		return nil
	}
	if l, i, ok := elemAccess(t); ok && l == list {
		return i
	}
	for _, a := range t.Args {
		if i := indexInto(a, list); i != nil {
			return i
		}
	}
	return nil
}

// ---- accessors ----

type vprop struct {
	name  string
	types []string // nil: no type parameter
	value *jshape
	t     *eng.Term
}

func (c *Ctx) vcardSetup(st *eng.State, v *eng.Term, props []*vprop) { c.vcardNamed(st, v, props, "") }

func (c *Ctx) vcardNamed(st *eng.State, v *eng.Term, props []*vprop, pre string) {
	e := c.E
	pt := c.typeOf(pkgRdap, "VCardProperty")
	ptr := types.NewPointer(pt)
	ss := types.NewSlice(types.Typ[types.String])
	mt := types.NewMap(types.Typ[types.String], ss)
	var l []*eng.Term
	for i, p := range props {
		p.t = e.Param(fmt.Sprintf("%sp%d", pre, i), ptr)
		c.assumeNil(st, p.t, false)
		c.setField(st, p.t, "Name", e.StrC(p.name))
		m := e.Param(fmt.Sprintf("%sm%d", pre, i), mt)
		c.assumeNil(st, m, false)
		mc := e.MapContent(st, e.Nil())
		if p.types != nil {
			var tl []*eng.Term
			for j, t := range p.types {
				if k, v, ok := strings.Cut(t, "="); ok { // another parameter
					mc = e.MapUpd(mc, e.StrC(k), c.listT(st, fmt.Sprintf("%so%d_%d", pre, i, j), ss, []*eng.Term{e.StrC(v)}))
					continue
				}
				if t == "?" { // any other type
					x := e.Param(fmt.Sprintf("%sq%d_%d", pre, i, j), types.Typ[types.String])
					c.assume(st, e.Eq(x, e.StrC("voice")), false)
					c.assume(st, e.Eq(x, e.StrC("fax")), false)
					tl = append(tl, x)
					continue
				}
				tl = append(tl, e.StrC(t))
			}
			if tl != nil {
				mc = e.MapUpd(mc, e.StrC("type"), c.listT(st, fmt.Sprintf("%st%d", pre, i), ss, tl))
			}
		}
		e.SetMapContent(st, m, mc)
		c.setField(st, p.t, "Parameters", m)
		c.setField(st, p.t, "Value", c.jbuild(st, fmt.Sprintf("%sv%d", pre, i), p.value))
		l = append(l, p.t)
	}
	c.setField(st, v, "Properties", c.listT(st, pre+"props", types.NewSlice(ptr), l))
}

type vcase struct {
	what  string
	props []*vprop
	want  func(p []*vprop) []*jshape // joined with a space
}

func vp(name string, value *jshape, typ ...string) *vprop {
	p := &vprop{name: name, value: value}
	if typ != nil {
		p.types = typ
	}
	return p
}

func (c *Ctx) c20accessors() {
	none := func(p []*vprop) []*jshape { return nil }
	first := func(i int) func(p []*vprop) []*jshape {
		return func(p []*vprop) []*jshape { return p[i].value.flat() }
	}
	// address parts
	for k, m := range []string{"POBox", "ExtendedAddress", "StreetAddress", "Locality", "Region", "PostalCode", "Country"} {
		part := func(i int) func(p []*vprop) []*jshape {
			return func(p []*vprop) []*jshape { return p[i].value.elems[k].flat() }
		}
		multi := strs(7)
		multi[2] = jA(jS(""), jS(""))
		multi[1] = jA()
		short := strs(k)
		if k == 0 {
			short = []*jshape{}
		}
		c.c20cases(m, []vcase{
			{"the first address", []*vprop{vp("fn", jS("")), vp("adr", jA(strs(7)...)), vp("adr", jA(strs(7)...))}, part(1)},
			{"an address with several values in one part", []*vprop{vp("adr", jA(multi...))}, part(0)},
			{"an address which is too short", []*vprop{vp("adr", jA(short...)), vp("tel", jS(""))}, none},
			{"an address which ends with this part", []*vprop{vp("adr", jA(strs(k + 1)...)), vp("tel", jS(""))}, part(0)},
			{"an address without a value first", []*vprop{vp("adr", jK("null")), vp("adr", jA(strs(7)...))}, none},
			{"no address", []*vprop{vp("fn", jS("")), vp("label", jA(strs(7)...))}, none},
			{"an empty card", nil, none},
		})
	}
	for m, p := range map[string]string{"Name": "fn", "Email": "email", "Org": "org"} {
		c.c20cases(m, []vcase{
			{"the first " + p, []*vprop{vp("version", jS("")), vp(p, jS("")), vp(p, jS(""))}, first(1)},
			{"a structured " + p, []*vprop{vp(p, jA(strs(2)...)), vp("note", jS(""))}, first(0)},
			{"a " + p + " without a value first", []*vprop{vp(p, jK("null")), vp(p, jS(""))}, first(0)},
			{"no " + p, []*vprop{vp("version", jS("")), vp("nickname", jS(""))}, none},
			{"an empty card", nil, none},
		})
	}
	val := func(i int) func(p []*vprop) []*jshape {
		return func(p []*vprop) []*jshape { return p[i].value.flat()[:1] }
	}
	c.c20cases("Tel", []vcase{
		{"an untyped number", []*vprop{vp("fn", jS("")), vp("tel", jS("")), vp("tel", jS(""), "voice")}, val(1)},
		{"a fax number first", []*vprop{vp("tel", jS(""), "fax"), vp("tel", jS(""), "work", "voice"), vp("tel", jS(""), "voice")}, val(1)},
		{"a fax number and an untyped number", []*vprop{vp("tel", jS(""), "fax"), vp("tel", jS(""))}, val(1)},
		{"a number of another type first", []*vprop{vp("tel", jS(""), "?"), vp("tel", jS(""), "?", "voice"), vp("tel", jS(""))}, val(1)},
		{"cell, pager and text numbers", []*vprop{vp("tel", jS(""), "cell"), vp("tel", jS(""), "pager"), vp("tel", jS(""), "text", "video"), vp("tel", jS(""), "work"), vp("tel", jS(""), "main"), vp("tel", jS(""), "")}, none},
		{"an untyped number with a preference", []*vprop{vp("tel", jS(""), "fax"), vp("tel", jS(""), "pref=1"), vp("tel", jS(""), "voice")}, val(1)},
		{"a typed number with a preference last", []*vprop{vp("tel", jS(""), "voice", "pref=2"), vp("tel", jS(""), "voice", "pref=1")}, val(0)},
		{"a number for voice and fax", []*vprop{vp("tel", jS(""), "fax", "voice"), vp("tel", jS(""), "voice")}, val(0)},
		{"fax numbers only", []*vprop{vp("tel", jS(""), "fax"), vp("tel", jS(""), "work", "fax")}, none},
		{"several values", []*vprop{vp("tel", jA(jS(""), jS("")), "voice")}, val(0)},
		{"a number without values first", []*vprop{vp("tel", jA(), "voice"), vp("tel", jS(""), "voice")}, val(1)},
		{"an untyped number without values first", []*vprop{vp("tel", jA()), vp("tel", jS(""))}, val(1)},
		{"no number", []*vprop{vp("fn", jS("")), vp("email", jS(""), "voice")}, none},
		{"an empty card", nil, none},
	})
	c.c20cases("Fax", []vcase{
		{"a voice number first", []*vprop{vp("tel", jS(""), "voice"), vp("tel", jS(""), "work", "fax"), vp("tel", jS(""), "fax")}, val(1)},
		{"an untyped number first", []*vprop{vp("tel", jS("")), vp("tel", jS(""), "fax", "work")}, val(1)},
		{"a number of another type first", []*vprop{vp("tel", jS(""), "?"), vp("tel", jS(""), "?", "fax"), vp("tel", jS(""), "fax")}, val(1)},
		{"a number for voice and fax", []*vprop{vp("tel", jS(""), "voice", "fax"), vp("tel", jS(""), "fax")}, val(0)},
		{"typed numbers with a preference", []*vprop{vp("tel", jS(""), "fax", "pref=2"), vp("tel", jS(""), "fax", "pref=1")}, val(0)},
		{"cell, pager and text numbers", []*vprop{vp("tel", jS(""), "cell"), vp("tel", jS(""), "pager"), vp("tel", jS(""), "text"), vp("tel", jS(""), "work"), vp("tel", jS(""), "faxmodem")}, none},
		{"voice numbers only", []*vprop{vp("tel", jS(""), "voice"), vp("tel", jS(""))}, none},
		{"several values", []*vprop{vp("tel", jA(jS(""), jS("")), "fax")}, val(0)},
		{"a fax number without values first", []*vprop{vp("tel", jA(), "fax"), vp("tel", jS(""), "fax")}, val(1)},
		{"no number", []*vprop{vp("fn", jS("")), vp("email", jS(""), "fax")}, none},
		{"an empty card", nil, none},
	})
	c.c20get()
}

func (c *Ctx) c20cases(m string, cases []vcase) {
	e := c.E
	fn := c.Func(pkgRdap, "*VCard."+m)
	if fn == nil {
		c.Unknown("accessor", "VCard.%s not found", m)
		return
	}
	for _, cs := range cases {
		outs, _, ok := c.Run("accessor", fn, c.c20hooks(), func(st *eng.State, ps []*eng.Term) []*eng.Term {
			c.vcardSetup(st, ps[0], cs.props)
			return nil
		})
		if !ok {
			continue
		}
		good := c.returns("accessor", fn, outs, m+" of a card with "+cs.what)
		for _, o := range outs {
			if o.St.Dead {
				continue
			}
			if o.Panic {
				good = false
				c.Bad("accessor", fn, posOf(o.In), "%s panics for %s", m, cs.what)
				continue
			}
			var parts []*eng.Term
			for i, s := range cs.want(cs.props) {
				if i > 0 {
					parts = append(parts, e.StrC(" "))
				}
				parts = append(parts, c.jtext(o.St, s))
			}
			want := e.Concat(parts...)
			if len(parts) == 0 {
				want = e.StrC("")
			}
			if d := c.same(o.St, o.Rets[0], want); d != 1 {
				good = false
				c.verdict(d, "accessor", fn, "", "%s of a card with %s is %s, expected %s", m, cs.what, short(o.Rets[0]), short(want))
			}
		}
		if good {
			c.Ok("accessor", "%s: %s", m, cs.what)
		}
	}
}

// c20get: Get lists the properties of a name in order, GetFirst the first.
func (c *Ctx) c20get() {
	e := c.E
	for _, m := range []string{"Get", "GetFirst"} {
		fn := c.Func(pkgRdap, "*VCard."+m)
		if fn == nil {
			c.Unknown("get", "VCard.%s not found", m)
			continue
		}
		for _, names := range [][]string{{"a", "b", "a", "a"}, {"ab", "A", "ba", "a"}, {"b", "a"}, {"b", "c"}, {}} {
			var props []*vprop
			for _, n := range names {
				if len(names) == 4 && len(props) == 2 {
					props = append(props, vp(n, jK("null")))
					continue
				}
				props = append(props, vp(n, jS("")))
			}
			outs, _, ok := c.Run("get", fn, c.c20hooks(), func(st *eng.State, ps []*eng.Term) []*eng.Term {
				c.vcardSetup(st, ps[0], props)
				return []*eng.Term{ps[0], e.StrC("a")}
			})
			if !ok {
				continue
			}
			var want []*eng.Term
			for _, p := range props {
				if p.name == "a" {
					want = append(want, p.t)
				}
			}
			good := c.returns("get", fn, outs, m)
			for _, o := range outs {
				if o.St.Dead {
					continue
				}
				if o.Panic {
					good = false
					c.Bad("get", fn, posOf(o.In), "%s panics", m)
					continue
				}
				if m == "GetFirst" {
					w := e.Nil()
					if len(want) > 0 {
						w = want[0]
					}
					if d := c.same(o.St, o.Rets[0], w); d != 1 {
						good = false
						c.verdict(d, "get", fn, "", "GetFirst(a) of properties %v is %s, expected %s", names, short(o.Rets[0]), short(w))
					}
					continue
				}
				l, ok := c.seq(o.St, o.Rets[0])
				if !ok {
					good = false
					c.Unknown("get", "Get: %s", short(o.Rets[0]))
					continue
				}
				if len(l) != len(want) {
					good = false
					c.Bad("get", fn, fn.Pos(), "Get(a) of properties %v has %d entries, expected %d", names, len(l), len(want))
					continue
				}
				for i := range l {
					if d := c.same(o.St, l[i], want[i]); d != 1 {
						good = false
						c.verdict(d, "get", fn, "", "Get(a) of properties %v: entry %d is %s, expected %s", names, i, short(l[i]), short(want[i]))
					}
				}
			}
			if good {
				c.Ok("get", "%s of properties %v", m, names)
			}
		}
	}
}

// ---- parsing ----

func goodProp() *jshape { return jA(jS(""), jO(), jS(""), jS("")) }

func kindsBut(not string) []*jshape {
	var r []*jshape
	for _, k := range []string{"null", "bool", "number", "string", "array", "object"} {
		if k == not {
			continue
		}
		switch k {
		case "array":
			r = append(r, jA(jS("")))
		case "object":
			r = append(r, jO())
		default:
			r = append(r, jK(k))
		}
	}
	return r
}

// vcardParse analyses NewVCardWithOptions for a document of known shape
// (nil: the document is not JSON).
func (c *Ctx) vcardParse(doc *jshape, skip bool) (*ssa.Function, []*eng.Outcome, bool) {
	e := c.E
	fn := c.Func(pkgRdap, "NewVCardWithOptions")
	if fn == nil {
		c.Unknown("parse", "NewVCardWithOptions not found")
		return nil, nil, false
	}
	ot := c.typeOf(pkgRdap, "VCardOptions")
	bound := true
	h := c.c20hooks()
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		if ev.Key != "encoding/json.Unmarshal" || len(ev.Args) < 2 {
			return
		}
		if doc == nil {
			c.assumeNil(st, ev.Res, false)
			return
		}
		p := ev.Args[1]
		if p.Op == eng.OIface {
			p = p.Args[0]
		}
		pt, ok := p.T.Underlying().(*types.Pointer)
		if !ok {
			bound = false
			return
		}
		v := c.jbuild(st, "doc", doc)
		switch typeStr(pt.Elem()) {
		case "[]any", "[]interface{}":
			if doc.kind == "null" {
				c.assumeNil(st, ev.Res, true)
				e.Store(st, p, e.Nil(), pt.Elem())
				return
			}
			if doc.kind != "array" {
				c.assumeNil(st, ev.Res, false)
				return
			}
			c.assumeNil(st, ev.Res, true)
			e.Store(st, p, doc.t, pt.Elem())
		case "any", "interface{}":
			c.assumeNil(st, ev.Res, true)
			e.Store(st, p, v, pt.Elem())
		default:
			bound = false
		}
	}
	outs, _, ok := c.Run("parse", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		return []*eng.Term{ps[0], e.StructT(ot, map[string]*eng.Term{"IgnoreInvalidProperties": e.BoolC(skip)})}
	})
	if ok && !bound {
		c.Unknown("parse", "the document is read into another type")
		return fn, nil, false
	}
	return fn, outs, ok
}

// mustFail: the document is rejected.
func (c *Ctx) mustFail(doc *jshape, what string) {
	for _, skip := range []bool{false, true} {
		fn, outs, ok := c.vcardParse(doc, skip)
		if !ok {
			continue
		}
		good := c.returns("reject", fn, outs, what)
		for _, o := range outs {
			if o.St.Dead {
				continue
			}
			if o.Panic {
				good = false
				c.Bad("reject", fn, posOf(o.In), "a document with %s panics", what)
				continue
			}
			switch c.E.Decide(o.St, c.E.Eq(o.Rets[1], c.E.Nil())) {
			case 1:
				good = false
				c.Bad("reject", fn, fn.Pos(), "a document with %s is accepted (skipping invalid properties: %v)", what, skip)
			case 0:
				good = false
				c.Unknown("reject", "%s: error %s", what, short(o.Rets[1]))
			}
		}
		if good {
			c.Ok("reject", "%s is rejected", what)
		}
	}
}

// mustGive: the document is accepted with exactly the given properties.
func (c *Ctx) mustGive(doc *jshape, skip bool, what string, props []*jshape) {
	fn, outs, ok := c.vcardParse(doc, skip)
	if !ok {
		return
	}
	e := c.E
	good := c.returns("accept", fn, outs, what)
	for _, o := range outs {
		if o.St.Dead {
			continue
		}
		if o.Panic {
			good = false
			c.Bad("accept", fn, posOf(o.In), "a card with %s panics", what)
			continue
		}
		switch e.Decide(o.St, e.Eq(o.Rets[1], e.Nil())) {
		case -1:
			good = false
			c.Bad("accept", fn, fn.Pos(), "a card with %s is rejected (%s)", what, short(o.Rets[1]))
			continue
		case 0:
			good = false
			c.Unknown("accept", "%s: error %s", what, short(o.Rets[1]))
			continue
		}
		pl := c.Field(o.St, o.Rets[0], "Properties")
		l, ok := c.seq(o.St, pl)
		if !ok {
			good = false
			c.Unknown("accept", "%s: properties %s", what, short(pl))
			continue
		}
		if len(l) != len(props) {
			good = false
			c.Bad("accept", fn, fn.Pos(), "a card with %s gives %d properties, expected %d", what, len(l), len(props))
			continue
		}
		for i, p := range l {
			s := props[i]
			for _, f := range []struct {
				n string
				s *jshape
			}{{"Name", s.elems[0]}, {"Type", s.elems[2]}} {
				got := c.Field(o.St, p, f.n)
				if d := c.same(o.St, got, f.s.t); d != 1 {
					good = false
					c.verdict(d, "accept", fn, "", "a card with %s: %s of property %d is %s, expected %s", what, f.n, i, short(got), short(f.s.t))
				}
			}
			if d, why := c.sameParams(o.St, c.Field(o.St, p, "Parameters"), s.elems[1]); d != 1 {
				good = false
				c.verdict(d, "accept", fn, "", "a card with %s: parameters of property %d: %s", what, i, why)
			}
			v := s.elems[3]
			if len(s.elems) > 4 {
				v = jA(s.elems[3:]...)
			}
			got := c.Field(o.St, p, "Value")
			if d, why := c.sameValue(o.St, got, v); d != 1 {
				good = false
				c.verdict(d, "accept", fn, "", "a card with %s: value of property %d: %s", what, i, why)
			}
		}
	}
	if good {
		c.Ok("accept", "%s is accepted as documented", what)
	}
}

// sameValue compares a value with a shape.
func (c *Ctx) sameValue(st *eng.State, got *eng.Term, s *jshape) (int, string) {
	e := c.E
	if got == nil {
		return 0, "not found"
	}
	if s.any != nil && got == s.any {
		return 1, ""
	}
	if s.kind == "null" {
		d := e.Decide(st, e.Eq(got, e.Nil()))
		return d, short(got) + " for null"
	}
	if got.Op != eng.OIface {
		if got.IsNil() {
			return -1, "null for " + s.kind
		}
		return 0, short(got)
	}
	if typeStr(got.T) != typeStr(jsonTypes()[s.kind]) {
		return -1, typeStr(got.T) + " for " + s.kind
	}
	if s.kind != "array" {
		d := c.same(st, got.Args[0], s.t)
		return d, short(got.Args[0]) + " for " + short(s.t)
	}
	l, ok := c.seq(st, got.Args[0])
	if !ok {
		return 0, short(got)
	}
	if len(l) != len(s.elems) {
		return -1, fmt.Sprintf("%d elements for %d", len(l), len(s.elems))
	}
	for i := range l {
		if d, why := c.sameValue(st, l[i], s.elems[i]); d != 1 {
			return d, why
		}
	}
	return 1, ""
}

func (c *Ctx) c20parse() {
	card := func(props ...*jshape) *jshape { return jA(jS("vcard"), jA(props...)) }
	c.mustFail(nil, "invalid JSON")
	for _, k := range kindsBut("array") {
		c.mustFail(k, "a "+k.kind+" as document")
	}
	c.mustFail(jA(), "an empty array")
	c.mustFail(jA(jS("vcard")), "no property array")
	c.mustFail(jA(jS("vcard"), jA(goodProp()), jA()), "three top level elements")
	for _, t := range []string{"VCARD", "vcards", "jcard", " vcard"} {
		c.mustFail(jA(jS(t), jA(goodProp())), "the tag "+t)
	}
	for _, k := range kindsBut("string") {
		c.mustFail(jA(k, jA(goodProp())), "a "+k.kind+" as tag")
	}
	for _, k := range kindsBut("array") {
		c.mustFail(jA(jS("vcard"), k), "a "+k.kind+" as property array")
	}
	// valid cards
	give := func(what string, props ...*jshape) {
		c.mustGive(card(props...), false, what, props)
		c.mustGive(card(props...), true, what, props)
	}
	give("no properties")
	give("three properties", goodProp(), goodProp(), goodProp())
	val := func(v ...*jshape) *jshape { return jA(append([]*jshape{jS(""), jO(), jS("")}, v...)...) }
	give("values of every kind", val(jK("null")), val(jK("bool")), val(jK("number")), val(jA(jS(""), jK("null"), jK("number"), jK("bool"))), val(jA()))
	give("a structured value", val(jA(jS(""), jA(jS(""), jS("")), jK("null"))))
	give("several values", val(jS(""), jS(""), jK("number")))
	par := func(kv ...any) *jshape { return jA(jS(""), jO(kv...), jS(""), jS("")) }
	give("parameters", par("type", jS("")), par("type", jA(jS(""), jS("")), "pref", jS("")), par("label", jS(""), "type", jA(jS(""))), par())
	// invalid properties
	bad := map[string]*jshape{}
	for _, k := range kindsBut("array") {
		bad["a property which is a "+k.kind] = k
	}
	for n := 0; n < 4; n++ {
		bad[fmt.Sprintf("a property with %d elements", n)] = jA(goodProp().elems[:n]...)
	}
	for _, k := range kindsBut("string") {
		bad["a property whose name is a "+k.kind] = jA(k, jO(), jS(""), jS(""))
		bad["a property whose type is a "+k.kind] = jA(jS(""), jO(), k, jS(""))
	}
	for _, k := range kindsBut("object") {
		bad["a property whose parameters are a "+k.kind] = jA(jS(""), k, jS(""), jS(""))
	}
	bad["an object as value"] = val(jO())
	bad["an object inside a value"] = val(jA(jS(""), jO()))
	bad["an object as second value"] = val(jS(""), jO())
	var names []string
	for k := range bad {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		p := bad[k]
		a, b := goodProp(), goodProp()
		c.badProp(card(a, p, b), k)
		c.mustGive(card(a, p, b), true, k, []*jshape{a, b})
		c.badProp(card(p, b), k)
		c.mustGive(card(p, b), true, k, []*jshape{b})
		c.badProp(card(a, p), k)
		c.mustGive(card(a, p), true, k, []*jshape{a})
	}
	c.c20long()
}

// badProp: an invalid property fails the card unless skipping was asked for.
func (c *Ctx) badProp(doc *jshape, what string) {
	fn, outs, ok := c.vcardParse(doc, false)
	if !ok {
		return
	}
	good := c.returns("invalid", fn, outs, what)
	for _, o := range outs {
		if o.St.Dead {
			continue
		}
		if o.Panic {
			good = false
			c.Bad("invalid", fn, posOf(o.In), "a card with %s panics", what)
			continue
		}
		switch c.E.Decide(o.St, c.E.Eq(o.Rets[1], c.E.Nil())) {
		case 1:
			good = false
			c.Bad("invalid", fn, fn.Pos(), "a card with %s is accepted", what)
		case 0:
			good = false
			c.Unknown("invalid", "%s: error %s", what, short(o.Rets[1]))
		}
	}
	if good {
		c.Ok("invalid", "%s fails the card", what)
	}
}

// sameParams compares parameters: a text counts as a list of one.
func (c *Ctx) sameParams(st *eng.State, m *eng.Term, s *jshape) (int, string) {
	e := c.E
	if m == nil {
		return 0, "not found"
	}
	mc := e.MapContent(st, m)
	vt := types.NewSlice(types.Typ[types.String])
	for i, k := range s.keys {
		v, has := e.MapLookup(st, mc, e.StrC(k), vt)
		if d := e.Decide(st, has); d != 1 {
			return d, k + " is missing"
		}
		want := s.elems[i].elems
		if s.elems[i].kind == "string" {
			want = []*jshape{s.elems[i]}
		}
		l, ok := c.seq(st, v)
		if !ok {
			if pureText(v) {
				return -1, fmt.Sprintf("%s is %s", k, short(v))
			}
			return 0, short(v)
		}
		if len(l) != len(want) {
			return -1, fmt.Sprintf("%s has %d values, expected %d", k, len(l), len(want))
		}
		for j := range l {
			if d := c.same(st, l[j], want[j].t); d != 1 {
				return d, fmt.Sprintf("%s is %s, expected %s", k, short(l[j]), short(want[j].t))
			}
		}
	}
	for _, k := range []string{"type", "pref", "label"} {
		known := false
		for _, x := range s.keys {
			if x == k {
				known = true
			}
		}
		if !known {
			_, has := e.MapLookup(st, mc, e.StrC(k), vt)
			if d := e.Decide(st, has); d != -1 {
				return -d, k + " appears"
			}
		}
	}
	return 1, ""
}

// c20long: every property and every element of a value is looked at, however
// many there are.
func (c *Ctx) c20long() {
	e := c.E
	fn := c.Func(pkgRdap, "NewVCardWithOptions")
	ot := c.typeOf(pkgRdap, "VCardOptions")
	if fn == nil || ot == nil {
		return
	}
	type rec struct {
		st  *eng.State
		val *eng.Term
		in  ssa.Instruction
	}
	var props *eng.Term
	for _, skip := range []bool{true} {
		h := &eng.Hooks{Rec: 3, Steps: 3000000}
		bound := true
		h.OnCall = func(st *eng.State, ev *eng.Event) {
			if ev.Key != "encoding/json.Unmarshal" || len(ev.Args) < 2 {
				return
			}
			p := ev.Args[1]
			if p.Op == eng.OIface {
				p = p.Args[0]
			}
			pt, ok := p.T.Underlying().(*types.Pointer)
			if !ok || typeStr(pt.Elem()) != "[]any" && typeStr(pt.Elem()) != "[]interface{}" {
				bound = false
				return
			}
			jt := jsonTypes()["array"]
			props = e.Param("props", jt)
			c.assumeNil(st, ev.Res, true)
			e.Store(st, p, c.listT(st, "top", jt, []*eng.Term{e.IfaceT(e.StrC("vcard"), types.Typ[types.String]), e.IfaceT(props, jt)}), pt.Elem())
		}
		h.OnStore = func(st *eng.State, kind string, addr, key, val *eng.Term, fr *eng.Frame, in ssa.Instruction) {
			if kind == "append" && val != nil {
				if l, ok := c.seq(st, val); ok {
					for _, x := range l {
						e.Emit(rec{st.Clone(), x, in})
					}
				}
			}
		}
		_, recs, ok := c.Run("all", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
			return []*eng.Term{ps[0], e.StructT(ot, map[string]*eng.Term{"IgnoreInvalidProperties": e.BoolC(skip)})}
		})
		if !ok || !bound {
			continue
		}
		for _, r := range recs {
			x, ok := r.(rec)
			if !ok || x.st.Dead {
				continue
			}
			vals := []*eng.Term{x.val}
			if x.val.T != nil {
				if p, ok := x.val.T.Underlying().(*types.Pointer); ok && structUnder(p.Elem()) != nil {
					for _, f := range []string{"Name", "Type"} {
						if v := c.Field(x.st, x.val, f); v != nil {
							vals = append(vals, v)
						}
					}
				}
			}
			for _, v := range vals {
				idx := indexInto(v, props)
				if idx == nil {
					continue
				}
				ret := func(x *eng.LoopExit) bool { return x.Return }
				if d, why := c.fullRangeBut(x.st, props, idx, ret); d == -1 {
					c.Bad("all", x.in.Parent(), posOf(x.in), "not every property is decoded: %s", why)
				} else if d == 1 {
					c.Ok("all", "every property is decoded")
				}
			}
		}
	}
}

func (c *Ctx) setField(st *eng.State, ptr *eng.Term, name string, v *eng.Term) {
	t := ptr.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			c.E.Store(st, c.E.FieldAddr(ptr, i, name, s.Field(i).Type()), v, s.Field(i).Type())
		}
	}
}

func (c *Ctx) typeOf(pkg, name string) types.Type {
	p := c.Pkg(pkg)
	if p == nil {
		return nil
	}
	t, ok := p.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	return t.Type()
}
