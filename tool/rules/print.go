package rules

import (
	"fmt"
	"go/types"
	"slices"
	"sort"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

// Objects of known shape for the printer: which members are present, and how
// many elements the lists have, is fixed; every text and number is symbolic.

type pleaf struct {
	node   *pnode
	member string
	idx    int
	term   *eng.Term
	kind   string // string number bool fixed
	label  bool   // the text is printed as a label (names of members)
}

type pnode struct {
	typ    string
	member string // in the parent
	parent *pnode
	leaves []*pleaf
	kids   []*pnode
	idx    int
}

func (n *pnode) path() string {
	if n.parent == nil {
		return n.typ
	}
	return fmt.Sprintf("%s.%s[%d]", n.parent.path(), n.member, n.idx)
}

func (l *pleaf) String() string { return fmt.Sprintf("%s.%s[%d]", l.node.path(), l.member, l.idx) }

func (n *pnode) all(f func(*pnode)) {
	f(n)
	for _, k := range n.kids {
		k.all(f)
	}
}

func (n *pnode) allLeaves() []*pleaf {
	var r []*pleaf
	n.all(func(x *pnode) { r = append(r, x.leaves...) })
	return r
}

// members of the type path which an object under it has.
func (n *pnode) trail() []string {
	var r []string
	for ; n.parent != nil; n = n.parent {
		r = append([]string{n.member}, r...)
	}
	return r
}

// pspec tells how many elements of a member there are (trail leads to the
// object it belongs to); lists of texts and objects have that many elements.
type pspec func(trail []string, typ string, f *types.Var) int

// memberKind classifies a struct field: "" for what is no member.
func memberKind(f *types.Var) (kind string, st types.Type) {
	t := f.Type()
	named := func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Struct)
		n, ok2 := types.Unalias(t).(*types.Named)
		return ok && ok2 && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgRdap
	}
	if f.Embedded() || !f.Exported() {
		return "", nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return "string", nil
		}
	case *types.Pointer:
		el := u.Elem()
		if n, ok := types.Unalias(el).(*types.Named); ok {
			switch n.Obj().Name() {
			case "DecodeData":
				return "decodedata", nil
			case "VCard":
				return "vcard", nil
			}
		}
		if named(el) {
			return "object", el
		}
		if b, ok := el.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsBoolean != 0:
				return "bool", el
			case b.Info()&types.IsNumeric != 0:
				return "number", el
			}
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return "strings", nil
		}
		if named(u.Elem()) {
			return "objects", u.Elem()
		}
	}
	return "", nil
}

func typName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// pbuild builds an object of a type.
func (c *Ctx) pbuild(st *eng.State, t types.Type, n *pnode, spec pspec) *eng.Term {
	e := c.E
	s := t.Underlying().(*types.Struct)
	fields := map[string]*eng.Term{}
	tr := n.trail()
	leaf := func(f *types.Var, i int, kind string, x *eng.Term) *pleaf {
		l := &pleaf{node: n, member: f.Name(), idx: i, term: x, kind: kind}
		n.leaves = append(n.leaves, l)
		return l
	}
	text := func(name string) *eng.Term {
		x := e.Param(name, types.Typ[types.String])
		c.assume(st, e.Eq(x, e.StrC("")), false)
		return x
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		kind, ft := memberKind(f)
		if kind == "" || f.Name() == "ObjectClassName" {
			continue
		}
		k := spec(tr, n.typ, f)
		if k == 0 {
			continue
		}
		name := n.path() + "." + f.Name()
		switch kind {
		case "string":
			x := text(name)
			leaf(f, 0, "string", x)
			fields[f.Name()] = x
		case "strings":
			var l []*eng.Term
			for j := 0; j < k; j++ {
				x := text(fmt.Sprintf("%s[%d]", name, j))
				leaf(f, j, "string", x)
				l = append(l, x)
			}
			fields[f.Name()] = c.listT(st, name, f.Type(), l)
		case "bool", "number":
			p := e.Param(name, f.Type())
			c.assumeNil(st, p, false)
			x := e.Param(name+".value", ft)
			e.Store(st, p, x, ft)
			leaf(f, 0, kind, x)
			fields[f.Name()] = p
		case "object":
			kid := &pnode{typ: typName(ft), member: f.Name(), parent: n}
			n.kids = append(n.kids, kid)
			v := c.pbuild(st, ft, kid, spec)
			p := e.Param(name, f.Type())
			c.assumeNil(st, p, false)
			e.Store(st, p, v, ft)
			fields[f.Name()] = p
		case "objects":
			var l []*eng.Term
			for j := 0; j < k; j++ {
				kid := &pnode{typ: typName(ft), member: f.Name(), parent: n, idx: j}
				n.kids = append(n.kids, kid)
				l = append(l, c.pbuild(st, ft, kid, spec))
			}
			fields[f.Name()] = c.listT(st, name, f.Type(), l)
		case "vcard":
			fields[f.Name()] = c.pvcard(st, f, n, name, k)
		case "decodedata":
			fields[f.Name()] = c.pdecode(st, f, n, name, k)
		}
	}
	return e.StructT(t, fields)
}

// pvcard builds a card with k properties; the last has several values.
func (c *Ctx) pvcard(st *eng.State, f *types.Var, n *pnode, name string, k int) *eng.Term {
	e := c.E
	p := e.Param(name, f.Type())
	c.assumeNil(st, p, false)
	vt := f.Type().Underlying().(*types.Pointer).Elem()
	e.Store(st, p, e.StructT(vt, nil), vt)
	pt := c.typeOf(pkgRdap, "VCardProperty")
	if pt == nil {
		return e.Nil()
	}
	ptr := types.NewPointer(pt)
	var l []*eng.Term
	idx := 0
	for j := 0; j < k; j++ {
		q := e.Param(fmt.Sprintf("%s.p%d", name, j), ptr)
		c.assumeNil(st, q, false)
		nm := e.Param(fmt.Sprintf("%s.name%d", name, j), types.Typ[types.String])
		c.assume(st, e.Eq(nm, e.StrC("")), false)
		sh := jS("")
		if j == k-1 {
			sh = jA(jS(""), jA(jS("")))
		}
		v := c.jbuild(st, fmt.Sprintf("%s.v%d", name, j), sh)
		for _, x := range sh.flat() {
			c.assume(st, e.Eq(x.t, e.StrC("")), false)
			n.leaves = append(n.leaves, &pleaf{node: n, member: "VCard", idx: idx, term: x.t, kind: "string"})
			idx++
		}
		n.leaves = append(n.leaves, &pleaf{node: n, member: "VCard name", idx: j, term: nm, kind: "string", label: true})
		e.Store(st, q, e.StructT(pt, map[string]*eng.Term{"Name": nm, "Value": v}), pt)
		l = append(l, q)
	}
	c.setField(st, p, "Properties", c.listT(st, name+".props", types.NewSlice(ptr), l))
	return p
}

// pdecodeList builds the snapshot of an object with one unknown member, a
// list.
func (c *Ctx) pdecodeList(st *eng.State, f *types.Var, list *eng.Term) *eng.Term {
	e := c.E
	p := c.pdecode(st, f, &pnode{typ: "unknown"}, "dd", 0)
	s := f.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if mt, ok := s.Field(i).Type().Underlying().(*types.Map); ok && isIface(mt.Elem()) {
			m := e.Param("dd."+s.Field(i).Name(), s.Field(i).Type())
			e.SetMapContent(st, m, e.MapUpd(e.MapContent(st, e.Nil()), e.StrC("key"), e.IfaceT(list, jsonTypes()["array"])))
		}
	}
	return p
}

// pdecode builds the snapshot of a decoded object: k == 1: one unknown member
// with a name and text of any kind; 2: one unknown member which is an object
// holding a member, a list and an object; 3: several unknown members with
// fixed names.
func (c *Ctx) pdecode(st *eng.State, f *types.Var, n *pnode, name string, k int) *eng.Term {
	e := c.E
	dt := f.Type().Underlying().(*types.Pointer).Elem()
	p := e.Param(name, f.Type())
	c.assumeNil(st, p, false)
	e.Store(st, p, e.StructT(dt, nil), dt)
	s := dt.Underlying().(*types.Struct)
	leaf := func(member string, i int, x *eng.Term, label bool) {
		n.leaves = append(n.leaves, &pleaf{node: n, member: member, idx: i, term: x, kind: "string", label: label})
	}
	text := func(nm string) *eng.Term {
		x := e.Param(nm, types.Typ[types.String])
		c.assume(st, e.Eq(x, e.StrC("")), false)
		return x
	}
	if !c.decodeShape(s) {
		return p
	}
	values := e.MapContent(st, e.Nil())
	known := e.MapContent(st, e.Nil())
	str := func(nm, member string, i int) *eng.Term {
		x := text(nm)
		leaf(member, i, x, false)
		return e.IfaceT(x, types.Typ[types.String])
	}
	obj := func(nm string, k, v *eng.Term) *eng.Term {
		mt := jsonTypes()["object"]
		m := e.Param(nm, mt)
		c.assumeNil(st, m, false)
		e.SetMapContent(st, m, e.MapUpd(e.MapContent(st, e.Nil()), k, v))
		return e.IfaceT(m, mt)
	}
	at := jsonTypes()["array"]
	switch k {
	case 1:
		key := text(name + ".key")
		leaf("unknown name", 0, key, true)
		values = e.MapUpd(values, key, str(name+".val", "unknown", 0))
	case 2:
		key, key2 := text(name+".key"), text(name+".key2")
		leaf("unknown name", 0, key, true)
		leaf("unknown name", 1, key2, true)
		l := c.listT(st, name+".list", at, []*eng.Term{str(name+".e0", "unknown", 0), str(name+".e1", "unknown", 1)})
		values = e.MapUpd(values, key, obj(name+".obj", key2, e.IfaceT(l, at)))
	case 3:
		for i, x := range []string{"zeta", "alpha", "mid", "Beta"} {
			values = e.MapUpd(values, e.StrC(x), str(name+"."+x, "unknown", i))
		}
		m := e.MapContent(st, e.Nil())
		for i, x := range []string{"yy", "aa", "mm"} {
			m = e.MapUpd(m, e.StrC(x), str(name+".obj."+x, "unknown", 4+i))
		}
		mt := jsonTypes()["object"]
		mp := e.Param(name+".obj", mt)
		c.assumeNil(st, mp, false)
		e.SetMapContent(st, mp, m)
		values = e.MapUpd(values, e.StrC("nested"), e.IfaceT(mp, mt))
		// a known member is not printed twice
		if hasField(s, "isKnown") {
			values = e.MapUpd(values, e.StrC("handle"), e.IfaceT(e.Param(name+".handle", types.Typ[types.String]), types.Typ[types.String]))
			known = e.MapUpd(known, e.StrC("handle"), e.BoolC(true))
		}
	case 5:
		for i, x := range []string{"zeta", "alpha"} {
			values = e.MapUpd(values, e.StrC(x), str(name+"."+x, "unknown", i))
		}
	case 7:
		// names which some orders do not tell apart
		for i, x := range []string{"zeta", "Zeta", "alpha", "atlas"} {
			values = e.MapUpd(values, e.StrC(x), str(name+"."+x, "unknown", i))
		}
		m := e.MapContent(st, e.Nil())
		for i, x := range []string{"yy", "yY", "am"} {
			m = e.MapUpd(m, e.StrC(x), str(name+".obj."+x, "unknown", 4+i))
		}
		mt := jsonTypes()["object"]
		mp := e.Param(name+".obj", mt)
		c.assumeNil(st, mp, false)
		e.SetMapContent(st, mp, m)
		values = e.MapUpd(values, e.StrC("nested"), e.IfaceT(mp, mt))
	case 6:
		// empty values
		values = e.MapUpd(values, e.StrC("none"), e.Nil())
		values = e.MapUpd(values, e.StrC("list"), e.IfaceT(c.listT(st, name+".list", at, []*eng.Term{e.Nil(), e.IfaceT(c.listT(st, name+".list2", at, nil), at)}), at))
		values = e.MapUpd(values, e.StrC("object"), obj(name+".obj", e.StrC("none"), e.Nil()))
	case 4:
		// other kinds of values
		x := e.Param(name+".num", types.Typ[types.Float64])
		n.leaves = append(n.leaves, &pleaf{node: n, member: "unknown", idx: 0, term: x, kind: "number"})
		values = e.MapUpd(values, e.StrC("num"), e.IfaceT(x, types.Typ[types.Float64]))
		b := e.Param(name+".flag", types.Typ[types.Bool])
		n.leaves = append(n.leaves, &pleaf{node: n, member: "unknown", idx: 1, term: b, kind: "bool"})
		values = e.MapUpd(values, e.StrC("flag"), e.IfaceT(b, types.Typ[types.Bool]))
		l := c.listT(st, name+".list", at, []*eng.Term{str(name+".e0", "unknown", 2), str(name+".e1", "unknown", 3)})
		l2 := c.listT(st, name+".list2", at, []*eng.Term{e.IfaceT(l, at), str(name+".e2", "unknown", 4)})
		values = e.MapUpd(values, e.StrC("list"), e.IfaceT(l2, at))
	}
	for i := 0; i < s.NumFields(); i++ {
		sf := s.Field(i)
		mt, ok := sf.Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		m := e.Param(name+"."+sf.Name(), sf.Type())
		c.assumeNil(st, m, false)
		c.setField(st, p, sf.Name(), m)
		switch {
		case isIface(mt.Elem()):
			e.SetMapContent(st, m, values)
		case sf.Name() == "isKnown":
			e.SetMapContent(st, m, known)
		default:
			e.SetMapContent(st, m, e.MapContent(st, e.Nil()))
		}
	}
	return p
}

func hasField(s *types.Struct, name string) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// decodeShape: is the snapshot kept in the maps which pdecode can fill?
func (c *Ctx) decodeShape(s *types.Struct) bool {
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		mt, ok := f.Type().Underlying().(*types.Map)
		switch {
		case f.Embedded() && !ok:
		case !ok:
			return false
		case isIface(mt.Elem()):
			n++
		case isBoolT(mt.Elem()):
			if f.Name() != "isKnown" && f.Name() != "overrideKnownValue" {
				return false
			}
		}
	}
	return n == 1
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// popts are printer options.
type popts struct {
	omitNotices, omitRemarks, brief, briefLinks bool
	size                                        int64
	char                                        rune
	bad                                         string // the character every text contains, "" for clean texts
	rev                                         bool
}

func (o popts) String() string {
	var l []string
	for _, x := range []struct {
		b bool
		s string
	}{{o.omitNotices, "OmitNotices"}, {o.omitRemarks, "OmitRemarks"}, {o.brief, "BriefOutput"}, {o.briefLinks, "BriefLinks"}} {
		if x.b {
			l = append(l, x.s)
		}
	}
	if l == nil {
		return "default options"
	}
	return strings.Join(l, "+")
}

// pline is one line of output.
type pline struct {
	parts  []*eng.Term
	indent int // -1: not known
}

func (l *pline) has(x *eng.Term) bool {
	for _, p := range l.parts {
		if p.Contains(x) {
			return true
		}
	}
	return false
}

func (l *pline) String() string {
	var r []string
	for _, p := range l.parts {
		if s, ok := p.Str(); ok {
			r = append(r, s)
		} else {
			r = append(r, "<"+short(p)+">")
		}
	}
	return strings.Join(r, "")
}

// label is the constant text in front of ": ".
func (l *pline) label() (string, bool) {
	if len(l.parts) == 0 {
		return "", false
	}
	s, ok := l.parts[0].Str()
	if !ok {
		return "", false
	}
	s = strings.TrimLeft(s, " \t")
	i := strings.Index(s, ":")
	if i < 0 {
		return "", false
	}
	return s[:i], true
}

// value is what follows the label.
func (c *Ctx) lineValue(l *pline) *eng.Term {
	s, ok := l.parts[0].Str()
	if !ok {
		return nil
	}
	i := strings.Index(s, ": ")
	if i < 0 {
		return nil
	}
	ps := append([]*eng.Term{c.E.StrC(s[i+2:])}, l.parts[1:]...)
	return c.E.Concat(ps...)
}

// presult is the output on one path.
type presult struct {
	st    *eng.State
	lines []*pline
	text  *eng.Term
	fuzzy bool // something was written which the analysis cannot see into
	args  []*eng.Term
	h     *eng.Hooks
	w     *eng.Term
	evs   []*eng.Event
}

// isCleanQuery decides predicates about the texts containing control characters.
func (c *Ctx) badQuery(st *eng.State, ev *eng.Event, bad string, isText func(*eng.Term) bool) {
	if len(ev.Args) < 2 || ev.Res == nil {
		return
	}
	x := stripConv(ev.Args[0])
	if eng.Numeral(x) {
		bad = ""
	} else if x.Op == eng.OConcat {
		n := 0
		for _, p := range x.Args {
			switch {
			case isText(p):
				n++
			case !eng.Numeral(p) && !p.IsConst():
				return
			}
		}
		if n == 0 {
			bad = ""
		}
	} else if !isText(x) {
		return
	}
	set, ok := ev.Args[1].Str()
	if !ok {
		n, ok2 := ev.Args[1].Int()
		if !ok2 {
			if ev.Key == "strings.ContainsFunc" || ev.Key == "strings.IndexFunc" {
				d := c.runePred(st, ev.Args[1], bad)
				if d == 0 {
					return
				}
				if ev.Key == "strings.ContainsFunc" {
					c.assume(st, ev.Res, d == 1)
				} else {
					c.assume(st, c.E.Lt(ev.Res, c.E.IntC(0)), d == -1)
				}
			}
			return
		}
		set = string(rune(n))
	}
	if set == "" || strings.Trim(set, "\n\r\x00\t\v\f\x1b\x7f\u0085\u2028\u2029") != "" {
		return
	}
	var has bool
	switch ev.Key {
	case "strings.ContainsAny", "strings.IndexAny", "strings.LastIndexAny":
		has = bad != "" && strings.Contains(set, bad)
	case "strings.Contains", "strings.ContainsRune", "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte", "strings.Count", "bytes.Contains", "bytes.IndexByte", "bytes.ContainsAny", "bytes.IndexAny":
		has = bad != "" && set == bad
	case "strings.Cut":
		c.assume(st, c.resultOf(ev.Res, 2), bad != "" && set == bad)
		return
	default:
		return
	}
	e := c.E
	switch {
	case strings.Contains(ev.Key, ".Contains"):
		c.assume(st, ev.Res, has)
	case ev.Key == "strings.Count":
		c.assume(st, e.Lt(e.IntC(0), ev.Res), has)
	case has:
		c.assume(st, e.Lt(ev.Res, e.IntC(0)), false)
	default:
		c.assume(st, e.Eq(ev.Res, e.IntC(-1)), true)
	}
}

// runePred evaluates a predicate on the character of a scenario: with no such
// character it is false for the texts of the scenario.
func (c *Ctx) runePred(st *eng.State, f *eng.Term, bad string) int {
	if bad == "" {
		return -1
	}
	r, ok := c.applyRune(st, f, bad)
	if !ok {
		return 0
	}
	return c.E.Decide(st, r)
}

func (c *Ctx) applyRune(st *eng.State, f *eng.Term, ch string) (*eng.Term, bool) {
	e := c.E
	n := int64([]rune(ch)[0])
	outs := e.Apply(st.Clone(), &eng.Hooks{PeelConst: 60}, f, []*eng.Term{e.Conv(e.IntC(n), types.Typ[types.Rune])})
	var r *eng.Term
	for _, o := range outs {
		if o.St.Dead {
			continue
		}
		if o.Panic || len(o.Rets) != 1 || r != nil && r != o.Rets[0] {
			return nil, false
		}
		r = o.Rets[0]
	}
	return r, r != nil
}

// print analyses Printer.Print of an object of type typ built by spec.
func (c *Ctx) print(rule, typ string, o popts, spec pspec) (*pnode, []*presult, bool) {
	fn := c.Func(pkgRdap, "*Printer.Print")
	t := c.typeOf(pkgRdap, typ)
	pt := c.typeOf(pkgRdap, "Printer")
	if fn == nil || t == nil || pt == nil {
		c.Unknown(rule, "Printer.Print or %s not found", typ)
		return nil, nil, false
	}
	e := c.E
	root := &pnode{typ: typ}
	if c.clear == 0 && c.unclear > 60 {
		// nothing can be seen in the output
		c.Unknown(rule, "output of %s", typ)
		return root, nil, false
	}
	var w *eng.Term
	leaves := map[*eng.Term]bool{}
	h := c.c20hooks()
	h.Rec = 14
	h.Steps = 60000
	if c.tooBig > 8 {
		h.Steps = 8000
	}
	h.RevMaps = o.rev
	h.Keep = func(ev *eng.Event) bool {
		for _, a := range ev.Args {
			if a != nil && (a == w || Unwrap(a) == w) {
				return true
			}
		}
		return false
	}
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		c.badQuery(st, ev, o.bad, func(x *eng.Term) bool { return leaves[x] })
	}
	var args []*eng.Term
	outs, _, ok := c.Run(rule, fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		ps = append([]*eng.Term{}, ps...)
		s := pt.Underlying().(*types.Struct)
		f := map[string]*eng.Term{}
		for i := 0; i < s.NumFields(); i++ {
			switch s.Field(i).Name() {
			case "Writer":
				w = e.Param("w", s.Field(i).Type())
				c.assumeNil(st, w, false)
				f["Writer"] = w
			case "IndentSize":
				if o.size > 0 {
					f["IndentSize"] = e.Conv(e.IntC(o.size), s.Field(i).Type())
				}
			case "IndentChar":
				if o.char != 0 {
					f["IndentChar"] = e.Conv(e.IntC(int64(o.char)), s.Field(i).Type())
				}
			}
		}
		f["OmitNotices"], f["OmitRemarks"] = e.BoolC(o.omitNotices), e.BoolC(o.omitRemarks)
		f["BriefOutput"], f["BriefLinks"] = e.BoolC(o.brief), e.BoolC(o.briefLinks)
		c.assumeNil(st, ps[0], false)
		e.Store(st, ps[0], e.StructT(pt, f), pt)
		v := c.pbuild(st, t, root, spec)
		for _, l := range root.allLeaves() {
			leaves[l.term] = true
		}
		q := e.Param("obj", types.NewPointer(t))
		c.assumeNil(st, q, false)
		e.Store(st, q, v, t)
		ps[1] = e.IfaceT(q, types.NewPointer(t))
		args = ps
		return ps
	})
	if !ok {
		c.tooBig++
		return root, nil, false
	}
	var rs []*presult
	for _, x := range outs {
		if x.St.Dead {
			continue
		}
		if x.Panic {
			c.Bad(rule, fn, posOf(x.In), "printing a %s panics", typ)
			continue
		}
		r := &presult{st: x.St, args: args, h: h, w: w}
		r.evs = x.St.Trace.Events()
		parts, fz := c.written(r.evs, w)
		r.fuzzy = fz
		r.text = e.Concat(parts...)
		parts = []*eng.Term{r.text}
		if r.text.Op == eng.OConcat {
			parts = r.text.Args
		}
		cur := &pline{}
		for _, p := range parts {
			if p.Any(func(x *eng.Term) bool {
				return x.Op == eng.OSym || x.Op == eng.OContents || x.Op == eng.OAlloc || x.Op == eng.OJoin
			}) {
				r.fuzzy = true
			}
			s, ok := p.Str()
			if !ok {
				cur.parts = append(cur.parts, p)
				continue
			}
			for {
				i := strings.IndexByte(s, '\n')
				if i < 0 {
					break
				}
				if i > 0 {
					cur.parts = append(cur.parts, e.StrC(s[:i]))
				}
				r.lines = append(r.lines, cur)
				cur = &pline{}
				s = s[i+1:]
			}
			if s != "" {
				cur.parts = append(cur.parts, e.StrC(s))
			}
		}
		if len(cur.parts) > 0 {
			r.lines = append(r.lines, cur)
		}
		ch := o.char
		if ch == 0 {
			ch = ' '
		}
		for _, l := range r.lines {
			l.indent = -1
			if len(l.parts) > 0 {
				if s, ok := l.parts[0].Str(); ok {
					l.indent = len(s) - len(strings.TrimLeft(s, string(ch)))
				}
			}
		}
		rs = append(rs, r)
	}
	for _, r := range rs {
		if r.fuzzy {
			c.unclear++
		} else {
			c.clear++
		}
	}
	if len(rs) == 0 && !c.returns(rule, fn, outs, "printing a "+typ) {
		return root, nil, false
	}
	return root, rs, true
}

// written is the text a sequence of events writes.
func (c *Ctx) written(evs []*eng.Event, w *eng.Term) (parts []*eng.Term, fuzzy bool) {
	for _, ev := range evs {
		ct, yes := c.writesTo(ev, w)
		if !yes || len(ct) != 1 {
			fuzzy = true
			continue
		}
		text := ct[0]
		if text.Op == eng.OAppend || text.Op == eng.OAppendAll {
			text = c.E.Conv(text, types.Typ[types.String])
		}
		parts = append(parts, flatText(text)...)
	}
	return
}

// ---- scenarios ----

// tops are the types which Print accepts.
var tops = []string{"Domain", "Entity", "Nameserver", "Autnum", "IPNetwork", "Help", "Error", "DomainSearchResults", "EntitySearchResults", "NameserverSearchResults"}

// ppaths lists the member paths to objects of a type, up to a depth.
func (c *Ctx) ppaths(typ string, depth int) (paths [][]string, ends []string) {
	t := c.typeOf(pkgRdap, typ)
	if t == nil {
		return
	}
	var walk func(t types.Type, tr []string)
	walk = func(t types.Type, tr []string) {
		paths = append(paths, append([]string{}, tr...))
		ends = append(ends, typName(t))
		if len(tr) == depth {
			return
		}
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			k, ft := memberKind(s.Field(i))
			if k == "object" || k == "objects" {
				walk(ft, append(tr, s.Field(i).Name()))
			}
		}
	}
	walk(t, nil)
	return
}

func eqTrail(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// at: all members of the object at the end of a path, lists of k; the objects
// in it have their plain members only.
func atPath(p []string, k, dd int) pspec {
	return func(tr []string, typ string, f *types.Var) int {
		kind, _ := memberKind(f)
		switch {
		case len(tr) < len(p):
			if eqTrail(tr, p[:len(tr)]) && f.Name() == p[len(tr)] {
				return 1
			}
			return 0
		case len(tr) == len(p):
			if !eqTrail(tr, p) {
				return 0
			}
			if kind == "decodedata" {
				return dd
			}
			return k
		case len(tr) == len(p)+1:
			switch kind {
			case "object", "objects":
				return 0
			case "decodedata":
				return 0
			case "strings":
				return 1
			}
			return 1
		}
		return 0
	}
}

// only: one member of the object at the end of a path.
func onlyMember(p []string, m string, k int) pspec {
	full := atPath(p, k, 0)
	return func(tr []string, typ string, f *types.Var) int {
		if len(tr) == len(p) && f.Name() != m {
			return 0
		}
		return full(tr, typ, f)
	}
}

func (c *Ctx) membersOf(typ string) []string {
	t := c.typeOf(pkgRdap, typ)
	if t == nil {
		return nil
	}
	var r []string
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if k, _ := memberKind(s.Field(i)); k != "" && k != "decodedata" && s.Field(i).Name() != "ObjectClassName" {
			r = append(r, s.Field(i).Name())
		}
	}
	return r
}

// hidden tells whether options hide a member: 1 hidden, -1 shown, 0 either.
func hiddenMember(o popts, typ, member string) int {
	switch member {
	case "Notices":
		if o.brief || o.omitNotices {
			return 1
		}
	case "Remarks":
		if o.brief || o.omitRemarks {
			return 1
		}
	case "Conformance", "Events", "AsEventActor", "Port43", "Variants", "SecureDNS":
		if o.brief {
			return 1
		}
	case "Networks", "Autnums", "Entities":
		if o.brief && typ == "Entity" {
			return 0
		}
	}
	if typ == "Link" && o.briefLinks && member != "Href" {
		return 1
	}
	return -1
}

// hiddenLeaf combines the members on the way to a leaf.
func hiddenLeaf(o popts, l *pleaf) int {
	r := hiddenMember(o, l.node.typ, l.member)
	for n := l.node; n.parent != nil; n = n.parent {
		switch hiddenMember(o, n.parent.typ, n.member) {
		case 1:
			return 1
		case 0:
			if r == -1 {
				r = 0
			}
		}
	}
	return r
}

// shows checks one output against the object it was made from.
func (c *Ctx) shows(rule string, root *pnode, r *presult, o popts) bool {
	fn := c.Func(pkgRdap, "*Printer.Print")
	good := true
	bad := func(format string, a ...any) {
		good = false
		if r.fuzzy {
			c.Unknown(rule, format, a...)
			return
		}
		c.Bad(rule, c.printFn(root), 0, format+" ("+o.String()+")", a...)
	}
	_ = fn
	at := map[*pleaf]int{}
	first, last := map[*pnode]int{}, map[*pnode]int{}
	owner := map[int]*pnode{}
	loose := map[*pnode]int{} // members shown by lines which cannot be told from headings
	for _, l := range root.allLeaves() {
		if l.label {
			if hiddenLeaf(o, l) == -1 && !slices.ContainsFunc(r.lines, func(ln *pline) bool { return ln.has(l.term) }) {
				bad("the name of an unknown member of %s is not shown", l.node.path())
			}
			continue
		}
		var n []int
		for i, ln := range r.lines {
			if ln.has(l.term) {
				n = append(n, i)
			}
		}
		d := hiddenLeaf(o, l)
		switch {
		case len(n) == 0 && d == -1 && l.kind == "bool":
			// the value may have been decided on this path
			if c.E.Decide(r.st, l.term) == 0 {
				bad("%s is not shown", l)
			}
			loose[l.node]++
			continue
		case len(n) == 0 && d == -1:
			bad("%s is not shown", l)
			continue
		case len(n) > 0 && d == 1:
			bad("%s is shown although the options hide it", l)
			continue
		case len(n) > 1:
			bad("%s is shown %d times", l, len(n))
			continue
		case len(n) == 0:
			continue
		}
		at[l] = n[0]
		x := l.node
		if o.briefLinks && x.typ == "Link" && x.parent != nil {
			// the target, as a value of the object the link belongs to
			owner[n[0]] = x.parent
			continue
		}
		owner[n[0]] = x
		if f, ok := first[x]; !ok || n[0] < f {
			first[x] = n[0]
		}
		if f, ok := last[x]; !ok || n[0] > f {
			last[x] = n[0]
		}
		// the value is the whole value
		v := c.lineValue(r.lines[n[0]])
		if v != nil && o.bad == "" {
			if d := c.shownAs(r.st, v, l); d == -1 {
				bad("%s is shown as %s", l, short(v))
			}
		}
	}
	// order within lists
	type key struct {
		n *pnode
		m string
	}
	lasti := map[key]int{}
	for _, l := range root.allLeaves() {
		i, ok := at[l]
		if !ok || strings.HasPrefix(l.member, "unknown") {
			continue
		}
		k := key{l.node, l.member}
		if p, ok := lasti[k]; ok && i < p {
			bad("%s comes before the element in front of it", l)
		}
		lasti[k] = i
	}
	lastn := map[key]int{}
	root.all(func(n *pnode) {
		f, ok := first[n]
		if !ok || n.parent == nil {
			return
		}
		k := key{n.parent, n.member}
		if p, ok := lastn[k]; ok && f < p {
			bad("%s comes before the element in front of it", n.path())
		}
		lastn[k] = f
	})
	// nesting
	ind := map[*pnode]int{}
	for i, n := range owner {
		if nd := r.lines[i].indent; nd >= 0 {
			if strings.HasPrefix(leafAt(n, at, i), "unknown") {
				continue
			}
			if x, ok := ind[n]; ok && x != nd {
				bad("the members of %s have different indentation", n.path())
			}
			ind[n] = nd
		}
	}
	root.all(func(n *pnode) {
		if n.parent == nil {
			return
		}
		a, ok1 := ind[n]
		b, ok2 := ind[n.parent]
		if ok1 && ok2 && a <= b {
			bad("%s is not indented below its object", n.path())
		}
		f, ok := first[n]
		if !ok {
			return
		}
		// a heading in front, at a smaller indentation
		if f == 0 {
			bad("%s has no heading", n.path())
			return
		}
		for k := loose[n]; k > 0 && f > 1 && owner[f-1] == nil && r.lines[f-1].indent == r.lines[f].indent; k-- {
			f--
		}
		hd := r.lines[f-1]
		if owner[f-1] != nil || hd.indent >= 0 && r.lines[f].indent >= 0 && hd.indent >= r.lines[f].indent {
			bad("%s has no heading of its own", n.path())
			return
		}
		if hd.indent >= 0 && ok2 && hd.indent < b {
			bad("the heading of %s is not indented below its object", n.path())
		}
		// nothing else in between
		for i := f; i <= last[n]; i++ {
			w := owner[i]
			for x := w; x != nil; x = x.parent {
				if x == n {
					w = nil
					break
				}
			}
			if w != nil {
				bad("members of %s are shown within %s", w.path(), n.path())
				break
			}
		}
	})
	// labels
	for l, i := range at {
		if strings.HasPrefix(l.member, "unknown") || l.member == "VCard" {
			continue
		}
		if o.briefLinks && l.node.typ == "Link" {
			continue
		}
		lb, ok := r.lines[i].label()
		if !ok {
			continue
		}
		for m, want := range plabels[l.node.typ] {
			if m != l.member && want == lb && plabels[l.node.typ][l.member] != lb {
				bad("%s is shown under the label %q of %s", l, lb, m)
			}
		}
	}
	root.all(func(n *pnode) {
		f, ok := first[n]
		if !ok || f == 0 || n.parent == nil {
			return
		}
		lb, ok := r.lines[f-1].label()
		if !ok {
			return
		}
		for m, want := range pheads {
			if m != n.member && want == lb && pheads[n.member] != lb {
				bad("%s is shown under the heading %q", n.path(), lb)
			}
		}
	})
	return good
}

// leafAt names a member on a line.
func leafAt(n *pnode, at map[*pleaf]int, i int) string {
	for _, l := range n.leaves {
		if k, ok := at[l]; ok && k == i {
			return l.member
		}
	}
	return ""
}

// plabels are the labels of members which could be confused.
var plabels = map[string]map[string]string{
	"Domain":       {"LDHName": "Domain Name", "UnicodeName": "Domain Name (Unicode)", "Handle": "Handle", "Status": "Status", "Port43": "Port43", "Conformance": "Conformance"},
	"Nameserver":   {"LDHName": "Nameserver", "UnicodeName": "Nameserver (Unicode)", "Handle": "Handle", "Status": "Status", "Port43": "Port43", "Conformance": "Conformance"},
	"Entity":       {"Handle": "Handle", "Status": "Status", "Port43": "Port43", "Conformance": "Conformance", "Roles": "Role"},
	"Autnum":       {"Handle": "Handle", "Name": "Name", "Type": "Type", "Status": "Status", "IPVersion": "IP Version", "Country": "Country", "StartAutnum": "StartAutnum", "EndAutnum": "EndAutnum", "Conformance": "Conformance", "Port43": "Port43"},
	"IPNetwork":    {"Handle": "Handle", "StartAddress": "Start Address", "EndAddress": "End Address", "IPVersion": "IP Version", "Name": "Name", "Type": "Type", "Country": "Country", "ParentHandle": "ParentHandle", "Status": "Status", "Port43": "Port43", "Conformance": "Conformance"},
	"IPAddressSet": {"V6": "IPv6", "V4": "IPv4"},
	"PublicID":     {"Type": "Type", "Identifier": "Identifier"},
	"SecureDNS":    {"ZoneSigned": "Zone Signed", "DelegationSigned": "Delegation Signed", "MaxSigLife": "Max Signature Life"},
	"KeyData":      {"Flags": "Flags", "Protocol": "Protocol", "Algorithm": "Algorithm", "PublicKey": "Public Key"},
	"DSData":       {"KeyTag": "Key Tag", "Algorithm": "Algorithm", "Digest": "Digest", "DigestType": "DigestType"},
	"Variant":      {"Relation": "Relation", "IDNTable": "IDN Table"},
	"VariantName":  {"LDHName": "Domain Name", "UnicodeName": "Domain Name (Unicode)"},
	"Remark":       {"Title": "Title", "Type": "Type", "Description": "Description"},
	"Notice":       {"Title": "Title", "Type": "Type", "Description": "Description"},
	"Error":        {"ErrorCode": "Error Code", "Title": "Title", "Description": "Description", "Conformance": "Conformance"},
	"Link":         {"Title": "Title", "Href": "Href", "Value": "Value", "Rel": "Rel", "Media": "Media", "Type": "Type", "HrefLang": "HrefLang"},
	"Event":        {"Action": "Action", "Actor": "Actor", "Date": "Date"},
}

// pheads are the headings of nested objects, by member.
var pheads = map[string]string{"Notices": "Notice", "Remarks": "Remark", "Events": "Event", "AsEventActor": "AsEventActor", "Links": "Link",
	"Entities": "Entity", "Nameservers": "Nameserver", "Network": "IP Network", "Networks": "IP Network", "Autnums": "Autnum", "PublicIDs": "Public ID",
	"SecureDNS": "Secure DNS", "DS": "DSData", "Keys": "Key", "Variants": "Variant", "VariantNames": "Variant Name", "IPAddresses": "IP Addresses", "Domains": "Domain"}

// shownAs: is the value shown as it is? 1, -1, 0 unknown.
func (c *Ctx) shownAs(st *eng.State, v *eng.Term, l *pleaf) int {
	e := c.E
	if l.kind == "string" {
		x := v
		for x != l.term {
			// cleaning functions leave clean text alone
			switch {
			case x.Op == eng.OCall && x.S == "strings.Map":
				x = x.Args[1]
			case x.Op == eng.OCall && (x.S == "strings.ReplaceAll" || x.S == "strings.Replace" || strings.HasSuffix(x.S, "Replacer).Replace") || x.S == "strings.ToValidUTF8"):
				for _, a := range x.Args {
					if a.Contains(l.term) {
						x = a
						break
					}
				}
			case x.Op == eng.OConv:
				x = x.Args[0]
			default:
				if pureText(x) {
					return -1
				}
				return 0
			}
		}
		return 1
	}
	if l.kind == "number" {
		x := v
		if b, ok := l.term.T.(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			switch {
			case x.Op == eng.OCall && x.S == "strconv.FormatFloat" && len(x.Args) == 4 && stripConv(x.Args[0]) == l.term:
				f, ok1 := x.Args[1].Int()
				pr, ok2 := x.Args[2].Int()
				bs, ok3 := x.Args[3].Int()
				if ok1 && ok2 && ok3 && (pr != -1 || bs != 64 || f == 'b' || f == 'x') {
					return -1
				}
				return 1
			case (x.Op == eng.OFmt && x.S == "%d" || x.Op == eng.OCall && (x.S == "strconv.FormatInt" || x.S == "strconv.FormatUint" || x.S == "strconv.Itoa")) && stripConv(x.Args[0]) == l.term && !guarded(st, l.term):
				return -1
			}
			return 0
		}
		switch {
		case x.Op == eng.OFmt && (x.S == "%d" || x.S == "%v") && stripConv(x.Args[0]) == l.term:
			if narrow(x.Args[0]) {
				return -1
			}
			return 1
		case x.Op == eng.OCall && (x.S == "strconv.FormatUint" || x.S == "strconv.FormatInt"):
			if n, ok := x.Args[1].Int(); ok {
				if n != 10 {
					return -1
				}
				if y := x.Args[0]; stripConv(y) == l.term && !narrow(y) {
					return 1
				} else if stripConv(y) == l.term {
					return -1
				}
			}
		case x.Op == eng.OCall && x.S == "strconv.Itoa" && stripConv(x.Args[0]) == l.term:
			return 1
		}
	}
	_ = e
	return 0
}

// guarded: does the path depend on the number?
func guarded(st *eng.State, x *eng.Term) bool {
	for _, t := range st.FactTerms() {
		text := t.Any(func(y *eng.Term) bool { return y.Op == eng.OFmt || y.Op == eng.OCall && strings.HasPrefix(y.S, "strconv.Format") })
		if t.Contains(x) && !text {

			return true
		}
	}
	return false
}

// narrow: a conversion to a smaller integer type.
func narrow(t *eng.Term) bool {
	size := func(x types.Type) int64 { return types.SizesFor("gc", "amd64").Sizeof(x) }
	for t.Op == eng.OConv {
		a := t.Args[0]
		if t.T != nil && a.T != nil && size(t.T) < size(a.T) {
			return true
		}
		t = a
	}
	return false
}

// printFn names the print routine of a type for reports.
func (c *Ctx) printFn(root *pnode) *ssa.Function {
	for _, n := range []string{"*Printer.print" + root.typ, "*Printer.Print"} {
		if f := c.Func(pkgRdap, n); f != nil {
			return f
		}
	}
	return nil
}

func sortedTops() []string {
	r := append([]string{}, tops...)
	sort.Strings(r)
	return r
}
