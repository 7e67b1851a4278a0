package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C30", Run: runC30, Floor: 60,
		Method:      "Abstract interpretation of ToWhoisStyleResponse over classes of domains: each class fixes which members are present, the event actions, roles, identifier types and vCard property names, all other texts symbolic; the labels and the lists of values of the result are compared with the documented ones. The loops are also analysed without fixing the number of elements.",
		Assumptions: []string{"the vCard accessors are as decided by C20"}})
}

// wdom describes a domain for the WHOIS view.
type wdom struct {
	name, handle, port43 string // "" absent, else present
	status, ns           int
	nsEmpty              int // name servers without a name, in front
	events               []string
	ents                 []*went
	emptyDates           bool
}

type went struct {
	roles []string
	vcard bool
	// vCard content: property name -> number of values (adr: -1 full address)
	props []string
	pids  []string // types
}

// wview is the result: label -> values.
type wview struct {
	order []string
	data  map[string][]*eng.Term
	st    *eng.State
	dom   map[string]*eng.Term // what was built, by name
}

func (v *wview) String() string {
	var l []string
	for k, x := range v.data {
		s := k + ":"
		for _, t := range x {
			s += " " + t.String()
		}
		l = append(l, s)
	}
	sort.Strings(l)
	return strings.Join(v.order, ",") + "\n" + strings.Join(l, "\n")
}

func whoisFull() *wdom {
	all := []string{"fn", "adr", "tel", "fax", "email"}
	return &wdom{name: "x", handle: "x", port43: "x", status: 3, ns: 3,
		events: []string{"registration", "last changed", "expiration", "transfer", "last changed"},
		ents: []*went{
			{roles: []string{"reseller"}, vcard: true, props: all},
			{roles: []string{"registrar"}, vcard: true, props: all, pids: []string{"other", "IANA Registrar ID", "IANA Registrar ID"}},
			{roles: []string{"technical", "administrative"}, vcard: true, props: all},
			{roles: []string{"registrant"}, vcard: true, props: all},
			{roles: []string{"abuse"}, vcard: true, props: all},
			{roles: []string{"registrant", "registrar"}, vcard: true, props: all, pids: []string{"IANA Registrar ID"}},
			{roles: []string{"administrative"}, vcard: true, props: all},
		}}
}

func (c *Ctx) wbuild(st *eng.State, d *wdom, b map[string]*eng.Term) *eng.Term {
	e := c.E
	str := types.Typ[types.String]
	text := func(name string) *eng.Term {
		x := e.Param(name, str)
		c.assume(st, e.Eq(x, e.StrC("")), false)
		b[name] = x
		return x
	}
	ss := types.NewSlice(str)
	dt := c.typeOf(pkgRdap, "Domain")
	f := map[string]*eng.Term{}
	if d.name != "" {
		f["LDHName"] = text("LDHName")
	}
	if d.handle != "" {
		f["Handle"] = text("Handle")
	}
	if d.port43 != "" {
		f["Port43"] = text("Port43")
	}
	f["UnicodeName"] = text("UnicodeName")
	var l []*eng.Term
	for i := 0; i < d.status; i++ {
		l = append(l, text(fmt.Sprintf("Status%d", i)))
	}
	f["Status"] = c.listT(st, "Status", ss, l)
	l = nil
	nt := c.typeOf(pkgRdap, "Nameserver")
	for i := 0; i < d.nsEmpty; i++ {
		l = append(l, e.StructT(nt, map[string]*eng.Term{"UnicodeName": text(fmt.Sprintf("NSU%d", i)), "Handle": text(fmt.Sprintf("NSUH%d", i))}))
	}
	for i := 0; i < d.ns; i++ {
		l = append(l, e.StructT(nt, map[string]*eng.Term{"LDHName": text(fmt.Sprintf("NS%d", i)), "Handle": text(fmt.Sprintf("NSH%d", i))}))
	}
	f["Nameservers"] = c.listT(st, "Nameservers", types.NewSlice(nt), l)
	l = nil
	et := c.typeOf(pkgRdap, "Event")
	for i, a := range d.events {
		fs := map[string]*eng.Term{"Action": e.StrC(a), "Actor": text(fmt.Sprintf("Actor%d", i))}
		if !d.emptyDates {
			fs["Date"] = text(fmt.Sprintf("Date%d", i))
		}
		l = append(l, e.StructT(et, fs))
	}
	f["Events"] = c.listT(st, "Events", types.NewSlice(et), l)
	l = nil
	en := c.typeOf(pkgRdap, "Entity")
	vt := c.typeOf(pkgRdap, "VCard")
	pid := c.typeOf(pkgRdap, "PublicID")
	for i, x := range d.ents {
		fs := map[string]*eng.Term{"Handle": text(fmt.Sprintf("EH%d", i))}
		var rl []*eng.Term
		for _, r := range x.roles {
			rl = append(rl, e.StrC(r))
		}
		fs["Roles"] = c.listT(st, fmt.Sprintf("Roles%d", i), ss, rl)
		rl = nil
		for j, t := range x.pids {
			rl = append(rl, e.StructT(pid, map[string]*eng.Term{"Type": e.StrC(t), "Identifier": text(fmt.Sprintf("PID%d.%d", i, j))}))
		}
		fs["PublicIDs"] = c.listT(st, fmt.Sprintf("PIDs%d", i), types.NewSlice(pid), rl)
		if x.vcard {
			v := e.Param(fmt.Sprintf("VCard%d", i), types.NewPointer(vt))
			c.assumeNil(st, v, false)
			e.Store(st, v, e.StructT(vt, nil), vt)
			var ps []*vprop
			for _, p := range x.props {
				switch p {
				case "adr":
					ps = append(ps, vp("adr", jA(strs(7)...)))
				case "tel":
					ps = append(ps, vp("tel", jS(""), "voice"))
				case "fax":
					ps = append(ps, vp("tel", jS(""), "fax"))
				default:
					ps = append(ps, vp(p, jS("")))
				}
			}
			c.vcardNamed(st, v, ps, fmt.Sprintf("E%d.", i))
			for k, p := range ps {
				n := fmt.Sprintf("E%d.%s", i, x.props[k])
				for j, s := range p.value.flat() {
					c.assume(st, e.Eq(s.t, e.StrC("")), false)
					if p.name == "adr" {
						b[fmt.Sprintf("%s.%d", n, j)] = s.t
					} else {
						b[n] = s.t
					}
				}
			}
			fs["VCard"] = v
		}
		l = append(l, e.StructT(en, fs))
	}
	f["Entities"] = c.listT(st, "Entities", types.NewSlice(en), l)
	return e.StructT(dt, f)
}

// whois analyses the conversion of a domain.
func (c *Ctx) whois(rule string, d *wdom, rev bool) *wview {
	fn := c.Func(pkgRdap, "*Response.ToWhoisStyleResponse")
	if fn == nil || c.typeOf(pkgRdap, "Domain") == nil {
		c.Unknown(rule, "ToWhoisStyleResponse not found")
		return nil
	}
	e := c.E
	h := c.c20hooks()
	h.RevMaps = rev
	b := map[string]*eng.Term{}
	dt := c.typeOf(pkgRdap, "Domain")
	outs, _, ok := c.Run(rule, fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		q := e.Param("dom", types.NewPointer(dt))
		c.assumeNil(st, q, false)
		c.assumeNil(st, ps[0], false)
		e.Store(st, q, c.wbuild(st, d, b), dt)
		c.setField(st, ps[0], "Object", e.IfaceT(q, types.NewPointer(dt)))
		return nil
	})
	if !ok {
		return nil
	}
	return c.wresult(rule, fn, outs, b)
}

func (c *Ctx) wresult(rule string, fn *ssa.Function, outs []*eng.Outcome, b map[string]*eng.Term) *wview {
	e := c.E
	if !c.returns(rule, fn, outs, "the conversion") {
		return nil
	}
	var v *wview
	for _, o := range outs {
		if o.St.Dead {
			continue
		}
		if o.Panic {
			c.Bad(rule, fn, posOf(o.In), "the conversion panics")
			return nil
		}
		w := o.Rets[0]
		if v != nil {
			c.Unknown(rule, "several results")
			return nil
		}
		if c.IsNil(o.St, w) == 1 {
			c.Bad(rule, fn, posOf(o.In), "the conversion returns nil")
			return nil
		}
		v = &wview{data: map[string][]*eng.Term{}, st: o.St, dom: b}
		ol, ok := c.seq(o.St, c.Field(o.St, w, "KeyDisplayOrder"))
		if !ok {
			c.Unknown(rule, "the order of the labels")
			return nil
		}
		for _, x := range ol {
			s, ok := x.Str()
			if !ok {
				c.Unknown(rule, "label %s", short(x))
				return nil
			}
			v.order = append(v.order, s)
		}
		m := e.MapContent(o.St, c.Field(o.St, w, "Data"))
		for m.Op == eng.OMapUpd {
			k, ok := m.Args[1].Str()
			if !ok {
				c.Unknown(rule, "label %s", short(m.Args[1]))
				return nil
			}
			if _, done := v.data[k]; !done {
				l, ok := c.seq(o.St, m.Args[2])
				if !ok {
					c.Unknown(rule, "values of %s: %s", k, short(m.Args[2]))
					return nil
				}
				v.data[k] = l
			}
			m = m.Args[0]
		}
		if m.Op != eng.OMapEmpty && m.Op != eng.ONil {
			c.Unknown(rule, "view %s", short(m))
			return nil
		}
	}
	return v
}

var wcontacts = [][2]string{{"Registrant", "registrant"}, {"Admin", "administrative"}, {"Tech", "technical"}, {"Abuse", "abuse"}}

// wantView lists the documented lines: label -> names of values.
func wantView(d *wdom) map[string][]string {
	w := map[string][]string{}
	add := func(k, v string) { w[k] = append(w[k], v) }
	if d.name != "" {
		add("Domain Name", "LDHName")
	}
	if d.handle != "" {
		add("Handle", "Handle")
	}
	if d.port43 != "" {
		add("WHOIS Server", "Port43")
	}
	if !d.emptyDates {
		for i, a := range d.events {
			n := fmt.Sprintf("Date%d", i)
			switch a {
			case "last changed":
				add("Updated Date", n)
			case "registration":
				add("Creation Date", n)
			case "expiration":
				add("Expiration Date", n)
			}
		}
	}
	first := func(role string) int {
		for i, e := range d.ents {
			for _, r := range e.roles {
				if r == role {
					return i
				}
			}
		}
		return -1
	}
	has := func(i int, p string) bool {
		for _, x := range d.ents[i].props {
			if x == p {
				return d.ents[i].vcard
			}
		}
		return false
	}
	if i := first("registrar"); i >= 0 {
		if has(i, "fn") {
			add("Registrar", fmt.Sprintf("E%d.fn", i))
		}
		for j, t := range d.ents[i].pids {
			if t == "IANA Registrar ID" {
				add("Registrar IANA ID", fmt.Sprintf("PID%d.%d", i, j))
			}
		}
	}
	for i := 0; i < d.status; i++ {
		add("Domain Status", fmt.Sprintf("Status%d", i))
	}
	for _, x := range wcontacts {
		i := first(x[1])
		if i < 0 {
			continue
		}
		for _, p := range [][2]string{{"Name", "fn"}, {"Tel", "tel"}, {"Fax", "fax"}, {"Email", "email"}} {
			if has(i, p[1]) {
				add(x[0]+" "+p[0], fmt.Sprintf("E%d.%s", i, p[1]))
			}
		}
		if has(i, "adr") {
			for k, p := range []string{"PO Box", "Extended Address", "Street", "Locality", "", "Post Code", "Country"} {
				if p != "" {
					add(x[0]+" "+p, fmt.Sprintf("E%d.adr.%d", i, k))
				}
			}
		}
	}
	for i := 0; i < d.ns; i++ {
		add("Name Server", fmt.Sprintf("NS%d", i))
	}
	return w
}

func (c *Ctx) whoisCase(what string, d *wdom) {
	v := c.whois("view", d, false)
	if v == nil {
		return
	}
	fn := c.Func(pkgRdap, "*Response.ToWhoisStyleResponse")
	good := true
	bad := func(f string, a ...any) {
		good = false
		c.Bad("view", fn, 0, f+" ("+what+")", a...)
	}
	want := wantView(d)
	for k, l := range want {
		got, ok := v.data[k]
		if !ok {
			bad("the view has no line %q", k)
			continue
		}
		if len(got) != len(l) {
			bad("the view has %d lines %q, expected %d", len(got), k, len(l))
			continue
		}
		for i, n := range l {
			if x := c.same(v.st, got[i], v.dom[n]); x != 1 {
				good = false
				if x == -1 {
					bad("line %d of %q is %s, expected %s", i, k, short(got[i]), n)
				} else {
					c.Unknown("view", "%s: %q is %s", what, k, short(got[i]))
				}
			}
		}
	}
	for k := range v.data {
		if _, ok := want[k]; ok {
			continue
		}
		// a label of its own for something else is no harm; one of a member
		// that is absent is
		if wlabels[k] && len(v.data[k]) > 0 {
			bad("the view has a line %q for a member that is absent: %s", k, short(v.data[k][0]))
		}
	}
	n := map[string]int{}
	for _, k := range v.order {
		n[k]++
	}
	for k := range v.data {
		if len(v.data[k]) > 0 && n[k] != 1 {
			bad("label %q is %d times in the display order", k, n[k])
		}
	}
	if good {
		c.Ok("view", "%s", what)
	}
}

var wlabels = map[string]bool{}

func init() {
	d := whoisFull()
	for k := range wantView(d) {
		wlabels[k] = true
	}
}

func runC30(c *Ctx) {
	c.whoisCase("a full domain", whoisFull())
	c.whoisCase("an empty domain", &wdom{})
	c.whoisCase("only a name", &wdom{name: "x"})
	c.whoisCase("only a handle", &wdom{handle: "x"})
	c.whoisCase("only a WHOIS server", &wdom{port43: "x"})
	c.whoisCase("long lists", &wdom{status: 12, ns: 12})
	c.whoisCase("name servers without names", &wdom{nsEmpty: 2, ns: 2})
	for _, a := range []string{"registration", "last changed", "expiration", "reregistration", "transfer", "locked", "last update of RDAP database", "Registration", ""} {
		c.whoisCase("only the event "+a, &wdom{events: []string{a}})
		c.whoisCase("the event "+a+" twice", &wdom{events: []string{a, "deletion", a}})
	}
	c.whoisCase("events without date", &wdom{events: []string{"registration", "last changed", "expiration"}, emptyDates: true})
	var many []string
	for i := 0; i < 12; i++ {
		many = append(many, "transfer")
	}
	c.whoisCase("many events", &wdom{events: append(many, "registration", "expiration", "last changed")})
	all := []string{"fn", "adr", "tel", "fax", "email"}
	for _, role := range []string{"registrant", "administrative", "technical", "abuse", "registrar", "billing", "reseller"} {
		c.whoisCase("only a "+role, &wdom{ents: []*went{{roles: []string{role}, vcard: true, props: all}}})
		for _, p := range all {
			c.whoisCase("only the "+p+" of a "+role, &wdom{ents: []*went{{roles: []string{role}, vcard: true, props: []string{p}}}})
		}
		c.whoisCase("a "+role+" without vCard", &wdom{name: "x", ns: 1, ents: []*went{{roles: []string{role}, pids: []string{"IANA Registrar ID"}}, {roles: []string{role}, vcard: true, props: all}}})
		c.whoisCase("a "+role+" with an empty vCard", &wdom{ents: []*went{{roles: []string{role}, vcard: true}, {roles: []string{"x", role}, vcard: true, props: all}}})
		var l []*went
		for i := 0; i < 12; i++ {
			l = append(l, &went{roles: []string{"sponsor"}, vcard: true, props: []string{"fn"}})
		}
		l = append(l, &went{roles: []string{"a", "b", "c", role}, vcard: true, props: all, pids: []string{"x", "y", "IANA Registrar ID", "IANA Registrar ID"}})
		c.whoisCase("a "+role+" after others, as the last of its roles", &wdom{ents: l})
		c.whoisCase("two of role "+role, &wdom{ents: []*went{{}, {roles: []string{role}, vcard: true, props: all, pids: []string{"IANA Registrar ID"}}, {roles: []string{role}, vcard: true, props: all, pids: []string{"IANA Registrar ID"}}}})
	}
	c.whoisCase("one entity in all roles", &wdom{ents: []*went{{roles: []string{"registrar", "registrant", "administrative", "technical", "abuse"}, vcard: true, props: all, pids: []string{"IANA Registrar ID"}}}})
	c.whoisOthers()
	c.whoisLoops()
}

// whoisOthers: other objects give an empty view.
func (c *Ctx) whoisOthers() {
	fn := c.Func(pkgRdap, "*Response.ToWhoisStyleResponse")
	if fn == nil {
		return
	}
	e := c.E
	for _, typ := range append([]string{""}, tops...) {
		if typ == "Domain" {
			continue
		}
		t := c.typeOf(pkgRdap, typ)
		if t == nil && typ != "" {
			continue
		}
		outs, _, ok := c.Run("others", fn, c.c20hooks(), func(st *eng.State, ps []*eng.Term) []*eng.Term {
			c.assumeNil(st, ps[0], false)
			if typ == "" {
				c.setField(st, ps[0], "Object", e.Nil())
				return nil
			}
			q := e.Param("obj", types.NewPointer(t))
			c.assumeNil(st, q, false)
			root := &pnode{typ: typ}
			e.Store(st, q, c.pbuild(st, t, root, atPath(nil, 1, 0)), t)
			c.setField(st, ps[0], "Object", e.IfaceT(q, types.NewPointer(t)))
			return nil
		})
		if !ok {
			continue
		}
		v := c.wresult("others", fn, outs, nil)
		if v == nil {
			continue
		}
		if len(v.data) != 0 || len(v.order) != 0 {
			c.Bad("others", fn, 0, "the view of a %s is not empty: %s", typ, v)
			continue
		}
		c.Ok("others", "no domain (%s): empty view", typ)
	}
}

// whoisLoops: lists of any length.
func (c *Ctx) whoisLoops() {
	fn := c.Func(pkgRdap, "*Response.ToWhoisStyleResponse")
	dt := c.typeOf(pkgRdap, "Domain")
	if fn == nil || dt == nil {
		return
	}
	e := c.E
	type rec struct {
		st   *eng.State
		idx  *eng.Term
		lst  *eng.Term
		in   ssa.Instruction
		kind string
	}
	for _, m := range []string{"Status", "Nameservers", "Events"} {
		ft := c.fieldType(dt, m)
		list := e.Param("list", ft)
		strip := func(b *eng.Term) *eng.Term {
			for b.Op == eng.OSlice {
				b = b.Args[0]
			}
			return b
		}
		for _, action := range []string{"registration", "last changed", "expiration"} {
			if m != "Events" && action != "registration" {
				continue
			}
			h := c.c20hooks()
			et := ft.Underlying().(*types.Slice).Elem()
			if es, ok := et.Underlying().(*types.Struct); ok {
				h.ElemValue = func(a *eng.Term) *eng.Term {
					if strip(a.Args[0]) != list {
						return nil
					}
					fs := map[string]*eng.Term{}
					for i := 0; i < es.NumFields(); i++ {
						g := es.Field(i)
						switch g.Name() {
						case "Action":
							fs["Action"] = e.StrC(action)
						case "LDHName", "Date":
							fs[g.Name()] = e.LoadTerm(e.FieldAddr(a, i, g.Name(), g.Type()), g.Type())
						}
					}
					return e.StructT(et, fs)
				}
			}
			h.OnStore = func(st *eng.State, kind string, addr, key, val *eng.Term, fr *eng.Frame, in ssa.Instruction) {
				if kind != "mapupdate" || val == nil {
					return
				}
				l, ok := c.seq(st, val)
				if !ok {
					l = []*eng.Term{val}
				}
				for _, v := range l {
					v.Walk(func(y *eng.Term) bool {
						if b, i, ok := elemAccess(y); ok && strip(b) == list {
							e.Emit(rec{st.Clone(), i, b, in, kind})
						}
						return true
					})
				}
			}
			_, recs, ok := c.Run("loops", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
				c.assumeNil(st, ps[0], false)
				q := e.Param("dom", types.NewPointer(dt))
				c.assumeNil(st, q, false)
				e.Store(st, q, e.StructT(dt, map[string]*eng.Term{m: list}), dt)
				c.setField(st, ps[0], "Object", e.IfaceT(q, types.NewPointer(dt)))
				return nil
			})
			if !ok {
				continue
			}
			n, good := 0, true
			for _, x := range recs {
				r := x.(rec)
				if r.st.Dead {
					continue
				}
				n++
				switch d, why := c.fullRange(r.st, r.lst, r.idx); d {
				case -1:
					good = false
					c.Bad("loops", r.in.Parent(), posOf(r.in), "not all of %s is in the view: %s", m, why)
				case 0:
					good = false
					c.Unknown("loops", "%s: %s", m, why)
				}
			}
			if n == 0 {
				c.Unknown("loops", "%s is not found in the view", m)
			} else if good {
				c.Ok("loops", "all elements of %s are in the view", m)
			}
		}
	}
}
