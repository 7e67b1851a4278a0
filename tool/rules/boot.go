package rules

import (
	"fmt"
	"go/types"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	as := []string{"(RegistryCache) implementations other than the two caches behave as documented", "http.Client.Do returns a non-nil response exactly when its error is nil"}
	register(&Rule{ID: "C07", Run: runC07, Floor: 60, Assumptions: as,
		Method: "Abstract interpretation of (*Client).Do without a server once per RequestType (the registry and query text of the question handed to Lookup), and of Lookup, Download and the accessors once per RegistryType: requested URL, parser and its arguments, and the registry slot written and read are compared with the documented table on every path."})
	register(&Rule{ID: "C10", Run: runC10, Floor: 60, Assumptions: as,
		Method: "Abstract interpretation of Lookup and of the accessors for every cache state, every failure of the cache and parser, and registry loaded or not: occurrence of a network request and the origin of the registry that answers are checked on every path."})
	register(&Rule{ID: "C11", Run: runC11, Floor: 60, Assumptions: as,
		Method: "Abstract interpretation of Download, Lookup and the accessors for every combination of failures (request, status, body, parser, save, load): saving, the bytes saved, the replacement of the registry in use and the returned error are compared with the documented ones on every path."})
	register(&Rule{ID: "C13", Run: runC13, Floor: 30, Assumptions: as,
		Method: "Abstract interpretation of the disk cache methods (path arguments and permissions of every file system call) and of all users of the cache for the default and other base URLs (file name terms of State, Load and Save); all library code is scanned for other calls that write to the file system."})
}

const (
	kState = "(github.com/openrdap/rdap/bootstrap/cache.RegistryCache).State"
	kLoad  = "(github.com/openrdap/rdap/bootstrap/cache.RegistryCache).Load"
)

// regInfo is the documented table of the bootstrap registries.
var regInfo = map[string]struct {
	file, parser string
	ver          int64
}{
	"DNS":             {"dns.json", "NewDNSRegistry", 0},
	"ASN":             {"asn.json", "NewASNRegistry", 0},
	"IPv4":            {"ipv4.json", "NewNetRegistry", 4},
	"IPv6":            {"ipv6.json", "NewNetRegistry", 6},
	"ServiceProvider": {"object-tags.json", "NewServiceProviderRegistry", 0},
}

func isParser(key string) bool {
	for _, p := range regParsers {
		if p == key {
			return true
		}
	}
	return false
}

// isRegLookup: a lookup in a registry (not the client's).
func isRegLookup(key string) bool {
	return key != kLookup && strings.HasSuffix(key, "Registry).Lookup") && strings.Contains(key, "rdap/bootstrap.")
}

func regOpaque(fn *ssa.Function) bool {
	n := eng.FuncName(fn)
	return isParser(n) || isRegLookup(n)
}

// bootScn is one scenario of a bootstrap operation; 0 leaves a choice open.
type bootScn struct {
	name                                  string
	reg                                   string
	state                                 string // cache state, "" any
	loaded                                int
	def                                   int // default base URL
	load, parse, http, status, read, save int // 1 succeeds, -1 fails
	onCall                                func(st *eng.State, ev *eng.Event)
	max                                   int
	freeReg                               bool
	split                                 int
}

type bootOut struct {
	outs []*eng.Outcome
	fn   *ssa.Function
	cl   *eng.Term // client
	regs *eng.Term // map of registries
	init *eng.Term // its content at entry
	key  *eng.Term
	base *eng.Term
	q    *eng.Term
	// text of the question at entry
	query *eng.Term
}

// regsField finds the client's map of registries.
func (c *Ctx) regsField(st *eng.State, cl *eng.Term) *eng.Term {
	p, ok := cl.T.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		m, ok := s.Field(i).Type().Underlying().(*types.Map)
		if ok && strings.HasSuffix(m.Elem().String(), "bootstrap.Registry") {
			return c.Field(st, cl, s.Field(i).Name())
		}
	}
	return nil
}

func (c *Ctx) want(st *eng.State, v int, t *eng.Term) {
	if v != 0 {
		c.assumeNil(st, t, v == 1)
	}
}

// boot analyses a method of the bootstrap client.
func (c *Ctx) boot(rule, name string, s *bootScn) *bootOut {
	fn := c.Func(pkgBoot, "*Client."+name)
	if fn == nil {
		c.Unknown(rule, "%s not found", name)
		return nil
	}
	e := c.E
	rts := c.ConstsOf(pkgBoot, "RegistryType")
	sts := c.ConstsOf(pkgCache, "FileState")
	o := &bootOut{fn: fn, key: e.IntC(rts[s.reg])}
	h := &eng.Hooks{MaxStates: 400, Opaque: regOpaque}
	if s.max != 0 {
		h.MaxStates = s.max
	}
	h.SplitFacts = s.split
	h.Keep = func(ev *eng.Event) bool {
		return isParser(ev.Key) || isRegLookup(ev.Key) || ev.Key == kHTTPDo || ev.Key == kReadAll || ev.Key == kState || ev.Key == kLoad || ev.Key == kSave
	}
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		switch {
		case ev.Key == kState:
			if s.state != "" {
				if k, ok := sts[s.state]; ok {
					c.assume(st, e.Eq(ev.Res, e.IntC(k)), true)
				}
			}
		case ev.Key == kLoad:
			c.want(st, s.load, c.errOf(ev.Res))
		case ev.Key == kSave:
			c.want(st, s.save, ev.Res)
		case isParser(ev.Key):
			c.want(st, s.parse, c.errOf(ev.Res))
			if c.IsNil(st, c.errOf(ev.Res)) == 1 {
				c.assumeNil(st, c.resultOf(ev.Res, 0), false)
			}
		case ev.Key == "net/url.Parse":
			if _, isc := ev.Args[0].Str(); isc {
				c.assumeNil(st, c.errOf(ev.Res), true)
				c.assumeNil(st, c.resultOf(ev.Res, 0), false)
			}
		case ev.Key == kNewReq:
			if s.http == 1 {
				c.assumeNil(st, c.errOf(ev.Res), true)
			}
		case ev.Key == kHTTPDo:
			c.want(st, s.http, c.errOf(ev.Res))
			if s.http == 1 {
				r := c.resultOf(ev.Res, 0)
				c.assumeNil(st, r, false)
				if sc := c.Field(st, r, "StatusCode"); sc != nil && s.status != 0 {
					c.assume(st, e.Eq(sc, e.IntC(200)), s.status == 1)
				}
			}
		case ev.Key == kReadAll:
			c.want(st, s.read, c.errOf(ev.Res))
		case ev.Key == "(*net/url.URL).String" && s.def != 0 && o.base != nil && ev.Args[0] == o.base:
			c.assume(st, e.Eq(ev.Res, e.StrC("https://data.iana.org/rdap/")), s.def == 1)
		}
		if s.onCall != nil {
			s.onCall(st, ev)
		}
	}
	outs, _, ok := c.Run(rule, fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		c.bootSetup(st, ps[0])
		o.cl = ps[0]
		o.base = c.Field(st, ps[0], "BaseURL")
		o.regs = c.regsField(st, ps[0])
		args := append([]*eng.Term{}, ps...)
		if !s.freeReg {
			for i, p := range ps {
				if p.T == nil {
					continue
				}
				if strings.HasSuffix(p.T.String(), "bootstrap.RegistryType") {
					args[i] = o.key
				}
				if strings.HasSuffix(p.T.String(), "bootstrap.Question") {
					c.assumeNil(st, p, false)
					o.q = p
					o.query = c.Field(st, p, "Query")
					sv := p.T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					for j := 0; j < sv.NumFields(); j++ {
						if sv.Field(j).Name() == "RegistryType" {
							e.Store(st, e.FieldAddr(p, j, "RegistryType", sv.Field(j).Type()), o.key, sv.Field(j).Type())
						}
					}
				}
			}
		}
		if o.regs != nil {
			o.init = e.MapContent(st, o.regs)
			if s.loaded != 0 {
				vt := o.regs.T.Underlying().(*types.Map).Elem()
				v, has := e.MapLookup(st, o.init, o.key, vt)
				c.assume(st, has, s.loaded == 1)
				c.assumeNil(st, v, s.loaded != 1)
				if s.loaded == 1 {
					if t := c.regType(s.reg); t != nil {
						c.assume(st, e.Eq(e.Dyn(v), e.TypeC(t)), true)
					}
				}
			}
		}
		return args
	})
	if !ok {
		return nil
	}
	o.outs = outs
	return o
}

// regType is the type the documented parser of a registry makes.
func (c *Ctx) regType(reg string) types.Type {
	fn := c.Func(pkgBoot, regInfo[reg].parser)
	if fn == nil {
		return nil
	}
	return fn.Signature.Results().At(0).Type()
}

func evsOf(o *eng.Outcome) []*eng.Event {
	if o.St.Trace == nil {
		return nil
	}
	return o.St.Trace.Events()
}

func firstEv(o *eng.Outcome, f func(key string) bool) *eng.Event {
	for _, ev := range evsOf(o) {
		if f(ev.Key) {
			return ev
		}
	}
	return nil
}

func keyIs(k string) func(string) bool { return func(s string) bool { return s == k } }

// slot is what the client has for the registry at the end of a path.
func (c *Ctx) slot(b *bootOut, st *eng.State) *eng.Term {
	if b.regs == nil {
		return nil
	}
	m := c.regsField(st, b.cl)
	v, _ := c.E.MapLookup(st, c.E.MapContent(st, m), b.key, b.regs.T.Underlying().(*types.Map).Elem())
	return Unwrap(v)
}

// unchanged: the registries are what they were.
func (c *Ctx) unchanged(b *bootOut, st *eng.State) bool {
	m := c.regsField(st, b.cl)
	return m == b.regs && c.E.MapContent(st, m) == b.init
}

// otherSlots: only the registry's own entry may change.
func (c *Ctx) otherSlots(b *bootOut, st *eng.State) (bool, *eng.Term) {
	m := c.regsField(st, b.cl)
	x := c.E.MapContent(st, m)
	for x != nil && x != b.init {
		if x.Op != eng.OMapUpd {
			return false, x
		}
		if x.Args[1] != b.key && c.E.Decide(st, c.E.Eq(x.Args[1], b.key)) != 1 {
			return false, x.Args[1]
		}
		x = x.Args[0]
	}
	return true, nil
}

// ---- C07 ----

func runC07(c *Ctx) {
	c.bootTypes()
	c.bootTexts()
	rts := c.ConstsOf(pkgBoot, "RegistryType")
	for _, reg := range sortedKeys(rts) {
		inf, ok := regInfo[reg]
		if !ok {
			c.Unknown("table", "registry type %s is not documented", reg)
			continue
		}
		c.regFiles(reg, inf.file)
	}
}

// bootTypes: which registry Do asks, with which text.
func (c *Ctx) bootTypes() {
	fn := c.Func(pkgRdap, "*Client.Do")
	if fn == nil {
		c.Unknown("types", "(*Client).Do not found")
		return
	}
	rtypes := c.ConstsOf(pkgRdap, "RequestType")
	rts := c.ConstsOf(pkgBoot, "RegistryType")
	type scn struct {
		typ   string
		colon int
		reg   string
	}
	var ss []scn
	for _, t := range sortedKeys(rtypes) {
		switch t {
		case "DomainRequest":
			ss = append(ss, scn{t, 0, "DNS"})
		case "AutnumRequest":
			ss = append(ss, scn{t, 0, "ASN"})
		case "EntityRequest":
			ss = append(ss, scn{t, 0, "ServiceProvider"})
		case "IPRequest":
			ss = append(ss, scn{t, 1, "IPv6"}, scn{t, -1, "IPv4"})
		default:
			if _, ok := urlTable[t]; ok || t == "RawRequest" {
				ss = append(ss, scn{t, 0, ""})
			}
		}
	}
	for _, s := range ss {
		name := s.typ
		if s.colon == 1 {
			name += " with a colon"
		} else if s.colon == -1 {
			name += " without a colon"
		}
		var text *eng.Term
		n := 0
		h := &eng.Hooks{MaxStates: 300, Opaque: opaqueList(kLookup, kDecode, kURL), Keep: evKeep(kLookup)}
		h.OnCall = func(st *eng.State, ev *eng.Event) {
			if s.colon != 0 && text != nil {
				before := st.FactString()
				c.containsScenario(st, ev, text, ':', s.colon == 1)
				if st.Dead || st.FactString() != before {
					st.Prop = "colon"
				}
			}
			if ev.Key != kLookup {
				return
			}
			n++
			q := ev.Args[1]
			if s.reg == "" {
				c.Bad("types", ev.Fn, posOf(ev.Instr), "%s is bootstrapped", name)
				return
			}
			rt := c.FieldOf(st, q, "RegistryType")
			qt := c.FieldOf(st, q, "Query")
			if rt == nil || qt == nil {
				c.Unknown("types", "%s: the question has no registry type or text", name)
				return
			}
			c.Check(qt == text, "types", ev.Fn, posOf(ev.Instr), "%s is looked up with exactly its text (%s)", name, short(qt))
			k, isc := rt.Int()
			if !isc {
				if v, ok := st.AVOf(rt).Values(1); ok && len(v) == 1 {
					k, isc = v[0], true
				}
			}
			switch {
			case isc && k == rts[s.reg]:
				c.Ok("types", "%s is looked up in %s", name, s.reg)
			case !isc:
				c.Unknown("types", "%s: registry type %s", name, short(rt))
			case s.colon != 0 && st.Prop != "colon" && (k == rts["IPv4"] || k == rts["IPv6"]):
				c.Unknown("types", "%s: the IP version is decided in an unknown way", name)
			default:
				c.Bad("types", ev.Fn, posOf(ev.Instr), "%s is looked up in the %s registry", name, constName(rts, k))
			}
		}
		_, _, ok := c.Run("types", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
			text = c.Field(st, ps[1], "Query")
			return c.doSetup(false, rtypes[s.typ])(st, ps)
		})
		if ok && n == 0 {
			if s.reg != "" {
				c.Bad("types", fn, 0, "%s without a server is not bootstrapped", name)
			} else {
				c.Ok("types", "%s is not bootstrapped", name)
			}
		}
	}
}

// bootTexts: the registry IP queries of several notations are looked up in.
func (c *Ctx) bootTexts() {
	fn := c.Func(pkgRdap, "*Client.Do")
	rtypes := c.ConstsOf(pkgRdap, "RequestType")
	rts := c.ConstsOf(pkgBoot, "RegistryType")
	typ, ok := rtypes["IPRequest"]
	if fn == nil || !ok {
		return
	}
	for _, t := range [][2]string{
		{"192.0.2.1", "IPv4"}, {"192.0.2.0/24", "IPv4"}, {"0.0.0.0", "IPv4"}, {"10.0.0.0/8", "IPv4"}, {"255.255.255.255/32", "IPv4"},
		{"2001:db8::1", "IPv6"}, {"2001:db8::", "IPv6"}, {"::", "IPv6"}, {"::1", "IPv6"}, {"2001:db8::/32", "IPv6"}, {"::/0", "IPv6"}, {"2001:db8::192.0.2.1", "IPv6"}, {"2001:db8::192.0.2.0/120", "IPv6"}, {"64:ff9b::192.0.2.33", "IPv6"},
		{"2001:0DB8:0000:0000:0000:0000:0000:0001", "IPv6"}, {"fe80::1:2:3:4", "IPv6"},
	} {
		good, wrong, unk := 0, "", false
		var at *eng.Event
		h := &eng.Hooks{MaxStates: 300, Opaque: opaqueList(kLookup, kDecode, kURL), Keep: evKeep(kLookup)}
		h.OnCall = func(st *eng.State, ev *eng.Event) {
			if ev.Key != kLookup {
				return
			}
			rt := c.FieldOf(st, ev.Args[1], "RegistryType")
			if rt == nil {
				unk = true
				return
			}
			k, isc := rt.Int()
			switch {
			case !isc:
				unk = true
			case k == rts[t[1]]:
				good++
			default:
				wrong, at = constName(rts, k), ev
			}
		}
		c.Run("types", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
			r := c.doSetup(false, typ)(st, ps)
			q := ps[1]
			if len(r) > 1 && r[1] != nil {
				q = r[1]
			}
			c.setField(st, q, "Query", c.E.StrC(t[0]))
			return r
		})
		switch {
		case wrong != "" && good == 0 && !unk:
			c.Bad("types", at.Fn, posOf(at.Instr), "the query '%s' is looked up in the %s registry, not in %s", t[0], wrong, t[1])
		case wrong == "" && good > 0 && !unk:
			c.Ok("types", "'%s' is looked up in %s", t[0], t[1])
		default:
			c.Unknown("types", "the registry of '%s'", t[0])
		}
	}
}

// regFiles: URL, parser and slot of a registry.
func (c *Ctx) regFiles(reg, file string) {
	inf := regInfo[reg]
	if fn := c.Func(pkgBoot, "RegistryType.Filename"); fn != nil {
		rts := c.ConstsOf(pkgBoot, "RegistryType")
		outs, _, ok := c.Run("file", fn, &eng.Hooks{}, func(st *eng.State, ps []*eng.Term) []*eng.Term {
			return []*eng.Term{c.E.IntC(rts[reg])}
		})
		if ok {
			for _, o := range outs {
				if o.Panic {
					c.Bad("file", fn, posOf(o.In), "%s has no file name", reg)
					continue
				}
				if s, isc := o.Rets[0].Str(); isc {
					c.Check(s == file, "file", fn, posOf(o.In), "the file name of %s is %s (%s)", reg, file, s)
				} else {
					c.Unknown("file", "file name %s", short(o.Rets[0]))
				}
			}
		}
	}
	checkParser := func(b *bootOut, ev *eng.Event, what string) {
		if !isParser(ev.Key) {
			return
		}
		short := ev.Key[strings.LastIndexByte(ev.Key, '.')+1:]
		c.Check(short == inf.parser, "parser", ev.Fn, posOf(ev.Instr), "%s %s: parsed by %s (%s)", what, reg, inf.parser, short)
		if inf.ver != 0 && short == inf.parser && len(ev.Args) > 1 {
			k, isc := ev.Args[1].Int()
			c.Check(isc && k == inf.ver, "parser", ev.Fn, posOf(ev.Instr), "%s %s: parsed with its own IP version (%d)", what, reg, k)
		}
	}
	// downloads
	for _, op := range []string{"Download", "DownloadWithContext", "Lookup"} {
		nreq, nparse := 0, 0
		var b *bootOut
		s := &bootScn{reg: reg, split: 60, loaded: -1, state: "Absent", load: 1, parse: 1, http: 1, status: 1, read: 1, save: 1}
		var pend []*eng.Event
		s.onCall = func(st *eng.State, ev *eng.Event) {
			switch {
			case ev.Key == kHTTPDo:
				nreq++
				c.belowBase(op+" "+reg, st, ev, file)
			case isParser(ev.Key):
				nparse++
				pend = append(pend, ev)
			}
		}
		b = c.boot("download", op, s)
		if b == nil {
			continue
		}
		for _, ev := range pend {
			checkParser(b, ev, op)
		}
		if nreq == 0 {
			c.Bad("download", b.fn, 0, "%s %s: the registry is not downloaded", op, reg)
		}
		if nparse == 0 {
			c.Unknown("parser", "%s %s: no parser found", op, reg)
		}
		for _, o := range b.outs {
			if o.Panic {
				continue
			}
			pos := posOf(o.In)
			if b.regs == nil {
				c.Unknown("slot", "no registry map found")
				break
			}
			if ok, k := c.otherSlots(b, o.St); !ok {
				c.Bad("slot", b.fn, pos, "%s %s: another registry is changed (%s)", op, reg, short(k))
			}
			if op != "Lookup" {
				continue
			}
			lk := firstEv(o, isRegLookup)
			p := firstEv(o, isParser)
			if lk == nil || p == nil {
				c.Unknown("slot", "%s %s: no lookup in a registry", op, reg)
				continue
			}
			c.Check(Unwrap(lk.Args[0]) == c.resultOf(p.Res, 0), "slot", b.fn, pos, "%s %s: answered by the registry's own parser result (%s)", op, reg, short(lk.Args[0]))
			c.sameQuestion(b, o.St, lk, op+" "+reg)
			c.Check(o.Rets[0] == c.resultOf(lk.Res, 0) && o.Rets[1] == c.errOf(lk.Res), "slot", b.fn, pos, "%s %s: the registry's answer is returned", op, reg)
		}
	}
	// loaded registry
	if b := c.boot("slot", "Lookup", &bootScn{reg: reg, loaded: 1, state: "Good"}); b != nil && b.regs != nil {
		for _, o := range b.outs {
			if o.Panic {
				continue
			}
			lk := firstEv(o, isRegLookup)
			if lk == nil {
				c.Unknown("slot", "Lookup %s: no lookup in a registry", reg)
				continue
			}
			got := Unwrap(lk.Args[0])
			for got.Op == eng.OAssert {
				got = got.Args[0]
			}
			c.Check(got == c.slotInit(b), "slot", b.fn, posOf(o.In), "Lookup %s: answered by the loaded registry (%s)", reg, short(lk.Args[0]))
			c.sameQuestion(b, o.St, lk, "Lookup "+reg)
		}
	}
	// accessor
	for _, state := range []string{"ShouldReload", "Good"} {
		var pend []*eng.Event
		s := &bootScn{reg: reg, loaded: 1, state: state, load: 1, parse: 1, onCall: func(st *eng.State, ev *eng.Event) {
			if isParser(ev.Key) {
				pend = append(pend, ev)
			}
		}}
		b := c.boot("accessor", reg, s)
		if b == nil || b.regs == nil {
			continue
		}
		for _, ev := range pend {
			checkParser(b, ev, "accessor")
		}
		for _, o := range b.outs {
			if o.Panic {
				continue
			}
			got := o.Rets[0]
			for got.Op == eng.OAssert || got.Op == eng.OExtract && got.Args[0].Op == eng.OAssert {
				got = got.Args[0]
			}
			want := c.slot(b, o.St)
			d := c.E.Decide(o.St, c.E.Eq(got, want))
			if got == want || d == 1 || got == c.E.AssertT(want, c.regType(reg)) || o.Rets[0] == c.E.AssertT(want, c.regType(reg)) {
				c.Ok("accessor", "%s() returns the registry in use", reg)
			} else if k := mapKeyOf(got); k != nil && c.E.Decide(o.St, c.E.Eq(k, b.key)) == -1 {
				c.Bad("accessor", b.fn, posOf(o.In), "%s() returns another registry (%s)", reg, short(got))
			} else if got.IsNil() {
				c.Bad("accessor", b.fn, posOf(o.In), "%s() returns nil although the registry is loaded", reg)
			} else {
				c.Unknown("accessor", "%s() returns %s, not %s", reg, short(got), short(want))
			}
		}
	}
}

// sameQuestion: the registry is asked with the text of the client's question.
func (c *Ctx) sameQuestion(b *bootOut, st *eng.State, lk *eng.Event, name string) {
	if lk.Args[1] == b.q {
		c.Ok("slot", "%s: the question itself is looked up", name)
		return
	}
	got := c.FieldOf(st, lk.Args[1], "Query")
	if got == nil || b.query == nil {
		c.Unknown("slot", "%s: question %s", name, short(lk.Args[1]))
		return
	}
	c.Check(got == b.query, "slot", b.fn, posOf(lk.Instr), "%s: the text of the question is looked up (%s)", name, short(got))
}

func mapKeyOf(t *eng.Term) *eng.Term {
	if t != nil && t.Op == eng.OMapGet {
		return t.Args[1]
	}
	return nil
}

// slotInit is the registry in use at entry.
func (c *Ctx) slotInit(b *bootOut) *eng.Term {
	v, _ := c.E.MapLookup(c.E.EmptyState(), b.init, b.key, b.regs.T.Underlying().(*types.Map).Elem())
	return Unwrap(v)
}

// belowBase: the request is for file below the configured base URL.
func (c *Ctx) belowBase(name string, st *eng.State, ev *eng.Event, file string) {
	req := Unwrap(ev.Args[1])
	if req.Op != eng.OExtract || !isCall(req.Args[0], kNewReq) {
		c.Unknown("download", "%s: request of unknown origin %s", name, short(req))
		return
	}
	u := req.Args[0].Args[2]
	v, why := c.fileURL(st, u, file)
	switch v {
	case 1:
		c.Ok("download", "%s: fetched from %s below the base URL", name, file)
	case -1:
		c.Bad("download", ev.Fn, posOf(ev.Instr), "%s: %s (%s)", name, why, short(u))
	default:
		c.Unknown("download", "%s: URL %s", name, short(u))
	}
}

// fileURL: u is the text of file resolved below BaseURL.
func (c *Ctx) fileURL(st *eng.State, u *eng.Term, file string) (int, string) {
	isBase := func(t *eng.Term) bool {
		t = stripConv(t)
		return t != nil && t.Op == eng.OLoad && t.Args[0].Op == eng.OFieldAddr && t.Args[0].S == "BaseURL"
	}
	// constants in the URL must not name another file
	other := ""
	base := false
	u.Walk(func(x *eng.Term) bool {
		if s, ok := x.Str(); ok && strings.HasSuffix(s, ".json") && !strings.HasSuffix(s, file) {
			other = s
		}
		if isBase(x) {
			base = true
		}
		return true
	})
	if other != "" {
		return -1, "fetched from " + other
	}
	if !base {
		free := false
		u.Walk(func(x *eng.Term) bool {
			if x.Op == eng.OParam || x.Op == eng.OSym {
				free = true
			}
			return true
		})
		if !free {
			return -1, "not fetched from the base URL"
		}
		return 0, ""
	}
	t := u
	if isCall(t, "(*net/url.URL).String") {
		t = t.Args[0]
	} else if t.Op == eng.OFmt {
		t = Unwrap(t.Args[0])
	}
	switch {
	case isCall(t, "(*net/url.URL).ResolveReference"):
		ref := t.Args[1]
		if !(isResult(ref, "net/url.Parse", 0) && isStr(ref.Args[0].Args[0], file)) {
			if isResult(ref, "net/url.Parse", 0) {
				if s, ok := ref.Args[0].Args[0].Str(); ok {
					return -1, "fetched from " + s
				}
			}
			return 0, ""
		}
		b := t.Args[0]
		p := c.FieldOf(st, b, "Path")
		if b.Op == eng.OLoad && p == nil {
			return 0, ""
		}
		if p == nil {
			return 0, ""
		}
		if bad := c.changedURL(b, "Path", "RawPath", "RawQuery", "Fragment", "RawFragment", "ForceQuery", "OmitHost"); bad != "" {
			return -1, "the base URL's " + bad + " is changed"
		}
		return c.endsInSlash(st, p)
	case isCall(t, "(*net/url.URL).JoinPath"):
		if len(t.Args) > 1 && strings.Contains(t.String(), file) {
			return 1, ""
		}
	}
	return 0, ""
}

func isStr(t *eng.Term, s string) bool {
	x, ok := t.Str()
	return ok && x == s
}

// changedURL names a field of a URL value that is not that of BaseURL.
func (c *Ctx) changedURL(b *eng.Term, may ...string) string {
	if b.Op != eng.OStruct {
		return ""
	}
	s, ok := b.T.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i, a := range b.Args {
		n := s.Field(i).Name()
		skip := false
		for _, m := range may {
			if m == n {
				skip = true
			}
		}
		if skip || a == nil {
			continue
		}
		if a.Op == eng.OConst || a.IsNil() {
			return n
		}
	}
	return ""
}

// endsInSlash: path p ends in a slash or is empty.
func (c *Ctx) endsInSlash(st *eng.State, p *eng.Term) (int, string) {
	if s, ok := p.Str(); ok {
		if s == "" || strings.HasSuffix(s, "/") {
			return 1, ""
		}
		return -1, "the last segment of the base URL's path is dropped"
	}
	if p.Op == eng.OConcat {
		if s, ok := p.Args[len(p.Args)-1].Str(); ok && strings.HasSuffix(s, "/") {
			return 1, ""
		}
	}
	e := c.E
	if e.Decide(st, e.Eq(p, e.StrC(""))) == 1 || e.Decide(st, e.Eq(e.Len(p), e.IntC(0))) == 1 {
		return 1, ""
	}
	last := e.Index(p, e.Bin2Sub(e.Len(p), 1), types.Typ[types.Byte])
	if e.Decide(st, e.Eq(last, e.IntC('/'))) == 1 {
		return 1, ""
	}
	known := e.Decide(st, e.Eq(last, e.IntC('/')))
	for _, t := range st.FactTerms() {
		if t.Op == eng.OCall && t.S == "strings.HasSuffix" && t.Args[0] == p && isStr(t.Args[1], "/") {
			known = e.Decide(st, t)
			if known == 1 {
				return 1, ""
			}
		}
	}
	if p.Op == eng.OLoad && (known == -1 || len(mentions(st, p)) == 0) {
		return -1, "the last segment of the base URL's path is dropped when it has no trailing slash"
	}
	return 0, ""
}

// mentions lists the facts about text p.
func mentions(st *eng.State, p *eng.Term) []*eng.Term {
	var r []*eng.Term
	for _, t := range st.FactTerms() {
		if t != p && t.Contains(p) {
			r = append(r, t)
		}
	}
	return r
}

// ---- C10 ----

func runC10(c *Ctx) {
	rts := c.ConstsOf(pkgBoot, "RegistryType")
	for _, reg := range sortedKeys(rts) {
		if _, ok := regInfo[reg]; !ok {
			continue
		}
		type scn struct {
			state       string
			loaded      int
			load, parse int
			net         int    // 1: must download, -1: must not
			from        string // body, file, memory
		}
		var ss []scn
		for _, l := range []int{1, -1} {
			for _, st := range []string{"Absent", "Expired"} {
				ss = append(ss, scn{st, l, 0, 1, 1, "body"})
			}
			ss = append(ss, scn{"ShouldReload", l, 1, 1, -1, "file"}, scn{"ShouldReload", l, -1, 1, 1, "body"}, scn{"ShouldReload", l, 1, -1, 1, ""})
		}
		ss = append(ss, scn{"Good", 1, 0, 0, -1, "memory"}, scn{"Good", -1, 1, 1, 0, "body or file"})
		for _, s := range ss {
			name := fmt.Sprintf("Lookup %s, cache %s", reg, s.state)
			if s.loaded == 1 {
				name += ", loaded"
			}
			if s.load == -1 {
				name += ", file cannot be read"
			}
			if s.parse == -1 {
				name += ", file does not parse"
			}
			// with a parse failure the download fails too, what counts is that it was tried
			b := c.boot("network", "Lookup", &bootScn{reg: reg, state: s.state, loaded: s.loaded, load: s.load, parse: s.parse, http: 1, status: 1, read: 1, save: 1})
			if b == nil {
				continue
			}
			if b.regs == nil {
				c.Unknown("network", "no registry map found")
				return
			}
			n := 0
			for _, o := range b.outs {
				if o.Panic {
					continue
				}
				n++
				pos := posOf(o.In)
				get := firstEv(o, keyIs(kHTTPDo))
				if s.net == 1 {
					c.Check(get != nil, "network", b.fn, pos, "%s: the file is downloaded", name)
				}
				if s.net == -1 {
					c.Check(get == nil, "network", b.fn, pos, "%s: no network request is made", name)
				}
				if s.from == "" {
					c.Check(c.IsNil(o.St, o.Rets[1]) == -1, "network", b.fn, pos, "%s: a file that does not parse gives an error", name)
					continue
				}
				lk := firstEv(o, isRegLookup)
				if lk == nil {
					c.Bad("answer", b.fn, pos, "%s: no registry is asked", name)
					continue
				}
				c.Check(o.Rets[0] == c.resultOf(lk.Res, 0) && o.Rets[1] == c.errOf(lk.Res), "answer", b.fn, pos, "%s: the registry's answer is returned", name)
				if get != nil {
					late := false
					for _, ev := range evsOf(o) {
						if ev == lk {
							late = true
						}
						if ev == get && late {
							c.Bad("answer", b.fn, pos, "%s: the registry is asked before the download", name)
						}
					}
				}
				src := c.regSource(b, lk.Args[0], o)
				c.Check(strings.Contains(s.from, src) && src != "", "answer", b.fn, pos, "%s: answered from the %s (%s)", name, s.from, orNone(src))
				if st := firstEv(o, keyIs(kState)); st == nil {
					c.Unknown("network", "%s: the cache state is not asked for", name)
				}
			}
			if n == 0 {
				c.Bad("network", b.fn, 0, "%s: no path ends", name)
			}
		}
		// accessors
		for _, s := range []scn{{"", 0, 0, 0, -1, ""}, {"ShouldReload", 1, 1, 1, -1, "file"}, {"ShouldReload", -1, 1, 1, -1, "file"}, {"Good", 1, 0, 0, -1, "memory"}, {"ShouldReload", 1, -1, 0, -1, "memory"}, {"ShouldReload", 1, 1, -1, -1, "memory"}} {
			name := fmt.Sprintf("%s(), cache %s", reg, s.state)
			b := c.boot("accessor", reg, &bootScn{reg: reg, state: s.state, loaded: s.loaded, load: s.load, parse: s.parse})
			if b == nil {
				continue
			}
			for _, o := range b.outs {
				if o.Panic {
					continue
				}
				pos := posOf(o.In)
				c.Check(firstEv(o, keyIs(kHTTPDo)) == nil, "accessor", b.fn, pos, "%s: no network request is made", name)
				if s.from == "" {
					continue
				}
				src := c.regSource(b, c.slot(b, o.St), o)
				c.Check(src == s.from, "accessor", b.fn, pos, "%s: the registry from the %s is in use (%s)", name, s.from, orNone(src))
			}
		}
	}
}

func orNone(s string) string {
	if s == "" {
		return "neither"
	}
	return s
}

// regSource tells where a registry value comes from: body, file or memory.
func (c *Ctx) regSource(b *bootOut, r *eng.Term, o *eng.Outcome) string {
	r = Unwrap(r)
	if r.Op == eng.OExtract && r.Args[0].Op == eng.OCall && isParser(r.Args[0].S) {
		a := stripConv(r.Args[0].Args[0])
		switch {
		case isResult(a, kReadAll, 0):
			return "body"
		case isResult(a, kLoad, 0):
			return "file"
		}
		return ""
	}
	if r == c.slotInit(b) || r.Op == eng.OAssert && r.Args[0] == c.slotInit(b) {
		return "memory"
	}
	return ""
}

// ---- C11 ----

func runC11(c *Ctx) {
	rts := c.ConstsOf(pkgBoot, "RegistryType")
	for _, reg := range sortedKeys(rts) {
		if _, ok := regInfo[reg]; !ok {
			continue
		}
		fails := []struct {
			name                            string
			http, status, read, parse, save int
		}{
			{"success", 1, 1, 1, 1, 1},
			{"request fails", -1, 0, 0, 1, 1},
			{"status is not 200", 1, -1, 0, 1, 1},
			{"body cannot be read", 1, 1, -1, 0, 1},
			{"file does not parse", 1, 1, 1, -1, 1},
			{"cache cannot save", 1, 1, 1, 1, -1},
		}
		for _, op := range []string{"DownloadWithContext", "Download", "Lookup"} {
			for _, f := range fails {
				name := op + " " + reg + ", " + f.name
				b := c.boot("download", op, &bootScn{reg: reg, state: "Absent", loaded: 1, http: f.http, status: f.status, read: f.read, parse: f.parse, save: f.save})
				if b == nil {
					continue
				}
				ok := f.name == "success"
				n := 0
				for _, o := range b.outs {
					if o.Panic {
						continue
					}
					n++
					pos := posOf(o.In)
					err := o.Rets[len(o.Rets)-1]
					sv := firstEv(o, keyIs(kSave))
					if f.name != "success" && f.name != "cache cannot save" {
						c.Check(sv == nil, "save", b.fn, pos, "%s: nothing is saved", name)
					} else if sv == nil {
						c.Bad("save", b.fn, pos, "%s: the file is not saved", name)
					}
					if sv != nil {
						d := stripConv(sv.Args[2])
						rd := firstEv(o, keyIs(kReadAll))
						switch {
						case rd != nil && d == c.resultOf(rd.Res, 0):
							c.Ok("bytes", "%s: the downloaded bytes are saved", name)
							body := stripConv(Unwrap(rd.Args[0]))
							if body.Op == eng.OCall || body.Op == eng.OAlloc {
								c.Bad("bytes", b.fn, posOf(rd.Instr), "%s: the body is not read directly and may be cut off (%s)", name, short(body))
							}
						case d.Op == eng.OSlice || d.Op == eng.OCall:
							c.Bad("bytes", b.fn, posOf(sv.Instr), "%s: other bytes than the downloaded ones are saved (%s)", name, short(d))
						default:
							c.Unknown("bytes", "%s: saved bytes %s", name, short(d))
						}
					}
					if b.regs == nil {
						c.Unknown("replace", "no registry map found")
						continue
					}
					if ok {
						p := firstEv(o, isParser)
						if p == nil {
							c.Bad("replace", b.fn, pos, "%s: the file is not parsed", name)
							continue
						}
						c.Check(c.slot(b, o.St) == c.resultOf(p.Res, 0), "replace", b.fn, pos, "%s: the parsed registry is in use afterwards", name)
						if op != "Lookup" {
							c.Check(c.IsNil(o.St, err) == 1, "error", b.fn, pos, "%s: no error is returned (%s)", name, short(err))
						}
						if rd := firstEv(o, keyIs(kReadAll)); rd != nil {
							c.Check(stripConv(p.Args[0]) == c.resultOf(rd.Res, 0), "replace", b.fn, posOf(p.Instr), "%s: the whole body is parsed (%s)", name, short(p.Args[0]))
						}
					} else {
						c.Check(c.unchanged(b, o.St), "replace", b.fn, pos, "%s: the registry in use stays as it was", name)
						c.Check(c.IsNil(o.St, err) == -1, "error", b.fn, pos, "%s: an error is returned (%s)", name, short(err))
					}
				}
				if n == 0 {
					c.Unknown("download", "%s: no path ends", name)
				}
			}
		}
		// from the cache
		for _, op := range []string{"Lookup", reg} {
			for _, f := range []struct {
				name        string
				load, parse int
			}{{"file cannot be read", -1, 0}, {"file does not parse", 1, -1}} {
				name := op + " " + reg + ", cached " + f.name
				bad := 0
				s := &bootScn{reg: reg, state: "ShouldReload", loaded: 1, load: f.load, parse: f.parse, http: -1}
				b := c.boot("cached", op, s)
				if b == nil || b.regs == nil {
					continue
				}
				for _, o := range b.outs {
					if !o.Panic {
						c.Check(c.unchanged(b, o.St), "cached", b.fn, posOf(o.In), "%s: the registry in use stays as it was", name)
						bad++
					}
				}
				if bad == 0 {
					c.Unknown("cached", "%s: no path ends", name)
				}
			}
		}
	}
}

// ---- C13 ----

func runC13(c *Ctx) {
	c.cacheFiles()
	c.writeScan()
	rts := c.ConstsOf(pkgBoot, "RegistryType")
	for _, reg := range sortedKeys(rts) {
		inf, ok := regInfo[reg]
		if !ok {
			continue
		}
		for _, def := range []int{1, -1} {
			for _, op := range []string{"Lookup", "DownloadWithContext", "Download", reg} {
				name := op + " " + reg
				if def == 1 {
					name += ", default service"
				} else {
					name += ", other service"
				}
				var names []*eng.Event
				s := &bootScn{reg: reg, def: def, http: 1, status: 1, read: 1, onCall: func(st *eng.State, ev *eng.Event) {
					if ev.Key == kState || ev.Key == kLoad || ev.Key == kSave {
						names = append(names, ev)
					}
				}}
				b := c.boot("names", op, s)
				if b == nil {
					continue
				}
				var first *eng.Term
				for _, ev := range names {
					t := stripConv(ev.Args[1])
					if first == nil {
						first = t
					}
					c.Check(t == first, "names", ev.Fn, posOf(ev.Instr), "%s: the same name is used for all cache accesses", name)
					v, why := c.cacheName(t, b.base, inf.file, def == 1)
					switch v {
					case 1:
						c.Ok("names", "%s: file name", name)
					case -1:
						c.Bad("names", ev.Fn, posOf(ev.Instr), "%s: %s (%s)", name, why, short(t))
					default:
						c.Unknown("names", "%s: file name %s", name, short(t))
					}
				}
				if len(names) == 0 {
					c.Unknown("names", "%s: the cache is not used", name)
				}
			}
		}
	}
}

// cacheName checks the name of a cache file.
func (c *Ctx) cacheName(t, base *eng.Term, file string, def bool) (int, string) {
	if s, ok := t.Str(); ok {
		switch {
		case !def:
			return -1, "files of different services have the same name"
		case s != file:
			return -1, "the cache file is not named " + file
		}
		return 1, ""
	}
	// the last part must be the file name, the rest a digest of the base URL
	var parts []*eng.Term
	if t.Op == eng.OConcat {
		parts = t.Args
	} else {
		return 0, ""
	}
	tail, ok := parts[len(parts)-1].Str()
	if !ok {
		return 0, ""
	}
	if !strings.HasSuffix(tail, file) {
		return -1, "the cache file is not named after " + file
	}
	if strings.ContainsAny(tail, "/\\") {
		return -1, "the cache file is not directly in the directory"
	}
	if def {
		return -1, "the file of the default service has a prefix"
	}
	digest, text, plain, cut := false, false, false, int64(-1)
	for _, p := range parts[:len(parts)-1] {
		x := p
		if x.Op == eng.OFmt {
			if x.S == "%x" {
				digest = true
			}
			x = Unwrap(x.Args[0])
		}
		hashed := false
		x.Walk(func(y *eng.Term) bool {
			if y.Op == eng.OCall && (strings.HasPrefix(y.S, "crypto/") || strings.HasPrefix(y.S, "(hash.Hash)") || strings.HasPrefix(y.S, "hash/")) {
				hashed = true
			}
			if y.Op == eng.OFmt && (y.S == "%x" || y.S == "%X") || y.Op == eng.OCall && y.S == "encoding/hex.EncodeToString" {
				digest = true
			}
			if y.Op == eng.OSlice && y.Args[2] != nil {
				if hi, ok := y.Args[2].Int(); ok {
					lo := int64(0)
					if y.Args[1] != nil {
						lo, _ = y.Args[1].Int()
					}
					if cut < 0 || hi-lo < cut {
						cut = hi - lo
					}
				}
			}
			return true
		})
		if strings.Contains(x.String(), "URL).String") && x.Contains(base) {
			text = true
			if !hashed {
				plain = true
			}
		} else if x.Contains(base) {
			// a part of the URL only
			if isPartOfURL(x, base) {
				return -1, "only a part of the base URL tells services apart"
			}
		}
	}
	switch {
	case plain:
		return -1, "the base URL itself is part of the file name"
	case !text:
		whole := false
		for _, p := range parts[:len(parts)-1] {
			if p.Contains(base) {
				whole = true
			}
		}
		if !whole {
			return -1, "the name does not depend on the base URL"
		}
		return 0, ""
	case !digest:
		return 0, ""
	case cut >= 0 && cut < 6:
		return -1, fmt.Sprintf("only %d characters of the digest are used", cut)
	}
	return 1, ""
}

// isPartOfURL: t uses a single component of the URL.
func isPartOfURL(t, base *eng.Term) bool {
	part, whole := false, false
	t.Walk(func(x *eng.Term) bool {
		if x.Op == eng.OCall && strings.HasPrefix(x.S, "(*net/url.URL).") && len(x.Args) > 0 && x.Args[0] == base {
			if strings.HasSuffix(x.S, ".String") {
				whole = true
			} else {
				part = true
			}
			return false
		}
		if x.Op == eng.OFieldAddr && x.Args[0] == base {
			part = true
		}
		return true
	})
	return part && !whole
}

// cacheFiles: the disk cache's file system calls.
func (c *Ctx) cacheFiles() {
	for _, m := range []string{"InitDir", "Save", "Load", "State"} {
		fn := c.Func(pkgCache, "*DiskCache."+m)
		if fn == nil {
			c.Unknown("paths", "(*DiskCache).%s not found", m)
			continue
		}
		var dir, file *eng.Term
		n := 0
		h := &eng.Hooks{MaxStates: 200}
		h.OnCall = func(st *eng.State, ev *eng.Event) {
			args := fileCall(ev)
			if args == nil {
				return
			}
			// methods of an open file carry no path
			if strings.HasPrefix(ev.Key, "(*os.File)") || len(args) == 0 {
				return
			}
			for i, a := range args {
				if a == nil || a.T == nil {
					continue
				}
				bt, ok := a.T.Underlying().(*types.Basic)
				if !ok {
					continue
				}
				switch {
				case bt.Info()&types.IsString != 0:
					n++
					v, why := c.inDir(st, a, dir, file, ev.Key)
					switch v {
					case 1:
						c.Ok("paths", "%s in %s stays in the cache directory", ev.Key, m)
					case -1:
						c.Bad("paths", ev.Fn, posOf(ev.Instr), "%s: %s of %s", m, ev.Key, why)
					default:
						c.Unknown("paths", "%s: %s of %s", m, ev.Key, short(a))
					}
				case bt.Info()&types.IsInteger != 0 && i == len(args)-1 && isPermCall(ev.Key):
					if k, ok := a.Int(); ok {
						c.Check(k&0o007 == 0, "perm", ev.Fn, posOf(ev.Instr), "%s: %s without access for other users (%#o)", m, ev.Key, k)
					} else {
						c.Unknown("perm", "%s: %s with mode %s", m, ev.Key, short(a))
					}
				}
			}
		}
		c.Run("paths", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
			dir = c.Field(st, ps[0], "Dir")
			if len(ps) > 1 {
				file = ps[1]
			}
			return nil
		})
		if n == 0 {
			c.Unknown("paths", "%s uses no file", m)
		}
	}
}

func isPermCall(k string) bool {
	switch k {
	case "os.WriteFile", "os.MkdirAll", "os.Mkdir", "os.OpenFile", "io/ioutil.WriteFile", "os.Chmod":
		return true
	}
	return false
}

// inDir: path is the directory itself or the file in it.
func (c *Ctx) inDir(st *eng.State, p, dir, file *eng.Term, key string) (int, string) {
	p = stripConv(p)
	for isCall(p, "path/filepath.Clean") {
		p = p.Args[0]
	}
	if p == dir {
		if key == "os.WriteFile" || key == "os.ReadFile" || key == "os.Create" {
			return -1, "the cache directory itself"
		}
		return 1, ""
	}
	if s, ok := p.Str(); ok && (key == "os.Getenv" || s == "") {
		return 1, ""
	}
	if isCall(p, "path/filepath.Join") || isCall(p, "path.Join") {
		el := joinArgs(c, st, p)
		if len(el) == 2 && el[0] == dir && el[1] == file {
			return 1, ""
		}
		if len(el) == 2 && el[0] == dir {
			if isCall(el[1], "path/filepath.Base") && el[1].Args[0] == file {
				return 1, ""
			}
			if el[1].Op == eng.OConcat && el[1].Contains(file) && (strings.HasPrefix(key, "os.Rename") || strings.HasPrefix(key, "os.Write") || strings.HasPrefix(key, "os.Create") || strings.HasPrefix(key, "os.Open") || strings.HasPrefix(key, "os.Remove")) {
				return 0, "" // a temporary file beside it
			}
			return -1, "another file name (" + short(el[1]) + ")"
		}
		if len(el) > 0 && el[0] != dir && !el[0].Contains(dir) {
			return -1, "a path outside the cache directory (" + short(p) + ")"
		}
		if len(el) > 2 {
			return -1, "a path below the cache directory (" + short(p) + ")"
		}
		return 0, ""
	}
	if p.Op == eng.OConcat {
		// dir + "/" + file
		if p.Args[0] == dir && p.Args[len(p.Args)-1] == file && len(p.Args) == 3 {
			if s, ok := p.Args[1].Str(); ok && (s == "/" || s == string('/')) {
				return 1, ""
			}
		}
		if len(p.Args) == 2 && p.Args[0] == dir && p.Args[1] == file {
			return -1, "a path beside the cache directory (no separator)"
		}
		return 0, ""
	}
	if file != nil && p == file {
		return -1, "a path that is not in the cache directory"
	}
	if !p.Contains(dir) {
		if strings.HasPrefix(key, "os.Create") || strings.HasPrefix(key, "os.Mkdir") {
			return 0, ""
		}
		if p.Op == eng.OConst || file != nil && p.Contains(file) {
			return -1, "a path that is not in the cache directory (" + short(p) + ")"
		}
	}
	return 0, ""
}

func joinArgs(c *Ctx, st *eng.State, p *eng.Term) []*eng.Term {
	if len(p.Args) == 1 {
		if el := c.E.Elems(st, p.Args[0]); el != nil {
			return el
		}
	}
	return p.Args
}

// writeScan: nothing but the disk cache writes files.
func (c *Ctx) writeScan() {
	writes := map[string]bool{"os.WriteFile": true, "os.Create": true, "os.OpenFile": true, "os.Mkdir": true, "os.MkdirAll": true, "os.Rename": true, "os.Remove": true, "os.RemoveAll": true,
		"os.Chmod": true, "os.Chown": true, "os.Link": true, "os.Symlink": true, "os.Truncate": true, "os.CreateTemp": true, "os.MkdirTemp": true, "os.Chtimes": true, "os.CopyFS": true, "os.Lchown": true,
		"io/ioutil.WriteFile": true, "io/ioutil.TempFile": true, "io/ioutil.TempDir": true, "syscall.Open": true, "syscall.Unlink": true, "syscall.Mkdir": true, "syscall.Rename": true}
	// functions used by the disk cache
	ok := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || ok[f] || f.Pkg == nil || !c.E.Repo[f.Pkg] {
			return
		}
		ok[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, isCall := in.(ssa.CallInstruction); isCall {
					add(ci.Common().StaticCallee())
				}
			}
		}
	}
	for _, m := range []string{"InitDir", "Save", "Load", "State", "SetTimeout"} {
		add(c.Func(pkgCache, "*DiskCache."+m))
	}
	n := 0
	for _, p := range c.SSA {
		if p == nil || strings.HasSuffix(p.Pkg.Path(), "/test") {
			continue
		}
		for _, fn := range eng.FuncsOf(p) {
			n++
			if ok[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						f, isF := (*op).(*ssa.Function)
						if isF && writes[f.String()] {
							c.Bad("scan", fn, posOf(in), "%s writes to the file system outside the disk cache", f)
						}
					}
				}
			}
		}
	}
	c.Ok("scan", "%d functions do not write to the file system", n)
}
