package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

// modelStructs lists the struct types that can occur in a decoded response,
// by name, starting from the response types.
func (c *Ctx) modelStructs() (map[string]*types.Named, []string) {
	r := map[string]*types.Named{}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch u := t.(type) {
		case *types.Pointer:
			add(u.Elem())
			return
		case *types.Slice:
			add(u.Elem())
			return
		case *types.Array:
			add(u.Elem())
			return
		case *types.Map:
			add(u.Elem())
			return
		case *types.Alias:
			add(types.Unalias(t))
			return
		}
		n, ok := t.(*types.Named)
		if !ok {
			return
		}
		s := structUnder(n)
		name := n.Obj().Name()
		if s == nil || name == "VCard" || name == "DecodeData" || r[name] != nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkgRdap {
			return
		}
		r[name] = n
		for i := 0; i < s.NumFields(); i++ {
			add(s.Field(i).Type())
		}
	}
	for _, n := range responseTypes {
		if t := c.Type(pkgRdap, n); t != nil {
			add(t)
		}
	}
	return r, sortedKeys(r)
}

var responseTypes = []string{"Autnum", "Domain", "Entity", "IPNetwork", "Nameserver", "DomainSearchResults", "EntitySearchResults", "NameserverSearchResults", "Error", "Help"}

// structRun is the analysis of decoding a JSON object into one struct type.
type structRun struct {
	name   string
	typ    types.Type
	dst    *eng.Term
	src    *eng.Term // the JSON object (map)
	data   *eng.Term // the parent's decode data
	key    *eng.Term
	calls  []recCall
	sets   []recSet
	outs   []*eng.Outcome
	panic  []string
	writes []recWrite // to the JSON value
}

type recWrite struct {
	kind string
	fn   *ssa.Function
	in   ssa.Instruction
}

// partOf: t is (the address of) something inside the value x.
func partOf(t, x *eng.Term) bool {
	for t != nil {
		if t == x {
			return true
		}
		switch t.Op {
		case eng.OFieldAddr, eng.OIndexAddr, eng.OContents, eng.OLoad, eng.OMapGet, eng.ORangeVal, eng.OMapInit, eng.OAssert, eng.OIface, eng.OSlice, eng.OIndex, eng.OField:
			t = t.Args[0]
		default:
			return false
		}
	}
	return false
}

type recCall struct {
	key, src, dst, data *eng.Term
	res                 *eng.Term
	st                  *eng.State
	in                  ssa.Instruction
	fn                  *ssa.Function
}

type recSet struct {
	m   string
	dst *eng.Term
	val *eng.Term
	st  *eng.State
	in  ssa.Instruction
	fn  *ssa.Function
}

func returnsVCard(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() == 2 && typeStr(r.At(0).Type()) == "*"+pkgRdap+".VCard" && isErrorT(r.At(1).Type())
}

func anyT() types.Type { return types.NewInterfaceType(nil, nil) }

// jsonTypes are the dynamic types encoding/json produces.
func jsonTypes() map[string]types.Type {
	return map[string]types.Type{
		"null": nil, "bool": types.Typ[types.Bool], "number": types.Typ[types.Float64], "string": types.Typ[types.String],
		"array": types.NewSlice(types.Universe.Lookup("any").Type()), "object": types.NewMap(types.Typ[types.String], types.Universe.Lookup("any").Type()),
	}
}

// isRec tells whether an event is a step of the recursive decoding.
func (c *Ctx) isRec(ev *eng.Event, R *recDecoder) *recDecoder {
	if ev.Key == eng.FuncName(R.fn) {
		return R
	}
	return nil
}

// decodeRun analyses the recursive decoder for one destination type and one
// kind of source value.
func (c *Ctx) decodeRun(rule string, R *recDecoder, t types.Type, js string) (*structRun, bool) {
	e := c.E
	r := &structRun{typ: t}
	h := &eng.Hooks{Rec: 3, MemoMiss: true, TraceRoots: true, PeelConst: 60, SplitFacts: 60, Steps: 20000000,
		Opaque: func(f *ssa.Function) bool { return f == R.fn || returnsVCard(f) },
		Keep: func(ev *eng.Event) bool {
			return isVCardCall(ev) || ev.Key == eng.FuncName(R.fn) || strings.HasPrefix(ev.Key, "(reflect.Value).Set") || ev.Key == "reflect.New" || ev.Key == "reflect.Append" || ev.Key == "reflect.Copy"
		}}
	h.Override = func(st *eng.State, ev *eng.Event) *eng.Term {
		switch ev.Key {
		case "(*sync.Map).LoadOrStore":
			// what is stored under a type is the plan made for that type
			return e.Tuple(ev.Raw[2], e.BoolC(false))
		case "(*sync.Map).Load":
			return e.Tuple(e.Nil(), e.BoolC(false))
		case "(reflect.Value).IsNil":
			if ev.Args[0] == r.dst {
				return e.BoolC(true)
			}
		case "(reflect.Value).IsValid", "(reflect.Value).CanSet", "(reflect.Value).CanAddr":
			if e.ValueType(ev.Args[0]) != nil {
				return e.BoolC(true)
			}
		}
		return nil
	}
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		if ev.Key == eng.FuncName(R.fn) {
			rc := recCall{src: ev.Raw[R.src], dst: ev.Args[R.dst], res: ev.Res, st: st.Clone(), in: ev.Instr, fn: ev.Fn}
			if R.key >= 0 {
				rc.key = ev.Raw[R.key]
			}
			if R.data >= 0 {
				rc.data = ev.Raw[R.data]
			}
			e.Emit(rc)
		}
		if strings.HasPrefix(ev.Key, "(reflect.Value).Set") {
			s := recSet{m: strings.TrimPrefix(ev.Key, "(reflect.Value)."), dst: ev.Args[0], st: st.Clone(), in: ev.Instr, fn: ev.Fn}
			if len(ev.Raw) > 1 {
				s.val = ev.Raw[1]
			}
			e.Emit(s)
		}
	}
	h.OnCheck = func(st *eng.State, kind string, ok bool, d string, fr *eng.Frame, in ssa.Instruction) {
		if kind == "panic" && !ok {
			e.Emit(fmt.Sprintf("%s|%s", c.Pos(posOf(in)), fr.Fn))
		}
	}
	h.OnStore = func(st *eng.State, kind string, addr, key, val *eng.Term, fr *eng.Frame, in ssa.Instruction) {
		if r.data != nil && addr.Op == eng.OFieldAddr && addr.Args[0] == r.data || kind != "store" && addr.Op == eng.OLoad && addr.Args[0].Op == eng.OFieldAddr && addr.Args[0].Args[0] == r.data {
			t := addr.T
			if kind == "store" {
				t = t.Underlying().(*types.Pointer).Elem()
			}
			if typeStr(t) != "map[string][]string" {
				e.Emit(recWrite{"data", fr.Fn, in})
			}
			return
		}
		if r.src == nil || !partOf(addr, r.src) {
			return
		}
		if kind == "append" && addr.Op != eng.OSlice {
			return
		}
		e.Emit(recWrite{kind, fr.Fn, in})
	}
	outs, recs, ok := c.Run(rule, R.fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		args := append([]*eng.Term{}, ps...)
		r.dst = e.RValue("dst", t)
		args[R.dst] = r.dst
		jt := jsonTypes()[js]
		if jt == nil {
			args[R.src] = e.Nil()
		} else {
			r.src = e.Param("src", jt)
			args[R.src] = e.IfaceT(r.src, jt)
			if js == "object" {
				c.assumeNil(st, r.src, false)
			}
		}
		if R.data >= 0 {
			r.data = ps[R.data]
			c.assumeNil(st, r.data, false)
		}
		if R.key >= 0 {
			r.key = ps[R.key]
		}
		return args
	})
	if !ok {
		return nil, false
	}
	for _, x := range recs {
		switch v := x.(type) {
		case recCall:
			r.calls = append(r.calls, v)
		case recSet:
			r.sets = append(r.sets, v)
		case recWrite:
			r.writes = append(r.writes, v)
		case string:
			r.panic = append(r.panic, v)
		}
	}
	r.outs = outs
	return r, true
}

// fieldNames: index path -> Go field name of all fields, flattened.
func flatFields(t types.Type) map[string]string {
	r := map[string]string{}
	var w func(t types.Type, path string)
	w = func(t types.Type, path string) {
		s := structUnder(t)
		if s == nil {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			p := fmt.Sprintf("%s.%d", path, i)
			if s.Field(i).Embedded() && structUnder(s.Field(i).Type()) != nil {
				w(s.Field(i).Type(), p)
				continue
			}
			r[strings.TrimPrefix(p, ".")] = s.Field(i).Name()
		}
	}
	w(t, "")
	return r
}

func pathStr(p []int) string {
	var s []string
	for _, n := range p {
		s = append(s, fmt.Sprint(n))
	}
	return strings.Join(s, ".")
}

func init() {
	register(&Rule{ID: "C16", Run: runC16, Floor: 150,
		Method:      "Constant propagation through reflection: the recursive decoder is analysed once per struct type of the data model (with reflect.Type operations evaluated on the declared types), and for every RFC 7483 member name of that type the one decoding step it leads to must go to the Go field of that member; for every field type no path may reach a panic or set a value through a setter of another kind.",
		Assumptions: []string{"the frozen table of RFC 7483 member names in the rule", "a cached plan is the plan built for its type (C19 decides that it is never changed)", "reflect and sync.Map behave as documented"}})
	register(&Rule{ID: "C18", Run: runC18, Floor: 60,
		Method:      "Constant propagation through reflection for every struct type of the data model (the decode data object stored must hold the JSON object itself and exactly the decodable member names), abstract interpretation of the DecodeData accessors, and a scan for writes to the kept members.",
		Assumptions: []string{"reflect and sync.Map behave as documented"}})
}

// rfcNames is the RFC 7483 member name of each Go field of the data model.
var rfcNames = map[string]string{
	"Link":         "Value:value Rel:rel Href:href HrefLang:hreflang Title:title Media:media Type:type",
	"Notice":       "Title:title Type:type Description:description Links:links",
	"Remark":       "Title:title Type:type Description:description Links:links",
	"Event":        "Action:eventAction Actor:eventActor Date:eventDate Links:links",
	"PublicID":     "Type:type Identifier:identifier",
	"Domain":       "Lang:lang Conformance:rdapConformance ObjectClassName:objectClassName Notices:notices Handle:handle LDHName:ldhName UnicodeName:unicodeName Variants:variants Nameservers:nameservers SecureDNS:secureDNS Entities:entities Status:status PublicIDs:publicIds Remarks:remarks Links:links Port43:port43 Events:events Network:network",
	"Variant":      "Lang:lang Relation:relation IDNTable:idnTable VariantNames:variantNames",
	"VariantName":  "Lang:lang LDHName:ldhName UnicodeName:unicodeName",
	"SecureDNS":    "Lang:lang ZoneSigned:zoneSigned DelegationSigned:delegationSigned MaxSigLife:maxSigLife DS:dsData Keys:keyData",
	"DSData":       "Lang:lang KeyTag:keyTag Algorithm:algorithm Digest:digest DigestType:digestType Events:events Links:links",
	"KeyData":      "Flags:flags Protocol:protocol Algorithm:algorithm PublicKey:publicKey Events:events Links:links",
	"Entity":       "Lang:lang Conformance:rdapConformance ObjectClassName:objectClassName Notices:notices Handle:handle VCard:vcardArray Roles:roles PublicIDs:publicIds Entities:entities Remarks:remarks Links:links Events:events AsEventActor:asEventActor Status:status Port43:port43 Networks:networks Autnums:autnums",
	"Nameserver":   "Lang:lang Conformance:rdapConformance ObjectClassName:objectClassName Notices:notices Handle:handle LDHName:ldhName UnicodeName:unicodeName IPAddresses:ipAddresses Entities:entities Status:status Remarks:remarks Links:links Port43:port43 Events:events",
	"IPAddressSet": "Lang:lang V6:v6 V4:v4",
	"IPNetwork":    "Lang:lang Conformance:rdapConformance ObjectClassName:objectClassName Notices:notices Handle:handle StartAddress:startAddress EndAddress:endAddress IPVersion:ipVersion Name:name Type:type Country:country ParentHandle:parentHandle Status:status Entities:entities Remarks:remarks Links:links Port43:port43 Events:events",
	"Autnum":       "Lang:lang Conformance:rdapConformance ObjectClassName:objectClassName Notices:notices Handle:handle StartAutnum:startAutnum EndAutnum:endAutnum IPVersion:ipVersion Name:name Type:type Status:status Country:country Entities:entities Remarks:remarks Links:links Port43:port43 Events:events",
	"Help":         "Lang:lang Conformance:rdapConformance Notices:notices",
	"Error":        "Lang:lang Conformance:rdapConformance Notices:notices ErrorCode:errorCode Title:title Description:description",

	"DomainSearchResults":     "Lang:lang Conformance:rdapConformance Notices:notices Domains:domainSearchResults",
	"NameserverSearchResults": "Lang:lang Conformance:rdapConformance Notices:notices Nameservers:nameserverSearchResults",
	"EntitySearchResults":     "Lang:lang Conformance:rdapConformance Notices:notices Entities:entitySearchResults",
}

// numBits is the number of bits each numeric member needs.
var numBits = map[string]int{
	"Autnum.StartAutnum": 32, "Autnum.EndAutnum": 32, "SecureDNS.MaxSigLife": 32, "DSData.KeyTag": 16, "DSData.Algorithm": 8, "DSData.DigestType": 8,
	"KeyData.Flags": 16, "KeyData.Protocol": 8, "KeyData.Algorithm": 8, "Error.ErrorCode": 16,
}

// given evaluates a term for the case that key is the constant name.
func (c *Ctx) given(t, key *eng.Term, name string) *eng.Term {
	if t == nil || key == nil {
		return t
	}
	m := map[*eng.Term]*eng.Term{key: c.E.StrC(name)}
	if key.Op == eng.ORangeKey {
		t.Walk(func(x *eng.Term) bool {
			if x.Op == eng.ORangeVal && x.S == key.S && x.Args[0] == key.Args[0] {
				v, _ := c.E.MapLookup(c.E.EmptyState(), key.Args[0], c.E.StrC(name), x.T)
				m[x] = v
			}
			return true
		})
	}
	return c.E.Subst(t, m)
}

// possible tells whether a state can occur with key being the constant name.
func (c *Ctx) possible(st *eng.State, key *eng.Term, name string) bool {
	e := c.E
	if s, ok := key.Str(); ok {
		return s == name
	}
	if key.Op == eng.ORangeKey && key.Args[0].Op != eng.OMapInit {
		_, has := e.MapLookup(st, key.Args[0], e.StrC(name), anyT())
		if b, ok := has.Bool(); ok && !b {
			return false
		}
	}
	n := st.Clone()
	if !e.Assume(n, e.Eq(key, e.StrC(name)), true) {
		return false
	}
	for _, t := range st.FactTerms() {
		if t == key || !t.Contains(key) {
			continue
		}
		v := c.given(t, key, name)
		av := st.AVOf(t)
		if av == nil || v == t {
			continue
		}
		if b, ok := v.Bool(); ok {
			switch e.Decide(st, t) {
			case 1:
				if !b {
					return false
				}
			case -1:
				if b {
					return false
				}
			}
		}
	}
	return true
}

// stepPath is the index path below the destination a decoding step writes to.
func (r *structRun) stepPath(t *eng.Term) (string, bool) {
	var path []string
	for t != r.dst {
		if t == nil || t.Op != eng.OCall {
			return "", false
		}
		switch t.S {
		case "(reflect.Value).FieldByIndex":
			p, ok := eng.IndexPath(t.Args[1])
			if !ok {
				return "", false
			}
			path = append([]string{pathStr(p)}, path...)
		case "(reflect.Value).Field":
			n, ok := t.Args[1].Int()
			if !ok {
				return "", false
			}
			path = append([]string{fmt.Sprint(n)}, path...)
		default:
			return "", false
		}
		t = t.Args[0]
	}
	return strings.Join(path, "."), true
}

// stepPathIn is stepPath with lists read from a state.
func (r *structRun) stepPathIn(c *Ctx, st *eng.State, t *eng.Term) (string, bool) {
	if p, ok := r.stepPath(t); ok {
		return p, true
	}
	m := map[*eng.Term]*eng.Term{}
	t.Walk(func(x *eng.Term) bool {
		if x.Op == eng.OCall && x.S == "(reflect.Value).FieldByIndex" {
			if _, ok := eng.IndexPath(x.Args[1]); !ok {
				if l := c.E.Elems(st, x.Args[1]); len(l) > 0 {
					m[x.Args[1]] = c.E.Append(x.Args[1].T, c.E.Nil(), l...)
				}
			}
		}
		return true
	})
	if len(m) == 0 {
		return "", false
	}
	return r.stepPath(c.E.Subst(t, m))
}

// memberKey is the name of the member a step decodes: the term that names it.
func (r *structRun) memberKey(x recCall) *eng.Term {
	if x.key != nil {
		return x.key
	}
	switch x.src.Op {
	case eng.ORangeVal, eng.OMapGet:
		if len(x.src.Args) > 1 {
			return x.src.Args[1]
		}
	}
	return nil
}

func runC16(c *Ctx) {
	const rule = "name"
	R := c.findDecoder()
	if R == nil {
		c.Unknown(rule, "the recursive decoder was not found")
		return
	}
	ms, names := c.modelStructs()
	all := map[string]bool{}
	for _, l := range rfcNames {
		for _, f := range strings.Fields(l) {
			k, v, _ := strings.Cut(f, ":")
			all[v], all[k] = true, true
			all[strings.ToLower(k[:1])+k[1:]] = true
			all[strings.ToLower(k)] = true
		}
	}
	for _, n := range sortedKeys(rfcNames) {
		if ms[n] == nil {
			c.Unknown(rule, "type %s is no longer part of the data model", n)
		}
	}
	ftypes := map[string]types.Type{}
	for _, n := range names {
		t := ms[n]
		embedded := n == "Common"
		r, ok := c.decodeRun(rule, R, t, "object")
		if !ok {
			continue
		}
		r.name = n
		for _, p := range r.panic {
			w, f, _ := strings.Cut(p, "|")
			c.Bad("panic", R.fn, R.fn.Pos(), "decoding a %s object always ends in the panic at %s (%s)", n, w, f)
		}
		if len(r.panic) == 0 {
			c.Ok("panic", "decoding a %s object reaches no panic", n)
		}
		ff := flatFields(t)
		pathOf := map[string]string{}
		for p, f := range ff {
			pathOf[f] = p
		}
		s := structUnder(t)
		for i := 0; i < s.NumFields(); i++ {
			addFieldTypes(ftypes, s.Field(i).Type())
		}
		want := map[string]string{} // member -> Go field
		for _, f := range strings.Fields(rfcNames[n]) {
			k, v, _ := strings.Cut(f, ":")
			if pathOf[k] == "" {
				c.Unknown(rule, "%s has no field %s", n, k)
				continue
			}
			want[v] = k
			if b := numBits[n+"."+k]; b > 0 {
				ft := fieldTypeAt(t, pathOf[k])
				if bits := intBits(ft); bits > 0 && bits < b {
					c.Bad("size", R.fn, fieldPos(t, k), "field %s.%s has %d bits, member %s needs %d", n, k, bits, v, b)
				} else {
					c.Ok("size", "field %s.%s holds every %s", n, k, v)
				}
			}
		}
		if embedded {
			continue
		}
		cand := map[string]bool{}
		for m := range all {
			cand[m] = true
		}
		und := ""
		for _, x := range r.calls {
			for _, t := range []*eng.Term{x.dst} {
				t.Walk(func(y *eng.Term) bool {
					if s, ok := y.Str(); ok && y.Op == eng.OConst {
						cand[s] = true
					}
					return true
				})
			}
		}
		for _, m := range sortedKeys(cand) {
			var got []string
			for _, x := range r.calls {
				key := r.memberKey(x)
				if key == nil {
					und = "the member a step decodes is not named"
					continue
				}
				if !c.possible(x.st, key, m) {
					continue
				}
				d := c.given(x.dst, key, m)
				p, ok := r.stepPathIn(c, x.st, d)
				if !ok {
					und = "destination " + short(d)
					continue
				}
				if !r.memberValue(c, x, key) {
					und = "value " + short(x.src)
				}
				got = append(got, p)
			}
			sort.Strings(got)
			got = dedup(got)
			if f, ok := want[m]; ok {
				switch {
				case len(got) == 1 && got[0] == pathOf[f]:
					c.Ok(rule, "%s.%s is decoded from %q", n, f, m)
				case len(got) == 0 && und == "":
					c.Bad(rule, R.fn, fieldPos(t, f), "member %q of a %s object is not decoded (into %s)", m, n, f)
				case len(got) > 0:
					var fs []string
					for _, p := range got {
						fs = append(fs, ff[p])
					}
					c.Bad(rule, R.fn, fieldPos(t, f), "member %q of a %s object is decoded into %s, not %s", m, n, strings.Join(fs, " and "), f)
				default:
					c.Unknown(rule, "%s %q: %s", n, m, und)
				}
				continue
			}
			for _, p := range got {
				f := ff[p]
				tableField := false
				for _, k := range want {
					if k == f {
						tableField = true
					}
				}
				if tableField || f == "DecodeData" {
					c.Bad(rule, R.fn, fieldPos(t, f), "member %q, which is not its RFC name, of a %s object is decoded into %s", m, n, f)
				}
			}
		}
		c.memberLoop(rule, R, r, want, und)
	}
	// every type of field can be decoded from any value
	for _, k := range sortedKeys(ftypes) {
		for _, js := range []string{"null", "bool", "number", "string", "array", "object"} {
			r, ok := c.decodeRun("kind", R, ftypes[k], js)
			if !ok {
				continue
			}
			bad := false
			for _, p := range r.panic {
				w, f, _ := strings.Cut(p, "|")
				c.Bad("kind", R.fn, R.fn.Pos(), "a field of type %s given a JSON %s ends in the panic at %s (%s)", k, js, w, f)
				bad = true
			}
			for _, s := range r.sets {
				if why := c.wrongSetter(s); why != "" {
					c.Bad("kind", s.fn, posOf(s.in), "a field of type %s given a JSON %s is set with %s: %s", k, js, s.m, why)
					bad = true
				}
			}
			if len(r.outs) == 0 && !bad {
				c.Unknown("kind", "%s given %s: no outcome", k, js)
			} else if !bad {
				c.Ok("kind", "a field of type %s takes a JSON %s without panic", k, js)
			}
		}
	}
}

func dedup(l []string) []string {
	var r []string
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			r = append(r, s)
		}
	}
	return r
}

// memberValue: the value decoded is the member's own value.
func (r *structRun) memberValue(c *Ctx, x recCall, key *eng.Term) bool {
	v := x.src
	switch v.Op {
	case eng.ORangeVal:
		k := c.E.RangeKeyOf(v)
		return k == key && v.Args[0].Op == eng.OMapInit && v.Args[0].Args[0] == r.src
	case eng.OMapGet:
		return v.Args[1] == key && v.Args[0].Op == eng.OMapInit && v.Args[0].Args[0] == r.src
	}
	return false
}

// memberLoop: the loop over the members decodes every known member.
func (c *Ctx) memberLoop(rule string, R *recDecoder, r *structRun, want map[string]string, und string) {
	e := c.E
	type lp struct {
		li  *eng.LoopInfo
		key *eng.Term
	}
	var loops []lp
	for _, x := range r.calls {
		key := r.memberKey(x)
		if key == nil || key.Op != eng.ORangeKey {
			continue
		}
		for _, li := range e.LoopList {
			if li.MapC == key.Args[0] && strings.Contains(key.S, "") {
				dup := false
				for _, l := range loops {
					if l.li == li {
						dup = true
					}
				}
				if !dup {
					loops = append(loops, lp{li, key})
				}
			}
		}
	}
	if len(loops) != 1 {
		if len(loops) > 1 {
			c.Unknown(rule, "%s: %d loops over the members", r.name, len(loops))
		}
		return
	}
	l := loops[0]
	rk := eng.FuncName(R.fn)
	for _, m := range sortedKeys(want) {
		for _, b := range l.li.Back {
			if b.St.Dead || !c.possible(b.St, l.key, m) {
				continue
			}
			called := false
			for _, ev := range b.Seg {
				if ev.Key == rk {
					called = true
				}
			}
			if called {
				continue
			}
			// the loop may run over the plan: the member must then be absent
			if l.key.Args[0].Op != eng.OMapInit {
				_, has := e.MapLookup(b.St, e.MapInit(r.src), l.key, anyT())
				if e.Decide(b.St, has) == -1 {
					continue
				}
			}
			c.Bad(rule, l.li.Fn, posOf(firstPos(b.From)), "member %q of a %s object can be passed over without being decoded", m, r.name)
		}
	}
	// other exits than the end: only with an error
	for _, x := range l.li.Exits {
		if x.St.Dead || x.From == l.li.Header {
			continue
		}
		if r.failed(c, R, x.St) {
			continue
		}
		c.Bad(rule, l.li.Fn, posOf(firstPos(x.From)), "the loop over the members of a %s object is left before all are decoded", r.name)
	}
	c.Ok(rule, "every known member of a %s object is decoded", r.name)
}

// failed: some decoding step has returned an error.
func (r *structRun) failed(c *Ctx, R *recDecoder, st *eng.State) bool {
	if R.err < 0 {
		return false
	}
	for _, x := range r.calls {
		if c.IsNil(st, c.resultOf(x.res, R.err)) == -1 {
			return true
		}
	}
	return false
}

// wrongSetter: a setter which panics for the kind of its destination.
func (c *Ctx) wrongSetter(s recSet) string {
	t := c.E.ValueType(s.dst)
	if t == nil {
		return ""
	}
	b, _ := t.Underlying().(*types.Basic)
	info := types.BasicInfo(0)
	if b != nil {
		info = b.Info()
	}
	want := types.BasicInfo(0)
	switch s.m {
	case "SetUint":
		if info&types.IsInteger == 0 || info&types.IsUnsigned == 0 {
			return "the field is " + t.String()
		}
		return ""
	case "SetInt":
		if info&types.IsInteger == 0 || info&types.IsUnsigned != 0 {
			return "the field is " + t.String()
		}
		return ""
	case "SetFloat":
		want = types.IsFloat
	case "SetBool":
		want = types.IsBoolean
	case "SetString":
		want = types.IsString
	case "Set":
		if vt := c.E.ValueType(s.val); vt != nil && !types.AssignableTo(vt, t) {
			return "a " + vt.String() + " is assigned to a " + t.String()
		}
		return ""
	default:
		return ""
	}
	if info&want == 0 {
		return "the field is " + t.String()
	}
	return ""
}

// addFieldTypes collects the types decoding meets below a field.
func addFieldTypes(m map[string]types.Type, t types.Type) {
	if n, ok := t.(*types.Named); ok && structUnder(n) != nil {
		return // decided as a struct type
	}
	k := typeStr(t)
	if m[k] != nil || strings.HasSuffix(k, ".DecodeData") {
		return
	}
	m[k] = t
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if structUnder(u.Elem()) == nil {
			addFieldTypes(m, u.Elem())
		}
	case *types.Slice:
		addFieldTypes(m, u.Elem())
	case *types.Map:
		addFieldTypes(m, u.Elem())
	}
}

func fieldTypeAt(t types.Type, path string) types.Type {
	for _, p := range strings.Split(path, ".") {
		s := structUnder(t)
		if s == nil {
			return nil
		}
		var n int
		fmt.Sscan(p, &n)
		t = s.Field(n).Type()
	}
	return t
}

func intBits(t types.Type) int {
	if t == nil {
		return 0
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	case types.Uint64, types.Uint:
		return 64
	case types.Int8:
		return 7
	case types.Int16:
		return 15
	case types.Int32:
		return 31
	case types.Int64, types.Int:
		return 63
	}
	return 0
}

func fieldPos(t types.Type, name string) (p tokenPos) {
	s := structUnder(t)
	if s == nil {
		return 0
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Pos()
		}
		if s.Field(i).Embedded() {
			if q := fieldPos(s.Field(i).Type(), name); q != 0 {
				return q
			}
		}
	}
	return 0
}
