package rules

import (
	"fmt"
	"go/types"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C15", Run: runC15, Floor: 60,
		Method:      "Abstract interpretation of Decoder.Decode under every combination of presence and value of the deciding members (errorCode, objectClassName, the three search results): on every path the value handed to the recursive decoder and returned must be a new object of the documented type, and every other outcome must be an error without an object.",
		Assumptions: []string{"encoding/json reports everything that is not one JSON object (or null) as an error when unmarshalling into a map", "reflect behaves as documented"}})
}

// refsOf lists the repository functions a function mentions.
func (c *Ctx) refsOf(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if f, ok := (*o).(*ssa.Function); ok && len(f.Blocks) > 0 && !seen[f] && (f.Pkg == nil || c.E.Repo[f.Pkg]) {
					seen[f] = true
					r = append(r, f)
				}
			}
		}
	}
	return r
}

// reachFrom is the set of repository functions reachable through mentions.
func (c *Ctx) reachFrom(fn *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var w func(f *ssa.Function)
	w = func(f *ssa.Function) {
		for _, g := range c.refsOf(f) {
			if !r[g] {
				r[g] = true
				w(g)
			}
		}
	}
	w(fn)
	return r
}

func isReflectValue(t types.Type) bool { return types.TypeString(t, nil) == "reflect.Value" }

// recDecoder is the recursive decoding function: which of its parameters and
// results mean what.
type recDecoder struct {
	fn                  *ssa.Function
	key, src, dst, data int
	success, err        int
}

// decoderSig reads the roles of a decoding function's parameters off its types.
func decoderSig(fn *ssa.Function) *recDecoder {
	r := &recDecoder{fn: fn, key: -1, src: -1, dst: -1, data: -1, success: -1, err: -1}
	for i, p := range fn.Params {
		t := p.Type()
		switch {
		case isReflectValue(t):
			if r.dst >= 0 {
				return nil
			}
			r.dst = i
		case types.Identical(t, types.NewInterfaceType(nil, nil)) || isEmptyIface(t):
			if r.src >= 0 {
				return nil
			}
			r.src = i
		case isStringT(t):
			if r.key >= 0 {
				return nil
			}
			r.key = i
		case typeStr(t) == "*"+pkgRdap+".DecodeData":
			r.data = i
		}
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		switch {
		case types.TypeString(t, nil) == "error":
			r.err = i
		case types.Identical(t.Underlying(), types.Typ[types.Bool]):
			r.success = i
		}
	}
	if r.dst < 0 || r.src < 0 {
		return nil
	}
	return r
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.Empty()
}

// findDecoder finds the recursive decoder: a function with a source and a
// destination that can reach itself, called from outside that recursion.
func (c *Ctx) findDecoder() *recDecoder {
	top := c.Func(pkgRdap, "*Decoder.Decode")
	if top == nil {
		return nil
	}
	rec := map[*ssa.Function]*recDecoder{}
	all := c.reachFrom(top)
	for f := range all {
		if s := decoderSig(f); s != nil && c.reachFrom(f)[f] {
			rec[f] = s
		}
	}
	all[top] = true
	var found *recDecoder
	for f := range all {
		if rec[f] != nil || c.reachFrom(f)[f] {
			continue
		}
		for _, g := range c.refsOf(f) {
			if rec[g] != nil {
				if found != nil && found.fn != g {
					return nil
				}
				found = rec[g]
			}
		}
	}
	return found
}

func runC15(c *Ctx) {
	fn := c.Func(pkgRdap, "*Decoder.Decode")
	R := c.findDecoder()
	if fn == nil || R == nil {
		c.Unknown("type", "the recursive decoder was not found")
		return
	}
	classes := []struct{ name, typ string }{
		{"autnum", "Autnum"}, {"domain", "Domain"}, {"entity", "Entity"}, {"ip network", "IPNetwork"}, {"nameserver", "Nameserver"},
	}
	searches := []struct{ name, typ string }{
		{"domainSearchResults", "DomainSearchResults"}, {"entitySearchResults", "EntitySearchResults"}, {"nameserverSearchResults", "NameserverSearchResults"},
	}
	c.decodeScenario(fn, R, "not a JSON object", true, nil, "")
	for _, ec := range []bool{true, false} {
		for ocn := -1; ocn <= len(classes)+1; ocn++ {
			for bits := 0; bits < 8; bits++ {
				if ocn >= 0 && ec && bits != 0 && bits != 7 {
					continue
				}
				want := "Help"
				for i := len(searches) - 1; i >= 0; i-- {
					if bits&(1<<i) != 0 {
						want = searches[i].typ
					}
				}
				multi := bits&(bits-1) != 0
				desc := ""
				switch {
				case ocn < 0:
				case ocn < len(classes):
					want, desc, multi = classes[ocn].typ, "objectClassName "+classes[ocn].name, false
				case ocn == len(classes):
					want, desc, multi = "", "unknown objectClassName", false
				default:
					want, desc, multi = "", "objectClassName which is not a string", false
				}
				if ec {
					want, multi = "Error", false
					desc = "errorCode, " + desc
				}
				if multi {
					continue // several search results: either may decide
				}
				for i := range searches {
					if bits&(1<<i) != 0 {
						desc += ", " + searches[i].name
					}
				}
				if desc == "" {
					desc = "none of the deciding members"
				}
				ec, ocn, bits := ec, ocn, bits
				c.decodeScenario(fn, R, desc, false, func(st *eng.State, has func(string) *eng.Term, val func(string) *eng.Term) {
					e := c.E
					c.assume(st, has("errorCode"), ec)
					c.assume(st, has("objectClassName"), ocn >= 0)
					for i := range searches {
						c.assume(st, has(searches[i].name), bits&(1<<i) != 0)
					}
					if ocn < 0 {
						return
					}
					v := val("objectClassName")
					str := e.TypeC(types.Typ[types.String])
					c.assume(st, e.Eq(e.Dyn(v), str), ocn <= len(classes))
					s := e.AssertT(v, types.Typ[types.String])
					for i, k := range classes {
						if ocn == i {
							c.assume(st, e.Eq(s, e.StrC(k.name)), true)
						} else if ocn == len(classes) {
							c.assume(st, e.Eq(s, e.StrC(k.name)), false)
						}
					}
				}, want)
			}
		}
	}
}

// decodeScenario runs Decode on documents of one kind.
func (c *Ctx) decodeScenario(fn *ssa.Function, R *recDecoder, desc string, bad bool, set func(st *eng.State, has, val func(string) *eng.Term), want string) {
	e := c.E
	const rule = "type"
	type rec struct {
		src, dst *eng.Term
	}
	stream, checked, parsed := false, false, false
	odd := ""
	h := &eng.Hooks{Opaque: func(f *ssa.Function) bool { return f == R.fn }, SplitFacts: 40, Keep: func(ev *eng.Event) bool { return ev.Key == eng.FuncName(R.fn) }}
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		switch ev.Key {
		case "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode":
			if ev.Key != "encoding/json.Unmarshal" {
				if parsed {
					checked = true
					return
				}
				stream = true
			}
			tgt := Unwrap(ev.Raw[1])
			p, ok := tgt.T.Underlying().(*types.Pointer)
			if !ok {
				odd = "unmarshals into " + short(tgt)
				return
			}
			c.assumeNil(st, c.errOf(ev.Res), !bad)
			parsed = true
			if bad {
				return
			}
			m, ok := p.Elem().Underlying().(*types.Map)
			if !ok || typeStr(m.Key()) != "string" {
				odd = "unmarshals into " + typeStr(p.Elem())
				return
			}
			mc := e.MapContent(st, e.Load(st, tgt, p.Elem()))
			set(st, func(k string) *eng.Term {
				_, has := e.MapLookup(st, mc, e.StrC(k), m.Elem())
				return has
			}, func(k string) *eng.Term {
				v, _ := e.MapLookup(st, mc, e.StrC(k), m.Elem())
				return v
			})
		case "(*encoding/json.Decoder).More", "(*encoding/json.Decoder).Token", "(*encoding/json.Decoder).Buffered", "(*encoding/json.Decoder).InputOffset", "encoding/json.Valid":
			checked = true
		case eng.FuncName(R.fn):
			if R.err >= 0 {
				c.assumeNil(st, c.resultOf(ev.Res, R.err), true)
			}
		}
	}
	outs, _, ok := c.Run(rule, fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		// a decoder as NewDecoder makes it: only the data is set
		s := structUnder(ps[0].T.Underlying().(*types.Pointer).Elem())
		for i := 0; i < s.NumFields(); i++ {
			if typeStr(s.Field(i).Type()) == "[]byte" {
				continue
			}
			f := c.Field(st, ps[0], s.Field(i).Name())
			switch s.Field(i).Type().Underlying().(type) {
			case *types.Struct, *types.Array:
			default:
				c.assume(st, e.Eq(f, e.Zero(s.Field(i).Type())), true)
			}
		}
		return nil
	})
	if !ok {
		return
	}
	if odd != "" || !parsed {
		c.Unknown(rule, "%s: %s", desc, odd)
		return
	}
	if stream && bad {
		if checked {
			c.Unknown(rule, "%s: the end of the document is checked by hand", desc)
		} else {
			c.Bad(rule, fn, fn.Pos(), "the document is read from a stream and text after the JSON object is accepted")
		}
		return
	}
	for _, o := range outs {
		if o.Panic {
			continue
		}
		pos := posOf(o.In)
		obj, err := o.Rets[0], o.Rets[1]
		if want == "" {
			switch {
			case c.IsNil(o.St, err) == 1:
				c.Bad(rule, fn, pos, "%s: no error is returned", desc)
			case c.IsNil(o.St, obj) == -1:
				c.Bad(rule, fn, pos, "%s: an object is returned with the error", desc)
			case c.IsNil(o.St, err) == 0 || c.IsNil(o.St, obj) == 0:
				c.Unknown(rule, "%s: returns %s, %s", desc, short(obj), short(err))
			default:
				c.Ok(rule, "%s: an error and no object", desc)
			}
			continue
		}
		if v := c.IsNil(o.St, err); v != 1 {
			if v == -1 {
				c.Bad(rule, fn, pos, "%s: an error is returned: %s", desc, short(err))
			} else {
				c.Unknown(rule, "%s: error %s", desc, short(err))
			}
			continue
		}
		var calls []rec
		for _, ev := range o.St.Trace.Events() {
			if ev.Key == eng.FuncName(R.fn) {
				calls = append(calls, rec{ev.Args[R.src], ev.Args[R.dst]})
			}
		}
		var loc *eng.Term
		var typ types.Type
		x := Unwrap(obj)
		if x.Op == eng.OCall && x.S == "(reflect.Value).Interface" {
			loc = x.Args[0]
			typ = e.ValueType(loc)
		} else if obj.Op == eng.OIface {
			typ = obj.T
			loc = x
		}
		if typ == nil {
			c.Unknown(rule, "%s: result %s", desc, short(obj))
			continue
		}
		if typeStr(typ) != "*"+pkgRdap+"."+want {
			c.Bad(rule, fn, pos, "%s: decoded into %s, documented *rdap.%s", desc, typ, want)
			continue
		}
		if len(calls) != 1 {
			if len(calls) == 0 {
				c.Bad(rule, fn, pos, "%s: the object is returned without decoding into it", desc)
			} else {
				c.Unknown(rule, "%s: %d decoding steps", desc, len(calls))
			}
			continue
		}
		src := stripConv(Unwrap(calls[0].src))
		if src.Op != eng.OOut {
			c.Unknown(rule, "%s: decodes %s", desc, short(src))
			continue
		}
		if d := calls[0].dst; d != loc && !(d.Op == eng.OCall && len(d.Args) > 0 && (d.Args[0] == loc || d.Args[0].Op == eng.OIface && Unwrap(d.Args[0]) == loc)) && !d.Contains(loc) {
			c.Bad(rule, fn, pos, "%s: decodes into another value than it returns", desc)
			continue
		}
		c.Ok(rule, "%s: *rdap.%s", desc, want)
	}
}

var _ = fmt.Sprint
