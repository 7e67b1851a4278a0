package rules

import (
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C17", Run: runC17, Floor: 120,
		Method:      "Abstract interpretation of the recursive decoder for every destination kind and every kind of JSON value: interval analysis shows that a number is only stored when the source (and every conversion on the way) lies in range, every other-typed or unstorable value leaves a note under the member's name, a failed value is not stored, and lists, maps, pointers and structs pass on exactly the values which were decoded and never stop or fail because one was not.",
		Assumptions: []string{"the recursive steps return no error (shown for every kind)", "encoding/json produces only nil, bool, float64 (never NaN), string, []any and map[string]any"}})
}

var jsonKinds = []string{"null", "bool", "number", "string", "array", "object"}

func runC17(c *Ctx) {
	R := c.findDecoder()
	if R == nil || R.key < 0 || R.data < 0 || R.success < 0 {
		c.Unknown("value", "the recursive decoder was not found")
		return
	}
	b := func(k types.BasicKind) types.Type { return types.Typ[k] }
	leaves := []types.Type{b(types.Uint8), b(types.Uint16), b(types.Uint32), b(types.Uint64), b(types.Int8), b(types.Int16), b(types.Int32), b(types.Int64), b(types.Float64), b(types.Bool), b(types.String)}
	for _, t := range leaves {
		for _, js := range jsonKinds {
			r, ok := c.decodeRun("value", R, t, js)
			if !ok {
				continue
			}
			r.name = typeStr(t)
			c.leaf(R, r, js)
		}
	}
	ms, names := c.modelStructs()
	for _, n := range names {
		if n == "Common" {
			continue
		}
		for _, js := range jsonKinds {
			r, ok := c.decodeRun("struct", R, ms[n], js)
			if !ok {
				continue
			}
			r.name = n
			if js != "object" {
				c.refused(R, r, js, "struct")
				continue
			}
			c.structFlow(R, r)
		}
	}
	var composite []types.Type
	ft := map[string]types.Type{}
	for _, n := range names {
		s := structUnder(ms[n])
		for i := 0; i < s.NumFields(); i++ {
			addFieldTypes(ft, s.Field(i).Type())
		}
	}
	ft["map[string]string"] = types.NewMap(types.Typ[types.String], types.Typ[types.String])
	for _, k := range sortedKeys(ft) {
		switch ft[k].Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map:
			composite = append(composite, ft[k])
		}
	}
	for _, t := range composite {
		for _, js := range jsonKinds {
			r, ok := c.decodeRun("composite", R, t, js)
			if !ok {
				continue
			}
			r.name = strings.ReplaceAll(typeStr(t), pkgRdap+".", "")
			switch t.Underlying().(type) {
			case *types.Pointer:
				if strings.HasSuffix(r.name, "VCard") {
					c.vcardPtr(R, r, js)
				} else {
					c.pointer(R, r, js)
				}
			case *types.Slice:
				if js != "array" {
					c.refused(R, r, js, "list")
				} else {
					c.list(R, r)
				}
			case *types.Map:
				if js != "object" {
					c.refused(R, r, js, "map")
				} else {
					c.mapValues(R, r)
				}
			}
		}
	}
}

// noted decides whether a note was recorded under the member's name.
func (c *Ctx) noted(r *structRun, st *eng.State) int {
	e := c.E
	s := structUnder(r.data.T.Underlying().(*types.Pointer).Elem())
	for i := 0; i < s.NumFields(); i++ {
		if typeStr(s.Field(i).Type()) != "map[string][]string" {
			continue
		}
		m := c.Field(st, r.data, s.Field(i).Name())
		x := e.MapContent(st, m)
		for x.Op == eng.OMapUpd {
			if x.Args[1].IsConst() && !r.key.IsConst() {
				x = x.Args[0] // a fixed name is not the member's
				continue
			}
			if d := e.Decide(st, e.Eq(x.Args[1], r.key)); d == 1 {
				if x.Args[2].Op == eng.OAppend && len(x.Args[2].Args) > 1 {
					return 1
				}
				return 0
			} else if d == 0 {
				return 0
			}
			x = x.Args[0]
		}
		switch x.Op {
		case eng.OMapEmpty, eng.OMapInit:
			return -1
		}
		return 0
	}
	return 0
}

// setsOf lists what was stored in the destination, in order.
func (r *structRun) setsOf(st *eng.State) []*eng.Event {
	var l []*eng.Event
	for _, ev := range st.Trace.Events() {
		if strings.HasPrefix(ev.Key, "(reflect.Value).Set") && ev.Args[0] == r.dst {
			l = append(l, ev)
		}
	}
	return l
}

func isZeroTerm(t *eng.Term) bool {
	if t == nil || t.IsNil() {
		return true
	}
	if t.Op == eng.OZero {
		return true
	}
	if s, ok := t.Str(); ok {
		return s == ""
	}
	if b, ok := t.Bool(); ok {
		return !b
	}
	if t.Op == eng.OConst && t.V != nil && (t.V.Kind() == constant.Int || t.V.Kind() == constant.Float) {
		return constant.Sign(t.V) == 0
	}
	return t.Op == eng.OCall && t.S == "reflect.Zero"
}

// result reads success and error of an outcome: success 1, -1, 0; clean is
// false if an error may be returned.
func (c *Ctx) result(R *recDecoder, o *eng.Outcome) (success int, clean int) {
	success = c.E.Decide(o.St, o.Rets[R.success])
	clean = 1
	if R.err >= 0 {
		clean = c.IsNil(o.St, o.Rets[R.err])
	}
	return
}

// finished checks that an outcome returns no error.
func (c *Ctx) finished(R *recDecoder, r *structRun, o *eng.Outcome, js, rule string) bool {
	_, clean := c.result(R, o)
	if clean == 1 {
		return true
	}
	if clean == -1 {
		c.Bad(rule, R.fn, posOf(o.In), "a JSON %s for a %s field aborts decoding with an error", js, r.name)
	} else {
		c.Unknown(rule, "a JSON %s for a %s field: error %s", js, r.name, short(o.Rets[R.err]))
	}
	return false
}

// refused: a value which cannot be converted leaves a note and nothing else.
func (c *Ctx) refused(R *recDecoder, r *structRun, js, rule string) {
	for _, o := range r.outs {
		if o.Panic || !c.finished(R, r, o, js, rule) {
			continue
		}
		c.left(R, r, o, js, rule)
	}
}

// left: the value was left out, with a note.
func (c *Ctx) left(R *recDecoder, r *structRun, o *eng.Outcome, js, rule string) bool {
	pos := posOf(o.In)
	success, _ := c.result(R, o)
	if sets := r.setsOf(o.St); len(sets) > 0 {
		last := sets[len(sets)-1]
		if last.Key != "(reflect.Value).SetZero" && !isZeroTerm(Unwrap(last.Raw[1])) {
			c.Bad(rule, R.fn, posOf(last.Instr), "a JSON %s which cannot be decoded into a %s field is stored as %s", js, r.name, short(last.Raw[1]))
			return false
		}
	}
	if success != -1 {
		if success == 1 {
			c.Bad(rule, R.fn, pos, "a JSON %s which cannot be decoded into a %s field is reported as decoded", js, r.name)
		} else {
			c.Unknown(rule, "%s for %s: success %s", js, r.name, short(o.Rets[R.success]))
		}
		return false
	}
	return c.needNote(r, o, js, rule)
}

func (c *Ctx) needNote(r *structRun, o *eng.Outcome, js, rule string) bool {
	switch c.noted(r, o.St) {
	case 1:
		c.Ok(rule, "a JSON %s for a %s field leaves a note", js, r.name)
		return true
	case -1:
		c.Bad(rule, o.In.Parent(), posOf(o.In), "a JSON %s for a %s field leaves no note for its member", js, r.name)
	default:
		c.Unknown(rule, "%s for %s: notes", js, r.name)
	}
	return false
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func intRange(t types.Type) (lo, hi *big.Rat) {
	bits := map[types.BasicKind]uint{types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64, types.Int8: 7, types.Int16: 15, types.Int32: 31, types.Int64: 63, types.Int: 63}
	b := basicOf(t)
	if b == nil {
		return nil, nil
	}
	n, ok := bits[b.Kind()]
	if !ok {
		return nil, nil
	}
	h := new(big.Int).Lsh(big.NewInt(1), n)
	hi = new(big.Rat).SetInt(new(big.Int).Sub(h, big.NewInt(1)))
	lo = new(big.Rat)
	if b.Info()&types.IsUnsigned == 0 {
		lo = new(big.Rat).SetInt(new(big.Int).Neg(h))
	}
	return
}

// fits decides whether x, converted to the integer type t, keeps its value
// (fractions cut off).
func (c *Ctx) fits(st *eng.State, x *eng.Term, t types.Type) (bool, string) {
	lo, hi := intRange(t)
	if lo == nil {
		return true, ""
	}
	av := st.AVOf(x)
	if b := basicOf(x.T); b != nil && b.Info()&types.IsFloat != 0 {
		l := new(big.Rat).Sub(lo, big.NewRat(1, 1))
		h := new(big.Rat).Add(hi, big.NewRat(1, 1))
		if av == nil || !av.Num {
			return false, "any number"
		}
		for _, v := range av.Iv {
			if v.Lo == nil || v.Lo.Cmp(l) < 0 || v.Lo.Cmp(l) == 0 && !v.LoOpen {
				return false, av.String()
			}
			if v.Hi == nil || v.Hi.Cmp(h) > 0 || v.Hi.Cmp(h) == 0 && !v.HiOpen {
				return false, av.String()
			}
		}
		return true, ""
	}
	if av.Within(lo, hi) {
		return true, ""
	}
	return false, av.String()
}

// overlaps: some value of the range may be in [lo,hi].
func overlaps(av *eng.AV, lo, hi *big.Rat) bool {
	if av == nil || !av.Num {
		return true
	}
	for _, v := range av.Iv {
		if v.Hi != nil && (v.Hi.Cmp(lo) < 0 || v.Hi.Cmp(lo) == 0 && v.HiOpen) {
			continue
		}
		if v.Lo != nil && (v.Lo.Cmp(hi) > 0 || v.Lo.Cmp(hi) == 0 && v.LoOpen) {
			continue
		}
		return true
	}
	return false
}

// leaf judges decoding one kind of value into a number, bool or string.
func (c *Ctx) leaf(R *recDecoder, r *structRun, js string) {
	const rule = "value"
	e := c.E
	t := r.typ
	info := basicOf(t).Info()
	isInt := info&types.IsInteger != 0
	n := 0
	for _, o := range r.outs {
		if o.Panic {
			continue
		}
		n++
		pos := posOf(o.In)
		if !c.finished(R, r, o, js, rule) {
			continue
		}
		if js == "array" || js == "object" {
			c.left(R, r, o, js, rule)
			continue
		}
		success, _ := c.result(R, o)
		if success == 0 {
			c.Unknown(rule, "%s for %s: success %s", js, r.name, short(o.Rets[R.success]))
			continue
		}
		sets := r.setsOf(o.St)
		if success == -1 {
			// left out: only what cannot be stored
			if why := c.storable(o.St, r, js); why != "" {
				c.Bad(rule, R.fn, pos, "a JSON %s for a %s field is left out although it could be stored (%s)", js, r.name, why)
				continue
			}
			c.left(R, r, o, js, rule)
			continue
		}
		var val *eng.Term
		if len(sets) > 0 {
			ev := sets[len(sets)-1]
			if len(ev.Raw) > 1 {
				val = ev.Raw[1]
			}
			if ev.Key == "(reflect.Value).Set" {
				if val != nil && val.Op == eng.OCall && val.S == "reflect.ValueOf" {
					val = Unwrap(val.Args[0])
				} else {
					c.Unknown(rule, "%s for %s: stores %s", js, r.name, short(val))
					continue
				}
			}
			if ev.Key == "(reflect.Value).SetZero" {
				val = e.Zero(t)
			}
		} else {
			val = e.Zero(t)
		}
		// every conversion on the way keeps the value
		ok := true
		base := val
		for base.Op == eng.OConv {
			in := base.Args[0]
			if f, why := c.fits(o.St, in, base.T); !f && (isInt || basicOf(base.T) != nil && basicOf(base.T).Info()&types.IsInteger != 0) {
				c.Bad(rule, R.fn, posOf(lastInstr(sets, o)), "a JSON %s for a %s field is converted to %s outside its range (%s may be %s)", js, r.name, base.T, short(in), why)
				ok = false
				break
			}
			base = in
		}
		if !ok {
			continue
		}
		if isInt {
			lo, hi := intRange(t)
			av := o.St.AVOf(val)
			if x, good := val.Int(); good {
				av = nil
				q := big.NewRat(x, 1)
				ok = q.Cmp(lo) >= 0 && q.Cmp(hi) <= 0
			} else if !av.Within(lo, hi) {
				if f, _ := c.fits(o.St, base, t); !(val.Op == eng.OConv && f) {
					ok = false
				}
			}
			if !ok {
				c.Bad(rule, R.fn, posOf(lastInstr(sets, o)), "a JSON %s for a %s field is stored although it may be out of range (%s)", js, r.name, av)
				continue
			}
		}
		verdict, why := c.rightValue(o.St, r, js, base, val)
		switch verdict {
		case -1:
			c.Bad(rule, R.fn, posOf(lastInstr(sets, o)), "a JSON %s for a %s field is stored as %s: %s", js, r.name, short(val), why)
			continue
		case 0:
			c.Unknown(rule, "%s for %s: stores %s", js, r.name, short(val))
			continue
		}
		c.Ok(rule, "a JSON %s for a %s field is stored as %s", js, r.name, short(val))
		same := js == "string" && info&types.IsString != 0 || js == "bool" && info&types.IsBoolean != 0 || js == "number" && info&types.IsFloat != 0
		if !same {
			c.needNote(r, o, js, rule)
		}
	}
	if n == 0 {
		c.Unknown(rule, "%s for %s: no outcome", js, r.name)
	}
}

func lastInstr(sets []*eng.Event, o *eng.Outcome) ssa.Instruction {
	if len(sets) > 0 {
		return sets[len(sets)-1].Instr
	}
	return o.In
}

// storable: a state in which nothing was stored could hold a value in range.
func (c *Ctx) storable(st *eng.State, r *structRun, js string) string {
	info := basicOf(r.typ).Info()
	switch js {
	case "null", "bool":
		return js
	case "number":
		if info&types.IsInteger == 0 {
			return "any number"
		}
		lo, hi := intRange(r.typ)
		if !overlaps(st.AVOf(r.src), lo, hi) {
			return ""
		}
		for _, t := range st.FactTerms() {
			if t.Op == eng.OConv && stripConv(t) == r.src && !overlaps(st.AVOf(t), lo, hi) {
				return ""
			}
			// left out because it is no whole number
			if t.Op == eng.OEq && t.Contains(r.src) && t.Any(func(x *eng.Term) bool {
				return x.Op == eng.OCall && (x.S == "math.Trunc" || x.S == "math.Floor" || x.S == "math.Round") || x.Op == eng.OExtract && x.Args[0].S == "math.Modf"
			}) {
				return ""
			}
		}
		return "the number may be " + st.AVOf(r.src).String()
	case "string":
		if info&types.IsString != 0 {
			return "any string"
		}
		// the parser must have refused it, or the number is out of range
		for _, t := range st.FactTerms() {
			if t.Op == eng.ODyn && t.Args[0].Op == eng.OExtract && strings.HasPrefix(t.Args[0].Args[0].S, "strconv.") && c.IsNil(st, t.Args[0]) == -1 {
				p := t.Args[0].Args[0]
				if b := p.Args[len(p.Args)-1]; strings.HasPrefix(p.S, "strconv.ParseInt") || strings.HasPrefix(p.S, "strconv.ParseUint") {
					if n, ok := b.Int(); ok && n != 0 && int(n) < intBits(r.typ) {
						return "parsed with " + short(b) + " bits"
					}
				}
				return ""
			}
		}
		if info&types.IsInteger == 0 {
			return "the text was parsed"
		}
		lo, hi := intRange(r.typ)
		for _, t := range st.FactTerms() {
			if t.Op == eng.OExtract && t.I == 0 && strings.HasPrefix(t.Args[0].S, "strconv.Parse") && !overlaps(st.AVOf(t), lo, hi) {
				return ""
			}
		}
		return "the number may be in range"
	}
	return ""
}

// rightValue decides whether val is the documented conversion: 1, -1, 0.
func (c *Ctx) rightValue(st *eng.State, r *structRun, js string, base, val *eng.Term) (int, string) {
	e := c.E
	info := basicOf(r.typ).Info()
	num := info&(types.IsInteger|types.IsFloat) != 0
	isC := func(t *eng.Term, n int64) bool {
		x, ok := t.Int()
		return ok && x == n
	}
	switch js {
	case "null":
		if isZeroTerm(val) {
			return 1, ""
		}
		if val.IsConst() {
			return -1, "null is no value"
		}
	case "bool":
		d := e.Decide(st, r.src)
		switch {
		case num:
			if d != 0 && val.Op == eng.OConst {
				want := int64(0)
				if d == 1 {
					want = 1
				}
				if isC(val, want) {
					return 1, ""
				}
				return -1, "the value is " + map[int]string{1: "true", -1: "false"}[d]
			}
		case info&types.IsBoolean != 0:
			if val == r.src {
				return 1, ""
			}
			if b, ok := val.Bool(); ok && d != 0 {
				if b == (d == 1) {
					return 1, ""
				}
				return -1, "the value is another one"
			}
			if val == e.Not(r.src) {
				return -1, "the value is inverted"
			}
		default:
			if val.Op == eng.OFmt && val.Args[0] == r.src && (val.S == "%t" || val.S == "%v") {
				return 1, ""
			}
			if val.Op == eng.OFmt && val.Args[0] == e.Not(r.src) {
				return -1, "the value is inverted"
			}
			if s, ok := val.Str(); ok && d != 0 {
				if s == map[int]string{1: "true", -1: "false"}[d] {
					return 1, ""
				}
				return -1, "the value is another one"
			}
		}
	case "number":
		switch {
		case num:
			if base == r.src {
				return 1, ""
			}
			if base.Op == eng.OCall && strings.HasPrefix(base.S, "math.") && len(base.Args) == 1 && base.Args[0] == r.src {
				if base.S == "math.Trunc" || base.S == "math.Floor" || base.S == "math.Round" {
					return 1, ""
				}
				return -1, "another number"
			}
			if x, ok := base.Int(); ok {
				av := st.AVOf(r.src)
				if av != nil && av.Num && len(av.Iv) == 1 && av.Iv[0].Lo != nil && av.Iv[0].Hi != nil && av.Iv[0].Lo.Cmp(av.Iv[0].Hi) == 0 && av.Iv[0].Lo.Cmp(big.NewRat(x, 1)) == 0 {
					return 1, ""
				}
				return -1, "another number"
			}
			if base.Op == eng.OBin && base.Contains(r.src) {
				return -1, "another number"
			}
		case info&types.IsBoolean != 0:
			eq := e.Eq(r.src, e.Const(constant.MakeInt64(0), types.Typ[types.Float64]))
			if val == e.Not(eq) {
				return 1, ""
			}
			if b, ok := val.Bool(); ok {
				switch d := e.Decide(st, eq); {
				case d == 1 && !b, d == -1 && b:
					return 1, ""
				case d != 0 || true:
					return -1, "0 is false, every other number true"
				}
			}
			if val.Op == eng.OLt || val == eq || val.Op == eng.ONot {
				return -1, "0 is false, every other number true"
			}
		default:
			if val.Op == eng.OCall && val.S == "strconv.FormatFloat" && len(val.Args) == 4 && val.Args[0] == r.src {
				if isC(val.Args[1], 'f') && isC(val.Args[2], -1) && isC(val.Args[3], 64) {
					return 1, ""
				}
				return -1, "not the plain notation of exactly this number"
			}
			if val.Op == eng.OFmt && val.Args[0].Op == eng.OConv && val.Args[0].Args[0] == r.src {
				return -1, "digits after the point are lost"
			}
		}
	case "string":
		switch {
		case info&types.IsString != 0:
			if base == r.src {
				return 1, ""
			}
			if _, ok := val.Str(); ok {
				if e.Decide(st, e.Eq(r.src, val)) == 1 {
					return 1, ""
				}
				return -1, "another string"
			}
			if val.Op == eng.OCall && strings.HasPrefix(val.S, "strings.") || val.Op == eng.OSlice || val.Op == eng.OConcat {
				return -1, "another string"
			}
		case num && base.Op == eng.OExtract && base.I == 0 && strings.HasPrefix(base.Args[0].S, "strconv."):
			p := base.Args[0]
			if c.IsNil(st, c.errOf(p)) != 1 {
				return -1, "the text may not be a number"
			}
			if (p.S == "strconv.ParseUint" || p.S == "strconv.ParseInt") && p.Args[1].IsConst() && !isC(p.Args[1], 10) {
				return -1, "the text is not read as a decimal number"
			}
			if p.Args[0] != r.src {
				if p.Args[0].Op == eng.OCall && strings.HasPrefix(p.Args[0].S, "strings.Trim") {
					return 0, ""
				}
				return 0, ""
			}
			switch p.S {
			case "strconv.ParseUint", "strconv.ParseInt":
				if !isC(p.Args[1], 10) {
					return -1, "the text is not read as a decimal number"
				}
				return 1, ""
			case "strconv.ParseFloat":
				if info&types.IsFloat != 0 {
					if isC(p.Args[1], 64) {
						return 1, ""
					}
					return -1, "precision is lost"
				}
				return 0, ""
			case "strconv.Atoi":
				return 1, ""
			}
		case info&types.IsBoolean != 0 && base.Op == eng.OExtract && base.I == 0 && base.Args[0].S == "strconv.ParseBool":
			if c.IsNil(st, c.errOf(base.Args[0])) != 1 {
				return -1, "the text may not be a bool"
			}
			if base.Args[0].Args[0] == r.src {
				return 1, ""
			}
		case num && val.Op == eng.OConst:
			return -1, "a fixed number is stored for any text"
		}
	}
	return 0, ""
}

// sourceOf: the value handed on is the source itself.
func (r *structRun) isSource(t *eng.Term) bool {
	if t == r.src && r.src != nil {
		return true
	}
	if t.IsNil() && r.src == nil {
		return true
	}
	return t.Op == eng.OIface && t.Args[0] == r.src
}

// passOn checks the name and notes a recursive step is given.
func (c *Ctx) passOn(r *structRun, x recCall, rule, what string) bool {
	ok := true
	if x.key != r.key && !x.key.Contains(r.key) {
		c.Bad(rule, x.fn, posOf(x.in), "notes for %s of a %s field are recorded under another name (%s)", what, r.name, short(x.key))
		ok = false
	}
	if x.data != r.data {
		c.Bad(rule, x.fn, posOf(x.in), "notes for %s of a %s field are not recorded in the object's decode data", what, r.name)
		ok = false
	}
	return ok
}

// pointer: a pointer is set exactly when its value was decoded.
func (c *Ctx) pointer(R *recDecoder, r *structRun, js string) {
	const rule = "pointer"
	for _, x := range r.calls {
		if !r.isSource(x.src) {
			c.Unknown(rule, "%s: decodes %s", r.name, short(x.src))
			return
		}
		c.passOn(r, x, rule, "the value")
	}
	for _, o := range r.outs {
		if o.Panic {
			continue
		}
		pos := posOf(o.In)
		var steps []*eng.Event
		for _, ev := range o.St.Trace.Events() {
			if ev.Key == eng.FuncName(R.fn) {
				steps = append(steps, ev)
			}
		}
		if len(steps) == 0 {
			// decided here: left out needs a note unless it is null
			success, _ := c.result(R, o)
			if len(r.setsOf(o.St)) == 0 && success == -1 && js != "null" {
				c.needNote(r, o, js, rule)
			} else {
				c.Unknown(rule, "%s: no decoding step for a JSON %s", r.name, js)
			}
			continue
		}
		if len(steps) != 1 {
			c.Unknown(rule, "%s: %d decoding steps", r.name, len(steps))
			continue
		}
		ev := steps[0]
		if R.err >= 0 {
			err := c.resultOf(ev.Res, R.err)
			if c.IsNil(o.St, err) == -1 {
				continue
			}
			n := o.St.Clone()
			if !c.AssumeNil(n, err, true) {
				continue
			}
			if v := c.IsNil(n, o.Rets[R.err]); v != 1 {
				if v == -1 {
					c.Bad(rule, R.fn, pos, "a %s field gives an error although its value was decoded without", r.name)
				} else {
					c.Unknown(rule, "%s: error %s", r.name, short(o.Rets[R.err]))
				}
				continue
			}
		}
		suc := c.resultOf(ev.Res, R.success)
		for _, want := range []bool{true, false} {
			n := o.St.Clone()
			if !c.E.Assume(n, suc, want) {
				continue
			}
			sets := r.setsOf(o.St)
			d := c.E.Decide(n, o.Rets[R.success])
			switch {
			case want && len(sets) == 0:
				c.Bad(rule, R.fn, pos, "a %s field stays nil although its value was decoded", r.name)
			case want:
				v := sets[len(sets)-1].Raw[1]
				dd := ev.Args[R.dst]
				if v.Op != eng.OCall || v.S != "reflect.New" || dd.Op != eng.OCall || len(dd.Args) == 0 || dd.Args[0] != v {
					c.Unknown(rule, "%s is set to %s", r.name, short(v))
					continue
				}
				c.Ok(rule, "a %s field points to the value decoded from a JSON %s", r.name, js)
			case len(sets) > 0:
				c.Bad(rule, R.fn, posOf(sets[0].Instr), "a %s field is set although its value (a JSON %s) could not be decoded", r.name, js)
			default:
				c.Ok(rule, "a %s field stays nil if its value could not be decoded", r.name)
			}
			if d == 1 != want && d != 0 || d == 0 && want {
				if d != 0 {
					c.Bad(rule, R.fn, pos, "a %s field reports the opposite of whether its value was decoded", r.name)
				}
			}
		}
	}
}

// vcardPtr: a card which does not parse leaves a note and no card.
func (c *Ctx) vcardPtr(R *recDecoder, r *structRun, js string) {
	const rule = "vcard"
	for _, o := range r.outs {
		if o.Panic || !c.finished(R, r, o, js, rule) {
			continue
		}
		var card *eng.Event
		for _, ev := range o.St.Trace.Events() {
			if ev.Kind != "vcard" && !strings.HasSuffix(typeStrSafe(ev.Res), "VCard, error)") && !isVCardCall(ev) {
				continue
			}
			card = ev
		}
		success, _ := c.result(R, o)
		sets := r.setsOf(o.St)
		if card == nil {
			if success == -1 && len(sets) == 0 {
				c.needNote(r, o, js, rule)
			} else {
				c.Unknown(rule, "a JSON %s for a card: no parsing step", js)
			}
			continue
		}
		switch c.IsNil(o.St, c.errOf(card.Res)) {
		case 1:
			if success == 1 && len(sets) > 0 && Unwrap(lastSet(sets)) != nil && lastSet(sets).Op == eng.OCall && lastSet(sets).S == "reflect.ValueOf" && Unwrap(lastSet(sets).Args[0]) == c.resultOf(card.Res, 0) {
				c.Ok(rule, "the parsed card is stored")
			} else if len(sets) == 0 {
				c.Bad(rule, R.fn, posOf(o.In), "a valid card is not stored")
			} else if success == -1 {
				c.Bad(rule, R.fn, posOf(o.In), "a valid card is reported as not decoded")
			} else {
				c.Unknown(rule, "card stored as %s", short(lastSet(sets)))
			}
		case -1:
			c.left(R, r, o, js, rule)
		default:
			if len(sets) > 0 {
				c.Bad(rule, R.fn, posOf(o.In), "a card is stored although it may not have parsed")
			} else {
				c.Unknown(rule, "card error is not looked at")
			}
		}
	}
}

func lastSet(sets []*eng.Event) *eng.Term { return sets[len(sets)-1].Raw[1] }

func isVCardCall(ev *eng.Event) bool {
	if ev.Res == nil {
		return false
	}
	tu, ok := ev.Res.T.(*types.Tuple)
	return ok && tu.Len() == 2 && typeStr(tu.At(0).Type()) == "*"+pkgRdap+".VCard"
}

func typeStrSafe(t *eng.Term) string {
	if t == nil || t.T == nil {
		return ""
	}
	return typeStr(t.T)
}

// structFlow: one undecodable member neither fails nor stops the object.
func (c *Ctx) structFlow(R *recDecoder, r *structRun) {
	const rule = "struct"
	for _, o := range r.outs {
		if o.Panic || r.failed(c, R, o.St) {
			continue
		}
		success, clean := c.result(R, o)
		switch {
		case clean == -1:
			c.Bad(rule, R.fn, posOf(o.In), "decoding a %s object fails although none of its members did", r.name)
		case success == -1:
			c.Bad(rule, R.fn, posOf(o.In), "a %s object is reported as not decoded", r.name)
		case success == 1 && clean == 1:
			c.Ok(rule, "a %s object is decoded whatever becomes of its members", r.name)
		default:
			c.Unknown(rule, "%s: returns %s", r.name, short(o.Rets[R.success]))
		}
	}
	var own *eng.Term
	for _, s := range r.sets {
		v := s.val
		if v != nil && v.Op == eng.OCall && v.S == "reflect.ValueOf" && strings.HasSuffix(typeStrSafe(Unwrap(v.Args[0])), "DecodeData") {
			own = Unwrap(v.Args[0])
		}
	}
	if len(r.calls) > 0 {
		open := false
		for _, x := range r.calls {
			open = open || c.IsNil(x.st, x.src) != -1
		}
		if !open {
			x := r.calls[0]
			c.Bad(rule, x.fn, posOf(x.in), "null for a member of a %s object is left out without a note", r.name)
		} else {
			c.Ok(rule, "null for a member of a %s object is decoded like other values", r.name)
		}
	}
	for _, x := range r.calls {
		key := r.memberKey(x)
		if own == nil || x.data != own {
			c.Bad(rule, x.fn, posOf(x.in), "notes for the members of a %s object are not kept in its decode data", r.name)
			continue
		}
		if k := c.E.RangeKeyOf(x.src); k != nil && key != k {
			c.Bad(rule, x.fn, posOf(x.in), "notes for the members of a %s object are kept under another name", r.name)
			continue
		}
		c.Ok(rule, "notes for the members of a %s object go to its decode data", r.name)
	}
}

// freshPerStep: the destination of a step is made in the same iteration.
func freshPerStep(seg []*eng.Event, dst *eng.Term) int {
	var made *eng.Term
	dst.Walk(func(x *eng.Term) bool {
		if x.Op == eng.OCall && x.S == "reflect.New" {
			made = x
		}
		return made == nil
	})
	if made == nil {
		return 0
	}
	for _, ev := range seg {
		if ev.Key == "reflect.New" && ev.Res == made {
			return 1
		}
	}
	return -1
}

// list: exactly the decodable elements are kept, in order.
func (c *Ctx) list(R *recDecoder, r *structRun) {
	const rule = "list"
	e := c.E
	if len(r.calls) == 0 {
		c.Unknown(rule, "%s: no decoding step", r.name)
		return
	}
	rk := eng.FuncName(R.fn)
	for _, x := range r.calls {
		l, idx, ok := elemAccess(x.src)
		if !ok || l != r.src {
			c.Unknown(rule, "%s: decodes %s", r.name, short(x.src))
			return
		}
		c.passOn(r, x, rule, "the elements")
		v, why := c.fullRangeBut(x.st, l, idx, func(q *eng.LoopExit) bool { return r.failed(c, R, q.St) })
		switch v {
		case -1:
			c.Bad(rule, x.fn, posOf(x.in), "not every element of a %s field is decoded: %s", r.name, why)
		case 0:
			c.Unknown(rule, "%s: %s", r.name, why)
		default:
			c.Ok(rule, "every element of a %s field is decoded", r.name)
		}
		b, _ := eng.Lin(idx)
		if b == nil {
			continue
		}
		li := c.loopOf(b)
		if li == nil {
			continue
		}
		for _, be := range li.Back {
			if be.St.Dead {
				continue
			}
			var step *eng.Event
			var app []*eng.Event
			for _, ev := range be.Seg {
				switch ev.Key {
				case rk:
					step = ev
				case "reflect.Append", "(reflect.Value).Set":
					app = append(app, ev)
				}
			}
			where := posOf(firstPos(be.From))
			if step == nil {
				c.Bad(rule, li.Fn, where, "elements of a %s field can be passed over without being decoded", r.name)
				continue
			}
			if freshPerStep(be.Seg, step.Args[R.dst]) == -1 {
				c.Bad(rule, li.Fn, posOf(step.Instr), "the elements of a %s field are decoded into one shared value: members of one element show up in the next", r.name)
				continue
			}
			suc := c.resultOf(step.Res, R.success)
			for _, want := range []bool{true, false} {
				n := be.St.Clone()
				if !e.Assume(n, suc, want) {
					continue
				}
				switch {
				case want && len(app) == 0:
					c.Bad(rule, li.Fn, where, "an element of a %s field which was decoded is dropped", r.name)
				case !want && len(app) > 0:
					c.Bad(rule, li.Fn, posOf(app[0].Instr), "an element of a %s field which could not be decoded is kept", r.name)
				case want:
					a := app[0]
					if a.Key == "reflect.Append" && len(a.Args) == 2 {
						el := a.Args[1]
						if els := e.Elems(be.St, a.Raw[1]); len(els) == 1 {
							el = els[0]
						} else if el.Op == eng.OAppend && len(el.Args) == 2 {
							el = el.Args[1]
						}
						if el != step.Args[R.dst] {
							c.Unknown(rule, "%s: appends %s", r.name, short(el))
							continue
						}
					}
					c.Ok(rule, "a decoded element of a %s field is kept", r.name)
				default:
					c.Ok(rule, "an element of a %s field which could not be decoded is left out", r.name)
				}
			}
		}
	}
	for _, o := range r.outs {
		if o.Panic || r.failed(c, R, o.St) {
			continue
		}
		success, clean := c.result(R, o)
		pos := posOf(o.In)
		if clean == -1 || success == -1 {
			c.Bad(rule, R.fn, pos, "a list for a %s field is not taken although all its elements were handled", r.name)
			continue
		}
		if success != 1 || clean != 1 {
			c.Unknown(rule, "%s: returns %s", r.name, short(o.Rets[R.success]))
			continue
		}
		sets := r.setsOf(o.St)
		if len(sets) == 0 {
			// an empty list may stay unset
			if e.Decide(o.St, e.Lt(e.IntC(0), e.Len(r.src))) == -1 {
				continue
			}
			c.Bad(rule, R.fn, pos, "the decoded list is not stored in a %s field", r.name)
			continue
		}
		v := lastSet(sets)
		switch {
		case v.Op == eng.OSym && len(e.Origins[v]) > 0:
			good := true
			for _, or := range e.Origins[v] {
				x := or.Val
				switch {
				case or.Init && x.Op == eng.OCall && x.S == "reflect.MakeSlice":
					if n, ok := x.Args[1].Int(); !ok || n != 0 {
						c.Bad(rule, R.fn, posOf(sets[0].Instr), "the list stored in a %s field starts with %s empty elements", r.name, short(x.Args[1]))
						good = false
					}
				case or.Init && (x.S == "reflect.Zero" || x == r.dst):
				case x == v || x.Op == eng.OCall && x.S == "reflect.Append" && x.Args[0] == v:
				case x.Op == eng.OCall && x.S == "reflect.Append":
					c.Bad(rule, R.fn, posOf(sets[0].Instr), "earlier elements of the list for a %s field are lost", r.name)
					good = false
				default:
					c.Unknown(rule, "%s: list is %s", r.name, short(x))
					good = false
				}
			}
			if good {
				c.Ok(rule, "the decoded elements are stored in a %s field", r.name)
			}
		case v.Op == eng.OCall && v.S == "reflect.MakeSlice":
			if n, ok := v.Args[1].Int(); ok && n == 0 && e.Decide(o.St, e.Lt(e.IntC(0), e.Len(r.src))) == -1 {
				continue
			}
			c.Unknown(rule, "%s: stores %s", r.name, short(v))
		default:
			c.Unknown(rule, "%s: stores %s", r.name, short(v))
		}
	}
}

// mapValues: exactly the decodable values are kept under their keys.
func (c *Ctx) mapValues(R *recDecoder, r *structRun) {
	const rule = "map"
	e := c.E
	for _, x := range r.calls {
		k := e.RangeKeyOf(x.src)
		if x.src.Op != eng.ORangeVal || k == nil {
			c.Unknown(rule, "%s: decodes %s", r.name, short(x.src))
			return
		}
		c.passOn(r, x, rule, "the values")
		for _, li := range e.LoopList {
			if li.MapC != k.Args[0] {
				continue
			}
			for _, x := range li.Exits {
				if !x.St.Dead && c.exhausted(x, li) == -1 && !r.failed(c, R, x.St) {
					c.Bad(rule, li.Fn, posOf(firstPos(x.From)), "values of a %s field are not looked at once one of them was handled", r.name)
				}
			}
			for _, be := range li.Back {
				if be.St.Dead {
					continue
				}
				var step, set *eng.Event
				for _, ev := range be.Seg {
					switch ev.Key {
					case eng.FuncName(R.fn):
						step = ev
					case "(reflect.Value).SetMapIndex":
						set = ev
					}
				}
				where := posOf(firstPos(be.From))
				if step == nil {
					c.Bad(rule, li.Fn, where, "values of a %s field can be passed over", r.name)
					continue
				}
				if freshPerStep(be.Seg, step.Args[R.dst]) == -1 {
					c.Bad(rule, li.Fn, posOf(step.Instr), "the values of a %s field are decoded into one shared value", r.name)
					continue
				}
				suc := c.resultOf(step.Res, R.success)
				for _, want := range []bool{true, false} {
					n := be.St.Clone()
					if !e.Assume(n, suc, want) {
						continue
					}
					switch {
					case want && set == nil:
						c.Bad(rule, li.Fn, where, "a decoded value of a %s field is dropped", r.name)
					case !want && set != nil:
						c.Bad(rule, li.Fn, posOf(set.Instr), "a value of a %s field which could not be decoded is kept", r.name)
					default:
						c.Ok(rule, "exactly the decoded values of a %s field are kept", r.name)
					}
				}
			}
		}
	}
	for _, o := range r.outs {
		if o.Panic || r.failed(c, R, o.St) {
			continue
		}
		success, clean := c.result(R, o)
		if clean == -1 || success == -1 {
			c.Bad(rule, R.fn, posOf(o.In), "an object for a %s field is not taken although all its values were handled", r.name)
			continue
		}
		if len(r.setsOf(o.St)) == 0 {
			c.Bad(rule, R.fn, posOf(o.In), "the decoded values are not stored in a %s field", r.name)
		}
	}
}
