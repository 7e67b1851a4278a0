package eng

import (
	"go/constant"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"strconv"
	"strings"
	"unicode"
)

// Subst rebuilds t with subterms replaced, folding constants.
func (e *Engine) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = f(a)
			if args[i] != a {
				same = false
			}
		}
		r := t
		if !same {
			r = e.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (e *Engine) rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OEq:
		return e.Eq(a[0], a[1])
	case OLt:
		return e.Lt(a[0], a[1])
	case ONot:
		return e.Not(a[0])
	case OBin:
		if op, ok := binOps[t.S]; ok {
			return e.Bin(op, a[0], a[1], t.T)
		}
	case OConcat:
		return e.Concat(a...)
	case OFmt:
		if t.S == "byte" {
			return e.byteStr(a[0])
		}
		return e.FmtFold(t.S, a[0])
	case OLen:
		return e.Len(a[0])
	case OField:
		return e.Field(a[0], t.I, t.T)
	case OIndex:
		return e.Index(a[0], a[1], t.T)
	case OSlice:
		return e.SliceT(a[0], a[1], a[2], t.T)
	case OConv:
		return e.Conv(a[0], t.T)
	case OExtract:
		return e.Extract(a[0], t.I, t.T)
	case OJoin:
		return e.Join(a...)
	case ODyn:
		return e.Dyn(a[0])
	case OAppend:
		return e.Append(t.T, a[0], a[1:]...)
	case OMapGet:
		v, _ := e.MapLookup(e.EmptyState(), a[0], a[1], t.T)
		return v
	case OMapHas:
		_, h := e.MapLookup(e.EmptyState(), a[0], a[1], types.Typ[types.Bool])
		return h
	case OCall:
		if r := e.foldCall(t.S, a); r != nil {
			return r
		}
	case OUn:
		if n, ok := a[0].Int(); ok && t.S == "-" {
			return e.IntC(-n)
		}
	case OLoad:
		if a[0].Op == OIndexAddr && a[0].Args[0].Op == OConst {
			return e.Index(a[0].Args[0], a[0].Args[1], t.T)
		}
	}
	n := *t
	n.Args = a
	n.ID = 0
	return e.mk(n)
}

// foldCall evaluates pure library predicates of constants.
func (e *Engine) foldCall(name string, a []*Term) *Term {
	var ss []string
	var ns []int64
	for _, x := range a {
		if x == nil {
			return nil
		}
		if s, ok := x.Str(); ok {
			ss = append(ss, s)
		} else if n, ok := x.Int(); ok {
			ns = append(ns, n)
		} else {
			return nil
		}
	}
	switch {
	case len(ss) == 1 && len(ns) == 1:
		r := rune(ns[0])
		switch name {
		case "strings.IndexByte":
			return e.IntC(int64(strings.IndexByte(ss[0], byte(ns[0]))))
		case "strings.LastIndexByte":
			return e.IntC(int64(strings.LastIndexByte(ss[0], byte(ns[0]))))
		case "strings.IndexRune":
			return e.IntC(int64(strings.IndexRune(ss[0], r)))
		case "strings.ContainsRune":
			return e.BoolC(strings.ContainsRune(ss[0], r))
		}
	case len(ss) == 2 && len(ns) == 0:
		switch name {
		case "strings.LastIndex":
			return e.IntC(int64(strings.LastIndex(ss[0], ss[1])))
		case "strings.IndexAny":
			return e.IntC(int64(strings.IndexAny(ss[0], ss[1])))
		case "strings.Index":
			return e.IntC(int64(strings.Index(ss[0], ss[1])))
		case "strings.Contains":
			return e.BoolC(strings.Contains(ss[0], ss[1]))
		case "strings.ContainsAny":
			return e.BoolC(strings.ContainsAny(ss[0], ss[1]))
		case "strings.HasPrefix":
			return e.BoolC(strings.HasPrefix(ss[0], ss[1]))
		case "strings.HasSuffix":
			return e.BoolC(strings.HasSuffix(ss[0], ss[1]))
		case "strings.EqualFold":
			return e.BoolC(strings.EqualFold(ss[0], ss[1]))
		}
	case len(ss) == 0 && len(ns) == 1:
		r := rune(ns[0])
		switch name {
		case "unicode.IsLetter":
			return e.BoolC(unicode.IsLetter(r))
		case "unicode.IsDigit":
			return e.BoolC(unicode.IsDigit(r))
		case "unicode.IsNumber":
			return e.BoolC(unicode.IsNumber(r))
		case "unicode.IsSpace":
			return e.BoolC(unicode.IsSpace(r))
		case "unicode.IsUpper":
			return e.BoolC(unicode.IsUpper(r))
		case "unicode.IsLower":
			return e.BoolC(unicode.IsLower(r))
		case "unicode.IsPunct":
			return e.BoolC(unicode.IsPunct(r))
		case "unicode.IsControl":
			return e.BoolC(unicode.IsControl(r))
		case "unicode.IsPrint":
			return e.BoolC(unicode.IsPrint(r))
		}
	}
	return nil
}

var binOps = map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM, "&": token.AND, "|": token.OR, "^": token.XOR, "<<": token.SHL, ">>": token.SHR, "&^": token.AND_NOT}

// FmtFold formats constants with the usual integer verbs.
func (e *Engine) FmtFold(verb string, x *Term) *Term {
	y := x
	if y.Op == OIface {
		y = y.Args[0]
	}
	if n, ok := y.Int(); ok && len(verb) >= 2 {
		base, up := 10, false
		switch verb[len(verb)-1] {
		case 'd', 'v':
		case 'x':
			base = 16
		case 'X':
			base, up = 16, true
		case 'c':
			return e.StrC(string(rune(n)))
		default:
			return e.Fmt(verb, x)
		}
		s := strconv.FormatInt(n, base)
		if up {
			s = strings.ToUpper(s)
		}
		w := verb[1 : len(verb)-1]
		if w != "" {
			if w[0] != '0' {
				return e.Fmt(verb, x)
			}
			k, err := strconv.Atoi(w)
			if err != nil {
				return e.Fmt(verb, x)
			}
			for len(s) < k {
				s = "0" + s
			}
		}
		return e.StrC(s)
	}
	return e.Fmt(verb, x)
}

// Bytes renders a list of appended byte terms or strings as a string, if all
// are constant.
func (e *Engine) ConstBytes(ts []*Term) (string, bool) {
	s := ""
	for _, t := range ts {
		if n, ok := t.Int(); ok && n >= 0 && n < 256 {
			s += string([]byte{byte(n)})
			continue
		}
		if q, ok := t.Str(); ok {
			s += q
			continue
		}
		return "", false
	}
	return s, true
}

// Values lists the integers of an abstract value, if there are at most max.
func (a *AV) Values(max int) ([]int64, bool) {
	if a == nil || !a.Num {
		return nil, false
	}
	var r []int64
	for _, iv := range a.Iv {
		if iv.Lo == nil || iv.Hi == nil || !iv.Lo.IsInt() || !iv.Hi.IsInt() {
			return nil, false
		}
		lo, hi := iv.Lo.Num().Int64(), iv.Hi.Num().Int64()
		if iv.LoOpen {
			lo++
		}
		if iv.HiOpen {
			hi--
		}
		if hi-lo > int64(max) {
			return nil, false
		}
		for v := lo; v <= hi; v++ {
			r = append(r, v)
		}
	}
	return r, len(r) <= max
}

// Lin splits an integer term into base and offset.
func Lin(t *Term) (*Term, int64) { return lin(t) }

var _ = constant.MakeInt64
var _ types.Type

// MapLayers flattens a map content into layers, later ones winning. Loops
// that copy one map into another are recognised.
func (e *Engine) MapLayers(c *Term) []MapLayer {
	switch c.Op {
	case OMapEmpty:
		return nil
	case OMapInit:
		return []MapLayer{{All: c}}
	case OMapUpd:
		return append(e.MapLayers(c.Args[0]), MapLayer{Key: c.Args[1], Val: c.Args[2]})
	case OMapDel:
		return append(e.MapLayers(c.Args[0]), MapLayer{Key: c.Args[1], Del: true})
	case OMapCopy:
		return append(e.MapLayers(c.Args[0]), e.MapLayers(c.Args[1])...)
	case OSym:
		var init, src *Term
		ok := true
		n := 0
		for _, o := range e.Origins[c] {
			if o.Init {
				if init != nil && init != o.Val {
					ok = false
				}
				init = o.Val
				continue
			}
			n++
			v := o.Val
			if v.Op == OMapUpd && v.Args[0] == c && v.Args[1].Op == ORangeKey && v.Args[2].Op == ORangeVal && v.Args[1].S == v.Args[2].S && v.Args[1].Args[0] == v.Args[2].Args[0] {
				s := v.Args[1].Args[0]
				if src != nil && src != s {
					ok = false
				}
				src = s
				continue
			}
			ok = false
		}
		if ok && init != nil && src != nil {
			return append(e.MapLayers(init), e.MapLayers(src)...)
		}
	}
	return []MapLayer{{All: c}}
}

// MapLayer is a whole map content or a single entry.
type MapLayer struct {
	All      *Term
	Key, Val *Term
	Del      bool
}

// EmptyState is a state without knowledge.
func (e *Engine) EmptyState() *State { return &State{heap: map[*Term]*Term{}, F: newFacts()} }

// Bin2Sub is t - n.
func (e *Engine) Bin2Sub(t *Term, n int64) *Term {
	return e.Bin(token.SUB, t, e.IntC(n), types.Typ[types.Int])
}

// IndexByte is the byte term of a string at idx.
func (e *Engine) IndexByte(x, idx *Term) *Term { return e.Index(x, idx, types.Typ[types.Byte]) }

// MapInit is the entry content of a map.
func (e *Engine) MapInit(m *Term) *Term { return e.mk(Term{Op: OMapInit, Args: []*Term{m}, T: m.T}) }

// GlobalT is the address of a package level variable.
func (e *Engine) GlobalT(g *ssa.Global) *Term { return e.mk(Term{Op: OGlobal, G: g, T: g.Type()}) }

// CallT builds the term of a pure call.
func (e *Engine) CallT(key string, t types.Type, args ...*Term) *Term {
	return e.mk(Term{Op: OCall, S: key, Args: args, T: t})
}

// Describe prints a term with the fields of fresh objects.
func (e *Engine) Describe(st *State, t *Term) string {
	x := t
	if x.Op == OIface {
		x = x.Args[0]
	}
	if x.Op == OAlloc && x.T != nil {
		if p, ok := x.T.Underlying().(*types.Pointer); ok {
			return "&" + e.Load(st, x, p.Elem()).String()
		}
	}
	return t.String()
}

// AssertT is the value of interface x as a value of type t.
func (e *Engine) AssertT(x *Term, t types.Type) *Term {
	if x.Op == OIface && types.Identical(x.T, t) {
		return x.Args[0]
	}
	return e.mk(Term{Op: OAssert, Args: []*Term{x}, T: t})
}

// StructT builds a struct value from named fields, zero elsewhere.
func (e *Engine) StructT(t types.Type, fields map[string]*Term) *Term {
	s := t.Underlying().(*types.Struct)
	fs := make([]*Term, s.NumFields())
	for i := range fs {
		f := s.Field(i)
		if v := fields[f.Name()]; v != nil {
			fs[i] = v
		} else {
			fs[i] = e.Zero(f.Type())
		}
	}
	return e.mk(Term{Op: OStruct, Args: fs, T: t})
}

// KnownElems lists the elements of a slice of decided length.
func (e *Engine) KnownElems(st *State, x *Term) ([]*Term, bool) {
	if x == nil {
		return nil, false
	}
	if l := e.Elems(st, x); l != nil {
		if x.T == nil {
			return l, true
		}
		if sl, ok := x.T.Underlying().(*types.Slice); ok && e.SortedBy(st, x) != nil {
			for i := range l {
				l[i] = e.Load(st, e.IndexAddr(x, e.IntC(int64(i)), sl.Elem()), sl.Elem())
			}
		}
		return l, true
	}
	if x.T == nil {
		return nil, false
	}
	sl, ok := x.T.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	v, ok := st.AVOf(e.Len(x)).Values(1)
	if !ok || len(v) != 1 || v[0] < 0 || v[0] > 60 {
		return nil, false
	}
	r := []*Term{}
	for i := int64(0); i < v[0]; i++ {
		r = append(r, e.Load(st, e.IndexAddr(x, e.IntC(i), sl.Elem()), sl.Elem()))
	}
	return r, true
}
