// Package eng is a path-partitioned abstract interpreter over Go SSA.
//
// Values are hash-consed terms (Herbrand value numbering): two program values
// with the same term are equal. Branches refine a fact store (finite value
// sets, interval lists, difference bounds); states are merged at joins, loops
// are solved by widening to a fixpoint, repository functions are analysed in
// their calling context, everything else is an opaque event.
package eng

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst     Op = iota
	ONil          // nil of type T
	OZero         // zero value of composite type T
	OType         // a type, as a value of ODyn
	OParam        // S
	OSym          // unknown value S (loop-widened, havoc)
	OAlloc        // object allocated at S
	OGlobal       // address of a package level variable
	OFunc         // Fn
	OClosure      // Fn, Args bindings
	OFieldAddr    // Args[0], I
	OIndexAddr    // Args[0], Args[1]
	OLoad         // content of address Args[0] at entry
	OField        // Args[0], I
	OIndex        // Args[0][Args[1]] of a string or array value
	OBin          // S operator
	ONot          // !x
	OUn           // S operator
	OConv         // conversion to T
	OIface        // interface holding Args[0] of type T
	OAssert       // Args[0].(T)
	ODyn          // dynamic type of interface Args[0]
	OIsIface      // Args[0] implements interface T
	OLen          // len
	OCap          // cap
	OMapEmpty     // empty map content
	OMapInit      // content of map Args[0] at entry
	OMapUpd       // Args[0] with Args[1]=Args[2]
	OMapCopy      // Args[0] with all of map content Args[1]
	OMapDel       // Args[0] without Args[1]
	OMapGet       // content Args[0], key Args[1]
	OMapHas       // content Args[0], key Args[1]
	ORangeKey     // S loop, Args[0] content
	ORangeVal     // S loop, Args[0] content
	ORangeOk      // S loop
	OCall         // S callee, Args; I instance
	OExtract      // Args[0], I
	OSlice        // Args[0][Args[1]:Args[2]]
	OAppend       // Args[0] + Args[1:]
	OAppendAll    // Args[0] + Args[1]...
	OConcat       // strings
	OFmt          // S verb, Args[0]
	OStruct       // T, Args fields
	OOut          // what call Args[0] wrote through its argument I
	OJoin         // one of Args
	OEq           // Args[0] == Args[1]
	OLt           // Args[0] < Args[1]
	OContents     // pseudo address of the content of Args[0] (map, builder, slice)
	OTuple        // several values
)

var opNames = [...]string{"const", "nil", "zero", "type", "param", "sym", "alloc", "global", "func", "closure", "fieldaddr", "indexaddr", "load", "field", "index", "bin", "not", "un", "conv", "iface", "assert", "dyn", "isiface", "len", "cap", "mapempty", "mapinit", "mapupd", "mapcopy", "mapdel", "mapget", "maphas", "rangekey", "rangeval", "rangeok", "call", "extract", "slice", "append", "appendall", "concat", "fmt", "struct", "out", "join", "eq", "lt", "contents", "tuple"}

// Term is an immutable, hash-consed value.
type Term struct {
	ID   int
	Op   Op
	Args []*Term
	S    string
	I    int
	T    types.Type
	V    constant.Value
	Fn   *ssa.Function
	G    *ssa.Global
	At   ssa.Instruction // where it was created, if relevant
}

type termTable struct {
	m  map[string]*Term
	ts map[types.Type]string
}

func newTermTable() *termTable {
	return &termTable{m: map[string]*Term{}, ts: map[types.Type]string{}}
}

func (tt *termTable) typeString(t types.Type) string {
	if t == nil {
		return "-"
	}
	if s, ok := tt.ts[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	tt.ts[t] = s
	return s
}

func (tt *termTable) mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.Op)))
	for _, a := range t.Args {
		b.WriteByte(',')
		if a == nil {
			b.WriteByte('_')
		} else {
			b.WriteString(strconv.Itoa(a.ID))
		}
	}
	b.WriteByte('|')
	b.WriteString(t.S)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(t.I))
	switch t.Op {
	case OConst, OZero, OType, OConv, OIface, OAssert, OIsIface, OStruct, OParam, OSym:
		b.WriteByte('|')
		b.WriteString(tt.typeString(t.T))
	}
	if t.V != nil {
		b.WriteByte('|')
		b.WriteString(t.V.Kind().String())
		b.WriteString(t.V.ExactString())
	}
	if t.Fn != nil {
		fmt.Fprintf(&b, "|%p", t.Fn)
	}
	if t.G != nil {
		fmt.Fprintf(&b, "|%p", t.G)
	}
	k := b.String()
	if x, ok := tt.m[k]; ok {
		return x
	}
	n := t
	n.ID = len(tt.m) + 1
	tt.m[k] = &n
	return &n
}

// IsConst reports whether t is a constant (including nil).
func (t *Term) IsConst() bool {
	return t != nil && (t.Op == OConst || t.Op == ONil || t.Op == OType)
}

func (t *Term) IsNil() bool { return t != nil && t.Op == ONil }

// Str returns a string constant's value.
func (t *Term) Str() (string, bool) {
	if t != nil && t.Op == OConst && t.V != nil && t.V.Kind() == constant.String {
		return constant.StringVal(t.V), true
	}
	return "", false
}

// Int returns an integer constant's value.
func (t *Term) Int() (int64, bool) {
	if t != nil && t.Op == OConst && t.V != nil && t.V.Kind() == constant.Int {
		return constant.Int64Val(t.V)
	}
	return 0, false
}

func (t *Term) Bool() (val, ok bool) {
	if t != nil && t.Op == OConst && t.V != nil && t.V.Kind() == constant.Bool {
		return constant.BoolVal(t.V), true
	}
	return false, false
}

// Walk calls f on t and its subterms; f returns false to not descend.
func (t *Term) Walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
}

// Contains reports whether sub is a subterm of t.
func (t *Term) Contains(sub *Term) bool {
	r := false
	t.Walk(func(x *Term) bool {
		if x == sub {
			r = true
		}
		return !r
	})
	return r
}

// Any reports whether some subterm satisfies f.
func (t *Term) Any(f func(*Term) bool) bool {
	r := false
	t.Walk(func(x *Term) bool {
		if !r && f(x) {
			r = true
		}
		return !r
	})
	return r
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// FieldName returns the name of the field a OFieldAddr/OField term selects.
func (t *Term) FieldName() string {
	if t.Op != OFieldAddr && t.Op != OField {
		return ""
	}
	return t.S
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 12 {
		return "…"
	}
	arg := func(i int) string {
		if i < len(t.Args) {
			return t.Args[i].str(d + 1)
		}
		return "?"
	}
	list := func(a []*Term) string {
		var s []string
		for _, x := range a {
			s = append(s, x.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OConst:
		if t.V.Kind() == constant.String {
			s := t.V.ExactString()
			if len(s) > 60 {
				s = s[:57] + "…\""
			}
			return s
		}
		return t.V.ExactString()
	case ONil:
		return "nil"
	case OZero:
		return shortType(t.T) + "{}"
	case OType:
		return shortType(t.T)
	case OParam:
		return t.S
	case OSym:
		return "?" + t.S
	case OAlloc:
		return "new@" + t.S
	case OGlobal:
		return "&" + t.G.Name()
	case OFunc:
		return t.Fn.Name()
	case OClosure:
		return t.Fn.Name() + "{" + list(t.Args) + "}"
	case OFieldAddr:
		return "&" + arg(0) + "." + t.S
	case OIndexAddr:
		return "&" + arg(0) + "[" + arg(1) + "]"
	case OLoad:
		a := t.Args[0]
		switch a.Op {
		case OFieldAddr:
			return a.Args[0].str(d+1) + "." + a.S
		case OIndexAddr:
			return a.Args[0].str(d+1) + "[" + a.Args[1].str(d+1) + "]"
		case OGlobal:
			return a.G.Name()
		}
		return "*" + arg(0)
	case OField:
		return arg(0) + "." + t.S
	case OIndex:
		return arg(0) + "[" + arg(1) + "]"
	case OBin:
		return "(" + arg(0) + " " + t.S + " " + arg(1) + ")"
	case ONot:
		return "!" + arg(0)
	case OUn:
		return t.S + arg(0)
	case OConv:
		return shortType(t.T) + "(" + arg(0) + ")"
	case OIface:
		return arg(0)
	case OAssert:
		return arg(0) + ".(" + shortType(t.T) + ")"
	case OEq:
		return "(" + arg(0) + " == " + arg(1) + ")"
	case OLt:
		return "(" + arg(0) + " < " + arg(1) + ")"
	case OCall:
		s := t.S
		if i := strings.LastIndex(s, "/"); i >= 0 {
			s = s[i+1:]
		}
		return s + "(" + list(t.Args) + ")"
	case OExtract:
		return arg(0) + "#" + strconv.Itoa(t.I)
	case OMapGet:
		return arg(0) + "[" + arg(1) + "]"
	case OMapHas:
		return "has(" + arg(0) + ", " + arg(1) + ")"
	case OSlice:
		return arg(0) + "[" + arg(1) + ":" + arg(2) + "]"
	case OStruct:
		st := structOf(t.T)
		var s []string
		for i, x := range t.Args {
			n := strconv.Itoa(i)
			if st != nil && i < st.NumFields() {
				n = st.Field(i).Name()
			}
			if x.Op == OZero || x.Op == ONil {
				continue
			}
			s = append(s, n+": "+x.str(d+1))
		}
		return shortType(t.T) + "{" + strings.Join(s, ", ") + "}"
	case OConcat:
		var s []string
		for _, x := range t.Args {
			s = append(s, x.str(d+1))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OFmt:
		return "fmt(" + t.S + ", " + arg(0) + ")"
	}
	s := opNames[t.Op]
	if t.S != "" {
		s += ":" + t.S
	}
	return s + "(" + list(t.Args) + ")"
}
