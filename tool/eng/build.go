package eng

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

func (e *Engine) mk(t Term) *Term { return e.tt.mk(t) }

// Constructors. All simplify.

func (e *Engine) Const(v constant.Value, t types.Type) *Term {
	if t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok {
			// numbers are normalised to the basic type to ease comparison
			if b.Info()&types.IsInteger != 0 {
				if i := constant.ToInt(v); i.Kind() == constant.Int {
					return e.mk(Term{Op: OConst, V: i, T: types.Typ[types.Int]})
				}
			}
			if b.Info()&types.IsFloat != 0 {
				if i := constant.ToInt(v); i.Kind() == constant.Int {
					return e.mk(Term{Op: OConst, V: i, T: types.Typ[types.Float64]})
				}
				return e.mk(Term{Op: OConst, V: constant.ToFloat(v), T: types.Typ[types.Float64]})
			}
			if b.Info()&types.IsString != 0 {
				return e.mk(Term{Op: OConst, V: v, T: types.Typ[types.String]})
			}
			if b.Info()&types.IsBoolean != 0 {
				return e.mk(Term{Op: OConst, V: v, T: types.Typ[types.Bool]})
			}
		}
	}
	return e.mk(Term{Op: OConst, V: v, T: t})
}

func (e *Engine) IntC(n int64) *Term { return e.Const(constant.MakeInt64(n), types.Typ[types.Int]) }
func (e *Engine) StrC(s string) *Term {
	return e.Const(constant.MakeString(s), types.Typ[types.String])
}
func (e *Engine) BoolC(b bool) *Term { return e.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (e *Engine) Nil() *Term         { return e.nilT }
func (e *Engine) TypeC(t types.Type) *Term {
	return e.mk(Term{Op: OType, T: t})
}

// Zero is the zero value of t.
func (e *Engine) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.BoolC(false)
		case u.Info()&types.IsString != 0:
			return e.StrC("")
		case u.Info()&(types.IsInteger|types.IsFloat) != 0:
			return e.Const(constant.MakeInt64(0), t)
		}
		return e.nilT
	case *types.Struct, *types.Array:
		return e.mk(Term{Op: OZero, T: t})
	}
	return e.nilT
}

func (e *Engine) Param(name string, t types.Type) *Term {
	return e.mk(Term{Op: OParam, S: name, T: t})
}

func (e *Engine) Sym(name string, t types.Type) *Term {
	return e.mk(Term{Op: OSym, S: name, T: t})
}

func (e *Engine) Not(t *Term) *Term {
	if b, ok := t.Bool(); ok {
		return e.BoolC(!b)
	}
	if t.Op == ONot {
		return t.Args[0]
	}
	return e.mk(Term{Op: ONot, Args: []*Term{t}, T: types.Typ[types.Bool]})
}

func nonNil(t *Term) bool {
	switch t.Op {
	case OAlloc, OFieldAddr, OIndexAddr, OGlobal, OFunc, OClosure, OIface, OConst, OStruct:
		return true
	case OAppend:
		return len(t.Args) > 1 || nonNil(t.Args[0])
	case OSlice:
		return nonNil(t.Args[0])
	case OCall:
		return neverNil[t.S]
	case OExtract:
		return neverNil[t.Args[0].S+"#"+string(rune('0'+t.I))]
	}
	return false
}

var neverNil = map[string]bool{
	"rtype":      true,
	"errors.New": true, "fmt.Errorf": true, "context.Background": true, "context.TODO": true,
	"reflect.TypeOf": true, "(reflect.Value).Type": true, "(reflect.Type).Elem": true,
	"crypto/sha256.New": true, "(*net/url.URL).ResolveReference": true, "(*net/url.URL).Query": true,
	"(*net/url.URL).JoinPath": true,
	"context.WithTimeout#0":   true, "context.WithTimeout#1": true, "context.WithCancel#0": true, "context.WithCancel#1": true,
	"context.WithDeadline#0": true, "context.WithDeadline#1": true, "(*net/http.Request).WithContext": true, "(*net/http.Request).Clone": true,
	"github.com/alecthomas/kingpin/v2.New": true, "strings.NewReplacer": true, "strings.NewReader": true, "bytes.NewReader": true, "bytes.NewBuffer": true,
	"encoding/json.NewDecoder": true, "bufio.NewWriter": true, "sync.OnceValue": true,
}

// Eq builds a == b.
// Numeral: a formatted number or truth value.
func Numeral(a *Term) bool {
	switch {
	case a.Op == OCall:
		switch a.S {
		case "strconv.FormatUint", "strconv.FormatInt", "strconv.Itoa", "strconv.FormatBool", "strconv.FormatFloat":
			return true
		}
	case a.Op == OFmt:
		if a.S == "%v" && a.Args[0].Op != OIface && a.Args[0].T != nil {
			b, ok := a.Args[0].T.Underlying().(*types.Basic)
			return ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0
		}
		return a.S == "%d" || a.S == "%t" || a.S == "%x" || a.S == "%g" || a.S == "%f"
	}
	return false
}

// Eq is a == b.
func (e *Engine) Eq(a, b *Term) *Term {
	if a == b {
		return e.BoolC(true)
	}
	if a.IsConst() && !b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() && b.IsConst() {
		if a.Op == OConst && b.Op == OConst {
			ak, bk := a.V.Kind(), b.V.Kind()
			if ak == bk || (ak == constant.Int || ak == constant.Float) && (bk == constant.Int || bk == constant.Float) {
				return e.BoolC(constant.Compare(a.V, token.EQL, b.V))
			}
		}
		return e.BoolC(false)
	}
	if b.IsNil() {
		if nonNil(a) {
			return e.BoolC(false)
		}
		if isIfaceT(a.T) && a.Op != ODyn {
			return e.Eq(e.Dyn(a), e.nilT)
		}
	}
	if bv, ok := b.Bool(); ok {
		if bv {
			return a
		}
		return e.Not(a)
	}
	if s, ok := b.Str(); ok && s == "" && Numeral(a) {
		return e.BoolC(false)
	}
	if s, ok := b.Str(); ok && s == "" && a.Op == OCall && (a.S == "strings.ToLower" || a.S == "strings.ToUpper") {
		return e.Eq(a.Args[0], b)
	}
	if a.Op == OIface && b.Op == OIface {
		if !types.Identical(a.T, b.T) {
			return e.BoolC(false)
		}
		return e.Eq(a.Args[0], b.Args[0])
	}
	if k, ok := b.Str(); ok && a.Op == OConcat {
		if p, ok := a.Args[0].Str(); ok {
			if !strings.HasPrefix(k, p) {
				return e.BoolC(false)
			}
			return e.Eq(e.Concat(a.Args[1:]...), e.StrC(k[len(p):]))
		}
		if p, ok := a.Args[len(a.Args)-1].Str(); ok {
			if !strings.HasSuffix(k, p) {
				return e.BoolC(false)
			}
			return e.Eq(e.Concat(a.Args[:len(a.Args)-1]...), e.StrC(k[:len(k)-len(p)]))
		}
	}
	if ta, tb := RTypeOf(a), RTypeOf(b); ta != nil && tb != nil {
		return e.BoolC(types.Identical(ta, tb))
	}
	if a.Op == OAlloc && b.Op == OAlloc {
		return e.BoolC(false)
	}
	if !b.IsConst() && a.ID > b.ID {
		a, b = b, a
	}
	if isInt(a.T) && b.IsConst() {
		// base + c == n  =>  base == n - c
		if base, c := lin(a); base != nil && c != 0 {
			if n, ok := b.Int(); ok {
				return e.Eq(base, e.IntC(n-c))
			}
		}
		if n, ok := b.Int(); ok && lenDiff(a) {
			return e.Eq(a.Args[0], e.Bin(token.ADD, a.Args[1], e.IntC(n), types.Typ[types.Int]))
		}
	}
	return e.mk(Term{Op: OEq, Args: []*Term{a, b}, T: types.Typ[types.Bool]})
}

// Lt builds a < b.
func (e *Engine) Lt(a, b *Term) *Term {
	if a == b {
		return e.BoolC(false)
	}
	if a.Op == OConst && b.Op == OConst {
		return e.BoolC(constant.Compare(a.V, token.LSS, b.V))
	}
	if n, ok := b.Int(); ok && lenDiff(a) {
		return e.Lt(a.Args[0], e.Bin(token.ADD, a.Args[1], e.IntC(n), types.Typ[types.Int]))
	}
	if n, ok := a.Int(); ok && lenDiff(b) {
		return e.Lt(e.Bin(token.ADD, b.Args[1], e.IntC(n), types.Typ[types.Int]), b.Args[0])
	}
	return e.mk(Term{Op: OLt, Args: []*Term{a, b}, T: types.Typ[types.Bool]})
}

// lenDiff: a length minus a position, which cannot overflow.
func lenDiff(t *Term) bool {
	return t.Op == OBin && t.S == "-" && !t.Args[1].IsConst() && !t.Args[0].IsConst() && t.Args[0].Op == OLen
}

// Dyn is the dynamic type of an interface value.
func (e *Engine) Dyn(x *Term) *Term {
	switch x.Op {
	case OIface:
		return e.TypeC(x.T)
	case ONil:
		return e.nilT
	}
	if nonNil(x) && x.Op != OCall && x.Op != OExtract && !isIfaceT(x.T) && x.T != nil {
		return e.TypeC(x.T)
	}
	return e.mk(Term{Op: ODyn, Args: []*Term{x}})
}

func (e *Engine) Bin(op token.Token, a, b *Term, t types.Type) *Term {
	switch op {
	case token.EQL:
		return e.Eq(a, b)
	case token.NEQ:
		return e.Not(e.Eq(a, b))
	case token.LSS:
		return e.Lt(a, b)
	case token.GTR:
		return e.Lt(b, a)
	case token.LEQ:
		return e.Not(e.Lt(b, a))
	case token.GEQ:
		return e.Not(e.Lt(a, b))
	}
	if isString(t) && op == token.ADD {
		return e.Concat(a, b)
	}
	if a.Op == OConst && b.Op == OConst {
		if r, ok := foldBin(op, a, b, t); ok {
			return e.Const(r, t)
		}
	}
	if isInt(t) {
		if n, ok := b.Int(); ok && n == 0 && (op == token.ADD || op == token.SUB || op == token.SHL || op == token.SHR || op == token.OR || op == token.XOR) {
			return a
		}
		if op == token.ADD || op == token.SUB {
			// normalise (x + c1) ± c2
			if n, ok := b.Int(); ok {
				if op == token.SUB {
					n = -n
				}
				base, c := lin(a)
				c += n
				if base == nil {
					return e.IntC(c)
				}
				if c == 0 {
					return base
				}
				return e.mk(Term{Op: OBin, S: "+", Args: []*Term{base, e.IntC(c)}, T: t})
			}
			if _, ok := a.Int(); ok && op == token.ADD {
				return e.Bin(op, b, a, t)
			}
			if op == token.SUB {
				// (x + c) - x
				ab, ac := lin(a)
				bb, bc := lin(b)
				if ab == bb {
					return e.IntC(ac - bc)
				}
			}
		}
		if n, ok := b.Int(); ok && n == 1 && (op == token.MUL || op == token.QUO) {
			return a
		}
	}
	if (op == token.ADD || op == token.MUL || op == token.AND || op == token.OR || op == token.XOR) && !isString(t) && a.ID > b.ID {
		a, b = b, a
	}
	return e.mk(Term{Op: OBin, S: op.String(), Args: []*Term{a, b}, T: t})
}

func foldBin(op token.Token, a, b *Term, t types.Type) (r constant.Value, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	switch op {
	case token.SHL, token.SHR:
		n, o := constant.Uint64Val(b.V)
		if !o || n > 64 {
			return nil, false
		}
		r = constant.Shift(a.V, op, uint(n))
	case token.QUO:
		if isInt(t) {
			r = constant.BinaryOp(a.V, token.QUO_ASSIGN, b.V)
		} else {
			r = constant.BinaryOp(a.V, op, b.V)
		}
	default:
		r = constant.BinaryOp(a.V, op, b.V)
	}
	if tr := typeRange(t); tr != nil {
		// wrap around
		q := constRat(r)
		if q == nil || !tr.Within(nil, nil) {
			return nil, false
		}
		if q.Cmp(tr.Iv[0].Lo) < 0 || q.Cmp(tr.Iv[0].Hi) > 0 {
			m := new(big.Int).Add(new(big.Int).Sub(tr.Iv[0].Hi.Num(), tr.Iv[0].Lo.Num()), big.NewInt(1))
			x := new(big.Int).Sub(q.Num(), tr.Iv[0].Lo.Num())
			x.Mod(x, m)
			x.Add(x, tr.Iv[0].Lo.Num())
			r = constant.MakeFromLiteral(x.String(), token.INT, 0)
		}
	}
	return r, r.Kind() != constant.Unknown
}

// Concat joins strings.
func (e *Engine) Concat(parts ...*Term) *Term {
	var out []*Term
	add := func(p *Term) {
		if s, ok := p.Str(); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if q, ok := out[n-1].Str(); ok {
					out[n-1] = e.StrC(q + s)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		if p.Op == OConcat {
			for _, q := range p.Args {
				add(q)
			}
		} else {
			add(p)
		}
	}
	switch len(out) {
	case 0:
		return e.StrC("")
	case 1:
		return out[0]
	}
	return e.mk(Term{Op: OConcat, Args: out, T: types.Typ[types.String]})
}

// Fmt is x formatted with a fmt verb.
func (e *Engine) Fmt(verb string, x *Term) *Term {
	if x.Op == OIface {
		x = e.fmtOperand(x)
	}
	if verb == "%v" {
		switch {
		case isString(x.T):
			verb = "%s"
		case isInt(x.T):
			verb = "%d"
		case isBool(x.T) && x.Op != OIface:
			verb = "%t"
		}
	}
	switch verb {
	case "%s":
		if isString(x.T) && x.Op != OIface {
			return x
		}
	case "%d":
		if n, ok := x.Int(); ok {
			return e.StrC(constant.MakeInt64(n).ExactString())
		}
	}
	return e.mk(Term{Op: OFmt, S: verb, Args: []*Term{x}, T: types.Typ[types.String]})
}

// fmtOperand unwraps an interface operand, keeping values with methods
// (Stringer, error) wrapped.
func (e *Engine) fmtOperand(x *Term) *Term {
	if hasTextMethod(x.T) {
		return x
	}
	return x.Args[0]
}

func hasTextMethod(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String", "Error", "Format":
			return true
		}
	}
	return false
}

func (e *Engine) Len(x *Term) *Term {
	switch x.Op {
	case OConst:
		if s, ok := x.Str(); ok {
			return e.IntC(int64(len(s)))
		}
	case ONil:
		return e.IntC(0)
	case OConv:
		if isString(x.T) || isString(x.Args[0].T) {
			return e.Len(x.Args[0])
		}
	case OAppend:
		return e.Bin(token.ADD, e.Len(x.Args[0]), e.IntC(int64(len(x.Args)-1)), types.Typ[types.Int])
	case OAppendAll:
		if l, ok := e.Len(x.Args[0]).Int(); ok && l == 0 {
			return e.Len(x.Args[1])
		}
		return e.Bin(token.ADD, e.Len(x.Args[0]), e.Len(x.Args[1]), types.Typ[types.Int])
	case OAlloc:
		if len(x.Args) == 1 && x.S != "" && strings.HasPrefix(x.S, "slice:") {
			return x.Args[0]
		}
		if p, ok := x.T.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return e.IntC(a.Len())
			}
		}
	case OSlice:
		lo, hi := x.Args[1], x.Args[2]
		if lo != nil {
			if n, ok := lo.Int(); ok && n == 0 {
				lo = nil
			}
		}
		if hi == nil {
			hi = e.Len(x.Args[0])
		}
		if lo == nil {
			return hi
		}
		return e.Bin(token.SUB, hi, lo, types.Typ[types.Int])
	case OMapEmpty:
		return e.IntC(0)
	case OMapInit:
		return e.Len(x.Args[0])
	}
	return e.mk(Term{Op: OLen, Args: []*Term{x}, T: types.Typ[types.Int]})
}

// Field selects field i of a struct value.
func (e *Engine) Field(x *Term, i int, t types.Type) *Term {
	st := structOf(x.T)
	if st == nil {
		if p, ok := t.(*types.Struct); ok {
			st = p
		}
	}
	ft := t
	name := ""
	if st != nil && i < st.NumFields() {
		ft, name = st.Field(i).Type(), st.Field(i).Name()
	}
	switch x.Op {
	case OStruct:
		return x.Args[i]
	case OZero:
		return e.Zero(ft)
	case OLoad:
		a := x.Args[0]
		return e.LoadTerm(e.FieldAddr(a, i, name, ft), ft)
	}
	return e.mk(Term{Op: OField, Args: []*Term{x}, I: i, S: name, T: ft})
}

// FieldAddr is the address of a field.
func (e *Engine) FieldAddr(base *Term, i int, name string, ft types.Type) *Term {
	return e.mk(Term{Op: OFieldAddr, Args: []*Term{base}, I: i, S: name, T: types.NewPointer(ft)})
}

// LoadTerm is the initial content of an address.
func (e *Engine) LoadTerm(addr *Term, t types.Type) *Term {
	return e.mk(Term{Op: OLoad, Args: []*Term{addr}, T: t})
}

func (e *Engine) IndexAddr(base, idx *Term, et types.Type) *Term {
	// an element of a re-slice is an element of the original
	for base.Op == OSlice {
		lo := base.Args[1]
		if lo != nil {
			idx = e.Bin(token.ADD, idx, lo, types.Typ[types.Int])
		}
		base = base.Args[0]
	}
	return e.mk(Term{Op: OIndexAddr, Args: []*Term{base, idx}, T: types.NewPointer(et)})
}

func (e *Engine) Index(x, idx *Term, t types.Type) *Term {
	if s, ok := x.Str(); ok {
		if n, ok := idx.Int(); ok && n >= 0 && int(n) < len(s) {
			return e.IntC(int64(s[n]))
		}
	}
	if x.Op == OSlice {
		if lo := x.Args[1]; lo != nil {
			idx = e.Bin(token.ADD, idx, lo, types.Typ[types.Int])
		}
		return e.Index(x.Args[0], idx, t)
	}
	if x.Op == OConv && (isString(x.Args[0].T)) {
		return e.Index(x.Args[0], idx, t)
	}
	if x.T != nil && (x.Op == OStruct || x.Op == OZero) {
		if _, ok := x.T.Underlying().(*types.Array); ok {
			if x.Op == OZero {
				return e.Zero(t)
			}
			if n, ok := idx.Int(); ok && n >= 0 && int(n) < len(x.Args) {
				return x.Args[n]
			}
		}
	}
	return e.mk(Term{Op: OIndex, Args: []*Term{x, idx}, T: t})
}

func (e *Engine) SliceT(x, lo, hi *Term, t types.Type) *Term {
	if lo != nil {
		if n, ok := lo.Int(); ok && n == 0 {
			lo = nil
		}
	}
	if hi != nil && hi == e.Len(x) {
		hi = nil
	}
	if lo == nil && hi == nil && (x.Op != OAlloc) {
		return x
	}
	if s, ok := x.Str(); ok {
		l, h := int64(0), int64(len(s))
		ok1, ok2 := true, true
		if lo != nil {
			l, ok1 = lo.Int()
		}
		if hi != nil {
			h, ok2 = hi.Int()
		}
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s)) {
			return e.StrC(s[l:h])
		}
	}
	if x.Op == OSlice {
		l0 := x.Args[1]
		if l0 != nil {
			if lo == nil {
				lo = l0
			} else {
				lo = e.Bin(token.ADD, lo, l0, types.Typ[types.Int])
			}
			if hi != nil {
				hi = e.Bin(token.ADD, hi, l0, types.Typ[types.Int])
			}
		}
		if hi == nil {
			hi = x.Args[2]
		}
		x = x.Args[0]
	}
	return e.mk(Term{Op: OSlice, Args: []*Term{x, lo, hi}, T: t})
}

// Conv converts between basic types.
func (e *Engine) Conv(x *Term, t types.Type) *Term {
	from := x.T
	if x.Op == OConst && x.V != nil {
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0 && x.V.Kind() == constant.Int:
				r := constRat(x.V)
				if tr := typeRange(t); tr != nil && r.Cmp(tr.Iv[0].Lo) >= 0 && r.Cmp(tr.Iv[0].Hi) <= 0 {
					return e.Const(x.V, t)
				}
			case b.Info()&types.IsFloat != 0 && (x.V.Kind() == constant.Int || x.V.Kind() == constant.Float):
				return e.Const(x.V, t)
			case b.Info()&types.IsString != 0 && x.V.Kind() == constant.String:
				return x
			case b.Info()&types.IsString != 0 && x.V.Kind() == constant.Int:
				if n, ok := constant.Int64Val(x.V); ok {
					return e.StrC(string(rune(n)))
				}
			}
		}
	}
	if isInt(from) && isInt(t) {
		fr, tr := typeRange(from), typeRange(t)
		if fr != nil && tr != nil && fr.Within(tr.Iv[0].Lo, tr.Iv[0].Hi) {
			return x // lossless
		}
	}
	if isString(from) && isString(t) {
		return x
	}
	if isString(t) && x.Op == OConv && isString(x.Args[0].T) {
		return x.Args[0] // string([]byte(s))
	}
	if isString(t) && (x.Op == OAppend || x.Op == OAppendAll) {
		if ps, ok := e.byteParts(x, 0); ok {
			return e.Concat(ps...) // text built in a byte slice
		}
	}
	if x.Op == OConv && isString(from) && !isString(t) {
		if types.Identical(x.Args[0].T.Underlying(), t.Underlying()) {
			return x.Args[0] // []byte(string(b)); content equal
		}
	}
	return e.mk(Term{Op: OConv, Args: []*Term{x}, T: t})
}

// byteParts is the text of a byte slice made by appending to an empty one.
func (e *Engine) byteParts(x *Term, depth int) ([]*Term, bool) {
	if depth > 200 {
		return nil, false
	}
	if isString(x.T) {
		return []*Term{x}, true
	}
	if x.T != nil {
		s, ok := x.T.Underlying().(*types.Slice)
		if !ok || !types.Identical(s.Elem().Underlying(), types.Typ[types.Uint8]) {
			return nil, false
		}
	}
	switch x.Op {
	case ONil:
		return nil, true
	case OConv:
		if isString(x.Args[0].T) {
			return []*Term{x.Args[0]}, true
		}
	case OAlloc:
		if n, ok := e.Len(x).Int(); ok && n == 0 {
			return nil, true
		}
	case OSlice:
		if x.Args[2] != nil {
			if n, ok := x.Args[2].Int(); ok && n == 0 {
				return nil, true
			}
		}
	case OAppend:
		ps, ok := e.byteParts(x.Args[0], depth+1)
		if !ok {
			return nil, false
		}
		for _, b := range x.Args[1:] {
			ps = append(ps, e.byteStr(b))
		}
		return ps, true
	case OAppendAll:
		ps, ok := e.byteParts(x.Args[0], depth+1)
		if !ok {
			return nil, false
		}
		qs, ok := e.byteParts(x.Args[1], depth+1)
		if !ok {
			return nil, false
		}
		return append(ps, qs...), true
	}
	return nil, false
}

func (e *Engine) Extract(x *Term, i int, t types.Type) *Term {
	if x.Op == OTuple {
		return x.Args[i]
	}
	return e.mk(Term{Op: OExtract, Args: []*Term{x}, I: i, T: t})
}

func (e *Engine) Tuple(ts ...*Term) *Term { return e.mk(Term{Op: OTuple, Args: ts}) }

// Join is one of several values.
func (e *Engine) Join(ts ...*Term) *Term {
	var out []*Term
	var t types.Type
	add := func(x *Term) {
		if !inTerms(out, x) {
			out = append(out, x)
		}
	}
	for _, x := range ts {
		if t == nil && x.Op != ONil {
			t = x.T
		}
		if x.Op == OJoin {
			for _, y := range x.Args {
				add(y)
			}
		} else {
			add(x)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) > 24 {
		return e.Sym("top", t)
	}
	return e.mk(Term{Op: OJoin, Args: out, T: t})
}

func (e *Engine) Append(t types.Type, base *Term, elems ...*Term) *Term {
	if len(elems) == 0 {
		return base
	}
	if base.Op == OAppend {
		return e.mk(Term{Op: OAppend, Args: append(append([]*Term{}, base.Args...), elems...), T: t})
	}
	return e.mk(Term{Op: OAppend, Args: append([]*Term{base}, elems...), T: t})
}
