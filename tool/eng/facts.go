package eng

import (
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Iv is an interval; nil bounds are infinite.
type Iv struct {
	Lo, Hi         *big.Rat
	LoOpen, HiOpen bool
}

// AV is an abstract value: a union of intervals for numbers, a finite or
// co-finite set of constants for everything else.
type AV struct {
	Num bool
	Iv  []Iv
	In  []*Term // finite set
	Fin bool    // In is valid (even if empty)
	Not []*Term // excluded constants, if !Fin
}

func (a *AV) Empty() bool {
	if a.Num {
		return len(a.Iv) == 0
	}
	return a.Fin && len(a.In) == 0
}

func (a *AV) top() bool {
	if a.Num {
		return len(a.Iv) == 1 && a.Iv[0].Lo == nil && a.Iv[0].Hi == nil
	}
	return !a.Fin && len(a.Not) == 0
}

func cmpLo(a, b Iv) int { // -inf first
	switch {
	case a.Lo == nil && b.Lo == nil:
		return 0
	case a.Lo == nil:
		return -1
	case b.Lo == nil:
		return 1
	}
	if c := a.Lo.Cmp(b.Lo); c != 0 {
		return c
	}
	if a.LoOpen == b.LoOpen {
		return 0
	}
	if a.LoOpen {
		return 1
	}
	return -1
}

func cmpHi(a, b Iv) int {
	switch {
	case a.Hi == nil && b.Hi == nil:
		return 0
	case a.Hi == nil:
		return 1
	case b.Hi == nil:
		return -1
	}
	if c := a.Hi.Cmp(b.Hi); c != 0 {
		return c
	}
	if a.HiOpen == b.HiOpen {
		return 0
	}
	if a.HiOpen {
		return -1
	}
	return 1
}

func (v Iv) empty() bool {
	if v.Lo == nil || v.Hi == nil {
		return false
	}
	c := v.Lo.Cmp(v.Hi)
	return c > 0 || c == 0 && (v.LoOpen || v.HiOpen)
}

func meetIv(a, b Iv) Iv {
	r := a
	if cmpLo(b, a) > 0 {
		r.Lo, r.LoOpen = b.Lo, b.LoOpen
	}
	if cmpHi(b, a) < 0 {
		r.Hi, r.HiOpen = b.Hi, b.HiOpen
	}
	return r
}

var ratOne = big.NewRat(1, 1)

// touch reports whether a (starting no later than b) meets or adjoins b.
func touch(a, b Iv, integer bool) bool {
	if a.Hi == nil || b.Lo == nil {
		return true
	}
	c := a.Hi.Cmp(b.Lo)
	if c > 0 || c == 0 && !(a.HiOpen && b.LoOpen) {
		return true
	}
	if integer {
		d := new(big.Rat).Add(a.Hi, ratOne)
		return d.Cmp(b.Lo) >= 0
	}
	return false
}

func normIv(vs []Iv, integer bool) []Iv {
	var out []Iv
	sort.Slice(vs, func(i, j int) bool { return cmpLo(vs[i], vs[j]) < 0 })
	for _, v := range vs {
		if integer {
			if v.Lo != nil && (v.LoOpen || !v.Lo.IsInt()) {
				f := new(big.Int).Div(v.Lo.Num(), v.Lo.Denom()) // floor for positive denom
				v.Lo, v.LoOpen = new(big.Rat).SetInt(f.Add(f, big.NewInt(1))), false
			}
			if v.Hi != nil && (v.HiOpen || !v.Hi.IsInt()) {
				f := new(big.Int).Div(v.Hi.Num(), v.Hi.Denom())
				if v.Hi.IsInt() {
					f.Sub(f, big.NewInt(1))
				}
				v.Hi, v.HiOpen = new(big.Rat).SetInt(f), false
			}
		}
		if v.empty() {
			continue
		}
		if n := len(out); n > 0 && touch(out[n-1], v, integer) {
			if cmpHi(v, out[n-1]) > 0 {
				out[n-1].Hi, out[n-1].HiOpen = v.Hi, v.HiOpen
			}
			continue
		}
		out = append(out, v)
	}
	if len(out) > 100 {
		out = []Iv{{Lo: out[0].Lo, LoOpen: out[0].LoOpen, Hi: out[len(out)-1].Hi, HiOpen: out[len(out)-1].HiOpen}}
	}
	return out
}

func avPoint(r *big.Rat) *AV { return &AV{Num: true, Iv: []Iv{{Lo: r, Hi: r}}} }

// Range builds a numeric AV from int bounds.
func avRange(lo, hi int64) *AV {
	return &AV{Num: true, Iv: []Iv{{Lo: big.NewRat(lo, 1), Hi: big.NewRat(hi, 1)}}}
}

func avGE(lo int64) *AV { return &AV{Num: true, Iv: []Iv{{Lo: big.NewRat(lo, 1)}}} }

func avMeet(a, b *AV, integer bool) *AV {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.Num && b.Num {
		var r []Iv
		for _, x := range a.Iv {
			for _, y := range b.Iv {
				if m := meetIv(x, y); !m.empty() {
					r = append(r, m)
				}
			}
		}
		return &AV{Num: true, Iv: normIv(r, integer)}
	}
	if a.Num || b.Num {
		return a
	}
	if a.Fin {
		r := &AV{Fin: true}
		for _, x := range a.In {
			if b.has(x) {
				r.In = append(r.In, x)
			}
		}
		return r
	}
	if b.Fin {
		return avMeet(b, a, integer)
	}
	r := &AV{Not: append([]*Term{}, a.Not...)}
	for _, x := range b.Not {
		if !inTerms(r.Not, x) {
			r.Not = append(r.Not, x)
		}
	}
	return r
}

func inTerms(l []*Term, x *Term) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (a *AV) has(x *Term) bool {
	if a.Fin {
		return inTerms(a.In, x)
	}
	return !inTerms(a.Not, x)
}

func avJoin(a, b *AV, integer bool) *AV {
	if a == nil || b == nil {
		return nil
	}
	if a == b {
		return a
	}
	if a.Num != b.Num {
		return nil
	}
	if a.Num {
		r := &AV{Num: true, Iv: normIv(append(append([]Iv{}, a.Iv...), b.Iv...), integer)}
		if r.top() {
			return nil
		}
		return r
	}
	switch {
	case a.Fin && b.Fin:
		r := &AV{Fin: true, In: append([]*Term{}, a.In...)}
		for _, x := range b.In {
			if !inTerms(r.In, x) {
				r.In = append(r.In, x)
			}
		}
		if len(r.In) > 40 {
			return nil
		}
		return r
	case a.Fin:
		return avJoin(b, a, integer)
	case b.Fin:
		r := &AV{}
		for _, x := range a.Not {
			if !inTerms(b.In, x) {
				r.Not = append(r.Not, x)
			}
		}
		if len(r.Not) == 0 {
			return nil
		}
		return r
	}
	r := &AV{}
	for _, x := range a.Not {
		if inTerms(b.Not, x) {
			r.Not = append(r.Not, x)
		}
	}
	if len(r.Not) == 0 {
		return nil
	}
	return r
}

func avEqual(a, b *AV) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.Num != b.Num || a.Fin != b.Fin || len(a.Iv) != len(b.Iv) || len(a.In) != len(b.In) || len(a.Not) != len(b.Not) {
		return false
	}
	for i := range a.Iv {
		if cmpLo(a.Iv[i], b.Iv[i]) != 0 || cmpHi(a.Iv[i], b.Iv[i]) != 0 {
			return false
		}
	}
	for _, x := range a.In {
		if !inTerms(b.In, x) {
			return false
		}
	}
	for _, x := range a.Not {
		if !inTerms(b.Not, x) {
			return false
		}
	}
	return true
}

// Subset reports whether all values of numeric AV a lie in [lo,hi].
func (a *AV) Within(lo, hi *big.Rat) bool {
	if a == nil || !a.Num {
		return false
	}
	for _, v := range a.Iv {
		if lo != nil && (v.Lo == nil || v.Lo.Cmp(lo) < 0) {
			return false
		}
		if hi != nil && (v.Hi == nil || v.Hi.Cmp(hi) > 0) {
			return false
		}
	}
	return true
}

// HasNum reports whether the number n may be in a.
func (a *AV) HasNum(n int64) bool {
	if a == nil || !a.Num {
		return true
	}
	return !avMeet(a, avRange(n, n), true).Empty()
}

func (a *AV) String() string {
	if a == nil {
		return "⊤"
	}
	var s []string
	if a.Num {
		for _, v := range a.Iv {
			l, h := "-inf", "+inf"
			if v.Lo != nil {
				l = v.Lo.RatString()
			}
			if v.Hi != nil {
				h = v.Hi.RatString()
			}
			if l == h {
				s = append(s, l)
			} else {
				s = append(s, "["+l+","+h+"]")
			}
		}
		return strings.Join(s, "∪")
	}
	if a.Fin {
		for _, x := range a.In {
			s = append(s, x.String())
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	for _, x := range a.Not {
		s = append(s, x.String())
	}
	return "∉{" + strings.Join(s, ",") + "}"
}

type pair [2]*Term

// Facts is a conjunction of constraints on terms.
type Facts struct {
	av map[*Term]*AV
	eq map[pair]bool
	le map[pair]int64 // a - b <= c
	q  []QFact
}

// QFact: every element of sequence Seq at an index below Upto (all if nil)
// has abstract value Av.
type QFact struct {
	Seq, Upto *Term
	Av        *AV
}

func newFacts() *Facts {
	return &Facts{av: map[*Term]*AV{}, eq: map[pair]bool{}, le: map[pair]int64{}}
}

func (f *Facts) clone() *Facts {
	n := &Facts{av: make(map[*Term]*AV, len(f.av)+4), eq: make(map[pair]bool, len(f.eq)+2), le: make(map[pair]int64, len(f.le)+2), q: f.q}
	for k, v := range f.av {
		n.av[k] = v
	}
	for k, v := range f.eq {
		n.eq[k] = v
	}
	for k, v := range f.le {
		n.le[k] = v
	}
	return n
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isNum(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat) != 0
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isIfaceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func typeRange(t types.Type) *AV {
	if t == nil {
		return nil
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	p := func(n uint) *big.Rat { return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), n)) }
	mk := func(bits uint, signed bool) *AV {
		if signed {
			return &AV{Num: true, Iv: []Iv{{Lo: new(big.Rat).Neg(p(bits - 1)), Hi: new(big.Rat).Sub(p(bits-1), ratOne)}}}
		}
		return &AV{Num: true, Iv: []Iv{{Lo: new(big.Rat), Hi: new(big.Rat).Sub(p(bits), ratOne)}}}
	}
	switch b.Kind() {
	case types.Uint8:
		return mk(8, false)
	case types.Uint16:
		return mk(16, false)
	case types.Uint32:
		return mk(32, false)
	case types.Uint64, types.Uint, types.Uintptr:
		return mk(64, false)
	case types.Int8:
		return mk(8, true)
	case types.Int16:
		return mk(16, true)
	case types.Int32, types.UntypedRune:
		return mk(32, true)
	case types.Int64, types.Int, types.UntypedInt:
		return mk(64, true)
	}
	return nil
}

func constRat(v constant.Value) *big.Rat {
	if v == nil {
		return nil
	}
	switch v.Kind() {
	case constant.Int, constant.Float:
		f := constant.ToFloat(v)
		if f.Kind() != constant.Float {
			return nil
		}
		r := new(big.Rat)
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			b, ok := new(big.Int).SetString(i.ExactString(), 10)
			if ok {
				return r.SetInt(b)
			}
		}
		n, ok1 := new(big.Int).SetString(constant.Num(f).ExactString(), 10)
		d, ok2 := new(big.Int).SetString(constant.Denom(f).ExactString(), 10)
		if ok1 && ok2 && d.Sign() != 0 {
			return r.SetFrac(n, d)
		}
	}
	return nil
}

// lin splits an integer term into base + constant.
func lin(t *Term) (*Term, int64) {
	var c int64
	for {
		if t == nil {
			return nil, c
		}
		if n, ok := t.Int(); ok {
			return nil, c + n
		}
		if t.Op == OBin && isInt(t.T) {
			if n, ok := t.Args[1].Int(); ok && (t.S == "+" || t.S == "-") {
				if t.S == "+" {
					c += n
				} else {
					c -= n
				}
				t = t.Args[0]
				continue
			}
			if n, ok := t.Args[0].Int(); ok && t.S == "+" {
				c += n
				t = t.Args[1]
				continue
			}
		}
		return t, c
	}
}

// structural bounds: a - b <= c edges known from the shape of a term.
func structEdges(t *Term, add func(a, b *Term, c int64)) {
	if t == nil {
		return
	}
	switch t.Op {
	case OLen:
		add(nil, t, 0) // 0 - len <= 0
		x := t.Args[0]
		if x.Op == OSlice && x.Args[2] != nil && x.Args[1] != nil {
			_ = x
		}
		if x.Op == OCall {
			switch x.S {
			case "strings.Split", "strings.SplitAfterN", "strings.SplitN", "strings.SplitAfter":
				if s, ok := x.Args[1].Str(); ok && s != "" {
					if len(x.Args) < 3 {
						add(nil, t, -1)
					} else if n, ok := x.Args[2].Int(); ok && n != 0 {
						add(nil, t, -1)
						if n > 0 {
							add(t, nil, n)
						}
					}
				}
			case "encoding/hex.EncodeToString":
				a := x.Args[0]
				if a.Op == OCall && strings.HasSuffix(a.S, ".Sum") {
					add(nil, t, -2) // at least one byte; digests are never empty
					if strings.Contains(a.S, "hash.Hash") {
						add(nil, t, -32)
					}
				}
				if a.Op == OSlice && a.Args[0] != nil {
					add(nil, t, -32)
				}
			}
		}
	case OExtract:
		c := t.Args[0]
		if c.Op == OCall && (c.S == "(net.IPMask).Size") {
			add(nil, t, 0)
			add(t, nil, 128)
		}
	case OCall:
		switch t.S {
		case "strings.Index", "strings.IndexByte", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexAny", "strings.LastIndexAny", "strings.IndexRune", "bytes.Index", "bytes.IndexByte", "bytes.LastIndexByte", "strings.IndexFunc", "slices.Index", "slices.IndexFunc":
			add(nil, t, 1) // >= -1
			b := lenArg(t.Args[0])
			if b != nil {
				sl := 1
				if t.S == "strings.Index" || t.S == "strings.LastIndex" || t.S == "bytes.Index" {
					sl = 0
					if s, ok := t.Args[1].Str(); ok && s != "" {
						sl = len(s)
					}
				}
				// with slices.Index* the length of an empty sequence is 0 and the result -1: -1 <= 0-1
				add(t, b, int64(-sl))
			}
		case "sort.Search", "sort.SearchInts", "sort.SearchStrings":
			add(nil, t, 0)
			if t.S == "sort.Search" {
				b, c := lin(t.Args[0])
				add(t, b, c)
			}
		case "bytes.Compare", "strings.Compare", "cmp.Compare":
			add(nil, t, 1)
			add(t, nil, 1)
		case "min":
			for _, a := range t.Args {
				b, c := lin(a)
				add(t, b, c)
			}
		case "max":
			for _, a := range t.Args {
				b, c := lin(a)
				add(b, t, -c)
			}
		case "copy":
			add(nil, t, 0)
		}
	}
}

// lenTerms maps sequence term to its OLen term; filled by the engine.
var lenArg = func(*Term) *Term { return nil }

// Range returns the abstract value of a numeric term.
func (f *Facts) Range(t *Term) *AV {
	return f.rng(t, 0)
}

func (f *Facts) rng(t *Term, depth int) *AV {
	if t == nil {
		return nil
	}
	if t.Op == OConst {
		if r := constRat(t.V); r != nil {
			return avPoint(r)
		}
		return nil
	}
	if depth > 8 {
		return typeRange(t.T)
	}
	integer := isInt(t.T)
	r := typeRange(t.T)
	if a := f.av[t]; a != nil && a.Num {
		r = avMeet(r, a, integer)
	}
	sa := func(a *AV) { r = avMeet(r, a, integer) }
	switch t.Op {
	case OLen, OCap:
		sa(avGE(0))
	case OConv:
		if isNum(t.Args[0].T) {
			x := f.rng(t.Args[0], depth+1)
			tr := typeRange(t.T)
			if x != nil && tr != nil && isInt(t.Args[0].T) && x.Within(tr.Iv[0].Lo, tr.Iv[0].Hi) {
				sa(x)
			}
		}
	case OBin:
		x, y := f.rng(t.Args[0], depth+1), f.rng(t.Args[1], depth+1)
		if v := binRange(t.S, x, y); v != nil {
			tr := typeRange(t.T)
			if tr == nil || v.Within(tr.Iv[0].Lo, tr.Iv[0].Hi) || t.S == "+" || t.S == "-" {
				sa(v)
			}
		}
	case OJoin:
		var j *AV
		for i, a := range t.Args {
			x := f.rng(a, depth+1)
			if i == 0 {
				j = x
			} else {
				j = avJoin(j, x, integer)
			}
		}
		sa(j)
	}
	structEdges(t, func(a, b *Term, c int64) {
		if a == t && b == nil {
			sa(&AV{Num: true, Iv: []Iv{{Hi: big.NewRat(c, 1)}}})
		}
		if b == t && a == nil {
			sa(avGE(-c))
		}
	})
	return r
}

func binRange(op string, x, y *AV) *AV {
	if x == nil || y == nil || !x.Num || !y.Num || len(x.Iv) == 0 || len(y.Iv) == 0 {
		return nil
	}
	xl, xh := x.Iv[0].Lo, x.Iv[len(x.Iv)-1].Hi
	yl, yh := y.Iv[0].Lo, y.Iv[len(y.Iv)-1].Hi
	nn := func(r *big.Rat) bool { return r != nil && r.Sign() >= 0 }
	pt := yl != nil && yh != nil && yl.Cmp(yh) == 0
	switch op {
	case "+":
		v := Iv{}
		if xl != nil && yl != nil {
			v.Lo = new(big.Rat).Add(xl, yl)
		}
		if xh != nil && yh != nil {
			v.Hi = new(big.Rat).Add(xh, yh)
		}
		return &AV{Num: true, Iv: []Iv{v}}
	case "-":
		v := Iv{}
		if xl != nil && yh != nil {
			v.Lo = new(big.Rat).Sub(xl, yh)
		}
		if xh != nil && yl != nil {
			v.Hi = new(big.Rat).Sub(xh, yl)
		}
		return &AV{Num: true, Iv: []Iv{v}}
	case "*":
		if nn(xl) && nn(yl) {
			v := Iv{Lo: new(big.Rat).Mul(xl, yl)}
			if xh != nil && yh != nil {
				v.Hi = new(big.Rat).Mul(xh, yh)
			}
			return &AV{Num: true, Iv: []Iv{v}}
		}
	case "&":
		v := Iv{Lo: new(big.Rat)}
		ok := false
		if nn(yl) && yh != nil {
			v.Hi = yh
			ok = true
		}
		if nn(xl) && xh != nil && (v.Hi == nil || xh.Cmp(v.Hi) < 0) {
			v.Hi = xh
			ok = true
		}
		if ok {
			return &AV{Num: true, Iv: []Iv{v}}
		}
	case ">>":
		if nn(xl) && xh != nil && pt && yl.IsInt() {
			n := uint(yl.Num().Int64())
			sh := func(r *big.Rat) *big.Rat {
				i := new(big.Int).Div(r.Num(), r.Denom())
				return new(big.Rat).SetInt(i.Rsh(i, n))
			}
			return &AV{Num: true, Iv: []Iv{{Lo: sh(xl), Hi: sh(xh)}}}
		}
	case "/":
		if nn(xl) && pt && yl.Sign() > 0 {
			dv := func(r *big.Rat) *big.Rat {
				q := new(big.Rat).Quo(r, yl)
				return new(big.Rat).SetInt(new(big.Int).Div(q.Num(), q.Denom()))
			}
			v := Iv{Lo: dv(xl)}
			if xh != nil {
				v.Hi = dv(xh)
			}
			return &AV{Num: true, Iv: []Iv{v}}
		}
	case "%":
		if nn(xl) && pt && yl.Sign() > 0 {
			return &AV{Num: true, Iv: []Iv{{Lo: new(big.Rat), Hi: new(big.Rat).Sub(yl, ratOne)}}}
		}
	}
	return nil
}

const inf = int64(1) << 60

// ub returns the least known c with a - b <= c (inf if none). nil is zero.
func (f *Facts) ub(a, b *Term) int64 {
	if a == b {
		return 0
	}
	type edge struct {
		to *Term
		c  int64
	}
	// path a -> ... -> b, edge x->y weight c means x - y <= c
	adj := map[*Term][]edge{}
	add := func(x, y *Term, c int64) { adj[x] = append(adj[x], edge{y, c}) }
	nodes := map[*Term]bool{a: true, b: true, nil: true}
	for k, c := range f.le {
		add(k[0], k[1], c)
		nodes[k[0]], nodes[k[1]] = true, true
	}
	work := make([]*Term, 0, len(nodes))
	for n := range nodes {
		work = append(work, n)
	}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		structEdges(n, func(x, y *Term, c int64) {
			add(x, y, c)
			for _, z := range []*Term{x, y} {
				if !nodes[z] {
					nodes[z] = true
					work = append(work, z)
				}
			}
		})
	}
	for n := range nodes {
		if n == nil {
			continue
		}
		if r := f.Range(n); r != nil && r.Num && len(r.Iv) > 0 {
			if lo := r.Iv[0].Lo; lo != nil && lo.IsInt() && lo.Num().IsInt64() && lo.Num().Int64() > -inf {
				add(nil, n, -lo.Num().Int64())
			}
			if hi := r.Iv[len(r.Iv)-1].Hi; hi != nil && hi.IsInt() && hi.Num().IsInt64() && hi.Num().Int64() < inf {
				add(n, nil, hi.Num().Int64())
			}
		}
	}
	dist := map[*Term]int64{a: 0}
	for i := 0; i < len(nodes)+1; i++ {
		ch := false
		for x, es := range adj {
			dx, ok := dist[x]
			if !ok {
				continue
			}
			for _, e := range es {
				if d, ok := dist[e.to]; !ok || dx+e.c < d {
					if dx+e.c < -inf {
						continue
					}
					dist[e.to] = dx + e.c
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	if d, ok := dist[b]; ok {
		return d
	}
	return inf
}

// UB returns the least known c with a - b <= c for arbitrary integer terms.
func (f *Facts) UB(a, b *Term) int64 {
	ab, ac := lin(a)
	bb, bc := lin(b)
	u := f.ub(ab, bb)
	if u >= inf {
		return inf
	}
	return u + ac - bc
}
