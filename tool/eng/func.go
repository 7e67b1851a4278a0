package eng

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// FuncT is a function as a value.
func (e *Engine) FuncT(f *ssa.Function) *Term {
	return e.mk(Term{Op: OFunc, Fn: f, T: f.Type()})
}

// RangeKeyOf is the key of the map entry whose value v is.
func (e *Engine) RangeKeyOf(v *Term) *Term {
	if v.Op != ORangeVal {
		return nil
	}
	for _, t := range e.tt.m {
		if t.Op == ORangeKey && t.S == v.S && t.Args[0] == v.Args[0] {
			return t
		}
	}
	return nil
}

// Itoa formats a number.
func Itoa(n int64) string { return strconv.FormatInt(n, 10) }

// MapHasT is "key k is in content c".
func (e *Engine) MapHasT(c, k *Term) *Term {
	return e.mk(Term{Op: OMapHas, Args: []*Term{c, k}, T: types.Typ[types.Bool]})
}

// fname is a short name of a function, different for different functions.
func (e *Engine) fname(f *ssa.Function) string {
	if n, ok := e.fnames[f]; ok {
		return n
	}
	if e.fnames == nil {
		e.fnames = map[*ssa.Function]string{}
		e.fnameN = map[string]int{}
	}
	n := f.Name()
	e.fnameN[n]++
	if k := e.fnameN[n]; k > 1 {
		n += "'" + strconv.Itoa(k)
	}
	e.fnames[f] = n
	return n
}
