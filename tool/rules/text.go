package rules

import (
	"go/types"

	"rdapverif/eng"
)

// piece is what one loop iteration adds to an accumulated text.
type piece struct {
	Parts []*eng.Term
	St    *eng.State
}

// accText describes a loop-accumulated text: what it starts with and what
// each iteration may add.
type accText struct {
	Inits []piece
	Adds  []piece
}

// flatText splits a text term into parts; lists of bytes are flattened.
func flatText(t *eng.Term) []*eng.Term {
	switch t.Op {
	case eng.OConv:
		if t.T != nil && t.Args[0].T != nil {
			return flatText(t.Args[0])
		}
	case eng.OConcat:
		var r []*eng.Term
		for _, a := range t.Args {
			r = append(r, flatText(a)...)
		}
		return r
	case eng.OAppend:
		var r []*eng.Term
		if !t.Args[0].IsNil() {
			r = flatText(t.Args[0])
		}
		return append(r, t.Args[1:]...)
	case eng.OAppendAll:
		var r []*eng.Term
		if !t.Args[0].IsNil() {
			r = flatText(t.Args[0])
		}
		return append(r, flatText(t.Args[1])...)
	case eng.ONil:
		return nil
	case eng.OSlice:
		// s[:0] of anything
		if t.Args[2] != nil {
			if n, ok := t.Args[2].Int(); ok && n == 0 {
				return nil
			}
		}
	case eng.OAlloc:
		if len(t.Args) == 1 {
			if n, ok := t.Args[0].Int(); ok && n == 0 {
				return nil
			}
		}
	case eng.OConst:
		if s, ok := t.Str(); ok && s == "" {
			return nil
		}
	}
	return []*eng.Term{t}
}

// accumulated analyses a widened text symbol.
func accumulated(e *eng.Engine, sym *eng.Term) (*accText, bool) {
	os := e.Origins[sym]
	if sym.Op != eng.OSym || len(os) == 0 {
		return nil, false
	}
	a := &accText{}
	for _, o := range os {
		ps := flatText(o.Val)
		if len(ps) > 0 && ps[0] == sym {
			if len(ps) > 1 {
				a.Adds = append(a.Adds, piece{ps[1:], o.St})
			}
			continue
		}
		for _, p := range ps {
			if p == sym {
				return nil, false
			}
		}
		if !o.Init {
			return nil, false
		}
		a.Inits = append(a.Inits, piece{ps, o.St})
	}
	return a, true
}

// elemIndex: t is an element of seq; returns its index.
func elemIndex(t, seq *eng.Term) (*eng.Term, bool) {
	strip := func(x *eng.Term) *eng.Term {
		for x.Op == eng.OConv {
			x = x.Args[0]
		}
		return x
	}
	switch t.Op {
	case eng.OIndex:
		if strip(t.Args[0]) == seq {
			return t.Args[1], true
		}
	case eng.OLoad:
		if a := t.Args[0]; a.Op == eng.OIndexAddr && strip(a.Args[0]) == seq {
			return a.Args[1], true
		}
	}
	return nil, false
}

// findElem looks for an element of seq inside the parts.
func findElem(parts []*eng.Term, seq *eng.Term) (elem, idx *eng.Term) {
	for _, p := range parts {
		p.Walk(func(x *eng.Term) bool {
			if i, ok := elemIndex(x, seq); ok && elem == nil {
				elem, idx = x, i
			}
			return elem == nil
		})
	}
	return
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
