package rules

import (
	"go/types"

	"rdapverif/eng"
)

// resultOf is result i of a call.
func (c *Ctx) resultOf(res *eng.Term, i int) *eng.Term {
	if res == nil {
		return nil
	}
	if tu, ok := res.T.(*types.Tuple); ok {
		return c.E.Extract(res, i, tu.At(i).Type())
	}
	if res.Op == eng.OTuple {
		return res.Args[i]
	}
	return res
}

// errOf is the trailing error result of a call.
func (c *Ctx) errOf(res *eng.Term) *eng.Term {
	if res == nil {
		return nil
	}
	if res.Op == eng.OTuple {
		return res.Args[len(res.Args)-1]
	}
	if tu, ok := res.T.(*types.Tuple); ok {
		return c.E.Extract(res, tu.Len()-1, tu.At(tu.Len()-1).Type())
	}
	return res
}

// assume on a path; a contradiction ends the path.
func (c *Ctx) assume(st *eng.State, t *eng.Term, v bool) {
	if !c.E.Assume(st, t, v) {
		st.Dead = true
	}
}

func (c *Ctx) assumeNil(st *eng.State, t *eng.Term, v bool) {
	c.assume(st, c.E.Eq(t, c.E.Nil()), v)
}

// stripConv removes conversions.
func stripConv(t *eng.Term) *eng.Term {
	for t != nil && t.Op == eng.OConv {
		t = t.Args[0]
	}
	return t
}

// isCall matches a call term (or an extracted result of one).
func isCall(t *eng.Term, key string) bool { return t != nil && t.Op == eng.OCall && t.S == key }

func isResult(t *eng.Term, key string, i int) bool {
	return t != nil && t.Op == eng.OExtract && t.I == i && isCall(t.Args[0], key)
}

// dotCall decides predicates "text contains sep" however they are spelled.
func (c *Ctx) containsScenario(st *eng.State, ev *eng.Event, text *eng.Term, sep byte, has bool) {
	if len(ev.Args) < 2 || stripConv(ev.Args[0]) != text {
		return
	}
	s, ok := ev.Args[1].Str()
	if !ok {
		n, ok2 := ev.Args[1].Int()
		if !ok2 {
			return
		}
		s = string(rune(n))
	}
	if s != string(rune(sep)) {
		return
	}
	e := c.E
	switch ev.Key {
	case "strings.Contains", "strings.ContainsAny", "strings.ContainsRune", "bytes.Contains":
		c.assume(st, ev.Res, has)
	case "strings.Cut":
		c.assume(st, c.resultOf(ev.Res, 2), has)
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexByte", "strings.LastIndexAny", "bytes.IndexByte":
		if has {
			c.assume(st, e.Lt(ev.Res, e.IntC(0)), false)
		} else {
			c.assume(st, e.Eq(ev.Res, e.IntC(-1)), true)
		}
	case "strings.Count":
		c.assume(st, e.Lt(e.IntC(0), ev.Res), has)
	case "strings.Split", "strings.SplitN":
		c.assume(st, e.Lt(e.IntC(1), e.Len(ev.Res)), has)
	}
}
