package rules

import (
	"math/big"

	"rdapverif/eng"
)

// elemAccess splits an element read list[idx].
func elemAccess(t *eng.Term) (list, idx *eng.Term, ok bool) {
	if t == nil {
		return nil, nil, false
	}
	switch {
	case t.Op == eng.OLoad && t.Args[0].Op == eng.OIndexAddr:
		return t.Args[0].Args[0], t.Args[0].Args[1], true
	case t.Op == eng.OIndexAddr:
		return t.Args[0], t.Args[1], true
	case t.Op == eng.OIndex:
		return t.Args[0], t.Args[1], true
	}
	return nil, nil, false
}

// loopOf finds the solved loop whose header variable sym is.
func (c *Ctx) loopOf(sym *eng.Term) *eng.LoopInfo {
	var r *eng.LoopInfo
	for _, li := range c.E.LoopList {
		for _, s := range li.Phis {
			if s == sym {
				r = li
			}
		}
	}
	return r
}

// fullRange decides whether index idx runs over all of list, first to last,
// and the loop is left early on no path: 1 yes, -1 no, 0 unknown. st is a
// state inside the loop.
func (c *Ctx) fullRange(st *eng.State, list, idx *eng.Term) (int, string) {
	return c.fullRangeBut(st, list, idx, nil)
}

// fullRangeBut is fullRange with some exits allowed.
func (c *Ctx) fullRangeBut(st *eng.State, list, idx *eng.Term, allow func(x *eng.LoopExit) bool) (int, string) {
	b, k := eng.Lin(idx)
	if b == nil {
		return -1, "only element " + short(idx)
	}
	if b.Op != eng.OSym {
		return 0, "index " + short(idx)
	}
	li := c.loopOf(b)
	if li == nil {
		return 0, "no loop of " + short(idx)
	}
	for _, o := range c.E.Origins[b] {
		ob, n := eng.Lin(o.Val)
		switch {
		case o.Init && (ob != nil || n+k != 0):
			if ob != nil {
				return 0, "starts at " + short(o.Val)
			}
			return -1, "the first elements are left out"
		case !o.Init && ob == b && n != 1:
			return -1, "elements are skipped"
		case !o.Init && ob != b:
			return 0, "steps to " + short(o.Val)
		}
	}
	n := c.E.Len(list)
	for _, x := range li.Exits {
		if x.St.Dead || allow != nil && allow(x) {
			continue
		}
		if c.E.Decide(x.St, c.E.Lt(idx, n)) == -1 {
			continue
		}
		if c.exhausted(x, li) == 1 && !x.Return {
			// the end test is on another bound
			if c.E.Decide(x.St, c.E.Lt(idx, n)) == 1 {
				return -1, "the last elements are left out"
			}
			if st != nil && hi(st.AVOf(idx)) != nil && hi(st.AVOf(n)) == nil {
				return -1, "only a fixed number of elements"
			}
			return 0, "end test"
		}
		return -1, "the loop is left early at " + c.Pos(posOf(firstPos(x.From)))
	}
	return 1, ""
}

// hi is the upper bound of a number, nil if there is none.
func hi(a *eng.AV) *big.Rat {
	if a == nil || !a.Num || len(a.Iv) == 0 {
		return nil
	}
	h := a.Iv[len(a.Iv)-1].Hi
	if h != nil && h.Cmp(big.NewRat(1<<31, 1)) > 0 {
		return nil // the range of the type
	}
	return h
}
