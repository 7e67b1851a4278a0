package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C23", Run: runC23, Floor: 60,
		Method:      "Relational abstract interpretation: printing and the WHOIS view are analysed twice over the same object of known shape, with known maps iterated in opposite orders, and once more on the printer as it is left by the first use; the texts must be the same terms. Registry constructors: every list filled in a loop over a map has to be sorted by its (distinct) keys. Reachability of time, randomness, environment, goroutines from the code that produces output.",
		Assumptions: []string{"package sort gives the same result for the same input"}})
}

func runC23(c *Ctx) {
	c.orderPrint()
	c.orderWhois()
	c.orderRegistries()
	c.hiddenInputs()
}

func textsOf(rs []*presult) ([]string, bool) {
	var l []string
	for _, r := range rs {
		if r.fuzzy {
			return nil, false
		}
		l = append(l, r.text.String())
	}
	sort.Strings(l)
	return l, true
}

func (c *Ctx) orderPrint() {
	fn := c.Func(pkgRdap, "*Printer.Print")
	for _, typ := range tops {
		depth := 2
		if c.Deep {
			depth = 3
		}
		paths, ends := c.ppaths(typ, depth)
		all := append(append(append([][]string{}, paths...), paths...), paths...)
		for i, pd := range all {
			p, dd := pd, []int{3, 5, 7}[i/len(paths)]
			i %= len(paths)
			var ts [2][]string
			ok := true
			for k, rev := range []bool{false, true} {
				root, rs, good := c.print("order", typ, popts{rev: rev}, atPath(p, 1, dd))
				if !good {
					ok = false
					break
				}
				l, known := textsOf(rs)
				if !known {
					ok = false
					c.Unknown("order", "output of %s%v", typ, p)
					break
				}
				ts[k] = l
				// every unknown member is there (so that something was compared)
				if k == 0 && len(rs) > 0 {
					n := 0
					for _, lf := range root.allLeaves() {
						if lf.member == "unknown" && rs[0].text.Contains(lf.term) {
							n++
						}
					}
					if n == 0 {
						c.Unknown("order", "unknown members of %s are not shown", ends[i])
					}
				}
				if !rev && len(p) <= 1 {
					c.printAgain(typ, p, rs)
				}
			}
			if !ok {
				continue
			}
			if strings.Join(ts[0], "\n") != strings.Join(ts[1], "\n") {
				c.Bad("order", c.printFn(&pnode{typ: ends[i]}), fn.Pos(), "the output for a %s with several unknown members depends on map order", ends[i])
				continue
			}
			c.Ok("order", "output of %s%v does not depend on map order", typ, p)
		}
	}
}

// printAgain: using the printer again gives the same text.
func (c *Ctx) printAgain(typ string, p []string, rs []*presult) {
	fn := c.Func(pkgRdap, "*Printer.Print")
	for _, r := range rs {
		n := len(r.evs)
		outs := c.E.Apply(r.st.Clone(), r.h, c.E.FuncT(fn), r.args)
		for _, o := range outs {
			if o.St.Dead {
				continue
			}
			if o.Panic {
				c.Bad("again", fn, posOf(o.In), "printing a %s again panics", typ)
				continue
			}
			evs := o.St.Trace.Events()
			if len(evs) < n {
				continue
			}
			parts, fz := c.written(evs[n:], r.w)
			t := c.E.Concat(parts...)
			switch {
			case t.String() == r.text.String():
				c.Ok("again", "printing a %s%v again gives the same text", typ, p)
			case fz || !pureText(t) && !r.fuzzy && strings.Contains(t.String(), "?"):
				c.Unknown("again", "second output of %s%v", typ, p)
			default:
				c.Bad("again", fn, fn.Pos(), "printing a %s again with the same printer gives a different text", typ)
			}
		}
	}
}

// orderRegistries: lists filled in map order are sorted.
func (c *Ctx) orderRegistries() {
	type ent struct {
		pkg, name string
		args      map[int]int64
	}
	for _, en := range []ent{{pkgBoot, "NewASNRegistry", nil}, {pkgBoot, "NewNetRegistry", map[int]int64{1: 4}}, {pkgBoot, "NewNetRegistry", map[int]int64{1: 6}},
		{pkgBoot, "NewDNSRegistry", nil}, {pkgBoot, "NewServiceProviderRegistry", nil}, {pkgBoot, "NewFile", nil},
		{pkgBoot, "*ASNRegistry.Lookup", nil}, {pkgBoot, "*NetRegistry.Lookup", nil}, {pkgBoot, "*DNSRegistry.Lookup", nil}, {pkgBoot, "*ServiceProviderRegistry.Lookup", nil},
		{pkgRdap, "*Request.URL", nil}} {
		fn := c.Func(en.pkg, en.name)
		if fn == nil {
			continue
		}
		c.mapLoops(fn, en.name, en.args)
	}
}

type sortRec struct {
	list *eng.Term
	key  string
	in   ssa.Instruction
}

func (c *Ctx) mapLoops(fn *ssa.Function, name string, args map[int]int64) {
	e := c.E
	h := &eng.Hooks{MemoMiss: true}
	h.Opaque = func(f *ssa.Function) bool { return f != fn && f.Name() == "NewFile" && f.Pkg == fn.Pkg }
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		if strings.HasPrefix(ev.Key, "sort.") || strings.HasPrefix(ev.Key, "slices.Sort") {
			if len(ev.Args) > 0 && ev.Args[0] != nil {
				x := Unwrap(ev.Args[0])
				for x.Op == eng.OSlice || x.Op == eng.OConv {
					x = x.Args[0]
				}
				e.Emit(&sortRec{x, ev.Key, ev.Instr})
			}
		}
	}
	_, recs, ok := c.Run("maps", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		ps = append([]*eng.Term{}, ps...)
		for i, v := range args {
			if i < len(ps) {
				ps[i] = e.IntC(v)
			}
		}
		return ps
	})
	if !ok {
		return
	}
	sorted := map[*eng.Term]string{}
	for _, r := range recs {
		if s, ok := r.(*sortRec); ok {
			sorted[s.list] = s.key
		}
	}
	n := 0
	for _, li := range e.LoopList {
		if li.MapC == nil {
			continue
		}
		n++
		syms := map[*eng.Term]bool{}
		for _, s := range li.Phis {
			syms[s] = true
		}
		for s := range li.Cells {
			syms[s] = true
		}
		bad := ""
		for _, b := range li.Back {
			if b.St.Dead {
				continue
			}
			for s := range syms {
				v := e.EdgeVal(li, b, s)
				if v == nil || v == s {
					continue
				}
				switch {
				case v.Op == eng.OAppend && v.Args[0] == s:
					how := sorted[s]
					keys := true
					for _, x := range v.Args[1:] {
						if x.Op != eng.ORangeKey {
							keys = false
						}
					}
					natural := how == "sort.Strings" || how == "slices.Sort" || how == "sort.Ints"
					if how == "" {
						bad = "a list is filled in the order of a map"
					} else if !natural && !keys {
						bad = "a list filled in the order of a map is sorted by a part of its elements, which leaves equal ones in map order"
					}
				case v.Op == eng.OConcat && len(v.Args) > 0 && v.Args[0] == s && isStringT(v.T):
					bad = "a text is put together in the order of a map"
				case v.Op == eng.OMapUpd:
					// an entry of another map: which one must not depend on the order
					if k := v.Args[1]; v.Args[2].Op == eng.OAppend && !k.Any(func(x *eng.Term) bool { return x.Op == eng.ORangeKey && x.Args[0] == li.MapC }) {
						bad = "a list is filled in the order of a map"
					} else if a := v.Args[2]; a.Op == eng.OAppend && k.Op != eng.ORangeKey {
						bad = "lists are filled in the order of a map"
					}
				}
			}
		}
		if bad != "" {
			c.Bad("maps", li.Fn, posOf(firstPos(li.Header)), "%s", bad)
		} else {
			c.Ok("maps", "loop over a map in %s", li.Fn)
		}
	}
	c.Ok("maps", "%s: %d loops over maps", name, n)
}

// hiddenInputs: what produces output asks for nothing but its arguments.
func (c *Ctx) hiddenInputs() {
	roots := map[string]*ssa.Function{}
	for _, r := range [][2]string{{pkgRdap, "*Printer.Print"}, {pkgRdap, "*Response.ToWhoisStyleResponse"}, {pkgRdap, "*Request.URL"},
		{pkgBoot, "NewASNRegistry"}, {pkgBoot, "NewNetRegistry"}, {pkgBoot, "NewDNSRegistry"}, {pkgBoot, "NewServiceProviderRegistry"},
		{pkgBoot, "*ASNRegistry.Lookup"}, {pkgBoot, "*NetRegistry.Lookup"}, {pkgBoot, "*DNSRegistry.Lookup"}, {pkgBoot, "*ServiceProviderRegistry.Lookup"}} {
		if f := c.Func(r[0], r[1]); f != nil {
			roots[r[1]] = f
		}
	}
	for _, n := range sortedKeys(roots) {
		seen := map[*ssa.Function]bool{}
		good := true
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && g.Pkg != nil && c.E.Repo[g.Pkg] {
							visit(g)
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						visit(mc.Fn.(*ssa.Function))
					}
					what := hiddenInput(in)
					if what != "" && c.usedAsData(in) {
						good = false
						c.Bad("hidden", f, posOf(in), "%s depends on %s", n, what)
					}
				}
			}
		}
		visit(roots[n])
		if good {
			c.Ok("hidden", "%s: %d functions", n, len(seen))
		}
	}
}

func hiddenInput(in ssa.Instruction) string {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	if _, ok := in.(*ssa.Go); ok {
		return "the schedule of a goroutine"
	}
	f := call.Common().StaticCallee()
	if f == nil || f.Pkg == nil {
		return ""
	}
	k := f.Pkg.Pkg.Path() + "." + f.Name()
	switch {
	case k == "time.Now" || k == "time.Since" || k == "time.Until":
		return "the time"
	case strings.HasPrefix(k, "math/rand") || strings.HasPrefix(k, "crypto/rand"):
		return "random numbers"
	case k == "os.Getenv" || k == "os.LookupEnv" || k == "os.Environ" || k == "os.Hostname" || k == "os.Getpid" || k == "os.Getwd":
		return "the environment (" + k + ")"
	case strings.HasPrefix(k, "hash/maphash."):
		return "a random hash"
	}
	return ""
}

// usedAsData: is the result of a call used for more than measuring?
func (c *Ctx) usedAsData(in ssa.Instruction) bool {
	v, ok := in.(ssa.Value)
	if !ok {
		return true
	}
	refs := v.Referrers()
	return refs == nil || len(*refs) > 0
}

// orderWhois: the view is the same whatever the order of maps, and a second
// conversion gives the same.
func (c *Ctx) orderWhois() {
	var ts [2]string
	for k, rev := range []bool{false, true} {
		v := c.whois("whois", whoisFull(), rev)
		if v == nil {
			return
		}
		ts[k] = v.String()
	}
	fn := c.Func(pkgRdap, "*Response.ToWhoisStyleResponse")
	if ts[0] != ts[1] {
		c.Bad("whois", fn, fn.Pos(), "the WHOIS view depends on map order")
		return
	}
	c.Ok("whois", "the WHOIS view does not depend on map order")
	_ = fmt.Sprint
	_ = types.Typ
}
