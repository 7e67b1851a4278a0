package rules

import (
	"go/types"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

const kingpinPkg = "github.com/alecthomas/kingpin/v2"

// flagOf names the command line option a value pointer belongs to: the name
// given to Flag(), or "#args" for the positional arguments.
func flagOf(p *eng.Term) string {
	name := ""
	p.Walk(func(t *eng.Term) bool {
		if name != "" {
			return false
		}
		if t.Op == eng.OCall && len(t.Args) >= 2 && strings.Contains(t.S, kingpinPkg) {
			if strings.HasSuffix(t.S, ").Flag") {
				name, _ = t.Args[1].Str()
				return false
			}
			if strings.HasSuffix(t.S, ").Arg") {
				name = "#args"
				return false
			}
		}
		return true
	})
	return name
}

// isOption: the call defines an option and returns the pointer to its value.
func isOption(key string, t types.Type) bool {
	if !strings.Contains(key, kingpinPkg+".") || t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	switch p.Elem().Underlying().(type) {
	case *types.Basic, *types.Slice:
		return true
	}
	return false
}

// isFlagValue: t is the value of a command line option.
func isFlagValue(t *eng.Term, name string) bool {
	return t != nil && t.Op == eng.OLoad && t.Args[0].Op == eng.OCall && isOption(t.Args[0].S, t.Args[0].T) && flagOf(t.Args[0]) == name
}

// cliScn is one command line scenario: options not listed have their zero or
// "default" value, "?" leaves an option open, "+" is any other non-empty text.
type cliScn struct {
	name    string
	flags   map[string]string
	sandbox int // 1 on, -1 off, 0 any
	args    int // number of arguments; -1: any
	parse   int // 0 ok, 1 error, 2 help shown
	free    bool
	onCall  func(st *eng.State, ev *eng.Event)
	keep    func(ev *eng.Event) bool
	onStore func(st *eng.State, kind string, addr, key, val *eng.Term, fr *eng.Frame, in ssa.Instruction)
	opaque  []string
	peel    int
	setup   func(st *eng.State, ps []*eng.Term)
	doOK    int // result of Do: 1 ok, -1 error, 0 any
}

var cliDefaults = map[string]string{"cache-dir": "default", "bs-url": "default"}

var cliOpaque = []string{
	kDo,
	"(*github.com/openrdap/rdap.Printer).Print",
	"(*github.com/openrdap/rdap.Response).ToWhoisStyleResponse",
	"github.com/openrdap/rdap.NewAutoRequest",
	"(*github.com/openrdap/rdap/bootstrap/cache.DiskCache).InitDir",
	"github.com/openrdap/rdap/bootstrap/cache.NewDiskCache",
	"github.com/openrdap/rdap/bootstrap/cache.NewMemoryCache",
	"github.com/openrdap/rdap/sandbox.LoadFile",
}

// cliFlags lists the options RunCLI defines.
func (c *Ctx) cliFlags() map[string]string {
	fn := c.Func(pkgRdap, "RunCLI")
	r := map[string]string{}
	if fn == nil {
		return r
	}
	h := &eng.Hooks{MaxStates: 60, Opaque: opaqueList(cliOpaque...)}
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		if isOption(ev.Key, ev.Res.T) {
			if n := flagOf(ev.Res); n != "" {
				r[n] = ev.Key[strings.LastIndexByte(ev.Key, '.')+1:]
			}
		}
		if strings.HasSuffix(ev.Key, ".Application).Parse") {
			st.Dead = true
		}
	}
	c.Run("cli", fn, h, nil)
	return r
}

type cliOut struct {
	outs   []*eng.Outcome
	recs   []any
	stdout *eng.Term
	stderr *eng.Term
	args   *eng.Term
	flags  map[string]*eng.Term // value pointers
	fn     *ssa.Function
}

// cli analyses RunCLI under a scenario.
func (c *Ctx) cli(rule string, s *cliScn) *cliOut {
	fn := c.Func(pkgRdap, "RunCLI")
	if fn == nil {
		c.Unknown(rule, "RunCLI not found")
		return nil
	}
	e := c.E
	c.flagPtr = map[string]*eng.Term{}
	out := &cliOut{flags: map[string]*eng.Term{}, fn: fn}
	op := cliOpaque
	if s.opaque != nil {
		op = s.opaque
	}
	h := &eng.Hooks{MaxStates: 500, Opaque: opaqueList(op...), Keep: s.keep, OnStore: s.onStore, Peel: s.peel, PeelConst: 12}
	var term *eng.Term
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		switch {
		case strings.HasSuffix(ev.Key, ".Application).Terminate"):
			term = ev.Args[len(ev.Args)-1]
		case strings.HasSuffix(ev.Key, ".Application).Parse"):
			c.assumeNil(st, c.errOf(ev.Res), s.parse != 1)
			// the callback given to Terminate sets a captured flag when help was shown
			if term != nil && term.Op == eng.OClosure {
				for _, b := range term.Args {
					if p, ok := b.T.(*types.Pointer); ok && p.Elem() == types.Typ[types.Bool] {
						v := c.E.Load(st, b, types.Typ[types.Bool])
						if v.Op == eng.OSym || v.Op == eng.OJoin {
							e.Store(st, b, e.BoolC(s.parse == 2), types.Typ[types.Bool])
						}
					}
				}
			}
		case ev.Res != nil && isOption(ev.Key, ev.Res.T):
			n := flagOf(ev.Res)
			if n == "" {
				return
			}
			out.flags[n] = ev.Res
			c.flagPtr[n] = ev.Res
			c.assumeNil(st, ev.Res, false)
			p, ok := ev.Res.T.Underlying().(*types.Pointer)
			if !ok {
				return
			}
			v := e.LoadTerm(ev.Res, p.Elem())
			if n == "#args" {
				if s.args >= 0 {
					c.assume(st, e.Eq(e.Len(v), e.IntC(int64(s.args))), true)
				}
				return
			}
			set, given := s.flags[n]
			if !given && s.free {
				return
			}
			switch b := p.Elem().Underlying().(type) {
			case *types.Basic:
				switch {
				case b.Info()&types.IsBoolean != 0:
					if set != "?" {
						c.assume(st, v, set == "true")
					}
				case b.Info()&types.IsString != 0:
					if !given {
						set = cliDefaults[n]
					}
					switch set {
					case "?":
					case "+":
						c.assume(st, e.Eq(v, e.StrC("")), false)
						if d := cliDefaults[n]; d != "" {
							c.assume(st, e.Eq(v, e.StrC(d)), false)
						}
					default:
						c.assume(st, e.Eq(v, e.StrC(set)), true)
					}
				}
			case *types.Slice:
				if set != "?" {
					c.assume(st, e.Eq(e.Len(v), e.IntC(0)), true)
				}
			}
		case ev.Key == kDo:
			if s.doOK != 0 {
				c.assumeNil(st, c.errOf(ev.Res), s.doOK == 1)
			}
			r := c.resultOf(ev.Res, 0)
			if c.IsNil(st, c.errOf(ev.Res)) == 1 {
				c.assumeNil(st, r, false)
				c.assume(st, e.Lt(e.IntC(0), e.Len(c.Field(st, r, "HTTP"))), true)
			}
		}
		if s.onCall != nil {
			s.onCall(st, ev)
		}
	}
	outs, recs, ok := c.Run(rule, fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		out.args, out.stdout, out.stderr = ps[0], ps[1], ps[2]
		if s.sandbox != 0 {
			if sb := c.FieldOf(st, ps[3], "Sandbox"); sb != nil {
				c.assume(st, sb, s.sandbox == 1)
			}
		}
		if s.setup != nil {
			s.setup(st, ps)
		}
		return nil
	})
	if !ok {
		return nil
	}
	out.outs, out.recs = outs, recs
	return out
}

// writesTo: the event writes to w; content is what is written, if known.
func (c *Ctx) writesTo(ev *eng.Event, w *eng.Term) (content []*eng.Term, yes bool) {
	for i, a := range ev.Args {
		if a == nil {
			continue
		}
		if Unwrap(a) != w && a != w {
			continue
		}
		k := ev.Key
		switch {
		case strings.HasPrefix(k, "fmt.Fprint"):
			return ev.Args[1:], true
		case k == "io.WriteString" || strings.HasSuffix(k, ").Write") && i == 0:
			return ev.Args[1:], true
		case k == "(*bytes.Buffer).WriteTo" && i == 0:
			return ev.Args[1:], true // the model puts the writer first
		case strings.HasSuffix(k, ").WriteTo") && i == 1:
			return ev.Args[:1], true
		case k == "io.Copy" && i == 0:
			return ev.Args[1:], true
		}
	}
	return nil, false
}
