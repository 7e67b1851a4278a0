package rules

import (
	"go/types"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C31", Run: runC31, Floor: 15,
		Method:      "Abstract interpretation of NewAutoRequest under scenarios which fix the outcome of the parsing calls on the query text (URL with or without path, IP address, network, AS number, dot or none): every path of every scenario must build a request of the documented type holding the documented term (parsed value or the text itself).",
		Assumptions: []string{"net/url, net and strconv parse as documented"}})
}

type autoScn struct {
	name            string
	url             int // 0 not a URL (error), 1 other scheme, 2 http(s) with path, 3 http(s) without
	scheme, path    string
	ip, cidr, asn   bool
	dot             bool
	wantType, value string
}

func runC31(c *Ctx) {
	fn := c.Func(pkgRdap, "NewAutoRequest")
	if fn == nil {
		c.Unknown("auto", "NewAutoRequest not found")
		return
	}
	var scns []autoScn
	for _, sch := range []string{"http", "https"} {
		for _, p := range []string{"", "/"} {
			scns = append(scns, autoScn{name: sch + " URL, path " + p, url: 3, scheme: sch, path: p, wantType: "DomainRequest", value: "host"})
		}
		scns = append(scns, autoScn{name: sch + " URL with path", url: 2, scheme: sch, wantType: "RawRequest", value: "url"})
	}
	for _, u := range []int{0, 1} {
		for _, dot := range []bool{false, true} {
			for _, sch := range []string{"", "ftp"} {
				if u == 0 && sch != "" {
					continue
				}
				n := map[bool]string{false: ", no dot", true: ", dot"}[dot] + map[int]string{0: ", not a URL", 1: ", URL scheme '" + sch + "'"}[u]
				scns = append(scns,
					autoScn{name: "IP address" + n, url: u, scheme: sch, ip: true, dot: dot, wantType: "IPRequest", value: "ip"},
					autoScn{name: "IP network" + n, url: u, scheme: sch, cidr: true, dot: dot, wantType: "IPRequest", value: "net"},
					autoScn{name: "AS number" + n, url: u, scheme: sch, asn: true, dot: dot, wantType: "AutnumRequest", value: "asn"},
				)
				if dot {
					scns = append(scns, autoScn{name: "other text" + n, url: u, scheme: sch, dot: dot, wantType: "DomainRequest", value: "text"})
				} else {
					scns = append(scns, autoScn{name: "other text" + n, url: u, scheme: sch, dot: dot, wantType: "EntityRequest", value: "text"})
				}
			}
		}
	}
	consts := c.ConstsOf(pkgRdap, "RequestType")
	for _, s := range scns {
		c.autoScenario(fn, s, consts)
	}
}

func (c *Ctx) autoScenario(fn *ssa.Function, s autoScn, consts map[string]int64) {
	e := c.E
	var q *eng.Term
	understood := true
	h := &eng.Hooks{SplitFacts: 60}
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		if len(ev.Args) == 0 {
			return
		}
		same := stripConv(ev.Args[0]) == q
		switch ev.Key {
		case "net/url.Parse", "net/url.ParseRequestURI":
			if !same {
				return
			}
			c.assumeNil(st, c.errOf(ev.Res), s.url != 0)
			if s.url == 0 {
				return
			}
			u := c.resultOf(ev.Res, 0)
			c.assumeNil(st, u, false)
			c.assume(st, e.Eq(c.Field(st, u, "Scheme"), e.StrC(s.scheme)), true)
			switch s.url {
			case 2:
				// the path of a URL with a host starts with a slash
				p := e.Sym("urlpath", types.Typ[types.String])
				c.assume(st, e.Eq(p, e.StrC("")), false)
				c.setField(st, u, "Path", e.Concat(e.StrC("/"), p))
			case 3:
				c.setField(st, u, "Path", e.StrC(s.path))
			}
		case "net.ParseIP":
			if same {
				c.assumeNil(st, ev.Res, !s.ip)
			}
		case "net.ParseCIDR":
			if same {
				c.assumeNil(st, c.errOf(ev.Res), s.cidr)
			}
		case "net/netip.ParseAddr", "net/netip.ParsePrefix":
			understood = false
		case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
			if asnText(e, st, ev.Args[0], q) != "" {
				c.assumeNil(st, c.errOf(ev.Res), s.asn)
			}
		case "fmt.Sscanf", "fmt.Sscan", "(*regexp.Regexp).MatchString":
			understood = false
		}
		c.containsScenario(st, ev, q, '.', s.dot)
	}
	outs, _, ok := c.Run("auto", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		q = ps[0]
		return nil
	})
	if !ok {
		return
	}
	if !understood {
		c.Unknown("auto", "%s: detection uses calls outside the model", s.name)
		return
	}
	n := 0
	for _, o := range outs {
		if o.Panic {
			continue
		}
		n++
		r := o.Rets[0]
		pos := posOf(o.In)
		if c.IsNil(o.St, r) == 1 {
			c.Bad("auto", fn, pos, "%s: no request is made", s.name)
			continue
		}
		ty := c.Field(o.St, r, "Type")
		tn, _ := ty.Int()
		if _, isC := ty.Int(); !isC {
			c.Unknown("auto", "%s: type is %s", s.name, short(ty))
			continue
		}
		if tn != consts[s.wantType] {
			c.Bad("auto", fn, pos, "%s: request type is %s, documented %s", s.name, constName(consts, tn), s.wantType)
			continue
		}
		qv, sv := c.Field(o.St, r, "Query"), c.Field(o.St, r, "Server")
		if s.value != "url" && c.IsNil(o.St, sv) != 1 {
			c.Bad("auto", fn, pos, "%s: a server is preset: %s", s.name, short(sv))
			continue
		}
		bad := ""
		switch s.value {
		case "host":
			if !(isURLField(qv, q, "Host")) {
				bad = "the query is not the URL's host but " + short(qv)
			}
		case "url":
			if !(isResult(sv, "net/url.Parse", 0) || isResult(sv, "net/url.ParseRequestURI", 0)) || stripConv(sv.Args[0].Args[0]) != q {
				bad = "the URL is not the parsed text but " + short(sv)
			}
		case "ip":
			bad = c.textOf(qv, "(net.IP).String", func(x *eng.Term) bool { return isCall(x, "net.ParseIP") && stripConv(x.Args[0]) == q })
		case "net":
			bad = c.textOf(qv, "(*net.IPNet).String", func(x *eng.Term) bool { return isResult(x, "net.ParseCIDR", 1) && x.Args[0].Args[0] == q })
		case "asn":
			bad = c.asnValue(o.St, qv, q)
		case "text":
			if qv != q {
				bad = "the query is not the text itself but " + short(qv)
			}
		}
		c.Check(bad == "", "auto", fn, pos, "%s: %s carries exactly the parsed value %s", s.name, s.wantType, bad)
	}
	if n == 0 {
		c.Bad("auto", fn, 0, "%s: no request is made", s.name)
	}
}

func constName(consts map[string]int64, n int64) string {
	for _, k := range sortedKeys(consts) {
		if consts[k] == n {
			return k
		}
	}
	return "?"
}

func isURLField(t, q *eng.Term, f string) bool {
	if t.Op != eng.OLoad || t.Args[0].Op != eng.OFieldAddr || t.Args[0].S != f {
		return false
	}
	u := t.Args[0].Args[0]
	return (isResult(u, "net/url.Parse", 0) || isResult(u, "net/url.ParseRequestURI", 0)) && stripConv(u.Args[0].Args[0]) == q
}

// textOf: t is the text of a value x with ok(x).
func (c *Ctx) textOf(t *eng.Term, method string, ok func(*eng.Term) bool) string {
	x := t
	switch {
	case isCall(t, method):
		x = t.Args[0]
	case t.Op == eng.OFmt && (t.S == "%s" || t.S == "%v"):
		x = Unwrap(t.Args[0])
	default:
		return "the query is " + short(t)
	}
	if x.Op == eng.OLoad && ok(x.Args[0]) || ok(x) {
		return ""
	}
	return "the query is the text of " + short(x)
}

// asnText: t is the query text without an optional case-insensitive AS
// prefix; returns "" if not recognised as derived that way.
func asnText(e *eng.Engine, st *eng.State, t, q *eng.Term) string {
	cased := func(x *eng.Term) string {
		switch {
		case isCall(x, "strings.ToUpper") && x.Args[0] == q:
			return "AS"
		case isCall(x, "strings.ToLower") && x.Args[0] == q:
			return "as"
		}
		return ""
	}
	if isCall(t, "strings.TrimPrefix") {
		if w := cased(t.Args[0]); w != "" {
			if s, ok := t.Args[1].Str(); ok && s == w {
				return "trim"
			}
		}
		return ""
	}
	if t.Op == eng.OSlice && t.Args[2] == nil {
		if n, ok := t.Args[1].Int(); ok && n == 2 {
			x := t.Args[0]
			if x == q || cased(x) != "" {
				return "slice"
			}
		}
	}
	if t == q || cased(t) != "" {
		return "plain"
	}
	return ""
}

func (c *Ctx) asnValue(st *eng.State, qv, q *eng.Term) string {
	x := qv
	if x.Op == eng.OFmt && x.S == "%d" {
		x = x.Args[0]
		for x.Op == eng.OConv {
			if b, ok := x.T.Underlying().(*types.Basic); ok {
				switch b.Kind() {
				case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16:
					return "the number is cut by a conversion to " + b.Name()
				}
			}
			x = x.Args[0]
		}
	} else if asnText(c.E, st, x, q) != "" {
		return "the query is the text, not the number"
	} else {
		return "the query is " + short(qv)
	}
	if !(isResult(x, "strconv.ParseUint", 0)) {
		return "the number is " + short(x)
	}
	call := x.Args[0]
	how := asnText(c.E, st, call.Args[0], q)
	if how == "" {
		return "the number is parsed from " + short(call.Args[0])
	}
	if b, ok := call.Args[1].Int(); !ok || b != 10 {
		return "the number is not parsed as decimal"
	}
	if b, ok := call.Args[2].Int(); !ok || b != 32 {
		return "the number is not limited to 32 bits"
	}
	if how == "plain" || how == "slice" {
		// only under the matching prefix test
		pre := 0
		for _, t := range st.FactTerms() {
			if (isCall(t, "strings.HasPrefix") || isCall(t, "strings.EqualFold")) && strings.EqualFold(strArg(t, 1), "as") {
				pre = c.E.Decide(st, t)
			}
		}
		if how == "slice" && pre != 1 {
			return "two characters are cut without an AS prefix"
		}
		if how == "plain" && pre == 1 {
			return "the AS prefix is not removed"
		}
		if how == "plain" && pre == 0 {
			return "the AS prefix is not considered"
		}
	}
	return ""
}

func strArg(t *eng.Term, i int) string {
	if i < len(t.Args) {
		s, _ := t.Args[i].Str()
		return s
	}
	return ""
}
