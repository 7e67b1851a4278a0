package rules

import (
	"fmt"
	"math/big"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C01", Run: runC01, Floor: 30,
		Method:      "Value-numbering abstract interpretation of (*Request).URL for each request type: every returned URL is decomposed into base, separator, path literal, query text and query layers and compared with the documented table; the escaping of the query text is decided by evaluating, for each of the 256 byte values, what the source appends under the branch facts of the analysed loop.",
		Assumptions: []string{"net/url behaves as documented: Parse, String, Query, Values.Encode and PathEscape", "request types outside the declared constants are not used"}})
}

type urlShape struct{ path, param string }

// documented table; %s marks the query text
var urlTable = map[string]urlShape{
	"AutnumRequest":                         {"autnum/%s", ""},
	"DomainRequest":                         {"domain/%s", ""},
	"EntityRequest":                         {"entity/%s", ""},
	"HelpRequest":                           {"help", ""},
	"IPRequest":                             {"ip/%s", ""},
	"NameserverRequest":                     {"nameserver/%s", ""},
	"DomainSearchRequest":                   {"domains", "name"},
	"DomainSearchByNameserverRequest":       {"domains", "nsLdhName"},
	"DomainSearchByNameserverIPRequest":     {"domains", "nsIp"},
	"NameserverSearchRequest":               {"nameservers", "name"},
	"NameserverSearchByNameserverIPRequest": {"nameservers", "ip"},
	"EntitySearchRequest":                   {"entities", "fn"},
	"EntitySearchByHandleRequest":           {"entities", "handle"},
	"AutnumSearchRequest":                   {"autnums", "handle"},
}

func runC01(c *Ctx) {
	fn := c.Func(pkgRdap, "*Request.URL")
	if fn == nil {
		c.Unknown("url", "(*Request).URL not found")
		return
	}
	consts := c.ConstsOf(pkgRdap, "RequestType")
	for _, name := range sortedKeys(consts) {
		shape, listed := urlTable[name]
		if name != "RawRequest" && !listed {
			continue
		}
		k := consts[name]
		var recv *eng.Term
		outs, _, ok := c.Run("url", fn, &eng.Hooks{SplitFacts: 120}, func(st *eng.State, ps []*eng.Term) []*eng.Term {
			recv = ps[0]
			c.AssumeEq(st, c.Field(st, recv, "Type"), c.E.IntC(k))
			c.AssumeNil(st, c.Field(st, recv, "Server"), false)
			return nil
		})
		if !ok {
			continue
		}
		n := 0
		for _, o := range outs {
			if o.Panic {
				continue
			}
			n++
			if name == "RawRequest" {
				c.rawURL(fn, o, recv)
			} else {
				c.shapedURL(fn, name, shape, o, recv)
			}
		}
		if n == 0 {
			c.Bad("url", fn, 0, "%s: no URL is ever returned", name)
		}
	}
	// without a server there is no URL
	outs, _, ok := c.Run("url", fn, &eng.Hooks{SplitFacts: 120}, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		c.AssumeNil(st, c.Field(st, ps[0], "Server"), true)
		return nil
	})
	if ok {
		for _, o := range outs {
			if !o.Panic {
				c.Check(c.IsNil(o.St, o.Rets[0]) == 1, "noserver", fn, posOf(o.In), "without a server no URL is made")
			}
		}
	}
}

func (c *Ctx) rawURL(fn *ssa.Function, o *eng.Outcome, recv *eng.Term) {
	r := o.Rets[0]
	srv := recvLoad(c, recv, "Server")
	if r == srv {
		c.Ok("raw", "raw request returns the given URL")
		return
	}
	if c.IsNil(o.St, r) == 1 {
		c.Bad("raw", fn, posOf(o.In), "a raw request gives no URL")
		return
	}
	// a copy: every field equal
	bad := ""
	for _, f := range urlFields {
		v := c.Field(o.St, r, f)
		want := c.E.LoadTerm(nil2(c, srv, f), v.T)
		_ = want
		if w := c.initField(srv, f); v != w {
			if f == "RawQuery" || f == "Fragment" || f == "Path" || f == "Host" || f == "Scheme" || f == "RawPath" || f == "Opaque" || f == "User" || f == "ForceQuery" {
				bad = f + " = " + short(v)
			}
		}
	}
	c.Check(bad == "", "raw", fn, posOf(o.In), "raw request is sent to the given URL unchanged %s", bad)
}

var urlFields = []string{"Scheme", "Opaque", "User", "Host", "Path", "RawPath", "ForceQuery", "RawQuery", "Fragment"}

func nil2(c *Ctx, p *eng.Term, f string) *eng.Term { return c.initField(p, f).Args[0] }

// initField is the entry content of a field of the object p points to.
func (c *Ctx) initField(p *eng.Term, f string) *eng.Term {
	return c.Field(c.E.EmptyState(), p, f)
}

func recvLoad(c *Ctx, recv *eng.Term, f string) *eng.Term { return c.initField(recv, f) }

func (c *Ctx) shapedURL(fn *ssa.Function, name string, shape urlShape, o *eng.Outcome, recv *eng.Term) {
	e := c.E
	r := o.Rets[0]
	pos := posOf(o.In)
	srv := recvLoad(c, recv, "Server")
	q := recvLoad(c, recv, "Query")
	if c.IsNil(o.St, r) == 1 {
		// only when the constructed text is not a URL
		ok := false
		for _, t := range o.St.FactTerms() {
			if t.Op == eng.ODyn && t.Args[0].Op == eng.OExtract && t.Args[0].Args[0].Op == eng.OCall && strings.HasPrefix(t.Args[0].Args[0].S, "net/url.Parse") && e.Decide(o.St, e.Eq(t, e.Nil())) == -1 {
				ok = true
			}
		}
		c.Check(ok, "nil", fn, pos, "%s: no URL is returned only when the text is not parseable", name)
		return
	}
	var text *eng.Term
	if r.Op == eng.OExtract && r.I == 0 && r.Args[0].Op == eng.OCall && r.Args[0].S == "net/url.Parse" {
		text = r.Args[0].Args[0]
	}
	if text == nil {
		c.Unknown("shape", "%s: URL built in an unknown way: %s", name, short(r))
		return
	}
	for _, f := range []string{"Host", "Path", "Scheme", "RawPath", "Opaque", "User"} {
		v := c.Field(o.St, r, f)
		if !(v.Op == eng.OLoad && v.Args[0].Op == eng.OFieldAddr && v.Args[0].Args[0] == r) {
			c.Bad("shape", fn, pos, "%s: URL field %s is overwritten with %s", name, f, short(v))
		}
	}
	switch v := c.Field(o.St, r, "Fragment"); {
	case v == c.initField(srv, "Fragment"):
		c.Ok("fragment", "%s: the server URL's fragment is kept", name)
	case v.IsConst() || v.Op == eng.OLoad && v.Args[0].Op == eng.OFieldAddr && v.Args[0].Args[0] == r:
		c.Bad("fragment", fn, pos, "%s: the fragment of the server URL is lost", name)
	default:
		c.Unknown("fragment", "%s: fragment %s", name, short(v))
	}
	parts := []*eng.Term{text}
	if text.Op == eng.OConcat {
		parts = append([]*eng.Term{}, text.Args...)
	}
	// base
	base := parts[0]
	trimmed := false
	if base.Op == eng.OCall && (base.S == "strings.TrimSuffix" || base.S == "strings.TrimRight") {
		if s, ok := base.Args[1].Str(); ok && s == "/" {
			base, trimmed = base.Args[0], true
		}
	}
	if !(base.Op == eng.OCall && base.S == "(*net/url.URL).String") {
		c.Bad("base", fn, pos, "%s: the URL does not start with the server URL but with %s", name, short(base))
		return
	}
	b := base.Args[0]
	if bad := c.baseURL(o.St, b, srv); bad != "" {
		c.Bad("base", fn, pos, "%s: the URL does not start with the server URL without query and fragment: %s", name, bad)
		return
	}
	c.Ok("base", "%s: starts with the server URL without its query and fragment", name)
	rest := parts[1:]
	lead := ""
	if len(rest) > 0 {
		if s, ok := rest[0].Str(); ok {
			lead = s
			rest = rest[1:]
		}
	}
	// separator
	lastIdx := e.Bin2Sub(e.Len(base), 1)
	last := e.Index(base, lastIdx, nil)
	last2 := e.IndexByte(base, lastIdx)
	endsSlash := 0
	for _, l := range []*eng.Term{last, last2} {
		if d := e.Decide(o.St, e.Eq(l, e.IntC('/'))); d != 0 {
			endsSlash = d
		}
	}
	for _, t := range o.St.FactTerms() {
		if t.Op == eng.OCall && t.S == "strings.HasSuffix" && t.Args[0] == base {
			if s, ok := t.Args[1].Str(); ok && s == "/" {
				endsSlash = e.Decide(o.St, t)
			}
		}
	}
	if e.Decide(o.St, e.Eq(base, e.StrC(""))) == 1 || e.Decide(o.St, e.Eq(e.Len(base), e.IntC(0))) == 1 {
		endsSlash = -1
	}
	hasLead := strings.HasPrefix(lead, "/") && !strings.HasPrefix(lead, "//")
	okSep := trimmed && hasLead || !trimmed && (endsSlash == 1 && !strings.HasPrefix(lead, "/") || endsSlash == -1 && hasLead)
	c.Check(okSep, "separator", fn, pos, "%s: exactly one '/' between server URL and path (starts %q, server URL ends with '/': %d)", name, lead, endsSlash)
	lead = strings.TrimPrefix(lead, "/")
	// path
	wantLit, hasQ := strings.CutSuffix(shape.path, "%s")
	if lead != wantLit {
		c.Bad("path", fn, pos, "%s: path is %q, documented %q", name, lead, wantLit)
	} else {
		c.Ok("path", "%s: path %q", name, lead)
	}
	if !hasQ {
		if len(rest) > 0 {
			c.Bad("path", fn, pos, "%s: unexpected text in the path: %s", name, short(rest[0]))
		}
	} else if len(rest) != 1 {
		c.Bad("path", fn, pos, "%s: path does not consist of %q and the query text: %v", name, wantLit, rest)
	} else {
		slash := name == "IPRequest"
		if why := c.escapedQuery(o.St, rest[0], q, slash); strings.HasPrefix(why, "?") {
			c.Unknown("confinement", "%s: %s", name, why[1:])
		} else if why != "" {
			c.Bad("confinement", fn, pos, "%s: the query text can leave its path segment: %s", name, why)
		} else {
			c.Ok("confinement", "%s: query text escaped for its path segment", name)
		}
	}
	// query
	raw := c.Field(o.St, r, "RawQuery")
	if raw.Op != eng.OCall || raw.S != "(net/url.Values).Encode" {
		c.Bad("query", fn, pos, "%s: URL query is not the encoded parameters but %s", name, short(raw))
		return
	}
	layers := e.MapLayers(contentArg(e, raw.Args[0]))
	var got []string
	for _, l := range layers {
		switch {
		case l.Del:
			got = append(got, "deleted "+short(l.Key))
		case l.All != nil:
			x := l.All
			if x.Op == eng.OMapInit {
				x = x.Args[0]
			}
			switch {
			case x.Op == eng.OCall && x.S == "(*net/url.URL).Query" && (x.Args[0] == srv || c.sameURL(x.Args[0], srv)):
				got = append(got, "server")
			case x.Op == eng.OCall && x.S == "net/url.ParseQuery" || x.Op == eng.OExtract && x.Args[0].S == "net/url.ParseQuery" && x.Args[0].Args[0] == c.initField(srv, "RawQuery"):
				got = append(got, "server")
			case x == recvLoad(c, recv, "Params"):
				got = append(got, "params")
			default:
				got = append(got, short(x))
			}
		default:
			k, _ := l.Key.Str()
			v := l.Val
			if v.Op == eng.OAppend && v.Args[0].IsNil() && len(v.Args) == 2 && v.Args[1] == q {
				got = append(got, "own:"+k)
			} else if el := e.Elems(o.St, v); len(el) == 1 && el[0] == q {
				got = append(got, "own:"+k)
			} else {
				got = append(got, fmt.Sprintf("%s=%s", k, short(v)))
			}
		}
	}
	// a nil or empty Params layer may be skipped
	want := []string{"server", "params"}
	if shape.param != "" {
		want = append(want, "own:"+shape.param)
	}
	ok := strings.Join(got, " ") == strings.Join(want, " ")
	if !ok && e.Decide(o.St, e.Eq(e.Len(recvLoad(c, recv, "Params")), e.IntC(0))) == 1 {
		w2 := append([]string{"server"}, want[2:]...)
		ok = strings.Join(got, " ") == strings.Join(w2, " ")
	}
	c.Check(ok, "query", fn, pos, "%s: query parameters are, in order of precedence, [%s], documented [%s]", name, strings.Join(got, " < "), strings.Join(want, " < "))
}

func contentArg(e *eng.Engine, x *eng.Term) *eng.Term {
	switch x.Op {
	case eng.OMapUpd, eng.OMapCopy, eng.OMapInit, eng.OMapEmpty, eng.OMapDel:
		return x
	}
	if x.Op == eng.OSym && len(e.Origins[x]) > 0 {
		return x
	}
	return e.MapInit(x)
}

func (c *Ctx) sameURL(x, srv *eng.Term) bool {
	if x == srv {
		return true
	}
	for _, f := range []string{"RawQuery"} {
		if c.FieldOf(c.E.EmptyState(), x, f) != c.initField(srv, f) {
			return false
		}
	}
	return true
}

func (c *Ctx) baseURL(st *eng.State, b, srv *eng.Term) string {
	for _, f := range []string{"Scheme", "Opaque", "User", "Host", "Path", "RawPath"} {
		if v := c.FieldOf(st, b, f); v != c.initField(srv, f) {
			return f + " is " + short(v)
		}
	}
	for _, f := range []string{"RawQuery", "Fragment"} {
		if v := c.FieldOf(st, b, f); v != c.E.StrC("") {
			return f + " is " + short(v)
		}
	}
	if v := c.FieldOf(st, b, "ForceQuery"); v != c.E.BoolC(false) {
		return "ForceQuery is " + short(v)
	}
	return ""
}

func pathSafe(b int64, slash bool) bool {
	switch b {
	case '/':
		return slash
	case '?', '#', '%', 0x7f:
		return false
	case '"', '<', '>', '\\', '^', '`', '{', '|', '}':
		// net/url takes a path with one of these bytes for badly encoded and
		// encodes it anew, a "%2F" in the same text becoming "/"
		return slash
	}
	return b > 0x20 && b < 0x7f
}

// escapedQuery explains why t is not the query text q escaped for a path
// segment ("" if it is).
func (c *Ctx) escapedQuery(st *eng.State, t, q *eng.Term, slash bool) string {
	e := c.E
	for t.Op == eng.OConv {
		t = t.Args[0]
	}
	if t == q {
		av := e.Quantified(st, q, nil)
		if vals, ok := av.Values(256); ok {
			for _, v := range vals {
				if !pathSafe(v, slash) {
					return fmt.Sprintf("byte %q is not escaped", rune(v))
				}
			}
			return ""
		}
		if e.Decide(st, e.Eq(q, e.StrC(""))) == 1 {
			return ""
		}
		for _, x := range st.FactTerms() {
			if x.Op == eng.OCall && x.Contains(q) {
				return "?it is used unescaped when " + short(x)
			}
		}
		return "it is used unescaped"
	}
	if t.Op == eng.OCall {
		switch t.S {
		case "net/url.PathEscape":
			if t.Args[0] == q {
				return ""
			}
		case "strings.ReplaceAll":
			a, _ := t.Args[1].Str()
			b, _ := t.Args[2].Str()
			if strings.EqualFold(a, "%2f") && b == "/" && slash || strings.EqualFold(a, "%3a") && b == ":" {
				return c.escapedQuery(st, t.Args[0], q, slash)
			}
			return fmt.Sprintf("ReplaceAll(%q, %q)", a, b)
		case "strings.TrimSpace", "strings.ToLower":
			return "the text is changed by " + t.S
		}
		return "?unknown text " + short(t)
	}
	// prefix + rest, or an accumulated text
	acc, ok := accumulated(e, t)
	if !ok {
		return "?unknown text " + short(t)
	}
	var idxBase *eng.Term
	covered := map[int64]bool{}
	var off int64
	for _, a := range acc.Adds {
		elem, idx := findElem(a.Parts, q)
		if elem == nil {
			// all parts constant?
			elem, idx = factElem(a.St, q)
			if elem == nil {
				return "?appends " + short(a.Parts[0])
			}
		}
		b, k := eng.Lin(idx)
		if idxBase == nil {
			idxBase, off = b, k
		} else if idxBase != b || off != k {
			return "?reads the text at different positions"
		}
		av := a.St.AVOf(elem)
		vals, ok := av.Values(256)
		if av == nil {
			vals, ok = nil, true
			for i := int64(0); i < 256; i++ {
				vals = append(vals, i)
			}
		}
		if !ok {
			return "?unbounded byte"
		}
		for _, v := range vals {
			covered[v] = true
			var ps []*eng.Term
			for _, p := range a.Parts {
				ps = append(ps, e.Subst(p, map[*eng.Term]*eng.Term{elem: e.IntC(v)}))
			}
			s, ok := e.ConstBytes(ps)
			if !ok {
				return fmt.Sprintf("?byte %q gives %v", rune(v), ps)
			}
			if len(s) == 1 && int64(s[0]) == v && pathSafe(v, slash) {
				continue
			}
			if strings.EqualFold(s, fmt.Sprintf("%%%02X", v)) {
				continue
			}
			if c.openFact(a.St, elem, v) {
				return fmt.Sprintf("?byte %q may become %q", rune(v), s)
			}
			return fmt.Sprintf("byte %q becomes %q", rune(v), s)
		}
	}
	if idxBase == nil || idxBase.Op != eng.OSym {
		return "?no byte loop found"
	}
	for v := int64(0); v < 256; v++ {
		if !covered[v] {
			return fmt.Sprintf("byte %q is dropped", rune(v))
		}
	}
	// one step per byte
	var first *eng.Term
	for _, o := range e.Origins[idxBase] {
		if o.Init {
			if first != nil && first != o.Val {
				return "?several start positions"
			}
			first = o.Val
			continue
		}
		if b, k := eng.Lin(o.Val); b != idxBase {
			return "?position becomes " + short(o.Val)
		} else if k != 1 {
			return "bytes are skipped"
		}
	}
	if first == nil {
		return "?no start position"
	}
	start := e.Bin2Sub(first, -off)
	for _, in := range acc.Inits {
		n, isC := start.Int()
		if len(in.Parts) == 0 {
			if isC && n == 0 {
				continue
			}
			if isC {
				return "text before the loop is dropped"
			}
			return "?text before the loop may be dropped"
		}
		if p := in.Parts[0]; len(in.Parts) == 1 && p.Op == eng.OSlice && p.Args[0] == q && p.Args[1] == nil && p.Args[2] != nil && p.Args[2] != start {
			b1, k1 := eng.Lin(p.Args[2])
			b2, k2 := eng.Lin(start)
			if b1 == b2 && k1 < k2 {
				return "bytes between the prefix and the escaped part are dropped"
			} else if b1 == b2 && k1 > k2 {
				return "bytes of the prefix are repeated"
			}
		}
		if len(in.Parts) == 1 && in.Parts[0].Op == eng.OSlice && in.Parts[0].Args[0] == q && in.Parts[0].Args[1] == nil && in.Parts[0].Args[2] == start {
			av := e.Quantified(in.St, q, start)
			vals, ok := av.Values(256)
			if !ok {
				return "?the prefix is not checked"
			}
			for _, v := range vals {
				if !pathSafe(v, slash) {
					return fmt.Sprintf("byte %q in the prefix is not escaped", rune(v))
				}
			}
			continue
		}
		return "?starts with " + short(in.Parts[0])
	}
	// complete
	end := e.Bin2Sub(idxBase, -off)
	if d := e.Decide(st, e.Lt(end, e.Len(q))); d == 0 && st.F.UB(e.Len(q), end) > 1<<40 {
		return "?the loop may end before the end of the text"
	} else if d != -1 {
		return "the loop may end before the end of the text"
	}
	return ""
}

// openFact: the path depends on something about element elem that is not
// known for value v.
func (c *Ctx) openFact(st *eng.State, elem *eng.Term, v int64) bool {
	for _, t := range st.FactTerms() {
		if t == elem || !t.Contains(elem) {
			continue
		}
		if _, k := eng.Lin(t); k != 0 {
			continue
		}
		if !c.E.Subst(t, map[*eng.Term]*eng.Term{elem: c.E.IntC(v)}).IsConst() {
			return true
		}
	}
	return false
}

// factElem finds an element of seq the facts of st speak about.
func factElem(st *eng.State, seq *eng.Term) (elem, idx *eng.Term) {
	for _, t := range st.FactTerms() {
		if i, ok := elemIndex(t, seq); ok {
			b, _ := eng.Lin(i)
			if b != nil && b.Op == eng.OSym {
				elem, idx = t, i
			}
		}
	}
	return
}

var _ = big.NewRat
