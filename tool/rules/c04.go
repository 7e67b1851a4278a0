package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C04", Run: runC04, Floor: 30,
		Method:      "Abstract interpretation of QueryDomain, QueryAutnum and QueryIP with (*Client).Do opaque, once per kind of outcome of Do (error; each dynamic type of the response object, and none): the request handed to Do, the returned object and the class and text of the returned error are compared with the documented ones on every path.",
		Assumptions: []string{"(*Client).Do returns a response with every nil error (C03)"}})
	register(&Rule{ID: "C05", Run: runC05, Floor: 20,
		Method:      "Context provenance analysis: at every net/http request made by (*Client).Do and by the bootstrap client the context argument is traced, through all inlined helpers, to the caller's request, question or argument (or a timeout context derived from it); the convenience queries and RunCLI are traced to the timeout they set; every context.With* result must have its cancel function called after the last use on every exit. All library functions are scanned for context-free HTTP calls.",
		Assumptions: []string{"net/http abandons a request whose context ends"}})
	register(&Rule{ID: "C06", Run: runC06, Floor: 20,
		Method:      "Typestate analysis of every HTTP response on every path of (*Client).Do and the bootstrap client (received, read, closed), including loop iterations, and provenance of method, URL and headers of every request.",
		Assumptions: []string{"net/http: a nil error comes with a response with a body"}})
}

const kDo = "(*github.com/openrdap/rdap.Client).Do"

// ctxField reads the (only) context field of a struct.
func (c *Ctx) ctxField(st *eng.State, ptr *eng.Term) *eng.Term {
	if ptr == nil || ptr.T == nil {
		return nil
	}
	t := ptr.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Type().String() == "context.Context" {
			return c.FieldOf(st, ptr, s.Field(i).Name())
		}
	}
	return nil
}

// rdapObjects are the topmost response types.
var rdapObjects = []string{"Autnum", "Domain", "DomainSearchResults", "Entity", "EntitySearchResults", "Error", "Help", "IPNetwork", "Nameserver", "NameserverSearchResults"}

func runC04(c *Ctx) {
	rt := c.ConstsOf(pkgRdap, "RequestType")
	errs := c.ConstsOf(pkgRdap, "ClientErrorType")
	for _, q := range []struct{ fn, typ, obj string }{
		{"QueryDomain", "DomainRequest", "Domain"},
		{"QueryAutnum", "AutnumRequest", "Autnum"},
		{"QueryIP", "IPRequest", "IPNetwork"},
	} {
		fn := c.Func(pkgRdap, "*Client."+q.fn)
		if fn == nil {
			c.Unknown("query", "%s not found", q.fn)
			continue
		}
		for _, mode := range append([]string{"error", "nil object"}, rdapObjects...) {
			var ty types.Type
			if mode != "error" && mode != "nil object" {
				t := c.Type(pkgRdap, mode)
				if t == nil {
					continue
				}
				ty = types.NewPointer(t)
			}
			h := &eng.Hooks{MaxStates: 200, Opaque: opaqueList(kDo), Keep: evKeep(kDo)}
			h.OnCall = func(st *eng.State, ev *eng.Event) {
				if ev.Key != kDo {
					return
				}
				c.assumeNil(st, c.errOf(ev.Res), mode != "error")
				if mode == "error" {
					return
				}
				r := c.resultOf(ev.Res, 0)
				c.assumeNil(st, r, false)
				obj := c.Field(st, r, "Object")
				c.assumeNil(st, obj, ty == nil)
				if ty == nil {
					return
				}
				c.assume(st, c.E.Eq(c.E.Dyn(obj), c.E.TypeC(ty)), true)
				// the decoder yields no typed nil
				v := c.E.AssertT(obj, ty)
				c.assumeNil(st, v, false)
				if mode == "Error" {
					if f := c.Field(st, v, "ErrorCode"); f != nil {
						c.assumeNil(st, f, false)
					}
				}
			}
			var param *eng.Term
			outs, _, ok := c.Run("query", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
				param = ps[1]
				return nil
			})
			if !ok {
				continue
			}
			n := 0
			for _, o := range outs {
				pos := posOf(o.In)
				if o.Panic {
					c.Bad("query", fn, pos, "%s: panics on %s", q.fn, mode)
					continue
				}
				n++
				do := hasEvent(o.St.Trace, kDo)
				if do == nil {
					c.Bad("query", fn, pos, "%s: no request is run", q.fn)
					continue
				}
				if o.St.Trace.Prev != nil {
					c.Bad("query", fn, pos, "%s: more than one request is run", q.fn)
				}
				rq := do.Args[1]
				k, isc := c.FieldOf(do.St, rq, "Type").Int()
				c.Check(isc && k == rt[q.typ], "request", fn, posOf(do.Instr), "%s runs a %s", q.fn, q.typ)
				c.Check(c.FieldOf(do.St, rq, "Query") == param, "request", fn, posOf(do.Instr), "%s asks for exactly the given text (%s)", q.fn, short(c.FieldOf(do.St, rq, "Query")))
				if sv := c.FieldOf(do.St, rq, "Server"); sv != nil {
					c.Check(c.IsNil(do.St, sv) == 1, "request", fn, posOf(do.Instr), "%s bootstraps the query", q.fn)
				}
				er, obj := o.Rets[1], o.Rets[0]
				if mode == q.obj {
					want := c.E.AssertT(c.Field(do.St, c.resultOf(do.Res, 0), "Object"), ty)
					c.Check(c.IsNil(o.St, er) == 1 && obj == want, "outcome", fn, pos, "%s: a %s response is returned without error (got %s, %s)", q.fn, mode, short(obj), errName(c, o.St, er, errs))
					continue
				}
				c.Check(c.IsNil(o.St, obj) == 1, "outcome", fn, pos, "%s: no object is returned on %s", q.fn, mode)
				ct, isCE := c.clientErr(o.St, er)
				switch mode {
				case "error":
					c.Check(er == c.errOf(do.Res), "outcome", fn, pos, "%s: the request's own error is returned (got %s)", q.fn, errName(c, o.St, er, errs))
				case "Error":
					if !c.Check(isCE && ct == errs["RDAPServerError"], "outcome", fn, pos, "%s: an RDAP error response becomes a server error (got %s)", q.fn, errName(c, o.St, er, errs)) {
						continue
					}
					txt := c.FieldOf(o.St, Unwrap(er), "Text")
					eo := c.E.AssertT(c.Field(do.St, c.resultOf(do.Res, 0), "Object"), ty)
					code := c.Field(o.St, eo, "ErrorCode")
					if code == nil || txt == nil {
						c.Unknown("text", "error code not found")
						continue
					}
					cv := c.E.Load(o.St, code, code.T.Underlying().(*types.Pointer).Elem())
					c.Check(c.derived(txt, cv), "text", fn, pos, "%s: the server error carries the error code (text is %s)", q.fn, short(txt))
					c.Check(c.derived(txt, c.Field(o.St, eo, "Title")), "text", fn, pos, "%s: the server error carries the title (text is %s)", q.fn, short(txt))
					d := c.Field(o.St, eo, "Description")
					c.Check(c.derived(txt, d), "text", fn, pos, "%s: the server error carries the description (text is %s)", q.fn, short(txt))
					if d != nil {
						txt.Walk(func(x *eng.Term) bool {
							if x.Op == eng.OSlice && x.Args[0] == d && (x.Args[1] != nil && !isZero(x.Args[1]) || x.Args[2] != nil && c.E.Decide(o.St, c.E.Lt(x.Args[2], c.E.Len(d))) != -1) {
								c.Bad("text", fn, pos, "%s: the server error carries only a part of the description (%s)", q.fn, short(x))
							}
							return true
						})
					}
				default:
					c.Check(isCE && ct == errs["WrongResponseType"], "outcome", fn, pos, "%s: %s gives the wrong-response-type error (got %s)", q.fn, mode, errName(c, o.St, er, errs))
				}
			}
			if n == 0 {
				c.Bad("query", fn, 0, "%s: no path for %s", q.fn, mode)
			}
		}
	}
}

// derived: t is computed from part, also through loop-carried values.
func (c *Ctx) derived(t, part *eng.Term) bool {
	seen := map[*eng.Term]bool{}
	var f func(t *eng.Term) bool
	f = func(t *eng.Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t == part {
			return true
		}
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		if t.Op == eng.OSym {
			for _, o := range c.E.Origins[t] {
				if f(o.Val) {
					return true
				}
			}
		}
		return false
	}
	return f(t)
}

// ---- C05 ----

const (
	kWithTimeout  = "context.WithTimeout"
	kWithDeadline = "context.WithDeadline"
	kWithCancel   = "context.WithCancel"
	kSave         = "(github.com/openrdap/rdap/bootstrap/cache.RegistryCache).Save"
)

var ctxMakers = []string{kWithTimeout, kWithDeadline, kWithCancel, "context.WithTimeoutCause", "context.WithDeadlineCause", "context.WithCancelCause"}

func isCtxMaker(key string) bool {
	for _, k := range ctxMakers {
		if k == key {
			return true
		}
	}
	return false
}

// ctxBase follows derived contexts to their origin; it returns the origin and
// the timeouts added on the way.
func ctxBase(t *eng.Term) (*eng.Term, []*eng.Term) {
	var tm []*eng.Term
	for t != nil {
		t = Unwrap(t)
		if t.Op == eng.OExtract && t.I == 0 && t.Args[0].Op == eng.OCall && isCtxMaker(t.Args[0].S) {
			k := t.Args[0]
			if len(k.Args) > 1 {
				tm = append(tm, k.Args[1])
			}
			t = k.Args[0]
			continue
		}
		if t.Op == eng.OCall && (t.S == "context.WithValue" || t.S == "context.WithoutCancel") && t.S == "context.WithValue" {
			t = t.Args[0]
			continue
		}
		return t, tm
	}
	return nil, tm
}

// httpReqCtx finds the context an *http.Request value carries.
func (c *Ctx) httpReqCtx(st *eng.State, req *eng.Term) (*eng.Term, string) {
	req = Unwrap(req)
	if req.Op == eng.OExtract && req.I == 0 {
		req2 := req.Args[0]
		switch req2.S {
		case kNewReq:
			return req2.Args[0], ""
		case "net/http.NewRequest":
			return nil, "made by http.NewRequest, without a context"
		}
	}
	if req.Op == eng.OCall && (req.S == "(*net/http.Request).WithContext" || req.S == "(*net/http.Request).Clone") {
		return req.Args[1], ""
	}
	return nil, ""
}

func isBackground(t *eng.Term) bool {
	return t != nil && t.Op == eng.OCall && (t.S == "context.Background" || t.S == "context.TODO")
}

// timersReleased checks the cancel functions of a finished path.
func (c *Ctx) timersReleased(rule, name string, fn *ssa.Function, o *eng.Outcome, uses ...string) {
	var evs []*eng.Event
	if o.St.Trace != nil {
		evs = o.St.Trace.Events()
	}
	for i, ev := range evs {
		if !isCtxMaker(ev.Key) {
			continue
		}
		cancel := c.resultOf(ev.Res, 1)
		at := -1
		for j := i + 1; j < len(evs); j++ {
			if evs[j].Kind == "dyn" && evs[j].Args[0] == cancel && at < 0 {
				at = j
			}
			for _, u := range uses {
				if evs[j].Key == u && at >= 0 && at < j {
					c.Bad(rule, fn, posOf(evs[at].Instr), "%s: the context is cancelled before %s", name, u)
				}
			}
		}
		if at < 0 {
			// handed to somebody who runs it?
			for _, e2 := range evs[i+1:] {
				for _, a := range e2.Args {
					if a != nil && a.Contains(cancel) {
						at = 0
					}
				}
			}
		}
		c.Check(at >= 0, rule, fn, posOf(ev.Instr), "%s: the timer of %s is released on every exit", name, ev.Key)
	}
}

func cancelKeep(keys ...string) func(*eng.Event) bool {
	k := evKeep(keys...)
	return func(ev *eng.Event) bool {
		if k(ev) || isCtxMaker(ev.Key) {
			return true
		}
		return ev.Kind == "dyn" && ev.Args[0].Op == eng.OExtract && ev.Args[0].Args[0].Op == eng.OCall && isCtxMaker(ev.Args[0].Args[0].S)
	}
}

func runC05(c *Ctx) {
	rt := c.ConstsOf(pkgRdap, "RequestType")
	c.ctxDo(rt)
	c.ctxQuick()
	c.ctxBoot()
	c.ctxCLI()
	c.ctxScan()
}

// ctxCLI: the command line tool runs its request under the timeout option.
func (c *Ctx) ctxCLI() {
	n := 0
	s := &cliScn{name: "RunCLI", args: 1, sandbox: -1, flags: map[string]string{"verbose": "?", "raw": "?", "server": "?"}, keep: cancelKeep(kDo)}
	s.onCall = func(st *eng.State, ev *eng.Event) {
		if ev.Key != kDo {
			return
		}
		n++
		p := c.flagPtr["timeout"]
		if p == nil {
			c.Unknown("cli", "no timeout option found")
			return
		}
		v := c.E.LoadTerm(p, p.T.Underlying().(*types.Pointer).Elem())
		var cand []*eng.Term
		if x := c.ctxField(st, ev.Args[1]); x != nil {
			_, tm := ctxBase(x)
			cand = append(cand, tm...)
		}
		if t := c.FieldOf(st, ev.Args[1], "Timeout"); t != nil {
			cand = append(cand, t)
		}
		verdict, unk := 0, false
		for _, t := range cand {
			if k, isc := t.Int(); isc && k == 0 {
				continue
			}
			good, bad := true, false
			for _, k := range []int64{1, 30, 65535} {
				r := c.E.Subst(t, map[*eng.Term]*eng.Term{v: c.E.Const(constant.MakeInt64(k), v.T)})
				if conv := narrows(r); conv != "" {
					bad, good = true, false
					continue
				}
				x, isc := r.Int()
				if !isc || x != k*1e9 {
					good = false
					if isc || !t.Contains(v) {
						bad = true
					} else {
						unk = true
					}
				}
			}
			if good {
				verdict = 1
			} else if bad && verdict == 0 {
				verdict = -1
			}
		}
		if verdict == -1 && unk {
			verdict = 0
		}
		switch {
		case verdict == 1:
			c.Ok("cli", "the request runs under the timeout option")
		case verdict == -1 || len(cand) == 0 || !unk:
			c.Bad("cli", ev.Fn, posOf(ev.Instr), "the request does not run under the number of seconds of the timeout option (%s)", shortList(cand))
		default:
			c.Unknown("cli", "timeout of the request: %s", shortList(cand))
		}
	}
	o := c.cli("cli", s)
	if o == nil {
		return
	}
	if n == 0 {
		c.Unknown("cli", "no request found")
	}
	for _, r := range o.outs {
		c.timersReleased("release", "RunCLI", o.fn, r, kDo)
	}
}

// ctxDo: the requests and lookups made by (*Client).Do.
func (c *Ctx) ctxDo(rt map[string]int64) {
	fn := c.Func(pkgRdap, "*Client.Do")
	if fn == nil {
		c.Unknown("context", "(*Client).Do not found")
		return
	}
	for _, srv := range []bool{true, false} {
		for _, timeout := range []bool{false, true} {
			for i, nt := 0, len(doTypes(srv)); i < 2*nt; i++ {
				rtyp, hasCtx := doTypes(srv)[i%nt], i < nt
				name := "Do"
				if srv {
					name += ", server given"
				} else {
					name += ", bootstrapped " + rtyp
				}
				if timeout {
					name += ", timeout set"
				}
				if !hasCtx {
					name += ", no context set"
				}
				var reqCtx, tmo *eng.Term
				n, nl := 0, 0
				checkCtx := func(ev *eng.Event, what string, x *eng.Term) {
					b, tm := ctxBase(x)
					if hasCtx {
						c.Check(b == reqCtx, "context", ev.Fn, posOf(ev.Instr), "%s: %s is made with the request's context (%s)", name, what, short(b))
					} else {
						c.Check(isBackground(b) || b == reqCtx, "context", ev.Fn, posOf(ev.Instr), "%s: %s is made with the background context (%s)", name, what, short(b))
					}
					if timeout {
						found := false
						for _, t := range tm {
							if stripConv(t) == tmo || t.Contains(tmo) {
								found = true
							}
						}
						c.Check(found, "timeout", ev.Fn, posOf(ev.Instr), "%s: %s runs under the request's timeout", name, what)
					}
				}
				h := &eng.Hooks{MaxStates: 300, Opaque: opaqueList(kLookup, kDecode, kURL), Keep: cancelKeep(kHTTPDo, kLookup, kReadAll)}
				h.OnCall = func(st *eng.State, ev *eng.Event) {
					switch ev.Key {
					case kURL:
						c.assumeNil(st, ev.Res, false)
					case kHTTPDo:
						n++
						x, why := c.httpReqCtx(st, ev.Args[1])
						if x == nil {
							if why != "" {
								c.Bad("context", ev.Fn, posOf(ev.Instr), "%s: the HTTP request is %s", name, why)
							} else {
								c.Unknown("context", "%s: HTTP request of unknown origin: %s", name, short(ev.Args[1]))
							}
							return
						}
						checkCtx(ev, "the HTTP request", x)
					case kLookup:
						nl++
						c.assumeNil(st, c.errOf(ev.Res), true)
						c.assumeNil(st, c.resultOf(ev.Res, 0), false)
						x := c.ctxField(st, ev.Args[1])
						if x == nil {
							c.Unknown("context", "question without context field")
							return
						}
						checkCtx(ev, "the bootstrap lookup", x)
					}
				}
				outs, _, ok := c.Run("context", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
					rq := ps[1]
					tmo = c.Field(st, rq, "Timeout")
					for _, f := range []string{"HTTP", "Bootstrap", "Verbose"} {
						if t := c.Field(st, ps[0], f); t != nil {
							c.assumeNil(st, t, false)
						}
					}
					c.assumeNil(st, rq, false)
					c.assumeNil(st, c.Field(st, rq, "Server"), !srv)
					if rtyp != "" {
						c.assume(st, c.E.Eq(c.Field(st, rq, "Type"), c.E.IntC(rt[rtyp])), true)
					}
					if timeout {
						c.assume(st, c.E.Lt(c.E.IntC(0), tmo), true)
					} else {
						c.assume(st, c.E.Eq(tmo, c.E.IntC(0)), true)
					}
					reqCtx = c.ctxField(st, rq)
					if reqCtx != nil {
						c.assumeNil(st, reqCtx, !hasCtx)
					}
					return nil
				})
				if !ok {
					continue
				}
				if n == 0 || (!srv && nl == 0) {
					c.Unknown("context", "%s: no request found", name)
				}
				for _, o := range outs {
					c.timersReleased("release", name, fn, o, kHTTPDo, kReadAll, kLookup)
				}
			}
		}
	}
}

func (c *Ctx) ctxQuick() {
	for _, q := range []string{"QueryDomain", "QueryAutnum", "QueryIP"} {
		fn := c.Func(pkgRdap, "*Client."+q)
		if fn == nil {
			c.Unknown("quick", "%s not found", q)
			continue
		}
		h := &eng.Hooks{MaxStates: 200, Opaque: opaqueList(kDo), Keep: cancelKeep(kDo)}
		n := 0
		h.OnCall = func(st *eng.State, ev *eng.Event) {
			if ev.Key != kDo {
				return
			}
			n++
			x := c.ctxField(st, ev.Args[1])
			sec := int64(-1)
			if x != nil {
				_, tm := ctxBase(x)
				for _, t := range tm {
					if k, ok := t.Int(); ok {
						sec = k
					}
				}
			}
			if t := c.FieldOf(st, ev.Args[1], "Timeout"); t != nil && sec < 0 {
				if k, ok := t.Int(); ok && k > 0 {
					sec = k
				}
			}
			c.Check(sec == 30e9, "quick", ev.Fn, posOf(ev.Instr), "%s runs under a 30 second timeout (%d ns)", q, sec)
		}
		outs, _, ok := c.Run("quick", fn, h, nil)
		if !ok {
			continue
		}
		if n == 0 {
			c.Unknown("quick", "%s: no request found", q)
		}
		for _, o := range outs {
			c.timersReleased("release", q, fn, o, kDo)
		}
	}
}

// bootSetup makes the usual bootstrap client.
func (c *Ctx) bootSetup(st *eng.State, cl *eng.Term) {
	for _, f := range []string{"HTTP", "Cache", "BaseURL", "Verbose", "registries"} {
		if t := c.Field(st, cl, f); t != nil {
			c.assumeNil(st, t, false)
		}
	}
}

var regParsers = []string{
	"github.com/openrdap/rdap/bootstrap.NewASNRegistry",
	"github.com/openrdap/rdap/bootstrap.NewDNSRegistry",
	"github.com/openrdap/rdap/bootstrap.NewNetRegistry",
	"github.com/openrdap/rdap/bootstrap.NewServiceProviderRegistry",
}

func (c *Ctx) ctxBoot() {
	rts := c.ConstsOf(pkgBoot, "RegistryType")
	for _, name := range []string{"*Client.Lookup", "*Client.DownloadWithContext", "*Client.Download"} {
		fn := c.Func(pkgBoot, name)
		if fn == nil {
			c.Unknown("bootstrap", "%s not found", name)
			continue
		}
		for _, hasCtx := range []bool{true, false} {
			if !hasCtx && name != "*Client.Lookup" {
				continue
			}
			var want *eng.Term
			n := 0
			h := &eng.Hooks{MaxStates: 300, Opaque: opaqueList(regParsers...), Keep: cancelKeep(kHTTPDo, kReadAll)}
			h.OnCall = func(st *eng.State, ev *eng.Event) {
				if ev.Key != kHTTPDo {
					return
				}
				n++
				x, why := c.httpReqCtx(st, ev.Args[1])
				if x == nil {
					if why != "" {
						c.Bad("bootstrap", ev.Fn, posOf(ev.Instr), "the download request is %s", why)
					} else {
						c.Unknown("bootstrap", "HTTP request of unknown origin: %s", short(ev.Args[1]))
					}
					return
				}
				b, _ := ctxBase(x)
				if want == nil {
					c.Ok("bootstrap", "%s has no context to pass on", name)
				} else if !hasCtx {
					c.Check(isBackground(b) || b == want, "bootstrap", ev.Fn, posOf(ev.Instr), "%s: the download has a context (%s)", name, short(b))
				} else {
					c.Check(b == want, "bootstrap", ev.Fn, posOf(ev.Instr), "%s: the download is made with the caller's context (%s)", name, short(b))
				}
			}
			outs, _, ok := c.Run("bootstrap", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
				c.bootSetup(st, ps[0])
				switch name {
				case "*Client.Lookup":
					c.assumeNil(st, ps[1], false)
					want = c.ctxField(st, ps[1])
					if want != nil {
						c.assumeNil(st, want, !hasCtx)
					}
					if t := c.Field(st, ps[1], "RegistryType"); t != nil {
						c.assume(st, c.E.Eq(t, c.E.IntC(rts["DNS"])), true)
					}
				case "*Client.DownloadWithContext":
					want = ps[1]
					c.assumeNil(st, want, false)
				}
				return nil
			})
			if !ok {
				continue
			}
			if n == 0 {
				c.Unknown("bootstrap", "%s makes no HTTP request", name)
			}
			for _, o := range outs {
				c.timersReleased("release", name, fn, o, kHTTPDo, kReadAll)
			}
		}
	}
}

// ctxScan: no library function makes HTTP requests without a context.
func (c *Ctx) ctxScan() {
	bad := map[string]bool{"net/http.Get": true, "net/http.Head": true, "net/http.Post": true, "net/http.PostForm": true,
		"(*net/http.Client).Get": true, "(*net/http.Client).Head": true, "(*net/http.Client).Post": true, "(*net/http.Client).PostForm": true}
	n := 0
	for _, p := range c.SSA {
		if p == nil || strings.Contains(p.Pkg.Path(), "/test") {
			continue
		}
		for _, fn := range eng.FuncsOf(p) {
			n++
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if sc := ci.Common().StaticCallee(); sc != nil && bad[sc.String()] {
						c.Bad("scan", fn, in.Pos(), "%s makes an HTTP request without the caller's context", sc)
					}
				}
			}
		}
	}
	c.Ok("scan", "%d functions call no context-free HTTP function", n)
}

// ---- C06 ----

func runC06(c *Ctx) {
	if fn := c.Func(pkgRdap, "*Client.Do"); fn != nil {
		for _, ua := range []bool{true, false} {
			c.exchange(fn, "Do", true, ua, func(st *eng.State, ps []*eng.Term) {
				c.doSetup(true, -1)(st, ps)
				if t := c.Field(st, ps[0], "UserAgent"); t != nil {
					c.assume(st, c.E.Eq(t, c.E.StrC("")), !ua)
				}
			})
		}
	} else {
		c.Unknown("do", "(*Client).Do not found")
	}
	rts := c.ConstsOf(pkgBoot, "RegistryType")
	if fn := c.Func(pkgBoot, "*Client.Lookup"); fn != nil {
		c.exchange(fn, "Lookup", false, false, func(st *eng.State, ps []*eng.Term) {
			c.bootSetup(st, ps[0])
			c.assumeNil(st, ps[1], false)
			if t := c.Field(st, ps[1], "RegistryType"); t != nil {
				c.assume(st, c.E.Eq(t, c.E.IntC(rts["DNS"])), true)
			}
		})
	}
	if fn := c.Func(pkgBoot, "*Client.Download"); fn != nil {
		for _, r := range sortedKeys(rts) {
			c.exchange(fn, "Download "+r, false, false, func(st *eng.State, ps []*eng.Term) {
				c.bootSetup(st, ps[0])
				c.assume(st, c.E.Eq(ps[1], c.E.IntC(rts[r])), true)
			})
		}
	}
}

func (c *Ctx) exchange(fn *ssa.Function, name string, rdap, ua bool, setup func(st *eng.State, ps []*eng.Term)) {
	e := c.E
	keys := []string{kHTTPDo, kReadAll, kClose, "(io.Closer).Close", "(net/http.Header).Add", "(net/http.Header).Set", "(net/http.Header).Del", "io.Copy", "(*bytes.Buffer).ReadFrom", "io.ReadFull", "(io.Reader).Read", "(io.ReadCloser).Read", "io.LimitReader", "net/http.MaxBytesReader", "io.CopyN"}
	h := &eng.Hooks{MaxStates: 400, Opaque: opaqueList(append([]string{kLookup, kDecode, kURL}, regParsers...)...), Keep: evKeep(keys...)}
	if !rdap {
		h.Opaque = opaqueList(append([]string{kDecode, kURL}, regParsers...)...)
	}
	var cl *eng.Term
	n := 0
	mapped := false
	h.OnStore = func(st *eng.State, kind string, addr, key, val *eng.Term, fr *eng.Frame, in ssa.Instruction) {
		if _, direct := in.(*ssa.MapUpdate); direct && strings.HasPrefix(kind, "map") && addr.T != nil && strings.HasSuffix(addr.T.String(), "http.Header") {
			mapped = true
		}
	}
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		switch ev.Key {
		case kURL:
			c.assumeNil(st, ev.Res, false)
		case kNewReq:
			c.assumeNil(st, c.errOf(ev.Res), true)
		case kHTTPDo:
			c.assumeNil(st, c.errOf(ev.Res), true)
			r := c.resultOf(ev.Res, 0)
			c.assumeNil(st, r, false)
			c.assumeNil(st, c.Field(st, r, "Body"), false)
			n++
			if !rdap {
				return
			}
			rq := Unwrap(ev.Args[1])
			if rq.Op != eng.OExtract || rq.Args[0].S != kNewReq {
				c.Unknown("request", "HTTP request of unknown origin: %s", short(rq))
				return
			}
			nr := rq.Args[0]
			m, isc := nr.Args[1].Str()
			c.Check(isc && (m == "GET" || m == ""), "request", ev.Fn, posOf(ev.Instr), "%s: the request is a GET request (%s)", name, short(nr.Args[1]))
			u := nr.Args[2]
			ok := isCall(u, "(*net/url.URL).String") && isCall(u.Args[0], kURL)
			if !ok {
				// the text of the request's URL in another way
				u.Walk(func(t *eng.Term) bool {
					if isCall(t, kURL) {
						ok = true
					}
					return !ok
				})
				if ok {
					c.Unknown("request", "%s: unknown conversion of the URL: %s", name, short(u))
				} else {
					c.Bad("request", ev.Fn, posOf(ev.Instr), "%s: the URL requested is not the request's: %s", name, short(u))
				}
			} else {
				c.Ok("request", "%s: the request is for the request's URL", name)
			}
			c.assumeNil(st, nr.Args[3], false)
		}
	}
	outs, _, ok := c.Run("exchange", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		cl = ps[0]
		setup(st, ps)
		return nil
	})
	if !ok {
		return
	}
	if n == 0 {
		c.Unknown("exchange", "%s makes no HTTP request", name)
		return
	}
	check := func(evs []*eng.Event, pos token.Pos) {
		for i, ev := range evs {
			if ev.Key != kHTTPDo {
				continue
			}
			body := c.Field(ev.St, c.resultOf(ev.Res, 0), "Body")
			closed := -1
			for j := i + 1; j < len(evs); j++ {
				x := evs[j]
				if strings.HasSuffix(x.Key, ".Close") && Unwrap(x.Args[0]) == body {
					if closed < 0 {
						closed = j
					}
					continue
				}
				for _, a := range x.Args {
					if a != nil && a.Contains(body) && closed >= 0 && !strings.HasSuffix(x.Key, ".Close") {
						c.Bad("close", x.Fn, posOf(x.Instr), "%s: the body is read after it was closed", name)
					}
				}
			}
			if closed < 0 {
				// closing handed on?
				c.Bad("close", fn, pos, "%s: a path leaves the response body of %s open", name, c.Pos(posOf(ev.Instr)))
			} else {
				c.Ok("close", "%s: response body closed", name)
			}
			for _, x := range evs[i+1:] {
				switch x.Key {
				case "io.LimitReader", "net/http.MaxBytesReader", "io.CopyN":
				default:
					continue
				}
				for _, a := range x.Args {
					if a != nil && a.Contains(body) {
						c.Bad("whole", x.Fn, posOf(x.Instr), "%s: only a part of the response body is read", name)
					}
				}
			}
			if !rdap {
				continue
			}
			rq := Unwrap(ev.Args[1])
			hdr := c.Field(ev.St, rq, "Header")
			accept, agent := false, false
			uat := c.Field(ev.St, cl, "UserAgent")
			for _, x := range evs[:i] {
				if !strings.HasPrefix(x.Key, "(net/http.Header)") || x.Args[0] != hdr && !sameHeader(x.Args[0], hdr) {
					continue
				}
				k, ok := x.Args[1].Str()
				if !ok {
					mapped = true
					continue
				}
				switch strings.ToLower(k) {
				case "accept":
					v, ok := "", false
					if len(x.Args) > 2 {
						v, ok = x.Args[2].Str()
					}
					if strings.HasSuffix(x.Key, ".Add") {
						accept = accept || ok && asksRDAP(v)
					} else {
						accept = ok && asksRDAP(v)
					}
				case "user-agent":
					if strings.HasSuffix(x.Key, ".Add") || strings.HasSuffix(x.Key, ".Set") {
						agent = x.Args[2] == uat
					} else {
						agent = false
					}
				}
			}
			if mapped {
				c.Unknown("headers", "headers written directly")
				continue
			}
			c.Check(accept, "headers", fn, posOf(ev.Instr), "%s: the request asks for application/rdap+json", name)
			if ua {
				c.Check(agent, "headers", fn, posOf(ev.Instr), "%s: the request carries the configured user agent", name)
			}
		}
	}
	for _, o := range outs {
		if !o.Panic && o.St.Trace != nil {
			check(o.St.Trace.Events(), posOf(o.In))
		}
	}
	for _, li := range e.LoopList {
		for _, b := range li.Back {
			check(b.Seg, posOf(firstPos(b.From)))
		}
	}
}

func sameHeader(a, b *eng.Term) bool {
	return a.Op == b.Op && a.Op == eng.OLoad && a.Args[0] == b.Args[0]
}

func shortList(ts []*eng.Term) string {
	var r []string
	for _, t := range ts {
		r = append(r, short(t))
	}
	return strings.Join(r, ", ")
}

// asksRDAP: the Accept header admits RDAP answers.
func asksRDAP(v string) bool {
	for _, r := range strings.Split(v, ",") {
		ps := strings.Split(r, ";")
		if !strings.EqualFold(strings.TrimSpace(ps[0]), "application/rdap+json") {
			continue
		}
		zero := false
		for _, p := range ps[1:] {
			if k, q, ok := strings.Cut(strings.TrimSpace(p), "="); ok && strings.EqualFold(k, "q") && strings.Trim(q, "0.") == "" {
				zero = true
			}
		}
		if !zero {
			return true
		}
	}
	return false
}

// narrows: a constant is converted to an integer type that does not hold it.
func narrows(t *eng.Term) string {
	r := ""
	t.Walk(func(x *eng.Term) bool {
		if x.Op == eng.OConv && x.Args[0].IsConst() && x.T != nil {
			b, ok := x.T.Underlying().(*types.Basic)
			n, isc := x.Args[0].Int()
			if ok && isc && b.Info()&types.IsInteger != 0 {
				switch b.Kind() {
				case types.Int8, types.Uint8, types.Int16, types.Uint16, types.Int32, types.Uint32:
					bits := map[types.BasicKind]int64{types.Int8: 7, types.Uint8: 8, types.Int16: 15, types.Uint16: 16, types.Int32: 31, types.Uint32: 32}[b.Kind()]
					if n < 0 || n >= 1<<bits {
						r = b.Name()
					}
				}
			}
		}
		return true
	})
	return r
}
