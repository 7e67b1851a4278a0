package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C03", Run: runC03, Floor: 40,
		Method:      "Abstract interpretation of (*Client).Do under scenarios which fix how a server behaves (transport error, read error, each status class with and without body, decode error, deadline passed) and what bootstrapping gives; for every path the returned error class, the recorded exchanges, the returned object, the loop back edges (next server tried) and loop exits (list exhausted) are compared with the documented outcome. Candidate order is decided on the loop-carried request list and its induction variables.",
		Assumptions: []string{"(*Decoder).Decode, (*Request).URL and (*bootstrap.Client).Lookup are covered by C15, C01 and C07-C11", "net/http: a nil error comes with a response with a body"}})
}

const (
	kHTTPDo  = "(*net/http.Client).Do"
	kReadAll = "io.ReadAll"
	kLookup  = "(*github.com/openrdap/rdap/bootstrap.Client).Lookup"
	kDecode  = "(*github.com/openrdap/rdap.Decoder).Decode"
	kURL     = "(*github.com/openrdap/rdap.Request).URL"
	kClose   = "(io.ReadCloser).Close"
	kCtxErr  = "(context.Context).Err"
	kNewReq  = "net/http.NewRequestWithContext"
)

func isFunc(fn *ssa.Function, names ...string) bool {
	s := fn.String()
	for _, n := range names {
		if s == n {
			return true
		}
	}
	return false
}

func opaqueList(names ...string) func(*ssa.Function) bool {
	return func(fn *ssa.Function) bool { return isFunc(fn, names...) }
}

// extGlobal is the address of a variable of another package.
func (c *Ctx) extGlobal(pkg, name string) *eng.Term {
	for _, p := range c.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				return c.E.GlobalT(g)
			}
		}
	}
	return nil
}

func (c *Ctx) extGlobalVal(pkg, name string) *eng.Term {
	g := c.extGlobal(pkg, name)
	if g == nil {
		return nil
	}
	return c.E.LoadTerm(g, g.T.(*types.Pointer).Elem())
}

func dbgOut(c *Ctx, outs []*eng.Outcome) {
	for i, o := range outs {
		if o.Panic {
			continue
		}
		fmt.Printf("-- %d", i)
		for _, r := range o.Rets {
			fmt.Printf(" | %.150s", c.E.Describe(o.St, r))
		}
		fmt.Println()
		if o.St.Trace != nil {
			for _, ev := range o.St.Trace.Events() {
				var as []string
				for _, a := range ev.Args {
					as = append(as, fmt.Sprintf("%.100s", a.String()))
				}
				fmt.Println("    ", ev.Kind, ev.Key, strings.Join(as, " ; "))
			}
		}
	}
}

// clientErr returns the type constant of a *ClientError value.
func (c *Ctx) clientErr(st *eng.State, e *eng.Term) (int64, bool) {
	x := Unwrap(e)
	if x == nil || x.T == nil {
		return 0, false
	}
	t := x.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Name() != "ClientError" {
		return 0, false
	}
	f := c.FieldOf(st, x, "Type")
	if f == nil {
		return 0, false
	}
	return f.Int()
}

type doScn struct {
	name     string
	srv      bool
	typ      int64 // request type, -1: any
	tErr     bool  // transport error
	ownTO    bool  // ... which is a timeout, the deadline not having passed
	readErr  bool
	status   [2]int64
	body     int // 0 empty, 1 not empty
	decErr   bool
	deadline bool
	noURL    bool
	want     string // ok, 404, none, deadline
	mixed    bool   // servers before may have given no answer at all
}

func evKeep(keys ...string) func(*eng.Event) bool {
	return func(ev *eng.Event) bool {
		for _, k := range keys {
			if ev.Key == k {
				return true
			}
		}
		return false
	}
}

func hasEvent(tr *eng.Trace, key string) *eng.Event {
	for t := tr; t != nil; t = t.Prev {
		if t.Ev.Key == key {
			return t.Ev
		}
	}
	return nil
}

func segHas(seg []*eng.Event, key string) *eng.Event {
	for _, ev := range seg {
		if ev.Key == key {
			return ev
		}
	}
	return nil
}

// ordered: idx runs 0,1,2,... over the elements of a sequence.
func (c *Ctx) ordered(idx *eng.Term) (bool, string) {
	b, k := eng.Lin(idx)
	if b == nil {
		return true, ""
	}
	if b.Op != eng.OSym {
		return false, "index " + short(idx)
	}
	for _, o := range c.E.Origins[b] {
		ob, n := eng.Lin(o.Val)
		if o.Init {
			if ob != nil || n+k != 0 {
				return false, "starts at " + short(o.Val)
			}
			continue
		}
		if ob != b || n != 1 {
			return false, "steps to " + short(o.Val)
		}
	}
	return true, ""
}

func (c *Ctx) doSetup(srv bool, typ int64) func(st *eng.State, ps []*eng.Term) []*eng.Term {
	return func(st *eng.State, ps []*eng.Term) []*eng.Term {
		cl, rq := ps[0], ps[1]
		for _, f := range []string{"HTTP", "Bootstrap", "Verbose"} {
			if t := c.Field(st, cl, f); t != nil {
				c.assumeNil(st, t, false)
			}
		}
		c.assumeNil(st, rq, false)
		c.assume(st, c.E.Eq(c.Field(st, rq, "Timeout"), c.E.IntC(0)), true)
		if t := c.Field(st, rq, "ctx"); t != nil {
			c.assumeNil(st, t, false)
		}
		c.assumeNil(st, c.Field(st, rq, "Server"), !srv)
		if typ >= 0 {
			c.assume(st, c.E.Eq(c.Field(st, rq, "Type"), c.E.IntC(typ)), true)
		}
		return nil
	}
}

// doTypes: the request types told apart when running a request. With a server
// every type is treated alike ("" stands for an arbitrary one).
func doTypes(srv bool) []string {
	if srv {
		return []string{""}
	}
	return []string{"DomainRequest", "AutnumRequest", "EntityRequest", "IPRequest"}
}

func runC03(c *Ctx) {
	fn := c.Func(pkgRdap, "*Client.Do")
	if fn == nil {
		c.Unknown("do", "(*Client).Do not found")
		return
	}
	types := c.ConstsOf(pkgRdap, "RequestType")
	errs := c.ConstsOf(pkgRdap, "ClientErrorType")
	base := []doScn{
		{name: "URL cannot be made", noURL: true, want: "none"},
		{name: "transport error", tErr: true, want: "none"},
		{name: "transport error (timeout of the HTTP client)", tErr: true, ownTO: true, want: "none"},
		{name: "transport error, deadline passed", tErr: true, deadline: true, want: "deadline"},
		{name: "read error", readErr: true, status: [2]int64{200, 299}, body: 1, want: "none"},
		{name: "read error, deadline passed", readErr: true, status: [2]int64{200, 299}, body: 1, deadline: true, want: "deadline"},
		{name: "status below 200", status: [2]int64{100, 199}, body: 1, want: "none"},
		{name: "status 200", status: [2]int64{200, 200}, body: 1, want: "ok"},
		{name: "status 2xx", status: [2]int64{201, 299}, body: 1, want: "ok"},
		{name: "status 2xx, empty body", status: [2]int64{200, 299}, body: 0, want: "none"},
		{name: "status 2xx, undecodable body", status: [2]int64{200, 299}, body: 1, decErr: true, want: "none"},
		{name: "status 3xx", status: [2]int64{300, 399}, body: 1, want: "none"},
		{name: "status 400-403", status: [2]int64{400, 403}, body: 1, want: "none"},
		{name: "status 404", status: [2]int64{404, 404}, body: 1, want: "404"},
		{name: "status 404, empty body", status: [2]int64{404, 404}, body: 0, want: "404"},
		{name: "status 405-499", status: [2]int64{405, 499}, body: 1, want: "none"},
		{name: "status 5xx", status: [2]int64{500, 599}, body: 1, want: "none"},
	}
	for _, s := range base {
		if s.want == "ok" || s.want == "404" {
			s.name += " after servers which do not answer"
			s.mixed = true
			base = append(base, s)
		}
	}
	for _, srv := range []bool{true, false} {
		for _, s := range base {
			if s.mixed && srv {
				continue
			}
			s.srv = srv
			name := s.name
			for _, t := range doTypes(srv) {
				s.typ = -1
				s.name = name + ", server given"
				if !srv {
					s.typ = types[t]
					s.name = name + ", bootstrapped " + t
				}
				c.doScenario(fn, s, types, errs)
			}
		}
	}
	c.doBoot(fn, types, errs)
	c.doMixed(fn, types)
}

func (c *Ctx) doHooks(s *doScn) *eng.Hooks {
	e := c.E
	h := &eng.Hooks{MaxStates: 400}
	h.Opaque = opaqueList(kLookup, kDecode, kURL)
	h.Keep = evKeep(kHTTPDo, kDecode, kLookup, kReadAll, kNewReq)
	dl := c.extGlobalVal("context", "DeadlineExceeded")
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		switch ev.Key {
		case kURL:
			c.assumeNil(st, ev.Res, s.noURL)
		case kNewReq:
			c.assumeNil(st, c.errOf(ev.Res), true)
		case kLookup:
			c.assumeNil(st, c.errOf(ev.Res), true)
			a := c.resultOf(ev.Res, 0)
			c.assumeNil(st, a, false)
			c.assume(st, e.Eq(e.Len(c.Field(st, a, "URLs")), e.IntC(0)), false)
		case kHTTPDo:
			if !s.mixed {
				c.assumeNil(st, c.errOf(ev.Res), !s.tErr)
			}
			if !s.tErr {
				r := c.resultOf(ev.Res, 0)
				if !s.mixed {
					c.assumeNil(st, r, false)
				}
				sc := c.Field(st, r, "StatusCode")
				c.assume(st, e.Lt(sc, e.IntC(s.status[0])), false)
				c.assume(st, e.Lt(e.IntC(s.status[1]), sc), false)
			}
		case kReadAll:
			c.assumeNil(st, c.errOf(ev.Res), !s.readErr)
			n := e.Len(c.resultOf(ev.Res, 0))
			if s.body == 0 {
				c.assume(st, e.Eq(n, e.IntC(0)), true)
			} else {
				c.assume(st, e.Eq(n, e.IntC(0)), false)
			}
		case kDecode:
			c.assumeNil(st, c.errOf(ev.Res), !s.decErr)
		case kCtxErr:
			if s.deadline && dl != nil {
				c.assumeNil(st, ev.Res, false)
				c.assume(st, e.Eq(ev.Res, dl), true)
			} else {
				c.assumeNil(st, ev.Res, true)
				if dl != nil {
					c.assume(st, e.Eq(ev.Res, dl), false)
				}
			}
		case "errors.Is":
			if len(ev.Args) == 2 && ev.Args[1] == dl && ev.Res.Op == eng.OCall {
				own := s.ownTO && !strings.Contains(ev.Args[0].String(), kCtxErr)
				c.assume(st, ev.Res, s.deadline || own)
			}
		}
	}
	return h
}

func (c *Ctx) doScenario(fn *ssa.Function, s doScn, rtypes, errs map[string]int64) {
	outs, _, ok := c.Run("outcome", fn, c.doHooks(&s), c.doSetup(s.srv, s.typ))
	if !ok {
		return
	}
	attempted := kHTTPDo
	if s.noURL {
		attempted = ""
	}
	// loops that try servers
	for _, li := range c.E.LoopList {
		for _, b := range li.Back {
			if s.mixed {
				if ev := segHas(b.Seg, attempted); ev != nil && !b.St.Dead && c.IsNil(b.St, c.errOf(ev.Res)) == 1 {
					c.Bad("stop", fn, posOf(firstPos(b.From)), "%s: another server is tried although this one settled the query", s.name)
				}
				continue
			}
			if attempted != "" && segHas(b.Seg, attempted) != nil && s.want != "none" {
				c.Bad("stop", fn, posOf(li.Header.Instrs[0]), "%s: another server is tried although this one settled the query", s.name)
			}
			if attempted != "" && segHas(b.Seg, attempted) == nil && c.triesServers(li, attempted) {
				c.Bad("skip", fn, posOf(firstPos(b.From)), "%s: a candidate server is skipped", s.name)
			}
		}
		if s.want == "none" && attempted != "" && c.triesServers(li, attempted) {
			for _, x := range li.Exits {
				c.Check(c.exhausted(x, li) != -1, "next", fn, posOf(firstPos(x.From)), "%s: the next server is tried until none is left", s.name)
			}
		}
	}
	n := 0
	for _, o := range outs {
		if o.Panic {
			continue
		}
		tried := attempted != "" && hasEvent(o.St.Trace, attempted) != nil
		if s.mixed {
			if tried && c.IsNil(o.St, c.errOf(hasEvent(o.St.Trace, attempted).Res)) != 1 {
				continue // no answer
			}
		}
		if (s.want == "ok" || s.want == "404" || s.want == "deadline") && !tried {
			continue // no server in the list: not this scenario
		}
		n++
		pos := posOf(o.In)
		er := o.Rets[1]
		ct, isCE := c.clientErr(o.St, er)
		switch s.want {
		case "none":
			c.Check(isCE && ct == errs["NoWorkingServers"], "outcome", fn, pos, "%s: the no-working-servers error is returned (got %s)", s.name, errName(c, o.St, er, errs))
			continue
		case "404":
			c.Check(isCE && ct == errs["ObjectDoesNotExist"], "outcome", fn, pos, "%s: the object-does-not-exist error is returned (got %s)", s.name, errName(c, o.St, er, errs))
		case "deadline":
			c.Check(c.IsNil(o.St, er) == -1 && !(isCE && ct == errs["NoWorkingServers"]), "outcome", fn, pos, "%s: the request ends with an error (got %s)", s.name, errName(c, o.St, er, errs))
		case "ok":
			if !c.Check(c.IsNil(o.St, er) == 1, "outcome", fn, pos, "%s: success (got %s)", s.name, errName(c, o.St, er, errs)) {
				continue
			}
		}
		if c.IsNil(o.St, o.Rets[0]) == 1 {
			c.Bad("recorded", fn, pos, "%s: no response is returned", s.name)
			continue
		}
		c.lastExchange(fn, s.name, o, s.want == "ok")
	}
	if n == 0 {
		c.Bad("outcome", fn, 0, "%s: no path leads to an outcome", s.name)
	}
}

func firstPos(b *ssa.BasicBlock) ssa.Instruction {
	if b == nil || len(b.Instrs) == 0 {
		return nil
	}
	return b.Instrs[0]
}

func errName(c *Ctx, st *eng.State, er *eng.Term, errs map[string]int64) string {
	if c.IsNil(st, er) == 1 {
		return "success"
	}
	if n, ok := c.clientErr(st, er); ok {
		return constName(errs, n)
	}
	return "an error"
}

func (c *Ctx) triesServers(li *eng.LoopInfo, key string) bool {
	for _, b := range li.Back {
		if segHas(b.Seg, key) != nil {
			return true
		}
	}
	for _, x := range li.Exits {
		if hasEvent(x.St.Trace, key) != nil && hasEvent(li.Entry.Trace, key) == nil {
			return true
		}
	}
	return false
}

// exhausted: the loop exit is the end of its sequence (1), another one (-1),
// or unknown (0).
func (c *Ctx) exhausted(x *eng.LoopExit, li *eng.LoopInfo) int {
	if x.Return {
		return -1
	}
	if x.From == nil || len(x.From.Instrs) == 0 {
		return 0
	}
	iff, ok := x.From.Instrs[len(x.From.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		switch x := iff.Cond.(type) {
		case *ssa.Extract:
			if _, ok := x.Tuple.(*ssa.Next); ok {
				return 1 // range over map or string
			}
		case *ssa.Phi:
			return 0
		}
		return -1
	}
	seen := map[ssa.Value]bool{}
	var idx func(v ssa.Value) bool
	idx = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			if v.Block() == li.Header {
				return true
			}
			for _, x := range v.Edges {
				if idx(x) {
					return true
				}
			}
		case *ssa.BinOp:
			return idx(v.X) || idx(v.Y)
		case *ssa.UnOp:
			if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
				// a counter in memory (captured by a closure)
				_, basic := al.Type().(*types.Pointer).Elem().Underlying().(*types.Basic)
				return basic
			}
			return idx(v.X)
		case *ssa.Convert:
			return idx(v.X)
		case *ssa.Slice:
			return idx(v.X)
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				return idx(v.Call.Args[0])
			}
		}
		return false
	}
	if idx(bo.X) || idx(bo.Y) {
		return 1
	}
	return -1
}

// lastExchange checks the recorded exchanges of an outcome that ended at a
// server.
func (c *Ctx) lastExchange(fn *ssa.Function, name string, o *eng.Outcome, success bool) {
	e := c.E
	resp := o.Rets[0]
	pos := posOf(o.In)
	ht := c.Field(o.St, resp, "HTTP")
	if ht.Op == eng.OJoin {
		c.Unknown("recorded", "%s: several lists", name)
		return
	}
	var last *eng.Term
	switch {
	case ht.Op == eng.OAppend && len(ht.Args) >= 2:
		last = ht.Args[len(ht.Args)-1]
	default:
		if el := e.Elems(o.St, ht); len(el) > 0 {
			last = el[len(el)-1]
		}
	}
	if last == nil {
		c.Bad("recorded", fn, pos, "%s: the exchange is not recorded (exchanges are %s)", name, short(ht))
		return
	}
	do := hasEvent(o.St.Trace, kHTTPDo)
	ra := hasEvent(o.St.Trace, kReadAll)
	body, hr := c.Field(o.St, last, "Body"), c.Field(o.St, last, "Response")
	if do != nil && hr != c.resultOf(do.Res, 0) {
		c.Bad("recorded", fn, pos, "%s: the recorded response is not the one received: %s", name, short(hr))
		return
	}
	if ra != nil && body != c.resultOf(ra.Res, 0) {
		c.Bad("recorded", fn, pos, "%s: the recorded body is not the one received: %s", name, short(body))
		return
	}
	if nr := hasEvent(o.St.Trace, kNewReq); nr != nil {
		if u := c.Field(o.St, last, "URL"); u != nr.Args[2] {
			c.Bad("recorded", fn, pos, "%s: the recorded URL is not the one requested: %s", name, short(u))
			return
		}
	}
	c.Ok("recorded", "%s: exchange recorded last with its URL, response and body", name)
	if !success {
		return
	}
	de := hasEvent(o.St.Trace, kDecode)
	if de == nil {
		c.Bad("object", fn, pos, "%s: success without decoding", name)
		return
	}
	obj := c.Field(o.St, resp, "Object")
	c.Check(obj == c.resultOf(de.Res, 0), "object", fn, pos, "%s: the object returned is the decoded one", name)
	data := c.FieldOf(de.St, de.Args[0], "data")
	if data == nil {
		c.Unknown("object", "decoder input not found")
		return
	}
	c.Check(ra != nil && stripConv(data) == c.resultOf(ra.Res, 0), "object", fn, pos, "%s: the decoded bytes are the body of the last exchange", name)
	c.Check(c.IsNil(o.St, c.Field(o.St, last, "Error")) != -1, "object", fn, pos, "%s: the last exchange carries no error", name)
}

func (c *Ctx) doBoot(fn *ssa.Function, rtypes, errs map[string]int64) {
	boot := map[string]bool{"DomainRequest": true, "AutnumRequest": true, "EntityRequest": true, "IPRequest": true}
	mk := func(assume func(st *eng.State, ev *eng.Event)) *eng.Hooks {
		h := &eng.Hooks{MaxStates: 400, OnCall: assume}
		h.Opaque = opaqueList(kLookup, kDecode, kURL)
		h.Keep = evKeep(kHTTPDo, kLookup)
		return h
	}
	for _, name := range sortedKeys(rtypes) {
		k := rtypes[name]
		if !boot[name] {
			if _, ok := urlTable[name]; !ok && name != "RawRequest" {
				continue
			}
			outs, _, ok := c.Run("boot", fn, mk(nil), c.doSetup(false, k))
			if !ok {
				continue
			}
			for _, o := range outs {
				if o.Panic {
					continue
				}
				ct, isCE := c.clientErr(o.St, o.Rets[1])
				c.Check(isCE && ct == errs["BootstrapNotSupported"] && hasEvent(o.St.Trace, kHTTPDo) == nil && hasEvent(o.St.Trace, kLookup) == nil, "boot", fn, posOf(o.In), "%s without server: bootstrap-not-supported error and nothing is contacted (got %s)", name, errName(c, o.St, o.Rets[1], errs))
			}
			continue
		}
		for _, mode := range []string{"error", "empty"} {
			var look *eng.Event
			outs, _, ok := c.Run("boot", fn, mk(func(st *eng.State, ev *eng.Event) {
				if ev.Key != kLookup {
					return
				}
				look = ev
				c.assumeNil(st, c.errOf(ev.Res), mode == "empty")
				if mode == "empty" {
					a := c.resultOf(ev.Res, 0)
					c.assumeNil(st, a, false)
					c.assume(st, c.E.Eq(c.E.Len(c.Field(st, a, "URLs")), c.E.IntC(0)), true)
				}
			}), c.doSetup(false, k))
			if !ok {
				continue
			}
			if look == nil {
				c.Bad("boot", fn, 0, "%s without server is not bootstrapped", name)
				continue
			}
			for _, o := range outs {
				if o.Panic {
					continue
				}
				pos := posOf(o.In)
				if hasEvent(o.St.Trace, kHTTPDo) != nil {
					c.Bad("boot", fn, pos, "%s: a server is contacted although bootstrapping gave none (%s)", name, mode)
					continue
				}
				lk := hasEvent(o.St.Trace, kLookup)
				if lk == nil {
					c.Bad("boot", fn, pos, "%s without server is not bootstrapped", name)
					continue
				}
				ct, isCE := c.clientErr(o.St, o.Rets[1])
				if mode == "empty" {
					c.Check(isCE && ct == errs["BootstrapNoMatch"], "boot", fn, pos, "%s: empty bootstrap answer gives the no-match error (got %s)", name, errName(c, o.St, o.Rets[1], errs))
				} else {
					c.Check(o.Rets[1].Contains(c.errOf(lk.Res)), "boot", fn, pos, "%s: a lookup error is returned (got %s)", name, errName(c, o.St, o.Rets[1], errs))
				}
				if c.IsNil(o.St, o.Rets[0]) != 1 && mode == "empty" {
					c.Check(c.Field(o.St, o.Rets[0], "BootstrapAnswer") == c.resultOf(lk.Res, 0), "boot", fn, pos, "%s: the bootstrap answer is part of the response", name)
				}
			}
		}
	}
	// nil request
	outs, _, ok := c.Run("boot", fn, mk(nil), func(st *eng.State, ps []*eng.Term) []*eng.Term {
		c.assumeNil(st, ps[1], true)
		return nil
	})
	if ok {
		for _, o := range outs {
			if !o.Panic {
				ct, isCE := c.clientErr(o.St, o.Rets[1])
				c.Check(isCE && ct == errs["InputError"], "boot", fn, posOf(o.In), "nil request: input error")
			}
		}
	}
}

// doMixed checks order, request identity and the recording of failed
// exchanges with unconstrained servers.
func (c *Ctx) doMixed(fn *ssa.Function, rtypes map[string]int64) {
	e := c.E
	type variant struct {
		srv bool
		typ int64
	}
	vs := []variant{{true, -1}}
	for _, t := range doTypes(false) {
		vs = append(vs, variant{false, rtypes[t]})
	}
	for _, v := range vs {
		srv, typ := v.srv, v.typ
		h := &eng.Hooks{MaxStates: 400}
		h.Opaque = opaqueList(kLookup, kDecode, kURL)
		h.Keep = evKeep(kHTTPDo, kURL, kDecode, kReadAll, kNewReq)
		n := 0
		h.OnCall = func(st *eng.State, ev *eng.Event) {
			if ev.Key == kLookup {
				c.assumeNil(st, c.errOf(ev.Res), true)
				c.assumeNil(st, c.resultOf(ev.Res, 0), false)
			}
			if strings.HasPrefix(ev.Key, "slices.Reverse") || strings.HasPrefix(ev.Key, "slices.Sort") || strings.HasPrefix(ev.Key, "sort.") {
				for _, a := range ev.Raw {
					if a = Unwrap(a); a != nil && a.T != nil && (strings.HasSuffix(a.T.String(), "[]*net/url.URL") || strings.HasSuffix(a.T.String(), "[]*"+pkgRdap+".Request")) {
						c.Bad("candidates", ev.Fn, posOf(ev.Instr), "the order of the candidates is changed by %s", ev.Key)
					}
				}
			}
			if ev.Key == kURL {
				c.assumeNil(st, ev.Res, false)
			}
			if ev.Key != kNewReq && ev.Key != "net/http.NewRequest" {
				return
			}
			n++
			// which request is this the URL of?
			u := ev.Args[len(ev.Args)-2]
			var rq *eng.Term
			u.Walk(func(t *eng.Term) bool {
				if t.Op == eng.OCall && t.S == kURL {
					rq = t.Args[0]
				}
				return rq == nil
			})
			if rq == nil {
				c.Bad("candidates", ev.Fn, posOf(ev.Instr), "the URL requested is not the URL of a request: %s", short(u))
				return
			}
			sv := c.FieldOf(st, rq, "Server")
			if x := listElem(sv); x != nil {
				if c.prepended(x) {
					c.Bad("candidates", ev.Fn, posOf(ev.Instr), "the candidates are tried in reverse order: the list is built by prepending")
				} else {
					c.Unknown("candidates", "candidate list of unknown shape: %s", short(x))
				}
				return
			}
			if srv {
				c.Check(sv.Op == eng.OLoad && sv.Args[0].Op == eng.OFieldAddr && sv.Args[0].S == "Server" && sv.Args[0].Args[0].Op == eng.OParam, "candidates", ev.Fn, posOf(ev.Instr), "the given server is contacted (%s)", short(sv))
			} else {
				idx, ok := urlElem(sv)
				if !ok {
					c.Bad("candidates", ev.Fn, posOf(ev.Instr), "the server contacted is not one of the bootstrap answer: %s", short(sv))
				} else if ok, why := c.ordered(idx); !ok {
					c.Bad("candidates", ev.Fn, posOf(ev.Instr), "the servers of the bootstrap answer are not taken in order: %s", why)
				} else {
					c.Ok("candidates", "servers of the bootstrap answer in order")
				}
			}
			for _, f := range []string{"Type", "Query", "Params"} {
				v := c.FieldOf(st, rq, f)
				c.Check(v.Op == eng.OLoad && v.Args[0].Op == eng.OFieldAddr && v.Args[0].S == f && v.Args[0].Args[0].Op == eng.OParam || f == "Type" && isIntC(v, typ), "candidates", ev.Fn, posOf(ev.Instr), "the request sent has the caller's %s (%s)", f, short(v))
			}
		}
		outs, _, ok := c.Run("candidates", fn, h, c.doSetup(srv, typ))
		if !ok {
			continue
		}
		if n == 0 {
			c.Bad("candidates", fn, 0, "no HTTP request is made")
		}
		var resp *eng.Term
		for _, o := range outs {
			if !o.Panic && o.Rets[0].Op == eng.OAlloc && hasEvent(o.St.Trace, kHTTPDo) != nil {
				resp = o.Rets[0]
			}
		}
		for _, o := range outs {
			if !o.Panic && c.IsNil(o.St, o.Rets[1]) == 1 && hasEvent(o.St.Trace, kHTTPDo) != nil {
				c.lastExchange(fn, "success after other servers", o, true)
			}
		}
		for _, li := range e.LoopList {
			for p, sym := range li.Phis {
				if p.Type().String() != "[]*"+pkgRdap+".Request" {
					continue
				}
				grows := false
				for _, b := range li.Back {
					if v := b.Vals[p]; v != nil && v.Op == eng.OAppend && v.Args[0] == sym {
						grows = true
					}
				}
				for _, b := range li.Back {
					if grows {
						c.Check(b.Vals[p] != sym, "candidates", fn, posOf(firstPos(b.From)), "every server of the bootstrap answer becomes a candidate")
					}
				}
			}
			if !c.triesServers(li, kHTTPDo) {
				continue
			}
			for _, ia := range loopIndexing(li, "[]*"+pkgRdap+".Request", "[]*net/url.URL") {
				k, ok := indexCoeff(ia.Index, li.Header, 0)
				if ok {
					c.Check(k >= 0, "order", ia.Parent(), ia.Pos(), "candidates are tried from first to last")
				}
			}
			if li.Index != nil {
				first := c.E.Bin2Sub(li.Index, 0)
				for _, o := range e.Origins[li.Index] {
					b, k := eng.Lin(o.Val)
					if o.Init {
						c.Check(b == nil && (k == 0 || k == -1), "order", fn, posOf(firstPos(li.Header)), "the first candidate is tried first")
					} else {
						c.Check(b == first && k == 1, "order", fn, posOf(firstPos(li.Header)), "candidates are tried one after the other")
					}
				}
			} else {
				c.Unknown("order", "no induction variable in the candidate loop")
			}
			for _, b := range li.Back {
				if segHas(b.Seg, kHTTPDo) == nil || resp == nil {
					continue
				}
				ht := c.Field(b.St, resp, "HTTP")
				okRec := ht.Op == eng.OAppend && len(ht.Args) == 2
				c.Check(okRec, "recorded", fn, posOf(firstPos(b.From)), "a failed exchange is recorded after the earlier ones (%s)", short(ht))
			}
		}
	}
}

// urlElem: t is an element of the URLs of a bootstrap answer.
func urlElem(t *eng.Term) (*eng.Term, bool) {
	if t.Op != eng.OLoad || t.Args[0].Op != eng.OIndexAddr {
		return nil, false
	}
	s := t.Args[0].Args[0]
	if s.Op == eng.OLoad && s.Args[0].Op == eng.OFieldAddr && s.Args[0].S == "URLs" && isResult(s.Args[0].Args[0], kLookup, 0) {
		return t.Args[0].Args[1], true
	}
	return nil, false
}

// listElem: t was read from an element of a loop-built list of unknown shape.
func listElem(t *eng.Term) *eng.Term {
	var r *eng.Term
	t.Walk(func(x *eng.Term) bool {
		if x.Op == eng.OIndexAddr && x.Args[0].Op == eng.OSym {
			r = x.Args[0]
		}
		if x.Op == eng.OSym && strings.HasPrefix(x.S, "elem:") {
			r = x
		}
		return r == nil
	})
	return r
}

// prepended: the list grows at its front.
func (c *Ctx) prepended(sym *eng.Term) bool {
	for _, o := range c.E.Origins[sym] {
		if o.Val.Op == eng.OAppendAll && o.Val.Args[1] == sym && !o.Val.Args[0].IsNil() {
			return true
		}
		if o.Val.Op == eng.OCall && o.Val.S == "slices.Insert" {
			return true
		}
	}
	return false
}

// loopIndexing lists the indexing of slices of the given types in the loop.
func loopIndexing(li *eng.LoopInfo, ts ...string) []*ssa.IndexAddr {
	var r []*ssa.IndexAddr
	for _, b := range loopBody(li.Header) {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				for _, t := range ts {
					if ia.X.Type().Underlying().String() == t {
						r = append(r, ia)
					}
				}
			}
		}
	}
	return r
}

// loopBody is the natural loop of a header.
func loopBody(h *ssa.BasicBlock) []*ssa.BasicBlock {
	in := map[*ssa.BasicBlock]bool{h: true}
	r := []*ssa.BasicBlock{h}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		r = append(r, b)
		for _, p := range b.Preds {
			add(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			add(p)
		}
	}
	return r
}

// indexCoeff is the factor of the header's induction variable in v.
func indexCoeff(v ssa.Value, h *ssa.BasicBlock, d int) (int, bool) {
	if d > 6 {
		return 0, false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return 0, true
	case *ssa.Phi:
		if v.Block() == h {
			return 1, true
		}
		return 0, false
	case *ssa.BinOp:
		a, ok1 := indexCoeff(v.X, h, d+1)
		b, ok2 := indexCoeff(v.Y, h, d+1)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch v.Op {
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		}
		return 0, false
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return 0, true
		}
	}
	return 0, false
}

func isIntC(t *eng.Term, n int64) bool {
	k, ok := t.Int()
	return ok && k == n
}
