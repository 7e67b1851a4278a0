package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"rdapverif/eng"
)

func init() {
	register(&Rule{ID: "C32", Run: runC32, Floor: 20, Assumptions: []string{"kingpin: a nil error from Parse means every option holds the value given or its default", "the caches and the bootstrap client are covered by their own properties"},
		Method: "Abstract interpretation of RunCLI per combination of the bootstrapping options: the cache object (kind, directory, lifetime) and base URL of the bootstrap client are read from the abstract heap at the request and compared with the documented ones; the default values of the options are read from the calls which define them; scenarios with an unusable option must not reach the request."})
}

const (
	kNewDisk = "github.com/openrdap/rdap/bootstrap/cache.NewDiskCache"
	kNewMem  = "github.com/openrdap/rdap/bootstrap/cache.NewMemoryCache"
)

type bsScn struct {
	name     string
	cacheDir string // "", "+", "default"
	initErr  bool
	bsURL    string // "default", "+"
	urlErr   bool
	sandbox  int
	e        bool   // --experimental
	exp      string // --exp
	run      bool   // the query is to be run
	kind     string // "disk", "memory"
	dir      string // "flag", "own"
	base     string // "flag", "default", or a URL
}

func runC32(c *Ctx) {
	const test = "https://test.rdap.net/rdap"
	for _, t := range []*bsScn{
		{name: "no option", cacheDir: "default", bsURL: "default", sandbox: -1, run: true, kind: "disk", dir: "own", base: "default"},
		{name: "no option, sandbox", cacheDir: "default", bsURL: "default", sandbox: 1, run: true, kind: "disk", dir: "own", base: "default"},
		{name: "--cache-dir=DIR", cacheDir: "+", bsURL: "default", sandbox: -1, run: true, kind: "disk", dir: "flag", base: "default"},
		{name: "--cache-dir=DIR, sandbox", cacheDir: "+", bsURL: "default", sandbox: 1, run: true, kind: "disk", dir: "own", base: "default"},
		{name: "--cache-dir=DIR which cannot be made", cacheDir: "+", initErr: true, bsURL: "default", sandbox: -1},
		{name: "default cache directory which cannot be made", cacheDir: "default", initErr: true, bsURL: "default", sandbox: -1},
		{name: "--cache-dir=''", cacheDir: "", bsURL: "default", sandbox: -1, run: true, kind: "memory", base: "default"},
		{name: "--bs-url=URL", cacheDir: "default", bsURL: "+", sandbox: -1, run: true, kind: "disk", dir: "own", base: "flag"},
		{name: "--bs-url=URL, --cache-dir=''", cacheDir: "", bsURL: "+", sandbox: -1, run: true, kind: "memory", base: "flag"},
		{name: "--bs-url=URL, sandbox", cacheDir: "default", bsURL: "+", sandbox: 1, run: true, kind: "disk", dir: "own", base: "flag"},
		{name: "--bs-url which is not a URL", cacheDir: "default", bsURL: "+", urlErr: true, sandbox: -1},
		{name: "-e", cacheDir: "default", bsURL: "default", sandbox: -1, e: true, run: true, kind: "disk", dir: "own", base: test},
		{name: "--exp=test_rdap_net", cacheDir: "default", bsURL: "default", sandbox: -1, exp: "test_rdap_net", run: true, kind: "disk", dir: "own", base: test},
		{name: "-e, --bs-url=URL", cacheDir: "default", bsURL: "+", sandbox: -1, e: true, run: true, kind: "disk", dir: "own", base: "flag"},
		{name: "--exp=object_tag", cacheDir: "default", bsURL: "default", sandbox: -1, exp: "object_tag", run: true, kind: "disk", dir: "own", base: "default"},
		{name: "--exp=sandbox, --cache-dir=DIR", cacheDir: "+", bsURL: "default", sandbox: -1, exp: "sandbox", run: true, kind: "disk", dir: "own", base: "default"},
		{name: "--exp which does not exist", cacheDir: "default", bsURL: "default", sandbox: -1, exp: "no_such_experiment"},
	} {
		c.bsScenario(t)
	}
}

func (c *Ctx) bsScenario(t *bsScn) {
	e := c.E
	n := 0
	s := &cliScn{name: t.name, args: 1, sandbox: t.sandbox, flags: map[string]string{"type": "domain", "cache-dir": t.cacheDir, "bs-url": t.bsURL}}
	if t.e {
		s.flags["experimental"] = "true"
	}
	if t.exp != "" {
		s.flags["exp"] = "?"
		s.peel = 2
	}
	defs := map[string]string{}
	s.onCall = func(st *eng.State, ev *eng.Event) {
		switch {
		case strings.Contains(ev.Key, kingpinPkg+".") && strings.HasSuffix(ev.Key, ").Default") && len(ev.Args) == 2:
			if el := e.Elems(st, ev.Args[1]); len(el) == 1 {
				if d, ok := el[0].Str(); ok {
					defs[flagOf(ev.Res)] = d
				}
			}
		case strings.HasSuffix(ev.Key, ".Application).Parse"):
			if t.exp == "" {
				return
			}
			if p := c.flagPtr["exp"]; p != nil {
				v := e.LoadTerm(p, p.T.Underlying().(*types.Pointer).Elem())
				c.assume(st, e.Eq(e.Len(v), e.IntC(1)), true)
				el := e.Load(st, e.IndexAddr(v, e.IntC(0), types.Typ[types.String]), types.Typ[types.String])
				c.assume(st, e.Eq(el, e.StrC(t.exp)), true)
			}
		case ev.Key == kNewDisk || ev.Key == kNewMem:
			c.assumeNil(st, ev.Res, false)
		case ev.Key == kInitDir:
			// documented: created only when there is no error
			c.assumeNil(st, c.errOf(ev.Res), !t.initErr)
			if t.initErr {
				c.assume(st, c.resultOf(ev.Res, 0), false)
			}
			if t.dir != "" {
				c.bsDir(st, ev, ev.Args[0], t, "created")
			}
		case strings.HasPrefix(ev.Key, "net/url.Parse"):
			isBS := c.flagDerived(ev.Args[0], nil) == "--bs-url"
			if _, ok := ev.Args[0].Str(); ok {
				isBS = true
			}
			if isBS {
				c.assumeNil(st, c.errOf(ev.Res), !t.urlErr)
				c.assumeNil(st, c.resultOf(ev.Res, 0), t.urlErr)
			}
		case ev.Key == kDo:
			n++
			if !t.run {
				c.Bad("use", ev.Fn, posOf(ev.Instr), "%s: the query is run all the same", t.name)
				return
			}
			c.bsCheck(st, ev, t)
		}
	}
	o := c.cli("use", s)
	if o == nil {
		return
	}
	if t.run && n == 0 {
		c.Bad("use", o.fn, 0, "%s: the query is not run", t.name)
	}
	if !t.run && n == 0 {
		c.Ok("use", "%s: rejected", t.name)
		for _, u := range o.outs {
			if len(u.Rets) == 1 {
				if k, ok := u.Rets[0].Int(); ok {
					c.Check(k != 0, "use", o.fn, 0, "%s: exit code %d", t.name, k)
				}
			}
		}
	}
	if t.name == "no option" {
		for f, want := range map[string]string{"timeout": "30", "bs-ttl": "3600"} {
			if _, ok := c.flagPtr[f]; !ok {
				c.Bad("defaults", o.fn, 0, "the option --%s is not defined", f)
			} else if d, ok := defs[f]; !ok {
				c.Unknown("defaults", "no default of --%s found", f)
			} else {
				c.Check(d == want, "defaults", o.fn, 0, "the default of --%s is %s seconds (%s)", f, want, d)
			}
		}
	}
}

// bsDir: the directory of the disk cache d.
func (c *Ctx) bsDir(st *eng.State, ev *eng.Event, d *eng.Term, t *bsScn, what string) {
	dir := c.FieldOf(st, d, "Dir")
	if dir == nil {
		c.Unknown("use", "%s: no directory field", t.name)
		return
	}
	dir = stripConv(dir)
	switch t.dir {
	case "flag":
		if isFlagValue(dir, "cache-dir") {
			c.Ok("use", "%s: the directory given is %s", t.name, what)
		} else if c.flagDerived(dir, nil) == "--cache-dir" && !((dir.Op == eng.OConcat || dir.Op == eng.OCall && strings.HasSuffix(dir.S, "path.Join")) && dir.Any(func(x *eng.Term) bool { return x.Op == eng.OCall && x.S == kNewDisk })) {
			c.Unknown("use", "%s: directory %s", t.name, short(dir))
		} else {
			c.Bad("use", ev.Fn, posOf(ev.Instr), "%s: the cache directory %s is not the one given (%s)", t.name, what, short(dir))
		}
	case "own":
		if c.flagDerived(dir, nil) != "" {
			c.Bad("use", ev.Fn, posOf(ev.Instr), "%s: the cache directory %s is %s, not the default one", t.name, what, short(dir))
		} else if dir.Any(func(x *eng.Term) bool { return x.Op == eng.OCall && x.S == kNewDisk }) {
			c.Ok("use", "%s: the default directory is %s", t.name, what)
		} else if _, isc := dir.Str(); isc {
			c.Bad("use", ev.Fn, posOf(ev.Instr), "%s: the cache directory %s is %s, not the default one", t.name, what, short(dir))
		} else {
			c.Unknown("use", "%s: directory %s", t.name, short(dir))
		}
	}
}

func (c *Ctx) bsCheck(st *eng.State, ev *eng.Event, t *bsScn) {
	fn, pos := ev.Fn, posOf(ev.Instr)
	bs := c.FieldOf(st, ev.Args[0], "Bootstrap")
	if bs == nil {
		c.Unknown("use", "no bootstrap client found")
		return
	}
	if c.IsNil(st, bs) == 1 {
		c.Bad("use", fn, pos, "%s: the query does not use a bootstrap client with these options", t.name)
		return
	}
	ca := c.FieldOf(st, bs, "Cache")
	if ca == nil {
		c.Unknown("use", "no cache found")
		return
	}
	d, kind := Unwrap(ca), ""
	switch {
	case c.IsNil(st, ca) == 1:
		kind = "memory"
	case d.T == nil:
	case strings.HasSuffix(d.T.String(), "bootstrap/cache.DiskCache"):
		kind = "disk"
	case strings.HasSuffix(d.T.String(), "bootstrap/cache.MemoryCache"):
		kind = "memory"
	}
	if kind == "" {
		c.Unknown("use", "%s: cache %s", t.name, short(ca))
		return
	}
	if !c.Check(kind == t.kind, "use", fn, pos, "%s: the query uses a %s cache (%s expected)", t.name, kind, t.kind) {
		return
	}
	if kind == "disk" {
		c.bsDir(st, ev, d, t, "used")
	}
	c.bsTTL(st, ev, d, t)
	c.bsURLCheck(st, ev, bs, t)
}

func (c *Ctx) bsTTL(st *eng.State, ev *eng.Event, d *eng.Term, t *bsScn) {
	fn, pos := ev.Fn, posOf(ev.Instr)
	p := c.flagPtr["bs-ttl"]
	if p == nil {
		c.Unknown("use", "no bs-ttl option found")
		return
	}
	if c.IsNil(st, d) == 1 {
		c.Bad("use", fn, pos, "%s: --bs-ttl is not set on the cache used", t.name)
		return
	}
	v := c.E.LoadTerm(p, p.T.Underlying().(*types.Pointer).Elem())
	ttl := c.FieldOf(st, d, "Timeout")
	if ttl == nil {
		c.Unknown("use", "no lifetime field")
		return
	}
	if !ttl.Contains(v) {
		if ttl.Op == eng.OJoin || ttl.Op == eng.OSym && !ttl.IsConst() {
			c.Unknown("use", "%s: lifetime %s", t.name, short(ttl))
			return
		}
		c.Bad("use", fn, pos, "%s: the lifetime of the cache is not --bs-ttl (%s)", t.name, short(ttl))
		return
	}
	for _, k := range []int64{0, 1, 59, 3600, 86400, 4294967295} {
		r := c.E.Subst(ttl, map[*eng.Term]*eng.Term{v: c.E.Const(constant.MakeInt64(k), v.T)})
		x, isc := r.Int()
		if !isc {
			c.Unknown("use", "%s: lifetime %s", t.name, short(r))
			continue
		}
		c.Check(x == k*1e9, "use", fn, pos, "%s: the lifetime of the cache is --bs-ttl seconds (%d gives %dns)", t.name, k, x)
	}
}

func (c *Ctx) bsURLCheck(st *eng.State, ev *eng.Event, bs *eng.Term, t *bsScn) {
	fn, pos := ev.Fn, posOf(ev.Instr)
	u := c.FieldOf(st, bs, "BaseURL")
	if u == nil {
		c.Unknown("use", "no base URL field")
		return
	}
	parsed := func(f func(a *eng.Term) bool) bool {
		return u.Any(func(x *eng.Term) bool {
			return x.Op == eng.OCall && strings.HasPrefix(x.S, "net/url.Parse") && len(x.Args) > 0 && f(stripConv(x.Args[0]))
		})
	}
	none := c.IsNil(st, u) == 1
	switch t.base {
	case "default":
		switch {
		case none || parsed(func(a *eng.Term) bool { x, ok := a.Str(); return ok && x == "https://data.iana.org/rdap/" }):
			c.Ok("use", "%s: the default bootstrap service is used", t.name)
		case parsed(func(a *eng.Term) bool { _, ok := a.Str(); return ok || c.flagDerived(a, nil) != "" }):
			c.Bad("use", fn, pos, "%s: the bootstrap service is %s", t.name, short(u))
		default:
			c.Unknown("use", "%s: base URL %s", t.name, short(u))
		}
	case "flag":
		switch {
		case parsed(func(a *eng.Term) bool { return isFlagValue(a, "bs-url") }):
			c.Ok("use", "%s: the bootstrap service given is used", t.name)
		case parsed(func(a *eng.Term) bool { return c.flagDerived(a, nil) == "--bs-url" }):
			c.Unknown("use", "%s: base URL %s", t.name, short(u))
		case none || parsed(func(a *eng.Term) bool { _, ok := a.Str(); return ok || c.flagDerived(a, nil) != "" }):
			c.Bad("use", fn, pos, "%s: the bootstrap service is not the one given (%s)", t.name, short(u))
		default:
			c.Unknown("use", "%s: base URL %s", t.name, short(u))
		}
	default:
		switch {
		case parsed(func(a *eng.Term) bool { x, ok := a.Str(); return ok && strings.TrimSuffix(x, "/") == t.base }):
			c.Ok("use", "%s: the test service is used", t.name)
		case none || parsed(func(a *eng.Term) bool { _, ok := a.Str(); return ok || c.flagDerived(a, nil) != "" }):
			c.Bad("use", fn, pos, "%s: the bootstrap service is %s, not %s", t.name, short(u), t.base)
		default:
			c.Unknown("use", "%s: base URL %s", t.name, short(u))
		}
	}
}
