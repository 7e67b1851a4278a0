package rules

import (
	"fmt"
	"go/types"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	as := []string{"kingpin: a nil error from Parse means every option holds the value given or its default", "(*Client).Do, (*Printer).Print and ToWhoisStyleResponse are covered by their own properties"}
	register(&Rule{ID: "C25", Run: runC25, Floor: 60, Assumptions: as,
		Method: "Abstract interpretation of RunCLI for all option values (verbose on and off; argument errors, help and version): on every path the exit code is compared with whether the query succeeded and was output, and the order of writes to the two streams with the request; the verbose callback handed to the client is analysed separately, and main for passing the code on."})
	register(&Rule{ID: "C26", Run: runC26, Floor: 10, Assumptions: as,
		Method: "Taint analysis in sandbox mode (enabled by the caller and by --exp): no value of a command line option reaches a file system call or a cache directory field on any path of RunCLI; the names accepted by sandbox.LoadFile are a finite set of plain file names on every path that reads a file."})
	register(&Rule{ID: "C27", Run: runC27, Floor: 20, Assumptions: as,
		Method: "Abstract interpretation of RunCLI per combination of the TLS options: at the request the transport configuration of both HTTP clients is read from the abstract heap (InsecureSkipVerify, Certificates); paths with failing or contradictory certificate options must not reach the request. All library code is scanned for other writes to InsecureSkipVerify."})
	register(&Rule{ID: "C28", Run: runC28, Floor: 60, Assumptions: as,
		Method: "Abstract interpretation of RunCLI once per query type name (documented names and the String() of every RequestType constant, evaluated from the source), for other names, and for each use of --server: type, query text and server of the request handed to the client are compared with the documented ones on every path."})
	register(&Rule{ID: "C29", Run: runC29, Floor: 60, Assumptions: as,
		Method: "Abstract interpretation of RunCLI for all 16 combinations of the output options: the output calls on every successful path and the values they write (body of the last exchange, decoded object) are compared with the documented ones."})
}

const (
	kPrint   = "(*github.com/openrdap/rdap.Printer).Print"
	kWhois   = "(*github.com/openrdap/rdap.Response).ToWhoisStyleResponse"
	kInitDir = "(*github.com/openrdap/rdap/bootstrap/cache.DiskCache).InitDir"
	kIndent  = "encoding/json.Indent"
)

func streamKeep(ev *eng.Event) bool {
	k := ev.Key
	return strings.HasPrefix(k, "fmt.Fprint") || k == "io.WriteString" || k == "io.Copy" || strings.HasSuffix(k, ").Write") || strings.HasSuffix(k, ").WriteTo") || strings.HasSuffix(k, ").WriteString") ||
		k == kDo || k == kPrint || k == kWhois || k == kIndent || strings.HasPrefix(k, "encoding/json.") || isCtxMaker(k) || k == "context.WithTimeout#1" || strings.HasSuffix(k, ".Application).Parse") || strings.HasSuffix(k, ".Application).Terminate")
}

// stdoutWrite: the event writes to the stream, directly or through a printer.
func (c *Ctx) streamWrite(ev *eng.Event, w *eng.Term) bool {
	if _, ok := c.writesTo(ev, w); ok {
		return true
	}
	if ev.Key == kPrint {
		f := c.FieldOf(ev.St, ev.Args[0], "Writer")
		return f != nil && Unwrap(f) == w
	}
	return false
}

func runC25(c *Ctx) {
	for _, vb := range []string{"false", "true"} {
		for parse := 0; parse < 3; parse++ {
			for _, ver := range []string{"false", "true"} {
				for _, out := range []string{"text", "whois", "json", "raw", ""} {
					for _, do := range []int{1, -1} {
						if (parse != 0 || ver == "true") && (out != "" || do != 1) {
							continue
						}
						fl := map[string]string{"verbose": vb, "version": ver, "text": "false", "whois": "false", "json": "false", "raw": "false", "experimental": "false"}
						if out != "" {
							fl[out] = "true"
						}
						c.streams(&cliScn{name: fmt.Sprintf("verbose=%s version=%s output=%s request=%d parse=%d", vb, ver, out, do, parse), flags: fl, free: true, args: -1, parse: parse, keep: streamKeep, doOK: do}, vb == "true", ver == "true", parse)
					}
				}
			}
		}
	}
	c.mainExit()
}

func (c *Ctx) streams(s *cliScn, verbose, version bool, parse int) {
	var vfn []*eng.Event
	var usage, errw *eng.Term
	s.onCall = func(st *eng.State, ev *eng.Event) {
		switch {
		case ev.Key == kDo:
			vfn = append(vfn, ev)
			ev.St = st.Freeze()
		case strings.HasSuffix(ev.Key, ".Application).UsageWriter"):
			usage = ev.Args[len(ev.Args)-1]
		case strings.HasSuffix(ev.Key, ".Application).ErrorWriter"):
			errw = ev.Args[len(ev.Args)-1]
		case ev.Key == "os.Exit" || strings.HasPrefix(ev.Key, "log.Fatal"):
			c.Bad("exit", ev.Fn, posOf(ev.Instr), "%s: the process is ended by %s", s.name, ev.Key)
		}
	}
	o := c.cli("exit", s)
	if o == nil {
		return
	}
	if parse == 0 && !version && len(vfn) == 0 {
		c.Bad("exit", o.fn, 0, "%s: no path runs the query", s.name)
	}
	if errw != nil {
		c.Check(Unwrap(errw) != o.stdout, "streams", o.fn, 0, "argument errors go to standard error")
	}
	_ = usage
	for _, r := range o.outs {
		if r.Panic {
			continue
		}
		pos := posOf(r.In)
		rc, isc := r.Rets[0].Int()
		if !isc {
			c.Bad("exit", o.fn, pos, "%s: the exit code is %s", s.name, short(r.Rets[0]))
			continue
		}
		var evs []*eng.Event
		if r.St.Trace != nil {
			evs = r.St.Trace.Events()
		}
		ok, done, said, shown, term := false, false, false, false, false
		for _, ev := range evs {
			if strings.HasSuffix(ev.Key, ".Application).Terminate") {
				term = true
			}
			if strings.HasSuffix(ev.Key, ".Application).Parse") && !term {
				c.Bad("exit", ev.Fn, posOf(ev.Instr), "the argument parser ends the process itself")
			}
			if ev.Key == kDo {
				done = true
				ok = c.IsNil(r.St, c.errOf(ev.Res)) == 1
			}
			if c.streamWrite(ev, o.stdout) {
				c.constWrite(s.name, verbose, ev)
				if !ok && !version {
					c.Bad("streams", ev.Fn, posOf(ev.Instr), "%s: standard output is written before the query has succeeded", s.name)
				}
				shown = true
			}
			if ev.Key == kWhois && ok {
				shown = true
			}
			if c.streamWrite(ev, o.stderr) {
				said = true
				if rc == 0 && !verbose {
					c.Bad("streams", ev.Fn, posOf(ev.Instr), "%s: a message is written although the query succeeded and verbose is off", s.name)
				}
			}
		}
		switch {
		case rc == 0:
			if parse != 0 {
				c.Bad("exit", o.fn, pos, "%s: exit code 0 without a query", s.name)
			} else if version {
				c.Check(shown && !done, "exit", o.fn, pos, "%s: the version is printed", s.name)
			} else {
				c.Check(done && ok, "exit", o.fn, pos, "%s: exit code 0 only after a successful query", s.name)
				c.Check(shown, "exit", o.fn, pos, "%s: exit code 0 only after the result was output", s.name)
			}
		case rc == 1:
			if version && parse == 0 {
				// the argument check of sandbox mode comes first
				c.Check(said, "exit", o.fn, pos, "%s: --version succeeds", s.name)
			}
			if parse != 2 && !verbose {
				c.Check(said, "exit", o.fn, pos, "%s: exit code 1 with a message on standard error", s.name)
			}
		default:
			c.Bad("exit", o.fn, pos, "%s: exit code %d", s.name, rc)
		}
	}
	// the callback handed to the client
	seen := map[*eng.Term]bool{}
	for _, ev := range vfn {
		f := c.FieldOf(ev.St, ev.Args[0], "Verbose")
		if f == nil || seen[f] {
			continue
		}
		seen[f] = true
		if f.Op != eng.OClosure && f.Op != eng.OFunc {
			if c.IsNil(ev.St, f) == 1 {
				c.Ok("verbose", "no callback")
			} else {
				c.Unknown("verbose", "callback %s", short(f))
			}
			continue
		}
		bad, n := false, 0
		h := &eng.Hooks{OnCall: func(st *eng.State, x *eng.Event) {
			if _, w := c.writesTo(x, o.stdout); w || strings.HasPrefix(x.Key, "fmt.Print") {
				bad = true
			}
			if _, w := c.writesTo(x, o.stderr); w {
				n++
			}
		}}
		c.E.Apply(ev.St.Clone(), h, f, []*eng.Term{c.E.Sym("text", types.Typ[types.String])})
		c.Check(!bad, "verbose", f.Fn, 0, "%s: verbose messages do not go to standard output", s.name)
		if !verbose {
			c.Check(n == 0, "verbose", f.Fn, 0, "%s: no verbose messages without the option", s.name)
		}
	}
}

// constWrite notes the fixed texts written to standard output without the
// verbose option (which is analysed first); with it there are no others.
func (c *Ctx) constWrite(scn string, verbose bool, ev *eng.Event) {
	if c.fixed == nil {
		c.fixed = map[string]bool{}
	}
	if !strings.HasPrefix(ev.Key, "fmt.Fprint") && ev.Key != "io.WriteString" || len(ev.Args) < 2 {
		return
	}
	text := strings.TrimPrefix(strings.TrimPrefix(scn, "verbose=true"), "verbose=false") + ev.Key
	for _, a := range ev.Args[1:] {
		if a.T != nil {
			if _, sl := a.T.Underlying().(*types.Slice); sl {
				el := c.E.Elems(ev.St, a)
				if n, isc := c.E.Len(a).Int(); el == nil && !(isc && n == 0) {
					return
				}
				for _, x := range el {
					t, isc := Unwrap(x).Str()
					if !isc {
						return
					}
					text += "\x00" + t
				}
				continue
			}
		}
		t, isc := Unwrap(a).Str()
		if !isc {
			return
		}
		text += "\x00" + t
	}
	if !verbose {
		c.fixed[text] = true
	} else {
		c.Check(c.fixed[text], "verbose", ev.Fn, posOf(ev.Instr), "%s: a fixed text is written to standard output with the verbose option only", scn)
	}
}

// mainExit: the command passes the exit code on.
func (c *Ctx) mainExit() {
	fn := c.Func(pkgMain, "main")
	if fn == nil {
		c.Unknown("main", "main not found")
		return
	}
	const kRun = "github.com/openrdap/rdap.RunCLI"
	h := &eng.Hooks{Opaque: opaqueList(kRun), Keep: evKeep(kRun, "os.Exit")}
	nrun, nexit := 0, 0
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		switch ev.Key {
		case kRun:
			nrun++
			so, se := c.extGlobalVal("os", "Stdout"), c.extGlobalVal("os", "Stderr")
			c.Check(Unwrap(ev.Args[1]) == so && Unwrap(ev.Args[2]) == se, "main", fn, posOf(ev.Instr), "the command uses standard output and standard error")
		case "os.Exit":
			nexit++
			c.Check(isCall(stripConv(ev.Args[0]), kRun), "main", ev.Fn, posOf(ev.Instr), "the command ends with RunCLI's exit code (%s)", short(ev.Args[0]))
			st.Dead = true
		}
	}
	outs, _, ok := c.Run("main", fn, h, nil)
	if !ok {
		return
	}
	if nrun == 0 {
		c.Bad("main", fn, 0, "the command does not run RunCLI")
	}
	for _, o := range outs {
		if o.Panic {
			continue
		}
		// returning from main is exit code 0
		ev := hasEvent(o.St.Trace, kRun)
		c.Check(ev != nil && c.E.Decide(o.St, c.E.Eq(ev.Res, c.E.IntC(0))) == 1, "main", fn, posOf(o.In), "the command ends with RunCLI's exit code")
	}
}

// ---- C26 ----

// fileCall: the call takes a path; returns the path arguments.
func fileCall(ev *eng.Event) []*eng.Term {
	k := ev.Key
	switch {
	case strings.HasPrefix(k, "os.") && !strings.HasPrefix(k, "os.Getenv") && !strings.HasPrefix(k, "os.Exit") && k != "os.LookupEnv" && k != "os.ExpandEnv" && k != "os.Expand" && k != "os.IsNotExist" && k != "os.IsExist" && k != "os.UserHomeDir" && k != "os.Getwd":
		return ev.Args
	case strings.HasPrefix(k, "io/ioutil."), k == "crypto/tls.LoadX509KeyPair", strings.HasPrefix(k, "os/exec."), strings.HasPrefix(k, "(*os.Root)"), strings.HasPrefix(k, "path/filepath.Walk"), strings.HasPrefix(k, "path/filepath.Glob"), strings.HasPrefix(k, "path/filepath.EvalSymlinks"):
		return ev.Args
	}
	return nil
}

// flagDerived names a textual command line value t is computed from.
func (c *Ctx) flagDerived(t, args *eng.Term) string {
	seen := map[*eng.Term]bool{}
	r := ""
	var f func(t *eng.Term)
	f = func(t *eng.Term) {
		if t == nil || seen[t] || r != "" {
			return
		}
		seen[t] = true
		if t == args {
			r = "the command line arguments"
			return
		}
		if t.Op == eng.OLoad && t.Args[0].Op == eng.OCall && isOption(t.Args[0].S, t.Args[0].T) {
			textual := true
			if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
				textual = false
			}
			if textual {
				r = "--" + flagOf(t.Args[0])
			}
			return
		}
		for _, a := range t.Args {
			f(a)
		}
		if t.Op == eng.OSym {
			for _, o := range c.E.Origins[t] {
				f(o.Val)
			}
		}
	}
	f(t)
	return r
}

func runC26(c *Ctx) {
	for _, mode := range []string{"enabled by the caller", "enabled by --exp=sandbox"} {
		n, parse := 0, 0
		s := &cliScn{name: mode, free: true, args: -1, flags: map[string]string{"verbose": "false", "version": "false", "text": "false", "whois": "false", "json": "false", "raw": "false"}}
		s.sandbox = 1
		if mode != "enabled by the caller" {
			s.sandbox = -1
			s.flags["exp"] = "?"
			s.peel = 2
		}
		var args *eng.Term
		s.setup = func(st *eng.State, ps []*eng.Term) { args = ps[0] }
		check := func(what string, fn *ssa.Function, in ssa.Instruction, t *eng.Term) {
			if t == nil {
				return
			}
			n++
			d := c.flagDerived(t, args)
			c.Check(d == "", "files", fn, posOf(in), "sandbox mode %s: %s gets a name from %s", mode, what, d)
		}
		s.onCall = func(st *eng.State, ev *eng.Event) {
			for _, a := range fileCall(ev) {
				check(ev.Key, ev.Fn, ev.Instr, a)
			}
			if strings.Contains(ev.Key, "cache.DiskCache)") && len(ev.Args) > 0 {
				check(ev.Key, ev.Fn, ev.Instr, c.FieldOf(st, ev.Args[0], "Dir"))
			}
			if strings.HasSuffix(ev.Key, ".Application).Parse") {
				parse++
				if s.peel > 0 {
					if p := c.flagPtr["exp"]; p != nil {
						v := c.E.LoadTerm(p, p.T.Underlying().(*types.Pointer).Elem())
						c.assume(st, c.E.Eq(c.E.Len(v), c.E.IntC(1)), true)
						el := c.E.Load(st, c.E.IndexAddr(v, c.E.IntC(0), types.Typ[types.String]), types.Typ[types.String])
						c.assume(st, c.E.Eq(el, c.E.StrC("sandbox")), true)
					}
				}
			}
			if ev.Key == kDo {
				bs := c.FieldOf(st, ev.Args[0], "Bootstrap")
				if bs != nil {
					if ca := c.FieldOf(st, bs, "Cache"); ca != nil {
						if d := Unwrap(ca); d.T != nil && strings.HasSuffix(d.T.String(), "cache.DiskCache") {
							check("the disk cache", ev.Fn, ev.Instr, c.FieldOf(st, d, "Dir"))
						}
					}
				}
			}
		}
		s.onStore = func(st *eng.State, kind string, addr, key, val *eng.Term, fr *eng.Frame, in ssa.Instruction) {
			if addr.Op == eng.OFieldAddr && addr.Args[0].T != nil && strings.HasSuffix(strings.TrimPrefix(addr.Args[0].T.String(), "*"), "cache.DiskCache") {
				check("cache field "+addr.S, fr.Fn, in, val)
			}
		}
		o := c.cli("files", s)
		if o == nil {
			continue
		}
		if n == 0 {
			c.Unknown("files", "no file access found")
		}
	}
	c.atFiles()
	c.sandboxNames()
}

// atFiles: the argument parser never sees an @file argument.
func (c *Ctx) atFiles() {
	touched, reached := false, false
	var pos *eng.Event
	s := &cliScn{name: "@file", free: true, args: -1, sandbox: 1}
	var args *eng.Term
	s.setup = func(st *eng.State, ps []*eng.Term) {
		args = ps[0]
		c.assume(st, c.E.Lt(c.E.IntC(0), c.E.Len(args)), true)
	}
	s.onCall = func(st *eng.State, ev *eng.Event) {
		if strings.HasSuffix(ev.Key, ".Application).Parse") {
			reached = true
			pos = ev
			st.Dead = true
			return
		}
		for _, a := range ev.Args {
			if a != nil && args != nil && a.Contains(args) {
				touched = true
			}
		}
		switch {
		case ev.Key == "strings.HasPrefix" && ev.Args[0].Contains(args) && strArg2(ev, 1) == "@":
			c.assume(st, ev.Res, true)
		case strings.HasPrefix(ev.Key, "slices.ContainsFunc") && ev.Args[0] == args, strings.HasPrefix(ev.Key, "slices.IndexFunc") && ev.Args[0] == args:
			touched = true
			if isBoolT(ev.Res.T) {
				c.assume(st, ev.Res, true)
			}
		}
	}
	o := c.cli("at", s)
	if o == nil {
		return
	}
	switch {
	case !reached:
		c.Ok("at", "@file arguments do not reach the argument parser in sandbox mode")
	case touched:
		c.Unknown("at", "arguments are inspected in an unknown way")
	default:
		c.Bad("at", o.fn, posOf(pos.Instr), "@file arguments reach the argument parser in sandbox mode, which reads the file")
	}
}

func strArg2(ev *eng.Event, i int) string {
	if i < len(ev.Args) {
		s, _ := ev.Args[i].Str()
		return s
	}
	return ""
}

func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// sandboxNames: LoadFile reads exactly the built-in names.
func (c *Ctx) sandboxNames() {
	fn := c.Func(pkgSand, "LoadFile")
	if fn == nil {
		c.Unknown("names", "LoadFile not found")
		return
	}
	var name *eng.Term
	n := 0
	loose := ""
	h := &eng.Hooks{SplitFacts: 40}
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		if len(ev.Args) > 0 && name != nil && ev.Args[0].Contains(name) {
			switch ev.Key {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold", "path.Match", "path/filepath.Match", "(*regexp.Regexp).MatchString", "path.Base", "path/filepath.Base", "strings.ToLower", "strings.TrimSpace", "path.Ext", "path/filepath.Ext", "path.Clean", "path/filepath.Clean", "path/filepath.IsLocal":
				loose = ev.Key
			}
		}
		if fileCall(ev) == nil {
			return
		}
		for _, a := range ev.Args {
			if a == nil || !c.derived(a, name) {
				continue
			}
			n++
			av := st.AVOf(name)
			if av == nil || len(av.In) == 0 {
				if loose != "" {
					c.Bad("names", ev.Fn, posOf(ev.Instr), "%s reads a file whose name is only tested with %s", ev.Key, loose)
				} else if noGuard(st, name) {
					c.Bad("names", ev.Fn, posOf(ev.Instr), "%s reads any file", ev.Key)
				} else {
					c.Unknown("names", "%s: names accepted not known", ev.Key)
				}
				continue
			}
			for _, v := range av.In {
				s, ok := v.Str()
				c.Check(ok && s != "" && !strings.ContainsAny(s, "/\\\x00") && s != "." && s != "..", "names", ev.Fn, posOf(ev.Instr), "built-in name %q is a plain file name", s)
			}
		}
	}
	if _, _, ok := c.Run("names", fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		name = ps[0]
		return nil
	}); ok && n == 0 {
		c.Unknown("names", "no file is read")
	}
}

// noGuard: nothing was decided about the name.
func noGuard(st *eng.State, name *eng.Term) bool {
	for _, t := range st.FactTerms() {
		if t.Contains(name) {
			return false
		}
	}
	return true
}

// ---- C27 ----

// tlsConfig reads the TLS configuration of an HTTP client from the heap.
func (c *Ctx) tlsOf(st *eng.State, cl *eng.Term) (*eng.Term, string) {
	if cl == nil {
		return nil, "no client"
	}
	if c.IsNil(st, cl) == 1 {
		return nil, "the default HTTP client"
	}
	tr := c.FieldOf(st, cl, "Transport")
	if tr == nil || c.IsNil(st, tr) == 1 {
		return nil, "the default transport"
	}
	tr = Unwrap(tr)
	if tr.T == nil || tr.T.String() != "*net/http.Transport" {
		return nil, "?"
	}
	cfg := c.FieldOf(st, tr, "TLSClientConfig")
	if cfg == nil {
		return nil, "?"
	}
	if c.IsNil(st, cfg) == 1 {
		return nil, "no TLS configuration"
	}
	return cfg, ""
}

func runC27(c *Ctx) {
	both := func(st *eng.State, ev *eng.Event) map[string]*eng.Term {
		m := map[string]*eng.Term{"RDAP": c.FieldOf(st, ev.Args[0], "HTTP")}
		if bs := c.FieldOf(st, ev.Args[0], "Bootstrap"); bs != nil {
			if c.IsNil(st, bs) == 1 {
				m["bootstrap"] = c.E.Nil()
			} else {
				m["bootstrap"] = c.FieldOf(st, bs, "HTTP")
			}
		}
		return m
	}
	for _, ins := range []bool{true, false} {
		n := 0
		s := &cliScn{name: fmt.Sprintf("insecure=%v", ins), free: true, args: 1, sandbox: -1, flags: map[string]string{"insecure": fmt.Sprint(ins), "verbose": "false", "version": "false"}}
		s.onCall = func(st *eng.State, ev *eng.Event) {
			if ev.Key != kDo {
				return
			}
			n++
			for what, cl := range both(st, ev) {
				cfg, why := c.tlsOf(st, cl)
				if cfg == nil {
					if why == "?" {
						c.Unknown("verify", "%s: transport of the %s client not understood", s.name, what)
					} else {
						c.Check(!ins, "verify", ev.Fn, posOf(ev.Instr), "%s: the %s connection uses %s", s.name, what, why)
					}
					continue
				}
				v := c.FieldOf(st, cfg, "InsecureSkipVerify")
				want := -1
				if ins {
					want = 1
				}
				c.Check(c.E.Decide(st, v) == want, "verify", ev.Fn, posOf(ev.Instr), "%s: verification of %s connections is disabled exactly when asked for (%s)", s.name, what, short(v))
			}
		}
		if c.cli("verify", s) != nil && n == 0 {
			c.Unknown("verify", "no request is run")
		}
	}
	// certificates
	type cs struct {
		name, cert, key, p12 string
		fail                 bool
		want                 string
	}
	const kPair, kLoadPair, kToPEM = "crypto/tls.X509KeyPair", "crypto/tls.LoadX509KeyPair", "golang.org/x/crypto/pkcs12.ToPEM"
	for _, t := range []cs{
		{name: "--cert and --key", cert: "+", key: "+", want: kLoadPair},
		{name: "--cert and --key which cannot be loaded", cert: "+", key: "+", fail: true},
		{name: "--cert only", cert: "+"},
		{name: "--key only", key: "+"},
		{name: "--cert, --key and --p12", cert: "+", key: "+", p12: "+"},
		{name: "--cert and --p12", cert: "+", p12: "+"},
		{name: "--key and --p12", key: "+", p12: "+"},
		{name: "--p12", p12: "+", want: kPair},
		{name: "--p12 which cannot be read", p12: "+", fail: true},
		{name: "--p12 which cannot be decoded", p12: "+", fail: true},
		{name: "--p12 without usable key pair", p12: "+", fail: true},
		{name: "none", want: "none"},
	} {
		for _, sand := range []int{-1, 1} {
			if sand == 1 && t.p12 == "" || sand == 1 && t.cert+t.key != "" {
				continue
			}
			n, acc := 0, 0
			s := &cliScn{name: t.name, free: true, args: 1, sandbox: sand, flags: map[string]string{"cert": t.cert, "key": t.key, "p12": t.p12, "verbose": "false", "version": "false", "insecure": "false", "type": "domain", "experimental": "false", "exp": "", "server": "", "cache-dir": "default", "bs-url": "default"}}
			s.onCall = func(st *eng.State, ev *eng.Event) {
				file := len(fileCall(ev)) > 0 && ev.Key != kLoadPair && c.flagDerived(ev.Args[0], nil) == "--p12" || ev.Key == "github.com/openrdap/rdap/sandbox.LoadFile"
				switch {
				case ev.Key == kLoadPair:
					acc++
					a, b := c.flagDerived(ev.Args[0], nil), c.flagDerived(ev.Args[1], nil)
					c.Check(a == "--cert" && b == "--key", "certs", ev.Fn, posOf(ev.Instr), "%s: certificate and key are read from the files given (%s, %s)", t.name, a, b)
					c.assumeNil(st, c.errOf(ev.Res), !t.fail)
				case file:
					acc++
					if ev.Key == "github.com/openrdap/rdap/sandbox.LoadFile" {
						c.Check(c.flagDerived(ev.Args[0], nil) == "--p12", "certs", ev.Fn, posOf(ev.Instr), "%s: the named file is loaded", t.name)
					}
					if te := c.errOf(ev.Res); te != nil && te.T != nil && isErrorT(te.T) {
						c.assumeNil(st, te, t.name != "--p12 which cannot be read")
					}
				case ev.Key == kToPEM || strings.HasPrefix(ev.Key, "golang.org/x/crypto/pkcs12."):
					c.assumeNil(st, c.errOf(ev.Res), t.name != "--p12 which cannot be decoded")
				case ev.Key == kPair:
					c.assumeNil(st, c.errOf(ev.Res), t.name != "--p12 without usable key pair")
				case ev.Key == kDo:
					n++
					if t.want == "" {
						c.Bad("certs", ev.Fn, posOf(ev.Instr), "%s: the query is run all the same", t.name)
						return
					}
					for what, cl := range both(st, ev) {
						cfg, why := c.tlsOf(st, cl)
						if cfg == nil {
							if why == "?" {
								c.Unknown("certs", "transport not understood")
							} else {
								c.Check(t.want == "none", "certs", ev.Fn, posOf(ev.Instr), "%s: the %s connection uses %s", t.name, what, why)
							}
							continue
						}
						certs := c.FieldOf(st, cfg, "Certificates")
						if t.want == "none" {
							c.Ok("certs", "no client certificate asked for")
							continue
						}
						ok := false
						if certs != nil {
							for _, el := range append([]*eng.Term{certs}, c.E.Elems(st, certs)...) {
								el.Walk(func(x *eng.Term) bool {
									if x.Op == eng.OCall && (x.S == t.want || x.S == kPair || x.S == kLoadPair) {
										ok = true
									}
									return !ok
								})
							}
						}
						if !ok {
							if g := c.FieldOf(st, cfg, "GetClientCertificate"); g != nil && c.IsNil(st, g) != 1 {
								c.Unknown("certs", "certificate callback")
								continue
							}
						}
						c.Check(ok, "certs", ev.Fn, posOf(ev.Instr), "%s: the certificate is used on %s connections", t.name, what)
					}
				}
			}
			if c.cli("certs", s) == nil {
				continue
			}
			if t.want != "" && n == 0 {
				c.Bad("certs", c.Func(pkgRdap, "RunCLI"), 0, "%s: the query is not run", t.name)
			}
			if t.want == "" {
				c.Ok("certs", "%s is rejected", t.name)
			}
		}
	}
	for _, p := range [][3]string{{"c.p12", "c.p12", ""}, {"c.p12:", "c.p12", ""}, {"c.p12:secret", "c.p12", "secret"}, {"c.p12:se:cr:et", "c.p12", "se:cr:et"}, {"d/c.p12:s:", "d/c.p12", "s:"}, {"c.p12::", "c.p12", ":"}, {"a b.p12: x ", "a b.p12", " x "}} {
		c.p12Parts(p[0], p[1], p[2])
	}
	c.insecureScan()
}

// p12Parts: file name and password of a --p12 option value (the text before
// and after its first colon).
func (c *Ctx) p12Parts(opt, file, pass string) {
	for _, sand := range []int{-1, 1} {
		n := 0
		s := &cliScn{name: "--p12=" + opt, args: 1, sandbox: sand, flags: map[string]string{"p12": opt, "type": "domain"}}
		cmp := func(st *eng.State, ev *eng.Event, t *eng.Term, want, what string) {
			n++
			switch c.E.Decide(st, c.E.Eq(stripConv(t), c.E.StrC(want))) {
			case 1:
				c.Ok("p12", "--p12=%s: %s", opt, what)
			case -1:
				c.Bad("p12", ev.Fn, posOf(ev.Instr), "--p12=%s: the %s is '%s' (%s)", opt, what, want, short(t))
			default:
				c.Unknown("p12", "--p12=%s: %s %s", opt, what, short(t))
			}
		}
		s.onCall = func(st *eng.State, ev *eng.Event) {
			switch {
			case strings.HasSuffix(ev.Key, ".Application).Parse"):
				if p := c.flagPtr["p12"]; p != nil {
					c.E.Store(st, p, c.E.StrC(opt), types.Typ[types.String])
				}
			case ev.Key == "github.com/openrdap/rdap/sandbox.LoadFile", ev.Key == "os.ReadFile", ev.Key == "os.Open":
				cmp(st, ev, ev.Args[0], file, "file name")
				c.assumeNil(st, c.errOf(ev.Res), true)
			case strings.HasPrefix(ev.Key, "golang.org/x/crypto/pkcs12.") && len(ev.Args) == 2:
				cmp(st, ev, ev.Args[1], pass, "password")
			}
		}
		if c.cli("p12", s) != nil && n == 0 {
			c.Unknown("p12", "no use of --p12 found")
		}
	}
}

func isErrorT(t types.Type) bool { return t.String() == "error" }

// insecureScan: nothing else disables verification.
func (c *Ctx) insecureScan() {
	n := 0
	for _, p := range c.SSA {
		if p == nil {
			continue
		}
		for _, fn := range eng.FuncsOf(p) {
			if c.Functions[fn.String()] && p.Pkg.Path() == pkgRdap && c.reachable("RunCLI")[fn] {
				continue
			}
			n++
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					pt, ok := fa.X.Type().Underlying().(*types.Pointer)
					if !ok || pt.Elem().String() != "crypto/tls.Config" {
						continue
					}
					f := pt.Elem().Underlying().(*types.Struct).Field(fa.Field)
					if f.Name() != "InsecureSkipVerify" {
						continue
					}
					if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "false" {
						continue
					}
					c.Bad("scan", fn, in.Pos(), "certificate verification is disabled outside the command line option")
				}
			}
		}
	}
	c.Ok("scan", "%d other functions do not touch InsecureSkipVerify", n)
}

// reachable: functions RunCLI's analysis entered (including inlined helpers).
func (c *Ctx) reachable(root string) map[*ssa.Function]bool {
	if c.reach != nil {
		return c.reach
	}
	c.reach = map[*ssa.Function]bool{}
	for f := range c.E.Entered {
		c.reach[f] = true
	}
	return c.reach
}

// ---- C28 ----

func runC28(c *Ctx) {
	consts := c.ConstsOf(pkgRdap, "RequestType")
	table := map[string]string{
		"ip": "IPRequest", "domain": "DomainRequest", "autnum": "AutnumRequest", "nameserver": "NameserverRequest",
		"entity": "EntityRequest", "help": "HelpRequest", "url": "RawRequest", "domain-search": "DomainSearchRequest",
		"domain-search-by-nameserver": "DomainSearchByNameserverRequest", "domain-search-by-nameserver-ip": "DomainSearchByNameserverIPRequest",
		"nameserver-search": "NameserverSearchRequest", "nameserver-search-by-ip": "NameserverSearchByNameserverIPRequest",
		"entity-search": "EntitySearchRequest", "entity-search-by-handle": "EntitySearchByHandleRequest", "autnum-search": "AutnumSearchRequest",
		"dns": "DomainRequest", "as": "AutnumRequest", "asn": "AutnumRequest", "ns": "NameserverRequest",
	}
	// names of all request types, from the source
	if fn := c.Func(pkgRdap, "RequestType.String"); fn != nil {
		for _, k := range sortedKeys(consts) {
			if k == "_" {
				continue
			}
			outs, _, ok := c.Run("names", fn, nil, func(st *eng.State, ps []*eng.Term) []*eng.Term {
				return []*eng.Term{c.E.IntC(consts[k])}
			})
			if !ok {
				continue
			}
			for _, o := range outs {
				if o.Panic {
					continue
				}
				s, isc := o.Rets[0].Str()
				if !isc {
					c.Unknown("names", "the name of %s is %s", k, short(o.Rets[0]))
					continue
				}
				c.Check(table[s] == k, "names", fn, posOf(o.In), "the name of %s, %q, is the documented one of that type", k, s)
			}
		}
	} else {
		c.Unknown("names", "RequestType.String not found")
	}
	for _, name := range sortedKeys(table) {
		for _, nargs := range []int{1, 0} {
			c.typeScenario(name, table[name], consts, nargs)
		}
	}
	c.typeScenario("", "auto", consts, 1)
	c.typeScenario("", "auto", consts, 0)
	c.typeScenario("", "auto", consts, 2)
	c.typeScenario("domain", table["domain"], consts, 2)
	// any other name
	n := 0
	s := &cliScn{name: "other type name", free: true, args: 1, sandbox: -1, flags: map[string]string{"type": "?", "verbose": "false", "version": "false"}}
	s.onCall = func(st *eng.State, ev *eng.Event) {
		if ev.Res != nil && isOption(ev.Key, ev.Res.T) && flagOf(ev.Res) == "type" {
			v := c.E.LoadTerm(ev.Res, types.Typ[types.String])
			c.assume(st, c.E.Eq(v, c.E.StrC("")), false)
			for k := range table {
				c.assume(st, c.E.Eq(v, c.E.StrC(k)), false)
			}
		}
		if ev.Key == kDo {
			n++
			c.Bad("types", ev.Fn, posOf(ev.Instr), "an unknown query type name is accepted")
		}
	}
	if c.cli("types", s) != nil && n == 0 {
		c.Ok("types", "unknown query type names are rejected")
	}
	// --server
	for _, t := range []struct {
		typ     string
		perr    bool
		want    bool
		preset  bool
		typName string
	}{
		{typ: "domain", want: true}, {typ: "domain", perr: true}, {typ: "help", want: true}, {typ: "entity-search", want: true}, {typ: "ip", want: true}, {typ: "autnum", want: true},
		{typ: "url"}, {typ: "", want: true}, {typ: "", preset: true},
	} {
		c.serverScenario(t.typ, t.perr, t.want, t.preset)
	}
}

const kAuto = "github.com/openrdap/rdap.NewAutoRequest"

// queryText is the first positional argument.
func (c *Ctx) isQueryText(t *eng.Term) bool {
	t = stripConv(t)
	return t != nil && t.Op == eng.OLoad && t.Args[0].Op == eng.OIndexAddr && isFlagValue(t.Args[0].Args[0], "#args") && isZero(t.Args[0].Args[1])
}

func isZero(t *eng.Term) bool {
	n, ok := t.Int()
	return ok && n == 0
}

func (c *Ctx) typeScenario(name, want string, consts map[string]int64, nargs int) {
	e := c.E
	for _, valid := range []bool{true, false} {
		needs := want == "AutnumRequest" || want == "IPRequest" || want == "RawRequest"
		if !valid && (!needs || nargs == 0) {
			continue
		}
		n := 0
		other := false
		s := &cliScn{name: fmt.Sprintf("--type=%s, %d arguments, valid=%v", name, nargs, valid), free: true, args: nargs, sandbox: -1,
			flags: map[string]string{"type": name, "verbose": "false", "version": "false", "server": "", "exp": "", "experimental": "false", "cert": "", "key": "", "p12": ""}}
		s.onCall = func(st *eng.State, ev *eng.Event) {
			switch ev.Key {
			case "net.ParseIP":
				if c.isQueryText(ev.Args[0]) {
					c.assumeNil(st, ev.Res, !valid)
				}
			case "net/url.Parse", "net/url.ParseRequestURI":
				if c.isQueryText(ev.Args[0]) {
					c.assumeNil(st, c.errOf(ev.Res), valid)
				}
			case "strconv.ParseUint":
				c.assumeNil(st, c.errOf(ev.Res), valid)
			case "strconv.ParseInt", "strconv.Atoi", "net/netip.ParseAddr", "net.ParseCIDR":
				other = true
			case kAuto:
				if want == "auto" {
					c.Check(c.isQueryText(ev.Args[0]), "types", ev.Fn, posOf(ev.Instr), "%s: the type is detected from the text given", s.name)
				}
				c.assumeNil(st, ev.Res, false)
			case kDo:
				n++
				if nargs == 0 && want != "HelpRequest" {
					c.Bad("types", ev.Fn, posOf(ev.Instr), "%s: a query without text is run", s.name)
					return
				}
				if !valid {
					if other {
						c.Unknown("types", "%s: validated in another way", s.name)
					} else {
						c.Bad("types", ev.Fn, posOf(ev.Instr), "%s: invalid text is accepted", s.name)
					}
					return
				}
				rq := ev.Args[1]
				ty, q, sv := c.FieldOf(st, rq, "Type"), c.FieldOf(st, rq, "Query"), c.FieldOf(st, rq, "Server")
				if want == "auto" {
					ok := ty.Any(func(t *eng.Term) bool { return isCall(t, kAuto) }) && q.Any(func(t *eng.Term) bool { return isCall(t, kAuto) })
					c.Check(ok, "types", ev.Fn, posOf(ev.Instr), "%s: the detected request is run", s.name)
					return
				}
				k, isc := ty.Int()
				if !isc {
					c.Unknown("types", "%s: type %s", s.name, short(ty))
					return
				}
				if k != consts[want] {
					c.Bad("types", ev.Fn, posOf(ev.Instr), "%s: a %s is run instead of a %s", s.name, constName(consts, k), want)
					return
				}
				bad := ""
				switch want {
				case "HelpRequest":
				case "RawRequest":
					if !(isResult(sv, "net/url.Parse", 0) || isResult(sv, "net/url.ParseRequestURI", 0)) || !c.isQueryText(sv.Args[0].Args[0]) {
						bad = "the URL is " + short(sv)
					}
				case "AutnumRequest":
					var qt *eng.Term
					q.Walk(func(t *eng.Term) bool {
						if c.isQueryText(t) {
							qt = t
						}
						return qt == nil
					})
					if qt == nil {
						bad = "the query is " + short(q)
					} else if !other {
						bad = c.asnValue(st, q, qt)
					}
				case "IPRequest":
					bad = c.textOf(q, "(net.IP).String", func(x *eng.Term) bool { return isCall(x, "net.ParseIP") && c.isQueryText(x.Args[0]) })
				default:
					if !c.isQueryText(q) {
						bad = "the query is " + short(q)
					}
				}
				if other && bad != "" {
					c.Unknown("types", "%s: %s", s.name, bad)
					return
				}
				c.Check(bad == "", "types", ev.Fn, posOf(ev.Instr), "%s: the request is for exactly the text given %s", s.name, bad)
				if want != "RawRequest" {
					c.Check(c.IsNil(st, sv) == 1, "types", ev.Fn, posOf(ev.Instr), "%s: no server is set", s.name)
				}
			}
		}
		_ = e
		o := c.cli("types", s)
		if o == nil {
			continue
		}
		run := valid && (nargs > 0 || want == "HelpRequest")
		if run {
			c.Check(n > 0, "types", o.fn, 0, "%s: the name is accepted and the query run", s.name)
		} else if n == 0 {
			c.Ok("types", "%s: rejected", s.name)
		}
	}
}

func (c *Ctx) serverScenario(typ string, perr, want, preset bool) {
	n := 0
	s := &cliScn{name: fmt.Sprintf("--server with --type=%s (parse error %v, full URL %v)", typ, perr, preset), free: true, args: 1, sandbox: -1,
		flags: map[string]string{"type": typ, "server": "+", "verbose": "false", "version": "false", "exp": "", "experimental": "false", "cert": "", "key": "", "p12": ""}}
	s.onCall = func(st *eng.State, ev *eng.Event) {
		switch ev.Key {
		case kAuto:
			c.assumeNil(st, ev.Res, false)
			if sv := c.Field(st, ev.Res, "Server"); sv != nil {
				c.assumeNil(st, sv, !preset)
			}
		case "net/url.Parse", "net/url.ParseRequestURI":
			if isFlagValue(stripConv(ev.Args[0]), "server") {
				c.assumeNil(st, c.errOf(ev.Res), !perr)
				if !perr {
					c.assumeNil(st, c.resultOf(ev.Res, 0), false)
				}
			} else if c.isQueryText(ev.Args[0]) {
				c.assumeNil(st, c.errOf(ev.Res), true)
				c.assumeNil(st, c.resultOf(ev.Res, 0), false)
			}
		case kDo:
			n++
			if !want {
				c.Bad("server", ev.Fn, posOf(ev.Instr), "%s: the query is run", s.name)
				return
			}
			sv := c.FieldOf(st, ev.Args[1], "Server")
			var given *eng.Term
			find := func(t *eng.Term) bool {
				if (isResult(t, "net/url.Parse", 0) || isResult(t, "net/url.ParseRequestURI", 0)) && c.flagDerived(t.Args[0].Args[0], nil) == "--server" {
					given = t
					return true
				}
				return false
			}
			ok := sv != nil && sv.Any(find)
			fields := []string{"User", "Host", "Path", "RawPath", "RawQuery", "Fragment"}
			if !ok && sv != nil && sv.Op == eng.OAlloc {
				// a copy of the URL
				ok = true
				for _, f := range []string{"Host", "Path"} {
					v := c.FieldOf(st, sv, f)
					ok = ok && v != nil && (v.Any(find) || v.IsConst())
				}
				ok = ok && given != nil
			}
			c.Check(ok, "server", ev.Fn, posOf(ev.Instr), "%s: the server given is used (%s)", s.name, short(sv))
			if given != nil && (sv == given || sv.Op == eng.OAlloc) {
				for _, f := range fields {
					if v := c.FieldOf(st, sv, f); v != nil && (v.IsConst() || v.IsNil()) && !c.emptyIn(st, given, f) {
						c.Bad("server", ev.Fn, posOf(ev.Instr), "%s: the %s of the server URL given is replaced by %s", s.name, f, short(v))
					}
				}
			}
		}
	}
	o := c.cli("server", s)
	if o == nil {
		return
	}
	if want {
		c.Check(n > 0, "server", o.fn, 0, "%s: the query is run", s.name)
	} else if n == 0 {
		c.Ok("server", "%s: rejected", s.name)
	}
}

// emptyIn: the field of the parsed URL is known to have that constant value
// already.
func (c *Ctx) emptyIn(st *eng.State, u *eng.Term, f string) bool {
	found := false
	for _, t := range st.FactTerms() {
		if t.Any(func(x *eng.Term) bool { return x.Op == eng.OLoad && x.Args[0].Op == eng.OFieldAddr && x.Args[0].S == f && x.Args[0].Args[0] == u }) {
			found = true
		}
	}
	return found
}

// ---- C29 ----

// changedBody: t is the body of the last exchange with characters changed or
// removed by a function of package strings or bytes.
func (c *Ctx) changedBody(st *eng.State, t, resp *eng.Term) string {
	t = stripConv(t)
	if t != nil && t.Op == eng.OFmt && t.S == "%s" {
		t = stripConv(Unwrap(t.Args[0]))
	}
	if t == nil || t.Op != eng.OCall || len(t.Args) == 0 {
		return ""
	}
	name := strings.TrimPrefix(strings.TrimPrefix(t.S, "strings."), "bytes.")
	if name == t.S {
		return ""
	}
	x := t.Args[0]
	switch {
	case name == "Map" && len(t.Args) == 2:
		x = t.Args[1]
	case strings.HasPrefix(name, "To") || strings.HasPrefix(name, "Trim") || strings.HasPrefix(name, "Replace"):
	default:
		return ""
	}
	if c.lastBody(st, x, resp) == 1 || c.changedBody(st, x, resp) != "" {
		return t.S
	}
	return ""
}

// lastBody: t is the body of the last exchange of the response (1), of
// another one (-1), or unknown (0).
func (c *Ctx) lastBody(st *eng.State, t *eng.Term, resp *eng.Term) int {
	t = stripConv(t)
	if t == nil {
		return 0
	}
	if t.Op == eng.OFmt && t.S == "%s" {
		t = stripConv(Unwrap(t.Args[0]))
	}
	if t.Op == eng.OCall && (t.S == "bytes.NewReader" || t.S == "bytes.NewBuffer") {
		t = t.Args[0]
	}
	if t.Op == eng.OCall && strings.HasPrefix(t.S, "bytes.Trim") {
		if c.lastBody(st, t.Args[0], resp) == -1 {
			return -1
		}
		return 0
	}
	if t.Op != eng.OLoad || t.Args[0].Op != eng.OFieldAddr || t.Args[0].S != "Body" {
		return 0
	}
	x := t.Args[0].Args[0]
	if x.Op != eng.OLoad || x.Args[0].Op != eng.OIndexAddr {
		return 0
	}
	list := x.Args[0].Args[0]
	if list != c.Field(st, resp, "HTTP") {
		return 0
	}
	b, k := eng.Lin(x.Args[0].Args[1])
	if b != nil && b == c.E.Len(list) && k == -1 {
		return 1
	}
	if b == nil || b == c.E.Len(list) {
		return -1
	}
	return 0
}

// containsBody: a text concatenated of the body and something else.
func (c *Ctx) containsBody(st *eng.State, t, resp *eng.Term) bool {
	if t.Op != eng.OConcat {
		return false
	}
	body, more := false, false
	for _, a := range t.Args {
		if c.lastBody(st, a, resp) != 0 {
			body = true
		} else if s, ok := a.Str(); ok && s != "" {
			more = true
		}
	}
	return body && more
}

// whoisLines: every line of the WHOIS view is written.
func (c *Ctx) whoisLines() {
	type rec struct {
		st *eng.State
		ev *eng.Event
		ct []*eng.Term
	}
	var recs []rec
	s := &cliScn{name: "whois", args: 1, sandbox: -1, flags: map[string]string{"whois": "true", "type": "domain"}, doOK: 1}
	var w, stdout *eng.Term
	s.setup = func(st *eng.State, ps []*eng.Term) { stdout = ps[1] }
	s.onCall = func(st *eng.State, ev *eng.Event) {
		if ev.Key == kWhois {
			w = ev.Res
			c.assumeNil(st, w, false)
			return
		}
		if ct, ok := c.writesTo(ev, stdout); ok && w != nil {
			c.E.Emit(rec{st.Freeze(), ev, ct})
		}
	}
	o := c.cli("whois", s)
	if o == nil {
		return
	}
	for _, x := range o.recs {
		recs = append(recs, x.(rec))
	}
	if w == nil || len(recs) == 0 {
		c.Unknown("whois", "no WHOIS output found")
		return
	}
	for _, r := range recs {
		n := 0
		lists := map[string]int{}
		for _, t := range r.ct {
			t.Walk(func(x *eng.Term) bool {
				l, idx, ok := elemAccess(x)
				if !ok || !l.Contains(w) {
					return true
				}
				if _, isC := idx.Int(); !isC && idx.Op == eng.OParam {
					return true
				}
				n++
				full := l
				for full.Op == eng.OSlice {
					full = full.Args[0]
				}
				if full != l {
					c.Bad("whois", r.ev.Fn, posOf(r.ev.Instr), "only a part of the WHOIS view is output (%s)", short(l))
					return true
				}
				v, why := c.fullRange(r.st, l, idx)
				switch v {
				case 1:
					c.Ok("whois", "all of %s is output", short(l))
				case -1:
					c.Bad("whois", r.ev.Fn, posOf(r.ev.Instr), "not all of the WHOIS view is output: %s", why)
				default:
					c.Unknown("whois", "%s: %s", short(l), why)
				}
				if l.Op == eng.OMapGet {
					lists["value"]++
				} else {
					lists["key"]++
				}
				return true
			})
		}
		if n == 0 {
			c.Unknown("whois", "output of %s", shortList(r.ct))
			continue
		}
		// a condition on the data around the output hides lines
		for _, t := range r.st.FactTerms() {
			if t.Contains(w) && (t.Op == eng.OEq || t.Op == eng.OCall) && t.T != nil && t.T.String() == "bool" && !t.Args[len(t.Args)-1].IsNil() {
				if t.Op == eng.OEq && (t.Args[0] == w || t.Args[1] == w) {
					continue
				}
				c.Unknown("whois", "output under the condition %s", short(t))
			}
		}
	}
}

func runC29(c *Ctx) {
	c.whoisLines()
	for m := 0; m < 16; m++ {
		fl := map[string]string{"verbose": "false", "version": "false", "exp": "", "experimental": "false", "cert": "", "key": "", "p12": "", "type": "domain", "server": ""}
		on := map[string]bool{}
		for i, f := range []string{"text", "whois", "json", "raw"} {
			on[f] = m>>i&1 == 1
			fl[f] = fmt.Sprint(on[f])
		}
		name := fmt.Sprintf("text=%v whois=%v json=%v raw=%v", on["text"], on["whois"], on["json"], on["raw"])
		if m == 0 {
			on["text"] = true
		}
		s := &cliScn{name: name, free: true, args: 1, sandbox: -1, flags: fl, doOK: 1, keep: streamKeep}
		s.onCall = func(st *eng.State, ev *eng.Event) {
			if ev.Key == kIndent {
				c.assumeNil(st, ev.Res, true)
			}
		}
		o := c.cli("output", s)
		if o == nil {
			continue
		}
		n := 0
		for _, r := range o.outs {
			if r.Panic || r.St.Trace == nil {
				continue
			}
			if rc, ok := r.Rets[0].Int(); !ok || rc != 0 {
				continue
			}
			do := hasEvent(r.St.Trace, kDo)
			if do == nil {
				continue
			}
			n++
			resp := c.resultOf(do.Res, 0)
			pos := posOf(r.In)
			got := map[string]int{}
			odd := false
			after := false
			var indented bool
			for _, ev := range r.St.Trace.Events() {
				if ev == do {
					after = true
					continue
				}
				if !after {
					continue
				}
				switch {
				case ev.Key == kPrint:
					w := c.FieldOf(ev.St, ev.Args[0], "Writer")
					obj := ev.Args[1]
					c.Check(w != nil && Unwrap(w) == o.stdout && obj == c.Field(r.St, resp, "Object"), "output", ev.Fn, posOf(ev.Instr), "%s: the text output is that of the result, on standard output (%s)", name, short(obj))
					got["text"]++
				case ev.Key == kWhois:
					c.Check(ev.Args[0] == resp, "output", ev.Fn, posOf(ev.Instr), "%s: the WHOIS view is that of the result", name)
					got["whois"]++
				case ev.Key == kIndent:
					k := c.lastBody(r.St, ev.Args[1], resp)
					if k == 0 {
						odd = true
						c.Unknown("output", "%s: JSON output of %s", name, short(ev.Args[1]))
					} else {
						c.Check(k == 1, "output", ev.Fn, posOf(ev.Instr), "%s: the JSON output is the body of the answering exchange (%s)", name, short(ev.Args[1]))
					}
					indented = true
					got["json"]++
				case strings.HasPrefix(ev.Key, "encoding/json."):
					odd = true
				default:
					ct, w := c.writesTo(ev, o.stdout)
					if !w {
						continue
					}
					if _, isC := ct[0].Str(); isC {
						continue
					}
					raw := 0
					for _, t := range ct {
						if k := c.lastBody(r.St, t, resp); k != 0 {
							raw = k
						}
					}
					if raw != 0 {
						c.Check(raw == 1, "output", ev.Fn, posOf(ev.Instr), "%s: the raw output is the body of the answering exchange (%s)", name, short(ct[0]))
						got["raw"]++
						continue
					}
					if len(ct) == 1 && c.containsBody(r.St, ct[0], resp) {
						c.Bad("output", ev.Fn, posOf(ev.Instr), "%s: the raw output has more than the body (%s)", name, short(ct[0]))
						got["raw"]++
						continue
					}
					if f := c.changedBody(r.St, ct[0], resp); f != "" && !indented {
						c.Bad("output", ev.Fn, posOf(ev.Instr), "%s: the raw output is the body changed by %s", name, f)
						got["raw"]++
						continue
					}
					if indented {
						continue // the indented text
					}
					if got["whois"] == 0 {
						odd = true
						c.Unknown("output", "%s: %s written", name, short(ct[0]))
					}
				}
			}
			if odd {
				continue
			}
			for _, f := range []string{"text", "whois", "json", "raw"} {
				want := 0
				if on[f] {
					want = 1
				}
				c.Check(got[f] == want, "output", o.fn, pos, "%s: %s output %d times, expected %d", name, f, got[f], want)
			}
			if on["json"] {
				w := false
				for _, ev := range r.St.Trace.Events() {
					if ct, ok := c.writesTo(ev, o.stdout); ok && len(ct) > 0 {
						if _, isC := ct[0].Str(); !isC {
							w = true
						}
					}
				}
				c.Check(w, "output", o.fn, pos, "%s: the JSON text is written to standard output", name)
			}
		}
		if n == 0 {
			c.Bad("output", o.fn, 0, "%s: no path outputs the result", name)
		}
	}
}
