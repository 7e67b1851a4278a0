package rules

import (
	"fmt"
	"go/types"
	"strings"
	"syscall"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C12", Run: runC12, Floor: 40,
		Assumptions: []string{"os.Stat, os.ReadFile and os.WriteFile work as documented and a changed file has a newer modification time", "caches are made by their constructors"},
		Method:      "Abstract interpretation of every method of the two caches. Time comparisons are reduced to linear forms over now, modification time, last loaded time and timeout and decided per scenario (file absent, fresh, expired, loaded, newer than loaded, call failed); the returned state, bytes, errors, map updates and the origin of every stored or returned slice are compared with the documented ones on every path."})
}

// tform is a linear form over now (N), modification time (M), last loaded
// time (L) and timeout (T).
type tform struct {
	n, m, l, t, k int64
}

func (a tform) add(b tform, s int64) tform {
	return tform{a.n + s*b.n, a.m + s*b.m, a.l + s*b.l, a.t + s*b.t, a.k + s*b.k}
}

type cacheScn struct {
	name string
	has  int // file present (stat succeeds, map has it)
	exp  int // sign of age - timeout
	load int // loaded before (disk)
	rel  int // sign of mtime - loaded mtime
	read int // ReadFile, WriteFile
	want []string
}

type cacheRun struct {
	c       *Ctx
	disk    bool
	cl      *eng.Term
	file    *eng.Term
	data    *eng.Term
	timeout *eng.Term
	maps    map[string]*eng.Term // map fields at entry
	outs    []*eng.Outcome
	fn      *ssa.Function
}

func (r *cacheRun) lin(t *eng.Term) (tform, bool) {
	t = stripConv(t)
	if t == nil {
		return tform{}, false
	}
	if n, ok := t.Int(); ok {
		return tform{k: n}, true
	}
	if t == r.timeout {
		return tform{t: 1}, true
	}
	two := func(a, b *eng.Term, s int64) (tform, bool) {
		x, ok1 := r.lin(a)
		y, ok2 := r.lin(b)
		return x.add(y, s), ok1 && ok2
	}
	switch t.Op {
	case eng.OCall:
		switch t.S {
		case "time.Now":
			return tform{n: 1}, true
		case "(time.Time).Add":
			return two(t.Args[0], t.Args[1], 1)
		case "(time.Time).Sub":
			return two(t.Args[0], t.Args[1], -1)
		case "time.Since":
			x, ok := r.lin(t.Args[0])
			return tform{n: 1}.add(x, -1), ok
		case "time.Until":
			x, ok := r.lin(t.Args[0])
			return x.add(tform{n: 1}, -1), ok
		case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In", "(time.Time).UnixNano":
			return r.lin(t.Args[0])
		}
		if strings.HasSuffix(t.S, "FileInfo).ModTime") {
			return tform{m: 1}, true
		}
	case eng.OUn:
		if t.S == "-" {
			x, ok := r.lin(t.Args[0])
			return tform{}.add(x, -1), ok
		}
	case eng.OBin:
		switch t.S {
		case "+":
			return two(t.Args[0], t.Args[1], 1)
		case "-":
			return two(t.Args[0], t.Args[1], -1)
		}
	case eng.OMapGet, eng.OField:
		if isTime(t.T) && t.Contains(r.file) {
			if r.disk {
				return tform{l: 1}, true
			}
			return tform{m: 1}, true
		}
	}
	return tform{}, false
}

func isTime(t types.Type) bool { return t != nil && t.String() == "time.Time" }

// sign of a form in a scenario; ok is false when it is not determined.
func (s *cacheScn) sign(f tform) (int, bool) {
	age := tform{n: 1, m: -1, t: -1}
	rel := tform{m: 1, l: -1}
	switch {
	case f == tform{}:
		return 0, true
	case f == age && s.exp != 0:
		return s.exp, true
	case f == tform{}.add(age, -1) && s.exp != 0:
		return -s.exp, true
	case f == rel && s.load == 1:
		return s.rel, true
	case f == tform{}.add(rel, -1) && s.load == 1:
		return -s.rel, true
	case f == tform{k: f.k}:
		if f.k > 0 {
			return 1, true
		}
		return -1, true
	}
	return 0, false
}

// cache analyses a method of a cache in a scenario.
func (c *Ctx) cache(rule, typ, name string, s *cacheScn, onCall func(st *eng.State, ev *eng.Event)) *cacheRun {
	fn := c.Func(pkgCache, "*"+typ+"."+name)
	if fn == nil {
		c.Unknown(rule, "(*%s).%s not found", typ, name)
		return nil
	}
	e := c.E
	r := &cacheRun{c: c, disk: typ == "DiskCache", fn: fn, maps: map[string]*eng.Term{}}
	h := &eng.Hooks{MaxStates: 200, SplitFacts: 60}
	h.Keep = func(ev *eng.Event) bool { return fileCall(ev) != nil || strings.HasPrefix(ev.Key, "os.") || strings.HasPrefix(ev.Key, "(*os.") || ev.Key == kReadAll }
	cmp := func(st *eng.State, a, b *eng.Term) (int, bool) {
		x, ok1 := r.lin(a)
		y, ok2 := r.lin(b)
		if !ok1 || !ok2 {
			st.Prop = "?"
			if rounds := func(t *eng.Term) bool {
				return t.Op == eng.OCall && (t.S == "(time.Time).Truncate" || t.S == "(time.Time).Round") && t.Args[1].Op == eng.OConst
			}; a.Any(rounds) || b.Any(rounds) {
				st.Prop = "" // a rounded time may compare either way
			}
			return 0, false
		}
		return s.sign(x.add(y, -1))
	}
	h.OnCall = func(st *eng.State, ev *eng.Event) {
		switch ev.Key {
		case "(time.Time).Before", "(time.Time).After", "(time.Time).Equal":
			if d, ok := cmp(st, ev.Args[0], ev.Args[1]); ok {
				v := d == 0
				if ev.Key == "(time.Time).Before" {
					v = d < 0
				} else if ev.Key == "(time.Time).After" {
					v = d > 0
				}
				c.assume(st, ev.Res, v)
			}
		case "(time.Time).Compare":
			if d, ok := cmp(st, ev.Args[0], ev.Args[1]); ok {
				c.assume(st, e.Eq(ev.Res, e.IntC(int64(d))), true)
			}
		case "(time.Time).IsZero":
			if f, ok := r.lin(ev.Args[0]); ok && f == (tform{m: 1}) && s.has != 0 {
				c.assume(st, ev.Res, s.has == -1)
			} else if ok && f == (tform{l: 1}) && s.load != 0 {
				c.assume(st, ev.Res, s.load == -1)
			}
		case "time.Since", "time.Until", "(time.Time).Sub", "(time.Time).UnixNano":
			f, ok := r.lin(ev.Res)
			if !ok {
				st.Prop = "?"
				break
			}
			rel := func(x *eng.Term, d int) {
				switch {
				case d < 0:
					c.assume(st, e.Lt(ev.Res, x), true)
				case d > 0:
					c.assume(st, e.Lt(x, ev.Res), true)
				default:
					c.assume(st, e.Eq(x, ev.Res), true)
				}
			}
			if d, ok := s.sign(f); ok {
				rel(e.IntC(0), d)
			} else if d, ok := s.sign(f.add(tform{t: 1}, -1)); ok {
				rel(r.timeout, d)
			}
		case "os.Stat", "os.Lstat":
			if len(ev.Args) > 0 && ev.Args[0].Contains(r.cl) && r.file != nil && ev.Args[0].Contains(r.file) {
				c.want(st, s.has, c.errOf(ev.Res))
			}
		case "os.ReadFile", "os.WriteFile", "io/ioutil.ReadFile", "io/ioutil.WriteFile", kReadAll:
			c.want(st, s.read, c.errOf(ev.Res))
		}
		if onCall != nil {
			onCall(st, ev)
		}
	}
	outs, _, ok := c.Run(rule, fn, h, func(st *eng.State, ps []*eng.Term) []*eng.Term {
		r.cl = ps[0]
		c.assumeNil(st, ps[0], false)
		if len(ps) > 1 && isStringT(ps[1].T) {
			r.file = ps[1]
		}
		if len(ps) > 2 {
			r.data = ps[2]
		}
		r.timeout = c.Field(st, ps[0], "Timeout")
		sv, ok := ps[0].T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if !ok || r.file == nil {
			return nil
		}
		for i := 0; i < sv.NumFields(); i++ {
			mt, ok := sv.Field(i).Type().Underlying().(*types.Map)
			if !ok || !isStringT(mt.Key()) {
				continue
			}
			m := c.Field(st, ps[0], sv.Field(i).Name())
			c.assumeNil(st, m, false)
			r.maps[sv.Field(i).Name()] = m
			has := s.has
			if r.disk {
				has = s.load
			}
			if has != 0 {
				_, h := e.MapLookup(st, e.MapContent(st, m), r.file, mt.Elem())
				c.assume(st, h, has == 1)
			}
		}
		return nil
	})
	if !ok {
		return nil
	}
	r.outs = outs
	return r
}

// stored is what a map field has for the file at the end.
func (r *cacheRun) stored(st *eng.State, field string) *eng.Term {
	e := r.c.E
	m := r.c.Field(st, r.cl, field)
	if m == nil || e.MapContent(st, m) == e.MapContent(e.EmptyState(), r.maps[field]) {
		return nil
	}
	mt := r.maps[field].T.Underlying().(*types.Map)
	v, has := e.MapLookup(st, e.MapContent(st, m), r.file, mt.Elem())
	if b, ok := has.Bool(); !ok || !b {
		return nil
	}
	return v
}

// parts lists a value or the fields of a struct value.
func (c *Ctx) partsOf(st *eng.State, v *eng.Term) []*eng.Term {
	if v == nil {
		return nil
	}
	t := v.T
	if p, ok := t.(*types.Pointer); ok && t != nil {
		t = p.Elem()
	}
	if t == nil || isTime(t) {
		return []*eng.Term{v}
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return []*eng.Term{v}
	}
	var r []*eng.Term
	for i := 0; i < s.NumFields(); i++ {
		if f := c.FieldOf(st, v, s.Field(i).Name()); f != nil {
			r = append(r, f)
		}
	}
	return r
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), types.Typ[types.Byte])
}

// copyOf: t is a fresh copy of the bytes src. 1 yes, -1 no, 0 unknown.
func (c *Ctx) copyOf(st *eng.State, t, src *eng.Term) (int, string) {
	if t == src {
		return -1, "the slice is shared"
	}
	switch t.Op {
	case eng.OAlloc:
		cont, ok := c.E.SliceContent(st, t)
		if ok && cont == src {
			return 1, ""
		}
		if !ok {
			return -1, "the bytes are not copied"
		}
		return 0, ""
	case eng.OMapGet:
		if t.Args[0].Op == eng.OMapInit && c.E.Decide(st, c.E.Eq(c.E.Len(t), c.E.Len(src))) != 1 {
			return -1, "the bytes are put into the slice of the file saved before, whatever its length"
		}
	case eng.OAppendAll:
		b := t.Args[0]
		fresh := b.IsNil() || b.Op == eng.OAlloc
		if el := c.E.Elems(st, b); fresh && (b.IsNil() || el != nil && len(el) == 0) && stripConv(t.Args[1]) == src {
			return 1, ""
		}
		if t.Args[0].Contains(src) {
			return -1, "the backing array may be shared"
		}
		return 0, ""
	case eng.OCall:
		if (t.S == "bytes.Clone" || t.S == "slices.Clone") && t.Args[0] == src {
			return 1, ""
		}
	case eng.OConv:
		if isStringT(t.Args[0].T) && stripConv(t) == src {
			return 1, ""
		}
	case eng.OSlice:
		if t.Args[0] == src || t.Args[0].Op != eng.OAlloc && t.Args[0].Contains(src) {
			return -1, "the slice is shared"
		}
	}
	return 0, ""
}

func runC12(c *Ctx) {
	sts := c.ConstsOf(pkgCache, "FileState")
	for _, typ := range []string{"MemoryCache", "DiskCache"} {
		disk := typ == "DiskCache"
		var ss []*cacheScn
		if !disk {
			ss = []*cacheScn{
				{name: "absent", has: -1, exp: 1, want: []string{"Absent"}},
				{name: "absent", has: -1, exp: -1, want: []string{"Absent"}},
				{name: "fresh", has: 1, exp: -1, want: []string{"Good"}},
				{name: "expired", has: 1, exp: 1, want: []string{"Expired"}},
			}
		} else {
			for _, ld := range []int{1, -1} {
				for _, rel := range []int{0, 1, -1} {
					if ld == -1 && rel != 0 {
						continue
					}
					nm := ", not loaded"
					good := "ShouldReload"
					if ld == 1 {
						nm = []string{", older than the loaded version", ", loaded", ", newer than the loaded version"}[rel+1]
						if rel <= 0 {
							good = "Good"
						}
					}
					w := []string{good}
					if rel == -1 {
						w = []string{"Good", "ShouldReload"}
					}
					ss = append(ss,
						&cacheScn{name: "no file" + nm, has: -1, exp: -1, load: ld, rel: rel, want: []string{"Absent"}},
						&cacheScn{name: "fresh" + nm, has: 1, exp: -1, load: ld, rel: rel, want: w},
						&cacheScn{name: "expired" + nm, has: 1, exp: 1, load: ld, rel: rel, want: []string{"Expired"}})
				}
			}
		}
		for _, s := range ss {
			r := c.cache("state", typ, "State", s, nil)
			if r == nil {
				continue
			}
			n := 0
			for _, o := range r.outs {
				if o.Panic {
					continue
				}
				n++
				k, ok := o.Rets[0].Int()
				if !ok {
					if v, ok2 := o.St.AVOf(o.Rets[0]).Values(1); ok2 && len(v) == 1 {
						k, ok = v[0], true
					}
				}
				if !ok {
					c.Unknown("state", "%s, %s: state %s", typ, s.name, short(o.Rets[0]))
					continue
				}
				got := constName(sts, k)
				good := false
				for _, w := range s.want {
					good = good || w == got
				}
				switch {
				case good:
					c.Ok("state", "%s, %s: %s", typ, s.name, got)
				case o.St.Prop == "?" && s.has != -1:
					c.Unknown("state", "%s, %s: time comparison", typ, s.name)
				default:
					c.Bad("state", r.fn, posOf(o.In), "%s: a file that is %s is reported as %s, not %s", typ, s.name, got, strings.Join(s.want, " or "))
				}
				for f, m := range r.maps {
					if c.E.MapContent(o.St, c.Field(o.St, r.cl, f)) != c.E.MapContent(c.E.EmptyState(), m) {
						c.Bad("state", r.fn, posOf(o.In), "%s: asking for the state changes the cache (%s)", typ, f)
					}
				}
			}
			if n == 0 {
				c.Unknown("state", "%s, %s: no path ends", typ, s.name)
			}
		}
		c.cacheTimeout(typ)
		if typ == "MemoryCache" {
			c.clientTimeout()
		}
	}
	c.memoryBytes()
	c.diskBytes()
}

// clientTimeout: the bootstrap client does not give the caches it makes
// another lifetime by default.
func (c *Ctx) clientTimeout() {
	for _, root := range []string{"*Client.Lookup", "*Client.Download"} {
		f := c.Func(pkgBoot, root)
		if f == nil {
			continue
		}
		for fn := range c.reachFrom(f) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := call.Common()
					name := ""
					if cc.IsInvoke() {
						name = cc.Method.Name()
					} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
						name = f.Name()
					}
					if name != "SetTimeout" || len(cc.Args) == 0 {
						continue
					}
					if k, ok := cc.Args[len(cc.Args)-1].(*ssa.Const); ok && k.Value != nil {
						c.Check(k.Int64() == 24*3600*1e9, "timeout", fn, posOf(in), "the bootstrap client's caches have a timeout of 24 hours unless set (%d ns)", k.Int64())
					}
				}
			}
		}
	}
}

// cacheTimeout: SetTimeout and the default.
func (c *Ctx) cacheTimeout(typ string) {
	if fn := c.Func(pkgCache, "*"+typ+".SetTimeout"); fn != nil {
		var cl, v *eng.Term
		outs, _, ok := c.Run("timeout", fn, &eng.Hooks{}, func(st *eng.State, ps []*eng.Term) []*eng.Term {
			cl, v = ps[0], ps[1]
			return nil
		})
		if ok {
			for _, o := range outs {
				if o.Panic {
					continue
				}
				t := c.Field(o.St, cl, "Timeout")
				c.Check(t == v, "timeout", fn, posOf(o.In), "(*%s).SetTimeout sets the timeout (%s)", typ, short(t))
			}
		}
	}
	fn := c.Func(pkgCache, "New"+typ)
	if fn == nil {
		return
	}
	outs, _, ok := c.Run("timeout", fn, &eng.Hooks{}, nil)
	if !ok {
		return
	}
	for _, o := range outs {
		if o.Panic {
			continue
		}
		t := c.FieldOf(o.St, o.Rets[0], "Timeout")
		if t == nil {
			c.Unknown("timeout", "New%s: timeout", typ)
			continue
		}
		if k, isc := t.Int(); isc {
			c.Check(k == 24*3600*1e9, "timeout", fn, posOf(o.In), "New%s: the default timeout is 24 hours (%d ns)", typ, k)
		} else {
			c.Unknown("timeout", "New%s: timeout %s", typ, short(t))
		}
	}
}

func (c *Ctx) memoryBytes() {
	const typ = "MemoryCache"
	e := c.E
	field := "" // where Save puts the bytes
	if r := c.cache("save", typ, "Save", &cacheScn{}, nil); r != nil {
		for _, o := range r.outs {
			if o.Panic {
				continue
			}
			pos := posOf(o.In)
			switch c.IsNil(o.St, o.Rets[0]) {
			case -1:
				c.Bad("save", r.fn, pos, "%s: Save fails", typ)
				continue
			case 0:
				c.Unknown("save", "%s: error %s", typ, short(o.Rets[0]))
				continue
			}
			bytesOk, timeOk := 0, false
			why := "the file is not stored"
			wt := "the time of saving is not stored"
			for f := range r.maps {
				v := r.stored(o.St, f)
				for _, p := range c.partsOf(o.St, v) {
					if p.T == nil {
						continue
					}
					switch {
					case p.T != nil && isBytes(p.T):
						field = f
						bytesOk, why = c.copyOf(o.St, p, r.data)
					case isTime(p.T):
						lf, ok := r.lin(p)
						timeOk = ok && lf == tform{n: 1}
						if !timeOk {
							wt = "another time than that of saving is stored (" + short(p) + ")"
						}
					}
				}
				if v != nil && v.T == nil && v.IsNil() {
					why = "nil is stored"
				}
				mt := r.maps[f].T.Underlying().(*types.Map)
				if m := c.Field(o.St, r.cl, f); v == nil && m != nil && isBytes(mt.Elem()) && field == "" && c.E.MapContent(o.St, m) == c.E.MapContent(c.E.EmptyState(), r.maps[f]) {
					old, _ := c.E.MapLookup(o.St, c.E.MapContent(o.St, m), r.file, mt.Elem())
					if c.E.Decide(o.St, c.E.Eq(c.E.Len(old), c.E.Len(r.data))) != 1 {
						bytesOk, why = -1, "the slice of the file saved before stays, whatever its length"
					}
				}
			}
			switch bytesOk {
			case 1:
				c.Ok("save", "%s: a copy of the bytes is stored", typ)
			case -1:
				c.Bad("save", r.fn, pos, "%s.Save: %s", typ, why)
			default:
				if field == "" && why == "the file is not stored" && len(r.maps) > 0 && !c.anyChange(r, o.St) {
					c.Bad("save", r.fn, pos, "%s.Save: %s", typ, why)
				} else {
					c.Unknown("save", "%s.Save: stored bytes", typ)
				}
			}
			if timeOk {
				c.Ok("save", "%s: the time of saving is stored", typ)
			} else if len(r.maps) > 0 {
				c.Bad("save", r.fn, pos, "%s.Save: %s", typ, wt)
			} else {
				c.Unknown("save", "%s.Save: stored time", typ)
			}
		}
	}
	for _, has := range []int{1, -1} {
		r := c.cache("load", typ, "Load", &cacheScn{has: has}, nil)
		if r == nil {
			continue
		}
		for _, o := range r.outs {
			if o.Panic {
				continue
			}
			pos := posOf(o.In)
			if has == -1 {
				c.Check(c.IsNil(o.St, o.Rets[1]) == -1, "load", r.fn, pos, "%s: Load of a missing file is an error (%s)", typ, short(o.Rets[1]))
				continue
			}
			if n := c.IsNil(o.St, o.Rets[1]); n != 1 {
				if n == -1 {
					c.Bad("load", r.fn, pos, "%s: Load of a present file fails", typ)
				} else {
					c.Unknown("load", "%s.Load: error %s", typ, short(o.Rets[1]))
				}
				continue
			}
			if field == "" {
				c.Unknown("load", "%s: the field of the bytes is unknown", typ)
				continue
			}
			m := r.maps[field]
			v, _ := e.MapLookup(e.EmptyState(), e.MapContent(e.EmptyState(), m), r.file, m.T.Underlying().(*types.Map).Elem())
			verdict, why := 0, ""
			for _, src := range c.partsOf(o.St, v) {
				if src.T != nil && isBytes(src.T) {
					verdict, why = c.copyOf(o.St, o.Rets[0], src)
				}
			}
			switch verdict {
			case 1:
				c.Ok("load", "%s: a copy of the saved bytes is returned", typ)
			case -1:
				c.Bad("load", r.fn, pos, "%s.Load: %s", typ, why)
			default:
				if o.Rets[0].IsNil() {
					c.Bad("load", r.fn, pos, "%s.Load: no bytes are returned", typ)
				} else {
					c.Unknown("load", "%s.Load: returned bytes %s", typ, short(o.Rets[0]))
				}
			}
		}
	}
}

func (c *Ctx) anyChange(r *cacheRun, st *eng.State) bool {
	for f, m := range r.maps {
		if c.E.MapContent(st, c.Field(st, r.cl, f)) != c.E.MapContent(c.E.EmptyState(), m) {
			return true
		}
	}
	return false
}

// keepsOld: the file is opened for writing in a way that keeps the bytes it
// has.
func (c *Ctx) keepsOld(r *cacheRun, o *eng.Outcome, name string) {
	for _, ev := range evsOf(o) {
		switch ev.Key {
		case "os.Truncate", "(*os.File).Truncate", "os.Rename", "os.Remove", "os.RemoveAll", "os.CreateTemp":
			return
		}
	}
	for _, ev := range evsOf(o) {
		if ev.Key != "os.OpenFile" || len(ev.Args) < 2 || r.file == nil || !ev.Args[0].Contains(r.file) {
			continue
		}
		fl, isc := ev.Args[1].Int()
		if isc && fl&3 != 0 && fl&(syscall.O_TRUNC|syscall.O_EXCL) == 0 {
			c.Bad("disk", r.fn, posOf(ev.Instr), "%s: the file is overwritten without truncating it, the end of a longer version stays", name)
		}
	}
}

func (c *Ctx) diskBytes() {
	const typ = "DiskCache"
	for _, m := range []string{"Save", "Load"} {
		for _, s := range []*cacheScn{
			{name: "success", has: 1, read: 1},
			{name: "no file information", has: -1},
			{name: "the file access fails", read: -1},
			{name: "the directory cannot be made", rel: 99},
		} {
			dirFail := s.rel == 99
			s.rel = 0
			if dirFail && m == "Load" {
				continue
			}
			name := fmt.Sprintf("%s.%s, %s", typ, m, s.name)
			failed, other := false, false
			r := c.cache("disk", typ, m, s, func(st *eng.State, ev *eng.Event) {
				switch k := ev.Key; {
				case strings.HasSuffix(k, "Stat") || strings.HasSuffix(k, ".ModTime") || strings.HasPrefix(k, "time.") || strings.HasPrefix(k, "(time."):
				case k == "os.ReadFile" || k == "io/ioutil.ReadFile" || strings.HasPrefix(k, "fmt.") || strings.HasPrefix(k, "errors.") || strings.HasPrefix(k, "path/filepath.") || strings.HasPrefix(k, "(*sync."):
				default:
					other = true
				}
				if dirFail && (ev.Key == "os.MkdirAll" || ev.Key == "os.Mkdir") {
					c.assumeNil(st, ev.Res, false)
					st.Prop = "mkdir"
					failed = true
				}
			})
			if r == nil {
				continue
			}
			if dirFail && !failed {
				c.Unknown("disk", "%s: the directory is not made", name)
				continue
			}
			for _, o := range r.outs {
				if o.Panic || dirFail && o.St.Prop != "mkdir" {
					continue
				}
				pos := posOf(o.In)
				err := o.Rets[len(o.Rets)-1]
				isErr := c.IsNil(o.St, err)
				io := -1
				var ioEv *eng.Event
				for i, ev := range evsOf(o) {
					switch ev.Key {
					case "os.WriteFile", "io/ioutil.WriteFile", "os.ReadFile", "io/ioutil.ReadFile", kReadAll:
						io, ioEv = i, ev
					}
				}
				changed := c.anyChange(r, o.St)
				if s.name != "success" {
					if m == "Save" && !dirFail && ioEv == nil {
						continue // failed before
					}
					if s.name == "the file access fails" && ioEv == nil && isErr == 1 {
						c.Unknown("disk", "%s: no file access", name)
						continue
					}
					c.Check(isErr == -1, "disk", r.fn, pos, "%s: an error is returned (%s)", name, short(err))
					c.Check(!changed, "disk", r.fn, pos, "%s: the file is not marked as loaded", name)
					continue
				}
				if ioEv == nil {
					switch {
					case isErr == 1:
						c.keepsOld(r, o, name)
						c.Unknown("disk", "%s: no file access", name)
					case m == "Load" && isErr == -1 && !other:
						c.Bad("disk", r.fn, pos, "%s: an error is returned for a file that can be read, before it is read", name)
					}
					continue // the directory could not be made
				}
				switch {
				case m == "Save" && ioEv.Args[1] != r.data:
					d := stripConv(ioEv.Args[1])
					if d.Op == eng.OSlice || !d.Contains(r.data) {
						c.Bad("disk", r.fn, posOf(ioEv.Instr), "%s: other bytes are written (%s)", name, short(d))
					} else {
						c.Unknown("disk", "%s: bytes written %s", name, short(d))
					}
				case m == "Load" && o.Rets[0] != c.resultOf(ioEv.Res, 0):
					d := stripConv(o.Rets[0])
					if d.Op == eng.OSlice || d.IsNil() || !d.Contains(ioEv.Res) {
						c.Bad("disk", r.fn, pos, "%s: other bytes than those read are returned (%s)", name, short(d))
					} else {
						c.Unknown("disk", "%s: returned bytes %s", name, short(d))
					}
				default:
					c.Ok("disk", "%s: the file's bytes", name)
				}
				c.Check(isErr == 1, "disk", r.fn, pos, "%s: no error is returned (%s)", name, short(err))
				if len(r.maps) == 0 {
					c.Unknown("disk", "%s: no record of loaded files", name)
					continue
				}
				var mod *eng.Term
				for f := range r.maps {
					for _, p := range c.partsOf(o.St, r.stored(o.St, f)) {
						if isTime(p.T) {
							mod = p
						}
					}
				}
				if mod == nil {
					if changed {
						c.Unknown("disk", "%s: record of the loaded version", name)
					} else {
						c.Bad("disk", r.fn, pos, "%s: the version is not recorded as loaded", name)
					}
					continue
				}
				lf, ok := r.lin(mod)
				if !ok {
					c.Unknown("disk", "%s: recorded version %s", name, short(mod))
					continue
				}
				if (lf != tform{m: 1}) {
					c.Bad("disk", r.fn, pos, "%s: the recorded version is not the file's modification time (%s)", name, short(mod))
					continue
				}
				at := -1
				for i, ev := range evsOf(o) {
					if strings.HasSuffix(ev.Key, "Stat") && ev.Res != nil && mod.Contains(ev.Res) {
						at = i
					}
				}
				switch {
				case at < 0:
					c.Unknown("disk", "%s: origin of the modification time", name)
				case m == "Save" && at < io:
					c.Bad("disk", r.fn, pos, "%s: the modification time is taken before the file is written", name)
				case m == "Load" && at > io:
					c.Bad("disk", r.fn, pos, "%s: the modification time is taken after the file was read, a version written in between counts as loaded", name)
				default:
					c.Ok("disk", "%s: the version is recorded as loaded", name)
				}
			}
		}
	}
}
