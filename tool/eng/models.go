package eng

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "path": true, "path/filepath": true, "net": true, "net/url": true, "errors": true,
	"math": true, "bytes": true, "unicode": true, "unicode/utf8": true, "encoding/hex": true, "encoding/base64": true,
	"slices": true, "maps": true, "sort": true, "net/netip": true, "cmp": true, "math/bits": true, "regexp": true, "time": true,
	"reflect": true, "html": true, "net/textproto": true, "mime": true, "golang.org/x/net/idna": true, "math/big": true,
	"encoding/pem": true, "crypto/sha256": true, "crypto/sha1": true, "crypto/md5": true, "crypto/sha512": true, "hash/fnv": true,
	"encoding/binary": true, "encoding/json": true, "iter": true, "fmt": true, "golang.org/x/crypto/pkcs12": true, "github.com/davecgh/go-spew/spew": true,
}

var impure = map[string]bool{
	"time.Now": true, "time.Since": true, "time.Until": true, "time.Sleep": true, "time.After": true, "time.NewTimer": true, "time.AfterFunc": true, "time.NewTicker": true, "time.Tick": true,
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true, "path/filepath.EvalSymlinks": true, "path/filepath.Abs": true,
	"net.Dial": true, "net.LookupHost": true, "net.LookupIP": true, "net.Listen": true, "net.DialTimeout": true,
	"(reflect.Value).IsNil": true, "(reflect.Value).Interface": true, "(reflect.Value).Len": true, "(reflect.Value).Elem": true, "(reflect.Value).String": true,
	"(reflect.Value).Set": true, "(reflect.Value).SetBool": true, "(reflect.Value).SetFloat": true, "(reflect.Value).SetInt": true, "(reflect.Value).SetUint": true, "(reflect.Value).SetString": true, "(reflect.Value).SetMapIndex": true, "(reflect.Value).SetLen": true, "(reflect.Value).SetZero": true, "(reflect.Value).Grow": true,
	"reflect.New": true, "reflect.MakeMap": true, "reflect.MakeSlice": true, "reflect.MakeMapWithSize": true, "reflect.Append": true, "reflect.Indirect": false,
	"fmt.Print": true, "fmt.Println": true, "fmt.Printf": true, "fmt.Fprint": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Scan": true, "fmt.Scanln": true, "fmt.Scanf": true,
	"crypto/sha256.New": true, "crypto/sha1.New": true, "crypto/md5.New": true, "crypto/sha512.New": true, "hash/fnv.New64a": true, "hash/fnv.New32a": true,
	"encoding/json.NewDecoder": true, "encoding/json.NewEncoder": true, "(*encoding/json.Decoder).Decode": true, "(*encoding/json.Encoder).Encode": true,
	"bytes.NewBuffer": true, "bytes.NewBufferString": true, "bytes.NewReader": true, "strings.NewReader": true,
}

func pkgOfKey(key string) string {
	s := strings.TrimPrefix(key, "(")
	s = strings.TrimPrefix(s, "*")
	if i := strings.LastIndex(s, "/"); i >= 0 {
		j := strings.Index(s[i:], ".")
		if j < 0 {
			return s
		}
		return s[:i+j]
	}
	if j := strings.Index(s, "."); j >= 0 {
		return s[:j]
	}
	return s
}

// Pure reports whether an external function has no effect and depends on
// nothing but its arguments.
func Pure(key string) bool {
	if v, ok := impure[key]; ok {
		return !v
	}
	if !purePkgs[pkgOfKey(key)] {
		switch key {
		case "context.Background", "context.TODO", "(error).Error", "(fmt.Stringer).String", "(net/http.Header).Get", "(net/http.Header).Values", "(os.FileInfo).ModTime", "(io/fs.FileInfo).ModTime", "os.IsNotExist", "os.IsExist", "(reflect.Type).Kind", "net/http.StatusText", "(os.FileInfo).IsDir", "(io/fs.FileInfo).IsDir", "sync.OnceValue", "sync.OnceFunc", "(io/fs.FileInfo).Mode", "(io/fs.FileMode).IsRegular", "(io/fs.FileMode).IsDir":
			return true
		}
		return false
	}
	return true
}

var noReturn = map[string]bool{
	"log.Panic": true, "log.Panicf": true, "log.Panicln": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "os.Exit": true, "runtime.Goexit": true,
	"(*log.Logger).Panic": true, "(*log.Logger).Panicf": true, "(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true,
}

// BufPtr returns the builder or buffer object a writer term denotes.
func BufPtr(t *Term) *Term {
	if t == nil {
		return nil
	}
	if t.Op == OIface {
		t = t.Args[0]
	}
	if t.T == nil {
		return nil
	}
	p, ok := t.T.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	switch types.TypeString(p.Elem(), nil) {
	case "strings.Builder", "bytes.Buffer":
		return t
	}
	return nil
}

// BufContent is the text collected in a builder or buffer.
func (e *Engine) BufContent(st *State, p *Term) *Term {
	if c, ok := e.heapGet(st, e.Contents(p)); ok {
		return c
	}
	if Root(p).Op == OAlloc || isHash(p) {
		return e.StrC("")
	}
	return e.Sym("buf:"+strconv.Itoa(p.ID), types.Typ[types.String])
}

func (e *Engine) contentOf(st *State, x *Term) *Term {
	if x.T != nil {
		if _, ok := x.T.Underlying().(*types.Map); ok {
			return e.MapContent(st, x)
		}
	}
	if BufPtr(x) != nil || isHash(x) {
		return e.BufContent(st, x)
	}
	if c, ok := e.heapGet(st, e.Contents(x)); ok {
		return c
	}
	return e.Sym("zeros:"+strconv.Itoa(x.ID), x.T)
}

func contentType(x *Term) types.Type {
	if BufPtr(x) != nil || isHash(x) {
		return types.Typ[types.String]
	}
	return x.T
}

func isHash(x *Term) bool {
	return x != nil && x.Op == OCall && x.T != nil && (types.TypeString(x.T, nil) == "hash.Hash" || strings.HasPrefix(types.TypeString(x.T, nil), "hash.Hash"))
}

func (e *Engine) str(x *Term) *Term { return e.Conv(x, types.Typ[types.String]) }

var typByteSlice = types.NewSlice(types.Typ[types.Byte])

// external models a function without a body.
func (e *Engine) external(s *bstate, fr *Frame, fn *ssa.Function, key string, args []*Term, in ssa.Instruction, deferred bool) []callRes {
	if fn.Name() == "init" && len(args) == 0 {
		return []callRes{{s, e.nilT}}
	}
	return e.externalSig(s, fr, key, "call", fn.Signature, args, in, deferred)
}

func (e *Engine) externalSig(s *bstate, fr *Frame, key, kind string, sig *types.Signature, args []*Term, in ssa.Instruction, deferred bool) []callRes {
	st := s.State
	rt := resType(sig)
	ev := &Event{Key: key, Kind: kind, Instr: in, Fn: fr.Fn, Defer: deferred, Raw: args}
	for _, a := range args {
		ev.Args = append(ev.Args, e.snapshot(st, a))
	}
	done := func(v *Term) []callRes {
		ev.Res = v
		return e.finish(s, fr, ev)
	}
	store := func(kind string, m, k, v *Term) {
		if e.H.OnStore != nil {
			e.H.OnStore(st, kind, m, k, v, fr, in)
		}
	}
	call := func(instance bool, extra ...*Term) *Term {
		i := 0
		if instance {
			i = e.inst(in, fr)
		}
		return e.mk(Term{Op: OCall, S: key, Args: append(append([]*Term{}, ev.Args...), extra...), I: i, T: rt})
	}
	sa := func(i int) (string, bool) {
		if i >= len(ev.Args) {
			return "", false
		}
		if x, ok := ev.Args[i].Str(); ok {
			return x, true
		}
		if av := st.F.av[ev.Args[i]]; av != nil && av.Fin && len(av.In) == 1 {
			return av.In[0].Str()
		}
		return "", false
	}
	boolT := types.Typ[types.Bool]
	if sig.Recv() == nil && kind == "call" && (strings.HasPrefix(key, "strings.Index") || strings.HasPrefix(key, "strings.LastIndex")) && len(ev.Args) == 2 {
		if x, ok := sa(0); ok {
			y := ev.Args[1]
			if k, ok := sa(1); ok {
				y = e.StrC(k)
			}
			if r := e.foldCall(key, []*Term{e.StrC(x), y}); r != nil {
				return done(r)
			}
		}
	}
	// nil receivers
	if sig.Recv() != nil && kind == "call" && len(args) > 0 {
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
			if !e.checkNil(st, args[0], fr, in) {
				return nil
			}
		}
	}
	if noReturn[key] {
		ev.Res = e.nilT
		if !strings.Contains(key, "os.Exit") && !strings.Contains(key, "Fatal") {
			e.check(st, "panic", false, func() string { return key }, fr, in)
		} else {
			e.check(st, "exit", false, func() string { return key }, fr, in)
		}
		e.finish(s, fr, ev)
		return nil
	}
	appendBuf := func(p, text *Term) {
		st.heap[e.Contents(p)] = e.Concat(e.BufContent(st, p), text)
	}
	fmtList := func(i int) ([]*Term, bool) {
		if i >= len(args) {
			return nil, false
		}
		el := e.Elems(st, args[i])
		return el, el != nil
	}
	if key == "(*bytes.Buffer).ReadFrom" || key == "io.Copy" && BufPtr(args[0]) != nil {
		// reading everything into a buffer is io.ReadAll
		buf := args[0]
		if key == "io.Copy" {
			buf = BufPtr(args[0])
		}
		ev.Key, ev.Args, ev.Raw = "io.ReadAll", ev.Args[1:], args[1:]
		tt := types.NewTuple(types.NewVar(0, nil, "", typByteSlice), types.NewVar(0, nil, "", types.Universe.Lookup("error").Type()))
		all := e.mk(Term{Op: OCall, S: ev.Key, Args: ev.Args, I: e.inst(in, fr), T: tt})
		data := e.Extract(all, 0, typByteSlice)
		appendBuf(buf, e.str(data))
		rs := done(all)
		for i := range rs {
			rs[i].v = e.Tuple(e.Len(data), e.Extract(all, 1, tt.At(1).Type()))
		}
		return rs
	}
	if strings.Contains(key, "reflect.") {
		if v := e.reflectCall(st, key, ev.Args, rt); v != nil {
			return done(v)
		}
	}
	switch key {
	case "fmt.Sprintf", "fmt.Errorf", "fmt.Fprintf", "fmt.Printf":
		o := 0
		if key == "fmt.Fprintf" {
			o = 1
		}
		var msg *Term
		els, ok := fmtList(o + 1)
		if ok {
			msg = e.format(ev.Args[o], els)
		}
		if msg == nil {
			msg = e.mk(Term{Op: OCall, S: "fmt.Sprintf", Args: ev.Args[o:], T: types.Typ[types.String]})
		}
		switch key {
		case "fmt.Sprintf":
			ev.Args = []*Term{msg}
			return done(msg)
		case "fmt.Errorf":
			ev.Args = []*Term{msg}
			return done(e.mk(Term{Op: OCall, S: "fmt.Errorf", Args: append([]*Term{msg}, els...), T: rt}))
		case "fmt.Printf":
			ev.Args = []*Term{msg}
			return done(call(true))
		}
		ev.Args = []*Term{ev.Args[0], msg}
		if p := BufPtr(args[0]); p != nil {
			appendBuf(p, msg)
		}
		return done(call(true))
	case "fmt.Sprint", "fmt.Sprintln", "fmt.Fprint", "fmt.Fprintln", "fmt.Print", "fmt.Println":
		o := 0
		if strings.HasPrefix(key, "fmt.F") {
			o = 1
		}
		var msg *Term
		if els, ok := fmtList(o); ok {
			msg = e.sprint(els, strings.HasSuffix(key, "ln"))
		} else {
			msg = e.mk(Term{Op: OCall, S: "fmt.Sprint", Args: ev.Args[o:], T: types.Typ[types.String]})
		}
		ev.Args = append(append([]*Term{}, ev.Args[:o]...), msg)
		if strings.HasPrefix(key, "fmt.S") {
			return done(msg)
		}
		if o == 1 {
			if p := BufPtr(args[0]); p != nil {
				appendBuf(p, msg)
			}
		}
		return done(call(true))
	case "fmt.Append", "fmt.Appendf", "fmt.Appendln":
	case "io.WriteString":
		if p := BufPtr(args[0]); p != nil {
			appendBuf(p, ev.Args[1])
		}
		if isHash(args[0]) {
			appendBuf(args[0], ev.Args[1])
		}
		return done(call(true))
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		ev.Args[1] = e.str(ev.Args[1])
		appendBuf(args[0], ev.Args[1])
		return done(e.Tuple(e.Len(args[1]), e.nilT))
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		t := e.byteStr(args[1])
		ev.Args[1] = t
		appendBuf(args[0], t)
		return done(e.nilT)
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		t := e.str(args[1])
		ev.Args[1] = t
		appendBuf(args[0], t)
		return done(e.Tuple(e.Len(t), e.nilT))
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return done(e.BufContent(st, args[0]))
	case "(*bytes.Buffer).Bytes":
		return done(e.Conv(e.BufContent(st, args[0]), typByteSlice))
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return done(e.Len(e.BufContent(st, args[0])))
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return done(e.nilT)
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		st.heap[e.Contents(args[0])] = e.StrC("")
		return done(e.nilT)
	case "(*bytes.Buffer).WriteTo":
		ev.Args = []*Term{ev.Args[1], e.BufContent(st, args[0])}
		return done(call(true))
	case "(hash.Hash).Write":
		appendBuf(args[0], e.str(ev.Args[1]))
		return done(e.Tuple(e.Len(args[1]), e.nilT))
	case "(hash.Hash).Sum":
		alg := args[0]
		if isHash(alg) {
			alg = e.StrC(alg.S) // the instance does not matter, its kind does
		}
		return done(e.mk(Term{Op: OCall, S: key, Args: []*Term{alg, e.BufContent(st, args[0]), args[1]}, T: rt}))
	case "(error).Error", "(fmt.Stringer).String":
		return done(e.Fmt("%s", args[0]))
	case "strconv.Itoa":
		return done(e.Fmt("%d", args[0]))
	case "strconv.FormatUint", "strconv.FormatInt":
		if n, ok := args[1].Int(); ok && n == 10 {
			return done(e.Fmt("%d", args[0]))
		}
	case "strconv.FormatBool":
		return done(e.Fmt("%t", args[0]))
	case "strconv.Quote":
		return done(e.Fmt("%q", args[0]))
	case "slices.Contains", "slices.Index":
		if el, ok := e.KnownElems(st, args[0]); ok {
			at := int64(-1)
			known := true
			for i, x := range el {
				d := e.Decide(st, e.Eq(x, args[1]))
				if d == 0 {
					known = false
					break
				}
				if d == 1 {
					at = int64(i)
					break
				}
			}
			if known {
				if key == "slices.Index" {
					return done(e.IntC(at))
				}
				return done(e.BoolC(at >= 0))
			}
		}
	case "strings.Join":
		if el, ok := e.KnownElems(st, args[0]); ok {
			var parts []*Term
			for i, x := range el {
				if i > 0 {
					parts = append(parts, args[1])
				}
				parts = append(parts, x)
			}
			return done(e.Concat(parts...))
		}
	case "strings.Clone":
		return done(args[0])
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if x, ok := sa(0); ok {
			switch key {
			case "strings.ToLower":
				x = strings.ToLower(x)
			case "strings.ToUpper":
				x = strings.ToUpper(x)
			default:
				x = strings.TrimSpace(x)
			}
			return done(e.StrC(x))
		}
	case "strings.Compare", "cmp.Compare":
		x, ok := sa(0)
		y, ok2 := sa(1)
		if ok && ok2 {
			return done(e.Const(e.IntC(int64(strings.Compare(x, y))).V, rt))
		}
	case "strings.Split", "strings.SplitN", "strings.SplitAfter", "strings.SplitAfterN", "strings.Fields":
		if x, ok := sa(0); ok {
			var l []string
			y, ok2 := sa(1)
			n, ok3 := int64(-1), true
			if len(args) == 3 {
				n, ok3 = args[2].Int()
			}
			switch {
			case key == "strings.Fields":
				l, ok2 = strings.Fields(x), true
			case ok2 && ok3 && strings.HasPrefix(key, "strings.SplitAfter"):
				l = strings.SplitAfterN(x, y, int(n))
			case ok2 && ok3:
				l = strings.SplitN(x, y, int(n))
			default:
				ok2 = false
			}
			if ok2 && ok3 && len(l) > 0 && len(l) < 50 {
				str := types.Typ[types.String]
				a := e.mk(Term{Op: OAlloc, S: "split" + strconv.Itoa(len(l)) + ":" + e.site(in, fr), I: fr.Ctx + 1, T: types.NewPointer(types.NewArray(str, int64(len(l))))})
				for k := range st.heap {
					if Root(k) == a {
						delete(st.heap, k)
					}
				}
				for i, y := range l {
					e.Store(st, e.IndexAddr(a, e.IntC(int64(i)), str), e.StrC(y), str)
				}
				return done(e.SliceT(a, nil, nil, rt))
			}
		}
		if key != "strings.Split" {
			break
		}
		return done(e.mk(Term{Op: OCall, S: "strings.Split", Args: ev.Args, T: rt}))
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.ContainsAny", "strings.EqualFold":
		x, ok := sa(0)
		y, ok2 := sa(1)
		if key == "strings.ContainsAny" && ok2 && len(y) == 1 {
			return done(e.mk(Term{Op: OCall, S: "strings.Contains", Args: ev.Args, T: boolT}))
		}
		if ok && ok2 {
			switch key {
			case "strings.TrimPrefix":
				return done(e.StrC(strings.TrimPrefix(x, y)))
			case "strings.TrimSuffix":
				return done(e.StrC(strings.TrimSuffix(x, y)))
			case "strings.HasPrefix":
				return done(e.BoolC(strings.HasPrefix(x, y)))
			case "strings.HasSuffix":
				return done(e.BoolC(strings.HasSuffix(x, y)))
			case "strings.Contains":
				return done(e.BoolC(strings.Contains(x, y)))
			case "strings.ContainsAny":
				return done(e.BoolC(strings.ContainsAny(x, y)))
			case "strings.EqualFold":
				return done(e.BoolC(strings.EqualFold(x, y)))
			}
		}
		if ok2 && key != "strings.Contains" && key != "strings.ContainsAny" && key != "strings.EqualFold" {
			trim, has := e.affix(ev.Args[0], y, strings.HasSuffix(key, "Prefix"))
			if trim != nil && strings.HasPrefix(key, "strings.Trim") {
				return done(trim)
			}
			if trim != nil {
				return done(e.BoolC(has))
			}
		}
	case "strings.CutPrefix", "strings.CutSuffix":
		a, b := "strings.TrimPrefix", "strings.HasPrefix"
		if key == "strings.CutSuffix" {
			a, b = "strings.TrimSuffix", "strings.HasSuffix"
		}
		if y, ok := sa(1); ok {
			x := ev.Args[0]
			if k, ok := sa(0); ok {
				x = e.StrC(k)
			}
			if trim, has := e.affix(x, y, key == "strings.CutPrefix"); trim != nil {
				return done(e.Tuple(trim, e.BoolC(has)))
			}
		}
		return done(e.Tuple(e.mk(Term{Op: OCall, S: a, Args: ev.Args, T: types.Typ[types.String]}), e.mk(Term{Op: OCall, S: b, Args: ev.Args, T: boolT})))
	case "strings.Cut":
		if x, ok := sa(0); ok {
			if y, ok := sa(1); ok {
				a, b, f := strings.Cut(x, y)
				return done(e.Tuple(e.StrC(a), e.StrC(b), e.BoolC(f)))
			}
		}
		c := call(false)
		return done(e.Tuple(e.Extract(c, 0, types.Typ[types.String]), e.Extract(c, 1, types.Typ[types.String]), e.mk(Term{Op: OCall, S: "strings.Contains", Args: ev.Args, T: boolT})))
	case "strings.ContainsRune":
		if n, ok := args[1].Int(); ok {
			if x, ok := sa(0); ok {
				return done(e.BoolC(strings.ContainsRune(x, rune(n))))
			}
			return done(e.mk(Term{Op: OCall, S: "strings.Contains", Args: []*Term{ev.Args[0], e.StrC(string(rune(n)))}, T: boolT}))
		}
	case "strings.Repeat":
		if x, ok := sa(0); ok {
			if n, ok := args[1].Int(); ok && n >= 0 && n*int64(len(x)) < 10000 {
				return done(e.StrC(strings.Repeat(x, int(n))))
			}
		}
		d := e.Decide(st, e.Lt(args[1], e.IntC(0)))
		e.Conds = []*Term{e.Not(e.Lt(args[1], e.IntC(0)))}
		e.check(st, "repeat", d == -1, func() string { return "strings.Repeat with count " + args[1].String() }, fr, in)
	case "bytes.Clone", "slices.Clone":
		return done(e.mk(Term{Op: OAppendAll, Args: []*Term{e.nilT, ev.Args[0]}, T: rt}))
	case "maps.Copy":
		store("mapupdate", args[0], nil, args[1])
		e.SetMapContent(st, args[0], e.mk(Term{Op: OMapCopy, Args: []*Term{e.MapContent(st, args[0]), e.MapContent(st, args[1])}}))
		return done(e.nilT)
	case "maps.Clone":
		a := e.mk(Term{Op: OAlloc, S: "map:" + e.site(in, fr), I: fr.Ctx + 1, T: rt})
		st.heap[e.Contents(a)] = e.MapContent(st, args[0])
		return done(a)
	case "(net/url.Values).Set", "(net/http.Header).Set":
		store("mapupdate", args[0], args[1], args[2])
		if key == "(net/url.Values).Set" {
			e.check(st, "nilmap", nonNil(args[0]) || e.Decide(st, e.Eq(args[0], e.nilT)) == -1, func() string { return "Set on possibly nil map" }, fr, in)
			e.SetMapContent(st, args[0], e.MapUpd(e.MapContent(st, args[0]), args[1], e.Append(types.NewSlice(types.Typ[types.String]), e.nilT, args[2])))
		}
		return done(e.nilT)
	case "(net/url.Values).Add", "(net/http.Header).Add":
		store("mapupdate", args[0], args[1], args[2])
		if key == "(net/url.Values).Add" {
			st1 := types.NewSlice(types.Typ[types.String])
			old, _ := e.MapLookup(st, e.MapContent(st, args[0]), args[1], st1)
			e.SetMapContent(st, args[0], e.MapUpd(e.MapContent(st, args[0]), args[1], e.Append(st1, old, args[2])))
		}
		return done(e.nilT)
	case "(net/url.Values).Del", "(net/http.Header).Del":
		store("mapdelete", args[0], args[1], nil)
		if key == "(net/url.Values).Del" {
			e.SetMapContent(st, args[0], e.mk(Term{Op: OMapDel, Args: []*Term{e.MapContent(st, args[0]), args[1]}}))
		}
		return done(e.nilT)
	case "encoding/json.Unmarshal":
		tgt := args[1]
		data := ev.Args[0]
		ev.Args = []*Term{data, args[1]}
		var et types.Type
		if tgt.Op == OIface {
			tgt = tgt.Args[0]
		}
		et = ptrElem(tgt.T)
		c := e.mk(Term{Op: OCall, S: key, Args: []*Term{data, e.TypeC(et)}, T: rt})
		ev.Res = c
		store("out", tgt, nil, nil)
		e.clearUnder(st, tgt)
		e.Store(st, tgt, e.mk(Term{Op: OOut, Args: []*Term{c}, I: 1, T: et}), et)
		return done(c)
	case "(*encoding/json.Decoder).Decode":
		tgt := args[1]
		if tgt.Op == OIface {
			tgt = tgt.Args[0]
		}
		et := ptrElem(tgt.T)
		c := call(true)
		store("out", tgt, nil, nil)
		e.clearUnder(st, tgt)
		e.Store(st, tgt, e.mk(Term{Op: OOut, Args: []*Term{c}, I: 1, T: et}), et)
		return done(c)
	case "encoding/json.Indent", "encoding/json.Compact":
		c := e.mk(Term{Op: OCall, S: key, Args: ev.Args[1:], T: rt})
		if p := BufPtr(args[0]); p != nil {
			appendBuf(p, e.mk(Term{Op: OOut, Args: []*Term{c}, I: 0, T: types.Typ[types.String]}))
		}
		return done(c)
	case "errors.As":
		tgt := args[1]
		if tgt.Op == OIface {
			tgt = tgt.Args[0]
		}
		et := ptrElem(tgt.T)
		if args[0].Op == OIface && et != nil && types.Identical(args[0].T, et) {
			e.Store(st, tgt, args[0].Args[0], et)
			return done(e.BoolC(true))
		}
		if args[0].IsNil() {
			return done(e.BoolC(false))
		}
		c := e.mk(Term{Op: OCall, S: key, Args: []*Term{args[0], e.TypeC(et)}, T: boolT})
		e.Store(st, tgt, e.mk(Term{Op: OOut, Args: []*Term{c}, I: 1, T: et}), et)
		return done(c)
	case "errors.Is":
		if args[0].IsNil() && nonNil(args[1]) {
			return done(e.BoolC(false))
		}
	case "sort.Search":
		i := e.Sym("search.i:"+e.site(in, fr), types.Typ[types.Int])
		cs := &bstate{State: st.Clone(), env: s.env}
		if e.Assume(cs.State, e.Not(e.Lt(i, e.IntC(0))), true) && e.Assume(cs.State, e.Lt(i, args[0]), true) {
			e.runCallback(cs, fr, args[1], []*Term{i}, in)
		}
		var out []callRes
		for _, cr := range done(call(true)) {
			r := cr.v
			if r.Op != OCall {
				out = append(out, cr)
				continue
			}
			// either nothing was found or the predicate holds at the result
			found := cr.s.clone()
			if e.Assume(cr.s.State, e.Eq(r, args[0]), true) {
				out = append(out, cr)
			}
			if !e.Assume(found.State, e.Lt(r, args[0]), true) || !e.Assume(found.State, e.Not(e.Lt(r, e.IntC(0))), true) {
				continue
			}
			outs := e.predicate(found, fr, args[1], []*Term{r}, in)
			if outs == nil {
				out = append(out, callRes{found, r})
				continue
			}
			for _, o := range outs {
				if o.Panic || len(o.Rets) != 1 {
					continue
				}
				n := found.clone()
				n.State = o.St
				n.Loops = found.Loops
				if e.Assume(n.State, o.Rets[0], true) {
					out = append(out, callRes{n, r})
				}
			}
		}
		return e.searchBelow(out, fr, args[1], in)
	case "sort.Sort", "sort.Stable":
		x := args[0]
		store("sort", x, nil, nil)
		if x.Op == OIface {
			for _, m := range []string{"Less", "Swap"} {
				ln := e.Prog.LookupMethod(x.T, nil, "Len")
				fn := e.Prog.LookupMethod(x.T, nil, m)
				if fn == nil || ln == nil || !e.isRepo(fn) {
					continue
				}
				cs := &bstate{State: st.Clone(), env: s.env}
				i := e.Sym("sort.i:"+e.site(in, fr), types.Typ[types.Int])
				j := e.Sym("sort.j:"+e.site(in, fr), types.Typ[types.Int])
				lo := e.call(ln, []*Term{x.Args[0]}, nil, cs.State, fr, in)
				ok := len(lo) == 1 && len(lo[0].Rets) == 1
				for _, k := range []*Term{i, j} {
					if ok {
						ok = e.Assume(cs.State, e.Not(e.Lt(k, e.IntC(0))), true) && e.Assume(cs.State, e.Lt(k, lo[0].Rets[0]), true)
					}
				}
				if ok {
					e.call(fn, []*Term{x.Args[0], i, j}, nil, cs.State, fr, in)
				}
			}
			e.markSorted(st, x.Args[0], e.mk(Term{Op: OType, T: x.T}))
		}
		return done(e.nilT)
	case "sort.Strings", "sort.Ints", "slices.Sort", "sort.Float64s":
		store("sort", args[0], nil, nil)
		if !e.sortKnown(st, args[0], func(a, b, _, _ *Term) (bool, bool) { return constLess(a, b) }) {
			e.markSorted(st, args[0], e.StrC("natural"))
		}
		return done(e.nilT)
	case "maps.Keys", "maps.Values", "maps.All":
		if args[0].T != nil {
			c := e.MapContent(st, args[0])
			return done(e.mk(Term{Op: OCall, S: key, Args: []*Term{c}, T: rt}))
		}
	case "slices.Sorted", "slices.Collect":
		if args[0].Op == OCall && args[0].S == "maps.Keys" {
			if l, ok := e.mapKeys(args[0].Args[0]); ok {
				if key == "slices.Collect" {
					return done(e.listOf(rt, l))
				}
				if l, ok := sortTerms(l, func(a, b, _, _ *Term) (bool, bool) { return constLess(a, b) }); ok {
					return done(e.listOf(rt, l))
				}
			}
		}
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		x := args[0]
		if x.Op == OIface {
			x = x.Args[0]
		}
		store("sort", x, nil, nil)
		if e.sortKnown(st, x, func(a, b, i, j *Term) (bool, bool) {
			cs := &bstate{State: st.Clone(), env: s.env}
			l := []*Term{a, b}
			if strings.HasPrefix(key, "sort.") {
				l = []*Term{i, j}
			}
			if f := args[1]; f.Op == OFunc && f.Fn != nil && f.Fn.Pkg != nil && strings.HasPrefix(f.Fn.Name(), "Compare") {
				switch f.Fn.Pkg.Pkg.Path() {
				case "strings", "cmp":
					x, ok1 := a.Str()
					y, ok2 := b.Str()
					return x < y, ok1 && ok2
				}
			}
			for _, o := range e.runCallback(cs, fr, args[1], l, in) {
				if o.St.Dead {
					continue
				}
				if o.Panic || len(o.Rets) != 1 {
					return false, false
				}
				if isBool(o.Rets[0].T) {
					if d := e.Decide(o.St, o.Rets[0]); d != 0 {
						return d == 1, true
					}
					return false, false
				}
				if d := e.Decide(o.St, e.Lt(o.Rets[0], e.IntC(0))); d != 0 {
					return d == 1, true
				}
				return false, false
			}
			return false, false
		}) {
			return done(e.nilT)
		}
		cs := &bstate{State: st.Clone(), env: s.env}
		if strings.HasPrefix(key, "sort.") {
			i := e.Sym("sort.i:"+e.site(in, fr), types.Typ[types.Int])
			j := e.Sym("sort.j:"+e.site(in, fr), types.Typ[types.Int])
			for _, k := range []*Term{i, j} {
				e.Assume(cs.State, e.Not(e.Lt(k, e.IntC(0))), true)
				e.Assume(cs.State, e.Lt(k, e.Len(x)), true)
			}
			e.runCallback(cs, fr, args[1], []*Term{i, j}, in)
		} else {
			var et types.Type
			if sl, ok := x.T.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
			i := e.IndexAddr(x, e.Sym("sort.i:"+e.site(in, fr), types.Typ[types.Int]), et)
			j := e.IndexAddr(x, e.Sym("sort.j:"+e.site(in, fr), types.Typ[types.Int]), et)
			e.runCallback(cs, fr, args[1], []*Term{e.Load(cs.State, i, et), e.Load(cs.State, j, et)}, in)
		}
		e.markSorted(st, x, args[1])
		return done(e.nilT)
	case "slices.Reverse":
		store("sort", args[0], nil, nil)
		if l, ok := e.KnownElems(st, args[0]); ok && len(l) <= 60 && e.H.PeelConst > 0 && args[0].T != nil {
			if sl, ok := args[0].T.Underlying().(*types.Slice); ok {
				for i := range l {
					e.Store(st, e.IndexAddr(args[0], e.IntC(int64(i)), sl.Elem()), l[len(l)-1-i], sl.Elem())
				}
				st.heap[e.SortedKey(args[0])] = e.StrC("known")
				return done(e.nilT)
			}
		}
		e.markSorted(st, args[0], e.StrC("reversed:"+e.site(in, fr)))
		return done(e.nilT)
	case "strings.Map", "strings.IndexFunc", "strings.ContainsFunc", "strings.FieldsFunc", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc":
		f := args[0]
		if key != "strings.Map" {
			f = args[1]
		}
		if res := e.runeFunc(s, fr, key, f, args, in); res != nil {
			return done(res)
		}
		cs := &bstate{State: st.Clone(), env: s.env}
		r := e.Sym("rune:"+e.site(in, fr), types.Typ[types.Rune])
		e.refine(cs.State, r, avRange(0, 0x10FFFF))
		e.runCallback(cs, fr, f, []*Term{r}, in)
		return done(call(false))
	case "(*sync.Once).Do":
		s2 := s.clone()
		outs := e.runCallback(s2, fr, args[1], nil, in)
		_ = outs
		ev.Res = e.nilT
		e.event(s2.State, ev, fr)
		return []callRes{{s2, e.nilT}}
	}
	pure := Pure(key)
	var res *Term
	if pure {
		res = call(returnsRef(rt))
		// func arguments
		for _, a := range args {
			if a.Op == OClosure || a.Op == OFunc {
				cs := &bstate{State: st.Clone(), env: s.env}
				e.runCallback(cs, fr, a, e.genericArgs(a, in, fr), in)
			}
		}
	} else {
		res = call(true)
		for i, a := range args {
			if i == 0 && sig.Recv() != nil {
				continue
			}
			x := a
			if x.Op == OIface {
				x = x.Args[0]
			}
			if x.Op == OClosure || x.Op == OFunc {
				if !strings.Contains(key, "net/http") {
					e.runCallback(s, fr, x, e.genericArgs(x, in, fr), in)
				}
				continue
			}
			if readOnlyArgs[key] || BufPtr(x) != nil && false {
				continue
			}
			e.havocPtr(st, x, "hv:"+strconv.Itoa(res.ID)+":"+strconv.Itoa(i))
		}
	}
	return done(res)
}

var readOnlyArgs = map[string]bool{
	"(*net/http.Client).Do": true, "(*net/http.Client).Get": true, "net/http.NewRequestWithContext": true, "net/http.NewRequest": true,
	"os.WriteFile": true, "os.Exit": true, "github.com/alecthomas/kingpin/v2.New": true, "(*net/http.Request).WithContext": true,
	"context.WithTimeout": true, "context.WithCancel": true, "context.WithDeadline": true, "crypto/tls.X509KeyPair": true,
	"(*sync.Map).LoadOrStore": true, "(*sync.Map).Store": true, "(*sync.Map).Load": true,
	"encoding/json.Marshal": true, "encoding/json.MarshalIndent": true, "(io.Writer).Write": true,
}

func returnsRef(t types.Type) bool {
	if tu, ok := t.(*types.Tuple); ok {
		for i := 0; i < tu.Len(); i++ {
			if returnsRef(tu.At(i).Type()) {
				return true
			}
		}
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		return true
	}
	return false
}

func (e *Engine) genericArgs(f *Term, in ssa.Instruction, fr *Frame) []*Term {
	var r []*Term
	fn := f.Fn
	for i, p := range fn.Params {
		r = append(r, e.Sym("cbarg:"+e.site(in, fr)+":"+strconv.Itoa(i), p.Type()))
	}
	return r
}

func (e *Engine) clearUnder(st *State, a *Term) {
	for k := range st.heap {
		if k != a && under(k, a) {
			delete(st.heap, k)
		}
	}
}

// constLess compares two constants.
func constLess(a, b *Term) (less, ok bool) {
	x, ok1 := a.Str()
	y, ok2 := b.Str()
	if ok1 && ok2 {
		return x < y, true
	}
	m, ok1 := a.Int()
	n, ok2 := b.Int()
	return m < n, ok1 && ok2
}

// sortTerms sorts a list with a decided order (stable).
func sortTerms(l []*Term, less func(a, b, i, j *Term) (bool, bool)) ([]*Term, bool) {
	return sortIdx(l, nil, less)
}

func sortIdx(l, idx []*Term, less func(a, b, i, j *Term) (bool, bool)) ([]*Term, bool) {
	at := func(k int) *Term {
		if idx == nil {
			return nil
		}
		return idx[k]
	}
	var r []int
	for i := range l {
		k := len(r)
		for k > 0 {
			lt, ok := less(l[i], l[r[k-1]], at(i), at(r[k-1]))
			if !ok {
				return nil, false
			}
			if !lt {
				break
			}
			k--
		}
		r = append(r, 0)
		copy(r[k+1:], r[k:])
		r[k] = i
	}
	out := make([]*Term, len(l))
	for i, k := range r {
		out[i] = l[k]
	}
	return out, true
}

// sortKnown sorts a slice whose elements and order are known.
func (e *Engine) sortKnown(st *State, x *Term, less func(a, b, i, j *Term) (bool, bool)) bool {
	if e.H.PeelConst == 0 || x.T == nil {
		return false
	}
	sl, ok := x.T.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	l, ok := e.KnownElems(st, x)
	if !ok || len(l) > 60 {
		return false
	}
	var idx []*Term
	for i := range l {
		idx = append(idx, e.IntC(int64(i)))
	}
	r, ok := sortIdx(l, idx, less)
	if !ok {
		return false
	}
	for i := range r {
		if r[i] != l[i] {
			e.Store(st, e.IndexAddr(x, idx[i], sl.Elem()), r[i], sl.Elem())
		}
	}
	st.heap[e.SortedKey(x)] = e.StrC("known")
	return true
}

// runeFunc evaluates a function over the characters of a known text, nil if it
// cannot be decided.
func (e *Engine) runeFunc(s *bstate, fr *Frame, key string, f *Term, args []*Term, in ssa.Instruction) *Term {
	x := args[0]
	if key == "strings.Map" {
		x = args[1]
	}
	str, ok := x.Str()
	if !ok || len(str) > 200 {
		return nil
	}
	memo := map[rune]*Term{}
	bad := false
	ev := func(r rune) *Term {
		if v, ok := memo[r]; ok {
			return v
		}
		var res *Term
		for _, o := range e.predicate(s, fr, f, []*Term{e.Conv(e.IntC(int64(r)), types.Typ[types.Rune])}, in) {
			if o.St.Dead {
				continue
			}
			if o.Panic || len(o.Rets) != 1 || res != nil && res != o.Rets[0] {
				bad = true
				return nil
			}
			res = o.Rets[0]
		}
		if res == nil || !res.IsConst() {
			bad = true
			return nil
		}
		memo[r] = res
		return res
	}
	test := func(r rune) bool {
		v := ev(r)
		if v == nil {
			return false
		}
		return e.Decide(s.State, v) == 1
	}
	var res *Term
	switch key {
	case "strings.Map":
		res = e.StrC(strings.Map(func(r rune) rune {
			v := ev(r)
			if v == nil {
				return r
			}
			n, _ := v.Int()
			return rune(n)
		}, str))
	case "strings.IndexFunc":
		res = e.IntC(int64(strings.IndexFunc(str, test)))
	case "strings.ContainsFunc":
		res = e.BoolC(strings.ContainsFunc(str, test))
	case "strings.TrimFunc":
		res = e.StrC(strings.TrimFunc(str, test))
	case "strings.TrimLeftFunc":
		res = e.StrC(strings.TrimLeftFunc(str, test))
	case "strings.TrimRightFunc":
		res = e.StrC(strings.TrimRightFunc(str, test))
	}
	if bad {
		return nil
	}
	return res
}

// SortedKey is the pseudo cell recording that a sequence was sorted.
func (e *Engine) SortedKey(x *Term) *Term {
	for x.Op == OSlice {
		x = x.Args[0]
	}
	return e.mk(Term{Op: OContents, S: "sorted", Args: []*Term{x}})
}

// SortedBy tells how a sequence was sorted, nil if it was not.
func (e *Engine) SortedBy(st *State, x *Term) *Term {
	v, _ := e.heapGet(st, e.SortedKey(x))
	return v
}

func (e *Engine) markSorted(st *State, x, how *Term) {
	st.heap[e.SortedKey(x)] = how
	b := x
	for b.Op == OSlice {
		b = b.Args[0]
	}
	n := 0
	for k := range st.heap {
		if k.Op == OIndexAddr && k.Args[0] == b {
			n++
		}
	}
	if n > 1 {
		for k := range st.heap {
			if k.Op == OIndexAddr && k.Args[0] == b {
				delete(st.heap, k)
			}
		}
		st.heap[e.dirtyKey(b)] = e.BoolC(true)
	}
}

func (e *Engine) byteStr(b *Term) *Term {
	if n, ok := b.Int(); ok && n >= 0 && n < 256 {
		return e.StrC(string([]byte{byte(n)}))
	}
	return e.mk(Term{Op: OFmt, S: "byte", Args: []*Term{b}, T: types.Typ[types.String]})
}

// format expands a constant format string; nil if that is not possible.
func (e *Engine) format(f *Term, args []*Term) *Term {
	s, ok := f.Str()
	if !ok {
		return nil
	}
	var parts []*Term
	n := 0
	lit := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit += string(s[i : i+1])
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			return nil
		}
		if s[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		if s[j] == '*' || s[j] == '[' || n >= len(args) {
			return nil
		}
		verb := s[i : j+1]
		if verb == "%w" {
			verb = "%v"
		}
		if lit != "" {
			parts = append(parts, e.StrC(lit))
			lit = ""
		}
		parts = append(parts, e.Fmt(verb, args[n]))
		n++
		i = j
	}
	if n != len(args) {
		return nil
	}
	if lit != "" {
		parts = append(parts, e.StrC(lit))
	}
	return e.Concat(parts...)
}

func (e *Engine) sprint(els []*Term, ln bool) *Term {
	var parts []*Term
	isStr := func(x *Term) bool { return x.Op == OIface && isString(x.T) && !hasTextMethod(x.T) }
	for i, x := range els {
		if i > 0 && (ln || !isStr(x) && !isStr(els[i-1])) {
			parts = append(parts, e.StrC(" "))
		}
		parts = append(parts, e.Fmt("%v", x))
	}
	if ln {
		parts = append(parts, e.StrC("\n"))
	}
	return e.Concat(parts...)
}

// Apply analyses one call of a function value in a state.
func (e *Engine) Apply(st *State, h *Hooks, f *Term, args []*Term) []*Outcome {
	if f.Op == OIface {
		f = f.Args[0]
	}
	if f.Op != OFunc && f.Op != OClosure || !e.isRepo(f.Fn) {
		return nil
	}
	old := e.H
	e.H = h
	defer func() { e.H = old }()
	return e.call(f.Fn, args, f.Args, st, nil, nil)
}

// searchBelow adds that the predicate of a search fails just below its result.
func (e *Engine) searchBelow(rs []callRes, fr *Frame, f *Term, in ssa.Instruction) []callRes {
	var out []callRes
	for _, cr := range rs {
		r := cr.v
		if r.Op != OCall {
			out = append(out, cr)
			continue
		}
		above := cr.s.clone()
		if e.Assume(cr.s.State, e.Eq(r, e.IntC(0)), true) {
			out = append(out, cr)
		}
		if !e.Assume(above.State, e.Lt(e.IntC(0), r), true) {
			continue
		}
		below := e.Bin2Sub(r, 1)
		outs := e.predicate(above, fr, f, []*Term{below}, in)
		if outs == nil {
			out = append(out, callRes{above, r})
			continue
		}
		for _, o := range outs {
			if o.Panic || len(o.Rets) != 1 {
				continue
			}
			n := above.clone()
			n.State = o.St
			n.Loops = above.Loops
			if e.Assume(n.State, o.Rets[0], false) {
				out = append(out, callRes{n, r})
			}
		}
	}
	return out
}

// affix decides whether a text with a known beginning or end starts or ends
// with y, and gives it without y; nil when that is not known.
func (e *Engine) affix(x *Term, y string, prefix bool) (*Term, bool) {
	ps := []*Term{x}
	if x.Op == OConcat {
		ps = x.Args
	}
	i := 0
	if !prefix {
		i = len(ps) - 1
	}
	k, ok := ps[i].Str()
	if !ok {
		return nil, false
	}
	whole := len(ps) == 1
	n := append([]*Term{}, ps...)
	if prefix {
		if strings.HasPrefix(k, y) {
			n[i] = e.StrC(k[len(y):])
			return e.Concat(n...), true
		}
		if whole || !strings.HasPrefix(y, k) {
			return x, false
		}
		return nil, false
	}
	if strings.HasSuffix(k, y) {
		n[i] = e.StrC(k[:len(k)-len(y)])
		return e.Concat(n...), true
	}
	if whole || !strings.HasSuffix(y, k) {
		return x, false
	}
	return nil, false
}
