package rules

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C02", Run: runC02, Floor: 40,
		Method:      "Side effect analysis: a flow-insensitive, field-sensitive points-to and modification analysis with one summary per function over the whole module; for every read operation no write may reach a location that is reachable from what the caller handed in.",
		Assumptions: []string{"functions outside the module write only to the arguments in the rule's table (sorting, copying, setting, unmarshalling, reflection)", "function values received as parameters write nothing", "callers do not hand in objects that share memory with the printer's writer or the client's cache"}})
}

type protect struct {
	pkg, fn string
	params  []int
	what    string
	but     []string // access paths which may be written
}

// protected: what each read operation must leave alone.
func (c *Ctx) protected() []protect {
	l := []protect{
		{pkgRdap, "*Request.URL", []int{0}, "the request", nil},
		{pkgRdap, "*Request.WithContext", []int{0}, "the request", nil},
		{pkgRdap, "*Request.WithServer", []int{0, 1}, "the request or the server URL", nil},
		{pkgRdap, "*Request.Context", []int{0}, "the request", nil},
		{pkgRdap, "NewRawRequest", []int{0}, "the URL", nil},
		{pkgRdap, "NewIPRequest", []int{0}, "the address", nil},
		{pkgRdap, "NewIPNetRequest", []int{0}, "the network", nil},
		{pkgRdap, "*Client.Do", []int{1}, "the request", nil},
		{pkgRdap, "*Decoder.Decode", []int{0}, "the input bytes", []string{".target"}},
		{pkgRdap, "NewDecoder", []int{0}, "the input bytes", nil},
		{pkgRdap, "NewVCard", []int{0}, "the input bytes", nil},
		{pkgRdap, "NewVCardWithOptions", []int{0}, "the input bytes", nil},
		{pkgRdap, "*Printer.Print", []int{1}, "the object", nil},
		{pkgRdap, "*Response.ToWhoisStyleResponse", []int{0}, "the response", nil},
		{pkgRdap, "RunCLI", []int{0}, "the arguments", nil},
		{pkgBoot, "*Client.Lookup", []int{1}, "the question", nil},
		{pkgBoot, "*Question.WithContext", []int{0}, "the question", nil},
		{pkgBoot, "NewFile", []int{0}, "the input bytes", nil},
	}
	for _, r := range []string{"ASNRegistry", "DNSRegistry", "NetRegistry", "ServiceProviderRegistry"} {
		l = append(l, protect{pkgBoot, "*" + r + ".Lookup", []int{0, 1}, "the registry or the question", nil},
			protect{pkgBoot, "*" + r + ".File", []int{0}, "the registry", nil},
			protect{pkgBoot, "New" + r, []int{0}, "the input bytes", nil})
	}
	for _, t := range []string{"VCard", "VCardProperty", "DecodeData"} {
		for _, m := range c.methodsOf(pkgRdap, t) {
			l = append(l, protect{pkgRdap, "*" + t + "." + m, []int{0}, "the object", nil})
		}
	}
	for _, t := range []string{"MemoryCache", "DiskCache"} {
		l = append(l, protect{pkgCache, "*" + t + ".Save", []int{2}, "the saved bytes", nil})
	}
	return l
}

// methodsOf lists the exported methods of *T.
func (c *Ctx) methodsOf(pkg, name string) []string {
	p := c.Pkg(pkg)
	if p == nil {
		return nil
	}
	t, ok := p.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	ms := c.Prog.MethodSets.MethodSet(ptrTo(t.Type()))
	var r []string
	for i := 0; i < ms.Len(); i++ {
		if o := ms.At(i).Obj(); o.Exported() {
			r = append(r, o.Name())
		}
	}
	return r
}

func runC02(c *Ctx) {
	m := c.modref()
	for _, f := range m.order {
		c.Functions[f.String()] = true
	}
	for _, p := range c.protected() {
		fn := c.Func(p.pkg, p.fn)
		if fn == nil {
			c.Unknown("write", "%s not found", p.fn)
			continue
		}
		s := m.sums[fn]
		if s == nil {
			c.Unknown("write", "%s not analysed", p.fn)
			continue
		}
		bad := false
		for _, md := range sortedMods(s) {
			prot := false
			for _, i := range p.params {
				if md.o.param == i && md.o.glob == nil {
					prot = true
				}
			}
			what := p.what
			if lookups[p.fn] && md.o.param == 0 && md.o.glob == nil {
				if t := writtenType(md.in); t != "" && !setsBaseURL(md.fn) {
					prot, what = true, "the "+t+" of a registry or base URL"
				}
			}
			if !prot || md.kind == "append" {
				continue // appending past the end changes nothing visible
			}
			full := md.o.steps + "/" + md.path
			skip := false
			for _, b := range p.but {
				if strings.HasPrefix(full, "/"+b) {
					skip = true
				}
			}
			if skip {
				continue
			}
			bad = true
			c.Bad("write", md.fn, posOf(md.in), "%s writes to %s handed in (%s at %s)", p.fn, what, md.kind, strings.Trim(strings.ReplaceAll(full, "/", " "), " "))
		}
		if !bad {
			c.Ok("write", "%s leaves %s alone", p.fn, p.what)
		}
	}
}

// lookups: operations which use the client's registries.
var lookups = map[string]bool{"*Client.Do": true, "*Client.Lookup": true}

// setsBaseURL: fn gives the client a base URL of its own, which it may fill in.
func setsBaseURL(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fname(fa.X.Type(), fa.Field) == ".BaseURL" {
					return true
				}
			}
		}
	}
	return false
}

// writtenType names the kind of registry data the instruction writes to ("" if
// it is something else, for example a field of the client itself).
func writtenType(in ssa.Instruction) string {
	var t types.Type
	switch in := in.(type) {
	case *ssa.Store:
		switch a := in.Addr.(type) {
		case *ssa.FieldAddr:
			t = a.X.Type()
		case *ssa.IndexAddr:
			t = a.X.Type()
		default:
			t = a.Type()
		}
	case *ssa.MapUpdate:
		t = in.Map.Type()
	default:
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		t = u.Elem()
	case *types.Map:
		t = u.Elem()
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "net/url.URL":
		return "server URL"
	case pkgBoot + ".File", pkgBoot + ".ASNRegistry", pkgBoot + ".DNSRegistry", pkgBoot + ".NetRegistry", pkgBoot + ".ServiceProviderRegistry":
		return "data"
	}
	return ""
}

func sortedMods(s *msum) []*mmod {
	var keys []string
	for k := range s.mods {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var l []*mmod
	for _, k := range keys {
		l = append(l, s.mods[k])
	}
	sort.SliceStable(l, func(i, j int) bool { return posOf(l[i].in) < posOf(l[j].in) })
	return l
}

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }
