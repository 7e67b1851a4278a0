// Package rules holds one static rule per property. A rule analyses the
// current source with package eng, records the obligations it discharged and
// reports every construct that violates the property.
package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"rdapverif/eng"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const (
	pkgRdap  = "github.com/openrdap/rdap"
	pkgBoot  = "github.com/openrdap/rdap/bootstrap"
	pkgCache = "github.com/openrdap/rdap/bootstrap/cache"
	pkgSand  = "github.com/openrdap/rdap/sandbox"
	pkgMain  = "github.com/openrdap/rdap/cmd/rdap"
)

// Violation is a construct that breaks a property.
type Violation struct {
	Rule  string
	Where string // file:line
	Func  string
	Msg   string
}

func (v Violation) Key() string { return v.Rule + "|" + v.Func + "|" + v.Msg }

// Ctx is what a rule works with.
type Ctx struct {
	E    *eng.Engine
	Prog *ssa.Program
	SSA  []*ssa.Package
	Pkgs []*packages.Package
	Dir  string
	Deep bool

	Viol           []Violation
	Oblig          map[string]int // obligations by rule
	Discharged     int
	Total          int
	Undecided      []string
	Samples        []string
	Functions      map[string]bool
	seen           map[string]bool
	fixed          map[string]bool      // fixed texts on standard output
	flagPtr        map[string]*eng.Term // options of the last RunCLI analysis
	reach          map[*ssa.Function]bool
	mr             *modref
	clear, unclear int
	watch          func(st *eng.State, kind string, ok bool, detail string, fr *eng.Frame, in ssa.Instruction)
	watched        []any
	tooBig         int // analyses of output that went over their budget
}

// Rule decides one property.
type Rule struct {
	ID          string
	Run         func(c *Ctx)
	Method      string // the deciding method, for evidence
	Floor       int    // minimum number of obligations on any tree that still has the API
	Assumptions []string
}

var All = map[string]*Rule{}

func register(r *Rule) { All[r.ID] = r }

// NewCtx loads the program.
func NewCtx(dir string) (*Ctx, error) {
	prog, sp, pkgs, err := eng.Load(dir)
	if err != nil {
		return nil, err
	}
	c := &Ctx{Prog: prog, SSA: sp, Pkgs: pkgs, Dir: dir, Oblig: map[string]int{}, Functions: map[string]bool{}, seen: map[string]bool{}}
	c.E = eng.New(prog, sp)
	return c, nil
}

// Stop ends the analysis early.
func (c *Ctx) Stop() { c.E.Stopped.Store(true) }

// Ok records a discharged obligation.
func (c *Ctx) Ok(rule, format string, a ...any) {
	c.Total++
	c.Discharged++
	c.Oblig[rule]++
	if c.Oblig[rule] <= 3 {
		c.Samples = append(c.Samples, rule+": "+fmt.Sprintf(format, a...))
	}
}

// Bad records a violation.
func (c *Ctx) Bad(rule string, fn *ssa.Function, pos token.Pos, format string, a ...any) {
	v := Violation{Rule: rule, Msg: fmt.Sprintf(format, a...)}
	if len(v.Msg) > 900 {
		v.Msg = strings.ToValidUTF8(v.Msg[:900], "") + "…"
	}
	if fn != nil {
		v.Func = fn.String()
		if pos == token.NoPos {
			pos = fn.Pos()
		}
	}
	v.Where = c.Pos(pos)
	k := v.Rule + v.Where + v.Msg
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.Total++
	c.Oblig[rule]++
	c.Viol = append(c.Viol, v)
}

// Check records either.
func (c *Ctx) Check(ok bool, rule string, fn *ssa.Function, pos token.Pos, format string, a ...any) bool {
	if ok {
		c.Ok(rule, format, a...)
	} else {
		c.Bad(rule, fn, pos, format, a...)
	}
	return ok
}

// Unknown records an obligation the analysis could not decide either way.
func (c *Ctx) Unknown(rule, format string, a ...any) {
	c.Total++
	c.Oblig[rule]++
	c.Undecided = append(c.Undecided, rule+": "+fmt.Sprintf(format, a...))
}

func (c *Ctx) Pos(p token.Pos) string {
	if p == token.NoPos {
		return "-"
	}
	q := c.Prog.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(c.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Pkg finds a package by path.
func (c *Ctx) Pkg(path string) *ssa.Package {
	for _, p := range c.SSA {
		if p != nil && p.Pkg.Path() == path {
			return p
		}
	}
	return nil
}

// Func finds an exported or main function, or method "T.M" / "*T.M".
func (c *Ctx) Func(pkg, name string) *ssa.Function {
	p := c.Pkg(pkg)
	if p == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		t, ok := p.Members[tn].(*ssa.Type)
		if !ok {
			return nil
		}
		var ty types.Type = t.Type()
		if ptr {
			ty = types.NewPointer(ty)
		}
		for _, cand := range []types.Type{ty, types.NewPointer(t.Type())} {
			if f := c.Prog.LookupMethod(cand, p.Pkg, mn); f != nil {
				return f
			}
		}
		return nil
	}
	return p.Func(name)
}

// Type finds a named type.
func (c *Ctx) Type(pkg, name string) types.Type {
	p := c.Pkg(pkg)
	if p == nil {
		return nil
	}
	if t, ok := p.Members[name].(*ssa.Type); ok {
		return t.Type()
	}
	return nil
}

// Run analyses fn; a nil result means it could not be analysed (recorded).
func (c *Ctx) Run(rule string, fn *ssa.Function, h *eng.Hooks, setup func(st *eng.State, ps []*eng.Term) []*eng.Term) ([]*eng.Outcome, []any, bool) {
	if fn == nil {
		c.Unknown(rule, "entry point not found")
		return nil, nil, false
	}
	if c.watch != nil {
		var h2 eng.Hooks
		if h != nil {
			h2 = *h
		}
		h2.OnCheck = c.watch
		h = &h2
	}
	outs, recs, err := c.E.Run(fn, h, setup)
	if c.watch != nil {
		var rest []any
		for _, r := range recs {
			if p, ok := r.(*pchk); ok {
				c.watched = append(c.watched, p)
			} else {
				rest = append(rest, r)
			}
		}
		recs = rest
	}
	if err != nil {
		c.Unknown(rule, "%s: %v", fn, err)
		return nil, recs, false
	}
	for f := range c.E.Entered {
		c.Functions[f.String()] = true
	}
	return outs, recs, true
}

// Field of a struct-typed pointer term in a state.
func (c *Ctx) Field(st *eng.State, ptr *eng.Term, name string) *eng.Term {
	t := ptr.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return c.E.Load(st, c.E.FieldAddr(ptr, i, name, s.Field(i).Type()), s.Field(i).Type())
		}
	}
	return nil
}

// FieldOf selects a field of a pointer or struct value term.
func (c *Ctx) FieldOf(st *eng.State, x *eng.Term, name string) *eng.Term {
	if x == nil || x.T == nil {
		return nil
	}
	if _, ok := x.T.Underlying().(*types.Pointer); ok {
		return c.Field(st, x, name)
	}
	s, ok := x.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return c.E.Field(x, i, s.Field(i).Type())
		}
	}
	return nil
}

// IsNil decides whether x is nil in st: 1, -1, 0.
func (c *Ctx) IsNil(st *eng.State, x *eng.Term) int {
	return c.E.Decide(st, c.E.Eq(x, c.E.Nil()))
}

// AssumeEq and friends set up scenarios.
func (c *Ctx) AssumeNil(st *eng.State, x *eng.Term, v bool) bool {
	return c.E.Assume(st, c.E.Eq(x, c.E.Nil()), v)
}

func (c *Ctx) AssumeEq(st *eng.State, x, y *eng.Term) bool {
	return c.E.Assume(st, c.E.Eq(x, y), true)
}

// Unwrap removes interface wrapping.
func Unwrap(t *eng.Term) *eng.Term {
	for t != nil && t.Op == eng.OIface {
		t = t.Args[0]
	}
	return t
}

// ConstsOf lists the constants of a named type, by name.
func (c *Ctx) ConstsOf(pkg, typ string) map[string]int64 {
	r := map[string]int64{}
	p := c.Pkg(pkg)
	if p == nil {
		return r
	}
	for n, m := range p.Members {
		k, ok := m.(*ssa.NamedConst)
		if !ok {
			continue
		}
		if nt, ok := k.Type().(*types.Named); ok && nt.Obj().Name() == typ {
			r[n] = k.Value.Int64()
		}
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func short(t *eng.Term) string {
	s := t.String()
	if len(s) > 200 {
		s = strings.ToValidUTF8(s[:200], "") + "…"
	}
	return s
}

func posOf(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if p := in.Pos(); p != token.NoPos {
		return p
	}
	b := in.Block()
	if b == nil {
		return token.NoPos
	}
	for _, x := range b.Instrs {
		if x.Pos() != token.NoPos {
			return x.Pos()
		}
	}
	return in.Parent().Pos()
}
