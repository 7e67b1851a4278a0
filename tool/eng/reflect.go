package eng

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strings"
)

// RType is reflect.Type of a known type.
func (e *Engine) RType(t types.Type) *Term {
	return e.mk(Term{Op: OCall, S: "rtype", Args: []*Term{e.TypeC(t)}, T: e.reflectIface()})
}

func (e *Engine) reflectIface() types.Type {
	if e.rtypeT == nil {
		if p := e.Prog.ImportedPackage("reflect"); p != nil {
			e.rtypeT = p.Type("Type").Type()
			e.rvalueT = p.Type("Value").Type()
			e.rfieldT = p.Type("StructField").Type()
		} else {
			e.rtypeT = types.NewInterfaceType(nil, nil)
		}
	}
	return e.rtypeT
}

// RValue is a settable reflect.Value of a known type.
func (e *Engine) RValue(name string, t types.Type) *Term {
	rt := e.RType(t)
	return e.mk(Term{Op: OCall, S: "rvalue", Args: []*Term{rt, e.StrC(name)}, T: e.rvalueT})
}

// RTypeOf is the type a reflect.Type term stands for, nil if unknown.
func RTypeOf(t *Term) types.Type {
	if t != nil && t.Op == OCall && t.S == "rtype" {
		return t.Args[0].T
	}
	return nil
}

// ValueType is the type of the value a reflect.Value term holds, nil if unknown.
func (e *Engine) ValueType(v *Term) types.Type {
	if v == nil || v.Op != OCall {
		return nil
	}
	ptr := func(t types.Type) types.Type {
		if t == nil {
			return nil
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
		return nil
	}
	switch v.S {
	case "rvalue", "reflect.MakeSlice", "reflect.MakeMap", "reflect.MakeMapWithSize", "reflect.Zero":
		return RTypeOf(v.Args[0])
	case "reflect.New":
		if t := RTypeOf(v.Args[0]); t != nil {
			return types.NewPointer(t)
		}
	case "reflect.Indirect":
		t := e.ValueType(v.Args[0])
		if p := ptr(t); p != nil {
			return p
		}
		return t
	case "(reflect.Value).Elem":
		return ptr(e.ValueType(v.Args[0]))
	case "reflect.Append", "reflect.AppendSlice":
		return e.ValueType(v.Args[0])
	case "reflect.ValueOf":
		if x := v.Args[0]; x.Op == OIface {
			return x.T
		}
	case "(reflect.Value).Field":
		if s := structUnderT(e.ValueType(v.Args[0])); s != nil {
			if n, ok := v.Args[1].Int(); ok && n >= 0 && int(n) < s.NumFields() {
				return s.Field(int(n)).Type()
			}
		}
	case "(reflect.Value).FieldByIndex":
		return e.fieldPath(e.ValueType(v.Args[0]), v.Args[1])
	case "(reflect.Value).Index":
		if t := e.ValueType(v.Args[0]); t != nil {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				return u.Elem()
			case *types.Array:
				return u.Elem()
			}
		}
	}
	return nil
}

func structUnderT(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// IndexPath is a constant list of field indexes.
func IndexPath(l *Term) ([]int, bool) {
	if l == nil || l.Op != OAppend || !l.Args[0].IsNil() {
		return nil, false
	}
	var r []int
	for _, a := range l.Args[1:] {
		n, ok := a.Int()
		if !ok {
			return nil, false
		}
		r = append(r, int(n))
	}
	return r, true
}

func (e *Engine) fieldPath(t types.Type, l *Term) types.Type {
	p, ok := IndexPath(l)
	if !ok {
		return nil
	}
	for i, n := range p {
		if i > 0 && t != nil {
			if q, ok := t.Underlying().(*types.Pointer); ok {
				t = q.Elem()
			}
		}
		s := structUnderT(t)
		if s == nil || n < 0 || n >= s.NumFields() {
			return nil
		}
		t = s.Field(n).Type()
	}
	return t
}

// KindOf is the reflect.Kind of a type.
func KindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func typeName(t types.Type) string {
	switch n := t.(type) {
	case *types.Named:
		return n.Obj().Name()
	case *types.Alias:
		return typeName(types.Unalias(t))
	case *types.Basic:
		return n.Name()
	}
	return ""
}

// structField is reflect.StructField of field i.
func (e *Engine) structField(s *types.Struct, i int) *Term {
	f := s.Field(i)
	e.reflectIface()
	rs := structUnderT(e.rfieldT)
	if rs == nil {
		return nil
	}
	var fs []*Term
	for j := 0; j < rs.NumFields(); j++ {
		ft := rs.Field(j).Type()
		switch rs.Field(j).Name() {
		case "Name":
			fs = append(fs, e.StrC(f.Name()))
		case "PkgPath":
			p := ""
			if !f.Exported() && f.Pkg() != nil {
				p = f.Pkg().Path()
			}
			fs = append(fs, e.StrC(p))
		case "Type":
			fs = append(fs, e.RType(f.Type()))
		case "Tag":
			fs = append(fs, e.StrC(s.Tag(i)))
		case "Index":
			fs = append(fs, e.Append(ft, e.nilT, e.IntC(int64(i))))
		case "Anonymous":
			fs = append(fs, e.BoolC(f.Embedded()))
		default:
			fs = append(fs, e.Sym("structfield."+rs.Field(j).Name(), ft))
		}
	}
	return e.mk(Term{Op: OStruct, Args: fs, T: e.rfieldT})
}

// reflectCall models a call into package reflect on known types; nil if the
// call is not modelled.
func (e *Engine) reflectCall(st *State, key string, args []*Term, rt types.Type) *Term {
	strT := func(s string) *Term { return e.StrC(s) }
	m := ""
	if i := strings.LastIndex(key, "."); i >= 0 {
		m = key[i+1:]
	}
	switch {
	case key == "reflect.TypeOf":
		x := args[0]
		if x.Op == OIface {
			return e.RType(x.T)
		}
		if !isIfaceT(x.T) && x.T != nil && nonNil(x) {
			return e.RType(x.T)
		}
		if av := st.F.av[e.Dyn(x)]; av != nil && av.Fin && len(av.In) == 1 && av.In[0].Op == OType {
			return e.RType(av.In[0].T)
		}
	case strings.HasPrefix(key, "(reflect.Type)."):
		t := RTypeOf(args[0])
		if t == nil {
			return nil
		}
		s := structUnderT(t)
		switch m {
		case "Kind":
			return e.Const(constant.MakeInt64(int64(KindOf(t))), rt)
		case "Name":
			return strT(typeName(t))
		case "String":
			return strT(shortType(t))
		case "PkgPath":
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
				return strT(n.Obj().Pkg().Path())
			}
			return strT("")
		case "Elem":
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return e.RType(u.Elem())
			case *types.Slice:
				return e.RType(u.Elem())
			case *types.Array:
				return e.RType(u.Elem())
			case *types.Map:
				return e.RType(u.Elem())
			case *types.Chan:
				return e.RType(u.Elem())
			}
		case "Key":
			if u, ok := t.Underlying().(*types.Map); ok {
				return e.RType(u.Key())
			}
		case "NumField":
			if s != nil {
				return e.IntC(int64(s.NumFields()))
			}
		case "Field":
			if n, ok := args[1].Int(); ok && s != nil && n >= 0 && int(n) < s.NumFields() {
				return e.structField(s, int(n))
			}
		case "Comparable":
			return e.BoolC(types.Comparable(t))
		}
	case key == "reflect.VisibleFields":
		if s := structUnderT(RTypeOf(args[0])); s != nil {
			var l []*Term
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Embedded() {
					return nil
				}
				l = append(l, e.structField(s, i))
			}
			return e.listOf(rt, l)
		}
	case strings.HasPrefix(key, "(reflect.StructField)."):
		if m == "IsExported" {
			if s, ok := e.Field(args[0], 1, types.Typ[types.String]).Str(); ok {
				return e.BoolC(s == "")
			}
		}
	case strings.HasPrefix(key, "(reflect.StructTag)."):
		tag, ok := args[0].Str()
		k, ok2 := args[1].Str()
		if ok && ok2 {
			v, has := reflect.StructTag(tag).Lookup(k)
			switch m {
			case "Get":
				return strT(v)
			case "Lookup":
				return e.Tuple(strT(v), e.BoolC(has))
			}
		}
	case strings.HasPrefix(key, "(reflect.Value)."):
		t := e.ValueType(args[0])
		if t == nil {
			return nil
		}
		switch m {
		case "Type":
			return e.RType(t)
		case "Kind":
			return e.Const(constant.MakeInt64(int64(KindOf(t))), rt)
		case "NumField":
			if s := structUnderT(t); s != nil {
				return e.IntC(int64(s.NumFields()))
			}
		case "OverflowUint", "OverflowInt":
			r := typeRange(t)
			if r == nil || len(r.Iv) != 1 || r.Iv[0].Lo == nil || r.Iv[0].Hi == nil {
				return nil
			}
			if m == "OverflowUint" {
				hi := constant.MakeFromLiteral(r.Iv[0].Hi.Num().String(), token.INT, 0)
				return e.Lt(e.Const(hi, args[1].T), args[1])
			}
			if types.Identical(args[1].T, t) {
				return e.BoolC(false)
			}
			lo := constant.MakeFromLiteral(new(big.Int).Abs(r.Iv[0].Lo.Num()).String(), token.INT, 0)
			lo = constant.UnaryOp(token.SUB, lo, 0)
			hi := constant.MakeFromLiteral(r.Iv[0].Hi.Num().String(), token.INT, 0)
			return e.mk(Term{Op: OCall, S: outsideKey, Args: []*Term{args[1], e.Const(lo, args[1].T), e.Const(hi, args[1].T)}, T: types.Typ[types.Bool]})
		case "Elem":
			if _, ok := t.Underlying().(*types.Pointer); ok && args[0].S == "reflect.New" {
				return e.mk(Term{Op: OCall, S: "reflect.Indirect", Args: []*Term{args[0]}, T: rt})
			}
		}
	case key == "(reflect.Kind).String":
		if n, ok := args[0].Int(); ok {
			return strT(reflect.Kind(n).String())
		}
	}
	return nil
}

// outsideKey: the first argument is less than the second or greater than the
// third.
const outsideKey = "range·outside"

// IfaceT is x as an interface value.
func (e *Engine) IfaceT(x *Term, t types.Type) *Term {
	return e.mk(Term{Op: OIface, Args: []*Term{x}, T: t})
}
