package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"
)

var rvTypes = map[string]types.Type{}

// MkRV makes an abstract reflect.Value of static type t holding v.
func MkRV(rvt types.Type, t types.Type, v Val) Val {
	rvTypes["rv:"+tkey(t)] = t
	return App(rvt, "rv:"+tkey(t), v)
}

// RVParts decomposes an abstract reflect.Value.
func RVParts(v Val) (t types.Type, held Val, ok bool) {
	tm, k := v.(*Term)
	if !k || !strings.HasPrefix(tm.Op, "rv:") {
		return nil, nil, false
	}
	return rvTypes[tm.Op], tm.Args[0], true
}

// kindOf gives the reflect.Kind number.
func kindOf(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
			types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12,
			types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}
		return m[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// typeString mimics reflect.Type.String().
func typeString(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
}

func typeName(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		return u.Obj().Name()
	case *types.Basic:
		return u.Name()
	}
	return ""
}

func init() {
	kindT := func(c *Call) types.Type { return c.Res.At(0).Type() }
	Library["reflect.TypeOf"] = func(x *Exec, st *State, c *Call) []Outcome {
		switch y := c.Args[0].(type) {
		case *Iface:
			return one(st, &RType{y.Dyn})
		case *Nil:
			return one(st, &Nil{c.Res.At(0).Type()})
		}
		return nil
	}
	Library["reflect.ValueOf"] = func(x *Exec, st *State, c *Call) []Outcome {
		switch y := c.Args[0].(type) {
		case *Iface:
			return one(st, MkRV(c.Res.At(0).Type(), y.Dyn, y.V))
		case *Nil:
			return one(st, Leaf(c.Res.At(0).Type(), "rvinvalid"))
		case *Term:
			if d := st.facts[y].Dyn; d != nil {
				return one(st, MkRV(c.Res.At(0).Type(), d, x.Unbox(st, y, d)))
			}
			return x.forkCond(st, x.Compare(st, token.EQL, y, &Nil{y.T}), func(st *State, isNil bool) []Outcome {
				if isNil {
					return one(st, Leaf(c.Res.At(0).Type(), "rvinvalid"))
				}
				return one(st, App(c.Res.At(0).Type(), "rvof", y))
			})
		}
		return nil
	}
	rv := func(name string, f func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome) {
		Library["(reflect.Value)."+name] = func(x *Exec, st *State, c *Call) []Outcome {
			t, v, ok := RVParts(c.Args[0])
			if s, isS := c.Args[0].(*Struct); isS && len(s.F) > 0 {
				// the zero value
				if _, isNil := s.F[0].(*Nil); isNil {
					c.Args[0] = Leaf(s.T, "rvinvalid")
				}
			}
			if !ok {
				if tm, k := c.Args[0].(*Term); k {
					switch {
					case tm.Op == "rvinvalid" && name == "IsValid":
						return one(st, MkBool(false))
					case tm.Op == "rvinvalid" && name == "Kind":
						return one(st, MkInt(c.Res.At(0).Type(), 0))
					case tm.Op == "rvinvalid" && name != "String":
						return []Outcome{{St: st, Panic: RuntimePanic("reflect " + name + " of invalid value")}}
					case tm.Op == "rvof" && name == "IsValid":
						return one(st, MkBool(true))
					case tm.Op == "rvof" && name == "Interface":
						return one(st, tm.Args[0])
					}
				}
				return nil
			}
			return f(x, st, c, t, v)
		}
	}
	var isZero func(x *Exec, st *State, t types.Type, v Val) Val
	isZero = func(x *Exec, st *State, t types.Type, v Val) Val {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if sv := expand(v); sv != nil {
				for i, f := range sv.F {
					z := isZero(x, st, u.Field(i).Type(), f)
					if !IsTrue(z) {
						if IsFalse(z) {
							return z
						}
						return App(types.Typ[types.Bool], "iszero", v)
					}
				}
				return MkBool(true)
			}
			return App(types.Typ[types.Bool], "iszero", v)
		case *types.Basic:
			if isFloat(t) || isComplex(t) {
				if st.Equal(v, Zero(t)) == 0 {
					return MkBool(false)
				}
				return App(types.Typ[types.Bool], "iszero", v)
			}
			return x.Compare(st, token.EQL, v, Zero(t))
		case *types.Array:
			return App(types.Typ[types.Bool], "iszero", v)
		}
		return x.Compare(st, token.EQL, v, &Nil{t})
	}
	rv("IsZero", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		if u, ok := t.Underlying().(*types.Struct); ok && x.ExactAppend {
			var rest func(st *State, i int) []Outcome
			rest = func(st *State, i int) []Outcome {
				for ; i < u.NumFields(); i++ {
					z := isZero(x, st, u.Field(i).Type(), elemAt(v, i))
					switch {
					case IsTrue(z):
					case IsFalse(z):
						return one(st, MkBool(false))
					default:
						return x.forkCond(st, z, func(st *State, b bool) []Outcome {
							if b {
								return rest(st, i+1)
							}
							return one(st, MkBool(false))
						})
					}
				}
				return one(st, MkBool(true))
			}
			return rest(st, 0)
		}
		return one(st, isZero(x, st, t, v))
	})
	rv("Type", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome { return one(st, &RType{t}) })
	rv("Kind", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		return one(st, MkInt(kindT(c), kindOf(t)))
	})
	rv("IsValid", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome { return one(st, MkBool(true)) })
	rv("Interface", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		if isIface(t) {
			return one(st, v)
		}
		return one(st, &Iface{Dyn: t, V: v})
	})
	num := func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		rt := c.Res.At(0).Type()
		return one(st, x.convert(st, v, t, rt, c.Instr))
	}
	rv("Int", num)
	rv("Uint", num)
	rv("Float", num)
	rv("String", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		if isString(t) {
			return one(st, retype(v, types.Typ[types.String]))
		}
		return nil
	})
	rv("Bool", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		return one(st, retype(v, types.Typ[types.Bool]))
	})
	rv("IsNil", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		switch t.Underlying().(type) {
		case *types.Chan, *types.Signature, *types.Interface, *types.Map, *types.Pointer, *types.Slice:
			return one(st, x.Compare(st, token.EQL, v, &Nil{t}))
		}
		return []Outcome{{St: st, Panic: RuntimePanic("reflect IsNil")}}
	})
	rv("Elem", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			switch st.Nilness(v) {
			case 1:
				return one(st, Leaf(c.Res.At(0).Type(), "rvinvalid"))
			}
			vs := st.Load(v, u.Elem())
			var out []Outcome
			for i, y := range vs {
				s := st
				if i > 0 {
					s = st.Clone()
				}
				rvTypes["rv:"+tkey(u.Elem())] = u.Elem()
				out = append(out, Outcome{St: s, Vals: []Val{App(c.Res.At(0).Type(), "rv:"+tkey(u.Elem()), y, v)}})
			}
			return out
		case *types.Interface:
			if i, ok := v.(*Iface); ok {
				return one(st, MkRV(c.Res.At(0).Type(), i.Dyn, i.V))
			}
		}
		return nil
	})
	rv("Set", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		tm := c.Args[0].(*Term)
		if len(tm.Args) < 2 {
			return []Outcome{{St: st, Panic: RuntimePanic("reflect Set of unaddressable value")}}
		}
		st2, v2, ok := RVParts(c.Args[1])
		if !ok {
			return nil
		}
		if !types.AssignableTo(st2, t) {
			return []Outcome{{St: st, Panic: RuntimePanic("reflect Set type mismatch")}}
		}
		if isIface(t) && !isIface(st2) {
			v2 = &Iface{Dyn: st2, V: v2}
		}
		if x.OnStore != nil {
			x.OnStore(st, tm.Args[1], v2, c.Instr)
		}
		st.Store(tm.Args[1], Shallow(v2, t), t)
		return one(st)
	})
	rv("CanSet", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		return one(st, MkBool(len(c.Args[0].(*Term).Args) > 1))
	})
	rv("Addr", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		tm := c.Args[0].(*Term)
		if len(tm.Args) < 2 {
			return []Outcome{{St: st, Panic: RuntimePanic("reflect Addr of unaddressable value")}}
		}
		return one(st, MkRV(c.Res.At(0).Type(), types.NewPointer(t), tm.Args[1]))
	})
	rv("Convert", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		rt, ok := c.Args[1].(*RType)
		if !ok {
			return nil
		}
		return one(st, MkRV(c.Res.At(0).Type(), rt.T, x.convertAny(st, v, t, rt.T, c)))
	})
	ty := func(name string, f func(c *Call, t types.Type) Val) {
		Library["(reflect.Type)."+name] = func(x *Exec, st *State, c *Call) []Outcome {
			r, ok := c.Args[0].(*RType)
			if !ok {
				return nil
			}
			v := f(c, r.T)
			if v == nil {
				return nil
			}
			return one(st, v)
		}
	}
	Library["(reflect.Type).Size"] = func(x *Exec, st *State, c *Call) []Outcome {
		r, ok := c.Args[0].(*RType)
		if !ok {
			return nil
		}
		return one(st, MkInt(c.Res.At(0).Type(), x.Sizes.Sizeof(r.T)))
	}
	Library["(reflect.Type).Bits"] = func(x *Exec, st *State, c *Call) []Outcome {
		r, ok := c.Args[0].(*RType)
		if !ok {
			return nil
		}
		return one(st, MkInt(c.Res.At(0).Type(), 8*x.Sizes.Sizeof(r.T)))
	}
	ty("Kind", func(c *Call, t types.Type) Val { return MkInt(kindT(c), kindOf(t)) })
	ty("Name", func(c *Call, t types.Type) Val { return MkStr(typeName(t)) })
	ty("String", func(c *Call, t types.Type) Val { return MkStr(typeString(t)) })
	ty("PkgPath", func(c *Call, t types.Type) Val {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return MkStr(n.Obj().Pkg().Path())
		}
		return MkStr("")
	})
	ty("Elem", func(c *Call, t types.Type) Val {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return &RType{u.Elem()}
		case *types.Slice:
			return &RType{u.Elem()}
		case *types.Array:
			return &RType{u.Elem()}
		case *types.Map:
			return &RType{u.Elem()}
		}
		return nil
	})
	ty("NumField", func(c *Call, t types.Type) Val {
		if u, ok := t.Underlying().(*types.Struct); ok {
			return MkInt(kindT(c), int64(u.NumFields()))
		}
		return nil
	})
	ty("Field", func(c *Call, t types.Type) Val {
		u, ok := t.Underlying().(*types.Struct)
		i, isC := IntOf(c.Args[1])
		if !ok || !isC || !i.IsInt64() || i.Sign() < 0 || i.Int64() >= int64(u.NumFields()) {
			return nil
		}
		r := expand(Zero(c.Res.At(0).Type()))
		if r == nil {
			return nil
		}
		r = &Struct{T: r.T, F: append([]Val(nil), r.F...)}
		fld := u.Field(int(i.Int64()))
		st := r.T.Underlying().(*types.Struct)
		for j := 0; j < st.NumFields(); j++ {
			switch st.Field(j).Name() {
			case "Name":
				r.F[j] = MkStr(fld.Name())
			case "PkgPath":
				if !fld.Exported() {
					r.F[j] = MkStr(fld.Pkg().Path())
				}
			case "Type":
				r.F[j] = &RType{fld.Type()}
			case "Anonymous":
				r.F[j] = MkBool(fld.Anonymous())
			case "Tag":
				r.F[j] = MkConst(st.Field(j).Type(), constant.MakeString(u.Tag(int(i.Int64()))))
			default:
				r.F[j] = Leaf(st.Field(j).Type(), fmt.Sprint("structfield", j, "of", i, typeString(t)))
			}
		}
		return r
	})
	ty("Implements", func(c *Call, t types.Type) Val {
		if r, ok := c.Args[1].(*RType); ok {
			if i, ok := r.T.Underlying().(*types.Interface); ok {
				return MkBool(types.Implements(t, i))
			}
		}
		return nil
	})
	ty("AssignableTo", func(c *Call, t types.Type) Val {
		if r, ok := c.Args[1].(*RType); ok {
			return MkBool(types.AssignableTo(t, r.T))
		}
		return nil
	})
	ty("ConvertibleTo", func(c *Call, t types.Type) Val {
		if r, ok := c.Args[1].(*RType); ok {
			return MkBool(types.ConvertibleTo(t, r.T))
		}
		return nil
	})
	Library["(reflect.Kind).String"] = func(x *Exec, st *State, c *Call) []Outcome {
		if i, ok := IntOf(c.Args[0]); ok {
			return one(st, MkStr(reflect.Kind(i.Int64()).String()))
		}
		return nil
	}
	ptrTo := func(x *Exec, st *State, c *Call) []Outcome {
		if r, ok := c.Args[0].(*RType); ok {
			return one(st, &RType{types.NewPointer(r.T)})
		}
		return nil
	}
	Library["reflect.PtrTo"] = ptrTo
	Library["reflect.PointerTo"] = ptrTo
	Library["reflect.New"] = func(x *Exec, st *State, c *Call) []Outcome {
		r, ok := c.Args[0].(*RType)
		if !ok {
			return nil
		}
		st.NewCell("rnew:"+c.Site, Zero(r.T))
		return one(st, MkRV(c.Res.At(0).Type(), types.NewPointer(r.T), &Ptr{Cell: CellID{Site: "rnew:" + c.Site}, T: r.T}))
	}
	Library["reflect.Zero"] = func(x *Exec, st *State, c *Call) []Outcome {
		r, ok := c.Args[0].(*RType)
		if !ok {
			return nil
		}
		return one(st, MkRV(c.Res.At(0).Type(), r.T, Zero(r.T)))
	}
	_ = constant.MakeBool
}

func (x *Exec) convertAny(st *State, v Val, from, to types.Type, c *Call) Val {
	_, ok1 := from.Underlying().(*types.Basic)
	_, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		if types.Identical(from.Underlying(), to.Underlying()) {
			return retype(v, to)
		}
		return x.convert(st, v, from, to, c.Instr)
	}
	return retype(v, to)
}
