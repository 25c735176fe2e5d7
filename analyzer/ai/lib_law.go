package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// identity strips the injective functions of a reference that are modelled.
func identity(v Val) (Val, bool) {
	if isOp(v, "addr") {
		return v.(*Term).Args[0], true
	}
	return v, false
}

// addrOf is the text or number of the address a reference points to, equal only for equal references.
func addrOf(t types.Type, v Val) Val { return App(t, "addr", Strip(v)) }

func init() {
	Library["fmt.Sprintf"] = func(x *Exec, st *State, c *Call) []Outcome {
		f, ok := StrOf(c.Args[0])
		if !ok {
			return nil
		}
		es, ok := x.Elems(st, c.Args[1])
		if !ok {
			return nil
		}
		if r := formatStrings(f, es); r != nil {
			return one(st, r)
		}
		if len(es) != 1 {
			return nil
		}
		i, ok := es[0].(*Iface)
		if !ok {
			return nil
		}
		if isInt(i.Dyn) && len(f) > 2 && strings.HasSuffix(f, "%04x") && !hasMethods(i.Dyn) {
			// one of a few numbers
			lo, hi := st.Interval(i.V)
			if lo == nil || hi == nil || new(big.Int).Sub(hi, lo).Cmp(big.NewInt(63)) > 0 {
				return nil
			}
			var out []Outcome
			for n := lo.Int64(); n <= hi.Int64() && st != nil; n++ {
				t, r := x.Branch(st, x.Compare(st, token.EQL, i.V, MkInt(valType(i.V), n)))
				if t != nil {
					out = append(out, one(t, MkConst(types.Typ[types.String], constant.MakeString(fmt.Sprintf(f, n))))...)
				}
				st = r
			}
			return out
		}
		if b, ok := i.Dyn.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && (f == "%t" || f == "%v") && !hasMethods(i.Dyn) {
			var out []Outcome
			t, e := x.Branch(st, i.V)
			for n, o := range []*State{t, e} {
				if o != nil {
					out = append(out, one(o, MkConst(types.Typ[types.String], constant.MakeString(fmt.Sprint(n == 0))))...)
				}
			}
			return out
		}
		if f != "%p" {
			return nil
		}
		switch i.Dyn.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			return one(st, addrOf(types.Typ[types.String], i.V))
		}
		return nil
	}
	val := func(name string, f func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome) {
		Library["(reflect.Value)."+name] = func(x *Exec, st *State, c *Call) []Outcome {
			t, v, ok := RVParts(c.Args[0])
			if !ok {
				if tm, k := c.Args[0].(*Term); k && tm.Op == "rvinvalid" {
					return []Outcome{{St: st, Panic: RuntimePanic("reflect " + name + " of invalid value")}}
				}
				return nil
			}
			return f(x, st, c, t, v)
		}
	}
	ptr := func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			return one(st, addrOf(c.Res.At(0).Type(), v))
		}
		return nil
	}
	val("Pointer", ptr)
	val("UnsafePointer", ptr)
	val("Len", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return one(st, x.Len(st, v))
		case *types.Array:
			return one(st, MkInt(types.Typ[types.Int], u.Len()))
		case *types.Basic:
			if isString(t) {
				return one(st, x.Len(st, v))
			}
		case *types.Map:
			return one(st, x.Len(st, v))
		}
		return nil
	})
	val("Index", func(x *Exec, st *State, c *Call, t types.Type, v Val) []Outcome {
		u, ok := t.Underlying().(*types.Slice)
		if !ok {
			return nil
		}
		id, off, ln, _, ok := x.SliceParts(st, v)
		if !ok {
			return nil
		}
		i, ok1 := IntOf(c.Args[1])
		n, ok2 := IntOf(ln)
		if !ok1 || !ok2 {
			return nil
		}
		if i.Sign() < 0 || i.Cmp(n) >= 0 {
			return []Outcome{{St: st, Panic: RuntimePanic("reflect: slice index out of range")}}
		}
		p := &Ptr{Cell: id, Path: []Step{{Idx: addInt(st, off, c.Args[1])}}, T: u.Elem()}
		rvTypes["rv:"+tkey(u.Elem())] = u.Elem()
		var out []Outcome
		vs := st.Load(p, u.Elem())
		for i, y := range vs {
			s := st
			if i+1 < len(vs) {
				s = st.Clone()
			}
			out = append(out, Outcome{St: s, Vals: []Val{App(c.Res.At(0).Type(), "rv:"+tkey(u.Elem()), y, p)}})
		}
		return out
	})
	_ = constant.MakeBool
	_ = big.NewInt
}

// Fail makes the analysis undecided.
func (x *Exec) Fail(format string, a ...any) { x.fail(format, a...) }
func ValType(v Val) types.Type               { return valType(v) }

func hasMethods(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.NumMethods() > 0
}

// formatStrings formats strings by verbs %v and %s, nil if there is anything else.
func formatStrings(f string, es []Val) Val {
	str := types.Typ[types.String]
	var ps []Val
	for _, p := range strings.SplitAfter(f, "%v") {
		verb := strings.HasSuffix(p, "%v")
		t := strings.TrimSuffix(p, "%v")
		if strings.Contains(t, "%") {
			return nil
		}
		ps = append(ps, MkStr(t))
		if verb {
			if len(es) == 0 {
				return nil
			}
			i, ok := es[0].(*Iface)
			if !ok || !types.Identical(i.Dyn, str) {
				return nil
			}
			ps, es = append(ps, i.V), es[1:]
		}
	}
	if len(es) > 0 {
		return nil
	}
	return Cat(str, ps...)
}
