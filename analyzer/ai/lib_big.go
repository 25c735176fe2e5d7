package ai

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
)

// Model of math/big: the content of a big.Int is a value of type big.Int (an unbounded integer); of a big.Float a
// value of type big.Float; of a big.Rat a pair {numerator, denominator}.

var bigInf = new(big.Int).Lsh(big.NewInt(1), 4096)

// IsBig reports whether t is math/big's named type.
func IsBig(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == name
}

func isZeroStruct(v Val) bool {
	s, ok := v.(*Struct)
	if !ok {
		return false
	}
	for _, f := range s.F {
		if !IsZero(f) && !isZeroStruct(f) {
			return false
		}
	}
	return true
}

// BigT finds math/big types from a call signature; they are recorded by the loader on first use.
var BigInt, BigFloat, BigRat types.Type

// SetBigTypes records math/big's types.
func SetBigTypes(p *types.Package) {
	BigInt = p.Scope().Lookup("Int").Type()
	BigFloat = p.Scope().Lookup("Float").Type()
	BigRat = p.Scope().Lookup("Rat").Type()
}

func normBig(v Val, t types.Type) Val {
	if isZeroStruct(v) {
		return MkInt(t, 0)
	}
	if s, ok := v.(*Struct); ok {
		_ = s
		return App(t, "opaquebig", MkStr(v.K()))
	}
	return v
}

// Shallow marks a big value stored by plain assignment of the struct: it shares the word slice of the original.
func Shallow(v Val, t types.Type) Val {
	if BigInt == nil {
		return v
	}
	switch {
	case IsBig(t, "Int") || IsBig(t, "Float"):
		if y, ok := v.(*Term); ok && y.Op != "shallow" {
			return App(t, "shallow", y)
		}
	case IsBig(t, "Rat"):
		if y, ok := v.(*Struct); ok {
			f := make([]Val, len(y.F))
			for i := range f {
				f[i] = Shallow(y.F[i], BigInt)
			}
			return &Struct{T: y.T, F: f}
		}
		if y, ok := v.(*Term); ok && y.Op != "shallow" {
			return App(t, "shallow", y)
		}
	}
	return v
}

// SharesStorage reports whether v contains the words of another big value.
func SharesStorage(v Val) bool {
	f := false
	Walk(v, func(x Val) bool {
		if t, ok := x.(*Term); ok && t.Op == "shallow" {
			f = true
		}
		return !f
	})
	return f
}

func asBig(v Val, t types.Type) Val {
	s := Strip(v)
	if c, ok := s.(*Const); ok {
		if c.V.Kind() == constant.Int {
			return MkConst(t, c.V)
		}
	}
	if vt := valType(s); vt != nil && types.Identical(vt, t) {
		return s
	}
	return App(t, "cv", s)
}

// ld reads the contents behind pointers ps of type t, forking over alternatives.
func (x *Exec) ld(st *State, ps []Val, ts []types.Type, f func(st *State, vs []Val) []Outcome) []Outcome {
	var rec func(st *State, i int, acc []Val) []Outcome
	rec = func(st *State, i int, acc []Val) []Outcome {
		if i == len(ps) {
			return f(st, acc)
		}
		var out []Outcome
		if ps[i] == nil {
			return rec(st, i+1, append(acc, nil))
		}
		switch st.Nilness(ps[i]) {
		case 1:
			return []Outcome{{St: st, Panic: RuntimePanic("nil dereference")}}
		case 0:
			if t, ok := ps[i].(*Term); ok {
				if x.ForkNil && !t.old {
					n := st.Clone()
					n.SetNil(t)
					out = append(out, Outcome{St: n, Panic: RuntimePanic("nil dereference")})
				}
				st.SetNonNil(t)
			}
		}
		vs := st.Load(ps[i], ts[i])
		if len(vs) == 0 {
			vs = []Val{App(ts[i], "unknown", ps[i])}
		}
		for k, v := range vs {
			s := st
			if k < len(vs)-1 {
				s = st.Clone()
			}
			nacc := append(append([]Val(nil), acc...), normBig(v, ts[i]))
			out = append(out, rec(s, i+1, nacc)...)
		}
		return out
	}
	return rec(st, 0, nil)
}

func (x *Exec) ratParts(p Val) (a, b Val) {
	return x.addr(p, Step{Field: 0}, BigInt), x.addr(p, Step{Field: 1}, BigInt)
}

// store writes v behind p.
func (x *Exec) bigStore(st *State, c *Call, p, v Val, t types.Type) {
	if x.OnStore != nil {
		x.OnStore(st, p, v, c.Instr)
	}
	if y, ok := v.(*Term); ok && y.Op == "shallow" {
		v = y.Args[0]
	}
	st.Store(p, v, t)
}

func (x *Exec) ratStore(st *State, c *Call, p, a, b Val) {
	pa, pb := x.ratParts(p)
	x.bigStore(st, c, pa, asBig(a, BigInt), BigInt)
	x.bigStore(st, c, pb, asBig(b, BigInt), BigInt)
}

// NumParts gives numerator and denominator of a numeric value.
func NumParts(v Val) (n, d Val) {
	s := Strip(v)
	if c, ok := s.(*Const); ok {
		switch c.V.Kind() {
		case constant.Int:
			return MkConst(BigInt, c.V), MkInt(BigInt, 1)
		case constant.Float:
			return MkConst(BigInt, constant.Num(c.V)), MkConst(BigInt, constant.Denom(c.V))
		}
	}
	if t, ok := s.(*Term); ok {
		if t.Op == "ratv" {
			return t.Args[0], t.Args[1]
		}
		if isInt(t.T) || IsBig(t.T, "Int") {
			return s, MkInt(BigInt, 1)
		}
	}
	return App(BigInt, "num", s), App(BigInt, "den", s)
}

// RatVal is the canonical value of num/den.
func RatVal(n, d Val) Val {
	n, d = Strip(n), Strip(d)
	if i, ok := IntOf(d); ok && i.Cmp(big.NewInt(1)) == 0 {
		return n
	}
	if tn, ok := n.(*Term); ok && tn.Op == "num" {
		if td, ok := d.(*Term); ok && td.Op == "den" && tn.Args[0].K() == td.Args[0].K() {
			return tn.Args[0]
		}
	}
	return App(BigRat, "ratv", n, d)
}

func den1(v Val) Val {
	if i, ok := IntOf(v); ok && i.Sign() == 0 {
		return MkInt(BigInt, 1)
	}
	return v
}

// forkBool forks on a boolean term.
func (x *Exec) forkCond(st *State, c Val, f func(st *State, b bool) []Outcome) []Outcome {
	t, n := x.Branch(st, c)
	var out []Outcome
	if t != nil {
		out = append(out, f(t, true)...)
	}
	if n != nil {
		out = append(out, f(n, false)...)
	}
	return out
}

// forkSign forks on the sign of an ordered pair.
func (x *Exec) forkCmp(st *State, a, b Val, f func(st *State, s int) []Outcome) []Outcome {
	r := st.Rel(a, b)
	var out []Outcome
	for _, k := range []struct {
		m uint8
		s int
	}{{LT, -1}, {EQ, 0}, {GT, 1}} {
		if r&k.m == 0 {
			continue
		}
		n := st.Clone()
		if !n.SetRel(a, b, k.m) {
			continue
		}
		out = append(out, f(n, k.s)...)
	}
	return out
}

// forkAbs forks on the sign of v, and passes its absolute value.
func (x *Exec) forkAbs(st *State, v Val, f func(st *State, a Val) []Outcome) []Outcome {
	return x.forkCmp(st, v, MkInt(BigInt, 0), func(st *State, s int) []Outcome {
		switch s {
		case -1:
			return f(st, App(BigInt, "neg", Strip(v)))
		case 0:
			return f(st, MkInt(BigInt, 0))
		}
		return f(st, Strip(v))
	})
}

// forkRange forks on v in [lo,hi].
func (x *Exec) forkRange(st *State, v Val, t types.Type, f func(st *State, in bool) []Outcome) []Outcome {
	lo, hi := TypeRange(t)
	var out []Outcome
	c := func(i *big.Int) Val { return MkBig(BigInt, i) }
	b := st.Clone()
	if st.Rel(v, c(lo))&LT != 0 && b.SetRel(v, c(lo), LT) {
		out = append(out, f(b, false)...)
	}
	a := st.Clone()
	if st.Rel(v, c(hi))&GT != 0 && a.SetRel(v, c(hi), GT) {
		out = append(out, f(a, false)...)
	}
	in := st.Clone()
	if in.SetRel(v, c(lo), GT|EQ) && in.SetRel(v, c(hi), LT|EQ) {
		out = append(out, f(in, true)...)
	}
	return out
}

// IsInfTerm and friends name the special-value predicates of a numeric value.
func IsInfTerm(v Val) Val { return App(types.Typ[types.Bool], "isinf", Strip(v)) }

func canInf(v Val) bool {
	s := Strip(v)
	switch y := s.(type) {
	case *Const:
		return false
	case *Term:
		return isFloat(y.T) || IsBig(y.T, "Float")
	}
	return false
}

// forkNaN / forkInf
func (x *Exec) forkNaN(st *State, v Val, f func(st *State, nan bool) []Outcome) []Outcome {
	s := Strip(v)
	if vt := valType(s); vt == nil || !isFloat(vt) {
		return f(st, false)
	}
	if _, ok := s.(*Const); ok {
		return f(st, false)
	}
	r := st.Rel(s, s)
	var out []Outcome
	if r&UN != 0 {
		n := st.Clone()
		if n.SetRel(s, s, UN) {
			if t, ok := IsInfTerm(s).(*Term); !ok || n.facts[t].BoolS != 2 {
				if ok {
					n.SetBool(t, false)
				}
				out = append(out, f(n, true)...)
			}
		}
	}
	if r&EQ != 0 && st.SetRel(s, s, EQ) {
		out = append(out, f(st, false)...)
	}
	return out
}

func (x *Exec) forkInf(st *State, v Val, f func(st *State, inf bool) []Outcome) []Outcome {
	if !canInf(v) {
		return f(st, false)
	}
	s := Strip(v)
	if vt := valType(s); vt != nil && isFloat(vt) && st.Rel(s, s) == UN {
		return f(st, false)
	}
	return x.forkCond(st, IsInfTerm(v), func(st *State, b bool) []Outcome {
		if b {
			if vt := valType(s); vt != nil && isFloat(vt) {
				if !st.SetRel(s, s, EQ) {
					return nil
				}
			}
		}
		return f(st, b)
	})
}

// FitsTerm: v is exactly representable in float type t.
func FitsTerm(v Val, bits int) Val {
	return App(types.Typ[types.Bool], "fits"+itoa(bits), Strip(v))
}

// foldBig evaluates operations on integer constants.
func foldBig(op string, a, b Val, t types.Type) Val {
	i, ok1 := IntOf(Strip(a))
	j, ok2 := IntOf(Strip(b))
	if !ok1 || !ok2 {
		return nil
	}
	switch op {
	case "add":
		return MkBig(t, new(big.Int).Add(i, j))
	case "sub":
		return MkBig(t, new(big.Int).Sub(i, j))
	case "mul":
		return MkBig(t, new(big.Int).Mul(i, j))
	case "&":
		return MkBig(t, new(big.Int).And(i, j))
	case "|":
		return MkBig(t, new(big.Int).Or(i, j))
	case "^":
		return MkBig(t, new(big.Int).Xor(i, j))
	}
	return nil
}

func commut(op string, a, b Val) []Val {
	a, b = Strip(a), Strip(b)
	if op == "add" || op == "mul" {
		l := []Val{a, b}
		sort.Slice(l, func(i, j int) bool { return l[i].K() < l[j].K() })
		return l
	}
	return []Val{a, b}
}

func init() {
	lib := func(n string, f func(x *Exec, st *State, c *Call) []Outcome) { Library[n] = f }
	ptrTo := func(id CellID, t types.Type) Val { return &Ptr{Cell: id, T: t} }
	newInt := func(x *Exec, st *State, c *Call, v Val) (*State, Val) {
		a := st.Pinned([]Val{v}, func() { st.NewCell("big:"+c.Site, Zero(BigInt)) })
		p := ptrTo(CellID{Site: "big:" + c.Site}, BigInt)
		st.Store(p, asBig(a[0], BigInt), BigInt)
		return st, p
	}
	newRat := func(st *State, c *Call, vs ...Val) (Val, []Val) {
		a := st.Pinned(vs, func() { st.NewCell("rat:"+c.Site, Zero(BigRat)) })
		return ptrTo(CellID{Site: "rat:" + c.Site}, BigRat), a
	}
	newFloat := func(st *State, c *Call, vs ...Val) (Val, []Val) {
		a := st.Pinned(vs, func() { st.NewCell("flt:"+c.Site, Zero(BigFloat)) })
		return ptrTo(CellID{Site: "flt:" + c.Site}, BigFloat), a
	}
	lib("math/big.NewInt", func(x *Exec, st *State, c *Call) []Outcome {
		st, p := newInt(x, st, c, c.Args[0])
		return one(st, p)
	})
	// ---- Int setters
	setI := func(name string) {
		lib("(*math/big.Int)."+name, func(x *Exec, st *State, c *Call) []Outcome {
			return x.ld(st, []Val{c.Args[0]}, []types.Type{BigInt}, func(st *State, _ []Val) []Outcome {
				x.bigStore(st, c, c.Args[0], asBig(c.Args[1], BigInt), BigInt)
				return one(st, c.Args[0])
			})
		})
	}
	setI("SetInt64")
	setI("SetUint64")
	un := func(T *types.Type, typ, name, op string) {
		lib("(*math/big."+typ+")."+name, func(x *Exec, st *State, c *Call) []Outcome {
			return x.ld(st, []Val{c.Args[0], c.Args[1]}, []types.Type{*T, *T}, func(st *State, v []Val) []Outcome {
				var r Val
				switch op {
				case "set":
					r = v[1]
					if y, ok := v[0].(*Term); ok && typ == "Float" && y.K() != v[1].K() {
						// a destination that already has a value has a precision the result is rounded to
						r = App(*T, "round", Strip(v[1]))
					}
				case "copy":
					r = v[1]
				case "neg":
					if i, ok := IntOf(v[1]); ok {
						r = MkBig(*T, new(big.Int).Neg(i))
					} else {
						r = App(*T, "neg", Strip(v[1]))
					}
				case "abs":
					return x.forkCmp(st, v[1], MkInt(*T, 0), func(st *State, s int) []Outcome {
						r := v[1]
						if s < 0 {
							r = App(*T, "neg", Strip(v[1]))
						}
						x.bigStore(st, c, c.Args[0], r, *T)
						return one(st, c.Args[0])
					})
				}
				x.bigStore(st, c, c.Args[0], r, *T)
				return one(st, c.Args[0])
			})
		})
	}
	bin := func(T *types.Type, typ, name, op string) {
		lib("(*math/big."+typ+")."+name, func(x *Exec, st *State, c *Call) []Outcome {
			return x.ld(st, []Val{c.Args[0], c.Args[1], c.Args[2]}, []types.Type{*T, *T, *T}, func(st *State, v []Val) []Outcome {
				do := func(st *State) []Outcome {
					r := foldBig(op, v[1], v[2], *T)
					if r == nil {
						r = App(*T, op, commut(op, v[1], v[2])...)
					}
					x.bigStore(st, c, c.Args[0], r, *T)
					return one(st, c.Args[0])
				}
				if typ == "Int" && (op == "quo" || op == "rem" || op == "div" || op == "mod") {
					return x.forkCond(st, x.Compare(st, token.EQL, v[2], MkInt(*T, 0)), func(st *State, z bool) []Outcome {
						if z {
							return []Outcome{{St: st, Panic: RuntimePanic("division by zero")}}
						}
						return do(st)
					})
				}
				return do(st)
			})
		})
	}
	cmp := func(T *types.Type, typ string) {
		lib("(*math/big."+typ+").Cmp", func(x *Exec, st *State, c *Call) []Outcome {
			return x.ld(st, []Val{c.Args[0], c.Args[1]}, []types.Type{*T, *T}, func(st *State, v []Val) []Outcome {
				return x.forkCmp(st, v[0], v[1], func(st *State, s int) []Outcome { return one(st, MkInt(types.Typ[types.Int], int64(s))) })
			})
		})
		lib("(*math/big."+typ+").CmpAbs", func(x *Exec, st *State, c *Call) []Outcome {
			return x.ld(st, []Val{c.Args[0], c.Args[1]}, []types.Type{*T, *T}, func(st *State, v []Val) []Outcome {
				if typ == "Int" {
					return x.forkAbs(st, v[0], func(st *State, a Val) []Outcome {
						return x.forkAbs(st, v[1], func(st *State, b Val) []Outcome {
							return x.forkCmp(st, a, b, func(st *State, s int) []Outcome { return one(st, MkInt(types.Typ[types.Int], int64(s))) })
						})
					})
				}
				a, b := App(*T, "absv", Strip(v[0])), App(*T, "absv", Strip(v[1]))
				return x.forkCmp(st, a, b, func(st *State, s int) []Outcome { return one(st, MkInt(types.Typ[types.Int], int64(s))) })
			})
		})
		lib("(*math/big."+typ+").Sign", func(x *Exec, st *State, c *Call) []Outcome {
			return x.ld(st, []Val{c.Args[0]}, []types.Type{*T}, func(st *State, v []Val) []Outcome {
				return x.forkCmp(st, v[0], MkInt(*T, 0), func(st *State, s int) []Outcome { return one(st, MkInt(types.Typ[types.Int], int64(s))) })
			})
		})
	}
	for _, t := range []struct {
		T *types.Type
		n string
	}{{&BigInt, "Int"}, {&BigFloat, "Float"}} {
		un(t.T, t.n, "Set", "set")
		un(t.T, t.n, "Neg", "neg")
		un(t.T, t.n, "Abs", "abs")
		for _, o := range [][2]string{{"Add", "add"}, {"Sub", "sub"}, {"Mul", "mul"}, {"Quo", "quo"}} {
			bin(t.T, t.n, o[0], o[1])
		}
		cmp(t.T, t.n)
	}
	un(&BigFloat, "Float", "Copy", "copy")
	bin(&BigInt, "Int", "Rem", "rem")
	bin(&BigInt, "Int", "Div", "div")
	bin(&BigInt, "Int", "Mod", "mod")
	lib("(*math/big.Int).QuoRem", func(x *Exec, st *State, c *Call) []Outcome {
		// z.QuoRem(x, y, r)
		return x.ld(st, c.Args[:4], []types.Type{BigInt, BigInt, BigInt, BigInt}, func(st *State, v []Val) []Outcome {
			return x.forkCond(st, x.Compare(st, token.EQL, v[2], MkInt(BigInt, 0)), func(st *State, z bool) []Outcome {
				if z {
					return []Outcome{{St: st, Panic: RuntimePanic("division by zero")}}
				}
				x.bigStore(st, c, c.Args[0], App(BigInt, "quo", Strip(v[1]), Strip(v[2])), BigInt)
				x.bigStore(st, c, c.Args[3], App(BigInt, "rem", Strip(v[1]), Strip(v[2])), BigInt)
				return one(st, c.Args[0], c.Args[3])
			})
		})
	})
	lib("(*math/big.Int).Bytes", func(x *Exec, st *State, c *Call) []Outcome {
		return x.ld(st, c.Args[:1], []types.Type{BigInt}, func(st *State, v []Val) []Outcome {
			return one(st, App(c.Res.At(0).Type(), "bigbytes", Strip(v[0])))
		})
	})
	lib("(*math/big.Int).SetBytes", func(x *Exec, st *State, c *Call) []Outcome {
		set := func(st *State, v Val) []Outcome {
			x.bigStore(st, c, c.Args[0], v, BigInt)
			return one(st, c.Args[0])
		}
		if t, ok := c.Args[1].(*Term); ok && t.Op == "bigbytes" {
			return x.forkAbs(st, t.Args[0], set)
		}
		return set(st, App(BigInt, "setbytes", MkStr(c.Args[1].K())))
	})
	for _, o := range [][2]string{{"And", "&"}, {"Or", "|"}, {"Xor", "^"}} {
		bin(&BigInt, "Int", o[0], o[1])
	}
	for _, o := range []string{"Rsh", "Lsh"} {
		o := o
		lib("(*math/big.Int)."+o, func(x *Exec, st *State, c *Call) []Outcome {
			return x.ld(st, []Val{c.Args[0], c.Args[1]}, []types.Type{BigInt, BigInt}, func(st *State, v []Val) []Outcome {
				r := App(BigInt, map[string]string{"Rsh": ">>", "Lsh": "<<"}[o], Strip(v[1]), c.Args[2])
				if n, ok := IntOf(c.Args[2]); ok && n.IsInt64() && n.Int64() >= 0 && n.Int64() < 1000 {
					if i, ok := IntOf(Strip(v[1])); ok && o == "Rsh" {
						r = MkBig(BigInt, new(big.Int).Rsh(i, uint(n.Int64())))
					} else if o == "Lsh" {
						m := new(big.Int).Lsh(big.NewInt(1), uint(n.Int64()))
						if ok {
							r = MkBig(BigInt, m.Mul(m, i))
						} else {
							r = App(BigInt, "mul", commut("mul", v[1], MkBig(BigInt, m))...)
						}
					}
				}
				x.bigStore(st, c, c.Args[0], r, BigInt)
				return one(st, c.Args[0])
			})
		})
	}
	// ---- Int getters
	for _, g := range []struct {
		name, is string
		t        types.Type
	}{{"Int64", "IsInt64", types.Typ[types.Int64]}, {"Uint64", "IsUint64", types.Typ[types.Uint64]}} {
		g := g
		lib("(*math/big.Int)."+g.is, func(x *Exec, st *State, c *Call) []Outcome {
			return x.ld(st, []Val{c.Args[0]}, []types.Type{BigInt}, func(st *State, v []Val) []Outcome {
				return x.forkRange(st, v[0], g.t, func(st *State, in bool) []Outcome { return one(st, MkBool(in)) })
			})
		})
		lib("(*math/big.Int)."+g.name, func(x *Exec, st *State, c *Call) []Outcome {
			return x.ld(st, []Val{c.Args[0]}, []types.Type{BigInt}, func(st *State, v []Val) []Outcome {
				return one(st, intNarrow(st, v[0], g.t))
			})
		})
	}
	str := func(x *Exec, st *State, c *Call) []Outcome {
		return x.ld(st, []Val{c.Args[0]}, []types.Type{BigInt}, func(st *State, v []Val) []Outcome {
			return x.fmtInt(st, v[0], MkInt(types.Typ[types.Int], 10))
		})
	}
	lib("(*math/big.Int).String", str)
	lib("(*math/big.Int).Text", func(x *Exec, st *State, c *Call) []Outcome {
		return x.ld(st, []Val{c.Args[0]}, []types.Type{BigInt}, func(st *State, v []Val) []Outcome {
			return x.fmtInt(st, v[0], c.Args[1])
		})
	})
	for _, n := range []string{"BitLen", "TrailingZeroBits", "Bit"} {
		n := n
		lib("(*math/big.Int)."+n, func(x *Exec, st *State, c *Call) []Outcome {
			return x.ld(st, []Val{c.Args[0]}, []types.Type{BigInt}, func(st *State, v []Val) []Outcome {
				if n == "Bit" && IsZero(c.Args[1]) {
					return one(st, App(c.Res.At(0).Type(), "cv", App(BigInt, "&", Strip(v[0]), MkInt(BigInt, 1))))
				}
				return one(st, App(c.Res.At(0).Type(), "big."+n, append([]Val{Strip(v[0])}, c.Args[1:]...)...))
			})
		})
	}
	lib("(*math/big.Int).SetString", func(x *Exec, st *State, c *Call) []Outcome {
		ptr := c.Res.At(0).Type()
		return x.forkCond(st, App(types.Typ[types.Bool], "validint", c.Args[1], c.Args[2]), func(st *State, ok bool) []Outcome {
			if ok {
				x.bigStore(st, c, c.Args[0], ParseInt(c.Args[1], c.Args[2]), BigInt)
				return one(st, c.Args[0], MkBool(true))
			}
			x.bigStore(st, c, c.Args[0], App(BigInt, "junk", c.Args[1], c.Args[2]), BigInt)
			return one(st, &Nil{ptr}, MkBool(false))
		})
	})
	// ---- strconv
	pi := func(name, valid string, signed bool) {
		lib("strconv."+name, func(x *Exec, st *State, c *Call) []Outcome {
			t := c.Res.At(0).Type()
			bitsz := c.Args[2]
			rt := t
			if n, ok := IntOf(bitsz); ok {
				b := n.Int64()
				m := map[int64]types.BasicKind{8: types.Int8, 16: types.Int16, 32: types.Int32, 64: types.Int64, 0: types.Int}
				if !signed {
					m = map[int64]types.BasicKind{8: types.Uint8, 16: types.Uint16, 32: types.Uint32, 64: types.Uint64, 0: types.Uint}
				}
				if k, ok := m[b]; ok {
					rt = types.Typ[k]
				}
			} else {
				return nil
			}
			et := c.Res.At(1).Type()
			if b, ok := IntOf(c.Args[1]); ok && Digits && b.Int64() == 10 {
				v, ok := x.parseDigits(st, c.Args[0], signed)
				if v == nil && ok {
					return one(st, MkInt(t, 0), st.NewLeaf(et, "err:"+c.Site, true))
				}
				if v != nil {
					return x.forkRange(st, v, rt, func(st *State, in bool) []Outcome {
						if in {
							return one(st, intNarrow(st, v, t), &Nil{et})
						}
						return one(st, st.NewLeaf(t, "limit:"+c.Site, true), st.NewLeaf(et, "err:"+c.Site, true))
					})
				}
			}
			return x.forkCond(st, App(types.Typ[types.Bool], valid, c.Args[0], c.Args[1]), func(st *State, ok bool) []Outcome {
				bad := func(st *State) []Outcome {
					e := st.NewLeaf(et, "err:"+c.Site, true)
					return one(st, App(t, "junk", c.Args[0], c.Args[1]), e)
				}
				if !ok {
					return bad(st)
				}
				v := ParseInt(c.Args[0], c.Args[1])
				return x.forkRange(st, v, rt, func(st *State, in bool) []Outcome {
					if in {
						return one(st, intNarrow(st, v, t), &Nil{et})
					}
					return bad(st)
				})
			})
		})
	}
	pi("ParseInt", "validint", true)
	pi("ParseUint", "validuint", false)
	lib("strconv.Atoi", func(x *Exec, st *State, c *Call) []Outcome {
		cc := *c
		cc.Args = []Val{c.Args[0], MkInt(types.Typ[types.Int], 10), MkInt(types.Typ[types.Int], 0)}
		return Library["strconv.ParseInt"](x, st, &cc)
	})
	lib("strconv.FormatInt", func(x *Exec, st *State, c *Call) []Outcome {
		return x.fmtInt(st, c.Args[0], c.Args[1])
	})
	Library["strconv.FormatUint"] = Library["strconv.FormatInt"]
	lib("strconv.Itoa", func(x *Exec, st *State, c *Call) []Outcome { return x.fmtInt(st, c.Args[0], MkInt(types.Typ[types.Int], 10)) })
	lib("strconv.ParseFloat", func(x *Exec, st *State, c *Call) []Outcome {
		et := c.Res.At(1).Type()
		return x.forkCond(st, App(types.Typ[types.Bool], "validfloat", c.Args...), func(st *State, ok bool) []Outcome {
			if ok {
				return one(st, App(c.Res.At(0).Type(), "parsefloat", c.Args...), &Nil{et})
			}
			return one(st, App(c.Res.At(0).Type(), "junk", c.Args...), st.NewLeaf(et, "err:"+c.Site, true))
		})
	})
	// ---- Rat
	lib("math/big.NewRat", func(x *Exec, st *State, c *Call) []Outcome {
		z := x.Compare(st, token.EQL, c.Args[1], MkInt(types.Typ[types.Int64], 0))
		return x.forkCond(st, z, func(st *State, b bool) []Outcome {
			if b {
				return []Outcome{{St: st, Panic: RuntimePanic("division by zero")}}
			}
			p, a := newRat(st, c, c.Args[0], c.Args[1])
			x.ratStore(st, c, p, RatNum(a[0], a[1]), RatDen(a[0], a[1]))
			return one(st, p)
		})
	})
	ratGet := func(x *Exec, st *State, ps []Val, f func(st *State, v []Val) []Outcome) []Outcome {
		var qs []Val
		var ts []types.Type
		for _, p := range ps {
			if st.Nilness(p) == 1 {
				return []Outcome{{St: st, Panic: RuntimePanic("nil dereference")}}
			}
			if t, ok := p.(*Term); ok {
				st.SetNonNil(t)
			}
			a, b := x.ratParts(p)
			qs = append(qs, a, b)
			ts = append(ts, BigInt, BigInt)
		}
		return x.ld(st, qs, ts, func(st *State, v []Val) []Outcome {
			for i := 1; i < len(v); i += 2 {
				v[i] = den1(v[i])
			}
			return f(st, v)
		})
	}
	setR := func(name string) {
		lib("(*math/big.Rat)."+name, func(x *Exec, st *State, c *Call) []Outcome {
			x.ratStore(st, c, c.Args[0], c.Args[1], MkInt(BigInt, 1))
			return one(st, c.Args[0])
		})
	}
	setR("SetInt64")
	setR("SetUint64")
	lib("(*math/big.Rat).SetInt", func(x *Exec, st *State, c *Call) []Outcome {
		return x.ld(st, []Val{c.Args[1]}, []types.Type{BigInt}, func(st *State, v []Val) []Outcome {
			x.ratStore(st, c, c.Args[0], v[0], MkInt(BigInt, 1))
			return one(st, c.Args[0])
		})
	})
	frac := func(x *Exec, st *State, c *Call, a, b Val) []Outcome {
		return x.forkCond(st, x.Compare(st, token.EQL, b, MkInt(BigInt, 0)), func(st *State, z bool) []Outcome {
			if z {
				return []Outcome{{St: st, Panic: RuntimePanic("division by zero")}}
			}
			x.ratStore(st, c, c.Args[0], RatNum(a, b), RatDen(a, b))
			return one(st, c.Args[0])
		})
	}
	lib("(*math/big.Rat).SetFrac", func(x *Exec, st *State, c *Call) []Outcome {
		return x.ld(st, []Val{c.Args[1], c.Args[2]}, []types.Type{BigInt, BigInt}, func(st *State, v []Val) []Outcome {
			return frac(x, st, c, v[0], v[1])
		})
	})
	lib("(*math/big.Rat).SetFrac64", func(x *Exec, st *State, c *Call) []Outcome { return frac(x, st, c, c.Args[1], c.Args[2]) })
	lib("(*math/big.Rat).Set", func(x *Exec, st *State, c *Call) []Outcome {
		return ratGet(x, st, []Val{c.Args[1]}, func(st *State, v []Val) []Outcome {
			x.ratStore(st, c, c.Args[0], v[0], v[1])
			return one(st, c.Args[0])
		})
	})
	lib("(*math/big.Rat).SetFloat64", func(x *Exec, st *State, c *Call) []Outcome {
		return x.forkNaN(st, c.Args[1], func(st *State, nan bool) []Outcome {
			if nan {
				return one(st, &Nil{c.Res.At(0).Type()})
			}
			return x.forkInf(st, c.Args[1], func(st *State, inf bool) []Outcome {
				if inf {
					return one(st, &Nil{c.Res.At(0).Type()})
				}
				n, d := NumParts(c.Args[1])
				x.ratStore(st, c, c.Args[0], n, d)
				return one(st, c.Args[0])
			})
		})
	})
	lib("(*math/big.Rat).SetString", func(x *Exec, st *State, c *Call) []Outcome {
		return x.forkCond(st, App(types.Typ[types.Bool], "validrat", c.Args[1]), func(st *State, ok bool) []Outcome {
			if !ok {
				return one(st, &Nil{c.Res.At(0).Type()}, MkBool(false))
			}
			v := App(BigRat, "parser", c.Args[1])
			n, d := NumParts(v)
			x.ratStore(st, c, c.Args[0], n, d)
			return one(st, c.Args[0], MkBool(true))
		})
	})
	lib("(*math/big.Rat).IsInt", func(x *Exec, st *State, c *Call) []Outcome {
		return ratGet(x, st, c.Args[:1], func(st *State, v []Val) []Outcome {
			return x.forkCond(st, x.Compare(st, token.EQL, v[1], MkInt(BigInt, 1)), func(st *State, b bool) []Outcome {
				return one(st, MkBool(b))
			})
		})
	})
	lib("(*math/big.Rat).Num", func(x *Exec, st *State, c *Call) []Outcome {
		if st.Nilness(c.Args[0]) == 1 {
			return []Outcome{{St: st, Panic: RuntimePanic("nil dereference")}}
		}
		a, _ := x.ratParts(c.Args[0])
		return one(st, a)
	})
	lib("(*math/big.Rat).Denom", func(x *Exec, st *State, c *Call) []Outcome {
		if st.Nilness(c.Args[0]) == 1 {
			return []Outcome{{St: st, Panic: RuntimePanic("nil dereference")}}
		}
		return ratGet(x, st, c.Args[:1], func(st *State, v []Val) []Outcome {
			_, b := x.ratParts(c.Args[0])
			if i, ok := IntOf(v[1]); ok && i.Cmp(big.NewInt(1)) == 0 {
				st.Store(b, v[1], BigInt)
			}
			return one(st, b)
		})
	})
	ratStr := func(op string) func(x *Exec, st *State, c *Call) []Outcome {
		return func(x *Exec, st *State, c *Call) []Outcome {
			return ratGet(x, st, c.Args[:1], func(st *State, v []Val) []Outcome {
				return one(st, App(types.Typ[types.String], op, append([]Val{RatVal(v[0], v[1])}, c.Args[1:]...)...))
			})
		}
	}
	lib("(*math/big.Rat).String", ratStr("fmtrat"))
	lib("(*math/big.Rat).RatString", ratStr("fmtratstr"))
	lib("(*math/big.Rat).FloatString", ratStr("fmtratfloat"))
	lib("(*math/big.Rat).Sign", func(x *Exec, st *State, c *Call) []Outcome {
		return ratGet(x, st, c.Args[:1], func(st *State, v []Val) []Outcome {
			return x.forkCmp(st, v[0], MkInt(BigInt, 0), func(st *State, s int) []Outcome { return one(st, MkInt(types.Typ[types.Int], int64(s))) })
		})
	})
	lib("(*math/big.Rat).Cmp", func(x *Exec, st *State, c *Call) []Outcome {
		return ratGet(x, st, c.Args[:2], func(st *State, v []Val) []Outcome {
			a, b := RatVal(v[0], v[1]), RatVal(v[2], v[3])
			if (IsZero(v[0]) || IsZero(v[2])) || v[1].K() == v[3].K() {
				// denominators are positive
				a, b = v[0], v[2]
			}
			return x.forkCmp(st, a, b, func(st *State, s int) []Outcome {
				return one(st, MkInt(types.Typ[types.Int], int64(s)))
			})
		})
	})
	for _, o := range [][2]string{{"Add", "add"}, {"Sub", "sub"}, {"Mul", "mul"}, {"Quo", "ratquo"}} {
		o := o
		lib("(*math/big.Rat)."+o[0], func(x *Exec, st *State, c *Call) []Outcome {
			return ratGet(x, st, c.Args[1:3], func(st *State, v []Val) []Outcome {
				do := func(st *State) []Outcome {
					r := foldBig(o[1], RatVal(v[0], v[1]), RatVal(v[2], v[3]), BigRat)
					if r == nil {
						r = App(BigRat, o[1], commut(o[1], RatVal(v[0], v[1]), RatVal(v[2], v[3]))...)
					}
					n, d := NumParts(r)
					x.ratStore(st, c, c.Args[0], n, d)
					return one(st, c.Args[0])
				}
				if o[0] == "Quo" {
					return x.forkCond(st, x.Compare(st, token.EQL, v[2], MkInt(BigInt, 0)), func(st *State, z bool) []Outcome {
						if z {
							return []Outcome{{St: st, Panic: RuntimePanic("division by zero")}}
						}
						return do(st)
					})
				}
				return do(st)
			})
		})
	}
	lib("(*math/big.Rat).Neg", func(x *Exec, st *State, c *Call) []Outcome {
		return ratGet(x, st, c.Args[1:2], func(st *State, v []Val) []Outcome {
			x.ratStore(st, c, c.Args[0], App(BigInt, "neg", Strip(v[0])), v[1])
			return one(st, c.Args[0])
		})
	})
	lib("(*math/big.Rat).Abs", func(x *Exec, st *State, c *Call) []Outcome {
		return ratGet(x, st, c.Args[1:2], func(st *State, v []Val) []Outcome {
			return x.forkCmp(st, v[0], MkInt(BigInt, 0), func(st *State, s int) []Outcome {
				r := v[0]
				if s < 0 {
					r = App(BigInt, "neg", Strip(v[0]))
				}
				x.ratStore(st, c, c.Args[0], r, v[1])
				return one(st, c.Args[0])
			})
		})
	})
	toFloat := func(x *Exec, st *State, c *Call, v Val, bits int) []Outcome {
		t := c.Res.At(0).Type()
		t2 := c.Res.At(1).Type()
		return x.forkCond(st, FitsTerm(v, bits), func(st *State, fits bool) []Outcome {
			if isBool(t2) {
				if fits {
					return one(st, App(t, "cv", Strip(v)), MkBool(true))
				}
				return one(st, App(t, "round"+itoa(bits), Strip(v)), MkBool(false))
			}
			if fits {
				return one(st, App(t, "cv", Strip(v)), MkInt(t2, 0))
			}
			a := App(t2, "acc"+itoa(bits), Strip(v))
			if !st.SetRel(a, MkInt(t2, 0), LT|GT) {
				return nil
			}
			return one(st, App(t, "round"+itoa(bits), Strip(v)), a)
		})
	}
	for _, b := range []int{32, 64} {
		b := b
		lib("(*math/big.Rat).Float"+itoa(b), func(x *Exec, st *State, c *Call) []Outcome {
			return ratGet(x, st, c.Args[:1], func(st *State, v []Val) []Outcome { return toFloat(x, st, c, RatVal(v[0], v[1]), b) })
		})
		lib("(*math/big.Float).Float"+itoa(b), func(x *Exec, st *State, c *Call) []Outcome {
			return x.ld(st, c.Args[:1], []types.Type{BigFloat}, func(st *State, v []Val) []Outcome { return toFloat(x, st, c, v[0], b) })
		})
	}
	lib("(*math/big.Int).Float64", func(x *Exec, st *State, c *Call) []Outcome {
		return x.ld(st, c.Args[:1], []types.Type{BigInt}, func(st *State, v []Val) []Outcome { return toFloat(x, st, c, v[0], 64) })
	})
	// ---- Float
	lib("math/big.NewFloat", func(x *Exec, st *State, c *Call) []Outcome {
		return x.forkNaN(st, c.Args[0], func(st *State, nan bool) []Outcome {
			if nan {
				return []Outcome{{St: st, Panic: RuntimePanic("NaN")}}
			}
			p, a := newFloat(st, c, c.Args[0])
			st.Store(p, asBig(a[0], BigFloat), BigFloat)
			return one(st, p)
		})
	})
	lib("(*math/big.Float).SetFloat64", func(x *Exec, st *State, c *Call) []Outcome {
		return x.forkNaN(st, c.Args[1], func(st *State, nan bool) []Outcome {
			if nan {
				return []Outcome{{St: st, Panic: RuntimePanic("NaN")}}
			}
			x.bigStore(st, c, c.Args[0], asBig(c.Args[1], BigFloat), BigFloat)
			return one(st, c.Args[0])
		})
	})
	bfround := func(v Val) Val { return App(BigFloat, "bf", Strip(v)) }
	for _, n := range []string{"SetInt64", "SetUint64"} {
		lib("(*math/big.Float)."+n, func(x *Exec, st *State, c *Call) []Outcome {
			x.bigStore(st, c, c.Args[0], bfround(c.Args[1]), BigFloat)
			return one(st, c.Args[0])
		})
	}
	lib("(*math/big.Float).SetInt", func(x *Exec, st *State, c *Call) []Outcome {
		return x.ld(st, c.Args[1:2], []types.Type{BigInt}, func(st *State, v []Val) []Outcome {
			x.bigStore(st, c, c.Args[0], bfround(v[0]), BigFloat)
			return one(st, c.Args[0])
		})
	})
	lib("(*math/big.Float).SetRat", func(x *Exec, st *State, c *Call) []Outcome {
		return ratGet(x, st, c.Args[1:2], func(st *State, v []Val) []Outcome {
			x.bigStore(st, c, c.Args[0], bfround(RatVal(v[0], v[1])), BigFloat)
			return one(st, c.Args[0])
		})
	})
	for _, n := range []string{"SetPrec", "SetMode"} {
		lib("(*math/big.Float)."+n, func(x *Exec, st *State, c *Call) []Outcome { return one(st, c.Args[0]) })
	}
	for _, n := range []string{"Prec", "Mode", "Acc", "MinPrec", "Signbit"} {
		n := n
		lib("(*math/big.Float)."+n, func(x *Exec, st *State, c *Call) []Outcome {
			return x.ld(st, c.Args[:1], []types.Type{BigFloat}, func(st *State, v []Val) []Outcome {
				return one(st, App(c.Res.At(0).Type(), "bf."+n, Strip(v[0])))
			})
		})
	}
	lib("(*math/big.Float).IsInf", func(x *Exec, st *State, c *Call) []Outcome {
		return x.ld(st, c.Args[:1], []types.Type{BigFloat}, func(st *State, v []Val) []Outcome {
			return x.forkInf(st, v[0], func(st *State, b bool) []Outcome { return one(st, MkBool(b)) })
		})
	})
	isInt := func(x *Exec, st *State, v Val, f func(st *State, b bool) []Outcome) []Outcome {
		return x.forkInf(st, v, func(st *State, inf bool) []Outcome {
			if inf {
				return f(st, false)
			}
			_, d := NumParts(v)
			return x.forkCond(st, x.Compare(st, token.EQL, d, MkInt(BigInt, 1)), f)
		})
	}
	lib("(*math/big.Float).IsInt", func(x *Exec, st *State, c *Call) []Outcome {
		return x.ld(st, c.Args[:1], []types.Type{BigFloat}, func(st *State, v []Val) []Outcome {
			return isInt(x, st, v[0], func(st *State, b bool) []Outcome { return one(st, MkBool(b)) })
		})
	})
	accTerm := func(st *State, v Val, t types.Type) Val {
		a := App(t, "accI", Strip(v))
		st.SetRel(a, MkInt(t, 0), LT|GT)
		return a
	}
	for _, g := range []struct {
		n string
		t types.Type
	}{{"Int64", types.Typ[types.Int64]}, {"Uint64", types.Typ[types.Uint64]}} {
		g := g
		lib("(*math/big.Float)."+g.n, func(x *Exec, st *State, c *Call) []Outcome {
			at := c.Res.At(1).Type()
			return x.ld(st, c.Args[:1], []types.Type{BigFloat}, func(st *State, v []Val) []Outcome {
				bad := func(st *State) []Outcome {
					return one(st, App(g.t, "trunc", Strip(v[0])), accTerm(st, v[0], at))
				}
				return isInt(x, st, v[0], func(st *State, b bool) []Outcome {
					if !b {
						return bad(st)
					}
					n, _ := NumParts(v[0])
					return x.forkRange(st, n, g.t, func(st *State, in bool) []Outcome {
						if !in {
							return bad(st)
						}
						return one(st, intNarrow(st, n, g.t), MkInt(at, 0))
					})
				})
			})
		})
	}
	lib("(*math/big.Float).Int", func(x *Exec, st *State, c *Call) []Outcome {
		at := c.Res.At(1).Type()
		return x.ld(st, c.Args[:1], []types.Type{BigFloat}, func(st *State, v []Val) []Outcome {
			return isInt(x, st, v[0], func(st *State, b bool) []Outcome {
				fin := func(st *State, r Val, acc Val) []Outcome {
					if IsNil(c.Args[1]) {
						a := st.Pinned([]Val{r, acc}, func() { st.NewCell("big:"+c.Site, Zero(BigInt)) })
						p := ptrTo(CellID{Site: "big:" + c.Site}, BigInt)
						st.Store(p, asBig(a[0], BigInt), BigInt)
						return one(st, p, a[1])
					}
					x.bigStore(st, c, c.Args[1], asBig(r, BigInt), BigInt)
					return one(st, c.Args[1], acc)
				}
				if b {
					n, _ := NumParts(v[0])
					return fin(st, n, MkInt(at, 0))
				}
				return x.forkInf(st, v[0], func(st *State, inf bool) []Outcome {
					if inf {
						return one(st, &Nil{c.Res.At(0).Type()}, accTerm(st, v[0], at))
					}
					return fin(st, App(BigInt, "trunc", Strip(v[0])), accTerm(st, v[0], at))
				})
			})
		})
	})
	lib("(*math/big.Float).Rat", func(x *Exec, st *State, c *Call) []Outcome {
		at := c.Res.At(1).Type()
		return x.ld(st, c.Args[:1], []types.Type{BigFloat}, func(st *State, v []Val) []Outcome {
			return x.forkInf(st, v[0], func(st *State, inf bool) []Outcome {
				if inf {
					return one(st, &Nil{c.Res.At(0).Type()}, accTerm(st, v[0], at))
				}
				n, d := NumParts(v[0])
				if IsNil(c.Args[1]) {
					p, a := newRat(st, c, n, d)
					x.ratStore(st, c, p, a[0], a[1])
					return one(st, p, MkInt(at, 0))
				}
				x.ratStore(st, c, c.Args[1], n, d)
				return one(st, c.Args[1], MkInt(at, 0))
			})
		})
	})
	fstr := func(op string) func(x *Exec, st *State, c *Call) []Outcome {
		return func(x *Exec, st *State, c *Call) []Outcome {
			return x.ld(st, c.Args[:1], []types.Type{BigFloat}, func(st *State, v []Val) []Outcome {
				return one(st, App(types.Typ[types.String], op, append([]Val{Strip(v[0])}, c.Args[1:]...)...))
			})
		}
	}
	lib("(*math/big.Float).String", func(x *Exec, st *State, c *Call) []Outcome {
		return x.ld(st, c.Args[:1], []types.Type{BigFloat}, func(st *State, v []Val) []Outcome {
			// Text('g', 10)
			return one(st, App(types.Typ[types.String], "fmtbf", Strip(v[0]), MkInt(types.Typ[types.Byte], 'g'), MkInt(types.Typ[types.Int], 10)))
		})
	})
	lib("(*math/big.Float).Text", fstr("fmtbf"))
	pf := func(x *Exec, st *State, c *Call, recv, s, base Val) []Outcome {
		et := c.Res.At(c.Res.Len() - 1).Type()
		pt := c.Res.At(0).Type()
		var valid, parsed Val = App(types.Typ[types.Bool], "validbf", s, base), App(BigFloat, "parsef", s, base)
		if t, ok := s.(*Term); ok {
			// text produced by formatting a number always parses
			switch t.Op {
			case "fmtint":
				if t.Args[1].K() == base.K() {
					valid, parsed = MkBool(true), App(BigFloat, "bf", t.Args[0])
				}
			case "fmtratfloat":
				valid = MkBool(true)
				if t.Args[1] != nil {
					parsed = App(BigFloat, "bf", t.Args[0])
				}
			}
		}
		return x.forkCond(st, valid, func(st *State, ok bool) []Outcome {
			var out []Val
			if ok {
				v := parsed
				p := recv
				if p == nil {
					p, _ = newFloat(st, c)
					st.Store(p, v, BigFloat)
				} else {
					x.bigStore(st, c, p, v, BigFloat)
				}
				out = []Val{p}
				if c.Res.Len() == 3 {
					out = append(out, App(types.Typ[types.Int], "parsebase", s, base))
				}
				if isBool(et) {
					out = append(out, MkBool(true))
				} else {
					out = append(out, &Nil{et})
				}
				return one(st, out...)
			}
			if isBool(et) {
				return one(st, &Nil{pt}, MkBool(false))
			}
			if recv != nil {
				x.bigStore(st, c, recv, App(BigFloat, "junk", s, base), BigFloat)
			}
			e := st.NewLeaf(et, "err:"+c.Site, true)
			p := App(pt, "junkptr", s, base)
			return one(st, p, MkInt(types.Typ[types.Int], 0), e)
		})
	}
	lib("math/big.ParseFloat", func(x *Exec, st *State, c *Call) []Outcome { return pf(x, st, c, nil, c.Args[0], c.Args[1]) })
	lib("(*math/big.Float).Parse", func(x *Exec, st *State, c *Call) []Outcome { return pf(x, st, c, c.Args[0], c.Args[1], c.Args[2]) })
	lib("(*math/big.Float).SetString", func(x *Exec, st *State, c *Call) []Outcome {
		return pf(x, st, c, c.Args[0], c.Args[1], MkInt(types.Typ[types.Int], 0))
	})
	// ---- math predicates consistent with the above
	lib("math.IsNaN", func(x *Exec, st *State, c *Call) []Outcome {
		return x.forkNaN(st, c.Args[0], func(st *State, b bool) []Outcome { return one(st, MkBool(b)) })
	})
	lib("math.IsInf", func(x *Exec, st *State, c *Call) []Outcome {
		sg, ok := IntOf(c.Args[1])
		if !ok {
			return nil
		}
		return x.forkInf(st, c.Args[0], func(st *State, b bool) []Outcome {
			if !b || sg.Sign() == 0 {
				return one(st, MkBool(b))
			}
			op := token.GTR
			if sg.Sign() < 0 {
				op = token.LSS
			}
			return x.forkCond(st, x.Compare(st, op, c.Args[0], MkConst(types.Typ[types.Float64], constant.MakeFloat64(0))), func(st *State, b bool) []Outcome {
				return one(st, MkBool(b))
			})
		})
	})
}

// ParseInt is the integer denoted by s in a base.
func ParseInt(s, base Val) Val { return App(BigInt, "parsei", s, base) }

// FmtInt is the text of an integer.
func FmtInt(v Val, base int64) Val {
	return App(types.Typ[types.String], "fmtint", Strip(v), MkInt(types.Typ[types.Int], base))
}

func intNarrow(st *State, v Val, t types.Type) Val {
	lo, hi := st.Interval(v)
	tl, th := TypeRange(t)
	if i, ok := IntOf(v); ok && i.Cmp(tl) >= 0 && i.Cmp(th) <= 0 {
		return MkBig(t, i)
	}
	if lo != nil && lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
		s := Strip(v)
		if vt := valType(s); vt != nil && types.Identical(vt, t) {
			return s
		}
		return App(t, "cv", s)
	}
	return App(t, "wrap", Strip(v))
}

// RatNum, RatDen of a/b in lowest terms.
func RatNum(a, b Val) Val {
	if i, ok := IntOf(b); ok && i.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	n, _ := NumParts(App(BigRat, "frac", Strip(a), Strip(b)))
	if ia, ok := IntOf(a); ok {
		if ib, ok := IntOf(b); ok && ib.Sign() != 0 {
			return MkBig(BigInt, big.NewRat(1, 1).SetFrac(ia, ib).Num())
		}
	}
	return n
}

func RatDen(a, b Val) Val {
	if i, ok := IntOf(b); ok && i.Cmp(big.NewInt(1)) == 0 {
		return MkInt(BigInt, 1)
	}
	if ia, ok := IntOf(a); ok {
		if ib, ok := IntOf(b); ok && ib.Sign() != 0 {
			return MkBig(BigInt, big.NewRat(1, 1).SetFrac(ia, ib).Denom())
		}
	}
	_, d := NumParts(App(BigRat, "frac", Strip(a), Strip(b)))
	return d
}

// BigContent is the number behind a pointer to a big type.
func (x *Exec) BigContent(st *State, p Val, t types.Type) Val {
	get := func(p Val, t types.Type) Val {
		if st.Nilness(p) == 1 {
			return App(t, "unknown", p)
		}
		vs := st.Load(p, t)
		if len(vs) != 1 {
			return App(t, "unknown", p)
		}
		return Strip(normBig(vs[0], t))
	}
	if IsBig(t, "Rat") {
		a, b := x.ratParts(p)
		n, d := get(a, BigInt), get(b, BigInt)
		if tn, ok := n.(*Term); ok && tn.Op == "f0" && IsBig(valType(tn.Args[0]), "Rat") {
			if td, ok := d.(*Term); ok && td.Op == "f1" && td.Args[0].K() == tn.Args[0].K() && tn.Args[0].(*Term).Op == "divided" {
				return tn.Args[0]
			}
		}
		return RatVal(n, den1(d))
	}
	return get(p, t)
}

// PointsTo reports whether address a may lie in the variable the opaque pointer p refers to.
func PointsTo(a, p Val) bool {
	switch y := a.(type) {
	case *Term:
		return y.K() == p.K()
	case *Ptr:
		return y.Cell.Base != nil && y.Cell.Base.K() == p.K()
	}
	return false
}
