package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

var sintNames = []string{"int", "int8", "int16", "int32", "int64"}
var uintNames = []string{"uint", "uint8", "uint16", "uint32", "uint64"}
var intNames = append(append([]string{}, sintNames...), uintNames...)
var floatNames = []string{"float32", "float64"}
var bigNames = []string{"*big.Int", "*big.Float", "*big.Rat"}
var convNames = append(append(append(append([]string{}, intNames...), floatNames...), bigNames...), "string")

func basic(n string) types.Type {
	switch n {
	case "*big.Int":
		return types.NewPointer(ai.BigInt)
	case "*big.Float":
		return types.NewPointer(ai.BigFloat)
	case "*big.Rat":
		return types.NewPointer(ai.BigRat)
	}
	return types.Universe.Lookup(n).Type()
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func typedName(t, s string) string { return "N" + strings.Title(s) + t }

func init() {
	imp("conv", mod+"conv")
	imp("big", "math/big")
	for _, s := range sintNames {
		for _, t := range sintNames {
			use("conv.IntToInt[%s,%s]", s, t)
		}
		for _, t := range uintNames {
			use("conv.IntToUint[%s,%s]", s, t)
			use("conv.UintToInt[%s,%s]", t, s)
		}
	}
	for _, s := range uintNames {
		for _, t := range uintNames {
			use("conv.UintToUint[%s,%s]", s, t)
		}
	}
	for _, f := range floatNames {
		for _, s := range sintNames {
			use("conv.FloatToInt[%s,%s]", f, s)
			use("conv.IntToFloat[%s,%s]", s, f)
		}
		for _, s := range uintNames {
			use("conv.FloatToUint[%s,%s]", f, s)
			use("conv.IntToFloat[%s,%s]", s, f)
		}
		for _, g := range floatNames {
			use("conv.FloatToFloat[%s,%s]", f, g)
		}
		use("conv.FloatToBigInt[%s]", f)
		use("conv.FloatToBigFloat[%s]", f)
		use("conv.FloatToBigRat[%s]", f)
		use("conv.FloatToString[%s]", f)
	}
	for _, n := range []string{"Int", "BigInt", "BigFloat", "BigRat", "String"} {
		for _, s := range sintNames {
			if n != "Int" && n != "String" {
				use("conv.IntTo%s[%s]", n, s)
			}
			if n == "String" {
				use("conv.IntToString[%s]", s)
			}
		}
		for _, s := range uintNames {
			if n != "Int" {
				use("conv.UintTo%s[%s]", n, s)
			}
		}
	}
	for _, s := range intNames {
		use("conv.IntegerToBigInt[%s]", s)
		decl("type NM" + s + " " + s)
	}
	decl("type NMfloat32 float32\ntype NMfloat64 float64")
	for _, s := range convNames {
		for _, t := range convNames {
			use("conv.To[%s,%s]", s, t)
			if strings.HasPrefix(t, "*") {
				use("conv.ToBigOps[%s,%s]", s, t)
			}
			if !strings.HasPrefix(s, "*") && s != "string" && !strings.HasPrefix(t, "*") && t != "string" {
				use("conv.To[NM%s,%s]", s, t)
				use("conv.To[%s,NM%s]", s, t)
			}
		}
		use("conv.AnyTo[%s]", s)
	}
	register(&Check{ID: "C01", Title: "integer conversions are exact or report an error", Min: 400,
		Rule: "interval analysis of every path of every integer-to-integer conversion: a success path's inputs lie within the target range and the stored value is the input under value-preserving conversions only; an error path's inputs lie outside it and the target is not written; no path panics",
		Run: func(c *Ctx) {
			runConvDirect(c, func(s, t string) bool { return in(intNames, s) && in(intNames, t) })
			runConvEntry(c, "To", func(s, t string) bool { return in(intNames, s) && in(intNames, t) }, true)
		}})
	register(&Check{ID: "C02", Title: "conversions to exact types are exact or report an error", Min: 140,
		Rule: "value-provenance analysis of every path of every conversion from float, big and text types to integer, *big.Int and *big.Rat types, directly and through the generic entry: a success path stores exactly the source's value with the facts that make that exact (finite, denominator one, within range, parsed), an error path carries a fact that makes it impossible",
		Run: func(c *Ctx) {
			f := func(s, t string) bool {
				return !in(intNames, s) && s != t && (in(intNames, t) || t == "*big.Int" || t == "*big.Rat") || (in(intNames, s) && (t == "*big.Int" || t == "*big.Rat"))
			}
			runConvDirect(c, f)
			runConvEntry(c, "To", f, false)
		}})
	register(&Check{ID: "C03", Title: "every supported pair of types converts", Min: 500,
		Rule: "for every ordered pair of supported types, every path of each generic entry point is evaluated: no path panics (missing table entry, wrong type assertion), no error of the specific conversion is lost, and what is stored on success is computed from the whole source without narrowing",
		Run: func(c *Ctx) {
			all := func(s, t string) bool { return true }
			runConvEntry(c, "To", all, true)
			runConvEntry(c, "ToBigOps", func(s, t string) bool { return strings.HasPrefix(t, "*") }, false)
			runConvEntry(c, "AnyTo", all, false)
			runConvEntry(c, "ReflectTo", func(s, t string) bool { return s != t }, false)
		}})
	register(&Check{ID: "C04", Title: "conversions do not modify or share their source", Min: 300,
		Rule: "ownership analysis of every path of every conversion from a big type: the words of the source are not written, the result pointer does not point into the source and the result is not a plain struct copy of it (which would share its words); evaluated for a nil target, a target holding another big value and a target holding the source itself",
		Run:  runConvAlias})
}

// runConvAlias checks that big sources are neither modified nor shared with the result.
func runConvAlias(c *Ctx) {
	rvt := c.P.SSA.ImportedPackage("reflect").Pkg.Scope().Lookup("Value").Type()
	for _, s := range bigNames {
		for _, t := range convNames {
			for _, entry := range []string{"direct", "To", "ToBigOps", "AnyTo", "ReflectTo"} {
				for _, init := range []string{"nil", "other", "same"} {
					tbig := strings.HasPrefix(t, "*")
					if (init != "nil" && !tbig) || (init == "same" && s != t) || (entry == "ToBigOps" && !tbig) || (entry == "ReflectTo" && s == t) {
						continue
					}
					key := fmt.Sprintf("%s[%s,%s] target %s", entry, s, t, init)
					k := newConvCase(c, key, s, t, basic(s), basic(t))
					k.target(init)
					var fn *ssa.Function
					args := []ai.Val{k.src, k.out}
					switch entry {
					case "direct":
						fn, _, _ = convDirect(c, s, t)
						if fn == nil {
							continue
						}
						if t == "string" {
							args = args[:1]
						}
					case "To", "ToBigOps":
						fn = c.Inst("conv", entry, basic(s), basic(t))
					case "AnyTo":
						fn = c.Inst("conv", entry, basic(t))
						args = []ai.Val{&ai.Iface{Dyn: basic(s), V: k.src}, k.out}
					case "ReflectTo":
						fn = c.Func("conv", entry)
						args = []ai.Val{ai.MkRV(rvt, basic(s), k.src), ai.MkRV(rvt, types.NewPointer(basic(t)), k.out)}
					}
					if !c.Need(fn, key) {
						continue
					}
					before := k.st.Content(k.srcCel).K()
					x := c.Exec()
					ex, err := x.Run(k.st, fn, nil, args)
					c.Done(x)
					if err != nil {
						c.Obl(key, false, fn.Pos(), "%v", err)
						continue
					}
					for _, e := range ex {
						if e.Panic != nil {
							continue
						}
						if a := e.St.Content(k.srcCel); a == nil || a.K() != before {
							c.FailPath(key+":source-unchanged", fn.Pos(), e.St.TraceString(), "the source big value is modified")
						}
						failed := len(e.Vals) > 0 && e.St.Nilness(e.Vals[len(e.Vals)-1]) == 2
						if !tbig || failed {
							continue
						}
						for _, v := range e.St.Load(k.out, k.tgt) {
							p, ok := v.(*ai.Ptr)
							if !ok {
								continue
							}
							if p.Cell.K() == k.srcCel.K() {
								c.FailPath(key+":no-sharing", fn.Pos(), e.St.TraceString(), "the result points into the source value")
							}
							for _, w := range e.St.Load(p, p.T) {
								if ai.SharesStorage(w) {
									c.FailPath(key+":no-sharing", fn.Pos(), e.St.TraceString(), "the result is a plain struct copy that shares the words of the source value")
								}
							}
						}
					}
					c.OK(key + ":source-unchanged")
					if tbig {
						c.OK(key + ":no-sharing")
					}
				}
			}
		}
	}
}

// convCase is one abstract conversion call.
type convCase struct {
	c      *Ctx
	key    string
	s, t   string // base type names
	st     *ai.State
	src    ai.Val // source argument (a pointer for big types)
	num    ai.Val // numeric or text value of the source
	out    ai.Val // pointer to the output
	old    ai.Val // initial output content
	srcCel ai.CellID
	tgt    types.Type
}

var srcSeq int

func newConvCase(c *Ctx, key, s, t string, st types.Type, tt types.Type) *convCase {
	k := &convCase{c: c, key: key, s: s, t: t, st: c.State(), tgt: tt}
	switch s {
	case "*big.Int":
		l := ai.Leaf(ai.BigInt, "src")
		k.srcCel = k.st.NewCell("srcbig", l)
		k.src, k.num = &ai.Ptr{Cell: k.srcCel, T: ai.BigInt}, l
	case "*big.Float":
		l := ai.Leaf(ai.BigFloat, "src")
		k.srcCel = k.st.NewCell("srcbig", l)
		k.src, k.num = &ai.Ptr{Cell: k.srcCel, T: ai.BigFloat}, l
	case "*big.Rat":
		l := ai.Leaf(ai.BigRat, "src")
		n, d := ai.NumParts(l)
		k.srcCel = k.st.NewCell("srcbig", &ai.Struct{T: ai.BigRat, F: []ai.Val{n, d}})
		k.src, k.num = &ai.Ptr{Cell: k.srcCel, T: ai.BigRat}, l
	default:
		k.src = ai.Leaf(st, "src")
		k.num = k.src
	}
	k.old = ai.Zero(tt)
	if !strings.HasPrefix(t, "*") {
		k.old = ai.Leaf(tt, "old")
	} else {
		// the output pointer may be nil or point to an existing big value
		k.old = &ai.Nil{T: tt}
	}
	cell := k.st.NewCell("outcell", k.old)
	k.out = &ai.Ptr{Cell: cell, T: tt}
	return k
}

func constInt(n int64) ai.Val { return ai.MkInt(ai.BigInt, n) }

// stored gives the numeric/text value held by the output.
func (k *convCase) stored(st *ai.State) (ai.Val, bool) {
	vs := st.Load(k.out, k.tgt)
	if len(vs) != 1 {
		return nil, false
	}
	v := vs[0]
	if !strings.HasPrefix(k.t, "*") {
		return ai.Strip(v), true
	}
	p, ok := v.(*ai.Ptr)
	if !ok {
		return v, true
	}
	et := basic(k.t).(*types.Pointer).Elem()
	w := st.Load(p, et)
	if len(w) != 1 {
		return nil, false
	}
	if k.t == "*big.Rat" {
		if s, ok := w[0].(*ai.Struct); ok {
			n, d := ai.Strip(s.F[0]), ai.Strip(s.F[1])
			if i, ok := ai.IntOf(d); ok && i.Sign() == 0 {
				d = constInt(1)
			}
			return ai.RatVal(n, d), true
		}
	}
	if z, ok := w[0].(*ai.Struct); ok && ai.IsZero(z) {
		return constInt(0), true
	}
	return ai.Strip(w[0]), true
}

// lossy operators in a term
func lossy(v ai.Val) string {
	bad := ""
	ai.Walk(v, func(x ai.Val) bool {
		if t, ok := x.(*ai.Term); ok {
			switch t.Op {
			case "wrap", "trunc", "round", "round32", "round64", "junk", "opaquebig", "unknown", "num", "den":
				bad = t.Op
			}
		}
		return bad == ""
	})
	return bad
}

func mentions(v, w ai.Val) bool {
	f := false
	ai.Walk(v, func(x ai.Val) bool {
		if x.K() == w.K() {
			f = true
		}
		return !f
	})
	return f
}

// impossible reports why the source of an error path cannot be represented by the target ("" = it could be).
func (k *convCase) impossible(st *ai.State) string {
	v := k.num
	if k.s == "string" {
		b10 := ai.MkInt(types.Typ[types.Int], 10)
		bt := types.Typ[types.Bool]
		for _, p := range []struct {
			op   string
			args []ai.Val
		}{{"validint", []ai.Val{v, b10}}, {"validuint", []ai.Val{v, b10}}, {"validbf", []ai.Val{v, b10}}, {"validrat", []ai.Val{v}}} {
			if t, ok := ai.App(bt, p.op, p.args...).(*ai.Term); ok && st.FactOf(t).BoolS == 1 {
				return "unparsable"
			}
		}
		switch {
		case in(intNames, k.t) || k.t == "*big.Int":
			v = ai.ParseInt(v, b10)
		default:
			v = ai.App(ai.BigFloat, "parsef", v, b10)
		}
	}
	if t, ok := ai.IsInfTerm(v).(*ai.Term); ok && st.FactOf(t).BoolS == 2 && !in(floatNames, k.t) {
		return "infinite"
	}
	if st.Rel(v, v) == ai.UN {
		return "NaN"
	}
	n, d := ai.NumParts(v)
	if in(intNames, k.t) || k.t == "*big.Int" {
		if st.Rel(d, constInt(1))&ai.EQ == 0 {
			return "fraction"
		}
		if lo, hi := ai.TypeRange(basic(k.t)); lo != nil {
			if st.Rel(n, ai.MkBig(ai.BigInt, hi)) == ai.GT || st.Rel(n, ai.MkBig(ai.BigInt, lo)) == ai.LT {
				return "out of range"
			}
		}
	}
	if in(floatNames, k.t) {
		b := 64
		if k.t == "float32" {
			b = 32
		}
		for _, w := range []ai.Val{v, ai.App(ai.BigFloat, "bf", v)} {
			for _, b := range []int{32, b} {
				if t, ok := ai.FitsTerm(w, b).(*ai.Term); ok && st.FactOf(t).BoolS == 1 && (b == 64 || k.t == "float32") {
					return "not exact"
				}
			}
			if k.t == "float32" {
				if t, ok := ai.FitsTerm(w, 64).(*ai.Term); ok && st.FactOf(t).BoolS == 1 {
					return "not exact"
				}
			}
		}
		if in(intNames, k.s) && k.roundTrip(st)&ai.EQ == 0 {
			return "round trip differs"
		}
		if in(floatNames, k.s) && k.s == "float64" && k.t == "float32" {
			if k.f32range(st) == -1 {
				return "outside float32"
			}
		}
	}
	return ""
}

// roundTrip is the relation of the source to source -> float -> source.
func (k *convCase) roundTrip(st *ai.State) uint8 {
	r := ai.LT | ai.EQ | ai.GT | ai.UN
	st.RelsOf(k.num, func(o ai.Val, m uint8) {
		if t, ok := o.(*ai.Term); ok && t.Op == "trunc" {
			if u, ok := ai.Strip(t.Args[0]).(*ai.Term); ok && u.Op == "round" && ai.Strip(u.Args[0]).K() == ai.Strip(k.num).K() && types.Identical(u.T.Underlying(), k.tgt.Underlying()) {
				r = m
			}
		}
	})
	return r
}

func f64c(f float64) ai.Val { return ai.MkConst(types.Typ[types.Float64], constant.MakeFloat64(f)) }

// f32range: 1 the source is within float32's range on this path, -1 outside, 0 unknown.
func (k *convCase) f32range(st *ai.State) int {
	v := ai.Strip(k.num)
	ab := ai.App(types.Typ[types.Float64], "absv", v)
	max, min, z := f64c(math.MaxFloat32), f64c(math.SmallestNonzeroFloat32), f64c(0)
	nmax, nmin := f64c(-math.MaxFloat32), f64c(-math.SmallestNonzeroFloat32)
	le := ai.LT | ai.EQ
	ge := ai.GT | ai.EQ
	no := func(r, m uint8) bool { return r&^(m|ai.UN) == 0 }
	if no(st.Rel(ab, max), ai.GT) || no(st.Rel(v, max), ai.GT) || no(st.Rel(v, nmax), ai.LT) {
		return -1
	}
	nz := st.Rel(v, z)&ai.EQ == 0 || st.Rel(ab, z)&ai.EQ == 0
	if nz && (no(st.Rel(ab, min), ai.LT) || (no(st.Rel(v, min), ai.LT) && no(st.Rel(v, nmin), ai.GT))) {
		return -1
	}
	upper := no(st.Rel(ab, max), le) || (no(st.Rel(v, max), le) && no(st.Rel(v, nmax), ge))
	zero := no(st.Rel(v, z), ai.EQ) || no(st.Rel(ab, z), ai.EQ)
	lower := no(st.Rel(ab, min), ge) || no(st.Rel(v, min), ge) || no(st.Rel(v, nmin), le)
	if zero || (upper && lower) {
		return 1
	}
	return 0
}

// check the outcome of one path.
func (k *convCase) check(e ai.Exit, wantUnchanged bool) (bool, string) {
	if e.Panic != nil {
		return false, "panics: " + e.Panic.K()
	}
	st := e.St
	// source unchanged
	isErr := false
	if len(e.Vals) > 0 {
		switch st.Nilness(e.Vals[len(e.Vals)-1]) {
		case 2:
			isErr = true
		case 0:
			return false, "returns an error of unknown nilness"
		}
	}
	if isErr {
		if why := k.impossible(st); why == "" {
			return false, "reports an error although the value may be representable"
		}
		if wantUnchanged {
			v, ok := k.stored(st)
			if !ok || v.K() != ai.Strip(k.old).K() {
				return false, "target is modified although an error is reported"
			}
		}
		return true, ""
	}
	v, ok := k.stored(st)
	if !ok {
		return false, "stored value cannot be determined"
	}
	src := k.num
	b10 := ai.MkInt(types.Typ[types.Int], 10)
	if k.s == "string" {
		switch {
		case k.t == "string":
		case in(intNames, k.t) || k.t == "*big.Int":
			src = ai.ParseInt(src, b10)
		case k.t == "*big.Rat":
			src = ai.App(ai.BigRat, "parser", src)
		default:
			src = ai.App(ai.BigFloat, "parsef", src, b10)
		}
	}
	switch {
	case k.t == "*big.Int" || in(intNames, k.t):
		n, d := ai.NumParts(src)
		if st.Rel(d, constInt(1)) != ai.EQ {
			return false, "succeeds although the value may have a fraction"
		}
		if t, ok := ai.IsInfTerm(src).(*ai.Term); ok && !in(intNames, k.s) && k.s != "*big.Int" && k.s != "*big.Rat" && k.s != "string" && st.FactOf(t).BoolS != 1 {
			return false, "succeeds although the value may be infinite"
		}
		if st.Equal(v, n) != 1 {
			return false, "stores " + v.K() + " instead of the source value"
		}
		if lo, hi := ai.TypeRange(basic(k.t)); k.t != "*big.Int" {
			l, h := st.Interval(ai.Strip(n))
			if l == nil || l.Cmp(lo) < 0 || h.Cmp(hi) > 0 {
				return false, fmt.Sprintf("succeeds for values in [%v,%v], outside the target range", l, h)
			}
		}
	case k.t == "*big.Rat":
		if in(floatNames, k.s) || k.s == "*big.Float" {
			if t, ok := ai.IsInfTerm(src).(*ai.Term); ok && st.FactOf(t).BoolS != 1 {
				return false, "succeeds although the value may be infinite"
			}
		}
		if k.s == "string" && strings.HasPrefix(v.K(), "parser") {
			return v.K() == src.K(), "stores " + v.K()
		}
		if v.K() != ai.Strip(src).K() {
			return false, "stores " + v.K() + " instead of the source value"
		}
	case k.t == "*big.Float":
		if l := lossy(v); l != "" {
			return false, "source is narrowed (" + l + ") in " + v.K()
		}
		if !mentions(v, k.num) {
			return false, "stored value " + v.K() + " is not computed from the source"
		}
	case in(floatNames, k.t):
		b := 64
		if k.t == "float32" {
			b = 32
		}
		switch {
		case in(floatNames, k.s):
			if !mentions(v, k.num) {
				return false, "stored value " + v.K() + " is not computed from the source"
			}
			if b == 32 && k.s == "float64" {
				inf := false
				if t, ok := ai.IsInfTerm(k.num).(*ai.Term); ok && st.FactOf(t).BoolS == 2 {
					inf = true
				}
				if !inf && st.Rel(k.num, k.num) != ai.UN && k.f32range(st) != 1 {
					return false, "succeeds for values that may be outside the float32 range"
				}
			}
			if b == 64 || k.s == "float32" {
				if l := lossy(v); l != "" {
					return false, "source is narrowed: " + v.K()
				}
			}
		case in(intNames, k.s):
			if v.K() == ai.Strip(k.num).K() {
				break
			}
			if t, ok := v.(*ai.Term); !ok || t.Op != "round" || ai.Strip(t.Args[0]).K() != ai.Strip(k.num).K() {
				return false, "stores " + v.K()
			}
			if k.roundTrip(st) != ai.EQ {
				return false, "succeeds without establishing that converting back gives the source value"
			}
		default:
			if k.s == "string" && (strings.HasPrefix(v.K(), "NaN") || strings.HasPrefix(v.K(), "round32(NaN")) {
				break
			}
			if k.s == "string" {
				// value of the text
				if l := lossy(v); l != "" || !mentions(v, k.num) {
					return false, "inexact: " + v.K()
				}
				break
			}
			if l := lossy(v); l != "" || !mentions(v, k.num) {
				return false, "inexact or unrelated value stored: " + v.K()
			}
		}
	case k.t == "string":
		if l := lossy(v); l != "" {
			return false, "source is narrowed: " + v.K()
		}
		if !mentions(v, k.num) {
			return false, "stored text " + v.K() + " is not computed from the source"
		}
		if in(intNames, k.s) || k.s == "*big.Int" {
			if v.K() != ai.FmtInt(k.num, 10).K() {
				return false, "stores " + v.K() + " instead of the decimal digits"
			}
		}
	}
	return true, ""
}

func (k *convCase) run(fn *ssa.Function, args []ai.Val, wantUnchanged bool) {
	c := k.c
	x := c.Exec()
	ex, err := x.Run(k.st, fn, nil, args)
	c.Done(x)
	if err != nil {
		c.Obl(k.key, false, fn.Pos(), "%v", err)
		return
	}
	if len(ex) == 0 {
		c.Obl(k.key, false, fn.Pos(), "no path")
		return
	}
	for _, e := range ex {
		if ok, why := k.check(e, wantUnchanged); !ok {
			c.FailPath(k.key, fn.Pos(), e.St.TraceString(), "%s", why)
		}
	}
	c.OK(k.key)
}

func convClass(n string) string {
	switch {
	case in(sintNames, n):
		return "Int"
	case in(uintNames, n):
		return "Uint"
	case in(floatNames, n):
		return "Float"
	case n == "string":
		return "String"
	}
	return "Big" + strings.TrimPrefix(n, "*big.")
}

// runConvDirect checks the specific conversion functions.
func runConvDirect(c *Ctx, want func(s, t string) bool) {
	for _, s := range convNames {
		for _, t := range convNames {
			if !want(s, t) || (s == t && !in(intNames, s)) {
				continue
			}
			fn, key, ret := convDirect(c, s, t)
			if key == "" {
				continue
			}
			if !c.Need(fn, key) {
				continue
			}
			k := newConvCase(c, key, s, t, basic(s), basic(t))
			args := []ai.Val{k.src}
			if ret {
				continue // text formatting is checked through the generic entry
			}
			args = append(args, k.out)
			k.run(fn, args, in(intNames, s) && in(intNames, t))
		}
	}
}

// runConvEntry checks a generic entry point.
func runConvEntry(c *Ctx, entry string, want func(s, t string) bool, named bool) {
	for _, s := range convNames {
		for _, t := range convNames {
			if !want(s, t) {
				continue
			}
			key := entry + "[" + s + "," + t + "]"
			k := newConvCase(c, key, s, t, basic(s), basic(t))
			switch entry {
			case "To", "ToBigOps":
				fn := c.Inst("conv", entry, basic(s), basic(t))
				if c.Need(fn, key) {
					k.run(fn, []ai.Val{k.src, k.out}, in(intNames, s) && in(intNames, t))
					if strings.HasPrefix(t, "*") {
						k := newConvCase(c, key+" existing target", s, t, basic(s), basic(t))
						k.target("other")
						k.run(fn, []ai.Val{k.src, k.out}, false)
					}
				}
				if named && entry == "To" && !strings.HasPrefix(s, "*") && s != "string" && !strings.HasPrefix(t, "*") && t != "string" {
					ns := c.DriverType("NM" + s)
					fn := c.Inst("conv", "To", ns, basic(t))
					key := entry + "[named " + s + "," + t + "]"
					if c.Need(fn, key) {
						k := newConvCase(c, key, s, t, ns, basic(t))
						k.run(fn, []ai.Val{k.src, k.out}, in(intNames, s) && in(intNames, t))
					}
					nt := c.DriverType("NM" + t)
					fn = c.Inst("conv", "To", basic(s), nt)
					key = entry + "[" + s + ",named " + t + "]"
					if c.Need(fn, key) {
						k := newConvCase(c, key, s, t, basic(s), nt)
						k.run(fn, []ai.Val{k.src, k.out}, in(intNames, s) && in(intNames, t))
					}
				}
			case "AnyTo":
				fn := c.Inst("conv", entry, basic(t))
				if c.Need(fn, key) {
					k.run(fn, []ai.Val{&ai.Iface{Dyn: basic(s), V: k.src}, k.out}, false)
				}
			case "ReflectTo":
				fn := c.Func("conv", entry)
				if c.Need(fn, key) {
					rvt := c.P.SSA.ImportedPackage("reflect").Pkg.Scope().Lookup("Value").Type()
					k.run(fn, []ai.Val{ai.MkRV(rvt, basic(s), k.src), ai.MkRV(rvt, types.NewPointer(basic(t)), k.out)}, false)
				}
			}
		}
	}
}

var _ = token.NoPos
var _ = big.NewInt

// target sets what the output pointer initially holds.
func (k *convCase) target(init string) {
	if !strings.HasPrefix(k.t, "*") {
		return
	}
	et := basic(k.t).(*types.Pointer).Elem()
	switch init {
	case "other":
		var v ai.Val = ai.Leaf(et, "other")
		if k.t == "*big.Rat" {
			n, d := ai.NumParts(v)
			v = &ai.Struct{T: et, F: []ai.Val{n, d}}
		}
		oc := k.st.NewCell("otherbig", v)
		k.old = &ai.Ptr{Cell: oc, T: et}
		k.st.Store(k.out, k.old, basic(k.t))
	case "same":
		k.old = k.src
		k.st.Store(k.out, k.src, basic(k.t))
	}
}

// convDirect finds the specific conversion function of a pair.
func convDirect(c *Ctx, s, t string) (*ssa.Function, string, bool) {
	cs, ct := convClass(s), convClass(t)
	var fn *ssa.Function
	key := ""
	ret := false
	sp, tp := in(intNames, s) || in(floatNames, s), in(intNames, t) || in(floatNames, t)
	switch {
	case sp && tp:
		name := cs + "To" + ct
		if ct == "Float" && cs != "Float" {
			name = "IntToFloat"
		}
		fn = c.Inst("conv", name, basic(s), basic(t))
		key = name + "[" + s + "," + t + "]"
	case sp:
		fn = c.Inst("conv", cs+"To"+ct, basic(s))
		key = cs + "To" + ct + "[" + s + "]"
		ret = t == "string"
	case tp:
		nm := strings.Title(t)
		if t != "int64" && t != "uint64" && !in(floatNames, t) {
			return nil, "", false
		}
		fn = c.Func("conv", cs+"To"+nm)
		key = cs + "To" + nm
	default:
		fn = c.Func("conv", cs+"To"+ct)
		key = cs + "To" + ct
		ret = t == "string"
	}
	return fn, key, ret
}
