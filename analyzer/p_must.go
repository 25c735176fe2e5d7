package main

import (
	"fmt"
	"strings"

	"verif/analyzer/ai"
)

// Laws of the Must functions: they do what the function that returns the error does, and panic with that error.

func init() {
	imp("conv", mod+"conv")
	imp("funcs", mod+"funcs")
	one := func(name, fn, in, out string) {
		addLaw("C05", name, fmt.Sprintf(`(v %[2]s, o1 %[3]s) {
	a, b := o1, o1
	e := conv.%[1]s(v, &a)
	p := zmCatch(func() { conv.Must%[1]s(v, &b) })
	zzAssert("panics exactly for an error", (p != nil) == (e != nil))
	if p != nil { _, ok := p.(error); zzAssert("panics with an error", ok) }
	if p == nil { zzAssert("same result", zmSameNum(a, b)) }
}`, fn, in, out), func(s *lawRun) { s.mayMiss = true })
	}
	decl(`func zmSameNum[T any](a, b T) bool {
	switch x := any(a).(type) {
	case *big.Int: y := any(b).(*big.Int); return x == y || x.Cmp(y) == 0
	case *big.Float: y := any(b).(*big.Float); return x == y || x.Cmp(y) == 0
	case *big.Rat: y := any(b).(*big.Rat); return x == y || x.Cmp(y) == 0
	}
	return any(a) == any(b) 
}`)
	for _, l := range strings.Split(strings.TrimSpace(`
FloatToBigFloat float64 *big.Float
StringToBigFloat string *big.Float
FloatToBigInt float64 *big.Int
BigFloatToBigInt *big.Float *big.Int
BigRatToBigInt *big.Rat *big.Int
StringToBigInt string *big.Int
IntToFloat int64 float32
IntToFloat uint64 float64
FloatToFloat float64 float32
FloatToFloat float32 float64
BigIntToFloat32 *big.Int float32
BigFloatToFloat32 *big.Float float32
BigRatToFloat32 *big.Rat float32
StringToFloat32 string float32
BigIntToFloat64 *big.Int float64
BigFloatToFloat64 *big.Float float64
BigRatToFloat64 *big.Rat float64
StringToFloat64 string float64
IntToInt int64 int8
IntToInt int int64
UintToInt uint64 int
FloatToInt float64 int32
IntToUint int16 uint64
UintToUint uint64 uint16
FloatToUint float32 uint
BigIntToInt64 *big.Int int64
BigFloatToInt64 *big.Float int64
BigRatToInt64 *big.Rat int64
StringToInt64 string int64
BigIntToUint64 *big.Int uint64
BigFloatToUint64 *big.Float uint64
BigRatToUint64 *big.Rat uint64
StringToUint64 string uint64
To int64 uint8
To string int
To float64 *big.Rat
ToBigOps int64 *big.Int
ToBigOps string *big.Rat
FloatToBigRat float64 *big.Rat
BigFloatToBigRat *big.Float *big.Rat
StringToBigRat string *big.Rat
FloatStringToBigRat string *big.Rat`), "\n") {
		f := strings.Fields(l)
		one(strings.NewReplacer("*", "", ".", "").Replace(strings.Join(f, "_")), f[0], f[1], f[2])
	}
	dec := func(name, params, pre, plain, must, same string) {
		addLaw("C05", name, "("+params+`) {
	`+pre+`
	`+plain+`
	p := zmCatch(func() { `+must+` })
	zzAssert("panics exactly for an error", (p != nil) == (e != nil))
	if p != nil { _, ok := p.(error); zzAssert("panics with an error", ok) }
	if p == nil { zzAssert("same result", `+same+`) }
}`, func(s *lawRun) {
			s.mayMiss = true
			ai.Poly = true
			ai.Digits = true
			ai.ClosedRels = false
			s.x.WidenAt = 40
		})
	}
	decl(`func zmSameDec(a, b mmath.Decimal) bool { return zzUnscaled(a) == zzUnscaled(b) && a.Scale() == b.Scale() }`)
	dec("Decimal", "v int64, s uint, n bool", "", "a, e := mmath.OfDecimal(v, s, n)\n\tvar b mmath.Decimal", "b = mmath.MustDecimal(v, s, n)", "zmSameDec(a, b)")
	two := `zzAssume(v <= zmMax && v >= -zmMax && w <= zmMax && w >= -zmMax)
	x, y := mmath.MustDecimal(v, 2, false), mmath.MustDecimal(w, 2, false)`
	for _, op := range []string{"Add", "Sub"} {
		dec(op, "v, w int64", two, "a, e := x."+op+"(y)\n\tvar b mmath.Decimal", "b = x.Must"+op+"(y)", "zmSameDec(a, b)")
	}
	dec("Mul", "v int64", "zzAssume(v <= zmMax && v >= -zmMax)\n\tx, y := mmath.MustDecimal(v, 0, false), mmath.MustDecimal(7, 0, false)", "a, e := x.Mul(y)\n\tvar b mmath.Decimal", "b = x.MustMul(y)", "zmSameDec(a, b)")
	uns := `zzAssume(v <= zmMax && v >= -zmMax)
	x := mmath.MustDecimal(v, 2, false)`
	dec("DivIntQuoRem", "v int64, w uint", uns, "a, c, e := x.DivIntQuoRem(w)\n\tvar b, d mmath.Decimal", "b, d = x.MustDivIntQuoRem(w)", "zmSameDec(a, b) && zmSameDec(c, d)")
	dec("DivIntAdd", "v int64", uns+"\n\tw := uint(zmPick(3))", "a, e := x.DivIntAdd(w)\n\tvar b []mmath.Decimal", "b = x.MustDivIntAdd(w)", "len(a) == len(b) && (len(a) == 0 || zmSameDec(a[len(a)-1], b[len(b)-1]))")
	dec("Div", "v int64", uns, "a, e := x.Div(mmath.MustDecimal(4, 0))\n\tvar b mmath.Decimal", "b = x.MustDiv(mmath.MustDecimal(4, 0))", "zmSameDec(a, b)")
	dec("DivZero", "v int64", uns, "_, e := x.Div(mmath.MustDecimal(0, 0))", "x.MustDiv(mmath.MustDecimal(0, 0))", "false")
	for i, t := range []string{"1.2", "-3", "x", ""} {
		dec(fmt.Sprint("StringToDecimal", i), "", "", fmt.Sprintf("a, e := mmath.StringToDecimal(%q)\n\tvar b mmath.Decimal", t), fmt.Sprintf("b = mmath.MustStringToDecimal(%q)", t), "zmSameDec(a, b)")
	}
	lawCheck("C05", "Must functions panic exactly with the error, and give the same result", "", 1, nil)
}
