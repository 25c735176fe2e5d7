package main

import (
	"strings"

	"verif/analyzer/ai"
)

var zmRange = map[string][2]string{
	"int8": {"-128", "127"}, "int16": {"-32768", "32767"}, "int32": {"-2147483648", "2147483647"},
	"int64": {"-9223372036854775808", "9223372036854775807"}, "int": {"-9223372036854775808", "9223372036854775807"},
	"uint8": {"0", "255"}, "uint16": {"0", "65535"}, "uint32": {"0", "4294967295"},
	"uint64": {"0", "18446744073709551615"}, "uint": {"0", "18446744073709551615"},
	"zmMyInt": {"-9223372036854775808", "9223372036854775807"}, "zmMyInt8": {"-128", "127"},
	"zmMyUint16": {"0", "65535"}, "zmMyUint": {"0", "18446744073709551615"},
}

var zmSigned = []string{"int", "int8", "int16", "int32", "int64", "zmMyInt", "zmMyInt8"}
var zmUnsigned = []string{"uint", "uint8", "uint16", "uint32", "uint64", "zmMyUint", "zmMyUint16"}

func init() {
	imp("mmath", mod+"math")
	decl(`type zmMyInt int
type zmMyInt8 int8
type zmMyUint uint
type zmMyUint16 uint16
type zmMyFloat float64`)
	poly := func(s *lawRun) { s.mayMiss = true; ai.Poly = true }
	law := func(prop, name, t, src string, opt func(*lawRun)) {
		r := zmRange[t]
		addLaw(prop, name+nmOf(t), strings.NewReplacer("TYPE", t, "MIN", r[0], "MAX", r[1]).Replace(src), opt)
	}
	for _, t := range zmSigned {
		law("M01", "AddInt", t, `(a, b TYPE) {
	r := b
	err := mmath.AddInt(a, &r)
	switch {
	case b > 0 && a > MAX-b: zzAssert("overflow", err == mmath.OverflowErr)
	case b < 0 && a < MIN-b: zzAssert("underflow", err == mmath.UnderflowErr)
	default:
		zzAssert("no error", err == nil)
		zzAssert("sum", r == a+b)
	}
}`, poly)
		law("M01", "SubInt", t, `(a, b TYPE) {
	r := b
	err := mmath.SubInt(a, &r)
	switch {
	case b < 0 && a > MAX+b: zzAssert("overflow", err == mmath.OverflowErr)
	case b > 0 && a < MIN+b: zzAssert("underflow", err == mmath.UnderflowErr)
	default:
		zzAssert("no error", err == nil)
		zzAssert("difference", r == a-b)
	}
}`, poly)
		law("M01", "Abs", t, `(a TYPE) {
	r := a
	err := mmath.Abs(&r)
	switch {
	case a == MIN: zzAssert("error", err != nil)
	case a < 0:
		zzAssert("no error", err == nil)
		zzAssert("negated", r == -a)
	default:
		zzAssert("no error", err == nil)
		zzAssert("same", r == a)
	}
}`, poly)
	}
	for _, t := range zmUnsigned {
		law("M01", "AddUint", t, `(a, b TYPE) {
	r := b
	err := mmath.AddUint(a, &r)
	if a > MAX-b {
		zzAssert("overflow", err == mmath.OverflowErr)
	} else {
		zzAssert("no error", err == nil)
		zzAssert("sum", r == a+b)
	}
}`, poly)
		law("M01", "SubUint", t, `(a, b TYPE) {
	r := b
	err := mmath.SubUint(a, &r)
	if b > a {
		zzAssert("underflow", err == mmath.UnderflowErr)
	} else {
		zzAssert("no error", err == nil)
		zzAssert("difference", r == a-b)
	}
}`, poly)
		law("M01", "Abs", t, `(a TYPE) {
	r := a
	zzAssert("no error", mmath.Abs(&r) == nil)
	zzAssert("same", r == a)
}`, poly)
	}
	for _, t := range append(append([]string(nil), zmSigned...), zmUnsigned...) {
		law("M01", "Mul", t, `(a, b TYPE) {
	r := b
	err := mmath.Mul(a, &r)
	x, y, p, lo, hi := zmBigTYPE(a), zmBigTYPE(b), big.NewInt(0), zmBigTYPE(MIN), zmBigTYPE(MAX)
	p.Mul(x, y)
	switch {
	case p.Cmp(hi) > 0: zzAssert("overflow", err == mmath.OverflowErr)
	case p.Cmp(lo) < 0: zzAssert("underflow", err == mmath.UnderflowErr)
	default:
		zzAssert("no error", err == nil)
		zzAssert("product", zmBigTYPE(r).Cmp(p) == 0)
	}
}`, poly)
		c := "int64"
		f := "NewInt(int64(v))"
		if strings.Contains(strings.ToLower(t), "uint") {
			c, f = "uint64", "NewInt(0).SetUint64(uint64(v))"
		}
		_ = c
		decl("func zmBig" + t + "(v " + t + ") *big.Int { return big." + f + " }")
	}
	for _, t := range []string{"float32", "float64", "zmMyFloat"} {
		addLaw("M01", "Abs"+nmOf(t), strings.ReplaceAll(`(a TYPE) {
	r := a
	zzAssert("no error", mmath.Abs(&r) == nil)
	switch {
	case a < 0: zzAssert("negated", r == -a)
	case a > 0: zzAssert("same", r == a)
	case a == 0: zzAssert("zero", r == 0)
	default: zzAssert("not a number", r != r)
	}
}`, "TYPE", t), poly)
	}
	for _, t := range []string{"Int", "Float", "Rat"} {
		addLaw("M01", "AbsBig"+t, strings.ReplaceAll(`(a *big.TYPE) {
	o, n, z := new(big.TYPE).Set(a), new(big.TYPE), new(big.TYPE)
	n.Neg(a)
	r := a
	zzAssert("no error", mmath.Abs(&r) == nil)
	if o.Cmp(z) < 0 {
		zzAssert("negated", r.Cmp(n) == 0)
	} else {
		zzAssert("same", r.Cmp(o) == 0)
	}
}`, "TYPE", t), poly)
	}
	for _, t := range zmSigned {
		law("M02", "Div", t, `(a, b, q0 TYPE) {
	neg := (a < 0) != (b < 0)
	q := q0
	err := mmath.Div(a, b, &q)
	if b == 0 {
		zzAssert("division by zero", err == mmath.DivByZeroErr)
		return
	}
	if a == MIN && b == -1 {
		zzAssert("overflow", err == mmath.OverflowErr)
		return
	}
	zzAssert("no error", err == nil)
	t, m, c := a/b, a%b, b
	// -abs(remainder), -abs(divisor)
	if m > 0 { m = -m }
	if c > 0 { c = -c }
	switch {
	case m > c-m: zzAssert("rounded toward zero", q == t)
	case neg: zzAssert("rounded down", q == t-1)
	default: zzAssert("rounded up", q == t+1)
	}
}`, poly)
	}
	for _, t := range zmUnsigned {
		law("M02", "Div", t, `(a, b, q0 TYPE) {
	q := q0
	err := mmath.Div(a, b, &q)
	if b == 0 {
		zzAssert("division by zero", err == mmath.DivByZeroErr)
		return
	}
	zzAssert("no error", err == nil)
	t, m := a/b, a%b
	if m < b-m {
		zzAssert("rounded down", q == t)
	} else {
		zzAssert("rounded up", q == t+1)
	}
}`, poly)
	}
	for _, t := range []string{"float32", "float64", "zmMyFloat"} {
		base := strings.Replace(t, "zmMyFloat", "float64", 1)
		addLaw("M02", "Div"+nmOf(t), strings.ReplaceAll(strings.ReplaceAll(`(a, b, q0 TYPE) {
	q := q0
	zzAssert("no error", mmath.Div(a, b, &q) == nil)
	zzAssertSame("quotient", q, TYPE(BASE(a)/BASE(b)))
}`, "TYPE", t), "BASE", base), poly)
	}
	for _, fn := range []string{"Div", "DivBigOps"} {
		src := func(t, body string) string {
			return strings.NewReplacer("FN", fn, "TYPE", t).Replace(`(a, b, c *big.TYPE) {
	ao, bo := new(big.TYPE).Set(a), new(big.TYPE).Set(b)
	q := c
	if zzBool("nil quotient") { q = nil }
	if zzBool("quotient is the dividend") { q = a } else if zzBool("quotient is the divisor") { q = b }
	err := mmath.FN(a, b, &q)
` + body + `
	if q != a { zzAssert("dividend unchanged", a.Cmp(ao) == 0) }
	if q != b { zzAssert("divisor unchanged", b.Cmp(bo) == 0) }
}`)
		}
		addLaw("M02", fn+"BigInt", src("Int", `
	if bo.Sign() == 0 {
		zzAssert("division by zero", err == mmath.DivByZeroErr)
		return
	}
	zzAssert("no error", err == nil)
	t, m, c := new(big.Int), new(big.Int), new(big.Int)
	t.QuoRem(ao, bo, m)
	m.Abs(m)
	c.Abs(bo)
	c.Sub(c, m)
	switch {
	case m.Cmp(c) < 0: zzAssert("rounded toward zero", q.Cmp(t) == 0)
	case ao.Sign() == bo.Sign(): zzAssert("rounded up", q.Cmp(t.Add(t, big.NewInt(1))) == 0)
	default: zzAssert("rounded down", q.Cmp(t.Sub(t, big.NewInt(1))) == 0)
	}`), poly)
		addLaw("M02", fn+"BigRat", src("Rat", `
	if bo.Sign() == 0 {
		zzAssert("division by zero", err == mmath.DivByZeroErr)
		return
	}
	zzAssert("no error", err == nil)
	zzAssert("quotient", q.Cmp(new(big.Rat).Quo(ao, bo)) == 0)`), poly)
		addLaw("M02", fn+"BigFloat", src("Float", `
	if ao.Sign() == 0 && bo.Sign() == 0 || ao.IsInf() && bo.IsInf() {
		zzAssert("not a number", err != nil)
		return
	}
	zzAssert("no error", err == nil)`), poly)
	}
	for _, t := range []string{"int", "int8", "uint", "uint64", "float32", "float64", "string", "zmMyInt8", "zmMyFloat"} {
		addLaw("M03", "Ordered"+nmOf(t), strings.ReplaceAll(`(a, b TYPE) {
	switch c := mmath.CmpOrdered(a, b); {
	case a < b: zzAssert("less", c == -1)
	case a > b: zzAssert("greater", c == 1)
	case a == b: zzAssert("equal", c == 0)
	}
	switch m := mmath.MinOrdered(a, b); {
	case a < b: zzAssert("minimum", m == a)
	case b < a: zzAssert("minimum", m == b)
	case a == b: zzAssert("minimum of equals", m == a)
	}
	switch m := mmath.MaxOrdered(a, b); {
	case a < b: zzAssert("maximum", m == b)
	case b < a: zzAssert("maximum", m == a)
	case a == b: zzAssert("maximum of equals", m == a)
	}
}`, "TYPE", t), poly)
	}
	for _, t := range []string{"complex64", "complex128"} {
		addLaw("M03", "Complex"+nmOf(t), strings.ReplaceAll(`(a, b TYPE) {
	x, y := cmplx.Abs(complex128(a)), cmplx.Abs(complex128(b))
	c, mn, mx := mmath.CmpComplex(a, b), mmath.MinComplex(a, b), mmath.MaxComplex(a, b)
	switch {
	case x < y:
		zzAssert("less", c == -1)
		zzAssertSame("minimum", mn, a)
		zzAssertSame("maximum", mx, b)
	case x > y:
		zzAssert("greater", c == 1)
		zzAssertSame("minimum", mn, b)
		zzAssertSame("maximum", mx, a)
	case x == y:
		zzAssert("equal", c == 0)
	}
}`, "TYPE", t), poly)
	}
	for _, t := range []string{"*big.Int", "*big.Rat", "zmCmp"} {
		addLaw("M03", "Cmp"+nmOf(t), strings.ReplaceAll(`(a, b TYPE) {
	c, mn, mx := a.Cmp(b), mmath.MinCmp(a, b), mmath.MaxCmp(a, b)
	switch {
	case c < 0:
		zzAssertSame("minimum", mn, a)
		zzAssertSame("maximum", mx, b)
	case c > 0:
		zzAssertSame("minimum", mn, b)
		zzAssertSame("maximum", mx, a)
	}
}`, "TYPE", t), func(s *lawRun) {
			poly(s)
			s.model = func(x *ai.Exec, st *ai.State, c *ai.Call) ([]ai.Outcome, bool) {
				if c.Name == drv+"zmCmpOf" {
					return []ai.Outcome{{St: st, Vals: []ai.Val{ai.App(c.Res.At(0).Type(), "cmpof", c.Args...)}}}, true
				}
				return nil, false
			}
		})
	}
	imp("cmplx", "math/cmplx")
	decl(`// a type whose comparison may return any number
type zmCmp struct { v int }
func (c zmCmp) Cmp(o zmCmp) int { return zmCmpOf(c.v, o.v) }
func zmCmpOf(a, b int) int { return 0 }`)
	lawCheck("M03", "Comparisons, minimums and maximums agree with the order of the values", "", 1, nil)
	for _, t := range []string{"int", "int8", "uint", "uint64", "float32", "float64", "zmMyInt8", "zmMyFloat"} {
		r := func(name, src string) {
			addLaw("M04", name+nmOf(t), strings.ReplaceAll(src, "TYPE", t), func(s *lawRun) { s.mayMiss = true })
		}
		decl(strings.NewReplacer("TYPE", t, "NM", nmOf(t)).Replace(`func zmInNM(lo, hi, v TYPE, lm, hm mmath.RangeMode) bool {
	if lm == mmath.Open && !(v > lo) || lm == mmath.Closed && !(v >= lo) { return false }
	return hm == mmath.Open && v < hi || hm == mmath.Closed && v <= hi
}`))
		r("Range", strings.ReplaceAll(`(lo, hi, v, w TYPE) {
	lm, hm := mmath.Open, mmath.Closed
	if zzBool("closed minimum") { lm = mmath.Closed }
	if zzBool("open maximum") { hm = mmath.Open }
	valid := lo < hi && zmInNM(lo, hi, v, lm, hm)
	var r mmath.Range[TYPE]
	p := zmCatch(func() { r = mmath.OfRange(lo, lm, hi, hm, v) })
	zzAssert("panics exactly if the initial value is outside", (p == nil) == valid)
	if p != nil { return }
	zzAssert("initial value", r.GetValue() == v)
	l, m := r.GetMin()
	zzAssert("minimum", l == lo && m == lm)
	l, m = r.GetMax()
	zzAssert("maximum", l == hi && m == hm)
	in := zmInNM(lo, hi, w, lm, hm)
	err := r.SetValue(w)
	zzAssert("error exactly if outside", (err == nil) == in)
	if in {
		zzAssert("set", r.GetValue() == w)
	} else {
		zzAssert("unchanged", r.GetValue() == v)
	}
	l, m = r.GetMin()
	zzAssert("minimum kept", l == lo && m == lm)
	l, m = r.GetMax()
	zzAssert("maximum kept", l == hi && m == hm)
}`, "NM", nmOf(t)))
	}
	lawCheck("M04", "A range never holds a value outside its bounds", "", 1, nil)
	lawCheck("M02", "Division rounds half away from zero and reports division by zero", "", 1, nil)
	lawCheck("M01", "Checked integer arithmetic is exact or reports the error", "", 1, nil)
}
