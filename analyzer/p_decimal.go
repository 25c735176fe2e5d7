package main

import (
	"fmt"
	"go/types"
	"strings"

	"verif/analyzer/ai"
)

// Laws of math.Decimal. A decimal is observed by its scale and its unscaled integer, which has no accessor: zzUnscaled
// is the only int64 of the struct.

func init() {
	decl(`func zzUnscaled(d mmath.Decimal) int64 { return 0 }
const zmMax = 999_999_999_999_999_999`)
	ai.Library[drv+"zzUnscaled"] = func(x *ai.Exec, st *ai.State, c *ai.Call) []ai.Outcome {
		s, ok := c.Args[0].(*ai.Struct)
		if !ok {
			return nil
		}
		for _, f := range s.F {
			if t := ai.ValType(f); t != nil && types.Identical(t, types.Typ[types.Int64]) {
				return []ai.Outcome{{St: st, Vals: []ai.Val{f}}}
			}
		}
		return nil
	}
	opt := func(s *lawRun) {
		s.mayMiss = true
		s.x.WidenAt = 40
		ai.Poly, ai.Digits, ai.ClosedRels = true, true, false
	}
	addLaw("M05", "OfDecimal", `(v int64, s uint) {
	norm := zzBool("normalized")
	sg := 0
	if v > 0 { sg = 1 } else if v < 0 { sg = -1 }
	d, err := mmath.OfDecimal(v, s, norm)
	valid := s <= 18 && v <= zmMax && v >= -zmMax
	zzAssert("error exactly if out of range", (err == nil) == valid)
	if err != nil { return }
	zzAssert("sign", d.Sign() == sg)
	zzAssert("normalized", d.Normalized() == norm)
	if !norm && v != 0 {
		zzAssert("scale", d.Scale() == s)
		zzAssert("value", zzUnscaled(d) == v)
	}
	if v == 0 {
		zzAssert("zero", d.Scale() == 0 && zzUnscaled(d) == 0)
	}
}`, opt)
	decl(`// zmScaled is v * 10^k
func zmScaled(v int64, k uint) *big.Int {
	r := big.NewInt(v)
	for i := uint(0); i < k; i++ { r.Mul(r, big.NewInt(10)) }
	return r
}`)
	addLaw("M05", "Normalize", `(v int64, s uint) {
	zzAssume(s <= 18 && v <= zmMax && v >= -zmMax)
	d, err := mmath.OfDecimal(v, s, false)
	zzAssert("no error", err == nil)
	if zzBool("by the constructor") {
		d, err = mmath.OfDecimal(v, s)
		zzAssert("no error", err == nil)
	} else {
		d.Normalize()
	}
	w, t := zzUnscaled(d), d.Scale()
	if v == 0 {
		zzAssert("zero", w == 0 && t == 0)
		return
	}
	zzAssert("scale not increased", t <= s)
	zzAssert("same value", zmScaled(w, s-t).Cmp(big.NewInt(v)) == 0)
	zzAssert("no trailing zero", t == 0 || w%10 != 0)
}`, opt)
	addLaw("M05", "Observers", `(v int64, s uint) {
	zzAssume(s <= 18 && v <= zmMax && v >= -zmMax)
	d, err := mmath.OfDecimal(v, s, false)
	zzAssert("no error", err == nil)
	t := d.Scale()
	n := d.Negate()
	zzAssert("negated", zzUnscaled(n) == -v && n.Scale() == t && n.Normalized() == d.Normalized())
	zzAssert("unchanged", zzUnscaled(d) == v && d.Scale() == t)
	p := zmScaled(1, t)
	zzAssert("magnitude less than one", d.MagnitudeLessThanOne() == (big.NewInt(v).CmpAbs(p) < 0))
}`, opt)
	decl(`// zmRound is v / 10^k rounded half away from zero
func zmRound(v int64, k uint) int64 {
	p := int64(1)
	for i := uint(0); i < k; i++ { p *= 10 }
	q, r := v/p, v%p
	if r < 0 {
		if -r >= p+r { q-- }
	} else if r >= p-r {
		q++
	}
	return q
}
// zmPow is 10^k
func zmPow(k uint) int64 {
	p := int64(1)
	for i := uint(0); i < k; i++ { p *= 10 }
	return p
}
func zmAbs64(v int64) int64 { if v < 0 { return -v }; return v }`)
	for i, sc := range [][2]int{{0, 0}, {2, 2}, {18, 18}, {1, 0}, {18, 0}, {0, 18}, {2, 5}, {12, 3}} {
		for j, op := range []string{"Add", "Sub"} {
			if i >= 6 && i-6 != j {
				continue // one of the operations
			}
			addLaw("M06", fmt.Sprintf("%s_%d_%d", op, sc[0], sc[1]), strings.NewReplacer("S1", fmt.Sprint(sc[0]), "S2", fmt.Sprint(sc[1]), "OP", op, "SIGN", map[string]string{"Add": "", "Sub": "-"}[op]).Replace(`(v, w int64) {
	zzAssume(v <= zmMax && v >= -zmMax && w <= zmMax && w >= -zmMax)
	d, err := mmath.OfDecimal(v, S1, false)
	e, err2 := mmath.OfDecimal(w, S2, false)
	zzAssert("no error", err == nil && err2 == nil)
	r, err := d.OP(e)
	// the scales are those after zero values are normalized
	s1, s2 := d.Scale(), e.Scale()
	a, b, s := v, w, s1
	if s1 > s2 {
		if k := s1-s2; zmAbs64(w) < zmPow(18-k) && (w != 0 || k < 18) {
			b = w * zmPow(k)
		} else {
			if zmAbs64(w) > zmMax-5 { zzAssert("error", err != nil); return }
			a, s = zmRound(v, k), s2
		}
	} else if s1 < s2 {
		if k := s2-s1; zmAbs64(v) < zmPow(18-k) && (v != 0 || k < 18) {
			a, s = v * zmPow(k), s2
		} else {
			if zmAbs64(v) > zmMax-5 { zzAssert("error", err != nil); return }
			b = zmRound(w, k)
		}
	}
	b = SIGNb
	if a+b > zmMax || a+b < -zmMax {
		zzAssert("error", err != nil)
		return
	}
	zzAssert("no error", err == nil)
	zzAssert("result", zzUnscaled(r) == a+b)
	if a+b != 0 { zzAssert("scale", r.Scale() == s) }
	zzAssert("unchanged", zzUnscaled(d) == v && d.Scale() == s1 && zzUnscaled(e) == w && e.Scale() == s2)
}`), opt)
		}
	}
	decl(`// zmDecimalText checks that s is the shortest decimal text with the given decimals and returns its digits as an integer
func zmDecimalText(s string, decimals int) (v int64, ok bool) {
	neg := len(s) > 0 && s[0] == '-'
	if neg { s = s[1:] }
	n := len(s)
	if decimals > 0 {
		// digits before and after the point
		if n < decimals+2 || s[n-decimals-1] != '.' { return 0, false }
		s = s[:n-decimals-1] + s[n-decimals:]
		n--
	}
	if n == 0 { return 0, false }
	for i := 0; i < n; i++ {
		if s[i] < '0' || s[i] > '9' { return 0, false }
		v = v*10 + int64(s[i]-'0')
	}
	// a leading zero only for numbers less than one
	if n > decimals+1 && s[0] == '0' { return 0, false }
	if neg {
		if v == 0 { return 0, false }
		v = -v
	}
	return v, true
}`)
	for _, sc := range []int{0, 1, 2, 5, 17, 18} {
		addLaw("M07", fmt.Sprintf("String_%d", sc), strings.ReplaceAll(`(v int64) {
	zzAssume(v <= zmMax && v >= -zmMax)
	d, err := mmath.OfDecimal(v, SCALE, false)
	zzAssert("no error", err == nil)
	s := d.String()
	w, ok := zmDecimalText(s, int(d.Scale()))
	zzAssert("decimal text", ok)
	zzAssert("denotes the value", w == v)
	n := len(s)
	if v < 0 { n-- }
	if d.Scale() > 0 { n-- }
	zzAssert("precision", d.Precision() == n)
}`, "SCALE", fmt.Sprint(sc)), opt)
		addLaw("M07", fmt.Sprintf("RoundTrip_%d", sc), strings.ReplaceAll(`(v int64) {
	zzAssume(v <= zmMax && v >= -zmMax)
	d, err := mmath.OfDecimal(v, SCALE, false)
	zzAssert("no error", err == nil)
	// with a leading zero there may be 19 digits
	zzAssume(d.Precision() <= 18)
	e, err := mmath.StringToDecimal(d.String())
	zzAssert("parsed", err == nil)
	zzAssert("same value", zzUnscaled(e) == v && e.Scale() == d.Scale())
}`, "SCALE", fmt.Sprint(sc)), opt)
	}
	for n := 0; n <= 5; n++ {
		b := ""
		for i := 0; i < n; i++ {
			b += "zzByte(), "
		}
		addLaw("M07", fmt.Sprintf("Parse_%d", n), strings.ReplaceAll(`() {
	s := string([]byte{BYTES})
	d, err := mmath.StringToDecimal(s)
	i, v, digits, decimals := 0, int64(0), 0, 0
	if len(s) > 0 && s[0] == '-' { i = 1 }
	neg, point, ok := i == 1, false, true
	for ; i < len(s) && ok; i++ {
		switch {
		case s[i] == '.' && !point: point = true
		case s[i] >= '0' && s[i] <= '9':
			v = v*10 + int64(s[i]-'0')
			digits++
			if point { decimals++ }
		default: ok = false
		}
	}
	if neg { v = -v }
	zzAssert("error exactly if it is no decimal", (err == nil) == (ok && digits > 0))
	if err == nil {
		zzAssert("value", zzUnscaled(d) == v)
		zzAssert("scale", int(d.Scale()) == decimals)
	}
}`, "BYTES", b), opt)
	}
	for _, sc := range [][2]int{{0, 0}, {1, 0}, {2, 5}, {0, 18}} {
		addLaw("M08", fmt.Sprintf("Cmp_%d_%d", sc[0], sc[1]), strings.NewReplacer("S1", fmt.Sprint(sc[0]), "S2", fmt.Sprint(sc[1])).Replace(`(v, w int64) {
	zzAssume(v <= zmMax && v >= -zmMax && w <= zmMax && w >= -zmMax)
	d, err := mmath.OfDecimal(v, S1, false)
	e, err2 := mmath.OfDecimal(w, S2, false)
	zzAssert("no error", err == nil && err2 == nil)
	zzAssert("agrees with the values", d.Cmp(e) == zmScaled(v, S2).Cmp(zmScaled(w, S1)))
}`), func(s *lawRun) { opt(s); s.x.MaxSteps = 30000000 })
	}
	for _, sc := range []int{0, 1, 2, 18} {
		addLaw("M09", fmt.Sprintf("DivIntQuoRem_%d", sc), strings.ReplaceAll(`(v int64, o uint) {
	zzAssume(v <= zmMax && v >= -zmMax)
	d, err := mmath.OfDecimal(v, SCALE, false)
	zzAssert("no error", err == nil)
	t := d.Scale()
	q, r, err := d.DivIntQuoRem(o)
	zzAssert("error exactly if zero or greater than the dividend", (err != nil) == (o == 0 || uint64(o) > uint64(zmAbs64(v) / zmPow(t))))
	if err != nil { return }
	zzAssert("quotient", zzUnscaled(q) == v / int64(o) && (v == 0 || q.Scale() == t))
	zzAssert("remainder", zzUnscaled(r) == v - zzUnscaled(q)*int64(o) && (zzUnscaled(r) == 0 || r.Scale() == t))
}`, "SCALE", fmt.Sprint(sc)), opt)
	}
	for _, sc := range []int{0, 2, 18} {
		for n := 1; n <= 6; n++ {
			addLaw("M09", fmt.Sprintf("DivIntAdd_%d_%d", sc, n), strings.NewReplacer("SCALE", fmt.Sprint(sc), "COUNT", fmt.Sprint(n)).Replace(`(v int64) {
	zzAssume(v <= zmMax && v >= -zmMax)
	d, err := mmath.OfDecimal(v, SCALE, false)
	zzAssert("no error", err == nil)
	t := d.Scale()
	l, err := d.DivIntAdd(COUNT)
	zzAssert("error exactly if greater than the dividend", (err != nil) == (COUNT > zmAbs64(v) / zmPow(t)))
	if err != nil { return }
	zzAssert("count", len(l) == COUNT)
	sum := int64(0)
	for _, e := range l {
		w := zzUnscaled(e)
		zzAssert("scale", e.Scale() == t)
		zzAssert("not less than the next", zmAbs64(w) >= zmAbs64(zzUnscaled(l[len(l)-1])))
		zzAssert("at most one more than the last", zmAbs64(w) <= zmAbs64(zzUnscaled(l[len(l)-1]))+1)
		sum += w
	}
	zzAssert("sum", sum == v)
}`), opt)
		}
	}
	for _, sc := range [][2]int{{0, 0}, {2, 2}, {1, 0}, {0, 2}, {9, 9}} {
		addLaw("M10", fmt.Sprintf("Mul_%d_%d", sc[0], sc[1]), strings.NewReplacer("S1", fmt.Sprint(sc[0]), "S2", fmt.Sprint(sc[1])).Replace(`(v, w int64) {
	zzAssume(v <= zmMax && v >= -zmMax && w <= zmMax && w >= -zmMax)
	d, err := mmath.OfDecimal(v, S1, false)
	e, err2 := mmath.OfDecimal(w, S2, false)
	zzAssert("no error", err == nil && err2 == nil)
	s1, s2 := d.Scale(), e.Scale()
	p := new(big.Int).Mul(big.NewInt(v), big.NewInt(w))
	zzAssume(p.Cmp(big.NewInt(zmMax)) <= 0 && p.Cmp(big.NewInt(-zmMax)) >= 0)
	r, err := d.Mul(e)
	zzAssert("no error", err == nil)
	zzAssert("product", big.NewInt(zzUnscaled(r)).Cmp(p) == 0)
	zzAssert("scale", zzUnscaled(r) == 0 || r.Scale() == s1+s2)
	zzAssert("unchanged", zzUnscaled(d) == v && d.Scale() == s1 && zzUnscaled(e) == w && e.Scale() == s2)
}`), opt)
	}
	addLaw("M10", "MulIntegers", `(v, w int64) {
	zzAssume(v <= zmMax && v >= -zmMax && w <= zmMax && w >= -zmMax)
	d, err := mmath.OfDecimal(v, 0, false)
	e, err2 := mmath.OfDecimal(w, 0, false)
	zzAssert("no error", err == nil && err2 == nil)
	p := new(big.Int).Mul(big.NewInt(v), big.NewInt(w))
	_, err = d.Mul(e)
	zzAssert("error exactly if beyond 18 digits", (err != nil) == (p.Cmp(big.NewInt(zmMax)) > 0 || p.Cmp(big.NewInt(-zmMax)) < 0))
}`, opt)
	addLaw("M10", "MulRounds", `(v, w int64) {
	zzAssume(v <= zmMax && v >= -zmMax && w <= zmMax && w >= -zmMax)
	d, err := mmath.OfDecimal(v, 1, false)
	e, err2 := mmath.OfDecimal(w, 1, false)
	zzAssert("no error", err == nil && err2 == nil)
	p := new(big.Int).Mul(big.NewInt(v), big.NewInt(w))
	zzAssume(p.Cmp(big.NewInt(zmMax)) > 0 && p.Cmp(big.NewInt(9_223_372_036_854_775_807)) <= 0)
	r, err := d.Mul(e)
	zzAssert("no error", err == nil)
	zzAssert("rounded", zzUnscaled(r) == zmRound(v*w, 1) && r.Scale() == 1)
}`, opt)
	for _, sc := range [][2]int{{1, 0}, {1, 1}, {3, 0}} {
		addLaw("M10", fmt.Sprintf("MulBig_%d_%d", sc[0], sc[1]), strings.NewReplacer("S1", fmt.Sprint(sc[0]), "S2", fmt.Sprint(sc[1]), "DIGITS", fmt.Sprint(sc[0]+sc[1])).Replace(`(v, w int64) {
	zzAssume(v <= zmMax && v >= -zmMax && w <= zmMax && w >= -zmMax)
	d, err := mmath.OfDecimal(v, S1, false)
	e, err2 := mmath.OfDecimal(w, S2, false)
	zzAssert("no error", err == nil && err2 == nil)
	p := new(big.Int).Mul(big.NewInt(v), big.NewInt(w))
	zzAssume(p.Cmp(big.NewInt(9_223_372_036_854_775_807)) > 0)
	r, err := d.Mul(e)
	if p.Cmp(zmScaled(zmMax+1, DIGITS)) >= 0 {
		zzAssert("error if beyond 18 digits", err != nil)
		return
	}
	if err != nil {
		// rounds up to 19 digits
		zzAssert("no error if it fits", new(big.Int).Add(new(big.Int).Add(p, p), zmScaled(1, DIGITS)).Cmp(zmScaled(2*(zmMax+1), DIGITS)) >= 0)
		return
	}
	// |r*2 - p*2| <= 10^k
	k := DIGITS - r.Scale()
	x := new(big.Int).Sub(zmScaled(zzUnscaled(r), k), p)
	zzAssert("nearest", new(big.Int).Add(x, x).CmpAbs(zmScaled(1, k)) <= 0)
	zzAssert("exact, or 18 digits", x.Sign() == 0 || zzUnscaled(r) >= (zmMax+1)/10)
}`), opt)
	}
	for _, sc := range [][2]int{{18, 0}, {17, 0}, {16, 0}, {17, 1}, {18, 2}} {
		addLaw("M11", fmt.Sprintf("Div_%d_%d", sc[0], sc[1]), strings.NewReplacer("S1", fmt.Sprint(sc[0]), "S2", fmt.Sprint(sc[1])).Replace(`(v, w int64) {
	zzAssume(v <= zmMax && v >= -zmMax && w <= zmMax && w >= -zmMax && v != 0)
	d, err := mmath.OfDecimal(v, S1, false)
	e, err2 := mmath.OfDecimal(w, S2, false)
	zzAssert("no error", err == nil && err2 == nil)
	s1, s2 := d.Scale(), e.Scale()
	r, err := d.Div(e)
	if w == 0 {
		zzAssert("error if dividing by zero", err != nil)
		return
	}
	if err != nil {
		zzAssert("error if the remainder or the quotient has too many digits", zmAbs64(w) > zmMax/10)
		return
	}
	k := r.Scale() + s2 - s1
	// |(r*w - v*10^k)*2| <= |w|
	bw := big.NewInt(w)
	x := new(big.Int).Mul(big.NewInt(zzUnscaled(r)), bw)
	x.Sub(x, zmScaled(v, k))
	zzAssert("nearest", new(big.Int).Add(x, x).CmpAbs(bw) <= 0)
	zzAssert("exact, or all digits", x.Sign() == 0 || r.Scale() == 18 || zmAbs64(zzUnscaled(r)) >= (zmMax+1)/10)
	zzAssert("unchanged", zzUnscaled(d) == v && d.Scale() == s1 && zzUnscaled(e) == w && e.Scale() == s2)
}`), opt)
	}
	for _, c := range [][3]int{{0, 1, 4}, {2, 2, -40}, {2, 5, -25}, {18, 18, 8}, {0, 1, 1}, {2, 5, -1}, {0, 18, 1}} {
		addLaw("M11", fmt.Sprintf("DivBy_%d_%d_%s", c[0], c[1], strings.ReplaceAll(fmt.Sprint(c[2]), "-", "m")), strings.NewReplacer("S1", fmt.Sprint(c[0]), "S2", fmt.Sprint(c[1]), "DIVISOR", fmt.Sprint(c[2]), "ABS", strings.TrimPrefix(fmt.Sprint(c[2]), "-")).Replace(`(v int64) {
	const w = DIVISOR
	zzAssume(v <= zmMax && v >= -zmMax && v != 0)
	d, err := mmath.OfDecimal(v, S1, false)
	e, err2 := mmath.OfDecimal(w, S2, false)
	zzAssert("no error", err == nil && err2 == nil)
	r, err := d.Div(e)
	if err != nil {
		zzAssert("error if the quotient has too many digits", S1 < S2 && zmAbs64(v) > zmMax / zmPow(S2-S1))
		return
	}
	// |(r*w - v*10^(t+s2-s1))*2| <= |w|
	t := r.Scale()
	zzAssert("scale", t <= 18 && t + S2 >= S1)
	x := new(big.Int).Mul(big.NewInt(zzUnscaled(r)), big.NewInt(w))
	x.Sub(x, zmScaled(v, t+S2-S1))
	x.Add(x, x)
	zzAssert("nearest", x.Cmp(big.NewInt(ABS)) <= 0 && x.Cmp(big.NewInt(-ABS)) >= 0)
	zzAssert("exact, or all digits", x.Sign() == 0 || t == 18 || zmAbs64(zzUnscaled(r)) >= (zmMax+1)/10)
}`), opt)
	}
	addLaw("M11", "DivZero", `(w int64, s uint) {
	zzAssume(w <= zmMax && w >= -zmMax && s <= 18)
	d, err := mmath.OfDecimal(0, 5, false)
	e, err2 := mmath.OfDecimal(w, s, false)
	zzAssert("no error", err == nil && err2 == nil)
	r, err := d.Div(e)
	zzAssert("error exactly if dividing by zero", (err != nil) == (w == 0))
	if err == nil { zzAssert("zero", zzUnscaled(r) == 0) }
}`, opt)
	lawCheck("M11", "Decimal quotients are exact or the nearest", "", 1, nil)
	lawCheck("M10", "A product that fits 18 digits is exact", "", 1, nil)
	lawCheck("M08", "Decimals compare as the numbers they denote", "", 1, nil)
	lawCheck("M09", "The shares of a divided decimal add up to it", "", 1, nil)
	sharded["M11"] = 7
	sharded["M08"] = 4
	sharded["M07"] = 7
	lawCheck("M07", "The text of a decimal denotes exactly its value", "", 1, nil)
	sharded["M06"] = 7
	lawCheck("M06", "Decimal sums and differences are exact, rounded once, or an error", "", 1, nil)
	lawCheck("M05", "Decimals are within 18 digits and keep their value when normalized", "", 1, nil)
}
