package main

import (
	"fmt"
	"strings"
)

func init() {
	both := func(s *lawRun) { s.mayNil, s.mayMiss = true, true }
	gen := func(prop, name, src string, kv ...string) {
		nm := ""
		for i := 0; i < len(kv); i += 2 {
			nm += nmOf(kv[i+1])
		}
		for i := 0; i < len(kv); i += 2 {
			src = strings.ReplaceAll(src, kv[i], kv[i+1])
		}
		addLaw(prop, name+nm, strings.ReplaceAll(src, "NM", nm), both)
	}
	decl(`// a map that is nil or has some of the entries
func zmMap[K comparable, V any](a K, va V, b K, vb V) map[K]V {
	if zzBool("nil map") { return nil }
	m := map[K]V{}
	if zzBool("first entry") { m[a] = va }
	if zzBool("second entry") { m[b] = vb }
	return m
}
func zmAt[K comparable, V any](m map[K]V, k K) (v V, ok bool) { v, ok = m[k]; return }`)
	for _, kv := range [][2]string{{"int", "*int"}, {"string", "any"}, {"*int", "string"}} {
		g := func(name, src string) { gen("F03", name, src, "KEY", kv[0], "VAL", kv[1]) }
		g("MapIndex", `(a, b, k KEY, va, vb, d, d2 VAL) {
	m := zmMap(a, va, b, vb)
	var want VAL
	var def []VAL
	if zzBool("default") {
		want = d
		def = append(def, d)
		if zzBool("second default") { def = append(def, d2) }
	}
	n := len(m)
	if v, ok := m[k]; ok { want = v }
	zzAssertSame("value", funcs.MapIndex(m, k, def...), want)
	zzAssert("unchanged", len(m) == n)
}`)
		g("MapSet", `(a, b, k, q KEY, va, vb, v VAL) {
	m := zmMap(a, va, b, vb)
	old, had := zmAt(m, q)
	funcs.MapSet(&m, k, v)
	w, ok := m[q]
	if q == k {
		zzAssert("set", ok)
		zzAssertSame("set", w, v)
	} else {
		zzAssert("others", ok == had)
		zzAssertSame("others", w, old)
	}
}`)
		g("MapTest", `(a, b, k KEY, va, vb VAL) {
	m := zmMap(a, va, b, vb)
	_, had := m[k]
	zzAssert("test", funcs.MapTest(m, k) == had)
}`)
		g("MapUnset", `(a, b, k, q KEY, va, vb VAL) {
	m := zmMap(a, va, b, vb)
	old, had := zmAt(m, q)
	funcs.MapUnset(m, k)
	w, ok := m[q]
	if q == k {
		zzAssert("unset", !ok)
	} else {
		zzAssert("others", ok == had)
		zzAssertSame("others", w, old)
	}
}`)
		g("MapKeysToSlice", `(a, b, q KEY, va, vb VAL) {
	m := zmMap(a, va, b, vb)
	_, had := m[q]
	r := funcs.MapKeysToSlice(m)
	zzAssert("not nil", r != nil)
	zzAssert("length", len(r) == len(m))
	zzAssert("keys", (zmCount(r, q) == 1) == had)
}`)
		// two levels
		m2 := `	var m map[KEY]map[int]VAL
	if zzBool("outer") {
		m = map[KEY]map[int]VAL{}
		if zzBool("a") { m[a] = zmMap(i, va, j, vb) }
		if zzBool("b") { m[b] = zmMap(i, vb, j, va) }
	}
`
		g("Map2Set", `(a, b, k, q KEY, i, j, k2, q2 int, va, vb, v VAL) {
`+m2+`	old, had := zmAt(m[q], q2)
	_, first := zmAt(m, q)
	funcs.Map2Set(&m, k, k2, v)
	_, first2 := zmAt(m, q)
	zzAssert("first level", first2 == (first || q == k))
	w, ok := zmAt(m[q], q2)
	if q == k && q2 == k2 {
		zzAssert("set", ok)
		zzAssertSame("set", w, v)
	} else {
		zzAssert("others", ok == had)
		zzAssertSame("others", w, old)
	}
}`)
		g("Map2Test", `(a, b, k KEY, i, j, k2 int, va, vb VAL) {
`+m2+`	_, had := zmAt(m[k], k2)
	zzAssert("test", funcs.Map2Test(m, k, k2) == had)
}`)
		g("Map2Unset", `(a, b, k, q KEY, i, j, k2, q2 int, va, vb VAL) {
`+m2+`	old, had := zmAt(m[q], q2)
	in, first := zmAt(m, q)
	funcs.Map2Unset(m, k, k2)
	in2, first2 := zmAt(m, q)
	zzAssert("first level", first == first2 && (in == nil) == (in2 == nil))
	w, ok := zmAt(m[q], q2)
	if q == k && q2 == k2 {
		zzAssert("unset", !ok)
	} else {
		zzAssert("others", ok == had)
		zzAssertSame("others", w, old)
	}
}`)
		ms := `	var m map[KEY][]VAL
	if zzBool("map") {
		m = map[KEY][]VAL{}
		if zzBool("a") { m[a] = zmSome(va, vb) }
		if zzBool("b") { m[b] = []VAL{vb} }
	}
`
		g("MapSliceAdd", `(a, b, k, q KEY, va, vb, v VAL) {
`+ms+`	want := zmCopy(m[q])
	had := funcs.MapTest(m, q)
	if q == k { want = append(want, v) }
	funcs.MapSliceAdd(&m, k, v)
	w, ok := m[q]
	zmEqual("values", w, want)
	zzAssert("present", ok == (had || q == k))
}`)
		m2s := `	var m map[KEY]map[int][]VAL
	if zzBool("outer") {
		m = map[KEY]map[int][]VAL{}
		if zzBool("a") { m[a] = zmMap(i, []VAL{va, vb}, j, []VAL{vb}) }
		if zzBool("b") { m[b] = nil }
	}
`
		g("Map2SliceAdd", `(a, b, k, q KEY, i, j, k2, q2 int, va, vb, v VAL) {
`+m2s+`	want := zmCopy(m[q][q2])
	_, had := zmAt(m[q], q2)
	if q == k && q2 == k2 { want = append(want, v) }
	funcs.Map2SliceAdd(&m, k, k2, v)
	w, ok := zmAt(m[q], q2)
	zmEqual("values", w, want)
	zzAssert("present", ok == (had || q == k && q2 == k2))
}`)
		if kv[1] == "any" {
			continue
		}
		rm := `	all := zzBool("all")
	wantOf := func(s []VAL) (want []VAL) {
		done := false
		for _, x := range s {
			if x == v && (all || !done) { done = true } else { want = append(want, x) }
		}
		return
	}
`
		for _, unc := range []string{"", "Uncomparable"} {
			if unc != "" && kv[1] != "*int" {
				continue
			}
			g("MapSliceRemove"+unc, `(a, b, k, q KEY, va, vb, v VAL) {
`+ms+rm+`	want := zmCopy(m[q])
	had := funcs.MapTest(m, q)
	if q == k { want = wantOf(want) }
	if all { funcs.MapSliceRemove`+unc+`(m, k, v, funcs.ALL) } else { funcs.MapSliceRemove`+unc+`(m, k, v) }
	w, ok := m[q]
	zmEqual("values", w, want)
	zzAssert("present", ok == had)
}`)
			g("Map2SliceRemove"+unc, `(a, b, k, q KEY, i, j, k2, q2 int, va, vb, v VAL) {
`+m2s+rm+`	want := zmCopy(m[q][q2])
	_, had := zmAt(m[q], q2)
	if q == k && q2 == k2 { want = wantOf(want) }
	if all { funcs.Map2SliceRemove`+unc+`(m, k, k2, v, funcs.ALL) } else { funcs.Map2SliceRemove`+unc+`(m, k, k2, v) }
	w, ok := zmAt(m[q], q2)
	zmEqual("values", w, want)
	zzAssert("present", ok == had)
}`)
		}
	}
	lawCheck("F03", "map functions", "abstract evaluation of law functions over maps of symbolic keys and values: lookups, additions and removals affect exactly the given key", 60, nil)

	// ---- filters and composition
	for _, t := range []string{"int", "any"} {
		g := func(name, src string) { gen("F05", name, src, "TYPE", t) }
		g("AndOrNot", `(v TYPE) {
	n := 0
	for n < 3 && zzBool("filter") { n++ }
	or := zzBool("or")
	var rs []bool
	var fs []func(TYPE) bool
	for i := 0; i < n; i++ {
		i := i
		fs = append(fs, func(x TYPE) bool {
			zzAssertSame("argument", x, v)
			zzAssert("in order", len(rs) == i)
			r := zzBool("accepts")
			rs = append(rs, r)
			return r
		})
	}
	f := funcs.And(fs...)
	if or { f = funcs.Or(fs...) }
	zzAssert("not called yet", len(rs) == 0)
	r := f(v)
	want := true
	for i, x := range rs {
		want = x
		zzAssert("short circuit", x != or || i == len(rs)-1)
	}
	zzAssert("result", r == want)
	zzAssert("all needed", len(rs) == n || len(rs) > 0 && rs[len(rs)-1] == or)
	zzAssert("not", funcs.Not(func(x TYPE) bool { zzAssertSame("argument", x, v); return r })(v) == !r)
}`)
		g("Ternary", `(a, b TYPE) {
	c := zzBool("condition")
	r := funcs.Ternary(c, a, b)
	if c { zzAssertSame("ternary", r, a) } else { zzAssertSame("ternary", r, b) }
	var ta, tb func() TYPE
	na, nb := 0, 0
	if zzBool("true function") { ta = func() TYPE { na++; return a } }
	if zzBool("false function") { tb = func() TYPE { nb++; return b } }
	r = funcs.TernaryResult(c, ta, tb)
	var z TYPE
	switch {
	case c && ta != nil:
		zzAssertSame("ternary result", r, a)
		zzAssert("called once", na == 1 && nb == 0)
	case !c && tb != nil:
		zzAssertSame("ternary result", r, b)
		zzAssert("called once", na == 0 && nb == 1)
	default:
		zzAssertSame("zero", r, z)
		zzAssert("not called", na == 0 && nb == 0)
	}
}`)
		g("Suppliers", `(a, b, c TYPE) {
	s := funcs.SupplierOf(a)
	zzAssertSame("supplied", s(), a)
	zzAssertSame("supplied again", s(), a)
	n := 0
	vs := []TYPE{b, c}
	s = funcs.SupplierCached(func() TYPE { n++; return vs[n-1] })
	zzAssert("lazy", n == 0)
	zzAssertSame("cached", s(), b)
	zzAssertSame("cached again", s(), b)
	zzAssertSame("cached again", s(), b)
	zzAssert("once", n == 1)
	s2 := funcs.SupplierCached(func() TYPE { n++; return c })
	zzAssertSame("independent", s2(), c)
	zzAssertSame("independent", s(), b)
}`)
		g("Values", `(a TYPE, b string, c *int) {
	zzAssertSame("first", funcs.FirstValue2(a, b), a)
	zzAssertSame("first", funcs.FirstValue3(a, b, c), a)
	zzAssertSame("second", funcs.SecondValue2(a, b), b)
	zzAssertSame("second", funcs.SecondValue3(a, b, c), b)
	zzAssertSame("third", funcs.ThirdValue3(b, c, a), a)
	n := 0
	f := funcs.IgnoreResult(func() TYPE { n++; return a })
	zzAssert("not called yet", n == 0)
	f()
	zzAssert("called", n == 1)
}`)
	}
	for _, t := range []string{"int", "uint8", "string", "float64"} {
		gen("F05", "Comparators", `(a, b, c TYPE) {
	zzAssert("less", funcs.LessThan(b)(a) == (a < b))
	zzAssert("less or equal", funcs.LessThanEqual(b)(a) == (a <= b))
	zzAssert("greater", funcs.GreaterThan(b)(a) == (a > b))
	zzAssert("greater or equal", funcs.GreaterThanEqual(b)(a) == (a >= b))
	zzAssert("equal", funcs.Equal(b)(a) == (a == b))
	zzAssert("in none", !funcs.In[TYPE]()(a))
	zzAssert("in one", funcs.In(b)(a) == (a == b))
	zzAssert("in two", funcs.In(b, c)(a) == (a == b || a == c))
}`, "TYPE", t)
	}
	for _, t := range []string{"int", "int8", "float64"} {
		gen("F05", "Signs", `(a TYPE) {
	zzAssert("negative", funcs.IsNegative[TYPE]()(a) == (a < 0))
	zzAssert("not negative", funcs.IsNonNegative[TYPE]()(a) == (a >= 0))
	zzAssert("positive", funcs.IsPositive[TYPE]()(a) == (a > 0))
}`, "TYPE", t)
	}
	addLaw("F05", "Compose", `(a, b, c, d int) {
	vs := []int{a, b, c, d}
	n := 0
	f := func(i int) func(int) int {
		return func(x int) int {
			zzAssert("order", n == i)
			zzAssertSame("argument", x, vs[i])
			n++
			return vs[i+1]
		}
	}
	zzAssertSame("one", funcs.Compose(f(0))(a), b)
	n = 0
	zzAssertSame("two", funcs.Compose(f(0), f(1))(a), c)
	n = 0
	g := funcs.Compose(f(0), f(1), f(2))
	zzAssert("not called yet", n == 0)
	zzAssertSame("three", g(a), d)
	zzAssert("all called", n == 3)
}`, both)
	for n := 2; n <= 10; n++ {
		var b strings.Builder
		ts := []string{"int", "string", "*int", "any"}
		var ps, fs []string
		for i := 0; i <= n; i++ {
			ps = append(ps, fmt.Sprintf("v%d %s", i, ts[i%4]))
		}
		for i := 0; i < n; i++ {
			fs = append(fs, fmt.Sprintf("func(x %s) %s { zzAssert(\"order\", n == %d); zzAssertSame(\"argument\", x, v%d); n++; return v%d }", ts[i%4], ts[(i+1)%4], i, i, i+1))
		}
		fmt.Fprintf(&b, "(%s) {\n\tn := 0\n\tf := funcs.Compose%d(\n\t\t%s)\n\tzzAssert(\"not called yet\", n == 0)\n\tzzAssertSame(\"result\", f(v0), v%d)\n\tzzAssert(\"all called\", n == %d)\n}", strings.Join(ps, ", "), n, strings.Join(fs, ",\n\t\t"), n, n)
		addLaw("F05", fmt.Sprintf("Compose%d", n), b.String(), both)
	}
	// tuples
	addLaw("F05", "Tuples", `(a int, b string, c *int, d any, x, y, z, w any) {
	t2 := tuple.Of2(a, b)
	zzAssertSame("two", t2.T, a)
	zzAssertSame("two", t2.U, b)
	p, q := t2.Values()
	zzAssertSame("two values", p, a)
	zzAssertSame("two values", q, b)
	t3 := tuple.Of3(a, b, c)
	p, q, r := t3.Values()
	zzAssertSame("three", p, a)
	zzAssertSame("three", q, b)
	zzAssertSame("three", r, c)
	zzAssert("three", t3.T == a && t3.U == b && t3.V == c)
	t4 := tuple.Of4(a, b, c, d)
	p, q, r, s := t4.Values()
	zzAssertSame("four", p, a)
	zzAssertSame("four", q, b)
	zzAssertSame("four", r, c)
	zzAssertSame("four", s, d)
	zzAssertSame("four", t4.W, d)
	zzAssert("four", t4.T == a && t4.U == b && t4.V == c)
	s2 := tuple.Of2Same(x, y)
	zzAssertSame("same two", s2.T, x)
	zzAssertSame("same two", s2.U, y)
	s3 := tuple.Of3Same(x, y, z)
	zzAssertSame("same three", s3.T, x)
	zzAssertSame("same three", s3.U, y)
	zzAssertSame("same three", s3.V, z)
	s4 := tuple.Of4Same(x, y, z, w)
	zzAssertSame("same four", s4.T, x)
	zzAssertSame("same four", s4.U, y)
	zzAssertSame("same four", s4.V, z)
	zzAssertSame("same four", s4.W, w)
}`, both)
	lawCheck("F05", "filters, composition, suppliers and tuples", "abstract evaluation of law functions over symbolic values and recording functions", 60, nil)
}
