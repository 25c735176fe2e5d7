package main

import "strings"

func init() {
	imp("reflect", "reflect")
	both := func(s *lawRun) { s.mayNil, s.mayMiss = true, true }
	gen := func(prop, name, src string, kv ...string) {
		nm := ""
		for i := 0; i < len(kv); i += 2 {
			nm += nmOf(kv[i+1])
		}
		for i := 0; i < len(kv); i += 2 {
			src = strings.ReplaceAll(src, kv[i], kv[i+1])
		}
		addLaw(prop, name+nm, strings.ReplaceAll(src, "NM", nm), both)
	}
	decl(`type zmPair struct { a int; b string }
// a value of some dynamic type
func zmAny(i int, s string, p *int) any {
	switch {
	case zzBool("nil"): return nil
	case zzBool("int"): return i
	case zzBool("string"): return s
	case zzBool("pointer"): return p
	case zzBool("error"): return zmErr{i}
	}
	return int8(3)
}`)
	for _, t := range []string{"*int", "[]int", "map[string]int", "func()", "chan int", "zmErrs", "*zmPair"} {
		gen("F06", "Nillable", `(v TYPE) {
	isNil := v == nil
	zzAssert("IsNil", funcs.IsNil[TYPE]()(v) == isNil)
	zzAssert("IsNonNil", funcs.IsNonNil[TYPE]()(v) == !isNil)
	zzAssert("IsNilValue", funcs.IsNilValue(v) == isNil)
	zzAssert("Nillable", funcs.Nillable(reflect.TypeOf(v)))
	zzAssert("MustBeNillable", !zmPanics(func() { funcs.MustBeNillable(reflect.TypeOf(v)) }))
	var r TYPE
	p := zmPanics(func() { r = funcs.MustNonNilValue(v) })
	zzAssert("MustNonNilValue panics", p == isNil)
	if !p { zzAssertSame("MustNonNilValue", r, v) }
}`, "TYPE", t)
	}
	for _, t := range []string{"int", "string", "float64", "bool", "zmPair", "[2]int"} {
		gen("F06", "NotNillable", `(v TYPE) {
	zzAssert("IsNil", zmPanics(func() { funcs.IsNil[TYPE]() }))
	zzAssert("IsNonNil", zmPanics(func() { funcs.IsNonNil[TYPE]() }))
	zzAssert("IsNilValue", !funcs.IsNilValue(v))
	zzAssert("Nillable", !funcs.Nillable(reflect.TypeOf(v)))
	zzAssert("MustBeNillable", zmPanics(func() { funcs.MustBeNillable(reflect.TypeOf(v)) }))
	zzAssert("MustNonNilValue", zmPanics(func() { funcs.MustNonNilValue(v) }))
}`, "TYPE", t)
	}
	addLaw("F06", "Any", `(i int, s string, p *int) {
	v := zmAny(i, s, p)
	isNil := v == nil
	if q, ok := v.(*int); ok { isNil = q == nil }
	zzAssert("IsNilValue", funcs.IsNilValue(v) == isNil)
}`, both)
	for _, t := range []string{"int", "string", "*int", "[]int", "float64"} {
		z := map[string]string{"int": "0", "string": `""`, "float64": "0"}[t]
		if z == "" {
			z = "nil"
		}
		src := `(v TYPE) {
	zero := v == ZERO
	var r TYPE
	p := zmPanics(func() { r = funcs.MustNonZero(v) })
	zzAssert("MustNonZero panics", p == zero)
	if !p { zzAssertSame("MustNonZero", r, v) }
}`
		if t == "float64" {
			// -0 is not the zero value for reflection
			src = strings.Replace(src, `zzAssert("MustNonZero panics", p == zero)`, `zzAssert("MustNonZero panics", !p || zero)`, 1)
		}
		gen("F06", "NonZero", strings.ReplaceAll(src, "ZERO", z), "TYPE", t)
	}
	addLaw("F06", "NonZeroStruct", `(v zmPair) {
	var r zmPair
	p := zmPanics(func() { r = funcs.MustNonZero(v) })
	zzAssert("MustNonZero panics", p == (v.a == 0 && v.b == ""))
	if !p { zzAssertSame("MustNonZero", r, v) }
}`, both)
	// zero is nil, and not empty, for maps, slices and functions
	addLaw("F06", "NonZeroKinds", `() {
	m := map[string]int{}
	zzAssert("empty map", !zmPanics(func() { funcs.MustNonZero(m) }))
	m["a"] = 0
	zzAssert("map", !zmPanics(func() { funcs.MustNonZero(m) }))
	m = nil
	zzAssert("nil map", zmPanics(func() { funcs.MustNonZero(m) }))
	zzAssert("empty slice", !zmPanics(func() { funcs.MustNonZero([]string{}) }))
	zzAssert("nil slice", zmPanics(func() { funcs.MustNonZero([]string(nil)) }))
	zzAssert("slice of a zero", !zmPanics(func() { funcs.MustNonZero([]int{0}) }))
	zzAssert("pointer to a zero", !zmPanics(func() { funcs.MustNonZero(new(int)) }))
	zzAssert("pointer to nil", !zmPanics(func() { funcs.MustNonZero(new(*int)) }))
	zzAssert("nil pointer", zmPanics(func() { funcs.MustNonZero((*string)(nil)) }))
	zzAssert("func", !zmPanics(func() { funcs.MustNonZero(func() int { return 0 }) }))
	zzAssert("nil func", zmPanics(func() { funcs.MustNonZero((func() int)(nil)) }))
	zzAssert("bool", zmPanics(func() { funcs.MustNonZero(false) }) && !zmPanics(func() { funcs.MustNonZero(true) }))
}`, both)
	addLaw("F06", "NonEmpty", `(a, b int) {
	s := zmSome(a, b)
	var r []int
	p := zmPanics(func() { r = funcs.MustNonEmptySlice(s) })
	zzAssert("MustNonEmptySlice panics", p == (len(s) == 0))
	if !p { zmEqual("MustNonEmptySlice", r, s) }
}`, both)
	addLaw("F06", "Must", `(a int, b string, c any, e error) {
	p := zmCatch(func() { funcs.Must(e) })
	zzAssert("Must panics", (p != nil) == (e != nil))
	if p != nil { zzAssertSame("Must error", p, e) }
	var x int
	p = zmCatch(func() { x = funcs.MustValue(a, e) })
	zzAssert("MustValue panics", (p != nil) == (e != nil))
	if p != nil { zzAssertSame("MustValue error", p, e) } else { zzAssertSame("MustValue", x, a) }
	var y string
	x = 0
	p = zmCatch(func() { x, y = funcs.MustValue2(a, b, e) })
	zzAssert("MustValue2 panics", (p != nil) == (e != nil))
	if p != nil { zzAssertSame("MustValue2 error", p, e) } else { zzAssertSame("MustValue2", x, a); zzAssertSame("MustValue2", y, b) }
	var z any
	x, y = 0, ""
	p = zmCatch(func() { x, y, z = funcs.MustValue3(a, b, c, e) })
	zzAssert("MustValue3 panics", (p != nil) == (e != nil))
	if p != nil { zzAssertSame("MustValue3 error", p, e) } else { zzAssertSame("MustValue3", x, a); zzAssertSame("MustValue3", y, b); zzAssertSame("MustValue3", z, c) }
}`, both)
	lawCheck("F06", "nil, zero and error guards", "abstract evaluation of law functions: the guards accept exactly the documented values and return them unchanged", 60, nil)

	// ---- type assertion and conversion of dynamic values
	for _, t := range []string{"int", "string", "*int", "error", "any"} {
		gen("F07", "AssertType", `(i int, s, msg string, p *int) {
	v := zmAny(i, s, p)
	want, is := v.(TYPE)
	r, err := funcs.AssertType[TYPE](msg, v)
	zzAssert("error", (err == nil) == is)
	zzAssertSame("value", r, want)
	var m TYPE
	pan := zmPanics(func() { m = funcs.MustAssertType[TYPE](msg, v) })
	zzAssert("must panics", pan == !is)
	if !pan { zzAssertSame("must value", m, want) }
}`, "TYPE", t)
	}
	for _, t := range []string{"int", "*int", "error"} {
		gen("F07", "Slice", `(i, i2 int, s, msg string, p, p2 *int) {
	var in []any
	n := 0
	for n < 2 && zzBool("element") {
		if n == 0 { in = append(in, zmAny(i, s, p)) } else { in = append(in, zmAny(i2, s, p2)) }
		n++
	}
	orig := zmCopy(in)
	var v any = in
	ok := true
	if zzBool("other") { v = zmAny(i, s, p); ok = false }
	if zzBool("typed") { v = []TYPE{}; ok = false }
	if ok { for _, x := range in { if _, is := x.(TYPE); !is { ok = false } } }
	r, err := funcs.ConvertToSlice[TYPE](msg, v)
	zzAssert("error", (err == nil) == ok)
	if ok {
		zzAssert("length", len(r) == n)
		for j := range r { zzAssertSame("element", r[j], in[j].(TYPE)) }
	} else {
		zzAssert("no result", r == nil)
	}
	zmEqual("unchanged", in, orig)
	var m []TYPE
	pan := zmPanics(func() { m = funcs.MustConvertToSlice[TYPE](msg, v) })
	zzAssert("must panics", pan == !ok)
	if !pan { zmEqual("must", m, r) }
}`, "TYPE", t)
	}
	addLaw("F07", "Slice2", `(i, i2 int, s, msg string, p *int) {
	elem := func(i int) any { if zzBool("element ok") { return i }; return s }
	row := func() (any, int) {
		switch {
		case zzBool("empty row"): return []any{}, 0
		case zzBool("nil row"): return []any(nil), 0
		case zzBool("one"): return []any{elem(i)}, 1
		case zzBool("two"): return []any{elem(i), elem(i2)}, 2
		}
		return zmAny(i, s, p), -1
	}
	var in []any
	var ns []int
	ok := true
	for len(in) < 2 && zzBool("row") {
		r, n := row()
		in = append(in, r)
		ns = append(ns, n)
		if n < 0 { ok = false; continue }
		for _, x := range r.([]any) { if _, is := x.(int); !is { ok = false } }
	}
	var v any = in
	if zzBool("other") { v = s; ok = false }
	r, err := funcs.ConvertToSlice2[int](msg, v)
	zzAssert("error", (err == nil) == ok)
	if ok {
		zzAssert("rows", len(r) == len(in))
		for j := range r {
			zzAssert("row length", len(r[j]) == ns[j] && r[j] != nil)
			for k := range r[j] { zzAssertSame("element", r[j][k], in[j].([]any)[k].(int)) }
		}
	} else {
		zzAssert("no result", r == nil)
	}
	pan := zmPanics(func() { funcs.MustConvertToSlice2[int](msg, v) })
	zzAssert("must panics", pan == !ok)
}`, both)
	addLaw("F07", "Map", `(i, i2 int, s, msg, k1, k2, q string, p *int) {
	in := map[string]any{}
	if zzBool("nil map") { in = nil }
	if in != nil && zzBool("first") { in[k1] = zmAny(i, s, p) }
	if in != nil && zzBool("second") { in[k2] = zmAny(i2, s, p) }
	var v any = in
	ok := true
	for _, x := range in { if _, is := x.(int); !is { ok = false } }
	if zzBool("other") { v = zmAny(i, s, p); ok = false }
	if zzBool("other key") { v = map[int]any{}; ok = false }
	r, err := funcs.ConvertToMap[string, int](msg, v)
	zzAssert("error", (err == nil) == ok)
	if ok {
		w, has := r[q]
		x, had := in[q]
		zzAssert("keys", has == had && r != nil)
		if had { zzAssertSame("value", w, x.(int)) }
	} else {
		zzAssert("no result", r == nil)
	}
	pan := zmPanics(func() { funcs.MustConvertToMap[string, int](msg, v) })
	zzAssert("must panics", pan == !ok)
}`, both)
	for _, t := range []string{"int", "string", "*int"} {
		gen("F07", "Flatten", `(a, b, c, d TYPE) {
	zmEqual("nil", funcs.SliceFlatten[TYPE](nil), nil)
	zzAssert("not a slice", zmPanics(func() { funcs.SliceFlatten[TYPE](a) }))
	zzAssert("other element", zmPanics(func() { funcs.SliceFlatten[TYPE]([]int8{1}) }))
	zzAssert("other element", zmPanics(func() { funcs.SliceFlatten[TYPE]([][]int8{}) }))
	s1 := zmSome(a, b)
	zmEqual("one dimension", funcs.SliceFlatten[TYPE](s1), s1)
	var s2 [][]TYPE
	var want []TYPE
	for len(s2) < 2 && zzBool("row") {
		r := zmSome(c, d)
		s2 = append(s2, r)
		want = append(want, r...)
	}
	zmEqual("two dimensions", funcs.SliceFlatten[TYPE](s2), want)
	s3 := [][][]TYPE{{{a}, {}, {b, c}}, nil, {nil, {d}}}
	zmEqual("three dimensions", funcs.SliceFlatten[TYPE](s3), []TYPE{a, b, c, d})
}`, "TYPE", t)
	}
	lawCheck("F07", "dynamic type conversion", "abstract evaluation of law functions over values of every dynamic type", 40, nil)

	// ---- TryTo
	addLaw("F08", "TryTo", `(v any) {
	zzAssume(v != nil)
	var log []int
	var got any
	n := 0
	var cl []func()
	bad := -1 // the closer that panics
	for n < 3 && zzBool("closer") {
		k := n
		pan := bad < 0 && zzBool("closer panics")
		if pan { bad = k }
		cl = append(cl, func() { log = append(log, k); if pan { panic(v) } })
		n++
	}
	tries := zzBool("panics")
	called := 0
	p := zmCatch(func() {
		funcs.TryTo(func() {
			zzAssert("tried first", len(log) == 0 && called == 0)
			log = append(log, 100)
			if tries { panic(v) }
		}, func(x any) { called++; got = x; log = append(log, 200) }, cl...)
	})
	zzAssert("does not panic", p == nil)
	zzAssert("tried", log[0] == 100)
	for i := 0; i < n; i++ { zzAssert("closers in reverse order", log[1+i] == n-1-i) }
	if tries || bad >= 0 {
		zzAssert("handled once", called == 1 && log[len(log)-1] == 200 && len(log) == n+2)
		zzAssertSame("panic value", got, v)
	} else {
		zzAssert("not handled", called == 0 && len(log) == n+1)
	}
}`, both)
	addLaw("F08", "SnakeToCamelCase", `() {
	var in, want []byte
	up := true
	for i := 0; i < 4 && zzBool("byte"); i++ {
		if zzBool("underscore") {
			in = append(in, '_')
			up = true
			continue
		}
		b := zzByte()
		zzAssume(b < 0x80 && b != '_')
		in = append(in, b)
		if up && b >= 'a' && b <= 'z' { b -= 32 }
		up = false
		want = append(want, b)
	}
	zzAssert("camel case", funcs.SnakeToCamelCase(string(in)) == string(want))
}`, both)
	lawCheck("F08", "TryTo", "abstract evaluation of a law function", 5, nil)
}
