package main

import "fmt"

// Laws of packages tuple and reflect.

func init() {
	imp("rflx", mod+"reflect")
	imp("reflect", "reflect")
	imp("tuple", mod+"tuple")
	addLaw("T01", "Values", `(a int, b string, c bool, d int8) {
	t2 := tuple.Of2(a, b)
	x, y := t2.Values()
	zzAssert("two", t2.T == a && t2.U == b && x == a && y == b)
	t3 := tuple.Of3(a, b, c)
	x, y, z := t3.Values()
	zzAssert("three", t3.T == a && t3.U == b && t3.V == c && x == a && y == b && z == c)
	t4 := tuple.Of4(a, b, c, d)
	x, y, z, w := t4.Values()
	zzAssert("four", t4.T == a && t4.U == b && t4.V == c && t4.W == d && x == a && y == b && z == c && w == d)
}`, nil)
	addLaw("T01", "Same", `(a, b, c, d string) {
	t2 := tuple.Of2Same(a, b)
	x, y := t2.Values()
	zzAssert("two", t2.T == a && t2.U == b && x == a && y == b)
	t3 := tuple.Of3Same(a, b, c)
	x, y, z := t3.Values()
	zzAssert("three", t3.T == a && t3.U == b && t3.V == c && x == a && y == b && z == c)
	t4 := tuple.Of4Same(a, b, c, d)
	x, y, z, w := t4.Values()
	zzAssert("four", t4.T == a && t4.U == b && t4.V == c && t4.W == d && x == a && y == b && z == c && w == d)
}`, nil)
	addLaw("T01", "String", `(a, b, c, d string) {
	zzAssert("two", tuple.Of2(a, b).String() == "{T: " + a + ", U: " + b + "}")
	zzAssert("three", tuple.Of3(a, b, c).String() == "{T: " + a + ", U: " + b + ", V: " + c + "}")
	zzAssert("four", tuple.Of4(a, b, c, d).String() == "{T: " + a + ", U: " + b + ", V: " + c + ", W: " + d + "}")
}`, nil)

	decl(`type (
	zmRInt int
	zmRUint8 uint8
	zmRFloat float32
	zmRComplex complex64
	zmRString string
	zmRBool bool
	zmRBig big.Int
	zmRPtr *int
	zmRSlice []int
	zmRIface interface{ M() }
	zmRStruct struct { A int; b string; C *zmRStruct }
	zmREmpty struct {}
)
func zmRType[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }
func zmRDepth[T any]() {
	t := zmRType[T]()
	p := reflect.TypeOf((*T)(nil))
	pp := reflect.TypeOf((**T)(nil))
	ppp := reflect.TypeOf((***T)(nil))
	zzAssert("number of pointers", rflx.NumPointers(t) == 0 && rflx.NumPointers(p) == 1 && rflx.NumPointers(pp) == 2 && rflx.NumPointers(ppp) == 3)
	zzAssert("dereferenced", rflx.DerefType(t) == t && rflx.DerefType(p) == t && rflx.DerefType(pp) == t && rflx.DerefType(ppp) == t)
	zzAssert("at most one pointer", rflx.DerefTypeMaxOnePtr(t) == t && rflx.DerefTypeMaxOnePtr(p) == p && rflx.DerefTypeMaxOnePtr(pp) == p && rflx.DerefTypeMaxOnePtr(ppp) == p)
}
func zmRKind[T any](signed, unsigned, numeric, big, nillable, primitive bool, base reflect.Type) {
	t := zmRType[T]()
	zzAssert("signed", rflx.IsSignedInteger(t) == signed)
	zzAssert("unsigned", rflx.IsUnsignedInteger(t) == unsigned)
	zzAssert("numeric", rflx.IsNumeric(t) == numeric)
	zzAssert("big", rflx.IsBigPtr(t) == big)
	zzAssert("nillable", rflx.IsNillable(t) == nillable)
	zzAssert("primitive", rflx.IsPrimitive(t) == primitive)
	zzAssert("base type", rflx.TypeToBaseType(t) == base)
}`)
	const y, n = true, false
	for i, l := range []struct {
		t          string
		s, u, f, b bool
		nl, p      bool
		base       string
	}{
		{"int", y, n, y, n, n, y, ""}, {"int8", y, n, y, n, n, y, ""}, {"int16", y, n, y, n, n, y, ""}, {"int32", y, n, y, n, n, y, ""}, {"int64", y, n, y, n, n, y, ""}, {"zmRInt", y, n, y, n, n, y, "int"},
		{"uint", n, y, y, n, n, y, ""}, {"uint8", n, y, y, n, n, y, ""}, {"uint16", n, y, y, n, n, y, ""}, {"uint32", n, y, y, n, n, y, ""}, {"uint64", n, y, y, n, n, y, ""}, {"zmRUint8", n, y, y, n, n, y, "uint8"},
		{"uintptr", n, n, n, n, n, n, ""}, {"float32", n, n, y, n, n, y, ""}, {"float64", n, n, y, n, n, y, ""}, {"zmRFloat", n, n, y, n, n, y, "float32"},
		{"complex64", n, n, n, n, n, y, ""}, {"complex128", n, n, n, n, n, y, ""}, {"zmRComplex", n, n, n, n, n, y, "complex64"}, {"string", n, n, n, n, n, y, ""}, {"zmRString", n, n, n, n, n, y, "string"},
		{"bool", n, n, n, n, n, y, ""}, {"zmRBool", n, n, n, n, n, y, "bool"},
		{"*big.Int", n, n, y, y, y, n, ""}, {"*big.Float", n, n, y, y, y, n, ""}, {"*big.Rat", n, n, y, y, y, n, ""}, {"big.Int", n, n, n, n, n, n, ""}, {"*zmRBig", n, n, n, n, y, n, ""}, {"**big.Int", n, n, n, n, y, n, ""},
		{"*int", n, n, n, n, y, n, ""}, {"zmRPtr", n, n, n, n, y, n, ""}, {"[]int", n, n, n, n, y, n, ""}, {"zmRSlice", n, n, n, n, y, n, ""}, {"[2]int", n, n, n, n, n, n, ""}, {"map[string]int", n, n, n, n, y, n, ""},
		{"chan int", n, n, n, n, y, n, ""}, {"func()", n, n, n, n, y, n, ""}, {"error", n, n, n, n, y, n, ""}, {"zmRIface", n, n, n, n, y, n, ""}, {"any", n, n, n, n, y, n, ""}, {"zmRStruct", n, n, n, n, n, n, ""}, {"struct{}", n, n, n, n, n, n, ""},
	} {
		base := "nil"
		if l.base != "" {
			base = "zmRType[" + l.base + "]()"
		}
		addLaw("X01", fmt.Sprint("Kind", i), fmt.Sprintf("() { zmRKind[%s](%v, %v, %v, %v, %v, %v, %s) }", l.t, l.s, l.u, l.f, l.b, l.nl, l.p, base), nil)
		if l.t[0] != '*' && l.t != "zmRPtr" {
			addLaw("X01", fmt.Sprint("Depth", i), "() { zmRDepth["+l.t+"]() }", nil)
		}
	}
	addLaw("X01", "Fields", `() {
	f := rflx.FieldsByName(zmRType[zmRStruct]())
	zzAssert("fields", len(f) == 3 && f["A"].Name == "A" && f["b"].Name == "b" && f["C"].Name == "C")
	zzAssert("types", f["A"].Type == zmRType[int]() && f["b"].Type == zmRType[string]() && f["C"].Type == zmRType[*zmRStruct]())
	zzAssert("no fields", len(rflx.FieldsByName(zmRType[zmREmpty]())) == 0 && len(rflx.FieldsByName(zmRType[int]())) == 0 && len(rflx.FieldsByName(zmRType[*zmRStruct]())) == 0)
}`, nil)
	// values
	for i, t := range []string{"int", "string", "zmRInt", "zmRStruct", "[]int", "any"} {
		addLaw("X02", fmt.Sprint("Deref", i), `(v `+t+`) {
	zzAssert("not a pointer", rflx.DerefValue(reflect.ValueOf(&v).Elem()).Addr().Interface().(*`+t+`) == &v)
	p := &v
	if zzBool("nil") { p = nil }
	pp := &p
	if zzBool("nil pointer") { pp = nil }
	ppp := &pp
	// all pointers
	for k, r := range []reflect.Value{rflx.DerefValue(reflect.ValueOf(p)), rflx.DerefValue(reflect.ValueOf(pp)), rflx.DerefValue(reflect.ValueOf(ppp))} {
		ok := p != nil && (k == 0 || pp != nil)
		zzAssert("valid unless a pointer is nil", r.IsValid() == ok)
		if ok { zzAssert("the variable", r.Addr().Interface().(*`+t+`) == &v) }
	}
	// all but one
	r := rflx.DerefValueMaxOnePtr(reflect.ValueOf(p))
	zzAssert("one pointer", r.IsValid() && r.Interface().(*`+t+`) == p)
	r = rflx.DerefValueMaxOnePtr(reflect.ValueOf(pp))
	zzAssert("two pointers", r.IsValid() == (pp != nil))
	if pp != nil { zzAssert("inner pointer", r.Interface().(*`+t+`) == p) }
	r = rflx.DerefValueMaxOnePtr(reflect.ValueOf(ppp))
	zzAssert("three pointers", r.IsValid() == (pp != nil))
	if pp != nil { zzAssert("innermost pointer", r.Interface().(*`+t+`) == p) }
}`, nil)
	}
	addLaw("X02", "Set", `(a, b int, s string) {
	v := a
	p := &v
	rflx.SetPointerValue(reflect.ValueOf(&p), reflect.ValueOf(b))
	zzAssert("set", v == b && p == &v)
	rflx.SetPointerValue(reflect.ValueOf(p), reflect.ValueOf(zmRInt(a)))
	zzAssert("converted", v == a)
	var n zmRString
	rflx.SetPointerValue(reflect.ValueOf(&n), reflect.ValueOf(s))
	zzAssert("named", string(n) == s)
}`, nil)
	for i, t := range []string{"*int", "[]int", "map[string]int", "chan int", "func()", "error"} {
		addLaw("X02", fmt.Sprint("Nil", i), `() {
	var v `+t+`
	zzAssert("nil", rflx.IsNil(reflect.ValueOf(&v).Elem()))
	zzAssert("invalid", rflx.IsNil(reflect.Value{}) && rflx.IsNillable(reflect.Value{}) && rflx.IsNillable(reflect.ValueOf(&v).Elem()))
}`, nil)
	}
	addLaw("X02", "NotNil", `(a int, s string, e error) {
	l := []int{}
	m := map[string]int{}
	zzAssert("not nil", !rflx.IsNil(reflect.ValueOf(a)) && !rflx.IsNil(reflect.ValueOf(s)) && !rflx.IsNil(reflect.ValueOf(&a)) && !rflx.IsNil(reflect.ValueOf(l)) && !rflx.IsNil(reflect.ValueOf(m)))
	zzAssert("not nillable", !rflx.IsNillable(reflect.ValueOf(a)) && !rflx.IsNillable(reflect.ValueOf(s)))
	zzAssert("not nil interface", !rflx.IsNil(reflect.ValueOf(&e).Elem()))
}`, nil)
	addLaw("X02", "Resolve", `(a int) {
	l := []any{a, "s"}
	v := reflect.ValueOf(&l[0]).Elem()
	zzAssert("interface", v.Kind() == reflect.Interface)
	r := rflx.ResolveValueType(v)
	zzAssert("resolved", r.Kind() == reflect.Int && r.Interface() == any(a))
	o := rflx.ResolveValueType(reflect.ValueOf(a))
	zzAssert("same", o.Kind() == reflect.Int && o.Interface() == any(a))
	zzAssert("type assert", rflx.TypeAssert(v, zmRType[int]()) == nil && rflx.TypeAssert(v, zmRType[string]()) != nil && rflx.TypeAssert(o, zmRType[zmRInt](), "x") != nil && rflx.TypeAssert(o, zmRType[int](), "x") == nil)
	zzAssert("must", !zmPanics(func() { rflx.MustTypeAssert(v, zmRType[int]()) }) && zmPanics(func() { rflx.MustTypeAssert(v, zmRType[string]()) }))
}`, nil)
	lawCheck("T01", "Tuples return the values they are made of", "", 1, nil)
	lawCheck("X01", "Types are classified by their kind and pointers", "", 1, nil)
	lawCheck("X02", "Pointers and interfaces to values are followed safely", "", 1, nil)
}
