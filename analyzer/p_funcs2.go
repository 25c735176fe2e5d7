package main

import (
	"fmt"
	"strings"
)

func init() {
	both := func(s *lawRun) { s.mayNil, s.mayMiss = true, true }
	gen := func(prop, name, src string, kv ...string) {
		nm := ""
		for i := 0; i < len(kv); i += 2 {
			nm += nmOf(kv[i+1])
		}
		for i := 0; i < len(kv); i += 2 {
			src = strings.ReplaceAll(src, kv[i], kv[i+1])
		}
		addLaw(prop, name+nm, strings.ReplaceAll(src, "NM", nm), both)
	}

	// ---- sorting
	imp("cmplx", "math/cmplx")
	decl(`type zmRanked struct { k, id int }
func (r zmRanked) Cmp(o zmRanked) int {
	if r.k < o.k { return -5 }
	if r.k > o.k { return 7 }
	return 0
}
// r consists of the elements of s, id by id
func zmPermuted(label string, r, s []zmRanked) {
	zzAssert(label, len(r) == len(s))
	for _, x := range s {
		n := 0
		for _, y := range r { if y.id == x.id { n++; zzAssert(label, y.k == x.k) } }
		zzAssert(label, n == 1)
	}
}
func zmCount[T comparable](s []T, v T) (n int) {
	for _, x := range s { if x == v { n++ } }
	return
}`)
	for _, t := range []string{"int", "string", "uint8"} {
		gen("F02", "SliceSortOrdered", `(a, b, c, v TYPE) {
	s := zmSome(a, b, c)
	orig := zmCopy(s)
	r := funcs.SliceSortOrdered(s)
	zmEqual("in place", r, s)
	for i := 1; i < len(r); i++ { zzAssert("sorted", r[i-1] <= r[i]) }
	zzAssert("permuted", zmCount(r, v) == zmCount(orig, v))
}`, "TYPE", t)
		gen("F02", "MapSortOrdered", `(a, b, c TYPE, va, vb, vc int) {
	zzAssume(a != b && b != c && a != c)
	ks, vs := []TYPE{a, b, c}, []int{va, vb, vc}
	var m map[TYPE]int
	if zzBool("map") { m = map[TYPE]int{} }
	n := 0
	for m != nil && n < 3 && zzBool("entry") { m[ks[n]] = vs[n]; n++ }
	r := funcs.MapSortOrdered(m)
	zzAssert("length", len(r) == n)
	for i := 1; i < len(r); i++ { zzAssert("sorted", r[i-1].T < r[i].T) }
	for i := 0; i < n; i++ {
		k := 0
		for _, x := range r { if x.T == ks[i] { k++; zzAssertSame("value", x.U, vs[i]) } }
		zzAssert("once", k == 1)
	}
}`, "TYPE", t)
	}
	addLaw("F02", "SliceSortBy", `(a, b, c, d int) {
	s := zmSome(zmRanked{a, 0}, zmRanked{b, 1}, zmRanked{c, 2}, zmRanked{d, 3})
	orig := zmCopy(s)
	var r []zmRanked
	if zzBool("descending") {
		r = funcs.SliceSortBy(s, func(x, y zmRanked) bool { return x.k > y.k })
		for i := 1; i < len(r); i++ { zzAssert("descending", r[i-1].k >= r[i].k) }
	} else {
		r = funcs.SliceSortBy(s, func(x, y zmRanked) bool { return x.k < y.k })
		for i := 1; i < len(r); i++ { zzAssert("ascending", r[i-1].k <= r[i].k) }
	}
	zmPermuted("permuted", r, orig)
	zmEqual("in place", r, s)
}`, both)
	addLaw("F02", "SliceSortCmp", `(a, b, c int) {
	s := zmSome(zmRanked{a, 0}, zmRanked{b, 1}, zmRanked{c, 2})
	orig := zmCopy(s)
	r := funcs.SliceSortCmp(s)
	for i := 1; i < len(r); i++ { zzAssert("sorted", r[i-1].k <= r[i].k) }
	zmPermuted("permuted", r, orig)
	zmEqual("in place", r, s)
}`, both)
	addLaw("F02", "SliceSortComplex", `(a, b, c, v complex128) {
	s := zmSome(a, b, c)
	zzAssume(cmplx.Abs(a) == cmplx.Abs(a) && cmplx.Abs(b) == cmplx.Abs(b) && cmplx.Abs(c) == cmplx.Abs(c))
	r := funcs.SliceSortComplex(s)
	zmEqual("in place", r, s)
	for i := 1; i < len(r); i++ { zzAssert("sorted", cmplx.Abs(r[i-1]) <= cmplx.Abs(r[i])) }
}`, both)
	addLaw("F02", "MapSortCmp", `(a, b, c, va, vb, vc int) {
	m := map[zmRanked]int{}
	m[zmRanked{a, 0}] = va
	m[zmRanked{b, 1}] = vb
	m[zmRanked{c, 2}] = vc
	r := funcs.MapSortCmp(m)
	zzAssert("length", len(r) == 3)
	var ks []zmRanked
	for i, x := range r {
		if i > 0 { zzAssert("sorted", r[i-1].T.k <= x.T.k) }
		ks = append(ks, x.T)
		zzAssertSame("value", x.U, []int{va, vb, vc}[x.T.id])
	}
	zmPermuted("permuted", ks, []zmRanked{{a, 0}, {b, 1}, {c, 2}})
}`, both)
	addLaw("F02", "MapSortBy", `(a, b, c, va, vb, vc int) {
	m := map[zmRanked]int{}
	m[zmRanked{a, 0}] = va
	m[zmRanked{b, 1}] = vb
	m[zmRanked{c, 2}] = vc
	r := funcs.MapSortBy(m, func(x, y zmRanked) bool { return x.k > y.k })
	zzAssert("length", len(r) == 3)
	var ks []zmRanked
	for i, x := range r {
		if i > 0 { zzAssert("descending", r[i-1].T.k >= x.T.k) }
		ks = append(ks, x.T)
		zzAssertSame("value", x.U, []int{va, vb, vc}[x.T.id])
	}
	zmPermuted("permuted", ks, []zmRanked{{a, 0}, {b, 1}, {c, 2}})
	zzAssert("empty", len(funcs.MapSortBy(map[int]int(nil), func(x, y int) bool { return x < y })) == 0)
}`, both)
	addLaw("F02", "MapSortComplex", `(a, b complex128, va, vb int) {
	zzAssume(a != b)
	zzAssume(cmplx.Abs(a) == cmplx.Abs(a) && cmplx.Abs(b) == cmplx.Abs(b))
	m := map[complex128]int{}
	m[a] = va
	m[b] = vb
	r := funcs.MapSortComplex(m)
	zzAssert("length", len(r) == 2)
	zzAssert("sorted", cmplx.Abs(r[0].T) <= cmplx.Abs(r[1].T))
	i, j := 0, 1
	if r[0].T != a { i, j = 1, 0 }
	zzAssert("keys", r[i].T == a && r[j].T == b)
	zzAssertSame("value", r[i].U, va)
	zzAssertSame("value", r[j].U, vb)
}`, both)
	lawCheck("F02", "sorting", "abstract evaluation of law functions over slices and maps of symbolic values: the result is ordered by the documented order and is a permutation of the input", 20, nil)

	// ---- ordered tuples
	for _, t := range []string{"int", "string"} {
		sorted := `	zzAssume(k0 < k1 && k1 < k2 && k2 < k3)
	ks := []TYPE{k0, k1, k2, k3}
	var m []tuple.Two[TYPE, VAL]
	n := 0
	for n < 4 && zzBool("entry") { m = append(m, tuple.Of2(ks[n], vs[n])); n++ }
`
		gen("F04", "Search", `(k0, k1, k2, k3, k TYPE, vs0, vs1, vs2, vs3 int) {
	vs := []int{vs0, vs1, vs2, vs3}
`+strings.ReplaceAll(sorted, "VAL", "int")+`	want, found := -1, false
	if n > 0 { want = 0 }
	for i := 0; i < n; i++ { if ks[i] <= k { want = i; found = ks[i] == k } }
	i, ok := funcs.OrderedTuple2Search(m, k)
	zzAssert("found", ok == found)
	zzAssert("index", i == want)
	for i := range m { zzAssertSame("unchanged", m[i].T, ks[i]); zzAssertSame("unchanged", m[i].U, vs[i]) }
}`, "TYPE", t)
		gen("F04", "Add", `(k0, k1, k2, k3, k TYPE, v int, vs0, vs1, vs2, vs3 int) {
	vs := [][]int{{vs0}, {vs1, vs2}, {vs2}, {vs3}}
`+strings.ReplaceAll(sorted, "VAL", "[]int")+`	funcs.OrderedTuple2SliceAdd(&m, k, v)
	found := false
	for i := 0; i < n; i++ { if ks[i] == k { found = true } }
	if found { zzAssert("count", len(m) == n) } else { zzAssert("count", len(m) == n+1) }
	for i := 1; i < len(m); i++ { zzAssert("ordered", m[i-1].T < m[i].T) }
	for _, e := range m {
		old := -1
		for j := 0; j < n; j++ { if ks[j] == e.T { old = j } }
		switch {
		case e.T == k && old >= 0: zmEqual("appended", e.U, append(zmCopy(vs[old]), v))
		case e.T == k: zmEqual("inserted", e.U, []int{v})
		default:
			zzAssert("known key", old >= 0)
			zmEqual("others", e.U, vs[old])
		}
	}
}`, "TYPE", t)
		gen("F04", "RemoveKey", `(k0, k1, k2, k3, k TYPE, vs0, vs1, vs2, vs3 int) {
	vs := []int{vs0, vs1, vs2, vs3}
`+strings.ReplaceAll(sorted, "VAL", "int")+`	funcs.OrderedTuple2SliceRemoveKey(&m, k)
	j := 0
	for i := 0; i < n; i++ {
		if ks[i] == k { continue }
		zzAssert("kept", j < len(m))
		zzAssertSame("kept key", m[j].T, ks[i])
		zzAssertSame("kept value", m[j].U, vs[i])
		j++
	}
	zzAssert("removed", j == len(m))
}`, "TYPE", t)
		gen("F04", "RemoveValue", `(k0, k1, k2, k3, k TYPE, v int, vs0, vs1, vs2, vs3 int) {
	vs := [][]int{{vs0}, {vs1, vs2, vs3}, {vs2}, {vs3}}
`+strings.ReplaceAll(sorted, "VAL", "[]int")+`	all := zzBool("all")
	if all { funcs.OrderedTuple2SliceRemoveValue(&m, k, v, funcs.ALL) } else { funcs.OrderedTuple2SliceRemoveValue(&m, k, v) }
	zzAssert("count", len(m) == n)
	for i, e := range m {
		zzAssertSame("key", e.T, ks[i])
		if ks[i] != k { zmEqual("others", e.U, vs[i]); continue }
		var want []int
		done := false
		for _, x := range vs[i] {
			if x == v && (all || !done) { done = true } else { want = append(want, x) }
		}
		zmEqual("removed", e.U, want)
	}
}`, "TYPE", t)
		gen("F04", "RemoveUncomparable", `(k0, k1, k2, k3, k TYPE, v *int, vs0, vs1, vs2, vs3 *int) {
	vs := [][]*int{{vs0}, {vs1, vs2, vs3}, {vs2}, {vs3}}
`+strings.ReplaceAll(sorted, "VAL", "[]*int")+`	all := zzBool("all")
	if all { funcs.OrderedTuple2SliceRemoveUncomparable(&m, k, v, funcs.ALL) } else { funcs.OrderedTuple2SliceRemoveUncomparable(&m, k, v) }
	zzAssert("count", len(m) == n)
	for i, e := range m {
		zzAssertSame("key", e.T, ks[i])
		if ks[i] != k { zmEqual("others", e.U, vs[i]); continue }
		var want []*int
		done := false
		for _, x := range vs[i] {
			if x == v && (all || !done) { done = true } else { want = append(want, x) }
		}
		zmEqual("removed", e.U, want)
	}
}`, "TYPE", t)
	}
	lawCheck("F04", "slices as sorted maps", "abstract evaluation of law functions over ordered tuple slices with symbolic keys", 20, nil)
	_ = fmt.Sprint
}
