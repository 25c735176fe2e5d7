package main

import (
	"fmt"
	"strings"
)

// nmOf makes an identifier of a type.
func nmOf(t string) string {
	return strings.NewReplacer("*", "P", "[]", "S", "()", "", "[", "", "]", "", " ", "", ".", "", "{", "", "}", "").Replace(t)
}

func init() {
	imp("funcs", mod+"funcs")
	imp("tuple", mod+"tuple")
	decl(`// some of the values, in a slice that may be nil, or have more capacity than elements
func zmSome[T any](vs ...T) []T {
	if zzBool("nil slice") { return nil }
	n := 0
	for n < len(vs) && zzBool("longer") { n++ }
	if zzBool("spare capacity") { return vs[:n] }
	return vs[:n:n]
}
func zmCopy[T any](s []T) (r []T) {
	for _, v := range s { r = append(r, v) }
	return
}
func zmEqual[T any](label string, a, b []T) {
	zzAssert(label, len(a) == len(b))
	for i := 0; i < len(a) && i < len(b); i++ { zzAssertSame(label, a[i], b[i]) }
}`)
	both := func(s *lawRun) { s.mayNil, s.mayMiss = true, true }
	comparableLaw := map[string]bool{"SliceRemove": true, "SliceToMap": true, "SliceUniqueValues": true}
	for _, t := range []string{"int", "string", "*int", "any"} {
		nm := nmOf(t)
		law := func(prop, name, src string) {
			if t == "any" && comparableLaw[name] {
				return
			}
			addLaw(prop, name+nm, strings.ReplaceAll(strings.ReplaceAll(src, "NM", nm), "TYPE", t), both)
		}
		law("F01", "SliceIndex", `(a, b, c, d, d2, z TYPE, i int) {
	s := zmSome(a, b, c)
	orig := zmCopy(s)
	var def []TYPE
	var want TYPE
	if zzBool("default") {
		want = d
		def = append(def, d)
		if zzBool("second default") { def = append(def, d2) }
	}
	switch {
	case i >= 0 && i < len(s): want = s[i]
	case i < 0 && i >= -len(s): want = s[len(s)+i]
	}
	r := funcs.SliceIndex(s, i, def...)
	zzAssertSame("value", r, want)
	zmEqual("unchanged", s, orig)
}`)
		law("F01", "SliceAdd", `(a, b, c, v TYPE) {
	s := zmSome(a, b, c)
	want := append(zmCopy(s), v)
	funcs.SliceAdd(&s, v)
	zmEqual("added", s, want)
}`)
		law("F01", "SliceCopy", `(a, b, c, v TYPE) {
	s := zmSome(a, b, c)
	orig := zmCopy(s)
	r := funcs.SliceCopy(s)
	zmEqual("copied", r, orig)
	zzAssert("not nil", r != nil)
	for i := range r { r[i] = v }
	_ = append(r, v)
	zmEqual("independent", s, orig)
	for i := range s { s[i] = orig[0] }
	for i := range r { zzAssertSame("independent", r[i], v) }
}`)
		law("F01", "SliceOf", `(a, b, c TYPE) {
	s := zmSome(a, b, c)
	zmEqual("same", funcs.SliceOf(s...), zmCopy(s))
}`)
		law("F01", "SliceReverse", `(a, b, c, d, e TYPE) {
	s := zmSome(a, b, c, d, e)
	orig := zmCopy(s)
	r := funcs.SliceReverse(s)
	zzAssert("length", len(r) == len(orig) && len(s) == len(orig))
	for i := range orig {
		zzAssertSame("reversed", r[i], orig[len(orig)-1-i])
		zzAssertSame("in place", s[i], orig[len(orig)-1-i])
	}
}`)
		law("F01", "SliceRemove", `(a, b, c, v TYPE) {
	s := zmSome(a, b, c)
	orig := zmCopy(s)
	var want []TYPE
	var r []TYPE
	if zzBool("all") {
		for _, w := range orig { if w != v { want = append(want, w) } }
		r = funcs.SliceRemove(s, v, true)
	} else {
		done := false
		for _, w := range orig {
			if !done && w == v { done = true } else { want = append(want, w) }
		}
		if zzBool("false") { r = funcs.SliceRemove(s, v, false) } else { r = funcs.SliceRemove(s, v) }
	}
	zmEqual("removed", r, want)
	zmEqual("unchanged", s, orig)
}`)
		law("F01", "SliceToMap", `(a, b, c, v TYPE) {
	s := zmSome(a, b, c)
	m := funcs.SliceToMap(s)
	in := false
	for _, w := range s { if w == v { in = true } }
	x, ok := m[v]
	zzAssert("member", ok == in && x == in)
	zzAssert("not nil", m != nil)
}`)
		law("F01", "SliceToMapBy", `(a, b, c TYPE, ka, kb, kc, v int) {
	s := zmSome(a, b, c)
	ks := []int{ka, kb, kc}
	n := 0
	m := funcs.SliceToMapBy(s, func(x TYPE) int { zzAssertSame("in order", x, s[n]); n++; return ks[n-1] })
	in := false
	for i := range s { if ks[i] == v { in = true } }
	x, ok := m[v]
	zzAssert("member", ok == in && x == in)
	zzAssert("not nil", m != nil)
	zzAssert("each once", n == len(s))
}`)
		law("F01", "SliceUniqueValues", `(a, b, c, v TYPE) {
	s := zmSome(a, b, c)
	orig := zmCopy(s)
	r := funcs.SliceUniqueValues(s)
	in, n := false, 0
	for _, w := range s { if w == v { in = true } }
	for _, w := range r { if w == v { n++ } }
	zzAssert("once if in", in == (n == 1))
	zzAssert("never if not in", in == (n != 0))
	zmEqual("unchanged", s, orig)
}`)
		if t == "*int" {
			law("F01", "SliceRemoveUncomparable", `(a, b, c, v TYPE) {
	s := zmSome(a, b, c)
	orig := zmCopy(s)
	var want []TYPE
	var r []TYPE
	if zzBool("all") {
		for _, w := range orig { if w != v { want = append(want, w) } }
		r = funcs.SliceRemoveUncomparable(s, v, true)
	} else {
		done := false
		for _, w := range orig {
			if !done && w == v { done = true } else { want = append(want, w) }
		}
		if zzBool("false") { r = funcs.SliceRemoveUncomparable(s, v, false) } else { r = funcs.SliceRemoveUncomparable(s, v) }
	}
	zmEqual("removed", r, want)
	zmEqual("unchanged", s, orig)
}`)
		}
	}
	lawCheck("F01", "slice functions", "abstract evaluation of law functions over slices of symbolic values: the result of every slice function is the documented one and the argument is not modified unless documented", 30, nil)
	_ = fmt.Sprint
}
