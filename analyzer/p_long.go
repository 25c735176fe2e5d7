package main

import (
	"strings"

	"verif/analyzer/ai"
)

// Laws about inputs that are longer than those whose every form is analysed: the values are different, or unknown, but
// their number is given.

func addLong(prop, name, src string) {
	addLaw(prop, "Long"+name, src, long)
}

func long(s *lawRun) {
	s.x.TightAppend = true
	s.x.WidenAt = 200
	s.x.MaxSteps = 30000000
	s.x.MaxDepth = 400
	s.x.MaxRecur = 100
	s.mayMiss = true
	ai.MaxAge, ai.MaxWrites, ai.MaxTermDepth = 120, 200, 200
}

func init() {
	decl(`func zmRange(n int) (l []int) {
	for i := 0; i < n; i++ { l = append(l, zzInt()) }
	return
}
func zmDrain[T any](it iter.Iter[T]) (l []T, e error) {
	for i := 0; i < 200; i++ {
		v, err := it.Next()
		if err != nil { return l, err }
		l = append(l, v)
	}
	zzFail("too many values")
	return
}
`)
	// lengths that exceed common sizes of buffers and of special cases
	const lens = "[]int{5, 8, 9, 16, 17, 33, 65}"
	law := func(prop, name, src string) { addLong(prop, name, strings.ReplaceAll(src, "LENS", lens)) }
	decl(`func zmSeq(n int) (l []int) {
	for i := 0; i < n; i++ { l = append(l, i) }
	return
}
// zmMixed is a permutation of 0 to n-1, for n not a multiple of 37
func zmMixed(n int) (l []int) {
	for i := 0; i < n; i++ { l = append(l, (i*37+5)%n) }
	return
}
// zmThen gives the values, then the error
type zmThen struct { l []int; e error; n int }
func (s *zmThen) next() (int, error) {
	if s.n == len(s.l) { return 0, s.e }
	s.n++
	return s.l[s.n-1], nil
}
func zmList(label string, it iter.Iter[int], w []int) {
	l, err := zmDrain(it)
	zzAssert(label+" ends", err == iter.EOI)
	zmEqual(label, l, w)
}`)

	// ==== stream
	law("S01", "Map", `() {
	for _, n := range LENS {
		s := zmRange(n)
		r := zmRange(n)
		k := 0
		f := func(v int) int { zzAssertSame("each value in order", v, s[k]); k++; return r[k-1] }
		zmList("Map", stream.Map(f)(iter.OfSlice(s)), r)
		zzAssert("once", k == n)
		k = 0
		zmList("MapError", stream.MapError(func(v int) (int, error) { return f(v), nil })(iter.OfSlice(s)), r)
		zzAssert("once", k == n)
		k = 0
		zmList("Peek", stream.Peek(func(v int) { f(v) })(iter.OfSlice(s)), s)
		zzAssert("once", k == n)
		k = 0
		var w []int
		for i := range s { if i%3 == 0 { w = append(w, s[i]) } }
		zmList("Filter", stream.Filter(func(v int) bool { f(v); return (k-1)%3 == 0 })(iter.OfSlice(s)), w)
		zzAssert("once", k == n)
		k = 0
		l, err := zmDrain(stream.Filter(func(v int) bool { f(v); return false })(iter.OfSlice(s)))
		zzAssert("none", err == iter.EOI && len(l) == 0 && k == n)
	}
}`)
	law("S01", "Failure", `(e error) {
	zzAssume(e != iter.EOI)
	for _, n := range LENS {
		s := zmRange(n)
		it := stream.Map(func(v int) int { return v })(iter.OfIter((&zmThen{l: s, e: e}).next))
		l, err := zmDrain(it)
		zzAssert("the failure", err == e)
		zmEqual("values before the failure", l, s)
		_, err = it.Next()
		zzAssert("the failure again", err == e)
	}
}`)
	law("S01", "MapperEnds", `(a, b, c int) {
	n := 0
	it := stream.MapError(func(v int) (int, error) { n++; if n == 2 { return c, iter.EOI }; return v, nil })(iter.Of(a, b, c))
	v, err := it.Next()
	zzAssertSame("value", v, a)
	zzAssert("no error", err == nil)
	for i := 0; i < 3; i++ {
		v, err = it.Next()
		zzAssert("the end given by the mapper", v == 0 && err == iter.EOI && n == 2)
	}
}`)
	law("S02", "Reduce", `(a int, e error) {
	zzAssume(e != iter.EOI)
	for _, n := range LENS {
		s := zmRange(n)
		r := zmRange(n + 1)
		k, acc := 0, 0
		f := func(x, v int) int {
			zzAssertSame("the result so far", x, acc)
			zzAssertSame("the next value", v, s[k])
			k++
			acc = r[k]
			return acc
		}
		k, acc = 1, s[0]
		it := stream.Reduce(f)(iter.OfSlice(s))
		v, err := it.Next()
		zzAssert("every value", err == nil && k == n)
		zzAssertSame("Reduce", v, r[n])
		_, err = it.Next()
		zzAssert("one result", err == iter.EOI)
		k, acc = 0, a
		v, err = stream.Reduce(f, a)(iter.OfSlice(s)).Next()
		zzAssert("every value", err == nil && k == n)
		zzAssertSame("Reduce with identity", v, r[n])
		k, acc = 0, 0
		v, err = stream.ReduceTo(f)(iter.OfSlice(s)).Next()
		zzAssert("every value", err == nil && k == n)
		zzAssertSame("ReduceTo", v, r[n])
		k, acc = 0, a
		v, err = stream.ReduceTo(f, a)(iter.OfSlice(s)).Next()
		zzAssert("every value", err == nil && k == n)
		zzAssertSame("ReduceTo with identity", v, r[n])
		v, err = stream.Count(iter.OfSlice(s)).Next()
		zzAssert("Count", err == nil && v == n)
		v, err = stream.Count(iter.OfIter((&zmThen{l: s, e: e}).next)).Next()
		zzAssert("Count failure", err == e && v == 0)
		k, acc = 0, a
		v, err = stream.Reduce(f, a)(iter.OfIter((&zmThen{l: s, e: e}).next)).Next()
		zzAssert("Reduce failure", err == e && v == 0)
	}
}`)
	law("S03", "Match", `() {
	for _, n := range LENS {
		for _, at := range []int{0, 1, 4, n/2, n-1, n} {
			s := zmRange(n)
			for _, stop := range []bool{false, true} {
				src := &zmThen{l: s, e: iter.EOI}
				f := func(v int) bool { zzAssertSame("the value read", v, s[src.n-1]); return (src.n-1 == at) == stop }
				read := at + 1
				if at == n { read = n }
				check := func(label string, v bool, err error, want bool) {
					zzAssert(label, err == nil && v == want)
					zzAssert(label+" stops", src.n == read)
					src.n = 0
				}
				v, err := stream.ReduceToBool(f, zzBool("identity"), stop)(iter.OfIter(src.next)).Next()
				check("ReduceToBool", v, err, (at < n) == stop)
				if stop {
					v, err = stream.AnyMatch(f)(iter.OfIter(src.next)).Next()
					check("AnyMatch", v, err, at < n)
					v, err = stream.NoneMatch(f)(iter.OfIter(src.next)).Next()
					check("NoneMatch", v, err, at == n)
				} else {
					v, err = stream.AllMatch(f)(iter.OfIter(src.next)).Next()
					check("AllMatch", v, err, at == n)
				}
			}
		}
	}
}`)
	law("S04", "SkipLimit", `() {
	for _, n := range LENS {
		s := zmRange(n)
		for _, k := range []int{0, 1, 3, n/2, n-1, n, n+1, n+7} {
			m := k
			if m > n { m = n }
			zmList("Skip", stream.Skip[int](uint(k))(iter.OfSlice(s)), s[m:])
			src := &zmThen{l: s, e: iter.EOI}
			zmList("Limit", stream.Limit[int](uint(k))(iter.OfIter(src.next)), s[:m])
			zzAssert("Limit does not read ahead", src.n == m)
		}
	}
}`)
	law("S05", "Slices", `(e error) {
	zzAssume(e != iter.EOI)
	for _, n := range LENS {
		s := zmRange(n)
		it := stream.ReduceToSlice(iter.OfSlice(s))
		l, err := it.Next()
		zzAssert("ReduceToSlice", err == nil)
		zmEqual("ReduceToSlice", l, s)
		_, err = it.Next()
		zzAssert("one slice", err == iter.EOI)
		d := make([]int, n+2)
		l, err = stream.ReduceIntoSlice(d)(iter.OfSlice(s)).Next()
		zzAssert("ReduceIntoSlice", err == nil)
		zmEqual("ReduceIntoSlice", d[:n], s)
		zzAssert("the rest", d[n] == 0 && d[n+1] == 0)
		l, err = stream.ReduceToSlice(iter.OfIter((&zmThen{l: s, e: e}).next)).Next()
		zzAssert("failure", err == e && l == nil)
		zmList("ExpandSlices", stream.ExpandSlices(iter.Of(s[:3], nil, []int{}, s[3:4], nil, s[4:])), s)
		var one [][]int
		for i := range s { one = append(one, s[i:i+1]); if i%3 == 0 { one = append(one, nil) } }
		zmList("ExpandSlices of single values", stream.ExpandSlices(iter.OfSlice(one)), s)
	}
}`)
	law("S05", "Maps", `() {
	for _, n := range LENS {
		var ps []tuple.Two[int, int]
		s := zmRange(2*n)
		for i := 0; i < 2*n; i++ { ps = append(ps, tuple.Of2(i%n, s[i])) }
		m, err := stream.ReduceToMap(iter.OfSlice(ps)).Next()
		zzAssert("ReduceToMap", err == nil && len(m) == n)
		for i := 0; i < n; i++ { zzAssertSame("last value of the key", m[i], s[n+i]) }
	}
}`)
	law("S06", "Distinct", `() {
	for _, n := range []int{5, 9, 17, 33} {
		s := zmMixed(n)
		zmList("all different", stream.Distinct(iter.OfSlice(s)), s)
		zmList("no duplicates", stream.Duplicate(iter.OfSlice(s)), nil)
		t := append(append(append([]int{}, s...), s...), s...)
		zmList("Distinct", stream.Distinct(iter.OfSlice(t)), s)
		zmList("Duplicate", stream.Duplicate(iter.OfSlice(t)), s)
	}
}`)
	law("S07", "Order", `() {
	for _, n := range LENS {
		s := zmRange(n)
		var w []int
		for i := range s { w = append(w, s[n-1-i]) }
		zmList("Reverse", stream.Reverse(iter.OfSlice(s)), w)
		zmList("SortOrdered", stream.SortOrdered(iter.OfSlice(zmMixed(n))), zmSeq(n))
		zmList("SortBy", stream.SortBy(func(a, b int) bool { return a < b })(iter.OfSlice(zmMixed(n))), zmSeq(n))
	}
}`)
	law("S08", "Fold", `() {
	for _, n := range LENS {
		m := zmMixed(n)
		v, err := stream.Max(iter.OfSlice(m)).Next()
		zzAssert("Max", err == nil && v == n-1)
		v, err = stream.Min(iter.OfSlice(m)).Next()
		zzAssert("Min", err == nil && v == 0)
		v, err = stream.Sum(iter.OfSlice(m)).Next()
		zzAssert("Sum", err == nil && v == n*(n-1)/2)
		v, err = stream.AvgInt(iter.OfSlice(m)).Next()
		zzAssert("AvgInt", err == nil && (v*2 == n-1 || v*2 == n))
	}
}`)

	// ==== funcs
	law("F01", "Slices", `() {
	for _, n := range LENS {
		s := zmRange(n)
		o := zmCopy(s)
		c := funcs.SliceCopy(s)
		zmEqual("SliceCopy", c, o)
		c[n-1] = 0
		zmEqual("SliceCopy does not share", s, o)
		funcs.SliceReverse(c)
		for i := range s { if i > 0 { zzAssertSame("SliceReverse", c[i], o[n-1-i]) } }
		zzAssert("SliceReverse", c[0] == 0)
		var g []int
		for i := range s { funcs.SliceAdd(&g, s[i]); zzAssert("SliceAdd", len(g) == i+1) }
		zmEqual("SliceAdd", g, o)
		for i := range s { zzAssertSame("SliceIndex", funcs.SliceIndex(s, i), o[i]) }
	}
}`)
	law("F01", "Flatten", `() {
	for _, n := range []int{5, 9, 17} {
		s := zmRange(n)
		o := zmCopy(s)
		f := funcs.SliceFlatten[int]([][][]int{{s[:2], {}, s[2:3]}, nil, {s[3:]}})
		zmEqual("SliceFlatten", f, o)
		var rows [][]int
		for i := range s { rows = append(rows, s[i:i+1]) }
		zmEqual("SliceFlatten of rows", funcs.SliceFlatten[int](rows), o)
	}
}`)
	law("F01", "Compared", `() {
	for _, n := range []int{5, 9, 17} {
		m := zmMixed(n)
		mm := append(append([]int{}, m...), m...)
		sm := funcs.SliceToMap(mm)
		zzAssert("SliceToMap", len(sm) == n)
		for i := 0; i < n; i++ { zzAssert("SliceToMap", sm[i]) }
		for _, at := range []int{0, 1, n/2, n-1} {
			var w []int
			for i := range mm { if i != at { w = append(w, mm[i]) } }
			zmEqual("SliceRemove first", funcs.SliceRemove(zmCopy(mm), m[at]), w)
			w = nil
			for i := range mm { if i%n != at { w = append(w, mm[i]) } }
			zmEqual("SliceRemove all", funcs.SliceRemove(zmCopy(mm), m[at], funcs.ALL), w)
		}
	}
}`)
	law("F02", "Sort", `() {
	for _, n := range LENS {
		m := zmMixed(n)
		r := funcs.SliceSortOrdered(m)
		zmEqual("SliceSortOrdered", r, zmSeq(n))
		zmEqual("in place", m, zmSeq(n))
		zmEqual("SliceSortBy", funcs.SliceSortBy(zmMixed(n), func(a, b int) bool { return b < a }), funcs.SliceReverse(zmSeq(n)))
	}
}`)
	law("F03", "Maps", `(a int) {
	for _, n := range []int{5, 9, 17, 33} {
		s := zmRange(n)
		var m map[int]int
		var ms map[int][]int
		for i := range s {
			funcs.MapSet(&m, i, s[i])
			funcs.MapSliceAdd(&ms, i%3, s[i])
		}
		zzAssert("MapSet", len(m) == n && len(ms) == 3)
		for i := range s {
			zzAssertSame("MapIndex", funcs.MapIndex(m, i), s[i])
			zzAssertSame("MapSliceAdd", ms[i%3][i/3], s[i])
			zzAssert("MapTest", funcs.MapTest(m, i) && !funcs.MapTest(m, i + n))
		}
		funcs.MapUnset(m, n/2)
		zzAssert("MapUnset", len(m) == n-1 && !funcs.MapTest(m, n/2))
		for i := range s { if i != n/2 { zzAssertSame("other keys", m[i], s[i]) } }
	}
}`)
	law("F04", "Ordered", `(a int) {
	for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 33, 64, 65} {
		var mp []tuple.Two[int, []int]
		for i := 0; i < n; i++ { mp = append(mp, tuple.Of2(i*2, []int{i})) }
		for k := -1; k <= 2*n; k++ {
			i, ok := funcs.OrderedTuple2Search(mp, k)
			w := k / 2
			if k < 0 { w = 0 }
			if w > n-1 { w = n-1 }
			zzAssert("OrderedTuple2Search", i == w && ok == (k >= 0 && k%2 == 0 && k/2 < n))
		}
		if n > 9 && n != 17 { continue }
		for k := -1; k <= 2*n; k++ {
			c := append([]tuple.Two[int, []int]{}, mp...)
			funcs.OrderedTuple2SliceAdd(&c, k, a)
			j, hit := 0, false
			for _, t := range c {
				if t.T == k {
					hit = true
					zzAssertSame("the value added", t.U[len(t.U)-1], a)
					if k >= 0 && k%2 == 0 && k/2 < n { zzAssert("existing key", len(t.U) == 2 && t.U[0] == j); j++ } else { zzAssert("new key", len(t.U) == 1) }
					continue
				}
				zzAssert("other keys", t.T == j*2 && len(t.U) == 1 && t.U[0] == j)
				j++
			}
			zzAssert("all keys", hit && j == n)
			for i := 1; i < len(c); i++ { zzAssert("ascending", c[i-1].T < c[i].T) }
		}
	}
}`)
	law("F07", "Convert", `(b string) {
	for _, n := range LENS {
		s := zmRange(n)
		var l, ll []any
		for i := range s { l = append(l, s[i]) }
		r, err := funcs.ConvertToSlice[int]("m", l)
		zzAssert("ConvertToSlice", err == nil)
		zmEqual("ConvertToSlice", r, s)
		for i := range s { ll = append(ll, []any{s[i], i}) }
		rr, err := funcs.ConvertToSlice2[int]("m", ll)
		zzAssert("ConvertToSlice2", err == nil && len(rr) == n)
		for i := range s { zzAssert("ConvertToSlice2", len(rr[i]) == 2 && rr[i][1] == i); zzAssertSame("ConvertToSlice2", rr[i][0], s[i]) }
		for _, at := range []int{0, n/2, n-1} {
			l[at] = b
			r, err = funcs.ConvertToSlice[int]("m", l)
			zzAssert("ConvertToSlice rejects", err != nil && r == nil)
			l[at] = s[at]
			ll[at] = []any{1, b}
			rr, err = funcs.ConvertToSlice2[int]("m", ll)
			zzAssert("ConvertToSlice2 rejects", err != nil && rr == nil)
			ll[at] = []any{1, 2}
		}
	}
}`)

	// ==== iter
	law("I01", "Unread", `(e error) {
	for _, n := range LENS {
		s, u := zmRange(n), zmRange(n)
		src := &zmThen{l: s, e: e}
		it := iter.OfIter(src.next)
		for i := range u { it.Unread(u[i]) }
		for i := range u { v, err := it.Next(); zzAssert("unread", err == nil); zzAssertSame("last unread first", v, u[n-1-i]) }
		zzAssert("not read yet", src.n == 0)
		for i := range s {
			v, err := it.Next()
			zzAssert("read", err == nil)
			zzAssertSame("in order", v, s[i])
			it.Unread(v)
			v, err = it.Next()
			zzAssert("read again", err == nil)
			zzAssertSame("the same again", v, s[i])
		}
		_, err := it.Next()
		zzAssert("then the end", err == e)
	}
}`)
	law("I02", "Values", `(a int) {
	for _, n := range LENS {
		s := zmRange(n)
		zmList("OfSlice", iter.OfSlice(s), s)
		zmList("Of", iter.Of(s...), s)
		var its []iter.Iter[int]
		for i := range s { its = append(its, iter.OfOne(s[i])); if i%4 == 0 { its = append(its, nil, iter.OfEmpty[int]()) } }
		zmList("Concat", iter.Concat(its...), s)
		l, err := zmDrain(iter.Concat(iter.OfSlice(s), iter.OfSlice(s)))
		zzAssert("Concat", err == iter.EOI && len(l) == 2*n)
		k := 0
		r := zmRange(n)
		it := iter.OfIter(iter.InfiniteIterGen(func(v int) int { if k == 0 { zzAssertSame("last initial", v, s[n-1]) } else { zzAssertSame("previous", v, r[k-1]) }; k++; return r[k-1] }, s...))
		for i := 0; i < n-1; i++ { v, err := it.Next(); zzAssert("no error", err == nil); zzAssertSame("initial values", v, s[i]) }
		for i := 0; i < n; i++ { v, err := it.Next(); zzAssert("no error", err == nil); zzAssertSame("then results", v, r[i]) }
	}
}`)
}
