package main

import (
	"fmt"
	"strings"
)

func init() {
	imp("iter", mod+"iter")
	imp("tuple", mod+"tuple")
	for _, t := range []string{"int", "*int", "any"} {
		nm := strings.NewReplacer("*", "P").Replace(t)
		// An iterating function that yields values, then the end or an error together with an arbitrary value, and
		// must not be called again.
		decl(strings.ReplaceAll(strings.ReplaceAll(`type zmSrcNM struct { vals []TYPE; junk TYPE; e error; n int; dead bool; last error; bound int }
func (s *zmSrcNM) next() (TYPE, error) {
	zzAssert("not called after the end", !s.dead)
	if s.n == s.bound || zzBool("source ends") {
		s.dead = true
		s.last = iter.EOI
		if zzBool("source fails") { s.last = s.e }
		return s.junk, s.last
	}
	s.n++
	return s.vals[s.n-1], nil
}`, "NM", nm), "TYPE", t))
		sub := func(s string) string { return strings.ReplaceAll(strings.ReplaceAll(s, "NM", nm), "TYPE", t) }
		opt := func(s *lawRun) { s.mayNil = false; s.mayMiss = true }
		addLaw("I01", "Protocol"+nm, sub(`(v0, v1, v2, v3, u0, u1, u2, junk TYPE, e error) {
	s := &zmSrcNM{vals: []TYPE{v0, v1, v2, v3}, junk: junk, e: e, bound: 4}
	us := []TYPE{u0, u1, u2}
	it := iter.OfIter(s.next)
	var back []TYPE // unread values
	un := 0
	for i := 0; i < 6; i++ {
		if un < 3 && zzBool("unread") {
			it.Unread(us[un])
			back = append(back, us[un])
			un++
			continue
		}
		n := s.n
		v, err := it.Next()
		var z TYPE
		switch {
		case len(back) > 0:
			zzAssert("unread error", err == nil)
			zzAssertSame("unread value", v, back[len(back)-1])
			zzAssert("unread does not read", s.n == n)
			back = back[:len(back)-1]
		case s.dead:
			zzAssertSame("end error", err, s.last)
			zzAssertSame("end value", v, z)
		default:
			zzAssert("value error", err == nil)
			zzAssert("one call", s.n == n+1)
			zzAssertSame("value", v, s.vals[n])
		}
	}
}`), nil)
		addLaw("I01", "NilFunc"+nm, sub(`() { zzAssert("nil function panics", zmPanics(func() { iter.OfIter[TYPE](nil) })) }`), nil)
		addLaw("I01", "Lazy"+nm, sub(`(e error) {
	it := iter.OfIter(func() (v TYPE, err error) { zzFail("reads when made"); return })
	_ = iter.SetError(it, e)
	zzReach("made")
}`), opt)
		addLaw("I01", "Maybe"+nm, sub(`(v0, v1, junk TYPE, e error) {
	s := &zmSrcNM{vals: []TYPE{v0, v1}, junk: junk, e: e, bound: 2}
	it := iter.OfIter(s.next)
	for i := 0; i < 4; i++ {
		n := s.n
		r := iter.Maybe(it)
		if s.dead {
			var z TYPE
			zzAssert("has error", r.HasError() && !r.HasResult())
			zzAssertSame("error", r.Error(), s.last)
			zzAssertSame("no value", r.Get(), z)
		} else {
			zzAssert("has value", r.HasResult() && !r.HasError())
			zzAssertSame("result", r.Get(), s.vals[n])
		}
	}
}`), nil)
		addLaw("I01", "SetError"+nm, sub(`(v0, v1, u, junk TYPE, e, e2 error) {
	s := &zmSrcNM{vals: []TYPE{v0, v1}, junk: junk, e: e, bound: 2}
	it := iter.OfIter(s.next)
	st := iter.SetError(it, e2)
	for i := 0; i < 4; i++ {
		n := s.n
		v, err := st.Next()
		if s.dead {
			var z TYPE
			zzAssertSame("set error", err, e2)
			zzAssertSame("set zero", v, z)
		} else {
			zzAssert("set no error", err == nil)
			zzAssertSame("set value", v, s.vals[n])
		}
	}
	st.Unread(u)
	v, err := st.Next()
	zzAssertSame("unread after the end", v, u)
	zzAssert("unread after the end", err == nil)
	_, err = st.Next()
	zzAssertSame("ended again", err, e2)
}`), nil)

		// constructors
		drain := func(want ...string) string {
			var b strings.Builder
			b.WriteString("\tvar z TYPE\n\t_ = z\n")
			for i, w := range want {
				fmt.Fprintf(&b, "\tx%d, e%d := it.Next()\n\tzzAssertSame(\"value\", x%d, %s)\n\tzzAssert(\"no error\", e%d == nil)\n", i, i, i, w, i)
			}
			b.WriteString("\tfor i := 0; i < 3; i++ {\n\t\tx, err := it.Next()\n\t\tzzAssertSame(\"end value\", x, z)\n\t\tzzAssert(\"end\", err == iter.EOI)\n\t}\n")
			return b.String()
		}
		some := func(s *lawRun) { s.mayNil = true; s.mayMiss = true }
		for n := 0; n <= 4; n++ {
			var vs []string
			for i := 0; i < n; i++ {
				vs = append(vs, fmt.Sprintf("a%d", i))
			}
			l := strings.Join(vs, ", ")
			ps := l
			if n > 0 {
				ps += " TYPE"
			}
			addLaw("I02", fmt.Sprintf("Of%d%s", n, nm), sub("("+ps+") {\n\tit := iter.Of[TYPE]("+l+")\n"+drain(vs...)+"}"), some)
			addLaw("I02", fmt.Sprintf("OfSlice%d%s", n, nm), sub("("+ps+") {\n\tit := iter.OfSlice([]TYPE{"+l+"})\n"+drain(vs...)+"}"), some)
		}
		addLaw("I02", "OfNilSlice"+nm, sub("() {\n\tit := iter.OfSlice[TYPE](nil)\n"+drain()+"}"), some)
		addLaw("I02", "OfEmpty"+nm, sub("() {\n\tit := iter.OfEmpty[TYPE]()\n"+drain()+"}"), some)
		addLaw("I02", "OfOne"+nm, sub("(a TYPE) {\n\tit := iter.OfOne(a)\n"+drain("a")+"}"), some)
		addLaw("I02", "OfSliceAny"+nm, sub(`(items []TYPE) {
	it := iter.OfSlice(items)
	for i := 0; i < len(items); i++ {
		v, err := it.Next()
		zzAssert("every value", err == nil)
		zzAssertSame("every value", v, items[i])
	}
	_, err := it.Next()
	zzAssert("end of all", err == iter.EOI)
}`), func(s *lawRun) { s.x.WidenAt = 4; s.mayNil = true })
		// Concat of up to three sources, any of them nil, and failures
		addLaw("I02", "Concat"+nm, sub(`(a, b, c, junk TYPE, e error) {
	zzAssume(e != nil && e != iter.EOI)
	mk := func(v TYPE) *zmSrcNM { return &zmSrcNM{vals: []TYPE{v}, junk: junk, e: e, bound: 1} }
	ss := []*zmSrcNM{mk(a), mk(b), mk(c)}
	vs := []TYPE{a, b, c}
	var its []iter.Iter[TYPE]
	var nils []bool
	n := 0
	for n < 3 && zzBool("source") {
		if zzBool("nil source") {
			its = append(its, nil)
			nils = append(nils, true)
		} else {
			its = append(its, iter.OfIter(ss[n].next))
			nils = append(nils, false)
		}
		n++
	}
	it := iter.Concat(its...)
	var z TYPE
	var failed error
	k := 0 // next value
	for i := 0; i < 5; i++ {
		before := 0
		for _, s := range ss { before += s.n }
		v, err := it.Next()
		after := 0
		for _, s := range ss { after += s.n }
		if failed != nil {
			zzAssertSame("concat repeats the error", err, failed)
			zzAssertSame("concat zero", v, z)
			zzAssert("concat reads nothing after the error", after == before)
			continue
		}
		if err != nil {
			failed = err
			zzAssertSame("concat zero", v, z)
			// all sources up to the failed one are used up
			for k = 0; k < n && (nils[k] || ss[k].dead && ss[k].last == iter.EOI); k++ {}
			if k == n {
				zzAssert("concat end", err == iter.EOI)
			} else {
				zzAssert("concat error comes from the source", ss[k].dead)
				zzAssertSame("concat error", err, ss[k].last)
			}
			continue
		}
		zzAssert("concat reads one", after == before+1)
		for ; nils[k] || ss[k].n == 0 && ss[k].dead; k++ {}
		zzAssertSame("concat value", v, vs[k])
		zzAssert("concat in order", ss[k].n == 1)
		k++
	}
}`), some)
		// infinite series
		for n := 0; n <= 3; n++ {
			var vs []string
			for i := 0; i < n; i++ {
				vs = append(vs, fmt.Sprintf("a%d", i))
			}
			l := strings.Join(vs, ", ")
			ps := ""
			if n > 0 {
				ps = l + ", "
			}
			var b strings.Builder
			for i := 0; i+1 < n; i++ {
				fmt.Fprintf(&b, "\tv%d, e%d := it.Next()\n\tzzAssertSame(\"literal\", v%d, a%d)\n\tzzAssert(\"no error\", e%d == nil)\n\tzzAssert(\"function not called\", calls == 0)\n", i, i, i, i, i)
			}
			seed := "z"
			if n > 0 {
				seed = fmt.Sprintf("a%d", n-1)
			}
			addLaw("I02", fmt.Sprintf("Infinite%d%s", n, nm), sub("("+ps+`r0, r1, r2 TYPE) {
	var z TYPE
	_ = z
	calls := 0
	rs := []TYPE{r0, r1, r2}
	arg := `+seed+`
	it := iter.OfIter(iter.InfiniteIterGen(func(v TYPE) TYPE {
		zzAssertSame("argument", v, arg)
		arg = rs[calls]
		calls++
		return arg
	}`+strings.TrimSuffix(", "+l, ", ")+`))
	zzAssert("lazy", calls == 0)
`+b.String()+`	for i := 0; i < 3; i++ {
		v, err := it.Next()
		zzAssertSame("generated", v, rs[i])
		zzAssert("no error", err == nil)
		zzAssert("one call each", calls == i+1)
	}
}`), some)
		}
		addLaw("I02", "OfMap"+nm, sub(`(k0, k1 string, a, b TYPE) {
	zzAssume(k0 != k1)
	it := iter.OfMap(map[string]TYPE{k0: a, k1: b})
	p, err := it.Next()
	zzAssert("map value", err == nil)
	q, err2 := it.Next()
	zzAssert("map value", err2 == nil)
	zzAssert("map keys", p.T == k0 && q.T == k1 || p.T == k1 && q.T == k0)
	if p.T == k0 {
		zzAssertSame("map value 0", p.U, a)
		zzAssertSame("map value 1", q.U, b)
	} else {
		zzAssertSame("map value 1", p.U, b)
		zzAssertSame("map value 0", q.U, a)
	}
	for i := 0; i < 2; i++ {
		r, err := it.Next()
		zzAssert("map end", err == iter.EOI)
		zzAssert("map end", r.T == "")
	}
}`), some)
		addLaw("I02", "OfEmptyMap"+nm, sub("(m map[string]TYPE) {\n\tfor _, it := range []iter.Iter[tuple.Two[string, TYPE]]{iter.OfMap(map[string]TYPE{}), iter.OfMap(map[string]TYPE(nil))} {\n\t\tfor i := 0; i < 2; i++ {\n\t\t\tr, err := it.Next()\n\t\t\tzzAssert(\"empty map\", err == iter.EOI && r.T == \"\")\n\t\t}\n\t}\n}"), some)
	}
	// every kind of key and value, nil and not
	for i, t := range []string{"chan int", "map[string]int", "[]int", "func()", "*string", "error", "bool", "zmPair", "[2]int", "float64", "uint8"} {
		addLaw("I02", fmt.Sprint("OfMapKind", i), strings.ReplaceAll(`(k string, a KIND) {
	for _, v := range []KIND{a, zmZero[KIND]()} {
		it := iter.OfMap(map[string]KIND{k: v})
		p, err := it.Next()
		zzAssert("map value", err == nil && p.T == k)
		zzAssertSame("map value", p.U, v)
		p, err = it.Next()
		zzAssert("map end", err == iter.EOI && p.T == "")
	}
}`, "KIND", t), func(s *lawRun) { s.mayNil = true })
	}
	for i, t := range []string{"chan int", "*string", "bool", "zmPair", "[2]int", "uint8"} {
		addLaw("I02", fmt.Sprint("OfMapKeyKind", i), strings.ReplaceAll(`(a KIND, v string) {
	for _, k := range []KIND{a, zmZero[KIND]()} {
		it := iter.OfMap(map[KIND]string{k: v})
		p, err := it.Next()
		zzAssert("map value", err == nil && p.U == v)
		zzAssertSame("map key", p.T, k)
		p, err = it.Next()
		zzAssert("map end", err == iter.EOI && p.U == "")
	}
}`, "KIND", t), func(s *lawRun) { s.mayNil = true })
	}
	decl("func zmZero[T any]() (z T) { return }")
	addLaw("I02", "Fibonacci", `() {
	it := iter.OfIter(iter.FibonnaciIterGen())
	for _, w := range []int{1, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144} {
		v, err := it.Next()
		zzAssert("fibonacci", v == w && err == nil)
	}
}`, nil)
	addLaw("I02", "OfStringAsRunes", `() {
	it := iter.OfStringAsRunes("aé\u4e16\U0001F600")
	for _, w := range []rune{'a', 0xe9, 0x4e16, 0x1f600} {
		v, err := it.Next()
		zzAssert("rune", v == w && err == nil)
	}
	for i := 0; i < 2; i++ {
		v, err := it.Next()
		zzAssert("end", v == 0 && err == iter.EOI)
	}
}`, nil)
	lawCheck("I01", "iterator protocol", "abstract evaluation of law functions: every history of up to six Next and Unread calls over a source that yields up to four values and then ends or fails", 60, nil)
	lawCheck("I02", "iterator constructors", "abstract evaluation of law functions over symbolic values: the values of every constructor, in order, then the end forever", 60, nil)
	readerLaws()
}

func readerLaws() {
	imp("csv", "encoding/csv")
	// A reader that delivers its data in arbitrary portions, empty ones included, and its final error together with
	// the last portion or alone, and then again and again.
	decl(`type zmReader struct { data []byte; i int; e error; zeros int; dead bool }
func (r *zmReader) Read(p []byte) (int, error) {
	if len(p) == 0 { return 0, nil }
	if r.dead { return 0, r.e }
	if r.zeros > 0 && zzBool("empty read") { r.zeros--; return 0, nil }
	n := 0
	for n < len(p) && r.i < len(r.data) && (n == 0 || zzBool("more in this read")) {
		p[n] = r.data[r.i]
		n++
		r.i++
	}
	if r.i == len(r.data) && (n == 0 || zzBool("error with the data")) {
		r.dead = true
		return n, r.e
	}
	return n, nil
}
type zmCloser struct { zmReader; closed int; ce error }
func (r *zmCloser) Close() error { r.closed++; return r.ce }
func zmEnd(e error) (r, w error) {
	if zzBool("ends") { return io.EOF, iter.EOI }
	zzAssume(e != io.EOF && e != iter.EOI && e != io.ErrUnexpectedEOF)
	return e, e
}
// a reader without short or empty reads
type zmPlain struct { data []byte; i int; e error }
func (r *zmPlain) Read(p []byte) (int, error) {
	if len(p) == 0 { return 0, nil }
	if r.i == len(r.data) { return 0, r.e }
	n := 0
	for ; n < len(p) && r.i < len(r.data); n++ { p[n] = r.data[r.i]; r.i++ }
	return n, nil
}`)
	for n := 0; n <= 3; n++ {
		addLaw("I03", fmt.Sprintf("Bytes%d", n), fmt.Sprintf(`(e error) {
	re, we := zmEnd(e)
	r := &zmReader{data: []byte{zzByte(), zzByte(), zzByte()}[:%d], e: re, zeros: 1}
	it := iter.OfReader(r)
	zzAssert("lazy", r.i == 0 && !r.dead)
	for _, w := range r.data {
		v, err := it.Next()
		zzAssert("byte", err == nil && v == w)
	}
	for i := 0; i < 3; i++ {
		v, err := it.Next()
		zzAssert("no byte after the end", v == 0)
		zzAssert("end", err == we)
	}
}`, n), func(s *lawRun) { s.mayMiss, s.x.MaxSteps = true, 30000000 })
		addLaw("I03", fmt.Sprintf("Closer%d", n), fmt.Sprintf(`(e, ce error) {
	zzAssume(ce != iter.EOI)
	r := &zmCloser{zmReader: zmReader{data: []byte{zzByte(), zzByte(), zzByte()}[:%d], e: io.EOF}, ce: ce}
	it := iter.OfReader(r)
	for _, w := range r.data {
		zzAssert("not closed early", r.closed == 0)
		v, err := it.Next()
		zzAssert("byte", err == nil && v == w)
	}
	for i := 0; i < 3; i++ {
		_, err := it.Next()
		zzAssert("closed once", r.closed == 1)
		if ce == nil {
			zzAssert("end", err == iter.EOI)
		} else {
			zzAssertSame("failure to close", err, ce)
		}
	}
}`, n), func(s *lawRun) { s.mayMiss, s.mayNil = true, true })
	}
	addLaw("I03", "NilReaders", `() {
	for i := 0; i < 2; i++ {
		b, err := iter.OfReader(nil).Next()
		zzAssert("no bytes", b == 0 && err == iter.EOI)
		r, err := iter.OfReaderAsRunes(nil).Next()
		zzAssert("no runes", r == 0 && err == iter.EOI)
		s, err := iter.OfReaderAsLines(nil).Next()
		zzAssert("no lines", s == "" && err == iter.EOI)
		c, err := iter.OfCSV(nil).Next()
		zzAssert("no records", c == nil && err == iter.EOI)
	}
}`, nil)
	// UTF-8: classes of encodings by bit pattern
	const cb = "10xxxxxx"
	valid := [][]string{{"0xxxxxxx"},
		{"1101xxxx", cb}, {"11001xxx", cb}, {"110001xx", cb}, {"1100001x", cb},
		{"11100000", "101xxxxx", cb}, {"11100001", cb, cb}, {"1110001x", cb, cb}, {"111001xx", cb, cb}, {"111010xx", cb, cb},
		{"11101100", cb, cb}, {"11101101", "100xxxxx", cb}, {"1110111x", cb, cb},
		{"11110000", "1001xxxx", cb, cb}, {"11110000", "101xxxxx", cb, cb}, {"11110001", cb, cb, cb}, {"1111001x", cb, cb, cb},
		{"11110100", "1000xxxx", cb, cb}}
	invalid := [][]string{{cb}, {"11111xxx"}, {"1100000x", cb}, {"11100000", "100xxxxx", cb}, {"11101101", "101xxxxx", cb},
		{"11110000", "1000xxxx", cb, cb}, {"11110100", "1001xxxx", cb, cb}, {"11110100", "101xxxxx", cb, cb},
		{"11110101", cb, cb, cb}, {"1111011x", cb, cb, cb}}
	for n, p := range map[int]string{2: "110xxxxx", 3: "1110xxxx", 4: "11110xxx"} {
		for i := 1; i < n; i++ {
			for _, bad := range []string{"0xxxxxxx", "11xxxxxx"} {
				l := []string{p}
				for j := 1; j < n; j++ {
					if j == i {
						l = append(l, bad)
					} else {
						l = append(l, cb)
					}
				}
				invalid = append(invalid, l)
			}
		}
	}
	name := func(l []string) string { return strings.Join(l, "_") }
	data := func(l []string) string {
		var b []string
		for _, p := range l {
			b = append(b, fmt.Sprintf("zzBits(%q)", p))
		}
		return strings.Join(b, ", ")
	}
	for _, l := range valid {
		want := []string{"rune(b[0])", "rune(b[0]&0x1F)<<6 | rune(b[1]&0x3F)", "rune(b[0]&0x0F)<<12 | rune(b[1]&0x3F)<<6 | rune(b[2]&0x3F)",
			"rune(b[0]&0x07)<<18 | rune(b[1]&0x3F)<<12 | rune(b[2]&0x3F)<<6 | rune(b[3]&0x3F)"}[len(l)-1]
		addLaw("I03", "Rune"+name(l), fmt.Sprintf(`(e error) {
	re, we := zmEnd(e)
	b := []byte{%s}
	next := zzBits("0xxxxxxx")
	it := iter.OfReaderAsRunes(&zmReader{data: append(append([]byte{}, b...), next), e: re, zeros: 1})
	v, err := it.Next()
	zzAssert("decoded", err == nil)
	zzAssert("code point", v == %s)
	v, err = it.Next()
	zzAssert("next", err == nil && v == rune(next))
	for i := 0; i < 2; i++ {
		v, err = it.Next()
		zzAssert("end", err == we && v == 0)
	}
}`, data(l), want), nil)
		if len(l) > 1 {
			addLaw("I03", "Truncated"+name(l), fmt.Sprintf(`(e error) {
	re, we := zmEnd(e)
	if re == io.EOF { we = iter.InvalidUTF8EncodingError }
	b := []byte{%s}
	for n := 1; n < len(b); n++ {
		it := iter.OfReaderAsRunes(&zmReader{data: b[:n:n], e: re})
		for i := 0; i < 2; i++ {
			v, err := it.Next()
			zzAssert("truncated", err == we && v == 0)
		}
	}
}`, data(l)), nil)
		}
	}
	for _, l := range invalid {
		addLaw("I03", "Invalid"+name(l), fmt.Sprintf(`() {
	it := iter.OfReaderAsRunes(&zmReader{data: []byte{%s, 'A', 'B', 'C'}, e: io.EOF})
	for i := 0; i < 3; i++ {
		v, err := it.Next()
		zzAssert("invalid", err == iter.InvalidUTF8EncodingError && v == 0)
	}
}`, data(l)), nil)
	}
	addLaw("I03", "StringRunes", `() {
	it := iter.OfIter(iter.StringAsRunesIterGen("a\u00e9\u4e16\U0001F600\xff"))
	for _, w := range []rune{'a', 0xe9, 0x4e16, 0x1f600} {
		v, err := it.Next()
		zzAssert("rune", v == w && err == nil)
	}
	v, err := it.Next()
	zzAssert("invalid", v == 0 && err == iter.InvalidUTF8EncodingError)
}`, nil)

	// lines
	for n := 0; n <= 5; n++ {
		addLaw("I04", fmt.Sprintf("Lines%d", n), fmt.Sprintf(`(e error) {
	re, we := zmEnd(e)
	var data []byte
	var want []string
	cur, cr := "", false
	for i := 0; i < %d; i++ {
		switch {
		case zzBool("CR"):
			data = append(data, '\r')
			want = append(want, cur)
			cur, cr = "", true
		case zzBool("LF"):
			data = append(data, '\n')
			if !cr {
				want = append(want, cur)
			}
			cur, cr = "", false
		default:
			b := byte('a' + i)
			data = append(data, b)
			cur += string(rune(b))
			cr = false
		}
	}
	if cur != "" && re == io.EOF {
		want = append(want, cur)
	}
	it := iter.OfReaderAsLines(&zmPlain{data: data, e: re})
	for _, w := range want {
		v, err := it.Next()
		zzAssert("line", err == nil && v == w)
	}
	for i := 0; i < 2; i++ {
		v, err := it.Next()
		zzAssert("end", err == we && v == "")
	}
	if re == io.EOF {
		it = iter.OfStringAsLines(string(data))
		for _, w := range want {
			v, err := it.Next()
			zzAssert("string line", err == nil && v == w)
		}
		_, err := it.Next()
		zzAssert("string end", err == iter.EOI)
	}
}`, n), func(s *lawRun) { s.mayMiss = true; s.x.MaxSteps = 30000000 })
	}
	addLaw("I04", "AnyLine", `(e error) {
	re, _ := zmEnd(e)
	a, b, c := zzBits("0xxxxxxx"), zzBits("0xxxxxxx"), zzBits("0xxxxxxx")
	zzAssume(a != 10 && a != 13 && b != 10 && b != 13 && c != 10 && c != 13)
	u0, u1 := zzBits("1101xxxx"), zzBits("10xxxxxx")
	eol := byte('\r')
	if zzBool("LF") { eol = '\n' }
	it := iter.OfReaderAsLines(&zmPlain{data: []byte{a, b, eol, u0, u1, eol, c, eol}, e: re})
	v, err := it.Next()
	zzAssert("first", err == nil && v == string([]rune{rune(a), rune(b)}))
	v, err = it.Next()
	zzAssert("second", err == nil && v == string(rune(u0&0x1F)<<6 | rune(u1&0x3F)))
	v, err = it.Next()
	zzAssert("third", err == nil && v == string(rune(c)))
}`, nil)
	addLaw("I04", "InvalidLine", `() {
	it := iter.OfReaderAsLines(&zmPlain{data: []byte{'a', '\n', 'b', 0xFF, '\n', 'c'}, e: io.EOF})
	v, err := it.Next()
	zzAssert("before", err == nil && v == "a")
	for i := 0; i < 2; i++ {
		v, err = it.Next()
		zzAssert("invalid", err == iter.InvalidUTF8EncodingError && v == "")
	}
}`, nil)
	// CSV
	decl(`var zmCSVRecords [][]string
var zmCSVErr error
var zmCSVNext int
var zmCSVPart []string
var zmCSVSrc io.Reader`)
	goModel(`func zmNewCSV(r io.Reader) *csv.Reader { zmCSVSrc = r; return &csv.Reader{Comma: ','} }`, "zmNewCSV", "encoding/csv.NewReader")
	goModel(`func zmCSVRead(r *csv.Reader) ([]string, error) {
	zzAssert("csv options", r.Comma == ',' && r.Comment == 0 && r.FieldsPerRecord == 0 && !r.LazyQuotes && !r.TrimLeadingSpace)
	if zmCSVNext == len(zmCSVRecords) || zzBool("csv ends") {
		if zmCSVErr == io.EOF { return nil, io.EOF }
		return zmCSVPart, zmCSVErr
	}
	zmCSVNext++
	return zmCSVRecords[zmCSVNext-1], nil
}`, "zmCSVRead", "(*encoding/csv.Reader).Read")
	addLaw("I04", "CSV", `(a, b, part []string, e error) {
	re, we := zmEnd(e)
	zmCSVRecords, zmCSVErr, zmCSVNext, zmCSVPart = [][]string{a, b}, re, 0, part
	src := &zmPlain{}
	it := iter.OfCSV(src)
	zzAssert("csv lazy", zmCSVNext == 0)
	ended := false
	for i := 0; i < 4; i++ {
		n := zmCSVNext
		v, err := it.Next()
		if !ended && zmCSVNext == n+1 {
			zzAssertSame("record", v, zmCSVRecords[n])
			zzAssert("record", err == nil)
		} else {
			ended = true
			zzAssert("csv end", v == nil && err == we && zmCSVNext == n)
		}
	}
	zzAssertSame("csv source", zmCSVSrc, src)
}`, nil)
	lawCheck("I03", "bytes and runes of readers", "abstract evaluation of law functions: readers with arbitrary portions and final errors, every class of UTF-8 encodings by bit pattern with symbolic payload bits", 60, nil)
	lawCheck("I04", "lines and CSV records", "abstract evaluation of law functions: every sequence of up to five characters, line feeds and carriage returns, and every history of a CSV reader", 20, nil)
}
