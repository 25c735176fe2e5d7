package main

import (
	"fmt"

	"verif/analyzer/ai"
)

func init() {
	text := func(s *lawRun) {
		long(s)
		s.x.MaxSteps = 60000000
		ai.Bytewise = true
	}
	law := func(prop, name, src string) { addLaw(prop, "Long"+name, src, text) }
	decl(`func zmTimes(s string, n int) (r string) {
	for i := 0; i < n; i++ { r += s }
	return
}
func zmJoin(s string, n int) (r string) {
	for i := 0; i < n; i++ { if i > 0 { r += "," }; r += s }
	return
}
func zmLetters(n int) (r string) {
	for i := 0; i < n; i++ { r += string(rune('a' + i%26)) }
	return
}
func zmKeys(n int, v string) (r string) {
	for i := 0; i < n; i++ { if i > 0 { r += "," }; r += "\"k" + string(rune('A' + i)) + "\":" + v }
	return
}`)
	// ==== JSON: longer and deeper documents
	for i, d := range []string{
		`zmTimes("[", 12) + zmTimes("]", 12)`,
		`zmTimes("[", 12) + zmTimes("]", 11)`,
		`zmTimes("[", 11) + zmTimes("]", 12)`,
		`zmTimes("{\"a\":", 10) + "1" + zmTimes("}", 10)`,
		`zmTimes("{\"a\":[", 8) + "true" + zmTimes("]}", 8)`,
		`zmTimes("{\"a\":[", 8) + "true" + zmTimes("}]", 8)`,
		`"[" + zmJoin("1", 40) + "]"`,
		`"[" + zmJoin("\"x\"", 20) + "," + zmJoin("null", 13) + "," + zmJoin("false", 9) + "]"`,
		`"[" + zmJoin("1", 33) + ",]"`,
		`"[" + zmJoin("[]", 33) + " 1]"`,
		`"{" + zmKeys(20, "1") + "}"`,
		`"{" + zmKeys(17, "[{}]") + ",\"kB\":1}"`,
		`"{" + zmKeys(17, "\"v\"") + ",}"`,
		`"[\"" + zmLetters(60) + "\"]"`,
		`"[\"" + zmTimes("\\n", 33) + zmTimes("\\u0041", 9) + "\"]"`,
		`"[\"" + zmTimes("\\ud83d\\ude00", 5) + "\\\"\\\\\"]"`,
		`"[" + zmTimes("1234567890", 5) + "]"`,
		`"[-" + zmTimes("1234567890", 2) + "." + zmTimes("0123456789", 2) + "e+" + zmTimes("9", 2) + "]"`,
		`"[" + zmTimes("1234567890", 2) + "." + zmTimes("0123456789", 2) + ".1]"`,
		`zmTimes(" ", 40) + "[" + zmTimes("\t", 20) + "1" + zmTimes("\n", 33) + "," + zmTimes("\r", 17) + "2" + zmTimes(" ", 9) + "]" + zmTimes("\n ", 20)`,
		`"{\"" + zmLetters(40) + "\"" + zmTimes(" ", 17) + ":" + zmTimes(" ", 17) + "{}}"`,
	} {
		law("J01", fmt.Sprint("Doc", i), "() { d := "+d+"; zmJParse(d); zmJIterate(d) }")
	}
	law("J02", "Failure", `(e error) {
	zzAssume(e != io.EOF && e != iter.EOI && e != io.ErrUnexpectedEOF)
	for _, n := range []int{5, 17, 33} {
		it := parse.Iterate(&zmPlain{data: []byte("[" + zmTimes("\"x\",", n)), e: e})
		for i := 0; i < n; i++ {
			v, err := it.Next()
			zzAssert("every element before the error", err == nil && v.AsString() == "x")
		}
		for i := 0; i < 2; i++ {
			v, err := it.Next()
			zzAssert("then the error", err == e && v.Type() == json.Invalid)
		}
		v, err := parse.Parse(&zmPlain{data: []byte("[" + zmJoin("{\"a\":[1]}", n)), e: e})
		zzAssert("the error of the reader", err == e && v.Type() == json.Invalid)
		v, err = parse.Parse(&zmPlain{data: []byte("[\"" + zmLetters(n)), e: e})
		zzAssert("the error in a string", err == e && v.Type() == json.Invalid)
	}
}`)
	law("J03", "Values", `(s string, b bool, e error) {
	for _, n := range []int{5, 9, 17} {
		var l []any
		for i := 0; i < n; i++ {
			switch i % 3 {
			case 0: l = append(l, s)
			case 1: l = append(l, b)
			case 2: l = append(l, nil)
			}
		}
		v, err := json.SliceToValue(l)
		zzAssert("no error", err == nil && v.Type() == json.Array && len(v.AsSlice()) == n)
		for i, x := range v.AsSlice() {
			switch i % 3 {
			case 0: zzAssert("string", x.AsString() == s)
			case 1: zzAssert("bool", x.AsBool() == b)
			case 2: zzAssert("null", x.IsNull())
			}
		}
		o := v.ToSlice()
		zzAssert("number of go values", len(o) == n)
		for i := range o {
			switch i % 3 {
			case 0: x, isa := o[i].(string); zzAssert("go string", isa && x == s)
			case 1: x, isa := o[i].(bool); zzAssert("go bool", isa && x == b)
			case 2: zzAssert("go nil", o[i] == nil)
			}
		}
		l[n-1] = struct{}{}
		_, err = json.SliceToValue(l)
		zzAssert("error of the last one", err != nil)
		var d any = b
		for i := 0; i < n; i++ { if i%2 == 0 { d = []any{d} } else { d = map[string]any{"k": d} } }
		v, err = json.SliceToValue([]any{d})
		zzAssert("nested without error", err == nil)
		v = v.AsSlice()[0]
		for i := n - 1; i >= 0; i-- { if i%2 == 0 { zzAssert("nested array", len(v.AsSlice()) == 1); v = v.AsSlice()[0] } else { v = v.AsMap()["k"] } }
		zzAssert("nested value", v.Type() == json.Boolean && v.AsBool() == b)
	}
}`)
	for i, d := range []string{
		"json.MustSliceToValue(zmJList(5))", "json.MustSliceToValue(zmJList(17))", "json.MustSliceToValue(zmJList(33))",
		"json.MustSliceToValue([]any{zmJNest(5)})", "json.MustSliceToValue([]any{zmJNest(9)})",
		"json.StringToValue(zmLetters(33))", `json.StringToValue(zmTimes("\"\\\n", 9))`,
		`json.MustNumberToValue(json.NumberString("1" + zmTimes("0", 33)))`,
	} {
		law("J05", fmt.Sprint("Value", i), `() {
	v := `+d+`
	w := &zmJAll{}
	err := jwrite.Write(v, w)
	zzAssert("no error", err == nil)
	p := &zmJP{s: w.s}
	r := p.value()
	zzAssert("valid JSON", r != nil && p.i == len(w.s))
	zmJSame(v, r)
}`)
	}
	decl(`func zmJList(n int) (l []any) {
	for i := 0; i < n; i++ { l = append(l, []any{json.NumberString("12"), nil}[i%2]) }
	return
}
func zmJNest(n int) (d any) {
	d = true
	for i := 0; i < n; i++ { if i%2 == 0 { d = []any{d} } else { d = map[string]any{"k": d} } }
	return
}`)
	decl(`type zmJAll struct { s string }
func (w *zmJAll) Write(rs ...rune) error { for _, r := range rs { w.s += string(r) }; return nil }`)
	addLaw("J06", "LongPath", `() {
	for _, n := range []int{5, 9} {
		var d any = "x"
		p := ""
		for i := 0; i < n; i++ {
			if i%2 == 0 { d = map[string]any{"key": d, "other": nil}; p = ".key" + p } else { d = []any{nil, d}; p = "[1]" + p }
		}
		v, err := json.SliceToValue([]any{nil, nil, nil, nil, nil, nil, nil, nil, nil, nil, d})
		zzAssert("document", err == nil)
		f, err := json.ParsePath("[10]" + p)
		zzAssert("path", err == nil)
		r, err := f(v)
		zzAssert("found", err == nil && r.Type() == json.String && r.AsString() == "x")
		f, err = json.ParsePath("[10]" + p + ".key")
		zzAssert("path", err == nil)
		r, err = f(v)
		zzAssert("not found", err != nil && r.Type() == json.Invalid)
		_, err = json.ParsePath("[10]" + p + "..key")
		zzAssert("not a path", err != nil)
	}
}`, func(s *lawRun) { text(s); s.x.Redirect["strconv.ParseInt"] = s.c.P.Driver.Func("zmParseInt") })

	// ==== readers and writers
	for _, n := range []int{5, 17, 33} {
		law("I03", fmt.Sprint("Bytes", n), fmt.Sprintf(`(e error) {
	zzAssume(e != io.EOF && e != iter.EOI && e != io.ErrUnexpectedEOF)
	n := %d
	var d []byte
	for i := 0; i < n; i++ { d = append(d, byte(i*7)) }
	for _, end := range []error{io.EOF, e} {
		it := iter.OfReader(&zmPlain{data: d, e: end})
		for i := range d { v, err := it.Next(); zzAssert("byte", err == nil && v == d[i]) }
		v, err := it.Next()
		zzAssert("end", v == 0 && (end == e && err == e || end != e && err == iter.EOI))
	}
}`, n))
		law("I03", fmt.Sprint("Runes", n), fmt.Sprintf(`(e error) {
	zzAssume(e != io.EOF && e != iter.EOI && e != io.ErrUnexpectedEOF)
	n := %d
	var rs []rune
	for i := 0; i < n; i++ { rs = append(rs, []rune{'a', 0xE9, 0x20AC, 0x1F600}[i%%4]) }
	it := iter.OfReaderAsRunes(&zmPlain{data: []byte(string(rs)), e: e})
	for i := range rs { v, err := it.Next(); zzAssert("rune", err == nil && v == rs[i]) }
	_, err := it.Next()
	zzAssert("end of runes", err == e)
}`, n))
	}
	law("I04", "Lines", `() {
	for _, n := range []int{5, 17, 33, 65} {
		l := zmLetters(n)
		it := iter.OfStringAsLines(l + "\n" + l + "\r\n" + l + "\r" + l + "\n\n" + l)
		for _, w := range []string{l, l, l, l, "", l} {
			v, err := it.Next()
			zzAssert("line", err == nil && v == w)
		}
		it = iter.OfStringAsLines(zmTimes("x\n", n))
		for i := 0; i < n; i++ { v, err := it.Next(); zzAssert("short line", err == nil && v == "x") }
		_, err := it.Next()
		zzAssert("end", err == iter.EOI)
	}
}`)
	law("W01", "Values", `() {
	for _, n := range []int{5, 8, 9, 16, 17, 33, 65} {
		s := zmRange(n)
		var d []int
		w := writer.OfSliceWriter(&d)
		zzAssert("no error", w.Write(s...) == nil)
		zmEqual("slice", d, s)
		k := 0
		e := zzErr()
		for _, at := range []int{n/2, n-1, n} {
			k = 0
			f := writer.NewWriter(func(v int) error { zzAssertSame("in order", v, s[k]); k++; if k == at { return e }; return nil })
			err := f.Write(s...)
			zzAssert("up to the first error", k == at)
			zzAssert("the error", err == e)
		}
		var ps []tuple.Two[int, int]
		m := map[int]int{}
		for i := range s { ps = append(ps, tuple.Of2(i, s[i])) }
		zzAssert("no error", writer.OfMapWriter(m).Write(ps...) == nil)
		for i := range s { zzAssertSame("map", m[i], s[i]) }
		if n > 33 { continue }
		b := &zmJBytes{}
		var bs []byte
		for i := 0; i < n; i++ { bs = append(bs, byte('a' + i)) }
		zzAssert("no error", writer.OfIOWriterAsBytes(b).Write(bs...) == nil)
		zmEqual("bytes", b.d, bs)
		b.d = nil
		zzAssert("no error", writer.OfIOWriterAsRunes(b).Write([]rune(zmLetters(n))...) == nil)
		zmEqual("runes", b.d, []byte(zmLetters(n)))
		b.d = nil
		zzAssert("no error", writer.OfIOWriterAsStrings(b).Write(zmLetters(n), "", zmLetters(n)) == nil)
		zmEqual("strings", b.d, []byte(zmLetters(n) + zmLetters(n)))
		b.d = nil
		zzAssert("no error", writer.OfIOWriterAsLines(b).Write(zmLetters(n), "", "x") == nil)
		zmEqual("lines", b.d, []byte(zmLetters(n) + zmEOL + zmEOL + "x" + zmEOL))
	}
}`)
	decl(`type zmJBytes struct { d []byte }
func (w *zmJBytes) Write(p []byte) (int, error) { w.d = append(w.d, p...); return len(p), nil }`)
	law("W02", "Bytes", `(e error) {
	for _, n := range []int{5, 17, 33} {
		var d []byte
		for i := 0; i < n; i++ { d = append(d, byte(i)) }
		for _, k := range []int{1, 3, 7, n, n+1} {
			r := mio.NewErrorReader(d, e)
			got := ""
			for i := 0; i < n; i++ {
				p := make([]byte, k)
				c, err := r.Read(p)
				got += string(p[:c])
				if err != nil { zzAssert("the error", err == e && got == string(d)); break }
			}
			zzAssert("the bytes", got == string(d))
			w := mio.NewErrorWriter(n, e)
			got = ""
			for i := 0; i < n; i += k {
				h := i + k
				if h > n { h = n }
				c, err := w.Write(d[i:h])
				zzAssert("written", c == h-i && err == nil)
			}
			zzAssert("the output", string(w.Output()) == string(d))
			c, err := w.Write(d[:1])
			zzAssert("then the error", c == 0 && err == e)
		}
	}
}`)
	// ==== event and rest
	law("E01", "Receivers", `(a int) {
	for _, n := range []int{5, 9, 17, 33} {
		var r event.Registry[int, int]
		order := zmMixed(n)
		res := zmRange(n)
		var got []int
		for _, id := range order {
			id := id
			r.Register(id, event.ReceiverFunc[int](func(v int) int {
				if len(got) == 0 { zzAssertSame("the value sent", v, a) } else { zzAssertSame("the previous result", v, res[len(got)-1]) }
				got = append(got, id)
				return res[len(got)-1]
			}))
		}
		zzAssertSame("the last result", r.Send(a), res[n-1])
		zmEqual("in order of the ids", got, zmSeq(n))
		r.RemoveId(n/2)
		got = nil
		r.Send(a)
		zzAssert("all but the removed", len(got) == n-1)
		for i, id := range got { if i < n/2 { zzAssert("remaining", id == i) } else { zzAssert("remaining", id == i+1) } }
		// many of one id
		var q event.Registry[int, int]
		got = nil
		for _, id := range order { id := id; q.Register(3, event.ReceiverFunc[int](func(v int) int { got = append(got, id); return v })) }
		zzAssertSame("unchanged", q.Send(a), a)
		zmEqual("in order of registration", got, order)
	}
}`)
	addLaw("R01", "LongHandlers", `(path string) {
	for _, n := range []int{5, 9, 17} {
		for _, at := range []int{0, n/2, n-1} {
			zmREall = nil
			var sm rest.ServeMux
			var hs []*zmHandler
			for i := 0; i < n; i++ {
				hs = append(hs, &zmHandler{})
				m := "POST"
				if i >= at { m = "GET" }
				zzAssert("no error", sm.Handle(m, "p", hs[i]) == nil)
			}
			for _, e := range zmREall { e := zmREof(e); e.path, e.match = []string{path}, []bool{true} }
			w, r := &zmRW{}, zmReq("GET", path)
			sm.ServeHTTP(w, r)
			for i, h := range hs { if i == at { zzAssert("the first of the method", h.n == 1) } else { zzAssert("no other", h.n == 0) } }
			w, r = &zmRW{}, zmReq("PUT", path)
			sm.ServeHTTP(w, r)
			zzAssert("405", len(w.codes) == 1 && w.codes[0] == 405)
		}
	}
}`, func(s *lawRun) { zmRegexp(s); text(s) })
}
