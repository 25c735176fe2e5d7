package main

import (
	"fmt"
	"strings"

	"verif/analyzer/ai"
)

// Laws of the values, the paths and the writing of encoding/json, and of parsing readers that fail.

func init() {
	imp("jwrite", mod+"encoding/json/write")
	run := func(s *lawRun) {
		s.x.MaxDepth, s.mayMiss, s.x.WidenAt, s.x.MaxSteps, s.x.MaxRecur, ai.Bytewise = 80, true, 60, 30000000, 12, true
	}
	law := func(prop, name, src string) { addLaw(prop, name, src, run) }

	// ==== parsing
	for i, doc := range []string{`{"a":[1.5e1,"\u0041x",true,null],"b":{}}`, ` [ 12 , -3 , "\ud83d\ude00" , false ] `} {
		for _, f := range []string{"Parse", "Iterate"} {
			read := `v, err := parse.Parse(&zmPlain{data: []byte(doc[:n]), e: e})
		zzAssert("the error of the reader", err == e && v.Type() == json.Invalid)`
			if f == "Iterate" {
				read = `it := parse.Iterate(&zmPlain{data: []byte(doc[:n]), e: e})
		var err error
		for k := 0; err == nil; k++ { zzAssert("ends", k < 6); _, err = it.Next() }
		if err == iter.EOI { zzAssert("whole document", doc[n-1] == ']' || doc[n-1] == '}' || doc[n-1] == ' '); continue }
		zzAssert("the error of the reader", err == e)`
			}
			law("J02", fmt.Sprintf("%sError%d", f, i), fmt.Sprintf(`(e error) {
	zzAssume(e != io.EOF && e != iter.EOI && e != io.ErrUnexpectedEOF)
	const doc = %q
	for n := 0; n <= len(doc); n++ {
		%s
	}
}`, doc, read))
		}
	}
	law("J02", "Lazy", `(a byte, e error) {
	zzAssume(e != io.EOF && e != iter.EOI && e != io.ErrUnexpectedEOF)
	zzAssume(a >= '0' && a <= '9')
	it := parse.Iterate(&zmPlain{data: []byte{'[', a, ',', '[', a, ']', ','}, e: e})
	v, err := it.Next()
	zzAssert("first element before the error", err == nil && v.AsString() == string([]byte{a}))
	v, err = it.Next()
	zzAssert("second element before the error", err == nil && len(v.AsSlice()) == 1)
	_, err = it.Next()
	zzAssert("then the error", err == e)
}`)
	for i, l := range []string{`"x"`, `[]`, `{"k":1}`, `"x","y"`, `{},[null]`, `1,"x"`} {
		law("J02", fmt.Sprint("LazyEnd", i), fmt.Sprintf(`(e error) {
	zzAssume(e != io.EOF && e != iter.EOI && e != io.ErrUnexpectedEOF)
	it := parse.Iterate(&zmPlain{data: []byte("[" + %q), e: e})
	for i := 0; i < %d; i++ {
		v, err := it.Next()
		zzAssert("every element before the error", err == nil && v.Type() != json.Invalid)
	}
	_, err := it.Next()
	zzAssert("then the error", err == e)
}`, l, 1+strings.Count(l, ",")))
	}
	law("J02", "Must", `(a, b byte) {
	zzAssume(a < 128 && b < 128)
	s := string([]byte{'[', a, b})
	v, e := parse.Parse(strings.NewReader(s))
	p := zmCatch(func() { w := parse.MustParse(strings.NewReader(s)); zzAssert("same type", w.Type() == v.Type()); zzAssert("same elements", len(w.AsSlice()) == len(v.AsSlice())) })
	zzAssert("panics exactly for errors", (p != nil) == (e != nil))
	if p != nil { _, ok := p.(error); zzAssert("panics with an error", ok) }
}`)
	for i, l := range [][2]string{
		{`zzBits("1101xxxx"), zzBits("10xxxxxx")`, "rune(b[0]&0x1F)<<6 | rune(b[1]&0x3F)"},
		{`zzBits("1110x001"), zzBits("10xxxxxx"), zzBits("10xxxxxx")`, "rune(b[0]&0x0F)<<12 | rune(b[1]&0x3F)<<6 | rune(b[2]&0x3F)"},
		{`zzBits("1111000x"), zzBits("1011xxxx"), zzBits("10xxxxxx"), zzBits("10xxxxxx")`, "rune(b[0]&0x07)<<18 | rune(b[1]&0x3F)<<12 | rune(b[2]&0x3F)<<6 | rune(b[3]&0x3F)"},
	} {
		law("J02", fmt.Sprintf("Rune%d", i), fmt.Sprintf(`() {
	b := []byte{%s}
	v, e := parse.Parse(&zmPlain{data: append(append([]byte("[\"a"), b...), '"', ']'), e: io.EOF})
	zzAssert("no error", e == nil && len(v.AsSlice()) == 1)
	zzAssert("string", v.AsSlice()[0].AsString() == "a" + string(%s))
}`, l[0], l[1]))
	}

	// ==== values
	decl(`func zmJKind(v json.Value, t json.Type) {
	zzAssert("type", v.Type() == t)
	zzAssert("null", v.IsNull() == (t == json.Null))
	zzAssert("document", v.IsDocument() == (t == json.Object || t == json.Array))
	zzAssert("as map", zmPanics(func() { v.AsMap() }) == (t != json.Object))
	zzAssert("to map", zmPanics(func() { v.ToMap() }) == (t != json.Object))
	zzAssert("as slice", zmPanics(func() { v.AsSlice() }) == (t != json.Array))
	zzAssert("to slice", zmPanics(func() { v.ToSlice() }) == (t != json.Array))
	zzAssert("as string", zmPanics(func() { v.AsString() }) == (t != json.String && t != json.Number && t != json.Boolean))
	zzAssert("as number", zmPanics(func() { v.AsNumber() }) == (t != json.Number))
	zzAssert("as bool", zmPanics(func() { v.AsBool() }) == (t != json.Boolean))
}
func zmRot[T any](l []T, n int) []T { return append(append([]T{}, l[n:]...), l[:n]...) }
func zmBool2(b bool) string { if b { return "true" }; return "false" }`)
	for _, l := range [][3]string{
		{"Zero", "", `zmJKind(json.Value{}, json.Invalid); zzAssert("any", json.Value{}.ToAny() == nil)`},
		{"Null", "", `zmJKind(json.NullValue, json.Null); zzAssert("any", json.NullValue.ToAny() == nil)`},
		{"Bool", "b bool", `v := json.BoolToValue(b)
	zmJKind(v, json.Boolean)
	zzAssert("value", v.AsBool() == b && v.ToAny() == any(b))
	zzAssert("text", v.AsString() == zmBool2(b))
	w, e := json.ToValue(b)
	zzAssert("to value", e == nil && w.Type() == json.Boolean && w.AsBool() == b)`},
		{"String", "s string", `v := json.StringToValue(s)
	zmJKind(v, json.String)
	zzAssert("value", v.AsString() == s && v.ToAny() == any(s))
	w, e := json.ToValue(s)
	zzAssert("to value", e == nil && w.Type() == json.String && w.AsString() == s)`},
		{"Constants", "", `zzAssert("constants", json.TrueValue.AsBool() && !json.FalseValue.AsBool())
	zmJKind(json.TrueValue, json.Boolean)
	zmJKind(json.FalseValue, json.Boolean)
	for t, s := range []string{"", "Object", "Array", "String", "Number", "Boolean", "Null", ""} { zzAssert("name", json.Type(t).String() == s) }`},
		{"Map", "a, b, s string, c bool", `n := zmPick(3)
	m, w := map[string]any{}, map[string]json.Value{}
	if n > 0 { m[a], w[a] = s, json.StringToValue(s) }
	if n > 1 { m[b], w[b] = c, json.BoolToValue(c) }
	for k := 0; k < 4; k++ {
		var v json.Value
		var e error
		switch k {
		case 0: v, e = json.MapToValue(m)
		case 1: v, e = json.MapToValue(w)
		case 2: v, e = json.ToValue(m)
		case 3: v, e = json.ToValue(w)
		}
		zzAssert("no error", e == nil)
		zmJKind(v, json.Object)
		zzAssert("number of keys", len(v.AsMap()) == len(m) && len(v.ToMap()) == len(m))
		if n == 2 {
			zzAssert("second key", v.AsMap()[b].Type() == json.Boolean && v.AsMap()[b].AsBool() == c && v.ToMap()[b] == any(c))
			zzAssert("any", v.ToAny().(map[string]any)[b] == any(c))
		}
		if n == 1 || n == 2 && a != b { zzAssert("first key", v.AsMap()[a].Type() == json.String && v.AsMap()[a].AsString() == s && v.ToMap()[a] == any(s)) }
	}`},
		{"Slice0", "s string, c bool", `n := zmPick(4)
	l, w := zmRot([]any{s, c, nil}, 0)[:n], zmRot([]json.Value{json.StringToValue(s), json.BoolToValue(c), json.NullValue}, 0)[:n]
	for k := 0; k < 4; k++ {
		var v json.Value
		var e error
		switch k {
		case 0: v, e = json.SliceToValue(l)
		case 1: v, e = json.SliceToValue(w)
		case 2: v, e = json.ToValue(l)
		case 3: v, e = json.ToValue(w)
		}
		zzAssert("no error", e == nil)
		zmJKind(v, json.Array)
		r, o := v.AsSlice(), v.ToSlice()
		zzAssert("length", len(r) == n && len(o) == n && len(v.ToAny().([]any)) == n)
		for i := 0; i < n; i++ {
			switch (i + 0) % 3 {
			case 0: zzAssert("string", r[i].Type() == json.String && r[i].AsString() == s && o[i] == any(s))
			case 1: zzAssert("bool", r[i].Type() == json.Boolean && r[i].AsBool() == c && o[i] == any(c))
			case 2: zzAssert("null", r[i].IsNull() && o[i] == nil)
			}
		}
	}`},
		{"Slice1", "s string, c bool", `n := zmPick(4)
	l, w := zmRot([]any{s, c, nil}, 1)[:n], zmRot([]json.Value{json.StringToValue(s), json.BoolToValue(c), json.NullValue}, 1)[:n]
	for k := 0; k < 4; k++ {
		var v json.Value
		var e error
		switch k {
		case 0: v, e = json.SliceToValue(l)
		case 1: v, e = json.SliceToValue(w)
		case 2: v, e = json.ToValue(l)
		case 3: v, e = json.ToValue(w)
		}
		zzAssert("no error", e == nil)
		zmJKind(v, json.Array)
		r, o := v.AsSlice(), v.ToSlice()
		zzAssert("length", len(r) == n && len(o) == n && len(v.ToAny().([]any)) == n)
		for i := 0; i < n; i++ {
			switch (i + 1) % 3 {
			case 0: zzAssert("string", r[i].Type() == json.String && r[i].AsString() == s && o[i] == any(s))
			case 1: zzAssert("bool", r[i].Type() == json.Boolean && r[i].AsBool() == c && o[i] == any(c))
			case 2: zzAssert("null", r[i].IsNull() && o[i] == nil)
			}
		}
	}`},
		{"Slice2", "s string, c bool", `n := zmPick(4)
	l, w := zmRot([]any{s, c, nil}, 2)[:n], zmRot([]json.Value{json.StringToValue(s), json.BoolToValue(c), json.NullValue}, 2)[:n]
	for k := 0; k < 4; k++ {
		var v json.Value
		var e error
		switch k {
		case 0: v, e = json.SliceToValue(l)
		case 1: v, e = json.SliceToValue(w)
		case 2: v, e = json.ToValue(l)
		case 3: v, e = json.ToValue(w)
		}
		zzAssert("no error", e == nil)
		zmJKind(v, json.Array)
		r, o := v.AsSlice(), v.ToSlice()
		zzAssert("length", len(r) == n && len(o) == n && len(v.ToAny().([]any)) == n)
		for i := 0; i < n; i++ {
			switch (i + 2) % 3 {
			case 0: zzAssert("string", r[i].Type() == json.String && r[i].AsString() == s && o[i] == any(s))
			case 1: zzAssert("bool", r[i].Type() == json.Boolean && r[i].AsBool() == c && o[i] == any(c))
			case 2: zzAssert("null", r[i].IsNull() && o[i] == nil)
			}
		}
	}`},
		{"Nested", "a, s string, c bool", `v, e := json.MapToValue(map[string]any{a: []any{s, map[string]any{"x": c}, []any{}}})
	zzAssert("no error", e == nil)
	l := v.AsMap()[a].AsSlice()
	zzAssert("nested values", len(l) == 3 && l[0].AsString() == s && l[1].AsMap()["x"].AsBool() == c && len(l[2].AsSlice()) == 0)
	o := v.ToAny().(map[string]any)[a].([]any)
	zzAssert("nested go values", len(o) == 3 && o[0] == any(s) && o[1].(map[string]any)["x"] == any(c) && len(o[2].([]any)) == 0)`},
		{"Bad", "a, s string", `type str string
	for _, bad := range []any{make(chan int), struct{}{}, func() {}, str(s)} {
		v, e := json.MapToValue(map[string]any{a: bad})
		zzAssert("error in a map", e != nil && v.Type() == json.Invalid)
		v, e = json.SliceToValue([]any{s, bad})
		zzAssert("error in a slice", e != nil && v.Type() == json.Invalid)
		v, e = json.SliceToValue([]any{[]any{bad}})
		zzAssert("error in a nested slice", e != nil && v.Type() == json.Invalid)
		zzAssert("must", zmPanics(func() { json.MustSliceToValue([]any{bad}) }) && zmPanics(func() { json.MustMapToValue(map[string]any{a: bad}) }))
		zzAssert("must to value", zmPanics(func() { json.MustToValue([]any{bad}) }))
	}`},
	} {
		law("J03", l[0], "("+l[1]+") {\n\t"+l[2]+"\n}")
	}

	// ==== numbers
	for n := 0; n <= 4; n++ {
		ps := strings.Split("a, b, c, d", ", ")[:n]
		src := ""
		if n > 0 {
			src = strings.Join(ps, ", ") + " byte"
		}
		as := ""
		for _, p := range ps {
			as += "zzAssume(" + p + " < 128)\n\t"
		}
		law("J04", fmt.Sprintf("Text%d", n), "("+src+") {\n\t"+as+"s := string([]byte{"+strings.Join(ps, ", ")+`})
	p := &zmJP{s: s}
	ok := p.number() != nil && p.i == len(s)
	v, e := json.NumberToValue(json.NumberString(s))
	zzAssert("exactly the numbers", (e == nil) == ok)
	if ok { zmJKind(v, json.Number); zzAssert("text", string(v.AsNumber()) == s && v.AsString() == s && v.ToAny() == any(json.NumberString(s))) } else { zzAssert("invalid", v.Type() == json.Invalid) }
	w, e2 := json.ToValue(json.NumberString(s))
	zzAssert("to value", (e2 == nil) == ok && w.Type() == v.Type())
	l, e3 := json.SliceToValue([]any{json.NumberString(s)})
	zzAssert("in a slice", (e3 == nil) == ok)
	if ok { zzAssert("text in a slice", l.AsSlice()[0].AsString() == s) }
}`)
	}
	for _, t := range []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"} {
		format := "strconv.FormatInt(int64(n), 10)"
		if t[0] == 'u' {
			format = "strconv.FormatUint(uint64(n), 10)"
		}
		law("J04", t, `(n `+t+`) {
	v, e := json.NumberToValue(n)
	w, e2 := json.ToValue(n)
	l, e3 := json.SliceToValue([]any{n})
	if e != nil || e2 != nil || e3 != nil { zzReach("refused"); return }
	s := `+format+`
	zzAssert("number", v.Type() == json.Number && v.AsString() == s)
	zzAssert("to value", w.Type() == json.Number && w.AsString() == s)
	zzAssert("in a slice", l.AsSlice()[0].Type() == json.Number && l.AsSlice()[0].AsString() == s)
}`)
	}
	imp("strconv", "strconv")
	// ==== writing
	decl(`// zmJW collects what is written, until a write fails
type zmJW struct { s string; e error; dead bool }
func (w *zmJW) Write(rs ...rune) error {
	zzAssert("no write after a failed one", !w.dead)
	if zzBool("write fails") { w.dead = true; return w.e }
	for _, r := range rs { w.s += string(r) }
	return nil
}
func zmJWrite(v json.Value, e error, must bool) {
	w := &zmJW{e: e}
	var err error
	if must {
		if p := zmCatch(func() { jwrite.MustWrite(v, w) }); p != nil { err = p.(error) }
	} else { err = jwrite.Write(v, w) }
	if w.dead { zzAssert("the error of the writer", err == e); return }
	zzAssert("no error", err == nil)
	p := &zmJP{s: w.s}
	r := p.value()
	zzAssert("valid JSON", r != nil && p.i == len(w.s))
	zmJSame(v, r)
}
func zmJText(bs ...byte) string {
	for _, b := range bs { zzAssume(b < 128) }
	return string(bs)
}`)
	for _, l := range [][3]string{
		{"String0", "", `json.StringToValue("")`},
		{"String1", "a byte", `json.StringToValue(zmJText(a))`},
		{"String2", "a, b byte", `json.StringToValue(zmJText(a, b))`},
		{"Number", "a, b byte", `func() json.Value { zzAssume(a >= '1' && a <= '9' && b >= '0' && b <= '9'); return json.MustNumberToValue(json.NumberString(string([]byte{'-', a, '.', b, 'e', a}))) }()`},
		{"Bool", "b bool", `json.BoolToValue(b)`},
		{"Null", "", `json.NullValue`},
		{"Array0", "", `json.MustSliceToValue([]any{})`},
		{"Array1", "a byte", `json.MustSliceToValue([]any{zmJText(a)})`},
		{"Array4", "a byte, b bool", `json.MustSliceToValue([]any{"x", b, nil, []any{json.NumberString("1"), []any{}}})`},
		{"Object0", "", `json.MustMapToValue(map[string]any{})`},
		{"Object1", "a byte", `json.MustMapToValue(map[string]any{zmJText(a): "x"})`},
		{"Object2", "a, b byte, c bool", `func() json.Value { zzAssume(a > 64 && b > 64 && a != 92 && b != 92); return json.MustMapToValue(map[string]any{zmJText(a): c, zmJText(b): nil}) }()`},
		{"Object3", "a bool", `json.MustMapToValue(map[string]any{"k": a, "\"": []any{"\n"}, "": map[string]any{"\\": nil}})`},
	} {
		for i, must := range []string{"false", "true"} {
			if i > 0 && !strings.HasSuffix(l[0], "1") {
				continue
			}
			d := l[1]
			if d != "" {
				d += ", "
			}
			law("J05", l[0]+must, "("+d+"e error) {\n\tzmJWrite("+l[2]+", e, "+must+")\n}")
		}
	}
	law("J05", "Runes", `(a, b rune) {
	zzAssume(a > 127 && a <= 0x10FFFF && (a < 0xD800 || a > 0xDFFF) && b > 127 && b <= 0x10FFFF && (b < 0xD800 || b > 0xDFFF))
	w := &zmJW{}
	err := jwrite.Write(json.StringToValue(string([]rune{a, b})), w)
	zzAssert("other characters as they are", w.dead || err == nil && w.s == "\"" + string(a) + string(b) + "\"")
}`)
	sharded["J01"], sharded["J05"] = 6, 3
	lawCheck("J02", "JSON reader errors are returned", "", 1, nil)
	lawCheck("J03", "JSON values keep their type and content", "", 1, nil)
	lawCheck("J04", "Exactly the JSON numbers are accepted", "", 1, nil)
	lawCheck("J05", "Writing a value gives JSON that denotes it", "", 1, nil)
}
