package main

import (
	"fmt"
	"strings"

	"verif/analyzer/ai"
)

// Laws of the paths into JSON values, compared to an independent reading and following of the path.

func init() {
	decl(`type zmJStep struct { key string; isKey bool; index int }
// zmJPath reads a path
func zmJPath(s string) (steps []zmJStep, ok bool) {
	i := 0
	for i < len(s) {
		if s[i] == '.' {
			i++
			a := i
			for i < len(s) && s[i] != '.' && s[i] != '[' && s[i] != ']' { i++ }
			if i == a { return nil, false }
			steps = append(steps, zmJStep{key: s[a:i], isKey: true})
			continue
		}
		if s[i] != '[' { return nil, false }
		i++
		n, a := 0, i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' { n = n*10 + int(s[i]-'0'); i++ }
		if i == a || i == len(s) || s[i] != ']' { return nil, false }
		i++
		steps = append(steps, zmJStep{index: n})
	}
	return steps, len(steps) > 0
}
// zmJFollow follows a path in a Go value
func zmJFollow(v any, steps []zmJStep) (any, bool) {
	for _, s := range steps {
		if s.isKey {
			m, ok := v.(map[string]any)
			if !ok { return nil, false }
			if v, ok = m[s.key]; !ok { return nil, false }
			continue
		}
		l, ok := v.([]any)
		if !ok || s.index >= len(l) { return nil, false }
		v = l[s.index]
	}
	return v, true
}
func zmJSameGo(v json.Value, g any) {
	switch x := g.(type) {
	case nil: zzAssert("null", v.IsNull())
	case bool: zzAssert("bool", v.Type() == json.Boolean && v.AsBool() == x)
	case string: zzAssert("string", v.Type() == json.String && v.AsString() == x)
	case map[string]any: zzAssert("object", v.Type() == json.Object && len(v.AsMap()) == len(x))
	case []any: zzAssert("array", v.Type() == json.Array && len(v.AsSlice()) == len(x))
	}
}
func zmJSearch(path string, docs ...any) {
	f, e := json.ParsePath(path)
	steps, ok := zmJPath(path)
	zzAssert("error exactly if not a path", (e != nil) == !ok)
	if !ok { zzAssert("no function", f == nil); return }
	for _, d := range docs {
		var v json.Value
		var e2 error
		switch x := d.(type) {
		case map[string]any: v, e2 = json.MapToValue(x)
		case []any: v, e2 = json.SliceToValue(x)
		}
		zzAssert("document", e2 == nil)
		r, e3 := f(v)
		g, found := zmJFollow(d, steps)
		zzAssert("error exactly if not there", (e3 != nil) == !found)
		if found { zmJSameGo(r, g) } else { zzAssert("invalid", r.Type() == json.Invalid) }
	}
}`)
	// strconv.ParseInt, read digit by digit
	decl(`func zmParseInt(s string, base, bits int) (n int64, err error) {
	if base != 10 || bits != 64 { zzUnmodelled() }
	i, neg := 0, false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') { neg = s[0] == '-'; i++ }
	if i == len(s) { return 0, zzErr() }
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' { return 0, zzErr() }
		d := int64(s[i]-'0')
		if n > 922337203685477580 || n == 922337203685477580 && d > 7 { return 9223372036854775807, zzErr() }
		n = n*10 + d
	}
	if neg { n = -n }
	return n, nil
}`)
	run := func(s *lawRun) {
		s.x.Redirect["strconv.ParseInt"] = s.c.P.Driver.Func("zmParseInt")
		s.x.MaxDepth, s.mayMiss, s.x.WidenAt, s.x.MaxSteps, s.x.MaxRecur, ai.Bytewise = 80, true, 60, 30000000, 12, true
	}
	for i, t := range []string{
		"", "?", "??", "???", ".?", ".a?", ".a??", ".?[?]", "[?]", "[?", "[1]?", "[1]??", "[?].?", "[0?9]", "[0][?]", ".a[?].?", "[1].a.?", ".b?a", ".b.a?", "a?", ".a[1].b?", ".a[1]??b",
		".a.b.c?", "[99999999999999999999]", "[00?]",
	} {
		var ps, es []string
		for _, c := range []byte(t) {
			if c == '?' {
				ps = append(ps, fmt.Sprintf("b%d", len(ps)))
				es = append(es, ps[len(ps)-1])
			} else {
				es = append(es, fmt.Sprint(c))
			}
		}
		params, assume := "", ""
		if len(ps) > 0 {
			params, assume = strings.Join(ps, ", ")+" byte", "zzAssume("+strings.Join(ps, " < 128 && ")+" < 128)\n\t"
		}
		if strings.Contains(t, "999") {
			addLaw("J06", fmt.Sprintf("Path%d", i), `() { _, e := json.ParsePath("`+t+`"); zzAssert("no such index", e != nil) }`, run)
			continue
		}
		addLaw("J06", fmt.Sprintf("Path%d", i), "("+params+`) {
	`+assume+`zmJSearch(string([]byte{`+strings.Join(es, ", ")+`}),
		map[string]any{"a": []any{"x", map[string]any{"b": true}}, "b": map[string]any{"a": "y"}, "c": nil},
		[]any{[]any{"p", "q"}, map[string]any{"a": map[string]any{"b": "r"}}, "s"})
}`, run)
	}
	// symbolic keys and values
	addLaw("J06", "Keys", `(k, l string, s string, b bool) {
	v, e := json.MapToValue(map[string]any{k: s, "x": []any{b, map[string]any{l: s}}})
	zzAssume(k != "x")
	zzAssert("no error", e == nil)
	f, e := json.ParsePath(".x[1].y")
	zzAssert("no error of path", e == nil)
	r, e := f(v)
	zzAssert("found", (e == nil) == (l == "y"))
	if e == nil { zzAssert("value", r.Type() == json.String && r.AsString() == s) }
	// again, and with another value
	r2, e2 := f(v)
	zzAssert("again", (e2 == nil) == (e == nil) && r2.Type() == r.Type())
	_, e = f(v.AsMap()["x"])
	zzAssert("not an object", e != nil)
	f, _ = json.ParsePath(".z")
	r, e = f(v)
	zzAssert("key", (e == nil) == (k == "z"))
	if e == nil { zzAssert("value of key", r.AsString() == s) }
	_, e = f(json.NullValue)
	zzAssert("null has no keys", e != nil)
}`, run)
	lawCheck("J06", "A path finds exactly the value it denotes", "", 1, nil)
}
