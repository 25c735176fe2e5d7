package main

import (
	"fmt"
	"strings"

	"verif/analyzer/ai"
)

// Laws of encoding/json: parsing is compared to an independent reading of the grammar of RFC 8259, over documents of
// which some bytes are unknown.

func init() {
	imp("json", mod+"encoding/json")
	imp("utf8", "unicode/utf8")
	imp("parse", mod+"encoding/json/parse")
	decl(`type zmJV struct { t json.Type; s string; b bool; l []*zmJV; k []string }
// zmJP reads values at s[i:], nil is a syntax error
type zmJP struct { s string; i int }
func (p *zmJP) at(c byte) bool { return p.i < len(p.s) && p.s[p.i] == c }
func (p *zmJP) eat(c byte) bool { if !p.at(c) { return false }; p.i++; return true }
func (p *zmJP) word(w string) bool {
	for j := 0; j < len(w); j++ { if !p.eat(w[j]) { return false } }
	return true
}
func (p *zmJP) ws() { for p.at(' ') || p.at('\t') || p.at('\n') || p.at('\r') { p.i++ } }
func (p *zmJP) digit() bool { return p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' }
func (p *zmJP) digits() bool {
	if !p.digit() { return false }
	for p.digit() { p.i++ }
	return true
}
func (p *zmJP) number() *zmJV {
	a := p.i
	p.eat('-')
	if !p.eat('0') { if !p.digits() { return nil } }
	if p.eat('.') { if !p.digits() { return nil } }
	if p.eat('e') || p.eat('E') {
		if !p.eat('+') { p.eat('-') }
		if !p.digits() { return nil }
	}
	return &zmJV{t: json.Number, s: p.s[a:p.i]}
}
// hex reads 4 hex digits
func (p *zmJP) hex() (r rune, ok bool) {
	for j := 0; j < 4; j++ {
		if p.i == len(p.s) { return 0, false }
		c := p.s[p.i]
		p.i++
		switch {
		case c >= '0' && c <= '9': r = r*16 + rune(c) - '0'
		case c >= 'a' && c <= 'f': r = r*16 + rune(c) - 'a' + 10
		case c >= 'A' && c <= 'F': r = r*16 + rune(c) - 'A' + 10
		default: return 0, false
		}
	}
	return r, true
}
func (p *zmJP) str() (s string, ok bool) {
	if !p.eat('"') { return "", false }
	for p.i < len(p.s) {
		c := p.s[p.i]
		p.i++
		if c == '"' { return s, true }
		if c < 0x20 { return "", false }
		if c >= 0x80 {
			// the characters outside of ASCII of the documents are whole
			r, n := utf8.DecodeRuneInString(p.s[p.i-1:])
			p.i += n - 1
			s += string(r)
			continue
		}
		if c != '\\' { s += string(rune(c)); continue }
		if p.i == len(p.s) { return "", false }
		c = p.s[p.i]
		p.i++
		switch c {
		case '"', '\\', '/': s += string(rune(c))
		case 'b': s += "\b"
		case 'f': s += "\f"
		case 'n': s += "\n"
		case 'r': s += "\r"
		case 't': s += "\t"
		case 'u':
			r, ok := p.hex()
			if !ok { return "", false }
			if r >= 0xD800 && r <= 0xDFFF {
				if !p.word("\\u") { return "", false }
				q, ok := p.hex()
				if !ok || q < 0xD800 || q > 0xDFFF || (r < 0xDC00) == (q < 0xDC00) { return "", false }
				// either order is accepted
				if r > q { r, q = q, r }
				r = (r-0xD800)*0x400 + (q - 0xDC00) + 0x10000
			}
			s += string(r)
		default: return "", false
		}
	}
	return "", false
}
func (p *zmJP) value() *zmJV {
	switch {
	case p.at('{') || p.at('['): return p.doc()
	case p.at('"'):
		s, ok := p.str()
		if !ok { return nil }
		return &zmJV{t: json.String, s: s}
	case p.at('t'): if !p.word("true") { return nil }; return &zmJV{t: json.Boolean, b: true}
	case p.at('f'): if !p.word("false") { return nil }; return &zmJV{t: json.Boolean}
	case p.at('n'): if !p.word("null") { return nil }; return &zmJV{t: json.Null}
	}
	return p.number()
}
func (p *zmJP) doc() *zmJV {
	v := &zmJV{t: json.Array}
	end := byte(']')
	if p.eat('{') { v.t, end = json.Object, '}' } else if !p.eat('[') { return nil }
	p.ws()
	if p.eat(end) { return v }
	for {
		if v.t == json.Object {
			p.ws()
			k, ok := p.str()
			if !ok { return nil }
			for _, o := range v.k { if o == k { return nil } }
			v.k = append(v.k, k)
			p.ws()
			if !p.eat(':') { return nil }
		}
		p.ws()
		e := p.value()
		if e == nil { return nil }
		v.l = append(v.l, e)
		p.ws()
		if p.eat(end) { return v }
		if !p.eat(',') { return nil }
	}
}
// zmJDoc is the value of a whole document, whether there is one at its start
func zmJDoc(s string) (v *zmJV, start bool) {
	p := &zmJP{s: s}
	p.ws()
	if v = p.doc(); v == nil { return nil, false }
	p.ws()
	if p.i < len(s) { return nil, true }
	return v, true
}
func zmJSame(v json.Value, r *zmJV) {
	zzAssert("type of value", v.Type() == r.t)
	switch r.t {
	case json.Object:
		m := v.AsMap()
		zzAssert("number of keys", len(m) == len(r.k))
		for i, k := range r.k {
			e, ok := m[k]
			zzAssert("key", ok)
			zmJSame(e, r.l[i])
		}
	case json.Array:
		l := v.AsSlice()
		zzAssert("number of elements", len(l) == len(r.l))
		for i := range l { zmJSame(l[i], r.l[i]) }
	case json.Number: zzAssert("number", string(v.AsNumber()) == r.s)
	case json.String: zzAssert("string", v.AsString() == r.s)
	case json.Boolean: zzAssert("boolean", v.AsBool() == r.b)
	case json.Null: zzAssert("null", v.IsNull())
	}
}
func zmJParse(s string) {
	v, e := parse.Parse(strings.NewReader(s))
	r, _ := zmJDoc(s)
	if r == nil {
		zzAssert("error of invalid document", e != nil)
		zzAssert("invalid value", v.Type() == json.Invalid)
		return
	}
	zzAssert("no error of valid document", e == nil)
	zmJSame(v, r)
}
func zmJIterate(s string) {
	it := parse.Iterate(strings.NewReader(s))
	r, start := zmJDoc(s)
	if r == nil && start { return }
	for n := 0;; n++ {
		v, e := it.Next()
		if e == nil {
			if r == nil { zzAssert("element", n <= len(s)); continue }
			if r.t == json.Object { zzAssert("one object", n == 0); zmJSame(v, r); continue }
			zzAssert("element of array", n < len(r.l))
			zmJSame(v, r.l[n])
			continue
		}
		if r == nil { zzAssert("error of invalid document", e != iter.EOI); return }
		zzAssert("ends", e == iter.EOI)
		if r.t == json.Object { zzAssert("one object", n == 1) } else { zzAssert("every element", n == len(r.l)) }
		return
	}
}`)
	run := func(s *lawRun) {
		s.x.MaxDepth, s.mayMiss, s.x.WidenAt, s.x.MaxSteps = 80, true, 60, 30000000
		s.x.MaxRecur, ai.Bytewise = 12, true
	}
	for _, f := range []string{"Parse", "Iterate"} {
		for i, t := range []string{
			"???", "[????", "{????", ` [ ? ] ?`, `{"a":?}`, `{"a":??}`, `{"a":1?"?":2}`, `{"a"?1??`, `{"?":1,"?":2}`, `[?,?]`, `[1???2]`,
			`["???"]`, `["\?"]`, `["\u????"]`, `["\ud83d\u?e??"]`, `["\u?8??\ude00"]`, `["\ud83d?u?e00"]`, `[-???]`, `[?.??]`, `[1e???]`, `[1?2?3]`, `[0?1]`,
			`[tru??`, `[fals??`, `[nul?]`, `[??ue]`, `[[?]?]`, `[{?}?]`, `{"a":{"b":?}?`, `{"a":[?]?}`, "?{}?", `["a"?"b"]`, `[1,?`, `{"?"?true}`, `["a?`,
		} {
			if f == "Iterate" && strings.Contains(t, `\u?`) {
				continue
			}
			if f == "Iterate" { // one less unknown byte, as every element is a state of its own
				t = strings.Replace(t, "????", "???", 1)
			}
			var ps, es []string
			for _, c := range []byte(t) {
				if c == '?' {
					ps = append(ps, fmt.Sprintf("b%d", len(ps)))
					es = append(es, ps[len(ps)-1])
				} else {
					es = append(es, fmt.Sprint(c))
				}
			}
			opt := run // the code unit of an escape is a sum of products
			if strings.Contains(t, "u?") {
				opt = func(s *lawRun) { run(s); ai.Poly = true }
			}
			split := []string{""}
			if t == "[????" { // the longest ones are analysed in parts
				split = []string{`b0 < '0' && `, `b0 >= '0' && b0 <= '9' && b1 > '.' && `, `b0 >= '0' && b0 <= '9' && b1 <= '.' && `, `b0 > '9' && `}
			}
			for j, part := range split {
				addLaw("J01", fmt.Sprintf("%s%d%s", f, i, strings.Repeat("P", j)), "("+strings.Join(ps, ", ")+" byte) {\n\tzzAssume("+part+strings.Join(ps, " < 128 && ")+" < 128)\n\tzmJ"+f+"(string([]byte{"+strings.Join(es, ", ")+"}))\n}", opt)
			}
		}
	}
	lawCheck("J01", "Exactly the JSON documents parse, to the value they denote", "", 1, nil)
}

func init() {
	goModel(`func zmIsSurrogate(r rune) bool { return r >= 0xD800 && r <= 0xDFFF }`, "zmIsSurrogate", "unicode/utf16.IsSurrogate")
	goModel(`func zmUTF16Decode(r, q rune) rune {
	if r >= 0xD800 && r < 0xDC00 && q >= 0xDC00 && q <= 0xDFFF { return (r-0xD800)*0x400 + (q - 0xDC00) + 0x10000 }
	return 0xFFFD
}`, "zmUTF16Decode", "unicode/utf16.DecodeRune")
}
