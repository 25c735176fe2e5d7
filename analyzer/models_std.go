package main

import "verif/analyzer/ai"

// Go models of standard library functions that keep state in their receiver or call back.

func init() {
	imp("io", "io")
	imp("unsafe", "unsafe")
	imp("strings", "strings")
	decl("type zmBuilder struct{ a, s any }") // laid over strings.Builder{addr, buf}: two fields that start nil
	goModel(`func zmSBString(p *strings.Builder) string {
	b := (*zmBuilder)(unsafe.Pointer(p))
	if b.s == nil { return "" }
	return b.s.(string)
}`, "zmSBString", "(*strings.Builder).String")
	goModel(`func zmSBWriteString(p *strings.Builder, s string) (int, error) {
	b := (*zmBuilder)(unsafe.Pointer(p))
	b.s = zmSBString(p) + s
	return len(s), nil
}`, "zmSBWriteString", "(*strings.Builder).WriteString")
	goModel(`func zmSBWrite(p *strings.Builder, s []byte) (int, error) { return zmSBWriteString(p, string(s)) }`, "zmSBWrite", "(*strings.Builder).Write")
	goModel(`func zmSBWriteRune(p *strings.Builder, r rune) (int, error) { return zmSBWriteString(p, string(r)) }`, "zmSBWriteRune", "(*strings.Builder).WriteRune")
	goModel(`func zmSBWriteByte(p *strings.Builder, c byte) error { zmSBWriteString(p, string([]byte{c})); return nil }`, "zmSBWriteByte", "(*strings.Builder).WriteByte")
	goModel(`func zmSBLen(p *strings.Builder) int { return len(zmSBString(p)) }`, "zmSBLen", "(*strings.Builder).Len")
	goModel(`func zmSBReset(p *strings.Builder) { (*zmBuilder)(unsafe.Pointer(p)).s = nil }`, "zmSBReset", "(*strings.Builder).Reset")
	goModel(`func zmSBGrow(p *strings.Builder, n int) {}`, "zmSBGrow", "(*strings.Builder).Grow")

	decl("type zmStrReader struct { s string; i int64; prev int }") // laid over strings.Reader
	goModel(`func zmStrNewReader(s string) *strings.Reader { return (*strings.Reader)(unsafe.Pointer(&zmStrReader{s, 0, -1})) }`, "zmStrNewReader", "strings.NewReader")
	goModel(`func zmStrRead(p *strings.Reader, b []byte) (n int, err error) {
	r := (*zmStrReader)(unsafe.Pointer(p))
	if r.i >= int64(len(r.s)) { return 0, io.EOF }
	r.prev = -1
	n = copy(b, r.s[r.i:])
	r.i += int64(n)
	return
}`, "zmStrRead", "(*strings.Reader).Read")
	goModel(`func zmStrReadByte(p *strings.Reader) (byte, error) {
	r := (*zmStrReader)(unsafe.Pointer(p))
	r.prev = -1
	if r.i >= int64(len(r.s)) { return 0, io.EOF }
	b := r.s[r.i]
	r.i++
	return b, nil
}`, "zmStrReadByte", "(*strings.Reader).ReadByte")

	goModel(`func zmReadAtLeast(r io.Reader, buf []byte, min int) (n int, err error) {
	if len(buf) < min { return 0, io.ErrShortBuffer }
	for n < min && err == nil {
		var nn int
		nn, err = r.Read(buf[n:])
		n += nn
	}
	if n >= min {
		err = nil
	} else if n > 0 && err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return
}`, "zmReadAtLeast", "io.ReadAtLeast")
	goModel(`func zmReadFull(r io.Reader, buf []byte) (n int, err error) { return zmReadAtLeast(r, buf, len(buf)) }`, "zmReadFull", "io.ReadFull")
	goModel(`func zmWriteString(w io.Writer, s string) (n int, err error) {
	if sw, ok := w.(io.StringWriter); ok { return sw.WriteString(s) }
	return w.Write([]byte(s))
}`, "zmWriteString", "io.WriteString")

	goModel(`func zmRuneLen(r rune) int {
	switch {
	case r < 0: return -1
	case r <= 0x7F: return 1
	case r <= 0x7FF: return 2
	case 0xD800 <= r && r <= 0xDFFF: return -1
	case r <= 0xFFFF: return 3
	case r <= 0x10FFFF: return 4
	}
	return -1
}`, "zmRuneLen", "unicode/utf8.RuneLen")
	goModel(`func zmValidRune(r rune) bool { return zmRuneLen(r) > 0 }`, "zmValidRune", "unicode/utf8.ValidRune")
	goModel(`func zmRuneStart(b byte) bool { return b&0xC0 != 0x80 }`, "zmRuneStart", "unicode/utf8.RuneStart")
	goModel(`func zmDecodeRune(p []byte) (rune, int) {
	if len(p) == 0 { return 0xFFFD, 0 }
	b := p[0]
	if b < 0x80 { return rune(b), 1 }
	n := 0
	var r rune
	switch {
	case b&0xE0 == 0xC0: n, r = 2, rune(b&0x1F)
	case b&0xF0 == 0xE0: n, r = 3, rune(b&0x0F)
	case b&0xF8 == 0xF0: n, r = 4, rune(b&0x07)
	}
	if n == 0 || len(p) < n { return 0xFFFD, 1 }
	for _, c := range p[1:n] {
		if c&0xC0 != 0x80 { return 0xFFFD, 1 }
		r = r<<6 | rune(c&0x3F)
	}
	if zmRuneLen(r) != n { return 0xFFFD, 1 }
	return r, n
}`, "zmDecodeRune", "unicode/utf8.DecodeRune")
}

func init() {
	decl("func zzUnmodelled() {}")
	ai.Library[drv+"zzUnmodelled"] = func(x *ai.Exec, st *ai.State, c *ai.Call) []ai.Outcome {
		x.Fail("outside of the model of a library function")
		return []ai.Outcome{}
	}
	goModel(`func zmSplit(s, sep string) (r []string) {
	if len(sep) != 1 { zzUnmodelled() }
	from := 0
	for i := 0; i < len(s); i++ {
		if s[i] == sep[0] { r = append(r, s[from:i]); from = i + 1 }
	}
	return append(r, s[from:])
}`, "zmSplit", "strings.Split")
	goModel(`func zmToUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 0x80 { zzUnmodelled() }
		if c >= 'a' && c <= 'z' { b[i] = c - 32 }
	}
	return string(b)
}`, "zmToUpper", "strings.ToUpper")
	goModel(`func zmToLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 0x80 { zzUnmodelled() }
		if c >= 'A' && c <= 'Z' { b[i] = c + 32 }
	}
	return string(b)
}`, "zmToLower", "strings.ToLower")
}
