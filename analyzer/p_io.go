package main

import (
	"fmt"
	"strings"
)

// Laws of packages io and io/writer.

func init() {
	imp("mio", mod+"io")
	imp("writer", mod+"io/writer")
	imp("tuple", mod+"tuple")
	// a destination that may fail at any write, after any number of bytes, or write less without an error
	decl(`const zmEOL = "\n"
type zmDst struct { writes [][]byte; got string; e error; failed, short bool; n int }
func (d *zmDst) Write(p []byte) (int, error) {
	zzAssert("no write after a failed one", !d.failed && !d.short)
	d.got += string(p)
	if zzBool("fails") {
		d.failed, d.e = true, zzErr()
		n := zzInt()
		zzAssume(n >= 0 && n <= len(p))
		return n, d.e
	}
	if len(p) > 0 && zzBool("short") {
		d.short = true
		n := zzInt()
		zzAssume(n >= 0 && n < len(p))
		return n, nil
	}
	return len(p), nil
}
// zmWritten: the strings of want were written in order up to a failure
func zmWritten(d *zmDst, e error, want []string) {
	all, some := "", d.got == ""
	for _, w := range want { all += w; if d.got == all { some = true } }
	if d.failed { zzAssertSame("the error of the destination", e, d.e) }
	if d.short { zzAssert("a short write is an error", e != nil) }
	if d.failed || d.short { zzAssert("what is written before the failure", some); return }
	zzAssert("no error", e == nil)
	zzAssert("everything is written in order", d.got == all)
}`)
	opt := func(s *lawRun) { s.mayMiss = true }
	for n := 0; n <= 3; n++ {
		for _, l := range [][3]string{
			{"Bytes", "byte", "string([]byte{v})"},
			{"Runes", "rune", "string(v)"},
			{"Strings", "string", "v"},
			{"Lines", "string", "v, zmEOL"},
		} {
			vs := strings.Split("a, b, c", ", ")[:n]
			addLaw("W01", fmt.Sprintf("%s%d", l[0], n), strings.NewReplacer("TYPE", l[1], "VALUES", strings.Join(vs, ", "), "FN", "OfIOWriterAs"+l[0], "TEXT", l[2]).Replace(`(a, b, c TYPE) {
	d := &zmDst{}
	w := writer.FN(d)
	zzAssert("lazy", len(d.got) == 0)
	var want []string
	for _, v := range []TYPE{VALUES} { want = append(want, TEXT) }
	zmWritten(d, w.Write(VALUES), want)
}`), opt)
		}
	}
	// generators and containers
	addLaw("W01", "Slice", `(a, b, c, d, o1, o2 int) {
	old := []int{o1, o2}[:zmPick(3)]
	s := zmCopy(old)
	w := writer.OfSliceWriter(&s)
	zzAssert("no error", w.Write() == nil && w.Write(a, b) == nil && w.Write(c) == nil)
	zzAssert("length", len(s) == len(old)+3)
	n := len(old)
	zzAssert("values", s[n] == a && s[n+1] == b && s[n+2] == c)
	for i := range old { zzAssert("earlier values", s[i] == old[i]) }
	s = s[:1]
	zzAssert("no error again", w.Write(d) == nil)
	zzAssert("the slice of the caller", len(s) == 2 && s[1] == d)
}`, opt)
	addLaw("W01", "Map", `(a, b, k string, v, w, x int) {
	m := map[string]int{k: x}
	wr := writer.OfMapWriter(m)
	zzAssert("no error", wr.Write(tuple.Of2(a, v), tuple.Of2(b, w)) == nil)
	zzAssert("last value of a key", m[b] == w && (a == b || m[a] == v))
	zzAssert("other keys", k == a || k == b || m[k] == x)
	n := 1
	if a != k { n++ }
	if b != a && b != k { n++ }
	zzAssert("no other keys", len(m) == n)
}`, opt)
	addLaw("W01", "Func", `(a, b, c int, e error) {
	zzAssert("needs a function", zmPanics(func() { writer.NewWriter[int](nil) }))
	var got []int
	at := zmPick(4)
	w := writer.NewWriter(func(v int) error {
		if len(got) == at { at = -1; return e }
		zzAssert("no value after an error", at >= 0)
		got = append(got, v)
		return nil
	})
	err := w.Write(a, b, c)
	zzAssert("the error of the function", at < 0 && err == e || at == 3 && err == nil)
	for i, v := range []int{a, b, c} { if i < len(got) { zzAssert("values in order", got[i] == v) } }
	zzAssert("every value", at < 0 || len(got) == 3)
}`, opt)
	// the reader and writer that fail on purpose
	addLaw("W02", "Reader", `(a, b, c byte, e error) {
	data := []byte{a, b, c}[:zmPick(4)]
	r := mio.NewErrorReader(data, e)
	pos := 0
	for i := 0; i < 5; i++ {
		p := []byte{1, 2, 3, 4}[:zmPick(5)]
		n, err := r.Read(p)
		if pos == len(data) { zzAssert("the error", n == 0 && err == e); continue }
		want := len(p)
		if want > len(data)-pos { want = len(data)-pos }
		zzAssert("as many bytes as asked for or remain", n == want && err == nil)
		for j := range p {
			if j < n { zzAssert("bytes in order", p[j] == data[pos+j]) } else { zzAssert("no other bytes", p[j] == byte(j+1)) }
		}
		pos += n
	}
	zzAssert("input not modified", len(data) == 0 || data[0] == a)
}`, opt)
	addLaw("W02", "Writer", `(a, b, c, d byte, e error) {
	data := []byte{a, b, c, d}
	count := zmPick(5)
	w := mio.NewErrorWriter(count, e)
	out := 0
	for i := 0; i < 4; i++ {
		p := data[:zmPick(4)]
		n, err := w.Write(p)
		if out == count { zzAssert("the error", n == 0 && err == e); continue }
		want := len(p)
		if want > count-out { want = count-out }
		zzAssert("as many bytes as given or allowed", n == want && err == nil)
		o := w.Output()
		zzAssert("output so far", len(o) == out+n)
		for j := 0; j < n; j++ { zzAssert("bytes in order", o[out+j] == p[j]) }
		out += n
	}
	zzAssert("output", len(w.Output()) == out)
}`, opt)
	addLaw("W02", "WriterNegative", `(a, b byte, count int, e error) {
	zzAssume(count < 0)
	w := mio.NewErrorWriter(count, e)
	for i := 0; i < 2; i++ {
		n, err := w.Write([]byte{a, b})
		zzAssert("nothing and no error", n == 0 && err == nil && len(w.Output()) == 0)
	}
}`, opt)
	lawCheck("W01", "Writers write every value once, in order, up to the first error", "", 1, nil)
	lawCheck("W02", "The readers and writers that fail on purpose transfer exactly what they promise", "", 1, nil)
}
