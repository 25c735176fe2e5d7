package main

// Go models of functions of package strings, for strings of known length.

var strModels = map[string]string{}

// strModel registers a Go function as the model of a function of package strings.
func strModel(src, name string) {
	decl("func zms" + name + src)
	strModels["strings."+name] = "zms" + name
}

func init() {
	imp("strings", "strings")
	strModel(`(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }`, "HasPrefix")
	strModel(`(s, p string) bool { return len(s) >= len(p) && s[len(s)-len(p):] == p }`, "HasSuffix")
	strModel(`(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub { return i }
	}
	return -1
}`, "Index")
	strModel(`(s, sub string) int {
	for i := len(s) - len(sub); i >= 0; i-- {
		if s[i:i+len(sub)] == sub { return i }
	}
	return -1
}`, "LastIndex")
	strModel(`(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c { return i }
	}
	return -1
}`, "IndexByte")
	strModel(`(s, sub string) bool { return zmsIndex(s, sub) >= 0 }`, "Contains")
	strModel(`(s, p string) string {
	if zmsHasPrefix(s, p) { return s[len(p):] }
	return s
}`, "TrimPrefix")
	strModel(`(s, p string) string {
	if zmsHasSuffix(s, p) { return s[:len(s)-len(p)] }
	return s
}`, "TrimSuffix")
	strModel(`(s, p string) (string, bool) {
	if zmsHasPrefix(s, p) { return s[len(p):], true }
	return s, false
}`, "CutPrefix")
	strModel(`(s, sep string) (string, string, bool) {
	if i := zmsIndex(s, sep); i >= 0 { return s[:i], s[i+len(sep):], true }
	return s, "", false
}`, "Cut")
	decl(`func zmsIn(c byte, set string) bool {
	if c >= 0x80 { zzUnmodelled() }
	for i := 0; i < len(set); i++ {
		if set[i] >= 0x80 { zzUnmodelled() }
		if set[i] == c { return true }
	}
	return false
}`)
	strModel(`(s, set string) string {
	for len(s) > 0 && zmsIn(s[0], set) { s = s[1:] }
	return s
}`, "TrimLeft")
	strModel(`(s, set string) string {
	for len(s) > 0 && zmsIn(s[len(s)-1], set) { s = s[:len(s)-1] }
	return s
}`, "TrimRight")
	strModel(`(s, set string) string { return zmsTrimRight(zmsTrimLeft(s, set), set) }`, "Trim")
	strModel(`(s, old, new string, n int) string {
	if len(old) == 0 { zzUnmodelled() }
	r := ""
	for i := 0; i < len(s); {
		if n != 0 && i+len(old) <= len(s) && s[i:i+len(old)] == old {
			r += new
			i += len(old)
			n--
		} else {
			r += s[i:i+1]
			i++
		}
	}
	return r
}`, "Replace")
	strModel(`(s, old, new string) string { return zmsReplace(s, old, new, -1) }`, "ReplaceAll")
	strModel(`(s, sep string) (n int) {
	if len(sep) == 0 { zzUnmodelled() }
	for i := 0; i+len(sep) <= len(s); {
		if s[i:i+len(sep)] == sep {
			n++
			i += len(sep)
		} else {
			i++
		}
	}
	return
}`, "Count")
	strModel(`(s, sep string, n int) (r []string) {
	if len(sep) == 0 || n == 0 { zzUnmodelled() }
	for n != 1 {
		i := zmsIndex(s, sep)
		if i < 0 { break }
		r = append(r, s[:i])
		s = s[i+len(sep):]
		n--
	}
	return append(r, s)
}`, "SplitN")
	strModel(`(s string, n int) (r string) {
	if n < 0 { panic("negative count") }
	for ; n > 0; n-- { r += s }
	return
}`, "Repeat")
}
