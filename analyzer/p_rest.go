package main

import "strings"

// Laws of package rest. A regular expression is modelled by its text and by which paths it matches, decided once for
// each expression and path; a pattern starting with "!" does not compile.

func init() {
	imp("rest", mod+"rest")
	imp("http", "net/http")
	imp("url", "net/url")
	imp("regexp", "regexp")
	imp("gzip", "compress/gzip")
	decl(`type zmRe struct { pat string; path []string; match []bool; caps []int }
func (e *zmRe) on(s string) ([]string, bool) {
	for i := range e.path { if e.path[i] == s {
		if !e.match[i] { return nil, false }
		return []string{s, e.pat}, true
	} }
	m := zzBool("match")
	e.path, e.match = append(e.path, s), append(e.match, m)
	if !m { return nil, false }
	return []string{s, e.pat}, true
}
func zmREnew(p string) *regexp.Regexp { r := (*regexp.Regexp)(unsafe.Pointer(&zmRe{pat: p})); zmREall = append(zmREall, r); return r }
func zmREof(r *regexp.Regexp) *zmRe { return (*zmRe)(unsafe.Pointer(r)) }
type zmRW struct { h http.Header; codes []int; body string }
func (w *zmRW) Header() http.Header { if w.h == nil { w.h = http.Header{} }; return w.h }
func (w *zmRW) WriteHeader(c int) { w.codes = append(w.codes, c) }
func (w *zmRW) Write(b []byte) (int, error) {
	if len(w.codes) == 0 { w.codes = append(w.codes, 200) }
	w.body += string(b)
	return len(b), nil
}
func zmReq(m, p string) *http.Request { return &http.Request{Method: m, URL: &url.URL{Path: p}, Header: http.Header{}} }
type zmHandler struct { w http.ResponseWriter; r *http.Request; parts []string; n int }
func (h *zmHandler) Serve(w http.ResponseWriter, r *http.Request, parts []string) { h.w, h.r, h.parts = w, r, parts; h.n++ }
type zmBody struct { reads int }
func (b *zmBody) Read(p []byte) (int, error) { b.reads++; return 0, io.EOF }
func (b *zmBody) Close() error { return nil }
var zmGzipSrc io.Reader
func zmGzipNew(r io.Reader) (*gzip.Reader, error) {
	zmGzipSrc = r
	if zzBool("not gzip") { return nil, zzErr() }
	return &gzip.Reader{}, nil
}
`)
	goModel(`func zmHTTPError(w http.ResponseWriter, msg string, code int) { w.WriteHeader(code); w.Write([]byte(msg + "\n")) }`, "zmHTTPError", "net/http.Error")
	goModel(`func zmNotFound(w http.ResponseWriter, r *http.Request) { zmHTTPError(w, "404 page not found", 404) }`, "zmNotFound", "net/http.NotFound")
	goModel(`func zmHdrGet(h http.Header, k string) string { if v := h[k]; len(v) > 0 { return v[0] }; return "" }`, "zmHdrGet", "(net/http.Header).Get")
	goModel(`func zmHdrValues(h http.Header, k string) []string { return h[k] }`, "zmHdrValues", "(net/http.Header).Values")
	goModel(`func zmHdrSet(h http.Header, k, v string) { h[k] = []string{v} }`, "zmHdrSet", "(net/http.Header).Set")
	goModel("", "zmGzipNew", "compress/gzip.NewReader")
	const content = `
	b := &zmBody{}
	r := zmReq("POST", "/")
	r.Body = b
	set := zzBool("header")
	if set { r.Header["HEADER"] = []string{v} }
	set = set && v == "VALUE"
	`
	for _, l := range [][4]string{
		{"Gzip", "Accept-Encoding", "gzip", `zmGzipSrc = nil
	var rd io.Reader
	if p := zmCatch(func() { rd = rest.AcceptGzip(r) }); p != nil {
		zzAssert("panics for bad gzip", set && zmGzipSrc == io.Reader(b))
		return
	}
	if !set { zzAssertSame("the body", rd, io.Reader(b)); return }
	_, ok := rd.(*gzip.Reader)
	zzAssert("decompressed body", ok && zmGzipSrc == io.Reader(b))`},
		{"CSV", "Content-Type", "text/csv", `zmCSVSrc, zmCSVNext, zmCSVRecords = nil, 0, nil
	it := rest.NegotiateCSVContent(r)
	zzAssert("only for csv", (it != nil) == set)
	zzAssert("not read", b.reads == 0)
	if it == nil { return }
	it.Next()
	zzAssertSame("csv of the body", zmCSVSrc, io.Reader(b))`},
		{"JSON", "Content-Type", "application/json", `it := rest.NegotiateJSONContent(r)
	zzAssert("only for json", (it != nil) == set)
	if it == nil { return }
	it.Next()
	zzAssert("json of the body", b.reads > 0)`},
	} {
		addLaw("R02", l[0], "(v string) {"+strings.NewReplacer("HEADER", l[1], "VALUE", l[2]).Replace(content)+l[3]+"\n}", nil)
	}
	lawCheck("R02", "Content is negotiated by exactly the documented headers", "", 1, nil)
	re := zmRegexp
	decl(`func zmRECompile(p string) (*regexp.Regexp, error) {
	if p[0] == '!' { return nil, zzErr() }
	return zmREnew(p), nil
}
func zmREMust(p string) *regexp.Regexp { r, e := zmRECompile(p); if e != nil { panic(e) }; return r }
func zmREFindSub(r *regexp.Regexp, s string) []string { p, ok := zmREof(r).on(s); if !ok { return nil }; return p }
func zmREMatch(r *regexp.Regexp, s string) bool { _, ok := zmREof(r).on(s); return ok }
func zmREUnmodelled(r *regexp.Regexp, s string) []int { zzUnmodelled(); return nil }`)
	addLaw("R01", "Dispatch", `(m1, m2, m3, method, path string) {
	zmREall = nil
	var sm rest.ServeMux
	ms, ps := []string{m1, m2, m3}, []string{"p0", "p1", "p2"}
	hs := []*zmHandler{{}, {}, {}}
	zzAssume(m1 != "" && m2 != "" && m3 != "")
	for i, h := range hs { zzAssert("registered", sm.Handle(ms[i], ps[i], h) == nil) }
	// the second request with the same method and path is treated the same
	first := -2
	for round := 0; round < 2; round++ {
		for _, h := range hs { *h = zmHandler{} }
		w, r := &zmRW{}, zmReq(method, path)
		sm.ServeHTTP(w, r)
		n, who := 0, -1
		for i, h := range hs { n += h.n; if h.n > 0 { who = i } }
		zzAssert("same again", round == 0 || first == who)
		first = who
		if n > 0 {
			zzAssert("one handler, once", n == 1)
			zzAssert("method", ms[who] == method)
			h := hs[who]
			zzAssertSame("response writer", h.w, http.ResponseWriter(w))
			zzAssertSame("request", h.r, r)
			zzAssert("url parts", len(h.parts) == 2 && h.parts[0] == path && h.parts[1] == ps[who])
			zzAssert("handler answers", len(w.codes) == 0 && w.body == "")
		}
		// whatever was not looked at is decided now
		any, f := false, -1
		for i := range hs {
			if _, ok := zmREof(zmREall[i]).on(path); ok {
				any = true
				if f < 0 && ms[i] == method { f = i }
			}
		}
		zzAssert("first registered handler", f == who)
		if who < 0 {
			zzAssert("one status", len(w.codes) == 1)
			if any {
				zzAssert("405", w.codes[0] == 405 && w.body == "Method Not Allowed\n")
			} else {
				zzAssert("404", w.codes[0] == 404 && w.body == "Not Found\n")
			}
		}
	}
}`, func(s *lawRun) { re(s) })
	addLaw("R01", "Empty", `(method, path string) {
	zmREall = nil
	var sm rest.ServeMux
	w := &zmRW{}
	sm.ServeHTTP(w, zmReq(method, path))
	zzAssert("404", len(w.codes) == 1 && w.codes[0] == 404 && w.body == "Not Found\n")
}`, func(s *lawRun) { re(s) })
	addLaw("R01", "Refused", `(m, m2, pat string, method, path string, viaMust bool) {
	zmREall = nil
	var sm rest.ServeMux
	h, h2 := &zmHandler{}, &zmHandler{}
	zzAssume(m2 != "")
	zzAssume(method == m2)
	var hd rest.Handler = h
	if zzBool("no handler") { hd = nil }
	pats := []string{"", "!bad", "p0"}
	p := pats[zmPick(3)]
	var e error
	if viaMust { if x := zmCatch(func() { sm.MustHandle(m, p, hd) }); x != nil { e = x.(error) } } else { e = sm.Handle(m, p, hd) }
	bad := m == "" || p == "" || p == "!bad" || hd == nil
	zzAssert("refused", (e != nil) == bad)
	if !bad { return }
	// a refused handler is never called, and one registered later is
	zzAssert("later", sm.Handle(m2, "p1", h2) == nil)
	w := &zmRW{}
	sm.ServeHTTP(w, zmReq(method, path))
	zzAssert("not registered", h.n == 0 && h2.n + len(w.codes) == 1)
}`, func(s *lawRun) { re(s) })
	addLaw("R01", "HandlerFunc", `(a, b string) {
	w, r, n := &zmRW{}, zmReq("GET", "/"), 0
	f := rest.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request, p []string) {
		n++
		zzAssert("arguments", w2 == http.ResponseWriter(w) && r2 == r && len(p) == 2 && p[0] == a && p[1] == b)
	})
	f.Serve(w, r, []string{a, b})
	zzAssert("called once", n == 1)
}`, func(s *lawRun) { re(s) })
	decl(`var zmREall []*regexp.Regexp
func zmPick(n int) int { for i := 0; i < n-1; i++ { if zzBool("pick") { return i } }; return n-1 }`)
	lawCheck("R01", "Requests are dispatched to the first registered handler that matches", "", 1, nil)
}

// zmRegexp has regular expressions decided arbitrarily, but the same each time for the same text.
func zmRegexp(s *lawRun) {
	for k, v := range map[string]string{
		"regexp.Compile":                           "zmRECompile",
		"regexp.MustCompile":                       "zmREMust",
		"(*regexp.Regexp).FindStringSubmatch":      "zmREFindSub",
		"(*regexp.Regexp).MatchString":             "zmREMatch",
		"(*regexp.Regexp).FindStringSubmatchIndex": "zmREUnmodelled",
	} {
		s.x.Redirect[k] = s.c.P.Driver.Func(v)
	}
}
