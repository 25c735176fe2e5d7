package main

import (
	"fmt"
	"strings"
)

// Laws of event.Registry, over histories of operations with symbolic ids. The
// value sent is a number each receiver adds its digit to, so that the number
// that comes back tells which receivers ran, and in what order.

func init() {
	imp("event", mod+"event")
	decl(`type zmRcv struct{ n int }
func (r *zmRcv) Process(v int) int { return v*10 + r.n }
// zmSent is what sending 9 gives with receivers n[i] of ids id[i], where on[i]
func zmSent[I int | string](id []I, n []int, on []bool) int {
	v := 9
	for _, o := range on { if o { v *= 10 } }
	for i := range id {
		if !on[i] { continue }
		// how many come after receiver i
		m := n[i]
		for j := range id {
			if j != i && on[j] && (id[j] > id[i] || id[j] == id[i] && j > i) { m *= 10 }
		}
		v += m
	}
	return v
}`)
	for _, t := range []string{"int", "string"} {
		law := func(name, src string) {
			addLaw("E01", name+t, strings.ReplaceAll(src, "TYPE", t), nil)
		}
		law("Order", `(a, b, c TYPE) {
	var r event.Registry[TYPE, int]
	zzAssert("no receivers", r.Send(7) == 7)
	ids, ns, on := []TYPE{a, b, c}, []int{1, 2, 3}, []bool{false, false, false}
	for i, id := range ids {
		r.Register(id, &zmRcv{ns[i]})
		on[i] = true
		zzAssert("receivers in order", r.Send(9) == zmSent(ids, ns, on))
		zzAssert("a second time", r.Send(9) == zmSent(ids, ns, on))
	}
}`)
		for i, op := range []string{
			`r.RemoveId(e)
	for i := range ids { if ids[i] == e { on[i] = false } }`,
			`r.Remove(e, r1)
	for i := range ids { if ids[i] == e && ns[i] == 1 { on[i] = false; break } }`,
			`r.Remove(e, r1, funcs.ALL)
	for i := range ids { if ids[i] == e && ns[i] == 1 { on[i] = false } }`,
		} {
			for k, ns := range []string{"1, 1, 2", "1, 2, 1", "2, 1, 1"} {
				law(fmt.Sprintf("Remove%d%d", i, k), `(a, b, c, e TYPE) {
	var r event.Registry[TYPE, int]
	r1, r2, r3 := &zmRcv{1}, &zmRcv{2}, &zmRcv{3}
	rs := []*zmRcv{r1, r1, r2, r3}
	ids, ns, on := []TYPE{a, b, c, e}, []int{`+ns+`, 3}, []bool{false, false, false, false}
	for i := 0; i < 3; i++ {
		if ns[i] == 1 { rs[i] = r1 } else { rs[i] = r2 }
		r.Register(ids[i], rs[i])
		on[i] = true
	}
	`+op+`
	zzAssert("the remaining receivers", r.Send(9) == zmSent(ids, ns, on))
	// and the registry is still usable
	r.Register(e, r3)
	on[3] = true
	zzAssert("the remaining receivers and a new one", r.Send(9) == zmSent(ids, ns, on))
}`)
			}
		}
	}
	addLaw("E01", "Value", `(a, b int, v string) {
	var r event.Registry[int, string]
	n := 0
	f := event.ReceiverFunc[string](func(s string) string { n++; zzAssertSame("the value sent", s, v); return "x" })
	g := event.ReceiverFunc[string](func(s string) string { n++; zzAssertSame("the value of the previous receiver", s, "x"); return "y" })
	zzAssertSame("no receivers", r.Send(v), v)
	zzAssume(a <= b)
	r.Register(a, f)
	r.Register(b, g)
	zzAssertSame("the value of the last receiver", r.Send(v), "y")
	zzAssert("each once", n == 2)
	// an event sent by a receiver
	h := event.ReceiverFunc[string](func(s string) string { if s != v { return s + "!" }; return r.Send("w") + "?" })
	r.RemoveId(a)
	r.RemoveId(b)
	r.Register(a, h)
	zzAssume(v != "w")
	zzAssert("nested", r.Send(v) == "w!?")
	zzAssert("nested again", r.Send(v) == "w!?")
}`, nil)
	lawCheck("E01", "Events pass through the registered receivers in the order of their ids", "", 1, nil)
}
