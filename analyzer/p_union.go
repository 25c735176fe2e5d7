package main

import (
	"fmt"
	"strings"
)

func init() {
	imp("union", mod+"union")
	decl("type zmErr struct{ i int }\nfunc (zmErr) Error() string { return \"\" }\ntype zmErrs []int\nfunc (zmErrs) Error() string { return \"\" }")
	types_ := []string{"int", "string", "*int", "any"}
	tags := []string{"T", "U", "V", "W"}
	for n := 2; n <= 4; n++ {
		un := []string{"Two", "Three", "Four"}[n-2]
		targs := strings.Join(types_[:n], ",")
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, fmt.Sprintf("x%d, y%d %s", i, i, types_[i]))
		}
		params := strings.Join(ps, ", ")
		state := func(u, tag string, vals string, want int) string {
			var b strings.Builder
			fmt.Fprintf(&b, "\tzzAssert(\"%s which\", %s.Which() == union.%s)\n", tag, u, tags[want])
			for i := 0; i < n; i++ {
				if i == want {
					fmt.Fprintf(&b, "\tzzAssertSame(\"%s value %s\", %s.%s(), %s%d)\n", tag, tags[i], u, tags[i], vals, i)
				} else {
					fmt.Fprintf(&b, "\tzzAssert(\"%s no %s\", zmPanics(func() { %s.%s() }))\n", tag, tags[i], u, tags[i])
				}
			}
			return b.String()
		}
		for i := 0; i < n; i++ {
			var b strings.Builder
			fmt.Fprintf(&b, "(%s) {\n\tu := union.Of%d%s[%s](x%d)\n", params, n, tags[i], targs, i)
			b.WriteString(state("u", "of", "x", i))
			for j := 0; j < n; j++ {
				fmt.Fprintf(&b, "\tu%d := u\n\tu%d.Set%s(y%d)\n", j, j, tags[j], j)
				b.WriteString(state(fmt.Sprintf("u%d", j), fmt.Sprintf("set %s", tags[j]), "y", j))
			}
			b.WriteString(state("u", "copied", "x", i))
			b.WriteString("}")
			addLaw("U01", fmt.Sprintf("%sOf%s", un, tags[i]), b.String(), func(s *lawRun) { s.mayNil = true })
		}
	}
	lawCheck("U01", "unions", "abstract evaluation of law functions over symbolic members: after every constructor and setter, from every earlier state, exactly the member set last is available", 50, nil)

	for _, t := range []string{"int", "*int", "any", "[]int", "func()", "map[string]int", "error", "chan int"} {
		nm := strings.NewReplacer("*", "P", "[]", "S", "()", "", "[", "", "]", "", " ", "").Replace(t)
		// how the values are chosen and which of them are nil
		head := "(x, y TYPE, e error) {\n\tisNil, yNil := x == nil, y == nil\n"
		opt := func(s *lawRun) { s.mayNil = true }
		switch t {
		case "int":
			head = "(x, y TYPE, e error) {\n\tisNil, yNil := false, false\n"
			opt = func(s *lawRun) { s.mayMiss = true }
		case "any", "error":
			head = `(e error) {
	mk := func() (v TYPE, isNil bool) {
		switch {
		case zzBool("nil interface"):
			isNil = true
		case zzBool("nil pointer"):
			v, isNil = (*zmErr)(nil), true
		case zzBool("nil slice"):
			v, isNil = zmErrs(nil), true
		case zzBool("pointer"):
			v = &zmErr{}
		default:
			v = zmErr{zzInt()}
		}
		return
	}
	x, isNil := mk()
	y, yNil := mk()
`
		}
		head += "\t_, _, _, _, _ = x, y, e, isNil, yNil\n"
		src := strings.ReplaceAll(head+`	m := union.Of(x)
	zzAssert("Of present", m.Present() == !isNil)
	zzAssert("Of empty", m.Empty() == isNil)
	if isNil {
		zzAssert("Present panics", zmPanics(func() { union.Present(x) }))
		zzAssert("empty Get panics", zmPanics(func() { m.Get() }))
		zzAssertSame("empty OrElse", m.OrElse(y), y)
		v, err := m.OrError(e)
		var z TYPE
		zzAssertSame("empty OrError value", v, z)
		zzAssertSame("empty OrError", err, e)
	} else {
		p := union.Present(x)
		zzAssert("Present present", p.Present() && !p.Empty())
		zzAssertSame("Present value", p.Get(), x)
		zzAssertSame("Get", m.Get(), x)
		zzAssertSame("OrElse", m.OrElse(y), x)
		v, err := m.OrError(e)
		zzAssertSame("OrError value", v, x)
		zzAssert("OrError", err == nil)
	}
	s := m
	s.SetEmpty()
	zzAssert("SetEmpty", s.Empty() && !s.Present())
	zzAssertSame("SetEmpty value", s.OrElse(y), y)
	var z TYPE
	zz, _ := s.OrError(e)
	zzAssertSame("SetEmpty clears", zz, z)
	em := union.Empty[TYPE]()
	zzAssert("Empty", em.Empty() && !em.Present())
}`, "TYPE", t)
		addLaw("U02", "Maybe"+nm, src, opt)
		src = strings.ReplaceAll(head+`	m := union.Of(x)
	s := m
	s.Set(y)
	zzAssert("Set present", s.Present() == !yNil && s.Empty() == yNil)
	if !yNil {
		zzAssertSame("Set value", s.Get(), y)
	} else {
		zzAssert("Set nil", zmPanics(func() { s.Get() }))
	}
	zzAssert("copy unchanged", m.Present() == !isNil)
	o := m
	err := o.SetOrError(y)
	zzAssert("SetOrError error", (err == nil) == isNil)
	if isNil {
		zzAssert("SetOrError present", o.Present() == !yNil)
		if !yNil {
			zzAssertSame("SetOrError value", o.Get(), y)
		}
	} else {
		zzAssertSame("SetOrError keeps", o.Get(), x)
	}
	f := union.First([]TYPE{x, y})
	zzAssert("First present", f.Present() == !isNil)
	if !isNil {
		zzAssertSame("First value", f.Get(), x)
	}
	zzAssert("First of none", union.First([]TYPE{}).Empty())
	zzAssert("First of nil", union.First[TYPE](nil).Empty())
}`, "TYPE", t)
		addLaw("U02", "MaybeSet"+nm, src, opt)
		src = strings.ReplaceAll(`(x TYPE, e error) {
	r := union.OfResult(x)
	zzAssert("result", r.HasResult() && !r.HasError() && r.Error() == nil)
	zzAssertSame("result value", r.Get(), x)
	var z TYPE
	if e == nil {
		zzAssert("nil error", zmPanics(func() { union.OfError[TYPE](e) }))
		r = union.OfResultError(x, e)
		zzAssert("both result", r.HasResult() && !r.HasError() && r.Error() == nil)
		zzAssertSame("both value", r.Get(), x)
	} else {
		r = union.OfError[TYPE](e)
		zzAssert("error", !r.HasResult() && r.HasError())
		zzAssertSame("error value", r.Error(), e)
		zzAssertSame("error zero", r.Get(), z)
		r = union.OfResultError(z, e)
		zzAssert("both error", !r.HasResult() && r.HasError())
		zzAssertSame("both error value", r.Error(), e)
		zzAssertSame("both error zero", r.Get(), z)
	}
}`, "TYPE", t)
		addLaw("U03", "Result"+nm, src, func(s *lawRun) { s.mayNil = true })
	}
	lawCheck("U02", "maybes", "abstract evaluation of law functions over symbolic values, nil and not: presence, value, else value and error of every constructor and setter", 100, nil)
	lawCheck("U03", "results", "abstract evaluation of law functions over symbolic values and errors: a result has either its value or its error", 40, nil)
}
