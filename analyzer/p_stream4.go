package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register(&Check{ID: "S06", Title: "distinct and duplicate", Min: 20,
		Rule: "typestate simulation over all equality patterns of up to four source values: distinct emits exactly the first occurrences, duplicate exactly the second occurrences, in order, with separate state for every source",
		Run: func(c *Ctx) {
			for _, tt := range streamTypes(c) {
				streamDistinct(c, "Distinct", tt[0], 1)
				streamDistinct(c, "Duplicate", tt[0], 2)
			}
		}})
	register(&Check{ID: "S07", Title: "reverse and sort", Min: 20,
		Rule: "abstract evaluation for sources of up to four values with all failure points: the result iterates a permutation of the values obtained by full reversal, or by the library sort with a comparator that is exactly the given order, on the collected copy; a failure is reported by the first request",
		Run: func(c *Ctx) {
			for _, tt := range streamTypes(c) {
				streamReverse(c, tt[0])
				streamSortBy(c, tt[0])
			}
			id := func(st *ai.State, v ai.Val) ai.Val { return v }
			streamSortOrder(c, "SortOrdered", intT, id, nil)
			streamSortOrder(c, "SortComplex", types.Typ[types.Complex128], func(st *ai.State, v ai.Val) ai.Val {
				return ai.App(types.Typ[types.Float64], "call:math/cmplx.Abs#0", ai.Strip(v))
			}, nil)
			streamSortOrder(c, "SortCmp", bigType("*big.Int"), nil, nil)
		}})
	register(&Check{ID: "S08", Title: "numeric reductions", Min: 20,
		Rule: "typestate simulation against a fold automaton: minimum and maximum keep a value not beaten by any value read (every ordering outcome forked), sums add every value exactly once with the type's addition, empty sources give empty results, failures end the result unchanged",
		Run: func(c *Ctx) {
			for _, n := range []string{"int", "uint", "string", "float64"} {
				t := types.Universe.Lookup(n).Type()
				streamExtreme(c, "Max", t)
				streamExtreme(c, "Min", t)
				if n != "string" {
					streamSum(c, t)
				}
			}
			for _, n := range bigNames {
				t := bigType(n)
				streamExtreme(c, "MaxCmp", t)
				streamExtreme(c, "MinCmp", t)
				streamSumBig(c, t)
				streamAbs(c, "AbsBigOps", t)
				streamAvg(c, "AvgBigOps", t, 0)
			}
			for _, n := range []string{"int", "int8", "int64"} {
				streamAbs(c, "Abs", types.Universe.Lookup(n).Type())
				streamAvg(c, "AvgInt", types.Universe.Lookup(n).Type(), 0)
			}
			for _, n := range []string{"uint", "uint8"} {
				streamAvg(c, "AvgUint", types.Universe.Lookup(n).Type(), 0)
			}
			// more values than a counter of eight bits can count
			for _, n := range []string{"int", "int8"} {
				streamAvg(c, "AvgInt", types.Universe.Lookup(n).Type(), 300)
			}
			for _, n := range []string{"uint", "uint8"} {
				streamAvg(c, "AvgUint", types.Universe.Lookup(n).Type(), 300)
			}
		}})
}

// patterned makes sources return up to max values: each is new and different from all others, or equal to an earlier
// one; the registers "d0", "d1", ... hold the distinct values, "n0", ... how often each was read.
func (s *sim) patterned(max int) {
	s.values = func(st *ai.State) (out []ai.Outcome) {
		n := numRead(st)
		if n >= max {
			return nil
		}
		st.Mon["nread"] = ai.MkInt(intT, int64(n+1))
		d := 0
		for st.Mon["d"+strconv.Itoa(d)] != nil {
			o := st.Clone()
			k := "n" + strconv.Itoa(d)
			i, _ := ai.IntOf(o.Mon[k])
			o.Mon[k] = ai.MkInt(intT, i.Int64()+1)
			o.Mon["occ"] = o.Mon[k]
			v := o.Mon["d"+strconv.Itoa(d)]
			o.Event("(equal to value %d)", d)
			out = append(out, ai.Outcome{St: o, Vals: []ai.Val{v}})
			d++
		}
		o := st.Clone()
		v := o.NewLeaf(s.elem, fmt.Sprintf("d%d:%s", d, side(o)), false)
		for i := 0; i < d; i++ {
			o.SetRel(v, o.Mon["d"+strconv.Itoa(i)], ai.LT|ai.GT|ai.UN)
		}
		o.Mon["d"+strconv.Itoa(d)] = v
		o.Mon["n"+strconv.Itoa(d)] = ai.MkInt(intT, 1)
		o.Mon["occ"] = ai.MkInt(intT, 1)
		return append(out, ai.Outcome{St: o, Vals: []ai.Val{v}})
	}
}

func streamDistinct(c *Ctx, name string, t types.Type, occ int64) {
	f := c.Inst("stream", name, t)
	key := fmt.Sprintf("%s[%s]", name, tname(t))
	if !c.Need(f, key) {
		return
	}
	for _, mode := range []string{"one source", "two sources", "many occurrences"} {
		key := key + " " + mode
		s := newSim(c, key, f.Pos(), t)
		s.single = mode != "two sources"
		s.maxStates = 20000
		s.lazily()
		max := 4
		if !s.single {
			max = 2
		}
		s.patterned(max)
		if mode == "many occurrences" {
			// one value occurs so often that a counter of less than 16 bits wraps around
			s.exact = 600
			s.x.WidenAt = s.exact + 8
			s.bounded = true
			s.values = func(st *ai.State) []ai.Outcome {
				n := numRead(st)
				st.Mon["nread"] = ai.MkInt(intT, int64(n+1))
				v := st.Mon["d0"]
				if v == nil {
					v = st.NewLeaf(s.elem, "d0", false)
					st.Mon["d0"] = v
					st.SetRel(v, v, ai.EQ)
				}
				st.Mon["occ"] = ai.MkInt(intT, int64(n+1))
				return []ai.Outcome{{St: st, Vals: []ai.Val{v}}}
			}
		}
		old := s.before
		s.before = func(st *ai.State, src string) {
			old(st, src)
			if st.Mon["res"] != nil {
				s.fail(st, "elements", "occurrence %d of a value is not returned", occ)
			}
			delete(st.Mon, "res")
		}
		s.onVal = func(st *ai.State, src string, v ai.Val) {
			if i, _ := ai.IntOf(st.Mon["occ"]); i.Int64() == occ {
				st.Mon["res"] = v
			}
		}
		s.ret = func(st *ai.State, vals []ai.Val) {
			if st.Nilness(vals[1]) == 2 {
				s.errResult(st, vals[1])
				return
			}
			s.valResult(st)
			if st.Mon["res"] == nil || !same(st, st.Mon["res"], vals[0]) {
				s.fail(st, "elements", "returns a value that is not occurrence %d of it", occ)
			}
			delete(st.Mon, "res")
		}
		s.transform(c.State(), nil, nil, f, true)
		s.ok(simRules...)
	}
}

// permuted drives an eager transform and checks that the result iterates the given permutation of the source.
func (s *sim) permuted(want func(st *ai.State, n int) []ai.Val) {
	s.single, s.bounded = true, true
	s.x.WidenAt = 8
	s.ret = func(st *ai.State, vals []ai.Val) {
		if st.Nilness(vals[1]) == 2 {
			if f := st.Mon["failure"]; f == nil && numOut(st) != numRead(st) {
				s.fail(st, "elements", "ends after %d of %d values", numOut(st), numRead(st))
			}
			s.errResult(st, vals[1])
			return
		}
		s.valResult(st)
		n := numRead(st)
		w := want(st, n)
		i := numOut(st)
		if i >= len(w) || !same(st, w[i], vals[0]) {
			s.fail(st, "elements", "value %d returned is %s, which is not the expected one", i, short(vals[0].K()))
		}
		st.Mon["nout"] = ai.MkInt(intT, int64(i+1))
	}
}

func numOut(st *ai.State) int {
	if v := st.Mon["nout"]; v != nil {
		i, _ := ai.IntOf(v)
		return int(i.Int64())
	}
	return 0
}

func streamReverse(c *Ctx, t types.Type) {
	f := c.Inst("stream", "Reverse", t)
	key := fmt.Sprintf("Reverse[%s]", tname(t))
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	s.numbered(4)
	s.permuted(func(st *ai.State, n int) (out []ai.Val) {
		for i := n - 1; i >= 0; i-- {
			out = append(out, st.Mon["v"+strconv.Itoa(i)])
		}
		return
	})
	s.transform(c.State(), nil, nil, f, false)
	s.ok("elements", "errors", "latched", "no-panic", "zero-value-on-error", "decided")
}

// sorted drives a sorting transform: the results are a permutation of the values read, and no result is less than the
// one before it.
func (s *sim) sorted(max int, less func(st *ai.State, a, b ai.Val) bool, con *ssa.Function, conArgs func(st *ai.State) []ai.Val, tr *ssa.Function) {
	s.numbered(max)
	s.single, s.bounded = true, true
	s.x.WidenAt = 8
	s.ret = func(st *ai.State, vals []ai.Val) {
		if st.Nilness(vals[1]) == 2 {
			if f := st.Mon["failure"]; f == nil && numOut(st) != numRead(st) {
				s.fail(st, "elements", "ends after %d of %d values", numOut(st), numRead(st))
			}
			s.errResult(st, vals[1])
			return
		}
		s.valResult(st)
		found := false
		for i := 0; i < numRead(st); i++ {
			k := strconv.Itoa(i)
			if !found && !isSet(st, "out"+k) && same(st, st.Mon["v"+k], vals[0]) {
				setFlag(st, "out"+k, true)
				found = true
			}
		}
		if !found {
			s.fail(st, "elements", "returns %s, which is not a value of the source or was returned already", short(vals[0].K()))
		}
		if p := st.Mon["prev"]; p != nil && less(st, vals[0], p) {
			s.fail(st, "order", "returns %s after %s, although it may be less", short(vals[0].K()), short(p.K()))
		}
		st.Mon["prev"] = vals[0]
		st.Mon["nout"] = ai.MkInt(intT, int64(numOut(st)+1))
	}
	st := s.c.State()
	var args []ai.Val
	if conArgs != nil {
		args = conArgs(st)
	}
	s.transform(st, con, args, tr, false)
	s.ok("elements", "order", "errors", "latched", "no-panic", "zero-value-on-error", "decided")
}

func streamSortBy(c *Ctx, t types.Type) {
	f := c.Inst("stream", "SortBy", t)
	key := fmt.Sprintf("SortBy[%s]", tname(t))
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	id := func(st *ai.State, v ai.Val) string {
		for i := 0; i < numRead(st); i++ {
			if same(st, st.Mon["v"+strconv.Itoa(i)], v) {
				return strconv.Itoa(i)
			}
		}
		return ""
	}
	s.fns["less"] = func(st *ai.State, cl *ai.Call) []ai.Outcome {
		a, b := id(st, cl.Args[0]), id(st, cl.Args[1])
		if a == "" || b == "" {
			s.fail(st, "elements", "the comparator is called with a value that was not read")
			return nil
		}
		res := func(st *ai.State, r bool) ai.Outcome { return ai.Outcome{St: st, Vals: []ai.Val{ai.MkBool(r)}} }
		if a == b || isSet(st, "lt"+b+"<"+a) {
			return []ai.Outcome{res(st, false)}
		}
		if v := st.Mon["lt"+a+"<"+b]; v != nil {
			return []ai.Outcome{res(st, ai.IsTrue(v))}
		}
		y, n := st.Clone(), st
		y.Event("less(%s,%s)", a, b)
		n.Event("!less(%s,%s)", a, b)
		y.Mon["lt"+a+"<"+b] = ai.MkBool(true)
		n.Mon["lt"+a+"<"+b] = ai.MkBool(false)
		return []ai.Outcome{res(y, true), res(n, false)}
	}
	s.sorted(3, func(st *ai.State, a, b ai.Val) bool {
		v := st.Mon["lt"+id(st, a)+"<"+id(st, b)]
		w := st.Mon["lt"+id(st, b)+"<"+id(st, a)]
		return !(v != nil && ai.IsFalse(v) || w != nil && ai.IsTrue(w))
	}, f, func(st *ai.State) []ai.Val { return []ai.Val{fnLeaf(st, paramT(f, 0), "less")} }, nil)
}

func streamSortOrder(c *Ctx, name string, t types.Type, order func(st *ai.State, v ai.Val) ai.Val, lt func(st *ai.State, a, b ai.Val) bool) {
	f := c.Inst("stream", name, t)
	key := fmt.Sprintf("%s[%s]", name, tname(t))
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	s.nonNil = true
	if order == nil {
		order = s.content
	}
	if lt == nil {
		lt = func(st *ai.State, a, b ai.Val) bool {
			y, _ := s.x.BranchCmp(st.Clone(), order(st, a), "<", order(st, b))
			return y != nil
		}
	}
	s.sorted(3, lt, nil, nil, f)
}

// content is the value an element is compared by: its own, or what the pointer refers to.
func (s *sim) content(st *ai.State, v ai.Val) ai.Val {
	if p, ok := s.elem.(*types.Pointer); ok && bigName(p) != "" {
		return s.x.BigContent(st, v, p.Elem())
	}
	return v
}

func bigName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		for _, n := range []string{"Int", "Float", "Rat"} {
			if ai.IsBig(p.Elem(), n) {
				return n
			}
		}
	}
	return ""
}

// readonlySource fails when memory of a value of the source is written.
func (s *sim) readonlySource() {
	if bigName(s.elem) == "" {
		return
	}
	s.x.OnStore = func(st *ai.State, addr, v ai.Val, in ssa.Instruction) {
		for i := 0; i < numRead(st); i++ {
			if v := st.Mon["v"+strconv.Itoa(i)]; v != nil && ai.PointsTo(addr, v) {
				s.fail(st, "unmodified", "modifies value %d of the source", i)
			}
		}
	}
}

func streamExtreme(c *Ctx, name string, t types.Type) {
	f := c.Inst("stream", name, t)
	key := fmt.Sprintf("%s[%s]", name, tname(t))
	if !c.Need(f, key) {
		return
	}
	op := ">"
	if strings.HasPrefix(name, "Min") {
		op = "<"
	}
	s := newSim(c, key, f.Pos(), t)
	s.lazily()
	s.numbered(3)
	s.nonNil = true
	s.single, s.bounded = true, true
	s.readonlySource()
	s.ret = func(st *ai.State, vals []ai.Val) {
		s.singleResult(st, vals, "v0", func(st *ai.State, v ai.Val) bool {
			found := false
			st = st.Clone()
			for i := 0; i < numRead(st); i++ {
				w := st.Mon["v"+strconv.Itoa(i)]
				found = found || same(st, w, v)
				if beaten, _ := s.x.BranchCmp(st.Clone(), s.content(st, w), op, s.content(st, v)); beaten != nil {
					s.fail(st, "extreme", "returns %s although %s may be %s it", short(v.K()), short(w.K()), op)
				}
			}
			return found
		})
	}
	s.transform(c.State(), nil, nil, f, true)
	s.ok(simRules...)
	s.ok("extreme", "unmodified")
}

func streamSumBig(c *Ctx, t types.Type) {
	f := c.Inst("stream", "SumBigOps", t)
	key := fmt.Sprintf("SumBigOps[%s]", tname(t))
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	s.lazily()
	s.x.WidenAt = 8
	s.numbered(3)
	s.nonNil = true
	s.single, s.bounded = true, true
	s.readonlySource()
	s.ret = func(st *ai.State, vals []ai.Val) {
		s.singleResult(st, vals, "v0", func(st *ai.State, v ai.Val) bool {
			var l []ai.Val
			for i := 0; i < numRead(st); i++ {
				l = append(l, s.content(st, st.Mon["v"+strconv.Itoa(i)]))
			}
			return sumOf(s.content(st, v), l)
		})
	}
	s.transform(c.State(), nil, nil, f, true)
	s.ok(simRules...)
	s.ok("unmodified")
}

// streamAbs: each value's absolute value, in order; for integers without one, an error.
func streamAbs(c *Ctx, name string, t types.Type) {
	f := c.Inst("stream", name, t)
	key := fmt.Sprintf("%s[%s]", name, tname(t))
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	s.lazily()
	s.numbered(2)
	s.nonNil = true
	s.single, s.bounded = true, true
	s.readonlySource()
	s.x.ForkWrap = true
	s.onVal = func(st *ai.State, src string, v ai.Val) { st.Mon["c"+strconv.Itoa(numRead(st)-1)] = s.content(st, v) }
	s.ret = func(st *ai.State, vals []ai.Val) {
		i := numOut(st)
		cur := st.Mon["v"+strconv.Itoa(i)]
		if st.Nilness(vals[1]) == 2 {
			if cur == nil || isSet(st, "reported") {
				s.errResult(st, vals[1])
				return
			}
			// a value was read, but its absolute value is not returned
			setFlag(st, "reported", true)
			lo, _ := ai.TypeRange(t)
			if lo == nil {
				s.fail(st, "elements", "reports %s instead of an absolute value", short(vals[1].K()))
				return
			}
			if r := st.Rel(cur, ai.MkBig(t, lo)); r != ai.EQ {
				s.fail(st, "elements", "reports an error for a value that has an absolute value")
			}
			return
		}
		s.valResult(st)
		if cur == nil {
			s.fail(st, "elements", "returns more values than were read")
			return
		}
		in, out := st.Mon["c"+strconv.Itoa(i)], s.content(st, vals[0])
		if bigName(t) == "Rat" {
			var d1, d2 ai.Val
			in, d1 = ai.NumParts(in)
			out, d2 = ai.NumParts(out)
			if d1.K() != d2.K() {
				s.fail(st, "elements", "the denominator changes")
			}
		}
		zero := ai.MkInt(ai.TypeOf(in), 0)
		neg, pos := s.x.BranchCmp(st.Clone(), in, "<", zero)
		if neg != nil && pos != nil {
			s.fail(st, "elements", "returns %s for a value of either sign", short(out.K()))
		}
		if neg != nil && !isNeg(out, in) || pos != nil && !same(st, out, in) {
			s.fail(st, "elements", "returns %s, which is not the absolute value", short(out.K()))
		}
		if lo, _ := ai.TypeRange(t); lo != nil {
			if st.Rel(cur, ai.MkBig(t, lo))&ai.EQ != 0 {
				s.fail(st, "elements", "returns a value although the absolute value may not exist")
			}
		}
		st.Mon["nout"] = ai.MkInt(intT, int64(i+1))
	}
	s.transform(c.State(), nil, nil, f, true)
	s.ok(simRules...)
	s.ok("unmodified")
}

// isNeg reports whether out is the negation of in.
func isNeg(out, in ai.Val) bool {
	t, ok := ai.Strip(out).(*ai.Term)
	if !ok {
		return false
	}
	if t.Op == "neg" && len(t.Args) == 1 {
		return ai.Strip(t.Args[0]).K() == ai.Strip(in).K()
	}
	if t.Op == "-" && len(t.Args) == 2 && ai.IsZero(t.Args[0]) {
		return ai.Strip(t.Args[1]).K() == ai.Strip(in).K()
	}
	return false
}

func streamSum(c *Ctx, t types.Type) {
	f := c.Inst("stream", "Sum", t)
	key := fmt.Sprintf("Sum[%s]", tname(t))
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	s.lazily()
	s.x.WidenAt = 8
	s.numbered(4)
	s.single = true
	s.ret = func(st *ai.State, vals []ai.Val) {
		s.singleResult(st, vals, "v0", func(st *ai.State, v ai.Val) bool {
			var l []ai.Val
			for i := 0; i < numRead(st); i++ {
				l = append(l, st.Mon["v"+strconv.Itoa(i)])
			}
			return sumOf(v, l)
		})
	}
	s.transform(c.State(), nil, nil, f, true)
	s.ok(simRules...)
}

// sumOf reports whether v is the sum of the terms, in any association.
func sumOf(v ai.Val, terms []ai.Val) bool {
	count := map[string]int{}
	for _, t := range terms {
		count[ai.Strip(t).K()]++
	}
	var walk func(v ai.Val) bool
	walk = func(v ai.Val) bool {
		if i, ok := ai.IntOf(v); ok && i.Sign() == 0 {
			return true
		}
		if t, ok := v.(*ai.Term); ok && (t.Op == "+" || t.Op == "add") && len(t.Args) == 2 {
			return walk(t.Args[0]) && walk(t.Args[1])
		}
		k := ai.Strip(v).K()
		if count[k] == 0 {
			return false
		}
		count[k]--
		return true
	}
	if !walk(v) {
		return false
	}
	for _, n := range count {
		if n != 0 {
			return false
		}
	}
	return true
}

var _ ssa.Value

func bigType(n string) types.Type {
	switch n {
	case "*big.Int":
		return types.NewPointer(ai.BigInt)
	case "*big.Float":
		return types.NewPointer(ai.BigFloat)
	}
	return types.NewPointer(ai.BigRat)
}

// streamAvg: the library division of the sum of all values, which fails on overflow, by their number.
func streamAvg(c *Ctx, name string, t types.Type, exact int) {
	f := c.Inst("stream", name, t)
	key := fmt.Sprintf("%s[%s]", name, tname(t))
	if exact > 0 {
		key += fmt.Sprintf(" %d values", exact)
	}
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	s.lazily()
	s.x.WidenAt = 8
	s.numbered(3)
	if exact > 0 {
		// the values are all zero, only their number matters
		s.exact, s.x.WidenAt = exact, exact+8
		s.values = func(st *ai.State) []ai.Outcome {
			n := numRead(st)
			st.Mon["nread"] = ai.MkInt(intT, int64(n+1))
			st.Mon["v0"] = ai.Zero(t)
			return []ai.Outcome{{St: st, Vals: []ai.Val{ai.Zero(t)}}}
		}
	}
	s.nonNil = true
	s.single, s.bounded = true, true
	s.readonlySource()
	s.model = func(x *ai.Exec, st *ai.State, cl *ai.Call) ([]ai.Outcome, bool) {
		switch strings.TrimPrefix(cl.Name, mod) {
		case "math.AddInt", "math.AddUint":
			p := cl.Args[1]
			vs := st.Load(p, t)
			if len(vs) != 1 {
				return nil, false
			}
			bad := st.Clone()
			e := ai.FreshLeaf(errT, "E:overflow")
			bad.SetNonNil(e)
			bad.Mon["failure"] = e
			bad.Event("overflow")
			st.Store(p, st.Arith(token.ADD, cl.Args[0], vs[0], t), t)
			return []ai.Outcome{{St: bad, Vals: []ai.Val{e}}, {St: st, Vals: []ai.Val{&ai.Nil{T: errT}}}}, true
		case "math.Div", "math.DivBigOps":
			q := cl.Fn.Signature.Params().At(2).Type().(*types.Pointer).Elem()
			a, b := s.content(st, cl.Args[0]), s.content(st, cl.Args[1])
			if p, ok := q.(*types.Pointer); ok && bigName(q) != "" {
				id := st.NewCell("divresult", ai.App(p.Elem(), "divided", ai.Strip(a), ai.Strip(b)))
				st.Store(cl.Args[2], &ai.Ptr{Cell: id, T: p.Elem()}, q)
			} else {
				d := ai.App(q, "divided", ai.Strip(a), ai.Strip(b))
				if lo, hi := st.Interval(ai.Strip(a)); lo != nil {
					st.SetRange(d.(*ai.Term), lo, hi) // the divisor is at least one
				}
				st.Store(cl.Args[2], d, q)
			}
			return []ai.Outcome{{St: st, Vals: []ai.Val{&ai.Nil{T: errT}}}}, true
		}
		return nil, false
	}
	s.ret = func(st *ai.State, vals []ai.Val) {
		s.singleResult(st, vals, "v0", func(st *ai.State, v ai.Val) bool {
			d, ok := ai.Strip(s.content(st, v)).(*ai.Term)
			for ok && (strings.HasPrefix(d.Op, "cv") || strings.HasPrefix(d.Op, "conv")) && len(d.Args) == 1 {
				d, ok = d.Args[0].(*ai.Term)
			}
			if !ok || d.Op != "divided" {
				return false
			}
			var l []ai.Val
			for i := 0; i < numRead(st) && exact == 0; i++ {
				l = append(l, s.content(st, st.Mon["v"+strconv.Itoa(i)]))
			}
			dv := ai.Strip(d.Args[1])
			if b, ok := dv.(*ai.Term); ok && b.Op == "bf" {
				dv = b.Args[0] // the conversion of an integer constant, which is exact
			}
			n, ok := ai.IntOf(dv)
			if exact > 0 {
				return ok && n.IsInt64() && n.Int64() == int64(exact)
			}
			return sumOf(d.Args[0], l) && ok && n.IsInt64() && n.Int64() == int64(len(l))
		})
	}
	s.transform(c.State(), nil, nil, f, true)
	s.ok(simRules...)
	s.ok("unmodified")
}
