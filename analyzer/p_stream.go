package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	imp("stream", mod+"stream")
	imp("iter", mod+"iter")
	imp("tuple", mod+"tuple")
	for _, p := range [][2]string{{"int", "string"}, {"*int", "any"}} {
		t, u := p[0], p[1]
		use("stream.Map[%s,%s]", t, u)
		use("stream.MapError[%s,%s]", t, u)
		use("stream.Filter[%s]", t)
		use("stream.Reduce[%s]", t)
		use("stream.ReduceTo[%s,%s]", t, u)
		use("stream.ReduceToBool[%s]", t)
		use("stream.ReduceToSlice[%s]", t)
		use("stream.ReduceIntoSlice[%s]", t)
		use("stream.ExpandSlices[%s]", t)
		use("stream.ReduceToMap[%s,%s]", t, u)
		use("stream.ExpandMaps[%s,%s]", t, u)
		use("stream.Skip[%s]", t)
		use("stream.Limit[%s]", t)
		use("stream.Peek[%s]", t)
		use("stream.AllMatch[%s]", t)
		use("stream.AnyMatch[%s]", t)
		use("stream.NoneMatch[%s]", t)
		use("stream.Count[%s]", t)
		use("stream.Distinct[%s]", t)
		use("stream.Duplicate[%s]", t)
		use("stream.Reverse[%s]", t)
		use("stream.SortBy[%s]", t)
		use("stream.Generator[%s,%s]", t, u)
	}
	for _, t := range []string{"int", "uint", "string", "float64"} {
		use("stream.Max[%s]", t)
		use("stream.Min[%s]", t)
		if t != "string" {
			use("stream.Sum[%s]", t)
		}
	}
	for _, t := range bigNames {
		use("stream.MaxCmp[%s]", t)
		use("stream.MinCmp[%s]", t)
		use("stream.SumBigOps[%s]", t)
		use("stream.AvgBigOps[%s]", t)
		use("stream.AbsBigOps[%s]", t)
	}
	use("stream.SortCmp[*big.Int]")
	use("stream.SortComplex[complex128]")
	for _, t := range []string{"int", "int8", "int64"} {
		use("stream.Abs[%s]", t)
		use("stream.AvgInt[%s]", t)
	}
	for _, t := range []string{"uint", "uint8"} {
		use("stream.AvgUint[%s]", t)
	}
	use("stream.Parallel[int,string]")
	use("stream.Parallel[int,int]")
	use("stream.SortOrdered[int]")
	register(&Check{ID: "S01", Title: "element-wise stream transforms", Min: 50,
		Rule: "typestate simulation of every reachable abstract state of the returned iterator against a specification automaton: each source value is passed to the user function exactly once and in order, the results come out unchanged, and source failures end the result unchanged",
		Run: func(c *Ctx) {
			for _, tt := range streamTypes(c) {
				streamMap(c, "Map", tt[0], tt[1])
				streamMap(c, "MapError", tt[0], tt[1])
				streamFilter(c, tt[0])
				streamPeek(c, tt[0])
			}
		}})
}

var anyT = types.Universe.Lookup("any").Type()

func streamTypes(c *Ctx) [][2]types.Type {
	return [][2]types.Type{{intT, stringT}, {types.NewPointer(intT), anyT}}
}

func tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// iterOf gives iter.Iter[T] as used by an instance: the parameter type of f.
func paramT(f *ssa.Function, i int) types.Type { return f.Signature.Params().At(i).Type() }

// transform obtains the iterators a transform produces for two opaque sources and drives them in any order; con is the
// constructor (returns the transform), or nil if tr itself is the transform. Nothing may be read from a source before
// the first Next if lazy.
func (s *sim) transform(st *ai.State, con *ssa.Function, conArgs []ai.Val, tr *ssa.Function, lazy bool) {
	s.transformOn(st, con, conArgs, tr, lazy, !s.single)
}

func (s *sim) transformOn(st *ai.State, con *ssa.Function, conArgs []ai.Val, tr *ssa.Function, lazy, twice bool) {
	applyTo := func(st *ai.State, fn ai.Val, fv *ssa.Function, itT types.Type, src string, f func(st *ai.State)) {
		setFlag(st, "applying", lazy)
		st.Mon["side"] = ai.MkStr(src)
		for _, e := range s.apply(st, fn, fv, srcLeaf(st, itT, src)) {
			if e.Panic != nil {
				s.fail(e.St, "no-panic", "applying the transform panics: %s", panicText(e.Panic))
				continue
			}
			setFlag(e.St, "applying", false)
			e.St.Mon["it"] = e.Vals[0]
			f(e.St)
		}
	}
	run := func(st *ai.State, fn ai.Val, fv *ssa.Function, itT types.Type) {
		st = st.Clone()
		m0 := map[string]ai.Val{}
		for k, v := range st.Mon {
			m0[k] = v
		}
		if fn != nil {
			st.Mon["tr"] = fn
		}
		applyTo(st, fn, fv, itT, "a", func(st *ai.State) {
			fn := fn
			if fn != nil {
				fn = st.Mon["tr"]
				delete(st.Mon, "tr")
			}
			if !twice {
				s.drive(st)
				return
			}
			swapMon(st)
			for k, v := range m0 {
				st.Mon[k] = v
			}
			applyTo(st, fn, fv, itT, "b", func(st *ai.State) {
				swapMon(st)
				s.drive(st)
			})
		})
	}
	if con == nil {
		run(st, nil, tr, paramT(tr, 0))
		return
	}
	for _, e := range s.apply(st, nil, con, conArgs...) {
		if e.Panic != nil {
			s.fail(e.St, "no-panic", "constructing the transform panics: %s", panicText(e.Panic))
			continue
		}
		sig := con.Signature.Results().At(0).Type().Underlying().(*types.Signature)
		run(e.St, e.Vals[0], nil, sig.Params().At(0).Type())
	}
}

// lazily installs the rule that the source is not read while the transform is applied.
func (s *sim) lazily() {
	old := s.before
	s.before = func(st *ai.State, src string) {
		if isSet(st, "applying") {
			s.fail(st, "lazy", "the source is read before the first value is requested")
		}
		if old != nil {
			old(st, src)
		}
	}
}

// errResult checks an error result: the failure that occurred, or the end if the source ended or done is set.
func (s *sim) errResult(st *ai.State, e ai.Val) {
	if isSet(st, "reported") {
		return
	}
	setFlag(st, "reported", true)
	if f := st.Mon["failure"]; f != nil {
		if e.K() != f.K() {
			s.fail(st, "errors", "a failure is reported as %s", short(e.K()))
		}
		return
	}
	if e.K() != s.eoi.K() {
		s.fail(st, "errors", "reports %s although nothing failed", short(e.K()))
		return
	}
	if !isSet(st, "ended") && !isSet(st, "done") {
		s.fail(st, "errors", "ends although the source has not ended")
	}
}

// valResult checks that a value may be returned at all.
func (s *sim) valResult(st *ai.State) {
	if st.Mon["failure"] != nil {
		s.fail(st, "errors", "returns a value although a failure occurred")
	}
}

func streamMap(c *Ctx, name string, t, u types.Type) {
	f := c.Inst("stream", name, t, u)
	key := fmt.Sprintf("%s[%s,%s]", name, tname(t), tname(u))
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	s.elementwise()
	s.fns["mapper"] = func(st *ai.State, cl *ai.Call) []ai.Outcome {
		s.consume(st, cl.Args[0], "mapper")
		var out []ai.Outcome
		if name == "MapError" {
			b := st.Clone()
			e := ai.FreshLeaf(errT, "E:mapper"+side(b))
			b.SetNonNil(e)
			b.Mon["failure"] = e
			b.Event("mapper -> error")
			g := b.NewLeaf(u, "garbage", false)
			out = append(out, ai.Outcome{St: b, Vals: []ai.Val{g, e}})
		}
		r := st.NewLeaf(u, "mapped", false)
		st.Mon["res"] = r
		v := []ai.Val{r}
		if name == "MapError" {
			v = append(v, &ai.Nil{T: errT})
		}
		return append(out, ai.Outcome{St: st, Vals: v})
	}
	s.ret = func(st *ai.State, vals []ai.Val) {
		if st.Nilness(vals[1]) == 2 {
			s.errResult(st, vals[1])
			return
		}
		s.valResult(st)
		s.emit(st, vals[0])
	}
	st := c.State()
	s.transform(st, f, []ai.Val{fnLeaf(st, paramT(f, 0), "mapper")}, nil, true)
	s.ok("elements", "errors", "lazy", "latched", "no-panic", "zero-value-on-error", "decided")
}

// elementwise installs the rules for values read one by one: every value read must be consumed before the next read
// and before a result is returned; every result produced ("res") must be returned before the next read.
func (s *sim) elementwise() {
	s.before = func(st *ai.State, src string) {
		if st.Mon["cur"] != nil {
			s.fail(st, "elements", "a source value is dropped")
		}
		if st.Mon["res"] != nil {
			s.fail(st, "elements", "a result is dropped")
		}
		delete(st.Mon, "cur")
		delete(st.Mon, "res")
	}
	s.onVal = func(st *ai.State, src string, v ai.Val) { st.Mon["cur"] = v }
	s.lazily()
}

// consume checks that a user function gets the current value, once.
func (s *sim) consume(st *ai.State, arg ai.Val, fn string) {
	cur := st.Mon["cur"]
	if cur == nil || !same(st, arg, cur) {
		s.fail(st, "elements", "%s is called with %s, which is not the value just read", fn, short(arg.K()))
	}
	delete(st.Mon, "cur")
}

// emit checks that the pending result is what is returned.
func (s *sim) emit(st *ai.State, v ai.Val) {
	r := st.Mon["res"]
	if r == nil || !same(st, v, r) {
		s.fail(st, "elements", "returns %s, which is not the next result", short(v.K()))
	}
	if st.Mon["cur"] != nil {
		s.fail(st, "elements", "a source value is dropped")
	}
	delete(st.Mon, "res")
	delete(st.Mon, "cur")
}

func streamFilter(c *Ctx, t types.Type) {
	f := c.Inst("stream", "Filter", t)
	key := fmt.Sprintf("Filter[%s]", tname(t))
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	s.elementwise()
	s.fns["filter"] = func(st *ai.State, cl *ai.Call) []ai.Outcome {
		v := st.Mon["cur"]
		s.consume(st, cl.Args[0], "filter")
		no := st.Clone()
		no.Event("filter -> false")
		st.Event("filter -> true")
		if v != nil {
			st.Mon["res"] = v
		}
		return []ai.Outcome{{St: no, Vals: []ai.Val{ai.MkBool(false)}}, {St: st, Vals: []ai.Val{ai.MkBool(true)}}}
	}
	s.ret = func(st *ai.State, vals []ai.Val) {
		if st.Nilness(vals[1]) == 2 {
			s.errResult(st, vals[1])
			return
		}
		s.valResult(st)
		s.emit(st, vals[0])
	}
	st := c.State()
	s.transform(st, f, []ai.Val{fnLeaf(st, paramT(f, 0), "filter")}, nil, true)
	s.ok("elements", "errors", "lazy", "latched", "no-panic", "zero-value-on-error", "decided")
}

func streamPeek(c *Ctx, t types.Type) {
	f := c.Inst("stream", "Peek", t)
	key := fmt.Sprintf("Peek[%s]", tname(t))
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	s.elementwise()
	s.fns["fn"] = func(st *ai.State, cl *ai.Call) []ai.Outcome {
		v := st.Mon["cur"]
		s.consume(st, cl.Args[0], "the side effect function")
		if v != nil {
			st.Mon["res"] = v
		}
		return []ai.Outcome{{St: st}}
	}
	s.ret = func(st *ai.State, vals []ai.Val) {
		if st.Nilness(vals[1]) == 2 {
			s.errResult(st, vals[1])
			return
		}
		s.valResult(st)
		s.emit(st, vals[0])
	}
	st := c.State()
	s.transform(st, f, []ai.Val{fnLeaf(st, paramT(f, 0), "fn")}, nil, true)
	s.ok("elements", "errors", "lazy", "latched", "no-panic", "zero-value-on-error", "decided")
}

// side tells which of the two iterators is driven.
func side(st *ai.State) string {
	if v := st.Mon["side"]; v != nil {
		t, _ := ai.StrOf(v)
		return t
	}
	return ""
}

var _ = strings.HasPrefix
