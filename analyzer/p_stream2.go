package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register(&Check{ID: "S02", Title: "reductions", Min: 40,
		Rule: "typestate simulation of every reachable abstract state of the returned iterator against a fold automaton: the reducer is called with (accumulator, current value) for every source value in order, the single result is the last accumulator after the source's end, and failures end the result unchanged",
		Run: func(c *Ctx) {
			for _, tt := range streamTypes(c) {
				t, u := tt[0], tt[1]
				for _, id := range []bool{false, true} {
					streamReduce(c, "Reduce", id, t, t)
					streamReduce(c, "ReduceTo", id, t, u)
				}
				streamCount(c, t)
			}
		}})
	register(&Check{ID: "S03", Title: "short circuit matching", Min: 40,
		Rule: "typestate simulation against an automaton: the predicate is called once per value in order, the stop value ends reading at once, the result is the boolean the documentation defines for every sequence of predicate outcomes, failures end the result unchanged",
		Run: func(c *Ctx) {
			for _, tt := range streamTypes(c) {
				t := tt[0]
				for _, id := range []bool{false, true} {
					for _, stop := range []bool{false, true} {
						streamToBool(c, "ReduceToBool", t, id, stop, false)
					}
				}
				streamToBool(c, "AllMatch", t, true, false, false)
				streamToBool(c, "AnyMatch", t, false, true, false)
				streamToBool(c, "NoneMatch", t, true, false, true)
			}
		}})
	register(&Check{ID: "S04", Title: "skip and limit", Min: 20,
		Rule: "typestate simulation with counters: exactly the first n values are skipped (returned) for every n, in order, and limit never reads beyond the n-th value",
		Run: func(c *Ctx) {
			for _, tt := range streamTypes(c) {
				streamSkip(c, tt[0])
				streamLimit(c, tt[0])
			}
		}})
}

var simRules = []string{"elements", "errors", "lazy", "latched", "no-panic", "zero-value-on-error", "decided"}

// single checks the result protocol of reductions: one value after the end, then the end.
func (s *sim) singleResult(st *ai.State, vals []ai.Val, acc string, f func(st *ai.State, v ai.Val) bool) {
	if st.Nilness(vals[1]) == 2 {
		if !isSet(st, "delivered") && isSet(st, "ended") && st.Mon["failure"] == nil && !isSet(st, "reported") && (acc == "" || st.Mon[acc] != nil) {
			s.fail(st, "elements", "ends without the result")
		}
		s.errResult(st, vals[1])
		return
	}
	s.valResult(st)
	if isSet(st, "delivered") {
		s.fail(st, "elements", "a second result is returned")
		return
	}
	setFlag(st, "delivered", true)
	if !isSet(st, "ended") && !isSet(st, "done") {
		s.fail(st, "elements", "returns a result before the source ended")
	}
	if st.Mon["cur"] != nil {
		s.fail(st, "elements", "a source value is dropped")
	}
	setFlag(st, "done", true)
	if !f(st, vals[0]) {
		s.fail(st, "elements", "returns %s, which is not the result", short(vals[0].K()))
	}
	delete(st.Mon, acc)
	delete(st.Mon, "cur")
}

// mkSlice makes a slice value holding the given elements.
func mkSlice(st *ai.State, site string, t types.Type, vs ...ai.Val) ai.Val {
	return ai.MkSlice(st, site, t, vs)
}

func streamReduce(c *Ctx, name string, withID bool, t, u types.Type) {
	var f *ssa.Function
	if name == "Reduce" {
		f = c.Inst("stream", name, t)
	} else {
		f = c.Inst("stream", name, t, u)
	}
	key := fmt.Sprintf("%s[%s,%s] identity=%v", name, tname(t), tname(u), withID)
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	s.lazily()
	old := s.before
	s.before = func(st *ai.State, src string) {
		old(st, src)
		if st.Mon["cur"] != nil {
			s.fail(st, "elements", "a source value is not passed to the reducer")
		}
		delete(st.Mon, "cur")
	}
	s.onVal = func(st *ai.State, src string, v ai.Val) {
		if st.Mon["k:acc"] == nil && name == "Reduce" {
			st.Mon["k:acc"] = v
			return
		}
		st.Mon["cur"] = v
	}
	s.fns["reducer"] = func(st *ai.State, cl *ai.Call) []ai.Outcome {
		acc := st.Mon["k:acc"]
		if acc == nil {
			acc = ai.Zero(u)
		}
		if !same(st, cl.Args[0], acc) {
			s.fail(st, "elements", "the first argument of the reducer is %s, which is not the accumulated value", short(cl.Args[0].K()))
		}
		if cur := st.Mon["cur"]; cur == nil || !same(st, cl.Args[1], cur) {
			s.fail(st, "elements", "the second argument of the reducer is %s, which is not the value just read", short(cl.Args[1].K()))
		}
		delete(st.Mon, "cur")
		st.Event("reducer")
		r := st.NewLeaf(u, "acc", false)
		st.Mon["k:acc"] = r
		return []ai.Outcome{{St: st, Vals: []ai.Val{r}}}
	}
	s.ret = func(st *ai.State, vals []ai.Val) {
		s.singleResult(st, vals, "k:acc", func(st *ai.State, v ai.Val) bool { return st.Mon["k:acc"] != nil && same(st, v, st.Mon["k:acc"]) })
	}
	st := c.State()
	var ids []ai.Val
	if withID {
		id := st.NewLeaf(u, "identity", false)
		ids = append(ids, id)
		st.Mon["k:acc"] = id
	}
	s.transform(st, f, []ai.Val{fnLeaf(st, paramT(f, 0), "reducer"), mkSlice(st, "ids", u, ids...)}, nil, true)
	s.ok(simRules...)
}

func streamCount(c *Ctx, t types.Type) {
	f := c.Inst("stream", "Count", t)
	key := fmt.Sprintf("Count[%s]", tname(t))
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	s.lazily()
	s.onVal = func(st *ai.State, src string, v ai.Val) {
		st.Mon["k:count"] = st.AddC(st.Mon["k:count"], 1, intT)
	}
	s.ret = func(st *ai.State, vals []ai.Val) {
		s.singleResult(st, vals, "", func(st *ai.State, v ai.Val) bool {
			n := st.Mon["k:count"]
			st.Mon["k:count"] = ai.MkInt(intT, 0)
			return st.Equal(v, n) == 1
		})
	}
	st := c.State()
	st.Mon["k:count"] = ai.MkInt(intT, 0)
	s.transform(st, nil, nil, f, true)
	s.ok(simRules...)
}

func streamToBool(c *Ctx, name string, t types.Type, identity, stop, negate bool) {
	f := c.Inst("stream", name, t)
	key := fmt.Sprintf("%s[%s]", name, tname(t))
	if name == "ReduceToBool" {
		key += fmt.Sprintf(" identity=%v stop=%v", identity, stop)
	}
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	s.lazily()
	old := s.before
	s.before = func(st *ai.State, src string) {
		old(st, src)
		if st.Mon["cur"] != nil {
			s.fail(st, "elements", "a source value is not passed to the predicate")
		}
		if isSet(st, "done") {
			s.fail(st, "short-circuit", "the source is read although the result is decided")
		}
		delete(st.Mon, "cur")
	}
	s.onVal = func(st *ai.State, src string, v ai.Val) { st.Mon["cur"] = v }
	s.fns["predicate"] = func(st *ai.State, cl *ai.Call) []ai.Outcome {
		if cur := st.Mon["cur"]; cur == nil || !same(st, cl.Args[0], cur) {
			s.fail(st, "elements", "the predicate is called with %s, which is not the value just read", short(cl.Args[0].K()))
		}
		delete(st.Mon, "cur")
		var out []ai.Outcome
		for _, b := range []bool{true, false} {
			o := st.Clone()
			o.Event("predicate -> %v", b)
			eff := b != negate
			o.Mon["res"] = ai.MkBool(eff)
			if eff == stop {
				setFlag(o, "done", true)
			}
			out = append(out, ai.Outcome{St: o, Vals: []ai.Val{ai.MkBool(b)}})
		}
		return out
	}
	s.ret = func(st *ai.State, vals []ai.Val) {
		s.singleResult(st, vals, "res", func(st *ai.State, v ai.Val) bool { return same(st, v, st.Mon["res"]) })
	}
	st := c.State()
	st.Mon["res"] = ai.MkBool(identity)
	args := []ai.Val{fnLeaf(st, paramT(f, 0), "predicate")}
	if name == "ReduceToBool" {
		args = append(args, ai.MkBool(identity), ai.MkBool(stop))
	}
	s.transform(st, f, args, nil, true)
	s.ok(append([]string{"short-circuit"}, simRules...)...)
}

// counter is a monitored number of values against a limit n, counted up from 0 or down from n: two equivalent
// specifications, of which one is the natural invariant of the code.
type counter struct{ up bool }

func (k counter) init(st *ai.State, n ai.Val) {
	st.Mon["n"] = n
	if k.up {
		st.Mon["k:cnt"] = ai.MkInt(uintT, 0)
	} else {
		st.Mon["k:cnt"] = n
	}
}

// reached tells whether n values were counted.
func (k counter) reached(s *sim, st *ai.State) (yes, no *ai.State) {
	if k.up {
		no, yes = s.x.BranchCmp(st, st.Mon["k:cnt"], "<", st.Mon["n"])
	} else {
		no, yes = s.x.BranchCmp(st, ai.MkInt(uintT, 0), "<", st.Mon["k:cnt"])
	}
	return
}

func (k counter) step(st *ai.State) {
	d := int64(-1)
	if k.up {
		d = 1
	}
	st.Mon["k:cnt"] = st.AddC(st.Mon["k:cnt"], d, uintT)
}

var uintT = types.Typ[types.Uint]

func streamSkip(c *Ctx, t types.Type) {
	f := c.Inst("stream", "Skip", t)
	key := fmt.Sprintf("Skip[%s]", tname(t))
	if !c.Need(f, key) {
		return
	}
	c.Either(func(v int) {
		k := counter{v == 1}
		s := newSim(c, key, f.Pos(), t)
		s.lazily()
		old := s.before
		s.before = func(st *ai.State, src string) {
			old(st, src)
			if st.Mon["cur"] != nil {
				s.fail(st, "elements", "a value after the first n is dropped")
			}
			delete(st.Mon, "cur")
		}
		s.values = func(st *ai.State) (out []ai.Outcome) {
			keep, skip := k.reached(s, st)
			if keep != nil {
				v := keep.NewLeaf(t, "v:"+side(keep), false)
				keep.Mon["cur"] = v
				keep.Event("(after the first n)")
				out = append(out, ai.Outcome{St: keep, Vals: []ai.Val{v}})
			}
			if skip != nil {
				k.step(skip)
				v := skip.NewLeaf(t, "v:"+side(skip), false)
				skip.Event("(one of the first n)")
				out = append(out, ai.Outcome{St: skip, Vals: []ai.Val{v}})
			}
			return
		}
		s.ret = func(st *ai.State, vals []ai.Val) {
			if st.Nilness(vals[1]) == 2 {
				s.errResult(st, vals[1])
				return
			}
			s.valResult(st)
			if v := st.Mon["cur"]; v == nil || !same(st, vals[0], v) {
				s.fail(st, "elements", "returns %s, which is not the next value after the first n", short(vals[0].K()))
			}
			delete(st.Mon, "cur")
		}
		st := c.State()
		n := st.NewLeaf(uintT, "n", false)
		k.init(st, n)
		s.transform(st, f, []ai.Val{n}, nil, true)
		s.ok(simRules...)
	}, 2)
}

func streamLimit(c *Ctx, t types.Type) {
	f := c.Inst("stream", "Limit", t)
	key := fmt.Sprintf("Limit[%s]", tname(t))
	if !c.Need(f, key) {
		return
	}
	c.Either(func(v int) {
		k := counter{v == 1}
		s := newSim(c, key, f.Pos(), t)
		s.lazily()
		old := s.before
		s.before = func(st *ai.State, src string) {
			old(st, src)
			if st.Mon["cur"] != nil {
				s.fail(st, "elements", "a value is dropped")
			}
			delete(st.Mon, "cur")
			over, _ := k.reached(s, st.Clone())
			if over != nil {
				s.fail(over, "limit", "the source may be read after n values were returned")
			}
		}
		s.onVal = func(st *ai.State, src string, v ai.Val) {
			st.Mon["cur"] = v
			k.step(st)
		}
		s.ret = func(st *ai.State, vals []ai.Val) {
			if st.Nilness(vals[1]) == 2 {
				if !isSet(st, "ended") && st.Mon["failure"] == nil {
					_, no := k.reached(s, st.Clone())
					if no != nil {
						s.fail(no, "elements", "ends before n values were returned")
					}
					setFlag(st, "done", true)
				}
				s.errResult(st, vals[1])
				return
			}
			s.valResult(st)
			if v := st.Mon["cur"]; v == nil || !same(st, vals[0], v) {
				s.fail(st, "elements", "returns %s, which is not the next value", short(vals[0].K()))
			}
			delete(st.Mon, "cur")
		}
		st := c.State()
		n := st.NewLeaf(uintT, "n", false)
		k.init(st, n)
		s.transform(st, f, []ai.Val{n}, nil, true)
		s.ok(append([]string{"limit"}, simRules...)...)
	}, 2)
}
