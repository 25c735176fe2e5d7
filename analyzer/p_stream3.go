package main

import (
	"fmt"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register(&Check{ID: "S05", Title: "collecting and expanding", Min: 60,
		Rule: "typestate simulation: collecting into a new or given slice yields exactly the source's values in order (sources of up to four values, all failure points; targets of every length up to four), into a map writes each pair exactly once in order; expanding yields every element of every non-empty slice or map in order and reads the next one only when the current one is exhausted",
		Run: func(c *Ctx) {
			for _, tt := range streamTypes(c) {
				t, u := tt[0], tt[1]
				streamToSlice(c, t)
				for n := 0; n <= 3; n++ {
					streamIntoSlice(c, t, n)
				}
				streamToMap(c, t, u)
				streamExpandSlices(c, t)
				streamExpandMaps(c, t, u)
			}
		}})
}

// numbered makes sources return up to max distinguishable values, recorded in the registers "v0", "v1", ...
func (s *sim) numbered(max int) {
	s.values = func(st *ai.State) []ai.Outcome {
		n := numRead(st)
		if n >= max {
			return nil
		}
		v := st.NewLeaf(s.elem, fmt.Sprintf("v%d:%s", n, side(st)), false)
		if s.nonNil {
			st.SetNonNil(v)
		}
		if b, ok := s.elem.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			// not NaN
			for i := 0; i < n; i++ {
				st.SetRel(v, st.Mon["v"+strconv.Itoa(i)], ai.LT|ai.EQ|ai.GT)
			}
		}
		st.Mon["v"+strconv.Itoa(n)] = v
		st.Mon["nread"] = ai.MkInt(intT, int64(n+1))
		return []ai.Outcome{{St: st, Vals: []ai.Val{v}}}
	}
}

func numRead(st *ai.State) int {
	if v := st.Mon["nread"]; v != nil {
		i, _ := ai.IntOf(v)
		return int(i.Int64())
	}
	return 0
}

// isValues checks that a slice value holds exactly the values read, in order.
func (s *sim) isValues(st *ai.State, v ai.Val, total int) bool {
	es, ok := s.x.Elems(st, v)
	n := numRead(st)
	if !ok || len(es) != total {
		return false
	}
	for i := 0; i < n && i < len(es); i++ {
		if !same(st, es[i], st.Mon["v"+strconv.Itoa(i)]) {
			return false
		}
	}
	return true
}

func streamToSlice(c *Ctx, t types.Type) {
	f := c.Inst("stream", "ReduceToSlice", t)
	key := fmt.Sprintf("ReduceToSlice[%s]", tname(t))
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	s.x.WidenAt = 8
	s.lazily()
	s.numbered(4)
	s.single = true
	s.ret = func(st *ai.State, vals []ai.Val) {
		s.singleResult(st, vals, "", func(st *ai.State, v ai.Val) bool {
			if st.Nilness(v) == 1 {
				s.fail(st, "elements", "the result is a nil slice")
			}
			return s.isValues(st, v, numRead(st))
		})
	}
	s.transform(c.State(), nil, nil, f, true)
	s.ok(simRules...)
}

func streamIntoSlice(c *Ctx, t types.Type, size int) {
	f := c.Inst("stream", "ReduceIntoSlice", t)
	key := fmt.Sprintf("ReduceIntoSlice[%s] target %d", tname(t), size)
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), t)
	s.x.WidenAt = 8
	s.single = true
	s.lazily()
	s.numbered(4)
	olds := []ai.Val{}
	st := c.State()
	for i := 0; i < size; i++ {
		olds = append(olds, st.NewLeaf(t, fmt.Sprintf("old%d", i), false))
	}
	slc := mkSlice(st, "target", t, olds...)
	if size == 0 {
		slc = &ai.Nil{T: types.NewSlice(t)}
	}
	target := func(st *ai.State) ai.Val {
		if size == 0 {
			return &ai.Nil{T: types.NewSlice(t)}
		}
		return st.Mon["target"]
	}
	st.Mon["target"] = slc
	s.okPanic = func(st *ai.State, p ai.Val) bool {
		if numRead(st) > size {
			return true
		}
		return false
	}
	s.ret = func(st *ai.State, vals []ai.Val) {
		if numRead(st) > size {
			s.fail(st, "elements", "no panic although the target is too short")
			return
		}
		if st.Nilness(vals[1]) == 2 && st.Mon["failure"] != nil {
			es, ok := s.x.Elems(st, target(st))
			for i, e := range es {
				if !ai.IsZero(e) {
					s.fail(st, "target-cleared", "after a failure element %d of the target is %s", i, short(e.K()))
				}
			}
			if !ok {
				s.fail(st, "target-cleared", "the target's elements are not known")
			}
		}
		s.singleResult(st, vals, "", func(st *ai.State, v ai.Val) bool {
			if size > 0 {
				a, ok1 := v.(*ai.Slice)
				b, ok2 := target(st).(*ai.Slice)
				if !ok1 || !ok2 || a.Cell.K() != b.Cell.K() || !s.isValues(st, v, size) {
					return false
				}
				es, _ := s.x.Elems(st, v)
				for i := numRead(st); i < size; i++ {
					if !same(st, es[i], olds[i]) {
						s.fail(st, "elements", "an element of the target beyond the values is changed")
					}
				}
				return true
			}
			return st.Nilness(v) == 1
		})
	}
	s.transform(st, f, []ai.Val{slc}, nil, true)
	s.ok(append([]string{"target-cleared"}, simRules...)...)
}

func streamToMap(c *Ctx, t, u types.Type) {
	f := c.Inst("stream", "ReduceToMap", t, u)
	key := fmt.Sprintf("ReduceToMap[%s,%s]", tname(t), tname(u))
	if !c.Need(f, key) {
		return
	}
	mt := types.NewMap(t, u)
	two := iterElem(f)
	s := newSim(c, key, f.Pos(), two)
	s.elementwise()
	s.x.OnMapWrite = func(st *ai.State, m ai.Val, k, v ai.Val, in ssa.Instruction) {
		if !types.Identical(ai.TypeOf(m).Underlying(), mt) {
			return
		}
		cur := st.Mon["cur"]
		if cur == nil {
			s.fail(st, "elements", "a map entry is written that is not a source pair")
			return
		}
		if v == nil {
			s.fail(st, "elements", "a map entry is deleted")
			return
		}
		if !same(st, k, field(cur, 0)) || !same(st, v, field(cur, 1)) {
			s.fail(st, "elements", "writes entry %s: %s, which is not the pair just read", short(k.K()), short(v.K()))
		}
		delete(st.Mon, "cur")
		if st.Mon["map"] == nil {
			st.Mon["map"] = m
		} else if !same(st, st.Mon["map"], m) {
			s.fail(st, "elements", "pairs are written to different maps")
		}
	}
	s.ret = func(st *ai.State, vals []ai.Val) {
		s.singleResult(st, vals, "", func(st *ai.State, v ai.Val) bool {
			if st.Nilness(v) != 2 {
				return false
			}
			if m := st.Mon["map"]; m != nil {
				delete(st.Mon, "map")
				return same(st, m, v)
			}
			r, ok := v.(*ai.MapRef)
			if !ok {
				return false
			}
			mo, ok := st.Content(r.Cell).(*ai.MapObj)
			return ok && mo.Base == nil && len(mo.W) == 0 && len(mo.Sum) == 0
		})
	}
	s.transform(c.State(), nil, nil, f, true)
	s.ok(simRules...)
}

// field reads a field of a struct value.
func field(v ai.Val, i int) ai.Val { return ai.FieldOf(v, i) }

// iterElem gives T of the first parameter Iter[T] of f.
func iterElem(f *ssa.Function) types.Type {
	return paramT(f, 0).(*types.Named).TypeArgs().At(0)
}

func streamExpandSlices(c *Ctx, t types.Type) {
	f := c.Inst("stream", "ExpandSlices", t)
	key := fmt.Sprintf("ExpandSlices[%s]", tname(t))
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), types.NewSlice(t))
	s.x.ForkIndex = true
	old := s.before
	s.before = func(st *ai.State, src string) {
		if old != nil {
			old(st, src)
		}
		if m := st.Mon["cur"]; m != nil {
			_, more := s.x.BranchCmp(st.Clone(), st.Mon["k:idx"], "==", s.x.Len(st, m))
			if more != nil {
				s.fail(more, "elements", "the source is read although the current slice may have more elements")
			}
		}
		delete(st.Mon, "cur")
		st.Mon["k:idx"] = ai.MkInt(intT, 0)
	}
	s.lazily()
	s.onVal = func(st *ai.State, src string, v ai.Val) { st.Mon["cur"] = v; st.Mon["k:idx"] = ai.MkInt(intT, 0) }
	s.ret = func(st *ai.State, vals []ai.Val) {
		if st.Nilness(vals[1]) == 2 {
			s.errResult(st, vals[1])
			return
		}
		s.valResult(st)
		cur := st.Mon["cur"]
		if cur == nil {
			s.fail(st, "elements", "returns a value without a current slice")
			return
		}
		idx := st.Mon["k:idx"]
		vs := s.x.ElemAt(st, cur, idx)
		if len(vs) != 1 || !same(st, vs[0], vals[0]) {
			s.fail(st, "elements", "returns %s, which is not the next element", short(vals[0].K()))
		}
		_, out := s.x.BranchCmp(st.Clone(), idx, "<", s.x.Len(st, cur))
		if out != nil {
			s.fail(out, "elements", "returns an element beyond the slice's end")
		}
		st.Mon["k:idx"] = st.AddC(idx, 1, intT)
	}
	st := c.State()
	st.Mon["k:idx"] = ai.MkInt(intT, 0)
	s.transform(st, nil, nil, f, true)
	s.ok(simRules...)
}

func streamExpandMaps(c *Ctx, t, u types.Type) {
	f := c.Inst("stream", "ExpandMaps", t, u)
	key := fmt.Sprintf("ExpandMaps[%s,%s]", tname(t), tname(u))
	if !c.Need(f, key) {
		return
	}
	s := newSim(c, key, f.Pos(), types.NewMap(t, u))
	s.before = func(st *ai.State, src string) {
		if m := st.Mon["cur"]; m != nil && st.Nilness(m) != 1 {
			if st.Equal(s.x.Len(st, m), ai.MkInt(intT, 0)) != 1 {
				s.fail(st, "elements", "the source is read although the current map may have more entries")
			}
		}
		if st.Mon["res"] != nil {
			s.fail(st, "elements", "a map entry is dropped")
		}
		delete(st.Mon, "cur")
		delete(st.Mon, "res")
	}
	s.lazily()
	s.onVal = func(st *ai.State, src string, v ai.Val) { st.Mon["cur"] = v }
	s.x.OnMapIter = func(st *ai.State, m, k, v ai.Val) {
		cur := st.Mon["cur"]
		if cur == nil || !same(st, cur, m) {
			s.fail(st, "elements", "iterates a map that is not the current one")
			return
		}
		if st.Mon["res"] != nil {
			s.fail(st, "elements", "a map entry is dropped")
		}
		delete(st.Mon, "res")
		if k == nil {
			st.Event("map exhausted")
			delete(st.Mon, "cur")
			return
		}
		st.Event("map entry")
		st.Mon["res"] = &ai.Tuple{F: []ai.Val{k, v}}
	}
	s.ret = func(st *ai.State, vals []ai.Val) {
		if st.Nilness(vals[1]) == 2 {
			s.errResult(st, vals[1])
			return
		}
		s.valResult(st)
		r, _ := st.Mon["res"].(*ai.Tuple)
		if r == nil || !same(st, field(vals[0], 0), r.F[0]) || !same(st, field(vals[0], 1), r.F[1]) {
			s.fail(st, "elements", "returns %s, which is not the next map entry", short(vals[0].K()))
		}
		delete(st.Mon, "res")
	}
	s.transform(c.State(), nil, nil, f, true)
	s.ok(simRules...)
}
