package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	for _, u := range []string{"int", "string"} {
		decl(fmt.Sprintf(`func zzMap%[1]s(i int) (%[1]s, error) { var z %[1]s; return z, nil }
func zmParallel%[1]s(it iter.Iter[int]) iter.Iter[%[1]s] { return stream.MapError(zzMap%[1]s)(it) }`, u))
		use("zmParallel%s", u)
	}
	register(&Check{ID: "S09", Title: "parallel transforms", Min: 30,
		Rule: "abstract evaluation with every goroutine run either at its go statement or at the wait, for sources of up to four values, all failure points and all partitions requested by the caller: one result per value in source order, no location is written by two goroutines, every goroutine is counted before it starts and waited for, and a failing goroutine makes the result fail",
		Run: func(c *Ctx) {
			ai.MaxAge = 12 // the analysis is bounded, every allocation is told apart
			for _, u := range []types.Type{intT, stringT} {
				for _, deferred := range []bool{true, false} {
					streamParallel(c, u, "", 0, deferred, 0)
					for n := int64(-1); n <= 5; n++ {
						streamParallel(c, u, "Threads", n, deferred, 0)
						streamParallel(c, u, "Items", n, deferred, 0)
					}
				}
			}
			// longer sources, none of which fails
			ai.MaxWrites, ai.MaxAge = 64, 60
			for _, l := range []int{5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 20, 23, 30} {
				streamParallel(c, stringT, "", 0, true, l)
				for _, n := range []int{2, 3, 4, 5, 6, 7, l - 1, l, l + 1} {
					streamParallel(c, stringT, "Threads", int64(n), true, l)
					streamParallel(c, stringT, "Items", int64(n), true, l)
				}
			}
		}})
}

// goroutines models go statements and sync.WaitGroup. Pending goroutines are the registers "go:0", "go:1", ...
func (s *sim) goroutines(deferred bool) {
	num := func(st *ai.State, r string) int64 {
		if v := st.Mon[r]; v != nil {
			i, _ := ai.IntOf(v)
			return i.Int64()
		}
		return 0
	}
	set := func(st *ai.State, r string, n int64) { st.Mon[r] = ai.MkInt(intT, n) }
	s.x.OnGo = func(x *ai.Exec, st *ai.State, fn ai.Val, args []ai.Val, in ssa.Instruction) ([]ai.Outcome, bool) {
		n := num(st, "started")
		set(st, "started", n+1)
		st.Event("go #%d", n)
		if num(st, "wg") <= n-num(st, "finished") {
			s.fail(st, "goroutines", "a goroutine is started before it is counted")
		}
		if deferred {
			st.Mon["go:"+strconv.Itoa(int(n))] = &ai.Tuple{F: append([]ai.Val{fn}, args...)}
			return []ai.Outcome{{St: st}}, true
		}
		return []ai.Outcome{{St: st, Push: &ai.Tuple{F: append([]ai.Val{fn}, args...)}, Ctx: fmt.Sprintf("go#%d", n)}}, true
	}
	old := s.model
	s.model = func(x *ai.Exec, st *ai.State, c *ai.Call) ([]ai.Outcome, bool) {
		switch c.Name {
		case "(*sync.WaitGroup).Add":
			n, ok := ai.IntOf(c.Args[1])
			if !ok {
				return nil, false
			}
			set(st, "wg", num(st, "wg")+n.Int64())
			return []ai.Outcome{{St: st}}, true
		case "(*sync.WaitGroup).Done":
			set(st, "wg", num(st, "wg")-1)
			set(st, "finished", num(st, "finished")+1)
			if g := goroutineOf(st); g != "" {
				setFlag(st, "done:"+g, true)
			}
			if num(st, "wg") < 0 {
				s.fail(st, "goroutines", "the wait group counter becomes negative")
			}
			return []ai.Outcome{{St: st}}, true
		case "(*sync.WaitGroup).Wait":
			delete(st.Mon, "running")
			for i := int64(0); i < num(st, "started"); i++ {
				k := "go:" + strconv.Itoa(int(i))
				if p := st.Mon[k]; p != nil {
					delete(st.Mon, k)
					set(st, "running", i)
					st.Event("goroutine %d runs", i)
					return []ai.Outcome{{St: st, Push: p.(*ai.Tuple), Again: true, Ctx: fmt.Sprintf("go#%d", i)}}, true
				}
			}
			if num(st, "wg") != 0 {
				s.fail(st, "goroutines", "waits for %d goroutines that never finish", num(st, "wg"))
			}
			return []ai.Outcome{{St: st}}, true
		}
		if old != nil {
			return old(x, st, c)
		}
		return nil, false
	}
	store := s.x.OnStore
	s.x.OnStore = func(st *ai.State, addr, v ai.Val, in ssa.Instruction) {
		if store != nil {
			store(st, addr, v, in)
		}
		g := goroutineOf(st)
		p, ok := addr.(*ai.Ptr)
		if g == "" || !ok || strings.Contains(p.Cell.K(), g) {
			return
		}
		if isSet(st, "done:"+g) {
			s.fail(st, "races", "a goroutine writes %s after it reported that it is done", short(p.K()))
		}
		k := "w:" + p.K()
		if o := st.Mon[k]; o != nil && o.K() != ai.MkStr(g).K() {
			s.fail(st, "races", "two goroutines write %s", short(p.K()))
		}
		st.Mon[k] = ai.MkStr(g)
	}
}

// goroutineOf returns the goroutine that is running, or "" outside of the goroutines started.
func goroutineOf(st *ai.State) (g string) {
	for _, f := range st.Stack {
		if strings.HasPrefix(f.Ctx, "go#") {
			g = strings.SplitN(f.Ctx, "/", 2)[0]
		}
	}
	return
}

func streamParallel(c *Ctx, u types.Type, unit string, n int64, deferred bool, exact int) {
	f := c.Inst("stream", "Parallel", intT, u)
	key := fmt.Sprintf("Parallel[int,%s] %s %d deferred=%v", tname(u), unit, n, deferred)
	max := 4
	if exact > 0 {
		key += fmt.Sprintf(" length=%d", exact)
		max = exact
	}
	tr := c.P.Driver.Func("zmParallel" + tname(u))
	if !c.Need(f, key) || !c.Need(tr, key) {
		return
	}
	s := newSim(c, key, f.Pos(), intT)
	s.x.WidenAt = 8
	if exact > 0 {
		s.x.WidenAt = exact + 8
	}
	s.exact = exact
	s.numbered(max)
	s.single, s.bounded = true, true
	s.model = func(x *ai.Exec, st *ai.State, cl *ai.Call) ([]ai.Outcome, bool) {
		if cl.Name != drv+"zzMap"+tname(u) {
			return nil, false
		}
		id := -1
		for i := 0; i < numRead(st); i++ {
			if same(st, st.Mon["v"+strconv.Itoa(i)], cl.Args[0]) {
				id = i
			}
		}
		if id < 0 || st.Mon["r"+strconv.Itoa(id)] != nil {
			s.fail(st, "elements", "the transform gets %s, which is not a value of the source or was processed already", short(cl.Args[0].K()))
			return nil, false
		}
		r := st.NewLeaf(u, fmt.Sprintf("r%d", id), false)
		if exact > 0 {
			st.Mon["r"+strconv.Itoa(id)] = r
			return []ai.Outcome{{St: st, Vals: []ai.Val{r, &ai.Nil{T: errT}}}}, true
		}
		bad := st.Clone()
		e := ai.FreshLeaf(errT, fmt.Sprintf("E:transform%d", id))
		bad.SetNonNil(e)
		bad.Mon[fmt.Sprintf("fail:%d", id)] = e
		bad.Event("transform(v%d) fails", id)
		st.Mon["r"+strconv.Itoa(id)] = r
		return []ai.Outcome{{St: bad, Vals: []ai.Val{ai.Zero(u), e}}, {St: st, Vals: []ai.Val{r, &ai.Nil{T: errT}}}}, true
	}
	s.goroutines(deferred)
	fails := func(st *ai.State) (l []ai.Val) {
		for i := 0; i < 4; i++ {
			if e := st.Mon[fmt.Sprintf("fail:%d", i)]; e != nil {
				l = append(l, e)
			}
		}
		return
	}
	s.ret = func(st *ai.State, vals []ai.Val) {
		for k := range st.Mon {
			if strings.HasPrefix(k, "go:") {
				s.fail(st, "goroutines", "a goroutine is not waited for")
			}
		}
		for k := range st.Mon {
			if strings.HasPrefix(k, "w:") {
				delete(st.Mon, k)
			}
		}
		if st.Nilness(vals[1]) == 2 {
			if l := fails(st); len(l) > 0 {
				ok := isSet(st, "reported")
				for _, e := range l {
					ok = ok || e.K() == vals[1].K()
				}
				setFlag(st, "reported", true)
				if !ok {
					s.fail(st, "errors", "a failure of a transform is reported as %s", short(vals[1].K()))
				}
				return
			}
			if st.Mon["failure"] == nil && numOut(st) != numRead(st) {
				s.fail(st, "elements", "ends after %d of %d values", numOut(st), numRead(st))
			}
			s.errResult(st, vals[1])
			return
		}
		s.valResult(st)
		if len(fails(st)) > 0 {
			s.fail(st, "errors", "returns a value although a transform failed")
		}
		i := numOut(st)
		if w := st.Mon["r"+strconv.Itoa(i)]; w == nil || !same(st, w, vals[0]) {
			s.fail(st, "elements", "value %d returned is %s, which is not the result for value %d", i, short(vals[0].K()), i)
		}
		st.Mon["nout"] = ai.MkInt(intT, int64(i+1))
	}
	st := c.State()
	it := f.Signature.Params().At(1).Type().(*types.Slice).Elem()
	var infos []ai.Val
	if unit != "" {
		p := c.P.ByPath["stream"]
		cst := p.Const(unit)
		if cst == nil {
			c.Obl("anchor:"+unit, false, f.Pos(), "constant %s not found", unit)
			return
		}
		fs := []ai.Val{ai.MkInt(intT, n), ai.MkConst(cst.Type(), cst.Value.Value)}
		infos = append(infos, &ai.Struct{T: it, F: fs})
	}
	s.transform(st, f, []ai.Val{&ai.Closure{Fn: tr}, mkSlice(st, "infos", it, infos...)}, nil, false)
	s.ok("elements", "errors", "latched", "no-panic", "zero-value-on-error", "decided", "goroutines", "races")
}
