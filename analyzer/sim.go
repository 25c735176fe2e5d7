package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// sim drives an abstract iterator (or any closure) call by call to a fixpoint and compares every call with a
// specification automaton kept in the state's monitor registers.
type sim struct {
	c   *Ctx
	key string
	pos token.Pos
	x   *ai.Exec

	elem types.Type // element type of the source
	eoi  ai.Val

	// source protocol
	before func(st *ai.State, src string)                     // a source is about to be read
	values func(st *ai.State) []ai.Outcome                    // values a read can return (default: one fresh value)
	onVal  func(st *ai.State, src string, v ai.Val)           // a value was read
	onEnd  func(st *ai.State, src string, e ai.Val, eoi bool) // a source ended
	fns    map[string]func(st *ai.State, c *ai.Call) []ai.Outcome
	model  func(x *ai.Exec, st *ai.State, c *ai.Call) ([]ai.Outcome, bool)
	noErr  bool // the source never fails
	// call protocol
	pre        func(st *ai.State)                // before a driven call
	ret        func(st *ai.State, vals []ai.Val) // after a driven call
	okPanic    func(st *ai.State, p ai.Val) bool // panics that are allowed
	keepRet    bool
	maxStates  int
	calls      int
	strictEnd  bool // a source must not be read after it ended
	single     bool // only one iterator is driven
	mayOutlive bool // results may continue after an end (push back)
	nonNil     bool // source values are not nil
	exact      int  // the source has this many values and does not fail
	bounded    bool // the sources are bounded: states are not widened between calls
}

var errT = types.Universe.Lookup("error").Type()
var boolT = types.Typ[types.Bool]
var intT = types.Typ[types.Int]
var stringT = types.Typ[types.String]

// Global gives the initial value of a package variable.
func (c *Ctx) Global(st *ai.State, pkg, name string) ai.Val {
	p := c.P.ByPath[pkg]
	if p == nil || p.Var(name) == nil {
		return nil
	}
	g := p.Var(name)
	vs := st.Load(&ai.Ptr{Cell: ai.CellID{Site: "g:" + g.String()}, T: g.Type().(*types.Pointer).Elem()}, g.Type().(*types.Pointer).Elem())
	if len(vs) != 1 {
		return nil
	}
	return vs[0]
}

func newSim(c *Ctx, key string, pos token.Pos, elem types.Type) *sim {
	s := &sim{c: c, key: key, pos: pos, x: c.Exec(), elem: elem, fns: map[string]func(st *ai.State, c *ai.Call) []ai.Outcome{}, maxStates: 3000}
	s.eoi = c.Global(c.Base, "iter", "EOI")
	s.x.ForkIndex = true
	s.x.ForkNil = true
	s.x.Model = s.call
	return s
}

func (s *sim) fail(st *ai.State, rule, format string, a ...any) {
	s.c.FailPath(s.key+":"+rule, s.pos, st.TraceString(), format, a...)
}

func (s *sim) ok(rules ...string) {
	for _, r := range rules {
		s.c.OK(s.key + ":" + r)
	}
}

// opaque functions given by the user are leaves "fn:<name>"; sources are leaves "src:<name>".
func fnLeaf(st *ai.State, t types.Type, name string) ai.Val {
	l := ai.Leaf(t, "fn:"+name)
	st.SetNonNil(l)
	return l
}

func srcLeaf(st *ai.State, t types.Type, name string) ai.Val {
	l := ai.Leaf(t, "src:"+name)
	st.SetNonNil(l)
	return l
}

func leafName(v ai.Val, prefix string) (string, bool) {
	t, ok := v.(*ai.Term)
	if !ok || !strings.HasPrefix(t.Op, prefix) || len(t.Args) > 0 {
		return "", false
	}
	return strings.TrimPrefix(t.Op, prefix), true
}

func (s *sim) call(x *ai.Exec, st *ai.State, c *ai.Call) ([]ai.Outcome, bool) {
	if c.Method != nil && len(c.Args) > 0 {
		if n, ok := leafName(c.Args[0], "src:"); ok {
			if c.Method.Name() == "Next" {
				return s.read(st, n), true
			}
			s.fail(st, "source", "calls %s on its source", c.Method.Name())
		}
	}
	if c.FnVal != nil {
		if n, ok := leafName(c.FnVal, "src:"); ok {
			return s.read(st, n), true
		}
		if n, ok := leafName(c.FnVal, "fn:"); ok {
			if f := s.fns[n]; f != nil {
				return f(st, c), true
			}
		}
	}
	if s.model != nil {
		return s.model(x, st, c)
	}
	return nil, false
}

func reg(st *ai.State, n string) ai.Val { return st.Mon[n] }

func isSet(st *ai.State, n string) bool { v := st.Mon[n]; return v != nil && ai.IsTrue(v) }

func setFlag(st *ai.State, n string, b bool) {
	if b {
		st.Mon[n] = ai.MkBool(true)
	} else {
		delete(st.Mon, n)
	}
}

// read models one read of a source: a value, the end or a failure; after an end the same is repeated.
func (s *sim) read(st *ai.State, src string) []ai.Outcome {
	zero := ai.Zero(s.elem)
	ek := "end:" + src
	if e := st.Mon[ek]; e != nil {
		if s.strictEnd {
			s.fail(st, "no-read-after-end", "source %s is read again after it ended", src)
		}
		if s.before != nil {
			s.before(st, src)
		}
		st.Event("%s.Next -> end again", src)
		return []ai.Outcome{{St: st, Vals: []ai.Val{zero, e}}}
	}
	if s.before != nil {
		s.before(st, src)
	}
	var out []ai.Outcome
	if s.exact > 0 && numRead(st) < s.exact {
		for _, o := range s.values(st) {
			o.St.Event("%s.Next -> %s", src, o.Vals[0].K())
			if s.onVal != nil {
				s.onVal(o.St, src, o.Vals[0])
			}
			out = append(out, ai.Outcome{St: o.St, Vals: []ai.Val{o.Vals[0], &ai.Nil{T: errT}}})
		}
		return out
	}
	end := st.Clone()
	end.Mon[ek] = s.eoi
	end.Event("%s.Next -> EOI", src)
	setFlag(end, "ended", true)
	if s.onEnd != nil {
		s.onEnd(end, src, s.eoi, true)
	}
	out = append(out, ai.Outcome{St: end, Vals: []ai.Val{zero, s.eoi}})
	if !s.noErr && s.exact == 0 {
		bad := st.Clone()
		e := ai.FreshLeaf(errT, "E:"+src)
		bad.SetNonNil(e)
		bad.Mon[ek] = e
		bad.Mon["failure"] = e
		bad.Event("%s.Next -> error E", src)
		if s.onEnd != nil {
			s.onEnd(bad, src, e, false)
		}
		out = append(out, ai.Outcome{St: bad, Vals: []ai.Val{zero, e}})
	}
	if s.values != nil && s.exact == 0 {
		for _, o := range s.values(st) {
			o.St.Event("%s.Next -> %s", src, o.Vals[0].K())
			if s.onVal != nil {
				s.onVal(o.St, src, o.Vals[0])
			}
			out = append(out, ai.Outcome{St: o.St, Vals: []ai.Val{o.Vals[0], &ai.Nil{T: errT}}})
		}
		return out
	}
	if s.exact > 0 {
		return out
	}
	v := st.NewLeaf(s.elem, "v:"+src, false)
	st.Event("%s.Next -> value", src)
	if s.onVal != nil {
		s.onVal(st, src, v)
	}
	return append(out, ai.Outcome{St: st, Vals: []ai.Val{v, &ai.Nil{T: errT}}})
}

// apply calls a function value or SSA function from st and returns the exits.
func (s *sim) apply(st *ai.State, fn ai.Val, f *ssa.Function, args ...ai.Val) []ai.Exit {
	var ex []ai.Exit
	var err error
	s.x.SitePrefix = side(st)
	if f != nil {
		ex, err = s.x.Run(st, f, nil, args)
	} else {
		ex, err = s.x.CallFn(st, fn, args)
	}
	if err != nil {
		s.fail(st, "decided", "%v", err)
		return nil
	}
	return ex
}

// next makes the call of Next on an iterator value.
func (s *sim) next(st *ai.State, it ai.Val) (ai.Val, *ssa.Function, []ai.Val, bool) {
	switch y := it.(type) {
	case *ai.Closure:
		return y, nil, nil, true
	case *ai.Iface:
		m := s.method(y.Dyn, "Next")
		if m != nil {
			return nil, m, []ai.Val{y.V}, true
		}
	}
	s.fail(st, "decided", "result %s is not a known iterator", it.K())
	return nil, nil, nil, false
}

func (s *sim) method(dyn types.Type, name string) *ssa.Function {
	ms := s.c.P.SSA.MethodSets.MethodSet(dyn)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return s.c.P.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// swapMon exchanges the monitor registers with those of the other iterator ("~").
func swapMon(st *ai.State) {
	m := make(map[string]ai.Val, len(st.Mon))
	for k, v := range st.Mon {
		switch {
		case strings.HasPrefix(k, "k:~"):
			k = "k:" + k[3:]
		case strings.HasPrefix(k, "k:"):
			k = "k:~" + k[2:]
		case strings.HasPrefix(k, "~"):
			k = k[1:]
		default:
			k = "~" + k
		}
		m[k] = v
	}
	st.Mon = m
}

// drive calls Next on the iterator (and on the second one, if there is one) from every reachable abstract state until
// no new state appears. The iterators are the registers "it" and "~it".
func (s *sim) drive(st *ai.State) {
	defer s.c.Done(s.x)
	st = st.Clone()
	seen := map[string]bool{}
	type item struct {
		st   *ai.State
		snap map[string]ai.Val
		n    int
	}
	work := []item{{st, nil, 0}}
	for len(work) > 0 {
		w := work[0]
		work = work[1:]
		if w.snap != nil && w.n > 2 && !s.bounded {
			w.st.WidenHeap(w.snap, "drv:")
		}
		w.st.Stack = nil
		k := w.st.Key(true)
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > s.maxStates {
			s.fail(w.st, "decided", "no fixpoint after %d states", len(seen))
			return
		}
		for turn := 0; turn < 2; turn++ {
			cur := w.st.Clone()
			if turn == 1 {
				if cur.Mon["~it"] == nil {
					break
				}
				swapMon(cur)
				cur.Event("second iterator:")
			}
			cur.Event("Next()")
			if s.pre != nil {
				s.pre(cur)
			}
			s.calls++
			fn, f, args, ok := s.next(cur, cur.Mon["it"])
			if !ok {
				return
			}
			snap := w.st.HeapSnapshot()
			ex := s.apply(cur, fn, f, args...)
			for _, e := range ex {
				if e.Panic != nil {
					if s.okPanic != nil && s.okPanic(e.St, e.Panic) {
						continue
					}
					s.fail(e.St, "no-panic", "panics: %s", panicText(e.Panic))
					continue
				}
				vals := e.Vals
				if len(vals) == 1 {
					if tu, ok := vals[0].(*ai.Tuple); ok {
						vals = tu.F
					}
				}
				e.St.Event("-> %s", valsText(vals))
				s.latch(e.St, vals)
				if s.ret != nil {
					s.ret(e.St, vals)
				}
				if turn == 1 {
					swapMon(e.St)
				}
				work = append(work, item{e.St, snap, w.n + 1})
			}
		}
	}
}

func panicText(v ai.Val) string { return short(v.K()) }

func valsText(vs []ai.Val) string {
	var l []string
	for _, v := range vs {
		l = append(l, short(v.K()))
	}
	return "(" + strings.Join(l, ", ") + ")"
}

func short(k string) string {
	k = strings.ReplaceAll(k, "github.com/bantling/micro/", "")
	if len(k) > 160 {
		k = k[:160] + "..."
	}
	return k
}

// latch checks the rules common to all iterators.
func (s *sim) latch(st *ai.State, vals []ai.Val) {
	if len(vals) != 2 {
		s.fail(st, "decided", "unexpected result %s", valsText(vals))
		return
	}
	if prev := st.Mon["out:end"]; prev != nil && !s.mayOutlive {
		if vals[1].K() != prev.K() {
			s.fail(st, "latched", "after returning %s a later call returns %s", short(prev.K()), valsText(vals))
		}
	}
	switch st.Nilness(vals[1]) {
	case 2:
		if !ai.IsZero(vals[0]) {
			s.fail(st, "zero-value-on-error", "a value is returned together with %s", short(vals[1].K()))
		}
		st.Mon["out:end"] = vals[1]
	case 0:
		s.fail(st, "decided", "error of unknown nilness")
	}
}

// same reports whether two values are certainly the same value.
func same(st *ai.State, a, b ai.Val) bool {
	if a == nil || b == nil {
		return a == b
	}
	a, b = ai.Strip(a), ai.Strip(b)
	if a.K() == b.K() {
		return !ai.IsOld(a)
	}
	return st.Nilness(a) == 1 && st.Nilness(b) == 1 || st.Equal(a, b) == 1
}

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var _ = fmt.Sprint
