package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// A law is a Go function in the synthetic driver package that states what must hold for all values of its parameters.
// It is never built or run: the abstract interpreter evaluates its SSA together with the repository's code over
// symbolic parameters, following both branches of every condition that is not decided, so that an assertion holds only
// if it is true on every path. zzBool chooses nondeterministically, zzInt etc. are fresh symbolic values.
type law struct {
	prop, name string
	opt        func(s *lawRun)
	asserts    []string
}

var laws []*law

var dbgFail = func(l string, st *ai.State) {}

// lawRun is the evaluation of one law.
type lawRun struct {
	c       *Ctx
	l       *law
	x       *ai.Exec
	pos     *ssa.Function
	reached map[string]bool
	init    func(st *ai.State, i int, t types.Type) ai.Val // parameter values
	// model of further calls
	model func(x *ai.Exec, st *ai.State, c *ai.Call) ([]ai.Outcome, bool)
	end   func(st *ai.State)
	// parameters of interface, pointer, slice, map and func type may be nil
	mayNil bool
	// assertions need not be reached
	mayMiss bool
}

var reAssert = regexp.MustCompile(`zz(?:Assert|AssertSame|Fail|Reach)\("([^"]*)"`)

// addLaw declares a law; src is a parameter list followed by a body.
func addLaw(prop, name, src string, opt func(s *lawRun)) {
	decl("func zl" + prop + name + src)
	l := &law{prop: prop, name: name, opt: opt}
	for _, m := range reAssert.FindAllStringSubmatch(src, -1) {
		l.asserts = append(l.asserts, m[1])
	}
	laws = append(laws, l)
}

func (s *lawRun) fail(st *ai.State, label, format string, a ...any) {
	s.c.FailPath(s.l.name+":"+label, s.pos.Pos(), st.TraceString(), format, a...)
}

var ranLaws bool

func runLaws(c *Ctx, prop string) {
	ranLaws = true
	if n := sharded[prop]; n > 1 && shards == 0 {
		runShards(c, repoDir, prop, n)
		return
	}
	i := 0
	for _, l := range laws {
		if l.prop != prop {
			continue
		}
		i++
		if shards > 0 && i%shards != shardOf {
			continue
		}
		if os.Getenv("VERIF_LAW") == "" || regexp.MustCompile(os.Getenv("VERIF_LAW")).MatchString(l.name) {
			t := time.Now()
			runLaw(c, l)
			if os.Getenv("VERIF_DEBUG") != "" && time.Since(t) > time.Second {
				fmt.Fprintf(os.Stderr, "%s %.1fs\n", l.name, time.Since(t).Seconds())
			}
		}
	}
}

func runLaw(c *Ctx, l *law) {
	f := c.P.Driver.Func("zl" + l.prop + l.name)
	if !c.Need(f, l.name) {
		return
	}
	s := &lawRun{c: c, l: l, x: c.Exec(), pos: f, reached: map[string]bool{}}
	s.x.ForkNil, s.x.ForkIndex, s.x.ForkDiv = true, true, true
	s.x.WidenAt = 16
	s.x.ExactAppend = true
	s.x.Model = s.call
	ai.MaxAge, ai.MaxWrites, ai.MaxTermDepth = 12, 64, 40
	ai.Poly, ai.Digits, ai.Bytewise, ai.ClosedRels = false, false, false, true
	if l.opt != nil {
		l.opt(s)
	}
	st := c.State()
	var args []ai.Val
	for i := 0; i < f.Signature.Params().Len(); i++ {
		p := f.Signature.Params().At(i)
		var v ai.Val
		if s.init != nil {
			v = s.init(st, i, p.Type())
		}
		if v == nil {
			t := st.NewLeaf(p.Type(), "arg:"+p.Name(), false)
			switch p.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
				if !s.mayNil {
					st.SetNonNil(t)
				}
			}
			v = t
		}
		args = append(args, v)
	}
	ex, err := s.x.Run(st, f, nil, args)
	if err != nil {
		s.fail(st, "decided", "%v", err)
	}
	n := 0
	if os.Getenv("VERIF_EXITS") != "" {
		fmt.Fprintln(os.Stderr, l.name, "exits", len(ex))
	}
	for _, e := range ex {
		if e.Panic != nil {
			s.fail(e.St, "no-panic", "panics: %s", panicText(e.Panic))
			continue
		}
		n++
		if s.end != nil {
			s.end(e.St)
		}
	}
	if n == 0 {
		s.fail(st, "reached", "the law never returns")
	}
	for _, a := range l.asserts {
		if !s.reached[a] && !s.mayMiss {
			s.fail(st, a, "the assertion is never reached")
		}
		c.OK(l.name + ":" + a)
	}
	c.OK(l.name + ":no-panic")
	c.OK(l.name + ":decided")
	c.Done(s.x)
}

func unbox(v ai.Val) ai.Val {
	if i, ok := v.(*ai.Iface); ok {
		return i.V
	}
	return v
}

func (s *lawRun) call(x *ai.Exec, st *ai.State, c *ai.Call) ([]ai.Outcome, bool) {
	if strings.HasPrefix(c.Name, drv+"zz") {
		one := func(v ...ai.Val) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Vals: v}}, true }
		label := func() string { l, _ := ai.StrOf(c.Args[0]); return l }
		switch strings.TrimPrefix(c.Name, drv) {
		case "zzAssert":
			l := label()
			s.reached[l] = true
			t, f := x.Branch(st, c.Args[1])
			if f != nil {
				dbgFail(l, f)
				s.fail(f, l, "does not hold: %s", short(c.Args[1].K()))
			}
			if t == nil {
				return nil, true
			}
			return []ai.Outcome{{St: t}}, true
		case "zzAssertSame":
			l := label()
			s.reached[l] = true
			a, b := unbox(c.Args[1]), unbox(c.Args[2])
			if !same(st, a, b) {
				s.fail(st, l, "%s is not %s", short(a.K()), short(b.K()))
			}
			return one()
		case "zzFail":
			s.reached[label()] = true
			s.fail(st, label(), "reached")
			return one()
		case "zzReach":
			s.reached[label()] = true
			return one()
		case "zzEvent":
			if len(c.Args) > 0 {
				st.Event("%s", label())
			}
			return one()
		case "zzAssume":
			t, _ := x.Branch(st, c.Args[0])
			if t == nil {
				return nil, true
			}
			return []ai.Outcome{{St: t}}, true
		case "zzBool":
			o := st.Clone()
			st.Event("%s", label())
			o.Event("not %s", label())
			return []ai.Outcome{{St: st, Vals: []ai.Val{ai.MkBool(true)}}, {St: o, Vals: []ai.Val{ai.MkBool(false)}}}, true
		case "zzErr":
			e := st.NewLeaf(errT, "E:"+c.Site, true)
			st.SetNonNil(e)
			return one(e)
		case "zzBits":
			return one(st.NewLeaf(c.Res.At(0).Type(), "bits:"+label()+":"+c.Site, false))
		case "zzInt", "zzString", "zzByte", "zzRune":
			return one(st.NewLeaf(c.Res.At(0).Type(), "any:"+c.Site, false))
		}
	}
	if s.model != nil {
		return s.model(x, st, c)
	}
	return nil, false
}

func init() {
	decl(`func zzAssert(label string, ok bool) {}
func zzAssertSame(label string, a, b any) {}
func zzFail(label string) {}
func zzReach(label string) {}
func zzEvent(s string) {}
func zzAssume(ok bool) {}
func zzBool(event string) bool { return false }
func zzErr() error { return nil }
func zzInt() int { return 0 }
func zzString() string { return "" }
func zzByte() byte { return 0 }
func zzBits(pattern string) byte { return 0 }
func zzRune() rune { return 0 }
func zmCatch(f func()) (p any) { defer func() { p = recover() }(); f(); return }
func zmPanics(f func()) bool { return zmCatch(f) != nil }
`)
}

// lawCheck registers a property decided by laws.
func lawCheck(id, title, rule string, min int, extra func(c *Ctx)) {
	if rule == "" {
		rule = "every assertion of every law of the property holds on every path of the abstract execution of the law, whose parameters, and the results of whose callbacks, are symbolic; nothing unmodelled is reached"
	}
	register(&Check{ID: id, Title: title, Rule: rule, Min: min, Run: func(c *Ctx) {
		runLaws(c, id)
		if extra != nil {
			extra(c)
		}
	}})
}

var _ = fmt.Sprint
