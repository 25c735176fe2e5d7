package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
)

// Regular expressions are matched against strings of known length whose bytes may be unknown: the matcher is the usual
// backtracking one, which forks on whether an unknown byte is in a class.

type reThread struct {
	pc, pos int
	caps    []int
}

type reResult struct {
	st   *State
	caps []int // nil: no match
}

type reMatcher struct {
	x    *Exec
	prog *syntax.Prog
	es   []Val
	out  []reResult
}

func (m *reMatcher) run(st *State, stack []reThread, seen map[[2]int]bool) {
	for len(stack) > 0 {
		if m.x.err != nil {
			return
		}
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[[2]int{t.pc, t.pos}] {
			continue
		}
		seen[[2]int{t.pc, t.pos}] = true
		push := func(pc, pos int) { stack = append(stack, reThread{pc, pos, t.caps}) }
		in := m.prog.Inst[t.pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			push(int(in.Arg), t.pos)
			push(int(in.Out), t.pos)
		case syntax.InstCapture:
			t.caps = append([]int(nil), t.caps...)
			for len(t.caps) <= int(in.Arg) {
				t.caps = append(t.caps, -1)
			}
			t.caps[in.Arg] = t.pos
			push(int(in.Out), t.pos)
		case syntax.InstNop:
			push(int(in.Out), t.pos)
		case syntax.InstFail:
		case syntax.InstMatch:
			t.caps = append([]int(nil), t.caps...)
			for len(t.caps) < 2 {
				t.caps = append(t.caps, -1)
			}
			t.caps[1] = t.pos
			m.out = append(m.out, reResult{st, t.caps})
			return
		case syntax.InstEmptyWidth:
			f := syntax.EmptyOp(in.Arg)
			if f&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				m.x.fail("unmodelled assertion in a regular expression")
				return
			}
			if f&syntax.EmptyBeginText != 0 && t.pos != 0 || f&syntax.EmptyEndText != 0 && t.pos != len(m.es) {
				continue
			}
			push(int(in.Out), t.pos)
		default:
			if t.pos == len(m.es) {
				continue
			}
			yes, no := m.class(st, m.es[t.pos], in)
			for i, s := range append(yes, no...) {
				st2 := append([]reThread(nil), stack...)
				if i < len(yes) {
					st2 = append(st2, reThread{int(in.Out), t.pos + 1, t.caps})
				}
				seen2 := make(map[[2]int]bool, len(seen))
				for k := range seen {
					seen2[k] = true
				}
				m.run(s, st2, seen2)
			}
			return
		}
	}
	m.out = append(m.out, reResult{st, nil})
}

// class splits a state by whether a byte matches an instruction.
func (m *reMatcher) class(st *State, e Val, in syntax.Inst) (yes, no []*State) {
	var rs []rune
	switch in.Op {
	case syntax.InstRuneAny:
		rs = []rune{0, 0x10FFFF}
	case syntax.InstRuneAnyNotNL:
		rs = []rune{0, '\n' - 1, '\n' + 1, 0x10FFFF}
	default:
		rs = in.Rune
		if len(rs) == 1 {
			if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				r := rs[0]
				rs = []rune{r, r}
				for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
					if f > 0x7f {
						m.x.fail("unmodelled case folding in a regular expression")
						return
					}
					rs = append(rs, f, f)
				}
				sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
			} else {
				rs = []rune{rs[0], rs[0]}
			}
		}
	}
	bt := valType(e)
	if bt == nil {
		bt = types.Typ[types.Byte]
	}
	cmp := func(st *State, op token.Token, r rune) (t, f *State) {
		if st == nil {
			return nil, nil
		}
		if r > 0xff {
			return st, nil
		}
		return m.x.Branch(st, m.x.Compare(st, op, e, MkInt(bt, int64(r))))
	}
	if rs[len(rs)-1] > 0x7f {
		a, wide := cmp(st, token.LSS, 0x80)
		if wide != nil {
			m.x.fail("characters outside of ASCII in a regular expression")
			return
		}
		st = a
	}
	for i := 0; i+1 < len(rs) && st != nil; i += 2 {
		if rs[i] > 0x7f {
			break
		}
		t, f := cmp(st, token.LSS, rs[i])
		if t != nil {
			no = append(no, t)
		}
		if t, st = cmp(f, token.LEQ, rs[i+1]); t != nil {
			yes = append(yes, t)
		}
	}
	if st != nil {
		no = append(no, st)
	}
	return
}

// matchRegexp matches a regular expression of constant text, ok is false if the arguments are not known.
func (x *Exec) matchRegexp(st *State, re, s Val, start int) (out []reResult, ok bool) {
	t, isT := re.(*Term)
	if !isT || !strings.HasPrefix(t.Op, "call:regexp.") || len(t.Args) != 1 {
		return nil, false
	}
	pat, ok := StrOf(t.Args[0])
	es := x.strElems(st, s, types.Typ[types.Byte], true)
	if !ok || es == nil {
		return nil, false
	}
	p, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, false
	}
	n := p.MaxCap()
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, false
	}
	m := &reMatcher{x: x, prog: prog, es: es}
	pad := func(c []int) []int {
		for len(c) < 2*n+2 {
			c = append(c, -1)
		}
		return c
	}
	// try every start in turn
	todo := []*State{st}
	for from := start; from <= len(es) && len(todo) > 0; from++ {
		var next []*State
		for _, s := range todo {
			m.out = nil
			m.run(s, []reThread{{prog.Start, from, []int{from, -1}}}, map[[2]int]bool{})
			for _, r := range m.out {
				if r.caps != nil {
					out = append(out, reResult{r.st, pad(r.caps)})
				} else {
					next = append(next, r.st)
				}
			}
		}
		todo = next
	}
	for _, s := range todo {
		out = append(out, reResult{s, nil})
	}
	return out, x.err == nil
}

func init() {
	reg := func(name string, f func(x *Exec, st *State, c *Call, es []Val, caps []int) Val) {
		Library["(*regexp.Regexp)."+name] = func(x *Exec, st *State, c *Call) (out []Outcome) {
			rs, ok := x.matchRegexp(st, c.Args[0], c.Args[1], 0)
			if !ok {
				return nil
			}
			es := x.strElems(st, c.Args[1], types.Typ[types.Byte], true)
			for _, r := range rs {
				out = append(out, Outcome{St: r.st, Vals: []Val{f(x, r.st, c, es, r.caps)}})
			}
			return out
		}
	}
	// all non overlapping matches; an empty match is not modelled
	all := func(name string, f func(x *Exec, st *State, c *Call, es []Val, ms [][]int) Val) {
		Library["(*regexp.Regexp)."+name] = func(x *Exec, st *State, c *Call) (out []Outcome) {
			es := x.strElems(st, c.Args[1], types.Typ[types.Byte], true)
			ok := es != nil
			var next func(st *State, from int, ms [][]int)
			next = func(st *State, from int, ms [][]int) {
				if from > len(es) {
					out = append(out, Outcome{St: st, Vals: []Val{f(x, st, c, es, ms)}})
					return
				}
				rs, o := x.matchRegexp(st, c.Args[0], c.Args[1], from)
				ok = ok && o
				for _, r := range rs {
					if !ok {
						return
					}
					if r.caps == nil {
						out = append(out, Outcome{St: r.st, Vals: []Val{f(x, r.st, c, es, ms)}})
						continue
					}
					if r.caps[1] == r.caps[0] {
						ok = false
						return
					}
					next(r.st, r.caps[1], append(append([][]int(nil), ms...), r.caps))
				}
			}
			if name == "FindAllStringSubmatch" {
				if n, isC := IntOf(c.Args[2]); !isC || n.Sign() >= 0 {
					return nil
				}
			}
			if ok {
				next(st, 0, nil)
			}
			if !ok {
				return nil
			}
			return out
		}
	}
	str := types.Typ[types.String]
	cut := func(es []Val, a, b int) Val {
		var ps []Val
		for _, e := range es[a:b] {
			ps = append(ps, byteStr(str, e))
		}
		return Cat(str, ps...)
	}
	reg("MatchString", func(x *Exec, st *State, c *Call, es []Val, caps []int) Val { return MkBool(caps != nil) })
	reg("FindString", func(x *Exec, st *State, c *Call, es []Val, caps []int) Val {
		if caps == nil {
			return constStr("")
		}
		return cut(es, caps[0], caps[1])
	})
	reg("FindStringSubmatch", func(x *Exec, st *State, c *Call, es []Val, caps []int) Val {
		if caps == nil {
			return &Nil{c.Res.At(0).Type()}
		}
		var l []Val
		for i := 0; i+1 < len(caps); i += 2 {
			if caps[i] < 0 || caps[i+1] < 0 {
				l = append(l, constStr(""))
			} else {
				l = append(l, cut(es, caps[i], caps[i+1]))
			}
		}
		return MkSlice(st, c.Site, str, l)
	})
	all("ReplaceAllLiteralString", func(x *Exec, st *State, c *Call, es []Val, ms [][]int) Val {
		var ps []Val
		at := 0
		for _, m := range ms {
			ps = append(ps, cut(es, at, m[0]), c.Args[2])
			at = m[1]
		}
		return Cat(str, append(ps, cut(es, at, len(es)))...)
	})
	all("FindAllStringSubmatch", func(x *Exec, st *State, c *Call, es []Val, ms [][]int) Val {
		if len(ms) == 0 {
			return &Nil{c.Res.At(0).Type()}
		}
		var ll []Val
		for _, caps := range ms {
			var l []Val
			for i := 0; i+1 < len(caps); i += 2 {
				if caps[i] < 0 || caps[i+1] < 0 {
					l = append(l, constStr(""))
				} else {
					l = append(l, cut(es, caps[i], caps[i+1]))
				}
			}
			ll = append(ll, MkSlice(st, fmt.Sprint(c.Site, "#", len(ll)), str, l))
		}
		return MkSlice(st, c.Site, types.NewSlice(str), ll)
	})
	reg("FindStringSubmatchIndex", func(x *Exec, st *State, c *Call, es []Val, caps []int) Val {
		if caps == nil {
			return &Nil{c.Res.At(0).Type()}
		}
		var l []Val
		for _, n := range caps {
			l = append(l, MkInt(types.Typ[types.Int], int64(n)))
		}
		return MkSlice(st, c.Site, types.Typ[types.Int], l)
	})
}

// compareStrings compares strings of known length byte by byte, forking on unknown bytes; nil if they are not known.
func (x *Exec) compareStrings(st *State, op token.Token, a, b Val) (out []Outcome) {
	ea, eb := x.strElems(st, a, types.Typ[types.Byte], true), x.strElems(st, b, types.Typ[types.Byte], true)
	if ea == nil || eb == nil {
		return nil
	}
	done := func(st *State, c int) {
		var r bool
		switch op {
		case token.EQL:
			r = c == 0
		case token.NEQ:
			r = c != 0
		case token.LSS:
			r = c < 0
		case token.LEQ:
			r = c <= 0
		case token.GTR:
			r = c > 0
		case token.GEQ:
			r = c >= 0
		}
		out = append(out, Outcome{St: st, Vals: []Val{MkBool(r)}})
	}
	if (op == token.EQL || op == token.NEQ) && len(ea) != len(eb) {
		done(st, 1)
		return out
	}
	for i := 0; ; i++ {
		switch {
		case i == len(ea) && i == len(eb):
			done(st, 0)
			return
		case i == len(ea):
			done(st, -1)
			return
		case i == len(eb):
			done(st, 1)
			return
		}
		if ea[i].K() == eb[i].K() {
			continue
		}
		eq, ne := x.Branch(st, x.Compare(st, token.EQL, ea[i], eb[i]))
		if ne != nil {
			if op == token.EQL || op == token.NEQ {
				done(ne, 1)
			} else {
				lt, gt := x.Branch(ne, x.Compare(ne, token.LSS, ea[i], eb[i]))
				if lt != nil {
					done(lt, -1)
				}
				if gt != nil {
					done(gt, 1)
				}
			}
		}
		if eq == nil {
			return
		}
		st = eq
	}
}
