package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Alts is the content of a summary cell: one of several values.
type Alts struct {
	Vs []Val
	k  string
}

func (a *Alts) K() string {
	if a.k == "" {
		a.k = "alt" + keys(a.Vs)
	}
	return a.k
}

// Fact is what is known about a term.
type Fact struct {
	NilS   int8 // 0 unknown, 1 nil, 2 non-nil
	BoolS  int8 // 0 unknown, 1 false, 2 true
	Lo, Hi *big.Int
	Dyn    types.Type
	NotDyn []types.Type
}

func (f Fact) empty() bool {
	return f.NilS == 0 && f.BoolS == 0 && f.Lo == nil && f.Hi == nil && f.Dyn == nil && len(f.NotDyn) == 0
}

func (f Fact) key() string {
	s := fmt.Sprintf("%d,%d", f.NilS, f.BoolS)
	if f.Lo != nil {
		s += ",>" + f.Lo.String()
	}
	if f.Hi != nil {
		s += ",<" + f.Hi.String()
	}
	if f.Dyn != nil {
		s += ",D" + tkey(f.Dyn)
	}
	for _, t := range f.NotDyn {
		s += ",N" + tkey(t)
	}
	return s
}

// order relation bits
const (
	LT uint8 = 1 << iota
	EQ
	GT
	UN // unordered (NaN)
)

func flip(r uint8) uint8 {
	o := r & (EQ | UN)
	if r&LT != 0 {
		o |= GT
	}
	if r&GT != 0 {
		o |= LT
	}
	return o
}

type relKey struct{ a, b string }

type relEnt struct {
	a, b Val
	r    uint8
}

// Frame is an activation.
type Frame struct {
	Fn     *ssa.Function
	Block  *ssa.BasicBlock
	Prev   *ssa.BasicBlock
	PC     int
	Locals map[ssa.Value]Val
	Binds  []Val
	Args   []Val
	Defers []deferred
	Call   ssa.Instruction // the call instruction in the caller; nil for root
	Ctx    string
	Visits map[*ssa.BasicBlock]int
	// deferred-run state
	InDefer   bool // this frame was pushed to run a deferred call
	Spawned   bool // pushed by a model; its results are dropped
	Running   bool // currently running own deferred calls
	RunKind   int  // 1 normal RunDefers, 2 panic unwinding
	Recovered bool
	PrevSnap  map[*ssa.BasicBlock]*snapshot
}

type snapshot struct {
	phis map[ssa.Value]Val
	heap map[string]Val
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	inst ssa.Instruction
}

// State is one abstract state.
type State struct {
	Heap   map[string]*cell
	Base   map[string]*cell // immutable initial heap (package variables after initialisation), shared
	facts  map[*Term]Fact
	rels   map[relKey]relEnt
	lin    []*linCon
	Stack  []*Frame
	Mon    map[string]Val // monitor registers (values are renamed with the state)
	Panic  Val            // current panic value while unwinding
	Trace  *TraceEv
	depthT int
	seq    int
}

type cell struct {
	id CellID
	v  Val
	in bool // input storage (reached through an opaque argument)
}

// TraceEv is a linked list of events, for diagnostics only.
type TraceEv struct {
	Prev *TraceEv
	S    string
}

// NewState returns an empty state.
func NewState() *State {
	return &State{Heap: map[string]*cell{}, facts: map[*Term]Fact{}, rels: map[relKey]relEnt{}, Mon: map[string]Val{}}
}

// Clone copies the state.
func (s *State) Clone() *State {
	n := &State{Base: s.Base, lin: s.lin, Heap: make(map[string]*cell, len(s.Heap)), facts: make(map[*Term]Fact, len(s.facts)), rels: make(map[relKey]relEnt, len(s.rels)),
		Mon: make(map[string]Val, len(s.Mon)), Panic: s.Panic, Trace: s.Trace, depthT: s.depthT, seq: s.seq}
	for k, v := range s.Heap {
		n.Heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.rels {
		n.rels[k] = v
	}
	for k, v := range s.Mon {
		n.Mon[k] = v
	}
	n.Stack = make([]*Frame, len(s.Stack))
	for i, f := range s.Stack {
		n.Stack[i] = f.clone()
	}
	return n
}

func (f *Frame) clone() *Frame {
	n := *f
	n.Locals = make(map[ssa.Value]Val, len(f.Locals))
	for k, v := range f.Locals {
		n.Locals[k] = v
	}
	n.Visits = make(map[*ssa.BasicBlock]int, len(f.Visits))
	for k, v := range f.Visits {
		n.Visits[k] = v
	}
	n.PrevSnap = make(map[*ssa.BasicBlock]*snapshot, len(f.PrevSnap))
	for k, v := range f.PrevSnap {
		n.PrevSnap[k] = v
	}
	n.Defers = append([]deferred(nil), f.Defers...)
	return &n
}

// Event records a trace event.
func (s *State) Event(format string, a ...any) {
	s.depthT++
	if s.depthT > 400 {
		return
	}
	s.Trace = &TraceEv{s.Trace, fmt.Sprintf(format, a...)}
}

// TraceString renders the events.
func (s *State) TraceString() string {
	var l []string
	for e := s.Trace; e != nil; e = e.Prev {
		l = append(l, e.S)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return strings.Join(l, " ; ")
}

// ---- facts

// FactOf returns the fact of a term.
func (s *State) FactOf(t *Term) Fact { return s.facts[t] }

func (s *State) setFact(t *Term, f Fact) {
	if t.old {
		return
	}
	if f.empty() {
		delete(s.facts, t)
		return
	}
	s.facts[t] = f
}

// SetNonNil, SetNil record nilness.
func (s *State) SetNonNil(t *Term) { f := s.facts[t]; f.NilS = 2; s.setFact(t, f) }
func (s *State) SetNil(t *Term)    { f := s.facts[t]; f.NilS = 1; s.setFact(t, f) }

// SetDyn records the dynamic type of an interface-typed term.
func (s *State) SetDyn(t *Term, d types.Type) {
	f := s.facts[t]
	f.Dyn = d
	f.NilS = 2
	s.setFact(t, f)
}

// SetRange records an interval.
func (s *State) SetRange(t *Term, lo, hi *big.Int) {
	f := s.facts[t]
	f.Lo, f.Hi = lo, hi
	s.setFact(t, f)
}

// SetBool records a truth value.
func (s *State) SetBool(t *Term, b bool) {
	f := s.facts[t]
	f.BoolS = 1
	if b {
		f.BoolS = 2
	}
	s.setFact(t, f)
}

// Nilness of a value: 1 nil, 2 non-nil, 0 unknown.
func (s *State) Nilness(v Val) int8 {
	switch x := v.(type) {
	case *Nil:
		return 1
	case *Term:
		if x.Fresh {
			return 2
		}
		if f := s.facts[x]; f.NilS != 0 {
			return f.NilS
		}
		return 0
	}
	return 2
}

// Interval of an integer value.
func (s *State) Interval(v Val) (lo, hi *big.Int) {
	switch x := v.(type) {
	case *Const:
		if i, ok := IntOf(x); ok {
			return i, i
		}
		return nil, nil
	case *Term:
		lo, hi = TypeRange(x.T)
		if lo == nil {
			return nil, nil
		}
		f := s.facts[x]
		if f.Lo != nil && f.Lo.Cmp(lo) > 0 {
			lo = f.Lo
		}
		if f.Hi != nil && f.Hi.Cmp(hi) < 0 {
			hi = f.Hi
		}
		// derived
		if bitwise(x) {
			if l, h := s.bitRange(x); l != nil {
				if l.Cmp(lo) > 0 {
					lo = l
				}
				if h.Cmp(hi) < 0 {
					hi = h
				}
			}
		}
		switch {
		case x.Op == "digit":
			if lo.Sign() < 0 {
				lo = new(big.Int)
			}
			if hi.CmpAbs(big.NewInt(9)) > 0 {
				hi = big.NewInt(9)
			}
		case x.Op == "len" || x.Op == "cap":
			if lo.Sign() < 0 {
				lo = new(big.Int)
			}
			if isOp(x.Args[0], "runestr") {
				return big.NewInt(1), big.NewInt(4)
			}
			m := new(big.Int).Lsh(big.NewInt(1), 62)
			if hi.Cmp(m) > 0 {
				hi = m
			}
		case (x.Op == "cv" || x.Op == "shallow") && len(x.Args) == 1:
			l, h := s.Interval(x.Args[0])
			if l != nil {
				if l.Cmp(lo) > 0 {
					lo = l
				}
				if h.Cmp(hi) < 0 {
					hi = h
				}
			}
		case (x.Op == "+" || x.Op == "-" || x.Op == "*") && len(x.Args) == 2:
			l1, h1 := s.Interval(x.Args[0])
			l2, h2 := s.Interval(x.Args[1])
			if l1 != nil && l2 != nil {
				l, h := ivArith(x.Op, l1, h1, l2, h2)
				tl, th := TypeRange(x.T)
				if l.Cmp(tl) >= 0 && h.Cmp(th) <= 0 {
					if l.Cmp(lo) > 0 {
						lo = l
					}
					if h.Cmp(hi) < 0 {
						hi = h
					}
				}
			}
		case x.Op == "neg" && len(x.Args) == 1:
			l1, h1 := s.Interval(x.Args[0])
			if l1 != nil {
				l, h := new(big.Int).Neg(h1), new(big.Int).Neg(l1)
				tl, th := TypeRange(x.T)
				if l.Cmp(tl) >= 0 && h.Cmp(th) <= 0 {
					if l.Cmp(lo) > 0 {
						lo = l
					}
					if h.Cmp(hi) < 0 {
						hi = h
					}
				}
			}
		case x.Op == "&" && len(x.Args) == 2:
			for _, a := range x.Args {
				if c, ok := IntOf(a); ok && c.Sign() >= 0 {
					if lo.Sign() < 0 {
						lo = new(big.Int)
					}
					if c.Cmp(hi) < 0 {
						hi = c
					}
				}
			}
		case x.Op == "%" && len(x.Args) == 2:
			if c, ok := IntOf(x.Args[1]); ok && c.Sign() != 0 {
				m := new(big.Int).Abs(c)
				m.Sub(m, big.NewInt(1))
				if m.Cmp(hi) < 0 {
					hi = m
				}
				nm := new(big.Int).Neg(m)
				if nm.Cmp(lo) > 0 {
					lo = nm
				}
			}
		}
		return lo, hi
	}
	return nil, nil
}

func ivArith(op string, l1, h1, l2, h2 *big.Int) (lo, hi *big.Int) {
	switch op {
	case "+":
		return new(big.Int).Add(l1, l2), new(big.Int).Add(h1, h2)
	case "-":
		return new(big.Int).Sub(l1, h2), new(big.Int).Sub(h1, l2)
	}
	var all []*big.Int
	for _, a := range []*big.Int{l1, h1} {
		for _, b := range []*big.Int{l2, h2} {
			all = append(all, new(big.Int).Mul(a, b))
		}
	}
	lo, hi = all[0], all[0]
	for _, x := range all {
		if x.Cmp(lo) < 0 {
			lo = x
		}
		if x.Cmp(hi) > 0 {
			hi = x
		}
	}
	return
}

// Strip removes value-preserving conversions.
func Strip(v Val) Val {
	for {
		t, ok := v.(*Term)
		if !ok || t.Op != "cv" && t.Op != "shallow" {
			return v
		}
		v = t.Args[0]
	}
}

// linear form x + c
func linear(v Val) (base Val, c *big.Int) {
	v = Strip(v)
	if i, ok := IntOf(v); ok {
		return nil, i
	}
	if t, ok := v.(*Term); ok && len(t.Args) == 2 && (t.Op == "+" || t.Op == "-") {
		if i, ok := IntOf(t.Args[1]); ok {
			b, c := linear(t.Args[0])
			if t.Op == "-" {
				return b, new(big.Int).Sub(c, i)
			}
			return b, new(big.Int).Add(c, i)
		}
	}
	return v, new(big.Int)
}

// Rel returns the possible order relations between a and b (bits).
func (s *State) Rel(a, b Val) uint8 {
	return s.rel(a, b, true)
}

func valType(v Val) types.Type {
	switch x := v.(type) {
	case *Const:
		return x.T
	case *Term:
		return x.T
	case *Struct:
		return x.T
	case *Nil:
		return x.T
	}
	return nil
}

// canon strips conversions, and gives floating-point constants of all types the same representation.
func canon(v Val) Val {
	v = Strip(v)
	if c, ok := v.(*Const); ok && c.T != nil && isFloat(c.T) && c.T != types.Typ[types.Float64] && IsBasic(c.T) {
		return MkConst(types.Typ[types.Float64], c.V)
	}
	if t, ok := v.(*Term); ok && t.Op == "neg" && isFloat(t.T) && !types.Identical(t.T, t.T.Underlying()) {
		return mkTerm(t.T.Underlying(), "neg", t.Age, t.Fresh, t.Args...)
	}
	return v
}

// IsBasic reports whether the underlying type is a basic type.
func IsBasic(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }

func (s *State) rel(a, b Val, deep bool) uint8 {
	a, b = canon(a), canon(b)
	full := LT | EQ | GT
	if p, ok := identity(a); ok {
		if q, ok := identity(b); ok {
			switch s.Equal(p, q) {
			case 1:
				return EQ
			case -1:
				return LT | GT
			}
		}
	}
	ta, tb := valType(a), valType(b)
	fl := (ta != nil && isFloat(ta)) || (tb != nil && isFloat(tb))
	if fl {
		full |= UN
	}
	if ca, ok := a.(*Const); ok {
		if cb, ok := b.(*Const); ok {
			if ca.V.Kind() == constant.Bool && cb.V.Kind() == constant.Bool {
				if constant.BoolVal(ca.V) == constant.BoolVal(cb.V) {
					return EQ
				}
				return LT | GT
			}
			numeric := func(k constant.Kind) bool { return k == constant.Int || k == constant.Float }
			if (numeric(ca.V.Kind()) && numeric(cb.V.Kind())) || (ca.V.Kind() == constant.String && cb.V.Kind() == constant.String) {
				switch {
				case constant.Compare(ca.V, token.LSS, cb.V):
					return LT
				case constant.Compare(ca.V, token.GTR, cb.V):
					return GT
				}
				return EQ
			}
			if ca.K() == cb.K() {
				return EQ
			}
			return LT | GT
		}
	}
	if a.K() == b.K() && !IsOld(a) {
		if fl {
			if r, ok := s.lookupRel(a, b); ok {
				return r
			}
			switch s.nan(a) {
			case -1:
				return EQ
			case 1:
				return UN
			}
			return EQ | UN
		}
		return EQ
	}
	if fl && s.notNaN(a) && s.notNaN(b) {
		full &^= UN
	}
	r := full
	if q := s.relStr(a, b); q != 0 {
		r &= q
		if q == EQ {
			return EQ
		}
	}
	if q := s.relBits(a, b); q != 0 {
		if q == EQ {
			return EQ
		}
		r &= q
	}
	la, ha := s.Interval(a)
	lb, hb := s.Interval(b)
	if la != nil && lb != nil {
		if ha.Cmp(lb) < 0 {
			r &= LT
		} else if la.Cmp(hb) > 0 {
			r &= GT
		} else {
			if ha.Cmp(lb) == 0 {
				r &= LT | EQ
			}
			if la.Cmp(hb) == 0 {
				r &= GT | EQ
			}
		}
		// linear offsets of the same base (no wrap-around within the intervals)
		ba, oa := linear(a)
		bb, ob := linear(b)
		if ba != nil && bb != nil && ba.K() == bb.K() && !IsOld(ba) {
			l, h := s.Interval(ba)
			tl, th := TypeRange(valType(ba))
			ok := true
			for _, o := range []*big.Int{oa, ob} {
				if new(big.Int).Add(l, o).Cmp(tl) < 0 || new(big.Int).Add(h, o).Cmp(th) > 0 {
					ok = false
				}
			}
			if ok {
				switch oa.Cmp(ob) {
				case -1:
					r &= LT
				case 1:
					r &= GT
				default:
					r &= EQ
				}
			}
		}
	}
	if q, ok := s.lookupRel(a, b); ok {
		r &= q
	}
	if deep && la != nil && lb != nil && r&^GT != 0 {
		// x < y implies x+1 <= y, x > y implies x-1 >= y (integers, no wrap-around)
		one := func(p, q Val, fl bool) {
			bp, op := linear(p)
			if bp == nil || bp.K() == p.K() || !op.IsInt64() {
				return
			}
			o := op.Int64()
			if o != 1 && o != -1 {
				return
			}
			l, h := s.Interval(bp)
			tl, th := TypeRange(valType(bp))
			if l == nil || tl == nil || new(big.Int).Add(l, op).Cmp(tl) < 0 || new(big.Int).Add(h, op).Cmp(th) > 0 {
				return
			}
			m := s.rel(bp, q, false)
			var a uint8 = LT | EQ | GT
			switch {
			case o == 1 && m == LT:
				a = LT | EQ
			case o == 1 && m&LT == 0:
				a = GT
			case o == -1 && m == GT:
				a = GT | EQ
			case o == -1 && m&GT == 0:
				a = LT
			}
			if fl {
				a = flip(a)
			}
			r &= a
		}
		one(a, b, false)
		one(b, a, true)
	}
	if deep && r != LT && r != EQ && r != GT && r != UN {
		// one-step transitivity
		for k, e := range s.rels {
			var c Val
			var rac uint8
			switch {
			case k.a == a.K():
				c, rac = e.b, e.r
			case k.b == a.K():
				c, rac = e.a, flip(e.r)
			default:
				continue
			}
			if c.K() == b.K() {
				continue
			}
			rcb := s.rel(c, b, false)
			r &= compose(rac, rcb, fl)
		}
	}
	if deep && Poly && !fl {
		r = s.polyRel(a, b, r)
	}
	return r
}

// notNaN reports whether a floating-point value is known to be a number.
func (s *State) notNaN(v Val) bool { return s.nan(v) == -1 }

// nan gives -1 if a floating-point value is known to be a number, 1 if it is known not to be one, 0 otherwise.
func (s *State) nan(v Val) int {
	v = canon(v)
	if t, ok := v.(*Term); ok && t.Op == "neg" && len(t.Args) == 1 {
		return s.nan(t.Args[0])
	}
	if _, ok := v.(*Const); ok {
		return -1
	}
	if r, ok := s.lookupRel(v, v); ok && r == EQ {
		return -1
	}
	k := v.K()
	for _, e := range s.rels {
		if e.a.K() != k && e.b.K() != k {
			continue
		}
		if e.r&UN == 0 {
			return -1
		}
		if e.r == UN {
			o := e.a
			if e.a.K() == k {
				o = e.b
			}
			if _, ok := o.(*Const); ok || e.a.K() == e.b.K() {
				return 1
			}
		}
	}
	return 0
}

func compose(x, y uint8, fl bool) uint8 {
	if x&UN != 0 || y&UN != 0 {
		return LT | EQ | GT | UN
	}
	var r uint8
	for _, a := range []uint8{LT, EQ, GT} {
		if x&a == 0 {
			continue
		}
		for _, b := range []uint8{LT, EQ, GT} {
			if y&b == 0 {
				continue
			}
			switch {
			case a == EQ:
				r |= b
			case b == EQ:
				r |= a
			case a == b:
				r |= a
			default:
				r |= LT | EQ | GT
			}
		}
	}
	return r
}

// RelsOf visits the recorded relations of v.
func (s *State) RelsOf(v Val, f func(other Val, r uint8)) {
	k := Strip(v).K()
	for _, e := range s.rels {
		if e.a.K() == k {
			f(e.b, e.r)
		}
		if e.b.K() == k {
			f(e.a, flip(e.r))
		}
	}
}

func (s *State) lookupRel(a, b Val) (uint8, bool) {
	if e, ok := s.rels[relKey{a.K(), b.K()}]; ok {
		return e.r, true
	}
	if e, ok := s.rels[relKey{b.K(), a.K()}]; ok {
		return flip(e.r), true
	}
	return 0, false
}

// SetRel constrains the relation of a and b; false means contradiction.
func (s *State) SetRel(a, b Val, r uint8) bool {
	a, b = canon(a), canon(b)
	r &= s.Rel(a, b)
	if r == 0 {
		return false
	}
	if IsOld(a) || IsOld(b) {
		return true
	}
	if _, ok := a.(*Const); ok {
		if _, ok := b.(*Const); ok {
			return true
		}
	}
	if a.K() > b.K() {
		a, b = b, a
		r = flip(r)
	}
	s.rels[relKey{a.K(), b.K()}] = relEnt{a, b, r}
	if Poly {
		if c, ok := linRel(a, b, r); ok {
			s.addLin(c)
		}
	}
	s.refineIv(a, b, r)
	s.refineIv(b, a, flip(r))
	return !ClosedRels || s.closeRel(a, b, r)
}

// ClosedRels keeps the recorded relations transitively closed.
var ClosedRels bool

// closeRel adds the relations that follow from a r b and those recorded of a and b.
func (s *State) closeRel(a, b Val, r uint8) bool {
	if r&UN != 0 {
		return true
	}
	type rv struct {
		v Val
		r uint8
	}
	var as, bs []rv // what a is related to by r, b likewise
	for _, e := range s.rels {
		if e.r&UN != 0 || IsOld(e.a) || IsOld(e.b) {
			continue
		}
		switch a.K() {
		case e.a.K():
			as = append(as, rv{e.b, flip(e.r)})
		case e.b.K():
			as = append(as, rv{e.a, e.r})
		}
		switch b.K() {
		case e.a.K():
			bs = append(bs, rv{e.b, e.r})
		case e.b.K():
			bs = append(bs, rv{e.a, flip(e.r)})
		}
	}
	add := func(p, q Val, r uint8) bool {
		if r == LT|EQ|GT || p.K() == q.K() {
			return p.K() != q.K() || r&EQ != 0
		}
		if p.K() > q.K() {
			p, q, r = q, p, flip(r)
		}
		k := relKey{p.K(), q.K()}
		o, ok := s.rels[k]
		if ok {
			r &= o.r
			if r == o.r {
				return true
			}
		}
		if r == 0 {
			return false
		}
		if _, ok := p.(*Const); ok {
			if _, ok := q.(*Const); ok {
				return s.rel(p, q, false)&r != 0
			}
		}
		s.rels[k] = relEnt{p, q, r}
		return true
	}
	as = append(as, rv{a, EQ})
	bs = append(bs, rv{b, EQ})
	for _, p := range as {
		pb := compose(p.r, r, false)
		for _, q := range bs {
			if !add(p.v, q.v, compose(pb, q.r, false)) {
				return false
			}
		}
	}
	return true
}

// refineIv tightens the interval of a given a r b.
func (s *State) refineIv(a, b Val, r uint8) {
	ta, ok := a.(*Term)
	if !ok {
		return
	}
	lb, hb := s.Interval(b)
	la, ha := s.Interval(a)
	if lb == nil || la == nil || r&UN != 0 {
		return
	}
	one := big.NewInt(1)
	lo, hi := la, ha
	if r&GT == 0 { // a <= b
		h := hb
		if r&EQ == 0 {
			h = new(big.Int).Sub(hb, one)
		}
		if h.Cmp(hi) < 0 {
			hi = h
		}
	}
	if r&LT == 0 { // a >= b
		l := lb
		if r&EQ == 0 {
			l = new(big.Int).Add(lb, one)
		}
		if l.Cmp(lo) > 0 {
			lo = l
		}
	}
	if r == LT|GT && lb.Cmp(hb) == 0 { // a != const at an end point
		if lo.Cmp(lb) == 0 {
			lo = new(big.Int).Add(lo, one)
		} else if hi.Cmp(lb) == 0 {
			hi = new(big.Int).Sub(hi, one)
		}
	}
	if lo != la || hi != ha {
		f := s.facts[ta]
		f.Lo, f.Hi = lo, hi
		s.setFact(ta, f)
		// push through x + c
		if len(ta.Args) == 2 && (ta.Op == "+" || ta.Op == "-") {
			if c, ok := IntOf(ta.Args[1]); ok {
				if base, ok := ta.Args[0].(*Term); ok {
					d := new(big.Int).Set(c)
					if ta.Op == "+" {
						d.Neg(d)
					}
					bl, bh := s.Interval(base)
					tl, th := TypeRange(ta.T)
					// only when the base computation cannot wrap
					nl, nh := new(big.Int).Sub(bl, d), new(big.Int).Sub(bh, d)
					if nl.Cmp(tl) >= 0 && nh.Cmp(th) <= 0 {
						x, y := new(big.Int).Add(lo, d), new(big.Int).Add(hi, d)
						bf := s.facts[base]
						if x.Cmp(bl) > 0 {
							bf.Lo = x
						}
						if y.Cmp(bh) < 0 {
							bf.Hi = y
						}
						s.setFact(base, bf)
					}
				}
			}
		}
	}
}

// Feasible reports whether all intervals are non-empty.
func (s *State) feasibleTerm(v Val) bool {
	lo, hi := s.Interval(v)
	return lo == nil || lo.Cmp(hi) <= 0
}

// Equal decides value equality: 1 equal, -1 different, 0 unknown.
func (s *State) Equal(a, b Val) int {
	a, b = Strip(a), Strip(b)
	if _, ok := a.(*Nil); ok {
		switch s.Nilness(b) {
		case 1:
			return 1
		case 2:
			return -1
		}
		return 0
	}
	if _, ok := b.(*Nil); ok {
		return s.Equal(b, a)
	}
	if a.K() == b.K() && !IsOld(a) {
		if t := valType(a); t != nil && isFloat(t) {
			if _, c := a.(*Const); !c {
				r := s.Rel(a, b)
				if r == EQ {
					return 1
				}
				if r&EQ == 0 {
					return -1
				}
				return 0
			}
		}
		return 1
	}
	switch x := a.(type) {
	case *Const:
		switch b.(type) {
		case *Const, *Term:
			r := s.Rel(a, b)
			if r == EQ {
				return 1
			}
			if r&EQ == 0 {
				return -1
			}
		}
		return 0
	case *Term:
		if y, ok := b.(*Term); ok {
			if x.Fresh && y.Fresh && !x.old && !y.old {
				return -1
			}
		}
		r := s.Rel(a, b)
		if r == EQ {
			return 1
		}
		if r&EQ == 0 {
			return -1
		}
		switch b.(type) {
		case *Ptr, *MapRef, *Closure, *Slice, *Iface:
			if s.Nilness(x) == 1 {
				return -1
			}
		}
		return 0
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			if x.Cell.Base == nil && y.Cell.Base == nil && x.Cell.K() != y.Cell.K() {
				return -1
			}
			return 0
		}
		if _, ok := b.(*Term); ok {
			return s.Equal(b, a)
		}
		return 0
	case *Iface:
		if y, ok := b.(*Iface); ok {
			if !types.Identical(x.Dyn, y.Dyn) {
				return -1
			}
			return s.Equal(x.V, y.V)
		}
		if _, ok := b.(*Term); ok {
			return s.Equal(b, a)
		}
		return 0
	case *Struct:
		if y, ok := b.(*Struct); ok && len(x.F) == len(y.F) {
			all := 1
			for i := range x.F {
				switch s.Equal(x.F[i], y.F[i]) {
				case -1:
					return -1
				case 0:
					all = 0
				}
			}
			return all
		}
		if _, ok := b.(*Term); ok {
			return s.Equal(b, a)
		}
		return 0
	case *RType:
		if y, ok := b.(*RType); ok {
			if types.Identical(x.T, y.T) {
				return 1
			}
			return -1
		}
	}
	return 0
}

// ---- renaming

func (s *State) subst(sub *substituter) {
	sub.memo = map[string]Val{}
	nh := make(map[string]*cell, len(s.Heap))
	for k, c := range s.Heap {
		id, ch := sub.cid(c.id)
		v := sub.do(c.v)
		if !ch && v == c.v {
			if old, ok := nh[k]; ok {
				nh[k] = joinCell(old, c)
			} else {
				nh[k] = c
			}
			continue
		}
		nc := &cell{id: id, v: v, in: c.in}
		nk := id.K()
		if old, ok := nh[nk]; ok {
			nc = joinCell(old, nc)
		}
		nh[nk] = nc
	}
	s.Heap = nh
	nf := make(map[*Term]Fact, len(s.facts))
	for t, f := range s.facts {
		n := sub.do(t)
		nt, ok := n.(*Term)
		if !ok || nt.old {
			continue
		}
		if g, ok := nf[nt]; ok {
			f = joinFact(f, g)
		} else if nt != t {
			if _, clash := s.facts[nt]; clash && sub.do(nt) == nt {
				f = joinFact(f, s.facts[nt])
			}
		}
		if f.empty() {
			delete(nf, nt)
		} else {
			nf[nt] = f
		}
	}
	s.facts = nf
	nr := make(map[relKey]relEnt, len(s.rels))
	for _, e := range s.rels {
		a, b := sub.do(e.a), sub.do(e.b)
		if IsOld(a) || IsOld(b) {
			continue
		}
		r := e.r
		if a.K() > b.K() {
			a, b = b, a
			r = flip(r)
		}
		k := relKey{a.K(), b.K()}
		if o, ok := nr[k]; ok {
			r |= o.r
		}
		nr[k] = relEnt{a, b, r}
	}
	s.rels = nr
	var nl []*linCon
	for _, c := range s.lin {
		if c = c.rename(sub); c != nil {
			nl = append(nl, c)
		}
	}
	s.lin = nl
	for _, f := range s.Stack {
		for k, v := range f.Locals {
			f.Locals[k] = sub.do(v)
		}
		f.Binds, _ = sub.list(f.Binds)
		f.Args, _ = sub.list(f.Args)
		for i := range f.Defers {
			if f.Defers[i].fn != nil {
				f.Defers[i].fn = sub.do(f.Defers[i].fn)
			}
			f.Defers[i].args, _ = sub.list(f.Defers[i].args)
		}
		for b, sn := range f.PrevSnap {
			ns := &snapshot{phis: map[ssa.Value]Val{}, heap: map[string]Val{}}
			for k, v := range sn.phis {
				ns.phis[k] = sub.do(v)
			}
			for k, v := range sn.heap {
				ns.heap[k] = sub.do(v)
			}
			f.PrevSnap[b] = ns
		}
	}
	for k, v := range s.Mon {
		s.Mon[k] = sub.do(v)
	}
	if s.Panic != nil {
		s.Panic = sub.do(s.Panic)
	}
}

func joinFact(a, b Fact) Fact {
	var o Fact
	if a.NilS == b.NilS {
		o.NilS = a.NilS
	}
	if a.BoolS == b.BoolS {
		o.BoolS = a.BoolS
	}
	if a.Lo != nil && b.Lo != nil {
		o.Lo = a.Lo
		if b.Lo.Cmp(o.Lo) < 0 {
			o.Lo = b.Lo
		}
	}
	if a.Hi != nil && b.Hi != nil {
		o.Hi = a.Hi
		if b.Hi.Cmp(o.Hi) > 0 {
			o.Hi = b.Hi
		}
	}
	if a.Dyn != nil && b.Dyn != nil && types.Identical(a.Dyn, b.Dyn) {
		o.Dyn = a.Dyn
	}
	return o
}

func alts(v Val) []Val {
	if a, ok := v.(*Alts); ok {
		return a.Vs
	}
	return []Val{v}
}

func mkAlts(vs []Val) Val {
	vs = dedupe(vs)
	if len(vs) == 1 {
		return vs[0]
	}
	return &Alts{Vs: vs}
}

func joinVal(a, b Val) Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.K() == b.K() {
		return a
	}
	ba, ok1 := a.(*Backing)
	bb, ok2 := b.(*Backing)
	if ok1 && ok2 {
		o := &Backing{Base: ba.Base, Elem: ba.Elem, Sum: append(append([]Val(nil), ba.Sum...), bb.Sum...)}
		if ba.Base == nil {
			o.Base = bb.Base
		}
		for _, w := range ba.W {
			o.Sum = append(o.Sum, w.V)
		}
		for _, w := range bb.W {
			o.Sum = append(o.Sum, w.V)
		}
		o.Sum = dedupe(o.Sum)
		return o
	}
	ma, ok1 := a.(*MapObj)
	mb, ok2 := b.(*MapObj)
	if ok1 && ok2 {
		o := &MapObj{Base: ma.Base, T: ma.T}
		o.Sum = append(append([]Wr(nil), ma.Sum...), mb.Sum...)
		for _, w := range append(append([]Wr(nil), ma.W...), mb.W...) {
			if w.V != nil {
				o.Sum = append(o.Sum, w)
			}
		}
		return normMap(o)
	}
	return mkAlts(append(append([]Val(nil), alts(a)...), alts(b)...))
}

func joinCell(a, b *cell) *cell {
	return &cell{id: b.id, v: joinVal(a.v, b.v), in: a.in || b.in}
}

// NewLeaf makes a fresh most-recent leaf for a site, ageing the previous ones.
func (s *State) NewLeaf(t types.Type, site string, fresh bool) *Term {
	l0 := mkTerm(t, site, 0, fresh)
	if s.occurs(func(v Val) bool {
		x, ok := v.(*Term)
		return ok && len(x.Args) == 0 && x.Op == site
	}) {
		s.subst(&substituter{leaf: func(x *Term) Val {
			if len(x.Args) == 0 && x.Op == site && x.Age < MaxAge {
				return mkTerm(x.T, site, x.Age+1, x.Fresh)
			}
			return nil
		}})
	}
	return l0
}

// NewCell makes a fresh most-recent cell for a site, ageing the previous ones.
func (s *State) NewCell(site string, v Val) CellID {
	id := CellID{Site: site}
	if _, ok := s.Heap[id.K()]; ok {
		s.gc()
	}
	if _, ok := s.Heap[id.K()]; ok {
		s.subst(&substituter{cell: func(c CellID) (CellID, bool) {
			if c.Site == site && c.Age < MaxAge {
				c.Age++
				return c, true
			}
			return c, false
		}})
	}
	s.Heap[id.K()] = &cell{id: id, v: v}
	return id
}

func (s *State) eachRoot(f func(Val)) {
	for _, fr := range s.Stack {
		for _, v := range fr.Locals {
			f(v)
		}
		for _, v := range fr.Binds {
			if v != nil {
				f(v)
			}
		}
		for _, v := range fr.Args {
			if v != nil {
				f(v)
			}
		}
		for _, d := range fr.Defers {
			if d.fn != nil {
				f(d.fn)
			}
			for _, v := range d.args {
				if v != nil {
					f(v)
				}
			}
		}
	}
	for _, v := range s.Mon {
		f(v)
	}
	if s.Panic != nil {
		f(s.Panic)
	}
}

func (s *State) occurs(p func(Val) bool) bool {
	found := false
	w := func(v Val) {
		if found {
			return
		}
		Walk(v, func(x Val) bool {
			if p(x) {
				found = true
			}
			return !found
		})
	}
	s.eachRoot(w)
	for _, c := range s.Heap {
		if c.id.Base != nil {
			w(c.id.Base)
		}
		for _, a := range alts(c.v) {
			w(a)
		}
	}
	for t := range s.facts {
		w(t)
	}
	for _, e := range s.rels {
		w(e.a)
		w(e.b)
	}
	for _, c := range s.lin {
		for t := range c.co {
			w(t)
		}
	}
	return found
}

// reach computes reachable cells from the roots (and persistent cells).
func (s *State) reach() (map[string]bool, map[string]bool) {
	cells := map[string]bool{}
	terms := map[string]bool{}
	var visit func(v Val)
	visitCell := func(id CellID) {
		k := id.K()
		if cells[k] {
			return
		}
		cells[k] = true
		if c, ok := s.Heap[k]; ok {
			for _, a := range alts(c.v) {
				visit(a)
			}
		}
	}
	seen := map[string]bool{}
	visit = func(v Val) {
		Walk(v, func(x Val) bool {
			switch y := x.(type) {
			case *Const, *Nil, *RType:
				return false
			case *Term:
				if terms[y.k] {
					return false
				}
				terms[y.k] = true
				visitCell(CellID{Base: y})
			case *Ptr:
				visitCell(y.Cell)
			case *Slice:
				visitCell(y.Cell)
			case *MapRef:
				visitCell(y.Cell)
			case *IterRef:
				visitCell(y.Cell)
			case *Closure, *Struct, *Iface:
				if seen[y.K()] {
					return false
				}
				seen[y.K()] = true
			}
			return true
		})
	}
	s.eachRoot(visit)
	for _, c := range s.Heap {
		if strings.HasPrefix(c.id.Site, "g:") {
			visitCell(c.id)
		}
	}
	return cells, terms
}

// baseTerms are the leaves in the initial values of package variables, which stay reachable.
var baseTerms = map[string]bool{}

func (s *State) gc() {
	cells, terms := s.reach()
	for k := range s.Heap {
		if !cells[k] {
			delete(s.Heap, k)
		}
	}
	live := func(v Val) bool {
		ok := true
		Walk(v, func(x Val) bool {
			switch y := x.(type) {
			case *Term:
				if len(y.Args) == 0 {
					if !terms[y.k] && !baseTerms[y.k] {
						ok = false
					}
					return false
				}
				if terms[y.k] {
					return false
				}
			case *Ptr:
				if !cells[y.Cell.K()] {
					ok = false
				}
			}
			return ok
		})
		return ok
	}
	for t := range s.facts {
		if !live(t) {
			delete(s.facts, t)
		}
	}
	for k, e := range s.rels {
		if !live(e.a) || !live(e.b) {
			delete(s.rels, k)
		}
	}
	if len(s.lin) > 0 {
		var nl []*linCon
		for _, c := range s.lin {
			ok := true
			for t := range c.co {
				ok = ok && live(t)
			}
			if ok {
				nl = append(nl, c)
			}
		}
		s.lin = nl
	}
}

// Key is the canonical key of the state (after gc).
func (s *State) Key(withStack bool) string {
	s.gc()
	var sb strings.Builder
	if withStack {
		for _, f := range s.Stack {
			fmt.Fprintf(&sb, "F%s/%d/%d/%v/%d/", f.Fn.String(), f.Block.Index, f.PC, f.Running, f.RunKind)
			if f.Prev != nil {
				fmt.Fprintf(&sb, "p%d", f.Prev.Index)
			}
			fmt.Fprintf(&sb, "c%s|", f.Ctx)
			var ls []string
			for k, v := range f.Locals {
				ls = append(ls, k.Name()+"="+v.K())
			}
			sort.Strings(ls)
			sb.WriteString(strings.Join(ls, ";"))
			sb.WriteString(keys(f.Binds))
			for _, d := range f.Defers {
				fmt.Fprintf(&sb, "D%p", d.inst)
				if d.fn != nil {
					sb.WriteString(d.fn.K())
				}
				sb.WriteString(keys(d.args))
			}
			var vs []string
			for b, n := range f.Visits {
				vs = append(vs, fmt.Sprintf("v%d:%d", b.Index, n))
			}
			sort.Strings(vs)
			sb.WriteString(strings.Join(vs, ","))
			sb.WriteString("\n")
		}
	}
	var ls []string
	for k, c := range s.Heap {
		ls = append(ls, k+":="+c.v.K())
	}
	sort.Strings(ls)
	sb.WriteString(strings.Join(ls, "\n"))
	ls = ls[:0]
	for t, f := range s.facts {
		ls = append(ls, t.k+"?"+f.key())
	}
	sort.Strings(ls)
	sb.WriteString("\n!" + strings.Join(ls, ";"))
	ls = ls[:0]
	for k, e := range s.rels {
		ls = append(ls, fmt.Sprintf("%s<%d>%s", k.a, e.r, k.b))
	}
	sort.Strings(ls)
	sb.WriteString("\n!" + strings.Join(ls, ";"))
	if len(s.lin) > 0 {
		ls = ls[:0]
		for _, c := range s.lin {
			ls = append(ls, c.key())
		}
		sort.Strings(ls)
		sb.WriteString("\n!" + strings.Join(ls, ";"))
	}
	ls = ls[:0]
	for k, v := range s.Mon {
		ls = append(ls, k+"="+v.K())
	}
	sort.Strings(ls)
	sb.WriteString("\n!" + strings.Join(ls, ";"))
	if s.Panic != nil {
		sb.WriteString("P" + s.Panic.K())
	}
	return sb.String()
}

// ---- heap access

// content returns the content of a cell, materialising cells behind opaque pointers.
func (s *State) content(id CellID, t types.Type) Val {
	if c, ok := s.Heap[id.K()]; ok {
		return c.v
	}
	if c, ok := s.Base[id.K()]; ok {
		return c.v
	}
	if id.Base != nil {
		v := s.derefDefault(id.Base, t)
		s.Heap[id.K()] = &cell{id: id, v: v, in: true}
		return v
	}
	return nil
}

func (s *State) derefDefault(base Val, t types.Type) Val {
	switch valType(base).Underlying().(type) {
	case *types.Slice:
		return &Backing{Base: base, Elem: valType(base).Underlying().(*types.Slice).Elem()}
	case *types.Map:
		return &MapObj{Base: base, T: valType(base).Underlying().(*types.Map)}
	case *types.Pointer:
		t = valType(base).Underlying().(*types.Pointer).Elem()
	}
	if t == nil {
		t = types.Typ[types.Invalid]
	}
	return App(t, "deref", base)
}

func elemAt(v Val, i int) Val {
	switch x := v.(type) {
	case *Struct:
		if i < len(x.F) {
			return x.F[i]
		}
	case *Term:
		switch u := x.T.Underlying().(type) {
		case *types.Struct:
			return App(u.Field(i).Type(), fmt.Sprintf("f%d", i), x)
		case *types.Array:
			return App(u.Elem(), "elem", x, MkInt(types.Typ[types.Int], int64(i)))
		}
	}
	return nil
}

func expand(v Val) *Struct {
	switch x := v.(type) {
	case *Struct:
		return x
	case *Term:
		switch u := x.T.Underlying().(type) {
		case *types.Struct:
			f := make([]Val, u.NumFields())
			for i := range f {
				f[i] = elemAt(x, i)
			}
			return &Struct{T: x.T, F: f}
		case *types.Array:
			if u.Len() <= 64 {
				f := make([]Val, u.Len())
				for i := range f {
					f[i] = elemAt(x, i)
				}
				return &Struct{T: x.T, F: f}
			}
		}
	}
	return nil
}

// intOf returns the value of an integer that is constant or restricted to one value.
func (s *State) intOf(v Val) (*big.Int, bool) {
	if i, ok := IntOf(v); ok {
		return i, true
	}
	if t, ok := v.(*Term); ok && !IsOld(v) {
		if lo, hi := s.Interval(t); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			return lo, true
		}
	}
	return nil, false
}

// readPath reads path of v; returns alternatives.
func (s *State) readPath(v Val, path []Step, t types.Type) []Val {
	if v == nil {
		return nil
	}
	if a, ok := v.(*Alts); ok {
		var out []Val
		for _, x := range a.Vs {
			out = append(out, s.readPath(x, path, t)...)
		}
		return dedupe(out)
	}
	if len(path) == 0 {
		return []Val{v}
	}
	st := path[0]
	if st.Idx == nil {
		e := elemAt(v, st.Field)
		if e == nil {
			return nil
		}
		return s.readPath(e, path[1:], t)
	}
	switch x := v.(type) {
	case *Backing:
		var out []Val
		for _, e := range s.readElem(x, st.Idx) {
			out = append(out, s.readPath(e, path[1:], t)...)
		}
		return dedupe(out)
	case *Struct:
		if i, ok := s.intOf(st.Idx); ok {
			if i.IsInt64() && i.Int64() >= 0 && i.Int64() < int64(len(x.F)) {
				return s.readPath(x.F[i.Int64()], path[1:], t)
			}
			return nil
		}
		var out []Val
		for _, e := range x.F {
			out = append(out, s.readPath(e, path[1:], t)...)
		}
		return dedupe(out)
	case *Term:
		if u, ok := x.T.Underlying().(*types.Array); ok {
			return s.readPath(App(u.Elem(), "elem", x, st.Idx), path[1:], t)
		}
	}
	return nil
}

func (s *State) readElem(b *Backing, idx Val) []Val {
	var may []Val
	for _, w := range b.W {
		r := s.Rel(w.I, idx)
		if r == EQ && !IsOld(idx) {
			return []Val{w.V}
		}
		if r&EQ != 0 {
			may = append(may, w.V)
		}
	}
	may = append(may, b.Sum...)
	if b.Base != nil {
		may = append(may, App(b.Elem, "elem", b.Base, idx))
	} else if len(b.Sum) == 0 || !s.coveredBySum(b) {
		may = append(may, Zero(b.Elem))
	}
	return dedupe(may)
}

// coveredBySum: created empty and only ever appended to, so an in-range element is one of the written values.
func (s *State) coveredBySum(b *Backing) bool { return true }

func (s *State) writePath(v Val, path []Step, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	if a, ok := v.(*Alts); ok {
		var out []Val
		for _, x := range a.Vs {
			out = append(out, s.writePath(x, path, nv))
		}
		return mkAlts(out)
	}
	st := path[0]
	if st.Idx == nil {
		x := expand(v)
		if x == nil || st.Field >= len(x.F) {
			return v
		}
		f := append([]Val(nil), x.F...)
		f[st.Field] = s.writePath(f[st.Field], path[1:], nv)
		return &Struct{T: x.T, F: f}
	}
	switch x := v.(type) {
	case *Backing:
		val := nv
		if len(path) > 1 {
			old := s.readElem(x, st.Idx)
			var vs []Val
			for _, o := range old {
				vs = append(vs, s.writePath(o, path[1:], nv))
			}
			val = mkAlts(vs)
		}
		return s.writeElem(x, st.Idx, val)
	default:
		y := expand(v)
		if y == nil {
			return v
		}
		f := append([]Val(nil), y.F...)
		if i, ok := s.intOf(st.Idx); ok {
			if i.IsInt64() && i.Int64() >= 0 && i.Int64() < int64(len(f)) {
				f[i.Int64()] = s.writePath(f[i.Int64()], path[1:], nv)
			}
		} else {
			for i := range f {
				f[i] = joinVal(f[i], s.writePath(f[i], path[1:], nv))
			}
		}
		return &Struct{T: y.T, F: f}
	}
}

func (s *State) writeElem(b *Backing, idx Val, v Val) Val {
	vs := alts(v)
	if IsOld(idx) || len(vs) > 1 {
		return &Backing{Base: b.Base, Elem: b.Elem, W: b.W, Sum: dedupe(append(append([]Val(nil), b.Sum...), vs...))}
	}
	nb := &Backing{Base: b.Base, Elem: b.Elem, Sum: b.Sum}
	for _, w := range b.W {
		r := s.Rel(w.I, idx)
		switch {
		case r == EQ:
		case r&EQ == 0:
			nb.W = append(nb.W, w)
		default: // may alias: keep old value weakly
			nb.Sum = dedupe(append(append([]Val(nil), nb.Sum...), w.V))
		}
	}
	nb.W = append(nb.W, Wr{idx, v})
	sort.Slice(nb.W, func(i, j int) bool { return nb.W[i].I.K() < nb.W[j].I.K() })
	if len(nb.W) > MaxWrites {
		nb.Sum = dedupe(append(append([]Val(nil), nb.Sum...), nb.W[0].V))
		nb.W = nb.W[1:]
	}
	return nb
}

// Load reads through a pointer; alternatives.
func (s *State) Load(p Val, t types.Type) []Val {
	switch x := p.(type) {
	case *Ptr:
		return s.readPath(s.content(x.Cell, t), x.Path, t)
	case *Term:
		return s.readPath(s.content(CellID{Base: x}, t), nil, t)
	}
	return nil
}

// Store writes through a pointer.
func (s *State) Store(p Val, v Val, t types.Type) {
	var id CellID
	var path []Step
	switch x := p.(type) {
	case *Ptr:
		id, path = x.Cell, x.Path
	case *Term:
		id = CellID{Base: x}
	default:
		return
	}
	old := s.content(id, t)
	if old == nil && len(path) > 0 {
		return
	}
	n := s.writePath(old, path, v)
	if id.Age >= MaxAge {
		n = joinVal(old, n)
	}
	in := false
	if c, ok := s.Heap[id.K()]; ok {
		in = c.in
	}
	s.Heap[id.K()] = &cell{id: id, v: n, in: in}
}

// Content returns the content of the cell behind a reference (nil if unknown).
func (s *State) Content(id CellID) Val {
	if c, ok := s.Heap[id.K()]; ok {
		return c.v
	}
	if c, ok := s.Base[id.K()]; ok {
		return c.v
	}
	return nil
}

// SetContent replaces the content of a cell.
func (s *State) SetContent(id CellID, v Val) {
	in := false
	if c, ok := s.Heap[id.K()]; ok {
		in = c.in
		if id.Age >= MaxAge {
			v = joinVal(c.v, v)
		}
	}
	s.Heap[id.K()] = &cell{id: id, v: v, in: in}
}

// AddC adds a constant to an integer value.
func (s *State) AddC(v Val, c int64, t types.Type) Val {
	if c < 0 {
		return s.Arith(token.SUB, v, MkInt(t, -c), t)
	}
	return s.Arith(token.ADD, v, MkInt(t, c), t)
}

// MkSlice makes a slice of the given elements in a new cell.
func MkSlice(s *State, site string, t types.Type, vs []Val) Val {
	if len(vs) == 0 {
		return &Nil{T: types.NewSlice(t)}
	}
	n := len(vs)
	it := types.Typ[types.Int]
	b := &Backing{Elem: t}
	for i, v := range vs {
		b.W = append(b.W, Wr{MkInt(it, int64(i)), v})
	}
	id := s.NewCell(site, b)
	return &Slice{T: types.NewSlice(t), Cell: id, Off: MkInt(it, 0), Len: MkInt(it, int64(n)), Cap: MkInt(it, int64(n))}
}

// DebugHeap prints cells.
func (s *State) DebugHeap(sub string) string {
	o := ""
	for k, c := range s.Heap {
		if strings.Contains(k, sub) {
			o += k + "=" + c.v.K() + "; "
		}
	}
	for _, r := range s.rels {
		o += fmt.Sprintf(" {%s %d %s}", r.a.K(), r.r, r.b.K())
	}
	return o
}

// FieldOf reads a field of a struct value.
func FieldOf(v Val, i int) Val { return elemAt(v, i) }

// ElemAt lists the possible values of a slice element.
func (x *Exec) ElemAt(st *State, s, idx Val) []Val {
	id, off, _, _, ok := x.SliceParts(st, s)
	if !ok {
		return nil
	}
	return st.readPath(st.content(id, nil), []Step{{Idx: addInt(st, off, idx)}}, nil)
}

// SetElem replaces a slice element.
func (x *Exec) SetElem(st *State, s, idx, v Val) {
	id, off, _, _, ok := x.SliceParts(st, s)
	if !ok {
		return
	}
	st.SetContent(id, st.writePath(st.content(id, nil), []Step{{Idx: addInt(st, off, idx)}}, v))
}
