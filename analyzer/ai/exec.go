package ai

import (
	"errors"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Undecided is returned when the analysis cannot decide (budget, recursion, unsupported construct).
type Undecided struct{ Msg string }

func (u *Undecided) Error() string { return "undecided: " + u.Msg }

// Call describes a call about to happen.
type Call struct {
	Name   string        // full name of the static callee or interface method ("" for opaque function values)
	Fn     *ssa.Function // static callee or closure function, if known
	FnVal  Val           // called function value for dynamic calls
	Method *types.Func   // interface method for invoke calls on opaque receivers
	Args   []Val         // includes receiver first
	Res    *types.Tuple  // result types
	Site   string        // unique site key
	Instr  ssa.Instruction
	Common *ssa.CallCommon
}

// Outcome of a modelled call.
type Outcome struct {
	St    *State
	Vals  []Val
	Panic Val
	// Push starts a call of Push.F[0] with the other values as arguments, before execution continues after the modelled
	// call, or repeats it if Again is set; the results are dropped. Ctx names the call's allocation context.
	Push  *Tuple
	Again bool
	Ctx   string
}

// Exit is a finished path.
type Exit struct {
	St      *State
	Vals    []Val
	Panic   Val // non-nil: the path ends in this panic
	PanicAt token.Pos
}

// Exec is an analysis run.
type Exec struct {
	Prog  *ssa.Program
	Sizes types.Sizes
	// Model intercepts calls. ok=false: default treatment.
	Model func(x *Exec, st *State, c *Call) (out []Outcome, ok bool)
	// Redirect maps full names of external functions to Go models in the synthetic driver package.
	Redirect map[string]*ssa.Function
	// RedirectStr does the same for calls all of whose string arguments have known length.
	RedirectStr map[string]*ssa.Function
	// OnStore observes writes to memory.
	OnStore func(st *State, addr Val, v Val, in ssa.Instruction)
	// OnMapWrite observes map updates/deletes.
	OnMapWrite func(st *State, m Val, k, v Val, in ssa.Instruction)
	// OnMapIter observes the steps of a reflect.MapIter (nil key: exhausted).
	OnMapIter func(st *State, m, k, v Val)
	// OnGo handles go statements; nil: undecided.
	OnGo func(x *Exec, st *State, fn Val, args []Val, in ssa.Instruction) ([]Outcome, bool)
	// OnAppend may observe in-place appends to visible storage
	ForkNil     bool // opaque pointers may be nil when dereferenced
	ForkIndex   bool // index may be out of range
	ForkDiv     bool // divisor may be zero
	ForkWrap    bool // integer arithmetic forks on wrapping around
	ExactAppend bool // append within the capacity writes in place
	TightAppend bool // append that grows a slice leaves no spare capacity
	InRepo      func(*ssa.Function) bool
	MaxSteps    int
	MaxExits    int
	MaxDepth    int
	MaxRecur    int
	WidenAt     int
	SitePrefix  string

	steps     int
	total     int
	States    int
	Pruned    int
	CallsSeen map[string]int
	visited   map[string]bool
	exits     []Exit
	err       error
	work      []*State
	live      map[*ssa.Function]*liveInfo
	PanicPos  token.Pos
	Inlined   map[string]bool
}

var errDone = errors.New("done")

// NewExec makes an Exec with defaults.
func NewExec(prog *ssa.Program, inRepo func(*ssa.Function) bool) *Exec {
	return &Exec{Prog: prog, Sizes: types.SizesFor("gc", "amd64"), InRepo: inRepo, MaxSteps: 3000000, MaxExits: 20000,
		MaxDepth: 24, MaxRecur: 2, WidenAt: 3, live: map[*ssa.Function]*liveInfo{}, CallsSeen: map[string]int{}, Inlined: map[string]bool{}}
}

func (x *Exec) fail(format string, a ...any) {
	if x.err == nil {
		x.err = &Undecided{fmt.Sprintf(format, a...)}
	}
}

// CallFn explores a call of a function value from st (whose stack must be empty).
func (x *Exec) CallFn(st *State, fn Val, args []Val) ([]Exit, error) {
	c, ok := fn.(*Closure)
	if !ok {
		return nil, &Undecided{"call of unknown function value " + fmt.Sprint(fn)}
	}
	return x.Run(st, c.Fn, c.Binds, args)
}

// Run explores fn from st.
func (x *Exec) Run(st *State, fn *ssa.Function, binds, args []Val) ([]Exit, error) {
	x.visited = map[string]bool{}
	x.exits = nil
	x.err = nil
	x.total += x.steps
	x.steps = 0
	st = st.Clone()
	st.Stack = nil
	x.push(st, fn, binds, args, nil)
	x.work = []*State{st}
	for len(x.work) > 0 && x.err == nil {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.States++
		x.run(s)
		if len(x.exits) > x.MaxExits {
			x.fail("too many exits in %s", fn)
		}
	}
	return x.exits, x.err
}

// Steps returns the number of abstract steps of the last Run.
func (x *Exec) Steps() int { return x.total + x.steps }

func (x *Exec) push(st *State, fn *ssa.Function, binds, args []Val, call ssa.Instruction) {
	if len(fn.Blocks) == 0 {
		x.fail("no body for %s", fn)
		return
	}
	x.Inlined[fn.String()] = true
	f := &Frame{Fn: fn, Block: fn.Blocks[0], Locals: map[ssa.Value]Val{}, Binds: binds, Args: args, Call: call,
		Visits: map[*ssa.BasicBlock]int{}, PrevSnap: map[*ssa.BasicBlock]*snapshot{}}
	if len(st.Stack) > 0 && call != nil {
		p := st.Stack[len(st.Stack)-1]
		f.Ctx = p.Ctx + "/" + instrKey(call)
	}
	if len(args) < len(fn.Params) {
		x.fail("arity mismatch calling %s", fn)
		return
	}
	for i, p := range fn.Params {
		f.Locals[p] = args[i]
	}
	if len(st.Stack) >= x.MaxDepth {
		x.fail("call depth limit at %s", fn)
		return
	}
	n := 0
	for _, g := range st.Stack {
		if g.Fn == fn {
			n++
		}
	}
	if n > x.MaxRecur {
		x.fail("unmodelled recursion of %s", fn)
		return
	}
	st.Stack = append(st.Stack, f)
}

var instrKeys = map[ssa.Instruction]string{}

func instrKey(in ssa.Instruction) string {
	if k, ok := instrKeys[in]; ok {
		return k
	}
	b := in.Block()
	for i, y := range b.Instrs {
		instrKeys[y] = fmt.Sprintf("%s@%d.%d", b.Parent().String(), b.Index, i)
	}
	return instrKeys[in]
}

func (x *Exec) site(st *State, in ssa.Instruction) string {
	f := st.Stack[len(st.Stack)-1]
	return x.SitePrefix + f.Ctx + "!" + instrKey(in)
}

func (st *State) top() *Frame { return st.Stack[len(st.Stack)-1] }

// Top returns the innermost frame.
func (st *State) Top() *Frame { return st.top() }

func (x *Exec) get(st *State, v ssa.Value) Val {
	f := st.top()
	switch y := v.(type) {
	case *ssa.Const:
		return ConstVal(y)
	case *ssa.Function:
		return &Closure{Fn: y}
	case *ssa.Global:
		return &Ptr{Cell: CellID{Site: "g:" + y.String()}, T: y.Type().(*types.Pointer).Elem()}
	case *ssa.FreeVar:
		for i, fv := range f.Fn.FreeVars {
			if fv == y {
				return f.Binds[i]
			}
		}
	case *ssa.Builtin:
		return nil
	}
	r, ok := f.Locals[v]
	if !ok {
		x.fail("value %s of %s not available", v.Name(), f.Fn)
		return mkTerm(v.Type(), "missing", 2, false)
	}
	return r
}

func (x *Exec) globalInit(st *State, p *Ptr) {
	if strings.HasPrefix(p.Cell.Site, "g:") {
		k := p.Cell.K()
		if _, ok := st.Heap[k]; ok {
			return
		}
		if _, ok := st.Base[k]; ok {
			return
		}
		// uninitialised global: external package variable or zero repo variable
		nm := strings.TrimPrefix(p.Cell.Site, "g:")
		var v Val
		if isIface(p.T) {
			v = FreshLeaf(p.T, "global:"+nm)
		} else {
			v = Leaf(p.T, "global:"+nm)
		}
		st.Heap[k] = &cell{id: p.Cell, v: v}
	}
}

// run executes one state until it forks or ends.
func (x *Exec) run(st *State) {
	for x.err == nil {
		x.steps++
		if x.steps > x.MaxSteps {
			x.fail("step budget exceeded in %s", st.Stack[0].Fn)
			return
		}
		if len(st.Stack) == 0 {
			return
		}
		f := st.top()
		if f.Running {
			// continue running deferred calls
			if !x.stepDefers(st) {
				return
			}
			continue
		}
		in := f.Block.Instrs[f.PC]
		if !x.step(st, f, in) {
			return
		}
	}
}

func (x *Exec) fork(st *State) { x.work = append(x.work, st) }

func (x *Exec) setLocal(st *State, in ssa.Value, v Val) {
	st.top().Locals[in] = v
}

// next sets the value of a value-instruction for each alternative, advancing the PC.
func (x *Exec) alt(st *State, in ssa.Value, vs []Val) bool {
	if len(vs) == 0 {
		x.fail("cannot evaluate %s = %s in %s", in.Name(), in.String(), st.top().Fn)
		return false
	}
	st.top().PC++
	for _, v := range vs[1:] {
		n := st.Clone()
		x.setLocal(n, in, v)
		x.fork(n)
	}
	x.setLocal(st, in, vs[0])
	return true
}

// RuntimePanic makes the value of a runtime panic.
func RuntimePanic(kind string) Val {
	return mkTerm(types.Universe.Lookup("error").Type(), "runtime-panic:"+kind, 0, true)
}

func (x *Exec) startPanic(st *State, v Val, pos token.Pos) bool {
	st.Panic = v
	x.PanicPos = pos
	f := st.top()
	f.Running = true
	f.RunKind = 2
	return true
}

func (x *Exec) stepDefers(st *State) bool {
	f := st.top()
	if n := len(f.Defers); n > 0 {
		d := f.Defers[n-1]
		f.Defers = f.Defers[:n-1]
		return x.invoke(st, d.call, d.fn, d.args, d.inst, nil, true)
	}
	f.Running = false
	if f.RunKind == 1 && st.Panic == nil {
		f.RunKind = 0
		return true // continue after RunDefers
	}
	if f.RunKind == 2 {
		f.RunKind = 0
		if f.Recovered {
			f.Recovered = false
			// continue at recover block or return zero values
			if f.Fn.Recover != nil {
				f.Prev = f.Block
				f.Block = f.Fn.Recover
				f.PC = 0
				return true
			}
			res := f.Fn.Signature.Results()
			vals := make([]Val, res.Len())
			for i := range vals {
				vals[i] = Zero(res.At(i).Type())
			}
			return x.ret(st, vals)
		}
		// propagate
		p := st.Panic
		call := f.Call
		wasDefer := f.InDefer
		st.Stack = st.Stack[:len(st.Stack)-1]
		if len(st.Stack) == 0 {
			st.Panic = nil
			x.exits = append(x.exits, Exit{St: st, Panic: p, PanicAt: x.PanicPos})
			return false
		}
		_ = call
		_ = wasDefer
		g := st.top()
		g.Running = true
		g.RunKind = 2
		return true
	}
	// RunKind 1 with a panic raised by a deferred call
	f.RunKind = 2
	f.Running = true
	return true
}

func (x *Exec) ret(st *State, vals []Val) bool {
	f := st.top()
	st.Stack = st.Stack[:len(st.Stack)-1]
	if len(st.Stack) == 0 {
		x.exits = append(x.exits, Exit{St: st, Vals: vals})
		return false
	}
	g := st.top()
	if f.Spawned {
		return true
	}
	if f.InDefer {
		if st.Panic == nil && g.RunKind == 2 && !g.Recovered {
			// recovered by the deferred call
			g.Recovered = true
		}
		return true
	}
	if v, ok := f.Call.(ssa.Value); ok {
		x.bind(st, v, vals)
	}
	g.PC++
	return true
}

func (x *Exec) bind(st *State, v ssa.Value, vals []Val) {
	switch len(vals) {
	case 0:
		x.setLocal(st, v, &Tuple{})
	case 1:
		if _, ok := v.Type().(*types.Tuple); ok {
			x.setLocal(st, v, &Tuple{F: vals})
		} else {
			x.setLocal(st, v, vals[0])
		}
	default:
		x.setLocal(st, v, &Tuple{F: vals})
	}
}

func (x *Exec) jump(st *State, to *ssa.BasicBlock) bool {
	f := st.top()
	from := f.Block
	// evaluate phis in parallel
	var idx = -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var ph []pv
	n := 0
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		ph = append(ph, pv{p, x.get(st, p.Edges[idx])})
	}
	f.Prev = from
	f.Block = to
	f.PC = n
	for _, q := range ph {
		f.Locals[q.p] = q.v
	}
	// trim dead locals
	li := x.liveness(f.Fn)
	lv := li.in[to]
	for k := range f.Locals {
		if !lv[k] {
			isPhi := false
			for _, q := range ph {
				if q.p == k {
					isPhi = true
				}
			}
			if !isPhi {
				delete(f.Locals, k)
			}
		}
	}
	if li.header[to] {
		back := from.Dominates(to) == false || to.Dominates(from)
		if !to.Dominates(from) {
			// loop entry: reset the visit count
			f.Visits[to] = 0
			delete(f.PrevSnap, to)
			_ = back
		} else {
			f.Visits[to]++
		}
		x.widen(st, f, to)
		if f.Visits[to] > x.WidenAt {
			f.Visits[to] = x.WidenAt
		}
		f.Prev = nil
		k := st.Key(true)
		if x.visited[k] {
			x.Pruned++
			return false
		}
		x.visited[k] = true
	}
	return true
}

// widen replaces integer values that keep changing at a loop head by intervals.
func (x *Exec) widen(st *State, f *Frame, h *ssa.BasicBlock) {
	snap := f.PrevSnap[h]
	if snap != nil && f.Visits[h] >= x.WidenAt {
		for _, in := range h.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			old, ok := snap.phis[p]
			if !ok {
				continue
			}
			f.Locals[p] = x.widenVal(st, old, f.Locals[p], "phi:"+f.Ctx+instrKey(p))
		}
		st.WidenHeap(snap.heap, "wh:"+f.Ctx+instrKey(h.Instrs[0]))
	}
	ns := &snapshot{phis: map[ssa.Value]Val{}, heap: map[string]Val{}}
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ns.phis[p] = f.Locals[p]
	}
	ns.heap = st.HeapSnapshot()
	f.PrevSnap[h] = ns
}

// HeapSnapshot copies the heap contents for WidenHeap.
func (st *State) HeapSnapshot() map[string]Val {
	m := map[string]Val{}
	for k, c := range st.Heap {
		m[k] = c.v
	}
	for k, v := range st.Mon {
		if strings.HasPrefix(k, "k:") {
			m["mon:"+k] = v
		}
	}
	return m
}

// WidenHeap widens integers in cells that changed since the snapshot.
func (st *State) WidenHeap(old map[string]Val, site string) {
	ks := make([]string, 0, len(st.Heap))
	for k := range st.Heap {
		ks = append(ks, k)
	}
	sortStrings(ks)
	for _, k := range ks {
		c, ok := st.Heap[k]
		if !ok {
			continue
		}
		o, ok := old[k]
		if !ok || o.K() == c.v.K() {
			continue
		}
		nv := widenDeep(st, o, c.v, site+k)
		if nv.K() != c.v.K() {
			c2, ok := st.Heap[k]
			if !ok {
				continue
			}
			st.Heap[k] = &cell{id: c2.id, v: nv, in: c2.in}
		}
	}
	ks = ks[:0]
	for k := range st.Mon {
		if strings.HasPrefix(k, "k:") {
			ks = append(ks, k)
		}
	}
	sortStrings(ks)
	for _, k := range ks {
		if o, ok := old["mon:"+k]; ok && o.K() != st.Mon[k].K() {
			st.Mon[k] = widenDeep(st, o, st.Mon[k], site+"mon:"+k)
		}
	}
	for k := range st.Mon {
		if strings.HasPrefix(k, "wid:") {
			delete(st.Mon, k)
		}
	}
}

func widenDeep(st *State, o, n Val, site string) Val {
	so, ok1 := o.(*Struct)
	sn, ok2 := n.(*Struct)
	if ok1 && ok2 && len(so.F) == len(sn.F) {
		f := append([]Val(nil), sn.F...)
		for i := range f {
			f[i] = widenDeep(st, so.F[i], sn.F[i], fmt.Sprintf("%s.%d", site, i))
		}
		return &Struct{T: sn.T, F: f}
	}
	if t, ok := n.(*Slice); ok {
		if u, ok := o.(*Slice); ok {
			l := widenInt(st, u.Len, t.Len, site+"L")
			off := widenInt(st, u.Off, t.Off, site+"O")
			cp := widenInt(st, u.Cap, t.Cap, site+"C")
			if l != t.Len || off != t.Off || cp != t.Cap {
				return &Slice{T: t.T, Cell: t.Cell, Off: off, Len: l, Cap: cp}
			}
		}
		return n
	}
	if _, ok := n.(*Backing); ok {
		return n
	}
	return widenInt(st, o, n, site)
}

func (x *Exec) widenVal(st *State, o, n Val, site string) Val {
	return widenDeep(st, o, n, site)
}

func widenInt(st *State, o, n Val, site string) Val {
	tn := valType(n)
	if tn == nil || !isInt(tn) || o.K() == n.K() {
		return n
	}
	lo1, hi1 := st.Interval(o)
	lo2, hi2 := st.Interval(n)
	if lo1 == nil || lo2 == nil {
		return n
	}
	if t, ok := Strip(n).(*Term); ok && len(t.Args) == 0 {
		// a value that was just read is not one that grows
		for k, m := range st.Mon {
			if !strings.HasPrefix(k, "wid:") && !strings.HasPrefix(k, "k:") && m != nil && m.K() == n.K() {
				return n
			}
		}
	}
	// values that were equal before and are equal now stay equal
	for i := 0; ; i++ {
		w, ok := st.Mon[fmt.Sprintf("wid:%d:n", i)]
		if !ok {
			break
		}
		if Strip(w).K() == Strip(n).K() && st.Mon[fmt.Sprintf("wid:%d:o", i)].K() == MkStr(Strip(o).K()).K() {
			return retype(st.Mon[fmt.Sprintf("wid:%d:t", i)], tn)
		}
	}
	tl, th := TypeRange(tn)
	lo, hi := lo1, hi1
	if lo2.Cmp(lo1) < 0 {
		lo = tl
		if lo2.Sign() >= 0 {
			lo = new(big.Int)
		}
	}
	if hi2.Cmp(hi1) > 0 {
		hi = th
	}
	// keep the order relations that hold for both values
	type rl struct {
		o Val
		r uint8
	}
	var rs []rl
	seen := map[string]bool{}
	for _, c := range st.relCandidates() {
		if seen[c.K()] || c.K() == Strip(n).K() || c.K() == Strip(o).K() {
			continue
		}
		seen[c.K()] = true
		r := st.Rel(n, c)
		if r == LT|EQ|GT {
			continue
		}
		if ct, ok := c.(*Term); !ok || ct.Op != "len" {
			r |= st.Rel(o, c)
		}
		if r != LT|EQ|GT {
			rs = append(rs, rl{c, r})
		}
	}
	pin := make([]Val, len(rs)+1)
	for i := range rs {
		pin[i] = rs[i].o
	}
	pin[len(rs)] = n
	okey := MkStr(Strip(o).K())
	var t *Term
	pin = st.Pinned(pin, func() { t = st.NewLeaf(tn, site, false) })
	st.setFact(t, Fact{Lo: lo, Hi: hi})
	for i := range rs {
		st.SetRel(t, pin[i], rs[i].r)
	}
	for i := 0; ; i++ {
		if _, ok := st.Mon[fmt.Sprintf("wid:%d:n", i)]; !ok {
			st.Mon[fmt.Sprintf("wid:%d:n", i)] = pin[len(rs)]
			st.Mon[fmt.Sprintf("wid:%d:o", i)] = okey
			st.Mon[fmt.Sprintf("wid:%d:t", i)] = t
			break
		}
	}
	return t
}

// relCandidates lists lengths and integer terms that have facts.
func (st *State) relCandidates() []Val {
	var out []Val
	for t := range st.facts {
		if isInt(t.T) {
			out = append(out, t)
		}
	}
	for _, e := range st.rels {
		for _, v := range []Val{e.a, e.b} {
			if t, ok := v.(*Term); ok && isInt(t.T) {
				out = append(out, t)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].K() < out[j].K() })
	return out
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// Branch evaluates a boolean value, returning the states in which it is true / false (st is consumed).
func (x *Exec) Branch(st *State, c Val) (t, f *State) {
	if IsTrue(c) {
		return st, nil
	}
	if IsFalse(c) {
		return nil, st
	}
	tm, ok := c.(*Term)
	if !ok {
		x.fail("branch on %T", c)
		return nil, nil
	}
	switch tm.Op {
	case "not":
		a, b := x.Branch(st, tm.Args[0])
		return b, a
	case "cmp<", "cmp<=", "cmp>", "cmp>=", "cmp==", "cmp!=":
		a, b := tm.Args[0], tm.Args[1]
		mask := relMask(tm.Op[3:])
		return x.branchRel(st, a, b, mask)
	}
	if tm.old {
		n := st.Clone()
		return st, n
	}
	fc := st.facts[tm]
	switch fc.BoolS {
	case 1:
		return nil, st
	case 2:
		return st, nil
	}
	n := st.Clone()
	st.SetBool(tm, true)
	n.SetBool(tm, false)
	return st, n
}

func relMask(op string) uint8 {
	switch op {
	case "<":
		return LT
	case "<=":
		return LT | EQ
	case ">":
		return GT
	case ">=":
		return GT | EQ
	case "==":
		return EQ
	}
	return LT | GT | UN // !=
}

func (x *Exec) branchRel(st *State, a, b Val, mask uint8) (t, f *State) {
	full := LT | EQ | GT | UN
	if p, ok := identity(a); ok {
		if q, ok := identity(b); ok && (mask == EQ || mask == full&^EQ) {
			a, b = p, q
		}
	}
	if IsNil(a) || IsNil(b) {
		if IsNil(a) {
			a, b = b, a
		}
		// nilness
		switch st.Nilness(a) {
		case 1:
			if mask&EQ != 0 {
				return st, nil
			}
			return nil, st
		case 2:
			if mask&EQ != 0 {
				return nil, st
			}
			return st, nil
		}
		tm := a.(*Term)
		n := st.Clone()
		st.SetNil(tm)
		n.SetNonNil(tm)
		if mask&EQ != 0 {
			return st, n
		}
		return n, st
	}
	if mask == EQ || mask == full&^EQ {
		switch st.Equal(a, b) {
		case 1:
			if mask == EQ {
				return st, nil
			}
			return nil, st
		case -1:
			if mask == EQ {
				return nil, st
			}
			return st, nil
		}
	}
	r := st.Rel(a, b)
	rt, rf := r&mask, r&^mask
	if rt != 0 && rf != 0 {
		n := st.Clone()
		ok1 := st.SetRel(a, b, rt)
		ok2 := n.SetRel(a, b, rf)
		if mask == EQ && ok1 {
			x.unify(st, a, b)
		}
		if mask == full&^EQ && ok2 {
			x.unify(n, a, b)
		}
		if !ok1 {
			st = nil
		}
		if !ok2 {
			n = nil
		}
		return st, n
	}
	if rt != 0 {
		return st, nil
	}
	return nil, st
}

// unify propagates simple facts after a == b.
func (x *Exec) unify(st *State, a, b Val) {
	pr := func(p, q Val) {
		if t, ok := p.(*Term); ok {
			switch st.Nilness(q) {
			case 1:
				st.SetNil(t)
			case 2:
				if !isInt(t.T) && !isString(t.T) && !isFloat(t.T) && !isBool(t.T) {
					st.SetNonNil(t)
				}
			}
			if i, ok := q.(*Iface); ok && isIface(t.T) {
				st.SetDyn(t, i.Dyn)
			}
		}
	}
	pr(a, b)
	pr(b, a)
}

func (x *Exec) branchTo(st *State, c Val, tb, fb *ssa.BasicBlock) bool {
	t, f := x.Branch(st, c)
	if x.err != nil {
		return false
	}
	if t != nil && f != nil {
		if x.jump(f, fb) {
			x.fork(f)
		}
		return x.jumpCont(t, st, tb)
	}
	if t != nil {
		return x.jumpCont(t, st, tb)
	}
	if f != nil {
		return x.jumpCont(f, st, fb)
	}
	return false
}

// jumpCont jumps s; if s is the running state continue it, otherwise queue it.
func (x *Exec) jumpCont(s, running *State, b *ssa.BasicBlock) bool {
	if !x.jump(s, b) {
		return false
	}
	if s == running {
		return true
	}
	x.fork(s)
	return false
}

func (x *Exec) step(st *State, f *Frame, in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.DebugRef:
		f.PC++
		return true
	case *ssa.Phi:
		// only reached at function entry-less blocks; handled by jump
		f.PC++
		return true
	case *ssa.If:
		return x.branchTo(st, x.get(st, i.Cond), f.Block.Succs[0], f.Block.Succs[1])
	case *ssa.Jump:
		return x.jump(st, f.Block.Succs[0])
	case *ssa.Return:
		vals := make([]Val, len(i.Results))
		for j, r := range i.Results {
			vals[j] = x.get(st, r)
		}
		return x.ret(st, vals)
	case *ssa.Panic:
		v := x.get(st, i.X)
		return x.startPanic(st, v, i.Pos())
	case *ssa.RunDefers:
		f.PC++
		f.Running = true
		f.RunKind = 1
		return true
	case *ssa.Defer:
		fn, args := x.callParts(st, &i.Call)
		f.Defers = append(f.Defers, deferred{&i.Call, fn, args, i})
		f.PC++
		return true
	case *ssa.Go:
		fn, args := x.callParts(st, &i.Call)
		if x.OnGo == nil {
			x.fail("go statement in %s", f.Fn)
			return false
		}
		outs, ok := x.OnGo(x, st, fn, args, i)
		if !ok {
			x.fail("unhandled go statement in %s", f.Fn)
			return false
		}
		return x.finish(st, outs, nil, false, i.Pos())
	case *ssa.Store:
		addr := x.get(st, i.Addr)
		v := x.get(st, i.Val)
		if cont, ok := x.derefCheck(st, addr, i.Pos()); !ok {
			return cont
		}
		if p, ok := addr.(*Ptr); ok {
			x.globalInit(st, p)
		}
		if x.OnStore != nil {
			x.OnStore(st, addr, v, i)
		}
		st.Store(addr, Shallow(v, i.Val.Type()), i.Val.Type())
		f.PC++
		return true
	case *ssa.MapUpdate:
		m := x.get(st, i.Map)
		k, v := x.get(st, i.Key), x.get(st, i.Value)
		if st.Nilness(m) == 1 {
			return x.startPanic(st, RuntimePanic("nil map write"), i.Pos())
		}
		if x.OnMapWrite != nil {
			x.OnMapWrite(st, m, k, v, i)
		}
		if x.splitKeys(st, m, k) {
			return false
		}
		x.mapWrite(st, m, k, v)
		f.PC++
		return true
	case *ssa.Send:
		x.fail("channel send in %s", f.Fn)
		return false
	case ssa.Value:
		return x.eval(st, f, i, in)
	}
	x.fail("unsupported instruction %T in %s", in, f.Fn)
	return false
}

// derefCheck handles nil dereference. ok=true: proceed normally.
func (x *Exec) derefCheck(st *State, p Val, pos token.Pos) (cont, ok bool) {
	switch st.Nilness(p) {
	case 1:
		return x.startPanic(st, RuntimePanic("nil dereference"), pos), false
	case 0:
		if x.ForkNil {
			if t, k := p.(*Term); k && !t.old {
				n := st.Clone()
				n.SetNil(t)
				x.startPanic(n, RuntimePanic("nil dereference"), pos)
				x.fork(n)
				st.SetNonNil(t)
			}
		} else if t, k := p.(*Term); k {
			st.SetNonNil(t)
		}
	}
	return true, true
}

func (x *Exec) mapCell(st *State, m Val) (CellID, *MapObj) {
	switch y := m.(type) {
	case *MapRef:
		c := st.content(y.Cell, nil)
		mo, _ := c.(*MapObj)
		return y.Cell, mo
	case *Term:
		id := CellID{Base: y}
		mo, _ := st.content(id, nil).(*MapObj)
		return id, mo
	}
	return CellID{}, nil
}

// splitKeys decides whether a key equals an entry's key by splitting the state, the instruction is then run again.
func (x *Exec) splitKeys(st *State, m, k Val) bool {
	if !x.ExactAppend {
		return false
	}
	_, mo := x.mapCell(st, m)
	if mo == nil {
		return false
	}
	for _, w := range mo.W {
		if st.Equal(w.I, k) != 0 {
			continue
		}
		if t, ok := Strip(k).(*Term); ok && !t.old || isTerm(w.I) {
			a, b := st.Clone(), st.Clone()
			ta, _ := x.branchRel(a, w.I, k, EQ)
			_, fb := x.branchRel(b, w.I, k, EQ)
			if ta != nil && ta.Equal(w.I, k) != 1 || fb != nil && fb.Equal(w.I, k) != -1 {
				continue
			}
			if ta != nil {
				x.fork(ta)
			}
			if fb != nil {
				x.fork(fb)
			}
			return true
		}
	}
	return false
}

func isTerm(v Val) bool { t, ok := Strip(v).(*Term); return ok && !t.old }

// exactEntries lists the entries of a map whose content is known exactly.
func (x *Exec) exactEntries(st *State, m Val) ([]Wr, bool) {
	if !x.ExactAppend {
		return nil, false
	}
	if st.Nilness(m) == 1 {
		return nil, true
	}
	_, mo := x.mapCell(st, m)
	if mo == nil || mo.Base != nil || len(mo.Sum) > 0 {
		return nil, false
	}
	for i, w := range mo.W {
		if w.V == nil {
			return nil, false
		}
		for _, u := range mo.W[:i] {
			if st.Equal(u.I, w.I) != -1 {
				return nil, false
			}
		}
	}
	return mo.W, true
}

// unvisited leaves out the entries already seen by an iterator.
func (x *Exec) unvisited(st *State, ents []Wr, seen []Val) []Wr {
	var out []Wr
	for _, w := range ents {
		v := false
		for _, k := range seen {
			v = v || st.Equal(k, w.I) == 1
		}
		if !v {
			out = append(out, w)
		}
	}
	return out
}

func (x *Exec) mapWrite(st *State, m, k, v Val) {
	id, mo := x.mapCell(st, m)
	if mo == nil {
		x.fail("map write to %v", m)
		return
	}
	nm := &MapObj{Base: mo.Base, T: mo.T, Sum: mo.Sum}
	for _, w := range mo.W {
		switch st.Equal(w.I, k) {
		case 1:
		case -1:
			nm.W = append(nm.W, w)
		default:
			if w.V != nil {
				nm.Sum = append(append([]Wr(nil), nm.Sum...), w)
			}
		}
	}
	nm.W = append(nm.W, Wr{k, v})
	if len(nm.W) > 400 {
		w := nm.W[0]
		nm.W = nm.W[1:]
		if w.V != nil {
			nm.Sum = append(append([]Wr(nil), nm.Sum...), w)
		}
	}
	st.SetContent(id, normMap(nm))
}

// MapLookupAlts returns (value, present) alternatives; present: 1 yes, 0 no.
type mapRes struct {
	v  Val
	ok Val
	st *State
}

func (x *Exec) mapLookup(st *State, m, k Val, site string) []mapRes {
	et := valTypeMap(m)
	if IsNil(m) {
		return []mapRes{{Zero(et), MkBool(false), st}}
	}
	_, mo := x.mapCell(st, m)
	if mo == nil {
		x.fail("map lookup in %v", m)
		return nil
	}
	var may []mapRes
	definite := false
	for _, w := range mo.W {
		switch st.Equal(w.I, k) {
		case 1:
			definite = true
			if w.V == nil {
				may = append(may, mapRes{Zero(et), MkBool(false), nil})
			} else {
				may = append(may, mapRes{w.V, MkBool(true), nil})
			}
		case 0:
			// fork on equality
			if w.V == nil {
				may = append(may, mapRes{Zero(et), MkBool(false), nil})
			} else {
				n := st.Clone()
				if n.SetRel(w.I, k, EQ) {
					may = append(may, mapRes{w.V, MkBool(true), n})
				}
			}
		}
	}
	if definite {
		for i := range may {
			if may[i].st == nil {
				may[i].st = st.Clone()
			}
		}
		return may
	}
	for _, w := range mo.Sum {
		if st.Equal(w.I, k) >= 0 {
			may = append(may, mapRes{w.V, MkBool(true), st.Clone()})
		}
	}
	if mo.Base != nil {
		ok := App(types.Typ[types.Bool], "has", mo.Base, k)
		n := st.Clone()
		t, f := x.Branch(n, ok)
		if t != nil {
			may = append(may, mapRes{App(mo.T.Elem(), "at", mo.Base, k), MkBool(true), t})
		}
		if f != nil {
			may = append(may, mapRes{Zero(et), MkBool(false), f})
		}
	} else {
		n := st.Clone()
		good := true
		for _, w := range mo.W {
			if n.Equal(w.I, k) == 0 {
				if !n.SetRel(w.I, k, LT|GT|UN) {
					good = false
				}
			}
		}
		if good {
			may = append(may, mapRes{Zero(et), MkBool(false), n})
		}
	}
	for i := range may {
		if may[i].st == nil {
			may[i].st = st.Clone()
		}
	}
	return may
}

func valTypeMap(m Val) types.Type {
	switch y := m.(type) {
	case *MapRef:
		return y.T.Underlying().(*types.Map).Elem()
	case *Term:
		return y.T.Underlying().(*types.Map).Elem()
	case *Nil:
		return y.T.Underlying().(*types.Map).Elem()
	}
	return nil
}

func typeOfVal(v Val) types.Type {
	switch x := v.(type) {
	case *Slice:
		return x.T
	case *MapRef:
		return x.T
	case *Closure:
		return x.Fn.Signature
	}
	return valType(v)
}

// TypeOf returns the static type of a value if known.
func TypeOf(v Val) types.Type { return typeOfVal(v) }

// SliceParts gives backing cell, offset, length, capacity of a slice value.
func (x *Exec) SliceParts(st *State, v Val) (id CellID, off, ln, cp Val, ok bool) {
	it := types.Typ[types.Int]
	switch y := v.(type) {
	case *Slice:
		return y.Cell, y.Off, y.Len, y.Cap, true
	case *Nil:
		return CellID{Site: "nilslice"}, MkInt(it, 0), MkInt(it, 0), MkInt(it, 0), true
	case *Term:
		if _, k := y.T.Underlying().(*types.Slice); k {
			if st.Nilness(y) == 1 {
				return CellID{Site: "nilslice"}, MkInt(it, 0), MkInt(it, 0), MkInt(it, 0), true
			}
			st.content(CellID{Base: y}, nil)
			return CellID{Base: y}, MkInt(it, 0), x.lenTerm(st, y), App(it, "cap", y), true
		}
	case *Ptr: // pointer to array
		if a, k := y.T.Underlying().(*types.Array); k && len(y.Path) == 0 {
			return y.Cell, MkInt(it, 0), MkInt(it, a.Len()), MkInt(it, a.Len()), true
		}
	}
	return
}

func (x *Exec) lenTerm(st *State, y *Term) Val { return App(types.Typ[types.Int], "len", y) }

// Len returns the length of a value.
func (x *Exec) Len(st *State, v Val) Val {
	it := types.Typ[types.Int]
	switch y := v.(type) {
	case *Slice:
		return y.Len
	case *Nil:
		return MkInt(it, 0)
	case *Const:
		if s, ok := StrOf(y); ok {
			return MkInt(it, int64(len(s)))
		}
	case *Struct:
		return MkInt(it, int64(len(y.F)))
	case *Term:
		if st.Nilness(y) == 1 {
			return MkInt(it, 0)
		}
		switch y.Op {
		case "cat":
			return x.catLen(st, y)
		case "bytestr":
			return MkInt(it, 1)
		}
		return App(it, "len", y)
	case *Ptr:
		if a, k := y.T.Underlying().(*types.Array); k {
			return MkInt(it, a.Len())
		}
	case *MapRef:
		_, mo := x.mapCell(st, y)
		if mo != nil && mo.Base == nil && len(mo.Sum) == 0 {
			n := 0
			ok := true
			for i, w := range mo.W {
				if w.V != nil {
					n++
				}
				for _, u := range mo.W[:i] {
					if st.Equal(u.I, w.I) == 0 {
						ok = false
					}
				}
			}
			if ok {
				return MkInt(it, int64(n))
			}
		}
		return mkTerm(it, "maplen", 2, false)
	}
	return mkTerm(it, "len?", 2, false)
}

func addInt(st *State, a, b Val) Val {
	it := types.Typ[types.Int]
	return st.Arith(token.ADD, a, b, it)
}

// orSum writes x<<k|y as x*2^k+y if no bit of y is beyond the k lowest, and
// x has no other bit operations.
func (st *State) orSum(op token.Token, a, b Val, t types.Type) Val {
	if op != token.OR {
		return nil
	}
	if i, ok := IntOf(a); ok && i.Sign() == 0 {
		return b
	}
	if _, ok := a.(*Term); !ok {
		a, b = b, a
	}
	m, ok := a.(*Term)
	if !ok || m.Op != "<<" || len(m.Args) != 2 || bitwise(b) || bitwise(m.Args[0]) {
		return nil
	}
	k, ok := IntOf(m.Args[1])
	lo, hi := st.Interval(b)
	xl, xh := st.Interval(m.Args[0])
	_, max := TypeRange(t)
	if !ok || lo == nil || xl == nil || max == nil || k.Sign() <= 0 || k.Cmp(big.NewInt(62)) > 0 {
		return nil
	}
	p := new(big.Int).Lsh(big.NewInt(1), uint(k.Int64()))
	if lo.Sign() < 0 || hi.Cmp(p) >= 0 || xl.Sign() < 0 || new(big.Int).Mul(xh, p).Cmp(max) > 0 {
		return nil
	}
	return st.Arith(token.ADD, st.Arith(token.MUL, m.Args[0], MkConst(t, constant.Make(p)), t), b, t)
}

// Arith evaluates integer/float/string arithmetic.
func (st *State) Arith(op token.Token, a, b Val, t types.Type) Val {
	ca, ok1 := a.(*Const)
	cb, ok2 := b.(*Const)
	if ok1 && ok2 {
		if r := foldArith(op, ca, cb, t); r != nil {
			return r
		}
	}
	o := op.String()
	if isString(t) && op == token.ADD {
		return Cat(t, a, b)
	}
	if isInt(t) {
		if r := st.orSum(op, a, b, t); r != nil {
			return r
		}
		// identities
		if i, _ := IntOf(a); i != nil && i.Sign() == 0 && (op == token.MUL || op == token.QUO || op == token.REM) {
			return MkInt(t, 0)
		}
		if i, _ := IntOf(b); i != nil && i.Sign() == 0 && op == token.MUL {
			return MkInt(t, 0)
		}
		if ok2 {
			i, _ := IntOf(cb)
			if i != nil {
				switch op {
				case token.ADD, token.SUB, token.OR, token.XOR, token.SHL, token.SHR:
					if i.Sign() == 0 {
						return a
					}
				case token.MUL, token.QUO:
					if i.Cmp(big.NewInt(1)) == 0 {
						return a
					}
				}
				// (x + c1) + c2
				if op == token.SUB || op == token.ADD {
					if ta, k := a.(*Term); k && len(ta.Args) == 2 && (ta.Op == "+" || ta.Op == "-") {
						if c1, k := IntOf(ta.Args[1]); k {
							s := new(big.Int).Set(c1)
							if ta.Op == "-" {
								s.Neg(s)
							}
							if op == token.ADD {
								s.Add(s, i)
							} else {
								s.Sub(s, i)
							}
							return st.mkAddC(ta.Args[0], s, t)
						}
					}
					if i.Sign() < 0 {
						s := new(big.Int).Set(i)
						if op == token.SUB {
							s.Neg(s)
						}
						return st.mkAddC(a, s, t)
					}
				}
			}
		}
		if ok1 && op == token.ADD {
			return st.Arith(op, b, a, t)
		}
		if op == token.SUB {
			ba, oa := linear(a)
			bb, ob := linear(b)
			if ba != nil && bb != nil && ba.K() == bb.K() && !IsOld(ba) {
				d := new(big.Int).Sub(oa, ob)
				lo, hi := TypeRange(t)
				if d.Cmp(lo) >= 0 && d.Cmp(hi) <= 0 {
					return MkBig(t, d)
				}
			}
		}
	}
	return App(t, o, a, b)
}

func (st *State) mkAddC(a Val, c *big.Int, t types.Type) Val {
	switch c.Sign() {
	case 0:
		return a
	case -1:
		return App(t, "-", a, MkBig(t, new(big.Int).Neg(c)))
	}
	return App(t, "+", a, MkBig(t, c))
}

func wrapInt(v *big.Int, t types.Type) *big.Int {
	n, ok := bits(t)
	if !ok {
		return v
	}
	m := new(big.Int).Lsh(big.NewInt(1), n)
	r := new(big.Int).Mod(v, m)
	if !isUnsigned(t) {
		h := new(big.Int).Lsh(big.NewInt(1), n-1)
		if r.Cmp(h) >= 0 {
			r.Sub(r, m)
		}
	}
	return r
}

func foldArith(op token.Token, a, b *Const, t types.Type) Val {
	if isInt(t) {
		x, ok1 := IntOf(a)
		y, ok2 := IntOf(b)
		if !ok1 || !ok2 {
			return nil
		}
		r := new(big.Int)
		switch op {
		case token.ADD:
			r.Add(x, y)
		case token.SUB:
			r.Sub(x, y)
		case token.MUL:
			r.Mul(x, y)
		case token.QUO:
			if y.Sign() == 0 {
				return nil
			}
			r.Quo(x, y)
		case token.REM:
			if y.Sign() == 0 {
				return nil
			}
			r.Rem(x, y)
		case token.AND:
			r.And(x, y)
		case token.OR:
			r.Or(x, y)
		case token.XOR:
			r.Xor(x, y)
		case token.AND_NOT:
			r.AndNot(x, y)
		case token.SHL:
			if y.Sign() < 0 {
				return nil
			}
			if y.Cmp(big.NewInt(200)) > 0 {
				return MkInt(t, 0)
			}
			r.Lsh(x, uint(y.Int64()))
		case token.SHR:
			if y.Sign() < 0 {
				return nil
			}
			if y.Cmp(big.NewInt(200)) > 0 {
				y = big.NewInt(200)
			}
			r.Rsh(x, uint(y.Int64()))
		default:
			return nil
		}
		return MkBig(t, wrapInt(r, t))
	}
	if isString(t) && op == token.ADD {
		return MkConst(t, constant.BinaryOp(a.V, token.ADD, b.V))
	}
	return nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// BranchCmp splits a state on a comparison.
func (x *Exec) BranchCmp(st *State, a Val, op string, b Val) (t, f *State) {
	return x.branchRel(st, a, b, relMask(op))
}
