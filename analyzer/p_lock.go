package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Lock analysis: a field of a struct that exported methods modify is only accessed while a mutex of the struct is held,
// exclusively to modify it; callbacks are called without it, so that they may use the struct.

type lockAcc struct {
	fn     *ssa.Function
	pos    token.Pos
	field  string
	write  bool
	held   int // 0 none, 1 shared, 2 exclusive
	method string
}

type lockRun struct {
	c        *Ctx
	typ      *types.Named
	accs     []lockAcc
	calls    []lockAcc // callbacks under a lock
	undecide []string
	method   string
	active   map[*ssa.Function]int
	wrong    map[token.Pos]string
	params   map[ssa.Value]boundFunc // parameters that are given a closure of the struct
}

type boundFunc struct {
	fn   *ssa.Function
	free map[ssa.Value]bool
}

// onlyCalled tells whether a parameter is only called, or given to such a parameter.
func (l *lockRun) onlyCalled(p *ssa.Parameter, depth int) bool {
	for _, r := range *p.Referrers() {
		switch x := r.(type) {
		case ssa.CallInstruction:
			if _, ok := x.(*ssa.Go); ok {
				return false
			}
			if !l.callsOrPasses(x, p, depth) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (l *lockRun) callsOrPasses(x ssa.CallInstruction, v ssa.Value, depth int) bool {
	cc := x.Common()
	for i, a := range cc.Args {
		if a == v {
			callee := cc.StaticCallee()
			if callee == nil || !l.c.InRepo(callee) || depth > 4 || i >= len(callee.Params) || !l.onlyCalled(callee.Params[i], depth+1) {
				return false
			}
		}
	}
	return true
}

// lockSet is a set of lock states: bit 0 none, bit 1 shared, bit 2 exclusive.
type lockSet uint8

func syncType(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	if p := n.Obj().Pkg().Path(); p == "sync" || p == "sync/atomic" {
		return n.Obj().Name()
	}
	return ""
}

// fn analyses a function whose values in self point to the struct, from a lock state, and returns the one it ends with.
func (l *lockRun) fn(f *ssa.Function, self map[ssa.Value]bool, held lockSet) lockSet {
	if f == nil || f.Blocks == nil {
		return held
	}
	if l.active[f] > 2 {
		return held
	}
	l.active[f]++
	defer func() { l.active[f]-- }()
	// elems are values derived from the content of fields: slices and maps
	elems := map[ssa.Value]string{}
	mutex := map[ssa.Value]bool{}
	addrs := map[ssa.Value]string{} // addresses inside of fields
	copies := map[ssa.Value]bool{}  // addresses of copies of the struct
	for changed := true; changed; {
		changed = false
		set := func(m map[ssa.Value]string, v ssa.Value, s string) {
			if _, ok := m[v]; !ok {
				m[v], changed = s, true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if self[x.X] {
						if st := syncType(x.Type()); st != "" {
							if (st == "Mutex" || st == "RWMutex") && !mutex[x] {
								mutex[x], changed = true, true
							}
						} else {
							set(addrs, x, x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name())
						}
					} else if a, ok := addrs[x.X]; ok {
						set(addrs, x, a)
					}
				case *ssa.IndexAddr:
					if a, ok := addrs[x.X]; ok {
						set(addrs, x, a)
					} else if e, ok := elems[x.X]; ok {
						set(addrs, x, e)
					}
				case *ssa.UnOp:
					if a, ok := addrs[x.X]; ok && x.Op == token.MUL {
						switch x.Type().Underlying().(type) {
						case *types.Slice, *types.Map, *types.Pointer:
							if a[len(a)-1] != ']' {
								a += "[]"
							}
							set(elems, x, a)
						}
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if self[e] && !self[x] {
							self[x], changed = true, true
						}
						if s, ok := elems[e]; ok {
							set(elems, x, s)
						}
					}
				case *ssa.Slice:
					if s, ok := elems[x.X]; ok {
						set(elems, x, s)
					}
				case *ssa.ChangeType:
					if s, ok := elems[x.X]; ok {
						set(elems, x, s)
					}
				case *ssa.Store:
					// a captured or copied receiver
					if self[x.Val] && !copies[x.Addr] {
						copies[x.Addr], changed = true, true
					}
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && copies[u.X] && !self[u] {
					self[u], changed = true, true
				}
			}
		}
	}
	acc := func(in ssa.Instruction, field string, write bool, held int) {
		l.accs = append(l.accs, lockAcc{f, in.Pos(), field, write, held, l.method})
	}
	// A state is what is held and the deferred calls that wait. A block starts in a set of states.
	var defers []*ssa.Defer
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	if len(defers) > 60 {
		l.undecide = append(l.undecide, "the deferred calls of "+f.Name())
		return held
	}
	type state struct {
		held   int
		defers uint64
	}
	var end lockSet
	captured := func(mc *ssa.MakeClosure) map[ssa.Value]bool {
		cl := map[ssa.Value]bool{}
		fn := mc.Fn.(*ssa.Function)
		for i, bd := range mc.Bindings {
			if self[bd] || copies[bd] {
				cl[fn.FreeVars[i]] = true
			}
		}
		return cl
	}
	call := func(in ssa.Instruction, cc *ssa.CallCommon, held int) lockSet {
		one := lockSet(1) << held
		if cc.IsInvoke() {
			if held > 0 {
				l.calls = append(l.calls, lockAcc{f, in.Pos(), cc.Method.Name(), false, held, l.method})
			}
			return one
		}
		callee := cc.StaticCallee()
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			for i, a := range cc.Args {
				if e, ok := elems[a]; ok {
					acc(in, e, (bi.Name() == "copy" || bi.Name() == "delete" || bi.Name() == "clear") && i == 0, held)
				}
			}
			return one
		}
		if b, ok := l.params[cc.Value]; ok && callee == nil {
			return l.closure(b.fn, b.free, one)
		}
		if callee == nil {
			if held > 0 {
				l.calls = append(l.calls, lockAcc{f, in.Pos(), "a function value", false, held, l.method})
			}
			return one
		}
		for _, a := range cc.Args {
			if mutex[a] {
				switch callee.Name() {
				case "Lock", "RLock":
					if held > 0 {
						l.wrong[in.Pos()] = "the lock is taken where it may already be held"
					}
					if callee.Name() == "Lock" {
						return 1 << 2
					}
					return 1 << 1
				case "Unlock", "RUnlock":
					if want := map[string]int{"Unlock": 2, "RUnlock": 1}[callee.Name()]; held != want {
						l.wrong[in.Pos()] = "the lock is released where it may not be held that way"
					}
					return 1
				default:
					l.undecide = append(l.undecide, callee.Name())
				}
			}
			if s, ok := addrs[a]; ok {
				acc(in, s, true, held) // whatever is done with the address
			}
			if s, ok := elems[a]; ok {
				acc(in, s, false, held)
			}
		}
		if l.c.InRepo(callee) {
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				return l.closure(callee, captured(mc), one)
			}
			s2 := map[ssa.Value]bool{}
			some := false
			for i, a := range cc.Args {
				if i >= len(callee.Params) {
					break
				}
				if self[a] {
					s2[callee.Params[i]] = true
					some = true
				}
				b, ok := l.params[a]
				if mc, isMC := a.(*ssa.MakeClosure); isMC {
					b, ok = boundFunc{mc.Fn.(*ssa.Function), captured(mc)}, true
				}
				if ok {
					p := callee.Params[i]
					old, was := l.params[p]
					l.params[p] = b
					some = true
					defer func() {
						if delete(l.params, p); was {
							l.params[p] = old
						}
					}()
				}
			}
			if some {
				return l.fn(callee, s2, one)
			}
		}
		return one
	}
	run := func(b *ssa.BasicBlock, in0 map[state]bool) map[state]bool {
		cur := in0
		for _, in := range b.Instrs {
			next := map[state]bool{}
			for st := range cur {
				held := st.held
				out := lockSet(1) << held
				defs := st.defers
				switch x := in.(type) {
				case *ssa.UnOp:
					if a, ok := addrs[x.X]; ok && x.Op == token.MUL {
						acc(in, a, false, held)
					}
					if self[x.X] && x.Op == token.MUL {
						l.whole(acc, in, held)
					}
				case *ssa.Store:
					if a, ok := addrs[x.Addr]; ok {
						acc(in, a, true, held)
					}
				case *ssa.Lookup:
					if e, ok := elems[x.X]; ok {
						acc(in, e, false, held)
					}
				case *ssa.MapUpdate:
					if e, ok := elems[x.Map]; ok {
						acc(in, e, true, held)
					}
				case *ssa.Range:
					if e, ok := elems[x.X]; ok {
						acc(in, e, false, held)
					}
				case *ssa.Call:
					out = call(in, &x.Call, held)
				case *ssa.Defer:
					for i, d := range defers {
						if d == x {
							defs |= 1 << i
						}
					}
				case *ssa.RunDefers, *ssa.Panic:
					for i := len(defers) - 1; i >= 0; i-- {
						if defs&(1<<i) == 0 {
							continue
						}
						var o lockSet
						for h := 0; h < 3; h++ {
							if out&(1<<h) != 0 {
								o |= call(defers[i], &defers[i].Call, h)
							}
						}
						out = o
					}
					defs = 0
					if _, ok := in.(*ssa.Panic); ok && out&^1 != 0 && f.Parent() == nil {
						l.wrong[in.Pos()] = "panics where the lock may be held"
					}
				case *ssa.Go:
					if callee := x.Call.StaticCallee(); callee != nil && l.c.InRepo(callee) {
						s2 := map[ssa.Value]bool{}
						for i, a := range x.Call.Args {
							if self[a] && i < len(callee.Params) {
								s2[callee.Params[i]] = true
							}
						}
						l.fn(callee, s2, 1)
					}
				case *ssa.MakeClosure:
					direct := true
					for _, r := range *x.Referrers() {
						switch ci := r.(type) {
						case *ssa.Call, *ssa.Defer:
							direct = direct && l.callsOrPasses(ci.(ssa.CallInstruction), x, 0)
						default:
							direct = false
						}
					}
					if !direct { // called whenever: without the lock, unless it takes it
						l.closure(x.Fn.(*ssa.Function), captured(x), 1)
					}
				case *ssa.Return:
					end |= out
				}
				for h := 0; h < 3; h++ {
					if out&(1<<h) != 0 {
						next[state{h, defs}] = true
					}
				}
			}
			cur = next
		}
		return cur
	}
	entry := map[*ssa.BasicBlock]map[state]bool{f.Blocks[0]: {}}
	for h := 0; h < 3; h++ {
		if held&(1<<h) != 0 {
			entry[f.Blocks[0]][state{held: h}] = true
		}
	}
	for changed := true; changed; {
		changed = false
		a, k := len(l.accs), len(l.calls)
		for _, b := range f.Blocks {
			if entry[b] == nil {
				continue
			}
			out := run(b, entry[b])
			for _, s := range b.Succs {
				if entry[s] == nil {
					entry[s] = map[state]bool{}
				}
				for st := range out {
					if !entry[s][st] {
						entry[s][st], changed = true, true
					}
				}
			}
		}
		if changed {
			l.accs, l.calls = l.accs[:a], l.calls[:k]
		}
	}
	return end
}

// closure analyses a closure that captures the struct or the variable that holds it.
func (l *lockRun) closure(f *ssa.Function, free map[ssa.Value]bool, held lockSet) lockSet {
	self := map[ssa.Value]bool{}
	for v := range free {
		if p, ok := v.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), l.typ) {
			self[v] = true
			continue
		}
		// a pointer to the variable
		for _, r := range *v.Referrers() {
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
				self[u] = true
			}
		}
	}
	if len(self) == 0 {
		return held
	}
	return l.fn(f, self, held)
}

// whole is a copy of the struct.
func (l *lockRun) whole(acc func(ssa.Instruction, string, bool, int), in ssa.Instruction, held int) {
	st := l.typ.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if syncType(st.Field(i).Type()) == "" {
			acc(in, st.Field(i).Name(), false, held)
		}
	}
}

// lockCheck applies the rule to a struct type.
func lockCheck(c *Ctx, pkg, name string) {
	t := c.Type(pkg, name)
	if t == nil {
		c.Obl(name, false, token.NoPos, "no type %s", name)
		return
	}
	n := t.(*types.Named)
	l := &lockRun{c: c, typ: n, active: map[*ssa.Function]int{}, wrong: map[token.Pos]string{}, params: map[ssa.Value]boundFunc{}}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		c.Obl(name, false, n.Obj().Pos(), "not a struct")
		return
	}
	prog := c.P.Driver.Prog
	for _, ty := range []types.Type{n, types.NewPointer(n)} {
		ms := prog.MethodSets.MethodSet(ty)
		for i := 0; i < ms.Len(); i++ {
			f := prog.MethodValue(ms.At(i))
			if f == nil || f.Synthetic != "" || !token.IsExported(f.Name()) {
				continue
			}
			_, ptr := f.Signature.Recv().Type().(*types.Pointer)
			if ptr != (ty != n) {
				continue
			}
			l.method = f.Name()
			if !ptr {
				// the caller copies the struct
				for i := 0; i < st.NumFields(); i++ {
					if syncType(st.Field(i).Type()) == "" {
						l.accs = append(l.accs, lockAcc{f, f.Pos(), st.Field(i).Name(), false, 0, f.Name()}, lockAcc{f, f.Pos(), st.Field(i).Name() + "[]", false, 0, f.Name()})
					}
				}
				continue
			}
			if end := l.fn(f, map[ssa.Value]bool{f.Params[0]: true}, 1); end&^1 != 0 {
				c.Obl(name+"."+f.Name()+":unlocked", false, f.Pos(), "may return with the lock held")
			} else {
				c.OK(name + "." + f.Name() + ":unlocked")
			}
		}
	}
	for pos, w := range l.wrong {
		c.Obl(name+":"+w, false, pos, "%s", w)
	}
	for _, u := range l.undecide {
		c.Obl(name+":undecided", false, n.Obj().Pos(), "%s is not decided", u)
	}
	written := map[string]bool{}
	for _, a := range l.accs {
		if a.write {
			written[a.field] = true
		}
	}
	sort.SliceStable(l.accs, func(i, j int) bool { return l.accs[i].held < l.accs[j].held })
	seen := map[string]bool{}
	for _, a := range l.accs {
		if !written[a.field] {
			continue
		}
		what, need := "read", 1
		if a.write {
			what, need = "modified", 2
		}
		key := fmt.Sprintf("%s.%s:%s of %s:%s", name, a.method, what, a.field, a.fn.Name())
		if a.held >= need {
			if !seen[key] {
				c.OK(key)
			}
		} else {
			c.Obl(key, false, a.pos, "field %s is %s without the lock", a.field, what)
		}
		seen[key] = true
	}
	for _, a := range l.calls {
		c.Obl(fmt.Sprintf("%s.%s:calls %s", name, a.method, a.field), false, a.pos, "%s is called while the lock is held", a.field)
	}
	if len(l.calls) == 0 {
		c.OK(name + ":callbacks")
	}
	if len(written) == 0 {
		c.Obl(name+":modified", false, n.Obj().Pos(), "no modified field was found")
	}
}

func init() {
	register(&Check{ID: "R03", Title: "Handlers can be registered while requests are served", Min: 4,
		Rule: "a field of ServeMux that an exported method modifies is only read while a mutex of the ServeMux is held, and only modified while it is held exclusively; the struct is not copied; no handler is called, and no method returns, with the mutex held (must-hold lock dataflow over the SSA, followed through calls that are given the receiver)",
		Run:  func(c *Ctx) { lockCheck(c, "rest", "ServeMux") }})
}
