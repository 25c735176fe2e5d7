package ai

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callParts evaluates the callee and arguments of a call.
func (x *Exec) callParts(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	var fn Val
	if c.IsInvoke() {
		fn = nil
		args = append(args, x.get(st, c.Value))
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fn = x.get(st, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.get(st, a))
	}
	return fn, args
}

// FullName of a function, with type arguments stripped: "(*math/big.Int).Cmp", "fmt.Errorf", "pkg.Func".
func FullName(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	return o.String()
}

func (x *Exec) methodOf(dyn types.Type, m *types.Func) *ssa.Function {
	return x.Prog.LookupMethod(dyn, m.Pkg(), m.Name())
}

// finish applies outcomes of a modelled call.
func (x *Exec) finish(st *State, outs []Outcome, res ssa.Value, isDefer bool, pos token.Pos) bool {
	for _, o := range outs {
		if o.Panic != nil {
			x.startPanic(o.St, o.Panic, pos)
			x.fork(o.St)
			continue
		}
		if isDefer {
			x.fork(o.St)
			continue
		}
		if res != nil && !o.Again {
			x.bind(o.St, res, o.Vals)
		}
		if !o.Again {
			o.St.top().PC++
		}
		if o.Push != nil {
			x.spawn(o.St, o.Push, o.Ctx)
		}
		x.fork(o.St)
	}
	return false
}

// invoke performs a call. Returns true if st continues in place.
func (x *Exec) invoke(st *State, c *ssa.CallCommon, fn Val, args []Val, in ssa.Instruction, res ssa.Value, isDefer bool) bool {
	pos := c.Pos()
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(st, b, c, args, in, res, isDefer)
	}
	sig := c.Signature()
	call := &Call{Args: args, Res: sig.Results(), Site: x.site(st, in), Instr: in, Common: c, FnVal: fn}
	if c.IsInvoke() {
		call.Method = c.Method
		recv := args[0]
		call.Name = c.Method.FullName()
		switch r := recv.(type) {
		case *Nil:
			return x.startPanic(st, RuntimePanic("nil dereference"), pos)
		case *Iface:
			m := x.methodOf(r.Dyn, c.Method)
			if m != nil {
				call.Fn = m
				call.Args = append([]Val{r.V}, args[1:]...)
				call.Name = FullName(m)
			}
		case *Term:
			if st.Nilness(r) == 1 {
				return x.startPanic(st, RuntimePanic("nil dereference"), pos)
			}
			if x.ForkNil && st.Nilness(r) == 0 {
				n := st.Clone()
				n.SetNil(r)
				x.startPanic(n, RuntimePanic("nil dereference"), pos)
				x.fork(n)
			}
			st.SetNonNil(r)
			if d := st.facts[r].Dyn; d != nil {
				if m := x.methodOf(d, c.Method); m != nil {
					call.Fn = m
					call.Args = append([]Val{x.Unbox(st, r, d)}, args[1:]...)
					call.Name = FullName(m)
				}
			}
		}
	} else {
		switch y := fn.(type) {
		case *Closure:
			call.Fn = y.Fn
			call.Name = FullName(y.Fn)
		case *Nil:
			return x.startPanic(st, RuntimePanic("nil func call"), pos)
		case *Term:
			if st.Nilness(y) == 1 {
				return x.startPanic(st, RuntimePanic("nil func call"), pos)
			}
			if x.ForkNil && st.Nilness(y) == 0 {
				n := st.Clone()
				n.SetNil(y)
				x.startPanic(n, RuntimePanic("nil func call"), pos)
				x.fork(n)
			}
			st.SetNonNil(y)
		}
	}
	x.CallsSeen[call.Name]++
	if x.Model != nil {
		outs, ok := x.Model(x, st, call)
		if x.err != nil {
			return false
		}
		if ok {
			return x.finish(st, outs, res, isDefer, pos)
		}
	}
	if strings.Contains(call.Name, "zzverifdriver.zz") {
		if outs, ok := x.library(st, call); ok {
			if x.err != nil {
				return false
			}
			return x.finish(st, outs, res, isDefer, pos)
		}
	}
	if r := x.Redirect[call.Name]; r != nil {
		call.Fn, fn = r, nil
	} else if r := x.RedirectStr[call.Name]; r != nil && x.knownStrings(st, call.Args) {
		call.Fn, fn = r, nil
	}
	if call.Fn != nil && len(call.Fn.Blocks) > 0 && x.InRepo(call.Fn) {
		var binds []Val
		if cl, ok := fn.(*Closure); ok && !c.IsInvoke() {
			binds = cl.Binds
		}
		x.push(st, call.Fn, binds, call.Args, in)
		if x.err != nil {
			return false
		}
		st.top().InDefer = isDefer
		return true
	}
	outs, ok := x.library(st, call)
	if !ok {
		outs = x.opaque(st, call)
	}
	if x.err != nil {
		return false
	}
	return x.finish(st, outs, res, isDefer, pos)
}

// IsErr reports whether t is the error type.
func IsErr(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// Opaque is the default treatment of an unknown call: results are fresh opaque values; cells reachable from pointer
// arguments lose their contents.
func (x *Exec) opaque(st *State, c *Call) []Outcome {
	readonly := readOnlyCall(c.Name)
	if !readonly {
		for _, a := range c.Args {
			x.Havoc(st, a, c.Site)
		}
	}
	vals := make([]Val, c.Res.Len())
	pure := pureCall(c.Name)
	for i := range vals {
		t := c.Res.At(i).Type()
		if pure {
			vals[i] = App(t, "call:"+c.Name+"#"+itoa(i), c.Args...)
		} else {
			vals[i] = st.NewLeaf(t, c.Site+"#"+itoa(i), false)
		}
	}
	return []Outcome{{St: st, Vals: vals}}
}

func itoa(i int) string { return big.NewInt(int64(i)).String() }

// Havoc forgets the contents of cells reachable from v.
func (x *Exec) Havoc(st *State, v Val, site string) {
	seen := map[string]bool{}
	var visit func(Val)
	hv := func(id CellID) {
		k := id.K()
		if seen[k] {
			return
		}
		seen[k] = true
		c, ok := st.Heap[k]
		if !ok || strings.HasPrefix(id.Site, "g:") {
			return
		}
		for _, a := range alts(c.v) {
			visit(a)
		}
		c, ok = st.Heap[k]
		if !ok {
			return
		}
		var nv Val
		switch y := c.v.(type) {
		case *Backing:
			l := st.NewLeaf(types.NewSlice(y.Elem), site+":hv:"+k, false)
			nv = &Backing{Base: l, Elem: y.Elem}
		case *MapObj:
			l := st.NewLeaf(y.T, site+":hv:"+k, false)
			nv = &MapObj{Base: l, T: y.T}
		default:
			t := typeOfVal(c.v)
			if t == nil {
				return
			}
			nv = st.NewLeaf(t, site+":hv:"+k, false)
		}
		if c, ok = st.Heap[k]; ok {
			st.Heap[k] = &cell{id: c.id, v: nv, in: c.in}
		}
	}
	visit = func(v Val) {
		Walk(v, func(y Val) bool {
			switch z := y.(type) {
			case *Term:
				return false
			case *Ptr:
				hv(z.Cell)
			case *Slice:
				hv(z.Cell)
			case *MapRef:
				hv(z.Cell)
			}
			return true
		})
	}
	visit(v)
}

func (x *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, in ssa.Instruction, res ssa.Value, isDefer bool) bool {
	f := st.top()
	set := func(v Val) bool {
		if isDefer {
			return true
		}
		if res != nil {
			f.Locals[res] = v
		}
		f.PC++
		return true
	}
	it := types.Typ[types.Int]
	switch b.Name() {
	case "len":
		return set(x.Len(st, args[0]))
	case "cap":
		_, _, _, cp, ok := x.SliceParts(st, args[0])
		if !ok {
			return set(mkTerm(it, "cap?", 2, false))
		}
		return set(cp)
	case "append":
		return x.doAppend(st, c, args, in, res)
	case "copy":
		return x.doCopy(st, args, in, res)
	case "delete":
		m := args[0]
		if st.Nilness(m) == 1 {
			return set(&Tuple{})
		}
		if x.OnMapWrite != nil {
			x.OnMapWrite(st, m, args[1], nil, in)
		}
		if x.splitKeys(st, m, args[1]) {
			return false
		}
		id, mo := x.mapCell(st, m)
		if mo == nil {
			x.fail("delete on %v", m)
			return false
		}
		nm := &MapObj{Base: mo.Base, T: mo.T, Sum: mo.Sum}
		for _, w := range mo.W {
			if st.Equal(w.I, args[1]) != 1 {
				nm.W = append(nm.W, w)
			}
		}
		if mo.Base != nil {
			nm.W = append(nm.W, Wr{args[1], nil})
		}
		st.SetContent(id, normMap(nm))
		return set(&Tuple{})
	case "print", "println":
		return set(&Tuple{})
	case "panic":
		return x.startPanic(st, args[0], c.Pos())
	case "recover":
		// effective only when called directly by a deferred function while panicking
		if st.Panic != nil && f.InDefer {
			p := st.Panic
			st.Panic = nil
			return set(p)
		}
		return set(&Nil{res.Type()})
	case "real", "imag":
		return set(App(res.Type(), b.Name(), args[0]))
	case "complex":
		return set(App(res.Type(), b.Name(), args...))
	case "min", "max":
		// fork by pairwise comparison
		op := token.LSS
		if b.Name() == "max" {
			op = token.GTR
		}
		type sv struct {
			s *State
			v Val
		}
		cur := []sv{{st, args[0]}}
		for _, a := range args[1:] {
			var nx []sv
			for _, s := range cur {
				t, fl := x.Branch(s.s, x.Compare(s.s, op, a, s.v))
				if t != nil {
					nx = append(nx, sv{t, a})
				}
				if fl != nil {
					nx = append(nx, sv{fl, s.v})
				}
			}
			cur = nx
		}
		for _, s := range cur {
			s.s.top().Locals[res] = s.v
			s.s.top().PC++
			x.fork(s.s)
		}
		return false
	case "clear":
		x.Havoc(st, args[0], x.site(st, in))
		return set(&Tuple{})
	case "ssa:wrapnilchk":
		if cont, ok := x.derefCheck(st, args[0], c.Pos()); !ok {
			return cont
		}
		return set(args[0])
	}
	x.fail("unsupported builtin %s", b.Name())
	return false
}

// elemsOf lists the element values of a slice when its length is a small constant.
func (x *Exec) elemsOf(st *State, v Val) ([]Val, bool) {
	if t := valType(v); t != nil && isString(t) {
		es := x.strElems(st, v, types.Typ[types.Byte], true)
		return es, es != nil
	}
	id, off, ln, _, ok := x.SliceParts(st, v)
	if !ok {
		return nil, false
	}
	n, ok := IntOf(ln)
	if !ok || n.Cmp(big.NewInt(64)) > 0 {
		return nil, false
	}
	var out []Val
	for i := int64(0); i < n.Int64(); i++ {
		vs := st.readPath(st.content(id, nil), []Step{{Idx: addInt(st, off, MkInt(types.Typ[types.Int], i))}}, nil)
		if len(vs) == 0 {
			return nil, false
		}
		out = append(out, mkAlts(vs))
	}
	return out, true
}

// Elems lists slice elements if the length is a known small constant.
func (x *Exec) Elems(st *State, v Val) ([]Val, bool) { return x.elemsOf(st, v) }

// summaryOf gives a may-set of element values of a slice.
func (x *Exec) summaryOf(st *State, v Val, site string) []Val {
	if es, ok := x.elemsOf(st, v); ok {
		var out []Val
		for _, e := range es {
			out = append(out, alts(e)...)
		}
		return out
	}
	id, _, _, _, ok := x.SliceParts(st, v)
	if !ok {
		return nil
	}
	b, ok := st.content(id, nil).(*Backing)
	if !ok {
		return nil
	}
	var out []Val
	for _, w := range b.W {
		out = append(out, w.V)
	}
	out = append(out, b.Sum...)
	if b.Base != nil {
		out = append(out, mkTerm(b.Elem, "anyelem", 2, false, b.Base))
	}
	return dedupe(out)
}

// isArray reports whether the content of a cell is that of an array.
func isArray(v Val) bool {
	switch y := v.(type) {
	case *Backing:
		return true
	case *Struct:
		_, ok := y.T.Underlying().(*types.Array)
		return ok
	}
	return false
}

func (x *Exec) doAppend(st *State, c *ssa.CallCommon, args []Val, in ssa.Instruction, res ssa.Value) bool {
	it := types.Typ[types.Int]
	s := args[0]
	st0 := st
	f := st.top()
	rt := res.Type()
	et := rt.Underlying().(*types.Slice).Elem()
	if len(args) < 2 || IsNil(args[1]) {
		f.Locals[res] = s
		f.PC++
		return true
	}
	var addLen Val
	add := args[1]
	strArg := isString(c.Args[1].Type())
	addLen = x.Len(st, add)
	site := x.site(st, in)
	id, off, ln, cp, ok := x.SliceParts(st, s)
	if !ok {
		x.fail("append to %T", s)
		return false
	}
	// In-place alternative: writes into visible storage of an input array, or shared local storage, when capacity allows.
	if c, ok := st.Heap[id.K()]; ok && x.OnStore != nil {
		end := addInt(st, off, ln)
		r := st.Rel(ln, cp)
		if r&LT != 0 {
			ev := Val(MkInt(it, 0))
			if es, ok := x.elemsOf(st, add); ok && len(es) > 0 {
				ev = alts(es[0])[0]
			}
			_ = c
			x.OnStore(st, &Ptr{Cell: id, Path: []Step{{Idx: end}}, T: et}, ev, in)
		}
	}
	newLen := addInt(st, ln, addLen)
	if x.ExactAppend {
		if es, ok := x.elemsOf(st, add); ok && len(es) == 0 {
			f.Locals[res] = s
			f.PC++
			return true
		} else if b := st.content(id, nil); ok && isArray(b) {
			if ln.K() != cp.K() {
				st.SetRel(ln, cp, LT|EQ)
			}
			r := st.Rel(newLen, cp)
			if r&(LT|EQ) != 0 {
				in := st
				if r&GT != 0 {
					in = st.Clone()
				}
				if in.SetRel(newLen, cp, LT|EQ) {
					nb := b
					for i, e := range es {
						nb = in.writePath(nb, []Step{{Idx: addInt(in, addInt(in, off, ln), MkInt(it, int64(i)))}}, e)
					}
					if nb != nil {
						in.SetContent(id, nb)
						in.top().Locals[res] = &Slice{T: rt, Cell: id, Off: off, Len: newLen, Cap: cp}
						in.top().PC++
						if in == st {
							return true
						}
						x.fork(in)
					}
				}
				if in != st && !st.SetRel(newLen, cp, GT) {
					return false
				}
			}
		}
	}
	if ct, ok := newLen.(*Term); ok {
		lo, hi := st.Interval(ct)
		m := new(big.Int).Lsh(big.NewInt(1), 62)
		if lo.Sign() < 0 || hi.Cmp(m) > 0 {
			l1, _ := st.Interval(ln)
			l2, _ := st.Interval(addLen)
			if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
				nl := st.NewLeaf(it, site+":len", false)
				st.SetRange(nl, new(big.Int).Add(l1, l2), m)
				newLen = nl
			}
		}
	}
	// Re-evaluate operands after a possible rename.
	fn, args2 := x.callParts(st, c)
	_ = fn
	s, add = args2[0], args2[1]
	id, off, ln, cp, _ = x.SliceParts(st, s)
	var nb *Backing
	base, isB := st.content(id, nil).(*Backing)
	if base == nil {
		base = &Backing{Elem: et}
	}
	if o, ok := IntOf(off); ok && o.Sign() == 0 && (isB || st.content(id, nil) == nil) {
		nb = base
	} else if es, ok := x.elemsOf(st, s); ok {
		nb = &Backing{Elem: et}
		for i, e := range es {
			nb, _ = st.writeElem(nb, MkInt(it, int64(i)), e).(*Backing)
		}
	} else {
		nb = &Backing{Elem: et, Sum: x.summaryOf(st, s, site)}
	}
	// entries beyond the current length are overwritten
	if _, known := x.elemsOf(st, add); strArg && !known {
		nb = &Backing{Base: nb.Base, Elem: et, W: nb.W, Sum: dedupe(append(append([]Val(nil), nb.Sum...), mkTerm(et, "anyelem", 2, false, add)))}
	} else if es, ok := x.elemsOf(st, add); ok {
		for i, e := range es {
			idx := addInt(st, ln, MkInt(it, int64(i)))
			nb, _ = st.writeElem(nb, idx, e).(*Backing)
		}
	} else {
		nb = &Backing{Base: nb.Base, Elem: et, W: nb.W, Sum: dedupe(append(append([]Val(nil), nb.Sum...), x.summaryOf(st, add, site)...))}
	}
	tmp := &Tuple{F: []Val{nb, newLen}}
	// keep nb/newLen renamed consistently across the allocation
	f.Locals[res] = tmp
	nid := st.NewCell(site, Zero(it))
	tmp = st.top().Locals[res].(*Tuple)
	st.Heap[nid.K()] = &cell{id: nid, v: tmp.F[0]}
	var capv Val
	if x.TightAppend {
		capv = tmp.F[1]
	} else if x.ExactAppend {
		cl := st.NewLeaf(it, site+":cap", false)
		st.SetRange(cl, new(big.Int), new(big.Int).Lsh(big.NewInt(1), 62))
		tmp = st.top().Locals[res].(*Tuple)
		st.SetRel(tmp.F[1], cl, LT|EQ)
		capv = cl
	} else {
		capv = mkTerm(it, "cap", 0, false, Leaf(rt, "app:"+nid.K()))
	}
	st.top().Locals[res] = &Slice{T: rt, Cell: nid, Off: MkInt(it, 0), Len: tmp.F[1], Cap: capv}
	st.top().PC++
	_ = st0
	return true
}

func (x *Exec) doCopy(st *State, args []Val, in ssa.Instruction, res ssa.Value) bool {
	it := types.Typ[types.Int]
	f := st.top()
	id, off, ln, _, ok := x.SliceParts(st, args[0])
	if !ok {
		x.fail("copy to %T", args[0])
		return false
	}
	b, _ := st.content(id, nil).(*Backing)
	srcLen := x.Len(st, args[1])
	if b == nil {
		// an array
		es, known := x.elemsOf(st, args[1])
		n, lk := IntOf(ln)
		cont := st.content(id, nil)
		if !known || !lk || cont == nil {
			if z, ok := IntOf(srcLen); !ok || z.Sign() > 0 {
				x.fail("copy of unknown length to an array")
				return false
			}
		}
		for i, e := range es {
			if int64(i) < n.Int64() {
				idx := addInt(st, off, MkInt(it, int64(i)))
				if x.OnStore != nil {
					x.OnStore(st, &Ptr{Cell: id, Path: []Step{{Idx: idx}}}, e, in)
				}
				cont = st.writePath(cont, []Step{{Idx: idx}}, e)
			}
		}
		if len(es) > 0 {
			st.SetContent(id, cont)
		}
	} else {
		if x.OnStore != nil {
			var ev Val = MkInt(it, 0)
			if vs := x.summaryOf(st, args[1], ""); len(vs) > 0 {
				ev = vs[0]
			}
			if n, ok := IntOf(srcLen); !ok || n.Sign() > 0 {
				x.OnStore(st, &Ptr{Cell: id, Path: []Step{{Idx: off}}, T: b.Elem}, ev, in)
			}
		}
		es, known := x.elemsOf(st, args[1])
		n, lk := IntOf(ln)
		if known && lk {
			nb := b
			for i, e := range es {
				if int64(i) < n.Int64() {
					nb, _ = st.writeElem(nb, addInt(st, off, MkInt(it, int64(i))), e).(*Backing)
				}
			}
			st.SetContent(id, nb)
		} else if sid, soff, sln, _, ok2 := x.SliceParts(st, args[1]); ok2 && st.Rel(sln, ln) == EQ && off.K() == soff.K() {
			// whole copy of equal length at the same offset: element-wise equal
			sb, _ := st.content(sid, nil).(*Backing)
			if sb != nil && b.Base == nil && len(b.W) == 0 && len(b.Sum) == 0 {
				st.SetContent(id, sb)
			} else {
				st.SetContent(id, &Backing{Base: b.Base, Elem: b.Elem, W: b.W, Sum: dedupe(append(append([]Val(nil), b.Sum...), x.summaryOf(st, args[1], "")...))})
			}
		} else {
			st.SetContent(id, &Backing{Base: b.Base, Elem: b.Elem, W: nil, Sum: dedupe(append(append(writesOf(b), b.Sum...), x.summaryOf(st, args[1], "")...))})
		}
	}
	if res != nil {
		switch st.Rel(ln, srcLen) {
		case LT, EQ, LT | EQ:
			f.Locals[res] = ln
		case GT, GT | EQ:
			f.Locals[res] = srcLen
		default:
			f.Locals[res] = App(it, "min", ln, srcLen)
		}
	}
	f.PC++
	return true
}

func writesOf(b *Backing) []Val {
	var out []Val
	for _, w := range b.W {
		out = append(out, w.V)
	}
	return out
}

func (x *Exec) spawn(st *State, p *Tuple, ctx string) {
	c, ok := p.F[0].(*Closure)
	if !ok {
		x.fail("start of unknown function %s", p.F[0].K())
		return
	}
	x.push(st, c.Fn, c.Binds, p.F[1:], nil)
	if x.err == nil {
		st.top().Spawned = true
		st.top().Ctx = ctx
	}
}

func (x *Exec) knownStrings(st *State, args []Val) bool {
	for _, a := range args {
		if t := typeOfVal(a); t != nil && isString(t) && x.strElems(st, a, types.Typ[types.Byte], true) == nil {
			return false
		}
	}
	return true
}
