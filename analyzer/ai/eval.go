package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type liveInfo struct {
	in     map[*ssa.BasicBlock]map[ssa.Value]bool
	header map[*ssa.BasicBlock]bool
}

func (x *Exec) liveness(fn *ssa.Function) *liveInfo {
	if li, ok := x.live[fn]; ok {
		return li
	}
	li := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, header: map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		li.in[b] = map[ssa.Value]bool{}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li.header[s] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range li.in[s] {
					live[v] = true
				}
				idx := -1
				for j, p := range s.Preds {
					if p == b {
						idx = j
					}
				}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					// both edges may come from b
					for j, pr := range s.Preds {
						if pr == b {
							live[p.Edges[j]] = true
						}
					}
					_ = idx
					_ = p
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					if _, ph := in.(*ssa.Phi); !ph {
						delete(live, v)
					}
				}
				if _, ph := in.(*ssa.Phi); ph {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			for v := range live {
				if !li.in[b][v] {
					li.in[b][v] = true
					ch = true
				}
			}
		}
	}
	// the recover block may use anything captured in allocs: treat values used there as live everywhere
	if fn.Recover != nil {
		for v := range li.in[fn.Recover] {
			for _, b := range fn.Blocks {
				li.in[b][v] = true
			}
		}
	}
	x.live[fn] = li
	return li
}

func (x *Exec) eval(st *State, f *Frame, v ssa.Value, in ssa.Instruction) bool {
	set := func(r Val) bool {
		if r == nil {
			x.fail("cannot evaluate %s = %s in %s", v.Name(), v.String(), f.Fn)
			return false
		}
		f.Locals[v] = r
		f.PC++
		return true
	}
	switch i := v.(type) {
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		id := st.NewCell(x.site(st, in), Zero(et))
		return set(&Ptr{Cell: id, T: et})
	case *ssa.UnOp:
		return x.unop(st, f, i)
	case *ssa.BinOp:
		if x.ExactAppend && (i.Op == token.EQL || i.Op == token.NEQ) {
			// decide conditions that are compared
			for _, y := range []ssa.Value{i.X, i.Y} {
				if b, ok := y.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
					break
				}
				t, ok := x.get(st, y).(*Term)
				if _, local := f.Locals[y]; !ok || t.old || !local {
					continue
				}
				o := st.Clone()
				ts, _ := x.Branch(st, t)
				_, fs := x.Branch(o, t)
				if ts != nil {
					ts.top().Locals[y] = MkBool(true)
					x.fork(ts)
				}
				if fs != nil {
					fs.top().Locals[y] = MkBool(false)
					x.fork(fs)
				}
				return false
			}
		}
		return x.binop(st, f, i)
	case *ssa.ChangeType:
		return set(retype(x.get(st, i.X), i.Type()))
	case *ssa.ChangeInterface:
		return set(x.get(st, i.X))
	case *ssa.Convert:
		y := x.get(st, i.X)
		if Poly && isInt(i.X.Type()) && isInt(i.Type()) {
			if _, ok := y.(*Const); !ok {
				if outs := x.polyConvert(st, y, i.Type(), x.site(st, in)); outs != nil {
					return x.polyOuts(st, i, outs)
				}
			}
		}
		return set(x.convert(st, y, i.X.Type(), i.Type(), in))
	case *ssa.MakeInterface:
		return set(&Iface{Dyn: i.X.Type(), V: x.get(st, i.X)})
	case *ssa.MakeClosure:
		b := make([]Val, len(i.Bindings))
		for j, y := range i.Bindings {
			b[j] = x.get(st, y)
		}
		return set(&Closure{Fn: i.Fn.(*ssa.Function), Binds: b})
	case *ssa.MakeSlice:
		ln, cp := x.get(st, i.Len), x.get(st, i.Cap)
		et := i.Type().Underlying().(*types.Slice).Elem()
		id := st.NewCell(x.site(st, in), &Backing{Elem: et})
		return set(&Slice{T: i.Type(), Cell: id, Off: MkInt(types.Typ[types.Int], 0), Len: x.asInt(st, ln), Cap: x.asInt(st, cp)})
	case *ssa.MakeMap:
		id := st.NewCell(x.site(st, in), &MapObj{T: i.Type().Underlying().(*types.Map)})
		return set(&MapRef{T: i.Type(), Cell: id})
	case *ssa.MakeChan:
		return set(st.NewLeaf(i.Type(), x.site(st, in), true))
	case *ssa.Field:
		return set(elemAt(x.get(st, i.X), i.Field))
	case *ssa.FieldAddr:
		b := x.get(st, i.X)
		if cont, ok := x.derefCheck(st, b, i.Pos()); !ok {
			return cont
		}
		et := i.Type().(*types.Pointer).Elem()
		return set(x.addr(b, Step{Field: i.Field}, et))
	case *ssa.IndexAddr:
		b := x.get(st, i.X)
		idx := x.asInt(st, x.get(st, i.Index))
		return x.indexAddr(st, f, i, b, idx)
	case *ssa.Index:
		b, idx := x.get(st, i.X), x.asInt(st, x.get(st, i.Index))
		if cont, ok := x.boundsCheck(st, x.Len(st, b), idx, i.Pos()); !ok {
			return cont
		}
		if isString(i.X.Type()) {
			return set(x.strIndex(st, b, idx))
		}
		return x.alt(st, i, st.readPath(b, []Step{{Idx: idx}}, nil))
	case *ssa.Lookup:
		b, k := x.get(st, i.X), x.get(st, i.Index)
		if isString(i.X.Type()) {
			if cont, ok := x.boundsCheck(st, x.Len(st, b), k, i.Pos()); !ok {
				return cont
			}
			return set(x.strIndex(st, b, k))
		}
		if x.splitKeys(st, b, k) {
			return false
		}
		res := x.mapLookup(st, b, k, x.site(st, in))
		for _, r := range res {
			r.st.top().PC++
			if i.CommaOk {
				x.setLocal(r.st, i, &Tuple{F: []Val{r.v, r.ok}})
			} else {
				x.setLocal(r.st, i, r.v)
			}
			x.fork(r.st)
		}
		return false
	case *ssa.Slice:
		return x.slice(st, f, i)
	case *ssa.Extract:
		t := x.get(st, i.Tuple)
		if tu, ok := t.(*Tuple); ok && i.Index < len(tu.F) {
			return set(tu.F[i.Index])
		}
		return set(nil)
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, i)
	case *ssa.Range:
		b := x.get(st, i.X)
		id := st.NewCell(x.site(st, in), MkInt(types.Typ[types.Int], 0))
		return set(&IterRef{X: b, Cell: id})
	case *ssa.Next:
		return x.rangeNext(st, f, i)
	case *ssa.Call:
		fn, args := x.callParts(st, &i.Call)
		return x.invoke(st, &i.Call, fn, args, i, i, false)
	case *ssa.SliceToArrayPointer, *ssa.Select, *ssa.MultiConvert:
		x.fail("unsupported %T in %s", v, f.Fn)
		return false
	}
	x.fail("unsupported value instruction %T in %s", v, f.Fn)
	return false
}

func (x *Exec) strIndex(st *State, b, idx Val) Val {
	if t, ok := b.(*Term); ok && (t.Op == "cat" || t.Op == "bytestr") {
		if k, ok := st.intOf(idx); ok {
			if es := x.strElems(st, b, types.Typ[types.Byte], true); es != nil && k.IsInt64() && k.Int64() >= 0 && k.Int64() < int64(len(es)) {
				return es[k.Int64()]
			}
		}
	}
	if s, ok := StrOf(b); ok {
		if k, ok := IntOf(idx); ok && k.IsInt64() && k.Int64() >= 0 && k.Int64() < int64(len(s)) {
			return MkInt(types.Typ[types.Byte], int64(s[k.Int64()]))
		}
	}
	return App(types.Typ[types.Byte], "elem", b, idx)
}

// asInt converts an index to an int-typed value.
func (x *Exec) asInt(st *State, v Val) Val {
	t := valType(v)
	if t == nil || types.Identical(t.Underlying(), types.Typ[types.Int]) {
		return v
	}
	if c, ok := v.(*Const); ok {
		return MkConst(types.Typ[types.Int], c.V)
	}
	return App(types.Typ[types.Int], "cv", v)
}

func retype(v Val, t types.Type) Val {
	switch y := v.(type) {
	case *Const:
		return MkConst(t, y.V)
	case *Nil:
		return &Nil{t}
	case *Struct:
		return &Struct{T: t, F: y.F}
	case *Slice:
		return &Slice{T: t, Cell: y.Cell, Off: y.Off, Len: y.Len, Cap: y.Cap}
	case *MapRef:
		return &MapRef{T: t, Cell: y.Cell}
	case *Term:
		if types.Identical(y.T, t) {
			return y
		}
		switch y.T.Underlying().(type) {
		case *types.Signature, *types.Slice, *types.Map, *types.Pointer, *types.Struct, *types.Interface:
			// identity is preserved; the static type is immaterial for these
			return y
		}
		return App(t, "cv", y)
	}
	return v
}

func (x *Exec) addr(b Val, s Step, et types.Type) Val {
	switch p := b.(type) {
	case *Ptr:
		return p.ext(s, et)
	case *Term:
		return &Ptr{Cell: CellID{Base: p}, Path: []Step{s}, T: et}
	}
	return nil
}

// boundsCheck handles out-of-range indexes: ok=true to proceed.
func (x *Exec) boundsCheck(st *State, ln, idx Val, pos token.Pos) (cont, ok bool) {
	it := types.Typ[types.Int]
	r := st.Rel(idx, ln)
	rz := st.Rel(idx, MkInt(it, 0))
	if r&LT == 0 || rz == LT {
		return x.startPanic(st, RuntimePanic("index out of range"), pos), false
	}
	if x.ForkIndex {
		if r&^LT != 0 {
			n := st.Clone()
			if n.SetRel(idx, ln, EQ|GT) {
				x.startPanic(n, RuntimePanic("index out of range"), pos)
				x.fork(n)
			}
		}
		if rz&LT != 0 {
			n := st.Clone()
			if n.SetRel(idx, MkInt(it, 0), LT) {
				x.startPanic(n, RuntimePanic("index out of range"), pos)
				x.fork(n)
			}
		}
	}
	if !st.SetRel(idx, ln, LT) || !st.SetRel(idx, MkInt(it, 0), EQ|GT) {
		return false, false
	}
	// choose the index if it is one of a few
	if t, ok := idx.(*Term); ok && x.ForkIndex && !IsOld(idx) {
		lo, hi := st.Interval(t)
		if lo != nil && hi != nil && lo.Cmp(hi) < 0 && lo.Sign() >= 0 && hi.Cmp(big.NewInt(8)) <= 0 {
			for v := lo.Int64(); v <= hi.Int64(); v++ {
				n := st.Clone()
				if n.SetRel(idx, MkInt(it, v), EQ) {
					x.fork(n)
				}
			}
			return false, false
		}
	}
	return true, true
}

func (x *Exec) indexAddr(st *State, f *Frame, i *ssa.IndexAddr, b, idx Val) bool {
	et := i.Type().(*types.Pointer).Elem()
	switch y := b.(type) {
	case *Ptr: // *array
		ln := x.Len(st, y)
		if cont, ok := x.boundsCheck(st, ln, idx, i.Pos()); !ok {
			return cont
		}
		f.Locals[i] = y.ext(Step{Idx: idx}, et)
		f.PC++
		return true
	}
	if t, ok := b.(*Term); ok {
		if _, isArr := t.T.Underlying().(*types.Pointer); isArr {
			f.Locals[i] = &Ptr{Cell: CellID{Base: t}, Path: []Step{{Idx: idx}}, T: et}
			f.PC++
			return true
		}
	}
	id, off, ln, _, ok := x.SliceParts(st, b)
	if !ok {
		x.fail("index of %T in %s", b, f.Fn)
		return false
	}
	if cont, ok := x.boundsCheck(st, ln, idx, i.Pos()); !ok {
		return cont
	}
	f.Locals[i] = &Ptr{Cell: id, Path: []Step{{Idx: addInt(st, off, idx)}}, T: et}
	f.PC++
	return true
}

func (x *Exec) slice(st *State, f *Frame, i *ssa.Slice) bool {
	b := x.get(st, i.X)
	it := types.Typ[types.Int]
	var lo, hi, max Val
	if i.Low != nil {
		lo = x.asInt(st, x.get(st, i.Low))
	} else {
		lo = MkInt(it, 0)
	}
	if i.High != nil {
		hi = x.asInt(st, x.get(st, i.High))
	}
	if i.Max != nil {
		max = x.asInt(st, x.get(st, i.Max))
	}
	if isString(i.X.Type()) {
		if s, ok := StrOf(b); ok {
			if l, ok := IntOf(lo); ok {
				h := big.NewInt(int64(len(s)))
				ok2 := true
				if hi != nil {
					h, ok2 = IntOf(hi)
				}
				if ok2 {
					if l.Sign() < 0 || l.Cmp(h) > 0 || h.Cmp(big.NewInt(int64(len(s)))) > 0 {
						return x.startPanic(st, RuntimePanic("slice bounds out of range"), i.Pos())
					}
					f.Locals[i] = MkConst(i.Type(), constant.MakeString(s[l.Int64():h.Int64()]))
					f.PC++
					return true
				}
			}
		}
		if hi == nil {
			hi = x.Len(st, b)
		}
		if cont, ok := x.sliceCheck(st, lo, hi, x.Len(st, b), i.Pos()); !ok {
			return cont
		}
		if t, ok := b.(*Term); ok && (t.Op == "cat" || t.Op == "bytestr") {
			l, ok1 := st.intOf(lo)
			h, ok2 := st.intOf(hi)
			if es := x.strElems(st, b, types.Typ[types.Byte], true); es != nil && ok1 && ok2 {
				var ps []Val
				for _, e := range es[l.Int64():h.Int64()] {
					ps = append(ps, byteStr(i.Type(), e))
				}
				f.Locals[i] = Cat(i.Type(), ps...)
				f.PC++
				return true
			}
		}
		f.Locals[i] = App(i.Type(), "substr", b, lo, hi)
		f.PC++
		return true
	}
	if t, ok := b.(*Term); ok && st.Nilness(t) == 0 {
		if _, sl := t.T.Underlying().(*types.Slice); sl {
			// slicing keeps nil-ness; treat as possibly nil only through facts
			_ = sl
		}
	}
	id, off, ln, cp, ok := x.SliceParts(st, b)
	if !ok {
		x.fail("slice of %T in %s", b, f.Fn)
		return false
	}
	if hi == nil {
		hi = ln
	}
	lim := cp
	if ln.K() != cp.K() {
		st.SetRel(ln, cp, LT|EQ) // the length never exceeds the capacity
	}
	if cont, ok := x.sliceCheck(st, lo, hi, lim, i.Pos()); !ok {
		return cont
	}
	if IsNil(b) {
		f.Locals[i] = b
		f.PC++
		return true
	}
	ncp := cp
	if max != nil {
		ncp = max
	}
	f.Locals[i] = &Slice{T: i.Type(), Cell: id, Off: addInt(st, off, lo), Len: st.Arith(token.SUB, hi, lo, it), Cap: st.Arith(token.SUB, ncp, lo, it)}
	f.PC++
	return true
}

func (x *Exec) sliceCheck(st *State, lo, hi, lim Val, pos token.Pos) (cont, ok bool) {
	it := types.Typ[types.Int]
	zero := MkInt(it, 0)
	chk := func(a, b Val, want uint8) (bool, bool) {
		r := st.Rel(a, b)
		if r&want == 0 {
			return x.startPanic(st, RuntimePanic("slice bounds out of range"), pos), false
		}
		if x.ForkIndex && r&^want != 0 {
			n := st.Clone()
			if n.SetRel(a, b, r&^want) {
				x.startPanic(n, RuntimePanic("slice bounds out of range"), pos)
				x.fork(n)
			}
		}
		if !st.SetRel(a, b, want) {
			return false, false
		}
		return true, true
	}
	if c, k := chk(lo, zero, GT|EQ); !k {
		return c, false
	}
	if c, k := chk(lo, hi, LT|EQ); !k {
		return c, false
	}
	if lim.K() != hi.K() {
		// cap >= len is implicit
		if ct, ok := lim.(*Term); ok && ct.Op == "cap" && len(ct.Args) == 1 {
			st.SetRel(App(it, "len", ct.Args[0]), lim, LT|EQ)
		}
		if c, k := chk(hi, lim, LT|EQ); !k {
			return c, false
		}
	}
	return true, true
}

func (x *Exec) unop(st *State, f *Frame, i *ssa.UnOp) bool {
	v := x.get(st, i.X)
	set := func(r Val) bool {
		f.Locals[i] = r
		f.PC++
		return true
	}
	switch i.Op {
	case token.MUL: // load
		if cont, ok := x.derefCheck(st, v, i.Pos()); !ok {
			return cont
		}
		if p, ok := v.(*Ptr); ok {
			x.globalInit(st, p)
		}
		vs := st.Load(v, i.Type())
		if len(vs) == 0 {
			x.fail("cannot load %s (%s) in %s", i.X.Name(), v.K(), f.Fn)
			return false
		}
		var out []Val
		for _, y := range vs {
			for _, z := range alts(y) {
				out = append(out, z)
			}
		}
		return x.alt(st, i, out)
	case token.NOT:
		return set(Not(v))
	case token.SUB:
		if c, ok := v.(*Const); ok {
			if isInt(i.Type()) {
				n, _ := IntOf(c)
				return set(MkBig(i.Type(), wrapInt(new(big.Int).Neg(n), i.Type())))
			}
			return set(MkConst(i.Type(), constant.UnaryOp(token.SUB, c.V, 0)))
		}
		if Poly && isInt(i.Type()) {
			if outs := x.polyArith(st, token.SUB, MkInt(i.Type(), 0), v, i.Type(), x.site(st, i)); outs != nil {
				return x.polyOuts(st, i, outs)
			}
		}
		if x.ForkWrap && isInt(i.Type()) && !isUnsigned(i.Type()) {
			min, _ := TypeRange(i.Type())
			t, n := x.branchRel(st, v, MkBig(i.Type(), min), EQ)
			if t != nil && n != nil {
				x.fork(n)
			}
			if t != nil {
				t.top().Locals[i] = MkBig(i.Type(), min)
				t.top().PC++
				if t == st {
					return true
				}
				x.fork(t)
				return false
			}
		}
		return set(App(i.Type(), "neg", v))
	case token.XOR:
		if c, ok := v.(*Const); ok {
			n, _ := IntOf(c)
			return set(MkBig(i.Type(), wrapInt(new(big.Int).Not(n), i.Type())))
		}
		return set(App(i.Type(), "compl", v))
	}
	x.fail("unsupported unary %s in %s", i.Op, f.Fn)
	return false
}

// Not negates a boolean value.
func Not(v Val) Val {
	if IsTrue(v) {
		return MkBool(false)
	}
	if IsFalse(v) {
		return MkBool(true)
	}
	if t, ok := v.(*Term); ok {
		if t.Op == "not" {
			return t.Args[0]
		}
		inv := map[string]string{"cmp==": "cmp!=", "cmp!=": "cmp=="}
		if n, ok := inv[t.Op]; ok {
			return mkTerm(t.T, n, 0, false, t.Args...)
		}
		return App(t.T, "not", v)
	}
	return nil
}

func (x *Exec) binop(st *State, f *Frame, i *ssa.BinOp) bool {
	a, b := x.get(st, i.X), x.get(st, i.Y)
	set := func(r Val) bool {
		f.Locals[i] = r
		f.PC++
		return true
	}
	switch i.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		c := x.Compare(st, i.Op, a, b)
		if _, ok := c.(*Const); !ok && (Digits || Bytewise) && isString(i.X.Type()) {
			if outs := x.compareStrings(st, i.Op, a, b); outs != nil {
				return x.polyOuts(st, i, outs)
			}
		}
		return set(c)
	}
	t := i.Type()
	if (i.Op == token.QUO || i.Op == token.REM) && isInt(t) {
		r := st.Rel(b, MkInt(t, 0))
		if r == EQ {
			return x.startPanic(st, RuntimePanic("divide by zero"), i.Pos())
		}
		if r&EQ != 0 {
			if x.ForkDiv {
				n := st.Clone()
				if n.SetRel(b, MkInt(t, 0), EQ) {
					x.startPanic(n, RuntimePanic("divide by zero"), i.Pos())
					x.fork(n)
				}
			}
			st.SetRel(b, MkInt(t, 0), LT|GT)
		}
	}
	if Poly && isInt(t) {
		if outs := x.polyArith(st, i.Op, a, b, t, x.site(st, i)); outs != nil {
			return x.polyOuts(st, i, outs)
		}
	}
	return set(st.foldBits(st.Arith(i.Op, a, b, t)))
}

// Compare evaluates a comparison to a constant or a comparison term.
func (x *Exec) Compare(st *State, op token.Token, a, b Val) Val {
	mask := relMask(op.String())
	var r uint8
	if op == token.EQL || op == token.NEQ {
		switch st.Equal(a, b) {
		case 1:
			return MkBool(op == token.EQL)
		case -1:
			return MkBool(op == token.NEQ)
		}
		// booleans compared with constants
		if op == token.NEQ || op == token.EQL {
			for _, pr := range [][2]Val{{a, b}, {b, a}} {
				if IsTrue(pr[0]) || IsFalse(pr[0]) {
					o := pr[1]
					if IsTrue(pr[0]) == (op == token.EQL) {
						return o
					}
					return Not(o)
				}
			}
		}
	}
	ta := typeOfVal(a)
	if ta != nil && isComplex(ta) {
		return mkTerm(types.Typ[types.Bool], "cmp"+op.String(), 0, false, a, b)
	}
	r = st.Rel(a, b)
	if r&^mask == 0 {
		return MkBool(true)
	}
	if r&mask == 0 {
		return MkBool(false)
	}
	return mkTerm(types.Typ[types.Bool], "cmp"+op.String(), 0, false, a, b)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, in ssa.Instruction) Val {
	if c, ok := v.(*Const); ok {
		switch {
		case isInt(from) && isInt(to):
			n, _ := IntOf(c)
			return MkBig(to, wrapInt(n, to))
		case isInt(from) && isFloat(to):
			return roundConst(to, c.V)
		case isFloat(from) && isFloat(to):
			return roundConst(to, c.V)
		case isFloat(from) && isInt(to):
			n := constant.ToInt(c.V)
			if fv, ok := floatOf(c); ok && n.Kind() != constant.Int {
				n = constant.ToInt(constant.MakeFloat64(math.Trunc(fv)))
			}
			if n.Kind() == constant.Int {
				lo, hi := TypeRange(to)
				nb, _ := IntOf(MkConst(to, n))
				if nb.Cmp(lo) >= 0 && nb.Cmp(hi) <= 0 {
					return MkConst(to, n)
				}
			}
			return App(to, "trunc", v)
		case isString(from) && isString(to):
			return MkConst(to, c.V)
		case isInt(from) && isString(to):
			n, _ := IntOf(c)
			return MkConst(to, constant.MakeString(string(rune(n.Int64()))))
		}
	}
	switch {
	case isInt(from) && isInt(to):
		lo, hi := st.Interval(v)
		tl, th := TypeRange(to)
		if lo != nil && lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
			s := Strip(v)
			if t := valType(s); t != nil && types.Identical(t, to) {
				return s
			}
			return st.foldBits(App(to, "cv", s))
		}
		return st.foldBits(App(to, "wrap", v))
	case isInt(from) && isFloat(to):
		lo, hi := st.Interval(v)
		mant := uint(53)
		if k := to.Underlying().(*types.Basic).Kind(); k == types.Float32 {
			mant = 24
		}
		m := new(big.Int).Lsh(big.NewInt(1), mant)
		if lo != nil && new(big.Int).Abs(lo).Cmp(m) <= 0 && new(big.Int).Abs(hi).Cmp(m) <= 0 {
			return App(to, "cv", v)
		}
		return App(to, "round", v)
	case isFloat(from) && isFloat(to):
		fk, tk := from.Underlying().(*types.Basic).Kind(), to.Underlying().(*types.Basic).Kind()
		if fk == tk || tk == types.Float64 {
			if fk == tk {
				s := v
				if t := valType(s); t != nil && types.Identical(t, to) {
					return s
				}
			}
			return App(to, "cv", v)
		}
		y := Strip(v)
		if t, ok := y.(*Term); ok && t.Op == "neg" && len(t.Args) == 1 {
			if z := x.convert(st, t.Args[0], from, to, in); !isOp(z, "round32") {
				return App(to, "neg", z)
			}
		}
		if t := valType(y); t != nil && isFloat(t) && IsBasic(t) && t.Underlying().(*types.Basic).Kind() == types.Float32 {
			if types.Identical(t, to) {
				return y
			}
			return App(to, "cv", y)
		}
		return App(to, "round32", v)
	case isFloat(from) && isInt(to):
		return App(to, "trunc", v)
	case isString(from) && isString(to):
		return retype(v, to)
	}
	if isString(to) || isString(from) {
		// string <-> []byte / []rune, int -> string
		if isString(from) {
			if r := x.sliceOfStr(st, v, to, x.site(st, in)); r != nil {
				return r
			}
			// fresh slice with opaque content
			return App(to, "conv", v)
		}
		if isInt(from) {
			return x.runeStr(st, to, v)
		}
		if r := x.strOfSlice(st, v, from, to); r != nil {
			return r
		}
		id, off, ln, _, ok := x.SliceParts(st, v)
		if ok {
			if c := st.content(id, nil); c != nil {
				// the whole of an unmodified conversion from a string
				if b, ok := c.(*Backing); ok && isOp(b.Base, "conv") && len(b.W) == 0 && len(b.Sum) == 0 {
					if n, k := IntOf(off); k && n.Sign() == 0 && st.Rel(ln, x.Len(st, b.Base)) == EQ {
						if s := b.Base.(*Term).Args[0]; isString(valType(s)) {
							return retype(s, to)
						}
					}
				}
				return App(to, "strof", c, off, ln)
			}
		}
		return App(to, "conv", v)
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	return App(to, "conv", v)
}

func roundConst(to types.Type, v constant.Value) Val {
	f := constant.ToFloat(v)
	if to.Underlying().(*types.Basic).Kind() == types.Float32 {
		g, _ := constant.Float32Val(f)
		return MkConst(to, constant.MakeFloat64(float64(g)))
	}
	g, _ := constant.Float64Val(f)
	return MkConst(to, constant.MakeFloat64(g))
}

func (x *Exec) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) bool {
	v := x.get(st, i.X)
	okRes := func(s *State, r Val) {
		s.top().PC++
		if i.CommaOk {
			x.setLocal(s, i, &Tuple{F: []Val{r, MkBool(true)}})
		} else {
			x.setLocal(s, i, r)
		}
	}
	failRes := func(s *State) bool {
		if i.CommaOk {
			s.top().PC++
			x.setLocal(s, i, &Tuple{F: []Val{Zero(i.AssertedType), MkBool(false)}})
			return true
		}
		return x.startPanic(s, RuntimePanic("interface conversion"), i.Pos())
	}
	toIf := isIface(i.AssertedType)
	switch y := v.(type) {
	case *Nil:
		return failRes(st)
	case *Iface:
		if toIf {
			if types.Implements(y.Dyn, i.AssertedType.Underlying().(*types.Interface)) {
				okRes(st, y)
				return true
			}
			return failRes(st)
		}
		if types.Identical(y.Dyn, i.AssertedType) {
			okRes(st, y.V)
			return true
		}
		return failRes(st)
	case *Term:
		if st.Nilness(y) == 1 {
			return failRes(st)
		}
		fc := st.facts[y]
		if fc.Dyn != nil {
			if toIf {
				if types.Implements(fc.Dyn, i.AssertedType.Underlying().(*types.Interface)) {
					okRes(st, y)
					return true
				}
				return failRes(st)
			}
			if types.Identical(fc.Dyn, i.AssertedType) {
				okRes(st, x.Unbox(st, y, fc.Dyn))
				return true
			}
			return failRes(st)
		}
		for _, nd := range fc.NotDyn {
			if types.Identical(nd, i.AssertedType) {
				return failRes(st)
			}
		}
		if toIf && y.T != nil && isIface(y.T) && types.Implements(y.T, i.AssertedType.Underlying().(*types.Interface)) {
			// fails only for nil
			if st.Nilness(y) == 0 {
				n := st.Clone()
				n.SetNil(y)
				if failRes(n) {
					x.fork(n)
				}
				st.SetNonNil(y)
			}
			okRes(st, y)
			return true
		}
		n := st.Clone()
		nf := n.facts[y]
		nf.NotDyn = append(append([]types.Type(nil), nf.NotDyn...), i.AssertedType)
		n.setFact(y, nf)
		if failRes(n) {
			x.fork(n)
		}
		if toIf {
			st.SetNonNil(y)
			okRes(st, y)
			return true
		}
		st.SetDyn(y, i.AssertedType)
		okRes(st, x.Unbox(st, y, i.AssertedType))
		return true
	case *RType:
		okRes(st, y)
		return true
	}
	x.fail("type assertion on %T in %s", v, f.Fn)
	return false
}

// Unbox gives the value of type t stored in an opaque interface.
func (x *Exec) Unbox(st *State, y *Term, t types.Type) Val {
	return App(t, "unbox", y)
}

func (x *Exec) rangeNext(st *State, f *Frame, i *ssa.Next) bool {
	it := x.get(st, i.Iter).(*IterRef)
	tt := i.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	done := func(s *State) {
		x.setLocal(s, i, &Tuple{F: []Val{MkBool(false), zeroOrNil(kt), zeroOrNil(vt)}})
		s.top().PC++
	}
	if i.IsString {
		if s, ok := StrOf(it.X); ok {
			pos, _ := IntOf(st.Content(it.Cell))
			p := int(pos.Int64())
			if p >= len(s) {
				done(st)
				return true
			}
			for _, r := range s[p:] {
				_, w := utf8.DecodeRuneInString(s[p:])
				st.SetContent(it.Cell, MkInt(types.Typ[types.Int], int64(p+w)))
				x.setLocal(st, i, &Tuple{F: []Val{MkBool(true), MkInt(types.Typ[types.Int], int64(p)), MkInt(types.Typ[types.Rune], int64(r))}})
				st.top().PC++
				return true
			}
		}
		// known characters
		if es := x.strElems(st, it.X, types.Typ[types.Rune], false); es != nil {
			n, pos := 0, Val(MkInt(types.Typ[types.Int], 0))
			if t, ok := st.Content(it.Cell).(*Tuple); ok {
				k, _ := IntOf(t.F[0])
				n, pos = int(k.Int64()), t.F[1]
			}
			if n == len(es) {
				done(st)
				return true
			}
			next := Val(x.opaqueInt(st, it, n))
			if lo, hi := st.Interval(es[n]); lo != nil && hi != nil {
				if w := utf8.RuneLen(rune(lo.Int64())); w > 0 && w == utf8.RuneLen(rune(hi.Int64())) {
					next = addInt(st, pos, MkInt(types.Typ[types.Int], int64(w)))
				}
			}
			st.SetContent(it.Cell, &Tuple{F: []Val{MkInt(types.Typ[types.Int], int64(n+1)), next}})
			x.setLocal(st, i, &Tuple{F: []Val{MkBool(true), pos, es[n]}})
			st.top().PC++
			return true
		}
	}
	if !i.IsString {
		if ents, ok := x.exactEntries(st, it.X); ok {
			var seen []Val
			if t, ok := st.Content(it.Cell).(*Tuple); ok {
				seen = t.F
			}
			left := x.unvisited(st, ents, seen)
			if len(left) == 0 {
				done(st)
				return true
			}
			for _, w := range left {
				s := st.Clone()
				s.SetContent(it.Cell, &Tuple{F: append(append([]Val(nil), seen...), w.I)})
				x.setLocal(s, i, &Tuple{F: []Val{MkBool(true), w.I, w.V}})
				s.top().PC++
				x.fork(s)
			}
			return false
		}
	}
	n := st.Clone()
	done(n)
	if st.Nilness(it.X) == 1 {
		done(st)
		return true
	}
	if mr, ok := it.X.(*MapRef); ok {
		// map of known content: any recorded entry may come next (order and repetition unconstrained), or the end
		_, mo := x.mapCell(st, mr)
		if mo != nil && mo.Base == nil {
			x.fork(n)
			ents := append(append([]Wr(nil), mo.W...), mo.Sum...)
			for _, w := range ents {
				if w.V == nil {
					continue
				}
				s := st.Clone()
				x.setLocal(s, i, &Tuple{F: []Val{MkBool(true), w.I, w.V}})
				s.top().PC++
				x.fork(s)
			}
			return false
		}
	}
	x.fork(n)
	site := x.site(st, i)
	var k, v Val
	if i.IsString {
		k = st.NewLeaf(types.Typ[types.Int], site+":k", false)
		v = st.NewLeaf(types.Typ[types.Rune], site+":v", false)
		st.SetRange(k.(*Term), big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 62))
	} else {
		mt := typeOfVal(it.X).Underlying().(*types.Map)
		kk := st.NewLeaf(mt.Key(), site+":k", false)
		k = kk
		v = App(mt.Elem(), "at", it.X, kk)
		if vt == types.Typ[types.Invalid] {
			v = &Nil{vt}
		}
	}
	x.setLocal(st, i, &Tuple{F: []Val{MkBool(true), k, v}})
	st.top().PC++
	return true
}

func zeroOrNil(t types.Type) Val {
	if t == nil || t == types.Typ[types.Invalid] {
		return &Nil{t}
	}
	return Zero(t)
}

var _ = fmt.Sprint

// opaqueInt is the unknown position after character n of a string.
func (x *Exec) opaqueInt(st *State, it *IterRef, n int) Val {
	return App(types.Typ[types.Int], "strpos", it.X, MkInt(types.Typ[types.Int], int64(n)))
}
