// Package ai is a path-sensitive abstract interpreter over go/ssa (disjunctive abstract states, value numbering for
// opaque values, intervals, a finite order relation, recency abstraction for heap cells and call results, fixpoint by
// state subsumption at loop heads). No code of the analysed program is executed and no solver is involved.
package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. All values are immutable.
type Val interface{ K() string }

// Const is a known constant of basic (or named basic) type.
type Const struct {
	T types.Type
	V constant.Value
	k string
}

func (c *Const) K() string { return c.k }

// MkConst makes a constant.
func MkConst(t types.Type, v constant.Value) *Const {
	k := "c:" + tkey(t) + ":" + v.Kind().String() + ":" + v.ExactString()
	if v.Kind() == constant.Int {
		k = "c:" + v.ExactString()
	}
	return &Const{t, v, k}
}

func MkInt(t types.Type, i int64) *Const { return MkConst(t, constant.MakeInt64(i)) }
func MkBool(b bool) *Const               { return MkConst(types.Typ[types.Bool], constant.MakeBool(b)) }
func MkStr(s string) *Const              { return MkConst(types.Typ[types.String], constant.MakeString(s)) }
func MkBig(t types.Type, i *big.Int) *Const {
	return MkConst(t, constant.Make(new(big.Int).Set(i)))
}

// Nil is a nil pointer, func, slice, map, chan or interface.
type Nil struct{ T types.Type }

func (n *Nil) K() string { return "nil" }

// Term is an opaque value: an uninterpreted operator over values. Leaves have no args.
// MaxAge is the age that summarises all older values of a site; it is set before an analysis starts.
var MaxAge int8 = 2

// MaxTermDepth bounds the nesting of terms.
var MaxTermDepth = 9

// MaxWrites bounds the element writes of a slice that are kept apart.
var MaxWrites = 8

// Age: 0 most recent, 1 previous, 2 summary of all older values of that site.
type Term struct {
	Op    string
	Args  []Val
	T     types.Type
	Age   int8
	Fresh bool // identity distinct from every other value (allocation-like)
	k     string
	depth int
	id    int
	old   bool // contains an age-2 leaf
}

func (t *Term) K() string { return t.k }

var termTab = map[string]*Term{}

var tkeyCache = map[types.Type]string{}

func tkey(t types.Type) string {
	if t == nil {
		return "?"
	}
	if s, ok := tkeyCache[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	tkeyCache[t] = s
	return s
}

func mkTerm(t types.Type, op string, age int8, fresh bool, args ...Val) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	if age > 0 {
		fmt.Fprintf(&sb, "~%d", age)
	}
	depth := 0
	old := age >= MaxAge
	if len(args) > 0 {
		sb.WriteByte('(')
		for i, a := range args {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(a.K())
			if at, ok := a.(*Term); ok {
				if at.depth+1 > depth {
					depth = at.depth + 1
				}
				if at.old {
					old = true
				}
			}
		}
		sb.WriteByte(')')
	}
	sb.WriteByte(':')
	sb.WriteString(tkey(t))
	k := sb.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	x := &Term{Op: op, Args: args, T: t, Age: age, Fresh: fresh, k: k, depth: depth, id: len(termTab), old: old}
	termTab[k] = x
	return x
}

// Leaf makes a leaf term.
func Leaf(t types.Type, name string) *Term { return mkTerm(t, name, 0, false) }

// FreshLeaf makes a leaf whose identity differs from every other fresh leaf.
func FreshLeaf(t types.Type, name string) *Term { return mkTerm(t, name, 0, true) }

// App applies an uninterpreted pure operator.
func App(t types.Type, op string, args ...Val) Val {
	x := mkTerm(t, op, 0, false, args...)
	if x.depth > MaxTermDepth {
		return mkTerm(t, "deep:"+op, 2, false)
	}
	return x
}

// CellID names an abstract memory cell.
type CellID struct {
	Site string
	Age  int8
	Base Val // for cells reached through an opaque pointer/slice/map value
}

func (c CellID) K() string {
	if c.Base != nil {
		return "@" + c.Base.K()
	}
	return fmt.Sprintf("#%s~%d", c.Site, c.Age)
}

// Step is a path element of a pointer.
type Step struct {
	Field int
	Idx   Val // non-nil: element index
}

// Ptr points into a cell.
type Ptr struct {
	Cell CellID
	Path []Step
	T    types.Type // element type
	k    string
}

func (p *Ptr) K() string {
	if p.k == "" {
		var sb strings.Builder
		sb.WriteString("&")
		sb.WriteString(p.Cell.K())
		for _, s := range p.Path {
			if s.Idx != nil {
				sb.WriteString("[" + s.Idx.K() + "]")
			} else {
				fmt.Fprintf(&sb, ".%d", s.Field)
			}
		}
		p.k = sb.String()
	}
	return p.k
}

func (p *Ptr) ext(s Step, t types.Type) *Ptr {
	return &Ptr{Cell: p.Cell, Path: append(append([]Step(nil), p.Path...), s), T: t}
}

// Closure is a function value.
type Closure struct {
	Fn    *ssa.Function
	Binds []Val
	k     string
}

func (c *Closure) K() string {
	if c.k == "" {
		c.k = "fn:" + c.Fn.String() + keys(c.Binds)
	}
	return c.k
}

func keys(vs []Val) string {
	var sb strings.Builder
	sb.WriteByte('(')
	for i, v := range vs {
		if i > 0 {
			sb.WriteByte(',')
		}
		if v == nil {
			sb.WriteByte('_')
		} else {
			sb.WriteString(v.K())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

// Struct is a struct or array value with known shape.
type Struct struct {
	T types.Type
	F []Val
	k string
}

func (s *Struct) K() string {
	if s.k == "" {
		s.k = "st" + keys(s.F)
	}
	return s.k
}

// Tuple is a multi-value result.
type Tuple struct {
	F []Val
	k string
}

func (s *Tuple) K() string {
	if s.k == "" {
		s.k = "tu" + keys(s.F)
	}
	return s.k
}

// Iface is an interface value of known dynamic type.
type Iface struct {
	Dyn types.Type
	V   Val
	k   string
}

func (s *Iface) K() string {
	if s.k == "" {
		s.k = "if<" + tkey(s.Dyn) + ">" + s.V.K()
	}
	return s.k
}

// Slice is a slice over a backing cell.
type Slice struct {
	T             types.Type
	Cell          CellID
	Off, Len, Cap Val
	k             string
}

func (s *Slice) K() string {
	if s.k == "" {
		s.k = "sl<" + s.Cell.K() + ">" + s.Off.K() + "," + s.Len.K() + "," + s.Cap.K()
	}
	return s.k
}

// MapRef is a map object reference.
type MapRef struct {
	T    types.Type
	Cell CellID
}

func (s *MapRef) K() string { return "mp" + s.Cell.K() }

// IterRef is an ssa.Range iterator.
type IterRef struct {
	X    Val
	Cell CellID
}

func (s *IterRef) K() string { return "it" + s.Cell.K() }

// RVal is a reflect.Value / RType a reflect.Type of a known type.
type RType struct{ T types.Type }

func (s *RType) K() string { return "rt<" + tkey(s.T) + ">" }

// Backing is the content of a slice's backing array.
type Backing struct {
	Base Val // opaque slice value this came from (default element elem(Base, i)), or nil: default zero
	Elem types.Type
	W    []Wr  // known writes
	Sum  []Val // weakly written values (any index)
	k    string
}

// Wr is a known element write.
type Wr struct {
	I Val
	V Val
}

func (b *Backing) K() string {
	if b.k == "" {
		var sb strings.Builder
		sb.WriteString("bk<")
		if b.Base != nil {
			sb.WriteString(b.Base.K())
		}
		for _, w := range b.W {
			sb.WriteString(";" + w.I.K() + "=" + w.V.K())
		}
		sb.WriteString("|")
		for _, w := range b.Sum {
			sb.WriteString(";" + w.K())
		}
		sb.WriteString(">")
		b.k = sb.String()
	}
	return b.k
}

// MapObj is the content of a map cell.
type MapObj struct {
	Base Val  // opaque map value, or nil: created empty
	W    []Wr // known key -> value; later entries do not alias earlier ones
	Sum  []Wr // weakly written entries
	T    *types.Map
	k    string
}

func (b *MapObj) K() string {
	if b.k == "" {
		var sb strings.Builder
		sb.WriteString("mo<")
		if b.Base != nil {
			sb.WriteString(b.Base.K())
		}
		for _, w := range b.W {
			v := "DEL"
			if w.V != nil {
				v = w.V.K()
			}
			sb.WriteString(";" + w.I.K() + "=" + v)
		}
		sb.WriteString("|")
		for _, w := range b.Sum {
			sb.WriteString(";" + w.I.K() + "=" + w.V.K())
		}
		sb.WriteString(">")
		b.k = sb.String()
	}
	return b.k
}

// ---- helpers

// IsTrue and IsFalse test boolean constants.
func IsTrue(v Val) bool {
	c, ok := v.(*Const)
	return ok && c.V.Kind() == constant.Bool && constant.BoolVal(c.V)
}
func IsFalse(v Val) bool {
	c, ok := v.(*Const)
	return ok && c.V.Kind() == constant.Bool && !constant.BoolVal(c.V)
}

// IsNil tests for the nil constant.
func IsNil(v Val) bool { _, ok := v.(*Nil); return ok }

// IntOf returns the integer constant.
func IntOf(v Val) (*big.Int, bool) {
	c, ok := v.(*Const)
	if !ok || c.V.Kind() != constant.Int {
		return nil, false
	}
	switch x := constant.Val(c.V).(type) {
	case int64:
		return big.NewInt(x), true
	case *big.Int:
		return x, true
	}
	return nil, false
}

// StrOf returns the string constant.
func StrOf(v Val) (string, bool) {
	c, ok := v.(*Const)
	if !ok || c.V.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.V), true
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isComplex(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func bits(t types.Type) (uint, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Uint64, types.Int, types.Uint, types.Uintptr, types.UntypedInt:
		return 64, true
	}
	return 0, false
}

// TypeRange returns the range of an integer type.
func TypeRange(t types.Type) (lo, hi *big.Int) {
	n, ok := bits(t)
	if !ok {
		if IsBig(t, "Int") {
			// unbounded
			return new(big.Int).Neg(bigInf), bigInf
		}
		return nil, nil
	}
	one := big.NewInt(1)
	if isUnsigned(t) {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, n), one)
	}
	h := new(big.Int).Lsh(one, n-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
}

// Zero returns the zero value of a type.
func Zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return MkConst(t, constant.MakeBool(false))
		case u.Info()&types.IsString != 0:
			return MkConst(t, constant.MakeString(""))
		case u.Info()&types.IsInteger != 0:
			return MkInt(t, 0)
		case u.Info()&types.IsFloat != 0:
			return MkConst(t, constant.MakeFloat64(0))
		case u.Info()&types.IsComplex != 0:
			return MkConst(t, constant.ToComplex(constant.MakeInt64(0)))
		}
		return &Nil{t}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = Zero(u.Field(i).Type())
		}
		return &Struct{T: t, F: f}
	case *types.Array:
		if u.Len() <= 64 {
			f := make([]Val, u.Len())
			for i := range f {
				f[i] = Zero(u.Elem())
			}
			return &Struct{T: t, F: f}
		}
		return mkTerm(t, "zeroarray", 0, false)
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = Zero(u.At(i).Type())
		}
		return &Tuple{F: f}
	}
	return &Nil{t}
}

// IsZero reports whether v is definitely the zero value of its type.
func IsZero(v Val) bool {
	switch x := v.(type) {
	case *Nil:
		return true
	case *Const:
		switch x.V.Kind() {
		case constant.Bool:
			return !constant.BoolVal(x.V)
		case constant.String:
			return constant.StringVal(x.V) == ""
		default:
			return constant.Compare(x.V, token.EQL, constant.MakeInt64(0))
		}
	case *Struct:
		for _, f := range x.F {
			if !IsZero(f) {
				return false
			}
		}
		return true
	}
	return false
}

// ConstVal converts an ssa constant.
func ConstVal(c *ssa.Const) Val {
	if c.Value == nil {
		return Zero(c.Type())
	}
	v := c.Value
	if isFloat(c.Type()) {
		v = constant.ToFloat(v)
	} else if isInt(c.Type()) {
		v = constant.ToInt(v)
	} else if isComplex(c.Type()) {
		v = constant.ToComplex(v)
	}
	return MkConst(c.Type(), v)
}

// Walk visits v and all values nested in it (not heap contents).
func Walk(v Val, f func(Val) bool) {
	if v == nil || !f(v) {
		return
	}
	switch x := v.(type) {
	case *Term:
		for _, a := range x.Args {
			Walk(a, f)
		}
	case *Ptr:
		if x.Cell.Base != nil {
			Walk(x.Cell.Base, f)
		}
		for _, s := range x.Path {
			if s.Idx != nil {
				Walk(s.Idx, f)
			}
		}
	case *Closure:
		for _, a := range x.Binds {
			Walk(a, f)
		}
	case *Struct:
		for _, a := range x.F {
			Walk(a, f)
		}
	case *Tuple:
		for _, a := range x.F {
			Walk(a, f)
		}
	case *Iface:
		Walk(x.V, f)
	case *Slice:
		if x.Cell.Base != nil {
			Walk(x.Cell.Base, f)
		}
		Walk(x.Off, f)
		Walk(x.Len, f)
		Walk(x.Cap, f)
	case *MapRef:
		if x.Cell.Base != nil {
			Walk(x.Cell.Base, f)
		}
	case *IterRef:
		Walk(x.X, f)
		if x.Cell.Base != nil {
			Walk(x.Cell.Base, f)
		}
	case *Backing:
		if x.Base != nil {
			Walk(x.Base, f)
		}
		for _, w := range x.W {
			Walk(w.I, f)
			Walk(w.V, f)
		}
		for _, w := range x.Sum {
			Walk(w, f)
		}
	case *MapObj:
		if x.Base != nil {
			Walk(x.Base, f)
		}
		for _, w := range x.W {
			Walk(w.I, f)
			if w.V != nil {
				Walk(w.V, f)
			}
		}
		for _, w := range x.Sum {
			Walk(w.I, f)
			Walk(w.V, f)
		}
	}
}

// substituter renames leaf terms and cells.
type substituter struct {
	leaf func(*Term) Val             // nil result: unchanged
	cell func(CellID) (CellID, bool) // for non-base cells
	memo map[string]Val
}

func (s *substituter) do(v Val) Val {
	if v == nil {
		return nil
	}
	switch v.(type) {
	case *Const, *Nil, *RType:
		return v
	}
	k := v.K()
	if r, ok := s.memo[k]; ok {
		return r
	}
	r := s.do1(v)
	s.memo[k] = r
	return r
}

func (s *substituter) list(vs []Val) ([]Val, bool) {
	ch := false
	var out []Val
	for i, a := range vs {
		n := a
		if a != nil {
			n = s.do(a)
		}
		if n != a && !ch {
			ch = true
			out = append([]Val(nil), vs...)
		}
		if ch {
			out[i] = n
		}
	}
	if !ch {
		return vs, false
	}
	return out, true
}

func (s *substituter) cid(c CellID) (CellID, bool) {
	if c.Base != nil {
		n := s.do(c.Base)
		if n != c.Base {
			c.Base = n
			return c, true
		}
		return c, false
	}
	if s.cell != nil {
		return s.cell(c)
	}
	return c, false
}

func (s *substituter) wrs(ws []Wr) ([]Wr, bool) {
	ch := false
	out := make([]Wr, len(ws))
	for i, w := range ws {
		out[i] = Wr{s.do(w.I), w.V}
		if w.V != nil {
			out[i].V = s.do(w.V)
		}
		if out[i].I != w.I || out[i].V != w.V {
			ch = true
		}
	}
	if !ch {
		return ws, false
	}
	return out, true
}

func (s *substituter) do1(v Val) Val {
	switch x := v.(type) {
	case *Term:
		if len(x.Args) == 0 {
			if s.leaf != nil {
				if n := s.leaf(x); n != nil {
					return n
				}
			}
			return x
		}
		if s.leaf != nil {
			if n := s.leaf(x); n != nil {
				return n
			}
		}
		if a, ch := s.list(x.Args); ch {
			return mkTerm(x.T, x.Op, x.Age, x.Fresh, a...)
		}
		return x
	case *Ptr:
		c, ch := s.cid(x.Cell)
		p := x.Path
		for i, st := range p {
			if st.Idx != nil {
				if n := s.do(st.Idx); n != st.Idx {
					if !ch || &p[0] == &x.Path[0] {
						p = append([]Step(nil), p...)
					}
					p[i].Idx = n
					ch = true
				}
			}
		}
		if ch {
			return &Ptr{Cell: c, Path: p, T: x.T}
		}
		return x
	case *Closure:
		if b, ch := s.list(x.Binds); ch {
			return &Closure{Fn: x.Fn, Binds: b}
		}
		return x
	case *Struct:
		if b, ch := s.list(x.F); ch {
			return &Struct{T: x.T, F: b}
		}
		return x
	case *Tuple:
		if b, ch := s.list(x.F); ch {
			return &Tuple{F: b}
		}
		return x
	case *Iface:
		if n := s.do(x.V); n != x.V {
			return &Iface{Dyn: x.Dyn, V: n}
		}
		return x
	case *Slice:
		c, ch := s.cid(x.Cell)
		o, l, cp := s.do(x.Off), s.do(x.Len), s.do(x.Cap)
		if ch || o != x.Off || l != x.Len || cp != x.Cap {
			return &Slice{T: x.T, Cell: c, Off: o, Len: l, Cap: cp}
		}
		return x
	case *MapRef:
		if c, ch := s.cid(x.Cell); ch {
			return &MapRef{T: x.T, Cell: c}
		}
		return x
	case *IterRef:
		c, ch := s.cid(x.Cell)
		n := s.do(x.X)
		if ch || n != x.X {
			return &IterRef{X: n, Cell: c}
		}
		return x
	case *Backing:
		var b Val
		if x.Base != nil {
			b = s.do(x.Base)
		}
		w, c1 := s.wrs(x.W)
		sm, c2 := s.list(x.Sum)
		if c1 || c2 || b != x.Base {
			return normBacking(&Backing{Base: b, Elem: x.Elem, W: w, Sum: dedupe(sm)})
		}
		return x
	case *MapObj:
		var b Val
		if x.Base != nil {
			b = s.do(x.Base)
		}
		w, c1 := s.wrs(x.W)
		sm, c2 := s.wrs(x.Sum)
		if c1 || c2 || b != x.Base {
			return normMap(&MapObj{Base: b, T: x.T, W: w, Sum: sm})
		}
		return x
	}
	return v
}

func dedupe(vs []Val) []Val {
	m := map[string]Val{}
	for _, v := range vs {
		m[v.K()] = v
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]Val, len(ks))
	for i, k := range ks {
		out[i] = m[k]
	}
	return out
}

func IsOld(v Val) bool {
	o := false
	Walk(v, func(x Val) bool {
		if t, ok := x.(*Term); ok {
			if t.old {
				o = true
			}
			return false
		}
		switch y := x.(type) {
		case *Ptr:
			if y.Cell.Age >= MaxAge {
				o = true
			}
		case *Slice:
			if y.Cell.Age >= MaxAge {
				o = true
			}
		case *MapRef:
			if y.Cell.Age >= MaxAge {
				o = true
			}
		}
		return !o
	})
	return o
}

// normBacking moves writes at summary indices to the weak set.
func normBacking(b *Backing) *Backing {
	var w []Wr
	sum := b.Sum
	for _, x := range b.W {
		if IsOld(x.I) {
			sum = append(append([]Val(nil), sum...), x.V)
		} else {
			w = append(w, x)
		}
	}
	return &Backing{Base: b.Base, Elem: b.Elem, W: w, Sum: dedupe(sum)}
}

func normMap(b *MapObj) *MapObj {
	var w []Wr
	sum := map[string]Wr{}
	for _, x := range b.Sum {
		sum[x.I.K()+"="+x.V.K()] = x
	}
	for _, x := range b.W {
		if IsOld(x.I) {
			if x.V != nil {
				sum[x.I.K()+"="+x.V.K()] = x
			}
		} else {
			w = append(w, x)
		}
	}
	ks := make([]string, 0, len(sum))
	for k := range sum {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var s []Wr
	for _, k := range ks {
		s = append(s, sum[k])
	}
	return &MapObj{Base: b.Base, T: b.T, W: w, Sum: s}
}
