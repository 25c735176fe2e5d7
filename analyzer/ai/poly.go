package ai

import (
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Poly adds a relational domain to the integers: convex polyhedra, given as linear constraints over terms. Quotients and
// remainders contribute the constraints that define them, and arithmetic forks on wrapping around instead of assuming
// that it does not.
var Poly bool

// linCon is the constraint sum(co[t]*t) + k >= 0 (or == 0).
type linCon struct {
	co map[*Term]*big.Int
	k  *big.Int
	eq bool
	kc string // the key
}

func (c *linCon) key() string {
	if c.kc != "" {
		return c.kc
	}
	ids := make([]int, 0, len(c.co))
	for t := range c.co {
		ids = append(ids, t.id)
	}
	sort.Ints(ids)
	byID := make(map[int]*big.Int, len(c.co))
	for t, n := range c.co {
		byID[t.id] = n
	}
	var b []byte
	for _, i := range ids {
		b = strconv.AppendInt(b, int64(i), 36)
		b = append(b, '*')
		b = byID[i].Append(b, 36)
		b = append(b, '+')
	}
	b = c.k.Append(b, 36)
	if c.eq {
		b = append(b, '=')
	}
	c.kc = string(b)
	return c.kc
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int)) // b > 0: Euclidean division rounds down
	_ = m
	return q
}

func ceilDiv(a, b *big.Int) *big.Int {
	q := floorDiv(new(big.Int).Neg(a), b)
	return q.Neg(q)
}

func linAdd(x map[*Term]*big.Int, y map[*Term]*big.Int, f *big.Int) map[*Term]*big.Int {
	r := make(map[*Term]*big.Int, len(x)+len(y))
	for t, n := range x {
		r[t] = n
	}
	for t, n := range y {
		p := new(big.Int).Mul(n, f)
		if o := r[t]; o != nil {
			p.Add(p, o)
		}
		if p.Sign() == 0 {
			delete(r, t)
		} else {
			r[t] = p
		}
	}
	return r
}

var big1, bigM1 = big.NewInt(1), big.NewInt(-1)

// canonArg gives the representation of an operand of a canonical atom.
func canonArg(v Val) Val {
	v = Strip(v)
	if i, ok := IntOf(v); ok {
		return MkBig(BigInt, i)
	}
	if co, k, ok := linForm(v); ok && k.Sign() == 0 && len(co) == 1 {
		for t, n := range co {
			if n.Cmp(big1) == 0 {
				return t
			}
		}
	}
	return v
}

// factorArg gives the representation of a factor without a constant factor, and the constant.
func factorArg(v Val) (Val, *big.Int) {
	v = Strip(v)
	if _, ok := IntOf(v); !ok {
		if co, k, ok := linForm(v); ok && k.Sign() == 0 && len(co) == 1 {
			for t, n := range co {
				return t, new(big.Int).Set(n)
			}
		}
	}
	return v, big.NewInt(1)
}

// signArg gives the representation of an operand of a quotient without its negation.
func signArg(v Val) (Val, int) {
	v = Strip(v)
	if i, ok := IntOf(v); ok && i.Sign() < 0 {
		return MkBig(BigInt, new(big.Int).Neg(i)), -1
	}
	if _, ok := v.(*Term); ok {
		if co, k, ok := linForm(v); ok && k.Sign() == 0 && len(co) == 1 {
			for t, n := range co {
				if n.Cmp(bigM1) == 0 {
					return t, -1
				}
			}
		}
	}
	return v, 1
}

// atom makes the canonical term of a quotient, remainder or product of mathematical integers.
func atom(op string, a, b Val) *Term {
	a, b = canonArg(a), canonArg(b)
	if op == "*" && a.K() > b.K() {
		a, b = b, a
	}
	return mkTerm(BigInt, op, 0, false, a, b)
}

// arithOp gives the arithmetic operator of a term of a machine or big integer.
func arithOp(t *Term) string {
	if isInt(t.T) {
		return t.Op
	}
	switch t.Op {
	case "add":
		return "+"
	case "sub":
		return "-"
	case "mul":
		return "*"
	case "quo":
		return "/"
	case "rem":
		return "%"
	}
	return t.Op
}

// linForm gives the linear form of an integer value, ok is false for other values.
func linForm(v Val) (co map[*Term]*big.Int, k *big.Int, ok bool) {
	v = Strip(v)
	if i, ok := IntOf(v); ok {
		return nil, i, true
	}
	t, isT := v.(*Term)
	if !isT || t.T == nil || !(isInt(t.T) || IsBig(t.T, "Int")) || t.old || BigInt == nil {
		return nil, nil, false
	}
	if len(t.Args) == 0 {
		return map[*Term]*big.Int{t: big1}, new(big.Int), true
	}
	if m, ok := linMemo[t]; ok {
		return m.co, m.k, true
	}
	co, k = linTerm(t)
	linMemo[t] = &linCon{co: co, k: k}
	return co, k, true
}

var linMemo = map[*Term]*linCon{}

func linTerm(t *Term) (co map[*Term]*big.Int, k *big.Int) {
	switch op := arithOp(t); {
	case (op == "+" || op == "-") && len(t.Args) == 2:
		a, ka, ok1 := linForm(t.Args[0])
		b, kb, ok2 := linForm(t.Args[1])
		if ok1 && ok2 {
			f := big1
			if op == "-" {
				f = bigM1
			}
			return linAdd(a, b, f), new(big.Int).Add(ka, new(big.Int).Mul(kb, f))
		}
	case op == "neg" && len(t.Args) == 1:
		if a, ka, ok := linForm(t.Args[0]); ok {
			return linAdd(nil, a, bigM1), new(big.Int).Neg(ka)
		}
	case op == "*" && len(t.Args) == 2:
		for i := range t.Args {
			if c, ok := IntOf(t.Args[i]); ok {
				if a, ka, ok := linForm(t.Args[1-i]); ok {
					return linAdd(nil, a, c), new(big.Int).Mul(ka, c)
				}
			}
		}
		x, kx, ok1 := linForm(t.Args[0])
		y, ky, ok2 := linForm(t.Args[1])
		if ok1 && ok2 && (len(x) > 1 || len(y) > 1 || kx.Sign() != 0 || ky.Sign() != 0) && len(x)*len(y) <= 36 {
			// a sum of products
			co, k = linAdd(linAdd(nil, x, ky), y, kx), new(big.Int).Mul(kx, ky)
			for u, n := range x {
				for v, m := range y {
					co = linAdd(co, map[*Term]*big.Int{atom("*", u, v): big1}, new(big.Int).Mul(n, m))
				}
			}
			return co, k
		}
		a, m := factorArg(t.Args[0])
		b, n := factorArg(t.Args[1])
		return map[*Term]*big.Int{atom("*", a, b): m.Mul(m, n)}, new(big.Int)
	case (op == "/" || op == "%") && len(t.Args) == 2:
		// (-x)/y == x/(-y) == -(x/y), (-x)%y == -(x%y), x%(-y) == x%y
		a, m := signArg(t.Args[0])
		b, n := signArg(t.Args[1])
		if op == "/" {
			m *= n
		}
		return map[*Term]*big.Int{atom(op, a, b): big.NewInt(int64(m))}, new(big.Int)
	}
	return map[*Term]*big.Int{t: big1}, new(big.Int)
}

// ivl is the interval of a value as the arithmetic of its operands gives it.
func (s *State) ivl(v Val) (lo, hi *big.Int) {
	v = Strip(v)
	lo, hi = s.Interval(v)
	t, ok := v.(*Term)
	var lo0, hi0 *big.Int
	if ok && lo != nil {
		lo0, hi0 = lo, hi
		// constraints of this term alone
		for _, c := range s.lin {
			if len(c.co) != 1 {
				continue
			}
			n := c.co[t]
			if n == nil {
				continue
			}
			neg := new(big.Int).Neg(c.k)
			if n.Sign() > 0 || c.eq {
				b := new(big.Int).Abs(n)
				if l := ceilDiv(new(big.Int).Mul(neg, big.NewInt(int64(n.Sign()))), b); l.Cmp(lo) > 0 {
					lo = l
				}
			}
			if n.Sign() < 0 || c.eq {
				b := new(big.Int).Abs(n)
				if h := floorDiv(new(big.Int).Mul(neg, big.NewInt(int64(n.Sign()))), b); h.Cmp(hi) < 0 {
					hi = h
				}
			}
		}
	}
	if ok && lo != nil && lo.Cmp(hi) > 0 {
		return lo0, hi0 // contradictory
	}
	if !ok || len(t.Args) != 2 || lo == nil || !IsBig(t.T, "Int") {
		return
	}
	l1, h1 := s.ivl(t.Args[0])
	l2, h2 := s.ivl(t.Args[1])
	if l1 == nil || l2 == nil {
		return
	}
	meet := func(l, h *big.Int) {
		if l.Cmp(lo) > 0 {
			lo = l
		}
		if h.Cmp(hi) < 0 {
			hi = h
		}
	}
	abs := func(l, h *big.Int) *big.Int {
		m := new(big.Int).Abs(l)
		if n := new(big.Int).Abs(h); n.Cmp(m) > 0 {
			m = n
		}
		return m
	}
	switch t.Op {
	case "*":
		meet(ivArith("*", l1, h1, l2, h2))
	case "/":
		if l2.Sign() <= 0 && h2.Sign() >= 0 {
			m := abs(l1, h1)
			meet(new(big.Int).Neg(m), m)
			break
		}
		var l, h *big.Int
		for _, a := range []*big.Int{l1, h1} {
			for _, b := range []*big.Int{l2, h2} {
				if b.Sign() == 0 {
					return // contradictory
				}
				q := new(big.Int).Quo(a, b)
				if l == nil || q.Cmp(l) < 0 {
					l = q
				}
				if h == nil || q.Cmp(h) > 0 {
					h = q
				}
			}
		}
		meet(l, h)
	case "%":
		m := abs(l2, h2)
		m.Sub(m, big1)
		if n := abs(l1, h1); n.Cmp(m) < 0 {
			m = n
		}
		l, h := new(big.Int).Neg(m), m
		if l1.Sign() >= 0 {
			l = new(big.Int)
		}
		if h1.Sign() <= 0 {
			h = new(big.Int)
		}
		meet(l, h)
	}
	return
}

func (s *State) sign(v Val) int { // 1: >= 0, -1: <= 0, 0: unknown
	lo, hi := s.ivl(v)
	switch {
	case lo == nil:
	case lo.Sign() >= 0:
		return 1
	case hi.Sign() <= 0:
		return -1
	}
	t, ok := Strip(v).(*Term)
	if !ok || len(t.Args) == 0 {
		return 0
	}
	if co, k, ok := linForm(t); ok && co[t] == nil {
		// a sum of terms of the same sign
		r := k.Sign()
		for u, n := range co {
			m := s.sign(u) * n.Sign()
			if m == 0 || r*m < 0 {
				return 0
			}
			r = m
		}
		return r
	}
	if len(t.Args) == 2 && IsBig(t.T, "Int") {
		switch t.Op {
		case "*", "/":
			return s.sign(t.Args[0]) * s.sign(t.Args[1])
		case "%":
			return s.sign(t.Args[0])
		}
	}
	return 0
}

// tighten gives the interval of a factor, excluding end points the other constraints exclude.
func (s *State) tighten(v Val) (lo, hi *big.Int) {
	lo, hi = s.ivl(v)
	if lo == nil || inTighten || lo.CmpAbs(hi) == 0 {
		return
	}
	inTighten = true
	defer func() { inTighten = false }()
	if lo.CmpAbs(big1) <= 0 {
		for i := 0; i < 2; i++ {
			if c, ok := linRel(v, MkBig(BigInt, lo), LT|EQ); ok && !s.feasible(c) {
				lo = new(big.Int).Add(lo, big1)
			}
		}
	}
	if hi.CmpAbs(big1) <= 0 {
		for i := 0; i < 2; i++ {
			if c, ok := linRel(v, MkBig(BigInt, hi), GT|EQ); ok && !s.feasible(c) {
				hi = new(big.Int).Sub(hi, big1)
			}
		}
	}
	return
}

var inTighten bool

// linCmp makes the constraint a-b (>= or ==) d.
func linCmp(a, b Val, d int64, eq bool) (*linCon, bool) {
	x, kx, ok1 := linForm(a)
	y, ky, ok2 := linForm(b)
	if !ok1 || !ok2 {
		return nil, false
	}
	k := new(big.Int).Sub(kx, ky)
	return &linCon{co: linAdd(x, y, bigM1), k: k.Sub(k, big.NewInt(d)), eq: eq}, true
}

func linRel(a, b Val, r uint8) (*linCon, bool) {
	switch r {
	case LT:
		return linCmp(b, a, 1, false)
	case LT | EQ:
		return linCmp(b, a, 0, false)
	case EQ:
		return linCmp(a, b, 0, true)
	case GT | EQ:
		return linCmp(a, b, 0, false)
	case GT:
		return linCmp(a, b, 1, false)
	}
	return nil, false
}

func (s *State) addLin(c *linCon) {
	if len(c.co) == 0 {
		return
	}
	k := c.key()
	for _, o := range s.lin {
		if o.key() == k {
			return
		}
	}
	s.lin = append(s.lin[:len(s.lin):len(s.lin)], c)
}

// definitions gives the constraints that define a term.
func (s *State) definitions(t *Term) (out []*linCon) {
	huge := new(big.Int).Lsh(big1, 2048)
	if lo, hi := s.ivl(t); lo != nil {
		if lo.CmpAbs(huge) < 0 {
			out = append(out, &linCon{co: map[*Term]*big.Int{t: big1}, k: new(big.Int).Neg(lo)})
		}
		if hi.CmpAbs(huge) < 0 {
			out = append(out, &linCon{co: map[*Term]*big.Int{t: bigM1}, k: hi})
		}
	}
	sign := s.sign
	nonneg := func(v Val, f int, d int64) { // f*v >= d
		if a, k, ok := linForm(v); ok {
			ff := big.NewInt(int64(f))
			kk := new(big.Int).Mul(k, ff)
			out = append(out, &linCon{co: linAdd(nil, a, ff), k: kk.Sub(kk, big.NewInt(d))})
		}
	}
	rel := func(a, b Val, r uint8) {
		if c, ok := linRel(a, b, r); ok {
			out = append(out, c)
		}
	}
	if t.Op == "digit" {
		return // feasible adds the sum of all digits once
	}
	if len(t.Args) != 2 {
		return
	}
	a, b := Strip(t.Args[0]), Strip(t.Args[1])
	switch t.Op {
	case "/", "%":
		q, r := atom("/", a, b), atom("%", a, b)
		p := atom("*", q, b)
		// a == q*b + r
		if x, kx, ok := linForm(a); ok {
			y, ky, _ := linForm(p)
			co := linAdd(linAdd(x, y, bigM1), map[*Term]*big.Int{r: big1}, bigM1)
			out = append(out, &linCon{co: co, k: new(big.Int).Sub(kx, ky), eq: true})
		}
		sa, sb := sign(a), sign(b)
		if sa != 0 {
			nonneg(r, sa, 0)
			nonneg(p, sa, 0)
			if sb != 0 {
				nonneg(q, sa*sb, 0)
				// |q| <= |a|
				if x, k, ok := linForm(a); ok {
					f := big.NewInt(int64(sa))
					co := linAdd(linAdd(nil, x, f), map[*Term]*big.Int{q: big1}, big.NewInt(int64(-sa*sb)))
					out = append(out, &linCon{co: co, k: new(big.Int).Mul(k, f)})
				}
			}
		}
		// |r| < |b|
		bound := func(f int) { // f*r <= |b|-1
			x, k, ok := linForm(b)
			if !ok || sb == 0 {
				return
			}
			sbb := big.NewInt(int64(sb))
			co := linAdd(linAdd(nil, x, sbb), map[*Term]*big.Int{r: big1}, big.NewInt(int64(-f)))
			kk := new(big.Int).Mul(k, sbb)
			out = append(out, &linCon{co: co, k: kk.Sub(kk, big1)})
		}
		bound(1)
		bound(-1)
	case "*":
		sa, sb := sign(a), sign(b)
		if sa != 0 && sb != 0 {
			nonneg(t, sa*sb, 0)
		}
		// the convex hull of the product of two intervals
		l1, h1 := s.tighten(a)
		l2, h2 := s.tighten(b)
		x, kx, ok1 := linForm(a)
		y, ky, ok2 := linForm(b)
		if !ok1 || !ok2 || l1 == nil || l2 == nil {
			return
		}
		hull := func(c, d *big.Int, f int64) { // f*(a-c)*(b-d) >= 0
			if c.CmpAbs(huge) >= 0 || d.CmpAbs(huge) >= 0 {
				return
			}
			// p - d*a - c*b + c*d
			co := linAdd(map[*Term]*big.Int{t: big1}, x, new(big.Int).Neg(d))
			co = linAdd(co, y, new(big.Int).Neg(c))
			k := new(big.Int).Mul(c, d)
			k.Sub(k, new(big.Int).Mul(d, kx))
			k.Sub(k, new(big.Int).Mul(c, ky))
			ff := big.NewInt(f)
			out = append(out, &linCon{co: linAdd(nil, co, ff), k: k.Mul(k, ff)})
		}
		hull(l1, l2, 1)
		hull(h1, h2, 1)
		hull(l1, h2, -1)
		hull(h1, l2, -1)
	case "&":
		for _, pr := range [][2]Val{{a, b}, {b, a}} {
			c, ok := IntOf(pr[1])
			if !ok || c.Cmp(big1) != 0 {
				continue
			}
			// the lowest bit is the absolute value of the remainder by 2
			two := MkInt(BigInt, 2)
			switch x := pr[0]; sign(x) {
			case 1:
				rel(t, atom("%", x, two), EQ)
			case -1:
				if p, kp, ok := linForm(atom("%", x, two)); ok {
					out = append(out, &linCon{co: linAdd(map[*Term]*big.Int{t: big1}, p, big1), k: kp, eq: true})
				}
			}
		}
	case ">>":
		if c, ok := IntOf(b); ok && c.Sign() >= 0 && c.BitLen() < 8 {
			if x, k, ok := linForm(a); ok {
				m := new(big.Int).Lsh(big1, uint(c.Int64()))
				d := linAdd(x, map[*Term]*big.Int{t: big1}, new(big.Int).Neg(m)) // a - m*t
				out = append(out, &linCon{co: d, k: k})
				kk := new(big.Int).Sub(m, big1)
				out = append(out, &linCon{co: linAdd(nil, d, bigM1), k: kk.Sub(kk, k)})
			}
		}
	}
	return
}

var leafMemo = map[*Term][]*Term{}

func leavesOf(t *Term) []*Term {
	if l, ok := leafMemo[t]; ok {
		return l
	}
	var l []*Term
	Walk(t, func(v Val) bool {
		if u, ok := v.(*Term); ok && len(u.Args) == 0 {
			l = append(l, u)
		}
		return true
	})
	leafMemo[t] = l
	return l
}

func (c *linCon) shares(leaves map[*Term]bool) bool {
	for t := range c.co {
		for _, l := range leavesOf(t) {
			if leaves[l] {
				return true
			}
		}
	}
	return false
}

var polyMemo = map[string]bool{}

// feasible reports whether the state's constraints and the given ones may be satisfied together (false is definite).
func (s *State) feasible(cs ...*linCon) bool {
	atoms := map[*Term]bool{}
	var sys []*linCon
	var todo []*Term
	leaves := map[*Term]bool{}
	add := func(c *linCon) {
		sys = append(sys, c)
		for t := range c.co {
			if !atoms[t] {
				atoms[t] = true
				todo = append(todo, t)
				for _, l := range leavesOf(t) {
					leaves[l] = true
				}
			}
		}
	}
	for _, c := range cs {
		add(c)
	}
	// the definitions may use the signs that follow from the given constraints
	lin := s.lin
	s.lin = append(lin[:len(lin):len(lin)], cs...)
	defer func() { s.lin = lin }()
	used := make([]bool, len(lin))
	defs := 0
	sums := map[*Term]bool{}
	for len(todo) > 0 {
		t := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if defs < 120 {
			defs++
			for _, c := range s.definitions(t) {
				add(c)
			}
			if t.Op == "digit" {
				d := digit(t.Args[0], 0, int(mustInt(t.Args[2]))).(*Term)
				if !sums[d] {
					sums[d] = true
					for _, c := range s.digitDefs(d) {
						add(c)
					}
				}
			}
		}
		for i, c := range lin {
			if !used[i] && c.shares(leaves) {
				used[i] = true
				add(c)
			}
		}
	}
	for _, c := range cs {
		for _, d := range congruentProducts(c, atoms) {
			sys = append(sys, d)
		}
	}
	ks := make([]string, 0, len(sys))
	for _, c := range sys {
		ks = append(ks, c.key())
	}
	sort.Strings(ks)
	k := strings.Join(ks, ";")
	if r, ok := polyMemo[k]; ok {
		return r
	}
	r := fourierMotzkin(rowsOf(sys))
	if len(polyMemo) > 100000 {
		polyMemo = map[string]bool{}
	}
	polyMemo[k] = r
	return r
}

// congruentProducts gives equalities of the products of the terms a constraint equates.
func congruentProducts(c *linCon, atoms map[*Term]bool) (out []*linCon) {
	if !c.eq || len(c.co) != 2 || c.k.Sign() != 0 {
		return
	}
	var e []*Term
	sum := new(big.Int)
	for t, n := range c.co {
		if n.CmpAbs(big1) != 0 {
			return
		}
		e = append(e, t)
		sum.Add(sum, n)
	}
	f := bigM1 // of the second product
	if sum.Sign() != 0 {
		f = big1
	}
	products := make([]*Term, 0, len(atoms))
	for t := range atoms {
		if t.Op == "*" && len(t.Args) == 2 {
			products = append(products, t)
		}
	}
	sort.Slice(products, func(i, j int) bool { return products[i].id < products[j].id })
	for _, t := range products {
		for i, a := range t.Args {
			if a != Val(e[0]) {
				continue
			}
			if u := atom("*", e[1], t.Args[1-i]); u != t && atoms[u] {
				out = append(out, &linCon{co: map[*Term]*big.Int{t: big1, u: f}, k: new(big.Int), eq: true})
			}
		}
	}
	return
}

// polyRel removes the relations that the constraints exclude.
func (s *State) polyRel(a, b Val, r uint8) uint8 {
	if _, _, ok := linForm(a); !ok {
		return r
	}
	if _, _, ok := linForm(b); !ok {
		return r
	}
	for _, m := range []uint8{LT, EQ, GT} {
		if r&m == 0 {
			continue
		}
		if c, ok := linRel(a, b, m); ok && !s.feasible(c) {
			r &^= m
		}
	}
	return r
}

// polyArith evaluates integer arithmetic, big1 outcome per way of wrapping around.
func (x *Exec) polyArith(st *State, op token.Token, a, b Val, t types.Type, site string) (out []Outcome) {
	lo, hi := TypeRange(t)
	la, ka, ok1 := linForm(a)
	lb, kb, ok2 := linForm(b)
	if !ok1 || !ok2 || lo == nil || len(la) == 0 && len(lb) == 0 {
		return nil // constants wrap around when folded
	}
	leaf := func(s *State) *Term { return s.NewLeaf(t, "wrapped:"+site, false) }
	n := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
	split := func(co map[*Term]*big.Int, k *big.Int, exact Val, once bool) {
		within := []*linCon{{co: co, k: new(big.Int).Sub(k, lo)}, {co: linAdd(nil, co, bigM1), k: new(big.Int).Sub(hi, k)}}
		above := &linCon{co: co, k: new(big.Int).Sub(new(big.Int).Sub(k, hi), big1)}
		below := &linCon{co: linAdd(nil, co, bigM1), k: new(big.Int).Sub(new(big.Int).Sub(lo, big1), k)}
		abv, blw := st.feasible(above), st.feasible(below)
		if !abv && !blw {
			out = append(out, Outcome{St: st, Vals: []Val{exact}})
			return
		}
		wrap := func(c *linCon, d *big.Int, what string) {
			s := st.Clone()
			s.Event("%s %s", site, what)
			s.addLin(c)
			v := leaf(s)
			if once {
				// v == co + k + d
				s.addLin(&linCon{co: linAdd(co, map[*Term]*big.Int{v: big1}, bigM1), k: new(big.Int).Add(k, d), eq: true})
			} else {
				// at least one turn: co + k + d >= v when it overflows, <= v when it underflows
				f := big1
				if d.Sign() > 0 {
					f = bigM1
				}
				dd := new(big.Int).Add(k, d)
				s.addLin(&linCon{co: linAdd(nil, linAdd(co, map[*Term]*big.Int{v: big1}, bigM1), f), k: dd.Mul(dd, f)})
			}
			out = append(out, Outcome{St: s, Vals: []Val{v}})
		}
		if abv {
			wrap(above, new(big.Int).Neg(n), "overflows")
		}
		if blw {
			wrap(below, n, "underflows")
		}
		if st.feasible(within...) {
			for _, c := range within {
				st.addLin(c)
			}
			out = append(out, Outcome{St: st, Vals: []Val{exact}})
		}
	}
	switch op {
	case token.ADD:
		split(linAdd(la, lb, big1), new(big.Int).Add(ka, kb), st.Arith(op, a, b, t), true)
	case token.SUB:
		split(linAdd(la, lb, bigM1), new(big.Int).Sub(ka, kb), st.Arith(op, a, b, t), true)
	case token.MUL:
		switch {
		case len(la) == 0:
			split(linAdd(nil, lb, ka), new(big.Int).Mul(ka, kb), st.Arith(op, a, b, t), false)
		case len(lb) == 0:
			split(linAdd(nil, la, kb), new(big.Int).Mul(ka, kb), st.Arith(op, a, b, t), false)
		default:
			l1, h1 := st.Interval(Strip(a))
			l2, h2 := st.Interval(Strip(b))
			l, h := ivArith("*", l1, h1, l2, h2)
			// a product that is known already, as in (x/y)*y, does not wrap around if the definitions bound it
			p := mkTerm(t, "*", 0, false, a, b)
			co, k, _ := linForm(p)
			if (l.Cmp(lo) < 0 || h.Cmp(hi) > 0) && !st.boundedProduct(a, b) {
				split(co, k, p, false)
				break
			}
			out = append(out, Outcome{St: st, Vals: []Val{p}})
		}
	case token.QUO:
		// (x*y)/y, the product does not wrap around
		if p, ok := Strip(a).(*Term); ok && arithOp(p) == "*" && len(p.Args) == 2 {
			for i := range p.Args {
				if canonArg(p.Args[i]).K() == canonArg(b).K() && st.Rel(b, MkInt(t, 0))&EQ == 0 {
					return []Outcome{{St: st, Vals: []Val{p.Args[1-i]}}}
				}
			}
		}
		if lo.Sign() < 0 {
			am, ok1 := linRel(a, MkBig(t, lo), EQ)
			bm, ok2 := linRel(b, MkInt(t, -1), EQ)
			if ok1 && ok2 && st.feasible(am, bm) {
				s := st.Clone()
				s.Event("%s overflows", site)
				if s.SetRel(a, MkBig(t, lo), EQ) && s.SetRel(b, MkInt(t, -1), EQ) {
					out = append(out, Outcome{St: s, Vals: []Val{MkBig(t, lo)}})
				}
				// otherwise big1 of them differs
				s1 := st.Clone()
				if s1.SetRel(a, MkBig(t, lo), EQ) && s1.SetRel(b, MkInt(t, -1), LT|GT) {
					out = append(out, Outcome{St: s1, Vals: []Val{s1.Arith(op, a, b, t)}})
				}
				if st.SetRel(a, MkBig(t, lo), LT|GT) {
					out = append(out, Outcome{St: st, Vals: []Val{st.Arith(op, a, b, t)}})
				}
				return out
			}
		}
		return nil
	default:
		return nil
	}
	return out
}

// boundedProduct reports whether a*b is (x/b)*b or a*(x/a), whose magnitude is at most that of x.
func (s *State) boundedProduct(a, b Val) bool {
	for _, pr := range [][2]Val{{a, b}, {b, a}} {
		if t, ok := Strip(pr[0]).(*Term); ok && t.Op == "/" && Strip(t.Args[1]).K() == Strip(pr[1]).K() {
			return true
		}
	}
	return false
}

// polyConvert evaluates a conversion between integer types that may not preserve the value.
func (x *Exec) polyConvert(st *State, v Val, to types.Type, site string) (out []Outcome) {
	co, k, ok := linForm(v)
	lo, hi := TypeRange(to)
	if !ok || lo == nil {
		return nil
	}
	n := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
	within := []*linCon{{co: co, k: new(big.Int).Sub(k, lo)}, {co: linAdd(nil, co, bigM1), k: new(big.Int).Sub(hi, k)}}
	above := &linCon{co: co, k: new(big.Int).Sub(new(big.Int).Sub(k, hi), big1)}
	below := &linCon{co: linAdd(nil, co, bigM1), k: new(big.Int).Sub(new(big.Int).Sub(lo, big1), k)}
	for i, c := range []*linCon{above, below} {
		if !st.feasible(c) {
			continue
		}
		s := st.Clone()
		s.Event("%s wraps around", site)
		s.addLin(c)
		r := s.NewLeaf(to, "wrapped:"+site, false)
		// r == v - n*m for a positive or negative number m
		m := s.NewLeaf(types.Typ[types.Int64], "turns:"+site, false)
		if i == 0 {
			s.SetRange(m, big1, new(big.Int).Lsh(big1, 62))
		} else {
			s.SetRange(m, new(big.Int).Neg(new(big.Int).Lsh(big1, 62)), bigM1)
		}
		d := linAdd(linAdd(co, map[*Term]*big.Int{r: big1}, bigM1), map[*Term]*big.Int{m: big1}, new(big.Int).Neg(n))
		s.addLin(&linCon{co: d, k: k, eq: true})
		out = append(out, Outcome{St: s, Vals: []Val{r}})
	}
	if len(out) == 0 {
		return []Outcome{{St: st, Vals: []Val{polyCast(v, to)}}}
	}
	if st.feasible(within...) {
		for _, c := range within {
			st.addLin(c)
		}
		out = append(out, Outcome{St: st, Vals: []Val{polyCast(v, to)}})
	}
	return out
}

func polyCast(v Val, to types.Type) Val {
	s := Strip(v)
	if t := valType(s); t != nil && types.Identical(t, to) {
		return s
	}
	return App(to, "cv", s)
}

// rename renames the terms of the constraint, nil if it is about an aged term.
func (c *linCon) rename(sub *substituter) *linCon {
	ch := false
	co := make(map[*Term]*big.Int, len(c.co))
	for t, n := range c.co {
		v := sub.do(t)
		u, ok := v.(*Term)
		if !ok || IsOld(u) {
			return nil
		}
		if u != t {
			ch = true
		}
		if o := co[u]; o != nil {
			return nil
		}
		co[u] = n
	}
	if !ch {
		return c
	}
	return &linCon{co: co, k: c.k, eq: c.eq}
}

// polyOuts continues after an instruction with several outcomes.
func (x *Exec) polyOuts(st *State, i ssa.Value, outs []Outcome) bool {
	keep := false
	for _, o := range outs {
		o.St.top().PC++
		x.setLocal(o.St, i, o.Vals[0])
		if o.St == st {
			keep = true
		} else {
			x.fork(o.St)
		}
	}
	return keep
}

// DebugLin renders the linear constraints.
func (s *State) DebugLin() string {
	var l []string
	for _, c := range s.lin {
		l = append(l, c.key())
	}
	for _, e := range s.rels {
		l = append(l, e.a.K()+" "+string('0'+e.r)+" "+e.b.K())
	}
	return strings.Join(l, "\n")
}

func mustInt(v Val) int64 {
	i, _ := IntOf(v)
	return i.Int64()
}
