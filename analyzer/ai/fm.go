package ai

import (
	"math"
	"math/big"
	mbits "math/bits"
	"sort"
)

// num is an integer, small ones without allocation.
type num struct {
	s int64
	b *big.Int // if it does not fit
}

func toNum(i *big.Int) num {
	if i.IsInt64() && i.Int64() != math.MinInt64 {
		return num{s: i.Int64()}
	}
	return num{b: i}
}

func (a num) big() *big.Int {
	if a.b != nil {
		return a.b
	}
	return big.NewInt(a.s)
}

func (a num) sign() int {
	switch {
	case a.b != nil:
		return a.b.Sign()
	case a.s > 0:
		return 1
	case a.s < 0:
		return -1
	}
	return 0
}

func (a num) neg() num {
	if a.b != nil {
		return toNum(new(big.Int).Neg(a.b))
	}
	return num{s: -a.s}
}

func (a num) abs() num {
	if a.sign() < 0 {
		return a.neg()
	}
	return a
}

func (a num) mul(b num) num {
	if a.b == nil && b.b == nil {
		x, y := a.abs(), b.abs()
		if hi, lo := mbits.Mul64(uint64(x.s), uint64(y.s)); hi == 0 && lo <= math.MaxInt64 {
			if (a.s < 0) != (b.s < 0) {
				return num{s: -int64(lo)}
			}
			return num{s: int64(lo)}
		}
	}
	return toNum(new(big.Int).Mul(a.big(), b.big()))
}

func (a num) add(b num) num {
	if a.b == nil && b.b == nil {
		c := a.s + b.s
		if (c > a.s) == (b.s > 0) && c != math.MinInt64 {
			return num{s: c}
		}
	}
	return toNum(new(big.Int).Add(a.big(), b.big()))
}

func (a num) cmp(b num) int {
	if a.b == nil && b.b == nil {
		switch {
		case a.s < b.s:
			return -1
		case a.s > b.s:
			return 1
		}
		return 0
	}
	return a.big().Cmp(b.big())
}

func gcdNum(a, b num) num {
	if a.b == nil && b.b == nil {
		x, y := a.abs().s, b.abs().s
		for y != 0 {
			x, y = y, x%y
		}
		return num{s: x}
	}
	return toNum(new(big.Int).GCD(nil, nil, new(big.Int).Abs(a.big()), new(big.Int).Abs(b.big())))
}

// row is the constraint sum(c[i]*x[i]) + k >= 0 (or == 0).
type row struct {
	c  []num
	k  num
	eq bool
	// the congruences of the equality were used
	used bool
}

// norm divides by the greatest common divisor, rounding the constant as integers allow. sat is false if it cannot be
// satisfied, triv is true if it always is.
func (r *row) norm() (sat, triv bool) {
	var g num
	one := num{s: 1}
	for _, c := range r.c {
		if c.sign() != 0 {
			g = gcdNum(g, c)
			if g == one {
				return true, false
			}
		}
	}
	if g.sign() == 0 {
		if r.eq {
			return r.k.sign() == 0, true
		}
		return r.k.sign() >= 0, true
	}
	if r.eq {
		if new(big.Int).Rem(r.k.big(), g.big()).Sign() != 0 {
			return false, false
		}
	}
	for i, c := range r.c {
		if c.b == nil && g.b == nil {
			r.c[i].s = c.s / g.s
		} else {
			r.c[i] = toNum(new(big.Int).Quo(c.big(), g.big()))
		}
	}
	r.k = toNum(floorDiv(r.k.big(), g.big()))
	return true, false
}

func (r *row) appendKey(buf []byte) []byte {
	for i, c := range r.c {
		if c.sign() == 0 {
			continue
		}
		buf = append(buf, byte(i), byte(i>>8))
		buf = appendNum(buf, c)
	}
	if r.eq {
		buf = append(buf, '=')
	}
	return buf
}

func appendNum(buf []byte, c num) []byte {
	if c.b == nil {
		u := uint64(c.s)
		return append(buf, 0, byte(u), byte(u>>8), byte(u>>16), byte(u>>24), byte(u>>32), byte(u>>40), byte(u>>48), byte(u>>56))
	}
	b := c.b.Bytes()
	buf = append(buf, byte(2+c.b.Sign()), byte(len(b)), byte(len(b)>>8))
	return append(buf, b...)
}

// rowsOf makes rows of constraints over the variables in the order of their keys.
func rowsOf(sys []*linCon) []*row {
	idx := map[*Term]int{}
	var vs []*Term
	for _, c := range sys {
		for t := range c.co {
			if _, ok := idx[t]; !ok {
				idx[t] = 0
				vs = append(vs, t)
			}
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].k < vs[j].k })
	for i, t := range vs {
		idx[t] = i
	}
	rows := make([]*row, len(sys))
	for i, c := range sys {
		r := &row{c: make([]num, len(vs)), k: toNum(c.k), eq: c.eq}
		for t, n := range c.co {
			r.c[idx[t]] = toNum(n)
		}
		rows[i] = r
	}
	return rows
}

// combine is a*f + b*g.
func combine(a *row, f num, b *row, g num, eq bool) *row {
	r := &row{c: make([]num, len(a.c)), eq: eq}
	for i := range a.c {
		x, y := a.c[i], b.c[i]
		switch {
		case x.sign() == 0 && y.sign() == 0:
		case y.sign() == 0:
			r.c[i] = x.mul(f)
		case x.sign() == 0:
			r.c[i] = y.mul(g)
		default:
			r.c[i] = x.mul(f).add(y.mul(g))
		}
	}
	r.k = a.k.mul(f).add(b.k.mul(g))
	return r
}

// fmLimit is the number of constraints up to which variables are eliminated.
var fmLimit = 400

// fourierMotzkin reports whether the constraints may have an integer solution; false is definite.
func fourierMotzkin(sys []*row) bool {
	var buf []byte
	dedup := func(l []*row) ([]*row, bool) {
		// of constraints that differ only in the constant keep the strongest
		best := make(map[string]int, len(l))
		out := make([]*row, 0, len(l))
		for _, c := range l {
			sat, triv := c.norm()
			if !sat {
				return nil, false
			}
			if triv {
				continue
			}
			buf = c.appendKey(buf[:0])
			if i, ok := best[string(buf)]; ok {
				d := c.k.cmp(out[i].k)
				if c.eq && d != 0 {
					return nil, false
				}
				if d < 0 {
					out[i] = c
				}
				continue
			}
			best[string(buf)] = len(out)
			out = append(out, c)
		}
		return out, true
	}
	var ok bool
	var ineq []*row // when the equalities are eliminated
	for {
		if sys, ok = dedup(sys); !ok {
			return false
		}
		if len(sys) == 0 {
			return true
		}
		nv := len(sys[0].c)
		if add, sat := congruences(sys); !sat {
			return false
		} else if len(add) > 0 {
			sys = append(sys, add...)
			continue
		}
		// eliminate a variable of an equality with the smallest coefficient
		var eq *row
		v := -1
		var width []*big.Int
		wider := func(a, b int) int { // the variable with fewer limits, to keep small ones
			if width == nil {
				width = make([]*big.Int, nv)
				lo, hi := boxes(sys)
				for i := range lo {
					if lo[i] != nil && hi[i] != nil {
						width[i] = new(big.Int).Sub(hi[i], lo[i])
					}
				}
			}
			switch x, y := width[a], width[b]; {
			case x == nil && y == nil:
				return 0
			case x == nil:
				return 1
			case y == nil:
				return -1
			default:
				return x.Cmp(y)
			}
		}
		for _, c := range sys {
			if !c.eq {
				continue
			}
			for t, n := range c.c {
				if n.sign() == 0 {
					continue
				}
				if eq == nil {
					eq, v = c, t
					continue
				}
				d := n.abs().cmp(eq.c[v].abs())
				if d == 0 {
					d = wider(v, t)
				}
				if d < 0 || d == 0 && t < v {
					eq, v = c, t
				}
			}
		}
		if eq != nil {
			e := eq.c[v]
			n := make([]*row, 0, len(sys))
			for _, c := range sys {
				if c == eq {
					continue
				}
				f := c.c[v]
				if f.sign() == 0 {
					n = append(n, c)
					continue
				}
				// c*|e| - eq*f*sign(e)
				g := f.neg()
				if e.sign() < 0 {
					g = f
				}
				n = append(n, combine(c, e.abs(), eq, g, c.eq))
			}
			sys = n
			continue
		}
		// the variable that yields the fewest combinations
		pos, neg := make([]int, nv), make([]int, nv)
		for _, c := range sys {
			for t, n := range c.c {
				switch n.sign() {
				case 1:
					pos[t]++
				case -1:
					neg[t]++
				}
			}
		}
		v = -1
		cost := func(t int) int { return pos[t]*neg[t] - pos[t] - neg[t] }
		for t := range pos {
			if pos[t]+neg[t] > 0 && (v < 0 || cost(t) < cost(v)) {
				v = t
			}
		}
		var n, ps, ns []*row
		for _, c := range sys {
			switch c.c[v].sign() {
			case 0:
				n = append(n, c)
			case 1:
				ps = append(ps, c)
			default:
				ns = append(ns, c)
			}
		}
		if ineq == nil {
			ineq = sys
		}
		if len(ps)*len(ns)+len(n) > fmLimit {
			return simplexFeasible(ineq)
		}
		for _, p := range ps {
			for _, q := range ns {
				n = append(n, combine(p, q.c[v].neg(), q, p.c[v], false))
			}
		}
		sys = n
	}
}

// congruences splits equalities m*x + rest == 0: the rest is a multiple of m, and if its variables are bounded so that
// only one multiple is possible, it equals that.
func congruences(sys []*row) (add []*row, sat bool) {
	var lo, hi []*big.Int
	for _, e := range sys {
		if !e.eq || e.used {
			continue
		}
		e.used = true
		if lo == nil {
			lo, hi = boxes(sys)
		}
		seen := map[string]bool{}
		for _, mc := range e.c {
			m := mc.abs().big()
			if m.Cmp(big1) <= 0 || seen[m.String()] {
				continue
			}
			seen[m.String()] = true
			// the terms whose coefficient is not divisible
			l, h := new(big.Int), new(big.Int)
			rest := &row{c: make([]num, len(e.c)), eq: true}
			n, ok := 0, true
			for i, c := range e.c {
				if c.sign() == 0 || new(big.Int).Rem(c.big(), m).Sign() == 0 {
					continue
				}
				if lo[i] == nil || hi[i] == nil {
					ok = false
					break
				}
				n++
				rest.c[i] = c
				a, b := new(big.Int).Mul(c.big(), lo[i]), new(big.Int).Mul(c.big(), hi[i])
				if c.sign() < 0 {
					a, b = b, a
				}
				l.Add(l, a)
				h.Add(h, b)
			}
			if !ok {
				continue
			}
			k := new(big.Int).Mod(e.k.big(), m)
			l.Add(l, k)
			h.Add(h, k)
			// multiples of m in [l, h]
			first := new(big.Int).Neg(floorDiv(new(big.Int).Neg(l), m))
			last := floorDiv(h, m)
			switch first.Cmp(last) {
			case 1:
				return nil, false
			case 0:
				if n == 0 {
					continue
				}
				rest.k = toNum(new(big.Int).Sub(k, first.Mul(first, m)))
				add = append(add, rest)
			}
		}
	}
	return add, true
}

// boxes gives the limits of the variables that constraints of one variable set.
func boxes(sys []*row) (lo, hi []*big.Int) {
	lo, hi = make([]*big.Int, len(sys[0].c)), make([]*big.Int, len(sys[0].c))
	for _, r := range sys {
		v := -1
		for i, c := range r.c {
			if c.sign() != 0 {
				if v >= 0 {
					v = -2
					break
				}
				v = i
			}
		}
		if v < 0 {
			continue
		}
		// normalized: c is 1 or -1
		k := r.k.big()
		if r.c[v].sign() > 0 || r.eq {
			b := new(big.Int).Neg(k)
			if r.c[v].sign() < 0 {
				b = k
			}
			if lo[v] == nil || b.Cmp(lo[v]) > 0 {
				lo[v] = b
			}
		}
		if r.c[v].sign() < 0 || r.eq {
			b := k
			if r.c[v].sign() > 0 {
				b = new(big.Int).Neg(k)
			}
			if hi[v] == nil || b.Cmp(hi[v]) < 0 {
				hi[v] = b
			}
		}
	}
	return
}
