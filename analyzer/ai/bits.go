package ai

import (
	"math/big"
	"strings"
)

// Bit is one bit of a value: a constant, bit I of a leaf, or unknown.
type Bit struct {
	C    int8 // 0 or 1 if constant
	Leaf *Term
	I    int
	Unk  bool
}

func (b Bit) isConst() bool { return b.Leaf == nil && !b.Unk }

func (b Bit) same(c Bit) bool { return !b.Unk && b == c }

var bitTerm = map[*Term]bool{}

// bitwise reports whether a term is built with bit operations, so that its bits are worth following.
func bitwise(v Val) bool {
	t, ok := v.(*Term)
	if !ok {
		return false
	}
	if b, ok := bitTerm[t]; ok {
		return b
	}
	r := false
	switch t.Op {
	case "&", "|", "^", "<<", ">>", "&^", "compl":
		r = true
	case "cv", "wrap", "+", "*", "-", "/", "%", "shallow":
		for _, a := range t.Args {
			r = r || bitwise(a)
		}
	default:
		r = strings.HasPrefix(t.Op, "bits:")
	}
	r = r && isInt(t.T)
	bitTerm[t] = r
	return r
}

// Bits gives the bits of an integer value, least significant first.
func (s *State) Bits(v Val) []Bit {
	switch x := v.(type) {
	case *Const:
		i, ok := IntOf(x)
		n, sg := bits(x.T)
		if !ok || n == 0 {
			return nil
		}
		_ = sg
		m := new(big.Int).Set(i)
		if m.Sign() < 0 {
			m.Add(m, new(big.Int).Lsh(big.NewInt(1), n))
		}
		out := make([]Bit, n)
		for k := range out {
			out[k].C = int8(m.Bit(k))
		}
		return out
	case *Term:
		n, _ := bits(x.T)
		if n == 0 || !isInt(x.T) || x.old {
			return nil
		}
		if r := s.opBits(x, int(n)); r != nil {
			return r
		}
		out := make([]Bit, n)
		for k := range out {
			out[k] = Bit{Leaf: x, I: k}
		}
		if strings.HasPrefix(x.Op, "bits:") {
			p := strings.SplitN(x.Op, ":", 3)[1]
			for k := range out {
				if j := len(p) - 1 - k; j >= 0 && p[j] != 'x' {
					out[k] = Bit{C: int8(p[j] - '0')}
				}
			}
			return out
		}
		if f := s.facts[x]; isUnsigned(x.T) && f.Hi != nil || f.Lo != nil && f.Lo.Sign() >= 0 && f.Hi != nil {
			for k := f.Hi.BitLen(); k < int(n); k++ {
				out[k] = Bit{}
			}
		}
		return out
	}
	return nil
}

func (s *State) opBits(x *Term, n int) []Bit {
	arg := func(i int) []Bit { return s.Bits(x.Args[i]) }
	un := Bit{Unk: true}
	out := make([]Bit, n)
	switch x.Op {
	case "shallow":
		return arg(0)
	case "cv", "wrap":
		if len(x.Args) != 1 {
			return nil
		}
		t := valType(x.Args[0])
		if t == nil || !isInt(t) {
			return nil
		}
		a := arg(0)
		if a == nil {
			return nil
		}
		for k := range out {
			switch {
			case k < len(a):
				out[k] = a[k]
			case !isUnsigned(t):
				out[k] = a[len(a)-1]
			}
		}
		return out
	case "compl":
		a := arg(0)
		if len(a) != n {
			return nil
		}
		for k := range out {
			if a[k].isConst() {
				out[k].C = 1 - a[k].C
			} else {
				out[k] = un
			}
		}
		return out
	case "&", "|", "^", "&^", "+":
		if len(x.Args) != 2 {
			return nil
		}
		a, b := arg(0), arg(1)
		if len(a) != n || len(b) != n {
			return nil
		}
		for k := range out {
			p, q := a[k], b[k]
			zero := func(b Bit) bool { return b.isConst() && b.C == 0 }
			one := func(b Bit) bool { return b.isConst() && b.C == 1 }
			switch x.Op {
			case "&^", "&":
				if x.Op == "&^" {
					if q.isConst() {
						q.C = 1 - q.C
					} else {
						if zero(p) {
							q = Bit{}
						} else {
							q = un
						}
					}
				}
				switch {
				case zero(p) || zero(q):
				case one(p):
					out[k] = q
				case one(q) || p.same(q):
					out[k] = p
				default:
					out[k] = un
				}
			case "|":
				switch {
				case one(p) || one(q):
					out[k].C = 1
				case zero(p):
					out[k] = q
				case zero(q) || p.same(q):
					out[k] = p
				default:
					out[k] = un
				}
			case "^":
				switch {
				case zero(p):
					out[k] = q
				case zero(q):
					out[k] = p
				case p.isConst() && q.isConst():
					out[k].C = p.C ^ q.C
				case p.same(q):
				default:
					out[k] = un
				}
			case "+":
				switch {
				case zero(p):
					out[k] = q
				case zero(q):
					out[k] = p
				default:
					return nil // carries
				}
			}
		}
		return out
	case "<<", ">>", "*", "/", "%":
		if len(x.Args) != 2 {
			return nil
		}
		c, ok := IntOf(x.Args[1])
		a := arg(0)
		if !ok || len(a) != n || c.Sign() < 0 {
			return nil
		}
		op := x.Op
		d := 0
		if op == "<<" || op == ">>" {
			if c.Cmp(big.NewInt(64)) > 0 {
				c = big.NewInt(64)
			}
			d = int(c.Int64())
		} else {
			if c.Sign() == 0 || new(big.Int).And(c, new(big.Int).Sub(c, big.NewInt(1))).Sign() != 0 {
				return nil
			}
			d = c.BitLen() - 1
			if op != "*" && !isUnsigned(x.T) && !(a[n-1].isConst() && a[n-1].C == 0) {
				return nil
			}
			op = map[string]string{"*": "<<", "/": ">>", "%": "%"}[op]
		}
		for k := range out {
			switch op {
			case "<<":
				if k-d >= 0 {
					out[k] = a[k-d]
				}
			case ">>":
				if k+d < n {
					out[k] = a[k+d]
				} else if !isUnsigned(x.T) {
					out[k] = a[n-1]
				}
			case "%":
				if k < d {
					out[k] = a[k]
				}
			}
		}
		return out
	}
	return nil
}

// foldBits turns a value all of whose bits are known into a constant.
func (s *State) foldBits(v Val) Val {
	if !bitwise(v) {
		return v
	}
	t := v.(*Term)
	b := s.Bits(t)
	if b == nil {
		return v
	}
	r := new(big.Int)
	for k, c := range b {
		if !c.isConst() {
			return v
		}
		if c.C == 1 {
			r.SetBit(r, k, 1)
		}
	}
	return MkBig(t.T, wrapInt(r, t.T))
}

// bitRange gives the smallest and largest value the bits allow.
func (s *State) bitRange(t *Term) (lo, hi *big.Int) {
	b := s.Bits(t)
	if b == nil {
		return nil, nil
	}
	lo, hi = new(big.Int), new(big.Int)
	for k, c := range b {
		sign := k == len(b)-1 && !isUnsigned(t.T)
		w := new(big.Int).Lsh(big.NewInt(1), uint(k))
		if sign {
			w.Neg(w)
		}
		switch {
		case c.isConst():
			if c.C == 1 {
				lo.Add(lo, w)
				hi.Add(hi, w)
			}
		case sign:
			lo.Add(lo, w)
		default:
			hi.Add(hi, w)
		}
	}
	return
}

// relBits compares bits: EQ if they are the same, 0 if nothing is known, LT|GT if they differ.
func (s *State) relBits(a, b Val) uint8 {
	if !bitwise(a) && !bitwise(b) {
		return 0
	}
	ta, tb := valType(a), valType(b)
	if ta == nil || tb == nil || !isInt(ta) || !isInt(tb) {
		return 0
	}
	p, q := s.Bits(a), s.Bits(b)
	if p == nil || q == nil {
		return 0
	}
	ext := func(p []Bit, uns bool, k int) Bit {
		if k < len(p) {
			return p[k]
		}
		if uns {
			return Bit{}
		}
		return p[len(p)-1]
	}
	eq := true
	for k := 0; k < 65; k++ {
		x, y := ext(p, isUnsigned(ta), k), ext(q, isUnsigned(tb), k)
		if x.isConst() && y.isConst() && x.C != y.C {
			return LT | GT
		}
		if !x.same(y) {
			eq = false
		}
	}
	if eq {
		return EQ
	}
	return 0
}
