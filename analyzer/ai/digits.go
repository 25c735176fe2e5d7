package ai

import (
	"go/token"
	"go/types"
	"math/big"
)

// Digits makes the decimal text of integers a string of known length, whose characters are digit terms: digit(v, i, n)
// is the digit of 10^i of an integer of n digits. It needs the polyhedra domain.
var Digits bool

// Bytewise compares strings of known length byte by byte.
var Bytewise bool

var ten = big.NewInt(10)

func pow10(n int) *big.Int { return new(big.Int).Exp(ten, big.NewInt(int64(n)), nil) }

// digitArg is the integer of which digits are taken, without its sign.
func digitArg(v Val) Val {
	if co, k, ok := linForm(v); ok && k.Sign() == 0 && len(co) == 1 {
		for t, n := range co {
			if n.CmpAbs(big1) == 0 {
				return t
			}
		}
	}
	return Strip(v)
}

func digit(v Val, i, n int) Val {
	it := types.Typ[types.Int]
	return mkTerm(types.Typ[types.Byte], "digit", 0, false, v, MkInt(it, int64(i)), MkInt(it, int64(n)))
}

// digitDefs is the sum that the digits of an integer are.
func (s *State) digitDefs(t *Term) (out []*linCon) {
	n, ok := IntOf(t.Args[2])
	sg := s.sign(t.Args[0])
	co, k, ok2 := linForm(t.Args[0])
	if !ok || !ok2 || sg == 0 {
		return nil
	}
	f := big.NewInt(int64(-sg))
	sum := linAdd(nil, co, f)
	kk := new(big.Int).Mul(k, f)
	for i := 0; i < int(n.Int64()); i++ {
		sum = linAdd(sum, map[*Term]*big.Int{digit(t.Args[0], i, int(n.Int64())).(*Term): big1}, pow10(i))
	}
	return []*linCon{{co: sum, k: kk, eq: true}}
}

// fmtDigits forks on the sign and number of digits of an integer.
func (x *Exec) fmtDigits(st *State, v Val) []Outcome {
	str := types.Typ[types.String]
	if i, ok := IntOf(v); ok {
		return one(st, constStr(i.String()))
	}
	t := valType(v)
	text := func(st *State, neg bool) (out []Outcome) {
		w := digitArg(v)
		for n := 1; ; n++ {
			// is there an (n+1)th digit
			lim := pow10(n)
			less, op := Val(nil), token.LSS
			if neg {
				op, lim = token.GTR, lim.Neg(lim)
			}
			if lo, hi := TypeRange(t); lo != nil && (lim.Cmp(lo) < 0 || lim.Cmp(hi) > 0) {
				less = MkBool(true)
			} else {
				less = x.Compare(st, op, v, MkBig(t, lim))
			}
			if n > 400 {
				x.fail("integer without limit formatted")
				return out
			}
			y, no := x.Branch(st, less)
			if y != nil {
				// the limits of the integer without its sign change
				y.limitDigits(w, v, neg, n)
				var ps []Val
				if neg {
					ps = append(ps, constStr("-"))
				}
				for i := n - 1; i >= 0; i-- {
					b := App(types.Typ[types.Byte], "+", digit(w, i, n), MkInt(types.Typ[types.Byte], '0'))
					ps = append(ps, byteStr(str, b))
				}
				out = append(out, Outcome{St: y, Vals: []Val{Cat(str, ps...)}})
			}
			if no == nil {
				return out
			}
			st = no
		}
	}
	return x.forkCond(st, x.Compare(st, token.LSS, v, MkInt(t, 0)), text)
}

func constStr(s string) Val { return MkStr(s) }

// parseDigits is the integer that a string of known characters denotes, nil if unknown; valid is false if it is none.
func (x *Exec) parseDigits(st *State, s Val, signed bool) (v Val, valid bool) {
	bt := types.Typ[types.Byte]
	es := x.strElems(st, s, bt, true)
	if es == nil {
		return nil, false
	}
	neg := false
	if len(es) > 0 {
		if c, ok := IntOf(es[0]); ok && signed && (c.Int64() == '-' || c.Int64() == '+') {
			neg = c.Int64() == '-'
			es = es[1:]
		}
	}
	if len(es) == 0 {
		return nil, true
	}
	var sum Val
	for i, e := range es {
		lo, hi := st.Interval(e)
		if lo == nil {
			return nil, false
		}
		if hi.Int64() < '0' || lo.Int64() > '9' {
			return nil, true
		}
		if lo.Int64() < '0' || hi.Int64() > '9' {
			return nil, false
		}
		var d Val
		if c, ok := IntOf(e); ok {
			d = MkBig(BigInt, new(big.Int).Mul(big.NewInt(c.Int64()-'0'), pow10(len(es)-1-i)))
		} else {
			d = App(BigInt, "mul", App(BigInt, "sub", e, MkInt(BigInt, '0')), MkBig(BigInt, pow10(len(es)-1-i)))
		}
		if sum == nil {
			sum = d
		} else {
			sum = App(BigInt, "add", sum, d)
		}
	}
	if neg {
		sum = App(BigInt, "neg", sum)
	}
	return sum, true
}

// fmtInt is the text of an integer in a base.
func (x *Exec) fmtInt(st *State, v, base Val) []Outcome {
	if b, ok := IntOf(base); ok && Digits && b.Int64() == 10 {
		return x.fmtDigits(st, v)
	}
	return one(st, App(types.Typ[types.String], "fmtint", Strip(v), base))
}

// limitDigits records that |v| has n digits as limits of w, which is v or -v.
func (s *State) limitDigits(w, v Val, neg bool, n int) {
	if co, _, ok := linForm(v); ok {
		for t, c := range co {
			if t == w && c.Sign() < 0 {
				neg = !neg
			}
		}
	}
	lo, hi := pow10(n-1), pow10(n)
	if n == 1 {
		lo = new(big.Int)
	}
	a, b := uint8(GT|EQ), uint8(LT)
	if neg {
		lo.Neg(lo)
		hi.Neg(hi)
		a, b = LT|EQ, GT
	}
	t := valType(w)
	in := func(i *big.Int) bool {
		l, h := TypeRange(t)
		return l == nil || i.Cmp(l) >= 0 && i.Cmp(h) <= 0
	}
	if in(lo) {
		s.SetRel(w, MkBig(t, lo), a)
	}
	if in(hi) {
		s.SetRel(w, MkBig(t, hi), b)
	}
}
