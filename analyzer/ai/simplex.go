package ai

import "math/big"

// simplexFeasible reports whether inequalities have a rational solution; unlike the elimination of variables it does
// not grow, but it does not round as integers allow.
func simplexFeasible(sys []*row) bool {
	if len(sys) == 0 {
		return true
	}
	nv := len(sys[0].c)
	lo, hi := boxes(sys)
	// variables: the structural ones, then a slack per row of several variables
	var rows [][]*big.Rat // of the basic variables, over the nonbasic ones
	type bound struct{ lo, hi *big.Rat }
	bounds := make([]bound, nv)
	for i := range bounds {
		if lo[i] != nil {
			bounds[i].lo = new(big.Rat).SetInt(lo[i])
		}
		if hi[i] != nil {
			bounds[i].hi = new(big.Rat).SetInt(hi[i])
		}
		if lo[i] != nil && hi[i] != nil && lo[i].Cmp(hi[i]) > 0 {
			return false
		}
	}
	for _, r := range sys {
		n := 0
		for _, c := range r.c {
			if c.sign() != 0 {
				n++
			}
		}
		if n < 2 {
			continue
		}
		cs := make([]*big.Rat, nv)
		for i, c := range r.c {
			cs[i] = new(big.Rat).SetInt(c.big())
		}
		rows = append(rows, cs)
		bounds = append(bounds, bound{lo: new(big.Rat).SetInt(new(big.Int).Neg(r.k.big()))})
	}
	m := len(rows)
	basic, nonbasic := make([]int, m), make([]int, nv)
	val := make([]*big.Rat, nv+m)
	for j := range nonbasic {
		nonbasic[j] = j
		val[j] = new(big.Rat)
		switch b := bounds[j]; {
		case b.lo != nil && b.lo.Sign() > 0:
			val[j].Set(b.lo)
		case b.hi != nil && b.hi.Sign() < 0:
			val[j].Set(b.hi)
		}
	}
	t := new(big.Rat)
	for i, r := range rows {
		basic[i] = nv + i
		v := new(big.Rat)
		for j, c := range r {
			if c.Sign() != 0 {
				v.Add(v, t.Mul(c, val[j]))
			}
		}
		val[nv+i] = v
	}
	for steps := 0; steps < 2000; steps++ {
		// Bland's rule: the smallest variable outside its bounds, exchanged with the smallest that can correct it
		bi := -1
		up := false
		for i, v := range basic {
			b := bounds[v]
			low := b.lo != nil && val[v].Cmp(b.lo) < 0
			high := b.hi != nil && val[v].Cmp(b.hi) > 0
			if (low || high) && (bi < 0 || v < basic[bi]) {
				bi, up = i, low
			}
		}
		if bi < 0 {
			return true
		}
		r := rows[bi]
		nj := -1
		for j, v := range nonbasic {
			if r[j].Sign() == 0 {
				continue
			}
			b := bounds[v]
			inc := (r[j].Sign() > 0) == up
			if inc && b.hi != nil && val[v].Cmp(b.hi) >= 0 || !inc && b.lo != nil && val[v].Cmp(b.lo) <= 0 {
				continue
			}
			if nj < 0 || v < nonbasic[nj] {
				nj = j
			}
		}
		if nj < 0 {
			return false
		}
		// move the basic variable to its bound and exchange them
		x, y := basic[bi], nonbasic[nj]
		target := bounds[x].lo
		if !up {
			target = bounds[x].hi
		}
		d := new(big.Rat).Sub(target, val[x])
		d.Quo(d, r[nj])
		val[y].Add(val[y], d)
		val[x].Set(target)
		for i, o := range rows {
			if i != bi && o[nj].Sign() != 0 {
				val[basic[i]].Add(val[basic[i]], t.Mul(o[nj], d))
			}
		}
		// x = r[nj]*y + rest  =>  y = x/r[nj] - rest/r[nj]
		inv := new(big.Rat).Inv(r[nj])
		neg := new(big.Rat).Neg(inv)
		nr := make([]*big.Rat, nv)
		for j := range r {
			if j == nj {
				nr[j] = inv
			} else {
				nr[j] = new(big.Rat).Mul(r[j], neg)
			}
		}
		for i, o := range rows {
			if i == bi || o[nj].Sign() == 0 {
				continue
			}
			c := new(big.Rat).Set(o[nj])
			for j := range o {
				if j == nj {
					o[j] = new(big.Rat).Mul(c, nr[j])
				} else if nr[j].Sign() != 0 {
					o[j] = new(big.Rat).Add(o[j], t.Mul(c, nr[j]))
				}
			}
		}
		rows[bi] = nr
		basic[bi], nonbasic[nj] = y, x
	}
	return true // unknown
}
