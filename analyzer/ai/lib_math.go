package ai

import (
	"go/constant"
	"go/types"
	"math"
	"math/big"
)

// Constant folding of math and math/bits functions.

func floatOf(v Val) (float64, bool) {
	c, ok := v.(*Const)
	if !ok || c.V.Kind() != constant.Int && c.V.Kind() != constant.Float {
		return 0, false
	}
	f, _ := constant.Float64Val(c.V)
	return f, true
}

func mkFloat(t types.Type, f float64) Val {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return nil
	}
	return MkConst(t, constant.MakeFloat64(f))
}

func init() {
	f64 := types.Typ[types.Float64]
	un := map[string]func(float64) float64{"Round": math.Round, "Sqrt": math.Sqrt, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc,
		"Log2": math.Log2, "Log10": math.Log10, "RoundToEven": math.RoundToEven}
	for n, fn := range un {
		fn := fn
		Library["math."+n] = func(x *Exec, st *State, c *Call) []Outcome {
			if a, ok := floatOf(c.Args[0]); ok {
				if r := mkFloat(f64, fn(a)); r != nil {
					return one(st, r)
				}
			}
			return nil
		}
	}
	bin := map[string]func(a, b float64) float64{"Min": math.Min, "Max": math.Max, "Pow": math.Pow, "Mod": math.Mod}
	for n, fn := range bin {
		fn := fn
		Library["math."+n] = func(x *Exec, st *State, c *Call) []Outcome {
			a, ok1 := floatOf(c.Args[0])
			b, ok2 := floatOf(c.Args[1])
			if ok1 && ok2 {
				if r := mkFloat(f64, fn(a, b)); r != nil {
					return one(st, r)
				}
			}
			return nil
		}
	}
	Library["math/bits.Div"] = func(x *Exec, st *State, c *Call) []Outcome {
		var v [3]*big.Int
		for i := range v {
			n, ok := IntOf(c.Args[i])
			if !ok {
				return nil
			}
			v[i] = n
		}
		if v[2].Sign() == 0 || v[2].Cmp(v[0]) <= 0 {
			return []Outcome{{St: st, Panic: RuntimePanic("bits.Div overflow")}}
		}
		n := new(big.Int).Lsh(v[0], 64)
		n.Add(n, v[1])
		q, r := new(big.Int).QuoRem(n, v[2], new(big.Int))
		t := c.Res.At(0).Type()
		return one(st, MkBig(t, q), MkBig(t, r))
	}
	Library["math/bits.Div64"] = Library["math/bits.Div"]
}
