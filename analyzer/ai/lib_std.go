package ai

import (
	"go/constant"
	"go/token"
	"go/types"
)

func one(st *State, v ...Val) []Outcome { return []Outcome{{St: st, Vals: v}} }

func init() {
	newErr := func(x *Exec, st *State, c *Call) []Outcome {
		return one(st, st.NewLeaf(c.Res.At(0).Type(), "err:"+c.Site, true))
	}
	Library["fmt.Errorf"] = newErr
	Library["errors.New"] = newErr
	Library["(*sync.Mutex).Lock"] = func(x *Exec, st *State, c *Call) []Outcome { return one(st) }
	Library["(*sync.Mutex).Unlock"] = Library["(*sync.Mutex).Lock"]
	Library["(*sync.RWMutex).Lock"] = Library["(*sync.Mutex).Lock"]
	Library["(*sync.RWMutex).Unlock"] = Library["(*sync.Mutex).Lock"]
	Library["(*sync.RWMutex).RLock"] = Library["(*sync.Mutex).Lock"]
	Library["(*sync.RWMutex).RUnlock"] = Library["(*sync.Mutex).Lock"]
	Library["math.NaN"] = func(x *Exec, st *State, c *Call) []Outcome {
		return one(st, Leaf(types.Typ[types.Float64], "NaN"))
	}
	_ = constant.MakeBool
	Library["math.Abs"] = func(x *Exec, st *State, c *Call) []Outcome {
		if _, ok := c.Args[0].(*Const); ok {
			return nil
		}
		if x.ExactAppend {
			v := c.Args[0]
			z := MkConst(types.Typ[types.Float64], constant.MakeFloat64(0))
			out := x.forkCond(st, x.Compare(st, token.LSS, v, z), func(st *State, neg bool) []Outcome {
				if neg {
					return one(st, App(types.Typ[types.Float64], "neg", v))
				}
				return one(st, v)
			})
			return out
		}
		return one(st, App(types.Typ[types.Float64], "absv", Strip(c.Args[0])))
	}
}
