package ai

import "go/types"

// reflect.MapIter: the iterator cell holds [map, key, value]; key nil means not positioned, map nil means exhausted.
func init() {
	Library["(reflect.Value).MapRange"] = func(x *Exec, st *State, c *Call) []Outcome {
		t, v, ok := RVParts(c.Args[0])
		if !ok {
			return nil
		}
		if _, ok := t.Underlying().(*types.Map); !ok {
			return []Outcome{{St: st, Panic: RuntimePanic("reflect MapRange of a value that is not a map")}}
		}
		pt := c.Res.At(0).Type().(*types.Pointer)
		nilm := &Nil{t}
		var id CellID
		pin := st.Pinned([]Val{v}, func() {
			id = st.NewCell("mapiter:"+c.Site, &Tuple{F: []Val{MkBool(true), v, nilm, nilm}})
		})
		st.SetContent(id, &Tuple{F: []Val{MkBool(true), pin[0], nilm, nilm}})
		return one(st, &Ptr{Cell: id, T: pt.Elem()})
	}
	iter := func(st *State, c *Call) (CellID, *Tuple) {
		p, ok := c.Args[0].(*Ptr)
		if !ok {
			return CellID{}, nil
		}
		t, _ := st.Content(p.Cell).(*Tuple)
		return p.Cell, t
	}
	Library["(*reflect.MapIter).Next"] = func(x *Exec, st *State, c *Call) []Outcome {
		if IsNil(c.Args[0]) {
			return []Outcome{{St: st, Panic: RuntimePanic("nil dereference")}}
		}
		id, t := iter(st, c)
		if t == nil {
			return nil
		}
		m := t.F[1]
		mt := typeOfVal(m).Underlying().(*types.Map)
		if !IsTrue(t.F[0]) {
			return []Outcome{{St: st, Panic: RuntimePanic("MapIter.Next called on exhausted iterator")}}
		}
		if ents, ok := x.exactEntries(st, m); ok {
			left := x.unvisited(st, ents, t.F[4:])
			if len(left) == 0 {
				st.SetContent(id, &Tuple{F: []Val{MkBool(false), m, &Nil{mt}, &Nil{mt}}})
				return one(st, MkBool(false))
			}
			var out []Outcome
			for _, w := range left {
				s := st.Clone()
				s.SetContent(id, &Tuple{F: append(append([]Val{MkBool(true), m, w.I, w.V}, t.F[4:]...), w.I)})
				out = append(out, Outcome{St: s, Vals: []Val{MkBool(true)}})
			}
			return out
		}
		end := st.Clone()
		end.SetContent(id, &Tuple{F: []Val{MkBool(false), m, &Nil{mt}, &Nil{mt}}})
		if x.OnMapIter != nil {
			x.OnMapIter(end, m, nil, nil)
		}
		out := []Outcome{{St: end, Vals: []Val{MkBool(false)}}}
		if st.Nilness(m) == 1 {
			return out
		}
		var k, v *Term
		pin := st.Pinned([]Val{m}, func() {
			k = st.NewLeaf(mt.Key(), "key:"+id.K(), false)
			v = st.NewLeaf(mt.Elem(), "val:"+id.K(), false)
		})
		st.SetContent(id, &Tuple{F: []Val{MkBool(true), pin[0], k, v}})
		if x.OnMapIter != nil {
			x.OnMapIter(st, pin[0], k, v)
		}
		return append(out, Outcome{St: st, Vals: []Val{MkBool(true)}})
	}
	get := func(i int) func(x *Exec, st *State, c *Call) []Outcome {
		return func(x *Exec, st *State, c *Call) []Outcome {
			_, t := iter(st, c)
			if t == nil {
				return nil
			}
			if IsNil(t.F[i]) && len(t.F) == 4 && (!IsTrue(t.F[0]) || IsNil(t.F[5-i])) {
				return []Outcome{{St: st, Panic: RuntimePanic("MapIter read without a current entry")}}
			}
			mt := typeOfVal(t.F[1]).Underlying().(*types.Map)
			et := mt.Key()
			if i == 3 {
				et = mt.Elem()
			}
			return one(st, MkRV(c.Res.At(0).Type(), et, t.F[i]))
		}
	}
	Library["(*reflect.MapIter).Key"] = get(2)
	Library["(*reflect.MapIter).Value"] = get(3)
}
