package main

import (
	"verif/analyzer/ai"
)

// Library functions modelled by Go code in the synthetic driver package, which is interpreted like the repository's
// own code. Functions whose name starts with zz and have a library entry are primitives of the interpreter.
var goModels = map[string]string{}

const drv = "github.com/bantling/micro/zzverifdriver."

// goModel registers a Go function as the model of library functions.
func goModel(src, name string, of ...string) {
	decl(src)
	for _, o := range of {
		goModels[o] = name
	}
}

func init() {
	decl("func zzLen(s any) int { return 0 }\nfunc zzSwap(s any, i, j int) {}\n")
	ai.Library[drv+"zzLen"] = func(x *ai.Exec, st *ai.State, c *ai.Call) []ai.Outcome {
		b, ok := c.Args[0].(*ai.Iface)
		if !ok {
			return nil
		}
		return []ai.Outcome{{St: st, Vals: []ai.Val{x.Len(st, b.V)}}}
	}
	ai.Library[drv+"zzSwap"] = func(x *ai.Exec, st *ai.State, c *ai.Call) []ai.Outcome {
		b, ok := c.Args[0].(*ai.Iface)
		if !ok {
			return nil
		}
		var out []ai.Outcome
		for _, v := range x.ElemAt(st, b.V, c.Args[1]) {
			for _, w := range x.ElemAt(st, b.V, c.Args[2]) {
				o := st.Clone()
				x.SetElem(o, b.V, c.Args[1], w)
				x.SetElem(o, b.V, c.Args[2], v)
				out = append(out, ai.Outcome{St: o})
			}
		}
		return out
	}
	goModel(`func zmSortSlice(s any, less func(i, j int) bool) {
	n := zzLen(s)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			zzSwap(s, j, j-1)
		}
	}
}`, "zmSortSlice", "sort.Slice", "sort.SliceStable")
	goModel(`type zmSortable interface { Len() int; Less(i, j int) bool; Swap(i, j int) }
func zmSort(s zmSortable) {
	n := s.Len()
	for i := 1; i < n; i++ {
		for j := i; j > 0 && s.Less(j, j-1); j-- {
			s.Swap(j, j-1)
		}
	}
}`, "zmSort", "sort.Sort", "sort.Stable")
}
