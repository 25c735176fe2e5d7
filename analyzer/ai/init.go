package ai

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Pinned evaluates NewLeaf while keeping args consistent with the renaming it may cause.
func (s *State) Pinned(args []Val, f func()) []Val {
	for i, a := range args {
		if a != nil {
			s.Mon["pin:"+itoa(i)] = a
		}
	}
	f()
	out := make([]Val, len(args))
	for i, a := range args {
		if a != nil {
			out[i] = s.Mon["pin:"+itoa(i)]
			delete(s.Mon, "pin:"+itoa(i))
		}
	}
	return out
}

// InitGlobals abstractly evaluates the package initialisers and returns a state whose immutable base heap holds the
// package variables. Package variables written outside initialisers are reported in mutable.
func InitGlobals(prog *ssa.Program, pkgs []*ssa.Package, inRepo func(*ssa.Function) bool, all map[*ssa.Function]bool) (*State, []string, error) {
	st := NewState()
	x := NewExec(prog, inRepo)
	x.SitePrefix = "init:"
	x.Model = func(x *Exec, st *State, c *Call) ([]Outcome, bool) {
		if c.Fn != nil && c.Fn.Name() == "init" && c.Fn.Signature.Recv() == nil && (c.Fn.Synthetic != "" || len(c.Fn.Blocks) == 0) && !inRepo(c.Fn) {
			return []Outcome{{St: st}}, true
		}
		return nil, false
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
	for _, p := range pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				pt := (&Ptr{Cell: CellID{Site: "g:" + g.String()}, T: deref(g.Type())})
				st.Heap[pt.Cell.K()] = &cell{id: pt.Cell, v: Zero(pt.T)}
			}
		}
	}
	for _, p := range pkgs {
		fn := p.Func("init")
		if fn == nil {
			continue
		}
		ex, err := x.Run(st, fn, nil, nil)
		if err != nil {
			return nil, nil, err
		}
		var ok []*State
		for _, e := range ex {
			if e.Panic == nil {
				ok = append(ok, e.St)
			}
		}
		if len(ok) != 1 {
			return nil, nil, &Undecided{"package initialiser of " + p.Pkg.Path() + " has several outcomes"}
		}
		st = ok[0]
		st.Trace = nil
	}
	out := NewState()
	out.Base = st.Heap
	for _, c := range st.Heap {
		for _, v := range alts(c.v) {
			Walk(v, func(y Val) bool {
				if t, ok := y.(*Term); ok && len(t.Args) == 0 {
					baseTerms[t.k] = true
				}
				return true
			})
		}
	}
	for t, f := range st.facts {
		out.facts[t] = f
	}
	var mut []string
	for fn := range all {
		if !inRepo(fn) || fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && !strings.Contains(g.Name(), "init$guard") {
						mut = append(mut, g.String()+" in "+fn.String())
					}
				}
			}
		}
	}
	sort.Strings(mut)
	return out, mut, nil
}
