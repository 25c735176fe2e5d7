package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/analyzer/ai"
	"verif/analyzer/load"
)

// Check decides one property.
type Check struct {
	ID    string
	Title string
	Rule  string // the rule applied, for the evidence
	Min   int    // minimum number of obligations confirmed by hand
	Run   func(c *Ctx)
}

var checks []*Check

func register(c *Check) { checks = append(checks, c) }

// Failure is one violated or undecided obligation.
type Failure struct {
	Key  string `json:"obligation"`
	Msg  string `json:"message"`
	Pos  string `json:"position"`
	Path string `json:"path,omitempty"`
}

// Ctx is the state of one check run.
type Ctx struct {
	P        *load.Program
	All      map[*ssa.Function]bool
	Base     *ai.State
	Mutable  []string
	Thorough bool

	obl      map[string]bool // key -> ok
	order    []string
	fails    []Failure
	failKeys map[string]bool
	funcs    map[string]bool
	states   int
	steps    int
	pruned   int
	inst     map[string][]*ssa.Function
	notes    []string
}

// Obl records an obligation.
func (c *Ctx) Obl(key string, ok bool, pos token.Pos, format string, a ...any) {
	if _, seen := c.obl[key]; !seen {
		c.order = append(c.order, key)
		c.obl[key] = true
	}
	if !ok {
		c.obl[key] = false
		if c.failKeys[key] {
			return
		}
		c.failKeys[key] = true
		c.fails = append(c.fails, Failure{Key: key, Msg: fmt.Sprintf(format, a...), Pos: c.Pos(pos)})
	}
}

// Fail records a failed obligation with a path.
func (c *Ctx) FailPath(key string, pos token.Pos, path string, format string, a ...any) {
	c.Obl(key, false, pos, format, a...)
	for i := range c.fails {
		if c.fails[i].Key == key && c.fails[i].Path == "" {
			c.fails[i].Path = path
		}
	}
}

// Either runs equivalent variants of a specification until one of them holds; if none does, the failures of the first
// are kept.
func (c *Ctx) Either(run func(variant int), n int) {
	type snap struct {
		obl, failKeys map[string]bool
		order         []string
		fails         []Failure
	}
	save := func() snap {
		s := snap{map[string]bool{}, map[string]bool{}, append([]string(nil), c.order...), append([]Failure(nil), c.fails...)}
		for k, v := range c.obl {
			s.obl[k] = v
		}
		for k, v := range c.failKeys {
			s.failKeys[k] = v
		}
		return s
	}
	restore := func(s snap) { c.obl, c.failKeys, c.order, c.fails = s.obl, s.failKeys, s.order, s.fails }
	base := save()
	var first snap
	for i := 0; i < n; i++ {
		if i > 0 {
			restore(base)
			base = save()
		}
		run(i)
		if len(c.fails) == len(base.fails) {
			return
		}
		if i == 0 {
			first = save()
		}
	}
	restore(first)
}

// OK records a satisfied obligation.
func (c *Ctx) OK(key string) { c.Obl(key, true, token.NoPos, "") }

// Pos renders a position relative to the repository.
func (c *Ctx) Pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := c.P.Fset.Position(p)
	rel, err := filepath.Rel(c.P.Repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// InRepo reports whether a function's body is part of the analysed module.
func (c *Ctx) InRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		if fn.Parent() != nil {
			return c.InRepo(fn.Parent())
		}
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return strings.HasPrefix(fn.Object().Pkg().Path(), c.P.Module)
		}
		return len(fn.Blocks) > 0 && fn.Synthetic != ""
	}
	return strings.HasPrefix(p.Pkg.Path(), c.P.Module)
}

// Exec makes an executor.
func (c *Ctx) Exec() *ai.Exec {
	x := ai.NewExec(c.P.SSA, c.InRepo)
	x.Redirect = map[string]*ssa.Function{}
	for n, f := range goModels {
		x.Redirect[n] = c.P.Driver.Func(f)
	}
	x.RedirectStr = map[string]*ssa.Function{}
	for n, f := range strModels {
		x.RedirectStr[n] = c.P.Driver.Func(f)
	}
	return x
}

// Done accumulates the executor's statistics.
func (c *Ctx) Done(x *ai.Exec) {
	c.states += x.States
	c.steps += x.Steps()
	c.pruned += x.Pruned
	for f := range x.Inlined {
		c.funcs[f] = true
	}
}

// State returns a fresh initial state.
func (c *Ctx) State() *ai.State { return c.Base.Clone() }

// Inst finds the instance of generic function pkg.name (or method "Type.Method") with the given type arguments.
func (c *Ctx) Inst(pkg, name string, targs ...types.Type) *ssa.Function {
	if c.inst == nil {
		c.inst = map[string][]*ssa.Function{}
		for fn := range c.All {
			if fn.Origin() != nil && fn.Origin() != fn && fn.Synthetic == "instance of "+fn.Origin().String() || (fn.Origin() != nil && fn.Origin() != fn && len(fn.TypeArgs()) > 0) {
				k := fn.Origin().String()
				c.inst[k] = append(c.inst[k], fn)
			}
		}
	}
	o := c.Func(pkg, name)
	if o == nil {
		return nil
	}
	for _, fn := range c.inst[o.String()] {
		ta := fn.TypeArgs()
		if len(ta) != len(targs) {
			continue
		}
		ok := true
		for i := range ta {
			if !types.Identical(ta[i], targs[i]) {
				ok = false
			}
		}
		if ok {
			return fn
		}
	}
	return nil
}

// Insts lists all instances of a generic function.
func (c *Ctx) Insts(pkg, name string) []*ssa.Function {
	c.Inst(pkg, name)
	o := c.Func(pkg, name)
	if o == nil {
		return nil
	}
	l := append([]*ssa.Function(nil), c.inst[o.String()]...)
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

// Func finds a package-level function.
func (c *Ctx) Func(pkg, name string) *ssa.Function {
	p := c.P.ByPath[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// Method finds a method of a named type, through pointer or value receiver.
func (c *Ctx) Method(pkg, typ, name string) *ssa.Function {
	p := c.P.ByPath[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	for _, r := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		if m := c.P.SSA.LookupMethod(r, p.Pkg, name); m != nil && m.Synthetic == "" {
			return m
		}
	}
	return nil
}

// Type finds a named type.
func (c *Ctx) Type(pkg, name string) types.Type {
	p := c.P.ByPath[pkg]
	if p == nil || p.Type(name) == nil {
		return nil
	}
	return p.Type(name).Type()
}

// DriverType finds a type of the synthetic driver package.
func (c *Ctx) DriverType(name string) types.Type { return c.P.Driver.Type(name).Type() }

// Need fails the check if an anchor cannot be resolved.
func (c *Ctx) Need(fn *ssa.Function, what string) bool {
	if fn == nil {
		c.Obl("anchor:"+what, false, token.NoPos, "anchor %s cannot be resolved in the current source", what)
		return false
	}
	return true
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions,omitempty"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func known(verif, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" ")
		// obligation=<key> | text
		parts := strings.SplitN(rest, " | ", 2)
		k := strings.TrimPrefix(parts[0], "obligation=")
		txt := ""
		if len(parts) > 1 {
			txt = parts[1]
		}
		out[k] = txt
	}
	return out
}

func newCtx(repo string, thorough bool) (*Ctx, error) {
	p, err := load.Load(repo, driverSource())
	if err != nil {
		return nil, err
	}
	c := &Ctx{P: p, Thorough: thorough, obl: map[string]bool{}, failKeys: map[string]bool{}, funcs: map[string]bool{}}
	ai.SetBigTypes(p.SSA.ImportedPackage("math/big").Pkg)
	c.All = ssautil.AllFunctions(p.SSA)
	// instances of generic functions only reachable through the driver are included by AllFunctions
	var pk []*ssa.Package
	for _, q := range p.ByPath {
		pk = append(pk, q)
	}
	base, mut, err := ai.InitGlobals(p.SSA, pk, c.InRepo, c.All)
	if err != nil {
		return nil, err
	}
	c.Base, c.Mutable = base, mut
	return c, nil
}

func runCheck(ch *Check, c *Ctx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VERIF_DEBUG") != "" {
				panic(r)
			}
			err = fmt.Errorf("analysis panic: %v", r)
		}
	}()
	ch.Run(c)
	if !ranLaws {
		runLaws(c, ch.ID)
	}
	return nil
}

func report(ch *Check, c *Ctx, err error, verif, tier string, start time.Time) int {
	kn := known(verif, ch.ID)
	var viol []Failure
	var knownHit []string
	if err != nil {
		viol = append(viol, Failure{Key: "analysis", Msg: err.Error()})
	}
	nobl, nok := 0, 0
	funcs := []string{}
	var sample []string
	if c != nil {
		sort.SliceStable(c.fails, func(i, j int) bool { return c.fails[i].Key < c.fails[j].Key })
		for _, f := range c.fails {
			if txt, ok := kn[f.Key]; ok {
				knownHit = append(knownHit, f.Key+" "+txt)
				continue
			}
			viol = append(viol, f)
		}
		nobl = len(c.order)
		for _, k := range c.order {
			if c.obl[k] {
				nok++
			}
		}
		for f := range c.funcs {
			funcs = append(funcs, f)
		}
		sort.Strings(funcs)
		for i, k := range c.order {
			if i%(1+len(c.order)/12) == 0 {
				st := "holds"
				if !c.obl[k] {
					st = "fails"
				}
				sample = append(sample, k+": "+st)
			}
		}
		if err == nil && nobl < ch.Min {
			viol = append(viol, Failure{Key: "instance-count", Msg: fmt.Sprintf("only %d obligations found, at least %d expected: anchors were lost", nobl, ch.Min)})
		}
	}
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, k)
	}
	for _, f := range viol {
		fmt.Printf("  [%s] %s %s\n", f.Key, f.Pos, f.Msg)
		if f.Path != "" {
			fmt.Printf("      path: %s\n", f.Path)
		}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	cov := map[string]any{
		"explanation":         "Static analysis of /repo's current source (go/types + go/ssa, generic API instantiated by a synthetic in-memory package). Rule: " + ch.Rule,
		"obligations_checked": nobl,
		"obligations_held":    nok,
		"samples":             sample,
		"exhaustive":          false,
	}
	if c != nil {
		cov["functions_analysed"] = len(funcs)
		if len(funcs) > 60 {
			cov["function_sample"] = funcs[:60]
		} else {
			cov["function_sample"] = funcs
		}
		cov["abstract_states"] = c.states
		cov["states_subsumed_at_loop_heads"] = c.pruned
		cov["known_findings_seen"] = len(knownHit)
		if len(c.notes) > 0 {
			cov["notes"] = c.notes
		}
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ev := evidence{Property: ch.ID, Tier: tier, Seed: seed, Level: "other", Coverage: cov, WallS: time.Since(start).Seconds(), Violations: len(viol),
		Assumptions: []string{"package variables are not modified after initialisation except where the analysis says otherwise", "models of the standard library functions named in /verif/analyzer/ai/lib_*.go"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", ch.ID+".json"), append(b, '\n'), 0o644)
	if len(viol) > 0 {
		rp := filepath.Join(verif, "evidence", ch.ID+".violation.json")
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, rp)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d functions=%d states=%d known=%d wall=%.1fs\n", ch.ID, nobl, len(funcs), c.states, len(knownHit), time.Since(start).Seconds())
	return 0
}
