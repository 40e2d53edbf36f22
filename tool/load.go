package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Loaded is the resolved program under analysis.
type Loaded struct {
	fset      *token.FileSet
	pkg       *types.Package
	ppkg      *packages.Package
	prog      *ssa.Program
	ssapkg    *ssa.Package
	rendererT types.Type
	visitable *types.Interface
	fns       []*API // exported functions and methods
}

// API is one exported entry point.
type API struct {
	name string // "Func" or "Type.Method"
	fn   *ssa.Function
	recv types.Type // receiver type as declared (pointer or value), nil for functions
	sig  *types.Signature
}

func loadRepo(dir string) (*Loaded, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: env}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 || len(ps[0].Errors) > 0 {
		return nil, fmt.Errorf("package does not load: %v", ps[0].Errors)
	}
	prog, pk := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	l := &Loaded{fset: ps[0].Fset, pkg: ps[0].Types, ppkg: ps[0], prog: prog, ssapkg: pk[0]}
	if o := l.pkg.Scope().Lookup("CypherRenderer"); o != nil {
		l.rendererT = o.Type()
	} else {
		return nil, fmt.Errorf("anchor type CypherRenderer not found")
	}
	vi := l.pkg.Scope().Lookup("Visitable")
	if vi == nil {
		return nil, fmt.Errorf("anchor interface Visitable not found")
	}
	l.visitable = vi.Type().Underlying().(*types.Interface)
	l.collect()
	return l, nil
}

func (l *Loaded) iface(name string) types.Type {
	o := l.pkg.Scope().Lookup(name)
	if o == nil {
		panic("anchor interface " + name + " not found")
	}
	return o.Type()
}

func (l *Loaded) named(name string) *types.Named {
	if o, ok := l.pkg.Scope().Lookup(name).(*types.TypeName); ok {
		if n, ok := o.Type().(*types.Named); ok {
			return n
		}
	}
	return nil
}

func (l *Loaded) collect() {
	sc := l.pkg.Scope()
	for _, n := range sc.Names() {
		switch o := sc.Lookup(n).(type) {
		case *types.Func:
			if o.Exported() {
				l.fns = append(l.fns, &API{name: n, fn: l.prog.FuncValue(o), sig: o.Type().(*types.Signature)})
			}
		case *types.TypeName:
			nt, ok := o.Type().(*types.Named)
			if !ok || o.IsAlias() {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				m := nt.Method(i)
				if !m.Exported() {
					continue
				}
				sig := m.Type().(*types.Signature)
				l.fns = append(l.fns, &API{name: n + "." + m.Name(), fn: l.prog.FuncValue(m), recv: sig.Recv().Type(), sig: sig})
			}
		}
	}
	sort.Slice(l.fns, func(i, j int) bool { return l.fns[i].name < l.fns[j].name })
}

func (l *Loaded) api(name string) *API {
	for _, a := range l.fns {
		if a.name == name {
			return a
		}
	}
	return nil
}

func (l *Loaded) method(t types.Type, name string) *ssa.Function {
	if types.IsInterface(t) {
		return nil
	}
	sel := l.prog.MethodSets.MethodSet(t).Lookup(l.pkg, name)
	if sel == nil {
		return nil
	}
	return l.prog.MethodValue(sel)
}

func (l *Loaded) isVisitable(t types.Type) bool { return types.Implements(t, l.visitable) }

func (l *Loaded) srcFile(fn *ssa.Function) string {
	f := l.fset.Position(fn.Pos()).Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return f
}

// newEng builds an interpreter with the package variables initialised by
// interpreting the package initialiser.
func newEng(l *Loaded) (*Eng, error) {
	e := &Eng{l: l, base: map[int]Obj{}, globals: map[*ssa.Global]int{}, loops: map[*ssa.Function]*loopInfo{}, zeros: map[types.Type]Val{}, poss: map[token.Pos]string{}, undec: map[string]bool{}, inputs: map[string]string{}, summaries: map[string]string{}, sumEffects: map[string][]Event{}, visited: map[*ssa.Function]bool{}, calls: map[[2]*ssa.Function]bool{}}
	e.opt = &Opts{errored: map[string]bool{}, absent: map[string]bool{}}
	var names []string
	for n, m := range l.ssapkg.Members {
		if _, ok := m.(*ssa.Global); ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	st := &State{facts: map[string]bool{}}
	for _, n := range names {
		g := l.ssapkg.Members[n].(*ssa.Global)
		id := e.alloc(st, e.zero(g.Type().Underlying().(*types.Pointer).Elem()), false, "package variable "+n)
		e.globals[g] = id
	}
	initFn := l.ssapkg.Func("init")
	e.inInit = true
	e.budget = 5_000_000
	outs := e.exec(initFn, nil, nil, st)
	e.inInit = false
	if len(outs) != 1 || outs[0].panic != "" {
		return nil, fmt.Errorf("package initialiser not analysable: %d outcomes %v", len(outs), outs)
	}
	if len(e.undec) > 0 {
		return nil, fmt.Errorf("package initialiser undecided: %v", e.undec)
	}
	outs[0].st.each(func(id int, o Obj) {
		o.pre = true
		if o.name == "" || !strings.HasPrefix(o.name, "package variable") {
			o.name = "package-level data"
		}
		e.base[id] = o
	})
	e.next0 = outs[0].st.next
	return e, nil
}

func (e *Eng) newState() *State {
	return &State{facts: map[string]bool{}, next: e.next0}
}
