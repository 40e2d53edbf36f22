package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// allFuncs: every function with a body in the package, closures included.
func (l *Loaded) allFuncs() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || f.Pkg != nil && f.Pkg != l.ssapkg {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range l.ssapkg.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range typeAndPtr(x.Type()) {
				ms := l.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					add(l.prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// callees: what a call or a function value in f may run, invokes resolved by
// method name over the whole package.
func (l *Loaded) callees(f *ssa.Function, byName map[string][]*ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				out = append(out, byName[c.Common().Method.Name()]...)
			}
			for _, op := range i.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					out = append(out, g)
				}
			}
		}
	}
	return append(out, f.AnonFuncs...)
}

func (l *Loaded) reachable(roots []*ssa.Function) map[*ssa.Function]bool {
	byName := map[string][]*ssa.Function{}
	for _, f := range l.allFuncs() {
		if f.Signature.Recv() != nil {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), roots...)
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[f] {
			continue
		}
		seen[f] = true
		if f.Pkg != nil && f.Pkg != l.ssapkg {
			continue
		}
		work = append(work, l.callees(f, byName)...)
	}
	return seen
}

// globalWrites: the instructions of f that store into a package variable or
// into memory reached through one.
func (l *Loaded) globalWrites(f *ssa.Function) []ssa.Instruction {
	from := map[ssa.Value]*ssa.Global{}
	of := func(v ssa.Value) *ssa.Global {
		if g, ok := v.(*ssa.Global); ok && g.Pkg == l.ssapkg {
			return g
		}
		return from[v]
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || from[v] != nil {
					continue
				}
				var srcs []ssa.Value
				switch x := i.(type) {
				case *ssa.FieldAddr:
					srcs = []ssa.Value{x.X}
				case *ssa.IndexAddr:
					srcs = []ssa.Value{x.X}
				case *ssa.UnOp:
					if pointsSomewhere(x.Type()) {
						srcs = []ssa.Value{x.X}
					}
				case *ssa.Slice:
					srcs = []ssa.Value{x.X}
				case *ssa.Lookup:
					if pointsSomewhere(x.Type()) {
						srcs = []ssa.Value{x.X}
					}
				case *ssa.Phi:
					srcs = x.Edges
				case *ssa.ChangeType:
					srcs = []ssa.Value{x.X}
				}
				for _, s := range srcs {
					if g := of(s); g != nil {
						from[v] = g
						changed = true
						break
					}
				}
			}
		}
	}
	var out []ssa.Instruction
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if of(x.Addr) != nil {
					out = append(out, i)
				}
			case *ssa.MapUpdate:
				if of(x.Map) != nil {
					out = append(out, i)
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) > 0 {
					switch bi.Name() {
					case "delete", "copy", "clear":
						if of(x.Call.Args[0]) != nil {
							out = append(out, i)
						}
					}
				}
			}
		}
	}
	return out
}

// rulePackageState: no function that rendering can reach, over the call graph
// with every method of the name as a candidate, stores into package state.
func (e *Eng) rulePackageState(r *Report, l *Loaded) {
	var roots []*ssa.Function
	for _, f := range l.allFuncs() {
		if f.Name() == "Render" && f.Signature.Recv() != nil {
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		r.bad("package-state", "Render", "", "no Render method found")
		return
	}
	reach := l.reachable(roots)
	for _, f := range l.allFuncs() {
		if !reach[f] || f.Name() == "init" {
			continue
		}
		r.ob("package-state", f.String())
		for _, i := range l.globalWrites(f) {
			r.bad("package-state", f.String()+"|"+i.String(), e.pos(i.Pos()), fmt.Sprintf("%s, which rendering reaches, writes package state: %s", f.Name(), i))
		}
	}
}

func typeAndPtr(t types.Type) []types.Type {
	if types.IsInterface(t) {
		return nil
	}
	return []types.Type{t, types.NewPointer(t)}
}

func pointsSomewhere(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}
