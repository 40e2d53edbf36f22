package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Builders are written step by step; what can follow a step is decided by the
// static type it gives. The steps form a graph over these types.

type stepEdge struct {
	from   types.Type // nil for a function
	method *types.Func
	to     types.Type
}

type stepGraph struct {
	e     *Eng
	types map[string]types.Type
	out   map[string][]stepEdge
	edges []stepEdge
	reach map[string]map[string]bool // names of the methods that can follow, at once or later
}

// finished: a statement, an element, a fluent handle or a list of them.
func (g *stepGraph) finished(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return g.finished(s.Elem())
	}
	if g.e.l.isElem(t) || g.e.l.isHandle(t) {
		return true
	}
	for _, m := range g.e.clientMethods(t) {
		if m.Name() == "Build" {
			return true
		}
	}
	return false
}

// step: a type of the package that stands for something unfinished.
func (g *stepGraph) step(t types.Type) bool {
	n, ok := derefNamed(t)
	if !ok || n.Obj().Pkg() != g.e.l.pkg || g.e.l.isElem(t) || g.e.l.isHandle(t) {
		return false
	}
	switch n.Underlying().(type) {
	case *types.Interface, *types.Struct:
		return true
	}
	return false
}

func (g *stepGraph) add(from types.Type, m *types.Func) {
	rs := m.Type().(*types.Signature).Results()
	if rs.Len() == 0 {
		return
	}
	to := rs.At(0).Type()
	ed := stepEdge{from, m, to}
	g.edges = append(g.edges, ed)
	if from != nil {
		g.out[from.String()] = append(g.out[from.String()], ed)
	}
	if !g.step(to) || g.types[to.String()] != nil {
		return
	}
	g.types[to.String()] = to
	for _, c := range g.e.clientMethods(to) {
		g.add(to, c)
	}
}

func (e *Eng) stepGraph() *stepGraph {
	g := &stepGraph{e: e, types: map[string]types.Type{}, out: map[string][]stepEdge{}, reach: map[string]map[string]bool{}}
	sc := e.l.pkg.Scope()
	for _, n := range sc.Names() {
		if f, ok := sc.Lookup(n).(*types.Func); ok && f.Exported() && e.stepFunc(f) {
			g.add(nil, f)
		}
	}
	for k := range g.types {
		g.reach[k] = map[string]bool{}
	}
	for changed := true; changed; {
		changed = false
		for k := range g.types {
			for _, ed := range g.out[k] {
				put := func(n string) {
					if !g.reach[k][n] {
						g.reach[k][n] = true
						changed = true
					}
				}
				put(ed.method.Name())
				for n := range g.reach[ed.to.String()] {
					put(n)
				}
			}
		}
	}
	return g
}

// returns: the method gives the RETURN clause, after which only its own parts can follow.
func (g *stepGraph) returns(method string) bool { return strings.HasPrefix(method, "Returning") }

// startsClause: the chain model knows the method as a step; the parts of
// RETURN and the ways to finish are no steps.
func (g *stepGraph) startsClause(method string) bool {
	return chainSteps[method] != nil
}

// stepFunc: the function can be called by a client, and gives a step to go on with.
func (e *Eng) stepFunc(f *types.Func) bool {
	rs := f.Type().(*types.Signature).Results()
	return rs.Len() > 0 && (&stepGraph{e: e}).step(rs.At(0).Type())
}

func ruleC25(e *Eng, l *Loaded) *Report {
	r := newReport("C25")
	g := e.stepGraph()
	alive := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for k, t := range g.types {
			ok := g.finished(t)
			for _, ed := range g.out[k] {
				ok = ok || g.step(ed.to) && alive[ed.to.String()] || !g.step(ed.to) && g.finished(ed.to)
			}
			if ok && !alive[k] {
				alive[k], changed = true, true
			}
		}
	}
	for _, ed := range g.edges {
		if !g.step(ed.to) || ed.from == nil && !types.IsInterface(ed.to) {
			continue // an unfinished thing of the library's own
		}
		name := ed.method.Name()
		if ed.from != nil {
			name = shortType(ed.from) + "." + name
		}
		r.ob("leads-on", name)
		r.units[name] = true
		if !alive[ed.to.String()] {
			r.bad("leads-on", name, e.pos(ed.method.Pos()), fmt.Sprintf("%s gives a %s, from which no statement or element can be reached", name, shortType(ed.to)))
			continue
		}
		if ed.from == nil || !types.IsInterface(ed.from) || g.returns(ed.method.Name()) || !g.reach[ed.from.String()]["Build"] {
			continue
		}
		r.ob("keeps-clauses", name)
		var lost []string
		for n := range g.reach[ed.from.String()] {
			if !g.reach[ed.to.String()][n] && g.startsClause(n) && g.reach[ed.from.String()]["Returning"] {
				lost = append(lost, n)
			}
		}
		sort.Strings(lost)
		if len(lost) > 0 {
			r.bad("keeps-clauses", name, e.pos(ed.method.Pos()), fmt.Sprintf("%s gives a %s, after which %s can no longer be said, although no RETURN was given", name, shortType(ed.to), strings.Join(lost, ", ")))
		}
	}
	return r
}

func init() {
	register("C25", &ruleDef{min: map[string]int{"leads-on": 300, "keeps-clauses": 200}, run: ruleC25})
}
