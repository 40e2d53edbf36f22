package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C16, for operands of every size: every loop of the package steps through a
// finite collection or towards a bound that it does not move, and wherever
// functions call each other in a circle, the circle cannot be walked for ever
// because some operand is replaced by a part of itself on the way
// (size-change termination over the call graph of the SSA program).

// size of a value relative to a parameter of its function
type size int

const (
	szNone  size = iota // nothing known
	szEqual             // the parameter or something no larger
	szPart              // a proper part of it
)

type sizes []size // by parameter, receiver first, free variables last

func (a sizes) meet(b sizes) sizes {
	out := make(sizes, len(a))
	for i := range a {
		out[i] = a[i]
		if b[i] < out[i] {
			out[i] = b[i]
		}
	}
	return out
}

func (a sizes) equal(b sizes) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (a sizes) part() sizes {
	out := make(sizes, len(a))
	for i := range a {
		if a[i] != szNone {
			out[i] = szPart
		}
	}
	return out
}

// compound: a value that has parts.
func compound(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Basic:
		return isStringT(t)
	case *types.Chan, *types.Signature:
		return false
	}
	return true
}

type terminator struct {
	l      *Loaded
	funcs  []*ssa.Function
	in     map[*ssa.Function]bool
	vals   map[*ssa.Function]map[ssa.Value]sizes
	result map[*ssa.Function][]sizes // relation of each result to the parameters
	edges  map[*node][]nodeEdge
	nodes  map[string]*node
	order  []*node
	impl   map[string][]*ssa.Function
	taken  map[string][]*ssa.Function // functions used as values, by signature
}

func params(f *ssa.Function) int { return len(f.Params) + len(f.FreeVars) }

func newTerminator(l *Loaded) *terminator {
	t := &terminator{l: l, in: map[*ssa.Function]bool{}, vals: map[*ssa.Function]map[ssa.Value]sizes{}, result: map[*ssa.Function][]sizes{}, edges: map[*node][]nodeEdge{}, nodes: map[string]*node{}, impl: map[string][]*ssa.Function{}, taken: map[string][]*ssa.Function{}}
	t.funcs = l.allFuncs()
	for _, f := range t.funcs {
		t.in[f] = true
		n := f.Signature.Results().Len()
		t.result[f] = make([]sizes, n)
		for i := range t.result[f] {
			s := make(sizes, params(f))
			if compound(f.Signature.Results().At(i).Type()) {
				for k := range s {
					s[k] = szPart // lowered until stable
				}
			}
			t.result[f][i] = s
		}
		if f.Signature.Recv() != nil && f.Parent() == nil {
			t.impl[f.Name()] = append(t.impl[f.Name()], f)
		}
	}
	used := map[*ssa.Function]bool{}
	for _, f := range t.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var call ssa.Value
				if c, ok := i.(ssa.CallInstruction); ok {
					call = c.Common().Value
				}
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if mc, isC := i.(*ssa.MakeClosure); isC && *op == mc.Fn {
						ok = true
					} else if *op == call {
						ok = false
					}
					if ok && t.in[g] && !used[g] {
						used[g] = true
						k := g.Signature.String()
						t.taken[k] = append(t.taken[k], g)
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range t.funcs {
			vs := t.flow(f)
			t.vals[f] = vs
			for _, b := range f.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				for i, x := range ret.Results {
					m := t.result[f][i].meet(t.of(f, vs, x))
					if !m.equal(t.result[f][i]) {
						t.result[f][i] = m
						changed = true
					}
				}
			}
		}
	}
	for _, f := range t.funcs {
		t.nodeOf(f, make([]types.Type, len(f.Params)))
	}
	for i := 0; i < len(t.order); i++ {
		t.edges[t.order[i]] = t.callsOf(t.order[i])
	}
	return t
}

func (t *terminator) top(f *ssa.Function) sizes {
	s := make(sizes, params(f))
	for i := range s {
		s[i] = szPart
	}
	return s
}

func (t *terminator) of(f *ssa.Function, vs map[ssa.Value]sizes, v ssa.Value) sizes {
	n := params(f)
	s := make(sizes, n)
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range f.Params {
			if p == x && compound(p.Type()) {
				s[i] = szEqual
			}
		}
		return s
	case *ssa.FreeVar:
		for i, p := range f.FreeVars {
			if p == x {
				s[len(f.Params)+i] = szEqual
			}
		}
		return s
	case *ssa.Const:
		// nil and zero are no larger than anything, but nothing says that
		// they are smaller
		if x.Value == nil || !compound(x.Type()) || x.Value.Kind() == constant.String && constant.StringVal(x.Value) == "" {
			for i := range s {
				s[i] = szEqual
			}
		}
		return s
	case *ssa.Global, *ssa.Function, *ssa.Builtin:
		return s
	}
	if r, ok := vs[v]; ok {
		return r
	}
	return t.top(f)
}

// flow: the relation of every value of f to f's parameters, the greatest
// solution of the transfer equations.
func (t *terminator) flow(f *ssa.Function) map[ssa.Value]sizes {
	vs := map[ssa.Value]sizes{}
	// what is stored as a whole into a local variable
	stores := map[ssa.Value][]ssa.Value{}
	dirty := map[ssa.Value]bool{} // a part of it is stored, or its address is passed on
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					stores[a] = append(stores[a], x.Val)
				} else if a := allocOf(x.Addr); a != nil {
					stores[a] = append(stores[a], x.Val)
					dirty[a] = true
				}
			case *ssa.MapUpdate:
				if a := allocOf(x.Map); a != nil {
					dirty[a] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok {
					continue
				}
				n := t.transfer(f, vs, v, stores, dirty)
				if o, ok := vs[v]; !ok || !o.equal(n) {
					if ok {
						n = n.meet(o)
						if n.equal(o) {
							continue
						}
					}
					vs[v] = n
					changed = true
				}
			}
		}
	}
	return vs
}

func allocOf(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (t *terminator) transfer(f *ssa.Function, vs map[ssa.Value]sizes, v ssa.Value, stores map[ssa.Value][]ssa.Value, dirty map[ssa.Value]bool) sizes {
	of := func(x ssa.Value) sizes { return t.of(f, vs, x) }
	none := make(sizes, params(f))
	switch x := v.(type) {
	case *ssa.Alloc:
		s := t.top(f)
		if dirty[x] {
			return none
		}
		for _, y := range stores[x] {
			s = s.meet(of(y))
		}
		if len(stores[x]) == 0 && compound(x.Type().(*types.Pointer).Elem()) {
			for i := range s { // zero value
				s[i] = szEqual
			}
		}
		return s
	case *ssa.FieldAddr:
		return of(x.X)
	case *ssa.IndexAddr:
		return of(x.X)
	case *ssa.Field:
		return of(x.X).part()
	case *ssa.Index:
		return of(x.X).part()
	case *ssa.Lookup:
		return of(x.X).part()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch x.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				return of(x.X).part()
			}
			return of(x.X)
		}
		return none
	case *ssa.BinOp:
		return none
	case *ssa.Slice:
		if c, ok := x.Low.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) > 0 {
			return of(x.X).part()
		}
		return of(x.X)
	case *ssa.Range:
		return of(x.X)
	case *ssa.Next:
		return of(x.Iter).part()
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return t.callResult(f, vs, c, x.Index)
		}
		return of(x.Tuple)
	case *ssa.MakeInterface:
		return of(x.X)
	case *ssa.ChangeInterface:
		return of(x.X)
	case *ssa.ChangeType:
		return of(x.X)
	case *ssa.TypeAssert:
		return of(x.X)
	case *ssa.Convert:
		return of(x.X)
	case *ssa.SliceToArrayPointer:
		return of(x.X)
	case *ssa.Phi:
		s := t.top(f)
		for _, y := range x.Edges {
			s = s.meet(of(y))
		}
		return s
	case *ssa.Call:
		return t.callResult(f, vs, x, 0)
	case *ssa.MakeClosure:
		return none
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return none
	}
	return none
}

func (t *terminator) callResult(f *ssa.Function, vs map[ssa.Value]sizes, c *ssa.Call, idx int) sizes {
	none := make(sizes, params(f))
	s := t.top(f)
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			return none
		case "ssa:wrapnilchk":
			return t.of(f, vs, c.Call.Args[0])
		}
		return s
	}
	tos := t.targets(f, c)
	if len(tos) == 0 {
		return none
	}
	args := t.args(c)
	for _, g := range tos {
		if !t.in[g] || idx >= len(t.result[g]) {
			return none
		}
		r := make(sizes, params(f))
		for k, rel := range t.result[g][idx] {
			if rel == szNone || k >= len(args) {
				continue
			}
			a := t.of(f, vs, args[k])
			if rel == szPart {
				a = a.part()
			}
			for i := range r {
				if a[i] > r[i] {
					r[i] = a[i]
				}
			}
		}
		s = s.meet(r)
	}
	return s
}

// args: the callee's parameters, receiver first, then its free variables.
func (t *terminator) args(c ssa.CallInstruction) []ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	out := append([]ssa.Value(nil), cc.Args...)
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		out = append(out, mc.Bindings...)
	}
	return out
}

// targets: what a call may run.
func (t *terminator) targets(f *ssa.Function, c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if cc.IsInvoke() {
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		var out []*ssa.Function
		for _, m := range t.impl[cc.Method.Name()] {
			if it != nil && types.Implements(m.Signature.Recv().Type(), it) {
				out = append(out, m)
			}
		}
		return out
	}
	if g := cc.StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	return t.taken[cc.Signature().String()]
}

// node: a function together with what is known of the dynamic types of its
// operands.
type node struct {
	f   *ssa.Function
	ctx string // one type per parameter, empty where unknown
	dyn []types.Type
}

type nodeEdge struct {
	site ssa.CallInstruction
	to   *node
	arcs [][]size
}

func (t *terminator) nodeOf(f *ssa.Function, dyn []types.Type) *node {
	k := ""
	for i := range dyn {
		k += "|"
		if dyn[i] != nil {
			k += dyn[i].String()
		}
	}
	k = f.String() + k
	if n := t.nodes[k]; n != nil {
		return n
	}
	n := &node{f: f, ctx: k, dyn: dyn}
	t.nodes[k] = n
	t.order = append(t.order, n)
	return n
}

// dynTypeOf: the dynamic type of an interface value, where there is only one.
func dynTypeOf(n *node, v ssa.Value, depth int) types.Type {
	if depth > 12 {
		return nil
	}
	if !types.IsInterface(v.Type()) {
		return v.Type()
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range n.f.Params {
			if p == x && i < len(n.dyn) {
				return n.dyn[i]
			}
		}
	case *ssa.MakeInterface:
		return x.X.Type()
	case *ssa.ChangeInterface:
		return dynTypeOf(n, x.X, depth+1)
	case *ssa.TypeAssert:
		return dynTypeOf(n, x.X, depth+1)
	case *ssa.Extract:
		if a, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return dynTypeOf(n, a.X, depth+1)
		}
	case *ssa.Phi:
		var one types.Type
		for _, y := range x.Edges {
			if isNilConst(y) {
				continue
			}
			d := dynTypeOf(n, y, depth+1)
			if d == nil || one != nil && !types.Identical(one, d) {
				return nil
			}
			one = d
		}
		return one
	}
	return nil
}

func (t *terminator) callsOf(n *node) []nodeEdge {
	f := n.f
	var out []nodeEdge
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			args := t.args(c)
			tos := t.targets(f, c)
			if cc := c.Common(); cc.IsInvoke() {
				if d := dynTypeOf(n, cc.Value, 0); d != nil {
					tos = nil
					if sel := t.l.prog.MethodSets.MethodSet(d).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
						tos = append(tos, t.l.prog.MethodValue(sel))
					}
				}
			}
			for _, g := range tos {
				if !t.in[g] {
					continue
				}
				dyn := make([]types.Type, len(g.Params))
				for k := range dyn {
					if k < len(args) && types.IsInterface(g.Params[k].Type()) {
						dyn[k] = dynTypeOf(n, args[k], 0)
					}
				}
				e := nodeEdge{site: c, to: t.nodeOf(g, dyn)}
				for _, a := range args {
					e.arcs = append(e.arcs, t.of(f, t.vals[f], a))
				}
				out = append(out, e)
			}
		}
	}
	return out
}

// circles: the strongly connected components of the call graph.
func (t *terminator) circles() [][]*node {
	idx, low := map[*node]int{}, map[*node]int{}
	on := map[*node]bool{}
	var stack []*node
	var out [][]*node
	n := 0
	var dfs func(f *node)
	dfs = func(f *node) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, e := range t.edges[f] {
			g := e.to
			if g == f {
				self = true
			}
			if idx[g] == 0 {
				dfs(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			var c []*node
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				c = append(c, g)
				if g == f {
					break
				}
			}
			if len(c) > 1 || self {
				sort.Slice(c, func(i, j int) bool { return c[i].ctx < c[j].ctx })
				out = append(out, c)
			}
		}
	}
	for _, f := range t.order {
		if idx[f] == 0 {
			dfs(f)
		}
	}
	return out
}

// ---------------------------------------------------------------- circles

// graph: one way to get from one function to another, and what becomes of the
// operands on the way.
type graph struct {
	from, to *node
	arcs     [][]size // parameter of to -> relation to the parameters of from
	path     string
}

func (g graph) key() string {
	return g.from.ctx + ">" + g.to.ctx + "|" + fmt.Sprint(g.arcs)
}

func compose(a, b graph) graph {
	out := graph{from: a.from, to: b.to, path: a.path + " > " + b.to.f.Name()}
	n := 0
	if len(a.arcs) > 0 {
		n = len(a.arcs[0])
	}
	for _, row := range b.arcs {
		r := make([]size, n)
		for mid, rel := range row {
			if rel == szNone || mid >= len(a.arcs) {
				continue
			}
			for i, q := range a.arcs[mid] {
				if q == szNone {
					continue
				}
				v := szEqual
				if q == szPart || rel == szPart {
					v = szPart
				}
				if v > r[i] {
					r[i] = v
				}
			}
		}
		out.arcs = append(out.arcs, r)
	}
	return out
}

// endless: the walks around the circle on which no operand gets smaller.
func (t *terminator) endless(c []*node) ([]graph, bool) {
	in := map[*node]bool{}
	for _, f := range c {
		in[f] = true
	}
	step := map[*node][]graph{}
	seen := map[string]bool{}
	var work []graph
	for _, f := range c {
		for _, e := range t.edges[f] {
			if !in[e.to] {
				continue
			}
			g := graph{from: f, to: e.to, path: f.f.Name() + " > " + e.to.f.Name()}
			for _, a := range e.arcs {
				g.arcs = append(g.arcs, a)
			}
			if seen[g.key()] {
				continue
			}
			seen[g.key()] = true
			step[f] = append(step[f], g)
			work = append(work, g)
		}
	}
	var bad []graph
	for len(work) > 0 {
		g := work[0]
		work = work[1:]
		if g.from == g.to {
			h := compose(g, g)
			if h.key() == g.key() {
				dec := false
				for k, row := range g.arcs {
					if k < len(row) && row[k] == szPart {
						dec = true
					}
				}
				if !dec {
					bad = append(bad, g)
					continue
				}
			}
		}
		for _, s := range step[g.to] {
			h := compose(g, s)
			if k := h.key(); !seen[k] {
				if len(seen) > 400000 {
					return bad, false
				}
				seen[k] = true
				work = append(work, h)
			}
		}
	}
	return bad, true
}

// ---------------------------------------------------------------- loops

// iteration: one way through the body of a loop, from the header back to it.
type iteration struct {
	env map[ssa.Value]ssa.Value // what merged values stand for on this way
}

func (it iteration) res(v ssa.Value) ssa.Value {
	for n := 0; n < 100; n++ {
		w, ok := it.env[v]
		if !ok || w == v {
			return v
		}
		v = w
	}
	return v
}

// iterations: the feasible ways through the loop body. Branches whose outcome
// the constants and nils on the way settle are not followed both ways.
func iterations(lp *loop, info *loopInfo) ([]iteration, bool) {
	var out []iteration
	steps := 0
	fixed := headerConstants(lp)
	var walk func(b, from *ssa.BasicBlock, env map[ssa.Value]ssa.Value, took map[ssa.Value]bool, on map[*ssa.BasicBlock]bool) bool
	walk = func(b, from *ssa.BasicBlock, env map[ssa.Value]ssa.Value, took map[ssa.Value]bool, on map[*ssa.BasicBlock]bool) bool {
		steps++
		if steps > 60000 {
			return false
		}
		if b == lp.header && from != nil {
			e2 := copyEnv(env)
			// what the loop variables are next
			for _, i := range b.Instrs {
				p, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for k, pr := range b.Preds {
					if pr == from {
						e2[next{p}] = iteration{env}.res(p.Edges[k])
					}
				}
			}
			out = append(out, iteration{e2})
			return true
		}
		if !lp.blocks[b] || on[b] {
			return true
		}
		env = copyEnv(env)
		for _, i := range b.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if b == lp.header {
				if c, ok := fixed[p]; ok {
					env[p] = c
				}
				continue
			}
			if inner := info.loops[b]; inner != nil {
				continue // changes from one inner iteration to the next
			}
			for k, pr := range b.Preds {
				if pr == from {
					env[p] = iteration{env}.res(p.Edges[k])
				}
			}
		}
		on2 := map[*ssa.BasicBlock]bool{b: true}
		for k := range on {
			on2[k] = true
		}
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			v, known := settle(br.Cond, iteration{env}, took)
			for k, s := range b.Succs {
				if known && v != (k == 0) {
					continue
				}
				t2 := map[ssa.Value]bool{}
				for x, y := range took {
					t2[x] = y
				}
				if info.loops[b] == nil || info.loops[b] == lp {
					t2[iteration{env}.res(br.Cond)] = k == 0
				}
				if !walk(s, b, env, t2, on2) {
					return false
				}
			}
			return true
		}
		for _, s := range b.Succs {
			if !walk(s, b, env, took, on2) {
				return false
			}
		}
		return true
	}
	ok := walk(lp.header, nil, map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}, map[*ssa.BasicBlock]bool{})
	return out, ok
}

// next marks the value a loop variable has in the next iteration.
type next struct{ ssa.Value }

func copyEnv(m map[ssa.Value]ssa.Value) map[ssa.Value]ssa.Value {
	out := make(map[ssa.Value]ssa.Value, len(m)+2)
	for k, v := range m {
		out[k] = v
	}
	return out
}

// headerConstants: loop variables that are the same constant at the start of
// every iteration.
func headerConstants(lp *loop) map[*ssa.Phi]*ssa.Const {
	out := map[*ssa.Phi]*ssa.Const{}
	for _, i := range lp.header.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		var c *ssa.Const
		same := true
		seen := map[ssa.Value]bool{p: true}
		var look func(v ssa.Value)
		look = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Const:
				if c == nil {
					c = x
				} else if c.String() != x.String() {
					same = false
				}
			case *ssa.Phi:
				for _, y := range x.Edges {
					look(y)
				}
			default:
				same = false
			}
		}
		for _, y := range p.Edges {
			look(y)
		}
		if same && c != nil {
			out[p] = c
		}
	}
	return out
}

// settle: the outcome of a condition where the way so far decides it.
func settle(c ssa.Value, it iteration, took map[ssa.Value]bool) (bool, bool) {
	c = it.res(c)
	if v, ok := took[c]; ok {
		return v, true
	}
	switch x := c.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			v, ok := settle(x.X, it, took)
			return !v, ok
		}
	case *ssa.Extract:
		if a, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && isNilConst(it.res(a.X)) {
			return false, true
		}
	case *ssa.BinOp:
		l, r := it.res(x.X), it.res(x.Y)
		if x.Op != token.EQL && x.Op != token.NEQ {
			break
		}
		a, aok := l.(*ssa.Const)
		b, bok := r.(*ssa.Const)
		switch {
		case aok && bok:
			return (a.String() == b.String()) == (x.Op == token.EQL), true
		case aok && a.Value == nil && neverNil(r), bok && b.Value == nil && neverNil(l):
			return x.Op == token.NEQ, true
		}
	}
	return false, false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func neverNil(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure:
		return true
	}
	return false
}

// delta: v is p plus the returned constant on this way.
func delta(v ssa.Value, p ssa.Value, it iteration) (int64, bool) {
	var d int64
	for n := 0; n < 50; n++ {
		v = it.res(v)
		if v == p {
			return d, true
		}
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return 0, false
		}
		l, lok := constInt64(it.res(b.X))
		r, rok := constInt64(it.res(b.Y))
		switch {
		case b.Op == token.ADD && rok:
			d, v = d+r, b.X
		case b.Op == token.ADD && lok:
			d, v = d+l, b.Y
		case b.Op == token.SUB && rok:
			d, v = d-r, b.X
		default:
			return 0, false
		}
	}
	return 0, false
}

// bound: v is p plus at least (sign 1) or at most (sign -1) the returned
// constant on this way; steps need not be constants.
func bound(v ssa.Value, p ssa.Value, it iteration, sign int) (int64, bool) {
	var d int64
	for n := 0; n < 50; n++ {
		v = it.res(v)
		if v == p {
			return d, true
		}
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return 0, false
		}
		l, lok := constInt64(it.res(b.X))
		r, rok := constInt64(it.res(b.Y))
		switch {
		case b.Op == token.ADD && rok:
			d, v = d+r, b.X
		case b.Op == token.ADD && lok:
			d, v = d+l, b.Y
		case b.Op == token.SUB && rok:
			d, v = d-r, b.X
		case b.Op == token.ADD && sign > 0 && positive(it.res(b.Y), 0):
			d, v = d+1, b.X
		case b.Op == token.ADD && sign > 0 && positive(it.res(b.X), 0):
			d, v = d+1, b.Y
		case b.Op == token.SUB && sign < 0 && positive(it.res(b.Y), 0):
			d, v = d-1, b.X
		default:
			return 0, false
		}
	}
	return 0, false
}

// positive: the number is at least one, whatever the operands.
func positive(v ssa.Value, depth int) bool {
	if depth > 12 {
		return false
	}
	if c, ok := constInt64(v); ok {
		return c > 0
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !positive(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return positive(x.X, depth+1) && (positive(x.Y, depth+1) || lenOf(x.Y) != nil) || lenOf(x.X) != nil && positive(x.Y, depth+1)
		}
		return x.Op == token.MUL && positive(x.X, depth+1) && positive(x.Y, depth+1)
	case *ssa.Call:
		return results(x, func(r *ssa.Return) bool { return len(r.Results) == 1 && positive(r.Results[0], depth+1) })
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return results(c, func(r *ssa.Return) bool { return positive(r.Results[x.Index], depth+1) })
		}
	case *ssa.Field:
		return positiveField(x.X, x.Field, depth+1)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if a, ok := fa.X.(*ssa.Alloc); ok {
				return positiveIn(a, fa.Field, x, depth+1)
			}
		}
	}
	return false
}

// results: does this hold for everything the called function returns?
func results(c *ssa.Call, f func(*ssa.Return) bool) bool {
	callee := c.Call.StaticCallee()
	if callee == nil || callee.Blocks == nil {
		return false
	}
	any := false
	for _, b := range callee.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if b == callee.Recover {
				return false
			}
			any = true
			if !f(r) {
				return false
			}
		}
	}
	return any
}

// positiveField: is the field of this struct value positive?
func positiveField(v ssa.Value, field, depth int) bool {
	if depth > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		return results(x, func(r *ssa.Return) bool { return len(r.Results) == 1 && positiveField(r.Results[0], field, depth+1) })
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return results(c, func(r *ssa.Return) bool { return positiveField(r.Results[x.Index], field, depth+1) })
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !positiveField(e, field, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			return positiveIn(a, field, x, depth+1)
		}
	}
	return false
}

// positiveIn: does the field of a local struct hold a positive number at this
// read? Every store must put one there, one of them on every way to the read,
// and nobody else may have the struct's address.
func positiveIn(a *ssa.Alloc, field int, at ssa.Instruction, depth int) bool {
	set := false
	before := func(s ssa.Instruction) {
		if s.Block() != at.Block() {
			set = set || s.Block().Dominates(at.Block())
			return
		}
		for _, i := range at.Block().Instrs {
			if i == s {
				set = true
			}
			if i == at || i == s {
				return
			}
		}
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != a || !positiveField(x.Val, field, depth+1) {
				return false
			}
			before(x)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, fr := range *x.Referrers() {
				switch y := fr.(type) {
				case *ssa.Store:
					if y.Addr != x {
						return false
					}
					if x.Field == field {
						if !positive(y.Val, depth+1) {
							return false
						}
						before(y)
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					if x.Field == field {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return set
}

func constInt64(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	n, exact := constant.Int64Val(c.Value)
	return n, exact
}

// baseOf: the loop variable that a counter is a constant away from.
func baseOf(v ssa.Value, lp *loop) (*ssa.Phi, int64) {
	var d int64
	for n := 0; n < 20; n++ {
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == lp.header {
				return x, d
			}
			return nil, 0
		case *ssa.BinOp:
			if r, ok := constInt64(x.Y); ok && x.Op == token.ADD {
				d, v = d+r, x.X
				continue
			}
			if r, ok := constInt64(x.Y); ok && x.Op == token.SUB {
				d, v = d-r, x.X
				continue
			}
			if l, ok := constInt64(x.X); ok && x.Op == token.ADD {
				d, v = d+l, x.Y
				continue
			}
			return nil, 0
		case *ssa.Convert:
			v = x.X
		default:
			return nil, 0
		}
	}
	return nil, 0
}

// invariant: the loop does not change v.
func invariant(v ssa.Value, lp *loop) bool {
	i, ok := v.(ssa.Instruction)
	if !ok || !lp.blocks[i.Block()] {
		return true
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max") {
			for _, a := range x.Call.Args {
				if !invariant(a, lp) {
					return false
				}
			}
			return true
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return invariant(x.X, lp) && !storedIn(x.X, lp)
		}
		return invariant(x.X, lp)
	case *ssa.FieldAddr:
		return invariant(x.X, lp)
	case *ssa.Field:
		return invariant(x.X, lp)
	case *ssa.IndexAddr:
		return invariant(x.X, lp) && invariant(x.Index, lp)
	case *ssa.BinOp:
		return invariant(x.X, lp) && invariant(x.Y, lp)
	case *ssa.Convert:
		return invariant(x.X, lp)
	case *ssa.ChangeType:
		return invariant(x.X, lp)
	case *ssa.Extract:
		return invariant(x.Tuple, lp)
	case *ssa.TypeAssert:
		return invariant(x.X, lp)
	case *ssa.MakeInterface:
		return invariant(x.X, lp)
	case *ssa.Phi:
		if x.Block() == lp.header {
			for k, p := range x.Block().Preds {
				if lp.blocks[p] && x.Edges[k] != v {
					return false
				}
			}
			return true
		}
	}
	return false
}

// storedIn: the loop stores into the memory the address denotes.
func storedIn(addr ssa.Value, lp *loop) bool {
	for b := range lp.blocks {
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			if s.Addr == addr || mayAlias(s.Addr, addr) {
				return true
			}
		}
	}
	return false
}

func mayAlias(a, b ssa.Value) bool {
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return fa.Field == fb.Field && types.Identical(fa.X.Type(), fb.X.Type())
	}
	if ok1 != ok2 {
		return false
	}
	_, la := a.(*ssa.Alloc)
	_, lb := b.(*ssa.Alloc)
	if la || lb {
		return false
	}
	return types.Identical(a.Type(), b.Type())
}

// advances: why the loop ends.
func (t *terminator) advances(f *ssa.Function, lp *loop, info *loopInfo) (string, bool) {
	its, ok := iterations(lp, info)
	if !ok {
		return "too many ways through the loop body", false
	}
	if len(its) == 0 {
		return "never repeated", true
	}
	var latches []*ssa.BasicBlock
	for _, p := range lp.header.Preds {
		if lp.blocks[p] {
			latches = append(latches, p)
		}
	}
	for b := range lp.blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		dom := true
		for _, l := range latches {
			if !b.Dominates(l) {
				dom = false
			}
		}
		in0, in1 := lp.blocks[b.Succs[0]], lp.blocks[b.Succs[1]]
		if !dom || in0 == in1 {
			continue
		}
		if inner := info.loops[b]; inner != nil && inner != lp {
			continue
		}
		if why, ok := t.measure(f, br.Cond, in0, lp, its); ok {
			return why, true
		}
	}
	return "no counter, collection or part that every way through the body advances", false
}

func (t *terminator) measure(f *ssa.Function, c ssa.Value, stay bool, lp *loop, its []iteration) (string, bool) {
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
		return t.measure(f, u.X, !stay, lp, its)
	}
	if x, ok := c.(*ssa.Extract); ok {
		if _, ok := x.Tuple.(*ssa.Next); ok && stay && x.Index == 0 {
			return "range", true
		}
		if a, ok := x.Tuple.(*ssa.TypeAssert); ok && stay && x.Index == 1 {
			return t.descends(f, a.X, lp, its)
		}
		return "", false
	}
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return "", false
	}
	op := b.Op
	if !stay {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	try := func(x, y ssa.Value, op token.Token) (string, bool) {
		// a text or list that gets shorter
		if s := lenOf(x); s != nil {
			if _, isC := constInt64(y); isC && (op == token.GTR || op == token.GEQ || op == token.NEQ) {
				if why, ok := t.shrinks(s, lp, its); ok {
					return why, true
				}
			}
		}
		if c, ok := y.(*ssa.Const); ok && op == token.NEQ {
			if c.Value == nil {
				if why, ok := t.descends(f, x, lp, its); ok {
					return why, true
				}
			} else if c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "" {
				return t.shrinks(x, lp, its)
			}
		}
		p, _ := baseOf(x, lp)
		if p == nil {
			return "", false
		}
		sign := 0
		switch op {
		case token.LSS, token.LEQ:
			sign = 1
		case token.GTR, token.GEQ:
			sign = -1
		}
		for _, it := range its {
			n := it.env[next{p}]
			if n == nil {
				return "", false
			}
			if sign == -1 && halves(n, p, it) {
				continue
			}
			d, ok := delta(n, p, it)
			if !ok && sign != 0 {
				d, ok = bound(n, p, it, sign)
			}
			if !ok || d == 0 {
				return "", false
			}
			if op == token.NEQ {
				if d != 1 && d != -1 {
					return "", false
				}
				continue
			}
			if sign == 0 || d > 0 != (sign > 0) {
				return "", false
			}
			if q, _ := baseOf(y, lp); q != nil && !invariant(y, lp) {
				e, ok := delta(it.env[next{q}], q, it)
				if !ok || e != 0 && e > 0 == (sign > 0) {
					return "", false
				}
			}
		}
		if q, _ := baseOf(y, lp); q == nil && !invariant(y, lp) {
			return "", false
		}
		return "counter", true
	}
	if why, ok := try(b.X, b.Y, op); ok {
		return why, true
	}
	flip := op
	switch op {
	case token.LSS:
		flip = token.GTR
	case token.LEQ:
		flip = token.GEQ
	case token.GTR:
		flip = token.LSS
	case token.GEQ:
		flip = token.LEQ
	}
	return try(b.Y, b.X, flip)
}

func lenOf(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

func halves(n ssa.Value, p *ssa.Phi, it iteration) bool {
	b, ok := it.res(n).(*ssa.BinOp)
	if !ok || it.res(b.X) != p {
		return false
	}
	c, ok := constInt64(it.res(b.Y))
	return ok && (b.Op == token.QUO && c > 1 || b.Op == token.SHR && c > 0)
}

// shrinks: the text or list loses at least one element on every way.
func (t *terminator) shrinks(s ssa.Value, lp *loop, its []iteration) (string, bool) {
	p, ok := s.(*ssa.Phi)
	if !ok || p.Block() != lp.header {
		return "", false
	}
	for _, it := range its {
		v := it.env[next{p}]
		cut := false
		for n := 0; n < 20 && v != nil; n++ {
			v = it.res(v)
			if v == p {
				break
			}
			x, ok := v.(*ssa.Slice)
			if !ok {
				return "", false
			}
			if x.Low != nil {
				if c, ok := constInt64(it.res(x.Low)); ok && c > 0 {
					cut = true
				}
			}
			if x.High != nil {
				if b, ok := it.res(x.High).(*ssa.BinOp); ok && b.Op == token.SUB && lenOf(it.res(b.X)) != nil && it.res(lenOf(it.res(b.X))) == it.res(x.X) {
					if c, ok := constInt64(it.res(b.Y)); ok && c > 0 {
						cut = true
					}
				}
			}
			v = x.X
		}
		if it.res(v) != p || !cut {
			return "", false
		}
	}
	return "shrinking", true
}

// descends: on every way the loop variable becomes a part of itself.
func (t *terminator) descends(f *ssa.Function, x ssa.Value, lp *loop, its []iteration) (string, bool) {
	p, ok := x.(*ssa.Phi)
	if !ok || p.Block() != lp.header {
		return "", false
	}
	for _, it := range its {
		v := it.env[next{p}]
		part := false
		for n := 0; n < 60; n++ {
			v = it.res(v)
			if v == p {
				break
			}
			switch y := v.(type) {
			case *ssa.UnOp:
				if y.Op != token.MUL {
					return "", false
				}
				if fa, ok := y.X.(*ssa.FieldAddr); ok {
					part, v = true, fa.X
				} else if ia, ok := y.X.(*ssa.IndexAddr); ok {
					part, v = true, ia.X
				} else {
					v = y.X
				}
			case *ssa.Field:
				part, v = true, y.X
			case *ssa.Extract:
				v = y.Tuple
			case *ssa.TypeAssert:
				v = y.X
			case *ssa.MakeInterface:
				v = y.X
			case *ssa.ChangeInterface:
				v = y.X
			case *ssa.ChangeType:
				v = y.X
			case *ssa.Alloc:
				var s *ssa.Store
				for _, r := range *y.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == y {
						if s != nil {
							return "", false
						}
						s = st
					}
				}
				if s == nil {
					return "", false
				}
				v = s.Val
			case *ssa.Call:
				g := y.Call.StaticCallee()
				args := t.args(y)
				if g == nil || !t.in[g] || len(t.result[g]) == 0 {
					return "", false
				}
				found := false
				for k, rel := range t.result[g][0] {
					if rel == szPart && k < len(args) {
						part, v, found = true, args[k], true
						break
					}
				}
				if !found {
					return "", false
				}
			default:
				return "", false
			}
		}
		if v != p || !part {
			return "", false
		}
	}
	return "parts", true
}

// ---------------------------------------------------------------- rules

func (e *Eng) ruleTermination(r *Report, l *Loaded) {
	t := newTerminator(l)
	for _, f := range t.funcs {
		if f.Synthetic != "" && f.Parent() == nil && f.Signature.Recv() != nil {
			continue // a wrapper the compiler writes
		}
		r.units[f.String()] = true
		info := e.loopsOf(f)
		rank := map[*ssa.BasicBlock]int{}
		for i, b := range info.rpo {
			rank[b] = i
		}
		for _, b := range info.rpo {
			for _, s := range b.Succs {
				if rank[s] <= rank[b] && !s.Dominates(b) {
					r.bad("loop", f.String(), e.pos(f.Pos()), f.Name()+": a jump into the middle of a loop, not analysable")
				}
			}
			lp := info.loops[b]
			if lp == nil {
				continue
			}
			r.ob("loop", f.String())
			if why, ok := t.advances(f, lp, info); !ok {
				pos := f.Pos()
				for _, i := range b.Instrs {
					if i.Pos() != 0 {
						pos = i.Pos()
					}
				}
				r.bad("loop", f.String()+fmt.Sprint(b.Index), e.pos(pos), fmt.Sprintf("%s: a loop is not seen to end: %s", f.Name(), why))
			}
		}
		r.ob("recursion", f.String())
	}
	for _, c := range t.circles() {
		bad, done := t.endless(c)
		if !done {
			r.bad("recursion", c[0].ctx, e.pos(c[0].f.Pos()), "too many ways around the circle of calls through "+c[0].f.Name())
			continue
		}
		// walks that no smaller operand ends: every call on them must be among
		// those the exploration made and saw return
		in := map[*node]bool{}
		for _, g := range bad {
			in[g.from] = true
		}
		for _, f := range c {
			if !in[f] {
				continue
			}
			for _, d := range t.edges[f] {
				if !in[d.to] {
					continue
				}
				r.ob("recursion", f.ctx)
				if !e.calls[[2]*ssa.Function{f.f, d.to.f}] {
					why := ""
					for _, g := range bad {
						if g.from == f {
							why = g.path
							break
						}
					}
					r.bad("recursion", f.f.String()+"|"+d.to.f.String(), e.pos(d.site.Pos()), fmt.Sprintf("%s calls %s on operands that are no part of its own (%s), and the exploration never takes that call", f.f.Name(), d.to.f.Name(), why))
				}
			}
		}
	}
}
