package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDecided = 4000 // iterations without a choice
const maxLoop = 80      // loop iterations kept apart before the loop is cut (and reported undecided)
const maxStates = 400   // disjuncts per block
const maxRec = 4        // nested activations of one function with the same operands
const maxDeep = 40      // nested activations of one function with ever other operands

// Eng is the abstract interpreter: forward, context-sensitive, over the
// package's SSA form, with a bounded disjunctive domain.
type Eng struct {
	ctx       map[string]string // texts of contexts
	l         *Loaded
	base      map[int]Obj
	globals   map[*ssa.Global]int
	next0     int
	stack     []*ssa.Function
	stackArgs [][]Val
	budget    int
	loops     map[*ssa.Function]*loopInfo
	zeros     map[types.Type]Val
	poss      map[token.Pos]string
	opt       *Opts
	inInit    bool
	evals     int
	onCall    func(fn *ssa.Function, args []Val, st *State) ([]Out, bool)
	onInv     func(recv *Sym, m *types.Func, args []Val, st *State) ([]Out, bool)
	undec     map[string]bool
	visited   map[*ssa.Function]bool
	calls     map[[2]*ssa.Function]bool // caller and callee
	// plainAccept: opaque children write their text without the renderer protocol
	plainAccept bool
	inputs      map[string]string
	summaries   map[string]string
	sumEffects  map[string][]Event // what summarised functions write
	wordEffects []Event
	bind        map[string]EV // values that client expressions may name
}

// Opts are the assumptions about inputs under which one analysis run is made.
type Opts struct {
	errored  map[string]bool // opaque operands that carry an error
	sliceLen func(name string, t types.Type) int
	nilPtr   func(name string, t types.Type) bool
	absent   map[string]bool
	fields   func(owner types.Type, field *types.Var, name string) (Val, bool)
	boolVal  func(name string) (bool, bool)
	open     bool                       // fork on every type test of an opaque operand (default: operands are of an unrelated leaf type)
	kind     map[string]map[string]bool // interface types an opaque operand implements beyond its static type
}

type Out struct {
	st    *State
	ret   Val // nil when the function returns nothing
	panic string
	pos   string
}

type FState struct {
	st     *State
	regs   map[ssa.Value]Val
	pred   *ssa.BasicBlock
	defers []func(*State) []Out
}

func (f *FState) clone() *FState {
	n := &FState{st: f.st.clone(), regs: make(map[ssa.Value]Val, len(f.regs)+8), pred: f.pred, defers: f.defers}
	for k, v := range f.regs {
		n.regs[k] = v
	}
	return n
}

// ---------------------------------------------------------------- loops

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}
type loopInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loop
}

func (e *Eng) loopsOf(fn *ssa.Function) *loopInfo {
	if li := e.loops[fn]; li != nil {
		return li
	}
	li := &loopInfo{loops: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		li.rpo = append(li.rpo, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(li.rpo)-1; i < j; i, j = i+1, j-1 {
		li.rpo[i], li.rpo[j] = li.rpo[j], li.rpo[i]
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.loops[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.loops[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	e.loops[fn] = li
	return li
}

// ---------------------------------------------------------------- running a function

func (e *Eng) pos(p token.Pos) string {
	if s, ok := e.poss[p]; ok {
		return s
	}
	s := e.newPos(p)
	e.poss[p] = s
	return s
}

func (e *Eng) newPos(p token.Pos) string {
	ps := e.l.fset.Position(p)
	if !ps.IsValid() {
		return "-"
	}
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (e *Eng) exec(fn *ssa.Function, args []Val, binds []Val, st *State) []Out {
	if e.onCall != nil {
		if outs, ok := e.onCall(fn, args, st); ok {
			return outs
		}
	}
	if fn.Name() == "accept" && len(args) == 2 && !e.plainAccept {
		if n := e.leafName(args[0]); n != "" {
			if p, ok := args[1].(*Ptr); ok && e.builderIn(st, p) != nil {
				return e.acceptLeaf(st, p, &Sym{name: n, t: e.l.iface("Visitable"), nn: true}, nil)
			}
		}
	}
	if fn.Blocks == nil || fn.Pkg != nil && fn.Pkg != e.l.ssapkg {
		return e.external(fn, args, st)
	}
	if !e.inInit {
		if v, ok := e.quoteCall(fn, args, st); ok {
			return []Out{{st: st, ret: e.resolveBool(st, v)}}
		}
	}
	if e.isStringPredicate(fn) && len(args) > 0 {
		opaque := false
		for _, a := range args {
			if _, ok := constStr(a); !ok {
				opaque = true
			}
		}
		if opaque {
			return []Out{{st: st, ret: &Sym{name: fn.Name() + "(" + joinK(args) + ")", t: types.Typ[types.Bool], fn: "pred:" + fn.Name(), args: args}}}
		}
	}
	n, smaller := 0, 0
	for i, f := range e.stack {
		if f == fn {
			n++
			if shorterThan(args, e.stackArgs[i]) {
				smaller++
			}
		}
	}
	if smaller >= 2 && smaller == n {
		return nil // each activation works on a proper part of the text of the one before: further ones repeat the first
	}
	if n >= maxRec && (n >= maxDeep || e.repeats(fn, args) >= maxRec-1) || len(e.stack) > 250 {
		st = st.clone()
		st.events = append(st.events, Event{"recursion", fn.String(), e.pos(fn.Pos()), e.where()})
		return []Out{{st: st, panic: "unbounded recursion through " + fn.Name(), pos: e.pos(fn.Pos())}}
	}
	if e.budget <= 0 {
		e.undec["budget exhausted in "+fn.String()] = true
		return nil
	}
	e.visited[fn] = true
	if n := len(e.stack); n > 0 {
		e.calls[[2]*ssa.Function{e.stack[n-1], fn}] = true
	}
	e.stack = append(e.stack, fn)
	e.stackArgs = append(e.stackArgs, args)
	defer func() {
		e.stack = e.stack[:len(e.stack)-1]
		e.stackArgs = e.stackArgs[:len(e.stackArgs)-1]
	}()
	entryNext := st.next
	fs := &FState{st: st.clone(), regs: make(map[ssa.Value]Val, 32)}
	for i, p := range fn.Params {
		if i < len(args) {
			fs.regs[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			fs.regs[f] = binds[i]
		}
	}
	li := e.loopsOf(fn)
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range li.rpo {
		all[b] = true
	}
	var outs []Out
	e.region(fn, li, all, fn.Blocks[0], []*FState{fs}, nil, &outs)
	return e.mergeOuts(outs, st, entryNext)
}

// repeats counts the activations of fn under way with these very operands.
func (e *Eng) repeats(fn *ssa.Function, args []Val) int {
	k, n := joinK(args), 0
	for i, f := range e.stack {
		if f == fn && joinK(e.stackArgs[i]) == k {
			n++
		}
	}
	return n
}

func (e *Eng) where() string {
	if len(e.stack) == 0 {
		return ""
	}
	return e.stack[len(e.stack)-1].Name()
}

// region runs the blocks of one region (the function, or a loop body once).
func (e *Eng) region(fn *ssa.Function, li *loopInfo, blocks map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, in []*FState, cur *loop, outs *[]Out) (back []*FState, exits map[*ssa.BasicBlock][]*FState) {
	pending := map[*ssa.BasicBlock][]*FState{entry: in}
	exits = map[*ssa.BasicBlock][]*FState{}
	for _, b := range li.rpo {
		if !blocks[b] || len(pending[b]) == 0 {
			continue
		}
		states := pending[b]
		delete(pending, b)
		if l := li.loops[b]; l != nil && l != cur {
			it := states
			// an iteration one state enters and one state leaves for the next was
			// decided by known values: such iterations (a loop over the bytes of a
			// known text) count for less
			for i, decided := 0, 0; len(it) > 0; i++ {
				if i-decided >= maxLoop || decided >= maxDecided {
					e.undec[fmt.Sprintf("loop bound reached in %s", fn.String())] = true
					break
				}
				bk, ex := e.region(fn, li, l.blocks, b, it, l, outs)
				for _, t := range sortedBlocks(ex) {
					if blocks[t] && !(cur != nil && t == cur.header) {
						pending[t] = append(pending[t], ex[t]...)
					} else if cur != nil && t == cur.header {
						back = append(back, ex[t]...)
					} else {
						exits[t] = append(exits[t], ex[t]...)
					}
				}
				if len(it) == 1 && len(bk) == 1 && len(ex) == 0 {
					decided++
				}
				it = bk
			}
			continue
		}
		for _, r := range e.block(b, states, outs) {
			switch {
			case cur != nil && r.to == cur.header:
				back = append(back, r.fs)
			case blocks[r.to]:
				pending[r.to] = append(pending[r.to], r.fs)
			default:
				exits[r.to] = append(exits[r.to], r.fs)
			}
		}
	}
	return back, exits
}

func sortedBlocks(m map[*ssa.BasicBlock][]*FState) []*ssa.BasicBlock {
	var bs []*ssa.BasicBlock
	for b := range m {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	return bs
}

type edge struct {
	to *ssa.BasicBlock
	fs *FState
}

func regKey(f *FState) string {
	ks := make([]string, 0, len(f.regs))
	for r, v := range f.regs {
		ks = append(ks, r.Name()+"="+v.K())
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// merge joins disjuncts that agree on registers and heap: the join keeps the
// facts they share.
func (e *Eng) merge(b *ssa.BasicBlock, in []*FState) []*FState {
	if len(in) < 2 {
		return in
	}
	idx := map[string]*FState{}
	var out []*FState
	for _, f := range in {
		k := regKey(f) + "|" + f.st.heapKey()
		if o := idx[k]; o != nil {
			for fk, fv := range o.st.facts {
				if v, ok := f.st.facts[fk]; !ok || v != fv {
					o.st.dropFact(fk)
				}
			}
			continue
		}
		idx[k] = f
		out = append(out, f)
	}
	if len(out) > maxStates {
		e.undec["too many disjuncts in "+b.Parent().String()] = true
		out = out[:maxStates]
	}
	return out
}

func (e *Eng) mergeOuts(outs []Out, entry *State, entryNext int) []Out {
	if len(outs) < 2 {
		return outs
	}
	idx := map[string]int{}
	var res []Out
	for _, o := range outs {
		e.gc(o, entry, entryNext)
		k := o.panic + "|" + o.pos + "|"
		if o.ret != nil {
			k += o.ret.K()
		}
		k += "|" + o.st.heapKey()
		if i, ok := idx[k]; ok {
			for fk, fv := range res[i].st.facts {
				if v, ok := o.st.facts[fk]; !ok || v != fv {
					res[i].st.dropFact(fk)
				}
			}
			continue
		}
		idx[k] = len(res)
		res = append(res, o)
	}
	return res
}

// gc drops cells allocated by the callee that the result cannot reach.
func (e *Eng) gc(o Out, entry *State, entryNext int) {
	reach := map[int]bool{}
	var visit func(v Val)
	visitObj := func(id int) {
		if reach[id] || id <= entryNext && o.st.same(entry, id) {
			return
		}
		reach[id] = true
		if ob, ok := o.st.get(id); ok {
			visit(ob.v)
		}
	}
	visit = func(v Val) {
		switch v := v.(type) {
		case *StructV:
			for _, f := range v.f {
				visit(f)
			}
		case *ArrV:
			for _, f := range v.elems {
				visit(f)
			}
		case *Iface:
			visit(v.v)
		case *Ptr:
			visitObj(v.obj)
		case *SliceV:
			visitObj(v.obj)
		case *MapV:
			visitObj(v.obj)
		case *MapC:
			for _, x := range v.ents {
				visit(x.k)
				visit(x.v)
			}
		case *FuncV:
			for _, x := range v.binds {
				visit(x)
			}
		case *TupleV:
			for _, x := range v.vs {
				visit(x)
			}
		case *Sym:
			for _, x := range v.args {
				visit(x)
			}
		case *Cat:
			for _, x := range v.parts {
				visit(x)
			}
		}
	}
	if o.ret != nil {
		visit(o.ret)
	}
	// What the call did not write refers to nothing newer.
	o.st.each(func(id int, _ Obj) {
		if id <= entryNext {
			visitObj(id)
		}
	})
	o.st.each(func(id int, _ Obj) {
		if id > entryNext && !reach[id] {
			o.st.drop(id)
		}
	})
}

// block executes one basic block for a set of disjuncts.
func (e *Eng) block(b *ssa.BasicBlock, in []*FState, outs *[]Out) []edge {
	// phis first
	nphi := 0
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			nphi++
		} else {
			break
		}
	}
	if nphi > 0 {
		for _, f := range in {
			pi := -1
			for i, p := range b.Preds {
				if p == f.pred {
					pi = i
				}
			}
			vals := make([]Val, nphi)
			for i := 0; i < nphi; i++ {
				vals[i] = e.operand(f, b.Instrs[i].(*ssa.Phi).Edges[pi])
			}
			for i := 0; i < nphi; i++ {
				f.regs[b.Instrs[i].(*ssa.Phi)] = vals[i]
			}
		}
	}
	states := e.merge(b, in)
	for _, ins := range b.Instrs[nphi:] {
		var next []*FState
		for _, f := range states {
			e.budget--
			if e.budget <= 0 {
				e.undec["budget exhausted in "+b.Parent().String()] = true
				return nil
			}
			switch ins := ins.(type) {
			case *ssa.If:
				return e.branch(b, ins, states)
			case *ssa.Jump:
				var es []edge
				for _, g := range states {
					g.pred = b
					es = append(es, edge{b.Succs[0], g})
				}
				return es
			case *ssa.Return:
				for _, g := range states {
					var ret Val
					switch len(ins.Results) {
					case 0:
					case 1:
						ret = e.operand(g, ins.Results[0])
					default:
						t := &TupleV{}
						for _, r := range ins.Results {
							t.vs = append(t.vs, e.operand(g, r))
						}
						ret = t
					}
					*outs = append(*outs, Out{st: g.st, ret: ret, pos: e.pos(ins.Pos())})
				}
				return nil
			case *ssa.Panic:
				for _, g := range states {
					*outs = append(*outs, Out{st: g.st, panic: "explicit panic", pos: e.pos(ins.Pos())})
				}
				return nil
			case *ssa.RunDefers:
				fs := []*FState{f}
				ds := f.defers
				f.defers = nil
				for i := len(ds) - 1; i >= 0; i-- {
					var nf []*FState
					for _, g := range fs {
						for _, o := range ds[i](g.st) {
							h := g.clone()
							h.st = o.st
							nf = append(nf, h)
						}
					}
					fs = nf
				}
				next = append(next, fs...)
			default:
				next = append(next, e.instr(f, ins, outs)...)
			}
		}
		states = next
		if len(states) == 0 {
			return nil
		}
	}
	return nil
}

func (e *Eng) branch(b *ssa.BasicBlock, ins *ssa.If, states []*FState) []edge {
	var es []edge
	for _, f := range states {
		c := e.resolveBool(f.st, e.operand(f, ins.Cond))
		if v, ok := constBool(c); ok {
			f.pred = b
			if v {
				es = append(es, edge{b.Succs[0], f})
			} else {
				es = append(es, edge{b.Succs[1], f})
			}
			continue
		}
		t := f.clone()
		e.assume(t.st, c, true)
		t.pred = b
		e.assume(f.st, c, false)
		f.pred = b
		es = append(es, edge{b.Succs[0], t}, edge{b.Succs[1], f})
	}
	return es
}

func negate(v Val) Val {
	if b, ok := constBool(v); ok {
		return boolV(!b)
	}
	s, ok := v.(*Sym)
	if !ok {
		return v
	}
	if strings.HasPrefix(s.name, "!") {
		return &Sym{name: s.name[1:], t: s.t, fn: s.fn, args: s.args}
	}
	return &Sym{name: "!" + s.name, t: s.t, fn: s.fn, args: s.args}
}

func (e *Eng) resolveBool(st *State, v Val) Val {
	s, ok := v.(*Sym)
	if !ok {
		return v
	}
	name, pol := s.name, true
	if strings.HasPrefix(name, "!") {
		name, pol = name[1:], false
	}
	if f, ok := st.facts[name]; ok {
		return boolV(f == pol)
	}
	return v
}

func (e *Eng) assume(st *State, v Val, truth bool) {
	s, ok := v.(*Sym)
	if !ok {
		return
	}
	name := s.name
	if strings.HasPrefix(name, "!") {
		name, truth = name[1:], !truth
	}
	st.setFact(name, truth)
}

// ---------------------------------------------------------------- operands and memory

func (e *Eng) operand(f *FState, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		id, ok := e.globals[v]
		if !ok {
			return &Sym{name: "extglobal:" + v.String(), t: v.Type(), nn: true}
		}
		return &Ptr{obj: id}
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Builtin:
		return &Sym{name: "builtin:" + v.Name(), t: v.Type()}
	}
	if r, ok := f.regs[v]; ok {
		return r
	}
	return &Sym{name: "undef:" + v.Name(), t: v.Type()}
}

func (e *Eng) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	return Const{c.Value, c.Type()}
}

func (e *Eng) zero(t types.Type) Val {
	if v, ok := e.zeros[t]; ok {
		return v
	}
	v := e.newZero(t)
	e.zeros[t] = v
	return v
}

func (e *Eng) newZero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return falseV
		case u.Info()&types.IsString != 0:
			return strV("")
		case u.Info()&types.IsInteger != 0:
			return Const{constant.MakeInt64(0), t}
		case u.Info()&types.IsFloat != 0:
			return Const{constant.MakeFloat64(0), t}
		}
		return NilV{}
	case *types.Struct:
		s := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrV{}
		n := int(u.Len())
		if n > 64 {
			n = 64
		}
		for i := 0; i < n; i++ {
			a.elems = append(a.elems, e.zero(u.Elem()))
		}
		return a
	case *types.Tuple:
		tu := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tu.vs = append(tu.vs, e.zero(u.At(i).Type()))
		}
		return tu
	}
	return NilV{}
}

func (e *Eng) obj(st *State, id int) (Obj, bool) {
	if o, ok := st.get(id); ok {
		return o, true
	}
	o, ok := e.base[id]
	return o, ok
}

func (e *Eng) alloc(st *State, v Val, pre bool, name string) int {
	st.next++
	st.put(st.next, Obj{v, pre, name})
	return st.next
}

func getPath(v Val, path []int) (Val, bool) {
	for _, p := range path {
		switch x := v.(type) {
		case *StructV:
			if p >= len(x.f) {
				return nil, false
			}
			v = x.f[p]
		case *ArrV:
			if p < 0 || p >= len(x.elems) {
				return nil, false
			}
			v = x.elems[p]
		default:
			return nil, false
		}
	}
	return v, true
}

func setPath(v Val, path []int, nv Val) (Val, bool) {
	if len(path) == 0 {
		return nv, true
	}
	switch x := v.(type) {
	case *StructV:
		if path[0] >= len(x.f) {
			return nil, false
		}
		c, ok := setPath(x.f[path[0]], path[1:], nv)
		if !ok {
			return nil, false
		}
		f := append([]Val(nil), x.f...)
		f[path[0]] = c
		return &StructV{t: x.t, f: f}, true
	case *ArrV:
		if path[0] < 0 || path[0] >= len(x.elems) {
			return nil, false
		}
		c, ok := setPath(x.elems[path[0]], path[1:], nv)
		if !ok {
			return nil, false
		}
		el := append([]Val(nil), x.elems...)
		el[path[0]] = c
		return &ArrV{elems: el}, true
	}
	return nil, false
}

func (e *Eng) load(st *State, p *Ptr) (Val, bool) {
	o, ok := e.obj(st, p.obj)
	if !ok {
		return nil, false
	}
	return getPath(o.v, p.path)
}

func (e *Eng) store(st *State, p *Ptr, v Val, pos token.Pos) bool {
	o, ok := e.obj(st, p.obj)
	if !ok {
		return false
	}
	nv, ok := setPath(o.v, p.path, v)
	if !ok {
		return false
	}
	if o.pre && !e.inInit {
		st.events = append(st.events, Event{"write", fmt.Sprintf("%s%v", o.name, e.pathName(o.v, p.path)), e.pos(pos), e.where()})
	}
	o.v = nv
	st.put(p.obj, o)
	return true
}

func (e *Eng) pathName(v Val, path []int) string {
	s := ""
	for _, p := range path {
		switch x := v.(type) {
		case *StructV:
			if u, ok := x.t.Underlying().(*types.Struct); ok && p < u.NumFields() {
				s += "." + u.Field(p).Name()
			}
			if p < len(x.f) {
				v = x.f[p]
			}
		case *ArrV:
			s += "[]"
			if p >= 0 && p < len(x.elems) {
				v = x.elems[p]
			}
		}
	}
	return s
}

func (e *Eng) elems(st *State, v Val) ([]Val, bool) {
	switch s := v.(type) {
	case *SliceV:
		o, ok := e.load(st, &Ptr{s.obj, s.path})
		if !ok {
			return nil, false
		}
		a, ok := o.(*ArrV)
		if !ok || s.lo+s.n > len(a.elems) {
			return nil, false
		}
		return a.elems[s.lo : s.lo+s.n], true
	case NilV:
		return nil, true
	}
	return nil, false
}

func (e *Eng) newSlice(st *State, elems []Val, capKnown int, pre bool, name string) Val {
	id := e.alloc(st, &ArrV{elems: append([]Val(nil), elems...)}, pre, name)
	return &SliceV{obj: id, n: len(elems), cap: capKnown}
}

// isStringPredicate: a pure function from strings to bool that walks the runes
// of its argument; kept uninterpreted here and analysed by its own rule.
func (e *Eng) isStringPredicate(fn *ssa.Function) bool {
	sig := fn.Signature
	if sig.Recv() != nil || sig.Results().Len() != 1 || sig.Params().Len() == 0 {
		return false
	}
	if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if b, ok := sig.Params().At(i).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			return false
		}
	}
	for _, b := range fn.Blocks {
		if li := e.loopsOf(fn); len(li.loops) > 0 {
			return true
		}
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if callee := c.Common().StaticCallee(); callee != nil && callee.Pkg != e.l.ssapkg && callee.Pkg != nil {
					switch callee.Pkg.Pkg.Path() {
					case "strings", "regexp", "unicode", "unicode/utf8":
						// e.g. strings.IndexFunc(...) == -1
						if strings.HasSuffix(callee.Name(), "Func") || callee.Pkg.Pkg.Path() == "regexp" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func joinK(vs []Val) string {
	var ss []string
	for _, v := range vs {
		ss = append(ss, v.K())
	}
	return strings.Join(ss, ",")
}

// shorterThan: some string operand is a proper part of the earlier one's.
func shorterThan(now, before []Val) bool {
	for i := range now {
		if i >= len(before) {
			break
		}
		for s, ok := now[i].(*Sym); ok && (s.fn == "slice" || s.fn == "strings.TrimPrefix") && len(s.args) > 0; s, ok = s.args[0].(*Sym) {
			if s.args[0].K() == before[i].K() {
				return true
			}
		}
	}
	return false
}
