package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) callInstr(f *FState, ins *ssa.Call, c *ssa.CallCommon, outs *[]Out) []*FState {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.operand(f, a))
	}
	var res []Out
	if c.IsInvoke() {
		recv := e.operand(f, c.Value)
		res = e.invoke(f.st, recv, c.Method, args, e.pos(ins.Pos()))
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		v, pan := e.builtin(f, ins, b.Name(), c, args)
		if pan != "" {
			*outs = append(*outs, Out{st: f.st, panic: pan, pos: e.pos(ins.Pos())})
			return nil
		}
		f.regs[ins] = v
		return []*FState{f}
	} else {
		switch fv := e.operand(f, c.Value).(type) {
		case *FuncV:
			res = e.exec(fv.fn, args, fv.binds, f.st)
		case NilV:
			res = []Out{{st: f.st, panic: "call of nil function", pos: e.pos(ins.Pos())}}
		default:
			res = []Out{{st: f.st, ret: e.fresh(f.st, ins.Type(), fv.K()+"("+joinK(args)+")")}}
		}
	}
	var next []*FState
	for _, o := range res {
		if o.panic != "" {
			*outs = append(*outs, o)
			continue
		}
		g := &FState{st: o.st, pred: f.pred, defers: f.defers, regs: make(map[ssa.Value]Val, len(f.regs)+4)}
		for k, v := range f.regs {
			g.regs[k] = v
		}
		if o.ret != nil {
			g.regs[ins] = o.ret
		}
		next = append(next, g)
	}
	return next
}

func (e *Eng) invoke(st *State, recv Val, m *types.Func, args []Val, pos string) []Out {
	switch r := recv.(type) {
	case NilV:
		return []Out{{st: st, panic: "method " + m.Name() + " called on nil interface", pos: pos}}
	case *Iface:
		fn := e.l.method(r.dyn, m.Name())
		if fn != nil {
			return e.exec(fn, append([]Val{r.v}, args...), nil, st)
		}
	case *Sym:
		if e.onInv != nil {
			if o, ok := e.onInv(r, m, args, st); ok {
				return o
			}
		}
		if !r.nn {
			if v, ok := st.facts["nil("+r.name+")"]; !ok || v {
				if ok && v {
					return []Out{{st: st, panic: "method " + m.Name() + " called on nil interface", pos: pos}}
				}
				st.events = append(st.events, Event{"maybe-panic", "method " + m.Name() + " on possibly nil " + r.name, pos, e.where()})
			}
		}
		if m.Name() == "accept" && len(args) == 1 && !e.plainAccept {
			if p, ok := args[0].(*Ptr); ok && e.builderIn(st, p) != nil {
				return e.acceptLeaf(st, p, r, nil)
			}
		}
		return e.opaqueMethod(st, r, m, args)
	}
	e.undec["invoke on "+recv.K()] = true
	sig := m.Type().(*types.Signature)
	return []Out{{st: st, ret: e.resultOf(st, sig, recv.K()+"."+m.Name())}}
}

func (e *Eng) resultOf(st *State, sig *types.Signature, name string) Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return e.fresh(st, sig.Results().At(0).Type(), name)
	}
	t := &TupleV{}
	for i := 0; i < sig.Results().Len(); i++ {
		t.vs = append(t.vs, e.fresh(st, sig.Results().At(i).Type(), fmt.Sprintf("%s#%d", name, i)))
	}
	return t
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// opaqueMethod models a method of an operand known only by its interface: the
// contracts used here are the ones the other rules establish for every
// implementation in the package.
func (e *Eng) opaqueMethod(st *State, r *Sym, m *types.Func, args []Val) []Out {
	sig := m.Type().(*types.Signature)
	if sig.Results().Len() == 1 && len(args) == 0 {
		rt := sig.Results().At(0).Type()
		if isErrorType(rt) {
			if e.isErr(r.name) {
				return []Out{{st: st, ret: &Sym{name: "err(" + r.name + ")", t: rt, nn: true, fn: "err", args: []Val{r}}}}
			}
			return []Out{{st: st, ret: NilV{}}}
		}
		if m.Name() == "isNotNil" {
			return []Out{{st: st, ret: boolV(!e.opt.absent[r.name])}}
		}
		if m.Name() == "getKey" {
			return []Out{{st: st, ret: &Sym{name: "key(" + r.name + ")", t: rt, nn: true, fn: "unique", args: []Val{r}}}}
		}
	}
	// traversal: the child writes its own text
	for i := 0; i < sig.Params().Len() && i < len(args); i++ {
		if p, ok := args[i].(*Ptr); ok {
			if bp := e.builderIn(st, p); bp != nil {
				old, _ := e.load(st, bp)
				if m.Name() == "leave" {
					continue
				}
				nm := "<" + r.name + ">"
				if m.Name() != "enter" && m.Name() != "accept" {
					nm = "<" + m.Name() + " " + r.name + ">"
				}
				txt := &Sym{name: nm, t: types.Typ[types.String], nn: true, fn: "child", args: []Val{r}}
				e.store(st, bp, catV(builderText(old), txt), 0)
			}
		}
	}
	if outs, ok := e.viaHandle(st, r, m, args); ok {
		return outs
	}
	name := r.name + "." + m.Name() + "(" + joinK(args) + ")"
	// an element derived from an erroneous one is erroneous (established by C01)
	bad := e.isErr(r.name)
	for _, a := range args {
		if e.carriesErr(st, a) {
			bad = true
		}
	}
	if bad && m.Name() != "GetSymbolicName" && m.Name() != "Get" {
		e.opt.errored[name] = true
	}
	if m.Name() == "Get" && bad {
		e.opt.errored[name] = true
	}
	ret := e.resultOf(st, sig, name)
	if s, ok := ret.(*Sym); ok && isBasic(s.t) {
		s.fn = "opaque"
	}
	return []Out{{st: st, ret: ret}}
}

// viaHandle: the fluent operations of an operand known only by its interface
// are those of the package's own handle around it.
func (e *Eng) viaHandle(st *State, r *Sym, m *types.Func, args []Val) ([]Out, bool) {
	rt := m.Type().(*types.Signature).Results()
	if rt.Len() != 1 || !e.l.isHandle(rt.At(0).Type()) && !e.l.isElem(rt.At(0).Type()) || m.Name() == "Get" {
		return nil, false
	}
	for _, hn := range []string{"ConditionContainer", "ExpressionContainer"} {
		h := e.l.named(hn)
		wrap := e.l.ssapkg.Func(strings.TrimSuffix(hn, "Container") + "Wrap")
		if h == nil || wrap == nil || wrap.Signature.Params().Len() != 1 {
			continue
		}
		it, ok := wrap.Signature.Params().At(0).Type().Underlying().(*types.Interface)
		if !ok || !types.Implements(r.t, it) {
			continue
		}
		fn := e.l.method(h, m.Name())
		if fn == nil {
			continue
		}
		var res []Out
		for _, o := range e.exec(wrap, []Val{r}, nil, st) {
			if o.panic != "" {
				res = append(res, o)
				continue
			}
			res = append(res, e.exec(fn, append([]Val{o.ret}, args...), nil, o.st)...)
		}
		return res, true
	}
	return nil, false
}

// acceptLeaf models the traversal of an operand that is a single leaf for the
// analysis: it goes through the renderer's own enter and leave.
func (e *Eng) acceptLeaf(st *State, p *Ptr, child Val, txt Val) []Out {
	pt := types.NewPointer(e.l.rendererT)
	enter, leave := e.l.method(pt, "enter"), e.l.method(pt, "leave")
	if enter == nil || leave == nil {
		e.undec["renderer has no enter/leave"] = true
		return nil
	}
	var res []Out
	for _, o := range e.exec(enter, []Val{p, child}, nil, st) {
		if o.panic != "" {
			res = append(res, o)
			continue
		}
		for _, o2 := range e.exec(leave, []Val{p, child}, nil, o.st) {
			if o2.panic == "" {
				o2.ret = nil
			}
			res = append(res, o2)
		}
	}
	return res
}

func (e *Eng) isErr(name string) bool {
	if e.opt == nil || e.opt.errored == nil {
		return false
	}
	if e.opt.errored[name] {
		return true
	}
	// a concrete or element view of the operand
	for k := range e.opt.errored {
		if strings.HasPrefix(name, k+".") && !strings.ContainsAny(name[len(k)+1:], ".([") {
			// direct view "op.Type" (type assertion); fields never carry it
			if r := name[len(k)+1]; r >= 'A' && r <= 'Z' {
				return true
			}
		}
	}
	return false
}

// carriesErr: the value itself is known to carry an error.
func (e *Eng) carriesErr(st *State, v Val) bool {
	found := false
	e.walk(st, v, func(x Val) bool {
		if s, ok := x.(*Sym); ok && (s.fn == "err" || e.isErr(s.name)) {
			found = true
		}
		return !found
	})
	return found
}

// walk visits a value and everything reachable from it.
func (e *Eng) walk(st *State, v Val, f func(Val) bool) {
	seen := map[int]bool{}
	var rec func(v Val) bool
	obj := func(id int, path []int) bool {
		if seen[id] {
			return true
		}
		seen[id] = true
		if o, ok := e.obj(st, id); ok {
			return rec(o.v)
		}
		return true
	}
	all := func(vs []Val) bool {
		for _, x := range vs {
			if !rec(x) {
				return false
			}
		}
		return true
	}
	rec = func(v Val) bool {
		if v == nil {
			return true
		}
		if !f(v) {
			return false
		}
		switch v := v.(type) {
		case *StructV:
			return all(v.f)
		case *ArrV:
			return all(v.elems)
		case *Iface:
			return rec(v.v)
		case *Ptr:
			return obj(v.obj, v.path)
		case *SliceV:
			// only the visible window
			if el, ok := e.elems(st, v); ok {
				return all(el)
			}
		case *MapV:
			return obj(v.obj, nil)
		case *MapC:
			for _, x := range v.ents {
				if !rec(x.k) || !rec(x.v) {
					return false
				}
			}
		case *FuncV:
			return all(v.binds)
		case *TupleV:
			return all(v.vs)
		case *Sym:
			return all(v.args)
		case *Cat:
			return all(v.parts)
		}
		return true
	}
	rec(v)
}

// builderIn finds the strings.Builder inside the object a pointer leads to.
func (e *Eng) builderIn(st *State, p *Ptr) *Ptr {
	t := e.l.rendererT
	if t == nil {
		return nil
	}
	v, ok := e.load(st, p)
	if !ok {
		return nil
	}
	s, ok := v.(*StructV)
	if !ok || !types.Identical(s.t, t) {
		return nil
	}
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if isBuilderType(u.Field(i).Type()) {
			return &Ptr{p.obj, append(append([]int(nil), p.path...), i)}
		}
	}
	return nil
}

func isBuilderType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder" || n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer")
}

func builderText(v Val) Val {
	if _, ok := v.(*StructV); ok || v == nil {
		return strV("")
	}
	return v
}

// ---------------------------------------------------------------- fresh inputs

func (e *Eng) fresh(st *State, t types.Type, name string) Val { return e.freshD(st, t, name, 0) }

func (e *Eng) freshD(st *State, t types.Type, name string, depth int) Val {
	if depth > 12 {
		return &Sym{name: name, t: t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if e.opt != nil && e.opt.boolVal != nil && u.Info()&types.IsBoolean != 0 {
			if b, ok := e.opt.boolVal(name); ok {
				return boolV(b)
			}
		}
		return &Sym{name: name, t: t, nn: u.Info()&types.IsString != 0}
	case *types.Interface:
		if isErrorType(t) {
			if e.isErr(name) {
				return &Sym{name: "err(" + name + ")", t: t, nn: true, fn: "err"}
			}
			return NilV{}
		}
		return &Sym{name: name, t: t, nn: true}
	case *types.Struct:
		if isBuilderType(t) {
			return e.zero(t)
		}
		return e.freshStruct(st, t, u, name, depth)
	case *types.Pointer:
		if e.opt != nil && e.opt.nilPtr != nil && e.opt.nilPtr(name, t) {
			return NilV{}
		}
		if isPkg(u.Elem(), e.l.pkg) || isBasic(u.Elem()) {
			id := e.alloc(st, nil, true, name)
			st.put(id, Obj{e.freshD(st, u.Elem(), name+".*", depth+1), true, name})
			return &Ptr{obj: id}
		}
		return &Sym{name: name, t: t, nn: true}
	case *types.Slice:
		n := 1
		if e.opt != nil && e.opt.sliceLen != nil {
			n = e.opt.sliceLen(name, t)
		}
		if n < 0 {
			return NilV{}
		}
		elems := make([]Val, n)
		for i := range elems {
			elems[i] = e.freshD(st, u.Elem(), fmt.Sprintf("%s[%d]", name, i), depth+1)
		}
		return e.newSlice(st, elems, -1, true, name)
	case *types.Map:
		id := e.alloc(st, &MapC{open: name, vt: u.Elem()}, true, name)
		return &MapV{id}
	case *types.Array:
		a := &ArrV{}
		for i := 0; i < int(u.Len()) && i < 32; i++ {
			a.elems = append(a.elems, e.freshD(st, u.Elem(), fmt.Sprintf("%s[%d]", name, i), depth+1))
		}
		return a
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, e.freshD(st, u.At(i).Type(), fmt.Sprintf("%s#%d", name, i), depth+1))
		}
		return tv
	}
	return &Sym{name: name, t: t, nn: true}
}

func isPkg(t types.Type, p *types.Package) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == p
}
func isBasic(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }

func (e *Eng) freshStruct(st *State, t types.Type, u *types.Struct, name string, depth int) Val {
	s := &StructV{t: t}
	errd := e.isErr(name)
	tn := shortType(t)
	if tn == "ExpressionContainer" || tn == "ConditionContainer" {
		if errd {
			e.opt.errored[name+".expression"] = true
		}
		et := e.l.iface("Expression")
		if tn == "ConditionContainer" {
			et = e.l.iface("Condition")
		}
		inner := Val(&Sym{name: name + ".expression", t: et, nn: true})
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if shortType(ft) == "ExpressionContainer" {
				s.f = append(s.f, &StructV{t: ft, f: []Val{inner}})
			} else if types.IsInterface(ft) {
				s.f = append(s.f, inner)
			} else {
				s.f = append(s.f, e.freshD(st, ft, name+"."+u.Field(i).Name(), depth+1))
			}
		}
		return s
	}
	absent := e.opt != nil && e.opt.absent[name]
	if absent {
		return e.zero(t)
	}
	container := -1
	for i := 0; i < u.NumFields(); i++ {
		fl := u.Field(i)
		n := name + "." + fl.Name()
		if e.opt != nil && e.opt.fields != nil {
			if v, ok := e.opt.fields(t, fl, n); ok {
				s.f = append(s.f, v)
				continue
			}
		}
		ftn := shortType(fl.Type())
		switch {
		case isErrorType(fl.Type()):
			if errd {
				s.f = append(s.f, &Sym{name: "err(" + name + ")", t: fl.Type(), nn: true, fn: "err"})
			} else {
				s.f = append(s.f, NilV{})
			}
		case fl.Name() == "notNil" && isBasic(fl.Type()):
			s.f = append(s.f, trueV)
		case fl.Name() == "key" && isBasic(fl.Type()):
			s.f = append(s.f, &Sym{name: n, t: fl.Type(), nn: true, fn: "unique"})
		case fl.Embedded() && (ftn == "ExpressionContainer" || ftn == "ConditionContainer"):
			container = i
			s.f = append(s.f, e.zero(fl.Type()))
		default:
			s.f = append(s.f, e.freshD(st, fl.Type(), n, depth+1))
		}
	}
	if container >= 0 {
		self := &Iface{dyn: t, v: &StructV{t: t, f: append([]Val(nil), s.f...)}}
		ct := u.Field(container).Type()
		ec := Val(&StructV{t: ct, f: []Val{self}})
		if shortType(ct) == "ConditionContainer" {
			it := ct.Underlying().(*types.Struct).Field(0).Type()
			ec = &StructV{t: ct, f: []Val{&StructV{t: it, f: []Val{self}}}}
		}
		s.f[container] = ec
		s.k = ""
	}
	return s
}

// ---------------------------------------------------------------- builtins

func (e *Eng) builtin(f *FState, ins *ssa.Call, name string, c *ssa.CallCommon, args []Val) (Val, string) {
	st := f.st
	switch name {
	case "len", "cap":
		switch s := args[0].(type) {
		case *SliceV:
			if name == "cap" && s.cap >= 0 {
				return intV(s.cap), ""
			}
			if name == "len" {
				return intV(s.n), ""
			}
		case NilV:
			return intV(0), ""
		case *ArrV:
			return intV(len(s.elems)), ""
		case *MapV:
			if o, ok := e.obj(st, s.obj); ok {
				if mc, ok := o.v.(*MapC); ok && mc.open == "" {
					return intV(len(mc.ents)), ""
				}
			}
		}
		if s, ok := constStr(args[0]); ok {
			return intV(wordLen(s)), ""
		}
		return &Sym{name: name + "(" + args[0].K() + ")", t: types.Typ[types.Int], fn: name, args: args}, ""
	case "append":
		base := args[0]
		more, ok2 := e.elems(st, args[1])
		if s, isStr := constStr(args[1]); isStr {
			more, ok2 = nil, true
			for i := 0; i < len(s); i++ {
				more = append(more, intV(int(s[i])))
			}
		}
		old, ok1 := e.elems(st, base)
		if !ok1 || !ok2 {
			e.undec["append to unknown slice in "+ins.Parent().String()] = true
			return &Sym{name: "append(" + joinK(args) + ")", t: ins.Type(), args: args, nn: true}, ""
		}
		if len(more) == 0 {
			return base, ""
		}
		ncap := -1
		if s, ok := base.(*SliceV); ok && s.cap >= len(old)+len(more) {
			ncap = s.cap
		}
		if s, ok := base.(*SliceV); ok && (s.cap < 0 || s.cap > s.n) {
			if o, ok := e.obj(st, s.obj); ok && o.pre && !e.inInit {
				st.events = append(st.events, Event{"append-shared", o.name, e.pos(ins.Pos()), e.where()})
			}
		}
		return e.newSlice(st, append(append([]Val(nil), old...), more...), ncap, false, "append"), ""
	case "copy":
		d, ok1 := args[0].(*SliceV)
		src, ok2 := e.elems(st, args[1])
		if _, isNil := args[0].(NilV); isNil {
			return intV(0), ""
		}
		if ok1 && ok2 {
			n := len(src)
			if d.n < n {
				n = d.n
			}
			src = append([]Val(nil), src...)
			for i := 0; i < n; i++ {
				e.store(st, &Ptr{d.obj, append(append([]int(nil), d.path...), d.lo+i)}, src[i], ins.Pos())
			}
			return intV(n), ""
		}
		e.undec["copy of unknown slice in "+ins.Parent().String()] = true
		return &Sym{name: "copy", t: types.Typ[types.Int]}, ""
	case "delete":
		if m, ok := args[0].(*MapV); ok {
			o, _ := e.obj(st, m.obj)
			if mc, ok := o.v.(*MapC); ok {
				if o.pre && !e.inInit {
					st.events = append(st.events, Event{"write", o.name + "[]", e.pos(ins.Pos()), e.where()})
				}
				nm := &MapC{open: mc.open, vt: mc.vt}
				for _, en := range mc.ents {
					if b, ok := constBool(e.eq(st, en.k, args[1])); !(ok && b) {
						nm.ents = append(nm.ents, en)
					}
				}
				o.v = nm
				st.put(m.obj, o)
				if mc.open != "" {
					st.setFact("has("+mc.open+"["+args[1].K()+"])", false)
				}
			}
		}
		return NilV{}, ""
	case "panic":
		return nil, "explicit panic"
	case "print", "println", "recover":
		return NilV{}, ""
	case "ssa:wrapnilchk":
		if _, ok := args[0].(NilV); ok {
			return nil, "nil pointer dereference (value method)"
		}
		return args[0], ""
	}
	e.undec["builtin "+name] = true
	return &Sym{name: name, t: ins.Type()}, ""
}

// ---------------------------------------------------------------- external functions

func unbox(v Val) Val {
	if i, ok := v.(*Iface); ok {
		return i.v
	}
	return v
}

func (e *Eng) sym(fn string, t types.Type, args ...Val) Val {
	return &Sym{name: fn + "(" + joinK(args) + ")", t: t, fn: fn, args: args, nn: !isErrorType(t) && !isBasic(t)}
}

// term is a library call that can be evaluated again on words.
func (e *Eng) term(xfn *ssa.Function, fn string, t types.Type, args ...Val) Val {
	s := e.sym(fn, t, args...).(*Sym)
	s.xfn = xfn
	return s
}

func (e *Eng) unique(st *State) *Sym {
	st.next++
	return &Sym{name: fmt.Sprintf("uniq#%d", st.next), t: types.Typ[types.String], fn: "unique", nn: true}
}

func (e *Eng) external(fn *ssa.Function, args []Val, st *State) []Out {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	sig := fn.Signature
	ret := func(v Val) []Out { return []Out{{st: st, ret: v}} }
	if !e.inInit || !strings.HasPrefix(name, "(") {
		if outs, ok := e.pureString(name, fn, args, st); ok {
			return outs
		}
	}
	if outs, ok := e.bigCall(name, fn, args, st); ok {
		return outs
	}
	str := types.Typ[types.String]
	allConst := func() ([]string, bool) {
		var ss []string
		for _, a := range args {
			s, ok := constStr(a)
			if !ok {
				return nil, false
			}
			ss = append(ss, s)
		}
		return ss, true
	}
	strSlice := func(ss []string) Val {
		var vs []Val
		for _, s := range ss {
			vs = append(vs, strV(s))
		}
		return e.newSlice(st, vs, len(vs), false, "strings")
	}
	switch name {
	case "fmt.Sprintf", "fmt.Errorf", "golang.org/x/xerrors.Errorf":
		txt := e.format(st, args[0], args[1])
		if name == "fmt.Sprintf" {
			return ret(txt)
		}
		return ret(&Sym{name: "error(" + txt.K() + ")", t: sig.Results().At(0).Type(), nn: true, fn: "err", args: []Val{txt}})
	case "errors.New", "golang.org/x/xerrors.New":
		return ret(&Sym{name: "error(" + args[0].K() + ")", t: sig.Results().At(0).Type(), nn: true, fn: "err", args: args})
	case "fmt.Sprint":
		if el, ok := e.elems(st, args[0]); ok && len(el) == 1 {
			return ret(e.fmtVerb(st, 'v', el[0]))
		}
	case "fmt.Fprintf", "fmt.Fprint", "io.WriteString":
		if p, ok := unbox(args[0]).(*Ptr); ok {
			var txt Val
			switch name {
			case "fmt.Fprintf":
				txt = e.format(st, args[1], args[2])
			case "fmt.Fprint":
				el, _ := e.elems(st, args[1])
				var ps []Val
				for _, x := range el {
					ps = append(ps, e.fmtVerb(st, 'v', x))
				}
				txt = catV(ps...)
			default:
				txt = args[1]
			}
			old, _ := e.load(st, p)
			e.store(st, p, catV(builderText(old), txt), 0)
			return ret(&TupleV{[]Val{&Sym{name: "n", t: types.Typ[types.Int]}, NilV{}}})
		}
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		if p, ok := args[0].(*Ptr); ok {
			old, _ := e.load(st, p)
			txt := args[1]
			if n, ok := constInt(txt); ok {
				if strings.HasSuffix(name, "WriteByte") && n >= 0x80 && n < 0x100 {
					txt = strV(string([]byte{byte(n)}))
				} else {
					txt = strV(string(rune(n)))
				}
			} else if s, ok := txt.(*Sym); ok && s.fn == "bytes" {
				txt = s.args[0]
			}
			e.store(st, p, catV(builderText(old), txt), 0)
			if sig.Results().Len() == 1 {
				return ret(NilV{})
			}
			return ret(&TupleV{[]Val{&Sym{name: "n", t: types.Typ[types.Int]}, NilV{}}})
		}
		if _, ok := args[0].(NilV); ok {
			return []Out{{st: st, panic: "nil builder"}}
		}
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		if p, ok := args[0].(*Ptr); ok {
			old, _ := e.load(st, p)
			t := builderText(old)
			if s, ok := constStr(t); ok && hasCls(s) {
				t = strV(joinBytes(s))
			}
			return ret(t)
		}
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		if p, ok := args[0].(*Ptr); ok {
			old, _ := e.load(st, p)
			t := builderText(old)
			if s, ok := constStr(t); ok {
				return ret(intV(wordLen(s)))
			}
			return ret(&Sym{name: "len(" + t.K() + ")", t: types.Typ[types.Int], fn: "len", args: []Val{t}})
		}
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return ret(nil)
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		if p, ok := args[0].(*Ptr); ok {
			e.store(st, p, strV(""), 0)
		}
		return ret(nil)
	case "strings.Join":
		if el, ok := e.elems(st, args[0]); ok {
			var ps []Val
			for i, x := range el {
				if i > 0 {
					ps = append(ps, args[1])
				}
				ps = append(ps, x)
			}
			return ret(catV(ps...))
		}
	case "strings.ReplaceAll", "strings.Replace":
		if name == "strings.Replace" {
			if n, ok := constInt(args[3]); ok && n >= 0 {
				return ret(e.sym("strings.Replace/n", str, args...))
			}
			args = args[:3]
		}
		if ss, ok := allConst(); ok {
			return ret(strV(strings.ReplaceAll(ss[0], ss[1], ss[2])))
		}
		return ret(e.term(fn, "strings.ReplaceAll", str, args...))
	case "strings.TrimSpace":
		if ss, ok := allConst(); ok {
			return ret(strV(strings.TrimSpace(ss[0])))
		}
		return ret(e.term(fn, "strings.TrimSpace", str, args...))
	case "strings.Split":
		if ss, ok := allConst(); ok {
			return ret(strSlice(strings.Split(ss[0], ss[1])))
		}
		var outs []Out
		for n := 1; n <= 3; n++ {
			s2 := st.clone()
			var vs []Val
			for i := 0; i < n; i++ {
				vs = append(vs, &Sym{name: fmt.Sprintf("%s[%d]", pieceName(args[0]), i), t: str, fn: "piece", args: args, nn: true})
			}
			outs = append(outs, Out{st: s2, ret: e.newSlice(s2, vs, n, false, "split")})
		}
		return outs
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		if ss, ok := allConst(); ok {
			switch name {
			case "strings.HasPrefix":
				return ret(boolV(strings.HasPrefix(ss[0], ss[1])))
			case "strings.HasSuffix":
				return ret(boolV(strings.HasSuffix(ss[0], ss[1])))
			}
			return ret(boolV(strings.Contains(ss[0], ss[1])))
		}
		return ret(e.resolveBool(st, &Sym{name: name + "(" + joinK(args) + ")", t: types.Typ[types.Bool], fn: name, args: args}))
	case "regexp.QuoteMeta":
		if ss, ok := allConst(); ok {
			return ret(strV(regexp.QuoteMeta(ss[0])))
		}
	case "regexp.Compile":
		return ret(&TupleV{[]Val{&Sym{name: "regexp(" + args[0].K() + ")", t: sig.Results().At(0).Type(), nn: true, fn: "regexp", args: args}, NilV{}}})
	case "regexp.MustCompile":
		return ret(&Sym{name: "regexp(" + args[0].K() + ")", t: sig.Results().At(0).Type(), nn: true, fn: "regexp", args: args})
	case "strings.NewReplacer":
		el, ok := e.elems(st, args[0])
		if ok {
			return ret(&Sym{name: "replacer(" + joinK(el) + ")", t: sig.Results().At(0).Type(), nn: true, fn: "replacer", args: el})
		}
	case "math.IsNaN", "math.IsInf":
		if _, ok := args[0].(Const); ok {
			return ret(falseV)
		}
	case "strconv.Itoa":
		if n, ok := constInt(args[0]); ok {
			return ret(strV(strconv.Itoa(n)))
		}
		return ret(e.sym("strconv.Itoa", str, args...))
	case "strconv.Quote":
		if ss, ok := allConst(); ok {
			return ret(strV(strconv.Quote(ss[0])))
		}
	case "sync/atomic.AddUint64", "sync/atomic.AddInt64": // not the 32-bit ones, which come round
		if d, ok := constInt(args[1]); ok && d != 0 {
			u := e.unique(st)
			u.t = sig.Results().At(0).Type()
			return ret(u)
		}
	case "(*sync/atomic.Uint64).Add", "(*sync/atomic.Int64).Add":
		u := e.unique(st)
		u.t = sig.Results().At(0).Type()
		return ret(u)
	case "strconv.FormatUint", "strconv.FormatInt":
		if s, ok := args[0].(*Sym); ok && s.fn == "unique" {
			return ret(s)
		}
	case "github.com/rs/xid.New", "github.com/google/uuid.New", "github.com/google/uuid.NewString":
		u := e.unique(st)
		u.t = sig.Results().At(0).Type()
		return ret(u)
	case "(github.com/rs/xid.ID).String", "(github.com/google/uuid.UUID).String":
		if s, ok := args[0].(*Sym); ok && s.fn == "unique" {
			return ret(&Sym{name: s.name, t: str, fn: "unique", nn: true})
		}
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return ret(nil)
	}
	if strings.HasSuffix(name, ".init") {
		return ret(nil)
	}
	for _, a := range args {
		if _, ok := unbox(a).(*FuncV); ok {
			break
		}
	}
	n := name + "(" + joinK(args) + ")"
	switch sig.Results().Len() {
	case 0:
		return ret(nil)
	case 1:
		t := sig.Results().At(0).Type()
		r := &Sym{name: n, t: t, fn: name, args: args, nn: !isErrorType(t) && !isBasic(t)}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			r.xfn = fn
		}
		return ret(r)
	}
	tv := &TupleV{}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		tv.vs = append(tv.vs, &Sym{name: fmt.Sprintf("%s#%d", n, i), t: t, fn: fmt.Sprintf("%s#%d", name, i), args: args, nn: !isErrorType(t) && !isBasic(t)})
	}
	return ret(tv)
}

func (e *Eng) format(st *State, f Val, a Val) Val {
	fs, ok := constStr(f)
	el, ok2 := e.elems(st, a)
	if !ok || !ok2 {
		return e.sym("fmt.Sprintf", types.Typ[types.String], f, a)
	}
	var parts []Val
	lit := ""
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit += string(fs[i])
			continue
		}
		i++
		if i >= len(fs) {
			break
		}
		if fs[i] == '%' {
			lit += "%"
			continue
		}
		if strings.IndexByte("sdvpqxtw", fs[i]) >= 0 && ai < len(el) {
			parts = append(parts, strV(lit), e.fmtVerb(st, fs[i], el[ai]))
			lit = ""
			ai++
			continue
		}
		return e.sym("fmt.Sprintf", types.Typ[types.String], append([]Val{f}, el...)...)
	}
	parts = append(parts, strV(lit))
	return catV(parts...)
}

func (e *Eng) fmtVerb(st *State, verb byte, v Val) Val {
	x := unbox(v)
	if verb == 'p' {
		if p, ok := x.(*Ptr); ok {
			return &Sym{name: fmt.Sprintf("addr(%d)", p.obj), t: types.Typ[types.String], fn: "addr", nn: true}
		}
	}
	if c, ok := x.(Const); ok && (verb == 's' || verb == 'v' || verb == 'd') {
		switch c.v.Kind() {
		case constant.String:
			return strV(constant.StringVal(c.v))
		case constant.Int, constant.Bool:
			return strV(c.v.ExactString())
		}
	}
	if s, ok := x.(*Sym); ok {
		if s.fn == "unique" {
			return s
		}
		if b, ok := s.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v') {
			return s
		}
	}
	if c, ok := x.(*Cat); ok && (verb == 's' || verb == 'v') {
		return c
	}
	return e.sym("fmt%"+string(verb), types.Typ[types.String], v)
}
