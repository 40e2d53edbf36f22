package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) instr(f *FState, ins ssa.Instruction, outs *[]Out) []*FState {
	one := []*FState{f}
	set := func(v Val) []*FState {
		f.regs[ins.(ssa.Value)] = v
		return one
	}
	die := func(why string) []*FState {
		*outs = append(*outs, Out{st: f.st, panic: why, pos: e.pos(ins.Pos())})
		return nil
	}
	st := f.st
	switch ins := ins.(type) {
	case *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		t := ins.Type().Underlying().(*types.Pointer).Elem()
		id := e.alloc(st, e.zero(t), false, ins.Comment)
		return set(&Ptr{obj: id})
	case *ssa.BinOp:
		return set(e.binop(st, ins.Op, e.operand(f, ins.X), e.operand(f, ins.Y), ins.Type()))
	case *ssa.UnOp:
		x := e.operand(f, ins.X)
		switch ins.Op {
		case token.NOT:
			return set(negate(e.resolveBool(st, x)))
		case token.MUL:
			switch p := x.(type) {
			case *Ptr:
				v, ok := e.load(st, p)
				if !ok {
					v = e.fresh(st, ins.Type(), "load("+p.K()+")")
				}
				return set(v)
			case NilV:
				return die("nil pointer dereference")
			case *Sym:
				e.maybeNil(st, p, ins.Pos(), "dereference of possibly nil pointer")
				if strings.HasPrefix(p.name, "extglobal:") {
					return set(&Sym{name: "*" + p.name, t: ins.Type(), nn: true})
				}
				return set(e.fresh(st, ins.Type(), "*"+p.name))
			}
		case token.SUB:
			if c, ok := x.(Const); ok {
				return set(Const{constant.UnaryOp(token.SUB, c.v, 0), ins.Type()})
			}
		}
		return set(&Sym{name: ins.Op.String() + "(" + x.K() + ")", t: ins.Type(), args: []Val{x}})
	case *ssa.ChangeType:
		x := e.operand(f, ins.X)
		return set(retype(x, ins.Type()))
	case *ssa.Convert:
		return set(e.convert(st, e.operand(f, ins.X), ins.X.Type(), ins.Type()))
	case *ssa.MultiConvert:
		return set(e.operand(f, ins.X))
	case *ssa.ChangeInterface:
		return set(e.operand(f, ins.X))
	case *ssa.MakeInterface:
		return set(&Iface{dyn: ins.X.Type(), v: e.operand(f, ins.X)})
	case *ssa.MakeClosure:
		fv := &FuncV{fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			fv.binds = append(fv.binds, e.operand(f, b))
		}
		return set(fv)
	case *ssa.MakeMap:
		mt := ins.Type().Underlying().(*types.Map)
		id := e.alloc(st, &MapC{vt: mt.Elem()}, false, "map")
		return set(&MapV{id})
	case *ssa.MakeSlice:
		n, ok := constInt(e.operand(f, ins.Len))
		if !ok || n > 256 {
			e.undec["make slice of unknown length in "+f.fnName(ins)] = true
			return set(&Sym{name: "make(" + e.operand(f, ins.Len).K() + ")", t: ins.Type(), nn: true})
		}
		if n < 0 {
			return die("make slice with negative length")
		}
		c, okc := constInt(e.operand(f, ins.Cap))
		if !okc {
			c = -1
		}
		el := ins.Type().Underlying().(*types.Slice).Elem()
		elems := make([]Val, n)
		for i := range elems {
			elems[i] = e.zero(el)
		}
		return set(e.newSlice(st, elems, c, false, "make"))
	case *ssa.Slice:
		return e.sliceExpr(f, ins, set, die)
	case *ssa.Field:
		x := e.operand(f, ins.X)
		if s, ok := x.(*StructV); ok && ins.Field < len(s.f) {
			return set(s.f[ins.Field])
		}
		return set(e.fresh(st, ins.Type(), fmt.Sprintf("%s.%s", x.K(), fieldName(ins.X.Type(), ins.Field))))
	case *ssa.FieldAddr:
		x := e.operand(f, ins.X)
		switch p := x.(type) {
		case *Ptr:
			return set(&Ptr{p.obj, append(append([]int(nil), p.path...), ins.Field)})
		case NilV:
			return die("nil pointer dereference (field " + fieldName(ins.X.Type(), ins.Field) + ")")
		case *Sym:
			e.maybeNil(st, p, ins.Pos(), "field of possibly nil pointer")
			return set(&Sym{name: p.name + "." + fieldName(ins.X.Type(), ins.Field), t: ins.Type(), nn: true})
		}
		return set(&Sym{name: "fieldaddr(" + x.K() + ")", t: ins.Type(), nn: true})
	case *ssa.Index:
		x, i := e.operand(f, ins.X), e.operand(f, ins.Index)
		if n, ok := constInt(i); ok {
			if a, ok := x.(*ArrV); ok {
				if n < len(a.elems) {
					return set(a.elems[n])
				}
				return die("index out of range")
			}
			if s, ok := constStr(x); ok {
				if bs := wordBytes(s); n >= 0 && n < len(bs) {
					return set(intV(int(bs[n])))
				}
				return die("index out of range")
			}
		}
		return set(&Sym{name: x.K() + "[" + i.K() + "]", t: ins.Type(), args: []Val{x, i}})
	case *ssa.IndexAddr:
		x, i := e.operand(f, ins.X), e.operand(f, ins.Index)
		n, ok := constInt(i)
		switch s := x.(type) {
		case *SliceV:
			if !ok {
				e.undec["slice index unknown in "+f.fnName(ins)] = true
				return set(&Sym{name: "elem(" + s.K() + "," + i.K() + ")", t: ins.Type(), nn: true})
			}
			if n < 0 || n >= s.n {
				return die(fmt.Sprintf("index out of range [%d] with length %d", n, s.n))
			}
			return set(&Ptr{s.obj, append(append([]int(nil), s.path...), s.lo+n)})
		case *Ptr:
			if ok {
				return set(&Ptr{s.obj, append(append([]int(nil), s.path...), n)})
			}
		case NilV:
			return die("index out of range on nil slice")
		}
		if sy, okk := x.(*Sym); okk {
			st.events = append(st.events, Event{"maybe-panic", "index of " + sy.name, e.pos(ins.Pos()), e.where()})
		}
		return set(&Sym{name: x.K() + "[" + i.K() + "]", t: ins.Type(), nn: true})
	case *ssa.Lookup:
		return e.lookup(f, ins, set)
	case *ssa.Range:
		x := e.operand(f, ins.X)
		it := &iterV{over: x}
		if _, isMap := ins.X.Type().Underlying().(*types.Map); isMap {
			if m, ok := x.(*MapV); ok {
				o, _ := e.obj(st, m.obj)
				mc := o.v.(*MapC)
				it.keys = append(it.keys, mc.ents...)
				sort.Slice(it.keys, func(i, j int) bool { return it.keys[i].k.K() < it.keys[j].k.K() })
				if mc.open != "" {
					mt := ins.X.Type().Underlying().(*types.Map)
					it.keys = append(it.keys, kv{e.fresh(st, mt.Key(), mc.open+".key"), e.fresh(st, mt.Elem(), mc.open+".val")})
				}
			}
		} else {
			it.str = true
		}
		id := e.alloc(st, it, false, "iter")
		return set(&Ptr{obj: id})
	case *ssa.Next:
		p := e.operand(f, ins.Iter).(*Ptr)
		o, _ := e.obj(st, p.obj)
		it := o.v.(*iterV)
		nx := &iterV{over: it.over, pos: it.pos + 1, keys: it.keys, str: it.str}
		tt := ins.Type().(*types.Tuple)
		if it.str {
			if s, ok := constStr(it.over); ok {
				rs := []rune(s)
				if it.pos >= len(rs) {
					return set(&TupleV{[]Val{falseV, intV(0), intV(0)}})
				}
				off := wordLen(string(rs[:it.pos]))
				st.put(p.obj, Obj{v: nx})
				return set(&TupleV{[]Val{trueV, intV(off), Const{constant.MakeInt64(int64(rs[it.pos])), types.Typ[types.Rune]}}})
			}
			g := f.clone()
			f.regs[ins] = &TupleV{[]Val{falseV, intV(0), intV(0)}}
			if it.pos >= 3 {
				return one
			}
			g.st.put(p.obj, Obj{v: nx})
			var off Val = intV(0)
			if it.pos > 0 {
				off = &Sym{name: fmt.Sprintf("off(%s,%d)", it.over.K(), it.pos), t: types.Typ[types.Int]}
			}
			g.regs[ins] = &TupleV{[]Val{trueV, off, &Sym{name: fmt.Sprintf("rune(%s,%d)", it.over.K(), it.pos), t: types.Typ[types.Rune]}}}
			return []*FState{f, g}
		}
		_ = tt
		if it.pos >= len(it.keys) {
			return set(&TupleV{[]Val{falseV, NilV{}, NilV{}}})
		}
		st.put(p.obj, Obj{v: nx})
		return set(&TupleV{[]Val{trueV, it.keys[it.pos].k, it.keys[it.pos].v}})
	case *ssa.TypeAssert:
		return e.typeAssert(f, ins, die)
	case *ssa.Extract:
		x := e.operand(f, ins.Tuple)
		if t, ok := x.(*TupleV); ok && ins.Index < len(t.vs) {
			return set(t.vs[ins.Index])
		}
		return set(e.fresh(st, ins.Type(), fmt.Sprintf("%s#%d", x.K(), ins.Index)))
	case *ssa.Store:
		v := e.operand(f, ins.Val)
		switch p := e.operand(f, ins.Addr).(type) {
		case *Ptr:
			if !e.store(st, p, v, ins.Pos()) {
				e.undec["store through unknown path in "+f.fnName(ins)] = true
			}
		case NilV:
			return die("nil pointer dereference (store)")
		case *Sym:
			st.events = append(st.events, Event{"write", p.name, e.pos(ins.Pos()), e.where()})
		}
		return one
	case *ssa.MapUpdate:
		m := e.operand(f, ins.Map)
		k, v := e.operand(f, ins.Key), e.operand(f, ins.Value)
		switch mv := m.(type) {
		case *MapV:
			e.mapSet(st, mv, k, v, ins.Pos())
		case NilV:
			return die("assignment to entry in nil map")
		case *Sym:
			st.events = append(st.events, Event{"write", mv.name + "[]", e.pos(ins.Pos()), e.where()})
		}
		return one
	case *ssa.Call:
		return e.callInstr(f, ins, ins.Common(), outs)
	case *ssa.Defer:
		c := ins.Common()
		var args []Val
		for _, a := range c.Args {
			args = append(args, e.operand(f, a))
		}
		var fv Val
		if !c.IsInvoke() {
			fv = e.operand(f, c.Value)
		}
		f.defers = append(append([]func(*State) []Out(nil), f.defers...), func(s *State) []Out {
			if fn, ok := fv.(*FuncV); ok {
				return e.exec(fn.fn, args, fn.binds, s)
			}
			return []Out{{st: s}}
		})
		return one
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		e.undec[fmt.Sprintf("concurrency instruction %T in %s", ins, f.fnName(ins))] = true
		if v, ok := ins.(ssa.Value); ok {
			f.regs[v] = &Sym{name: "chan", t: v.Type()}
		}
		return one
	}
	e.undec[fmt.Sprintf("unsupported instruction %T in %s", ins, f.fnName(ins))] = true
	if v, ok := ins.(ssa.Value); ok {
		f.regs[v] = e.fresh(st, v.Type(), "unsupported:"+v.Name())
	}
	return one
}

func (f *FState) fnName(i ssa.Instruction) string { return i.Parent().String() }

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func (e *Eng) maybeNil(st *State, p *Sym, pos token.Pos, what string) {
	if p.nn {
		return
	}
	if v, ok := st.facts["nil("+p.name+")"]; ok && !v {
		return
	}
	st.events = append(st.events, Event{"maybe-panic", what + " " + p.name, e.pos(pos), e.where()})
}

func retype(v Val, t types.Type) Val {
	switch v := v.(type) {
	case Const:
		return Const{v.v, t}
	case *StructV:
		return &StructV{t: t, f: v.f}
	}
	return v
}

func (e *Eng) convert(st *State, x Val, from, to types.Type) Val {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if c, ok := x.(Const); ok && fb != nil && tb != nil {
		switch {
		case fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsString != 0:
			if i, ok := constInt(x); ok {
				return strV(string(rune(i)))
			}
		case tb.Info()&types.IsInteger != 0:
			if v := constant.ToInt(c.v); v.Kind() == constant.Int {
				return Const{v, to}
			}
		case tb.Info()&types.IsFloat != 0:
			return Const{constant.ToFloat(c.v), to}
		default:
			return Const{c.v, to}
		}
	}
	if fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
		return retype(x, to)
	}
	if tb != nil && tb.Info()&types.IsString != 0 && fb == nil {
		if el, ok := e.elems(st, x); ok {
			isRunes := false
			if sl, ok := from.Underlying().(*types.Slice); ok {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
					isRunes = true
				}
			}
			var bs []byte
			var sb strings.Builder
			good := true
			for _, v := range el {
				n, ok := constInt(v)
				if !ok {
					good = false
					break
				}
				if isRunes {
					sb.WriteRune(rune(n))
				} else if isCls(rune(n)) {
					bs = append(bs, string(rune(n))...)
				} else {
					bs = append(bs, byte(n))
				}
			}
			if good {
				if isRunes {
					return strV(sb.String())
				}
				return strV(joinBytes(string(bs)))
			}
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if s, ok := constStr(x); ok {
			if sl, ok := to.Underlying().(*types.Slice); ok {
				rs := wordBytes(s)
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
					rs = []rune(s)
				}
				var vs []Val
				for _, r := range rs {
					vs = append(vs, Const{constant.MakeInt64(int64(r)), sl.Elem()})
				}
				return e.newSlice(st, vs, len(vs), false, "chars")
			}
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if s, ok := x.(*Sym); ok && s.fn == "bytes" {
			return s.args[0]
		}
		return &Sym{name: "string(" + x.K() + ")", t: to, args: []Val{x}, fn: "convert"}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		return &Sym{name: "bytes(" + x.K() + ")", t: to, args: []Val{x}, fn: "bytes", nn: true}
	}
	return &Sym{name: "conv:" + shortType(to) + "(" + x.K() + ")", t: to, args: []Val{x}, fn: "convert:" + shortType(from) + ":" + shortType(to)}
}

func (e *Eng) isNilVal(st *State, v Val) (isNil, known bool) {
	switch s := v.(type) {
	case NilV:
		return true, true
	case *Sym:
		if s.nn {
			return false, true
		}
		if b, ok := st.facts["nil("+s.name+")"]; ok {
			return b, true
		}
		return false, false
	}
	return false, true
}

// eq decides equality of two abstract values where it is determined.
func (e *Eng) eq(st *State, x, y Val) Val {
	_, xn := x.(NilV)
	_, yn := y.(NilV)
	if xn || yn {
		o := x
		if xn {
			o = y
		}
		n, known := e.isNilVal(st, o)
		if known {
			return boolV(n)
		}
		return &Sym{name: "nil(" + o.K() + ")", t: types.Typ[types.Bool], args: []Val{o}, fn: "nil"}
	}
	if cx, ok := x.(Const); ok {
		if cy, ok := y.(Const); ok {
			a, okA := clsConst(cx)
			b, okB := clsConst(cy)
			if okA && okB && (isCls(a) || isCls(b)) {
				if r := clsEq(a, b); r >= 0 {
					return boolV(r == 1)
				}
				return e.resolveBool(st, &Sym{name: fmt.Sprintf("eq(%d,%d)", a, b), t: types.Typ[types.Bool], fn: "clseq"})
			}
			if cx.v.Kind() == constant.String && cy.v.Kind() == constant.String && (hasCls(constant.StringVal(cx.v)) || hasCls(constant.StringVal(cy.v))) {
				a, b := []rune(constant.StringVal(cx.v)), []rune(constant.StringVal(cy.v))
				if len(a) != len(b) {
					return falseV
				}
				for i := range a {
					if clsEq(a[i], b[i]) == 0 {
						return falseV
					}
				}
				return e.resolveBool(st, &Sym{name: "eq(" + cx.K() + "," + cy.K() + ")", t: types.Typ[types.Bool], fn: "clseq"})
			}
			return boolV(constant.Compare(cx.v, token.EQL, cy.v))
		}
	}
	if x.K() == y.K() {
		return trueV
	}
	if sx, ok := x.(*StructV); ok {
		if sy, ok := y.(*StructV); ok && len(sx.f) == len(sy.f) {
			var unknown []string
			for i := range sx.f {
				r := e.eq(st, sx.f[i], sy.f[i])
				if b, ok := constBool(r); ok {
					if !b {
						return falseV
					}
					continue
				}
				unknown = append(unknown, r.K())
			}
			if len(unknown) == 0 {
				return trueV
			}
			return e.resolveBool(st, &Sym{name: "and(" + strings.Join(unknown, ",") + ")", t: types.Typ[types.Bool]})
		}
	}
	if ix, ok := x.(*Iface); ok {
		if iy, ok := y.(*Iface); ok {
			if !types.Identical(ix.dyn, iy.dyn) {
				return falseV
			}
			return e.eq(st, ix.v, iy.v)
		}
	}
	if px, ok := x.(*Ptr); ok {
		if py, ok := y.(*Ptr); ok {
			return boolV(px.K() == py.K())
		}
	}
	// strings: literal prefix/suffix or emptiness may decide
	for _, pr := range [][2]Val{{x, y}, {y, x}} {
		if s, ok := constStr(pr[0]); ok && s == "" {
			switch o := pr[1].(type) {
			case *Cat:
				for _, p := range o.parts {
					if _, isC := constStr(p); isC {
						return falseV
					}
					if sy, isS := p.(*Sym); isS && sy.nn {
						return falseV
					}
				}
			case *Sym:
				if o.nn || o.fn == "strings.TrimSpace" && len(o.args) == 1 && isNN(o.args[0]) {
					return falseV // names are not blank
				}
			}
		}
	}
	if !e.opt.open {
		for _, pr := range [][2]Val{{x, y}, {y, x}} {
			if s, ok := pr[0].(*Sym); ok && s.fn == "opaque" {
				if _, isC := pr[1].(Const); isC {
					return falseV
				}
			}
		}
	}
	// a fresh identity is a number or made of one
	for _, pr := range [][2]Val{{x, y}, {y, x}} {
		if s, isC := constStr(pr[1]); isC && uniqueIn(pr[0]) != "" && !strings.ContainsAny(s, "0123456789") {
			return falseV
		}
	}
	// distinct fresh identities, bare or within the same constant text
	if a, fa, ok := identityIn(x); ok {
		if b, fb, ok := identityIn(y); ok && a != b {
			switch {
			case fa == fb:
				return falseV
			case fa == "" && strings.ContainsAny(fb, "#_:-/.@"), fb == "" && strings.ContainsAny(fa, "#_:-/.@"):
				return falseV
			}
		}
	}
	a, b := x.K(), y.K()
	if a > b {
		a, b = b, a
	}
	return e.resolveBool(st, &Sym{name: "eq(" + a + "," + b + ")", t: types.Typ[types.Bool], args: []Val{x, y}, fn: "eq"})
}

func (e *Eng) binop(st *State, op token.Token, x, y Val, t types.Type) Val {
	switch op {
	case token.EQL:
		return e.lenEmpty(st, x, y, e.eq(st, x, y))
	case token.NEQ:
		return negate(e.lenEmpty(st, x, y, e.eq(st, x, y)))
	}
	cx, okx := x.(Const)
	cy, oky := y.(Const)
	if okx && oky {
		a, okA := clsConst(cx)
		b, okB := clsConst(cy)
		if okA && okB && (isCls(a) || isCls(b)) {
			lt := func(a, b rune) Val {
				if r := clsLt(a, b); r >= 0 {
					return boolV(r == 1)
				}
				return e.resolveBool(st, &Sym{name: fmt.Sprintf("lt(%d,%d)", a, b), t: t, fn: "clslt"})
			}
			switch op {
			case token.LSS:
				return lt(a, b)
			case token.GTR:
				return lt(b, a)
			case token.GEQ:
				return negate(lt(a, b))
			case token.LEQ:
				return negate(lt(b, a))
			}
			return &Sym{name: fmt.Sprintf("(%d%s%d)", a, op, b), t: t, fn: "cls" + op.String()}
		}
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return boolV(constant.Compare(cx.v, op, cy.v))
		case token.SHL, token.SHR:
			s, _ := constant.Uint64Val(cy.v)
			return Const{constant.Shift(cx.v, op, uint(s)), t}
		case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR:
			if cx.v.Kind() != constant.Bool {
				return Const{constant.BinaryOp(cx.v, op, cy.v), t}
			}
		case token.QUO:
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if i, _ := constInt(y); i != 0 {
					return Const{constant.BinaryOp(cx.v, token.QUO_ASSIGN, cy.v), t}
				}
			}
		}
	}
	if op == token.ADD {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return catV(x, y)
		}
	}
	ordered := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	for i, pair := range [][2]Val{{x, y}, {y, x}} {
		lo, hi, ok := expRange(pair[0])
		o, isO := ordered[op]
		if i == 0 {
			o = op
		}
		if n, okn := constInt(pair[1]); ok && isO && okn {
			all := map[bool]bool{}
			for _, k := range []int{lo, hi} {
				all[constant.Compare(constant.MakeInt64(int64(k)), o, constant.MakeInt64(int64(n)))] = true
			}
			if len(all) == 1 {
				return boolV(all[true])
			}
		}
	}
	// length comparisons against constants normalise to emptiness
	lenSym := func(v Val) (*Sym, bool) {
		s, ok := v.(*Sym)
		if ok && s.fn == "len" {
			return s, true
		}
		return nil, false
	}
	norm := func(s *Sym, o token.Token, n int) Val {
		arg := s.args[0]
		empty := e.emptyCond(st, arg)
		switch {
		case o == token.GTR && n == 0, o == token.GEQ && n == 1:
			return negate(empty)
		case o == token.LSS && n == 1, o == token.LEQ && n == 0:
			return empty
		case o == token.GEQ && n <= 0:
			return trueV
		case o == token.LSS && n <= 0:
			return falseV
		}
		return nil
	}
	if s, ok := lenSym(x); ok {
		if n, ok := constInt(y); ok {
			if r := norm(s, op, n); r != nil {
				return e.resolveBool(st, r)
			}
		}
	}
	if s, ok := lenSym(y); ok {
		if n, ok := constInt(x); ok {
			flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
			if f, ok := flip[op]; ok {
				if r := norm(s, f, n); r != nil {
					return e.resolveBool(st, r)
				}
			}
		}
	}
	// order comparisons: keep one canonical orientation
	switch op {
	case token.GTR:
		return e.resolveBool(st, &Sym{name: "lt(" + y.K() + "," + x.K() + ")", t: t, args: []Val{y, x}, fn: "lt"})
	case token.LSS:
		return e.resolveBool(st, &Sym{name: "lt(" + x.K() + "," + y.K() + ")", t: t, args: []Val{x, y}, fn: "lt"})
	case token.GEQ:
		return e.resolveBool(st, negate(&Sym{name: "lt(" + x.K() + "," + y.K() + ")", t: t, args: []Val{x, y}, fn: "lt"}))
	case token.LEQ:
		return e.resolveBool(st, negate(&Sym{name: "lt(" + y.K() + "," + x.K() + ")", t: t, args: []Val{y, x}, fn: "lt"}))
	}
	return &Sym{name: "(" + x.K() + op.String() + y.K() + ")", t: t, args: []Val{x, y}, fn: "op" + op.String()}
}

func (e *Eng) emptyCond(st *State, s Val) Val {
	if a, ok := s.(*Sym); ok {
		if _, isStr := a.t.Underlying().(*types.Basic); isStr {
			return e.eq(st, s, strV(""))
		}
		return e.resolveBool(st, &Sym{name: "empty(" + s.K() + ")", t: types.Typ[types.Bool], args: []Val{s}, fn: "empty"})
	}
	return e.eq(st, s, strV(""))
}

func (e *Eng) lenEmpty(st *State, x, y, dflt Val) Val {
	for _, pr := range [][2]Val{{x, y}, {y, x}} {
		if s, ok := pr[0].(*Sym); ok && s.fn == "len" {
			if n, ok := constInt(pr[1]); ok && n == 0 {
				return e.emptyCond(st, s.args[0])
			}
		}
	}
	return dflt
}

func (e *Eng) sliceExpr(f *FState, ins *ssa.Slice, set func(Val) []*FState, die func(string) []*FState) []*FState {
	x := e.operand(f, ins.X)
	idx := func(v ssa.Value, d int) (int, bool) {
		if v == nil {
			return d, true
		}
		return constInt(e.operand(f, v))
	}
	switch s := x.(type) {
	case *SliceV:
		lo, ok1 := idx(ins.Low, 0)
		hi, ok2 := idx(ins.High, s.n)
		if !ok1 || !ok2 {
			e.undec["slice bounds unknown in "+f.fnName(ins)] = true
			return set(&Sym{name: "slice(" + x.K() + ")", t: ins.Type(), args: []Val{x}})
		}
		limit := s.n
		if s.cap > limit {
			limit = s.cap
		}
		if lo < 0 || hi < lo || hi > limit {
			return die(fmt.Sprintf("slice bounds out of range [%d:%d] of length %d", lo, hi, s.n))
		}
		if hi > s.n { // growing into capacity: cells are zero there
			el, _ := e.elems(f.st, s)
			ne := append([]Val(nil), el...)
			for len(ne) < hi {
				ne = append(ne, e.zero(ins.Type().Underlying().(*types.Slice).Elem()))
			}
			return set(e.newSlice(f.st, ne[lo:hi], s.cap-lo, false, "reslice"))
		}
		c := s.cap
		if c >= 0 {
			c -= lo
		}
		if ins.Max != nil {
			if m, ok := constInt(e.operand(f, ins.Max)); ok {
				c = m - lo
			}
		}
		return set(&SliceV{obj: s.obj, path: s.path, lo: s.lo + lo, n: hi - lo, cap: c})
	case *Ptr: // pointer to array
		v, ok := e.load(f.st, s)
		if a, isA := v.(*ArrV); ok && isA {
			lo, ok1 := idx(ins.Low, 0)
			hi, ok2 := idx(ins.High, len(a.elems))
			if ok1 && ok2 && lo <= hi && hi <= len(a.elems) {
				return set(&SliceV{obj: s.obj, path: s.path, lo: lo, n: hi - lo, cap: len(a.elems) - lo})
			}
			return die("slice bounds out of range")
		}
	case NilV:
		lo, ok1 := idx(ins.Low, 0)
		hi, ok2 := idx(ins.High, 0)
		if ok1 && ok2 && (lo != 0 || hi != 0) {
			return die("slice bounds out of range on nil slice")
		}
		return set(NilV{})
	}
	if sv, ok := constStr(x); ok {
		lo, ok1 := idx(ins.Low, 0)
		hi, ok2 := idx(ins.High, wordLen(sv))
		if ok1 && ok2 {
			if lo < 0 || hi < lo || hi > wordLen(sv) {
				return die("slice bounds out of range")
			}
			if w, ok := wordSlice(sv, lo, hi); ok {
				return set(strV(w))
			}
		}
	}
	n := "slice(" + x.K()
	args := []Val{x}
	for _, v := range []ssa.Value{ins.Low, ins.High} {
		if v != nil {
			a := e.operand(f, v)
			n += "," + a.K()
			args = append(args, a)
		} else {
			n += ",_"
		}
	}
	if s, ok := x.(*Sym); ok && isStringSym(s) && len(args) == 2 && ins.High == nil {
		n = s.name + "[" + args[1].K() + ":"
		return set(&Sym{name: n + "]", t: ins.Type(), args: args, fn: "slice"})
	}
	return set(&Sym{name: n + ")", t: ins.Type(), args: args, fn: "slice"})
}

func (e *Eng) lookup(f *FState, ins *ssa.Lookup, set func(Val) []*FState) []*FState {
	x, k := e.operand(f, ins.X), e.operand(f, ins.Index)
	res := func(v Val, ok Val) Val {
		if ins.CommaOk {
			return &TupleV{[]Val{v, ok}}
		}
		return v
	}
	if mt, isMap := ins.X.Type().Underlying().(*types.Map); isMap {
		zero := e.zero(mt.Elem())
		var mc *MapC
		switch m := x.(type) {
		case *MapV:
			o, _ := e.obj(f.st, m.obj)
			mc, _ = o.v.(*MapC)
		case NilV:
			return set(res(zero, falseV))
		}
		if mc != nil {
			// entries in insertion order; the first that may match forks
			cur := []*FState{f}
			var done []*FState
			for _, en := range mc.ents {
				var nxt []*FState
				for _, g := range cur {
					r := e.eq(g.st, en.k, k)
					if b, ok := constBool(r); ok {
						if b {
							g.regs[ins] = res(en.v, trueV)
							done = append(done, g)
						} else {
							nxt = append(nxt, g)
						}
						continue
					}
					h := g.clone()
					e.assume(h.st, r, true)
					h.regs[ins] = res(en.v, trueV)
					done = append(done, h)
					e.assume(g.st, r, false)
					nxt = append(nxt, g)
				}
				cur = nxt
			}
			for _, g := range cur {
				if mc.open == "" {
					g.regs[ins] = res(zero, falseV)
					done = append(done, g)
					continue
				}
				n := mc.open + "[" + k.K() + "]"
				has := &Sym{name: "has(" + n + ")", t: types.Typ[types.Bool], fn: "has"}
				r := e.resolveBool(g.st, has)
				if b, ok := constBool(r); ok {
					if b {
						g.regs[ins] = res(e.fresh(g.st, mt.Elem(), n), trueV)
					} else {
						g.regs[ins] = res(zero, falseV)
					}
					done = append(done, g)
					continue
				}
				h := g.clone()
				e.assume(h.st, has, true)
				h.regs[ins] = res(e.fresh(h.st, mt.Elem(), n), trueV)
				e.assume(g.st, has, false)
				g.regs[ins] = res(zero, falseV)
				done = append(done, h, g)
			}
			return done
		}
		n := x.K() + "[" + k.K() + "]"
		return set(res(e.fresh(f.st, mt.Elem(), n), &Sym{name: "has(" + n + ")", t: types.Typ[types.Bool]}))
	}
	if s, ok := constStr(x); ok {
		if bs := wordBytes(s); true {
			if n, ok := constInt(k); ok && n >= 0 && n < len(bs) {
				return set(intV(int(bs[n])))
			}
		}
	}
	return set(&Sym{name: x.K() + "[" + k.K() + "]", t: ins.Type(), args: []Val{x, k}, fn: "index"})
}

func (e *Eng) mapSet(st *State, m *MapV, k, v Val, pos token.Pos) {
	o, _ := e.obj(st, m.obj)
	mc, ok := o.v.(*MapC)
	if !ok {
		return
	}
	if o.pre && !e.inInit {
		st.events = append(st.events, Event{"write", o.name + "[]", e.pos(pos), e.where()})
	}
	nm := &MapC{open: mc.open, vt: mc.vt}
	hit := false
	for _, en := range mc.ents {
		if b, ok := constBool(e.eq(st, en.k, k)); ok && b {
			nm.ents = append(nm.ents, kv{en.k, v})
			hit = true
		} else {
			nm.ents = append(nm.ents, en)
		}
	}
	if !hit {
		nm.ents = append(nm.ents, kv{k, v})
	}
	o.v = nm
	st.put(m.obj, o)
}

func (e *Eng) typeAssert(f *FState, ins *ssa.TypeAssert, die func(string) []*FState) []*FState {
	x := e.operand(f, ins.X)
	set := func(g *FState, v Val, ok bool) {
		if ins.CommaOk {
			g.regs[ins] = &TupleV{[]Val{v, boolV(ok)}}
		} else {
			g.regs[ins] = v
		}
	}
	target := ins.AssertedType
	zero := e.zero(target)
	it, isIface := target.Underlying().(*types.Interface)
	fail := func(g *FState) []*FState {
		if ins.CommaOk {
			set(g, zero, false)
			return []*FState{g}
		}
		return die("interface conversion to " + shortType(target) + " fails")
	}
	switch v := x.(type) {
	case NilV:
		return fail(f)
	case *Iface:
		if isIface {
			if types.Implements(v.dyn, it) {
				set(f, v, true)
				return []*FState{f}
			}
			return fail(f)
		}
		if types.Identical(v.dyn, target) {
			set(f, v.v, true)
			return []*FState{f}
		}
		return fail(f)
	case *Sym:
		fact := "is(" + v.name + "," + shortType(target) + ")"
		if isIface {
			if vt, ok := v.t.Underlying().(*types.Interface); ok && types.Implements(vt, it) {
				nilCond := e.eq(f.st, v, NilV{})
				if b, ok := constBool(nilCond); ok {
					if b {
						return fail(f)
					}
					set(f, v, true)
					return []*FState{f}
				}
				g := f.clone()
				e.assume(f.st, nilCond, false)
				set(f, v, true)
				e.assume(g.st, nilCond, true)
				if !ins.CommaOk {
					f.st.events = append(f.st.events, Event{"maybe-panic", "assertion on possibly nil " + v.name, e.pos(ins.Pos()), e.where()})
					return []*FState{f}
				}
				return append(fail(g), f)
			}
		} else if vt, ok := v.t.Underlying().(*types.Interface); ok && !types.Implements(target, vt) {
			return fail(f)
		} else if other, ok := f.st.isConcrete(v.name); ok && other != shortType(target) {
			return fail(f)
		}
		if !e.opt.open {
			if _, known := f.st.facts[fact]; !known {
				f.st.setFact(fact, e.opt.kind[v.name][shortType(target)])
			}
		}
		okVal := func(st *State) Val {
			if isIface {
				return &Sym{name: v.name, t: target, nn: true}
			}
			return e.fresh(st, target, v.name+"."+shortType(target))
		}
		if b, known := f.st.facts[fact]; known {
			if b {
				set(f, okVal(f.st), true)
				return []*FState{f}
			}
			return fail(f)
		}
		if !ins.CommaOk {
			f.st.events = append(f.st.events, Event{"maybe-panic", "assertion of " + v.name + " to " + shortType(target), e.pos(ins.Pos()), e.where()})
			f.st.setFact(fact, true)
			set(f, okVal(f.st), true)
			return []*FState{f}
		}
		g := f.clone()
		g.st.setFact(fact, false)
		set(g, zero, false)
		f.st.setFact(fact, true)
		if !isIface {
			f.st.setFact("concrete("+v.name+"="+shortType(target)+")", true)
		}
		f.st.setFact("nil("+v.name+")", false)
		set(f, okVal(f.st), true)
		return []*FState{f, g}
	}
	e.undec["type assertion on "+x.K()] = true
	set(f, e.fresh(f.st, target, x.K()), true)
	return []*FState{f}
}

// isConcrete reports the dynamic type already established for an opaque interface.
func (s *State) isConcrete(name string) (string, bool) {
	p := "concrete(" + name + "="
	for k, v := range s.facts {
		if v && strings.HasPrefix(k, p) {
			return strings.TrimSuffix(k[len(p):], ")"), true
		}
	}
	return "", false
}

// identityIn: the one fresh identity of which a text is made and the constant
// text around it.
func identityIn(v Val) (name, frame string, ok bool) {
	switch x := v.(type) {
	case *Sym:
		return x.name, "", x.fn == "unique"
	case *Cat:
		for _, p := range x.parts {
			if s, isC := constStr(p); isC {
				frame += s
				continue
			}
			s, isS := p.(*Sym)
			if !isS || s.fn != "unique" || ok {
				return "", "", false
			}
			name, ok = s.name, true
			frame += "\x00"
		}
		return name, frame, ok
	}
	return "", "", false
}
