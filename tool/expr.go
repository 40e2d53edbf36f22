package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// A client expression is ordinary Go text over the exported API in which the
// operands are opaque: e("x") an expression, c("x") a condition, p("x") a
// pattern, rp("x") a relationship pattern, n("x") a named element, st("x") a
// statement, s("x") a string, i("x") an int, f("x") a float64, b("x") a bool,
// v("x") an interface{}; node("x"), rel("x"), ... well-formed elements of that
// type made by the package's own constructors.

var opaqueKinds = map[string]string{
	"e": "Expression", "c": "Condition", "p": "PatternElement", "rp": "RelationshipPattern",
	"n": "Named", "st": "Statement", "lit": "Literal", "vis": "Visitable", "fd": "FunctionDefinition", "sq": "SingleQuery",
}

// recipes: how a client makes a well-formed element of a concrete type.
var recipes = map[string]struct{ typ, expr string }{
	"sym":   {"SymbolicName", `SymbolicNameCreate(s("%"))`},
	"node":  {"Node", `NewNodeWithLabels(s("%.label")).NamedByString(s("%.name"))`},
	"rel":   {"Relationship", `AnyNode().RelationshipTo(AnyNode(), s("%.type")).NamedByString(s("%.name"))`},
	"chain": {"RelationshipChain", `AnyNode().RelationshipTo(AnyNode(), s("%.type0")).RelationshipFrom(AnyNode(), s("%.type1"))`},
	"mapx":  {"MapExpression", `MapOf("key", e("%.value"))`},
	"prop":  {"Property", `APropertyByExpression(e("%.owner"), "prop")`},
	"path":  {"NamedPath", `NamedPathCreate(SymbolicNameCreate(s("%.name")), rp("%.pattern"))`},
	"fn":    {"FunctionInvocation", `ToLower(e("%.arg"))`},
	"sort":  {"SortItem", `Sort(e("%.expr"))`},
	"param": {"Parameter", `AParam("param")`},
	"ali":   {"AliasedExpression", `AliasedExpressionCreate(e("%.expr"), s("%.alias"))`},
	"where": {"Where", `WhereCreate(c("%.cond"))`},
	"elist": {"ExpressionList", `ExpressionListCreate(_list(e("%.a"), e("%.b")))`},
	"label": {"NodeLabel", `NodeLabelCreate(s("%"))`},
	"proj":  {"MapProjection", `MapProjectionCreate(SymbolicNameCreate(s("%.name")), "key")`},
	"cond":  {"ConditionContainer", `ConditionWrap(c("%"))`},
	"hand":  {"ExpressionContainer", `ExpressionWrap(e("%"))`},
	"bool":  {"BooleanLiteral", `BooleanLiteralCreate(true)`},
	"props": {"Properties", `PropertiesCreate(MapOf("key", e("%.value")))`},
	"pat":   {"Pattern", `PatternCreate(_plist(p("%.a"), p("%.b")))`},
	"mphr":  {"MatchPhrase", `MatchPhraseCreate(false, PatternCreate(_plist(p("%.a"))), WhereCreate(c("%.c")))`},
}

// containers whose entries are separated by the renderer are never leaves
var neverLeaf = map[string]bool{"AliasedExpression": true, "ExpressionList": true, "MapExpression": true, "Pattern": true, "YieldItems": true, "Order": true, "Arguments": true, "FunctionArgumentList": true}

// EV is one outcome of evaluating a client expression.
type EV struct {
	st    *State
	v     Val
	t     types.Type // static type, nil for untyped nil
	panic string
	pos   string
	tuple bool
}

type evalErr struct{ msg string }

func (e *Eng) eval(st *State, src string) (res []EV, err error) {
	if i := strings.Index(src, "; "); i > 0 {
		if j := strings.Index(src[:i], " := "); j > 0 {
			return e.evalLet(st, src[:j], src[j+4:i], src[i+2:])
		}
	}
	x, perr := parseCached(src)
	if perr != nil {
		return nil, fmt.Errorf("%s: %v", src, perr)
	}
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(evalErr); ok {
				err = fmt.Errorf("%s: %s", src, ee.msg)
				return
			}
			panic(r)
		}
	}()
	return e.ev(st, x, nil), nil
}

// evalLet evaluates  name := def; rest
func (e *Eng) evalLet(st *State, name, def, rest string) ([]EV, error) {
	ds, err := e.eval(st, def)
	if err != nil {
		return nil, err
	}
	old := e.bind
	defer func() { e.bind = old }()
	var out []EV
	for _, d := range ds {
		if d.panic != "" {
			out = append(out, d)
			continue
		}
		if tv, ok := d.v.(*TupleV); ok && d.tuple {
			d.v, d.tuple = tv.vs[0], false
		}
		nb := map[string]EV{}
		for k, v := range old {
			nb[k] = v
		}
		nb[name] = d
		e.bind = nb
		rs, err := e.eval(d.st, rest)
		e.bind = old
		if err != nil {
			return nil, err
		}
		out = append(out, rs...)
	}
	return out, nil
}

var parsed = map[string]ast.Expr{}
var parsedMu sync.Mutex

func parseCached(src string) (ast.Expr, error) {
	parsedMu.Lock()
	x, ok := parsed[src]
	parsedMu.Unlock()
	if ok {
		return x, nil
	}
	x, err := parser.ParseExpr(src)
	if err == nil {
		parsedMu.Lock()
		parsed[src] = x
		parsedMu.Unlock()
	}
	return x, err
}

func fail(f string, a ...interface{}) { panic(evalErr{fmt.Sprintf(f, a...)}) }

func (e *Eng) lookupType(n string) types.Type {
	if o := e.l.pkg.Scope().Lookup(n); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	fail("anchor type %s not found", n)
	return nil
}

func (e *Eng) ev(st *State, x ast.Expr, want types.Type) []EV {
	one := func(v Val, t types.Type) []EV { return []EV{{st: st, v: v, t: t}} }
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.ev(st, x.X, want)
	case *ast.BasicLit:
		switch x.Kind {
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			t := types.Type(types.Typ[types.String])
			if want != nil {
				if b, ok := want.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					t = want
				}
			}
			return one(Const{constant.MakeString(s), t}, t)
		case token.INT:
			t := types.Type(types.Typ[types.Int])
			if want != nil {
				if b, ok := want.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
					t = want
				}
			}
			return one(Const{constant.MakeFromLiteral(x.Value, token.INT, 0), t}, t)
		case token.FLOAT:
			return one(Const{constant.MakeFromLiteral(x.Value, token.FLOAT, 0), types.Typ[types.Float64]}, types.Typ[types.Float64])
		}
	case *ast.Ident:
		switch x.Name {
		case "true", "false":
			return one(boolV(x.Name == "true"), types.Typ[types.Bool])
		case "nil":
			return one(NilV{}, nil)
		}
		if b, ok := e.bind[x.Name]; ok {
			return one(b.v, b.t)
		}
		switch o := e.l.pkg.Scope().Lookup(x.Name).(type) {
		case *types.Const:
			return one(Const{o.Val(), o.Type()}, o.Type())
		case *types.Var:
			g := e.l.ssapkg.Members[x.Name].(*ssa.Global)
			v, ok := e.load(st, &Ptr{obj: e.globals[g]})
			if !ok {
				fail("variable %s not readable", x.Name)
			}
			return one(v, o.Type())
		}
		fail("anchor %s not found", x.Name)
	case *ast.CallExpr:
		return e.evCall(st, x, want)
	case *ast.UnaryExpr:
		if x.Op == token.SUB {
			var out []EV
			for _, r := range e.ev(st, x.X, want) {
				if c, ok := r.v.(Const); ok {
					r.v = Const{constant.UnaryOp(token.SUB, c.v, 0), c.t}
				}
				out = append(out, r)
			}
			return out
		}
		if x.Op == token.AND {
			var out []EV
			for _, r := range e.ev(st, x.X, nil) {
				if r.panic == "" {
					id := e.alloc(r.st, r.v, true, "operand")
					r.v, r.t = &Ptr{obj: id}, types.NewPointer(r.t)
				}
				out = append(out, r)
			}
			return out
		}
	case *ast.CompositeLit:
		fail("composite literal")
	}
	fail("unsupported expression %T", x)
	return nil
}

func (e *Eng) evCall(st *State, x *ast.CallExpr, want types.Type) []EV {
	if id, ok := x.Fun.(*ast.Ident); ok {
		if r, ok := e.evOpaque(st, id.Name, x, want); ok {
			return r
		}
		fo, ok := e.l.pkg.Scope().Lookup(id.Name).(*types.Func)
		if !ok {
			fail("anchor function %s not found", id.Name)
		}
		fn := e.l.prog.FuncValue(fo)
		return e.evApply(e.evArgs(st, x.Args, fo.Type().(*types.Signature)), func(s *State, args []Val) []Out { return e.exec(fn, args, nil, s) }, fo.Type().(*types.Signature))
	}
	sel, ok := x.Fun.(*ast.SelectorExpr)
	if !ok {
		fail("unsupported call")
	}
	var res []EV
	for _, r := range e.ev(st, sel.X, nil) {
		if r.panic != "" {
			res = append(res, r)
			continue
		}
		v := r.v
		if tv, ok := v.(*TupleV); ok {
			v = tv.vs[0]
		}
		if r.t == nil {
			fail("method on nil")
		}
		name := sel.Sel.Name
		// resolve in the static type, as the Go compiler would
		ms := types.NewMethodSet(r.t)
		s := ms.Lookup(e.l.pkg, name)
		if s == nil {
			s = types.NewMethodSet(types.NewPointer(r.t)).Lookup(e.l.pkg, name)
		}
		if s == nil {
			fail("anchor method %s.%s not found", shortType(r.t), name)
		}
		m := s.Obj().(*types.Func)
		sig := m.Type().(*types.Signature)
		call := func(s2 *State, args []Val) []Out {
			if _, isI := r.t.Underlying().(*types.Interface); isI {
				return e.invoke(s2, v, m, args, "-")
			}
			fn, recv := e.methodFn(s2, v, name)
			if fn == nil {
				if _, isNil := v.(NilV); isNil {
					return []Out{{st: s2, panic: "method on nil"}}
				}
				fail("no method %s on %s", name, shortType(r.t))
			}
			return e.exec(fn, append([]Val{recv}, args...), nil, s2)
		}
		res = append(res, e.evApply(e.evArgs(r.st, x.Args, sig), call, sig)...)
	}
	return res
}

type argSet struct {
	st   *State
	args []Val
	pan  *EV
}

func (e *Eng) evApply(sets []argSet, call func(*State, []Val) []Out, sig *types.Signature) []EV {
	var rt types.Type
	if sig.Results().Len() >= 1 {
		rt = sig.Results().At(0).Type()
	}
	var res []EV
	for _, a := range sets {
		if a.pan != nil {
			res = append(res, *a.pan)
			continue
		}
		for _, o := range call(a.st, a.args) {
			if o.panic != "" {
				res = append(res, EV{st: o.st, panic: o.panic, pos: o.pos})
				continue
			}
			res = append(res, EV{st: o.st, v: o.ret, t: rt, pos: o.pos, tuple: sig.Results().Len() > 1})
		}
	}
	return res
}

func (e *Eng) evArgs(st *State, xs []ast.Expr, sig *types.Signature) []argSet {
	sets := []argSet{{st: st}}
	np := sig.Params().Len()
	if sig.Variadic() {
		if len(xs) < np-1 {
			fail("too few arguments")
		}
	} else if len(xs) != np {
		fail("wrong number of arguments: have %d, want %d", len(xs), np)
	}
	ptype := func(i int) types.Type {
		if sig.Variadic() && i >= np-1 {
			return sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		}
		return sig.Params().At(i).Type()
	}
	for i, x := range xs {
		var nx []argSet
		for _, s := range sets {
			if s.pan != nil {
				nx = append(nx, s)
				continue
			}
			for _, r := range e.ev(s.st, x, ptype(i)) {
				if r.panic != "" {
					rr := r
					nx = append(nx, argSet{st: r.st, pan: &rr})
					continue
				}
				v := r.v
				if tv, ok := v.(*TupleV); ok && r.tuple {
					v = tv.vs[0]
				}
				nx = append(nx, argSet{st: r.st, args: append(append([]Val(nil), s.args...), e.conv(v, r.t, ptype(i)))})
			}
		}
		sets = nx
	}
	if sig.Variadic() {
		for k := range sets {
			if sets[k].pan != nil {
				continue
			}
			fix, rest := sets[k].args[:np-1], sets[k].args[np-1:]
			sets[k].st = sets[k].st.clone()
			var sl Val = NilV{}
			if len(rest) > 0 {
				id := e.alloc(sets[k].st, &ArrV{elems: append([]Val(nil), rest...)}, true, "argument list")
				sl = &SliceV{obj: id, n: len(rest), cap: -1}
			}
			sets[k].args = append(append([]Val(nil), fix...), sl)
		}
	}
	return sets
}

// conv converts a value to the parameter type it is passed as.
func (e *Eng) conv(v Val, from, to types.Type) Val {
	if _, ok := to.Underlying().(*types.Interface); ok {
		if from != nil && !types.AssignableTo(from, to) {
			fail("cannot pass %s as %s", shortType(from), shortType(to))
		}
		switch x := v.(type) {
		case *StructV, Const, *Cat, *Ptr, *SliceV, *MapV:
			if from == nil {
				from = dynOf(v)
			}
			return &Iface{dyn: from, v: v}
		case *Sym:
			if from != nil && !types.IsInterface(from) {
				return &Iface{dyn: from, v: v}
			}
			return x
		}
		return v
	}
	if from != nil && !types.AssignableTo(from, to) {
		fail("cannot pass %s as %s", shortType(from), shortType(to))
	}
	return v
}

func (e *Eng) evOpaque(st *State, kind string, x *ast.CallExpr, want types.Type) ([]EV, bool) {
	str := func(i int) string {
		if i >= len(x.Args) {
			return ""
		}
		if l, ok := x.Args[i].(*ast.BasicLit); ok && l.Kind == token.STRING {
			s, _ := strconv.Unquote(l.Value)
			return s
		}
		fail("operand name expected")
		return ""
	}
	mkSlice := func(t types.Type) []EV {
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.NewSlice(t))), nil, true)
		var res []EV
		for _, a := range e.evArgs(st, x.Args, sig) {
			if a.pan != nil {
				res = append(res, *a.pan)
				continue
			}
			res = append(res, EV{st: a.st, v: a.args[0], t: types.NewSlice(t)})
		}
		return res
	}
	switch kind {
	case "_list":
		return mkSlice(e.lookupType("Expression")), true
	case "_plist":
		return mkSlice(e.lookupType("PatternElement")), true
	case "_litlist":
		return mkSlice(e.lookupType("Literal")), true
	case "_slice": // element type taken from the parameter
		if s, ok := want.Underlying().(*types.Slice); ok {
			return mkSlice(s.Elem()), true
		}
		fail("slice of unknown type")
	}
	if t, ok := opaqueKinds[kind]; ok {
		n := str(0)
		return []EV{{st: st, v: &Sym{name: n, t: e.lookupType(t), nn: true}, t: e.lookupType(t)}}, true
	}
	basic := map[string]types.Type{"s": types.Typ[types.String], "i": types.Typ[types.Int], "f": types.Typ[types.Float64], "b": types.Typ[types.Bool], "i64": types.Typ[types.Int64], "i8": types.Typ[types.Int8], "i16": types.Typ[types.Int16], "i32": types.Typ[types.Int32], "u": types.Typ[types.Uint], "u8": types.Typ[types.Uint8], "u16": types.Typ[types.Uint16], "u32": types.Typ[types.Uint32], "u64": types.Typ[types.Uint64], "f32": types.Typ[types.Float32]}
	if t, ok := basic[kind]; ok {
		if want != nil {
			if _, isB := want.Underlying().(*types.Basic); isB && types.ConvertibleTo(t, want) {
				t = want
			}
		}
		return []EV{{st: st, v: &Sym{name: str(0), t: t, nn: kind == "s"}, t: t}}, true
	}
	if kind == "v" {
		t := types.NewInterfaceType(nil, nil)
		return []EV{{st: st, v: &Sym{name: str(0), t: t, nn: true}, t: t}}, true
	}
	if kind == "ptr" { // opaque pointer operand of the parameter's type
		s2 := st.clone()
		return []EV{{st: s2, v: e.fresh(s2, want, str(0)), t: want}}, true
	}
	if kind == "zero" { // the zero value of a type: an absent optional operand
		t := e.lookupType(str(0))
		return []EV{{st: st, v: e.zero(t), t: t}}, true
	}
	if kind == "any" { // arbitrary well-formed value of a type
		t := e.lookupType(str(1))
		s2 := st.clone()
		v := e.gen(s2, t, str(0))
		return []EV{{st: s2, v: v, t: t}}, true
	}
	if r, ok := recipes[kind]; ok {
		n := str(0)
		t := e.lookupType(r.typ)
		if e.isErr(n) {
			s2 := st.clone()
			if v := e.erroredStruct(s2, t, n); v != nil && kind != "cond" && kind != "hand" {
				return []EV{{st: s2, v: v, t: t}}, true
			}
		}
		rx, err := parseCached(strings.ReplaceAll(r.expr, "%", n))
		if err != nil {
			fail("recipe %s: %v", kind, err)
		}
		var res []EV
		for _, o := range e.ev(st, rx, t) {
			if sv, ok := o.v.(*StructV); ok && o.panic == "" && !neverLeaf[r.typ] {
				e.inputs[sv.K()] = n
			}
			res = append(res, o)
		}
		return res, true
	}
	return nil, false
}

// leafName: the operand this value is, when it is exactly an operand.
func (e *Eng) leafName(v Val) string {
	if s, ok := v.(*StructV); ok && len(e.inputs) > 0 {
		return e.inputs[s.K()]
	}
	return ""
}

// outcomes of a client expression as canonical results.
func (e *Eng) results(src string, o *Opts) ([]string, []EV, error) {
	st := e.begin(o)
	e.inputs = map[string]string{}
	evs, err := e.eval(st, src)
	if err != nil {
		return nil, nil, err
	}
	set := map[string]bool{}
	for _, r := range evs {
		for _, t := range e.resultOfEV(r) {
			set[t] = true
		}
	}
	for _, u := range e.takeUndec() {
		set["UNDECIDED "+u] = true
	}
	var out []string
	for t := range set {
		out = append(out, t)
	}
	sort.Strings(out)
	return mergeTmpl(out), evs, nil
}

func (e *Eng) resultOfEV(r EV) []string {
	if r.panic != "" {
		return []string{"PANIC " + r.panic}
	}
	v := r.v
	if v == nil {
		return []string{"VOID"}
	}
	v = e.elemOf(r.st, v)
	er, k := e.reportsErr(r.st, v)
	if er && k {
		return []string{"ERROR"}
	}
	if tv, ok := v.(*TupleV); ok && r.tuple {
		v = tv.vs[0]
	}
	if _, ok := v.(NilV); ok {
		return []string{"NIL"}
	}
	if s, ok := v.(*Sym); ok {
		if b, isB := s.t.Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 {
			return []string{"STRING " + e.tmpl(r.st, v)}
		}
	}
	switch v.(type) {
	case Const, *Cat:
		return []string{"STRING " + e.tmpl(r.st, v)}
	}
	if e.hasMethod(v, "Build", r.st) && !e.hasMethod(v, "accept", r.st) {
		outs, err := e.callMethod(r.st.clone(), v, "Build")
		if err != nil {
			return []string{"UNDECIDED " + err.Error()}
		}
		var res []string
		for _, o := range outs {
			if o.panic != "" {
				res = append(res, "PANIC in Build "+o.panic)
				continue
			}
			tv, ok := o.ret.(*TupleV)
			if !ok {
				res = append(res, "INTERNAL")
				continue
			}
			if er, k := e.reportsErr(o.st, tv); er && k {
				res = append(res, "ERROR")
				continue
			}
			res = append(res, e.statementText(o.st, tv.vs[0])...)
		}
		return res
	}
	if !e.hasMethod(v, "accept", r.st) && !isSymIface(v) {
		return []string{"STEP"}
	}
	if e.isStatement(v) {
		return e.statementText(r.st, v)
	}
	rs, err := e.renderElem(r.st, v)
	if err != nil {
		return []string{"UNDECIDED " + err.Error()}
	}
	var res []string
	for _, x := range rs {
		if x.panic != "" {
			res = append(res, "PANIC in rendering: "+x.panic)
			continue
		}
		res = append(res, e.tmpl(x.st, x.text))
	}
	return res
}

var statementTypes = map[string]bool{"SinglePartQuery": true, "MultiPartQuery": true, "UnionQuery": true, "ProcedureCall": true}

func (e *Eng) isStatement(v Val) bool {
	t := dynOf(v)
	return t != nil && statementTypes[shortType(t)]
}

func (e *Eng) statementText(st *State, v Val) []string {
	if _, ok := v.(NilV); ok {
		return []string{"NIL"}
	}
	if sv, ok := v.(*StructV); ok {
		v = &Iface{dyn: sv.t, v: sv}
	}
	rs, err := e.renderStatement(st, v)
	if err != nil {
		return []string{"UNDECIDED " + err.Error()}
	}
	var res []string
	for _, x := range rs {
		if x.panic != "" {
			res = append(res, "PANIC in rendering: "+x.panic)
			continue
		}
		if n, k := e.isNilVal(x.st, x.err); k && !n {
			res = append(res, "ERROR")
			continue
		} else if !k {
			res = append(res, "UNDECIDED error")
		}
		res = append(res, e.tmpl(x.st, x.text))
	}
	return res
}
