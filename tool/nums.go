package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Numbers: terms that hold exactly the value of an operand, and the texts
// that denote such a value exactly.

var intBits = map[types.BasicKind]int{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64, types.Uint8: -8, types.Uint16: -16, types.Uint32: -32, types.Uint64: -64, types.Uint: -64, types.Uintptr: -64}

func kindOf(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

// widening: does the conversion keep every value?
func widening(from, to types.BasicKind) bool {
	if from == to {
		return true
	}
	fb, fi := intBits[from]
	tb, ti := intBits[to]
	switch {
	case fi && ti:
		switch {
		case fb > 0 && tb > 0:
			return tb >= fb
		case fb < 0 && tb < 0:
			return tb <= fb
		case fb < 0 && tb > 0:
			return tb > -fb
		}
		return false
	case from == types.Float32 && to == types.Float64:
		return true
	case fi && to == types.Float64:
		return fb <= 32 && fb >= -32
	case fi && to == types.Float32:
		return fb <= 16 && fb >= -16
	}
	return false
}

func isIntKind(t types.Type) bool { _, ok := intBits[kindOf(t)]; return ok }

// exactOf: the operand whose exact value the term holds.
func (e *Eng) exactOf(st *State, v Val) (*Sym, bool) {
	v = unbox(v)
	if p, ok := v.(*Ptr); ok {
		if o, ok := e.load(st, p); ok {
			v = o
		}
	}
	s, ok := v.(*Sym)
	if !ok {
		return nil, false
	}
	b, isB := s.t.Underlying().(*types.Basic)
	switch {
	case s.fn == "num":
		return e.exactOf(st, s.args[0])
	case s.fn == "int64of":
		for f, val := range st.facts {
			if val && strings.HasPrefix(f, "eq(") && strings.Contains(f, s.args[1].K()) {
				return e.exactOf(st, s.args[0])
			}
		}
		return nil, false
	case strings.HasPrefix(s.fn, "convert:") && isB:
		src, ok := e.exactOf(st, s.args[0])
		if !ok {
			return nil, false
		}
		from := kindOf(typeOfVal(s.args[0]))
		if widening(from, b.Kind()) {
			return src, true
		}
		// x == F(I(x)) established on this path
		for f, val := range st.facts {
			if val && strings.HasPrefix(f, "eq(") && strings.Contains(f, s.name) && strings.Contains(f, "conv:") && e.backAndForth(f, s) {
				return src, true
			}
		}
		return nil, false
	case (s.fn == "" || s.fn == "opaque") && isB && b.Info()&types.IsNumeric != 0:
		return s, true
	}
	return nil, false
}

func (e *Eng) backAndForth(f string, s *Sym) bool {
	x := s.args[0].K()
	back := "conv:" + shortType(typeOfVal(s.args[0])) + "(" + s.name + ")"
	return f == "eq("+x+","+back+")" || f == "eq("+back+","+x+")"
}

func typeOfVal(v Val) types.Type {
	switch x := v.(type) {
	case *Sym:
		return x.t
	case Const:
		return x.t
	case *Iface:
		return x.dyn
	}
	return types.Typ[types.Invalid]
}

// numText: does this text denote an operand's value exactly?
func (e *Eng) numText(st *State, s *Sym) (string, bool) {
	if len(s.args) > 0 && (strings.HasPrefix(s.fn, "big.") || s.fn == "strconv.FormatFloat" || s.fn == "strconv.FormatInt" || s.fn == "strconv.FormatUint" || s.fn == "strconv.Itoa") {
		if c, ok := e.exactConst(st, s.args[0]); ok {
			v := s.args[0]
			_ = v
			t := &Sym{name: "§const", t: c.t}
			n := &Sym{name: "num(§const)", t: typeOfVal(s.args[0]), fn: "num", args: []Val{t}}
			st2 := st.clone()
			if constant.ToInt(c.v).Kind() == constant.Int {
				st2.setFact("isint(§const)", true)
			}
			if _, ok := e.numText(st2, &Sym{name: s.name, t: s.t, fn: s.fn, args: append([]Val{n}, s.args[1:]...)}); ok {
				return "=" + numConst(c), true
			}
			return "", false
		}
	}
	arg := func(i int) (*Sym, bool) {
		if i < len(s.args) {
			return e.exactOf(st, s.args[i])
		}
		return nil, false
	}
	cst := func(i int) int {
		if i < len(s.args) {
			if n, ok := constInt(s.args[i]); ok {
				return n
			}
		}
		return -999
	}
	at := func(i int) types.Type { return typeOfVal(unbox(s.args[i])) }
	switch s.fn {
	case "strconv.Itoa", "fmt%d", "big.Int.String", "fmt%v", "fmt%s":
		x, ok := arg(0)
		if !ok {
			return "", false
		}
		switch s.fn {
		case "fmt%d", "strconv.Itoa":
			return x.name, isIntKind(at(0))
		}
		return x.name, s.fn != "fmt%s"
	case "strconv.FormatInt", "strconv.FormatUint":
		x, ok := arg(0)
		return nameOf(x), ok && cst(1) == 10
	case "strconv.FormatFloat":
		x, ok := arg(0)
		c := cst(1)
		bits := cst(3)
		good := c == 'f' || c == 'g' || c == 'e' || c == 'G' || c == 'E'
		if !ok || !good || cst(2) != -1 {
			return "", false
		}
		if bits == 32 && kindOf(x.t) != types.Float32 {
			return "", false
		}
		return x.name, c == 'f' || !isIntKind(x.t)
	case "big.Text":
		x, ok := arg(0)
		if !ok {
			return "", false
		}
		c, p := cst(1), cst(2)
		switch {
		case p == -1 && (c == 'f' || c == 'g' || c == 'e' || c == 'G' || c == 'E'):
			// an integer keeps an integer's text: 'g' and 'e' write exponents
			return x.name, c == 'f' || !isIntKind(x.t)
		case p == 0 && c == 'f':
			return x.name, isIntKind(x.t) || st.facts["isint("+x.name+")"]
		}
	case "big.IntText":
		x, ok := arg(0)
		return nameOf(x), ok && cst(1) == 10
	}
	return "", false
}

func nameOf(s *Sym) string {
	if s == nil {
		return ""
	}
	return s.name
}

// bigCall models math/big as far as exact values are concerned.
func (e *Eng) bigCall(name string, fn *ssa.Function, args []Val, st *State) ([]Out, bool) {
	ret := func(v Val) ([]Out, bool) { return []Out{{st: st, ret: v}}, true }
	str := types.Typ[types.String]
	num := func(v Val, t types.Type) Val {
		if p, ok := v.(*Ptr); ok {
			if o, ok := e.load(st, p); ok {
				v = o
			}
		}
		return &Sym{name: "num(" + v.K() + ")", t: t, fn: "num", args: []Val{v}, nn: true}
	}
	content := func(v Val) Val {
		if p, ok := v.(*Ptr); ok {
			if o, ok := e.load(st, p); ok {
				return o
			}
		}
		return v
	}
	switch name {
	case "math/big.NewFloat", "math/big.NewInt":
		t := fn.Signature.Results().At(0).Type()
		id := e.alloc(st, num(args[0], t.Underlying().(*types.Pointer).Elem()), false, "number")
		return ret(&Ptr{obj: id})
	case "(*math/big.Int).SetInt64", "(*math/big.Int).SetUint64", "(*math/big.Int).Set", "(*math/big.Float).SetInt64", "(*math/big.Float).SetUint64", "(*math/big.Float).SetFloat64", "(*math/big.Float).SetInt", "(*math/big.Float).Set":
		p, ok := args[0].(*Ptr)
		if !ok {
			return nil, false
		}
		old, _ := e.load(st, p)
		v := num(args[1], fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem())
		if o, ok := old.(*Sym); ok && o.fn == "bigprec" {
			v = &Sym{name: "rounded(" + o.name + "," + v.K() + ")", t: typeOfVal(v), fn: "rounded", args: []Val{o, v}, nn: true}
		}
		e.store(st, p, v, 0)
		return ret(p)
	case "(*math/big.Float).SetPrec":
		p, ok := args[0].(*Ptr)
		if !ok {
			return nil, false
		}
		old, _ := e.load(st, p)
		n, okn := constInt(args[1])
		if okn && n >= 64 {
			return ret(p)
		}
		e.store(st, p, &Sym{name: "prec(" + args[1].K() + "," + old.K() + ")", t: typeOfVal(num(args[0], fn.Signature.Recv().Type())), fn: "bigprec", args: []Val{args[1], old}, nn: true}, 0)
		return ret(p)
	case "(*math/big.Float).IsInt":
		if c, ok := e.exactConst(st, args[0]); ok {
			return ret(boolV(constant.ToInt(c.v).Kind() == constant.Int))
		}
		if x, ok := e.exactOf(st, args[0]); ok {
			if isIntKind(x.t) {
				return ret(trueV)
			}
			return ret(e.resolveBool(st, &Sym{name: "isint(" + x.name + ")", t: types.Typ[types.Bool], fn: "isint"}))
		}
	case "(*math/big.Float).MantExp":
		if _, isNil := args[1].(NilV); !isNil {
			return nil, false
		}
		if c, ok := e.exactConst(st, args[0]); ok {
			f, okf := bigOf(c)
			if !okf {
				return nil, false
			}
			return ret(intV(f.MantExp(nil)))
		}
		if x, ok := e.exactOf(st, args[0]); ok {
			return ret(&Sym{name: "mantexp(" + x.name + ")", t: types.Typ[types.Int], fn: "mantexp", args: []Val{x}})
		}
	case "(*math/big.Float).IsInf":
		if x, ok := e.exactOf(st, args[0]); ok {
			if isIntKind(x.t) {
				return ret(falseV)
			}
			return ret(e.resolveBool(st, &Sym{name: "isinf(" + x.name + ")", t: types.Typ[types.Bool], fn: "isinf"}))
		}
	case "(*math/big.Float).Int", "(*math/big.Float).Int64":
		res := fn.Signature.Results()
		exact := Const{constant.MakeInt64(0), res.At(1).Type()}
		var v, acc Val
		isInt := false
		if c, ok := e.exactConst(st, args[0]); ok {
			f, okf := bigOf(c)
			if !okf {
				break
			}
			n, a := f.Int(nil)
			if name == "(*math/big.Float).Int64" {
				var i int64
				i, a = f.Int64()
				n = big.NewInt(i)
			}
			isInt = true
			v, acc = Const{constant.Make(n), types.Typ[types.Int64]}, Const{constant.MakeInt64(int64(a)), exact.t}
		} else if x, ok := e.exactOf(st, args[0]); ok {
			isInt = isIntKind(x.t) || st.facts["isint("+x.name+")"]
			v, acc = x, exact
			if name == "(*math/big.Float).Int64" && !(isIntKind(x.t) && widening(kindOf(x.t), types.Int64)) {
				// the accuracy says whether the value is the operand's
				isInt = true
				acc = &Sym{name: "accuracy(" + x.name + ")", t: res.At(1).Type(), fn: "accuracy"}
				v = &Sym{name: "int64of(" + x.name + ")", t: res.At(0).Type(), fn: "int64of", args: []Val{x, acc}}
			} else if name == "(*math/big.Float).Int64" {
				v = e.convert(st, x, x.t, res.At(0).Type())
			}
		}
		if !isInt {
			break
		}
		if name == "(*math/big.Float).Int64" {
			return ret(&TupleV{[]Val{v, acc}})
		}
		n := num(v, res.At(0).Type().Underlying().(*types.Pointer).Elem())
		if p, isP := args[1].(*Ptr); isP {
			e.store(st, p, n, 0)
			return ret(&TupleV{[]Val{p, acc}})
		}
		return ret(&TupleV{[]Val{&Ptr{obj: e.alloc(st, n, false, "number")}, acc}})
	case "(*math/big.Float).Text":
		c := content(args[0])
		return ret(&Sym{name: fmt.Sprintf("bigtext(%s,%s,%s)", c.K(), args[1].K(), args[2].K()), t: str, fn: "big.Text", args: []Val{c, args[1], args[2]}, nn: true})
	case "(*math/big.Float).String":
		c := content(args[0])
		return ret(&Sym{name: fmt.Sprintf("bigtext(%s,g,10)", c.K()), t: str, fn: "big.Text", args: []Val{c, intV('g'), intV(10)}, nn: true})
	case "(*math/big.Int).String":
		c := content(args[0])
		return ret(&Sym{name: "bigint(" + c.K() + ")", t: str, fn: "big.Int.String", args: []Val{c}, nn: true})
	case "(*math/big.Int).Text":
		c := content(args[0])
		return ret(&Sym{name: "bigint(" + c.K() + "," + args[1].K() + ")", t: str, fn: "big.IntText", args: []Val{c, args[1]}, nn: true})
	}
	return nil, false
}

// numConst writes a constant number the way exact texts do.
func numConst(c Const) string {
	if c.v.Kind() == constant.Int {
		return c.v.ExactString()
	}
	f, _ := constant.Float64Val(c.v)
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// exactConst: the constant whose exact value the term holds.
func (e *Eng) exactConst(st *State, v Val) (Const, bool) {
	v = unbox(v)
	if p, ok := v.(*Ptr); ok {
		if o, ok := e.load(st, p); ok {
			v = o
		}
	}
	switch x := v.(type) {
	case Const:
		return x, x.v.Kind() == constant.Int || x.v.Kind() == constant.Float
	case *Sym:
		if x.fn == "num" {
			return e.exactConst(st, x.args[0])
		}
	}
	return Const{}, false
}

// expRange: the binary exponents an integer of this kind can have.
func expRange(v Val) (lo, hi int, ok bool) {
	s, isS := v.(*Sym)
	if !isS || s.fn != "mantexp" {
		return 0, 0, false
	}
	n, isI := intBits[kindOf(s.args[0].(*Sym).t)]
	if !isI {
		return 0, 0, false
	}
	if n < 0 {
		n = -n
	}
	return 0, n, true
}

func bigOf(c Const) (*big.Float, bool) {
	r, ok := new(big.Rat).SetString(c.v.ExactString())
	if !ok {
		return nil, false
	}
	return new(big.Float).SetPrec(2000).SetRat(r), true
}
