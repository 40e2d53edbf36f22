package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

var effectKinds = map[string]string{
	"write":         "writes to",
	"append-shared": "appends in place, over the spare room of,",
}

// clientMethods: the exported methods a client can call on a value of static type t.
func (e *Eng) clientMethods(t types.Type) []*types.Func {
	if t == nil {
		return nil
	}
	var ms *types.MethodSet
	if types.IsInterface(t) {
		ms = types.NewMethodSet(t)
	} else if _, ok := t.Underlying().(*types.Pointer); ok {
		ms = types.NewMethodSet(t)
	} else {
		ms = types.NewMethodSet(types.NewPointer(t))
	}
	var out []*types.Func
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj().(*types.Func)
		if m.Exported() {
			out = append(out, m)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// operandFor: a well-formed operand of the type, as a client would write it.
func operandFor(t types.Type, tag string) string {
	if s, ok := t.Underlying().(*types.Slice); ok {
		a, b := operandFor(s.Elem(), tag+"a"), operandFor(s.Elem(), tag+"b")
		if a == "" || b == "" {
			return ""
		}
		return "_slice(" + a + ", " + b + ")"
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if b, isB := p.Elem().Underlying().(*types.Basic); isB && b.Kind() == types.Int {
			return "ptr(" + strconv.Quote(tag) + ")"
		}
		if shortType(p.Elem()) == "Location" {
			return "ptr(" + strconv.Quote(tag) + ")"
		}
		if x := operandFor(p.Elem(), tag); x != "" {
			return "&" + x
		}
		return ""
	}
	n := shortType(t)
	for _, k := range sortedKeys(recipes) {
		if recipes[k].typ == n {
			return k + "(" + strconv.Quote(tag) + ")"
		}
	}
	for _, k := range sortedKeys(opaqueKinds) {
		if opaqueKinds[k] == n {
			return k + "(" + strconv.Quote(tag) + ")"
		}
	}
	if x, ok := otherOperands[n]; ok {
		return strings.ReplaceAll(x, "%", tag)
	}
	if i, ok := t.Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
		return "e(" + strconv.Quote(tag) + ")"
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return "s(" + strconv.Quote(tag) + ")"
		case b.Info()&types.IsBoolean != 0:
			return "b(" + strconv.Quote(tag) + ")"
		case b.Kind() == types.Float64:
			return "f(" + strconv.Quote(tag) + ")"
		case b.Kind() == types.Int64:
			return "i64(" + strconv.Quote(tag) + ")"
		case b.Kind() == types.Int:
			return "i(" + strconv.Quote(tag) + ")"
		}
	}
	return ""
}

var otherOperands = map[string]string{
	"Direction":           `LTR()`,
	"Operator":            `EQUALITY`,
	"OperatorType":        `BINARY`,
	"MERGE_TYPE":          `ON_CREATE`,
	"SortDirectionRaw":    `ASC`,
	"Arguments":           `ArgumentsCreate(_list(e("%.a"), e("%.b")))`,
	"YieldItems":          `YieldItemsCreate(_list(e("%.a"), e("%.b")))`,
	"Order":               `OrderCreate(_slice(Sort(e("%.a")), Sort(e("%.b"))))`,
	"Skip":                `SkipCreate(3)`,
	"Limit":               `LimitCreate(3)`,
	"Set":                 `SetCreate(elist("%"))`,
	"Dot":                 `DotCreate("..")`,
	"Namespace":           `NameSpaceCreate(_slice("x", "y"))`,
	"ProcedureName":       `ProcedureNameCreate("a", "b")`,
	"RelationshipTypes":   `RelationshipTypesCreate(_slice("T", "U"))`,
	"RelationshipLength":  `RelationshipLengthCreate(true)`,
	"RelationshipDetails": `RelationshipDetailsCreate1(LTR(), RelationshipTypesCreate(_slice("T")))`,
	"PropertyLookup":      `PropertyLookupCreate("lookup")`,
	"ReturnBody":          `ReturnBodyCreate(elist("%"), zero("Order"), zero("Skip"), zero("Limit"))`,
	"Return":              `ReturnCreate1(false, elist("%"), zero("Order"), zero("Skip"), zero("Limit"))`,
	"CaseWhenThen":        `CaseWhenThenCreate(e("%.w"), e("%.t"))`,
	"SinglePartQuery":     `zero("SinglePartQuery")`,
}

// callExpr: the call of a function or method with well-formed operands; lists
// take n entries. Empty when an operand's type is not a client's to make.
func callExpr(name string, sig *types.Signature, tag string, n int) string {
	var args []string
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		tg := fmt.Sprintf("%s%d", tag, i)
		if sig.Variadic() && i == sig.Params().Len()-1 {
			el := t.(*types.Slice).Elem()
			for j := 0; j < n; j++ {
				x := operandFor(el, fmt.Sprintf("%s%c", tg, 'a'+j))
				if it, ok := el.Underlying().(*types.Interface); ok && it.NumMethods() == 0 && j%2 == 0 && n%2 == 0 {
					x = strconv.Quote(fmt.Sprintf("%s%c", tg, 'a'+j))
				}
				if x == "" {
					return ""
				}
				args = append(args, x)
			}
			continue
		}
		x := operandFor(t, tg)
		if x == "" {
			return ""
		}
		args = append(args, x)
	}
	return name + "(" + strings.Join(args, ", ") + ")"
}

func (e *Eng) textsIn(st *State, v EV) string {
	v.st = st
	var out []string
	for _, t := range e.resultOfEV(v) {
		out = append(out, normText(t))
	}
	e.takeUndec()
	return strings.Join(uniq(mergeTmpl(out)), " or ")
}

// C11: no method or constructor changes what existed before it.
func ruleC11(e *Eng, l *Loaded) *Report {
	r := newReport("C11")
	// every exported function and method on arbitrary operands
	var keys []string
	apis := map[string]*API{}
	for _, a := range l.fns {
		if a.fn == nil || a.fn.Blocks == nil || !l.effectFree(a) || a.sig.Results().Len() == 0 {
			continue
		}
		keys = append(keys, a.name)
		apis[a.name] = a
	}
	sort.Strings(keys)
	e.sweep(r, keys, func(we *Eng, c *collected, k string) {
		a := apis[k]
		tooMany := false
		for _, n := range []int{1, 3, 2} {
			// lists of two entries only where those of three are out of reach
			if n == 2 && !tooMany {
				break
			}
			st := we.begin(&Opts{open: true, sliceLen: func(string, typ) int { return n }})
			args := we.genArgs(st, a)
			c.ob("operand-effect")
			for _, o := range we.exec(a.fn, args, nil, st) {
				for _, ev := range o.st.events {
					if how, ok := effectKinds[ev.kind]; ok {
						c.bad("operand-effect", k+"|"+ev.fn+"|"+strings.TrimRight(ev.msg, "0123456789[]"), ev.pos, fmt.Sprintf("%s: %s %s %s, which existed before the call", k, ev.fn, how, ev.msg))
					}
				}
			}
			u := we.takeUndec()
			if tooMany = n == 3 && onlyBounds(u); len(u) > 0 && !tooMany {
				c.bad("undecided", k, "", strings.Join(u, "; "))
			}
		}
	})
	// the same with well-formed operands of every kind, which are then rendered again
	e.sweep(r, keys, func(we *Eng, c *collected, k string) {
		a := apis[k]
		we.operandsUnchanged(c, k, a)
	})
	// every method on every kind of well-formed element, then the element again
	e.sweep(r, tableExprs(nil), func(we *Eng, c *collected, src string) {
		its, err := we.evalItems(src)
		if err != nil {
			c.bad("element-unchanged", src, "", "not analysable: "+err.Error())
			return
		}
		for _, it := range its {
			base := markPre(it.ev.st)
			before := we.textsIn(base, it.ev)
			for _, m := range we.clientMethods(it.ev.t) {
				sig := m.Type().(*types.Signature)
				if skipMethods[m.Name()] || sig.Results().Len() == 0 {
					continue
				}
				key := src + "." + m.Name()
				ca, cb := callExpr("X."+m.Name(), sig, "a", 2), callExpr("X."+m.Name(), sig, "b", 2)
				if ca == "" {
					continue
				}
				c.ob("element-unchanged")
				x := it.ev
				x.st = base
				as, err := we.on(x, ca)
				if err != nil {
					c.bad("element-unchanged", key, "", "not analysable: "+err.Error())
					continue
				}
				for _, a := range as {
					for _, ev := range a.st.events {
						if how, ok := effectKinds[ev.kind]; ok {
							c.bad("element-unchanged", key+"|"+ev.fn, ev.pos, fmt.Sprintf("%s: %s %s %s, which existed before the call", key, ev.fn, how, ev.msg))
						}
					}
					if a.panic != "" {
						continue
					}
					if after := we.textsIn(a.st, it.ev); !within(after, before) {
						c.bad("element-unchanged", key, a.pos, fmt.Sprintf("%s renders %q, and %q after %s was called on it", src, before, after, m.Name()))
					}
					// a second derivation leaves the first one alone
					if a.tuple {
						continue
					}
					first := we.textsIn(a.st, a)
					if first == "STEP" || first == "ERROR" {
						continue
					}
					x.st = a.st
					bs, _ := we.on(x, cb)
					for _, b := range bs {
						if b.panic != "" {
							continue
						}
						c.ob("derived-independent")
						if again := we.textsIn(b.st, a); !within(again, first) {
							c.bad("derived-independent", key, a.pos, fmt.Sprintf("the result of %s renders %q, and %q once %s was called again on the same element", key, first, again, m.Name()))
						}
					}
				}
				we.takeUndec()
			}
		}
	})
	return r
}

// operandsUnchanged calls the entry with named operands and renders each of
// them before and after.
func (e *Eng) operandsUnchanged(c *collected, k string, a *API) {
	st := e.begin(nil)
	e.inputs = map[string]string{}
	var exprs []string
	if a.recv != nil {
		exprs = append(exprs, operandFor(a.recv, "r"))
	}
	variadic := -1
	for i := 0; i < a.sig.Params().Len(); i++ {
		t := a.sig.Params().At(i).Type()
		if a.sig.Variadic() && i == a.sig.Params().Len()-1 {
			variadic = len(exprs)
			t = t.(*types.Slice).Elem()
			exprs = append(exprs, operandFor(t, fmt.Sprintf("o%da", i)), operandFor(t, fmt.Sprintf("o%db", i)))
			continue
		}
		exprs = append(exprs, operandFor(t, fmt.Sprintf("o%d", i)))
	}
	bind := map[string]EV{}
	for i, x := range exprs {
		if x == "" {
			return
		}
		var t types.Type
		switch {
		case a.recv != nil && i == 0:
			t = a.recv
		default:
			j := i
			if a.recv != nil {
				j--
			}
			if variadic >= 0 && i >= variadic {
				j = a.sig.Params().Len() - 1
				t = a.sig.Params().At(j).Type().(*types.Slice).Elem()
			} else {
				t = a.sig.Params().At(j).Type()
			}
		}
		x0, err := parseCached(x)
		if err != nil {
			return
		}
		var vs []EV
		func() {
			defer func() { recover() }()
			vs = e.ev(st, x0, t)
		}()
		if len(vs) == 0 || vs[0].panic != "" {
			return
		}
		st = vs[0].st
		bind[fmt.Sprintf("O%d", i)] = vs[0]
	}
	st = markPre(st)
	elems := map[string]string{}
	var names []string
	for n, v := range bind {
		if v.t == nil {
			continue
		}
		if e.l.isElem(v.t) || e.l.isHandle(v.t) {
			elems[n] = e.textsIn(st, v)
			names = append(names, n)
		}
	}
	sort.Strings(names)
	call := a.fn.Name() + "("
	from := 0
	if a.recv != nil {
		call, from = "O0."+a.fn.Name()+"(", 1
	}
	for i := from; i < len(exprs); i++ {
		if i > from {
			call += ", "
		}
		call += fmt.Sprintf("O%d", i)
	}
	call += ")"
	e.bind = bind
	vs, err := e.eval(st, call)
	e.bind = nil
	if err != nil {
		return
	}
	c.ob("operand-unchanged")
	for _, v := range vs {
		for _, ev := range v.st.events {
			if how, ok := effectKinds[ev.kind]; ok {
				c.bad("operand-unchanged", k+"|"+ev.fn, ev.pos, fmt.Sprintf("%s: %s %s %s, which existed before the call", k, ev.fn, how, ev.msg))
			}
		}
		if v.panic != "" {
			continue
		}
		for _, n := range names {
			if after := e.textsIn(v.st, bind[n]); !within(after, elems[n]) {
				c.bad("operand-unchanged", k+"|"+n, v.pos, fmt.Sprintf("operand %s of %s renders %q before the call and %q after it", n, k, elems[n], after))
			}
		}
	}
	e.takeUndec()
}

// within: every outcome of a is one of b (a path only narrows them down).
func within(a, b string) bool {
	in := map[string]bool{}
	for _, x := range strings.Split(b, " or ") {
		in[x] = true
	}
	for _, x := range strings.Split(a, " or ") {
		if !in[x] {
			return false
		}
	}
	return true
}

// effectFree: the entry is not itself the renderer or a mutating builder that
// the property leaves to others.
func (l *Loaded) effectFree(a *API) bool {
	if a.recv != nil {
		t := a.recv
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if types.Identical(t, l.rendererT) {
			return false
		}
		// unfinished builders are the subject of another property
		if l.isStatementBuilder(a.recv) || l.isStep(a.recv) && types.Identical(a.recv, types.NewPointer(t)) {
			return false
		}
	}
	return true
}

func init() {
	register("C11", &ruleDef{min: map[string]int{"operand-effect": 1000, "operand-unchanged": 400, "element-unchanged": 4000, "derived-independent": 2000}, run: ruleC11})
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// onlyBounds: nothing but the bounds on paths and steps stopped the analysis.
func onlyBounds(u []string) bool {
	for _, x := range u {
		if !strings.HasPrefix(x, "too many disjuncts") && !strings.HasPrefix(x, "budget exhausted") {
			return false
		}
	}
	return len(u) > 0
}
