package main

import (
	"fmt"
	"go/types"
	"strings"
)

// uniqueIn: the never repeated parts of a key; "" when it has none.
func uniqueIn(v Val) string {
	switch x := v.(type) {
	case *Sym:
		if x.fn == "unique" {
			return x.name
		}
	case *Iface:
		return uniqueIn(x.v)
	case *Cat:
		for _, p := range x.parts {
			if u := uniqueIn(p); u != "" {
				return u
			}
		}
	}
	return ""
}

// keyOf: the identity by which the renderer knows an element.
func (e *Eng) keyOf(st *State, v Val) (Val, bool) {
	v = e.elemOf(st, v)
	if tv, ok := v.(*TupleV); ok && len(tv.vs) > 0 {
		v = tv.vs[0]
	}
	if !e.hasMethod(v, "getKey", st) {
		return nil, false
	}
	outs, err := e.callMethod(st.clone(), v, "getKey")
	if err != nil || len(outs) != 1 || outs[0].panic != "" {
		return nil, false
	}
	return outs[0].ret, true
}

// partsOf: the elements which an element holds, by the name of the field; fluent handles denote the element itself.
func (e *Eng) partsOf(st *State, v Val) map[string]Val {
	parts := map[string]Val{}
	var visit func(name string, v Val, depth int)
	visit = func(name string, v Val, depth int) {
		if i, ok := v.(*Iface); ok && i.dyn != nil {
			if _, opaque := i.v.(*Sym); !opaque {
				v = i.v
			}
		}
		t := types.Type(nil)
		switch x := v.(type) {
		case *StructV:
			t = x.t
		case *SliceV:
			if elems, ok := e.elems(st, x); ok && depth < 2 {
				for i, y := range elems {
					visit(fmt.Sprintf("%s[%d]", name, i), y, depth+1)
				}
			}
			return
		}
		if t != nil && e.l.isHandle(t) {
			return
		}
		if e.hasMethod(v, "getKey", st) {
			parts[name] = v
		}
	}
	if i, ok := v.(*Iface); ok {
		v = i.v
	}
	sv, ok := v.(*StructV)
	if !ok {
		return nil
	}
	fields, ok := sv.t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < fields.NumFields() && i < len(sv.f); i++ {
		if !fields.Field(i).Embedded() {
			visit(fields.Field(i).Name(), sv.f[i], 0)
		}
	}
	return parts
}

// pairs of contexts for two separate elements A and B of one text
var pairContexts = []struct{ kind, expr, want string }{
	{"PatternElement", `PatternCreate(_plist(A, B))`, "⟨#1⟩, ⟨#2⟩"},
	{"PatternElement", `Match(A).Create(B).Returning(e("x")).Build()`, "MATCH ⟨#1⟩ CREATE ⟨#2⟩ RETURN ⟨x⟩"},
	{"Expression", `ListOf(A, B)`, "[⟨#1⟩, ⟨#2⟩]"},
	{"Expression", `Match(p("p")).Returning(AliasedExpressionCreate(A, "a"), AliasedExpressionCreate(B, "a")).Build()`, "MATCH ⟨p⟩ RETURN ⟨#1⟩ AS a, ⟨#2⟩ AS a"},
	{"Expression", `Match(p("p")).With(AliasedExpressionCreate(A, "a"), e("z")).Returning(B).Build()`, "MATCH ⟨p⟩ WITH ⟨#1⟩ AS a, ⟨z⟩ RETURN ⟨#2⟩"},
	{"Node", `Match(A.RelationshipTo(B, "T")).Returning(e("x")).Build()`, "MATCH ⟨#1⟩-[:`T`]->⟨#2⟩ RETURN ⟨x⟩"},
}

func ruleC14(e *Eng, l *Loaded) *Report {
	r := newReport("C14")
	e.sweep(r, tableExprs(nil), func(we *Eng, c *collected, src string) {
		its, err := we.evalItems(src)
		if err != nil {
			c.bad("identity", src, "", "not analysable: "+err.Error())
			return
		}
		for n, it := range its {
			if n > 0 {
				break
			}
			el := it.ev
			el.v = we.elemOf(el.st, el.v)
			if we.l.isHandle(it.ev.t) {
				el.t = we.handleElem(it.ev.t)
			}
			k1, ok := we.keyOf(el.st, el.v)
			if !ok {
				continue
			}
			// its parts are other elements
			if u := uniqueIn(k1); u != "" {
				for name, part := range we.partsOf(el.st, el.v) {
					kp, ok := we.keyOf(el.st, part)
					if !ok {
						continue
					}
					c.ob("own-identity")
					if kp.K() == k1.K() {
						c.bad("own-identity", src+"."+name, it.ev.pos, fmt.Sprintf("the element made by %s has the identity of its own part %s: one is taken for the other when it repeats or is aliased", src, name))
					}
				}
			}
			// the same construction once more, while the first element lives
			we.budget = defaultBudget
			seconds, err := we.eval(el.st, src)
			if err != nil {
				continue
			}
			for _, b := range seconds {
				if b.panic != "" || b.v == nil {
					continue
				}
				b.v = we.elemOf(b.st, b.v)
				if tv, ok := b.v.(*TupleV); ok {
					b.v = tv.vs[0]
				}
				k2, ok := we.keyOf(b.st, b.v)
				if !ok {
					continue
				}
				c.ob("identity")
				shared := b.v.K() == el.v.K() // the very same element, as a shared constant
				u1, u2 := uniqueIn(k1), uniqueIn(k2)
				switch {
				case shared:
				case u1 == "" || u2 == "":
					c.bad("identity", src, it.ev.pos, fmt.Sprintf("%s makes elements whose identity %s is not taken from a source that never repeats", src, k2.K()))
				case u1 == u2:
					c.bad("identity", src, it.ev.pos, fmt.Sprintf("two elements made by %s have the same identity", src))
				}
				if shared {
					continue
				}
				for _, p := range pairContexts {
					if !we.assignable(el.t, p.kind) {
						continue
					}
					if p.kind == "Expression" && strings.Contains(it.text, " AS ") {
						continue // aliases are compared as aliases
					}
					c.ob("kept-apart")
					we.budget = defaultBudget
					we.bind = map[string]EV{"A": {v: el.v, t: el.t}, "B": {v: b.v, t: el.t}}
					vs, err := we.eval(b.st, p.expr)
					we.bind = nil
					if err != nil {
						c.bad("kept-apart", src+" in "+p.expr, "", "not analysable: "+err.Error())
						continue
					}
					var allowed []string
					for _, t := range it.texts {
						for _, t2 := range it.texts {
							allowed = append(allowed, normText(subst(subst(p.want, "#1", t), "#2", t2)))
						}
					}
					for _, v := range vs {
						for _, t := range we.resultOfEV(v) {
							if t = normText(t); t != "ERROR" && !within(t, strings.Join(allowed, " or ")) {
								c.bad("kept-apart", src+" in "+p.expr, v.pos, fmt.Sprintf("with A and B made separately by %s, %s renders %q instead of %q", src, p.expr, t, allowed[0]))
							}
						}
					}
				}
				break
			}
			// derived elements are not mistaken for their base
			for _, m := range we.clientMethods(it.ev.t) {
				sig := m.Type().(*types.Signature)
				if skipMethods[m.Name()] || sig.Results().Len() == 0 {
					continue
				}
				call := callExpr("X."+m.Name(), sig, "d", 2)
				if call == "" {
					continue
				}
				ds, err := we.on(it.ev, call)
				if err != nil {
					continue
				}
				for _, d := range ds {
					if d.panic != "" || d.v == nil || d.tuple || d.t == nil || !(we.l.isElem(d.t) || we.l.isHandle(d.t)) {
						continue
					}
					if er, _ := we.reportsErr(d.st, d.v); er {
						continue
					}
					kd, ok := we.keyOf(d.st, d.v)
					if !ok {
						continue
					}
					after := we.textsIn(d.st, d)
					before := we.textsIn(d.st, it.ev)
					if after == before || after == "STEP" || within(after, before) {
						continue
					}
					c.ob("derived-identity")
					key := src + "." + m.Name()
					if kd.K() == k1.K() {
						c.bad("derived-identity", key, d.pos, fmt.Sprintf("%s renders %q, but shares the identity of the element it is derived from, which renders %q", key, after, before))
					} else if uniqueIn(kd) == "" && !we.partOf(it.ev, d) {
						c.bad("derived-identity", key, d.pos, fmt.Sprintf("%s has the identity %s, which is not taken from a source that never repeats", key, kd.K()))
					}
				}
				we.takeUndec()
			}
		}
	})
	return r
}

// partOf: the derived element is one that existed already (an accessor's result).
func (e *Eng) partOf(base, d EV) bool {
	return strings.Contains(base.v.K(), e.elemOf(d.st, d.v).K())
}

func init() {
	register("C14", &ruleDef{min: map[string]int{"kept-apart": 500, "own-identity": 300}, run: ruleC14})
}
