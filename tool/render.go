package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// contexts: what surrounds an element X; H marks its place.
type context struct{ kind, expr string }

var contexts = []context{
	{"Expression", `ListOf(e("l"), X, e("r"))`},
	{"Expression", `ListOf(X, e("r"))`},
	{"Expression", `ListOf(e("l"), X)`},
	{"Expression", `ListOf(X)`},
	{"Expression", `ListOf(ListOf(e("k"), X), e("r"), ListOf(e("u"), e("w")))`},
	{"Expression", `MapOf("k", X, "l", e("r"))`},
	{"Expression", `MapOf("k", e("l"), "l", X, "m", e("r"))`},
	{"Expression", `MapOf("k", ListOf(e("l"), MapOf("q", X)), "m", e("r"))`},
	{"Expression", `Coalesce(e("l"), X, e("r"))`},
	{"Expression", `Coalesce(e("l"), Size(X), e("r"))`},
	{"Expression", `FunctionInvocationCreate(fd("d"), X, e("r"))`},
	{"Expression", `ExpressionListCreate(_list(e("l"), X, e("r")))`},
	{"Expression", `ArgumentsCreate(_list(e("l"), X, e("r")))`},
	{"Expression", `YieldItemsCreate(_list(X, e("r")))`},
	{"Expression", `ReturnBodyCreate(ExpressionListCreate(_list(e("l"), X, e("r"))), OrderCreate(_slice(sort("a"), sort("b"))), zero("Skip"), zero("Limit"))`},
	{"Expression", `CaseExpression(X).When(e("w")).Then(e("t")).ElseDefault(e("z"))`},
	{"Expression", `CaseExpression(e("x")).When(X).Then(e("t")).When(e("w")).Then(e("u"))`},
	{"Expression", `GenericCaseExpression().When(e("w")).Then(X).ElseDefault(e("z"))`},
	{"Expression", `ListOf(e("l"), CaseExpression(e("x")).When(e("w")).Then(X), e("r"))`},
	{"Expression", `SubList(X, e("i"), e("j"))`},
	{"Expression", `ListOf(e("l"), ValueAt(X, e("i")), e("r"))`},
	{"Expression", `ListComprehensionWith(sym("v")).In(X).Where(c("c")).Returning(e("a"), e("b"))`},
	{"Expression", `ListComprehensionWith(sym("v")).In(e("l")).Returning(X, e("b"))`},
	{"Expression", `Sort(X).Descending()`},
	{"Expression", `OrderCreate(_slice(Sort(e("l")), Sort(X), Sort(e("r"))))`},
	{"Expression", `Match(p("m"), p("n")).Returning(e("l"), X, e("r")).Build()`},
	{"Expression", `Match(p("m")).Returning(X, e("r")).OrderBySortItem(sort("a"), sort("b")).Build()`},
	{"Expression", `Match(p("m")).With(e("l"), X).Match(p("n"), p("o")).Returning(e("l"), e("r")).Build()`},
	{"Expression", `Match(p("m")).Returning(e("l"), e("r")).OrderBySortItem(Sort(e("a")), Sort(X), Sort(e("b"))).Build()`},
	{"Expression", `Unwind(X).As("v").Returning(e("l"), e("r")).Build()`},
	{"Expression", `Match(p("m"), p("n")).Set(e("l"), X).Returning(e("l"), e("r")).Build()`},
	{"Expression", `Match(p("m"), p("n")).Delete(e("l"), X, e("r")).Build()`},
	{"Expression", `ACall("ns", "proc").WithArgs(e("l"), X, e("r")).YieldString("y", "z").Returning(e("l"), e("r")).Build()`},
	{"Expression", `ANode("L").NamedByString("n").WithRawProperties("a", e("l"), "k", X, "z", e("r"))`},
	{"Expression", `PatternCreate(_plist(p("l"), ANode("L").NamedByString("n").WithRawProperties("a", e("l"), "k", X, "z", e("r")), p("r")))`},
	{"Expression", `node("a").RelationshipTo(node("b"), "T", "U").WithRawProperties("k", X, "z", e("r")).RelationshipTo(node("d"), "V")`},
	{"Expression", `node("n").Project("a", X, "b")`},
	{"Expression", `node("n").Project("k", e("l"), "a", X)`},
	{"PatternElement", `PatternCreate(_plist(p("l"), X, p("r")))`},
	{"PatternElement", `PatternCreate(_plist(X, p("r")))`},
	{"PatternElement", `PatternCreate(_plist(X))`},
	{"PatternElement", `Match(p("l"), X, p("r")).Returning(e("l"), e("r")).Build()`},
	{"PatternElement", `Match(p("l")).Create(X, p("r")).Returning(e("l"), e("r")).Build()`},
	{"PatternElement", `AnOptionalMatch(X, p("r")).Where(c("c")).Returning(e("l"), e("r")).Build()`},
	{"PatternElement", `Match(p("l")).Merge(X).Returning(e("l"), e("r")).Build()`},
	{"RelationshipPattern", `ListOf(e("l"), Size(SizeByPattern(X)), e("r"))`},
	{"RelationshipPattern", `ListOf(e("l"), ListBasedOn(X).Returning(e("a"), e("b")), e("r"))`},
	{"RelationshipPattern", `PatternCreate(_plist(p("l"), NamedPathCreate(sym("p"), X), p("r")))`},
	{"Condition", `WhereCreate(X)`},
	{"Condition", `Match(p("m"), p("n")).Where(X).Returning(e("l"), e("r")).Build()`},
	{"Condition", `Match(p("m"), p("n")).With(e("l"), e("k")).Where(X).Returning(e("l"), e("r")).Build()`},
	{"Condition", `ListOf(e("l"), ListComprehensionWith(sym("v")).In(e("w")).Where(X).Returning(e("a"), e("b")), e("r"))`},
	{"Condition", `GenericCaseExpression().When(X).Then(e("t")).ElseDefault(e("z"))`},
	{"Statement", `Match(p("m"), p("n")).Call(X).Returning(e("l"), e("r")).Build()`},
	{"Statement", `ACallByStatement(X).Returning(e("l"), e("r")).Build()`},
	{"Statement", `Match(p("m"), p("n")).With(e("l"), e("k")).Call(X).With(e("a"), e("b")).Returning(e("l"), e("r")).Build()`},
	{"MapExpression", `ANode("L").WithProperties(X).RelationshipTo(AnyNode(), "T", "U")`},
	{"MapExpression", `Match(p("l"), ANode("L").NamedByString("n").WithProperties(X), p("r")).Returning(e("l"), e("r")).Build()`},
	{"Node", `node("a").RelationshipTo(X, "T", "U").RelationshipFrom(node("b"), "V")`},
	{"Node", `X.RelationshipTo(node("a"), "T", "U").RelationshipFrom(node("b"), "V")`},
	{"Relationship", `RelationshipChainCreate(X).RelationshipTo(node("b"), "V", "W")`},
	{"AliasedExpression", `Match(p("m")).Returning(e("l"), X, e("r")).OrderBySortItem(Sort(e("a")), Sort(X), Sort(e("b"))).Build()`},
}

func (e *Eng) assignable(t types.Type, kind string) bool {
	o := e.l.pkg.Scope().Lookup(kind)
	if o == nil || t == nil {
		return false
	}
	return types.AssignableTo(t, o.Type())
}

func hasComposite(t string) bool { return strings.ContainsAny(t, "([{,|") }

func subst(tmpl, hole, text string) string { return strings.ReplaceAll(tmpl, "⟨"+hole+"⟩", text) }

// C10: an element renders inside any context exactly as it does on its own,
// and leaves what follows it as it would have been.
func ruleC10(e *Eng, l *Loaded) *Report {
	r := newReport("C10")
	for _, cx := range contexts {
		if e.l.pkg.Scope().Lookup(cx.kind) == nil {
			r.bad("context", cx.kind, "", "anchor type "+cx.kind+" not found")
		}
	}
	srcs := tableExprs(func(t tableLine) bool { return t.file == "elements.tbl" || t.tags["C10"] })
	srcs = append(srcs,
		`Match(p("a"), p("b")).Returning(e("x"), e("y")).Build()`,
		`Match(p("a"), p("b")).With(e("x"), e("y")).OrderBySortItem(sort("s"), sort("t")).Limit(2).Match(p("d")).Returning(e("u"), e("v")).Build()`,
		`Create(p("a"), p("b")).Build()`,
	)
	e.sweep(r, srcs, func(we *Eng, c *collected, src string) {
		its, err := we.evalItems(src)
		if err != nil {
			c.bad("context", src, "", "not analysable: "+err.Error())
			return
		}
		for _, it := range its {
			if it.text == "" {
				continue
			}
			el := it.ev
			el.v = we.elemOf(el.st, el.v)
			if we.l.isHandle(it.ev.t) {
				el.t = we.handleElem(it.ev.t)
			}
			for _, cx := range contexts {
				if !we.assignable(el.t, cx.kind) {
					continue
				}
				if cx.kind == "Expression" && !thorough && !hasComposite(it.text) && !strings.Contains(cx.expr, `ListOf(e("l"), X, e("r"))`) {
					continue
				}
				want, ok := we.contextText(cx)
				if !ok {
					c.bad("context", cx.expr, "", "context not analysable")
					continue
				}
				if want == "" {
					continue
				}
				c.ob("context")
				got, err := we.onText(el, cx.expr)
				if err != nil {
					c.bad("context", src+" in "+cx.expr, "", "not analysable: "+err.Error())
					continue
				}
				if cx.kind == "Statement" && len(got) == 1 && got[0] == "ERROR" && strings.Index(it.text, "RETURN") <= 0 {
					continue // only a query that returns something can be a subquery
				}
				var ws []string
				for _, t := range it.texts {
					x := want
					if n := strings.Count(want, "⟨H⟩"); n > 1 && cx.kind == "AliasedExpression" {
						i := strings.Index(t, " AS ")
						x = strings.Replace(want, "⟨H⟩", t, 1)
						if i >= 0 {
							x = subst(x, "H", t[i+4:])
						}
					}
					ws = append(ws, normText(subst(x, "H", t)))
				}
				ws = uniq(mergeTmpl(ws))
				if strings.Join(got, "\x00") == strings.Join(ws, "\x00") {
					continue
				}
				c.bad("context", src+" in "+cx.expr, it.ev.pos, fmt.Sprintf("%s renders %q on its own, but with it as X %s renders %q instead of %q", src, strings.Join(it.texts, " or "), cx.expr, strings.Join(got, " or "), strings.Join(ws, " or ")))
			}
			we.inAgainContexts(c, src, el)
		}
	})
	return r
}

// againContexts: a place where an element X is used for the second time. pre
// is the statement with the first use, one the clause whose text after pre is
// the second use and nothing else, lists what must become of lists around it.
var againContexts = []struct {
	kind, pre, one, before string
	lists                  [][2]string
}{
	{"PatternElement", `Match(X)`, `.Match(X)`, " MATCH ", [][2]string{
		{`.Match(p("u"), X, p("w")).Returning(e("y"), e("z")).Build()`, " MATCH ⟨u⟩, %, ⟨w⟩ RETURN ⟨y⟩, ⟨z⟩"},
		{`.Match(X, p("w")).Returning(e("z")).Build()`, " MATCH %, ⟨w⟩ RETURN ⟨z⟩"},
		{`.Match(p("u"), X).Returning(e("y"), e("z")).Build()`, " MATCH ⟨u⟩, % RETURN ⟨y⟩, ⟨z⟩"},
		{`.Match(X, X, p("w")).Returning(e("z")).Build()`, " MATCH %, %, ⟨w⟩ RETURN ⟨z⟩"},
		{`.Match(X).Match(p("u"), p("w")).Returning(e("z")).Build()`, " MATCH % MATCH ⟨u⟩, ⟨w⟩ RETURN ⟨z⟩"},
		{`.Create(p("u"), X, p("w")).Returning(e("y"), e("z")).Build()`, " CREATE ⟨u⟩, %, ⟨w⟩ RETURN ⟨y⟩, ⟨z⟩"},
		{`.Merge(X).Returning(e("y"), e("z")).Build()`, " MERGE % RETURN ⟨y⟩, ⟨z⟩"},
	}},
	{"Expression", `Match(p("m")).With(X)`, `.Returning(X)`, " RETURN ", [][2]string{
		{`.Returning(e("u"), X, e("w")).Build()`, " RETURN ⟨u⟩, %, ⟨w⟩"},
		{`.Returning(X, e("w")).Build()`, " RETURN %, ⟨w⟩"},
		{`.Returning(X, X, e("w")).Build()`, " RETURN %, %, ⟨w⟩"},
		{`.With(X, e("w")).Returning(e("y"), X, e("z")).Build()`, " WITH %, ⟨w⟩ RETURN ⟨y⟩, %, ⟨z⟩"},
		{`.Returning(ListOf(e("u"), X, e("w")), e("v")).Build()`, " RETURN [⟨u⟩, %, ⟨w⟩], ⟨v⟩"},
		{`.Returning(MapOf("k", X, "l", e("w")), e("v")).Build()`, " RETURN {k: %, l: ⟨w⟩}, ⟨v⟩"},
		{`.Returning(Coalesce(X, e("w")), e("v")).Build()`, " RETURN coalesce(%, ⟨w⟩), ⟨v⟩"},
		{`.Returning(e("y"), e("z")).OrderBySortItem(Sort(e("u")), Sort(X), Sort(e("w"))).Build()`, " RETURN ⟨y⟩, ⟨z⟩ ORDER BY ⟨u⟩, %, ⟨w⟩"},
	}},
	{"Condition", `Match(p("m")).Where(X)`, `.With(e("k")).Where(X)`, " WITH ⟨k⟩ WHERE ", [][2]string{
		{`.With(e("k"), e("l")).Where(X).Returning(e("y"), e("z")).Build()`, " WITH ⟨k⟩, ⟨l⟩ WHERE % RETURN ⟨y⟩, ⟨z⟩"},
		{`.Match(p("u"), p("w")).Where(X).Returning(e("y"), e("z")).Build()`, " MATCH ⟨u⟩, ⟨w⟩ WHERE % RETURN ⟨y⟩, ⟨z⟩"},
	}},
}

// inAgainContexts: the second use of an element, whatever it is abbreviated
// to, stands in a list exactly as the first would.
func (e *Eng) inAgainContexts(c *collected, src string, el EV) {
	for _, cx := range againContexts {
		if !e.assignable(el.t, cx.kind) {
			continue
		}
		const fin, finText = `.Returning(e("z")).Build()`, " RETURN ⟨z⟩"
		t0, err0 := e.onText(el, cx.pre+fin)
		one, tail := cx.pre+cx.one+fin, finText
		if cx.kind == "Expression" {
			one, tail = cx.pre+cx.one+".Build()", ""
		}
		t1, err1 := e.onText(el, one)
		if err0 != nil || err1 != nil {
			c.bad("context-again", src, "", fmt.Sprintf("not analysable: %v %v", err0, err1))
			continue
		}
		if len(t0) != 1 || len(t1) != 1 || t0[0] == "ERROR" || t1[0] == "ERROR" {
			continue
		}
		c.ob("context-again")
		pre, ok := strings.CutSuffix(t0[0], strings.TrimSpace(finText))
		pre = strings.TrimSpace(pre)
		again, ok1 := strings.CutPrefix(t1[0], pre)
		again, ok2 := strings.CutPrefix(strings.TrimSpace(again), strings.TrimSpace(cx.before))
		again, ok3 := strings.CutSuffix(again, strings.TrimSpace(tail))
		again = strings.TrimSpace(again)
		if !ok || !ok1 || !ok2 || !ok3 {
			c.bad("context-again", src+" in "+one, el.pos, fmt.Sprintf("with %s as X, %s renders %q after the %q of %s", src, one, t1[0], t0[0], cx.pre+fin))
			continue
		}
		for _, x := range cx.lists {
			c.ob("context-again")
			got, err := e.onText(el, cx.pre+x[0])
			want := pre + strings.ReplaceAll(x[1], "%", again)
			if err != nil {
				c.bad("context-again", src+" in "+cx.pre+x[0], el.pos, "not analysable: "+err.Error())
			} else if len(got) != 1 || got[0] != normText(want) {
				c.bad("context-again", src+" in "+cx.pre+x[0], el.pos, fmt.Sprintf("with %s as X, %s renders %q instead of %q", src, cx.pre+x[0], strings.Join(got, " or "), normText(want)))
			}
		}
	}
}

// handleElem: static type of the element a handle denotes.
func (e *Eng) handleElem(t types.Type) types.Type {
	if sel := types.NewMethodSet(t).Lookup(e.l.pkg, "Get"); sel != nil {
		return sel.Obj().Type().(*types.Signature).Results().At(0).Type()
	}
	return t
}

// contextText: the text of the context around an opaque element.
func (e *Eng) contextText(cx context) (string, bool) {
	if e.ctx == nil {
		e.ctx = map[string]string{}
	}
	if t, ok := e.ctx[cx.expr]; ok {
		return t, t != "!"
	}
	op := map[string]string{"Expression": `e("H")`, "PatternElement": `p("H")`, "RelationshipPattern": `rp("H")`, "Condition": `c("H")`}[cx.kind]
	if op == "" {
		op = contextHole[cx.kind]
	}
	saved := e.inputs
	rs, _, err := e.results("X := "+op+"; "+cx.expr, nil)
	e.inputs = saved
	t := "!"
	if err == nil && len(rs) == 1 {
		t = normText(rs[0])
		for _, from := range contextHoleText[cx.kind] {
			t = strings.ReplaceAll(t, normText(from), "⟨H⟩")
		}
	}
	e.ctx[cx.expr] = t
	return t, t != "!"
}

var contextHole = map[string]string{
	"MapExpression":     `MapOf("hhh", e("hh"))`,
	"Node":              `ANode("hhh")`,
	"Relationship":      `AnyNode().RelationshipTo(AnyNode(), "hhh")`,
	"AliasedExpression": `AliasedExpressionCreate(e("hh"), "hhh")`,
	"Statement":         `Match(p("hhh")).Returning(e("hh")).Build()`,
}

var contextHoleText = map[string][]string{
	"MapExpression":     {"{hhh: ⟨hh⟩}"},
	"Node":              {"(:`hhh`)"},
	"Relationship":      {"()-[:`hhh`]->()"},
	"AliasedExpression": {"⟨hh⟩ AS hhh", "hhh"},
	"Statement":         {"MATCH ⟨hhh⟩ RETURN ⟨hh⟩"},
}

func init() {
	register("C10", &ruleDef{min: map[string]int{"context": 3000, "context-again": 1000}, run: ruleC10})
	register("C13", &ruleDef{min: map[string]int{"render-effect": 400, "render-again": 400, "package-state": 300}, run: ruleC13})
	register("C22", &ruleDef{min: map[string]int{"specified-outcome": 40}, run: func(e *Eng, l *Loaded) *Report {
		r := newReport("C22")
		e.tableRule(r, "specified-outcome", func(t tableLine) bool { return t.tags["C22"] })
		return r
	}})
}

// C13: rendering changes nothing but its own renderer and can be repeated.
func ruleC13(e *Eng, l *Loaded) *Report {
	r := newReport("C13")
	e.rulePackageState(r, l)
	srcs := tableExprs(nil)
	d := 2
	if thorough {
		d = 4
	}
	_, full, _ := e.chainSet(d, true)
	for _, c := range full {
		for _, f := range e.finishes(c, true) {
			srcs = append(srcs, f.expr)
		}
	}
	sort.Strings(srcs)
	srcs = uniq(srcs)
	e.sweep(r, srcs, func(we *Eng, c *collected, src string) {
		st := we.begin(nil)
		we.inputs = map[string]string{}
		evs, err := we.eval(st, src)
		if err != nil {
			c.bad("render-effect", src, "", "not analysable: "+err.Error())
			return
		}
		for _, x := range evs {
			if x.panic != "" || x.v == nil {
				continue
			}
			we.renderTwice(c, src, x)
			we.takeUndec()
		}
	})
	return r
}

func (e *Eng) renderTwice(c *collected, src string, x EV) {
	v := e.elemOf(x.st, x.v)
	if tv, ok := v.(*TupleV); ok && x.tuple {
		v = tv.vs[0]
	}
	if er, _ := e.reportsErr(x.st, x.v); er {
		return
	}
	base := markPre(x.st)
	if e.hasMethod(v, "Build", base) && !e.hasMethod(v, "accept", base) {
		outs, err := e.callMethod(base, v, "Build")
		if err != nil || len(outs) == 0 || outs[0].panic != "" {
			return
		}
		tv, ok := outs[0].ret.(*TupleV)
		if !ok {
			return
		}
		if er, _ := e.reportsErr(outs[0].st, tv); er {
			return
		}
		v, base = tv.vs[0], markPre(outs[0].st)
	}
	if !e.hasMethod(v, "accept", base) {
		return
	}
	report := func(rule string, evs []Event, when string) {
		for _, ev := range evs {
			if how, ok := effectKinds[ev.kind]; ok {
				c.bad(rule, src+"|"+ev.fn, ev.pos, fmt.Sprintf("rendering %s%s: %s %s %s, which outlives the call", src, when, ev.fn, how, ev.msg))
			}
		}
	}
	sv, isStruct := v.(*StructV)
	if e.isStatement(v) {
		if isStruct {
			v = &Iface{dyn: sv.t, v: sv}
		}
		st0, rp, err := e.newRenderer(base.clone())
		if err != nil {
			c.bad("render-again", src, "", err.Error())
			return
		}
		// a renderer the caller holds is shared state as well
		st1, err1 := st0, error(nil)
		st1 = markPre(st0)
		firsts, err1 := e.renderWith(st1, rp, v)
		if err1 != nil {
			c.bad("render-again", src, "", err1.Error())
			return
		}
		c.ob("render-effect")
		for _, f := range firsts {
			if f.panic != "" {
				continue
			}
			report("render-effect", f.st.events, "")
			c.ob("render-again")
			t1 := e.tmpl(f.st, f.text)
			seconds, _ := e.renderWith(f.st, rp, v)
			e.sameText(c, src, "with the same renderer", t1, firsts, seconds)
			st2, rp2, err := e.newRenderer(f.st.clone())
			if err == nil {
				thirds, _ := e.renderWith(st2, rp2, v)
				e.sameText(c, src, "with another renderer", t1, firsts, thirds)
			}
		}
		return
	}
	firsts, err := e.renderElem(base, v)
	if err != nil {
		c.bad("render-effect", src, "", err.Error())
		return
	}
	c.ob("render-effect")
	for _, f := range firsts {
		if f.panic != "" {
			continue
		}
		report("render-effect", f.st.events, "")
		c.ob("render-again")
		seconds, _ := e.renderElem(f.st, v)
		e.sameText(c, src, "with another renderer", e.tmpl(f.st, f.text), firsts, seconds)
	}
}

func (e *Eng) sameText(c *collected, src, how, first string, firsts []Rend, again []Rend) {
	if len(again) == 0 {
		c.bad("render-again", src, "", "rendering again is not analysable")
		return
	}
	// rendering can split an opaque operand into cases (as a dotted name);
	// the second rendering then makes the same case distinction
	allowed, same := map[string]bool{}, false
	for _, f := range firsts {
		if f.panic == "" {
			allowed[e.tmpl(f.st, f.text)] = true
		}
	}
	for _, a := range again {
		same = same || a.panic == "" && e.tmpl(a.st, a.text) == first
	}
	for _, a := range again {
		if a.panic != "" {
			c.bad("render-again", src, a.pos, "rendering "+src+" again "+how+" panics: "+a.panic)
			continue
		}
		if t := e.tmpl(a.st, a.text); !same || !allowed[t] {
			c.bad("render-again", src, a.pos, fmt.Sprintf("%s renders %q, and %q when rendered again %s", src, first, t, how))
		}
	}
}
