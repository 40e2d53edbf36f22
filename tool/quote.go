package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"
)

// entries that are documented to take Cypher as it is: raw literals, and the
// names of functions, procedures and operators
var rawEntries = map[string]bool{
	"RawStringLiteralCreate": true, "ProcedureNameCreate": true, "ProcedureNameCreate1": true, "ProcedureNameCreate2": true,
	"NameSpaceCreate": true, "ACall": true, "ACallSimple": true, "StatementCall": true, "Call1": true,
	"FunctionInvocationCreateWithFunctionName": true, "DotCreate": true, "DirectionCreate": true, "OperatorCreate": true,
}

// textArgs: a call with opaque strings wherever a string can be passed, and
// whether there is such a place.
func textArgs(name string, sig *types.Signature, tag string) (string, bool) {
	var args []string
	any := false
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		tg := fmt.Sprintf("%s%d", tag, i)
		if sig.Variadic() && i == sig.Params().Len()-1 {
			el := t.(*types.Slice).Elem()
			for j := 0; j < 2; j++ {
				x := operandFor(el, textTag(el, tg)+string(rune('a'+j)))
				if it, ok := el.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
					any = true
					if j == 0 {
						x = "s(" + strconv.Quote(tg+"a") + ")"
					}
				}
				if x == "" {
					return "", false
				}
				any = any || isStringT(el)
				args = append(args, x)
			}
			continue
		}
		x := operandFor(t, textTag(t, tg))
		if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			any, x = true, "s("+strconv.Quote(tg)+")"
		}
		if s, ok := t.Underlying().(*types.Slice); ok && isStringT(s.Elem()) {
			any = true
		}
		if x == "" {
			return "", false
		}
		any = any || isStringT(t)
		args = append(args, x)
	}
	return name + "(" + strings.Join(args, ", ") + ")", any
}

// listMark follows the tag of a list of texts.
const listMark = "L"

// textTag: only texts keep the tag by which they are looked for.
func textTag(t types.Type, tag string) string {
	if s, ok := t.Underlying().(*types.Slice); ok {
		if t = s.Elem(); isStringT(t) {
			return "§" + listMark + strings.TrimLeft(tag, "§")
		}
	}
	if isStringT(t) {
		return tag
	}
	return "o" + strings.TrimLeft(tag, "§")
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var parameterPath = regexp.MustCompile(`\$⟨esc [^⟩]*⟩(\.⟨esc [^⟩]*⟩)*`)

// unquoted: the operands with the given tag that a text carries outside any token.
func unquoted(text, tag string) []string {
	var out []string
	// the name of a parameter is a path of names: $a.b
	hs, _ := holesOf(parameterPath.ReplaceAllString(text, "parameter"))
	for _, h := range hs {
		switch h.kind {
		case "esc", "bt", "lit", "num":
			// a piece of the text is not the text; the entries of a list are
			if strings.HasPrefix(h.name, tag) && !strings.HasPrefix(h.name, tag+listMark) && strings.Contains(h.name, "[") {
				out = append(out, "a piece of it ("+h.name+")")
			}
			continue
		}
		if strings.HasPrefix(h.name, tag) {
			out = append(out, h.name)
		}
	}
	return out
}

func ruleC08(e *Eng, l *Loaded) *Report {
	r := newReport("C08")
	apis := map[string]*API{}
	for _, a := range l.fns {
		if a.fn == nil || a.fn.Blocks == nil || a.sig.Results().Len() == 0 || rawEntries[a.fn.Name()] {
			continue
		}
		if _, any := textArgs("f", a.sig, "§"); any {
			apis[a.name] = a
		}
	}
	check := func(we *Eng, c *collected, key, src string, bind map[string]EV, st *State) {
		we.bind = bind
		evs, err := we.eval(st, src)
		we.bind = nil
		if err != nil {
			c.bad("undecided", key, "", "not analysable: "+err.Error())
			return
		}
		c.ob("text-quoted")
		for _, v := range evs {
			for _, t := range we.resultOfEV(v) {
				if strings.HasPrefix(t, "STRING ") && strings.Contains(key, "Get") {
					continue // reads the name back
				}
				if u := unquoted(t, "§"); len(u) > 0 {
					c.bad("text-quoted", key, v.pos, fmt.Sprintf("%s renders %q: the text passed as %s is not inside a quoted or escaped token", src, t, strings.Join(uniq(u), ", ")))
				}
			}
		}
		we.takeUndec()
	}
	e.sweep(r, sortedKeys(apis), func(we *Eng, c *collected, k string) {
		a := apis[k]
		name := a.fn.Name()
		if a.recv != nil {
			x := operandFor(a.recv, "r")
			if x == "" {
				return
			}
			name = x + "." + name
		}
		src, _ := textArgs(name, a.sig, "§")
		st := we.begin(nil)
		we.inputs = map[string]string{}
		check(we, c, k, src, nil, st)
	})
	e.sweep(r, tableExprs(nil), func(we *Eng, c *collected, src string) {
		its, err := we.evalItems(src)
		if err != nil {
			c.bad("undecided", src, "", "not analysable: "+err.Error())
			return
		}
		for _, it := range its {
			for _, m := range we.clientMethods(it.ev.t) {
				sig := m.Type().(*types.Signature)
				if skipMethods[m.Name()] || sig.Results().Len() == 0 || rawEntries[m.Name()] {
					continue
				}
				call, any := textArgs("X."+m.Name(), sig, "§")
				if !any {
					continue
				}
				we.budget = defaultBudget
				check(we, c, src+"."+m.Name(), call, map[string]EV{"X": {v: it.ev.v, t: it.ev.t}}, it.ev.st)
			}
		}
	})
	e.tableRule(r, "specified-quoting", nil, "quoting")
	e.chainRule(r, "chain-quoting", func(got, want string) bool {
		if want == "ERROR" || got == "ERROR" {
			return false
		}
		hg, _ := holesOf(got)
		hw, _ := holesOf(want)
		return names(hg) == names(hw) && kinds(hg) != kinds(hw)
	})
	return r
}

// ---------------------------------------------------------------- C09

// where a word W is written, and what must become of it (% stands for it)
var wordSites = []struct{ name, expr, kind, want string }{
	{"EscapeIfNecessary", `EscapeIfNecessary(W)`, "esc", "STRING %"},
	{"AQuote", `AQuote(W)`, "lit", "STRING %"},
	{"StringLiteral", `StringLiteralCreate(W)`, "lit", "%"},
	{"StringLiteral.AsString", `StringLiteralCreate(W).AsString()`, "lit", "STRING %"},
	{"LiteralOf", `LiteralOf(W)`, "lit", "%"},
	{"label", `ANode(W)`, "bt", "(:%)"},
	{"second label", `NewNodeWithLabels("L", W)`, "bt", "(:`L`:%)"},
	{"relationship type", `AnyNode().RelationshipTo(AnyNode(), W)`, "bt", "()-[:%]->()"},
	{"second relationship type", `AnyNode().RelationshipTo(AnyNode(), "T", W)`, "bt", "()-[:`T`|%]->()"},
	{"node name", `AnyNode().NamedByString(W)`, "esc", "(%)"},
	{"relationship name", `AnyNode().RelationshipTo(AnyNode()).NamedByString(W)`, "esc", "()-[%]->()"},
	{"symbolic name", `SymbolicNameCreate(W)`, "esc", "%"},
	{"alias", `e("x").As(W)`, "esc", "⟨x⟩ AS %"},
	{"alias of alias", `AliasedExpressionCreate(e("x"), "a").Aliased(W)`, "esc", "⟨x⟩ AS %"},
	{"property", `node("n").Property(W)`, "esc", "⟨esc n.name⟩.%"},
	{"map key", `MapOf(W, e("x"))`, "esc", "{%: ⟨x⟩}"},
	{"projected key", `node("n").Project(W, e("x"))`, "esc", "⟨esc n.name⟩{%: ⟨x⟩}"},
	{"parameter", `AParam(W)`, "param", "$%"},
	{"path name", `APath(W).DefinedBy(rp("r"))`, "esc", "% = ⟨r⟩"},
	{"set label", `OperationSetLabel(node("n"), W)`, "bt", "⟨esc n.name⟩:%"},
	{"label condition", `node("n").HasLabels(W)`, "bt", "⟨esc n.name⟩:%"},
	{"list name", `ListComprehensionWith(SymbolicNameCreate(W)).In(e("l")).Returning(e("x"))`, "esc", "[% IN ⟨l⟩ | ⟨x⟩]"},
	{"predicate variable", `PredicateAll(W).In(e("l")).Where(c("c"))`, "esc", "all(% IN ⟨l⟩ WHERE ⟨c⟩)"},
	{"unwind variable", `Unwind(e("x")).As(W).Returning(e("y")).Build()`, "esc", "UNWIND ⟨x⟩ AS % RETURN ⟨y⟩"},
	{"returned name", `Match(p("p")).ReturningByString(W).Build()`, "esc", "MATCH ⟨p⟩ RETURN %"},
	{"yielded name", `ACall("a").YieldString(W).Returning(e("y")).Build()`, "esc", "CALL a() YIELD % RETURN ⟨y⟩"},
	{"alias reference", `X := AliasedExpressionCreate(e("x"), W); Match(p("p")).Returning(X, X).Build()`, "esc", "MATCH ⟨p⟩ RETURN ⟨x⟩ AS %, %"},
}

// long words: every special character many times over
func longWords() []string {
	var out []string
	for _, c := range nameAlphabet {
		for _, n := range []int{5, 12, 33, 70} {
			out = append(out, strings.Repeat(string(c), n))
			out = append(out, strings.Repeat(string(clsLower)+string(c), n/2), strings.Repeat(string(clsUpper), n)+string(c))
		}
	}
	return append(out, strings.Repeat("`'\"\\ ", 12), strings.Repeat("\\`", 30))
}

func quoteSpec(kind, w string) string {
	switch kind {
	case "esc":
		return specEsc(w)
	case "bt":
		return specBt(w)
	case "lit":
		return specLit(w)
	}
	return w
}

func ruleC09(e *Eng, l *Loaded) *Report {
	r := newReport("C09")
	n, deep := 2, 3
	if thorough {
		n, deep = 3, 4
	}
	var keys []string
	words := map[string][]string{}
	for _, s := range wordSites {
		k := n
		if s.name == "EscapeIfNecessary" || s.name == "AQuote" {
			k = deep
		}
		ws := append(wordsUpTo(k), longWords()...)
		for i := 0; i*500 < len(ws); i++ {
			key := fmt.Sprintf("%s #%d", s.name, i)
			keys = append(keys, key)
			words[key] = ws[i*500 : min(len(ws), i*500+500)]
		}
	}
	e.sweep(r, keys, func(we *Eng, c *collected, key string) {
		name := key[:strings.LastIndex(key, " #")]
		for _, s := range wordSites {
			if s.name != name {
				continue
			}
			for _, w := range words[key] {
				if blank(w) && s.kind == "esc" {
					continue // rejected, not quoted
				}
				if s.name == "property" && w == string(clsPunct) {
					continue // "*" stands for all properties
				}
				want := quoteSpec(s.kind, w)
				if s.kind == "param" {
					if blank(w) || strings.ContainsAny(w, "$.") {
						continue // names with dots are written part by part, a leading $ is dropped
					}
					want = specEsc(w)
				}
				want = strings.ReplaceAll(s.want, "%", want)
				st := we.begin(nil)
				we.inputs = map[string]string{}
				we.bind = map[string]EV{"W": {v: strV(w), t: types.Typ[types.String]}}
				evs, err := we.eval(st, s.expr)
				we.bind = nil
				if err != nil {
					c.bad("quoting", s.name, "", "not analysable: "+err.Error())
					break
				}
				c.ob("quoting")
				for _, v := range evs {
					for _, t := range we.resultOfEV(v) {
						if t != want && t != normEsc(want) {
							c.bad("quoting", s.name, v.pos, fmt.Sprintf("%s with W = %s gives %s instead of %s", s.expr, showWord(w), showWord(t), showWord(want)))
						}
					}
				}
				if u := we.takeUndec(); len(u) > 0 {
					c.bad("quoting", s.name, "", "not analysable: "+strings.Join(u, "; "))
				}
			}
		}
	})
	return r
}

// showWord names the character classes of a word.
func showWord(w string) string {
	nm := map[rune]string{clsLower: "«letter»", clsUpper: "«LETTER»", clsDigit: "«digit»", clsULet: "«other letter»", clsUOther: "«other symbol»", clsPunct: "«punctuation»", clsSpace: "«space»", clsCtl: "«control»", clsUDigit: "«other digit»", clsUNum: "«other number»", clsUMark: "«mark»", clsUSpace: "«other space»"}
	var b strings.Builder
	for _, r := range w {
		if s, ok := nm[r]; ok {
			b.WriteString(s)
			continue
		}
		b.WriteRune(r)
	}
	return strconv.Quote(b.String())
}

func init() {
	register("C08", &ruleDef{min: map[string]int{"text-quoted": 300, "specified-quoting": 500, "chain-quoting": 5000}, run: ruleC08})
	register("C09", &ruleDef{min: map[string]int{"quoting": 10000}, run: ruleC09})
}
