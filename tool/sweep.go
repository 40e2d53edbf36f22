package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// item is one analysed outcome of a table expression.
type item struct {
	expr  string
	ev    EV
	texts []string
	text  string // the only text, or the first
}

// tableExprs: the distinct client expressions of the tables.
func tableExprs(pick func(tableLine) bool) []string {
	seen := map[string]bool{}
	var out []string
	for _, t := range loadTables() {
		if (pick == nil || pick(t)) && !seen[t.expr] {
			seen[t.expr] = true
			out = append(out, t.expr)
		}
	}
	return out
}

// evalItems evaluates a client expression to its non-erroneous outcomes.
func (e *Eng) evalItems(src string) ([]item, error) {
	st := e.begin(nil)
	e.inputs = map[string]string{}
	evs, err := e.eval(st, src)
	if err != nil {
		return nil, err
	}
	var out []item
	for _, r := range evs {
		if r.panic != "" || r.v == nil {
			continue
		}
		if r.tuple {
			if tv, ok := r.v.(*TupleV); ok {
				if er, k := e.reportsErr(r.st, tv); er && k {
					continue
				}
				r.v, r.tuple = tv.vs[0], false
			}
		}
		it := item{expr: src, ev: r}
		for _, t := range e.resultOfEV(r) {
			if t == "ERROR" || t == "NIL" || t == "STEP" || t == "VOID" || strings.HasPrefix(t, "STRING ") || strings.HasPrefix(t, "PANIC") || strings.HasPrefix(t, "UNDECIDED") {
				continue
			}
			it.texts = append(it.texts, t)
		}
		it.texts = uniq(mergeTmpl(it.texts))
		if len(it.texts) > 0 {
			it.text = it.texts[0]
			out = append(out, it)
		}
	}
	e.takeUndec()
	return out, nil
}

// on evaluates a client expression in which X is the given outcome.
func (e *Eng) on(x EV, src string) ([]EV, error) {
	e.budget = defaultBudget
	e.bind = map[string]EV{"X": {v: x.v, t: x.t}}
	defer func() { e.bind = nil }()
	return e.eval(x.st, src)
}

// onText: the normalised results of such an expression.
func (e *Eng) onText(x EV, src string) ([]string, error) {
	vs, err := e.on(x, src)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, v := range vs {
		for _, t := range e.resultOfEV(v) {
			out = append(out, normText(t))
		}
	}
	for _, u := range e.takeUndec() {
		out = append(out, "UNDECIDED "+u)
	}
	return uniq(mergeTmpl(out)), nil
}

func (e *Eng) hasStatic(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	if types.NewMethodSet(t).Lookup(e.l.pkg, name) != nil {
		return true
	}
	if types.IsInterface(t) {
		return false
	}
	return types.NewMethodSet(types.NewPointer(t)).Lookup(e.l.pkg, name) != nil
}

// finding collected from a parallel worker
type fnd struct{ rule, key, pos, msg string }

type collected struct {
	finds []fnd
	obs   map[string]int
}

func (c *collected) ob(rule string) {
	if c.obs == nil {
		c.obs = map[string]int{}
	}
	c.obs[rule]++
}

func (c *collected) bad(rule, key, pos, msg string) {
	c.finds = append(c.finds, fnd{rule, key, pos, msg})
}

// sweep runs f on every key in parallel and merges what it reports.
func (e *Eng) sweep(r *Report, keys []string, f func(we *Eng, c *collected, key string)) {
	cs := make([]collected, len(keys))
	e.parallel(len(keys), func(we *Eng, i int) { f(we, &cs[i], keys[i]) })
	for i, k := range keys {
		r.units[k] = true
		var rs []string
		for rule := range cs[i].obs {
			rs = append(rs, rule)
		}
		sort.Strings(rs)
		for _, rule := range rs {
			for n := 0; n < cs[i].obs[rule]; n++ {
				r.ob(rule, k)
			}
		}
		for _, x := range cs[i].finds {
			r.bad(x.rule, x.key, x.pos, x.msg)
		}
	}
}

// ---------------------------------------------------------------- C20

// fluent operations and what they make of the text of the element
var fluentOps = []struct{ name, call, want string }{
	{"IsEqualTo", `IsEqualTo(e("q"))`, "% = ⟨q⟩"},
	{"IsNotEqualTo", `IsNotEqualTo(e("q"))`, "% <> ⟨q⟩"},
	{"Lt", `Lt(e("q"))`, "% < ⟨q⟩"},
	{"Lte", `Lte(e("q"))`, "% <= ⟨q⟩"},
	{"Gt", `Gt(e("q"))`, "% > ⟨q⟩"},
	{"Gte", `Gte(e("q"))`, "% >= ⟨q⟩"},
	{"IsTrue", `IsTrue()`, "% = true"},
	{"IsFalse", `IsFalse()`, "% = false"},
	{"Matches", `Matches(e("q"))`, "% =~ ⟨q⟩"},
	{"StartWiths", `StartWiths(e("q"))`, "% STARTS WITH ⟨q⟩"},
	{"Contains", `Contains(e("q"))`, "% CONTAINS ⟨q⟩"},
	{"EndsWith", `EndsWith(e("q"))`, "% ENDS WITH ⟨q⟩"},
	{"Concat", `Concat(e("q"))`, "(% + ⟨q⟩)"},
	{"Add", `Add(e("q"))`, "(% + ⟨q⟩)"},
	{"Subtract", `Subtract(e("q"))`, "(% - ⟨q⟩)"},
	{"Multiply", `Multiply(e("q"))`, "(% * ⟨q⟩)"},
	{"Divide", `Divide(e("q"))`, "(% / ⟨q⟩)"},
	{"Remainder", `Remainder(e("q"))`, "(% % ⟨q⟩)"},
	{"Pow", `Pow(e("q"))`, "%^⟨q⟩"},
	{"IsNull", `IsNull()`, "% IS NULL"},
	{"IsNotNull", `IsNotNull()`, "% IS NOT NULL"},
	{"In", `In(e("q"))`, "% IN ⟨q⟩"},
	{"IsEmpty", `IsEmpty()`, "size(%) = 0"},
	{"Descending", `Descending()`, "% DESC"},
	{"Ascending", `Ascending()`, "% ASC"},
	{"As", `As("z")`, "% AS z"},
	{"And", `And(c("q"))`, "(% AND ⟨q⟩)"},
	{"Or", `Or(c("q"))`, "(% OR ⟨q⟩)"},
	{"Xor", `Xor(c("q"))`, "(% XOR ⟨q⟩)"},
	{"Not", `Not()`, "NOT (%)"},
}

func ruleC20(e *Eng, l *Loaded) *Report {
	r := newReport("C20")
	e.sweep(r, tableExprs(nil), func(we *Eng, c *collected, src string) {
		its, err := we.evalItems(src)
		if err != nil {
			c.bad("handle-text", src, "", "not analysable: "+err.Error())
			return
		}
		for _, it := range its {
			we.handleIdentity(c, src, it)
			for _, op := range fluentOps {
				if !we.hasStatic(it.ev.t, op.name) || op.name == "As" && !we.hasStatic(it.ev.t, "IsEqualTo") {
					continue
				}
				got, err := we.onText(it.ev, "X."+op.call)
				if err != nil {
					continue // another operation of that name
				}
				c.ob("handle-text")
				var wants, nested []string
				for _, t := range it.texts {
					wants = append(wants, normText(strings.Replace(op.want, "%", t, 1)))
					nested = append(nested, normText(strings.Replace(op.want, "%", "("+t+")", 1)))
				}
				// sorting again replaces the direction; joining with the same
				// operator may extend the chain; no condition joins as nothing
				if (op.name == "Ascending" || op.name == "Descending") && !we.hasStatic(it.ev.t, "IsEqualTo") {
					for i, t := range it.texts {
						t = strings.TrimSuffix(strings.TrimSuffix(t, " ASC"), " DESC")
						wants[i] = normText(strings.Replace(op.want, "%", t, 1))
					}
				}
				if o := strings.ToUpper(op.name); o == "AND" || o == "OR" || o == "XOR" {
					if !we.hasStatic(it.ev.t, "Not") && !we.hasStatic(it.ev.t, "Xor") {
						continue
					}
					for i, t := range it.texts {
						if outerOp(t) == o {
							nested[i] = normText(t[:len(t)-1] + " " + o + " ⟨q⟩)")
						}
						if t == "" {
							nested[i] = "⟨q⟩"
						}
					}
				}
				all := strings.Join(got, "\x00")
				if all == strings.Join(uniq(wants), "\x00") || all == strings.Join(uniq(nested), "\x00") {
					continue
				}
				if all == "ERROR" && strings.Join(it.texts, "") == "" {
					continue // the empty condition is no operand
				}
				want := strings.Join(wants, " or ")
				c.bad("handle-text", src+"."+op.name, it.ev.pos, fmt.Sprintf("%s renders %q, but %s.%s on it renders %q instead of %q", src, normText(it.text), src, op.call, strings.Join(got, " or "), want))
			}
		}
	})
	return r
}

// handleIdentity: an element and what its fluent handle gives are told apart
// by nothing: they have the same key, type and parts.
func (e *Eng) handleIdentity(c *collected, src string, it item) {
	el, ok := it.ev.v.(*StructV)
	if !ok || e.l.isHandle(el.t) || !e.hasMethod(el, "Get", it.ev.st) || !e.hasMethod(el, "getKey", it.ev.st) {
		return
	}
	outs, err := e.callMethod(it.ev.st.clone(), el, "Get")
	if err != nil || len(outs) != 1 || outs[0].panic != "" {
		c.bad("handle-identity", src, it.ev.pos, "the handle's element is not analysable")
		return
	}
	c.ob("handle-identity")
	st, h := outs[0].st, outs[0].ret
	if i, ok := h.(*Iface); ok {
		h = i.v
	}
	hv, ok := h.(*StructV)
	if !ok || !types.Identical(hv.t, el.t) {
		c.bad("handle-identity", src, it.ev.pos, fmt.Sprintf("%s is a %s, its handle holds %s", src, shortType(el.t), h.K()))
		return
	}
	k1, err1 := e.callMethod(st.clone(), el, "getKey")
	k2, err2 := e.callMethod(st.clone(), hv, "getKey")
	if err1 != nil || err2 != nil || len(k1) != 1 || len(k2) != 1 || k1[0].panic != "" || k2[0].panic != "" {
		c.bad("handle-identity", src, it.ev.pos, "the identity of the element or of its handle is not analysable")
		return
	}
	if k1[0].ret.K() != k2[0].ret.K() {
		c.bad("handle-identity", src, it.ev.pos, fmt.Sprintf("%s has the identity %s, the element its fluent handle operates on has %s", src, k1[0].ret.K(), k2[0].ret.K()))
	}
}

func init() {
	register("C20", &ruleDef{min: map[string]int{"handle-text": 3000, "handle-identity": 200}, run: ruleC20})
}

// outerOp: the one operator that joins the operands of a parenthesised text.
func outerOp(t string) string {
	if !strings.HasPrefix(t, "(") || !strings.HasSuffix(t, ")") {
		return ""
	}
	d, op := 0, ""
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
			if d == 0 && i < len(t)-1 {
				return ""
			}
		}
		if d != 1 {
			continue
		}
		for _, o := range []string{"AND", "OR", "XOR"} {
			if strings.HasPrefix(t[i:], o+" ") && i > 0 && !isWordByte(t[i-1]) {
				if op != "" && op != o {
					return ""
				}
				op = o
			}
		}
	}
	return op
}

func isWordByte(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}
