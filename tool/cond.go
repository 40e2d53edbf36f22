package main

import (
	"fmt"
	"strings"
)

// ---- C21: the rendered text of a condition, read with Cypher's precedence,
// means what the caller combined.

// ctree is a combination of conditions as the caller writes it.
type ctree struct {
	op   string // AND OR XOR NOT, "" for a leaf
	l, r *ctree
	atom int    // leaf number
	leaf string // client expression of the leaf
	text string // its rendered text; "" for the condition that constrains nothing
}

func lf(n int, src, text string) *ctree { return &ctree{atom: n, leaf: src, text: text} }

// Kleene truth values: 0 false, 1 unknown, 2 true; -1 constrains nothing.
func evalOp(op string, a, b int) int {
	if a < 0 {
		return b
	}
	if b < 0 {
		return a
	}
	switch op {
	case "AND":
		if a < b {
			return a
		}
		return b
	case "OR":
		if a > b {
			return a
		}
		return b
	case "XOR":
		if a == 1 || b == 1 {
			return 1
		}
		if a != b {
			return 2
		}
		return 0
	}
	return -2
}

func (t *ctree) eval(row []int) int {
	switch t.op {
	case "":
		if t.text == "" {
			return -1
		}
		if t.text == "true" {
			return 2
		}
		if t.text == "false" {
			return 0
		}
		return row[t.atom]
	case "NOT":
		v := t.l.eval(row)
		if v < 0 {
			return v
		}
		return 2 - v
	}
	return evalOp(t.op, t.l.eval(row), t.r.eval(row))
}

var opMethod = map[string]string{"AND": "And", "OR": "Or", "XOR": "Xor"}

// src: the client expression that combines the leaves, in one of the ways the
// API offers.
func (t *ctree) src(style int) string {
	switch t.op {
	case "":
		return t.leaf
	case "NOT":
		if style == 1 {
			return "ConditionsNot(" + t.l.src(style) + ")"
		}
		if style == 2 {
			return t.l.chained(style) + ".Not().Get()"
		}
		return t.l.src(style) + ".Not().Get()"
	}
	switch style {
	case 1:
		return "CompoundConditionCreate(" + t.l.src(style) + ", " + t.op + ", " + t.r.src(style) + ")"
	case 2:
		return t.chained(style) + ".Get()"
	}
	return t.l.src(style) + "." + opMethod[t.op] + "(" + t.r.src(style) + ").Get()"
}

// chained: without Get between the steps.
func (t *ctree) chained(style int) string {
	switch t.op {
	case "":
		return t.leaf
	case "NOT":
		return t.l.chained(style) + ".Not()"
	}
	if strings.HasPrefix(t.r.leaf, "RelationshipPatternConditionCreate(") {
		return t.l.chained(style) + "." + opMethod[t.op] + "Pattern(" + strings.TrimSuffix(strings.TrimPrefix(t.r.leaf, "RelationshipPatternConditionCreate("), ")") + ")"
	}
	return t.l.chained(style) + "." + opMethod[t.op] + "(" + t.r.src(style) + ")"
}

func (t *ctree) leaves(m map[string]int) {
	if t.op == "" {
		if t.text != "" {
			m[t.text] = t.atom
		}
		return
	}
	t.l.leaves(m)
	if t.r != nil {
		t.r.leaves(m)
	}
}

// ---- reading the rendered text

type cparse struct {
	toks []string
	i    int
	atom map[string]int
}

func condTokens(s string) []string {
	var out []string
	rs := []rune(s)
	for i := 0; i < len(rs); {
		switch {
		case rs[i] == ' ' || rs[i] == '\n':
			i++
		case rs[i] == '(' || rs[i] == ')':
			out = append(out, string(rs[i]))
			i++
		default:
			j, depth := i, 0
			for j < len(rs) {
				if rs[j] == '⟨' {
					if k := matchAngle(string(rs[j:]), 0); k > 0 {
						j += len([]rune(string(rs[j:])[:k]))
						continue
					}
				}
				if rs[j] == '(' {
					depth++
				}
				if rs[j] == ')' {
					depth--
				}
				if depth < 0 || depth == 0 && rs[j] == ' ' {
					break
				}
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		}
	}
	return out
}

func (p *cparse) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}

func (p *cparse) bin(op string, sub func() (*ctree, error)) (*ctree, error) {
	l, err := sub()
	for err == nil && p.peek() == op {
		p.i++
		var r *ctree
		if r, err = sub(); err == nil {
			l = &ctree{op: op, l: l, r: r}
		}
	}
	return l, err
}

func (p *cparse) or() (*ctree, error)  { return p.bin("OR", p.xor) }
func (p *cparse) xor() (*ctree, error) { return p.bin("XOR", p.and) }
func (p *cparse) and() (*ctree, error) { return p.bin("AND", p.not) }
func (p *cparse) not() (*ctree, error) {
	if p.peek() == "NOT" {
		p.i++
		l, err := p.not()
		return &ctree{op: "NOT", l: l}, err
	}
	if p.peek() == "(" {
		p.i++
		l, err := p.or()
		if err != nil {
			return nil, err
		}
		if p.peek() != ")" {
			return nil, fmt.Errorf("unbalanced bracket")
		}
		p.i++
		return l, nil
	}
	var w []string
	for p.i < len(p.toks) {
		t := p.toks[p.i]
		if t == "AND" || t == "OR" || t == "XOR" || t == "(" || t == ")" || t == "NOT" {
			break
		}
		w = append(w, t)
		p.i++
	}
	a := strings.Join(w, " ")
	n, ok := p.atom[a]
	if !ok {
		return nil, fmt.Errorf("unexpected %q", a)
	}
	return lf(n, "", a), nil
}

func parseCond(s string, atom map[string]int) (*ctree, error) {
	p := &cparse{toks: condTokens(s), atom: atom}
	t, err := p.or()
	if err == nil && p.i < len(p.toks) {
		err = fmt.Errorf("unexpected %q", p.peek())
	}
	return t, err
}

// sameTruth compares two trees on every row; it returns a row that differs.
func sameTruth(a, b *ctree, n int) (bool, string) {
	row := make([]int, n)
	for {
		if x, y := a.eval(row), b.eval(row); x != y {
			var s []string
			for i, v := range row {
				s = append(s, fmt.Sprintf("condition %d %s", i, []string{"false", "null", "true"}[v]))
			}
			return false, strings.Join(s, ", ")
		}
		i := 0
		for ; i < n; i++ {
			if row[i]++; row[i] < 3 {
				break
			}
			row[i] = 0
		}
		if i == n {
			return true, ""
		}
	}
}

// leafKinds: the kinds of conditions that are combined.
var leafKinds = []func(n int) *ctree{
	func(n int) *ctree {
		return lf(n, fmt.Sprintf("c(%q)", string(rune('a'+n))), fmt.Sprintf("⟨%c⟩", 'a'+n))
	},
	func(n int) *ctree {
		return lf(n, fmt.Sprintf("e(%q).IsEqualTo(e(%q)).Get()", fmt.Sprint("x", n), fmt.Sprint("y", n)), fmt.Sprintf("⟨x%d⟩ = ⟨y%d⟩", n, n))
	},
	func(n int) *ctree {
		return lf(n, fmt.Sprintf("RelationshipPatternConditionCreate(rp(%q))", fmt.Sprint("p", n)), fmt.Sprintf("⟨p%d⟩", n))
	},
	func(n int) *ctree { return lf(n, "ConditionsIsTrue()", "true") },
	func(n int) *ctree { return lf(n, "ConditionsIsFalse()", "false") },
	func(n int) *ctree { return lf(n, "ConditionsNoCondition()", "") },
	func(n int) *ctree {
		return lf(n, fmt.Sprintf("HasLabelConditionCreate(sym(%q), \"L\")", fmt.Sprint("n", n)), fmt.Sprintf("⟨n%d⟩:`L`", n))
	},
	func(n int) *ctree {
		return lf(n, fmt.Sprintf("e(%q).IsNull().Get()", fmt.Sprint("z", n)), fmt.Sprintf("⟨z%d⟩ IS NULL", n))
	},
}

var condOps = []string{"AND", "OR", "XOR"}

// treesOf: every combination of n leaves, numbered from first, with up to
// nots negated nodes; kind picks the leaf of a number.
func treesOf(first, n, nots int, kind func(n int) *ctree) []*ctree {
	var out []*ctree
	add := func(t *ctree, used int) {
		out = append(out, t)
		if used < nots {
			out = append(out, &ctree{op: "NOT", l: t})
		}
	}
	if n == 1 {
		add(kind(first), 0)
		return out
	}
	for k := 1; k < n; k++ {
		for _, l := range treesOf(first, k, nots, kind) {
			for _, r := range treesOf(first+k, n-k, nots-l.countNots(), kind) {
				for _, op := range condOps {
					t := &ctree{op: op, l: l, r: r}
					add(t, t.countNots())
				}
			}
		}
	}
	return out
}

func (t *ctree) countNots() int {
	if t == nil {
		return 0
	}
	n := t.l.countNots() + t.r.countNots()
	if t.op == "NOT" {
		n++
	}
	return n
}

// hosts: the places that take conditions step by step.
var condHosts = []struct {
	name, pre, post string
	xor             bool
	cut             [2]string // the condition text lies between
}{
	{"Match", `Match(p("m"))`, `.Returning(e("t")).Build()`, false, [2]string{" WHERE ", " RETURN "}},
	{"With", `Match(p("m")).With(e("w"))`, `.Returning(e("t")).Build()`, false, [2]string{" WHERE ", " RETURN "}},
	{"Yield", `ACall("q").YieldString("w")`, `.Returning(e("t")).Build()`, false, [2]string{" WHERE ", " RETURN "}},
	{"PatternComprehension", `PatternComprehensionBasedOn(rp("m"))`, `.Returning(e("t"))`, false, [2]string{" WHERE ", " | "}},
}

type condCase struct {
	src  string
	want *ctree
	cut  [2]string
	n    int
	rule string
}

func condCases() []condCase {
	var out []condCase
	opaque := leafKinds[0]
	add := func(rule string, t *ctree, n int, styles ...int) {
		for _, s := range styles {
			out = append(out, condCase{rule: rule, src: t.src(s), want: t, n: n})
		}
	}
	maxL, nots := 5, []int{1, 2, 2, 1, 0, 0}
	if thorough {
		maxL, nots = 6, []int{1, 2, 3, 2, 0, 0}
	}
	for n := 1; n <= maxL; n++ {
		for _, t := range treesOf(0, n, nots[n-1], opaque) {
			add("grouping", t, n, 0, 1, 2)
		}
	}
	// two compounds and one more condition
	pair := func(op string, n int) *ctree { return &ctree{op: op, l: opaque(n), r: opaque(n + 1)} }
	for _, a := range condOps {
		for _, b := range condOps {
			for _, o1 := range condOps {
				for _, o2 := range condOps {
					add("grouping", &ctree{op: o2, l: &ctree{op: o1, l: pair(a, 0), r: pair(b, 2)}, r: opaque(4)}, 5, 0, 1, 2)
					for _, c := range condOps {
						add("grouping", &ctree{op: o2, l: &ctree{op: o1, l: pair(a, 0), r: pair(b, 2)}, r: pair(c, 4)}, 6, 0, 1, 2)
						add("grouping", &ctree{op: o1, l: pair(a, 0), r: &ctree{op: o2, l: pair(b, 2), r: pair(c, 4)}}, 6, 0, 1, 2)
					}
					for _, h := range condHosts {
						if o1 == "XOR" || o2 == "XOR" {
							continue
						}
						for _, o3 := range []string{"AND", "OR"} {
							t := &ctree{op: o3, l: &ctree{op: o2, l: &ctree{op: o1, l: pair(a, 0), r: opaque(2)}, r: pair(b, 3)}, r: opaque(5)}
							src := h.pre + ".Where(" + pair(a, 0).src(0) + ")." + opMethod[o1] + "(" + opaque(2).leaf + ")." + opMethod[o2] + "(" + pair(b, 3).src(0) + ")." + opMethod[o3] + "(" + opaque(5).leaf + ")" + h.post
							out = append(out, condCase{rule: "grouping-steps", src: src, want: t, cut: h.cut, n: 6})
						}
					}
				}
			}
		}
	}
	for _, a := range condOps {
		for _, b := range condOps {
			for _, h := range condHosts[:1] {
				t := &ctree{op: "AND", l: &ctree{op: "OR", l: &ctree{op: "OR", l: pair("AND", 0), r: pair(a, 2)}, r: pair(b, 4)}, r: opaque(6)}
				src := h.pre + ".Where(" + pair("AND", 0).src(0) + ").Or(" + pair(a, 2).src(0) + ").Or(" + pair(b, 4).src(0) + ").And(" + opaque(6).leaf + ")" + h.post
				out = append(out, condCase{rule: "grouping-steps", src: src, want: t, cut: h.cut, n: 7})
			}
		}
	}
	// other kinds of conditions, mixed
	for a := range leafKinds {
		for b := range leafKinds {
			for c := range leafKinds {
				if !thorough && a > 0 && b > 0 && c > 0 && (a+b+c)%3 != 0 {
					continue
				}
				ks := []int{a, b, c}
				for _, t := range treesOf(0, 3, 0, func(n int) *ctree { return leafKinds[ks[n]](n) }) {
					add("grouping", t, 3, 0, 2)
				}
			}
			for _, t := range treesOf(0, 2, 1, func(n int) *ctree { return leafKinds[[]int{a, b}[n]](n) }) {
				if negatesNothing(t) {
					continue
				}
				add("grouping", t, 2, 0, 1, 2)
			}
		}
	}
	// step by step
	parts := map[int][]*ctree{}
	for first := 0; first < 6; first++ {
		parts[first] = append(parts[first], treesOf(first, 1, 1, opaque)...)
		parts[first] = append(parts[first], treesOf(first, 2, 1, opaque)...)
	}
	for _, h := range condHosts {
		hostSteps(h.name, 3, func(steps []hostStep) {
			t := steps[0].t
			src := h.pre + ".Where(" + t.src(0) + ")"
			n := steps[0].n
			for _, s := range steps[1:] {
				src += "." + opMethod[s.op] + "(" + s.t.src(0) + ")"
				t = &ctree{op: s.op, l: t, r: s.t}
				n += s.n
			}
			out = append(out, condCase{rule: "grouping-steps", src: src + h.post, want: t, cut: h.cut, n: n})
		})
	}
	return out
}

// negatesNothing: the negation of the condition that constrains nothing is
// rejected.
func negatesNothing(t *ctree) bool {
	if t == nil {
		return false
	}
	if t.op == "NOT" && t.l.eval(make([]int, 8)) < 0 {
		return true
	}
	return negatesNothing(t.l) || negatesNothing(t.r)
}

type hostStep struct {
	op string
	t  *ctree
	n  int
}

func hostSteps(host string, depth int, f func([]hostStep)) {
	if thorough {
		depth++
	}
	var rec func(steps []hostStep, first int)
	rec = func(steps []hostStep, first int) {
		if len(steps) > 0 {
			f(append([]hostStep(nil), steps...))
		}
		if len(steps) == depth {
			return
		}
		ops := []string{"AND", "OR"}
		if len(steps) == 0 {
			ops = []string{""}
		}
		sizes := []int{1, 2, 3}
		if len(steps) > 0 {
			sizes = []int{1, 2}
		}
		if len(steps) >= 2 && (host != "Match" || len(steps) > 2) {
			sizes = []int{1}
		}
		for _, op := range ops {
			for _, n := range sizes {
				nots := 0
				if n == 1 && len(steps) < 2 {
					nots = 1
				}
				for _, t := range treesOf(first, n, nots, leafKinds[0]) {
					rec(append(steps, hostStep{op, t, n}), first+n)
				}
			}
		}
	}
	rec(nil, 0)
}

func ruleC21(e *Eng, l *Loaded) *Report {
	r := newReport("C21")
	cases := map[string]condCase{}
	var keys []string
	for _, c := range condCases() {
		if _, ok := cases[c.src]; !ok {
			cases[c.src] = c
			keys = append(keys, c.src)
		}
	}
	e.sweep(r, keys, func(we *Eng, c *collected, x string) {
		k := cases[x]
		c.ob(k.rule)
		got, evs, err := we.results(x, nil)
		pos := ""
		for _, ev := range evs {
			pos = ev.pos
		}
		if err != nil {
			c.bad(k.rule, x, "", "not analysable: "+err.Error())
			return
		}
		for _, u := range we.takeUndec() {
			c.bad("undecided", x, pos, u)
		}
		for _, g := range got {
			why, key := judgeCond(g, k)
			if why != "" {
				if key == "" {
					key = x
				}
				c.bad(k.rule, key, pos, fmt.Sprintf("%s renders %q: %s", x, g, why))
			}
		}
	})
	return r
}

// judgeCond tells what is wrong with the rendered text and, where the reading
// is a known kind of regrouping, which.
func judgeCond(g string, k condCase) (string, string) {
	row := make([]int, k.n)
	empty := k.want.eval(row) < 0
	text := g
	if k.cut[0] != "" {
		i := strings.Index(g, k.cut[0])
		if i < 0 {
			if empty {
				return "", ""
			}
			return "the condition is missing", ""
		}
		text = g[i+len(k.cut[0]):]
		j := strings.LastIndex(text, k.cut[1])
		if j < 0 {
			return "the condition is missing", ""
		}
		text = text[:j]
	}
	if empty {
		if strings.TrimSpace(text) != "" {
			return "nothing was to be rendered", ""
		}
		return "", ""
	}
	atoms := map[string]int{}
	k.want.leaves(atoms)
	t, err := parseCond(text, atoms)
	if err != nil {
		return "not readable as a condition: " + err.Error(), ""
	}
	ok, at := sameTruth(k.want, t, k.n)
	if ok {
		return "", ""
	}
	key := ""
	level := k.want.regroupings()
	for d := 0; d < 3 && key == ""; d++ {
		var deeper []regrouped
		for _, r := range level {
			if same, _ := sameTruth(r.t, t, k.n); same {
				key = r.key
				break
			}
			for _, n := range r.t.regroupings() {
				deeper = append(deeper, regrouped{n.t, r.key})
			}
		}
		level = deeper
	}
	return "differs from what was combined for " + at, key
}

type regrouped struct {
	t   *ctree
	key string
}

func (t *ctree) top() string {
	if t.op == "" || t.op == "NOT" {
		return "single"
	}
	return t.op
}

// regroupings: the trees in which (L op1 R) op2 S, with L joined by op2 and R
// joined by some operator, is read as L op1 (R op2 S).
func (t *ctree) regroupings() []regrouped {
	if t.op == "" {
		return nil
	}
	var out []regrouped
	for _, x := range t.l.regroupings() {
		out = append(out, regrouped{&ctree{op: t.op, l: x.t, r: t.r}, x.key})
	}
	if t.r != nil {
		for _, x := range t.r.regroupings() {
			out = append(out, regrouped{&ctree{op: t.op, l: t.l, r: x.t}, x.key})
		}
		if in := t.l; in.r != nil && in.op != t.op {
			out = append(out, regrouped{
				&ctree{op: in.op, l: in.l, r: &ctree{op: t.op, l: in.r, r: t.r}},
				fmt.Sprintf("(%s) %s (%s) then %s (%s) regrouped", in.l.top(), in.op, in.r.top(), t.op, t.r.top()),
			})
		}
	}
	return out
}

func init() {
	register("C21", &ruleDef{min: map[string]int{"grouping": 5000, "grouping-steps": 500}, run: ruleC21})
}
