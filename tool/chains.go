package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// Statement chains. A chain is a client expression built step by step along
// the static types of the builder interfaces; next to it runs a model of the
// statement that the chain describes, written from the meaning of the steps
// alone: every step appends one clause or completes the last one.

type cond struct {
	op   string
	subs []*cond
	leaf string
}

func (c *cond) text() string {
	if c.op == "" {
		return c.leaf
	}
	var p []string
	for _, s := range c.subs {
		p = append(p, s.text())
	}
	return "(" + strings.Join(p, " "+c.op+" ") + ")"
}

func join(op string, a, b *cond) *cond {
	if a.op == op {
		return &cond{op: op, subs: append(append([]*cond(nil), a.subs...), b)}
	}
	return &cond{op: op, subs: []*cond{a, b}}
}

type clause struct {
	kind  string // MATCH, UNWIND, CREATE, MERGE, DELETE, SET, REMOVE, WITH, RETURN, CALL, SUBQUERY
	head  string
	items []string
	tail  string // AS v, ON CREATE SET ..., YIELD ...
	order []string
	open  string // order item without direction yet
	skip  string
	limit string
	where *cond
	yield []string
	args  []string
}

func (c *clause) text() string {
	var b strings.Builder
	b.WriteString(c.head)
	switch c.kind {
	case "CALL":
		b.WriteString("(" + strings.Join(c.args, ", ") + ")")
		if len(c.yield) > 0 {
			b.WriteString(" YIELD " + strings.Join(c.yield, ", "))
		}
	case "SUBQUERY":
		b.WriteString(" {" + c.items[0] + "}")
	default:
		b.WriteString(" " + strings.Join(c.items, ", "))
	}
	b.WriteString(c.tail)
	ord := c.order
	if c.open != "" {
		ord = append(append([]string(nil), ord...), c.open)
	}
	if len(ord) > 0 {
		b.WriteString(" ORDER BY " + strings.Join(ord, ", "))
	}
	if c.skip != "" {
		b.WriteString(" SKIP " + c.skip)
	}
	if c.limit != "" {
		b.WriteString(" LIMIT " + c.limit)
	}
	if c.where != nil {
		b.WriteString(" WHERE " + c.where.text())
	}
	return b.String()
}

// model of the statement built so far
type model struct {
	cl      []*clause
	bad     string // why the chain must be reported as an error
	pending string // step that has to be completed: unwind, call, mergeaction
	deadEnd bool
	exists  bool // ended as an existential subquery
}

func (m *model) copy() *model {
	n := &model{bad: m.bad, pending: m.pending, deadEnd: m.deadEnd, exists: m.exists}
	for _, c := range m.cl {
		d := *c
		n.cl = append(n.cl, &d)
	}
	return n
}

func (m *model) last() *clause {
	if len(m.cl) == 0 {
		return &clause{}
	}
	return m.cl[len(m.cl)-1]
}

func (m *model) add(c *clause) { m.cl = append(m.cl, c) }

func (m *model) text() string {
	if m.bad != "" {
		return "ERROR"
	}
	var p []string
	for _, c := range m.cl {
		p = append(p, c.text())
	}
	if m.exists {
		return "EXISTS {" + strings.Join(p, " ") + " }"
	}
	return strings.Join(p, " ")
}

var actionKinds = regexp.MustCompile(`ON (CREATE|MATCH)`)

// shape of a model: the kinds and flags of its last two clauses.
func (m *model) shape() string {
	s := m.pending + ";" + m.bad
	n := len(m.cl)
	for i := n - 2; i < n; i++ {
		if i < 0 {
			continue
		}
		c := m.cl[i]
		s += fmt.Sprintf("/%s:%v%v%v%v%v%v", c.kind, c.where != nil, len(c.order) > 0, c.open != "", c.skip != "", c.limit != "", c.tail != "")
		if i == n-1 {
			// more about the clause in hand
			head := ""
			if strings.ContainsAny(c.head, " ") && c.kind != "CALL" {
				head = c.head
			}
			where := ""
			if c.where != nil {
				where = c.where.op
			}
			s += fmt.Sprintf(":%s:%s:%v:%v:%s:%v", head, strings.Join(actionKinds.FindAllString(c.tail, -1), ""), len(c.yield) > 0, len(c.args) > 0, where, len(c.order) > 2)
		}
	}
	return s
}

// alt is one way to call a step.
type alt struct {
	args string
	do   func(m *model)
	// operands that can carry an error
	ops []string
	// least one way per step with distinct meaning is canonical
	canon bool
	// free: only the operand list length differs from the canonical way
	tag string
}

type step func(id string) []alt

func hole(n string) string    { return "⟨" + n + "⟩" }
func escHole(n string) string { return "⟨esc " + n + "⟩" }

// operand lists of several lengths of one kind
func lists(id, mk string, text func(n string) string, each func(items []string, m *model)) []alt {
	var as []alt
	for _, n := range []int{1, 2, 3, 6} {
		var xs, items, ops []string
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("%s%c", id, 'a'+i)
			xs = append(xs, fmt.Sprintf("%s(%q)", mk, nm))
			items = append(items, text(nm))
			if mk != "s" {
				ops = append(ops, nm)
			}
		}
		its := items
		as = append(as, alt{args: strings.Join(xs, ", "), do: func(m *model) { each(its, m) }, ops: ops, canon: n == 2, tag: fmt.Sprint(n)})
	}
	return as
}

func clauseStep(kind, head, mk string, text func(string) string) step {
	return func(id string) []alt {
		return lists(id, mk, text, func(items []string, m *model) { m.add(&clause{kind: kind, head: head, items: items}) })
	}
}

// named elements: node, relationship, path; written by name
func namedStep(kind, head string) step {
	return func(id string) []alt {
		var as []alt
		for _, mk := range [][]string{{"node"}, {"node", "rel"}, {"rel", "path", "node"}} {
			var xs, items, ops []string
			for i, k := range mk {
				nm := fmt.Sprintf("%s%c", id, 'a'+i)
				xs = append(xs, fmt.Sprintf("%s(%q)", k, nm))
				items = append(items, escHole(nm+".name"))
				ops = append(ops, nm)
			}
			as = append(as, alt{args: strings.Join(xs, ", "), do: func(m *model) { m.add(&clause{kind: kind, head: head, items: items}) }, ops: ops, tag: fmt.Sprint(len(mk))})
		}
		return as
	}
}

func one(args string, op []string, canon bool, do func(m *model)) []alt {
	return []alt{{args: args, do: do, ops: op, canon: canon}}
}

func condStep(op string, pattern bool) step {
	return func(id string) []alt {
		a := fmt.Sprintf("c(%q)", id)
		if pattern {
			a = fmt.Sprintf("rp(%q)", id)
		}
		return one(a, []string{id}, !pattern, func(m *model) { m.cond(op, hole(id)) })
	}
}

func (m *model) cond(op, h string) {
	c := m.last()
	switch c.kind {
	case "MATCH", "WITH", "CALL":
	default:
		m.bad = "a condition needs a MATCH, WITH or CALL"
		return
	}
	l := &cond{leaf: h}
	if op == "WHERE" || c.where == nil {
		c.where = l
		return
	}
	c.where = join(op, c.where, l)
}

func matchStep(opt bool) step {
	h := "MATCH"
	if opt {
		h = "OPTIONAL MATCH"
	}
	return clauseStep("MATCH", h, "p", hole)
}

// chainSteps: the meaning of every step, by method name.
var chainSteps = map[string]step{
	"Match": matchStep(false), "OptionalMatch": matchStep(true),
	"MatchDefault": func(id string) []alt {
		return []alt{
			{args: fmt.Sprintf("false, p(%q)", id), ops: []string{id}, do: func(m *model) { m.add(&clause{kind: "MATCH", head: "MATCH", items: []string{hole(id)}}) }},
			{args: fmt.Sprintf("true, p(%q), p(%q)", id, id+"b"), ops: []string{id, id + "b"}, do: func(m *model) {
				m.add(&clause{kind: "MATCH", head: "OPTIONAL MATCH", items: []string{hole(id), hole(id + "b")}})
			}},
		}
	},
	"Create":                    clauseStep("CREATE", "CREATE", "p", hole),
	"Merge":                     clauseStep("MERGE", "MERGE", "p", hole),
	"Returning":                 clauseStep("RETURN", "RETURN", "e", hole),
	"ReturningByString":         clauseStep("RETURN", "RETURN", "s", escHole),
	"ReturningByNamed":          namedStep("RETURN", "RETURN"),
	"ReturningDistinct":         clauseStep("RETURN", "RETURN DISTINCT", "e", hole),
	"ReturningDistinctByString": clauseStep("RETURN", "RETURN DISTINCT", "s", escHole),
	"ReturningDistinctByNamed":  namedStep("RETURN", "RETURN DISTINCT"),
	"With":                      clauseStep("WITH", "WITH", "e", hole),
	"WithByString":              clauseStep("WITH", "WITH", "s", escHole),
	"WithByNamed":               namedStep("WITH", "WITH"),
	"WithDistinct":              clauseStep("WITH", "WITH DISTINCT", "e", hole),
	"WithDistinctByString":      clauseStep("WITH", "WITH DISTINCT", "s", escHole),
	"WithDistinctByNamed":       namedStep("WITH", "WITH DISTINCT"),
	"Delete":                    clauseStep("DELETE", "DELETE", "e", hole),
	"DeleteByString":            clauseStep("DELETE", "DELETE", "s", escHole),
	"DeleteByNamed":             namedStep("DELETE", "DELETE"),
	"DetachDelete":              clauseStep("DELETE", "DETACH DELETE", "e", hole),
	"DetachDeleteByString":      clauseStep("DELETE", "DETACH DELETE", "s", escHole),
	"DetachDeleteByNamed":       namedStep("DELETE", "DETACH DELETE"),
	"Remove":                    clauseStep("REMOVE", "REMOVE", "prop", hole),
	"RemoveByNode":              labelStep("REMOVE"),
	"SetByNode":                 labelStep("SET"),
	"Set": func(id string) []alt {
		set := func(items ...string) func(m *model) {
			return func(m *model) {
				if m.pending == "ON CREATE" || m.pending == "ON MATCH" {
					m.last().tail += " " + m.pending + " SET " + strings.Join(items, ", ")
					m.pending = ""
					return
				}
				m.add(&clause{kind: "SET", head: "SET", items: items})
			}
		}
		a, b, c, d := id+"a", id+"b", id+"c", id+"d"
		return []alt{
			{args: fmt.Sprintf("e(%q), e(%q)", a, b), ops: []string{a, b}, canon: true, do: set(hole(a) + " = " + hole(b))},
			{args: fmt.Sprintf("e(%q), e(%q), e(%q), e(%q)", a, b, c, d), ops: []string{a, b, c, d}, do: set(hole(a)+" = "+hole(b), hole(c)+" = "+hole(d))},
			{args: fmt.Sprintf("OperationSet(e(%q), e(%q)), e(%q), e(%q)", a, b, c, d), ops: []string{a, b, c, d}, do: set(hole(a)+" = "+hole(b), hole(c)+" = "+hole(d))},
			{args: fmt.Sprintf("e(%q), e(%q), OperationSet(e(%q), e(%q))", a, b, c, d), ops: []string{a, b, c, d}, do: set(hole(a)+" = "+hole(b), hole(c)+" = "+hole(d))},
			{args: fmt.Sprintf("OperationSet(e(%q), e(%q))", a, b), ops: []string{a, b}, do: set(hole(a) + " = " + hole(b))},
			{args: fmt.Sprintf("e(%q)", a), ops: []string{a}, do: func(m *model) { m.bad = "odd operand list" }},
			{args: fmt.Sprintf("OperationSet(e(%q), e(%q)), e(%q)", a, b, c), ops: []string{a, b, c}, do: func(m *model) { m.bad = "odd operand list" }},
			{args: fmt.Sprintf("e(%q), e(%q), e(%q)", a, b, c), ops: []string{a, b, c}, do: func(m *model) { m.bad = "odd operand list" }},
		}
	},
	"SetWithNamed": func(id string) []alt {
		return one(fmt.Sprintf("node(%q), e(%q)", id+"n", id+"e"), []string{id + "n", id + "e"}, false, func(m *model) {
			it := escHole(id+"n.name") + " = " + hole(id+"e")
			if m.pending == "ON CREATE" || m.pending == "ON MATCH" {
				m.last().tail += " " + m.pending + " SET " + it
				m.pending = ""
				return
			}
			m.add(&clause{kind: "SET", head: "SET", items: []string{it}})
		})
	},
	"OnCreate": mergeAction("ON CREATE"), "OnMatch": mergeAction("ON MATCH"),
	"Unwind": func(id string) []alt {
		return one(fmt.Sprintf("e(%q)", id), []string{id}, true, func(m *model) { m.unwind(hole(id)) })
	},
	"Unwinds": func(id string) []alt {
		return lists(id, "e", hole, func(items []string, m *model) { m.unwind("[" + strings.Join(items, ", ") + "]") })
	},
	"UnwindByString": func(id string) []alt {
		return one(fmt.Sprintf("s(%q)", id), nil, false, func(m *model) { m.unwind(escHole(id)) })
	},
	"As": func(id string) []alt {
		return one(fmt.Sprintf("s(%q)", id), nil, true, func(m *model) { m.last().tail = " AS " + escHole(id); m.pending = "" })
	},
	"Call": func(id string) []alt {
		return []alt{
			{args: fmt.Sprintf("Match(p(%q)).Returning(e(%q)).Build()", id+"p", id+"e"), ops: []string{id + "p", id + "e"}, canon: true, do: func(m *model) {
				m.add(&clause{kind: "SUBQUERY", head: "CALL", items: []string{"MATCH " + hole(id+"p") + " RETURN " + hole(id+"e")}})
			}},
			{args: fmt.Sprintf("Create(p(%q)).Build()", id+"p"), ops: []string{id + "p"}, do: func(m *model) { m.bad = "a subquery must return" }},
		}
	},
	"Call1": func(id string) []alt {
		return []alt{
			{args: `"ns", "proc"`, canon: true, do: func(m *model) { m.add(&clause{kind: "CALL", head: "CALL ns.proc"}); m.pending = "call" }},
			{args: `"proc"`, do: func(m *model) { m.add(&clause{kind: "CALL", head: "CALL proc"}); m.pending = "call" }},
		}
	},
	"WithArgs": func(id string) []alt {
		return lists(id, "e", hole, func(items []string, m *model) {
			m.last().args = append(append([]string(nil), m.last().args...), items...)
		})
	},
	"YieldString":   yieldStep("s", func(n string) string { return escHole(n) }),
	"YieldSymbolic": yieldStep("sym", hole),
	"Yield":         yieldStep("ali", func(n string) string { return hole(n+".expr") + " AS " + escHole(n+".alias") }),
	"Where":         condStep("WHERE", false),
	"WherePattern":  condStep("WHERE", true),
	"WhereConditionContainer": func(id string) []alt {
		return one(fmt.Sprintf("cond(%q)", id), []string{id}, false, func(m *model) { m.cond("WHERE", hole(id)) })
	},
	"And": func(id string) []alt { return nil }, // by parameter type, see stepsOf
	"Or":  condStep("OR", false), "AndPattern": condStep("AND", true), "OrPattern": condStep("OR", true),
	"OrderBySortItem": func(id string) []alt {
		a, b, c := id+"a", id+"b", id+"c"
		ord := func(its ...string) func(m *model) {
			return func(m *model) { m.last().order = append(append([]string(nil), m.last().order...), its...) }
		}
		return []alt{
			{args: fmt.Sprintf("Sort(e(%q)).Ascending(), Sort(e(%q)).Descending()", a, b), ops: []string{a, b}, canon: true, do: ord(hole(a)+" ASC", hole(b)+" DESC")},
			{args: fmt.Sprintf("Sort(e(%q))", a), ops: []string{a}, do: ord(hole(a))},
			{args: fmt.Sprintf("sort(%q), e(%q).Descending(), sort(%q)", a, b, c), ops: []string{a, b, c}, do: ord(hole(a), hole(b)+" DESC", hole(c))},
		}
	},
	"OrderByExpression": orderStep, "OrderBy": orderStep, "And1": orderStep,
	"Ascending":  dirStep(" ASC"),
	"Descending": dirStep(" DESC"),
	"Skip": func(id string) []alt {
		return []alt{{args: fmt.Sprintf("i(%q)", id), do: func(m *model) { m.last().skip = "⟨num " + id + "⟩" }}, {args: "3", canon: true, do: func(m *model) { m.last().skip = "3" }}}
	},
	"Limit": func(id string) []alt {
		return []alt{{args: "7", canon: true, do: func(m *model) { m.last().limit = "7" }},
			{args: "1", do: func(m *model) { m.last().limit = "1" }}, {args: "-7", do: func(m *model) { m.last().limit = "-7" }}}
	},
}

func orderStep(id string) []alt {
	return one(fmt.Sprintf("e(%q)", id), []string{id}, true, func(m *model) {
		c := m.last()
		if c.open != "" {
			c.order = append(append([]string(nil), c.order...), c.open)
		}
		c.open = hole(id)
	})
}

func dirStep(d string) step {
	return func(id string) []alt {
		return one("", nil, true, func(m *model) {
			c := m.last()
			c.order = append(append([]string(nil), c.order...), c.open+d)
			c.open = ""
		})
	}
}

func (m *model) unwind(it string) {
	m.add(&clause{kind: "UNWIND", head: "UNWIND", items: []string{it}})
	m.pending = "unwind"
}

func labelStep(kw string) step {
	return func(id string) []alt {
		return []alt{
			{args: fmt.Sprintf("node(%q), s(%q), s(%q)", id, id+"x", id+"y"), ops: []string{id}, do: func(m *model) {
				m.add(&clause{kind: kw, head: kw, items: []string{escHole(id+".name") + ":⟨bt " + id + "x⟩:⟨bt " + id + "y⟩"}})
			}},
			{args: fmt.Sprintf("node(%q), s(%q)", id, id+"x"), ops: []string{id}, do: func(m *model) {
				m.add(&clause{kind: kw, head: kw, items: []string{escHole(id+".name") + ":⟨bt " + id + "x⟩"}})
			}},
		}
	}
}

func mergeAction(a string) step {
	return func(id string) []alt {
		return one("", nil, true, func(m *model) {
			if m.last().kind != "MERGE" {
				m.bad = "merge action without MERGE"
				return
			}
			m.pending = a
		})
	}
}

func yieldStep(mk string, text func(string) string) step {
	return func(id string) []alt {
		as := lists(id, mk, text, func(items []string, m *model) { m.last().yield = items; m.pending = "" })
		for i := range as {
			as[i].canon = as[i].canon && mk == "s"
		}
		return as
	}
}

// starts of a chain
type start struct {
	fn    string
	step  step
	canon bool
}

var chainStarts = []start{
	{"Match", matchStep(false), true},
	{"AnOptionalMatch", matchStep(true), true},
	{"MatchWithOption", chainSteps["MatchDefault"], false},
	{"Create", chainSteps["Create"], true},
	{"Merge", chainSteps["Merge"], true},
	{"With", chainSteps["With"], true},
	{"WithByString", chainSteps["WithByString"], false},
	{"WithByNamed", chainSteps["WithByNamed"], false},
	{"Unwind", chainSteps["Unwind"], true},
	{"UnwindMulti", chainSteps["Unwinds"], false},
	{"CypherReturning", chainSteps["Returning"], true},
	{"ACallByStatement", chainSteps["Call"], true},
	{"ACall", func(id string) []alt {
		return []alt{{args: `"ns", "proc"`, canon: true, do: func(m *model) { m.add(&clause{kind: "CALL", head: "CALL ns.proc"}) }}}
	}, true},
	{"ACallSimple", func(id string) []alt {
		return []alt{{args: `"ns.proc"`, do: func(m *model) { m.add(&clause{kind: "CALL", head: "CALL ns.proc"}) }}}
	}, false},
	{"StatementCall", func(id string) []alt {
		return []alt{{args: `"ns", "proc"`, do: func(m *model) { m.add(&clause{kind: "CALL", head: "CALL ns.proc"}) }}}
	}, false},
}

// chain is a prefix: its client expression, static type, and model.
type chain struct {
	expr string
	t    types.Type
	m    *model
	ops  []string
	n    int
	last string // last step, with its variant
}

// methods of a static builder type, by name.
func (e *Eng) methodsOf(t types.Type) []*types.Func {
	var fs []*types.Func
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		if f.Exported() {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	return fs
}

func (e *Eng) stepsOf(f *types.Func, id string) []alt {
	n := f.Name()
	if n == "And" {
		sig := f.Type().(*types.Signature)
		if sig.Params().Len() == 1 && shortType(sig.Params().At(0).Type()) == "Expression" {
			return orderStep(id)
		}
		return condStep("AND", false)(id)
	}
	if s := chainSteps[n]; s != nil {
		return s(id)
	}
	return nil
}

// nonSteps: methods of builder types that end or inspect a chain.
var nonSteps = map[string]bool{"Build": true, "AsCondition": true, "AsFunction": true, "GetError": true, "GetErr": true, "BuildImpl": true}

func (e *Eng) startChains(canonOnly bool) []chain {
	var cs []chain
	for _, s := range chainStarts {
		fo, ok := e.l.pkg.Scope().Lookup(s.fn).(*types.Func)
		if !ok {
			continue
		}
		for _, a := range s.step("0") {
			if canonOnly && !(a.canon && s.canon) {
				continue
			}
			m := &model{}
			a.do(m)
			cs = append(cs, chain{expr: s.fn + "(" + a.args + ")", t: fo.Type().(*types.Signature).Results().At(0).Type(), m: m, ops: a.ops, n: 1, last: s.fn})
		}
	}
	return cs
}

// next extends a chain by one step.
func (e *Eng) next(c chain, canonOnly bool) (out []chain, unknown []string) {
	id := fmt.Sprint(c.n)
	for _, f := range e.methodsOf(c.t) {
		if nonSteps[f.Name()] {
			continue
		}
		as := e.stepsOf(f, id)
		if as == nil {
			unknown = append(unknown, f.Name())
			continue
		}
		sig := f.Type().(*types.Signature)
		for _, a := range as {
			if canonOnly && !a.canon {
				continue
			}
			m := c.m.copy()
			if m.bad == "" {
				a.do(m)
			}
			out = append(out, chain{expr: c.expr + "." + f.Name() + "(" + a.args + ")", t: sig.Results().At(0).Type(), m: m, ops: append(append([]string(nil), c.ops...), a.ops...), n: c.n + 1, last: f.Name() + "/" + a.tag})
		}
	}
	return out, unknown
}

// finishes: shortest continuations that end in a built statement.
func (e *Eng) finishes(c chain, all bool) (out []chain) {
	ms := map[string]*types.Func{}
	for _, f := range e.methodsOf(c.t) {
		ms[f.Name()] = f
	}
	if ms["Build"] != nil {
		out = append(out, c)
		if !all {
			return out
		}
	}
	if ms["AsCondition"] != nil && all {
		m := c.m.copy()
		m.exists = true
		if m.bad == "" && (len(m.cl) != 1 || m.cl[0].kind != "MATCH") {
			m.bad = "more than a MATCH"
		}
		d := c
		d.expr, d.m = c.expr+".AsCondition()", m
		// not as the only way: a chain that can end here can also go on
		defer func() { out = append(out, d) }()
	}
	for _, n := range []string{"Returning", "YieldString", "As", "Set", "Ascending"} {
		f := ms[n]
		if f == nil || len(out) > 0 && n != "Returning" {
			continue
		}
		a := chainSteps[n](fmt.Sprint(c.n) + "z")[0]
		m := c.m.copy()
		if m.bad == "" {
			a.do(m)
		}
		d := chain{expr: c.expr + "." + n + "(" + a.args + ")", t: f.Type().(*types.Signature).Results().At(0).Type(), m: m, ops: append(append([]string(nil), c.ops...), a.ops...), n: c.n + 1, last: c.last}
		if n == "Returning" {
			out = append(out, d)
		} else if !types.Identical(d.t, c.t) {
			out = append(out, e.finishes(d, all)...)
		}
		if !all {
			break
		}
	}
	return out
}

// chainSet: all chains up to the given number of steps. Prefixes are extended
// by one canonical way per step and cut where type and model shape repeat;
// the last step is taken in every way.
func (e *Eng) chainSet(depth int, cut bool) (prefixes, full []chain, unknown map[string]bool) {
	unknown = map[string]bool{}
	seen := map[string]bool{}
	fresh := func(c chain) bool {
		k := shortType(c.t) + "|" + c.m.shape()
		if cut && seen[k] {
			return false
		}
		seen[k] = true
		return true
	}
	full = append(full, e.startChains(false)...)
	var cur []chain
	for _, c := range e.startChains(true) {
		if fresh(c) {
			cur = append(cur, c)
		}
	}
	prefixes = append(prefixes, cur...)
	for d := 1; d < depth; d++ {
		var nx []chain
		for _, c := range cur {
			all, unk := e.next(c, false)
			for _, u := range unk {
				unknown[shortType(c.t)+"."+u] = true
			}
			full = append(full, all...)
			canon, _ := e.next(c, true)
			for _, x := range canon {
				if x.m.bad != "" {
					continue
				}
				if fresh(x) {
					nx = append(nx, x)
				}
			}
		}
		prefixes = append(prefixes, nx...)
		cur = nx
	}
	full = append(full, e.longChains(prefixes)...)
	return
}

// longChains: from every short prefix one step taken again and again, and two
// steps taken in turn, as long as the static types allow, up to longSteps.
func (e *Eng) longChains(prefixes []chain) []chain {
	const longSteps = 6
	var out []chain
	by := func(c chain, name string) (chain, bool) {
		canon, _ := e.next(c, true)
		for _, x := range canon {
			if x.last[:strings.Index(x.last+"/", "/")] == name && x.m.bad == "" {
				return x, true
			}
		}
		return c, false
	}
	pairs := map[string]bool{}
	for _, c := range prefixes {
		if c.n > 2 {
			continue
		}
		canon, _ := e.next(c, true)
		var names []string
		for _, x := range canon {
			names = append(names, x.last[:strings.Index(x.last+"/", "/")])
		}
		names = uniq(names)
		for _, a := range names {
			x, k, ok := c, 0, true
			for ; ok && k < longSteps; k++ {
				x, ok = by(x, a)
			}
			if key := shortType(c.t) + "." + a; x.n > c.n+2 && !pairs[key] {
				pairs[key] = true
				out = append(out, x)
			}
			if plainVariant(a) || c.n > 1 {
				continue
			}
			y, _ := by(c, a)
			canon2, _ := e.next(y, true)
			seen := map[string]bool{a: true}
			for _, z := range canon2 {
				b := z.last[:strings.Index(z.last+"/", "/")]
				if key := shortType(c.t) + "." + a + "." + b; seen[b] || pairs[key] || plainVariant(b) || z.m.bad != "" {
					continue
				} else {
					pairs[key] = true
				}
				seen[b] = true
				x, ok := z, true
				for k := 2; ok && k < longSteps; k++ {
					if k%2 == 0 {
						x, ok = by(x, a)
					} else {
						x, ok = by(x, b)
					}
				}
				if x.n > c.n+2 {
					out = append(out, x)
				}
			}
		}
	}
	return append(out, e.alternations(prefixes, by)...)
}

// alternations: two steps that each need another to complete them, in turn:
// OnMatch().Set(..).OnCreate().Set(..).OnMatch()...
func (e *Eng) alternations(prefixes []chain, by func(chain, string) (chain, bool)) []chain {
	const rounds = 2
	var out []chain
	name := func(c chain) string { return c.last[:strings.Index(c.last+"/", "/")] }
	steps := func(c chain) map[string]chain {
		r := map[string]chain{}
		cs, _ := e.next(c, true)
		for _, x := range cs {
			if n := name(x); x.m.bad == "" && !plainVariant(n) && r[n].t == nil {
				r[n] = x
			}
		}
		return r
	}
	// the shortest way of completing a step
	complete := func(c chain) (chain, bool) {
		for _, n := range []string{"Set", "As", "YieldString", "Ascending"} {
			if x, ok := by(c, n); ok && x.m.pending == "" {
				return x, true
			}
		}
		return c, false
	}
	seen := map[string]bool{}
	for _, c := range prefixes {
		if c.n > 2 || c.m.pending != "" {
			continue
		}
		opening := func(c chain, n string) (chain, bool) {
			x, ok := steps(c)[n]
			if !ok || x.m.pending == "" && x.m.last().open == "" {
				return c, false
			}
			return complete(x)
		}
		for _, a := range sortedKeys(steps(c)) {
			y, ok := opening(c, a)
			if !ok {
				continue
			}
			for _, b := range sortedKeys(steps(y)) {
				key := shortType(c.t) + "." + a + "." + b
				if seen[key] || b == a {
					continue
				}
				z, ok := opening(y, b)
				if !ok {
					continue
				}
				seen[key] = true
				for k := 0; ok && k < rounds; k++ {
					n := a
					if k%2 == 1 {
						n = b
					}
					var w chain
					if w, ok = opening(z, n); ok {
						z = w
					}
				}
				out = append(out, z)
			}
		}
	}
	return out
}

// plainVariant: a step that differs from another in how its operands are spelled.
func plainVariant(n string) bool {
	return strings.HasSuffix(n, "ByString") || strings.HasSuffix(n, "ByNamed") || strings.HasPrefix(n, "DetachDelete") || strings.HasPrefix(n, "WithDistinct") || n == "OptionalMatch"
}
