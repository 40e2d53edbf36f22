package main

import (
	"fmt"
	"sort"
	"strings"
)

// markPre makes every object of the state older than the step to come.
func markPre(st *State) *State {
	n := st.clone()
	n.each(func(id int, o Obj) {
		if !o.pre {
			o.pre = true
			if o.name == "" || o.name == "append" || o.name == "addr" {
				o.name = "data of an earlier step"
			}
			n.put(id, o)
		}
	})
	n.events = nil
	return n
}

func depthFor() (int, bool) {
	if thorough {
		return 6, true
	}
	return 4, true
}

// outcomes of a finished chain, normalised.
func (e *Eng) chainResult(src string, o *Opts) ([]string, string, error) {
	got, evs, err := e.results(src, o)
	if err != nil {
		return nil, "", err
	}
	pos := ""
	seen := map[string]bool{}
	var out []string
	for _, g := range got {
		g = normText(g)
		if !seen[g] {
			seen[g] = true
			out = append(out, g)
		}
	}
	for _, v := range evs {
		if v.pos != "" {
			pos = v.pos
		}
	}
	return out, pos, nil
}

type chainRes struct {
	c    chain
	fin  chain
	got  []string
	want string
	pos  string
	err  error
}

// allChains evaluates every chain of the set with every way to finish it.
func (e *Eng) allChains(r *Report) []chainRes {
	d, cut := depthFor()
	_, full, unk := e.chainSet(d, cut)
	for u := range unk {
		r.notes = append(r.notes, "step without a model: "+u)
	}
	sort.Strings(r.notes)
	var items []chainRes
	seen := map[string]bool{}
	for _, c := range full {
		for _, f := range e.finishes(c, true) {
			if seen[f.expr] {
				continue
			}
			seen[f.expr] = true
			items = append(items, chainRes{c: c, fin: f, want: normText(f.m.text())})
		}
	}
	e.parallel(len(items), func(we *Eng, i int) {
		it := &items[i]
		it.got, it.pos, it.err = we.chainResult(it.fin.expr, nil)
	})
	return items
}

func holeSeq(t string) []string {
	hs, _ := holesOf(t)
	var s []string
	for _, h := range hs {
		s = append(s, h.name)
	}
	return s
}

// clauses and operands that the specification has and the text has not
func missing(got, want string) []string {
	cnt := map[string]int{}
	for _, h := range holeSeq(got) {
		cnt[h]++
	}
	var out []string
	for _, h := range holeSeq(want) {
		if cnt[h]--; cnt[h] < 0 {
			out = append(out, h)
		}
	}
	for _, k := range []string{"OPTIONAL MATCH", "MATCH", "CREATE", "MERGE", "DETACH DELETE", "DELETE", "SET", "REMOVE", "WITH DISTINCT", "WITH", "RETURN DISTINCT", "RETURN", "UNWIND", "CALL", "WHERE", "ORDER BY", "SKIP", "LIMIT", "YIELD", "UNION ALL", "UNION", "ON CREATE", "ON MATCH", "ASC", "DESC", " AS "} {
		if strings.Count(want, k) > strings.Count(got, k) {
			out = append(out, k)
		}
	}
	return out
}

func chainMsg(it chainRes) string {
	return fmt.Sprintf("%s builds %q, the steps describe %q", it.fin.expr, strings.Join(it.got, " or "), it.want)
}

func (e *Eng) chainRule(r *Report, rule string, broken func(got, want string) bool) {
	for _, it := range e.allChains(r) {
		r.ob(rule, it.fin.expr)
		r.units[it.c.last] = true
		if it.err != nil {
			r.bad(rule, it.fin.expr, "", "not analysable: "+it.err.Error())
			continue
		}
		for _, g := range it.got {
			if strings.HasPrefix(g, "UNDECIDED") {
				r.bad("undecided", it.fin.expr, it.pos, g)
			} else if broken(g, it.want) {
				r.bad(rule, it.fin.expr, it.pos, chainMsg(it))
			}
		}
	}
}

func init() {
	mk := func(p, rule, what string, min int, broken func(got, want string) bool) {
		register(p, &ruleDef{min: map[string]int{rule: min, "statement-text": 20}, what: what, run: func(e *Eng, l *Loaded) *Report {
			r := newReport(p)
			e.chainRule(r, rule, broken)
			for _, t := range e.evalTable(func(t tableLine) bool { return t.tags["C04"] || t.tags["C22"] }) {
				r.ob("statement-text", t.expr)
				if t.err != nil {
					r.bad("statement-text", t.expr, "", "not analysable: "+t.err.Error())
					continue
				}
				for _, g := range t.got {
					fits := false
					for _, w := range t.want {
						fits = fits || !broken(g, w)
					}
					if !fits {
						r.bad("statement-text", t.expr, t.pos, fmt.Sprintf("%s gives %s, the specification (%s:%d) allows %s", t.expr, strings.Join(t.got, " or "), t.file, t.n, strings.Join(t.want, " or ")))
						break
					}
				}
			}
			return r
		}})
	}
	mk("C04", "chain-complete", "", 5000, func(got, want string) bool {
		if want == "ERROR" {
			return false
		}
		return got == "ERROR" || got == "NIL" || len(missing(got, want)) > 0
	})
	mk("C05", "chain-order", "", 5000, func(got, want string) bool {
		if want == "ERROR" || got == "ERROR" {
			return false
		}
		if strings.Join(holeSeq(got), " ") != strings.Join(holeSeq(want), " ") {
			return true
		}
		return strings.Join(keywords(got), " ") != strings.Join(keywords(want), " ")
	})
	register("C02", &ruleDef{min: map[string]int{"failure-kept": 8000}, run: ruleC02})
	register("C12", &ruleDef{min: map[string]int{"step-writes-nothing": 3000, "fork": 3000}, run: ruleC12})
}

var clauseWords = map[string]bool{"MATCH": true, "OPTIONAL": true, "CREATE": true, "MERGE": true, "DELETE": true, "DETACH": true, "SET": true, "REMOVE": true, "WITH": true, "RETURN": true, "UNWIND": true, "CALL": true, "WHERE": true, "ORDER": true, "SKIP": true, "LIMIT": true, "YIELD": true, "ON": true, "ASC": true, "UNION": true, "ALL": true, "DESC": true, "AS": true, "DISTINCT": true}

func keywords(t string) []string {
	var out []string
	for _, w := range strings.FieldsFunc(t, func(r rune) bool { return !(r >= 'A' && r <= 'Z') }) {
		if clauseWords[w] {
			out = append(out, w)
		}
	}
	return out
}

// C02: whatever operand of whatever step carries an error, the finished chain
// reports it.
func ruleC02(e *Eng, l *Loaded) *Report {
	r := newReport("C02")
	d, cut := depthFor()
	_, full, _ := e.chainSet(d, cut)
	type item struct {
		expr, op string
		got      []string
		pos      string
		err      error
	}
	var items []item
	seen := map[string]bool{}
	for _, c := range full {
		for _, f := range e.finishes(c, true) {
			for _, op := range f.ops {
				k := f.expr + "|" + op
				if !seen[k] {
					seen[k] = true
					items = append(items, item{expr: f.expr, op: op})
				}
			}
		}
	}
	e.parallel(len(items), func(we *Eng, i int) {
		it := &items[i]
		it.got, it.pos, it.err = we.chainResult(it.expr, &Opts{errored: map[string]bool{it.op: true}})
	})
	for _, it := range items {
		key := it.expr + "|" + it.op
		r.ob("failure-kept", key)
		if it.err != nil {
			r.bad("failure-kept", key, "", "not analysable: "+it.err.Error())
			continue
		}
		for _, g := range it.got {
			if strings.HasPrefix(g, "UNDECIDED") {
				r.bad("undecided", key, it.pos, g)
			} else if g != "ERROR" && !strings.HasPrefix(g, "PANIC") {
				r.bad("failure-kept", key, it.pos, fmt.Sprintf("with operand %s carrying an error, %s builds %q instead of reporting the error", it.op, it.expr, g))
			}
		}
	}
	return r
}

// C12: a step writes to nothing that existed before it, and two continuations
// of one step do not see each other.
func ruleC12(e *Eng, l *Loaded) *Report {
	r := newReport("C12")
	d := 3
	if thorough {
		d = 4
	}
	prefixes, _, _ := e.chainSet(d, true)
	// further steps into the same clauses: what is added a second and third time
	deeper, _, _ := e.chainSet(d+2, true)
	known := map[string]bool{}
	for _, p := range prefixes {
		known[p.expr] = true
	}
	for _, p := range deeper {
		if !known[p.expr] && len(p.m.cl) <= 2 && (p.n <= d || len(p.m.cl) <= 1 || p.m.pending != "") {
			prefixes = append(prefixes, p)
		}
	}
	type res struct{ rule, key, pos, msg string }
	outs := make([][]res, len(prefixes))
	obs := make([][2]int, len(prefixes))
	e.parallel(len(prefixes), func(we *Eng, i int) {
		p := prefixes[i]
		add := func(rule, key, pos, msg string) { outs[i] = append(outs[i], res{rule, key, pos, msg}) }
		st := we.begin(nil)
		we.inputs = map[string]string{}
		evs, err := we.eval(st, p.expr)
		if err != nil || len(evs) != 1 || evs[0].panic != "" {
			add("fork", p.expr, "", "prefix not analysable")
			return
		}
		base := evs[0]
		base.st = markPre(base.st)
		nexts, _ := we.next(chain{expr: "P", t: p.t, m: p.m, n: p.n}, false)
		steps := []chain{}
		for _, c := range nexts {
			steps = append(steps, c)
		}
		fins := we.finishes(chain{expr: "P", t: p.t, m: p.m, n: 90}, true)
		// each step and each way to finish, then the same prefix again
		run := func(st *State, src string) (EV, bool) {
			we.budget = defaultBudget
			we.bind = map[string]EV{"P": {v: base.v, t: base.t}}
			vs, err := we.eval(st, src)
			we.bind = nil
			if err != nil || len(vs) == 0 || vs[0].panic != "" {
				return EV{}, false
			}
			if len(vs) > 1 {
				return EV{}, false
			}
			return vs[0], true
		}
		text := func(v EV, st *State) string {
			v.st = st
			rs := we.resultOfEV(v)
			for i := range rs {
				rs[i] = normText(rs[i])
			}
			return strings.Join(uniq(rs), " or ")
		}
		check := func(rule, key string, evs []Event) {
			for _, ev := range evs {
				if ev.kind == "write" || ev.kind == "append-shared" {
					how := "writes to " + ev.msg
					if ev.kind == "append-shared" {
						how = "appends in place to " + ev.msg + ", whose spare room another continuation also fills"
					}
					add(rule, key+"|"+ev.fn, ev.pos, fmt.Sprintf("%s: %s %s", key, ev.fn, how))
				}
			}
		}
		for _, c := range append(append([]chain(nil), fins...), steps...) {
			key := strings.Replace(c.expr, "P.", p.expr+".", 1)
			obs[i][0]++
			a, ok := run(base.st, c.expr)
			if !ok {
				if len(we.takeUndec()) > 0 || c.expr != "P" {
					add("fork", key, "", "step not analysable")
				}
				continue
			}
			built := a.st
			if c.expr == "P" { // building
				outs, err := we.callMethod(base.st.clone(), base.v, "Build")
				if err == nil && len(outs) == 1 {
					built = outs[0].st
				}
			}
			check("step-writes-nothing", key, built.events)
			// afterwards the prefix still denotes what it denoted
			for _, f := range fins {
				obs[i][1]++
				b, ok := run(built, f.expr)
				if !ok {
					continue
				}
				if got, want := text(b, b.st), normText(f.m.text()); got != want {
					add("fork", key, "", fmt.Sprintf("after %s, %s builds %q instead of %q", key, strings.Replace(f.expr, "P", p.expr, 1), got, want))
				}
				// and the first continuation still denotes what it denoted
				fc := we.finishes(c, false)
				if len(fc) > 0 && fc[0].expr == c.expr {
					if got, want := text(a, b.st), normText(fc[0].m.text()); got != want {
						add("fork", key, "", fmt.Sprintf("%s builds %q instead of %q once %s was continued separately", key, got, want, p.expr))
					}
				}
				we.takeUndec()
			}
		}
	})
	for i, p := range prefixes {
		for k := 0; k < obs[i][0]; k++ {
			r.ob("step-writes-nothing", p.expr)
		}
		for k := 0; k < obs[i][1]; k++ {
			r.ob("fork", p.expr)
		}
		r.units[p.expr] = true
		for _, x := range outs[i] {
			r.bad(x.rule, x.key, x.pos, x.msg)
		}
	}
	sd := 3
	if thorough {
		sd = 5
	}
	e.forkSubs(r, l, sd)
	return r
}

func uniq(s []string) []string {
	sort.Strings(s)
	var out []string
	for _, x := range s {
		if len(out) == 0 || out[len(out)-1] != x {
			out = append(out, x)
		}
	}
	return out
}
