package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// C17: operations that offer several spellings of their operands, or a flag,
// say the same for equivalent operands. spec/same.txt pairs the spellings; a
// pair of methods is tried on every builder and element that has both.

//go:embed spec/same.txt
var sameTable string

type samePair struct {
	left, right string
	from, to    string
}

func samePairs() []samePair {
	var out []samePair
	for _, x := range strings.Split(sameTable, "\n") {
		if x = strings.TrimSpace(x); x == "" || x[0] == '#' {
			continue
		}
		var p samePair
		if i := strings.Index(x, " ## "); i >= 0 {
			ft := strings.SplitN(x[i+4:], " => ", 2)
			p.from, p.to = strings.TrimSpace(ft[0]), strings.TrimSpace(ft[1])
			if strings.HasSuffix(p.from, "(") && !strings.HasSuffix(p.to, "(") {
				p.to += " "
			}
			x = x[:i]
		}
		lr := strings.SplitN(x, " === ", 2)
		p.left, p.right = strings.TrimSpace(lr[0]), strings.TrimSpace(lr[1])
		out = append(out, p)
	}
	return out
}

// flagged: the outcomes with the flag's text put in at its last place.
func (p samePair) flagged(ts []string) []string {
	if p.from == "" {
		return ts
	}
	var out []string
	for _, t := range ts {
		if i := strings.LastIndex(t, p.from); i >= 0 && !strings.HasPrefix(t, "ERROR") {
			t = t[:i] + p.to + t[i+len(p.from):]
		}
		out = append(out, t)
	}
	return out
}

// squeeze drops the white space after an opening bracket.
func squeeze(ts []string) []string {
	var out []string
	for _, t := range ts {
		out = append(out, strings.ReplaceAll(strings.Join(strings.Fields(t), " "), "( ", "("))
	}
	sort.Strings(out)
	return out
}

func (p samePair) agree(a, b []string) bool {
	want := strings.Join(squeeze(b), "\x00")
	if p.from == "" {
		return strings.Join(squeeze(a), "\x00") == want
	}
	return strings.Join(squeeze(p.flagged(a)), "\x00") == want
}

func firstMethod(call string) string {
	call = strings.TrimPrefix(call, ".")
	return call[:strings.Index(call, "(")]
}

// oneStep: the text is a single call.
func oneStep(call string) bool {
	d := 0
	for i, c := range call {
		switch c {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return i == len(call)-1
			}
		}
	}
	return true
}

func (e *Eng) sameOutcomes(src string) ([]string, string, error) {
	got, evs, err := e.results(src, nil)
	return got, posOf(evs), err
}

func (e *Eng) staticType(src string) types.Type {
	st := e.begin(nil)
	e.inputs = map[string]string{}
	evs, err := e.eval(st, src)
	e.takeUndec()
	if err != nil {
		return nil
	}
	for _, v := range evs {
		if v.panic == "" && v.t != nil {
			return v.t
		}
	}
	return nil
}

func ruleC17(e *Eng, l *Loaded) *Report {
	r := newReport("C17")
	pairs := samePairs()

	// receivers: one of every kind of builder, in every shape of clause before it,
	// and one of every kind of element
	type recv struct {
		expr string
		t    types.Type
	}
	var recvs []recv
	d := 3
	if thorough {
		d = 5
	}
	prefixes, _, _ := e.chainSet(d, true)
	for _, p := range prefixes {
		recvs = append(recvs, recv{p.expr, p.t})
	}
	subs, _ := e.subChains(l, d)
	for _, s := range subs {
		recvs = append(recvs, recv{s.expr, s.t})
	}
	seen := map[string]bool{}
	for _, src := range tableExprs(nil) {
		t := e.staticType(src)
		if t == nil {
			continue
		}
		if k := t.String(); !seen[k] {
			seen[k] = true
			recvs = append(recvs, recv{src, t})
		}
	}
	cond := l.pkg.Scope().Lookup("Condition").Type().Underlying().(*types.Interface)

	type job struct {
		p    samePair
		recv string
		t    types.Type
	}
	jobs := map[string]job{}
	used := map[int]bool{}
	for i, p := range pairs {
		if p.left[0] != '.' {
			jobs[fmt.Sprintf("%03d %s === %s", i, p.left, p.right)] = job{p: p}
			used[i] = true
			continue
		}
		for _, rc := range recvs {
			ms := map[string]*types.Func{}
			for _, m := range e.clientMethods(rc.t) {
				ms[m.Name()] = m
			}
			a, b := ms[firstMethod(p.left)], ms[firstMethod(p.right)]
			if a == nil || b == nil || a.Type().(*types.Signature).Results().Len() == 0 || b.Type().(*types.Signature).Results().Len() == 0 {
				continue
			}
			if !oneStep(p.left) && types.Implements(a.Type().(*types.Signature).Results().At(0).Type(), cond) {
				continue
			}
			used[i] = true
			jobs[fmt.Sprintf("%03d %s%s === %s", i, rc.expr, p.left, p.right)] = job{p, rc.expr, rc.t}
		}
	}
	for i, p := range pairs {
		if !used[i] {
			r.bad("undecided", p.left, "", "no builder or element offers both "+p.left+" and "+p.right)
		}
	}
	e.sweep(r, sortedKeys(jobs), func(we *Eng, c *collected, k string) {
		j := jobs[k]
		key := k[4:]
		a, b := j.recv+j.p.left, j.recv+j.p.right
		ends := []string{""}
		if j.recv != "" {
			ends = nil
			eb := we.endings(b)
			for _, x := range we.endings(a) {
				if contains(eb, x) {
					ends = append(ends, x)
				}
			}
			if len(ends) == 0 {
				ends = []string{""}
			}
		}
		for _, end := range ends {
			ga, pos, err := we.sameOutcomes(a + end)
			if err != nil && strings.Contains(err.Error(), "anchor method ") && !(oneStep(j.p.left) && oneStep(j.p.right)) {
				continue // this builder does not offer the second step
			}
			if err != nil {
				c.bad("undecided", key+end, "", "not analysable: "+a+end+": "+err.Error())
				continue
			}
			gb, posb, err := we.sameOutcomes(b + end)
			if err != nil {
				c.bad("undecided", key+end, "", "not analysable: "+b+end+": "+err.Error())
				continue
			}
			c.ob("variants-agree")
			if pos == "" {
				pos = posb
			}
			for _, t := range append(append([]string(nil), ga...), gb...) {
				if strings.HasPrefix(t, "UNDECIDED") {
					c.bad("undecided", key+end, pos, t)
				}
			}
			if !j.p.agree(ga, gb) {
				why := ""
				if j.p.from != "" {
					why = " with " + j.p.from + " for " + j.p.to
				}
				c.bad("variants-agree", key+end, pos, fmt.Sprintf("%s%s gives %s, but %s%s gives %s%s", a, end, strings.Join(ga, " | "), b, end, strings.Join(gb, " | "), why))
			}
		}
	})
	return r
}

// endings: the ways to get from a builder to a statement or an element.
func (e *Eng) endings(src string) []string {
	t := e.staticType(src)
	if t == nil || e.l.isVisitable(t) && !isStatementBuilder(e, t) {
		return []string{""}
	}
	var out []string
	for _, f := range e.finishes(chain{t: t, m: &model{}, n: 9}, true) {
		if isStatementBuilder(e, f.t) {
			out = append(out, f.expr+".Build()")
		} else {
			out = append(out, f.expr)
		}
	}
	return out
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

func isStatementBuilder(e *Eng, t types.Type) bool {
	for _, m := range e.clientMethods(t) {
		if m.Name() == "Build" {
			return true
		}
	}
	return false
}

func init() {
	register("C17", &ruleDef{min: map[string]int{"variants-agree": 1000}, run: ruleC17})
}
