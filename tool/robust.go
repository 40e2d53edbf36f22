package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// The calls a client can write down with well-formed operands, operands that
// carry an error, and empty lists and strings: every exported function, every
// method of every kind of element, well-formed or erroneous, every builder
// chain. C15 asks that none of them panics, C16 that all of them end.

// robustVariants: ways to call with well-formed or empty operands.
func robustVariants(name string, sig *types.Signature, tag string) []string {
	var out []string
	add := func(x string) {
		if x != "" {
			out = append(out, x)
		}
	}
	np := sig.Params().Len()
	if sig.Variadic() {
		for _, n := range []int{0, 1, 2, 3} {
			add(callExpr(name, sig, tag, n))
		}
	} else {
		add(callExpr(name, sig, tag, 1))
	}
	// one operand, or all of them, empty
	base := make([]string, np)
	empty := make([]string, np)
	for i := 0; i < np; i++ {
		t := sig.Params().At(i).Type()
		va := sig.Variadic() && i == np-1
		if va {
			t = t.(*types.Slice).Elem()
		}
		base[i] = operandFor(t, fmt.Sprintf("%s%d", tag, i))
		if base[i] == "" {
			return out
		}
		if isStringT(t) {
			empty[i] = `""`
		} else if s, ok := t.Underlying().(*types.Slice); ok && !va {
			empty[i] = "nil"
			if isStringT(s.Elem()) {
				empty[i] = `_slice("")`
			}
		} else if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			empty[i] = `""`
		}
	}
	all := append([]string(nil), base...)
	any := false
	for i := range base {
		if empty[i] == "" {
			continue
		}
		any = true
		all[i] = empty[i]
		w := append([]string(nil), base...)
		w[i] = empty[i]
		add(name + "(" + strings.Join(w, ", ") + ")")
	}
	if any {
		add(name + "(" + strings.Join(all, ", ") + ")")
	}
	return uniq(out)
}

// judge sees the outcomes of one call.
type judge func(c *collected, key, pos string, outcomes []string)

func (e *Eng) robust(r *Report, l *Loaded, rule string, j judge) {
	run := func(we *Eng, c *collected, src string, o *Opts) {
		key := src
		if o != nil {
			key += "|" + strings.Join(sortedKeys(o.errored), ",")
		}
		c.ob(rule)
		got, evs, err := we.results(src, o)
		if err != nil {
			c.bad("undecided", key, "", "not analysable: "+err.Error())
			return
		}
		j(c, key, posOf(evs), got)
	}
	both := func(we *Eng, c *collected, src string) {
		run(we, c, src, nil)
		ops := errOperands(src)
		all := map[string]bool{}
		for _, op := range ops {
			all[op] = true
			run(we, c, src, &Opts{errored: map[string]bool{op: true}})
		}
		if len(ops) > 1 {
			run(we, c, src, &Opts{errored: all})
		}
	}
	// every exported function and method on operands of its types
	apis := map[string]*API{}
	for _, a := range l.fns {
		if a.fn != nil && a.fn.Blocks != nil {
			apis[a.name] = a
		}
	}
	e.sweep(r, sortedKeys(apis), func(we *Eng, c *collected, k string) {
		a := apis[k]
		name := a.fn.Name()
		if name == "PrepareVisit" {
			return // the renderer's protocol, not a client's call
		}
		if a.recv != nil {
			x := operandFor(a.recv, "r")
			if x == "" || types.Identical(a.recv, types.NewPointer(l.rendererT)) {
				return
			}
			name = x + "." + name
		}
		for _, v := range robustVariants(name, a.sig, "a") {
			both(we, c, v)
		}
	})
	// every method of every kind of element, well-formed and erroneous
	e.sweep(r, tableExprs(nil), func(we *Eng, c *collected, src string) {
		for _, op := range append([]string{""}, errOperands(src)...) {
			var o *Opts
			if op != "" {
				o = &Opts{errored: map[string]bool{op: true}}
			}
			st := we.begin(o)
			we.inputs = map[string]string{}
			evs, err := we.eval(st, src)
			if err != nil {
				c.bad("undecided", src, "", "not analysable: "+err.Error())
				continue
			}
			for _, x := range evs {
				if x.panic != "" {
					c.ob(rule)
					j(c, src, x.pos, []string{"PANIC " + x.panic})
					continue
				}
				if x.tuple {
					tv, ok := x.v.(*TupleV)
					if !ok {
						continue
					}
					x.v, x.tuple = tv.vs[0], false
				}
				if x.v == nil || x.t == nil {
					continue
				}
				if _, isNil := x.v.(NilV); isNil {
					continue
				}
				for _, m := range we.clientMethods(x.t) {
					if m.Name() == "PrepareVisit" {
						continue
					}
					vs := robustVariants("X."+m.Name(), m.Type().(*types.Signature), "a")
					if op != "" && len(vs) > 1 {
						vs = vs[:2]
					}
					for _, v := range vs {
						c.ob(rule)
						key := src + " as X; " + v
						if op != "" {
							key += "|" + op
						}
						outs, err := we.on(x, v)
						if err != nil {
							c.bad("undecided", key, "", "not analysable: "+err.Error())
							continue
						}
						var got []string
						for _, y := range outs {
							got = append(got, we.resultOfEV(y)...)
						}
						for _, u := range we.takeUndec() {
							got = append(got, "UNDECIDED "+u)
						}
						j(c, key, posOf(outs), uniq(got))
					}
				}
			}
		}
	})
	// sub-builders
	depth := 4
	if thorough {
		depth = 6
	}
	_, subs := e.subChains(l, depth)
	e.sweep(r, subs, func(we *Eng, c *collected, src string) { both(we, c, src) })
	// builder chains: as specified, with erroneous operands, with empty lists
	// and strings
	d := 3
	if thorough {
		d = 5
	}
	prefixes, full, _ := e.chainSet(d, true)
	var fins []string
	add := func(c chain) {
		for _, f := range e.finishes(c, true) {
			fins = append(fins, f.expr)
		}
	}
	for _, c := range full {
		add(c)
	}
	seen := map[string]bool{}
	var odd []string
	for _, p := range prefixes {
		for _, m := range e.methodsOf(p.t) {
			k := shortType(p.t) + "." + m.Name() + p.m.last().kind + strconv.FormatBool(p.m.last().where != nil)
			if m.Name() == "Build" || seen[k] {
				continue
			}
			seen[k] = true
			sig := m.Type().(*types.Signature)
			if sig.Results().Len() == 0 {
				continue
			}
			for _, v := range robustVariants(p.expr+"."+m.Name(), sig, "a") {
				fs := e.finishes(chain{expr: v, t: sig.Results().At(0).Type(), m: &model{}, n: 9}, true)
				if len(fs) == 0 {
					odd = append(odd, v)
				}
				for _, f := range fs {
					odd = append(odd, f.expr)
				}
			}
		}
	}
	sort.Strings(fins)
	e.sweep(r, uniq(fins), func(we *Eng, c *collected, src string) { both(we, c, src) })
	sort.Strings(odd)
	e.sweep(r, uniq(odd), func(we *Eng, c *collected, src string) { run(we, c, src, nil) })

	// the calls that have to be rejected
	var rej []string
	for _, x := range strings.Split(rejectList, "\n") {
		if x = strings.TrimSpace(x); x != "" && x[0] != '#' {
			rej = append(rej, x)
		}
	}
	sort.Strings(rej)
	e.sweep(r, uniq(rej), func(we *Eng, c *collected, src string) { run(we, c, src, nil) })
}

func posOf(evs []EV) string {
	pos := ""
	for _, v := range evs {
		if v.pos != "" && (pos == "" || v.panic != "") {
			pos = v.pos
		}
	}
	return pos
}

const endless = "unbounded recursion"

func ruleC15(e *Eng, l *Loaded) *Report {
	r := newReport("C15")
	e.robust(r, l, "no-panic", func(c *collected, key, pos string, outcomes []string) {
		for _, t := range outcomes {
			switch {
			case strings.HasPrefix(t, "PANIC") && !strings.Contains(t, endless):
				c.bad("no-panic", key, pos, fmt.Sprintf("%s panics: %s", key, strings.TrimPrefix(t, "PANIC ")))
			case strings.HasPrefix(t, "UNDECIDED"):
				c.bad("undecided", key, pos, t)
			}
		}
	})
	return r
}

func ruleC16(e *Eng, l *Loaded) *Report {
	r := newReport("C16")
	e.robust(r, l, "ends", func(c *collected, key, pos string, outcomes []string) {
		for _, t := range outcomes {
			switch {
			case strings.HasPrefix(t, "PANIC") && strings.Contains(t, endless):
				c.bad("ends", key, pos, fmt.Sprintf("%s does not end: %s", key, strings.TrimPrefix(t, "PANIC ")))
			case strings.HasPrefix(t, "UNDECIDED"):
				c.bad("undecided", key, pos, t)
			}
		}
	})
	e.ruleTermination(r, l)
	return r
}

func init() {
	register("C15", &ruleDef{min: map[string]int{"no-panic": 70000}, run: ruleC15})
	register("C16", &ruleDef{min: map[string]int{"ends": 70000, "loop": 60, "recursion": 700}, run: ruleC16})
}
