package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// absentFor: the ways to leave an operand of the type out.
func absentFor(t types.Type) []string {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return []string{"nil"}
	case *types.Pointer, *types.Slice:
		return []string{"nil"}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return []string{`""`, `" "`}
		}
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Exported() {
			return []string{`zero(` + strconv.Quote(n.Obj().Name()) + `)`}
		}
	}
	return nil
}

// rejectVariants: calls with one operand absent, the others well-formed.
func rejectVariants(name string, sig *types.Signature, tag string) []string {
	np := sig.Params().Len()
	var out []string
	base := make([]string, 0, np)
	for i := 0; i < np; i++ {
		t := sig.Params().At(i).Type()
		if sig.Variadic() && i == np-1 {
			t = t.(*types.Slice).Elem()
		}
		x := operandFor(t, fmt.Sprintf("%s%d", tag, i))
		if x == "" {
			return nil
		}
		base = append(base, x)
	}
	call := func(args []string) { out = append(out, name+"("+strings.Join(args, ", ")+")") }
	for i := 0; i < np; i++ {
		t := sig.Params().At(i).Type()
		va := sig.Variadic() && i == np-1
		if va {
			call(base[:i])
			t = t.(*types.Slice).Elem()
		}
		if s, ok := t.Underlying().(*types.Slice); ok && !va {
			for _, a := range absentFor(s.Elem()) {
				w := append([]string(nil), base...)
				w[i] = "_slice(" + operandFor(s.Elem(), tag+"x") + ", " + a + ")"
				call(w)
			}
			w := append([]string(nil), base...)
			w[i] = "_slice()"
			call(w)
		}
		for _, a := range absentFor(t) {
			w := append([]string(nil), base...)
			w[i] = a
			call(w)
			if va {
				w2 := append(append([]string(nil), base...), a)
				call(w2)
				w3 := append(append([]string(nil), w...), base[i])
				call(w3)
			}
		}
	}
	return out
}

// genRejects prints every call with an absent operand and what comes of it.
func genRejects(e *Eng, l *Loaded) {
	show := func(x string) {
		defer func() {
			if r := recover(); r != nil {
				fmt.Println(x, "=> !!", r)
			}
		}()
		rs, _, err := e.results(x, nil)
		if err != nil {
			fmt.Println(x, "=> !!", err)
			return
		}
		fmt.Println(x, "=>", strings.Join(rs, " || "))
	}
	var names []string
	sigs := map[string]*types.Signature{}
	recvOf := map[string]string{}
	for _, a := range l.fns {
		if a.recv == nil {
			names = append(names, a.name)
			sigs[a.name] = a.sig
		}
	}
	sort.Strings(names)
	fmt.Println("# functions")
	for _, n := range names {
		for _, v := range rejectVariants(n, sigs[n], "a") {
			isStart := false
			for _, s := range chainStarts {
				isStart = isStart || s.fn == n
			}
			if !isStart {
				show(v)
				continue
			}
			for _, f := range e.finishes(chain{expr: v, t: sigs[n].Results().At(0).Type(), m: &model{}, n: 9}, true) {
				show(f.expr)
			}
		}
	}
	fmt.Println("# methods")
	names = nil
	seenT := map[string]bool{}
	for _, src := range append(tableExprs(nil), `AnyNode()`, `Foreach()`) {
		evs, err := e.evalItems(src)
		if err != nil || len(evs) == 0 {
			continue
		}
		t := evs[0].ev.t
		if t == nil || seenT[t.String()] {
			continue
		}
		seenT[t.String()] = true
		for _, m := range e.clientMethods(t) {
			if skipMethods[m.Name()] {
				continue
			}
			k := src + "." + m.Name()
			mt := shortType(m.Type().(*types.Signature).Recv().Type()) + "." + m.Name()
			if recvOf[mt] != "" && (strings.HasPrefix(mt, "ExpressionContainer") || strings.HasPrefix(mt, "ConditionContainer")) {
				continue
			}
			recvOf[mt] = k
			for _, v := range rejectVariants(k, m.Type().(*types.Signature), "a") {
				show(v)
			}
		}
	}
	fmt.Println("# chains")
	prefixes, _, _ := e.chainSet(3, true)
	seen := map[string]bool{}
	for _, p := range prefixes {
		for _, m := range e.methodsOf(p.t) {
			if nonSteps[m.Name()] {
				continue
			}
			k := shortType(p.t) + "." + m.Name() + p.m.last().kind
			if seen[k] {
				continue
			}
			seen[k] = true
			sig := m.Type().(*types.Signature)
			for _, v := range rejectVariants(p.expr+"."+m.Name(), sig, "a") {
				fs := e.finishes(chain{expr: v, t: sig.Results().At(0).Type(), m: &model{}, n: 9}, true)
				if len(fs) == 0 {
					show(v)
				}
				for _, f := range fs {
					show(f.expr)
				}
			}
		}
	}
}

//go:embed spec/rejects.txt
var rejectList string

// C18: what cannot be rendered meaningfully is reported as an error.
func ruleC18(e *Eng, l *Loaded) *Report {
	r := newReport("C18")
	seen := map[string]bool{}
	var keys []string
	for _, x := range strings.Split(rejectList, "\n") {
		if x = strings.TrimSpace(x); x != "" && x[0] != '#' && !seen[x] {
			seen[x] = true
			keys = append(keys, x)
		}
	}
	e.sweep(r, keys, func(we *Eng, c *collected, x string) {
		c.ob("rejected")
		got, pos, err := we.chainResult(x, nil)
		if err != nil {
			c.bad("rejected", x, "", "not analysable: "+err.Error())
			return
		}
		for _, g := range got {
			if g != "ERROR" {
				c.bad("rejected", x, pos, fmt.Sprintf("%s gives %q instead of an error", x, g))
			}
		}
		for _, u := range we.takeUndec() {
			c.bad("undecided", x, pos, u)
		}
	})
	for _, it := range e.allChains(r) {
		if it.want != "ERROR" {
			continue
		}
		r.ob("chain-rejected", it.fin.expr)
		r.units[it.c.last] = true
		if it.err != nil {
			r.bad("chain-rejected", it.fin.expr, "", "not analysable: "+it.err.Error())
			continue
		}
		for _, g := range it.got {
			if g != "ERROR" {
				r.bad("chain-rejected", it.fin.expr, it.pos, fmt.Sprintf("%s builds %q instead of an error", it.fin.expr, g))
			}
		}
	}
	return r
}

func init() {
	register("C18", &ruleDef{min: map[string]int{"rejected": 3800, "chain-rejected": 300}, run: ruleC18})
}
