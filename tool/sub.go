package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Sub-builders are the unfinished elements of the API: comprehensions, named
// paths, predicates and cases are written over several calls, of which only
// the last one yields an element.

// isSub: everything a client can do with the unfinished element leads to a
// finished element or to a sub-builder again.
func (e *Eng) isSub(t types.Type) bool { return e.subWalk(t, map[string]bool{}) }

func (e *Eng) subWalk(t types.Type, seen map[string]bool) bool {
	if t == nil || e.l.isElem(t) || e.l.isHandle(t) {
		return false
	}
	n, ok := derefNamed(t)
	if !ok || n.Obj().Pkg() != e.l.pkg {
		return false
	}
	if seen[n.String()] {
		return true
	}
	seen[n.String()] = true
	steps := 0
	for _, m := range e.clientMethods(t) {
		if m.Name() == "Build" {
			return false
		}
		sig := m.Type().(*types.Signature)
		if sig.Results().Len() == 0 {
			return false
		}
		rt := sig.Results().At(0).Type()
		if isErrorType(rt) {
			continue
		}
		steps++
		if e.l.isElem(rt) || e.l.isHandle(rt) {
			continue
		}
		if !e.subWalk(rt, seen) {
			return false
		}
	}
	return steps > 0
}

func derefNamed(t types.Type) (*types.Named, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return n, ok
}

// subChain is a sub-builder after some calls.
type subChain struct {
	expr string
	t    types.Type
}

// subChains lists the sub-builders reachable with up to depth calls, and the
// elements they are finished to.
func (e *Eng) subChains(l *Loaded, depth int) (prefixes []subChain, full []string) {
	var cur []subChain
	for _, a := range l.fns {
		if a.recv != nil || a.sig.Results().Len() == 0 || !e.isSub(a.sig.Results().At(0).Type()) {
			continue
		}
		if x := callExpr(a.name, a.sig, "s", 2); x != "" {
			cur = append(cur, subChain{x, a.sig.Results().At(0).Type()})
		}
	}
	sort.Slice(cur, func(i, j int) bool { return cur[i].expr < cur[j].expr })
	for d := 1; d <= depth && len(cur) > 0; d++ {
		var next []subChain
		for _, c := range cur {
			prefixes = append(prefixes, c)
			for _, m := range e.clientMethods(c.t) {
				sig := m.Type().(*types.Signature)
				if sig.Results().Len() == 0 || isErrorType(sig.Results().At(0).Type()) {
					continue
				}
				x := callExpr(m.Name(), sig, strings.ToLower(m.Name()[:1])+strconv.Itoa(d), 2)
				if x == "" {
					continue
				}
				rt := sig.Results().At(0).Type()
				n := subChain{c.expr + "." + x, rt}
				if e.isSub(rt) {
					next = append(next, n)
				} else {
					full = append(full, n.expr)
				}
			}
		}
		cur = next
	}
	return
}

// forkSubs: finishing or continuing a sub-builder leaves it as it was.
func (e *Eng) forkSubs(r *Report, l *Loaded, depth int) {
	prefixes, _ := e.subChains(l, depth)
	keys := []string{}
	ts := map[string]types.Type{}
	for _, p := range prefixes {
		keys = append(keys, p.expr)
		ts[p.expr] = p.t
	}
	e.sweep(r, keys, func(we *Eng, c *collected, key string) {
		st := we.begin(nil)
		we.inputs = map[string]string{}
		evs, err := we.eval(st, key)
		if err != nil {
			c.bad("sub-fork", key, "", "not analysable: "+err.Error())
			return
		}
		for _, base := range evs {
			if base.panic != "" {
				continue
			}
			base.st = markPre(base.st)
			// every way on, as calls on X
			var conts []string
			for _, m := range we.clientMethods(ts[key]) {
				sig := m.Type().(*types.Signature)
				if sig.Results().Len() == 0 || isErrorType(sig.Results().At(0).Type()) {
					continue
				}
				x := callExpr(m.Name(), sig, "k"+strings.ToLower(m.Name()[:1]), 2)
				if x == "" {
					continue
				}
				rt := sig.Results().At(0).Type()
				if !we.isSub(rt) {
					conts = append(conts, "X."+x)
					continue
				}
				for _, m2 := range we.clientMethods(rt) {
					s2 := m2.Type().(*types.Signature)
					if s2.Results().Len() == 0 || isErrorType(s2.Results().At(0).Type()) || we.isSub(s2.Results().At(0).Type()) {
						continue
					}
					if x2 := callExpr(m2.Name(), s2, "l"+strings.ToLower(m2.Name()[:1]), 2); x2 != "" {
						conts = append(conts, "X."+x+"."+x2)
					}
				}
			}
			texts := map[string]string{}
			for _, x := range conts {
				t, err := we.onText(EV{st: base.st.clone(), v: base.v, t: ts[key]}, x)
				if err != nil {
					continue
				}
				texts[x] = strings.Join(t, " or ")
			}
			for _, x := range conts {
				full := strings.Replace(x, "X.", key+".", 1)
				as, err := we.on(EV{st: base.st.clone(), v: base.v, t: ts[key]}, x)
				if err != nil {
					c.bad("sub-fork", full, "", "not analysable: "+err.Error())
					continue
				}
				for _, a := range as {
					c.ob("sub-fork")
					for _, ev := range a.st.events {
						if how, ok := effectKinds[ev.kind]; ok {
							c.bad("sub-fork", full+"|"+ev.fn, ev.pos, fmt.Sprintf("%s: %s %s %s, which existed before the call", full, ev.fn, how, ev.msg))
						}
					}
					if a.panic != "" {
						continue
					}
					first := we.textsIn(a.st, a)
					for _, y := range conts {
						t, err := we.onText(EV{st: a.st, v: base.v, t: ts[key]}, y)
						if err == nil && !within(strings.Join(t, " or "), texts[y]) {
							c.bad("sub-fork", full, a.pos, fmt.Sprintf("after %s, %s gives %q instead of %q", full, strings.Replace(y, "X.", key+".", 1), strings.Join(t, " or "), texts[y]))
						}
					}
					if again := we.textsIn(a.st, a); !within(again, first) {
						c.bad("sub-fork", full, a.pos, fmt.Sprintf("%s renders %q, and %q once the same builder was continued", full, first, again))
					}
				}
				we.takeUndec()
			}
		}
	})
}
