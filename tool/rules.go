package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Finding is one violated (or undecidable) obligation.
type Finding struct {
	prop string
	rule string
	key  string // construct: function and operand; stable across unrelated edits
	pos  string
	msg  string
}

func (f Finding) id() string { return f.rule + "|" + f.key }

// Report collects what one property check did.
type Report struct {
	prop    string
	finds   map[string]Finding
	oblig   map[string]int // obligations per rule
	units   map[string]bool
	notes   []string
	sample  []string
	evals   int
	apis    int
	visited map[string]bool
}

func newReport(p string) *Report {
	return &Report{prop: p, finds: map[string]Finding{}, oblig: map[string]int{}, units: map[string]bool{}, visited: map[string]bool{}}
}

func (r *Report) ob(rule, key string) {
	r.oblig[rule]++
	if len(r.sample) < 40 {
		r.sample = append(r.sample, rule+" "+key)
	}
}

func (r *Report) bad(rule, key, pos, msg string) {
	f := Finding{r.prop, rule, key, pos, msg}
	if _, ok := r.finds[f.id()]; !ok {
		r.finds[f.id()] = f
	}
}

func (r *Report) sorted() []Finding {
	var fs []Finding
	for _, f := range r.finds {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id() < fs[j].id() })
	return fs
}

// ---------------------------------------------------------------- classification of the API

func hasGetError(t types.Type, l *Loaded) bool {
	var ms *types.MethodSet = types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj().(*types.Func)
		if m.Name() == "GetError" {
			s := m.Type().(*types.Signature)
			return s.Params().Len() == 0 && s.Results().Len() == 1 && isErrorType(s.Results().At(0).Type())
		}
	}
	return false
}

// isElem: a query element (can be visited by the renderer).
func (l *Loaded) isElem(t types.Type) bool { return l.isVisitable(t) }

// errCapable: values of the type can carry an error.
func (l *Loaded) errCapable(t types.Type) bool {
	if isErrorType(t) {
		return true
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return l.errCapable(p.Elem())
	}
	return hasGetError(t, l) || l.isHandle(t)
}

// isHandle: a fluent handle, a non-element whose Get returns the element it denotes.
func (l *Loaded) isHandle(t types.Type) bool {
	if types.IsInterface(t) || l.isElem(t) {
		return false
	}
	sel := types.NewMethodSet(t).Lookup(l.pkg, "Get")
	if sel == nil {
		return false
	}
	s, ok := sel.Obj().Type().(*types.Signature)
	return ok && s.Params().Len() == 0 && s.Results().Len() == 1 && l.isElem(s.Results().At(0).Type())
}

// elemOf unwraps a fluent handle.
func (e *Eng) elemOf(st *State, v Val) Val {
	if sv, ok := v.(*StructV); ok && e.l.isHandle(sv.t) {
		outs, err := e.callMethod(st.clone(), v, "Get")
		if err == nil && len(outs) == 1 && outs[0].panic == "" {
			return outs[0].ret
		}
	}
	return v
}

// errField: index of a field of type error.
func errField(t types.Type) int {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if isErrorType(s.Field(i).Type()) {
				return i
			}
		}
	}
	return -1
}

// reportsErr: does the value report an error? GetError where there is one,
// otherwise its own error field, otherwise an (T, error) pair.
func (e *Eng) reportsErr(st *State, v Val) (bool, bool) {
	v = e.elemOf(st, v)
	switch x := v.(type) {
	case *TupleV:
		if len(x.vs) == 0 {
			return false, false
		}
		last := x.vs[len(x.vs)-1]
		if n, k := e.isNilVal(st, last); k && !n {
			if _, isB := last.(Const); !isB {
				return true, true
			}
		}
		return e.reportsErr(st, x.vs[0])
	}
	if e.hasMethod(v, "GetError", st) || isSymIface(v) {
		return e.isErroredVal(st, v)
	}
	u := unbox(v)
	if p, ok := u.(*Ptr); ok {
		if o, ok := e.load(st, p); ok {
			u = o
		}
	}
	if s, ok := u.(*StructV); ok {
		if i := errField(s.t); i >= 0 {
			n, k := e.isNilVal(st, s.f[i])
			return !n, k
		}
	}
	return false, false
}

type operand struct {
	name string
	t    types.Type
	desc string
	list bool
}

// operands of an API entry in the shape the analysis uses for them.
func (a *API) operands() []operand {
	var os []operand
	if a.recv != nil {
		os = append(os, operand{"§r", a.recv, "receiver", false})
	}
	for i := 0; i < a.sig.Params().Len(); i++ {
		p := a.sig.Params().At(i)
		n := fmt.Sprintf("§%d", i)
		if s, ok := p.Type().Underlying().(*types.Slice); ok {
			for j := 0; j < 3; j++ {
				os = append(os, operand{fmt.Sprintf("%s[%d]", n, j), s.Elem(), fmt.Sprintf("entry %d of %s", j, pname(p, i)), true})
			}
			continue
		}
		os = append(os, operand{n, p.Type(), pname(p, i), false})
	}
	return os
}

func pname(p *types.Var, i int) string {
	if p.Name() != "" {
		return fmt.Sprintf("parameter %d (%s)", i, p.Name())
	}
	return fmt.Sprintf("parameter %d", i)
}

var skipMethods = map[string]bool{"GetError": true, "PrepareVisit": true, "GetSymbolicName": true}

// resultKind: "elem" for query elements, "step" for unfinished builders that
// can carry an error, "" otherwise.
func (l *Loaded) resultKind(a *API) string {
	r := a.sig.Results()
	if r.Len() == 0 {
		return ""
	}
	t := r.At(0).Type()
	if _, ok := t.Underlying().(*types.Basic); ok {
		return ""
	}
	if isErrorType(t) {
		return ""
	}
	if l.isElem(t) || l.isHandle(t) {
		return "elem"
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == l.pkg {
		if types.IsInterface(t) || errField(t) >= 0 || hasGetError(t, l) {
			return "step"
		}
	}
	return ""
}

// isBuilderRecv: the receiver is an unfinished statement or element builder.
func (l *Loaded) isStep(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if l.isElem(t) {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func trimPkg(s string) string {
	return strings.ReplaceAll(s, "github.com/manhcuongbk56/cypher-go-dsl.", "")
}

type typ = types.Type

// statement builders: the types reachable as steps of a statement chain.
func (l *Loaded) isStatementBuilder(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || l.isElem(t) {
		return false
	}
	ms := types.NewMethodSet(types.NewPointer(n))
	for _, m := range []string{"Build", "Returning", "BuildImpl", "As", "Set", "BuildCondition", "BuildOrder"} {
		if ms.Lookup(l.pkg, m) != nil {
			return true
		}
	}
	return false
}
