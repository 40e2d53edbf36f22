package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const defaultBudget = 400_000

// begin starts one analysis run under the given assumptions.
func (e *Eng) begin(o *Opts) *State {
	if o == nil {
		o = &Opts{}
	}
	if o.errored == nil {
		o.errored = map[string]bool{}
	}
	if o.absent == nil {
		o.absent = map[string]bool{}
	}
	e.opt = o
	e.budget = defaultBudget
	e.evals++
	return e.newState()
}

// takeUndec returns and clears the reasons why the last run was not decided.
func (e *Eng) takeUndec() []string {
	var r []string
	for k := range e.undec {
		r = append(r, k)
	}
	sort.Strings(r)
	e.undec = map[string]bool{}
	return r
}

func (e *Eng) genArgs(st *State, a *API) []Val {
	var args []Val
	if a.recv != nil {
		args = append(args, e.gen(st, a.recv, "§r"))
	}
	for i := 0; i < a.sig.Params().Len(); i++ {
		args = append(args, e.gen(st, a.sig.Params().At(i).Type(), fmt.Sprintf("§%d", i)))
	}
	return args
}

// gen makes an operand of the given type: well-formed, erroneous when the run
// assumes so (built by the package's own error constructor when there is one).
func (e *Eng) gen(st *State, t types.Type, name string) Val {
	if e.isErr(name) {
		if v := e.erroredStruct(st, t, name); v != nil {
			return v
		}
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		n := 1
		if e.opt.sliceLen != nil {
			n = e.opt.sliceLen(name, t)
		}
		if n < 0 {
			return NilV{}
		}
		var el []Val
		for i := 0; i < n; i++ {
			el = append(el, e.gen(st, s.Elem(), fmt.Sprintf("%s[%d]", name, i)))
		}
		id := e.alloc(st, &ArrV{elems: el}, true, name)
		return &SliceV{obj: id, n: n, cap: -1}
	}
	v := e.fresh(st, t, name)
	return v
}

// erroredStruct: the value the package itself uses for an erroneous T.
func (e *Eng) erroredStruct(st *State, t types.Type, name string) Val {
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	errV := &Sym{name: "err(" + name + ")", t: types.Universe.Lookup("error").Type(), nn: true, fn: "err"}
	zero := func() Val {
		z := e.zero(t).(*StructV)
		u := n.Underlying().(*types.Struct)
		f := append([]Val(nil), z.f...)
		for i := 0; i < u.NumFields(); i++ {
			if isErrorType(u.Field(i).Type()) {
				f[i] = errV
			}
		}
		return &StructV{t: t, f: f}
	}
	sn := n.Obj().Name()
	for _, c := range []string{sn + "Error", strings.ToLower(sn[:1]) + sn[1:] + "Error", strings.TrimSuffix(strings.ToLower(sn[:1])+sn[1:], "Phrase") + "Error"} {
		if fn := e.l.ssapkg.Func(c); fn != nil && fn.Signature.Params().Len() == 1 && isErrorType(fn.Signature.Params().At(0).Type()) {
			outs := e.exec(fn, []Val{errV}, nil, st.clone())
			if len(outs) == 1 && outs[0].panic == "" {
				if sv, ok := outs[0].ret.(*StructV); ok && e.carriesErr(outs[0].st, sv) {
					st.become(outs[0].st)
					return sv
				}
			}
		}
	}
	return zero()
}

// methodFn finds the method of the dynamic value.
func (e *Eng) methodFn(st *State, v Val, name string) (*ssa.Function, Val) {
	switch x := v.(type) {
	case *Iface:
		if fn := e.l.method(x.dyn, name); fn != nil {
			return fn, x.v
		}
	case *StructV:
		if fn := e.l.method(x.t, name); fn != nil {
			return fn, x
		}
		if fn := e.l.method(types.NewPointer(x.t), name); fn != nil {
			id := e.alloc(st, x, false, "addr")
			return fn, &Ptr{obj: id}
		}
	case *Ptr:
		if o, ok := e.load(st, x); ok {
			if s, ok := o.(*StructV); ok {
				if fn := e.l.method(types.NewPointer(s.t), name); fn != nil {
					return fn, x
				}
			}
		}
	}
	return nil, nil
}

func (e *Eng) hasMethod(v Val, name string, st *State) bool {
	fn, _ := e.methodFn(st, v, name)
	return fn != nil
}

// callMethod invokes a method on an abstract value.
func (e *Eng) callMethod(st *State, v Val, name string, args ...Val) ([]Out, error) {
	if s, ok := v.(*Sym); ok {
		if it, ok := s.t.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == name {
					return e.invoke(st, v, it.Method(i), args, "-"), nil
				}
			}
		}
	}
	fn, recv := e.methodFn(st, v, name)
	if fn == nil {
		return nil, fmt.Errorf("no method %s on %s", name, v.K())
	}
	return e.exec(fn, append([]Val{recv}, args...), nil, st), nil
}

func dynOf(v Val) types.Type {
	switch x := v.(type) {
	case *Iface:
		return x.dyn
	case *StructV:
		return x.t
	case *Sym:
		return x.t
	}
	return nil
}

// newRenderer runs the package's own renderer constructor.
func (e *Eng) newRenderer(st *State) (*State, Val, error) {
	fn := e.l.ssapkg.Func("NewRenderer")
	if fn == nil {
		return nil, nil, fmt.Errorf("anchor NewRenderer not found")
	}
	outs := e.exec(fn, nil, nil, st)
	if len(outs) != 1 || outs[0].panic != "" {
		return nil, nil, fmt.Errorf("NewRenderer not analysable")
	}
	return outs[0].st, outs[0].ret, nil
}

// Rend is one rendering outcome.
type Rend struct {
	st    *State
	text  Val
	err   Val // error returned by Render, nil when rendering was by accept
	panic string
	pos   string
	rp    *Ptr
}

// renderElem lets the value write itself into a new renderer.
func (e *Eng) renderElem(st *State, v Val) ([]Rend, error) {
	st2, rp, err := e.newRenderer(st.clone())
	if err != nil {
		return nil, err
	}
	return e.renderInto(st2, v, rp)
}

func (e *Eng) renderInto(st *State, v Val, rp Val) ([]Rend, error) {
	outs, err := e.callMethod(st, v, "accept", rp)
	if err != nil {
		return nil, err
	}
	var rs []Rend
	for _, o := range outs {
		if o.panic != "" {
			rs = append(rs, Rend{st: o.st, panic: o.panic, pos: o.pos})
			continue
		}
		bp := e.builderIn(o.st, rp.(*Ptr))
		if bp == nil {
			return nil, fmt.Errorf("renderer has no text builder")
		}
		tv, _ := e.load(o.st, bp)
		rs = append(rs, Rend{st: o.st, text: builderText(tv), rp: rp.(*Ptr)})
	}
	return rs, nil
}

// renderStatement calls the exported Render.
func (e *Eng) renderStatement(st *State, v Val) ([]Rend, error) {
	st2, rp, err := e.newRenderer(st.clone())
	if err != nil {
		return nil, err
	}
	return e.renderWith(st2, rp, v)
}

func (e *Eng) renderWith(st2 *State, rp Val, v Val) ([]Rend, error) {
	fn := e.l.method(types.NewPointer(e.l.rendererT), "Render")
	if fn == nil {
		return nil, fmt.Errorf("anchor Render not found")
	}
	var rs []Rend
	for _, o := range e.exec(fn, []Val{rp, v}, nil, st2) {
		if o.panic != "" {
			rs = append(rs, Rend{st: o.st, panic: o.panic, pos: o.pos})
			continue
		}
		t := o.ret.(*TupleV)
		rs = append(rs, Rend{st: o.st, text: t.vs[0], err: t.vs[1]})
	}
	return rs, nil
}

// ---------------------------------------------------------------- canonical templates

// tmpl writes a text value as a canonical template: literal text, ⟨x⟩ for the
// text of operand x, ⟨esc x⟩ for a name quoted unless it is an identifier,
// ⟨bt x⟩ for a name always quoted, ⟨raw x⟩ for caller text passed verbatim.
func (e *Eng) tmpl(st *State, v Val) string {
	v = e.trimmed(v)
	parts := catParts(v)
	var b strings.Builder
	for i := 0; i < len(parts); i++ {
		p := parts[i]
		if s, ok := constStr(p); ok {
			b.WriteString(s)
			continue
		}
		b.WriteString(e.hole(st, p))
	}
	return normEsc(b.String())
}

// normEsc folds  `⟨dbl x⟩`  into ⟨bt x⟩.
func normEsc(s string) string {
	s = foldQuote(s, "'", "sle", "lit")
	return foldQuote(s, "`", "dbl", "bt")
}

// foldQuote folds  q⟨in x⟩q  into ⟨out x⟩.
func foldQuote(s, q, in, out string) string {
	for from := 0; ; {
		i := strings.Index(s[from:], q+"⟨"+in+" ")
		if i < 0 {
			return s
		}
		i += from
		j := matchAngle(s, i+len(q))
		if j < 0 || !strings.HasPrefix(s[j:], q) {
			from = i + 1
			continue
		}
		s = s[:i] + "⟨" + out + s[i+len(q)+len("⟨"+in):j] + s[j+len(q):]
	}
}

// matchAngle returns the index just after the ⟩ matching the ⟨ at i.
func matchAngle(s string, i int) int {
	d := 0
	for k := i; k < len(s); {
		if strings.HasPrefix(s[k:], "⟨") {
			d++
			k += len("⟨")
			continue
		}
		if strings.HasPrefix(s[k:], "⟩") {
			d--
			k += len("⟩")
			if d == 0 {
				return k
			}
			continue
		}
		k++
	}
	return -1
}

func (e *Eng) trimmed(v Val) Val {
	s, ok := v.(*Sym)
	if !ok || s.fn != "strings.TrimSpace" || len(s.args) != 1 {
		return v
	}
	parts := append([]Val(nil), catParts(s.args[0])...)
	if len(parts) == 0 {
		return strV("")
	}
	if t, ok := constStr(parts[0]); ok {
		parts[0] = strV(strings.TrimLeft(t, " \t\n"))
	}
	if t, ok := constStr(parts[len(parts)-1]); ok {
		parts[len(parts)-1] = strV(strings.TrimRight(t, " \t\n"))
	}
	return catV(parts...)
}

func isStringSym(s *Sym) bool {
	b, ok := s.t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Eng) hole(st *State, p Val) string {
	s, ok := p.(*Sym)
	if !ok {
		return "⟨" + p.K() + "⟩"
	}
	switch {
	case s.fn == "child":
		return "⟨" + strings.Trim(s.name, "<>") + "⟩"
	case strings.HasPrefix(s.fn, "quote:"):
		return "⟨" + s.fn[6:] + " " + e.inner(st, s.args[0]) + "⟩"
	case (s.fn == "" || s.fn == "opaque" || s.fn == "piece" || s.fn == "slice") && isStringSym(s):
		for f, val := range st.facts {
			if val && strings.HasPrefix(f, "eq(\"") && strings.HasSuffix(f, ","+s.name+")") {
				if c, err := strconv.Unquote(f[3 : len(f)-len(s.name)-2]); err == nil {
					return c
				}
			}
		}
		if st.facts["ident("+s.name+")"] {
			return "⟨id " + s.name + "⟩"
		}
		return "⟨raw " + s.name + "⟩"
	}
	if n, ok := e.numText(st, s); ok {
		if n[0] == '=' {
			return n[1:]
		}
		return "⟨num " + n + "⟩"
	}
	if s.xfn != nil {
		if k, lf := e.termKind(s); k != "" {
			if k == "same" {
				return "⟨raw " + lf + "⟩"
			}
			return "⟨" + k + " " + lf + "⟩"
		}
	}
	if len(s.args) > 0 && s.fn != "" {
		var as []string
		for _, a := range s.args {
			as = append(as, e.inner(st, a))
		}
		return "⟨" + s.fn + "(" + strings.Join(as, ",") + ")⟩"
	}
	return "⟨" + s.name + "⟩"
}

func (e *Eng) inner(st *State, a Val) string {
	if s, ok := constStr(a); ok {
		return fmt.Sprintf("%q", s)
	}
	if i, ok := a.(*Iface); ok {
		return shortType(i.dyn) + ":" + e.inner(st, i.v)
	}
	if s, ok := a.(*Sym); ok && (s.fn == "" || s.fn == "opaque" || s.fn == "piece" || s.fn == "slice" || len(s.args) == 0) {
		return s.name
	}
	if _, ok := a.(*Cat); ok {
		return e.tmpl(st, a)
	}
	if _, ok := a.(*Sym); ok {
		return strings.TrimSuffix(strings.TrimPrefix(e.hole(st, a), "⟨"), "⟩")
	}
	return a.K()
}

// mergeTmpl folds the outcome pair {⟨bt x⟩, ⟨id x⟩} into ⟨esc x⟩.
func mergeTmpl(ts []string) []string {
	set := map[string]bool{}
	for _, t := range ts {
		set[t] = true
	}
	for changed := true; changed; {
		changed = false
		var keys []string
		for t := range set {
			keys = append(keys, t)
		}
		sort.Strings(keys)
		for _, t := range keys {
			for from := 0; ; {
				i := strings.Index(t[from:], "⟨id ")
				if i < 0 {
					break
				}
				i += from
				j := strings.Index(t[i:], "⟩") + i
				name := t[i+len("⟨id ") : j]
				if alt := t[:i] + "⟨bt " + name + t[j:]; set[alt] {
					delete(set, t)
					delete(set, alt)
					set[t[:i]+"⟨esc "+name+t[j:]] = true
					changed = true
					break
				}
				from = j
			}
			if changed {
				break
			}
		}
	}
	var out []string
	for t := range set {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------- results

// isErrored decides whether a result reports an error, by calling its own
// GetError where it has one. The second result is false when undetermined.
func (e *Eng) isErroredVal(st *State, v Val) (errored, known bool) {
	switch x := v.(type) {
	case NilV:
		return false, true
	case *TupleV:
		// (T, error)
		last := x.vs[len(x.vs)-1]
		if n, k := e.isNilVal(st, last); k && !n {
			return true, true
		}
		return e.isErroredVal(st, x.vs[0])
	case *Sym:
		if isErrorType(x.t) {
			n, k := e.isNilVal(st, x)
			return !n, k
		}
	}
	if e.hasMethod(v, "GetError", st) || isSymIface(v) {
		outs, err := e.callMethod(st.clone(), v, "GetError")
		if err != nil {
			return false, false
		}
		res, first := false, true
		for _, o := range outs {
			if o.panic != "" {
				return false, false
			}
			n, k := e.isNilVal(o.st, o.ret)
			if !k {
				return false, false
			}
			if first {
				res, first = !n, false
			} else if res == n {
				return false, false
			}
		}
		return res, !first
	}
	return false, false
}

func isSymIface(v Val) bool {
	s, ok := v.(*Sym)
	return ok && types.IsInterface(s.t)
}
