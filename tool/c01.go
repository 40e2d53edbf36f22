package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

func init() {
	register("C01", &ruleDef{run: ruleC01, min: map[string]int{"error-propagation": 430, "chained-error": 500},
		what: "Abstract interpretation of every exported function and method that returns a query element or fluent handle, once per operand that can carry an error (receiver, parameter, each entry of a list parameter at lengths 1 and 3) with exactly that operand erroneous and every other operand opaque. Rule: on every path of the function's SSA form that returns, the result's own GetError (interpreted on the abstract result) is non-nil."})
}

// C01: an element built from an erroneous operand is erroneous.
func ruleC01(e *Eng, l *Loaded) *Report {
	r := newReport("C01")
	for _, a := range l.fns {
		if a.fn == nil || a.fn.Blocks == nil {
			continue
		}
		if skipMethods[a.fn.Name()] || l.resultKind(a) != "elem" {
			continue
		}
		if a.recv != nil && l.isStatementBuilder(a.recv) {
			continue
		}
		for _, op := range a.operands() {
			if !l.errCapable(op.t) {
				if !(op.name == "§r" && l.isStep(op.t)) {
					continue
				}
			}
			e.c01One(r, a, op)
		}
	}
	e.c01Chained(r, l)
	return r
}

// c01Chained takes the client expressions of the tables, which build their
// elements over any number of steps, once per operand that can carry an error.
func (e *Eng) c01Chained(r *Report, l *Loaded) {
	seen := map[string]bool{}
	ops := map[string]string{}
	var keys []string
	take := func(expr string) {
		if seen[expr] {
			return
		}
		seen[expr] = true
		for _, op := range errOperands(expr) {
			k := expr + "|" + op
			ops[k] = op
			keys = append(keys, k)
		}
	}
	for _, tl := range loadTables() {
		take(tl.expr)
	}
	depth := 4
	if thorough {
		depth = 6
	}
	_, full := e.subChains(l, depth)
	for _, x := range full {
		take(x)
	}
	for _, x := range e.anyOperandCalls(l, func(k string) string { return k + `("x")` }, anyKinds) {
		take(x)
	}
	// elements that are no expressions, made erroneous the way a client would
	for _, x := range e.anyOperandCalls(l, func(k string) string { return k }, erroneousElements) {
		ops[x+"|"] = ""
		keys = append(keys, x+"|")
	}
	e.sweep(r, keys, func(we *Eng, c *collected, key string) {
		op := ops[key]
		got, evs, err := we.results(strings.TrimSuffix(key, "|"+op), &Opts{errored: map[string]bool{op: true}})
		c.ob("chained-error")
		if err != nil {
			c.bad("chained-error", key, "", "not analysable: "+err.Error())
			return
		}
		pos := ""
		for _, v := range evs {
			if v.pos != "" {
				pos = v.pos
			}
		}
		for _, g := range got {
			switch {
			case g == "ERROR" || strings.HasPrefix(g, "PANIC") || strings.HasPrefix(g, "STRING"):
			case strings.HasPrefix(g, "UNDECIDED"):
				c.bad("undecided", key, pos, g)
			default:
				c.bad("chained-error", key, pos, fmt.Sprintf("with operand %s carrying an error, %s gives %q instead of an element reporting the error", op, strings.TrimSuffix(key, "|"+op), g))
			}
		}
	})
}

var operandCall = regexp.MustCompile(`\b([a-z]+)\("([^"]*)"\)`)

// errOperands lists the operands of a client expression that can carry an error.
func errOperands(expr string) []string {
	var out []string
	seen := map[string]bool{}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for _, m := range operandCall.FindAllStringSubmatch(expr, -1) {
		if _, opaque := opaqueKinds[m[1]]; opaque && m[1] != "fd" {
			add(m[2])
		} else if rc, ok := recipes[m[1]]; ok {
			for _, n := range errOperands(strings.ReplaceAll(rc.expr, "%", m[2])) {
				add(n)
			}
		}
	}
	return out
}

func (e *Eng) c01One(r *Report, a *API, op operand) {
	key := a.name + "|" + op.desc
	r.ob("error-propagation", key)
	r.units[a.name] = true
	for n := 3; n >= 1; n-- {
		if !op.list && n < 3 {
			break
		}
		if op.list && n == 2 {
			continue
		}
		if n == 1 && op.name[len(op.name)-2] != '0' {
			continue
		}
		o := &Opts{open: true, errored: map[string]bool{op.name: true}, sliceLen: func(string, typ) int { return n }}
		st := e.begin(o)
		args := e.genArgs(st, a)
		outs := e.exec(a.fn, args, nil, st)
		for _, u := range e.takeUndec() {
			r.bad("undecided", key, "", u)
		}
		for _, out := range outs {
			if out.panic != "" || out.ret == nil {
				continue
			}
			er, known := e.reportsErr(out.st, out.ret)
			e.takeUndec()
			if er && known {
				continue
			}
			w := "returns a value without error"
			if !known {
				w = "returns a value whose error state the analysis cannot determine"
			}
			r.bad("error-propagation", key, out.pos, fmt.Sprintf("%s: with %s carrying an error, the path returning at %s %s", a.name, op.desc, out.pos, w))
			break
		}
	}
}

var anyKinds = []string{"e", "c", "lit", "prop", "ali", "mapx", "fn", "proj", "path", "rp", "p", "cond", "hand", "elist", "chain"}

var erroneousElements = []string{
	`ANode("")`, `ANode("").NamedByString("m")`, `ANode("L").NamedByString("")`, `ANode("L").NamedByString("m").WithProperties(MapOf("a", SymbolicNameCreate("")))`,
	`ANode("L").RelationshipTo(ANode("L"), "T").NamedByString("")`, `ANode("").RelationshipTo(ANode("L"), "T").NamedByString("m")`,
	`ANode("L").RelationshipTo(ANode("L"), "T").NamedByString("m").WithProperties(MapOf("a", SymbolicNameCreate("")))`,
	`NamedPathCreate(SymbolicNameCreate(""), rp("q"))`, `NamedPathCreate(SymbolicNameCreate("m"), ANode("").RelationshipTo(ANode("L"), "T"))`,
	`SymbolicNameCreate("")`, `AParam("")`, `SortItemCreate(SymbolicNameCreate(""), ASC)`, `StringLiteralError(LiteralOf(e("z")).GetError())`,
}

// anyOperandCalls: the calls that take operands of any type, with each kind of
// element in each such position.
func (e *Eng) anyOperandCalls(l *Loaded, operand func(string) string, kinds []string) []string {
	isAny := func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		return ok && i.NumMethods() == 0
	}
	var out []string
	for _, a := range l.fns {
		if l.resultKind(a) == "" {
			continue
		}
		if a.recv != nil && (l.isStatementBuilder(a.recv) || l.isStep(a.recv)) {
			continue
		}
		recv := ""
		if a.recv != nil {
			if recv = operandFor(a.recv, "r"); recv == "" {
				continue
			}
			recv += "."
		}
		name := a.name[strings.LastIndex(a.name, ".")+1:]
		np := a.sig.Params().Len()
		var base []string
		for i := 0; i < np; i++ {
			t := a.sig.Params().At(i).Type()
			if a.sig.Variadic() && i == np-1 {
				if !isAny(t.(*types.Slice).Elem()) {
					t = t.(*types.Slice).Elem()
				}
			}
			base = append(base, operandFor(t, fmt.Sprintf("o%d", i)))
		}
		for i := 0; i < np; i++ {
			t := a.sig.Params().At(i).Type()
			variadic := a.sig.Variadic() && i == np-1
			if variadic {
				t = t.(*types.Slice).Elem()
			}
			if !isAny(t) {
				continue
			}
			for _, k := range kinds {
				x := operand(k)
				forms := []string{x}
				if variadic {
					forms = []string{x, `"k", ` + x, x + `, "k", e("y")`, `"j", e("y"), "k", ` + x, `"j", ` + x}
				}
				for _, f := range forms {
					args := append(append([]string(nil), base[:i]...), f)
					if !variadic {
						args = append(args, base[i+1:]...)
					}
					out = append(out, recv+name+"("+strings.Join(args, ", ")+")")
				}
			}
		}
	}
	return out
}
