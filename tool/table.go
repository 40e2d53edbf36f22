package main

import (
	"embed"
	"fmt"
	"os"
	"sort"
	"strings"
)

// The tables state, for client expressions over the exported API with opaque
// operands, every outcome the property allows: the text template with holes
// for the operands, or ERROR. Each line is one obligation; its outcomes are
// derived from the source by abstract interpretation and compared.

//go:embed spec/*.tbl
var tableFS embed.FS

type tableLine struct {
	file string
	n    int
	tags map[string]bool
	expr string
	want []string
}

func loadTables() []tableLine {
	ents, _ := tableFS.ReadDir("spec")
	var out []tableLine
	for _, f := range ents {
		b, _ := tableFS.ReadFile("spec/" + f.Name())
		tags := map[string]bool{}
		for i, ln := range strings.Split(string(b), "\n") {
			switch {
			case strings.TrimSpace(ln) == "" || strings.HasPrefix(ln, "#"):
				continue
			case strings.HasPrefix(ln, "@"):
				tags = map[string]bool{}
				for _, t := range strings.Fields(ln[1:]) {
					tags[t] = true
				}
				continue
			}
			p := strings.SplitN(ln, " => ", 2)
			if len(p) != 2 {
				p = append(p, "")
				p[0] = strings.TrimSuffix(p[0], " =>")
			}
			tl := tableLine{file: f.Name(), n: i + 1, tags: tags, expr: p[0]}
			for _, w := range strings.Split(p[1], " || ") {
				tl.want = append(tl.want, normText(w))
			}
			out = append(out, tl)
		}
	}
	return out
}

const punct = "()[]{},:|=<>+-*/%^.;$!~"

// normText drops white space that separates no two words: Cypher reads the
// text the same with and without it.
func normText(s string) string {
	var b strings.Builder
	rs := []rune(s)
	for i := 0; i < len(rs); {
		if rs[i] != ' ' && rs[i] != '\n' && rs[i] != '\t' {
			// quoted text is kept as it is
			if rs[i] == '\'' || rs[i] == '`' || rs[i] == '"' {
				j := i + 1
				for j < len(rs) && rs[j] != rs[i] {
					j++
				}
				if j < len(rs) {
					b.WriteString(string(rs[i : j+1]))
					i = j + 1
					continue
				}
			}
			if rs[i] == '⟨' {
				if j := matchAngle(string(rs[i:]), 0); j > 0 {
					b.WriteString(string(rs[i:])[:j])
					i += len([]rune(string(rs[i:])[:j]))
					continue
				}
			}
			b.WriteRune(rs[i])
			i++
			continue
		}
		j := i
		for j < len(rs) && (rs[j] == ' ' || rs[j] == '\n' || rs[j] == '\t') {
			j++
		}
		if i == 0 || j == len(rs) || strings.ContainsRune(punct, rs[i-1]) || strings.ContainsRune(punct, rs[j]) {
			i = j
			continue
		}
		b.WriteByte(' ')
		i = j
	}
	return b.String()
}

// hole of a template: kind ("" for an operand's own text) and operand.
type holeT struct{ kind, name string }

func holesOf(t string) ([]holeT, string) {
	var hs []holeT
	var b strings.Builder
	for {
		i := strings.Index(t, "⟨")
		if i < 0 {
			break
		}
		j := matchAngle(t, i)
		if j < 0 {
			break
		}
		in := strings.TrimSuffix(strings.TrimPrefix(t[i:j], "⟨"), "⟩")
		h := holeT{"", in}
		for _, k := range []string{"esc", "bt", "lit", "raw", "num", "id", "dbl", "sle"} {
			if strings.HasPrefix(in, k+" ") {
				h = holeT{k, in[len(k)+1:]}
			}
		}
		hs = append(hs, h)
		b.WriteString(t[:i])
		b.WriteString("⟨⟩")
		t = t[j:]
	}
	b.WriteString(t)
	return hs, b.String()
}

func names(hs []holeT) string {
	var s []string
	for _, h := range hs {
		s = append(s, h.name)
	}
	return strings.Join(s, ",")
}

func kinds(hs []holeT) string {
	var s []string
	for _, h := range hs {
		s = append(s, h.kind)
	}
	return strings.Join(s, ",")
}

// diffKinds says in which respects the outcomes differ from the allowed ones.
func diffKinds(got, want []string) map[string]bool {
	d := map[string]bool{}
	w := map[string]bool{}
	for _, x := range want {
		w[x] = true
	}
	g := map[string]bool{}
	var extra, missing []string
	for _, x := range got {
		g[x] = true
		if !w[x] {
			extra = append(extra, x)
		}
	}
	for _, x := range want {
		if !g[x] {
			missing = append(missing, x)
		}
	}
	if len(extra) == 0 && len(missing) == 0 {
		return d
	}
	d["any"] = true
	for _, x := range extra {
		switch {
		case strings.HasPrefix(x, "PANIC"):
			d["panic"] = true
		case strings.HasPrefix(x, "UNDECIDED"):
			d["undecided"] = true
		case x == "ERROR" || x == "NIL" || x == "STEP" || x == "VOID":
			d["error"] = true
		default:
			txt := 0
			for _, m := range want {
				if m == "ERROR" {
					continue
				}
				txt++
				hx, tx := holesOf(x)
				hm, tm := holesOf(m)
				if names(hx) != names(hm) {
					d["operands"] = true
				}
				if tx != tm {
					d["text"] = true
				}
				if names(hx) == names(hm) && kinds(hx) != kinds(hm) {
					d["quoting"] = true
				}
			}
			if txt == 0 {
				d["accepted"] = true
			}
		}
	}
	for _, m := range missing {
		if m == "ERROR" {
			d["accepted"] = true
		}
	}
	return d
}

// tableResults evaluates every line once.
type tableRes struct {
	tableLine
	got  []string
	err  error
	pos  string
	kind map[string]bool
}

func (e *Eng) evalTable(pick func(tableLine) bool) []tableRes {
	var out []tableRes
	for _, tl := range loadTables() {
		if pick != nil && !pick(tl) {
			continue
		}
		got, evs, err := e.results(tl.expr, nil)
		tr := tableRes{tableLine: tl, err: err}
		seen := map[string]bool{}
		for _, g := range got {
			g = normText(g)
			if !seen[g] {
				seen[g] = true
				tr.got = append(tr.got, g)
			}
		}
		sort.Strings(tr.got)
		for _, v := range evs {
			if v.pos != "" {
				tr.pos = v.pos
			}
		}
		if err == nil {
			tr.kind = diffKinds(tr.got, tl.want)
		}
		out = append(out, tr)
	}
	return out
}

// tableRule reports the lines that differ in one of the given respects, and
// the lines carrying the property's tag that differ at all.
func (e *Eng) tableRule(r *Report, rule string, pick func(tableLine) bool, respects ...string) {
	for _, t := range e.evalTable(pick) {
		r.ob(rule, t.expr)
		r.units[t.expr] = true
		if t.err != nil {
			r.bad(rule, t.expr, "", "not analysable: "+t.err.Error())
			continue
		}
		hit := t.tags[r.prop] && t.kind["any"] || t.kind["undecided"]
		for _, k := range respects {
			hit = hit || t.kind[k]
		}
		if hit {
			r.bad(rule, t.expr, t.pos, fmt.Sprintf("%s gives %s, the specification (%s:%d) allows %s", t.expr, strings.Join(t.got, " or "), t.file, t.n, strings.Join(t.want, " or ")))
		}
	}
}

func init() {
	reg := func(p string, min int, pick func(t tableLine) bool, respects ...string) {
		register(p, &ruleDef{min: map[string]int{"specified-outcome": min},
			run: func(e *Eng, l *Loaded) *Report {
				r := newReport(p)
				e.tableRule(r, "specified-outcome", pick, respects...)
				return r
			}})
	}
	tagged := func(p string) func(tableLine) bool { return func(t tableLine) bool { return t.tags[p] } }
	reg("C03", 500, nil, "operands")
	reg("C06", 210, tagged("C06"))
	reg("C19", 40, tagged("C19"))
	register("C07", &ruleDef{min: map[string]int{"specified-outcome": 500, "chain-syntax": 5000}, run: func(e *Eng, l *Loaded) *Report {
		r := newReport("C07")
		e.tableRule(r, "specified-outcome", nil, "text", "error")
		e.chainRule(r, "chain-syntax", func(got, want string) bool {
			if got == want || want == "ERROR" || got == "ERROR" || strings.HasPrefix(got, "PANIC") || got == "NIL" {
				return false
			}
			// loss and order of clauses and operands are other properties
			if strings.Join(holeSeq(got), " ") != strings.Join(holeSeq(want), " ") {
				return false
			}
			_, tg := holesOf(got)
			_, tw := holesOf(want)
			return tg != tw
		})
		return r
	}})
}

// genTable prints a table of client expressions with their present outcomes,
// for review; the reviewed output is kept as the specification.
func genTable(e *Eng, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return
	}
	for _, ln := range strings.Split(string(b), "\n") {
		if ln == "" || strings.HasPrefix(ln, "@") || strings.HasPrefix(ln, "#") {
			fmt.Println(ln)
			continue
		}
		ln = strings.SplitN(ln, " => ", 2)[0]
		rs, _, err := e.results(ln, nil)
		if err != nil {
			fmt.Println(ln, "=> !!", err)
			continue
		}
		fmt.Println(ln, "=>", strings.Join(rs, " || "))
	}
}
