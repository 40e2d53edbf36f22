package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ruleDef is one property's checker.
type ruleDef struct {
	run  func(*Eng, *Loaded) *Report
	min  map[string]int // least number of obligations per rule confirmed by hand
	what string         // what is analysed and what the rule is
	asm  []string
}

func (d *ruleDef) explain(prop string) string {
	if x := explanations[prop]; x != "" {
		if prop == "C25" {
			return x // types only, nothing is interpreted
		}
		return x + how
	}
	return d.what + how
}

var rules = map[string]*ruleDef{}

func register(p string, d *ruleDef) { rules[p] = d }

var thorough bool

var reachedFns []string

// timeLimit is far above what any rule takes; a tree that makes one take longer is not vouched for.
const timeLimit = 820 * time.Second

func main() {
	prop := flag.String("prop", "", "property to decide")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "tree to analyse")
	evid := flag.String("evidence", "/verif/evidence", "evidence directory")
	known := flag.String("known", "/verif/known_findings.txt", "known findings")
	cmd := flag.String("dbg", "", "debugging: x (client expressions), api, types")
	reached := flag.String("reached", "", "write the names of the functions interpreted to this file")
	cpuprof := flag.String("cpuprofile", "", "profile the analysis")
	flag.Parse()
	thorough = *tier == "thorough"
	if *cpuprof != "" {
		f, err := os.Create(*cpuprof)
		if err == nil && pprof.StartCPUProfile(f) == nil {
			defer pprof.StopCPUProfile()
		}
	}
	start := time.Now()
	if *cmd != "" {
		debug(*repo, *cmd, flag.Args())
		return
	}
	d := rules[*prop]
	if d == nil {
		fmt.Println("no such property", *prop)
		os.Exit(2)
	}
	rc := runProp(*prop, d, *tier, *repo, *evid, *known, start)
	pprof.StopCPUProfile()
	if *reached != "" {
		os.WriteFile(*reached, []byte(strings.Join(reachedFns, "\n")+"\n"), 0o644)
	}
	os.Exit(rc)
}

// analyse runs one rule; a tree that cannot be analysed is reported as such.
func analyse(prop string, d *ruleDef, repo string) (r *Report) {
	r = newReport(prop)
	defer func() {
		if x := recover(); x != nil {
			r.bad("analysis", "internal", "", fmt.Sprintf("the tree cannot be analysed: %v", x))
		}
	}()
	l, err := loadRepo(repo)
	if err != nil {
		r.bad("analysis", "load", "", err.Error())
		return r
	}
	e, err := newEng(l)
	if err != nil {
		r.bad("analysis", "init", "", err.Error())
		return r
	}
	r = d.run(e, l)
	r.evals = e.evals
	for f := range e.visited {
		r.visited[f.String()] = true
		reachedFns = append(reachedFns, f.String())
	}
	r.apis = len(l.fns)
	for rule, n := range d.min {
		if r.oblig[rule] < n {
			r.bad("coverage", rule, "", fmt.Sprintf("rule %s found %d instances, at least %d expected: the rule no longer sees the code it was written for", rule, r.oblig[rule], n))
		}
	}
	return r
}

func runProp(prop string, d *ruleDef, tier, repo, evid, knownFile string, start time.Time) int {
	done := make(chan *Report, 1)
	go func() { done <- analyse(prop, d, repo) }()
	var r *Report
	select {
	case r = <-done:
	case <-time.After(timeLimit):
		r = newReport(prop)
		r.bad("analysis", "time", "", fmt.Sprintf("not decided within %s: some function branches on its operands in a way the interpreter cannot follow", timeLimit))
	}
	known := loadKnown(knownFile, prop)
	var viol, kn []Finding
	for _, f := range r.sorted() {
		if desc, ok := known[f.id()]; ok {
			f.msg += " [" + desc + "]"
			kn = append(kn, f)
			continue
		}
		viol = append(viol, f)
	}
	for _, f := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, f.id(), oneLine(f.msg))
	}
	os.MkdirAll(evid, 0o755)
	rep := filepath.Join(evid, prop+".report.txt")
	var b strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&b, "%s %s\n  rule: %s\n  construct: %s\n  at: %s\n  %s\n", "violation of", prop, f.rule, f.key, f.pos, f.msg)
	}
	os.WriteFile(rep, []byte(b.String()), 0o644)
	writeEvidence(evid, prop, tier, d, r, viol, kn, start)
	n := 0
	for _, f := range viol {
		if n++; n > 25 {
			fmt.Printf("... and %d more\n", len(viol)-25)
			break
		}
		fmt.Printf("%s: %s | %s | %s | %s\n", prop, f.rule, f.key, f.pos, oneLine(f.msg))
	}
	total := 0
	for _, n := range r.oblig {
		total += n
	}
	fmt.Printf("%s: %d obligations, %d violated, %d known findings, %.1fs\n", prop, total, len(viol), len(kn), time.Since(start).Seconds())
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rep)
		return 1
	}
	return 0
}

func oneLine(s string) string { return strings.Join(strings.Fields(s), " ") }

// loadKnown reads lines  known: property=<id> | <rule>|<construct> | <what fails>
func loadKnown(file, prop string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		p := strings.SplitN(sc.Text(), " | ", 3)
		if len(p) == 3 && strings.TrimSpace(p[0]) == "known: property="+prop {
			m[strings.TrimSpace(p[1])] = strings.TrimSpace(p[2])
		}
	}
	return m
}

func writeEvidence(dir, prop, tier string, d *ruleDef, r *Report, viol, kn []Finding, start time.Time) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	total := 0
	for _, n := range r.oblig {
		total += n
	}
	cov := map[string]interface{}{
		"explanation":           d.explain(prop),
		"obligations_by_rule":   r.oblig,
		"obligations_total":     total,
		"constructs_analysed":   len(r.units),
		"functions_interpreted": len(r.visited),
		"exported_api_entries":  r.apis,
		"abstract_runs":         r.evals,
		"findings_not_listed":   len(viol),
		"findings_listed_known": len(kn),
		"samples":               r.sample,
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	var fs []map[string]string
	for _, f := range append(append([]Finding(nil), viol...), kn...) {
		fs = append(fs, map[string]string{"rule": f.rule, "construct": f.key, "at": f.pos, "message": f.msg})
	}
	if fs != nil {
		cov["findings"] = fs
	}
	doc := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": append(append([]string(nil), commonAssumptions...), d.asm...), "wall_s": time.Since(start).Seconds(), "violations": len(viol)}
	j, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), append(j, '\n'), 0o644)
}

var commonAssumptions = []string{
	"go/packages, go/types and go/ssa resolve the program as the Go compiler does",
	"models of the standard library functions the package calls (strings, strconv, fmt, math/big, unicode, sync/atomic) are faithful",
	"operands are well-formed unless a rule says otherwise: built by the package's own constructors or opaque implementations of its interfaces that honour the contracts checked for the package's own types",
	"lists are analysed at lengths 0 to 3 with distinct opaque entries",
}

func debug(repo, cmd string, args []string) {
	l, err := loadRepo(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	e, err := newEng(l)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	switch cmd {
	case "x":
		for _, n := range args {
			r, _, err := e.results(n, nil)
			fmt.Println(n, "=>", strings.Join(r, "  ||  "), err)
		}
	case "chains":
		for _, d := range []int{2, 3, 4} {
			for _, cut := range []bool{true, false} {
				if !cut && d > 4 {
					continue
				}
				p, f, u := e.chainSet(d, cut)
				fmt.Println(d, cut, len(p), len(f), u)
			}
		}
		_, f, _ := e.chainSet(3, true)
		bad := 0
		for _, c := range f {
			for _, x := range e.finishes(c, true) {
				r, _, err := e.results(x.expr, nil)
				w := normText(x.m.text())
				if err != nil || len(r) != 1 || normText(r[0]) != w {
					if bad++; bad < 60 {
						fmt.Println(x.expr, "\n   got ", r, err, "\n   want", x.m.text(), x.m.bad)
					}
				}
			}
		}
		fmt.Println("bad", bad)
	case "gen":
		genTable(e, args[0])
	case "rejects":
		genRejects(e, l)
	case "circles":
		rr := newReport("C16")
		e.ruleTermination(rr, l)
		for _, f := range rr.finds {
			fmt.Println(f)
		}
		fmt.Println(rr.oblig)
	case "types":
		listTypes(l)
	case "list":
		for _, a := range l.fns {
			fmt.Println(a.name, trimPkg(a.sig.String()))
		}
	case "api":
		for _, n := range args {
			dump(e, l, n)
		}
	}
}

func dump(e *Eng, l *Loaded, n string) {
	a := l.api(n)
	if a == nil {
		fmt.Println("no API", n)
		return
	}
	fmt.Println("==", n, a.sig)
	st := e.begin(nil)
	args := e.genArgs(st, a)
	for _, o := range e.exec(a.fn, args, nil, st) {
		if o.panic != "" {
			fmt.Println("   PANIC", o.panic, o.pos)
			continue
		}
		if o.ret == nil {
			fmt.Println("   void", o.st.events)
			continue
		}
		er, k := e.isErroredVal(o.st, o.ret)
		if er || !k {
			fmt.Println("   errored", er, k, o.st.facts)
			continue
		}
		rs, err := e.renderElem(o.st, o.ret)
		if err != nil {
			fmt.Println("   ", err)
			continue
		}
		for _, r := range rs {
			if r.panic != "" {
				fmt.Println("   RENDER PANIC", r.panic, r.pos)
				continue
			}
			fmt.Println("   T", e.tmpl(r.st, r.text), "  facts", len(r.st.facts), r.st.events)
		}
	}
	if u := e.takeUndec(); len(u) > 0 {
		fmt.Println("   UNDEC", u)
	}
}

func listTypes(l *Loaded) {
	cnt := map[string]int{}
	rcv := map[string][]string{}
	for _, a := range l.fns {
		if l.resultKind(a) == "" || skipMethods[a.fn.Name()] {
			continue
		}
		if a.recv != nil {
			rcv[shortType(a.recv)] = append(rcv[shortType(a.recv)], a.fn.Name())
		}
		for i := 0; i < a.sig.Params().Len(); i++ {
			cnt[shortType(a.sig.Params().At(i).Type())]++
		}
	}
	fmt.Println(cnt)
	var ks []string
	for k := range rcv {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k, rcv[k])
	}
}
