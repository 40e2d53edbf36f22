package main

import (
	"go/constant"
	"go/types"
	"regexp"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Words over character classes. A class is written as one private-use rune
// inside a constant string; every operation on characters below decides what
// holds for all members of the class, or leaves the answer open.
const (
	clsLower  = '\uE000' // a-z
	clsUpper  = '\uE001' // A-Z
	clsDigit  = '\uE002' // 0-9
	clsPunct  = '\uE003' // ASCII punctuation with no special meaning to any quoting
	clsSpace  = '\uE004' // ASCII white space other than the blank and the line feed
	clsCtl    = '\uE005' // other ASCII control characters
	clsULet   = '\uE006' // letters outside ASCII
	clsUDigit = '\uE007' // decimal digits outside ASCII
	clsUNum   = '\uE008' // other numbers outside ASCII
	clsUMark  = '\uE009' // combining marks
	clsUSpace = '\uE00A' // white space outside ASCII
	clsUOther = '\uE00B' // every other character outside ASCII
	clsHi     = '\uE010' // from here: the first and second byte of clsULet, clsUDigit, ...
	clsEnd    = '\uE01F'
)

const punctMembers = "!#%&()*+,/:;<=>?@[]^{|}~"

func isCls(r rune) bool { return r >= clsLower && r <= clsEnd }

// isWide: a class of characters outside ASCII; isHiByte: a byte of one.
func isWide(r rune) bool   { return r >= clsULet && r <= clsUOther }
func isHiByte(r rune) bool { return r >= clsHi && r <= clsEnd }

func hasCls(s string) bool { return strings.IndexFunc(s, isCls) >= 0 }

// clsHas: is the character a member of the class?
func clsHas(c, r rune) bool {
	if isHiByte(c) {
		return r >= 0x80 && r <= 0xff
	}
	if isWide(c) {
		return r >= 0x80 && wideClass(r) == c
	}
	switch c {
	case clsLower:
		return r >= 'a' && r <= 'z'
	case clsUpper:
		return r >= 'A' && r <= 'Z'
	case clsDigit:
		return r >= '0' && r <= '9'
	case clsPunct:
		return strings.ContainsRune(punctMembers, r)
	case clsSpace:
		return r == '\t' || r == '\v' || r == '\f' || r == '\r'
	case clsCtl:
		return r == 0x7f || r < 0x20 && r != '\n' && (r < '\t' || r > '\r')
	}
	return false
}

func wideClass(r rune) rune {
	switch {
	case isCls(r):
		return 0
	case unicode.IsLetter(r):
		return clsULet
	case unicode.IsDigit(r):
		return clsUDigit
	case unicode.IsNumber(r):
		return clsUNum
	case unicode.IsMark(r):
		return clsUMark
	case unicode.IsSpace(r):
		return clsUSpace
	}
	return clsUOther
}

func clsRange(c rune) (lo, hi rune) {
	switch {
	case c == clsLower:
		return 'a', 'z'
	case c == clsUpper:
		return 'A', 'Z'
	case c == clsDigit:
		return '0', '9'
	case c == clsSpace:
		return '\t', '\r'
	case c == clsCtl:
		return 0, 0x7f
	case isWide(c):
		return 0x80, unicode.MaxRune
	case isHiByte(c):
		return 0x80, 0xff
	}
	return '!', '~'
}

// clsEq and clsLt: 1 true, 0 false, -1 depends on the member.
func clsEq(a, b rune) int {
	switch {
	case isCls(a) && isCls(b):
		if a == b {
			return -1
		}
		return 0
	case isCls(a):
		if clsHas(a, b) {
			return -1
		}
		return 0
	case isCls(b):
		return clsEq(b, a)
	}
	if a == b {
		return 1
	}
	return 0
}

func clsLt(a, b rune) int {
	alo, ahi := a, a
	blo, bhi := b, b
	if isCls(a) {
		alo, ahi = clsRange(a)
	}
	if isCls(b) {
		blo, bhi = clsRange(b)
	}
	if ahi < blo {
		return 1
	}
	if alo >= bhi {
		return 0
	}
	return -1
}

var unicodePreds = map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsSpace": unicode.IsSpace, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsTitle": unicode.IsTitle, "IsNumber": unicode.IsNumber, "IsPunct": unicode.IsPunct, "IsPrint": unicode.IsPrint, "IsControl": unicode.IsControl, "IsGraphic": unicode.IsGraphic, "IsSymbol": unicode.IsSymbol, "IsMark": unicode.IsMark}

// catOf: for a predicate, per class, whether some member has it and some lacks it.
var (
	catMu sync.Mutex
	catOf = map[string]map[rune][2]bool{}
)

func predTable(pred string) map[rune][2]bool {
	catMu.Lock()
	defer catMu.Unlock()
	if t, ok := catOf[pred]; ok {
		return t
	}
	f := unicodePreds[pred]
	t := map[rune][2]bool{}
	note := func(c, m rune) {
		x := t[c]
		if f(m) {
			x[0] = true
		} else {
			x[1] = true
		}
		t[c] = x
	}
	for m := rune(0); m < 0x80; m++ {
		for _, c := range []rune{clsLower, clsUpper, clsDigit, clsPunct, clsSpace, clsCtl} {
			if clsHas(c, m) {
				note(c, m)
			}
		}
	}
	for m := rune(0x80); m <= unicode.MaxRune; m++ {
		if m >= 0xD800 && m <= 0xDFFF {
			continue
		}
		if c := wideClass(m); c != 0 {
			note(c, m)
		}
	}
	catOf[pred] = t
	return t
}

// clsCat answers a unicode predicate for a character or for all members of a class.
func clsCat(pred string, r rune) (bool, bool) {
	f := unicodePreds[pred]
	if f == nil || isHiByte(r) {
		return false, false
	}
	if !isCls(r) {
		return f(r), true
	}
	x := predTable(pred)[r]
	return x[0], x[0] != x[1]
}

// wordBytes: the bytes of a word, a class of ASCII characters counting as one.
func wordBytes(s string) []rune {
	var out []rune
	for _, r := range s {
		switch {
		case isWide(r):
			h := clsHi + 2*(r-clsULet)
			out = append(out, h, h+1)
		case isCls(r):
			out = append(out, r)
		default:
			for _, b := range []byte(string(r)) {
				out = append(out, rune(b))
			}
		}
	}
	return out
}

// joinBytes undoes wordBytes: pairs of class bytes become their class.
func joinBytes(s string) string {
	for c := rune(clsULet); c <= clsUOther; c++ {
		h := clsHi + 2*(c-clsULet)
		s = strings.ReplaceAll(s, string(h)+string(h+1), string(c))
	}
	return s
}

func wordLen(s string) int {
	if !hasCls(s) {
		return len(s)
	}
	return len(wordBytes(s))
}

// wordSlice: s[lo:hi] in the byte positions of wordBytes.
func wordSlice(s string, lo, hi int) (string, bool) {
	if !hasCls(s) {
		if lo < 0 || hi < lo || hi > len(s) {
			return "", false
		}
		return s[lo:hi], true
	}
	var b strings.Builder
	pos := 0
	for _, r := range s {
		n := wordLen(string(r))
		if pos >= lo && pos+n <= hi {
			b.WriteRune(r)
		} else if pos < hi && pos+n > lo {
			return "", false // inside a character
		}
		pos += n
	}
	if lo < 0 || hi < lo || hi > pos {
		return "", false
	}
	return b.String(), true
}

// twice evaluates a function of strings on two different choices of members
// and maps the results back to classes; they must agree.
func twice(w string, f func(string) string) (string, bool) {
	reps := [2]map[rune][]rune{
		{clsLower: []rune("kmpq"), clsUpper: []rune("KMPQ"), clsDigit: []rune("3456"), clsULet: []rune("éжñö"), clsUOther: []rune("€→“☃"), clsPunct: []rune("#%!?"), clsSpace: []rune("\t\r"), clsCtl: []rune("\x01\x1f"), clsUDigit: []rune("٣٤९"), clsUNum: []rune("²½Ⅳ"), clsUMark: []rune("\u0301\u0308"), clsUSpace: []rune("\u00a0\u2003")},
		{clsLower: []rune("xyaz"), clsUpper: []rune("XYAZ"), clsDigit: []rune("7890"), clsULet: []rune("中ßЖÉ"), clsUOther: []rune("–¿”\u200b"), clsPunct: []rune("&@~;"), clsSpace: []rune("\f\v"), clsCtl: []rune("\x7f\x00"), clsUDigit: []rune("০１೯"), clsUNum: []rune("㊿൰③"), clsUMark: []rune("\u20d0\u0e31"), clsUSpace: []rune("\u2028\u3000")},
	}
	var res [2]string
	for k := 0; k < 2; k++ {
		cnt := map[rune]int{}
		back := map[rune]rune{}
		var b strings.Builder
		for _, r := range w {
			if !isCls(r) {
				b.WriteRune(r)
				continue
			}
			ms := reps[k][r]
			if len(ms) == 0 {
				return "", false
			}
			m := ms[cnt[r]%len(ms)]
			cnt[r]++
			back[m] = r
			b.WriteRune(m)
		}
		out := f(b.String())
		var o strings.Builder
		for _, r := range out {
			if c, ok := back[r]; ok {
				o.WriteRune(c)
			} else {
				o.WriteRune(r)
			}
		}
		res[k] = o.String()
	}
	return res[0], res[0] == res[1]
}

func twiceBool(w string, f func(string) bool) (bool, bool) {
	s, ok := twice(w, func(x string) string {
		if f(x) {
			return "T"
		}
		return "F"
	})
	return s == "T", ok
}

func runeC(r rune) Val { return Const{constant.MakeInt64(int64(r)), types.Typ[types.Rune]} }

// pureString evaluates standard library string functions on constant words.
func (e *Eng) pureString(name string, fn *ssa.Function, args []Val, st *State) ([]Out, bool) {
	ret := func(v Val) ([]Out, bool) { return []Out{{st: st, ret: v}}, true }
	cs := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		return constStr(args[i])
	}
	ci := func(i int) (int, bool) {
		if i >= len(args) {
			return 0, false
		}
		return constInt(args[i])
	}
	s0, ok0 := cs(0)
	s1, ok1 := cs(1)
	callRune := func(f Val, r rune) ([]Out, bool) {
		fv, ok := f.(*FuncV)
		if !ok {
			return nil, false
		}
		if fv.fn.Pkg == e.l.ssapkg || fv.fn.Blocks != nil && fv.fn.Pkg == nil || fv.fn.Parent() != nil {
			return e.exec(fv.fn, []Val{runeC(r)}, fv.binds, st), true
		}
		return e.external(fv.fn, []Val{runeC(r)}, st), true
	}
	runePred := func(f Val, r rune) (bool, bool) {
		outs, ok := callRune(f, r)
		if !ok || len(outs) != 1 || outs[0].panic != "" {
			return false, false
		}
		return constBool(outs[0].ret)
	}
	if strings.HasPrefix(name, "unicode.Is") && len(args) == 1 {
		if n, ok := ci(0); ok {
			if b, ok := clsCat(strings.TrimPrefix(name, "unicode."), rune(n)); ok {
				return ret(boolV(b))
			}
		}
		return nil, false
	}
	switch name {
	case "strings.TrimSpace":
		if ok0 {
			if s, ok := twice(s0, strings.TrimSpace); ok {
				return ret(strV(s))
			}
		}
	case "strings.ReplaceAll":
		if s2, ok2 := cs(2); ok0 && ok1 && ok2 {
			return ret(strV(strings.ReplaceAll(s0, s1, s2)))
		}
	case "strings.Replace":
		s2, ok2 := cs(2)
		if n, ok3 := ci(3); ok0 && ok1 && ok2 && ok3 {
			return ret(strV(strings.Replace(s0, s1, s2, n)))
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.ContainsAny", "strings.EqualFold":
		if ok0 && ok1 {
			f := map[string]func(a, b string) bool{"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny, "strings.EqualFold": strings.EqualFold}[name]
			if b, ok := twiceBool(s0, func(x string) bool { return f(x, s1) }); ok {
				return ret(boolV(b))
			}
		}
	case "strings.ContainsRune", "strings.IndexRune", "strings.IndexByte":
		if n, ok := ci(1); ok0 && ok {
			pos := 0
			for _, r := range s0 {
				switch clsEq(r, rune(n)) {
				case 1:
					if name == "strings.ContainsRune" {
						return ret(trueV)
					}
					return ret(intV(pos))
				case -1:
					return nil, false
				}
				pos += wordLen(string(r))
			}
			if name == "strings.ContainsRune" {
				return ret(falseV)
			}
			return ret(intV(-1))
		}
	case "strings.Index", "strings.LastIndex", "strings.Count", "strings.IndexAny":
		if ok0 && ok1 && !hasCls(s1) {
			f := map[string]func(a, b string) int{"strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.Count": strings.Count, "strings.IndexAny": strings.IndexAny}[name]
			if !hasCls(s0) {
				return ret(intV(f(s0, s1)))
			}
			if hasMember(s0, s1) {
				return nil, false
			}
			n := f(s0, s1)
			if name != "strings.Count" && n >= 0 {
				n = wordLen(s0[:n])
			}
			return ret(intV(n))
		}
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		if ok0 && ok1 {
			f := map[string]func(a, b string) string{"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight}[name]
			if s, ok := twice(s0, func(x string) string { return f(x, s1) }); ok {
				return ret(strV(s))
			}
		}
	case "strings.ToUpper", "strings.ToLower":
		if ok0 {
			if !hasCls(s0) {
				if name == "strings.ToUpper" {
					return ret(strV(strings.ToUpper(s0)))
				}
				return ret(strV(strings.ToLower(s0)))
			}
			if strings.IndexFunc(s0, isWide) >= 0 {
				return nil, false
			}
			if name == "strings.ToUpper" {
				return ret(strV(strings.ReplaceAll(strings.ToUpper(s0), string(clsLower), string(clsUpper))))
			}
			return ret(strV(strings.ReplaceAll(strings.ToLower(s0), string(clsUpper), string(clsLower))))
		}
	case "strings.Repeat":
		if n, ok := ci(1); ok0 && ok && n >= 0 && n < 1000 {
			return ret(strV(strings.Repeat(s0, n)))
		}
	case "strings.Split", "strings.SplitN", "strings.Fields":
		if ok0 && (ok1 || name == "strings.Fields") {
			var ss []string
			switch name {
			case "strings.Split":
				ss = strings.Split(s0, s1)
			case "strings.SplitN":
				n, ok := ci(2)
				if !ok {
					return nil, false
				}
				ss = strings.SplitN(s0, s1, n)
			default:
				ss = strings.Fields(s0)
			}
			var vs []Val
			for _, s := range ss {
				vs = append(vs, strV(s))
			}
			return ret(e.newSlice(st, vs, len(vs), false, "strings"))
		}
	case "strings.Cut":
		if ok0 && ok1 {
			a, b, f := strings.Cut(s0, s1)
			return ret(&TupleV{[]Val{strV(a), strV(b), boolV(f)}})
		}
	case "strings.Clone":
		return ret(args[0])
	case "strings.IndexFunc", "strings.ContainsFunc":
		if ok0 {
			pos := 0
			for _, r := range s0 {
				b, ok := runePred(args[1], r)
				if !ok {
					return nil, false
				}
				if b {
					if name == "strings.ContainsFunc" {
						return ret(trueV)
					}
					return ret(intV(pos))
				}
				pos += wordLen(string(r))
			}
			if name == "strings.ContainsFunc" {
				return ret(falseV)
			}
			return ret(intV(-1))
		}
	case "strings.Map":
		if s, ok := cs(1); ok {
			var b strings.Builder
			for _, r := range s {
				outs, ok := callRune(args[0], r)
				if !ok || len(outs) != 1 || outs[0].panic != "" {
					return nil, false
				}
				n, ok := constInt(outs[0].ret)
				if !ok {
					return nil, false
				}
				if n >= 0 {
					b.WriteRune(rune(n))
				}
			}
			return ret(strV(b.String()))
		}
	case "(*strings.Replacer).Replace":
		if rp, ok := args[0].(*Sym); ok && rp.fn == "replacer" && ok1 {
			var ps []string
			for _, a := range rp.args {
				p, ok := constStr(a)
				if !ok {
					return nil, false
				}
				ps = append(ps, p)
			}
			if len(ps)%2 == 0 {
				if s, ok := twice(s1, func(x string) string { return strings.NewReplacer(ps...).Replace(x) }); ok {
					return ret(strV(s))
				}
			}
		}
	case "unicode/utf8.RuneCountInString":
		if ok0 {
			return ret(intV(utf8.RuneCountInString(s0)))
		}
	case "unicode/utf8.ValidString":
		if ok0 {
			return ret(boolV(utf8.ValidString(s0)))
		}
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeLastRuneInString":
		if ok0 {
			var r rune
			var n int
			if name == "unicode/utf8.DecodeRuneInString" {
				r, n = utf8.DecodeRuneInString(s0)
			} else {
				r, n = utf8.DecodeLastRuneInString(s0)
			}
			if isCls(r) {
				n = wordLen(string(r))
			}
			return ret(&TupleV{[]Val{runeC(r), intV(n)}})
		}
	}
	if strings.HasPrefix(name, "(*regexp.Regexp).") && len(args) > 0 {
		rx, ok := args[0].(*Sym)
		if !ok || rx.fn != "regexp" || !ok1 {
			return nil, false
		}
		src, ok := constStr(rx.args[0])
		if !ok {
			return nil, false
		}
		re, err := regexp.Compile(src)
		if err != nil {
			return nil, false
		}
		switch strings.TrimPrefix(name, "(*regexp.Regexp).") {
		case "MatchString":
			if b, ok := twiceBool(s1, re.MatchString); ok {
				return ret(boolV(b))
			}
		case "ReplaceAllString", "ReplaceAllLiteralString":
			if s2, ok := cs(2); ok {
				f := re.ReplaceAllString
				if strings.HasSuffix(name, "LiteralString") {
					f = re.ReplaceAllLiteralString
				}
				if s, ok := twice(s1, func(x string) string { return f(x, s2) }); ok {
					return ret(strV(s))
				}
			}
		case "ReplaceAllStringFunc":
			fv, ok := args[2].(*FuncV)
			if !ok {
				return nil, false
			}
			good := true
			s, same := twice(s1, func(x string) string {
				return re.ReplaceAllStringFunc(x, func(m string) string {
					outs := e.exec(fv.fn, []Val{strV(m)}, fv.binds, st)
					if len(outs) == 1 && outs[0].panic == "" {
						if t, ok := constStr(outs[0].ret); ok {
							return t
						}
					}
					good = false
					return m
				})
			})
			if good && same {
				return ret(strV(s))
			}
		}
	}
	return nil, false
}

// hasMember: a class of the word contains a character of the set.
func hasMember(w, set string) bool {
	for _, c := range w {
		if isCls(c) {
			for _, r := range set {
				if clsHas(c, r) {
					return true
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- word enumeration and the quoting specifications

var nameAlphabet = []rune{clsLower, clsUpper, clsDigit, clsPunct, clsSpace, clsCtl, clsULet, clsUDigit, clsUNum, clsUMark, clsUSpace, clsUOther, '_', '`', ' ', '-', '\'', '"', '\\', '\n', '.', '$'}

func wordsUpTo(n int) []string {
	var out []string
	cur := []string{""}
	for k := 1; k <= n; k++ {
		var nx []string
		for _, w := range cur {
			for _, r := range nameAlphabet {
				nx = append(nx, w+string(r))
			}
		}
		out = append(out, nx...)
		cur = nx
	}
	return out
}

func specIdent(w string) bool {
	for i, r := range w {
		switch r {
		case clsLower, clsUpper, clsULet, '_':
		case clsDigit, clsUDigit:
			if i == 0 {
				return false
			}
		default:
			return false
		}
	}
	return w != ""
}

func specDbl(w string) string { return strings.ReplaceAll(w, "`", "``") }
func specBt(w string) string  { return "`" + specDbl(w) + "`" }
func specEsc(w string) string {
	if specIdent(w) {
		return w
	}
	return specBt(w)
}
func specSle(w string) string {
	return strings.NewReplacer(`\`, `\\`, `"`, `\"`, `'`, `\'`).Replace(w)
}
func specLit(w string) string { return "'" + specSle(w) + "'" }

func blank(w string) bool {
	return strings.TrimFunc(w, func(r rune) bool { return unicode.IsSpace(r) || r == clsSpace || r == clsUSpace }) == ""
}

var quoteSpecs = []struct {
	name string
	f    func(string) string
}{{"esc", specEsc}, {"bt", specBt}, {"dbl", specDbl}, {"sle", specSle}, {"lit", specLit}, {"same", func(s string) string { return s }}}

// classify finds the quoting specification a function of one word equals on
// every non-blank word; "" when it equals none.
func classify(f func(string) (string, bool)) string {
	cand := map[string]bool{}
	for _, q := range quoteSpecs {
		cand[q.name] = true
	}
	for _, w := range summaryWords() {
		if blank(w) {
			continue
		}
		r, ok := f(w)
		if !ok {
			return ""
		}
		for _, q := range quoteSpecs {
			if cand[q.name] && q.f(w) != r {
				delete(cand, q.name)
			}
		}
		if len(cand) == 0 {
			return ""
		}
	}
	for _, q := range quoteSpecs {
		if cand[q.name] {
			return q.name
		}
	}
	return ""
}

var sumWords []string
var sumOnce sync.Once

func summaryWords() []string {
	sumOnce.Do(func() {
		sumWords = append(wordsUpTo(2), "a`b", "```", `\\\`, `'"'`, "_"+string(clsDigit)+string(clsLower), string(clsLower)+"-"+string(clsLower), " "+string(clsLower)+" ", string(clsLower)+" "+string(clsLower))
		sumWords[len(sumWords)-8] = string(clsLower) + "`" + string(clsLower)
	})
	return sumWords
}

func sumKey(fn *ssa.Function, args []Val, at int) string {
	key := fn.String()
	for i, a := range args {
		if i != at {
			key += "|" + a.K()
		}
	}
	return key
}

// summary: what a package function from one string to a string does, when it
// is one of the known quotings.
func (e *Eng) summary(fn *ssa.Function, args []Val, at int) string {
	key := sumKey(fn, args, at)
	if r, ok := e.summaries[key]; ok {
		return r
	}
	e.summaries[key] = "" // no summary while it is being computed
	saveU, saveB, saveO := e.undec, e.budget, e.opt
	e.undec, e.opt = map[string]bool{}, &Opts{errored: map[string]bool{}, absent: map[string]bool{}}
	saveE := e.wordEffects
	e.wordEffects = nil
	r := classify(func(w string) (string, bool) { return e.wordCall(fn, args, at, w) })
	e.sumEffects[key], e.wordEffects = e.wordEffects, saveE
	e.undec, e.budget, e.opt = saveU, saveB, saveO
	e.summaries[key] = r
	return r
}

// noteEffects remembers what a summarised function writes outside itself.
func (e *Eng) noteEffects(evs []Event) {
	for _, ev := range evs {
		dup := false
		for _, x := range e.wordEffects {
			dup = dup || x == ev
		}
		if _, ok := effectKinds[ev.kind]; ok && !dup {
			e.wordEffects = append(e.wordEffects, ev)
		}
	}
}

// wordCall interprets a function with a word as its string operand.
func (e *Eng) wordCall(fn *ssa.Function, args []Val, at int, w string) (string, bool) {
	as := append([]Val(nil), args...)
	as[at] = strV(w)
	e.budget = defaultBudget
	outs := e.exec(fn, as, nil, e.newState())
	if len(outs) == 0 || len(e.undec) > 0 {
		return "", false
	}
	res := ""
	for i, o := range outs {
		e.noteEffects(o.st.events)
		s, ok := constStr(o.ret)
		if o.panic != "" || !ok || i > 0 && s != res {
			return "", false
		}
		res = s
	}
	return res, true
}

// predSummary: does a predicate over one string decide "is an identifier"?
func (e *Eng) predSummary(fn *ssa.Function) bool {
	key := "pred " + fn.String()
	if r, ok := e.summaries[key]; ok {
		return r == "ident"
	}
	e.summaries[key] = ""
	saveU, saveB, saveO := e.undec, e.budget, e.opt
	e.undec, e.opt = map[string]bool{}, &Opts{errored: map[string]bool{}, absent: map[string]bool{}}
	good := true
	saveE := e.wordEffects
	e.wordEffects = nil
	for _, w := range summaryWords() {
		e.budget = defaultBudget
		outs := e.exec(fn, []Val{strV(w)}, nil, e.newState())
		for _, o := range outs {
			e.noteEffects(o.st.events)
		}
		if len(outs) != 1 || outs[0].panic != "" || len(e.undec) > 0 {
			good = false
			break
		}
		b, ok := constBool(outs[0].ret)
		if !ok || b != specIdent(w) {
			good = false
			break
		}
	}
	e.sumEffects[key], e.wordEffects = e.wordEffects, saveE
	e.undec, e.budget, e.opt = saveU, saveB, saveO
	if good {
		e.summaries[key] = "ident"
	}
	return good
}

// strLeaf: the single opaque string a term is built from.
func strLeaf(v Val) (*Sym, bool) {
	var leaf *Sym
	ok := true
	var rec func(v Val)
	rec = func(v Val) {
		switch x := v.(type) {
		case *Sym:
			if x.fn == "replacer" || x.fn == "regexp" {
				return
			}
			if x.xfn == nil {
				if !isStringSym(x) || x.fn != "" && x.fn != "opaque" && x.fn != "piece" && x.fn != "slice" || leaf != nil && leaf.name != x.name {
					ok = false
					return
				}
				leaf = x
				return
			}
			for _, a := range x.args {
				rec(a)
			}
		case *Cat:
			for _, p := range x.parts {
				rec(p)
			}
		case Const, *FuncV:
		case *Iface:
			rec(x.v)
		default:
			ok = false
		}
	}
	rec(v)
	return leaf, ok && leaf != nil
}

// evalTerm evaluates a term of library calls with its leaf replaced by a word.
func (e *Eng) evalTerm(v Val, w string, st *State) (Val, bool) {
	switch x := v.(type) {
	case *Sym:
		if x.fn == "replacer" || x.fn == "regexp" {
			return x, true
		}
		if x.xfn == nil {
			return strV(w), true
		}
		var as []Val
		for _, a := range x.args {
			r, ok := e.evalTerm(a, w, st)
			if !ok {
				return nil, false
			}
			as = append(as, r)
		}
		outs := e.external(x.xfn, as, st)
		if len(outs) != 1 || outs[0].panic != "" {
			return nil, false
		}
		return outs[0].ret, true
	case *Cat:
		var ps []Val
		for _, p := range x.parts {
			r, ok := e.evalTerm(p, w, st)
			if !ok {
				return nil, false
			}
			ps = append(ps, r)
		}
		return catV(ps...), true
	}
	return v, true
}

// termKind classifies a term of library calls over one opaque string.
func (e *Eng) termKind(v Val) (kind, leaf string) {
	lf, ok := strLeaf(v)
	if !ok {
		return "", ""
	}
	key := "term " + v.K()
	r, done := e.summaries[key]
	if !done {
		saveU, saveB := e.undec, e.budget
		e.undec = map[string]bool{}
		r = classify(func(w string) (string, bool) {
			e.budget = defaultBudget
			x, ok := e.evalTerm(v, w, e.newState())
			if !ok {
				return "", false
			}
			return constStr(x)
		})
		e.undec, e.budget = saveU, saveB
		e.summaries[key] = r
	}
	return r, lf.name
}

func (e *Eng) repeatEffects(key string, st *State) {
	st.events = append(st.events[:len(st.events):len(st.events)], e.sumEffects[key]...)
}

// quoteCall applies a summary at a call with an opaque string operand.
func (e *Eng) quoteCall(fn *ssa.Function, args []Val, st *State) (Val, bool) {
	sig := fn.Signature
	if sig.Recv() != nil || fn.Parent() != nil || sig.Results().Len() != 1 {
		return nil, false
	}
	b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsString|types.IsBoolean) == 0 {
		return nil, false
	}
	at := -1
	for i, a := range args {
		switch x := a.(type) {
		case Const:
		case *Sym:
			if at >= 0 || !isStringSym(x) || x.fn == "child" {
				return nil, false
			}
			at = i
		default:
			return nil, false
		}
	}
	if at < 0 {
		return nil, false
	}
	leaf := args[at].(*Sym)
	if b.Info()&types.IsBoolean != 0 {
		if len(args) == 1 && e.predSummary(fn) {
			e.repeatEffects("pred "+fn.String(), st)
			return &Sym{name: "ident(" + leaf.name + ")", t: types.Typ[types.Bool], fn: "ident", args: args}, true
		}
		return nil, false
	}
	k := e.summary(fn, args, at)
	switch k {
	case "":
		return nil, false
	case "same":
		e.repeatEffects(sumKey(fn, args, at), st)
		return leaf, true
	}
	e.repeatEffects(sumKey(fn, args, at), st)
	return &Sym{name: k + "(" + leaf.name + ")", t: types.Typ[types.String], fn: "quote:" + k, args: []Val{leaf}, nn: true}, true
}

func clsConst(c Const) (rune, bool) {
	if c.v.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(c.v)
	return rune(n), ok && n >= -1<<31 && n < 1<<31
}

func isNN(v Val) bool {
	s, ok := v.(*Sym)
	return ok && s.nn
}

func pieceName(v Val) string {
	if s, ok := v.(*Sym); ok {
		return s.name
	}
	return v.K()
}
