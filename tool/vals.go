package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. K is its canonical form: two values with the same
// K are the same element of the abstract domain.
type Val interface{ K() string }

type Const struct {
	v constant.Value
	t types.Type
}

func (c Const) K() string { return c.v.ExactString() }

type NilV struct{}

func (NilV) K() string { return "nil" }

// Sym is an opaque value known only by where it comes from.
// nn: known non-nil (reference types) or non-empty (strings).
type Sym struct {
	name string
	t    types.Type
	nn   bool
	fn   string // name of the uninterpreted operation that produced it, "" for inputs
	args []Val
	xfn  *ssa.Function // the library function, for terms that can be re-evaluated
}

func (s *Sym) K() string { return s.name }

// Cat is the concatenation of string parts (Const or Sym).
type Cat struct{ parts []Val }

func (c *Cat) K() string {
	var b strings.Builder
	b.WriteString("cat(")
	for i, p := range c.parts {
		if i > 0 {
			b.WriteString("+")
		}
		b.WriteString(p.K())
	}
	b.WriteString(")")
	return b.String()
}

type StructV struct {
	t types.Type
	f []Val
	k string
}

func (s *StructV) K() string {
	if s.k == "" {
		var b strings.Builder
		b.WriteString(shortType(s.t) + "{")
		for i, p := range s.f {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(p.K())
		}
		b.WriteString("}")
		s.k = b.String()
	}
	return s.k
}

type ArrV struct {
	elems []Val
	k     string
}

func (s *ArrV) K() string {
	if s.k == "" {
		var b strings.Builder
		b.WriteString("[")
		for i, p := range s.elems {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(p.K())
		}
		b.WriteString("]")
		s.k = b.String()
	}
	return s.k
}

type Iface struct {
	dyn types.Type
	v   Val
}

func (i *Iface) K() string { return "i<" + shortType(i.dyn) + ">" + i.v.K() }

type Ptr struct {
	obj  int
	path []int
}

func (p *Ptr) K() string { return fmt.Sprintf("&%d%v", p.obj, p.path) }

type SliceV struct {
	obj  int
	path []int
	lo   int
	n    int
	cap  int // -1 unknown
}

func (s *SliceV) K() string { return fmt.Sprintf("s%d%v[%d+%d/%d]", s.obj, s.path, s.lo, s.n, s.cap) }

type MapV struct{ obj int }

func (m *MapV) K() string { return fmt.Sprintf("m%d", m.obj) }

type kv struct{ k, v Val }

type MapC struct {
	ents []kv
	open string // name of an input map whose other entries are unknown
	vt   types.Type
}

func (m *MapC) K() string {
	var ss []string
	for _, e := range m.ents {
		ss = append(ss, e.k.K()+":"+e.v.K())
	}
	sort.Strings(ss)
	return "map{" + strings.Join(ss, ",") + ";" + m.open + "}"
}

type FuncV struct {
	fn    *ssa.Function
	binds []Val
}

func (f *FuncV) K() string {
	s := "fn:" + f.fn.String()
	for _, b := range f.binds {
		s += "," + b.K()
	}
	return s
}

type TupleV struct{ vs []Val }

func (t *TupleV) K() string {
	s := "("
	for _, v := range t.vs {
		s += v.K() + ";"
	}
	return s + ")"
}

type iterV struct {
	over Val
	pos  int
	keys []kv
	str  bool
}

func (i *iterV) K() string { return fmt.Sprintf("it(%s@%d)", i.over.K(), i.pos) }

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return "" })
}

var trueV = Const{constant.MakeBool(true), types.Typ[types.Bool]}
var falseV = Const{constant.MakeBool(false), types.Typ[types.Bool]}

func boolV(b bool) Val {
	if b {
		return trueV
	}
	return falseV
}
func strV(s string) Val { return Const{constant.MakeString(s), types.Typ[types.String]} }
func intV(i int) Val    { return Const{constant.MakeInt64(int64(i)), types.Typ[types.Int]} }

func constBool(v Val) (bool, bool) {
	if c, ok := v.(Const); ok && c.v.Kind() == constant.Bool {
		return constant.BoolVal(c.v), true
	}
	return false, false
}
func constInt(v Val) (int, bool) {
	if c, ok := v.(Const); ok && c.v.Kind() == constant.Int {
		i, ex := constant.Int64Val(c.v)
		return int(i), ex
	}
	return 0, false
}
func constStr(v Val) (string, bool) {
	if c, ok := v.(Const); ok && c.v.Kind() == constant.String {
		return constant.StringVal(c.v), true
	}
	return "", false
}

// catV builds a normalised concatenation.
func catV(parts ...Val) Val {
	var out []Val
	add := func(p Val) {
		if s, ok := constStr(p); ok {
			if s == "" {
				return
			}
			if len(out) > 0 {
				if l, ok := constStr(out[len(out)-1]); ok {
					out[len(out)-1] = strV(l + s)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		if c, ok := p.(*Cat); ok {
			for _, q := range c.parts {
				add(q)
			}
		} else {
			add(p)
		}
	}
	if len(out) == 0 {
		return strV("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return &Cat{out}
}

func catParts(v Val) []Val {
	switch v := v.(type) {
	case *Cat:
		return v.parts
	case Const:
		if s, ok := constStr(v); ok && s == "" {
			return nil
		}
	}
	return []Val{v}
}

// Obj is one abstract heap cell.
type Obj struct {
	v    Val
	pre  bool // existed before the analysed call (reachable from its inputs or global)
	name string
}

type Event struct {
	kind string
	msg  string
	pos  string
	fn   string
}

// State is one disjunct of the abstract state.
type State struct {
	chunks []*chunk
	me     atomic.Pointer[owner] // writes to chunks it owns, copies others
	facts  map[string]bool       // written through setFact and dropFact
	fown   *owner
	next   int
	events []Event
}

func (s *State) clone() *State {
	s.me.Store(nil)
	return &State{chunks: append(make([]*chunk, 0, len(s.chunks)+2), s.chunks...), facts: s.facts, next: s.next, events: s.events[:len(s.events):len(s.events)]}
}

func (s *State) heapKey() string {
	var b strings.Builder
	s.each(func(id int, o Obj) {
		fmt.Fprintf(&b, "%d=%s;", id, o.v.K())
	})
	for _, e := range s.events {
		b.WriteString(e.kind + e.msg + e.pos + ";")
	}
	return b.String()
}
