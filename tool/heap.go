package main

import "math/bits"

// A persistent heap: objects by number, in small chunks that states share
// until one of them writes.

const chunkBits = 4
const chunkLen = 1 << chunkBits

type owner struct{ _ int64 }

type chunk struct {
	own *owner
	has uint32
	obj [chunkLen]Obj
}

func (s *State) get(id int) (Obj, bool) {
	i := id >> chunkBits
	if id < 0 || i >= len(s.chunks) {
		return Obj{}, false
	}
	c := s.chunks[i]
	if c == nil || c.has&(1<<(id&(chunkLen-1))) == 0 {
		return Obj{}, false
	}
	return c.obj[id&(chunkLen-1)], true
}

func (s *State) token() *owner {
	me := s.me.Load()
	if me == nil {
		me = new(owner)
		s.me.Store(me)
	}
	return me
}

// become makes the state the other one.
func (s *State) become(t *State) {
	t.me.Store(nil)
	s.me.Store(nil)
	s.chunks = append(make([]*chunk, 0, len(t.chunks)), t.chunks...)
	s.facts, s.next, s.events = t.facts, t.next, t.events[:len(t.events):len(t.events)]
}

// ownFacts makes the facts writable.
func (s *State) ownFacts() {
	me := s.token()
	if s.fown == me {
		return
	}
	m := make(map[string]bool, len(s.facts)+2)
	for k, v := range s.facts {
		m[k] = v
	}
	s.facts, s.fown = m, me
}

func (s *State) setFact(k string, v bool) {
	s.ownFacts()
	s.facts[k] = v
}

func (s *State) dropFact(k string) {
	s.ownFacts()
	delete(s.facts, k)
}

// own returns the chunk of the object, for writing.
func (s *State) own(id int) *chunk {
	i := id >> chunkBits
	for i >= len(s.chunks) {
		s.chunks = append(s.chunks, nil)
	}
	me := s.token()
	c := s.chunks[i]
	switch {
	case c == nil:
		c = &chunk{own: me}
	case c.own != me:
		n := *c
		n.own = me
		c = &n
	default:
		return c
	}
	s.chunks[i] = c
	return c
}

func (s *State) put(id int, o Obj) {
	c := s.own(id)
	k := id & (chunkLen - 1)
	c.obj[k] = o
	c.has |= 1 << k
}

func (s *State) drop(id int) {
	if _, ok := s.get(id); !ok {
		return
	}
	c := s.own(id)
	k := id & (chunkLen - 1)
	c.obj[k] = Obj{}
	c.has &^= 1 << k
	if c.has == 0 {
		s.chunks[id>>chunkBits] = nil
	}
}

// each calls f for every object, in order; f may write.
func (s *State) each(f func(id int, o Obj)) {
	for i := range s.chunks {
		c := s.chunks[i]
		if c == nil {
			continue
		}
		for h := c.has; h != 0; h &= h - 1 {
			k := bits.TrailingZeros32(h)
			f(i<<chunkBits|k, c.obj[k])
		}
	}
}

// same tells whether the object is in a chunk that both states still share.
func (s *State) same(t *State, id int) bool {
	i := id >> chunkBits
	return i < len(s.chunks) && i < len(t.chunks) && s.chunks[i] == t.chunks[i]
}
