package main

// Model of the key-value stores: an ordered map from byte strings (possibly containing
// symbolic bytes) to byte strings / serialized messages.

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

type kvEnt struct {
	k  []Value
	ck string // concrete key
	c  bool
	v  []Value
}

type kvStore struct {
	conc map[string]*kvEnt
	sym  []*kvEnt
}

func (p *Path) kvOf(v Value) *kvStore {
	id := p.concInt(v.(*I), "store id")
	s := p.kv[id]
	if s == nil {
		s = &kvStore{conc: map[string]*kvEnt{}}
		p.kv[id] = s
	}
	return s
}

func (p *Path) kvFind(s *kvStore, key []Value) *kvEnt {
	if len(key) == 0 {
		p.panicStr("key is nil or empty")
	}
	ck, ok := concBytes(key)
	if ok {
		if e := s.conc[ck]; e != nil {
			return e
		}
		for _, e := range s.sym {
			if p.Branch(p.bytesEq(e.k, key)) {
				return e
			}
		}
		return nil
	}
	for _, e := range s.sym {
		if p.Branch(p.bytesEq(e.k, key)) {
			return e
		}
	}
	for _, e := range s.sorted() {
		if p.Branch(p.bytesEq(e.k, key)) {
			return e
		}
	}
	return nil
}

func (s *kvStore) sorted() []*kvEnt {
	out := make([]*kvEnt, 0, len(s.conc))
	for _, e := range s.conc {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ck < out[j].ck })
	return out
}

func (p *Path) kvSet(s *kvStore, key, val []Value) {
	if val == nil {
		p.panicStr("value is nil")
	}
	if e := p.kvFind(s, key); e != nil {
		e.v = append([]Value{}, val...)
		return
	}
	e := &kvEnt{k: append([]Value{}, key...), v: append([]Value{}, val...)}
	if ck, ok := concBytes(key); ok {
		e.c, e.ck = true, ck
		s.conc[ck] = e
	} else {
		s.sym = append(s.sym, e)
	}
}

func (p *Path) kvDel(s *kvStore, key []Value) {
	e := p.kvFind(s, key)
	if e == nil {
		return
	}
	if e.c {
		delete(s.conc, e.ck)
		return
	}
	for i, x := range s.sym {
		if x == e {
			s.sym = append(append([]*kvEnt{}, s.sym[:i]...), s.sym[i+1:]...)
			return
		}
	}
}

func (p *Path) kvRange(s *kvStore, start, end []Value, rev bool) []*kvEnt {
	cs, ok1 := concBytes(start)
	ce, ok2 := concBytes(end)
	var sel []*kvEnt
	if ok1 && ok2 {
		for k, e := range s.conc {
			if (start == nil || cs <= k) && (end == nil || k < ce) {
				sel = append(sel, e)
			}
		}
		sort.Slice(sel, func(i, j int) bool { return sel[i].ck < sel[j].ck })
	} else {
		for _, e := range s.sorted() {
			if p.kvIn(e, start, end) {
				sel = append(sel, e)
			}
		}
	}
	for _, e := range s.sym {
		if !p.kvIn(e, start, end) {
			continue
		}
		i := 0
		for i < len(sel) && p.Branch(p.bytesLess(sel[i].k, e.k)) {
			i++
		}
		sel = append(sel[:i], append([]*kvEnt{e}, sel[i:]...)...)
	}
	if rev {
		for i, j := 0, len(sel)-1; i < j; i, j = i+1, j-1 {
			sel[i], sel[j] = sel[j], sel[i]
		}
	}
	return sel
}

func (p *Path) kvIn(e *kvEnt, start, end []Value) bool {
	c := p.c.Bool(true)
	if start != nil {
		c = p.c.And(c, p.c.Not(p.bytesLess(e.k, start)))
	}
	if end != nil {
		c = p.c.And(c, p.bytesLess(e.k, end))
	}
	return p.Branch(c)
}

func init() {
	v := func(n string, f extFn) { exts[vsPkg+"."+n] = f }
	v("KVGet", func(p *Path, fn *ssa.Function, a []Value) Value {
		if e := p.kvFind(p.kvOf(a[0]), a[1].([]Value)); e != nil {
			return e.v
		}
		return []Value(nil)
	})
	v("KVHas", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.c.Bool(p.kvFind(p.kvOf(a[0]), a[1].([]Value)) != nil)
	})
	v("KVSet", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.kvSet(p.kvOf(a[0]), a[1].([]Value), a[2].([]Value))
		return nil
	})
	v("KVDelete", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.kvDel(p.kvOf(a[0]), a[1].([]Value))
		return nil
	})
	v("KVRange", func(p *Path, fn *ssa.Function, a []Value) Value {
		b := a[3].(*B)
		ents := p.kvRange(p.kvOf(a[0]), a[1].([]Value), a[2].([]Value), b.kind == BConst && b.c)
		ks, vals := make([]Value, len(ents)), make([]Value, len(ents))
		for i, e := range ents {
			ks[i] = append([]Value{}, e.k...)
			vals[i] = e.v
		}
		return tuple{ks, vals}
	})
	v("KVSnap", func(p *Path, fn *ssa.Function, a []Value) Value {
		snap := map[int]*kvStore{}
		for id, s := range p.kv {
			n := &kvStore{conc: map[string]*kvEnt{}}
			for k, e := range s.conc {
				x := *e
				n.conc[k] = &x
			}
			for _, e := range s.sym {
				x := *e
				n.sym = append(n.sym, &x)
			}
			snap[id] = n
		}
		p.snaps = append(p.snaps, snap)
		p.evSnaps = append(p.evSnaps, len(p.events))
		return p.intOf(len(p.snaps) - 1)
	})
	v("KVRestore", func(p *Path, fn *ssa.Function, a []Value) Value {
		snap := p.snaps[p.concInt(a[0].(*I), "snap")]
		if n := p.evSnaps[p.concInt(a[0].(*I), "snap")]; n < len(p.events) {
			p.events = p.events[:n]
		}
		p.kv = map[int]*kvStore{}
		for id, s := range snap {
			n := &kvStore{conc: map[string]*kvEnt{}}
			for k, e := range s.conc {
				x := *e
				n.conc[k] = &x
			}
			for _, e := range s.sym {
				x := *e
				n.sym = append(n.sym, &x)
			}
			p.kv[id] = n
		}
		return nil
	})
	v("Thorough", func(p *Path, fn *ssa.Function, a []Value) Value { return p.c.Bool(thorough) })
}

var thorough bool
