package main

import "strings"

// prune drops what a state knows about values nothing refers to any more
func (e *Eng) prune(s *State) {
	reach := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || reach[t] {
			return
		}
		reach[t] = true
		for _, a := range t.args {
			visit(a)
		}
	}
	for fr := s.fr; fr != nil; fr = fr.parent {
		fr.env.each(func(_ int, v *Term) { visit(v) })
		for _, d := range fr.defers {
			visit(d.fn)
			for _, a := range d.args {
				visit(a)
			}
		}
	}
	for _, l := range s.locks {
		visit(l.mu)
		visit(l.owner)
	}
	for k, v := range s.extra {
		if !strings.HasPrefix(k, "mapval") && !strings.HasPrefix(k, "mapkey") && !strings.HasPrefix(k, "chancap") {
			visit(v)
		}
	}
	visit(s.ret)
	fresh := func(t *Term) bool {
		return t.op == OAlloc || t.op == OSym && strings.Contains(t.name, "#") || t.op == OLoad && t.n != e.epochOf(s, t.args[0])
	}
	type ent struct {
		l, v *Term
		id   int
	}
	var pend []ent
	s.heap.each(func(id int, v *Term) {
		l := termByID[id]
		if l == nil {
			return
		}
		if r := root(l); !fresh(r) {
			visit(l)
			visit(v)
		} else {
			pend = append(pend, ent{l, v, id})
		}
	})
	for ch := true; ch; {
		ch = false
		var rest []ent
		for _, p := range pend {
			if reach[root(p.l)] {
				visit(p.l)
				visit(p.v)
				ch = true
			} else {
				rest = append(rest, p)
			}
		}
		pend = rest
	}
	h := s.heap
	for _, p := range pend {
		h = h.del(p.id)
	}
	s.heap = h
	memo := map[*Term]bool{}
	var dead func(t *Term) bool
	dead = func(t *Term) bool {
		if reach[t] {
			return false
		}
		if d, ok := memo[t]; ok {
			return d
		}
		d := fresh(t) || t.op == OLoad && t.n != e.epochOf(s, t.args[0]) || t.op == OCall && t.n != 0
		for _, a := range t.args {
			if d {
				break
			}
			d = dead(a)
		}
		memo[t] = d
		return d
	}
	f := s.facts
	keep := func(ls []*Lin) []*Lin {
		var out []*Lin
		for _, l := range ls {
			ok := true
			for _, v := range l.vars {
				ok = ok && !dead(v)
			}
			if ok {
				out = append(out, l)
			}
		}
		return out
	}
	if n := keep(f.lins); len(n) != len(f.lins) {
		f.lins = n
		f.keys = map[string]bool{}
		for _, l := range n {
			f.keys[l.key()] = true
		}
	}
	f.ne = keep(f.ne)
	pm := func(p pmap) pmap {
		var del []int
		p.each(func(id int, _ *Term) {
			if t := termByID[id]; t != nil && dead(t) {
				del = append(del, id)
			}
		})
		for _, id := range del {
			p = p.del(id)
		}
		return p
	}
	f.nils, f.bl, f.dyn = pm(f.nils), pm(f.bl), pm(f.dyn)
	s.escaped, s.epochs = pm(s.escaped), pm(s.epochs)
	if len(s.extra) > 0 {
		ex := map[string]*Term{}
		for k, v := range s.extra {
			if (strings.HasPrefix(k, "mapval") || strings.HasPrefix(k, "mapkey")) && dead(v) {
				continue
			}
			ex[k] = v
		}
		s.extra = ex
	}
}
