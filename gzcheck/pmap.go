package main

// Persistent map from int keys to *Term: a treap with hashed priorities, so
// that equal contents have equal shape and forks share structure.

type pnode struct {
	key  int
	pri  uint32
	val  *Term
	l, r *pnode
	size int
}

type pmap struct{ n *pnode }

func pri(k int) uint32 {
	x := uint32(k) * 2654435761
	x ^= x >> 15
	x *= 2246822519
	x ^= x >> 13
	return x
}

func sz(n *pnode) int {
	if n == nil {
		return 0
	}
	return n.size
}

func mkn(k int, p uint32, v *Term, l, r *pnode) *pnode {
	return &pnode{k, p, v, l, r, 1 + sz(l) + sz(r)}
}

func (m pmap) get(k int) (*Term, bool) {
	n := m.n
	for n != nil {
		switch {
		case k < n.key:
			n = n.l
		case k > n.key:
			n = n.r
		default:
			return n.val, true
		}
	}
	return nil, false
}

func pset(n *pnode, k int, p uint32, v *Term) *pnode {
	if n == nil {
		return mkn(k, p, v, nil, nil)
	}
	switch {
	case k == n.key:
		if n.val == v {
			return n
		}
		return mkn(k, n.pri, v, n.l, n.r)
	case k < n.key:
		l := pset(n.l, k, p, v)
		if l == n.l {
			return n
		}
		if l.pri > n.pri || l.pri == n.pri && l.key < n.key {
			return mkn(l.key, l.pri, l.val, l.l, mkn(n.key, n.pri, n.val, l.r, n.r))
		}
		return mkn(n.key, n.pri, n.val, l, n.r)
	default:
		r := pset(n.r, k, p, v)
		if r == n.r {
			return n
		}
		if r.pri > n.pri || r.pri == n.pri && r.key < n.key {
			return mkn(r.key, r.pri, r.val, mkn(n.key, n.pri, n.val, n.l, r.l), r.r)
		}
		return mkn(n.key, n.pri, n.val, n.l, r)
	}
}

func (m pmap) set(k int, v *Term) pmap { return pmap{pset(m.n, k, pri(k), v)} }

func pmerge(a, b *pnode) *pnode {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.pri > b.pri || a.pri == b.pri && a.key < b.key {
		return mkn(a.key, a.pri, a.val, a.l, pmerge(a.r, b))
	}
	return mkn(b.key, b.pri, b.val, pmerge(a, b.l), b.r)
}

func pdel(n *pnode, k int) *pnode {
	if n == nil {
		return nil
	}
	switch {
	case k < n.key:
		l := pdel(n.l, k)
		if l == n.l {
			return n
		}
		return mkn(n.key, n.pri, n.val, l, n.r)
	case k > n.key:
		r := pdel(n.r, k)
		if r == n.r {
			return n
		}
		return mkn(n.key, n.pri, n.val, n.l, r)
	}
	return pmerge(n.l, n.r)
}

func (m pmap) del(k int) pmap { return pmap{pdel(m.n, k)} }

func (m pmap) each(f func(k int, v *Term)) {
	var w func(n *pnode)
	w = func(n *pnode) {
		if n == nil {
			return
		}
		w(n.l)
		f(n.key, n.val)
		w(n.r)
	}
	w(m.n)
}

func (m pmap) len() int { return sz(m.n) }
