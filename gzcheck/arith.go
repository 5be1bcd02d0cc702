package main

// Constructors for machine arithmetic in a canonical form, and substitution.

import (
	"go/types"
	"sort"
)

func isPow2(n int64) (int64, bool) {
	if n <= 0 || n&(n-1) != 0 {
		return 0, false
	}
	k := int64(0)
	for n > 1 {
		n >>= 1
		k++
	}
	return k, true
}

// Wrap converts an exact integer to the machine type t when the range is not known to fit
func Wrap(x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	if x.op == OInt {
		n := x.n
		w := hi - lo + 1
		n = ((n-lo)%w+w)%w + lo
		return Int(n)
	}
	if l, h, ok := x.staticRange(); ok && l >= lo && h <= hi {
		return x
	}
	w := hi - lo + 1
	// drop inner conversions of at least this width, reduce coefficients
	l := toLin(x)
	for changed := true; changed; {
		changed = false
		r := &Lin{c: l.c}
		for i, v := range l.vars {
			if v.op == OWrap {
				if l2, h2, ok := intRange(v.typ); ok && (h2-l2+1)%w == 0 {
					r = lincomb(1, r, l.coefs[i], toLin(v.args[0]))
					changed = true
					continue
				}
			}
			c := l.coefs[i] % w
			if c > w/2 {
				c -= w
			}
			if c < -w/2 {
				c += w
			}
			r = lincomb(1, r, c, toLin(v))
		}
		l = r
	}
	l = l.addc(((l.c%w)+w)%w - l.c)
	x = l.term()
	if x.op == OInt {
		return Wrap(x, t)
	}
	if l, h, ok := x.staticRange(); ok && l >= lo && h <= hi {
		return x
	}
	return mk(Term{op: OWrap, args: []*Term{x}, typ: t.Underlying()})
}

func Mul(a, b *Term) *Term {
	if a.op == OInt {
		return lincomb(a.n, toLin(b), 0, &Lin{}).term()
	}
	if b.op == OInt {
		return lincomb(b.n, toLin(a), 0, &Lin{}).term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: OMul, args: []*Term{a, b}})
}

// DivC is the floor division of a by a positive constant (a must be known non-negative)
func DivC(a *Term, n int64) *Term {
	if n == 1 {
		return a
	}
	if a.op == OInt {
		return Int(floorDiv(a.n, n))
	}
	l := toLin(a)
	// split off the divisible part
	q, r := &Lin{c: floorDiv(l.c, n)}, &Lin{c: l.c - n*floorDiv(l.c, n)}
	all := true
	for i, v := range l.vars {
		if l.coefs[i]%n == 0 {
			q = lincomb(1, q, l.coefs[i]/n, toLin(v))
		} else {
			r = lincomb(1, r, l.coefs[i], toLin(v))
			all = false
		}
	}
	if all {
		return q.term()
	}
	rt := r.term()
	if lo, hi, ok := rt.linRange(); ok && lo >= 0 && hi < n {
		return q.term()
	}
	if rt.op == ODiv {
		return Add(q.term(), mk(Term{op: ODiv, n: rt.n * n, args: rt.args}))
	}
	return Add(q.term(), mk(Term{op: ODiv, n: n, args: []*Term{rt}}))
}

// linRange bounds a linear form from the static ranges of its atoms
func (t *Term) linRange() (lo, hi int64, ok bool) {
	l := toLin(t)
	lo, hi = l.c, l.c
	for i, v := range l.vars {
		vl, vh, ok := v.staticRange()
		if !ok {
			return 0, 0, false
		}
		if c := l.coefs[i]; c > 0 {
			lo, hi = lo+c*vl, hi+c*vh
		} else {
			lo, hi = lo+c*vh, hi+c*vl
		}
	}
	return lo, hi, true
}

func ModC(a *Term, n int64) *Term { return Sub(a, Mul(Int(n), DivC(a, n))) }

// And is a bitwise and of non-negative terms
func And(a, b *Term) *Term {
	if a.op == OInt {
		a, b = b, a
	}
	if b.op == OInt {
		if a.op == OInt {
			return Int(a.n & b.n)
		}
		if b.n == 0 {
			return Int(0)
		}
		if _, hi, ok := a.linRange(); ok {
			m := int64(1)
			for m <= hi {
				m <<= 1
			}
			if b.n&(m-1) == m-1 {
				return a
			}
			b = Int(b.n & (m - 1))
			if b.n == 0 {
				return Int(0)
			}
		}
		if a.op == OAnd && len(a.args) == 1 {
			return And(a.args[0], Int(a.n&b.n))
		}
		// the mask of a byte conversion
		if a.op == OWrap {
			if lo, hi, ok := intRange(a.typ); ok && lo == 0 && b.n == hi {
				return a
			}
		}
		return mk(Term{op: OAnd, n: b.n, args: []*Term{a}})
	}
	if a == b {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: OAnd, n: -1, args: []*Term{a, b}})
}

// lowZeros: number of low bits known to be zero
func lowZeros(t *Term) int64 {
	switch t.op {
	case OInt:
		if t.n == 0 {
			return 62
		}
		k := int64(0)
		for n := t.n; n&1 == 0; n >>= 1 {
			k++
		}
		return k
	case OAnd:
		if len(t.args) == 1 {
			return lowZeros(Int(t.n))
		}
	case OWrap:
		return lowZeros(t.args[0])
	case OLin:
		k := lowZeros(Int(t.n))
		for i, v := range t.args {
			z := lowZeros(Int(t.coefs[i])) + lowZeros(v)
			if z < k {
				k = z
			}
		}
		return k
	}
	return 0
}

// Or of terms; disjoint bit ranges become sums
func Or(a, b *Term, t types.Type) *Term {
	if a.op == OInt && b.op == OInt {
		return Int(a.n | b.n)
	}
	for i := 0; i < 2; i++ {
		if lo, hi, ok := b.linRange(); ok && lo >= 0 {
			if z := lowZeros(a); z >= 62 || hi < 1<<uint(z) {
				if a.op == OWrap {
					return Wrap(Add(a.args[0], b), a.typ)
				}
				return Add(a, b)
			}
		}
		a, b = b, a
	}
	if a.op == OInt {
		a, b = b, a
	}
	return mk(Term{op: OBin, name: "|", args: []*Term{a, b}, typ: t})
}

func Shl(a, k *Term, t types.Type) *Term {
	if k.op == OInt && k.n >= 0 && k.n < 62 {
		return Wrap(Mul(a, Int(1<<uint(k.n))), t)
	}
	return mk(Term{op: OBin, name: "<<", args: []*Term{a, k}, typ: t})
}

func Shr(a, k *Term, t types.Type, nonneg bool) *Term {
	if k.op == OInt && k.n >= 0 && k.n < 62 && nonneg {
		return DivC(a, 1<<uint(k.n))
	}
	return mk(Term{op: OBin, name: ">>", args: []*Term{a, k}, typ: t})
}

// Xor builds a canonical n-ary xor; neighbouring elements of one array become a fold
func Xor(c int64, ts ...*Term) *Term {
	set := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		switch t.op {
		case OInt:
			c ^= t.n
		case OXor:
			c ^= t.n
			for _, a := range t.args {
				add(a)
			}
		default:
			if set[t] {
				delete(set, t)
			} else {
				set[t] = true
			}
		}
	}
	for _, t := range ts {
		add(t)
	}
	for merged := true; merged; {
		merged = false
		var l []*Term
		for t := range set {
			if t.op == OElem || t.op == OFold {
				l = append(l, t)
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	outer:
		for _, x := range l {
			for _, y := range l {
				if x == y || x.args[0] != y.args[0] {
					continue
				}
				xl, xh := foldRange(x)
				yl, yh := foldRange(y)
				switch {
				case xh == yl:
					delete(set, x)
					delete(set, y)
					add(Fold(x.args[0], xl, yh))
				case xl == yl && x.op == OFold && y.op == OFold:
					// common prefix cancels; keep the longer remainder
					d := toLin(Sub(xh, yh))
					if len(d.vars) != 0 || d.c == 0 {
						continue
					}
					delete(set, x)
					delete(set, y)
					if d.c > 0 {
						add(Fold(x.args[0], yh, xh))
					} else {
						add(Fold(x.args[0], xh, yh))
					}
				default:
					continue
				}
				merged = true
				break outer
			}
		}
	}
	var l []*Term
	for t := range set {
		l = append(l, t)
	}
	if len(l) == 0 {
		return Int(c)
	}
	if len(l) == 1 && c == 0 {
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return mk(Term{op: OXor, n: c, args: l, typ: types.Typ[types.Uint8]})
}

func foldRange(t *Term) (*Term, *Term) {
	if t.op == OFold {
		return t.args[1], t.args[2]
	}
	return t.args[1], AddC(t.args[1], 1)
}

// Fold is the xor of the elements lo..hi-1 of an array
func Fold(key, lo, hi *Term) *Term {
	d := toLin(Sub(hi, lo))
	if len(d.vars) == 0 {
		if d.c <= 0 {
			return Int(0)
		}
		if d.c == 1 {
			return mk(Term{op: OElem, args: []*Term{key, lo}, typ: types.Typ[types.Uint8]})
		}
	}
	return mk(Term{op: OFold, args: []*Term{key, lo, hi}, typ: types.Typ[types.Uint8]})
}

// bitOf recognises the test of one bit: value == bit k of x
func bitOf(v *Term) (x, k *Term, ok bool) {
	if v.op == ONot && v.args[0].op == OEq0 {
		t := v.args[0].args[0]
		if t.op == OAnd && len(t.args) == 1 {
			if n, ok := isPow2(t.n); ok {
				x := t.args[0]
				if n == 0 && x.op == ODiv { // (x/2^k)&1
					if kk, ok := isPow2(x.n); ok {
						return x.args[0], Int(kk), true
					}
				}
				if n == 0 && x.op == OBin && x.name == ">>" {
					return x.args[0], x.args[1], true
				}
				return x, Int(n), true
			}
		}
		if t.op == OAnd && len(t.args) == 2 {
			for i := 0; i < 2; i++ {
				m := t.args[i]
				if m.op == OBin && m.name == "<<" && m.args[0].op == OInt && m.args[0].n == 1 {
					return t.args[1-i], m.args[1], true
				}
				if m.op == OWrap && m.args[0].op == OBin && m.args[0].name == "<<" && m.args[0].args[0].op == OInt && m.args[0].args[0].n == 1 {
					return t.args[1-i], m.args[0].args[1], true
				}
			}
		}
	}
	return nil, nil, false
}

// subst rebuilds a term with f applied to its leaves (and whole subterms first)
type substMemo map[*Term]*Term

func subst(t *Term, f func(*Term) *Term, memo substMemo) *Term {
	if t == nil {
		return nil
	}
	if r := f(t); r != nil {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = subst(a, f, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, na)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case OLin:
		l := &Lin{c: t.n}
		for i, a := range na {
			l = lincomb(1, l, t.coefs[i], toLin(a))
		}
		return l.term()
	case OGe0:
		return Ge0(toLin(na[0]))
	case OEq0:
		return Eq0(toLin(na[0]))
	case ONot:
		return Not(na[0])
	case OXor:
		return Xor(t.n, na...)
	case OFold:
		return Fold(na[0], na[1], na[2])
	case OWrap:
		return Wrap(na[0], t.typ)
	case OAnd:
		if len(na) == 1 {
			return And(na[0], Int(t.n))
		}
		return And(na[0], na[1])
	case ODiv:
		return DivC(na[0], t.n)
	case OMul:
		return Mul(na[0], na[1])
	case OArr:
		return arrOf(elemTypeOfArr(t), na)
	case OSlice:
	}
	n := *t
	n.args = na
	n.ax, n.axok = nil, false
	return mk(n)
}

func mentions(t *Term, f func(*Term) bool, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if mentions(a, f, seen) {
			return true
		}
	}
	return false
}
