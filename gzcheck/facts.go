package main

// Facts: the relational part of an abstract state. Linear inequalities with
// integer tightening (entailment by Fourier-Motzkin projection), disequalities,
// nilness, dynamic types, boolean atoms and float intervals.

import (
	"go/types"
	"math"
	"sort"
	"strings"
)

type FRange struct {
	lo, hi   float64
	loS, hiS bool // strict
	maybeNaN bool
}

var fTop = FRange{math.Inf(-1), math.Inf(1), false, false, true}

type Facts struct {
	lins []*Lin
	ne   []*Lin
	nils pmap // term -> tTrue (is nil) / tFalse (not nil)
	bl   pmap // boolean atom -> tTrue / tFalse
	dyn  pmap // interface term -> type term
	nd   map[int][]types.Type
	fl   map[int]FRange
	keys map[string]bool // keys of lins (shared, copy on write)
}

func typeTerm(t types.Type) *Term { return mk(Term{op: OSym, name: "type", typ: t}) }

var termByID = map[int]*Term{}

func (f *Facts) clone() *Facts { g := *f; return &g }

func (f *Facts) has(l *Lin) bool { return f.keys[l.key()] }

func (f *Facts) addRaw(l *Lin) {
	l = l.norm()
	k := l.key()
	if f.keys[k] {
		return
	}
	n := make([]*Lin, len(f.lins), len(f.lins)+1)
	copy(n, f.lins)
	f.lins = append(n, l)
	nk := make(map[string]bool, len(f.keys)+1)
	for x := range f.keys {
		nk[x] = true
	}
	nk[k] = true
	f.keys = nk
}

// cone returns the constraints connected to the variables of l
func (f *Facts) cone(l *Lin) []*Lin {
	in := map[*Term]bool{}
	var queue []*Term
	push := func(t *Term) {
		if !in[t] {
			in[t] = true
			queue = append(queue, t)
		}
	}
	for _, v := range l.vars {
		push(v)
	}
	var out []*Lin
	used := make([]bool, len(f.lins))
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		for _, a := range t.axioms() {
			out = append(out, a)
			for _, v := range a.vars {
				push(v)
			}
		}
		for i, c := range f.lins {
			if used[i] || c.coef(t) == 0 {
				continue
			}
			used[i] = true
			out = append(out, c)
			for _, v := range c.vars {
				push(v)
			}
		}
	}
	return out
}

// bound computes quick interval bounds of a variable
func (f *Facts) varBounds(t *Term) (lo, hi int64, hasLo, hasHi bool) {
	upd := func(l *Lin) {
		if len(l.vars) != 1 || l.vars[0] != t {
			return
		}
		c := l.coefs[0]
		if c > 0 { // c*t + k >= 0  -> t >= ceil(-k/c)
			v := -floorDiv(l.c, c)
			if !hasLo || v > lo {
				lo, hasLo = v, true
			}
		} else {
			v := floorDiv(l.c, -c)
			if !hasHi || v < hi {
				hi, hasHi = v, true
			}
		}
	}
	for _, a := range t.axioms() {
		upd(a)
	}
	for _, l := range f.lins {
		upd(l)
	}
	return
}

func (f *Facts) quickLow(l *Lin) (int64, bool) {
	r := l.c
	for i, v := range l.vars {
		lo, hi, hl, hh := f.varBounds(v)
		c := l.coefs[i]
		if c > 0 {
			if !hl {
				return 0, false
			}
			r += c * lo
		} else {
			if !hh {
				return 0, false
			}
			r += c * hi
		}
	}
	return r, true
}

var statEntail, statFM int

// entails reports whether the facts imply l >= 0
func (f *Facts) entails(l *Lin) bool {
	statEntail++
	if len(l.vars) == 0 {
		return l.c >= 0
	}
	l = l.norm()
	if f.keys[l.key()] {
		return true
	}
	if lo, ok := f.quickLow(l); ok && lo >= 0 {
		return true
	}
	neg := l.neg().addc(-1)
	return infeasible(append(f.cone(l), neg))
}

func (f *Facts) entailsEq(l *Lin) bool { return f.entails(l) && f.entails(l.neg()) }

// equalInt reports whether a == b is implied
func (f *Facts) equalInt(a, b *Term) bool {
	if a == b {
		return true
	}
	return f.entailsEq(toLin(Sub(a, b)))
}

func (f *Facts) feasibleWith(l *Lin) bool {
	if len(l.vars) == 0 {
		return l.c >= 0
	}
	return !infeasible(append(f.cone(l), l))
}

// addGe adds l >= 0; false if contradictory
func (f *Facts) addGe(l *Lin) bool {
	if len(l.vars) == 0 {
		return l.c >= 0
	}
	l = l.norm()
	if f.keys[l.key()] {
		return true
	}
	if !f.feasibleWith(l) {
		return false
	}
	f.addRaw(l)
	return f.tighten(l)
}

func (f *Facts) addEq(l *Lin) bool { return f.addGe(l) && f.addGe(l.neg()) }

// tighten re-examines disequalities sharing a variable with l
func (f *Facts) tighten(l *Lin) bool {
	for i := 0; i < len(f.ne); i++ {
		n := f.ne[i]
		shared := false
		for _, v := range n.vars {
			if l.coef(v) != 0 {
				shared = true
			}
		}
		if !shared {
			continue
		}
		ge, le := f.entails(n), f.entails(n.neg())
		if ge && le {
			return false
		}
		if ge || le {
			ne := append([]*Lin{}, f.ne[:i]...)
			f.ne = append(ne, f.ne[i+1:]...)
			var ok bool
			if ge {
				ok = f.addGe(n.addc(-1))
			} else {
				ok = f.addGe(n.neg().addc(-1))
			}
			return ok
		}
	}
	return true
}

func (f *Facts) addNe(l *Lin) bool {
	if len(l.vars) == 0 {
		return l.c != 0
	}
	ge, le := f.entails(l), f.entails(l.neg())
	if ge && le {
		return false
	}
	if ge {
		return f.addGe(l.addc(-1))
	}
	if le {
		return f.addGe(l.neg().addc(-1))
	}
	// a constant disequality that cannot hold anyway
	for _, n := range f.ne {
		if n.key() == l.key() {
			return true
		}
	}
	f.ne = append(append([]*Lin{}, f.ne...), l)
	return true
}

// constOf returns the constant value of an int term if determined
func (f *Facts) constOf(t *Term) (int64, bool) {
	if t.op == OInt {
		return t.n, true
	}
	l := toLin(t)
	lo, ok := f.quickLow(l)
	if !ok {
		// try equalities
		for _, c := range f.lins {
			if len(c.vars) > len(l.vars)+2 {
				continue
			}
		}
		return 0, false
	}
	nlo, ok2 := f.quickLow(l.neg())
	if ok2 && -nlo == lo {
		return lo, true
	}
	return 0, false
}

// ---- Fourier-Motzkin ----

const fmLimit = 600

func infeasible(cs []*Lin) bool {
	statFM++
	if outOfBudget.Load() {
		return false
	}
	// dedupe
	seen := map[string]*Lin{}
	add := func(list []*Lin, l *Lin) ([]*Lin, bool) {
		l = l.norm()
		if len(l.vars) == 0 {
			return list, l.c < 0
		}
		vk := (&Lin{vars: l.vars, coefs: l.coefs}).key()
		if o, ok := seen[vk]; ok {
			if l.c < o.c {
				o2 := *l
				seen[vk] = &o2
				for i := range list {
					if list[i] == o {
						list[i] = &o2
						break
					}
				}
			}
			return list, false
		}
		c := *l
		seen[vk] = &c
		return append(list, &c), false
	}
	var list []*Lin
	var bad bool
	for _, c := range cs {
		if list, bad = add(list, c); bad {
			return true
		}
	}
	for round := 0; round < 200; round++ {
		if len(list) == 0 {
			return false
		}
		// equality substitution: l >= 0 and -l >= 0 with a unit coefficient
		eq := -1
		unit := -1
		for i, l := range list {
			nk := (&Lin{vars: l.vars, coefs: negs(l.coefs)}).key()
			if o, ok := seen[nk]; ok {
				if o.c < -l.c {
					return true
				}
				if o.c == -l.c {
					for j, c := range l.coefs {
						if c == 1 || c == -1 {
							eq, unit = i, j
							break
						}
					}
				}
			}
			if eq >= 0 {
				break
			}
		}
		if eq >= 0 {
			l := list[eq]
			v := l.vars[unit]
			// v = rest
			var rest *Lin
			rl := &Lin{c: l.c}
			for j := range l.vars {
				if j != unit {
					rl.vars = append(rl.vars, l.vars[j])
					rl.coefs = append(rl.coefs, l.coefs[j])
				}
			}
			if l.coefs[unit] == 1 {
				rest = rl.neg()
			} else {
				rest = rl
			}
			old := list
			list = nil
			seen = map[string]*Lin{}
			for _, c := range old {
				k := c.coef(v)
				if k != 0 {
					without := &Lin{c: c.c}
					for j := range c.vars {
						if c.vars[j] != v {
							without.vars = append(without.vars, c.vars[j])
							without.coefs = append(without.coefs, c.coefs[j])
						}
					}
					c = lincomb(1, without, k, rest)
				}
				if list, bad = add(list, c); bad {
					return true
				}
			}
			continue
		}
		// choose variable with the fewest combinations
		cnt := map[*Term][2]int{}
		for _, l := range list {
			for j, v := range l.vars {
				c := cnt[v]
				if l.coefs[j] > 0 {
					c[0]++
				} else {
					c[1]++
				}
				cnt[v] = c
			}
		}
		if len(cnt) == 0 {
			return false
		}
		var best *Term
		bc := 1 << 30
		for v, c := range cnt {
			k := c[0]*c[1] - c[0] - c[1]
			if k < bc || k == bc && v.id < best.id {
				best, bc = v, k
			}
		}
		var pos, neg, rest []*Lin
		for _, l := range list {
			switch c := l.coef(best); {
			case c > 0:
				pos = append(pos, l)
			case c < 0:
				neg = append(neg, l)
			default:
				rest = append(rest, l)
			}
		}
		seen = map[string]*Lin{}
		list = nil
		for _, l := range rest {
			if list, bad = add(list, l); bad {
				return true
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				cp, cn := p.coef(best), -n.coef(best)
				g := gcd(cp, cn)
				c := lincomb(cn/g, p, cp/g, n)
				if big(c) {
					continue
				}
				if list, bad = add(list, c); bad {
					return true
				}
				if len(list) > fmLimit {
					return false
				}
			}
		}
	}
	return false
}

func big(l *Lin) bool {
	for _, c := range l.coefs {
		if c > 1<<40 || c < -(1<<40) {
			return true
		}
	}
	return l.c > 1<<60 || l.c < -(1<<60)
}

func negs(c []int64) []int64 {
	r := make([]int64, len(c))
	for i := range c {
		r[i] = -c[i]
	}
	return r
}

// ---- boolean terms ----

// assume adds the boolean term with the given truth; false if contradictory
func (f *Facts) assume(b *Term, truth bool) bool {
	switch b.op {
	case OConst:
		return (b == tTrue) == truth
	case ONot:
		return f.assume(b.args[0], !truth)
	case OGe0:
		l := toLin(b.args[0])
		if !truth {
			l = l.neg().addc(-1)
		}
		return f.addGe(l)
	case OEq0:
		l := toLin(b.args[0])
		if truth {
			return f.addEq(l)
		}
		return f.addNe(l)
	case OIsNil:
		v := b.args[0]
		switch f.nilness(v) {
		case 1:
			return truth
		case 2:
			return !truth
		}
		if v.op == OSlice {
			if truth {
				if !f.addEq(toLin(v.args[2])) {
					return false
				}
			}
			f.bl = f.bl.set(b.id, Bool(truth))
			termByID[b.id] = b
			return true
		}
		termByID[v.id] = v
		f.nils = f.nils.set(v.id, Bool(truth))
		return true
	case OFCmp:
		return f.assumeF(b, truth)
	case OEq:
		if r := f.evalEq(b.args[0], b.args[1]); r != 0 {
			return (r == 1) == truth
		}
	}
	if v, ok := f.bl.get(b.id); ok {
		return (v == tTrue) == truth
	}
	termByID[b.id] = b
	f.bl = f.bl.set(b.id, Bool(truth))
	if b.op == OEq && truth {
		// equal strings/values: propagate constants
		a, c := b.args[0], b.args[1]
		if c.op == OConst {
			for _, other := range f.eqConsts(a) {
				if other != c {
					return false
				}
			}
		}
	}
	return true
}

// eqConsts lists constants the term is known to equal
func (f *Facts) eqConsts(a *Term) []*Term {
	var r []*Term
	f.bl.each(func(id int, v *Term) {
		b := termByID[id]
		if b != nil && b.op == OEq && v == tTrue {
			if b.args[0] == a && b.args[1].op == OConst {
				r = append(r, b.args[1])
			}
			if b.args[1] == a && b.args[0].op == OConst {
				r = append(r, b.args[0])
			}
		}
	})
	return r
}

// evalEq: 1 equal, 2 different, 0 unknown
func (f *Facts) evalEq(a, b *Term) int {
	if a == b {
		return 1
	}
	if a.op == OConst && b.op == OConst {
		return 2
	}
	if a.op == OAlloc && b.op == OAlloc || a.op == OGlobal && b.op == OGlobal {
		return 2
	}
	if b.op == OConst {
		for _, c := range f.eqConsts(a) {
			if c == b {
				return 1
			}
			return 2
		}
	}
	if a.op == OConst {
		return f.evalEqSwap(b, a)
	}
	return 0
}
func (f *Facts) evalEqSwap(a, b *Term) int { return f.evalEq(a, b) }

// evalBool: 1 true, 2 false, 0 unknown
func (f *Facts) evalBool(b *Term) int {
	switch b.op {
	case OConst:
		if b == tTrue {
			return 1
		}
		return 2
	case ONot:
		switch f.evalBool(b.args[0]) {
		case 1:
			return 2
		case 2:
			return 1
		}
		return 0
	case OGe0:
		l := toLin(b.args[0])
		if f.entails(l) {
			return 1
		}
		if f.entails(l.neg().addc(-1)) {
			return 2
		}
		return 0
	case OEq0:
		l := toLin(b.args[0])
		ge, le := f.entails(l), f.entails(l.neg())
		if ge && le {
			return 1
		}
		if ge && f.entails(l.addc(-1)) || le && f.entails(l.neg().addc(-1)) {
			return 2
		}
		k, nk := l.key(), l.neg().key()
		for _, n := range f.ne {
			if n.key() == k || n.key() == nk {
				return 2
			}
		}
		return 0
	case OIsNil:
		switch f.nilness(b.args[0]) {
		case 1:
			return 1
		case 2:
			return 2
		}
		return f.blOf(b)
	case OFCmp:
		return f.evalF(b)
	case OEq:
		if r := f.evalEq(b.args[0], b.args[1]); r != 0 {
			return r
		}
	}
	return f.blOf(b)
}

func (f *Facts) blOf(b *Term) int {
	if v, ok := f.bl.get(b.id); ok {
		if v == tTrue {
			return 1
		}
		return 2
	}
	return 0
}

// nilness: 1 nil, 2 not nil, 0 unknown
func (f *Facts) nilness(v *Term) int {
	switch v.op {
	case ONil:
		return 1
	case OAlloc, OGlobal, OField, OElemAt, OFunc, OBound, OIface, OInt, OConst:
		return 2
	case OSlice:
		if f.entails(toLin(v.args[2]).addc(-1)) {
			return 2
		}
		if f.entails(toLin(v.args[3]).addc(-1)) {
			return 2
		}
		if root(v.args[0]).op == OAlloc {
			return 2
		}
		return f.blOf(IsNilT(v))
	}
	if x, ok := f.nils.get(v.id); ok {
		if x == tTrue {
			return 1
		}
		return 2
	}
	if _, ok := f.dyn.get(v.id); ok {
		return 2
	}
	return 0
}

// ---- floats ----

func constF(t *Term) (float64, bool) {
	if t.op == OConst && t.k != nil {
		return constFloat(t)
	}
	return 0, false
}

func (f *Facts) frange(t *Term) FRange {
	if c, ok := constF(t); ok {
		return FRange{c, c, false, false, c != c}
	}
	r := fTop
	switch t.op {
	case OFConv:
		r.maybeNaN = false
		l := toLin(t.args[0])
		if lo, ok := f.quickLow(l); ok {
			r.lo = float64(lo)
		}
		if nh, ok := f.quickLow(l.neg()); ok {
			r.hi = float64(-nh)
		}
	case OCall:
		if t.name == "math.Min" || t.name == "math.Max" {
			a, b := f.frange(t.args[0]), f.frange(t.args[1])
			r.maybeNaN = a.maybeNaN || b.maybeNaN
			if t.name == "math.Min" {
				r.lo, r.hi = math.Min(a.lo, b.lo), math.Min(a.hi, b.hi)
			} else {
				r.lo, r.hi = math.Max(a.lo, b.lo), math.Max(a.hi, b.hi)
			}
		}
	}
	if x, ok := f.fl[t.id]; ok {
		r = meetF(r, x)
	}
	return r
}

func meetF(a, b FRange) FRange {
	if b.lo > a.lo || b.lo == a.lo && b.loS {
		a.lo, a.loS = b.lo, b.loS
	}
	if b.hi < a.hi || b.hi == a.hi && b.hiS {
		a.hi, a.hiS = b.hi, b.hiS
	}
	a.maybeNaN = a.maybeNaN && b.maybeNaN
	return a
}

func (r FRange) empty() bool {
	return !r.maybeNaN && (r.lo > r.hi || r.lo == r.hi && (r.loS || r.hiS))
}
func (r FRange) noNum() bool { return r.lo > r.hi || r.lo == r.hi && (r.loS || r.hiS) }

// OFCmp names: "<", "<=", "==" ; args a,b
func (f *Facts) evalF(b *Term) int {
	if v := f.blOf(b); v != 0 {
		return v
	}
	x, y := f.frange(b.args[0]), f.frange(b.args[1])
	nan := x.maybeNaN || y.maybeNaN
	if b.args[0] == b.args[1] {
		switch {
		case b.name == "<":
			return 2
		case !nan:
			return 1
		case x.noNum():
			return 2
		}
		return 0
	}
	var must, cannot bool
	switch b.name {
	case "<":
		must = x.hi < y.lo || x.hi == y.lo && (x.hiS || y.loS)
		cannot = x.lo >= y.hi
	case "<=":
		must = x.hi <= y.lo
		cannot = x.lo > y.hi || x.lo == y.hi && (x.loS || y.hiS)
	case "==":
		must = x.lo == x.hi && y.lo == y.hi && x.lo == y.lo && !x.loS && !x.hiS && !y.loS && !y.hiS
		cannot = x.hi < y.lo || y.hi < x.lo || x.hi == y.lo && (x.hiS || y.loS) || y.hi == x.lo && (y.hiS || x.loS)
	}
	if cannot {
		return 2
	}
	if must && !nan {
		return 1
	}
	return 0
}

func (f *Facts) setF(t *Term, r FRange) {
	if _, ok := constF(t); ok {
		return
	}
	n := make(map[int]FRange, len(f.fl)+1)
	for k, v := range f.fl {
		n[k] = v
	}
	n[t.id] = r
	termByID[t.id] = t
	f.fl = n
}

func (f *Facts) assumeF(b *Term, truth bool) bool {
	if r := f.evalF(b); r != 0 {
		return (r == 1) == truth
	}
	x, y := f.frange(b.args[0]), f.frange(b.args[1])
	xn, yn := x.maybeNaN, y.maybeNaN
	if b.args[0] == b.args[1] { // not equal to itself: not a number
		x.maybeNaN = !truth
		if !truth {
			x.lo, x.hi = math.Inf(1), math.Inf(-1)
		}
		f.setF(b.args[0], x)
		termByID[b.id] = b
		f.bl = f.bl.set(b.id, Bool(truth))
		return true
	}
	apply := func(a, c FRange, lt, strict bool) FRange { // constrain a < / <= c (lt) or > / >=
		if lt {
			s := strict || c.hiS
			if c.hi < a.hi || c.hi == a.hi && s {
				a.hi, a.hiS = c.hi, s
			}
		} else {
			s := strict || c.loS
			if c.lo > a.lo || c.lo == a.lo && s {
				a.lo, a.loS = c.lo, s
			}
		}
		return a
	}
	if truth {
		x.maybeNaN, y.maybeNaN = false, false
		switch b.name {
		case "<":
			x, y = apply(x, y, true, true), apply(y, x, false, true)
		case "<=":
			x, y = apply(x, y, true, false), apply(y, x, false, false)
		case "==":
			x = meetF(x, y)
			y = x
		}
		if x.noNum() || y.noNum() {
			return false
		}
	} else if b.name != "==" {
		// either side NaN, or the converse
		switch b.name {
		case "<":
			if !yn {
				x = apply(x, y, false, false)
			}
			if !xn {
				y = apply(y, f.frange(b.args[0]), true, false)
			}
		case "<=":
			if !yn {
				x = apply(x, y, false, true)
			}
			if !xn {
				y = apply(y, f.frange(b.args[0]), true, true)
			}
		}
		if !xn && !yn && (x.noNum() || y.noNum()) {
			return false
		}
	}
	f.setF(b.args[0], x)
	f.setF(b.args[1], y)
	termByID[b.id] = b
	f.bl = f.bl.set(b.id, Bool(truth))
	return true
}

// ---- dynamic types ----

func (f *Facts) dynType(v *Term) types.Type {
	if v.op == OIface {
		return v.typ
	}
	if t, ok := f.dyn.get(v.id); ok {
		return t.typ
	}
	return nil
}

func (f *Facts) setDyn(v *Term, t types.Type) {
	termByID[v.id] = v
	f.dyn = f.dyn.set(v.id, typeTerm(t))
}

func (f *Facts) notDyn(v *Term, t types.Type) bool {
	for _, x := range f.nd[v.id] {
		if types.Identical(x, t) {
			return true
		}
	}
	return false
}

func (f *Facts) addNotDyn(v *Term, t types.Type) {
	n := make(map[int][]types.Type, len(f.nd)+1)
	for k, x := range f.nd {
		n[k] = x
	}
	n[v.id] = append(append([]types.Type{}, n[v.id]...), t)
	termByID[v.id] = v
	f.nd = n
}

func (f *Facts) String() string {
	var s []string
	for _, l := range f.lins {
		s = append(s, l.term().String()+">=0")
	}
	for _, l := range f.ne {
		s = append(s, l.term().String()+"!=0")
	}
	f.nils.each(func(id int, v *Term) { s = append(s, "nil("+termByID[id].String()+")="+v.String()) })
	f.bl.each(func(id int, v *Term) { s = append(s, termByID[id].String()+"="+v.String()) })
	f.dyn.each(func(id int, v *Term) { s = append(s, "dyn("+termByID[id].String()+")="+typStr(v.typ)) })
	sort.Strings(s)
	return strings.Join(s, " && ")
}
