package main

// Joining and widening of abstract states by anti-unification: values that
// differ become a common symbol; equal pairs of values become equal symbols,
// integer pairs become affine expressions of earlier symbols where possible.

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"runtime"
	"sort"
	"strings"
)

type loopCtx struct {
	syms  map[*Term]bool // symbols standing for values at the loop head
	epoch int64
	used  bool
}

func newLoopCtx() *loopCtx { return &loopCtx{syms: map[*Term]bool{}, epoch: fresh()} }

func sortedKeys[T any](m map[string]T) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

type symPair struct{ sym, a, b *Term }

type joiner struct {
	e       *Eng
	a, b    *State
	loop    *loopCtx
	sigma   map[*Term]*Term
	memo    substMemo
	seeded  map[[2]*Term]bool
	pairs   map[[2]*Term]*Term
	totals  []symPair // lengths of contents put together from parts
	phi     [2]func(*Term) *Term
	list    []symPair
	changed bool
	locs    []symPair // generalised locations, contents still to be joined
}

func (j *joiner) change() {
	j.changed = true
	if debugJoin && j.loop != nil {
		_, _, l, _ := runtime.Caller(1)
		fmt.Fprintln(os.Stderr, "change at join.go", l)
	}
}

var debugJoin = os.Getenv("GZJOIN") != ""

func (j *joiner) sub(t *Term) *Term {
	if j.loop == nil || len(j.loop.syms) == 0 {
		return t
	}
	return subst(t, func(x *Term) *Term {
		if j.loop.syms[x] {
			if r, ok := j.sigma[x]; ok {
				return r
			}
			return x
		}
		return nil
	}, j.memo)
}

func (j *joiner) same(x, y *Term) bool {
	if j.loop == nil {
		return x == y
	}
	sx := j.sub(x)
	return sx == y || isInt(x.typOr(nil)) && isIntTerm(x) && isIntTerm(y) && j.b.facts.equalInt(sx, y)
}

func (t *Term) typOr(d types.Type) types.Type {
	if t.typ != nil {
		return t.typ
	}
	return d
}

func isIntTerm(t *Term) bool {
	switch t.op {
	case OInt, OLin, OWrap, OMul, ODiv, OXor, OAnd, OToInt, OFold, OStrLen:
		return true
	}
	return t.typ != nil && isInt(t.typ) && t.op != OAlloc && t.op != OField && t.op != OElemAt
}

// gen returns a term that stands for x in state a and for y in state b
func (j *joiner) gen(x, y *Term, typ types.Type) *Term {
	if x == nil || y == nil {
		return nil
	}
	if j.same(x, y) {
		return x
	}
	if j.loop == nil && x == y {
		return x
	}
	if j.loop != nil && j.loop.syms[x] {
		if _, ok := j.sigma[x]; !ok {
			j.sigma[x] = y
			j.memo = substMemo{}
			return x
		}
	}
	if r, ok := j.pairs[[2]*Term{x, y}]; ok {
		j.change()
		if x.op == OArr && r.op == OSym {
			return j.genArr(x, y)
		}
		return r
	}
	if j.phi[0] != nil && x.op != OSlice && x.op != OStruct {
		if p := j.phi[0](x); p != x && p == j.phi[1](y) { // what is in this place now, on both sides
			j.record(p, x, y)
			return p
		}
	}
	switch {
	case x.op == OSlice && y.op == OSlice:
		var arr *Term
		switch {
		case x.args[0].op == ONil && y.args[0].op != ONil:
			arr = j.genLoc(x.args[0], y.args[0])
		default:
			arr = j.gen(x.args[0], y.args[0], y.args[0].typ)
		}
		return Slice(arr, j.gen(x.args[1], y.args[1], tInt), j.gen(x.args[2], y.args[2], tInt), j.gen(x.args[3], y.args[3], tInt), x.typ)
	case (x.op == OStruct && y.op == OStruct || x.op == OTuple && y.op == OTuple) && len(x.args) == len(y.args):
		var l []*Term
		for i := range x.args {
			l = append(l, j.gen(x.args[i], y.args[i], x.args[i].typ))
		}
		n := *x
		n.args = l
		return mk(n)
	case x.op == OIface && y.op == OIface && types.Identical(x.typ, y.typ):
		return Iface(x.typ, j.gen(x.args[0], y.args[0], x.typ))
	case x.op == OFunc && y.op == OFunc && x.fn == y.fn && len(x.args) == len(y.args):
		var l []*Term
		for i := range x.args {
			l = append(l, j.gen(x.args[i], y.args[i], x.args[i].typ))
		}
		n := *x
		n.args = l
		return mk(n)
	case x.op == OArr && y.op == OArr:
		return j.genArr(x, y)
	case x.op == OField && y.op == OField && x.n == y.n:
		return Field(j.gen(x.args[0], y.args[0], x.args[0].typ), int(x.n), x.typ)
	case x.op == OElemAt && y.op == OElemAt:
		return ElemAt(j.gen(x.args[0], y.args[0], x.args[0].typ), j.gen(x.args[1], y.args[1], tInt), x.typ)
	case x.op == OCall && y.op == OCall && x.name == y.name && x.name == "range" && types.Identical(x.typ, y.typ):
		n := *x // an iteration begun at one of two places
		n.args = []*Term{j.gen(x.args[0], y.args[0], x.args[0].typ)}
		return mk(n)
	case x.op == OElem && y.op == OElem && j.same(x.args[0], y.args[0]) && len(x.args) == 2 && len(y.args) == 2:
		return elemOf(x.args[0], j.gen(x.args[1], y.args[1], tInt), x.typ)
	case isByteish(x) && isByteish(y) || y.op == OXor && isIntTerm(x):
		if r := j.genXor(x, y); r != nil {
			return r
		}
	}
	if isIntTerm(x) && isIntTerm(y) {
		return j.genInt(x, y, typ)
	}
	if isLocation(x) && isLocation(y) && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
		return j.genLoc(x, y)
	}
	return j.newSym(x, y, typ)
}

var tInt = types.Typ[types.Int]

func isLocation(t *Term) bool {
	switch t.op {
	case OAlloc, OSym, OLoad, OCall, OElem, OUnwrap:
		if t.typ == nil {
			return false
		}
		_, ok := t.typ.Underlying().(*types.Pointer)
		return ok
	}
	return false
}

func (j *joiner) newSym(x, y *Term, typ types.Type) *Term {
	if typ == nil {
		typ = x.typ
	}
	if typ == nil || x.op == ONil && y.typ != nil {
		typ = y.typ
	}
	nilx, nily := j.a.facts.nilness(x), j.b.facts.nilness(y)
	name := "join"
	bad := func(st *State, n int, t *Term) bool { return n == 1 || n == 0 && j.e.nilable(st, t) }
	if bad(j.a, nilx, x) || bad(j.b, nily, y) {
		name = "?join"
	} else if isTimer(x) && isTimer(y) {
		name = "timer"
	}
	sym := Sym(name, typ)
	r := sym
	if typ != nil {
		r = expand(sym, typ)
	}
	j.record(r, x, y)
	if j.loop != nil {
		j.loop.syms[sym] = true
	}
	return r
}

func (j *joiner) record(sym, x, y *Term) {
	j.pairs[[2]*Term{x, y}] = sym
	if debugJoin && j.loop != nil {
		fmt.Fprintln(os.Stderr, "  new symbol", sym, "for", x, "and", y, "in", j.e.w.fname(j.a.fr.fn))
	}
	j.list = append(j.list, symPair{sym, x, y})
	j.change()
	if j.loop != nil {
		j.loop.syms[sym] = true
	}
}

func (j *joiner) genLoc(x, y *Term) *Term {
	typ := y.typ
	if y.op == ONil {
		typ = x.typ
	}
	nx, ny := j.a.facts.nilness(x), j.b.facts.nilness(y)
	name := "loc"
	if nx == 1 || ny == 1 || nx == 0 && j.e.nilable(j.a, x) || ny == 0 && j.e.nilable(j.b, y) {
		name = "?loc"
	}
	if fx, fy := j.e.frozenName(x), j.e.frozenName(y); fx != "" && fx == fy {
		name = "frz." + fx
	} else if sx, sy := allocSite(x), allocSite(y); name == "loc" && sx != "" && sx == sy {
		name = "at." + sx
	}
	sym := Sym(name, typ)
	j.record(sym, x, y)
	j.locs = append(j.locs, symPair{sym, x, y})
	return sym
}

// allocSite names the place where the object was allocated, also after joins
func allocSite(t *Term) string {
	switch {
	case t.op == OAlloc:
		return t.name
	case t.op == OSym && strings.HasPrefix(t.name, "at."):
		return strings.SplitN(t.name[3:], "#", 2)[0]
	}
	return ""
}

// genInt: affine generalisation of an integer pair
func (j *joiner) genInt(x, y *Term, typ types.Type) *Term {
	y0 := y
	d := toLin(Sub(y, j.sub(x)))
	for _, p := range j.list {
		if !isIntTerm(p.sym) || p.sym.op != OSym {
			continue
		}
		pd := toLin(Sub(p.b, j.sub(p.a)))
		if len(pd.vars) == 0 && len(d.vars) == 0 {
			if pd.c != 0 && d.c%pd.c == 0 {
				k := d.c / pd.c // x + k*(sym - pa)
				return Add(x, Mul(Int(k), Sub(p.sym, p.a)))
			}
			continue
		}
		for _, k := range []int64{1, -1} {
			if r := lincomb(1, d, -k, pd); len(r.vars) == 0 && r.c == 0 {
				return Add(x, Mul(Int(k), Sub(p.sym, p.a)))
			}
		}
	}
	// relation to an unchanged loop symbol: the value of a head symbol in b
	if j.loop != nil {
		var ks []*Term
		for k := range j.sigma {
			if isIntTerm(k) {
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(a, b int) bool { return ks[a].id < ks[b].id })
		for _, k := range ks {
			if !isIntTerm(j.sigma[k]) {
				continue
			}
			// y = x + c*(sigma(k) - k)?
			kd := toLin(Sub(j.sigma[k], k))
			xd := toLin(Sub(y0, x))
			if len(kd.vars) == 0 && len(xd.vars) == 0 && kd.c != 0 && xd.c%kd.c == 0 && xd.c != 0 {
				// only sound as a guess if x does not depend on loop symbols; validated by the next round
				continue
			}
		}
	}
	if typ == nil {
		typ = x.typOr(y.typOr(tInt))
	}
	if x.op == OWrap {
		typ = x.typ
	}
	lt := tInt
	var st types.Type = lt
	if lo, hi, ok := rangeOfTerm(x); ok {
		if lo2, hi2, ok2 := rangeOfTerm(y); ok2 {
			if lo >= 0 && lo2 >= 0 && hi <= 255 && hi2 <= 255 && typ != nil && isInt(typ) {
				if tl, th, ok := intRange(typ); ok && tl == 0 && th == 255 {
					st = types.Typ[types.Uint8]
				}
			}
		}
	}
	if st == lt && typ != nil {
		if _, _, ok := intRange(typ); ok {
			st = typ.Underlying()
		}
	}
	sym := Sym("n", st)
	j.record(sym, x, y)
	return sym
}

func rangeOfTerm(t *Term) (int64, int64, bool) { return t.linRange() }

func isByteish(t *Term) bool {
	switch t.op {
	case OXor, OFold:
		return true
	case OElem:
		lo, hi, ok := intRange(t.typ)
		return ok && lo == 0 && hi == 255
	case OInt:
		return t.n >= 0 && t.n <= 255
	}
	return false
}

func xorParts(t *Term) (int64, []*Term) {
	switch t.op {
	case OInt:
		return t.n, nil
	case OXor:
		return t.n, t.args
	}
	return 0, []*Term{t}
}

// genXor generalises two xor sums that differ in one fold
func (j *joiner) genXor(x, y *Term) *Term {
	cx, px := xorParts(x)
	cy, py := xorParts(y)
	if cx != cy {
		return nil
	}
	var rx []*Term
	var common []*Term
	used := map[*Term]bool{}
outer:
	for _, p := range px {
		sp := j.sub(p)
		for _, q := range py {
			if !used[q] && q == sp {
				used[q] = true
				common = append(common, p)
				continue outer
			}
		}
		rx = append(rx, p)
	}
	var ry []*Term
	for _, q := range py {
		if !used[q] {
			ry = append(ry, q)
		}
	}
	if len(rx) > 1 || len(ry) != 1 {
		return nil
	}
	q := ry[0]
	if q.op != OElem && q.op != OFold {
		return nil
	}
	ql, qh := foldRange(q)
	var pl, ph *Term
	if len(rx) == 0 {
		// nothing folded yet: an empty range in front of the first element
		if ql.op != OInt {
			return nil
		}
		f := mk(Term{op: OFold, args: []*Term{q.args[0], ql, j.gen(ql, qh, tInt)}, typ: types.Typ[types.Uint8]})
		return Xor(cx, append(common, f)...)
	}
	p := rx[0]
	if p.op != OElem && p.op != OFold || j.sub(p.args[0]) != q.args[0] {
		return nil
	}
	if p.op == OElem && q.op == OElem {
		return nil
	}
	pl, ph = foldRange(p)
	f := mk(Term{op: OFold, args: []*Term{p.args[0], j.gen(pl, ql, tInt), j.gen(ph, qh, tInt)}, typ: types.Typ[types.Uint8]})
	return Xor(cx, append(common, f)...)
}

func arrLen(c *Term) *Term {
	n := Int(0)
	for _, g := range c.args {
		n = Add(n, segLen(g))
	}
	return n
}

func (j *joiner) genArr(x, y *Term) *Term {
	ex := elemTypeOfArr(x)
	if len(x.args) == len(y.args) {
		ok := true
		for i := range x.args {
			g, h := x.args[i], y.args[i]
			if g.op != h.op || g.op == OSegGen && (!j.same(g.args[0], h.args[0])) || g.op == OSegSub && !j.same(g.args[0], h.args[0]) {
				ok = false
			}
		}
		if ok {
			var segs []*Term
			for i := range x.args {
				g, h := x.args[i], y.args[i]
				switch g.op {
				case OSegLit:
					segs = append(segs, segLit(j.gen(g.args[0], h.args[0], ex)))
				case OSegZero:
					segs = append(segs, segZero(j.gen(g.args[0], h.args[0], tInt)))
				case OSegSub:
					segs = append(segs, segSub(g.args[0], j.gen(g.args[1], h.args[1], tInt), j.gen(g.args[2], h.args[2], tInt)))
				case OSegGen:
					segs = append(segs, segGen(g.args[0], j.gen(g.args[1], h.args[1], tInt), j.gen(g.args[2], h.args[2], tInt), j.gen(g.args[3], h.args[3], tInt)))
				}
			}
			return mk(Term{op: OArr, typ: x.typ, args: segs})
		}
	}
	// pieces of different sources, in the same order
	if len(x.args) == len(y.args) && len(x.args) > 1 {
		ok := true
		for i := range x.args {
			ok = ok && x.args[i].op == y.args[i].op
			if g := x.args[i]; j.loop != nil && g.op == OSegSub && j.loop.syms[g.args[0]] && !j.same(g.args[0], y.args[i].args[0]) {
				ok = false // still changing: from now on the whole content is one unknown
			}
		}
		if ok {
			var segs []*Term
			for i := range x.args {
				r := j.genArr(mk(Term{op: OArr, typ: x.typ, args: x.args[i : i+1]}), mk(Term{op: OArr, typ: x.typ, args: y.args[i : i+1]}))
				segs = append(segs, r.args...)
			}
			r := mk(Term{op: OArr, typ: x.typ, args: segs})
			j.totals = append(j.totals, symPair{arrLen(r), arrLen(x), arrLen(y)})
			return r
		}
	}
	// runs of opaque content of one source growing at the end
	if r := j.genGrow(x, y); r != nil {
		return r
	}
	n := j.gen(arrLen(x), arrLen(y), tInt)
	if k := j.contentSym(x); k != nil && j.sigma[k] != nil && j.seeded[[2]*Term{k, y}] {
		return mk(Term{op: OArr, typ: x.typ, args: []*Term{segSub(k, Int(0), n)}})
	}
	key := j.pairs[[2]*Term{x, y}]
	if key == nil {
		key = Sym("content", x.typ)
		j.record(key, x, y)
	}
	return mk(Term{op: OArr, typ: x.typ, args: []*Term{segSub(key, Int(0), n)}})
}

// current writes the values of places as of the epochs of state s as of those of the joined state
func (j *joiner) current(s, r *State) func(*Term) *Term {
	if s.epoch == r.epoch {
		return func(t *Term) *Term { return t }
	}
	memo := substMemo{}
	var phi func(t *Term) *Term
	f := func(t *Term) *Term {
		if t.op != OLoad {
			return nil
		}
		loc := t.args[0]
		if t.n != j.e.epochOf(s, loc) {
			return t
		}
		if _, ok := s.heap.get(loc.id); ok {
			return t
		}
		l2 := phi(loc)
		n := *t
		n.args, n.n = []*Term{l2}, j.e.epochOf(r, l2)
		return mk(n)
	}
	phi = func(t *Term) *Term { return subst(t, f, memo) }
	return phi
}

func (j *joiner) hasSyms(x *Term) bool {
	return mentions(x, func(y *Term) bool { return j.loop.syms[y] }, map[*Term]bool{})
}

// contentSym: the symbol of an earlier iteration that stands for the whole content x
func (j *joiner) contentSym(x *Term) *Term {
	if j.loop == nil || x == nil || x.op != OArr || len(x.args) != 1 || x.args[0].op != OSegSub {
		return nil
	}
	if k := x.args[0].args[0]; j.loop.syms[k] && k.op == OSym && strings.HasPrefix(k.name, "content#") && x.args[0].args[1] == Int(0) {
		return k
	}
	return nil
}

// seedContent maps the content symbol of x to the content of y before anything is compared
func (j *joiner) seedContent(x, y *Term) {
	cx, cy := j.readLoc(j.a, x), j.readLoc(j.b, y)
	k := j.contentSym(cx)
	if k == nil || cy == nil || j.sigma[k] != nil {
		return
	}
	v := Sym("anycontent", k.typ)
	if cy.op == OArr && len(cy.args) == 1 && cy.args[0].op == OSegSub && cy.args[0].args[1] == Int(0) {
		v = cy.args[0].args[0]
	}
	j.sigma[k] = v
	j.memo = substMemo{}
	if j.seeded == nil {
		j.seeded = map[[2]*Term]bool{}
	}
	j.seeded[[2]*Term{k, cy}] = true
}

// genGrow: y has one more leading or trailing part than x of the same source (an empty part of length 0 in x)
func (j *joiner) genGrow(x, y *Term) *Term {
	if len(y.args) != len(x.args)+1 {
		return nil
	}
	for k := range y.args {
		h := y.args[k]
		if j.loop != nil && h.op == OSegLit && h.args[0].op == OElem && len(h.args[0].args) == 2 { // one element of another array
			h = segSub(h.args[0].args[0], h.args[0].args[1], Int(1))
			y = mk(Term{op: OArr, typ: y.typ, args: append(append(append([]*Term{}, y.args[:k]...), h), y.args[k+1:]...)})
		}
		if h.op != OSegSub && h.op != OSegGen {
			continue
		}
		var segs []*Term
		ok := true
		for i := 0; i < len(y.args) && ok; i++ {
			if i == k {
				if h.op == OSegSub {
					segs = append(segs, segSub(h.args[0], h.args[1], Int(0)))
				} else {
					segs = append(segs, segGen(h.args[0], h.args[1], h.args[2], h.args[2]))
				}
				continue
			}
			xi := i
			if i > k {
				xi--
			}
			g := x.args[xi]
			if g.op != y.args[i].op || (g.op == OSegSub || g.op == OSegGen) && !j.same(g.args[0], y.args[i].args[0]) {
				ok = false
			}
			segs = append(segs, g)
		}
		if !ok {
			continue
		}
		return j.genArr(mk(Term{op: OArr, typ: x.typ, args: segs}), y)
	}
	return nil
}

// ---- states ----

func (e *Eng) mergeByKey(ss []*State, key func(*State) string, tag string) []*State {
	if len(ss) < 2 {
		return ss
	}
	g := map[string][]*State{}
	var order []string
	for _, s := range ss {
		k := key(s)
		if g[k] == nil {
			order = append(order, k)
		}
		g[k] = append(g[k], s)
	}
	if len(order) == len(ss) {
		return ss
	}
	var out []*State
	for _, k := range order {
		out = append(out, e.joinAll(g[k], tag))
	}
	return out
}

func (e *Eng) joinAll(ss []*State, tag string) *State {
	if len(ss) == 0 {
		return nil
	}
	// balanced, so that symbols do not pile up
	for len(ss) > 1 {
		var n []*State
		for i := 0; i < len(ss); i += 2 {
			if i+1 < len(ss) {
				n = append(n, e.join(ss[i], ss[i+1]))
			} else {
				n = append(n, ss[i])
			}
		}
		ss = n
	}
	return ss[0]
}

func (e *Eng) join(a, b *State) *State {
	if a == b {
		return a
	}
	r, _ := e.merge(a, b, nil)
	return r
}

func (e *Eng) widen(h, b *State, ctx *loopCtx, it int) (*State, bool) {
	return e.merge(h, b, ctx)
}

func (e *Eng) merge(a, b *State, loop *loopCtx) (*State, bool) {
	if e.lean {
		e.prune(a)
		e.prune(b)
	}
	j := &joiner{e: e, a: a, b: b, loop: loop, sigma: map[*Term]*Term{}, memo: substMemo{}, pairs: map[[2]*Term]*Term{}}
	r := a.clone()

	// epochs
	if a.epoch != b.epoch {
		if loop != nil {
			if r.epoch != loop.epoch {
				j.change()
			}
			r.epoch = loop.epoch
		} else {
			r.epoch = fresh()
		}
	}
	ne := r.epoch
	if loop != nil && a.epoch != b.epoch {
		ne = loop.epoch
	}
	unionEpochs := pmap{}
	a.epochs.each(func(k int, v *Term) {
		if w, ok := b.epochs.get(k); ok && w == v {
			unionEpochs = unionEpochs.set(k, v)
			return
		}
		unionEpochs = unionEpochs.set(k, Int(ne))
	})
	b.epochs.each(func(k int, v *Term) {
		if _, ok := a.epochs.get(k); !ok {
			if t := termByID[k]; t != nil && t.op != OAlloc {
				if bv := a.epoch; v.n == bv {
					return
				}
			}
			unionEpochs = unionEpochs.set(k, Int(ne))
		}
	})
	r.epochs = unionEpochs
	b.escaped.each(func(k int, _ *Term) { r.escaped = r.escaped.set(k, tTrue) })
	if loop == nil {
		j.phi = [2]func(*Term) *Term{j.current(a, r), j.current(b, r)}
	}

	type slot struct {
		id   int
		x, y *Term
	}
	// 1. local values of the current frame. Head symbols first, they fix the substitution.
	var slots []slot
	a.fr.env.each(func(k int, x *Term) {
		if y, ok := b.fr.env.get(k); ok {
			slots = append(slots, slot{k, x, y})
		} else {
			r.fr.env = r.fr.env.del(k)
		}
	})
	if loop != nil {
		var seed func(x, y *Term)
		seed = func(x, y *Term) {
			if loop.syms[x] {
				if _, ok := j.sigma[x]; !ok {
					j.sigma[x] = y
					j.memo = substMemo{}
					if isArrayLoc(x) && y.op != ONil {
						j.seedContent(x, y)
					}
				}
				return
			}
			if x.op == y.op && len(x.args) == len(y.args) && (x.op == OSlice || x.op == OStruct || x.op == OTuple || x.op == OIface || x.op == OFunc) {
				for i := range x.args {
					seed(x.args[i], y.args[i])
				}
			}
			// sym + c
			if x.op == OLin && len(x.args) == 1 && x.coefs[0] == 1 && loop.syms[x.args[0]] && isIntTerm(y) {
				seed(x.args[0], AddC(y, -x.n))
			}
		}
		for pass := 0; pass < 2; pass++ {
			for _, s := range slots {
				if (s.x.op == OSym) == (pass == 0) {
					seed(s.x, s.y)
				}
			}
		}
		for _, k := range sortedKeys(a.extra) {
			if y := b.extra[k]; y != nil {
				seed(a.extra[k], y)
			}
		}
		for pass := 0; pass < 2; pass++ {
			a.heap.each(func(id int, x *Term) {
				l := termByID[id]
				if l == nil || !j.hasSyms(x) {
					return
				}
				if rt := root(l); loop.syms[rt] && j.sigma[rt] == nil {
					return
				}
				if y := j.readLoc(b, j.sub(l)); y != nil {
					if k := j.contentSym(x); k != nil {
						j.seedContent(l, j.sub(l))
					} else {
						seed(x, y)
					}
				}
			})
		}
	}
	for _, s := range slots {
		v := j.gen(s.x, s.y, nil)
		r.fr.env = r.fr.env.set(s.id, v)
	}
	// defers of the frame: same instructions by key, arguments may differ
	for i := range a.fr.defers {
		if i >= len(b.fr.defers) {
			break
		}
		d := a.fr.defers[i]
		d2 := b.fr.defers[i]
		var l []*Term
		for k := range d.args {
			l = append(l, j.gen(d.args[k], d2.args[k], nil))
		}
		nd := deferred{instr: d.instr, args: l}
		if d.fn != nil {
			nd.fn = j.gen(d.fn, d2.fn, nil)
		}
		nl := append([]deferred{}, r.fr.defers...)
		nl[i] = nd
		r.fr.defers = nl
	}
	if a.ret != nil && b.ret != nil {
		r.ret = j.gen(a.ret, b.ret, nil)
	}
	// extra
	ex := map[string]*Term{}
	for _, k := range sortedKeys(a.extra) {
		if y := b.extra[k]; y != nil {
			ex[k] = j.gen(a.extra[k], y, nil)
		}
	}
	r.extra = ex

	// 2. memory
	r.heap = pmap{}
	done := map[int]bool{}
	joinLoc := func(loc *Term) {
		if done[loc.id] {
			return
		}
		done[loc.id] = true
		x := j.readLoc(a, loc)
		y := j.readLoc(b, j.sub(loc))
		if x == nil || y == nil {
			j.bump(r)
			return
		}
		v := j.gen(x, y, nil)
		r.heap = r.heap.set(loc.id, v)
	}
	var alocs, blocs []*Term
	a.heap.each(func(id int, _ *Term) { alocs = append(alocs, termByID[id]) })
	b.heap.each(func(id int, _ *Term) { blocs = append(blocs, termByID[id]) })
	for _, l := range alocs {
		if l == nil {
			continue
		}
		if root(l).op == OAlloc {
			// an object: is it (still) the same one in b?
			if loop == nil && !j.known(b, l) {
				// lives only in a; keep (unreachable from b)
				r.heap = r.heap.set(l.id, mustGet(a.heap, l.id))
				done[l.id] = true
				continue
			}
		}
		joinLoc(l)
	}
	for _, l := range blocs {
		if l == nil || done[l.id] {
			continue
		}
		if _, ok := a.heap.get(l.id); ok {
			continue
		}
		rt := root(l)
		if rt.op == OAlloc && !j.allocIn(a, rt) {
			if loop == nil {
				r.heap = r.heap.set(l.id, mustGet(b.heap, l.id))
			}
			continue // created later, reachable only through a generalised location
		}
		if loop != nil && j.newer(l) {
			j.bump(r)
			continue
		}
		// is it the image of a location already joined?
		joinLoc(l)
	}
	// contents of generalised locations
	for i := 0; i < len(j.locs); i++ {
		p := j.locs[i]
		j.joinObject(r, p)
	}
	// alias, nonnil
	al := pmap{}
	a.alias.each(func(k int, v *Term) { al = al.set(k, v) })
	b.alias.each(func(k int, v *Term) { al = al.set(k, v) })
	for _, p := range j.locs {
		if v, ok := b.alias.get(p.b.id); ok && v != p.b {
			if w, ok2 := a.alias.get(p.a.id); ok2 {
				if w == v {
					al = al.set(p.sym.id, v)
				}
			}
			_ = v
		}
	}
	r.alias = al
	nn := pmap{}
	a.nonnil.each(func(k int, _ *Term) {
		if _, ok := b.nonnil.get(k); ok {
			nn = nn.set(k, tTrue)
		} else {
			j.change()
		}
	})
	r.nonnil = nn

	// 3. facts
	j.facts(r)
	return r, j.changed
}

func mustGet(m pmap, k int) *Term { v, _ := m.get(k); return v }

func (j *joiner) bump(r *State) {
	// something written is no longer nameable: everything shared may have changed
	if j.loop != nil {
		if r.epoch != j.loop.epoch {
			j.change()
		}
		r.epoch = j.loop.epoch
	} else {
		r.epoch = fresh()
	}
}

func (j *joiner) known(s *State, l *Term) bool {
	if _, ok := s.heap.get(l.id); ok {
		return true
	}
	return j.allocIn(s, root(l))
}

// allocIn: has the object been allocated in s?
func (j *joiner) allocIn(s *State, rt *Term) bool {
	found := false
	s.heap.each(func(id int, _ *Term) {
		if l := termByID[id]; l != nil && root(l) == rt {
			found = true
		}
	})
	if found {
		return true
	}
	for f := s.fr; f != nil && !found; f = f.parent {
		f.env.each(func(_ int, v *Term) {
			if !found && mentions(v, func(t *Term) bool { return t == rt }, map[*Term]bool{}) {
				found = true
			}
		})
	}
	return found
}

// newer: does the location mention things created inside the loop body?
func (j *joiner) newer(l *Term) bool {
	return mentions(l, func(t *Term) bool {
		return (t.op == OSym || t.op == OAlloc || t.op == OLoad && t.n != j.loop.epoch && t.n != j.e.epochOf(j.a, t.args[0])) && !j.loop.syms[t] && !j.inState(j.a, t)
	}, map[*Term]bool{})
}

func (j *joiner) inState(s *State, x *Term) bool {
	f := func(t *Term) bool { return t == x }
	found := false
	seen := map[*Term]bool{}
	for fr := s.fr; fr != nil && !found; fr = fr.parent {
		fr.env.each(func(_ int, v *Term) {
			if !found && mentions(v, f, seen) {
				found = true
			}
		})
	}
	if !found {
		s.heap.each(func(id int, v *Term) {
			if found {
				return
			}
			if l := termByID[id]; l != nil && mentions(l, f, seen) || mentions(v, f, seen) {
				found = true
			}
		})
	}
	return found
}

func isArrayLoc(l *Term) bool {
	t := ptrElem(l)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// readLoc: the value of a (non-struct) location or the content of an array
func (j *joiner) readLoc(s *State, loc *Term) *Term {
	if v, ok := s.heap.get(loc.id); ok {
		return v
	}
	if isArrayLoc(loc) {
		return j.e.content(s, loc)
	}
	t := ptrElem(loc)
	if t == nil {
		return nil
	}
	return j.e.load(s, loc, t)
}

// joinObject joins everything stored under the two locations a generalised location stands for
func (j *joiner) joinObject(r *State, p symPair) {
	if p.a.op == ONil || p.b.op == ONil {
		// one side has no object: the content is that of the other side only if the pointer is not nil
		st, l := j.b, p.b
		if p.b.op == ONil {
			st, l = j.a, p.a
		}
		if isArrayLoc(p.sym) {
			c := j.readLoc(st, l)
			oc := mk(Term{op: OArr, typ: c.typ})
			if p.b.op == ONil {
				r.heap = r.heap.set(p.sym.id, j.genArr(c, oc))
			} else {
				r.heap = r.heap.set(p.sym.id, j.genArr(oc, c))
			}
			termByID[p.sym.id] = p.sym
		}
		return
	}
	if isArrayLoc(p.sym) {
		x, y := j.readLoc(j.a, p.a), j.readLoc(j.b, p.b)
		if x != nil && y != nil {
			termByID[p.sym.id] = p.sym
			r.heap = r.heap.set(p.sym.id, j.gen(x, y, nil))
		}
		return
	}
	if t := ptrElem(p.sym); t != nil {
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
		default: // a variable
			_, wa := j.a.heap.get(p.a.id)
			_, wb := j.b.heap.get(p.b.id)
			if x, y := j.readLoc(j.a, p.a), j.readLoc(j.b, p.b); (wa || wb) && x != nil && y != nil {
				termByID[p.sym.id] = p.sym
				r.heap = r.heap.set(p.sym.id, j.gen(x, y, nil))
			}
		}
	}
	// fields written on either side
	sufs := map[string][]int64{}
	collect := func(s *State, base *Term) {
		s.heap.each(func(id int, _ *Term) {
			l := termByID[id]
			var path []int64
			for l != nil && l.op == OField {
				path = append([]int64{l.n}, path...)
				l = l.args[0]
				if l == base {
					k := ""
					for _, n := range path {
						k += itoa(int(n)) + "."
					}
					sufs[k] = append([]int64{}, path...)
					return
				}
			}
		})
	}
	collect(j.a, p.a)
	collect(j.b, p.b)
	for _, k := range sortedKeys(sufs) {
		la, lb, lr := p.a, p.b, p.sym
		for _, n := range sufs[k] {
			pt := fieldPtr(lr, int(n))
			if pt == nil {
				return
			}
			la, lb, lr = Field(la, int(n), pt), Field(lb, int(n), pt), Field(lr, int(n), pt)
		}
		x, y := j.readLoc(j.a, la), j.readLoc(j.b, lb)
		if x != nil && y != nil {
			termByID[lr.id] = lr
			r.heap = r.heap.set(lr.id, j.gen(x, y, nil))
		}
	}
	if _, ok := j.b.escaped.get(p.b.id); ok {
		j.bump(r)
	}
}

func fieldPtr(p *Term, i int) types.Type {
	t := ptrElem(p)
	if t == nil {
		return nil
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return nil
	}
	return types.NewPointer(st.Field(i).Type())
}

// places keeps what both sides know about what is in a place now, though they know it from different times
func (j *joiner) places(f *Facts) {
	a, b := j.a.facts, j.b.facts
	both := func(ma, mb pmap, set func(p, v *Term)) {
		now := map[*Term]*Term{}
		mb.each(func(id int, v *Term) {
			if t := termByID[id]; t != nil {
				if p := j.phi[1](t); p != t {
					now[p] = v
				}
			}
		})
		if len(now) == 0 {
			return
		}
		ma.each(func(id int, v *Term) {
			if t := termByID[id]; t != nil {
				if p := j.phi[0](t); p != t && now[p] == v {
					termByID[p.id] = p
					set(p, v)
				}
			}
		})
	}
	both(a.nils, b.nils, func(p, v *Term) { f.nils = f.nils.set(p.id, v) })
	both(a.bl, b.bl, func(p, v *Term) { f.bl = f.bl.set(p.id, v) })
	both(a.dyn, b.dyn, func(p, v *Term) { f.dyn = f.dyn.set(p.id, v) })
}

// lowVars lists the values with a constant lower bound, lowOf gives the bound
func lowVars(f *Facts) []*Term {
	var r []*Term
	seen := map[int]bool{}
	for _, l := range f.lins {
		if len(l.vars) == 1 && l.coefs[0] == 1 && !seen[l.vars[0].id] {
			seen[l.vars[0].id] = true
			r = append(r, l.vars[0])
		}
	}
	return r
}

func lowOf(f *Facts, v *Term) int64 {
	r := int64(math.MinInt32)
	for _, l := range f.lins {
		if len(l.vars) == 1 && l.coefs[0] == 1 && l.vars[0] == v && -l.c > r {
			r = -l.c
		}
	}
	return r
}

// facts keeps what both sides imply and guesses bounds for the new symbols
func (j *joiner) facts(r *State) {
	a, b := j.a.facts, j.b.facts
	f := &Facts{keys: map[string]bool{}}
	stale := func(t *Term) bool {
		return j.loop != nil && r.epoch == j.loop.epoch && mentions(t, func(x *Term) bool { return x.op == OLoad && x.n == j.loop.epoch }, map[*Term]bool{})
	}
	for _, l := range a.lins {
		if stale(l.term()) {
			j.change()
			continue
		}
		if b.entails(toLin(j.sub(l.term()))) {
			f.addRaw(l)
		} else {
			j.change()
		}
	}
	for _, l := range a.ne {
		t := toLin(j.sub(l.term()))
		if len(t.vars) == 0 && t.c != 0 || len(t.vars) > 0 && b.evalBool(Eq0(t)) == 2 {
			f.ne = append(f.ne, l)
		} else {
			j.change()
		}
	}
	a.nils.each(func(id int, v *Term) {
		t := termByID[id]
		if t == nil || stale(t) {
			return
		}
		n := b.nilness(j.sub(t))
		if v == tTrue && n == 1 || v == tFalse && n == 2 {
			f.nils = f.nils.set(id, v)
		} else {
			j.change()
		}
	})
	a.bl.each(func(id int, v *Term) {
		t := termByID[id]
		if t == nil || stale(t) {
			return
		}
		n := b.evalBool(j.sub(t))
		if v == tTrue && n == 1 || v == tFalse && n == 2 {
			f.bl = f.bl.set(id, v)
		} else {
			j.change()
		}
	})
	a.dyn.each(func(id int, v *Term) {
		t := termByID[id]
		if t == nil {
			return
		}
		if d := b.dynType(j.sub(t)); d != nil && types.Identical(d, v.typ) {
			f.dyn = f.dyn.set(id, v)
		} else {
			j.change()
		}
	})
	for id, ts := range a.nd {
		for _, t := range ts {
			if b.notDyn(termByID[id], t) {
				f.addNotDyn(termByID[id], t)
			}
		}
	}
	for id, x := range a.fl {
		t := termByID[id]
		y := b.frange(j.sub(t))
		n := FRange{lo: x.lo, hi: x.hi, loS: x.loS, hiS: x.hiS, maybeNaN: x.maybeNaN || y.maybeNaN}
		if y.lo < n.lo || y.lo == n.lo && !y.loS {
			n.lo, n.loS = y.lo, y.loS
		}
		if y.hi > n.hi || y.hi == n.hi && !y.hiS {
			n.hi, n.hiS = y.hi, y.hiS
		}
		if n != x {
			j.change()
		}
		if n != fTop {
			f.setF(t, n)
		}
	}
	r.facts = f
	if j.loop == nil && j.phi[0] != nil && j.a.epoch != j.b.epoch {
		j.places(f)
	}

	// new symbols
	for _, p := range j.list {
		nx, ny := j.nil2(a, p.a), j.nil2(b, p.b)
		if nx == ny && nx != 0 && p.sym.op != OSlice {
			f.nils = f.nils.set(p.sym.id, Bool(nx == 1))
			termByID[p.sym.id] = p.sym
		}
		if dx, dy := a.dynType(p.a), b.dynType(p.b); dx != nil && dy != nil && types.Identical(dx, dy) {
			f.setDyn(p.sym, dx)
		}
		if p.sym.typ != nil && isFloat(p.sym.typ) {
			x, y := a.frange(p.a), b.frange(p.b)
			n := FRange{lo: x.lo, hi: x.hi, loS: x.loS, hiS: x.hiS, maybeNaN: x.maybeNaN || y.maybeNaN}
			if y.lo < n.lo || y.lo == n.lo && !y.loS {
				n.lo, n.loS = y.lo, y.loS
			}
			if y.hi > n.hi || y.hi == n.hi && !y.hiS {
				n.hi, n.hiS = y.hi, y.hiS
			}
			f.setF(p.sym, n)
		}
	}
	// what is known about things reached from them
	if len(j.list) > 0 {
		toB, toR := map[*Term]*Term{}, map[*Term]*Term{}
		for _, p := range j.list {
			if p.a.op == OSym || p.a.op == OLoad || p.a.op == OAlloc {
				toB[p.a], toR[p.a] = p.b, p.sym
			}
		}
		put := func(m map[*Term]*Term, t *Term) *Term {
			return subst(t, func(x *Term) *Term { return m[x] }, substMemo{})
		}
		reach := func(id int) (tb, tr *Term) {
			t := termByID[id]
			if t == nil || t.op != OLoad || toB[t] != nil {
				return nil, nil
			}
			if tr = put(toR, t); tr == t || tr.op != OLoad {
				return nil, nil
			}
			return put(toB, t), tr
		}
		a.nils.each(func(id int, v *Term) {
			if tb, tr := reach(id); tr != nil {
				if n := b.nilness(tb); v == tTrue && n == 1 || v == tFalse && n == 2 {
					f.nils = f.nils.set(tr.id, v)
					termByID[tr.id] = tr
				}
			}
		})
		a.dyn.each(func(id int, v *Term) {
			if tb, tr := reach(id); tr != nil {
				if d := b.dynType(tb); d != nil && types.Identical(d, v.typ) {
					f.setDyn(tr, v.typ)
					termByID[tr.id] = tr
				}
			}
		})
	}
	var ints []symPair
	for _, p := range j.list {
		if (p.sym.op == OSym || p.sym.op == OLoad || p.sym.op == OCall || p.sym.op == OStrLen) && isIntTerm(p.sym) && isIntTerm(p.a) && isIntTerm(p.b) {
			ints = append(ints, p)
		}
	}
	if len(ints) == 0 {
		return
	}
	evalA := func(l *Lin) *Lin { return j.repl(l, ints, false) }
	evalB := func(l *Lin) *Lin { return toLin(j.sub(j.repl(l, ints, true).term())) }
	tried := map[string]bool{}
	try := func(l *Lin) bool {
		l = l.norm()
		if len(l.vars) == 0 || f.keys[l.key()] || tried[l.key()] {
			return false
		}
		tried[l.key()] = true
		if a.entails(evalA(l)) && b.entails(evalB(l)) {
			f.addRaw(l)
			return true
		}
		return false
	}
	// again restates a fact about two values that both became symbols
	again := func(c *Lin, sym *Term, side int) {
		for _, q := range ints {
			v := toLin(q.a)
			if side == 1 {
				v = toLin(q.b)
			}
			if q.sym == sym || len(v.vars) != 1 || v.coefs[0] != 1 || c.coef(v.vars[0]) == 0 {
				continue
			}
			k := c.coef(v.vars[0])
			c2 := lincomb(1, c, -k, &Lin{vars: v.vars, coefs: []int64{1}})
			c2 = lincomb(1, c2, k, (&Lin{vars: []*Term{q.sym}, coefs: []int64{1}}).addc(-v.c))
			if j.closed(c2, side == 1) {
				try(c2)
			}
		}
	}
	for _, p := range j.totals {
		if n := j.pairs[[2]*Term{p.a, p.b}]; n != nil && n != p.sym {
			try(lincomb(1, toLin(n), -1, toLin(p.sym)))
			try(lincomb(-1, toLin(n), 1, toLin(p.sym)))
		}
	}
	for _, p := range ints {
		s := &Lin{vars: []*Term{p.sym}, coefs: []int64{1}}
		la, lb := toLin(p.a), toLin(p.b)
		// constants
		for _, l := range []*Lin{la, lb} {
			if len(l.vars) == 0 {
				try(s.addc(-l.c))
				try(s.neg().addc(l.c))
			}
		}
		// two constants that keep step with the lower bound of something: the symbol keeps below it by the same margin
		if j.loop != nil && len(la.vars) == 0 && len(lb.vars) == 0 && lb.c > la.c {
			for _, v := range lowVars(a) {
				if x, y := lowOf(a, v), lowOf(b, v); y-x == lb.c-la.c {
					try(lincomb(1, (&Lin{vars: []*Term{v}, coefs: []int64{1}}).addc(la.c-x), -1, s))
				}
			}
		}
		try(s)
		try(s.addc(-1))
		// against the initial value
		if j.loop != nil || len(la.vars) > 0 {
			try(lincomb(1, s, -1, la))
			try(lincomb(-1, s, 1, la))
		}
		// facts about the value on either side, restated for the symbol
		for side, fs := range []*Facts{a, b} {
			v := la
			if side == 1 {
				v = lb
			}
			for i, at := range v.vars {
				if c := v.coefs[i]; c != 1 && c != -1 {
					continue
				}
				// at = c*(sym - rest)
				rest := lincomb(1, v, -v.coefs[i], &Lin{vars: []*Term{at}, coefs: []int64{1}})
				expr := lincomb(v.coefs[i], s, -v.coefs[i], rest)
				cons := fs.lins
				for _, g := range cons {
					k := g.coef(at)
					if k == 0 {
						continue
					}
					wo := lincomb(1, g, -k, &Lin{vars: []*Term{at}, coefs: []int64{1}})
					c := lincomb(1, wo, k, expr)
					if j.closed(c, side == 1) && try(c) {
						continue
					}
					again(c, p.sym, side)
				}
			}
		}
		if j.e.lean && j.loop == nil {
			continue
		}
		// between symbols
		for _, q := range ints {
			if p.sym == q.sym {
				continue
			}
			qs := &Lin{vars: []*Term{q.sym}, coefs: []int64{1}}
			if d := lincomb(1, s, -1, qs); try(d) {
				try(d.addc(-1))
			}
		}
		if j.loop != nil && j.a.fr != nil {
			for _, g := range j.e.cmps[j.a.fr.fn] {
				t := toLin(g)
				if t.coef(p.sym) == 0 && j.closed(t, true) && j.closed(t, false) && !mentions(g, func(x *Term) bool { return j.loop.syms[x] }, map[*Term]bool{}) {
					try(lincomb(1, t, -1, s))
					try(lincomb(1, t, -1, s).addc(-1))
					try(lincomb(1, t, -1, s).addc(1))
				}
			}
		}
		// candidate bounds: invariant terms the facts compare with
		for _, fs := range []*Facts{a, b} {
			for _, g := range fs.lins {
				if len(g.vars) > 3 {
					continue
				}
				for i, v := range g.vars {
					if !j.stable(v) || !isIntTerm(v) {
						continue
					}
					_ = i
					t := toLin(v)
					try(lincomb(1, t, -1, s))
					try(lincomb(1, t, -1, s).addc(-1))
					try(lincomb(1, t, -1, s).addc(1))
					if j.loop != nil && len(la.vars) > 0 && la.coef(v) == 0 { // what was added since the loop was entered
						try(lincomb(1, lincomb(1, t, -1, s), 1, la.addc(-la.c)))
					}
				}
			}
		}
	}
}

// stable: the term means the same on both sides
func (j *joiner) stable(t *Term) bool {
	if j.loop == nil {
		return true
	}
	return !mentions(t, func(x *Term) bool { return j.loop.syms[x] || x.op == OLoad && x.n == j.loop.epoch }, map[*Term]bool{}) && j.inFacts(t)
}

func (j *joiner) inFacts(t *Term) bool {
	for _, l := range j.a.facts.lins {
		if l.coef(t) != 0 {
			return true
		}
	}
	return false
}

// closed: a candidate must not mention values of the loop body
func (j *joiner) closed(l *Lin, fromB bool) bool {
	if j.loop == nil {
		return true
	}
	for _, v := range l.vars {
		isSym := false
		for _, p := range j.list {
			if p.sym == v {
				isSym = true
			}
		}
		if isSym || j.loop.syms[v] {
			continue
		}
		if mentions(v, func(x *Term) bool { return j.loop.syms[x] && fromB || x.op == OLoad && x.n == j.loop.epoch }, map[*Term]bool{}) {
			return false
		}
	}
	return true
}

func (j *joiner) repl(l *Lin, ints []symPair, sideB bool) *Lin {
	return l.subst(func(t *Term) *Term {
		for _, p := range ints {
			if p.sym == t {
				if sideB {
					return p.b
				}
				return p.a
			}
		}
		return t
	})
}

func (j *joiner) nil2(f *Facts, t *Term) int { return f.nilness(t) }
