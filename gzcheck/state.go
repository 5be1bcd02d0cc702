package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type heldLock struct {
	mu    *Term // location of the mutex
	owner *Term // location of the object that contains it
	mode  byte  // 'W' or 'R'
	at    ssa.Instruction
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term // callee value (nil for builtins / invoke)
	args  []*Term
}

type Frame struct {
	fn     *ssa.Function
	env    pmap
	defers []deferred
	parent *Frame
	depth  int
	call   ssa.Instruction
}

type State struct {
	fr      *Frame
	heap    pmap
	facts   *Facts
	locks   []heldLock
	mon     map[string]string
	epoch   int64
	epochs  pmap // root id -> Int(epoch)
	escaped pmap // alloc root id -> tTrue
	nonnil  pmap // locations of monotone optional fields known to be set
	alias   pmap // array id -> array it may share memory with
	trail   *trail
	ret     *Term
	extra   map[string]*Term // property specific terms
}

type trail struct {
	prev *trail
	at   string
}

func (s *State) clone() *State {
	n := *s
	f := *s.fr
	n.fr = &f
	n.facts = s.facts.clone()
	return &n
}

func newState() *State {
	return &State{facts: &Facts{keys: map[string]bool{}}, mon: map[string]string{}}
}

func (s *State) setMon(k, v string) {
	n := make(map[string]string, len(s.mon)+1)
	for a, b := range s.mon {
		n[a] = b
	}
	if v == "" {
		delete(n, k)
	} else {
		n[k] = v
	}
	s.mon = n
}

func (s *State) setExtra(k string, v *Term) {
	n := make(map[string]*Term, len(s.extra)+1)
	for a, b := range s.extra {
		n[a] = b
	}
	if v == nil {
		delete(n, k)
	} else {
		n[k] = v
	}
	s.extra = n
}

// monKey identifies the discrete part of a state
func (s *State) monKey() string {
	var b strings.Builder
	ks := make([]string, 0, len(s.mon))
	for k := range s.mon {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(s.mon[k])
		b.WriteByte(';')
	}
	b.WriteByte('|')
	for _, l := range s.locks {
		b.WriteByte(l.mode)
		b.WriteString(itoa(l.mu.id))
		b.WriteByte(',')
	}
	for f := s.fr; f != nil; f = f.parent {
		b.WriteByte('|')
		for _, d := range f.defers {
			b.WriteString(itoa(posID(d.instr)))
			b.WriteByte(',')
		}
	}
	return b.String()
}

// ---- zero values, opaque values ----

func nilSlice(t types.Type) *Term {
	return Slice(Nil(nil), Int(0), Int(0), Int(0), t)
}

func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsFloat != 0:
			return floatConst(0)
		}
	case *types.Slice:
		return nilSlice(t)
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zero(u.Field(i).Type()))
		}
		return Struct(t, fs...)
	case *types.Array:
		return zeroArr(u.Elem(), Int(u.Len()))
	}
	return Nil(t)
}

func floatConst(f float64) *Term {
	return mk(Term{op: OConst, k: constant.MakeFloat64(f), typ: types.Typ[types.Float64]})
}

func constFloat(t *Term) (float64, bool) {
	if t.op != OConst {
		return 0, false
	}
	switch t.k.Kind() {
	case constant.Float, constant.Int:
		f, _ := constant.Float64Val(t.k)
		return f, true
	}
	return 0, false
}

func lenOf(x *Term) *Term {
	return mk(Term{op: OCall, name: "len", args: []*Term{x}, typ: types.Typ[types.Int]})
}
func capOf(x *Term) *Term {
	return mk(Term{op: OCall, name: "cap", args: []*Term{x}, typ: types.Typ[types.Int]})
}

// expand gives an opaque term the structure its type implies
func expand(x *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if x.op == OSlice {
			return x
		}
		arr := mk(Term{op: OCall, name: "arr", args: []*Term{x}, typ: types.NewPointer(types.NewArray(u.Elem(), -1))})
		return Slice(arr, Int(0), lenOf(x), capOf(x), t)
	case *types.Struct:
		if x.op == OStruct {
			return x
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			fs = append(fs, expand(mk(Term{op: OCall, name: "field" + itoa(i), args: []*Term{x}, typ: ft}), ft))
		}
		return Struct(t, fs...)
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			ft := u.At(i).Type()
			fs = append(fs, expand(mk(Term{op: OCall, name: "ext" + itoa(i), args: []*Term{x}, typ: ft}), ft))
		}
		return Tuple(fs...)
	case *types.Array:
		if x.op == OArr {
			return x
		}
		return mk(Term{op: OArr, typ: t, args: []*Term{segSub(x, Int(0), Int(u.Len()))}})
	}
	return x
}

func freshVal(name string, t types.Type) *Term { return expand(Sym(name, t), t) }

// ---- array contents ----

func segLit(v *Term) *Term { return mk(Term{op: OSegLit, args: []*Term{v}}) }
func segSub(key, from, n *Term) *Term {
	return mk(Term{op: OSegSub, args: []*Term{key, from, n}})
}
func segZero(n *Term) *Term { return mk(Term{op: OSegZero, args: []*Term{n}}) }
func segLen(g *Term) *Term {
	switch g.op {
	case OSegLit:
		return Int(1)
	case OSegSub:
		return g.args[2]
	case OSegZero:
		return g.args[0]
	case OSegGen:
		return Sub(g.args[3], g.args[2])
	}
	panic("segLen " + g.String())
}

func arrOf(elem types.Type, segs []*Term) *Term {
	var out []*Term
	pos := Int(0)
	isB := isBool(elem)
	for _, g := range segs {
		l := segLen(g)
		if l.op == OInt && l.n <= 0 {
			continue
		}
		if isB && g.op == OSegLit {
			if c := bitSeg(g.args[0], pos); c != nil {
				g = c
			}
		}
		pos = Add(pos, l)
		if n := len(out); n > 0 && g.op == OSegGen && out[n-1].op == OSegGen && out[n-1].args[0] == g.args[0] &&
			out[n-1].args[1] == g.args[1] && out[n-1].args[3] == g.args[2] {
			out[n-1] = segGen(g.args[0], g.args[1], out[n-1].args[2], g.args[3])
			continue
		}
		if n := len(out); n > 0 && g.op == OSegZero && out[n-1].op == OSegZero {
			out[n-1] = segZero(Add(out[n-1].args[0], g.args[0]))
			continue
		}
		// merge adjacent parts of the same array
		if n := len(out); n > 0 && g.op == OSegSub && out[n-1].op == OSegSub && out[n-1].args[0] == g.args[0] &&
			Add(out[n-1].args[1], out[n-1].args[2]) == g.args[1] {
			out[n-1] = segSub(g.args[0], out[n-1].args[1], Add(out[n-1].args[2], g.args[2]))
			continue
		}
		// and an element of the array right behind it
		if n := len(out); n > 0 && g.op == OSegLit && g.args[0].op == OElem && out[n-1].op == OSegSub && len(g.args[0].args) == 2 &&
			out[n-1].args[0] == g.args[0].args[0] && Add(out[n-1].args[1], out[n-1].args[2]) == g.args[0].args[1] {
			out[n-1] = segSub(out[n-1].args[0], out[n-1].args[1], Add(out[n-1].args[2], Int(1)))
			continue
		}
		out = append(out, g)
	}
	return mk(Term{op: OArr, args: out, typ: types.NewSlice(elem)})
}

// segGen: cell r of the segment is bit (lo+r)%8 of key[off+(lo+r)/8]
func segGen(key, off, lo, hi *Term) *Term {
	return mk(Term{op: OSegGen, name: "bits", args: []*Term{key, off, lo, hi}})
}

// bitSeg turns a literal cell holding one bit of a byte array into a generated segment
func bitSeg(v, pos *Term) *Term {
	x, k, ok := bitOf(v)
	if !ok || x.op != OElem {
		return nil
	}
	key, q := x.args[0], x.args[1]
	d := toLin(Sub(pos, k))
	lo, off := k, q
	if d.c%8 == 0 {
		div := true
		for _, c := range d.coefs {
			if c%8 != 0 {
				div = false
			}
		}
		if div {
			lo, off = pos, Sub(q, DivC(d.term(), 8))
		}
	}
	return segGen(key, off, lo, AddC(lo, 1))
}

func zeroArr(elem types.Type, n *Term) *Term {
	if n.op == OInt && n.n <= 64 {
		var segs []*Term
		for i := int64(0); i < n.n; i++ {
			segs = append(segs, segLit(zero(elem)))
		}
		return mk(Term{op: OArr, args: segs, typ: types.NewSlice(elem)})
	}
	return mk(Term{op: OArr, args: []*Term{segZero(n)}, typ: types.NewSlice(elem)})
}

func elemTypeOfArr(content *Term) types.Type {
	switch u := content.typ.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

// arrElemType: element type of the array at location arr
func arrElemType(arr *Term) types.Type {
	if t := ptrElem(arr); t != nil {
		if a, ok := t.Underlying().(*types.Array); ok {
			return a.Elem()
		}
		if a, ok := t.Underlying().(*types.Slice); ok {
			return a.Elem()
		}
	}
	return nil
}

func elemOf(key, idx *Term, t types.Type) *Term {
	return expand(mk(Term{op: OElem, args: []*Term{key, idx}, typ: t}), t)
}

// findSeg locates the segment that provably contains idx
func (s *State) findSeg(content, idx *Term) (int, *Term) {
	start := Int(0)
	for i, g := range content.args {
		l := segLen(g)
		d := toLin(Sub(idx, start))
		if len(d.vars) == 0 && l.op == OInt {
			if d.c >= 0 && d.c < l.n {
				return i, start
			}
		} else if s.facts.entails(d) && s.facts.entails(lincomb(1, toLin(l), -1, d).addc(-1)) {
			return i, start
		}
		start = Add(start, l)
	}
	return -1, nil
}

func (s *State) readElem(content, idx *Term) *Term {
	et := elemTypeOfArr(content)
	i, start := s.findSeg(content, idx)
	if i < 0 {
		if isInt(et) || constElems(content) { // the content term itself identifies the value
			return mk(Term{op: OElem, args: []*Term{content, idx}, typ: et})
		}
		return freshVal("elem", et)
	}
	g := content.args[i]
	rel := Sub(idx, start)
	switch g.op {
	case OSegLit:
		return g.args[0]
	case OSegZero:
		return zero(et)
	case OSegSub:
		return elemOf(g.args[0], Add(g.args[1], rel), et)
	case OSegGen:
		if p := Add(g.args[2], rel); p.op == OInt {
			x := mk(Term{op: OElem, args: []*Term{g.args[0], AddC(g.args[1], p.n/8)}, typ: types.Typ[types.Uint8]})
			return Not(Eq0(toLin(And(x, Int(1<<uint(p.n%8))))))
		}
	}
	return freshVal("elem", et)
}

func (s *State) writeElem(content, idx, val *Term) *Term {
	et := elemTypeOfArr(content)
	i, start := s.findSeg(content, idx)
	total := Int(0)
	for _, g := range content.args {
		total = Add(total, segLen(g))
	}
	if i < 0 {
		return mk(Term{op: OArr, typ: content.typ, args: []*Term{segSub(Sym("havoc", content.typ), Int(0), total)}})
	}
	g := content.args[i]
	rel := Sub(idx, start)
	var segs []*Term
	segs = append(segs, content.args[:i]...)
	rest := Sub(Sub(segLen(g), rel), Int(1))
	switch g.op {
	case OSegLit:
		segs = append(segs, segLit(val))
	case OSegZero:
		segs = append(segs, segZero(rel), segLit(val), segZero(rest))
	case OSegSub:
		segs = append(segs, segSub(g.args[0], g.args[1], rel), segLit(val), segSub(g.args[0], Add(g.args[1], Add(rel, Int(1))), rest))
	case OSegGen:
		mid := Add(g.args[2], rel)
		segs = append(segs, segGen(g.args[0], g.args[1], g.args[2], mid), segLit(val), segGen(g.args[0], g.args[1], AddC(mid, 1), g.args[3]))
	}
	segs = append(segs, content.args[i+1:]...)
	return arrOf(et, segs)
}

// subContent returns the segments of content[from:from+n]
func (s *State) subContent(content, from, n *Term) []*Term {
	et := elemTypeOfArr(content)
	if n.op == OInt && n.n == 0 {
		return nil
	}
	end := Add(from, n)
	start := Int(0)
	var out []*Term
	collecting := false
	for _, g := range content.args {
		l := segLen(g)
		stop := Add(start, l)
		if !collecting && s.facts.entails(toLin(Sub(from, start))) && s.facts.entails(toLin(Sub(stop, end))) && s.facts.entails(toLin(n)) {
			return cutSeg(g, Sub(from, start), n, start) // all of it in one segment
		}
		if !collecting {
			// does from lie in [start, stop)? (from == stop is the next segment)
			if s.facts.entails(toLin(Sub(from, start))) && s.facts.entails(toLin(Sub(stop, from)).addc(-1)) ||
				s.facts.equalInt(from, start) {
				collecting = true
			} else if s.facts.entails(toLin(Sub(from, stop))) {
				start = stop
				continue
			} else {
				return []*Term{segSub(subOf(content, from, n, et), Int(0), n)}
			}
		}
		lo := Int(0)
		if !s.facts.entails(toLin(Sub(start, from))) { // start < from possible: cut
			lo = Sub(from, start)
		}
		if s.facts.entails(toLin(Sub(end, stop))) { // whole rest of the segment
			out = append(out, cutSeg(g, lo, Sub(l, lo), start)...)
		} else if s.facts.entails(toLin(Sub(stop, end))) {
			if hi := Sub(end, start); s.facts.entails(toLin(Sub(hi, lo))) {
				out = append(out, cutSeg(g, lo, Sub(hi, lo), start)...)
			}
			return arrOf(et, out).args
		} else {
			return []*Term{segSub(subOf(content, from, n, et), Int(0), n)}
		}
		if s.facts.entails(toLin(Sub(stop, end))) {
			return arrOf(et, out).args
		}
		start = stop
	}
	if collecting && s.facts.equalInt(start, end) {
		return arrOf(et, out).args
	}
	return []*Term{segSub(subOf(content, from, n, et), Int(0), n)}
}

func cutSeg(g, lo, n, start *Term) []*Term {
	if n.op == OInt && n.n <= 0 {
		return nil
	}
	switch g.op {
	case OSegLit:
		return []*Term{g}
	case OSegZero:
		return []*Term{segZero(n)}
	case OSegSub:
		return []*Term{segSub(g.args[0], Add(g.args[1], lo), n)}
	case OSegGen:
		a := Add(g.args[2], lo)
		return []*Term{segGen(g.args[0], g.args[1], a, Add(a, n))}
	}
	return []*Term{segSub(Sym("cut", nil), Int(0), n)}
}

// ---- memory ----

// frozenName: the name of the local variable at loc if it is stored only once
func (e *Eng) frozenName(loc *Term) string {
	switch loc.op {
	case OAlloc:
		if e.frozenAlloc[loc.name] {
			return loc.name
		}
	case OSym:
		if strings.HasPrefix(loc.name, "frz.") {
			return strings.SplitN(loc.name[4:], "#", 2)[0]
		}
	}
	return ""
}

func (e *Eng) epochOf(s *State, loc *Term) int64 {
	if loc.op == OSym && e.frozenName(loc) != "" {
		return 0
	}
	if f := fieldVar(loc); f != nil && e.frozen[f] {
		return 0
	}
	if v, ok := s.epochs.get(root(loc).id); ok {
		return v.n
	}
	return s.epoch
}

// defaultAt is the content of a location never written in this state
func (e *Eng) defaultAt(s *State, loc *Term, t types.Type) *Term {
	r := root(loc)
	if r.op == OAlloc {
		if _, hav := s.epochs.get(r.id); !hav {
			return zero(t)
		}
		if f := fieldVar(loc); f != nil && e.frozen[f] {
			return zero(t)
		}
	}
	if r.op == OGlobal {
		if v := e.globalInit(loc); v != nil {
			return v
		}
	}
	ep := e.epochOf(s, loc)
	x := mk(Term{op: OLoad, args: []*Term{loc}, n: ep, typ: t})
	if e.isNonNilLoc(s, loc) {
		s.facts.nils = s.facts.nils.set(x.id, tFalse)
	}
	return expand(x, t)
}

func (e *Eng) isNonNilLoc(s *State, loc *Term) bool {
	_, ok := s.nonnil.get(loc.id)
	return ok
}

func throughElem(loc *Term) bool {
	for loc.op == OField {
		loc = loc.args[0]
	}
	return loc.op == OElemAt
}

func (e *Eng) content(s *State, arr *Term) *Term {
	if arr.op == ONil {
		return mk(Term{op: OArr, typ: types.NewSlice(types.Typ[types.Uint8])})
	}
	if c, ok := s.heap.get(arr.id); ok {
		return c
	}
	if t := e.w.tableArr[arr.id]; t != nil {
		return t.content()
	}
	t := ptrElem(arr)
	if t == nil {
		return mk(Term{op: OArr, typ: types.NewSlice(types.Typ[types.Uint8]), args: []*Term{segSub(arr, Int(0), capOf(arr))}})
	}
	at, ok := t.Underlying().(*types.Array)
	if !ok {
		return mk(Term{op: OArr, typ: types.NewSlice(types.Typ[types.Uint8]), args: []*Term{segSub(arr, Int(0), capOf(arr))}})
	}
	if throughElem(arr) || arr.op == OField {
		return e.load(s, arr, t)
	}
	if at.Len() >= 0 {
		return e.defaultAt(s, arr, t)
	}
	var n *Term
	if arr.op == OCall && arr.name == "arr" {
		n = capOf(arr.args[0])
	} else {
		n = capOf(arr)
	}
	return mk(Term{op: OArr, typ: types.NewSlice(at.Elem()), args: []*Term{segSub(arr, Int(0), n)}})
}

func (e *Eng) load(s *State, loc *Term, t types.Type) *Term {
	if loc.op == OElemAt {
		return s.readElem(e.content(s, loc.args[0]), loc.args[1])
	}
	if throughElem(loc) {
		v := e.load(s, loc.args[0], ptrElem(loc.args[0]))
		return project(v, int(loc.n), t)
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		if v, ok := s.heap.get(loc.id); ok {
			return v
		}
		var fs []*Term
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			fs = append(fs, e.load(s, Field(loc, i, types.NewPointer(ft)), ft))
		}
		return Struct(t, fs...)
	}
	if v, ok := s.heap.get(loc.id); ok {
		return v
	}
	return e.defaultAt(s, loc, t)
}

func project(v *Term, i int, t types.Type) *Term {
	if v.op == OStruct {
		return v.args[i]
	}
	return expand(mk(Term{op: OCall, name: "field" + itoa(i), args: []*Term{v}, typ: t}), t)
}

func (e *Eng) store(s *State, loc, val *Term, t types.Type) {
	termByID[loc.id] = loc
	if loc.op == OElemAt {
		arr := loc.args[0]
		c := s.writeElem(e.content(s, arr), loc.args[1], val)
		e.setContent(s, arr, c)
		return
	}
	if throughElem(loc) {
		v := e.load(s, loc.args[0], ptrElem(loc.args[0]))
		if v.op == OStruct {
			a := append([]*Term{}, v.args...)
			a[loc.n] = val
			v = Struct(v.typ, a...)
		}
		e.store(s, loc.args[0], v, ptrElem(loc.args[0]))
		return
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			e.store(s, Field(loc, i, types.NewPointer(ft)), project(val, i, ft), ft)
		}
		return
	}
	r := root(loc)
	if r.op != OAlloc || e.isEscaped(s, r) {
		e.escape(s, val)
		if f := fieldVar(loc); f != nil { // other objects of the same type may be the same object
			var drop []*Term
			s.heap.each(func(id int, v *Term) {
				l := termByID[id]
				if l != nil && l != loc && fieldVar(l) == f && root(l) != r && (root(l).op != OAlloc || e.isEscaped(s, root(l))) {
					drop = append(drop, l)
				}
			})
			for _, l := range drop {
				s.heap = s.heap.set(l.id, freshVal("alias", ptrElem(l)))
			}
			if e.monotone[f] && s.facts.nilness(val) == 2 {
				s.nonnil = s.nonnil.set(loc.id, tTrue)
			}
		}
	}
	s.heap = s.heap.set(loc.id, val)
}

func (e *Eng) setContent(s *State, arr, c *Term) {
	termByID[arr.id] = arr
	if arr.op == OField && !throughElem(arr) || arr.op == OGlobal || arr.op == OAlloc || arr.op == OCall || arr.op == OSym || arr.op == OLoad || arr.op == OElem {
		s.heap = s.heap.set(arr.id, c)
	} else if throughElem(arr) || arr.op == OElemAt {
		e.store(s, arr, c, ptrElem(arr))
	} else {
		s.heap = s.heap.set(arr.id, c)
	}
	if o, ok := s.alias.get(arr.id); ok && o != arr {
		e.fire(&Event{Kind: EvMayWrite, S: s, Ptr: o, Instr: e.cur})
		oc := e.content(s, o)
		total := Int(0)
		for _, g := range oc.args {
			total = Add(total, segLen(g))
		}
		s.heap = s.heap.set(o.id, mk(Term{op: OArr, typ: oc.typ, args: []*Term{segSub(Sym("aliased", oc.typ), Int(0), total)}}))
	}
}

func (e *Eng) isEscaped(s *State, r *Term) bool {
	_, ok := s.escaped.get(r.id)
	return ok
}

// escape marks everything reachable from a value as visible to others
func (e *Eng) escape(s *State, v *Term) {
	seen := map[*Term]bool{}
	var w func(v *Term)
	w = func(v *Term) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if v.op == OAlloc && !e.isEscaped(s, v) {
			if e.wantEscape {
				e.fire(&Event{Kind: EvEscape, S: s, Ptr: v})
			}
			s.escaped = s.escaped.set(v.id, tTrue)
			termByID[v.id] = v
			s.heap.each(func(id int, c *Term) {
				if l := termByID[id]; l != nil && root(l) == v {
					w(c)
				}
			})
		}
		switch v.op {
		case OLin, OGe0, OEq0, OFCmp:
			return
		}
		for _, a := range v.args {
			w(a)
		}
	}
	w(v)
}

// havocShared forgets everything other goroutines may change
func (e *Eng) havocShared(s *State) {
	held := map[*Term]bool{}
	for _, l := range s.locks {
		held[l.owner] = true
	}
	keep := func(r *Term) bool { return held[r] }
	if len(e.monotone) > 0 {
		known := func(l, v *Term) {
			if f := fieldVar(l); f != nil && e.monotone[f] && s.facts.nilness(v) == 2 {
				s.nonnil = s.nonnil.set(l.id, tTrue)
				termByID[l.id] = l
			}
		}
		s.heap.each(func(id int, v *Term) {
			if l := termByID[id]; l != nil && l.op == OField && (root(l).op != OAlloc || e.isEscaped(s, root(l))) {
				known(l, v)
			}
		})
		s.facts.nils.each(func(id int, v *Term) {
			if t := termByID[id]; t != nil && v == tFalse && t.op == OLoad {
				known(t.args[0], t)
			}
		})
	}
	var drop []int
	touched := map[*Term]bool{}
	s.heap.each(func(id int, v *Term) {
		l := termByID[id]
		if l == nil {
			return
		}
		r := root(l)
		if r.op == OAlloc && !e.isEscaped(s, r) {
			return
		}
		if keep(r) {
			return
		}
		if e.frozenName(r) != "" {
			return
		}
		if l.op == OField {
			if f := fieldVar(l); f != nil && e.frozen[f] {
				return
			}
		} else if l.op == OCall || l.op == OSym {
			return // array contents
		} else if l.op == OAlloc {
			if t := ptrElem(l); t != nil {
				if _, isArr := t.Underlying().(*types.Array); isArr {
					return
				}
			}
		}
		drop = append(drop, id)
		touched[r] = true
	})
	for _, id := range drop {
		s.heap = s.heap.del(id)
	}
	// held objects keep their epoch, everything else gets a new one
	ne := pmap{}
	old := s.epochs
	for r := range held {
		if v, ok := old.get(r.id); ok {
			ne = ne.set(r.id, v)
		} else {
			if r.op != OAlloc {
				ne = ne.set(r.id, Int(s.epoch))
			}
		}
	}
	s.epoch = fresh()
	old.each(func(id int, v *Term) {
		if _, ok := ne.get(id); ok {
			return
		}
		if t := termByID[id]; t != nil && t.op == OAlloc {
			ne = ne.set(id, Int(s.epoch))
		}
	})
	s.escaped.each(func(id int, _ *Term) {
		t := termByID[id]
		if t == nil || held[t] || e.frozenAlloc[t.name] {
			return
		}
		if pt := ptrElem(t); pt != nil {
			if _, isArr := pt.Underlying().(*types.Array); isArr {
				return
			}
		}
		ne = ne.set(id, Int(s.epoch))
	})
	s.epochs = ne
}

// subOf: the elements of a content in a range that the facts do not relate to its parts
func subOf(content, from, n *Term, et types.Type) *Term {
	return mk(Term{op: OCall, name: "sub", args: []*Term{content, from, n}, typ: types.NewSlice(et)})
}
