package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) deref(s *State, p *Term, at ssa.Instruction, what string) bool {
	switch s.facts.nilness(p) {
	case 2:
		return true
	case 1:
		e.oblige(s, "nil", e.where(s, at, what), at, false, what+" is nil")
		return false
	}
	ok := !e.nilable(s, p)
	e.oblige(s, "nil", e.where(s, at, what), at, ok, what+" may be nil: "+p.String())
	s.facts.nils = s.facts.nils.set(p.id, tFalse)
	termByID[p.id] = p
	return true
}

// nilable: is there a reason to believe that the value can be nil?
func (e *Eng) nilable(s *State, p *Term) bool {
	switch p.op {
	case OSym:
		return len(p.name) > 0 && p.name[0] == '?'
	case OLoad:
		if f := fieldVar(p.args[0]); f != nil && e.optional[f] && !e.always[f] {
			return true
		}
		return false
	case OElem:
		if e.optElem[typStr(p.typ)] {
			return true
		}
		return false
	case OUnwrap:
		return false
	case OCall:
		if len(p.args) > 0 && (len(p.name) > 5 && p.name[:5] == "field" || len(p.name) > 3 && p.name[:3] == "ext") {
			return e.nilable(s, p.args[0])
		}
	}
	return false
}

// what describes an ssa value for messages and obligation keys
func (e *Eng) describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return e.describe(x.X)
		}
		if x.Op == token.ARROW {
			return "received value"
		}
	case *ssa.FieldAddr:
		if st, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
			return e.describe(x.X) + "." + st.Field(x.Field).Name()
		}
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return e.describe(x.X) + "." + st.Field(x.Field).Name()
		}
	case *ssa.IndexAddr:
		return e.describe(x.X) + "[" + e.describe(x.Index) + "]"
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return v.Name()
	case *ssa.Const:
		return x.Value.ExactString()
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
		if x.Call.IsInvoke() {
			return x.Call.Method.Name() + "()"
		}
	case *ssa.Extract:
		return e.describe(x.Tuple)
	case *ssa.Slice:
		return e.describe(x.X) + "[:]"
	case *ssa.Convert:
		return e.describe(x.X)
	case *ssa.BinOp:
		return e.describe(x.X) + x.Op.String() + e.describe(x.Y)
	case *ssa.TypeAssert:
		return e.describe(x.X)
	case *ssa.Lookup:
		return e.describe(x.X) + "[...]"
	case *ssa.Next:
		return "range element"
	case *ssa.MakeInterface:
		return e.describe(x.X)
	case *ssa.ChangeType:
		return e.describe(x.X)
	}
	return typStr(v.Type())
}

func (e *Eng) instr(s *State, in ssa.Instruction) []*State {
	one := []*State{s}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		e.set(s, x, e.alloc(s, x.Type().Underlying().(*types.Pointer).Elem(), "a"+itoa(posID(x))))
		return one
	case *ssa.BinOp:
		return e.binop(s, x)
	case *ssa.UnOp:
		return e.unop(s, x)
	case *ssa.ChangeType:
		e.set(s, x, retype(e.val(s, x.X), x.Type()))
		return one
	case *ssa.ChangeInterface:
		e.set(s, x, e.val(s, x.X))
		return one
	case *ssa.Convert:
		e.set(s, x, e.convert(s, e.val(s, x.X), x.X.Type(), x.Type()))
		return one
	case *ssa.MultiConvert:
		e.set(s, x, freshVal("conv", x.Type()))
		return one
	case *ssa.MakeInterface:
		e.set(s, x, Iface(x.X.Type(), e.val(s, x.X)))
		return one
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range x.Bindings {
			b = append(b, e.val(s, v))
		}
		e.set(s, x, mk(Term{op: OFunc, fn: x.Fn.(*ssa.Function), args: b, typ: x.Type()}))
		return one
	case *ssa.MakeMap:
		a := e.alloc(s, x.Type(), "map"+itoa(posID(x)))
		e.set(s, x, a)
		return one
	case *ssa.MakeChan:
		n := e.val(s, x.Size)
		a := e.alloc(s, x.Type(), "chan"+itoa(posID(x)))
		s.setExtra("chancap"+itoa(a.id), n)
		e.set(s, x, a)
		return one
	case *ssa.MakeSlice:
		ln, cp := e.val(s, x.Len), e.val(s, x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		ok := s.facts.entails(toLin(ln)) && s.facts.entails(toLin(Sub(cp, ln)))
		e.oblige(s, "makeslice", e.where(s, in, "make "+typStr(x.Type())), in, ok, "length of make may be negative: "+ln.String())
		s.facts.addGe(toLin(ln))
		s.facts.addGe(toLin(Sub(cp, ln)))
		arr := e.newArr(s, et, zeroArr(et, cp), "mk"+itoa(posID(x)))
		e.set(s, x, Slice(arr, Int(0), ln, cp, x.Type()))
		return one
	case *ssa.FieldAddr:
		p := e.val(s, x.X)
		if !e.deref(s, p, in, e.describe(x.X)) {
			return nil
		}
		e.set(s, x, Field(p, x.Field, x.Type()))
		return one
	case *ssa.Field:
		e.set(s, x, project(e.val(s, x.X), x.Field, x.Type()))
		return one
	case *ssa.IndexAddr:
		return e.indexAddr(s, x)
	case *ssa.Index:
		v := e.val(s, x.X)
		idx := e.val(s, x.Index)
		if isString(x.X.Type()) {
			e.bounds(s, in, idx, strLen(v), e.describe(x.X)+"["+e.describe(x.Index)+"]")
			e.set(s, x, e.strIndex(v, idx))
			return one
		}
		n := Int(x.X.Type().Underlying().(*types.Array).Len())
		if !e.bounds(s, in, idx, n, e.describe(x.X)+"["+e.describe(x.Index)+"]") {
			return nil
		}
		if v.op == OArr {
			e.set(s, x, s.readElem(v, idx))
		} else {
			e.set(s, x, freshVal("idx", x.Type()))
		}
		return one
	case *ssa.Slice:
		return e.sliceOp(s, x)
	case *ssa.Lookup:
		return e.lookup(s, x)
	case *ssa.MapUpdate:
		m := e.val(s, x.Map)
		k, v := e.val(s, x.Key), e.val(s, x.Value)
		if !e.deref(s, m, in, e.describe(x.Map)) {
			return nil
		}
		e.escape(s, v)
		if root(m).op != OAlloc && m.op != OAlloc {
			s.dropRange()
		}
		e.fire(&Event{Kind: EvMapSet, S: s, Instr: in, Ptr: m, Args: []*Term{k}, Val: v})
		return one
	case *ssa.Extract:
		t := e.val(s, x.Tuple)
		if t.op == OTuple {
			e.set(s, x, t.args[x.Index])
		} else {
			e.set(s, x, project(expand(t, x.Tuple.Type()), x.Index, x.Type()))
		}
		return one
	case *ssa.Store:
		p := e.val(s, x.Addr)
		if !e.deref(s, p, in, e.describe(x.Addr)) {
			return nil
		}
		v := e.val(s, x.Val)
		ev := &Event{Kind: EvStore, S: s, Instr: in, Ptr: p, Val: v}
		e.fire(ev)
		v = ev.Val
		if p.op == OElemAt && root(p.args[0]).op != OAlloc {
			e.fire(&Event{Kind: EvMayWrite, S: s, Instr: in, Ptr: p.args[0]})
		}
		e.store(s, p, v, x.Val.Type())
		return one
	case *ssa.TypeAssert:
		return e.typeAssert(s, x)
	case *ssa.Range:
		v := e.val(s, x.X)
		e.set(s, x, mk(Term{op: OCall, name: "range", args: []*Term{v}, typ: x.X.Type(), n: fresh()}))
		e.fire(&Event{Kind: EvRange, S: s, Instr: in, Ptr: v})
		return one
	case *ssa.Next:
		return e.next(s, x)
	case *ssa.Send:
		ch, v := e.val(s, x.Chan), e.val(s, x.X)
		if s.facts.nilness(ch) == 1 {
			return nil // blocks forever
		}
		e.fire(&Event{Kind: EvTryWait, S: s, Instr: in, Chans: []*Term{ch}, Dirs: []types.ChanDir{types.SendOnly}, Args: []*Term{v}, Block: true})
		e.escape(s, v)
		ev := &Event{Kind: EvSend, S: s, Instr: in, Ptr: ch, Val: v}
		e.fire(ev)
		if ev.Kill {
			return nil
		}
		e.havocShared(s)
		return one
	case *ssa.Select:
		return e.selectOp(s, x)
	case *ssa.Go:
		return e.goStmt(s, x)
	case *ssa.Defer:
		s.fr.defers = append(append([]deferred{}, s.fr.defers...), e.deferOf(s, x))
		return one
	case *ssa.RunDefers:
		return e.runDefers(s)
	case *ssa.Call:
		outs := e.callInstr(s, &x.Call, x)
		for _, o := range outs {
			if o.ret != nil {
				e.set(o, x, o.ret)
			}
			o.ret = nil
		}
		return outs
	}
	e.gaveUp = "unsupported instruction " + in.String()
	return nil
}

func retype(t *Term, typ types.Type) *Term {
	switch t.op {
	case OSlice:
		return Slice(t.args[0], t.args[1], t.args[2], t.args[3], typ)
	case OStruct:
		return Struct(typ, t.args...)
	case ONil:
		return Nil(typ)
	}
	return t
}

var allocSeq int64

func (e *Eng) alloc(s *State, elem types.Type, name string) *Term {
	allocSeq++
	return mk(Term{op: OAlloc, n: allocSeq, name: name, typ: types.NewPointer(elem)})
}

func (e *Eng) newArr(s *State, et types.Type, content *Term, name string) *Term {
	a := e.alloc(s, types.NewArray(et, -1), name)
	s.heap = s.heap.set(a.id, content)
	termByID[a.id] = a
	return a
}

func strLen(v *Term) *Term {
	if v.op == OConst {
		return Int(int64(len(constStr(v))))
	}
	return mk(Term{op: OStrLen, args: []*Term{v}})
}

func (e *Eng) strIndex(v, idx *Term) *Term {
	if v.op == OConst && idx.op == OInt {
		str := constStr(v)
		if idx.n >= 0 && idx.n < int64(len(str)) {
			return Int(int64(str[idx.n]))
		}
	}
	return mk(Term{op: OElem, args: []*Term{v, idx}, typ: types.Typ[types.Uint8]})
}

// bounds checks 0 <= idx < n
func (e *Eng) bounds(s *State, at ssa.Instruction, idx, n *Term, what string) bool {
	lo := s.facts.entails(toLin(idx))
	hi := s.facts.entails(toLin(Sub(n, idx)).addc(-1))
	e.oblige(s, "index", e.where(s, at, what), at, lo && hi, "index "+idx.String()+" may be out of range (length "+n.String()+")")
	ok := true
	if !lo {
		ok = s.facts.addGe(toLin(idx)) && ok
	}
	if !hi {
		ok = ok && s.facts.addGe(toLin(Sub(n, idx)).addc(-1))
	}
	return ok
}

func (e *Eng) indexAddr(s *State, x *ssa.IndexAddr) []*State {
	v, idx := e.val(s, x.X), e.val(s, x.Index)
	what := e.describe(x.X) + "[" + e.describe(x.Index) + "]"
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if !e.deref(s, v, x, e.describe(x.X)) {
			return nil
		}
		if !e.bounds(s, x, idx, Int(pt.Elem().Underlying().(*types.Array).Len()), what) {
			return nil
		}
		e.set(s, x, ElemAt(v, idx, x.Type()))
		return []*State{s}
	}
	if v.op != OSlice {
		v = expand(v, x.X.Type())
	}
	if !e.bounds(s, x, idx, v.args[2], what) {
		return nil
	}
	e.fire(&Event{Kind: EvIndex, S: s, Instr: x, Ptr: v, Args: []*Term{idx}})
	e.set(s, x, ElemAt(v.args[0], Add(v.args[1], idx), x.Type()))
	return []*State{s}
}

func (e *Eng) sliceOp(s *State, x *ssa.Slice) []*State {
	v := e.val(s, x.X)
	opt := func(o ssa.Value) *Term {
		if o == nil {
			return nil
		}
		return e.val(s, o)
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = Int(0)
	}
	what := e.describe(x.X) + "[" + descOr(e, x.Low) + ":" + descOr(e, x.High) + "]"
	chk := func(l *Lin, msg string) bool {
		ok := s.facts.entails(l)
		e.oblige(s, "slice", e.where(s, x, what), x, ok, msg)
		if !ok {
			return s.facts.addGe(l)
		}
		return true
	}
	if isString(x.X.Type()) {
		n := strLen(v)
		if hi == nil {
			hi = n
		}
		if !chk(toLin(lo), "negative start "+lo.String()) || !chk(toLin(Sub(hi, lo)), "start "+lo.String()+" may exceed end "+hi.String()) ||
			!chk(toLin(Sub(n, hi)), "end "+hi.String()+" may exceed length "+n.String()) {
			return nil
		}
		e.set(s, x, mk(Term{op: OCall, name: "substr", args: []*Term{v, lo, hi}, typ: types.Typ[types.String]}))
		return []*State{s}
	}
	var arr, off, ln, cp *Term
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok { // array pointer
		if !e.deref(s, v, x, e.describe(x.X)) {
			return nil
		}
		n := Int(pt.Elem().Underlying().(*types.Array).Len())
		arr, off, ln, cp = v, Int(0), n, n
	} else {
		if v.op != OSlice {
			v = expand(v, x.X.Type())
		}
		arr, off, ln, cp = v.args[0], v.args[1], v.args[2], v.args[3]
	}
	if hi == nil {
		hi = ln
	}
	lim := cp
	if mx != nil {
		lim = mx
		if !chk(toLin(Sub(cp, mx)), "slice capacity bound "+mx.String()+" may exceed "+cp.String()) {
			return nil
		}
	}
	e.fire(&Event{Kind: EvSlice, S: s, Instr: x, Ptr: v, Args: []*Term{lo, hi}})
	if !chk(toLin(lo), "slice start "+lo.String()+" may be negative") ||
		!chk(toLin(Sub(hi, lo)), "slice start "+lo.String()+" may exceed end "+hi.String()) ||
		!chk(toLin(Sub(lim, hi)), "slice end "+hi.String()+" may exceed capacity "+lim.String()) {
		return nil
	}
	r := Slice(arr, Add(off, lo), Sub(hi, lo), Sub(lim, lo), x.Type())
	e.set(s, x, r)
	return []*State{s}
}

func descOr(e *Eng, v ssa.Value) string {
	if v == nil {
		return ""
	}
	return e.describe(v)
}

func (e *Eng) lookup(s *State, x *ssa.Lookup) []*State {
	m, k := e.val(s, x.X), e.val(s, x.Index)
	if isString(x.X.Type()) {
		e.bounds(s, x, k, strLen(m), e.describe(x.X)+"["+e.describe(x.Index)+"]")
		e.set(s, x, e.strIndex(m, k))
		return []*State{s}
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	ev := &Event{Kind: EvMapRead, S: s, Instr: x, Ptr: m, Args: []*Term{k}}
	e.fire(ev)
	if ev.Val != nil { // a hook supplied the value
		if x.CommaOk {
			e.set(s, x, Tuple(ev.Val, tTrue))
		} else {
			e.set(s, x, ev.Val)
		}
		return []*State{s}
	}
	if out := e.tableLookup(s, x, m, k); out != nil {
		return out
	}
	found := func(nilable bool) *Term {
		n := "mapval"
		if nilable {
			n = "?mapval"
		}
		v := mk(Term{op: OSym, name: n + "#" + itoa(int(fresh())), typ: vt})
		r := expand(v, vt)
		s.setExtra("mapval"+itoa(v.id), Tuple(m, k))
		return r
	}
	got := func(st *State, v *Term) {
		e.fire(&Event{Kind: EvMapGot, S: st, Instr: x, Ptr: m, Args: []*Term{k}, Val: v})
	}
	if rv := s.extra["rangeval"+itoa(k.id)]; rv != nil && rv.args[0] == m { // the entry an iteration is at
		v := rv.args[1]
		if x.CommaOk {
			e.set(s, x, Tuple(v, tTrue))
		} else {
			e.set(s, x, v)
		}
		got(s, v)
		return []*State{s}
	}
	if x.CommaOk {
		no := s.clone()
		e.set(no, x, Tuple(zero(vt), tFalse))
		got(no, zero(vt))
		v := found(false)
		e.set(s, x, Tuple(v, tTrue))
		got(s, v)
		return []*State{s, no}
	}
	switch vt.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		no := s.clone()
		e.set(no, x, zero(vt))
		got(no, zero(vt))
		v := found(false)
		if v.op != OSlice {
			s.facts.nils = s.facts.nils.set(v.id, tFalse)
		}
		e.set(s, x, v)
		got(s, v)
		return []*State{s, no}
	}
	v := found(true)
	e.set(s, x, v)
	got(s, v)
	return []*State{s}
}

func (e *Eng) typeAssert(s *State, x *ssa.TypeAssert) []*State {
	v := e.val(s, x.X)
	mkRes := func(st *State, val *Term, ok *Term) *State {
		if x.CommaOk {
			e.set(st, x, Tuple(val, ok))
		} else {
			e.set(st, x, val)
		}
		return st
	}
	fail := func(st *State) []*State {
		if !x.CommaOk {
			return nil
		}
		return []*State{mkRes(st, zero(x.AssertedType), tFalse)}
	}
	what := e.describe(x.X) + ".(" + typStr(x.AssertedType) + ")"
	if s.facts.nilness(v) == 1 {
		if !x.CommaOk {
			e.oblige(s, "assert", e.where(s, x, what), x, false, "type assertion on nil")
		}
		return fail(s)
	}
	toIface := types.IsInterface(x.AssertedType)
	if d := s.facts.dynType(v); d != nil {
		var holds bool
		if toIface {
			holds = types.Implements(d, x.AssertedType.Underlying().(*types.Interface))
		} else {
			holds = types.Identical(d, x.AssertedType)
		}
		if !x.CommaOk {
			e.oblige(s, "assert", e.where(s, x, what), x, holds, "dynamic type is "+typStr(d))
		}
		if !holds {
			return fail(s)
		}
		if toIface {
			return []*State{mkRes(s, v, tTrue)}
		}
		return []*State{mkRes(s, unwrap(v, x.AssertedType), tTrue)}
	}
	if toIface { // unknown dynamic type
		no := s.clone()
		if !x.CommaOk {
			e.oblige(s, "assert", e.where(s, x, what), x, false, "dynamic type unknown")
		}
		s.facts.nils = s.facts.nils.set(v.id, tFalse)
		termByID[v.id] = v
		return append([]*State{mkRes(s, v, tTrue)}, fail(no)...)
	}
	if s.facts.notDyn(v, x.AssertedType) {
		return fail(s)
	}
	if !x.CommaOk {
		e.oblige(s, "assert", e.where(s, x, what), x, false, "dynamic type unknown")
	}
	no := s.clone()
	s.facts.setDyn(v, x.AssertedType)
	u := unwrap(v, x.AssertedType)
	no.facts.addNotDyn(v, x.AssertedType)
	e.note(s, e.w.pos(x)+" is "+typStr(x.AssertedType))
	return append([]*State{mkRes(s, u, tTrue)}, fail(no)...)
}

func unwrap(v *Term, t types.Type) *Term {
	if v.op == OIface {
		return v.args[0]
	}
	return expand(mk(Term{op: OUnwrap, args: []*Term{v}, typ: t}), t)
}

// dropRange forgets the entries that iterations over maps are at: they are
// what the map holds only until it may be changed.
func (s *State) dropRange() {
	for n := range s.extra {
		if strings.HasPrefix(n, "rangeval") {
			s.setExtra(n, nil)
		}
	}
}

func (e *Eng) next(s *State, x *ssa.Next) []*State {
	it := e.val(s, x.Iter)
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		no := s.clone()
		e.set(no, x, Tuple(tFalse, Int(0), Int(0)))
		i, r := Sym("ri", types.Typ[types.Int]), Sym("rune", types.Typ[types.Int32])
		s.facts.addGe(toLin(i))
		if it.op == OCall && it.name == "range" {
			s.facts.addGe(toLin(Sub(strLen(it.args[0]), i)).addc(-1))
		}
		e.set(s, x, Tuple(tTrue, i, r))
		return []*State{s, no}
	}
	m := it
	if it.op == OCall && it.name == "range" {
		m = it.args[0]
	}
	no := s.clone()
	mt, _ := rangeMapType(x)
	zk, zv := Int(0), Int(0)
	if mt != nil {
		zk, zv = zero(mt.Key()), zero(mt.Elem())
	}
	e.set(no, x, Tuple(tFalse, zk, zv))
	e.fire(&Event{Kind: EvRangeEnd, S: no, Instr: x, Ptr: m})
	if s.facts.nilness(m) == 1 {
		return []*State{no}
	}
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	if mt != nil {
		kt, vt = mt.Key(), mt.Elem()
	}
	k := Sym("mapkey", kt)
	v := Sym("mapval", vt)
	if e.optElem[typStr(vt)] || m.op == OSym && len(m.name) > 5 && m.name[:5] == "?json" {
		v = Sym("?mapval", vt)
	}
	s.setExtra("mapval"+itoa(v.id), Tuple(m, k))
	s.setExtra("mapkey"+itoa(k.id), Tuple(m, it))
	kk, vv := expand(k, kt), expand(v, vt)
	ev := &Event{Kind: EvMapRead, S: s, Instr: x, Ptr: m, Args: []*Term{kk}, Val: vv, Mode: 'r'}
	e.fire(ev)
	s.dropRange()
	s.setExtra("rangeval"+itoa(kk.id), Tuple(m, vv))
	e.set(s, x, Tuple(tTrue, kk, vv))
	return []*State{s, no}
}

func rangeMapType(x *ssa.Next) (*types.Map, bool) {
	if r, ok := x.Iter.(*ssa.Range); ok {
		m, ok := r.X.Type().Underlying().(*types.Map)
		return m, ok
	}
	return nil, false
}

// recvVal is what a receive from ch yields
func (e *Eng) recvVal(ch *Term, t types.Type) *Term {
	return freshVal("?recv", t)
}

func isTimer(ch *Term) bool {
	switch ch.op {
	case OCall:
		return ch.name == "time.After" || ch.name == "time.Tick"
	case OSym: // one of two timers
		return strings.HasPrefix(ch.name, "timer#")
	case OLoad:
		if f := fieldVar(ch.args[0]); f != nil && f.Name() == "C" && f.Pkg() != nil && f.Pkg().Path() == "time" {
			return true
		}
	}
	return false
}

func chanElem(t types.Type) types.Type {
	return t.Underlying().(*types.Chan).Elem()
}

func (e *Eng) unop(s *State, x *ssa.UnOp) []*State {
	v := e.val(s, x.X)
	switch x.Op {
	case token.MUL:
		if !e.deref(s, v, x, e.describe(x.X)) {
			return nil
		}
		if out := e.splitTable(s, x, v); out != nil {
			return out
		}
		if alts := e.splitSegs(s, v); len(alts) > 1 {
			var out []*State
			for _, a := range alts {
				out = append(out, e.unop(a, x)...)
			}
			return out
		}
		r := e.load(s, v, x.Type())
		ev := &Event{Kind: EvLoad, S: s, Instr: x, Ptr: v, Val: r}
		e.fire(ev)
		e.set(s, x, ev.Val)
	case token.NOT:
		e.set(s, x, Not(v))
	case token.SUB:
		if isFloat(x.Type()) {
			e.set(s, x, mk(Term{op: OBin, name: "fneg", args: []*Term{v}, typ: x.Type()}))
		} else {
			e.set(s, x, e.fit(s, Mul(Int(-1), v), x.Type()))
		}
	case token.XOR:
		if lo, hi, ok := intRange(x.Type()); ok && lo == 0 {
			if hi == 255 {
				e.set(s, x, Xor(255, v))
			} else {
				e.set(s, x, Sub(Int(hi), v))
			}
		} else {
			e.set(s, x, Sub(Int(-1), v))
		}
	case token.ARROW:
		et := chanElem(x.X.Type())
		if s.facts.nilness(v) == 1 {
			return nil
		}
		e.fire(&Event{Kind: EvTryWait, S: s, Instr: x, Chans: []*Term{v}, Dirs: []types.ChanDir{types.RecvOnly}, Block: true})
		e.havocShared(s)
		if x.CommaOk {
			no := s.clone()
			e.set(no, x, Tuple(zero(et), tFalse))
			e.fire(&Event{Kind: EvRecv, S: no, Instr: x, Ptr: v, Val: zero(et), Mode: 'c'})
			r := freshVal("?recvok", et)
			e.set(s, x, Tuple(r, tTrue))
			e.fire(&Event{Kind: EvRecv, S: s, Instr: x, Ptr: v, Val: r, Mode: 'v'})
			return []*State{s, no}
		}
		r := e.recvVal(v, et)
		e.set(s, x, r)
		ev := &Event{Kind: EvRecv, S: s, Instr: x, Ptr: v, Val: r}
		e.fire(ev)
		if ev.Kill {
			return nil
		}
	}
	return []*State{s}
}

func (e *Eng) selectOp(s *State, x *ssa.Select) []*State {
	var outs []*State
	var chans []*Term
	var dirs []types.ChanDir
	var vals []*Term
	for _, c := range x.States {
		chans = append(chans, e.val(s, c.Chan))
		dirs = append(dirs, c.Dir)
		var v *Term
		if c.Send != nil {
			v = e.val(s, c.Send)
		}
		vals = append(vals, v)
	}
	e.fire(&Event{Kind: EvTryWait, S: s, Instr: x, Chans: chans, Dirs: dirs, Args: vals, Block: x.Blocking})
	nrecv := 0
	for _, c := range x.States {
		if c.Dir == types.RecvOnly {
			nrecv++
		}
	}
	res := func(idx int, ok *Term, ri int, val *Term) *Term {
		l := []*Term{Int(int64(idx)), ok}
		k := 0
		for _, c := range x.States {
			if c.Dir == types.RecvOnly {
				if k == ri {
					l = append(l, val)
				} else {
					l = append(l, zero(chanElem(c.Chan.Type())))
				}
				k++
			}
		}
		return Tuple(l...)
	}
	ri := 0
	for i, c := range x.States {
		myri := -1
		if c.Dir == types.RecvOnly {
			myri = ri
			ri++
		}
		ch := chans[i]
		if s.facts.nilness(ch) == 1 {
			continue
		}
		st := s.clone()
		e.note(st, e.w.pos(x)+" case "+itoa(i))
		if c.Dir == types.SendOnly {
			v := e.val(st, c.Send)
			e.escape(st, v)
			ev := &Event{Kind: EvSend, S: st, Instr: x, Ptr: ch, Val: v}
			e.fire(ev)
			e.havocShared(st)
			e.set(st, x, res(i, tFalse, -1, nil))
			if !ev.Kill {
				outs = append(outs, st)
			}
			continue
		}
		e.havocShared(st)
		r := e.recvVal(ch, chanElem(c.Chan.Type()))
		ev := &Event{Kind: EvRecv, S: st, Instr: x, Ptr: ch, Val: r}
		e.fire(ev)
		ok := Sym("recvok", types.Typ[types.Bool])
		e.set(st, x, res(i, ok, myri, r))
		if !ev.Kill {
			outs = append(outs, st)
		}
	}
	if !x.Blocking {
		e.set(s, x, res(-1, tFalse, -1, nil))
		e.note(s, e.w.pos(x)+" default")
		outs = append(outs, s)
	}
	return outs
}

func (e *Eng) goStmt(s *State, x *ssa.Go) []*State {
	c := &x.Call
	var args []*Term
	for _, a := range c.Args {
		v := e.val(s, a)
		args = append(args, v)
		e.escape(s, v)
	}
	if c.IsInvoke() {
		r := e.val(s, c.Value)
		e.fire(&Event{Kind: EvGo, S: s, Instr: x, Method: c.Method, Recv: r, Args: args})
		return []*State{s}
	}
	f := e.val(s, c.Value)
	e.escape(s, f)
	ev := &Event{Kind: EvGo, S: s, Instr: x, Ptr: f, Args: args}
	if f.op == OFunc {
		ev.Callee = f.fn
	} else if !e.deref(s, f, x, e.describe(c.Value)) {
		return nil
	}
	e.fire(ev)
	if e.probe == 0 && e.followGo {
		fs := []*Term{f}
		if f.op != OFunc && e.resolveDyn != nil {
			fs = e.resolveDyn(c.Signature())
		}
		for _, f := range fs {
			if f.op != OFunc || f.fn.Blocks == nil {
				continue
			}
			st := s.clone()
			st.locks = nil
			st.mon = map[string]string{}
			st.fr = &Frame{}
			e.havocShared(st)
			ex := map[string]*Term{}
			for k, v := range st.extra {
				ex[k] = v
			}
			ex["go.fn"], ex["go.args"] = f, Tuple(args...)
			st.extra = ex
			k := spawnKey{x, f.fn}
			if len(e.spawns[k]) == 0 {
				e.spawnOrder = append(e.spawnOrder, k)
			}
			e.spawns[k] = append(e.spawns[k], st)
		}
	}
	return []*State{s}
}

func (e *Eng) deferOf(s *State, x *ssa.Defer) deferred {
	d := deferred{instr: x}
	c := &x.Call
	if c.IsInvoke() {
		d.args = append(d.args, e.val(s, c.Value))
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		d.fn = e.val(s, c.Value)
	}
	for _, a := range c.Args {
		d.args = append(d.args, e.val(s, a))
	}
	return d
}

func (e *Eng) runDefers(s *State) []*State {
	ss := []*State{s}
	for {
		var next []*State
		done := true
		for _, s := range ss {
			n := len(s.fr.defers)
			if n == 0 {
				next = append(next, s)
				continue
			}
			done = false
			d := s.fr.defers[n-1]
			s.fr.defers = s.fr.defers[: n-1 : n-1]
			e.cur = d.instr
			next = append(next, e.callDeferred(s, d)...)
		}
		ss = next
		if done {
			return ss
		}
	}
}

func (e *Eng) callDeferred(s *State, d deferred) []*State {
	c := &d.instr.Call
	var outs []*State
	if b, ok := c.Value.(*ssa.Builtin); ok {
		outs = e.builtin(s, b.Name(), d.args, c, d.instr, nil)
	} else if c.IsInvoke() {
		outs = e.invoke(s, c.Method, d.args[0], d.args[1:], d.instr)
	} else {
		outs = e.callVal(s, d.fn, d.args, d.instr, c)
	}
	for _, o := range outs {
		o.ret = nil
	}
	return outs
}

func (e *Eng) callInstr(s *State, c *ssa.CallCommon, at ssa.Instruction) []*State {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	if c.IsInvoke() {
		return e.invoke(s, c.Method, e.val(s, c.Value), args, at)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var res ssa.Value
		if v, ok := at.(ssa.Value); ok {
			res = v
		}
		return e.builtin(s, b.Name(), args, c, at, res)
	}
	return e.callVal(s, e.val(s, c.Value), args, at, c)
}

func (e *Eng) callVal(s *State, f *Term, args []*Term, at ssa.Instruction, c *ssa.CallCommon) []*State {
	if f.op == OFunc {
		return e.callFn(s, f.fn, args, f.args, at)
	}
	if !e.deref(s, f, at, e.describe(c.Value)) {
		return nil
	}
	for _, a := range args {
		e.escape(s, a)
	}
	ev := &Event{Kind: EvDyn, S: s, Instr: at, Ptr: f, Args: args}
	e.fire(ev)
	if ev.Kill {
		return nil
	}
	if e.resolveDyn != nil {
		if fs := e.resolveDyn(c.Signature()); len(fs) > 0 {
			var outs []*State
			for i, f := range fs {
				st := s
				if i < len(fs)-1 {
					st = s.clone()
				}
				outs = append(outs, e.callFn(st, f.fn, args, f.args, at)...)
			}
			return outs
		}
	}
	e.havocShared(s)
	s.ret = freshResult(c.Signature())
	return []*State{s}
}

func freshResult(sig *types.Signature) *Term {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return freshVal("res", sig.Results().At(0).Type())
	}
	var l []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		l = append(l, freshVal("res", sig.Results().At(i).Type()))
	}
	return Tuple(l...)
}

func (e *Eng) callFn(s *State, fn *ssa.Function, args, binds []*Term, at ssa.Instruction) []*State {
	ev := &Event{Kind: EvCall, S: s, Instr: at, Callee: fn, Args: args}
	e.fire(ev)
	if ev.Kill {
		return nil
	}
	if ev.Alts != nil {
		return ev.Alts
	}
	if ev.Val != nil { // a hook replaced the call
		s.ret = ev.Val
		return []*State{s}
	}
	if fn.Blocks == nil || !e.w.inRepo(fn) && fn.Synthetic == "" {
		outs := e.external(s, fn, args, at)
		for _, o := range outs {
			e.fire(&Event{Kind: EvExt, S: o, Instr: at, Callee: fn, Args: args, Val: o.ret})
		}
		return outs
	}
	if e.opaque != nil && e.opaque(fn) || e.onStack(s, fn) > 0 || s.fr.depth > 40 {
		for _, a := range args {
			e.escape(s, a)
		}
		e.havocShared(s)
		s.ret = freshResult(fn.Signature)
		return []*State{s}
	}
	outs := e.inline(s, fn, args, binds, at)
	for _, o := range outs {
		e.cur = at
		e.fire(&Event{Kind: EvRet, S: o, Instr: at, Callee: fn, Args: args, Val: o.ret})
	}
	return outs
}

func (e *Eng) invoke(s *State, m *types.Func, recv *Term, args []*Term, at ssa.Instruction) []*State {
	if s.facts.nilness(recv) == 1 {
		e.oblige(s, "nil", e.where(s, at, "method "+m.Name()+" of nil interface"), at, false, "method call on nil interface")
		return nil
	}
	if d := s.facts.dynType(recv); d != nil {
		fn := e.w.method(d, m)
		if fn != nil {
			return e.callFn(s, fn, append([]*Term{unwrap(recv, d)}, args...), nil, at)
		}
	}
	if !e.deref(s, recv, at, "receiver of "+m.Name()) {
		return nil
	}
	ev := &Event{Kind: EvInvoke, S: s, Instr: at, Method: m, Recv: recv, Args: args}
	e.fire(ev)
	if ev.Kill {
		return nil
	}
	if e.resolveIface != nil {
		if ts := e.resolveIface(m); len(ts) > 0 {
			var outs []*State
			for i, t := range ts {
				fn := e.w.method(t, m)
				if fn == nil || s.facts.notDyn(recv, t) {
					continue
				}
				st := s
				if i < len(ts)-1 {
					st = s.clone()
				}
				st.facts.setDyn(recv, t)
				outs = append(outs, e.callFn(st, fn, append([]*Term{unwrap(recv, t)}, args...), nil, at)...)
			}
			return outs
		}
	}
	outs := e.invokeModel(s, m, recv, args, at)
	for _, o := range outs {
		e.fire(&Event{Kind: EvInvoked, S: o, Instr: at, Method: m, Recv: recv, Args: args, Val: o.ret})
	}
	return outs
}

// splitSegs separates the cases of a constant index that may fall into different pieces of an array
func (e *Eng) splitSegs(s *State, loc *Term) []*State {
	if loc.op != OElemAt || loc.args[1].op != OInt {
		return nil
	}
	c := e.content(s, loc.args[0])
	if len(c.args) < 2 || len(c.args) > 6 {
		return nil
	}
	if i, _ := s.findSeg(c, loc.args[1]); i >= 0 {
		return nil
	}
	idx := loc.args[1]
	start := Int(0)
	var out []*State
	for _, g := range c.args {
		l := segLen(g)
		a := s.clone()
		if a.facts.addGe(toLin(Sub(idx, start))) && a.facts.addGe(toLin(AddC(Sub(Add(start, l), idx), -1))) {
			if i, _ := a.findSeg(c, idx); i < 0 {
				return nil
			}
			out = append(out, a)
		}
		start = Add(start, l)
	}
	return out
}
