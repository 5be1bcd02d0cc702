package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func constStr(t *Term) string { return constant.StringVal(t.k) }

// fit brings an exact integer into the machine type t, wrapping only if needed
func (e *Eng) fit(s *State, x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	w := Wrap(x, t)
	if w.op != OWrap {
		return w
	}
	if s.facts.entails(toLin(x).addc(-lo)) && s.facts.entails(toLin(x).neg().addc(hi)) {
		return x
	}
	return w
}

func (e *Eng) nonneg(s *State, x *Term) bool { return s.facts.entails(toLin(x)) }

func (e *Eng) noteCmp(fn *ssa.Function, t *Term) {
	if t.op == OLin && len(t.args) <= 2 && len(e.cmps[fn]) < 24 {
		for _, o := range e.cmps[fn] {
			if o == t {
				return
			}
		}
		e.cmps[fn] = append(e.cmps[fn], t)
	}
}

func (e *Eng) binop(s *State, x *ssa.BinOp) []*State {
	a, b := e.val(s, x.X), e.val(s, x.Y)
	t := x.X.Type()
	one := []*State{s}
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInt(t) {
			e.noteCmp(x.Parent(), a)
			e.noteCmp(x.Parent(), b)
		}
		e.set(s, x, e.compare(s, x.Op, a, b, t))
		return one
	}
	rt := x.Type()
	switch {
	case isInt(rt):
		var r *Term
		switch x.Op {
		case token.ADD:
			r = e.fit(s, Add(a, b), rt)
		case token.SUB:
			r = e.fit(s, Sub(a, b), rt)
			if isUnsigned(rt) && !e.nonneg(s, Sub(a, b)) {
				if _, _, ok := intRange(rt); !ok {
					r = freshVal("usub", rt)
				}
			}
		case token.MUL:
			r = e.fit(s, Mul(a, b), rt)
		case token.QUO, token.REM:
			c, ok := s.facts.constOf(b)
			if !ok || c == 0 {
				nz := s.facts.evalBool(EqI(b, Int(0))) == 2
				e.oblige(s, "div", e.where(s, x, e.describe(x)), x, nz, "division by a value that may be zero: "+b.String())
				if s.facts.evalBool(EqI(b, Int(0))) == 1 {
					return nil
				}
				r = mk(Term{op: OBin, name: x.Op.String(), args: []*Term{a, b}, typ: rt})
			} else if c > 0 && e.nonneg(s, a) {
				q := DivC(a, c)
				if x.Op == token.QUO {
					r = q
				} else {
					r = Sub(a, Mul(Int(c), q))
				}
			} else {
				r = mk(Term{op: OBin, name: x.Op.String(), args: []*Term{a, b}, typ: rt})
			}
		case token.AND:
			if e.nonneg(s, a) && e.nonneg(s, b) {
				r = And(a, b)
			} else {
				r = mk(Term{op: OBin, name: "&", args: []*Term{a, b}, typ: rt})
			}
		case token.AND_NOT:
			if _, hi, ok := intRange(rt); ok && b.op == OInt && e.nonneg(s, a) {
				r = And(a, Int(hi&^b.n))
			} else {
				r = mk(Term{op: OBin, name: "&^", args: []*Term{a, b}, typ: rt})
			}
		case token.OR:
			r = Or(a, b, rt)
		case token.XOR:
			if lo, hi, ok := intRange(rt); ok && lo == 0 && hi == 255 {
				r = Xor(0, a, b)
			} else {
				r = mk(Term{op: OBin, name: "^", args: []*Term{a, b}, typ: rt})
			}
		case token.SHL:
			e.shiftCheck(s, x, b)
			if c, ok := s.facts.constOf(b); ok {
				b = Int(c)
			}
			r = Shl(a, b, rt)
			if r.op == OWrap {
				r = e.fit(s, r.args[0], rt)
			}
		case token.SHR:
			e.shiftCheck(s, x, b)
			if c, ok := s.facts.constOf(b); ok {
				b = Int(c)
			}
			r = Shr(a, b, rt, e.nonneg(s, a))
		}
		e.set(s, x, r)
	case isFloat(rt):
		fa, ok1 := constF(a)
		fb, ok2 := constF(b)
		if ok1 && ok2 && !(x.Op == token.QUO && fb == 0) {
			var r float64
			switch x.Op {
			case token.ADD:
				r = fa + fb
			case token.SUB:
				r = fa - fb
			case token.MUL:
				r = fa * fb
			case token.QUO:
				r = fa / fb
			}
			e.set(s, x, floatConst(r))
			return one
		}
		e.set(s, x, mk(Term{op: OBin, name: "f" + x.Op.String(), args: []*Term{a, b}, typ: rt}))
	case isString(rt):
		if a.op == OConst && b.op == OConst {
			e.set(s, x, Str(constStr(a)+constStr(b)))
			return one
		}
		e.set(s, x, mk(Term{op: OBin, name: "+", args: []*Term{a, b}, typ: types.Typ[types.String]}))
	case isBool(rt): // & and | on booleans do not exist in Go
		e.set(s, x, freshVal("bool", rt))
	default:
		e.set(s, x, freshVal("bin", rt))
	}
	return one
}

func (e *Eng) shiftCheck(s *State, x *ssa.BinOp, b *Term) {
	if isUnsigned(x.Y.Type()) {
		return
	}
	ok := e.nonneg(s, b)
	e.oblige(s, "shift", e.where(s, x, e.describe(x)), x, ok, "negative shift count "+b.String())
}

func isNilConst(t *Term) bool {
	return t.op == ONil || t.op == OSlice && t.args[0].op == ONil && t.args[3].op == OInt
}

// intCompare decides the comparison of a converted integer with a constant as a comparison of the
// integer: rounding to the float type is monotone and exact below 2^24 (2^53), so nothing is lost
// for constants in that range.
func intCompare(op token.Token, a, b *Term) *Term {
	limit := func(t *Term) float64 {
		if bt, ok := t.typ.(*types.Basic); ok && bt.Kind() == types.Float32 {
			return 1 << 24
		}
		return 1 << 53
	}
	split := func(conv, c *Term) (n *Term, lo, hi int64, ok bool) {
		if conv.op != OFConv || c.op != OConst {
			return
		}
		f, isf := constF(c)
		if !isf || f != f || math.Abs(f) >= limit(conv) {
			return
		}
		return conv.args[0], int64(math.Floor(f)), int64(math.Ceil(f)), true
	}
	if n, lo, hi, ok := split(a, b); ok {
		switch {
		case op == token.LSS:
			return Lt(n, Int(hi))
		case op == token.LEQ:
			return Le(n, Int(lo))
		case lo != hi:
			return tFalse
		}
		return EqI(n, Int(lo))
	}
	if n, lo, hi, ok := split(b, a); ok {
		switch {
		case op == token.LSS:
			return Lt(Int(lo), n)
		case op == token.LEQ:
			return Le(Int(hi), n)
		case lo != hi:
			return tFalse
		}
		return EqI(n, Int(lo))
	}
	return nil
}

func (e *Eng) compare(s *State, op token.Token, a, b *Term, t types.Type) *Term {
	neg := false
	switch op {
	case token.NEQ:
		neg, op = true, token.EQL
	case token.GTR:
		a, b, op = b, a, token.LSS
	case token.GEQ:
		a, b, op = b, a, token.LEQ
	}
	var r *Term
	switch {
	case isInt(t):
		switch op {
		case token.EQL:
			r = EqI(a, b)
		case token.LSS:
			r = Lt(a, b)
		case token.LEQ:
			r = Le(a, b)
		}
	case isFloat(t):
		n := map[token.Token]string{token.EQL: "==", token.LSS: "<", token.LEQ: "<="}[op]
		if r = intCompare(op, a, b); r != nil {
			break
		}
		r = mk(Term{op: OFCmp, name: n, args: []*Term{a, b}})
	case isString(t) && op != token.EQL:
		r = mk(Term{op: OStrCmp, name: op.String(), args: []*Term{a, b}})
	case isBool(t):
		switch {
		case b == tTrue:
			r = a
		case b == tFalse:
			r = Not(a)
		case a == tTrue:
			r = b
		case a == tFalse:
			r = Not(b)
		default:
			r = eqTerm(a, b)
		}
	default:
		switch {
		case isNilConst(b):
			r = IsNilT(a)
		case isNilConst(a):
			r = IsNilT(b)
		default:
			r = eqTerm(a, b)
		}
	}
	if r == nil {
		r = Sym("cmp", types.Typ[types.Bool])
	}
	if neg {
		r = Not(r)
	}
	return r
}

func eqTerm(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OConst && b.op == OConst {
		return tFalse
	}
	if a.op == OConst || b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: OEq, args: []*Term{a, b}})
}

func (e *Eng) convert(s *State, v *Term, from, to types.Type) *Term {
	switch {
	case isInt(from) && isInt(to):
		if _, _, ok := intRange(to); !ok {
			// to a 64-bit type: the value of a wider or equal type is kept; a negative
			// value becoming unsigned is not tracked
			if isUnsigned(to) && !isUnsigned(from) && !e.nonneg(s, v) {
				return freshVal("conv", to)
			}
			return v
		}
		return e.fit(s, v, to)
	case isInt(from) && isFloat(to):
		if v.op == OInt {
			return floatConst(float64(v.n))
		}
		return mk(Term{op: OFConv, args: []*Term{v}, typ: to.Underlying()})
	case isFloat(from) && isFloat(to):
		return v
	case isFloat(from) && isInt(to):
		if c, ok := constF(v); ok && c > -1e15 && c < 1e15 {
			return e.fit(s, Int(int64(c)), to)
		}
		return mk(Term{op: OToInt, args: []*Term{v}, typ: to.Underlying()})
	case isString(to):
		if isString(from) {
			return v
		}
		if v.op == OSlice { // bytes -> string: the content at this moment
			if c := e.sliceContent(s, v); c != nil {
				return mk(Term{op: OCall, name: "string", args: []*Term{c}, typ: types.Typ[types.String]})
			}
		}
		return mk(Term{op: OCall, name: "string", args: []*Term{v}, typ: types.Typ[types.String]})
	case isString(from):
		if st, ok := to.Underlying().(*types.Slice); ok {
			n := strLen(v)
			arr := e.newArr(s, st.Elem(), mk(Term{op: OArr, typ: types.NewSlice(st.Elem()), args: []*Term{segSub(v, Int(0), n)}}), "bytes")
			return Slice(arr, Int(0), n, n, to)
		}
	}
	return retype(v, to)
}

// sliceContent is the content of a slice as an OArr term
func (e *Eng) sliceContent(s *State, v *Term) *Term {
	if v.op != OSlice {
		return nil
	}
	c := e.content(s, v.args[0])
	et := elemTypeOfArr(c)
	return arrOf(et, s.subContent(c, v.args[1], v.args[2]))
}
