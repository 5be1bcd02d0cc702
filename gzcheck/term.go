package main

// Terms: the hash-consed abstract values of the analysis.
//
// Integers are mathematical: a term is a constant, an atom, or a linear form
// over atoms. Machine wrap-around is explicit (OWrap). Pointers are symbolic
// locations, slices are (array location, offset, length, capacity).

import (
	"encoding/binary"
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Op int

const (
	OConst  Op = iota // k: constant.Value (bool, string, float); ints: n
	OInt              // n
	OLin              // n + sum coef*args
	OSym              // name: opaque value
	ONil              // typed nil
	OElem             // args[0]=array key, args[1]=index: initial element of an opaque array
	OLoad             // args[0]=location, n=epoch: initial content of an opaque location
	OWrap             // args[0]=int term, converted to machine type typ
	OMul              // nonlinear product
	ODiv              // floor division of a non-negative term by the constant n
	OBin              // other integer/float/string binary operator: name=op
	OXor              // n + xor of args (byte-like)
	OAnd              // args[0] & n  (constant mask) or args[0]&args[1]
	OFConv            // int -> float
	OToInt            // float -> int (typ)
	OGe0              // bool: args[0] >= 0
	OEq0              // bool: args[0] == 0
	ONot              // bool negation
	OEq               // bool: generic equality
	OIsNil            // bool
	OFCmp             // bool: float comparison, name in < <= == (args)
	OStrCmp           // bool: string comparison
	OAlloc            // location of an object allocated during the analysis, n=id
	OGlobal           // location of a package variable
	OField            // location: field n of the struct at args[0]
	OElemAt           // location: element args[1] of the array at args[0]
	OSlice            // args: array location, off, len, cap
	OIface            // args[0]: value with dynamic type typ (typ = dynamic type)
	OFunc             // closure: fn, args=bindings
	OTuple
	OStruct
	OArr    // array content, list of segments
	OSegLit // one element
	OSegSub // args: array key term, from, len
	OSegZero
	OSegUnk
	OSegGen  // args: key, lo, hi: summarised region, name = generator
	OMapVal  // args: map term, key ; n=epoch
	OMapKey  // some key of a map during range; name unique
	OFold    // xor fold of array key args[0] from args[1] (incl) to args[2] (excl)
	OCall    // result of pure function: name, args
	OUnwrap  // dynamic value of opaque interface args[0] as type typ
	OStrLen  // length of string
	OBound   // bound method closure: fn, args[0] receiver
	OArrKey  // array identity: location args[0] at epoch n (content snapshot)
	OBytesOf // string/bytes conversions
)

type Term struct {
	id    int
	op    Op
	args  []*Term
	coefs []int64
	n     int64
	name  string
	k     constant.Value
	typ   types.Type
	fn    *ssa.Function
	glob  *ssa.Global
	ax    []*Lin // cached axioms
	axok  bool
}

var (
	termTab  = map[string]*Term{}
	termSeq  int
	typHash  typeutil.Map
	typSeq   int
	freshSeq int64
)

func typID(t types.Type) int {
	if t == nil {
		return 0
	}
	if v := typHash.At(t); v != nil {
		return v.(int)
	}
	typSeq++
	typHash.Set(t, typSeq)
	return typSeq
}

func mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.op)))
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(t.n, 10))
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	if t.k != nil {
		b.WriteString(t.k.Kind().String())
		b.WriteString(t.k.ExactString())
	}
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(typID(t.typ)))
	if t.fn != nil {
		fmt.Fprintf(&b, "|f%p", t.fn)
	}
	if t.glob != nil {
		fmt.Fprintf(&b, "|g%p", t.glob)
	}
	for i, a := range t.args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
		if t.coefs != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatInt(t.coefs[i], 10))
		}
	}
	key := b.String()
	if x, ok := termTab[key]; ok {
		return x
	}
	termSeq++
	t.id = termSeq
	x := &t
	termByID[x.id] = x
	termTab[key] = x
	return x
}

func fresh() int64 { freshSeq++; return freshSeq }

func Int(n int64) *Term { return mk(Term{op: OInt, n: n}) }
func Bool(b bool) *Term { return mk(Term{op: OConst, k: constant.MakeBool(b)}) }
func Str(s string) *Term {
	return mk(Term{op: OConst, k: constant.MakeString(s), typ: types.Typ[types.String]})
}

var tTrue, tFalse = Bool(true), Bool(false)

func Nil(t types.Type) *Term { return mk(Term{op: ONil, typ: t}) }
func Sym(name string, t types.Type) *Term {
	return mk(Term{op: OSym, name: name + "#" + strconv.FormatInt(fresh(), 10), typ: t})
}
func NamedSym(name string, t types.Type) *Term {
	return mk(Term{op: OSym, name: name, typ: t})
}

// ---- linear forms ----

type Lin struct {
	c     int64
	vars  []*Term // sorted by id
	coefs []int64
}

func linConst(c int64) *Lin { return &Lin{c: c} }

func toLin(t *Term) *Lin {
	switch t.op {
	case OInt:
		return &Lin{c: t.n}
	case OLin:
		return &Lin{c: t.n, vars: t.args, coefs: t.coefs}
	}
	return &Lin{vars: []*Term{t}, coefs: []int64{1}}
}

func (l *Lin) term() *Term {
	if len(l.vars) == 0 {
		return Int(l.c)
	}
	if l.c == 0 && len(l.vars) == 1 && l.coefs[0] == 1 {
		return l.vars[0]
	}
	return mk(Term{op: OLin, n: l.c, args: l.vars, coefs: l.coefs})
}

func (l *Lin) key() string {
	b := make([]byte, 0, 10+12*len(l.vars))
	b = binary.AppendVarint(b, l.c)
	for i, v := range l.vars {
		b = binary.AppendVarint(b, l.coefs[i])
		b = binary.AppendUvarint(b, uint64(v.id))
	}
	return string(b)
}

func (l *Lin) coef(t *Term) int64 {
	for i, v := range l.vars {
		if v == t {
			return l.coefs[i]
		}
	}
	return 0
}

// lincomb returns a*x + b*y
func lincomb(a int64, x *Lin, b int64, y *Lin) *Lin {
	r := &Lin{c: a*x.c + b*y.c}
	i, j := 0, 0
	add := func(v *Term, c int64) {
		if c != 0 {
			r.vars = append(r.vars, v)
			r.coefs = append(r.coefs, c)
		}
	}
	for i < len(x.vars) || j < len(y.vars) {
		switch {
		case j >= len(y.vars) || i < len(x.vars) && x.vars[i].id < y.vars[j].id:
			add(x.vars[i], a*x.coefs[i])
			i++
		case i >= len(x.vars) || y.vars[j].id < x.vars[i].id:
			add(y.vars[j], b*y.coefs[j])
			j++
		default:
			add(x.vars[i], a*x.coefs[i]+b*y.coefs[j])
			i++
			j++
		}
	}
	return r
}

func (l *Lin) addc(c int64) *Lin { return &Lin{c: l.c + c, vars: l.vars, coefs: l.coefs} }
func (l *Lin) neg() *Lin         { return lincomb(-1, l, 0, &Lin{}) }

// norm divides an inequality l >= 0 by the gcd of its coefficients (integer tightening)
func (l *Lin) norm() *Lin {
	if len(l.vars) == 0 {
		return l
	}
	g := int64(0)
	for _, c := range l.coefs {
		g = gcd(g, c)
	}
	if g <= 1 {
		return l
	}
	r := &Lin{vars: l.vars, coefs: make([]int64, len(l.coefs))}
	for i, c := range l.coefs {
		r.coefs[i] = c / g
	}
	r.c = floorDiv(l.c, g)
	return r
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (l *Lin) subst(f func(*Term) *Term) *Lin {
	r := &Lin{c: l.c}
	ch := false
	for i, v := range l.vars {
		n := f(v)
		if n != v {
			ch = true
		}
		r = lincomb(1, r, l.coefs[i], toLin(n))
	}
	if !ch {
		return l
	}
	return r
}

func Add(a, b *Term) *Term { return lincomb(1, toLin(a), 1, toLin(b)).term() }
func Sub(a, b *Term) *Term { return lincomb(1, toLin(a), -1, toLin(b)).term() }
func AddC(a *Term, c int64) *Term {
	return toLin(a).addc(c).term()
}

// Ge0 is the boolean l >= 0
func Ge0(l *Lin) *Term {
	if len(l.vars) == 0 {
		return Bool(l.c >= 0)
	}
	l = l.norm()
	if len(l.vars) == 1 && l.vars[0].op == OAnd && len(l.vars[0].args) == 1 {
		if _, ok := isPow2(l.vars[0].n); ok { // the value is 0 or the mask
			v := l.vars[0]
			zero, one := l.c >= 0, l.coefs[0]*v.n+l.c >= 0
			switch {
			case zero && one:
				return tTrue
			case zero:
				return Eq0(toLin(v))
			case one:
				return Not(Eq0(toLin(v)))
			}
			return tFalse
		}
	}
	return mk(Term{op: OGe0, args: []*Term{l.term()}})
}
func Eq0(l *Lin) *Term {
	if len(l.vars) == 0 {
		return Bool(l.c == 0)
	}
	g := int64(0)
	for _, c := range l.coefs {
		g = gcd(g, c)
	}
	if l.c%g != 0 {
		return tFalse
	}
	r := &Lin{vars: l.vars, coefs: make([]int64, len(l.coefs)), c: l.c / g}
	s := int64(1)
	if l.coefs[0] < 0 {
		s = -1
	}
	for i, c := range l.coefs {
		r.coefs[i] = s * c / g
	}
	r.c = s * l.c / g
	if len(r.vars) == 1 && r.c != 0 {
		v := r.vars[0]
		if v.op == OAnd && len(v.args) == 1 {
			if _, ok := isPow2(v.n); ok {
				if r.c == -v.n {
					return Not(Eq0(toLin(v)))
				}
				return tFalse
			}
		}
		if lo, hi, ok := v.staticRange(); ok && r.coefs[0] == 1 && (-r.c < lo || -r.c > hi) {
			return tFalse
		}
	}
	return mk(Term{op: OEq0, args: []*Term{r.term()}})
}
func Le(a, b *Term) *Term  { return Ge0(toLin(Sub(b, a))) }
func Lt(a, b *Term) *Term  { return Ge0(toLin(Sub(b, a)).addc(-1)) }
func EqI(a, b *Term) *Term { return Eq0(toLin(Sub(a, b))) }

func Not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == ONot:
		return a.args[0]
	case a.op == OGe0:
		return Ge0(toLin(a.args[0]).neg().addc(-1))
	}
	return mk(Term{op: ONot, args: []*Term{a}})
}

func Tuple(a ...*Term) *Term { return mk(Term{op: OTuple, args: a}) }
func Struct(t types.Type, a ...*Term) *Term {
	return mk(Term{op: OStruct, args: a, typ: t})
}
func Slice(arr, off, ln, cp *Term, t types.Type) *Term {
	return mk(Term{op: OSlice, args: []*Term{arr, off, ln, cp}, typ: t})
}
func Field(p *Term, i int, ptrTyp types.Type) *Term {
	return mk(Term{op: OField, n: int64(i), args: []*Term{p}, typ: ptrTyp})
}
func ElemAt(arr, idx *Term, ptrTyp types.Type) *Term {
	return mk(Term{op: OElemAt, args: []*Term{arr, idx}, typ: ptrTyp})
}
func Iface(dyn types.Type, v *Term) *Term {
	return mk(Term{op: OIface, args: []*Term{v}, typ: dyn})
}
func IsNilT(v *Term) *Term { return mk(Term{op: OIsNil, args: []*Term{v}}) }

// ---- machine ranges ----

func intRange(t types.Type) (lo, hi int64, ok bool) {
	if t == nil {
		return 0, 0, false
	}
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Int8:
		return -128, 127, true
	case types.Uint16:
		return 0, 65535, true
	case types.Int16:
		return -32768, 32767, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	}
	return 0, 0, false
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// axioms are linear facts that hold for an atom by construction
func (t *Term) axioms() []*Lin {
	if t.axok {
		return t.ax
	}
	t.axok = true
	self := &Lin{vars: []*Term{t}, coefs: []int64{1}}
	var lo, hi int64
	var has bool
	if lo, hi, has = intRange(t.typ); has {
	} else if t.typ != nil && isInt(t.typ) && isUnsigned(t.typ) {
		t.ax = append(t.ax, self)
	}
	switch t.op {
	case OAnd:
		if len(t.args) == 1 && t.n >= 0 {
			lo, has = 0, true
			hi = t.n
			// x & m <= x for non-negative x is not needed
		}
	case ODiv:
		x := toLin(t.args[0])
		q := lincomb(1, x, -t.n, self) // x - n*q >= 0
		t.ax = append(t.ax, q, q.neg().addc(t.n-1))
		has = false
	case OStrLen:
		t.ax = append(t.ax, self)
	case OCall:
		switch t.name {
		case "len":
			t.ax = append(t.ax, self, lincomb(-1, self, 1, toLin(capOf(t.args[0]))))
		case "cap":
			t.ax = append(t.ax, self, lincomb(1, self, -1, toLin(lenOf(t.args[0]))))
		}
	case OFold, OXor:
		lo, hi, has = 0, 255, true
		if t.typ != nil {
			if l, h, ok := intRange(t.typ); ok {
				lo, hi = l, h
			} else {
				has = false
			}
		}
	}
	if has {
		t.ax = append(t.ax, self.addc(-lo), self.neg().addc(hi))
	}
	return t.ax
}

// bounds of a term from its construction alone
func (t *Term) staticRange() (lo, hi int64, ok bool) {
	if t.op == OInt {
		return t.n, t.n, true
	}
	if t.op == OAnd && len(t.args) == 1 && t.n >= 0 {
		return 0, t.n, true
	}
	return intRange(t.typ)
}

func root(t *Term) *Term {
	for t.op == OField || t.op == OElemAt {
		t = t.args[0]
	}
	return t
}

// ---- printing ----

func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	var args []string
	for _, a := range t.args {
		if len(args) > 12 {
			args = append(args, "...")
			break
		}
		args = append(args, a.String())
	}
	j := strings.Join(args, ",")
	switch t.op {
	case OInt:
		return strconv.FormatInt(t.n, 10)
	case OConst:
		return t.k.String()
	case OSym:
		return t.name
	case OLin:
		var b strings.Builder
		for i, a := range t.args {
			c := t.coefs[i]
			if c >= 0 && i > 0 {
				b.WriteString("+")
			}
			if c == -1 {
				b.WriteString("-")
			} else if c != 1 {
				fmt.Fprintf(&b, "%d*", c)
			}
			b.WriteString(a.String())
		}
		if t.n != 0 {
			fmt.Fprintf(&b, "%+d", t.n)
		}
		return b.String()
	case ONil:
		return "nil"
	case OElem:
		return args[0] + "[" + args[1] + "]"
	case OLoad:
		return args[0] + "'"
	case OAlloc:
		return "&" + t.name + strconv.FormatInt(t.n, 10)
	case OGlobal:
		return "&" + t.glob.Name()
	case OField:
		nm := strconv.FormatInt(t.n, 10)
		if st := structOfPtrField(t); st != nil && int(t.n) < st.NumFields() {
			nm = st.Field(int(t.n)).Name()
		}
		return args[0] + "." + nm
	case OElemAt:
		return args[0] + "[" + args[1] + "]"
	case OGe0:
		return "(" + j + ">=0)"
	case OEq0:
		return "(" + j + "==0)"
	case ONot:
		return "!" + j
	case OFunc, OBound:
		return "func:" + t.fn.Name() + "(" + j + ")"
	case OWrap:
		return typStr(t.typ) + "(" + j + ")"
	case OAnd:
		if len(t.args) == 1 {
			return fmt.Sprintf("(%s&%#x)", j, t.n)
		}
	case OXor:
		return fmt.Sprintf("xor(%#x,%s)", t.n, j)
	case ODiv:
		return fmt.Sprintf("(%s/%d)", j, t.n)
	case OCall, OBin, OFCmp, OStrCmp:
		return t.name + "(" + j + ")"
	case OIface:
		return typStr(t.typ) + "{" + j + "}"
	case OSlice:
		return "slice(" + j + ")"
	case OFold:
		return "xorfold(" + j + ")"
	}
	return fmt.Sprintf("op%d%s(%s)", t.op, t.name, j)
}

func typStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// structOfPtrField: struct type whose field an OField location selects
func structOfPtrField(t *Term) *types.Struct {
	p := t.args[0]
	pt := ptrElem(p)
	if pt == nil {
		return nil
	}
	st, _ := pt.Underlying().(*types.Struct)
	return st
}

// ptrElem: the type of the object at location p
func ptrElem(p *Term) types.Type {
	if p.typ == nil {
		return nil
	}
	if pt, ok := p.typ.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return nil
}

// fieldVar returns the struct field an OField location selects
func fieldVar(t *Term) *types.Var {
	if t.op != OField {
		return nil
	}
	st := structOfPtrField(t)
	if st == nil || int(t.n) >= st.NumFields() {
		return nil
	}
	return st.Field(int(t.n))
}
