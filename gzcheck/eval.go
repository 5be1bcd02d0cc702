package main

// Constant folding of extracted transfer functions: the value a term has when
// its few byte-sized atoms are fixed. Used to compare the transfer function the
// interpreter derived for a field with its specification on the whole (finite)
// domain of the bytes it depends on.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
)

type evalEnv map[*Term]int64

// evalTerm folds t; ok is false when t depends on anything outside env
func evalTerm(t *Term, env evalEnv) (v interface{}, ok bool) {
	if n, has := env[t]; has {
		return n, true
	}
	ints := func(a *Term) (int64, bool) {
		v, ok := evalTerm(a, env)
		n, is := v.(int64)
		return n, ok && is
	}
	floats := func(a *Term) (float64, bool) {
		v, ok := evalTerm(a, env)
		n, is := v.(float64)
		return n, ok && is
	}
	switch t.op {
	case OInt:
		return t.n, true
	case OConst:
		switch t.k.Kind() {
		case constant.Bool:
			return constant.BoolVal(t.k), true
		case constant.String:
			return constant.StringVal(t.k), true
		case constant.Float, constant.Int:
			f, _ := constant.Float64Val(t.k)
			return f, true
		}
	case OLin:
		r := t.n
		for i, a := range t.args {
			n, ok := ints(a)
			if !ok {
				return nil, false
			}
			r += t.coefs[i] * n
		}
		return r, true
	case OMul:
		a, ok1 := ints(t.args[0])
		b, ok2 := ints(t.args[1])
		return a * b, ok1 && ok2
	case ODiv:
		a, ok := ints(t.args[0])
		return floorDiv(a, t.n), ok
	case OWrap:
		a, ok := ints(t.args[0])
		if !ok {
			return nil, false
		}
		lo, hi, is := intRange(t.typ)
		if !is {
			return a, true
		}
		w := hi - lo + 1
		return ((a-lo)%w+w)%w + lo, true
	case OXor:
		r := t.n
		for _, a := range t.args {
			n, ok := ints(a)
			if !ok {
				return nil, false
			}
			r ^= n
		}
		return r, true
	case OAnd:
		a, ok := ints(t.args[0])
		if !ok {
			return nil, false
		}
		if len(t.args) == 1 {
			return a & t.n, true
		}
		b, ok := ints(t.args[1])
		return a & b, ok
	case OGe0:
		a, ok := ints(t.args[0])
		return a >= 0, ok
	case OEq0:
		a, ok := ints(t.args[0])
		return a == 0, ok
	case ONot:
		v, ok := evalTerm(t.args[0], env)
		b, is := v.(bool)
		return !b, ok && is
	case OEq:
		a, ok1 := evalTerm(t.args[0], env)
		b, ok2 := evalTerm(t.args[1], env)
		return a == b, ok1 && ok2
	case OElem:
		if t.args[0].op == OArr && len(t.args) == 2 && constElems(t.args[0]) {
			i, ok := ints(t.args[1])
			if !ok || i < 0 || i >= int64(len(t.args[0].args)) {
				return nil, false
			}
			return evalTerm(t.args[0].args[i].args[0], env)
		}
	case OFConv:
		a, ok := ints(t.args[0])
		return float64(a), ok
	case OToInt:
		f, ok := floats(t.args[0])
		if !ok || f != f || math.Abs(f) > 1e15 {
			return nil, false
		}
		return int64(f), true
	case OFCmp:
		a, ok1 := floats(t.args[0])
		b, ok2 := floats(t.args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		switch t.name {
		case "<":
			return a < b, true
		case "<=":
			return a <= b, true
		}
		return a == b, true
	case OBin:
		if len(t.name) == 2 && t.name[0] == 'f' && isFloat(t.typ) {
			a, ok1 := floats(t.args[0])
			b, ok2 := floats(t.args[1])
			if !ok1 || !ok2 {
				return nil, false
			}
			switch t.name[1] {
			case '+':
				return a + b, true
			case '-':
				return a - b, true
			case '*':
				return a * b, true
			case '/':
				return a / b, true
			}
			return nil, false
		}
		if t.typ != nil && isString(t.typ) {
			a, ok1 := evalTerm(t.args[0], env)
			b, ok2 := evalTerm(t.args[1], env)
			x, is1 := a.(string)
			y, is2 := b.(string)
			return x + y, ok1 && ok2 && is1 && is2
		}
		a, ok1 := ints(t.args[0])
		b, ok2 := ints(t.args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		var r int64
		switch t.name {
		case "|":
			r = a | b
		case "&":
			r = a & b
		case "&^":
			r = a &^ b
		case "^":
			r = a ^ b
		case "<<":
			if b < 0 || b > 62 {
				return nil, false
			}
			r = a << uint(b)
		case ">>":
			if b < 0 || b > 62 {
				return nil, false
			}
			r = a >> uint(b)
		case "/":
			if b == 0 {
				return nil, false
			}
			r = a / b
		case "%":
			if b == 0 {
				return nil, false
			}
			r = a % b
		default:
			return nil, false
		}
		return evalTerm(Wrap(Int(r), t.typ), nil)
	case OCall:
		switch t.name {
		case "math.Pow", "math.Min", "math.Max":
			a, ok1 := floats(t.args[0])
			b, ok2 := floats(t.args[1])
			if !ok1 || !ok2 {
				return nil, false
			}
			switch t.name {
			case "math.Pow":
				return math.Pow(a, b), true
			case "math.Min":
				return math.Min(a, b), true
			}
			return math.Max(a, b), true
		case "math.Pow10":
			a, ok := ints(t.args[0])
			return math.Pow10(int(a)), ok
		case "fmt.Sprintf":
			if len(t.args) != 2 || t.args[1].op != OArr {
				return nil, false
			}
			f, ok := evalTerm(t.args[0], env)
			fs, is := f.(string)
			if !ok || !is {
				return nil, false
			}
			var l []interface{}
			for _, g := range t.args[1].args {
				if g.op != OSegLit || g.args[0].op != OIface {
					return nil, false
				}
				if _, basic := g.args[0].typ.(*types.Basic); !basic {
					return nil, false // may have a String method
				}
				v, ok := evalTerm(g.args[0].args[0], env)
				if !ok {
					return nil, false
				}
				l = append(l, v)
			}
			return fmt.Sprintf(fs, l...), true
		}
	}
	return nil, false
}

// atomsOf collects the leaves a term depends on (bytes of arrays, symbols)
func atomsOf(t *Term, out map[*Term]bool) {
	switch t.op {
	case OInt, OConst, OFunc, OGlobal, ONil:
		return
	case OElem, OSym, OLoad, OFold, OUnwrap, OStrLen:
		out[t] = true
		return
	case OCall:
		if t.name == "len" || t.name == "cap" || t.name == "arr" || len(t.name) > 5 && t.name[:5] == "field" {
			out[t] = true
			return
		}
	}
	for _, a := range t.args {
		atomsOf(a, out)
	}
}

// factFilter returns the facts of the state that only depend on the given atoms
func factFilter(s *State, atoms []*Term) func(env evalEnv) bool {
	in := map[*Term]bool{}
	for _, a := range atoms {
		in[a] = true
	}
	closed := func(t *Term) bool {
		as := map[*Term]bool{}
		atomsOf(t, as)
		if len(as) == 0 {
			return false
		}
		for a := range as {
			if !in[a] {
				return false
			}
		}
		return true
	}
	var lins, nes []*Lin
	linOK := func(l *Lin) bool {
		for _, v := range l.vars {
			if !closed(v) {
				return false
			}
		}
		return len(l.vars) > 0
	}
	for _, l := range s.facts.lins {
		if linOK(l) {
			lins = append(lins, l)
		}
	}
	for _, l := range s.facts.ne {
		if linOK(l) {
			nes = append(nes, l)
		}
	}
	type bf struct {
		t *Term
		v bool
	}
	var bls []bf
	s.facts.bl.each(func(id int, v *Term) {
		if b := termByID[id]; b != nil && closed(b) {
			bls = append(bls, bf{b, v == tTrue})
		}
	})
	type ff struct {
		t *Term
		r FRange
	}
	var fls []ff
	for id, r := range s.facts.fl {
		if t := termByID[id]; t != nil && closed(t) {
			fls = append(fls, ff{t, r})
		}
	}
	return func(env evalEnv) bool {
		ev := func(l *Lin) (int64, bool) {
			r := l.c
			for i, v := range l.vars {
				x, ok := evalTerm(v, env)
				n, is := x.(int64)
				if !ok || !is {
					return 0, false
				}
				r += l.coefs[i] * n
			}
			return r, true
		}
		for _, l := range lins {
			if n, ok := ev(l); ok && n < 0 {
				return false
			}
		}
		for _, l := range nes {
			if n, ok := ev(l); ok && n == 0 {
				return false
			}
		}
		for _, b := range bls {
			if v, ok := evalTerm(b.t, env); ok {
				if x, is := v.(bool); is && x != b.v {
					return false
				}
			}
		}
		for _, f := range fls {
			if v, ok := evalTerm(f.t, env); ok {
				if x, is := v.(float64); is {
					if x != x && !f.r.maybeNaN || x < f.r.lo || x > f.r.hi || f.r.loS && x == f.r.lo || f.r.hiS && x == f.r.hi {
						return false
					}
				}
			}
		}
		return true
	}
}

// sameFunction decides whether the term equals the specification for every value of the
// bytes it depends on that the path allows. dom gives the domain size of an atom.
func sameFunction(s *State, got *Term, specAtoms []*Term, spec func(v []int64) interface{}) (bool, string) {
	as := map[*Term]bool{}
	atomsOf(got, as)
	atoms := append([]*Term{}, specAtoms...)
	for _, a := range specAtoms {
		delete(as, a)
	}
	for a := range as {
		lo, hi, ok := a.staticRange()
		if !ok || lo != 0 || hi > 255 {
			return false, "the value " + got.String() + " depends on " + a.String()
		}
		atoms = append(atoms, a)
	}
	n := 1
	for range atoms {
		n *= 256
		if n > 1<<16 {
			return false, "the value " + got.String() + " depends on more than two bytes"
		}
	}
	filter := factFilter(s, atoms)
	env := evalEnv{}
	vals := make([]int64, len(atoms))
	var rec func(i int) (bool, string)
	rec = func(i int) (bool, string) {
		if i == len(atoms) {
			if !filter(env) {
				return true, ""
			}
			want := spec(vals[:len(specAtoms)])
			if want == nil {
				return true, ""
			}
			v, ok := evalTerm(got, env)
			if !ok {
				return false, "the value " + got.String() + " is not a function of the documented bytes"
			}
			if v != want {
				d := ""
				for k, a := range atoms {
					d += fmt.Sprintf(" %s=0x%02x", a, vals[k])
				}
				return false, fmt.Sprintf("is %v = %v, documented value %v, for%s", got, v, want, d)
			}
			return true, ""
		}
		for v := int64(0); v < 256; v++ {
			vals[i] = v
			env[atoms[i]] = v
			if ok, m := rec(i + 1); !ok {
				return false, m
			}
		}
		return true, ""
	}
	return rec(0)
}
