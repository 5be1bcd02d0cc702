package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll, maxTable = 16, 160

// trips counts the rounds of a loop that is counted out by constants (0 when it is not, or when there are too many):
// such a loop is followed round by round, like the statements it stands for.
func (e *Eng) trips(s *State, l *loopInfo) int {
	ifi, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || l.body[l.head.Succs[0]] == l.body[l.head.Succs[1]] {
		return 0
	}
	cond, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return 0
	}
	max := maxUnroll
	if e.readsTable(l) {
		max = maxTable
	}
	for _, swap := range []bool{false, true} {
		x, y, op := cond.X, cond.Y, cond.Op
		if swap {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		bound, ok := e.constOutside(s, y, l)
		if !ok {
			continue
		}
		var pre *ssa.BinOp
		ph, isPhi := x.(*ssa.Phi)
		if !isPhi {
			if pre, ok = x.(*ssa.BinOp); !ok {
				continue
			}
			if ph, isPhi = pre.X.(*ssa.Phi); !isPhi {
				continue
			}
		}
		if ph.Block() != l.head {
			continue
		}
		var step *ssa.BinOp
		same := true
		for i, p := range l.head.Preds {
			if !l.body[p] {
				continue
			}
			b, ok := ph.Edges[i].(*ssa.BinOp)
			if !ok || b.X != ssa.Value(ph) || step != nil && (step.Op != b.Op || constOf(step.Y) == nil || constOf(b.Y) == nil || *constOf(step.Y) != *constOf(b.Y)) {
				same = false
				break
			}
			step = b
		}
		v := e.val(s, ph)
		if !same || step == nil || v.op != OInt {
			continue
		}
		stay := l.body[l.head.Succs[0]]
		i, n := v.n, 0
		for ; n <= max; n++ {
			c := i
			if pre != nil {
				if c, ok = stepBy(i, pre); !ok {
					return 0
				}
			}
			if holds(op, c, bound) != stay {
				break
			}
			if i, ok = stepBy(i, step); !ok {
				return 0
			}
		}
		if n <= max {
			return n
		}
	}
	return 0
}

func constOf(v ssa.Value) *int64 {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || !isInt(c.Type()) {
		return nil
	}
	t := constTerm(c)
	if t.op != OInt {
		return nil
	}
	return &t.n
}

func (e *Eng) constOutside(s *State, v ssa.Value, l *loopInfo) (int64, bool) {
	if n := constOf(v); n != nil {
		return *n, true
	}
	in, ok := v.(ssa.Instruction)
	if ok && l.body[in.Block()] {
		c, ok := v.(*ssa.Call)
		if !ok || len(c.Call.Args) != 1 {
			return 0, false
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
			return 0, false
		}
		a := c.Call.Args[0]
		if in, ok := a.(ssa.Instruction); ok && l.body[in.Block()] {
			return 0, false
		}
		if _, ok := a.Type().Underlying().(*types.Slice); !ok {
			return 0, false
		}
		if n := lenOfSlice(e.val(s, a)); n.op == OInt {
			return n.n, true
		}
		return 0, false
	}
	if !isInt(v.Type()) {
		return 0, false
	}
	if t := e.val(s, v); t.op == OInt {
		return t.n, true
	}
	return 0, false
}

func stepBy(i int64, b *ssa.BinOp) (int64, bool) {
	k := constOf(b.Y)
	if k == nil {
		return 0, false
	}
	switch b.Op {
	case token.ADD:
		i += *k
	case token.SUB:
		i -= *k
	case token.MUL:
		i *= *k
	case token.SHL:
		if *k < 0 || *k > 32 {
			return 0, false
		}
		i <<= uint(*k)
	case token.SHR:
		if *k < 0 || *k > 62 || i < 0 {
			return 0, false
		}
		i >>= uint(*k)
	default:
		return 0, false
	}
	bt, ok := b.Type().Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch bt.Kind() {
	case types.Uint8:
		i &= 0xff
	case types.Uint16:
		i &= 0xffff
	default:
		if i > 1<<30 || i < -1<<30 || bt.Info()&types.IsUnsigned != 0 && i < 0 || bt.Kind() == types.Int8 || bt.Kind() == types.Int16 {
			return 0, false
		}
	}
	return i, true
}

func holds(op token.Token, a, b int64) bool {
	switch op {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	case token.NEQ:
		return a != b
	}
	return a == b
}

// readsTable: does the loop look at the elements of a table of constants
func (e *Eng) readsTable(l *loopInfo) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.IndexAddr); ok {
				v := x.X
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					v = u.X
				}
				if g, ok := v.(*ssa.Global); ok && e.w.tables[g] != nil {
					return true
				}
			}
		}
	}
	return false
}
