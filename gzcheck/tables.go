package main

// Tables: package variables holding a composite literal of constants that nobody changes. Reading one
// is as good as reading the literal, whether the code spells it as a switch, a map or an array.

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type table struct {
	keys, vals []*Term // of a map; for arrays and slices vals by index
	elem       types.Type
}

func (w *World) findTables() {
	w.tables, w.tableArr = map[*ssa.Global]*table{}, map[int]*table{}
	for rel, p := range w.pkgs {
		sp := w.ssas[rel]
		if sp == nil {
			continue
		}
		for _, file := range p.Syntax {
			for _, d := range file.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, s := range g.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) != len(vs.Names) {
						continue
					}
					for i, id := range vs.Names {
						lit, ok := vs.Values[i].(*ast.CompositeLit)
						gl, isg := sp.Members[id.Name].(*ssa.Global)
						if !ok || !isg || id.IsExported() && sp.Pkg.Name() != "main" {
							continue
						}
						var inner []types.Type
						t := w.literal(p.TypesInfo, lit, rel+"."+id.Name, &inner)
						for _, it := range inner {
							if t != nil && w.changedSomewhere(it) {
								t = nil
							}
						}
						if t != nil {
							w.tables[gl] = t
						}
					}
				}
			}
		}
	}
	w.dropChanged()
}

func globTyp(g *ssa.Global) types.Type { return g.Type().Underlying().(*types.Pointer).Elem() }

// literal reads a composite literal that only holds constants, functions and such literals
func (w *World) literal(info *types.Info, lit *ast.CompositeLit, name string, inner *[]types.Type) *table {
	n := 0
	var konst func(x ast.Expr, want types.Type) *Term
	konst = func(x ast.Expr, want types.Type) *Term {
		tv := info.Types[x]
		if _, iface := want.Underlying().(*types.Interface); iface {
			return nil
		}
		if tv.Value != nil {
			if b, ok := tv.Type.Underlying().(*types.Basic); !ok || b.Info()&(types.IsInteger|types.IsString|types.IsBoolean|types.IsFloat) == 0 {
				return nil
			}
			return constTerm(ssa.NewConst(tv.Value, want))
		}
		switch y := ast.Unparen(x).(type) {
		case *ast.FuncLit:
			for _, f := range w.fns {
				if f.Syntax() == y && len(f.FreeVars) == 0 {
					return mk(Term{op: OFunc, fn: f, typ: f.Type()})
				}
			}
		case *ast.Ident:
			if f, ok := info.Uses[y].(*types.Func); ok {
				if g := w.prog.FuncValue(f); g != nil && g.Signature.Recv() == nil {
					return mk(Term{op: OFunc, fn: g, typ: g.Type()})
				}
			}
		case *ast.CompositeLit:
			t := tv.Type
			if st, ok := t.Underlying().(*types.Struct); ok {
				fs := make([]*Term, st.NumFields())
				for i := range fs {
					fs[i] = zero(st.Field(i).Type())
				}
				for i, x := range y.Elts {
					if kv, ok := x.(*ast.KeyValueExpr); ok {
						for k := 0; k < st.NumFields(); k++ {
							if st.Field(k).Name() == kv.Key.(*ast.Ident).Name {
								i = k
							}
						}
						x = kv.Value
					}
					if fs[i] = konst(x, st.Field(i).Type()); fs[i] == nil {
						return nil
					}
				}
				return Struct(t, fs...)
			}
			n++
			sub := w.literal(info, y, name+"."+itoa(n), inner)
			if sub == nil {
				return nil
			}
			switch t.Underlying().(type) {
			case *types.Array:
				return sub.content()
			case *types.Slice:
				*inner = append(*inner, t)
				return w.tableSlice(sub, name+"."+itoa(n), t)
			case *types.Map:
				*inner = append(*inner, t)
				m := NamedSym("table."+name+"."+itoa(n), t)
				w.tableArr[m.id] = sub
				return m
			}
		}
		return nil
	}
	switch t := info.TypeOf(lit).Underlying().(type) {
	case *types.Map:
		r := &table{elem: t.Elem()}
		for _, x := range lit.Elts {
			kv := x.(*ast.KeyValueExpr)
			k, v := konst(kv.Key, t.Key()), konst(kv.Value, t.Elem())
			if k == nil || !plainKey(k) || v == nil || isFloat(t.Key()) {
				return nil
			}
			r.keys, r.vals = append(r.keys, k), append(r.vals, v)
		}
		return r
	case *types.Slice, *types.Array:
		var el types.Type
		n, i := int64(0), int64(0)
		if a, ok := t.(*types.Array); ok {
			el, n = a.Elem(), a.Len()
		} else {
			el = t.(*types.Slice).Elem()
		}
		r := &table{elem: el}
		at := map[int64]*Term{}
		for _, x := range lit.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				tv := info.Types[kv.Key]
				if tv.Value == nil {
					return nil
				}
				i, ok = constant.Int64Val(constant.ToInt(tv.Value))
				if !ok {
					return nil
				}
				x = kv.Value
			}
			if at[i] = konst(x, el); at[i] == nil {
				return nil
			}
			i++
			if i > n {
				n = i
			}
		}
		if n > 4096 {
			return nil
		}
		for i = 0; i < n; i++ {
			v := at[i]
			if v == nil {
				v = zero(el)
			}
			r.vals = append(r.vals, v)
		}
		return r
	}
	return nil
}

func (w *World) tableSlice(t *table, name string, typ types.Type) *Term {
	base := NamedSym("table."+name, types.NewPointer(types.NewArray(t.elem, int64(len(t.vals)))))
	w.tableArr[base.id] = t
	n := Int(int64(len(t.vals)))
	return Slice(base, Int(0), n, n, typ)
}

// changedSomewhere: is an element of any slice or map of this type changed or handed out
func (w *World) changedSomewhere(t types.Type) bool {
	same := func(v ssa.Value) bool {
		return types.Identical(v.Type(), t) || types.Identical(v.Type().Underlying(), t.Underlying())
	}
	for _, fn := range w.fns {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if same(x.Map) {
						return true
					}
				case *ssa.IndexAddr:
					if same(x.X) && !elemOnly(x) {
						return true
					}
				case *ssa.Slice:
					if same(x.X) {
						return true
					}
				case *ssa.MakeInterface:
					if same(x.X) {
						return true
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						continue
					}
					if f := x.Common().StaticCallee(); f != nil && w.inRepo(f) {
						continue
					}
					for _, a := range x.Common().Args {
						if same(a) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func elemOnly(v ssa.Value) bool { // an element's address is only read through
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !elemOnly(r) {
				return false
			}
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// dropChanged forgets the candidates that are used in any other way than being read
func (w *World) dropChanged() {
	readOnly := func(v ssa.Value) bool { // the map, slice or array value
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef, *ssa.BinOp, *ssa.Range, *ssa.Index:
			case *ssa.Lookup:
				if r.X != v {
					return false
				}
			case *ssa.IndexAddr:
				if !elemOnly(r) {
					return false
				}
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for _, fn := range w.fns {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || w.tables[g] == nil {
						continue
					}
					fine := false
					switch x := in.(type) {
					case *ssa.DebugRef:
						fine = true
					case *ssa.UnOp:
						fine = x.Op == token.MUL && readOnly(x)
					case *ssa.IndexAddr:
						fine = x.X == g && elemOnly(x)
					}
					if !fine {
						delete(w.tables, g)
					}
				}
			}
		}
	}
}

// globalInit: the content of a table
func (e *Eng) globalInit(loc *Term) *Term {
	if loc.op != OGlobal {
		return nil
	}
	t := e.w.tables[loc.glob]
	if t == nil {
		return nil
	}
	switch globTyp(loc.glob).Underlying().(type) {
	case *types.Slice:
		return e.w.tableSlice(t, loc.glob.String(), globTyp(loc.glob))
	case *types.Array:
		return t.content()
	}
	return nil
}

func (t *table) content() *Term {
	var l []*Term
	for _, v := range t.vals {
		l = append(l, segLit(v))
	}
	return mk(Term{op: OArr, typ: types.NewSlice(t.elem), args: l})
}

// tableLookup reads a table of constants
func (e *Eng) tableLookup(s *State, x *ssa.Lookup, m, k *Term) []*State {
	t := e.w.tableArr[m.id]
	if m.op == OLoad && m.args[0].op == OGlobal {
		t = e.w.tables[m.args[0].glob]
	}
	if m.op == ONil {
		t = &table{elem: x.X.Type().Underlying().(*types.Map).Elem()}
	}
	if t == nil || len(t.keys) > 300 {
		return nil
	}
	set := func(st *State, v *Term, ok bool) *State {
		if x.CommaOk {
			e.set(st, x, Tuple(v, Bool(ok)))
		} else {
			e.set(st, x, v)
		}
		return st
	}
	if plainKey(k) {
		for i, c := range t.keys {
			if c == k {
				return []*State{set(s, t.vals[i], true)}
			}
		}
		return []*State{set(s, zero(t.elem), false)}
	}
	parts := func(t *Term) []*Term {
		if t.op == OStruct {
			return t.args
		}
		return []*Term{t}
	}
	kp := parts(k)
	var out []*State
	no := []*State{s.clone()}
	for i, c := range t.keys {
		cp := parts(c)
		if len(cp) != len(kp) {
			return nil
		}
		st, may := s.clone(), true
		var rest []*State
		for j := range cp {
			is := e.compare(s, token.EQL, kp[j], cp[j], cp[j].constType())
			may = may && st.facts.assume(is, true)
		}
		for _, o := range no {
			for j := range cp { // equal up to here, different here
				is := e.compare(s, token.EQL, kp[j], cp[j], cp[j].constType())
				d := o
				if j+1 < len(cp) {
					d = o.clone()
				}
				if d.facts.assume(is, false) {
					rest = append(rest, d)
				}
				if d == o || !o.facts.assume(is, true) {
					break
				}
			}
		}
		no = rest
		if may {
			out = append(out, set(st, t.vals[i], true))
		}
	}
	for _, o := range no {
		out = append(out, set(o, zero(t.elem), false))
	}
	return out
}

func plainKey(k *Term) bool {
	if k.op == OStruct {
		for _, a := range k.args {
			if a.op != OInt && a.op != OConst {
				return false
			}
		}
		return len(k.args) > 0
	}
	return k.op == OInt || k.op == OConst
}

func (t *Term) constType() types.Type {
	switch {
	case t.op == OInt:
		return types.Typ[types.Int]
	case t == tTrue || t == tFalse:
		return types.Typ[types.Bool]
	}
	return types.Typ[types.String]
}

// constElems: the array only holds constants
func constElems(c *Term) bool {
	if len(c.args) == 0 {
		return false
	}
	for _, g := range c.args {
		if g.op != OSegLit || g.args[0].op != OInt && g.args[0].op != OConst {
			return false
		}
	}
	return true
}

// splitTable distinguishes the entries of a small table
func (e *Eng) splitTable(s *State, x *ssa.UnOp, loc *Term) []*State {
	at := loc
	for at.op == OField {
		at = at.args[0]
	}
	if at.op != OElemAt || at.args[1].op == OInt {
		return nil
	}
	b, idx := at.args[0], at.args[1]
	t := e.w.tableArr[b.id]
	if b.op == OGlobal {
		t = e.w.tables[b.glob]
	}
	if t == nil || len(t.vals) > 64 || isInt(x.Type()) {
		return nil
	}
	var out []*State
	for i := range t.vals {
		st := s.clone()
		if !st.facts.assume(EqI(idx, Int(int64(i))), true) {
			continue
		}
		l := ElemAt(b, Int(int64(i)), at.typ)
		var path []*Term
		for p := loc; p != at; p = p.args[0] {
			path = append(path, p)
		}
		for k := len(path) - 1; k >= 0; k-- {
			l = Field(l, int(path[k].n), path[k].typ)
		}
		r := e.load(st, l, x.Type())
		ev := &Event{Kind: EvLoad, S: st, Instr: x, Ptr: l, Val: r}
		e.fire(ev)
		e.set(st, x, ev.Val)
		out = append(out, st)
	}
	return out
}
