package main

// Loading and type checking the repository, plus whole-program facts that are
// computed from the ssa form (which fields are written only while an object is
// being built, which fields may be nil, ...).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const module = "github.com/stampzilla/gozwave"

type World struct {
	dir         string
	pkgs        map[string]*packages.Package // by path relative to the module
	ssas        map[string]*ssa.Package
	prog        *ssa.Program
	fset        *token.FileSet
	fns         []*ssa.Function // every function with a body, closures included
	frozen      map[*types.Var]bool
	optional    map[*types.Var]bool
	frozenAlloc map[string]bool
	usedFns     map[*ssa.Function]bool
	stores      map[*types.Var][]*ssa.Store
	missing     []string // anchors that could not be resolved
	fieldOwner  map[*types.Var]string
	tables      map[*ssa.Global]*table
	tableArr    map[int]*table
}

func load(dir string) (*World, error) {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on")
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Env: env}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	w := &World{dir: dir, pkgs: map[string]*packages.Package{}, ssas: map[string]*ssa.Package{},
		frozen: map[*types.Var]bool{}, optional: map[*types.Var]bool{}, frozenAlloc: map[string]bool{},
		stores: map[*types.Var][]*ssa.Store{}, fieldOwner: map[*types.Var]string{}}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type check: %s", strings.Join(errs, "; "))
	}
	if len(ps) < 8 {
		return nil, fmt.Errorf("only %d packages found", len(ps))
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	w.prog = prog
	w.fset = prog.Fset
	prog.Build()
	for i, p := range ps {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, module), "/")
		w.pkgs[rel] = p
		w.ssas[rel] = spkgs[i]
	}
	w.collect()
	w.findTables()
	w.analyseFields()
	return w, nil
}

func (w *World) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks != nil {
			w.fns = append(w.fns, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var rels []string
	for r := range w.ssas {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, r := range rels {
		p := w.ssas[r]
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := w.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := w.prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == p {
							add(f)
						}
					}
				}
				if st, ok := m.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						w.fieldOwner[st.Field(i)] = n
					}
				}
			}
		}
	}
}

func (w *World) inRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), module)
	}
	if fn.Parent() != nil {
		return w.inRepo(fn.Parent())
	}
	return false
}

func (w *World) rel(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := w.fset.Position(p)
	f, err := filepath.Rel(w.dir, q.Filename)
	if err != nil {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return (*op).Pos()
		}
	}
	b := in.Block()
	if b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return x.Pos()
			}
		}
		return in.Parent().Pos()
	}
	return token.NoPos
}

func (w *World) pos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	return w.rel(instrPos(in))
}

func (w *World) posOf(b *ssa.BasicBlock) string {
	for _, x := range b.Instrs {
		if x.Pos().IsValid() {
			return w.rel(x.Pos())
		}
	}
	return w.rel(b.Parent().Pos())
}

func (w *World) fname(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return strings.ReplaceAll(fn.RelString(nil), module+"/", "")
}

// method finds the implementation of interface method m in dynamic type t
func (w *World) method(t types.Type, m *types.Func) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

// ---- anchors ----

func (w *World) fn(rel, name string) *ssa.Function {
	p := w.ssas[rel]
	if p != nil {
		if f := p.Func(name); f != nil {
			return f
		}
	}
	w.missing = append(w.missing, rel+"."+name)
	return nil
}

func (w *World) typ(rel, name string) types.Type {
	p := w.ssas[rel]
	if p != nil {
		if t := p.Type(name); t != nil {
			return t.Type()
		}
	}
	if t := w.roleType(rel, name); t != nil {
		return t
	}
	w.missing = append(w.missing, rel+"."+name)
	return nil
}

// roleType finds an unexported type by what it is for, in case it goes by another name
func (w *World) roleType(rel, name string) types.Type {
	p := w.ssas[rel]
	if p == nil {
		return nil
	}
	var found []types.Type
	switch rel + "." + name {
	case ".sendPackage": // a request: the struct that holds the channel for its answer
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			for i := 0; ok && i < st.NumFields(); i++ {
				if ch, isC := st.Field(i).Type().Underlying().(*types.Chan); isC && typStr(ch.Elem()) == "*serialapi.Message" {
					found = append(found, tn.Type())
					break
				}
			}
		}
	case "serialrecorder.serialRecorder": // what the constructor makes
		if f := p.Func("New"); f != nil && f.Signature.Results().Len() > 0 {
			if pt, ok := f.Signature.Results().At(0).Type().(*types.Pointer); ok {
				found = append(found, pt.Elem())
			}
		}
	}
	if len(found) == 1 {
		return found[0]
	}
	return nil
}

// meth finds method name of type T or *T
func (w *World) meth(rel, typ, name string) *ssa.Function {
	p := w.ssas[rel]
	if p != nil {
		var t types.Type
		if m := p.Type(typ); m != nil {
			t = m.Type()
		} else {
			t = w.roleType(rel, typ)
		}
		if t != nil {
			for _, x := range []types.Type{types.NewPointer(t), t} {
				if sel := w.prog.MethodSets.MethodSet(x).Lookup(p.Pkg, name); sel != nil {
					if f := w.prog.MethodValue(sel); f != nil {
						// prefer the declared function over a wrapper
						if o, ok := sel.Obj().(*types.Func); ok {
							if d := w.prog.FuncValue(o); d != nil && d.Blocks != nil {
								return d
							}
						}
						return f
					}
				}
			}
		}
	}
	w.missing = append(w.missing, rel+".("+typ+")."+name)
	return nil
}

func (w *World) field(rel, typ, name string) *types.Var {
	if t := w.typ(rel, typ); t != nil {
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return st.Field(i)
				}
			}
		}
	}
	w.missing = append(w.missing, rel+"."+typ+"."+name)
	return nil
}

// methLike finds a method by name or, failing that, by its signature (if unique)
func (w *World) methLike(rel, typ, name string, ok func(*types.Signature) bool) *ssa.Function {
	n := len(w.missing)
	if f := w.meth(rel, typ, name); f != nil {
		return f
	}
	t := w.typ(rel, typ)
	if t == nil {
		return nil
	}
	var found []*ssa.Function
	ms := w.prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if o, isF := ms.At(i).Obj().(*types.Func); isF && ok(o.Type().(*types.Signature)) {
			if d := w.prog.FuncValue(o); d != nil && d.Blocks != nil {
				found = append(found, d)
			}
		}
	}
	if len(found) == 1 {
		w.missing = w.missing[:n]
		return found[0]
	}
	return nil
}

// fieldSetBy finds a field by name or, failing that, as the only unexported one of a kind that a function
// (with the functions of its package it calls) sets
func (w *World) fieldSetBy(rel, typ, name string, by *ssa.Function, ok func(types.Type) bool, not ...*types.Var) *types.Var {
	t := w.typ(rel, typ)
	if t == nil {
		return nil
	}
	st, isS := t.Underlying().(*types.Struct)
	if !isS {
		w.missing = append(w.missing, rel+"."+typ)
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	var cand []*types.Var
	for i := 0; i < st.NumFields() && by != nil; i++ {
		f := st.Field(i)
		if f.Exported() || !ok(f.Type()) || len(not) > 0 && not[0] == f {
			continue
		}
		for _, s := range w.stores[f] {
			if w.reaches(by, s.Parent(), map[*ssa.Function]bool{}) {
				cand = append(cand, f)
				break
			}
		}
	}
	if len(cand) == 1 {
		return cand[0]
	}
	w.missing = append(w.missing, rel+"."+typ+"."+name)
	return nil
}

// reaches: a calls b directly or through functions of the same package
func (w *World) reaches(a, b *ssa.Function, seen map[*ssa.Function]bool) bool {
	if a == b {
		return true
	}
	if a == nil || seen[a] || a.Pkg != b.Pkg {
		return false
	}
	seen[a] = true
	for _, bl := range a.Blocks {
		for _, in := range bl.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && w.reaches(f, b, seen) {
					return true
				}
			}
		}
	}
	return false
}

// fieldLike finds a field by name or, failing that, by a predicate on its type (if unique)
func (w *World) fieldLike(rel, typ, name string, ok func(types.Type) bool) *types.Var {
	t := w.typ(rel, typ)
	if t == nil {
		return nil
	}
	st, isS := t.Underlying().(*types.Struct)
	if !isS {
		w.missing = append(w.missing, rel+"."+typ)
		return nil
	}
	var cand []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == name {
			return f
		}
		if ok != nil && ok(f.Type()) {
			cand = append(cand, f)
		}
	}
	if len(cand) == 1 {
		return cand[0]
	}
	w.missing = append(w.missing, rel+"."+typ+"."+name)
	return nil
}

func fieldIndex(t types.Type, f *types.Var) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == f {
			return i
		}
	}
	return -1
}

// ---- field facts ----

func ssaField(x *ssa.FieldAddr) *types.Var {
	st, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(x.Field)
}

// underConstruction: v is an object this function has just made
func (w *World) underConstruction(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return w.underConstruction(x.X, depth+1)
	case *ssa.IndexAddr:
		return w.underConstruction(x.X, depth+1)
	case *ssa.Slice:
		return w.underConstruction(x.X, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !w.underConstruction(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		return f != nil && w.inRepo(f) && w.constructor(f, depth+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return w.underConstruction(a.X, depth+1) && !isLocalCell(a)
		case *ssa.Alloc: // a variable holding the object
			ok := false
			for _, r := range *a.Referrers() {
				if st, is := r.(*ssa.Store); is && st.Addr == a {
					if !w.underConstruction(st.Val, depth+1) {
						return false
					}
					ok = true
				}
			}
			return ok
		}
	}
	return false
}

func isLocalCell(*ssa.FieldAddr) bool { return false }

func (w *World) constructor(f *ssa.Function, depth int) bool {
	if f.Blocks == nil {
		return false
	}
	found := false
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(r.Results) == 0 {
				return false
			}
			if c, ok := r.Results[0].(*ssa.Const); ok && c.Value == nil {
				continue
			}
			if !w.underConstruction(r.Results[0], depth+1) {
				return false
			}
			found = true
		}
	}
	return found
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (w *World) analyseFields() {
	bad := map[*types.Var]bool{}
	all := map[*types.Var]bool{}
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					f := ssaField(x)
					if f == nil {
						continue
					}
					all[f] = true
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.Store:
							if y.Addr == ssa.Value(x) {
								w.stores[f] = append(w.stores[f], y)
								if !w.underConstruction(x.X, 0) {
									bad[f] = true
								}
							} else {
								bad[f] = true // address kept
							}
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.DebugRef:
						case *ssa.Call, *ssa.Defer, *ssa.Go:
							// methods of the embedded value (locks) or address passed on
							bad[f] = true
						default:
							bad[f] = true
						}
					}
				case *ssa.Store:
					if pt, ok := x.Addr.Type().Underlying().(*types.Pointer); ok {
						if st, ok := pt.Elem().Underlying().(*types.Struct); ok && !w.underConstruction(x.Addr, 0) {
							for i := 0; i < st.NumFields(); i++ {
								bad[st.Field(i)] = true
							}
						}
					}
				}
			}
		}
	}
	for f := range all {
		if !bad[f] {
			w.frozen[f] = true
		}
	}
	// local variables captured by closures and stored only once
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok || !a.Heap {
					continue
				}
				if _, isStruct := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); isStruct {
					continue
				}
				stores, clean := 0, true
				var scan func(v ssa.Value)
				scan = func(v ssa.Value) {
					for _, r := range *v.Referrers() {
						switch y := r.(type) {
						case *ssa.Store:
							if y.Addr == v {
								stores++
							} else {
								clean = false
							}
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.MakeClosure:
							for i, bd := range y.Bindings {
								if bd == v {
									scan(y.Fn.(*ssa.Function).FreeVars[i])
								}
							}
						default:
							clean = false
						}
					}
				}
				scan(a)
				if clean && stores <= 1 {
					w.frozenAlloc["a"+itoa(posID(a))] = true
				}
			}
		}
	}
	w.analyseOptional()
}

// analyseOptional: pointer-like fields that may be nil in an object the analysis
// did not see being built: left out by a composite literal, compared with nil,
// assigned nil, or filled by a decoder
func (w *World) analyseOptional() {
	opt := w.optional
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					st, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					if !ok || fn.Pkg == nil || !w.inRepo(fn) {
						continue
					}
					set := map[int]bool{}
					whole := false
					for _, r := range *x.Referrers() {
						if fa, ok := r.(*ssa.FieldAddr); ok && fa.X == ssa.Value(x) {
							for _, r2 := range *fa.Referrers() {
								if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
									set[fa.Field] = true
								}
							}
						}
						if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
							whole = true
						}
					}
					if whole {
						continue
					}
					for i := 0; i < st.NumFields(); i++ {
						if pointerLike(st.Field(i).Type()) && !set[i] {
							opt[st.Field(i)] = true
						}
					}
				case *ssa.BinOp:
					if x.Op != token.EQL && x.Op != token.NEQ {
						continue
					}
					for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
						c, ok := p[1].(*ssa.Const)
						if !ok || c.Value != nil {
							continue
						}
						if u, ok := p[0].(*ssa.UnOp); ok && u.Op == token.MUL {
							if fa, ok := u.X.(*ssa.FieldAddr); ok && pointerLike(u.Type()) {
								opt[ssaField(fa)] = true
							}
						}
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if c, ok := x.Val.(*ssa.Const); ok && c.Value == nil && pointerLike(c.Type()) {
							opt[ssaField(fa)] = true
						}
					}
				}
			}
		}
	}
}

// constInt is the value of an integer constant of a package
func (w *World) constInt(rel, name string) int64 {
	if p := w.pkgs[rel]; p != nil {
		if k, ok := p.Types.Scope().Lookup(name).(*types.Const); ok {
			if v, ok := constant.Int64Val(constant.ToInt(k.Val())); ok {
				return v
			}
		}
	}
	w.missing = append(w.missing, "constant "+rel+"."+name)
	return -1
}
