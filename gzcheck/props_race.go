package main

// C14: every access to shared mutable state holds its lock. Built on the same exploration as C15.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type heldClass struct {
	class string
	own   bool // the lock belongs to the object accessed
	mode  byte
}

type access struct {
	name  string // Type.field, or the variable
	typ   string // the type the field belongs to
	write bool
	held  []heldClass
	fn    string
	at    string
	what  string
	entry string
	trail string
}

type raceLog struct {
	w    *World
	cw   *concWorld
	acc  map[string][]*access
	seen map[string]bool
	rec  string // the recorder, which is left out
}

// shared names the shared place loc stands for: a field of a shared object, a variable of a goroutine, a package variable
func (r *raceLog) shared(e *Eng, s *State, loc *Term) (name, typ string, base *Term) {
	return r.place(e, s, loc, false)
}

// place: with contents set, the place is that of the map or array stored there, whether or not the place itself can change
func (r *raceLog) place(e *Eng, s *State, loc *Term, contents bool) (name, typ string, base *Term) {
	switch loc.op {
	case OGlobal:
		if g := loc.glob; g != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), module) {
			return "variable " + g.Name(), "", nil
		}
	case OAlloc:
		if e.isEscaped(s, loc) && r.cw.goVars[loc.name] != "" && !e.frozenAlloc[loc.name] {
			return "variable " + r.cw.goVars[loc.name], "", nil
		}
	case OField:
		base = loc.args[0]
		f := fieldVar(loc)
		if f == nil {
			return "", "", nil
		}
		if n := r.cw.fieldIn[f]; n != "" {
			if e.frozen[f] && !contents || r.cw.wiring[f] || r.rec != "" && strings.HasPrefix(n, r.rec+".") {
				return "", "", nil
			}
			rt := root(base)
			if rt.op == OAlloc && !e.isEscaped(s, rt) {
				return "", "", nil
			}
			return n, n[:strings.Index(n, ".")], base
		}
		return r.place(e, s, base, contents) // part of a value stored in a shared place
	case OElemAt:
		if n, t, b := r.holder(e, s, loc.args[0]); n != "" {
			return n + "[]", t, b
		}
	}
	return "", "", nil
}

// holder: the shared place from which the map or array was taken
func (r *raceLog) holder(e *Eng, s *State, m *Term) (string, string, *Term) {
	if m.op == OCall && m.name == "arr" && len(m.args) == 1 {
		m = m.args[0]
	}
	if m.op == OLoad {
		return r.place(e, s, m.args[0], true)
	}
	if m.op == OAlloc && !e.isEscaped(s, m) {
		return "", "", nil
	}
	var best *Term
	s.heap.each(func(id int, v *Term) {
		if v != m && !(v.op == OSlice && v.args[0] == m) {
			return
		}
		l := termByID[id]
		if l == nil || l.op != OField && l.op != OGlobal {
			return
		}
		if n, _, _ := r.place(e, s, l, true); n != "" && (best == nil || l.id < best.id) {
			best = l
		}
	})
	if best != nil {
		return r.place(e, s, best, true)
	}
	return "", "", nil
}

func (r *raceLog) held(s *State, typ string, base *Term) []heldClass {
	var out []heldClass
	for _, h := range s.locks {
		c := lockClass(h.mu)
		own := true
		if base != nil && c == typ {
			own = h.owner == base || root(h.owner) == root(base) && h.owner == base
		}
		out = append(out, heldClass{c, own, h.mode})
	}
	return out
}

func (r *raceLog) add(e *Eng, ev *Event, s *State, name, typ string, base *Term, write bool, what string) {
	if name == "" {
		return
	}
	fn := "?"
	if ev.Instr != nil && ev.Instr.Parent() != nil {
		fn = e.w.fname(ev.Instr.Parent())
	}
	a := &access{name: name, typ: typ, write: write, held: r.held(s, typ, base), fn: fn, at: e.w.pos(ev.Instr), what: what, entry: e.rootName, trail: trailStr(s)}
	k := fmt.Sprint(name, write, a.held, fn, a.at, what)
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.acc[name] = append(r.acc[name], a)
}

func isPrinter(name string) bool {
	return strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "github.com/sirupsen/logrus.") ||
		strings.HasPrefix(name, "(*github.com/sirupsen/logrus.") || strings.HasPrefix(name, "(*log.Logger).") || strings.Contains(name, "go-spew/spew.")
}

func (r *raceLog) hook(e *Eng, c *Check, ev *Event) {
	if e.probe > 0 {
		return
	}
	s := ev.S
	switch ev.Kind {
	case EvLoad, EvStore:
		if ev.Ptr == nil {
			return
		}
		if t := ptrElem(ev.Ptr); t != nil {
			if _, ok := t.Underlying().(*types.Struct); ok && hasLock(t) {
				rt := root(ev.Ptr)
				if rt.op != OAlloc || e.isEscaped(s, rt) || ev.Kind == EvLoad && !zeroValued(s, ev.Ptr) {
					c.bad("locks are never copied", e.w.fname(ev.Instr.Parent())+": "+typStr(t), e.w.pos(ev.Instr), "a value containing a lock is copied | entry "+e.rootName+trailStr(s))
				}
			}
			if st, ok := t.Underlying().(*types.Struct); ok && !isSyncType(t) { // all fields at once
				for i := 0; i < st.NumFields(); i++ {
					if n, ty, b := r.shared(e, s, Field(ev.Ptr, i, types.NewPointer(st.Field(i).Type()))); n != "" && r.cw.fieldIn[st.Field(i)] != "" {
						r.add(e, ev, s, n, ty, b, ev.Kind == EvStore, "access")
					}
				}
			}
		}
		n, t, b := r.shared(e, s, ev.Ptr)
		what := "read"
		if ev.Kind == EvStore {
			what = "write"
		}
		r.add(e, ev, s, n, t, b, ev.Kind == EvStore, what)
	case EvMapRead, EvMapSet, EvMapDel, EvRange:
		if ev.Ptr == nil || ev.Ptr.typ == nil {
			return
		}
		if _, ok := ev.Ptr.typ.Underlying().(*types.Map); !ok {
			return
		}
		n, t, b := r.holder(e, s, ev.Ptr)
		r.add(e, ev, s, n, t, b, ev.Kind == EvMapSet || ev.Kind == EvMapDel, "map "+map[EvKind]string{EvMapRead: "read", EvMapSet: "write", EvMapDel: "delete", EvRange: "iteration"}[ev.Kind])
	case EvCall:
		if ev.Callee == nil || e.w.inRepo(ev.Callee) {
			return
		}
		_, name := extName(ev.Callee)
		jsonWalk(e, ev, func(s *State, loc *Term, t types.Type, f *types.Var, val *Term) {
			n, ty, b := r.shared(e, s, loc)
			r.add(e, ev, s, n, ty, b, false, "encoding")
		})
		if isPrinter(name) {
			r.printed(e, ev)
		}
	}
}

// printed: values handed to a printing function are read completely
func (r *raceLog) printed(e *Eng, ev *Event) {
	var args []*Term
	var collect func(v *Term)
	collect = func(v *Term) {
		switch v.op {
		case OIface:
			args = append(args, v.args[0])
		case OSlice:
			c := e.content(ev.S, v.args[0])
			if c.op == OArr {
				for _, g := range c.args {
					if g.op == OSegLit {
						collect(g.args[0])
					}
				}
			}
		}
	}
	for _, a := range ev.Args {
		collect(a)
	}
	for _, a := range args {
		if a.typ == nil {
			continue
		}
		switch a.typ.Underlying().(type) {
		case *types.Pointer:
			st, ok := ptrElem(a).Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if r.cw.fieldIn[st.Field(i)] == "" {
					continue
				}
				n, t, b := r.shared(e, ev.S, Field(a, i, types.NewPointer(st.Field(i).Type())))
				r.add(e, ev, ev.S, n, t, b, false, "printing")
			}
		case *types.Map:
			n, t, b := r.holder(e, ev.S, a)
			r.add(e, ev, ev.S, n, t, b, false, "printing")
		}
	}
}

func zeroValued(s *State, p *Term) bool { return true }

func init() {
	props["C14"] = &property{run: runC14,
		explain: "Every exported function and method of the connection, node and recorder packages that can touch a lock, a channel or shared state is interpreted abstractly with arbitrary arguments, together with all goroutines, callbacks and interface methods it may run; the set of held locks is part of the abstract state. Each read and write of a field of a shared object (also through maps, slices, encoding, and printing), of a variable shared with a goroutine, and of a package variable is recorded with the locks held. Decided per place: unless it is never written after the object was built, one lock class is held at every access (exclusively at writes), the lock of the very object when it has one. Locks are not copied and no exported method returns a map that is protected by a lock.",
		assume:  []string{"The wiring of a node (its connection and event sink, and an endpoint's back pointer) is set before the node is visible (property C22) and therefore needs no lock.", "Objects not yet reachable by others need no lock.", "A request belongs to one connection, so the lock of any connection protects it.", "The exported fields of nodes are not used by callers of the library without the lock."}}
}

// wiringFields are set once, before an object is published
func (cw *concWorld) findWiring() {
	w := cw.w
	for f, n := range cw.fieldIn {
		switch {
		case strings.HasPrefix(n, "Node.") || strings.HasPrefix(n, "Controller.") || strings.HasPrefix(n, "Connection.") || strings.HasPrefix(n, "Endpoint."):
			t := f.Type()
			if nm, ok := t.(*types.Named); ok && types.IsInterface(nm) && nm.Obj().Name() == "Writer" {
				cw.wiring[f] = true
			}
			if sig, ok := t.Underlying().(*types.Signature); ok && sig.Params().Len() == 1 && strings.HasPrefix(n, "Node.") {
				cw.wiring[f] = true
			}
			if p, ok := t.(*types.Pointer); ok && strings.HasPrefix(n, "Endpoint.") {
				if nm := namedOf(p); nm != nil && nm.Obj().Name() == "Node" {
					cw.wiring[f] = true
				}
			}
		}
	}
	_ = w
}

func runC14(w *World, c *Check) {
	cw := newConcWorld(w)
	cw.findWiring()
	r := &raceLog{w: w, cw: cw, acc: map[string][]*access{}, seen: map[string]bool{}}
	if n, ok := w.roleType("serialrecorder", "serialRecorder").(*types.Named); ok {
		r.rec = n.Obj().Name()
	}
	runUniverse(w, c, cw, func(e *Eng, ev *Event) { r.hook(e, c, ev) })
	var names []string
	for n := range r.acc {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		l := r.acc[n]
		writes := false
		for _, a := range l {
			writes = writes || a.write
		}
		if !writes {
			continue
		}
		// the class that protects most accesses
		classes := map[string]int{}
		bad := func(a *access, cl string) bool {
			for _, h := range a.held {
				if h.class == cl && h.own && (!a.write || h.mode == 'W') {
					return false
				}
			}
			return true
		}
		for _, a := range l {
			for _, h := range a.held {
				classes[h.class] = 0
			}
		}
		var cls []string
		for cl := range classes {
			cls = append(cls, cl)
		}
		sort.Strings(cls)
		best, bn := "", len(l)+1
		for _, cl := range cls {
			k := 0
			for _, a := range l {
				if bad(a, cl) {
					k++
				}
			}
			if k < bn {
				best, bn = cl, k
			}
		}
		c.notes = append(c.notes, fmt.Sprintf("%s: %d accesses, protected by the lock of %s", n, len(l), best))
		for _, a := range l {
			var hs []string
			for _, h := range a.held {
				o := ""
				if !h.own {
					o = " of another object"
				}
				hs = append(hs, h.class+"("+string(h.mode)+")"+o)
			}
			if len(hs) == 0 {
				hs = []string{"no lock"}
			}
			lock := "the lock of " + best
			if best == "" {
				lock = "a lock"
			}
			c.ob("shared state is accessed under its lock", a.fn+": "+a.what+" "+n, a.at, best != "" && !bad(a, best), n+" is changed concurrently and needs "+lock+" here, but "+strings.Join(hs, ", ")+" is held | entry "+a.entry+a.trail)
		}
	}
	// shared maps are not handed out, locks are not passed by value
	for _, fn := range w.fns {
		in := false
		for _, rel := range cw.pkgs {
			in = in || fn.Pkg == w.ssas[rel]
		}
		if !in {
			continue
		}
		sig := fn.Signature
		okv := true
		if rv := sig.Recv(); rv != nil && hasLock(rv.Type()) {
			okv = false
		}
		for _, tu := range []*types.Tuple{sig.Params(), sig.Results()} {
			for i := 0; i < tu.Len(); i++ {
				if hasLock(tu.At(i).Type()) {
					okv = false
				}
			}
		}
		if fn.Synthetic == "" {
			c.ob("locks are never copied", w.fname(fn)+" (signature)", w.rel(fn.Pos()), okv, "a value containing a lock is passed, received or returned by value")
		}
		for _, b := range fn.Blocks {
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || fn.Object() == nil || !fn.Object().Exported() {
				continue
			}
			for _, v := range rt.Results {
				if _, ok := v.Type().Underlying().(*types.Map); !ok {
					continue
				}
				f := mapField(v, 0)
				c.ob("shared maps are not handed out", w.fname(fn), w.pos(rt), f == nil || cw.fieldIn[f] == "" || cw.never(r, cw.fieldIn[f]), "the map of a shared object is returned to the caller, who cannot hold its lock")
			}
		}
	}
	c.need("shared state is accessed under its lock", 25)
	c.need("locks are never copied", 20)
}

func (cw *concWorld) never(r *raceLog, n string) bool {
	for _, a := range r.acc[n] {
		if a.write {
			return false
		}
	}
	return true
}

// mapField: the field the map value was loaded from
func mapField(v ssa.Value, depth int) *types.Var {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return ssaField(fa)
		}
		if a, ok := x.X.(*ssa.Alloc); ok { // a named result or local variable
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					if f := mapField(st.Val, depth+1); f != nil {
						return f
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if f := mapField(e, depth+1); f != nil {
				return f
			}
		}
	case *ssa.ChangeType:
		return mapField(x.X, depth+1)
	}
	return nil
}
