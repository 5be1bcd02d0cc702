package main

// C14 and C15: locks. All entry points of the library and all goroutines it starts are
// interpreted with arbitrary arguments; the locks held are part of the abstract state.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isSyncType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

func isMutexType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && isSyncType(t) && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// hasLock: the type contains a mutex by value
func hasLock(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isSyncType(t) {
			return true
		}
		for i := 0; i < u.NumFields(); i++ {
			if hasLock(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasLock(u.Elem())
	}
	return false
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// concWorld holds the whole-program facts the two properties share
type concWorld struct {
	w         *World
	pkgs      []string
	effect    map[*ssa.Function]bool
	fieldIn   map[*types.Var]string // fields of the shared structs -> "Type.field"
	wiring    map[*types.Var]bool
	addrTaken []*ssa.Function // functions used as values
	ifaces    map[*types.Func][]types.Type
	goVars    map[string]string // names of variables captured by goroutine closures
}

func newConcWorld(w *World) *concWorld {
	cw := &concWorld{w: w, pkgs: []string{"", "nodes", "serialrecorder"}, effect: map[*ssa.Function]bool{},
		fieldIn: map[*types.Var]string{}, wiring: map[*types.Var]bool{}, ifaces: map[*types.Func][]types.Type{}, goVars: map[string]string{}}
	for _, rel := range cw.pkgs {
		p := w.ssas[rel]
		if p == nil {
			w.missing = append(w.missing, "package "+rel)
			continue
		}
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			if st, ok := t.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if f := st.Field(i); !isSyncType(f.Type()) {
						cw.fieldIn[f] = t.Name() + "." + f.Name()
					}
				}
			}
		}
	}
	// functions used as values: closures, bound methods
	seen := map[*ssa.Function]bool{}
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == x {
							isArg := false
							for _, a := range c.Common().Args {
								isArg = isArg || a == ssa.Value(x)
							}
							if !isArg {
								continue
							}
						}
						if _, ok := in.(*ssa.MakeClosure); ok {
							// only if the closure is used other than being called here
							mc := in.(*ssa.MakeClosure)
							only := true
							for _, r := range *mc.Referrers() {
								if c, ok := r.(ssa.CallInstruction); !ok || c.Common().Value != ssa.Value(mc) {
									only = false
								}
							}
							if only {
								continue
							}
						}
						if !seen[x] && (x.Synthetic != "" || w.inRepo(x)) {
							seen[x] = true
							cw.addrTaken = append(cw.addrTaken, x)
						}
					}
				}
				if g, ok := in.(*ssa.Go); ok {
					if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
						for i, bd := range mc.Bindings {
							if a, ok := bd.(*ssa.Alloc); ok {
								cw.goVars["a"+itoa(posID(a))] = mc.Fn.(*ssa.Function).FreeVars[i].Name()
							}
						}
					}
				}
			}
		}
	}
	sort.Slice(cw.addrTaken, func(i, j int) bool { return w.fname(cw.addrTaken[i]) < w.fname(cw.addrTaken[j]) })
	cw.effects()
	return cw
}

func ptrTo(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (cw *concWorld) candidates(sig *types.Signature) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range cw.addrTaken {
		if sigMatch(f.Signature, sig) {
			out = append(out, f)
		}
	}
	return out
}

func sigMatch(a, b *types.Signature) bool {
	return types.Identical(types.NewSignatureType(nil, nil, nil, a.Params(), a.Results(), a.Variadic()), types.NewSignatureType(nil, nil, nil, b.Params(), b.Results(), b.Variadic()))
}

// implementers of an interface method among the types of the repository
func (cw *concWorld) implementers(m *types.Func) []types.Type {
	if l, ok := cw.ifaces[m]; ok {
		return l
	}
	var out []types.Type
	recv := m.Type().(*types.Signature).Recv()
	if recv != nil {
		if it, ok := recv.Type().Underlying().(*types.Interface); ok {
			var rels []string
			for r := range cw.w.ssas {
				rels = append(rels, r)
			}
			sort.Strings(rels)
			for _, rel := range rels {
				if strings.HasPrefix(rel, "cmd") || strings.Contains(rel, "example") || strings.HasPrefix(rel, "generators") {
					continue
				}
				p := cw.w.ssas[rel]
				var ns []string
				for n := range p.Members {
					ns = append(ns, n)
				}
				sort.Strings(ns)
				for _, n := range ns {
					t, ok := p.Members[n].(*ssa.Type)
					if !ok || types.IsInterface(t.Type()) {
						continue
					}
					for _, x := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
						if types.Implements(x, it) {
							out = append(out, x)
							break
						}
					}
				}
			}
		}
	}
	cw.ifaces[m] = out
	return out
}

// repoIface: the interface method is declared in the repository
func (cw *concWorld) repoIface(m *types.Func) bool {
	return m.Pkg() != nil && strings.HasPrefix(m.Pkg().Path(), module)
}

// effects finds the functions that take locks, communicate, start goroutines or touch shared fields
func (cw *concWorld) effects() {
	w := cw.w
	calls := map[*ssa.Function][]*ssa.Function{}
	var all []*ssa.Function
	all = append(all, w.fns...)
	for _, f := range cw.addrTaken {
		if f.Synthetic != "" && f.Blocks != nil {
			all = append(all, f)
		}
	}
	for _, fn := range all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if t := ptrTo(x.Type()); t != nil && hasLock(t) { // builds a shared object
						cw.effect[fn] = true
					}
				case *ssa.Send, *ssa.Select, *ssa.Go, *ssa.MakeChan:
					cw.effect[fn] = true
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						cw.effect[fn] = true
					}
				case *ssa.FieldAddr:
					if f := ssaField(x); f != nil && (cw.fieldIn[f] != "" && !w.frozen[f] || isSyncType(f.Type())) {
						cw.effect[fn] = true
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					if b.Name() == "close" {
						cw.effect[fn] = true
					}
					continue
				}
				if cc.IsInvoke() {
					if cw.repoIface(cc.Method) {
						for _, t := range cw.implementers(cc.Method) {
							if f := w.method(t, cc.Method); f != nil {
								calls[fn] = append(calls[fn], f)
							}
						}
					} else if n := cc.Method.Name(); n == "Read" || n == "Write" || n == "Close" || n == "Open" {
						cw.effect[fn] = true
					}
					continue
				}
				if f := cc.StaticCallee(); f != nil {
					pkg, name := extName(f)
					if strings.HasPrefix(name, "(*sync.") || pkg == "encoding/json" || pkg == "sync" || name == "time.Sleep" || name == "time.After" {
						cw.effect[fn] = true
					}
					calls[fn] = append(calls[fn], f)
				} else {
					calls[fn] = append(calls[fn], cw.candidates(cc.Signature())...)
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range all {
			if cw.effect[fn] {
				continue
			}
			for _, f := range calls[fn] {
				if cw.effect[f] {
					cw.effect[fn] = true
					ch = true
					break
				}
			}
		}
	}
}

// roots: what users of the library can call
func (cw *concWorld) roots() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range cw.w.fns {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Object() == nil || fn.Pkg == nil {
			continue
		}
		in := false
		for _, rel := range cw.pkgs {
			in = in || fn.Pkg == cw.w.ssas[rel]
		}
		if !in || !fn.Object().Exported() || !cw.effect[fn] {
			continue
		}
		if r := fn.Signature.Recv(); r != nil {
			if n := namedOf(r.Type()); n == nil || !n.Obj().Exported() && !cw.leaks(n) {
				continue
			}
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return cw.w.fname(out[i]) < cw.w.fname(out[j]) })
	return out
}

// leaks: values of the unexported type reach users as an interface
func (cw *concWorld) leaks(n *types.Named) bool {
	for _, rel := range cw.pkgs {
		p := cw.w.ssas[rel]
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok || !t.Object().Exported() {
				continue
			}
			if it, ok := t.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 && types.Implements(types.NewPointer(n), it) {
				return true
			}
		}
	}
	return false
}

// engine for one root
func (cw *concWorld) eng(c *Check) *Eng {
	w := cw.w
	e := newEng(w)
	e.retCap, e.blockCap = 2, 10
	e.lean = true
	e.resolveDyn = func(sig *types.Signature) []*Term {
		var out []*Term
		for _, f := range cw.candidates(sig) {
			if !cw.effect[f] {
				continue
			}
			var binds []*Term
			for _, fv := range f.FreeVars {
				b := Sym("free."+fv.Name(), fv.Type())
				binds = append(binds, expand(b, fv.Type()))
			}
			out = append(out, mk(Term{op: OFunc, fn: f, args: binds, typ: f.Type()}))
		}
		return out
	}
	e.resolveIface = func(m *types.Func) []types.Type {
		if !cw.repoIface(m) {
			return nil
		}
		var out []types.Type
		for _, t := range cw.implementers(m) {
			if f := w.method(t, m); f != nil && cw.effect[f] {
				out = append(out, t)
			}
		}
		return out
	}
	e.opaque = func(f *ssa.Function) bool { return !cw.effect[f] }
	if c != nil {
		contracts(w, c, e, false)
	}
	return e
}

// lockClass names the mutex a lock operation is about
func lockClass(mu *Term) string {
	if mu.op == OField {
		if st := structOfPtrField(mu); st != nil {
			f := st.Field(int(mu.n))
			n := 0
			for i := 0; i < st.NumFields(); i++ {
				if isMutexType(st.Field(i).Type()) {
					n++
				}
			}
			o := "?"
			if t := ptrElem(mu.args[0]); t != nil {
				if nm, ok := t.(*types.Named); ok {
					o = nm.Obj().Name()
				}
			}
			if o == "plainNode" {
				o = "Node"
			}
			if n == 1 {
				return o
			}
			return o + "." + f.Name()
		}
	}
	if mu.op == OGlobal {
		return mu.glob.Name()
	}
	if mu.op == OAlloc {
		return "local " + mu.name
	}
	return "mutex"
}

func lockList(s *State) string {
	var l []string
	for _, h := range s.locks {
		m := "W"
		if h.mode == 'R' {
			m = "R"
		}
		l = append(l, lockClass(h.mu)+"("+m+")")
	}
	if len(l) == 0 {
		return "no lock"
	}
	return strings.Join(l, ", ")
}

// unbounded: the external function may wait for something that never happens
func unboundedExt(name string) bool {
	switch name {
	case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "io.ReadFull", "io.ReadAtLeast", "io.ReadAll", "io.Copy", "io.CopyN", "io/ioutil.ReadAll":
		return true
	}
	return strings.HasPrefix(name, "(*bufio.Reader).Read") || strings.HasPrefix(name, "(*bufio.Scanner).Scan") || strings.HasPrefix(name, "(*github.com/tarm/serial.Port).Read")
}

func runUniverse(w *World, c *Check, cw *concWorld, hook func(*Eng, *Event), kinds ...string) {
	only := os.Getenv("ONLY")
	for _, fn := range cw.roots() {
		if only != "" && w.fname(fn) != only {
			continue
		}
		e := cw.eng(c)
		h := func(ev *Event) { hook(e, ev) }
		e.hooks = append(e.hooks, h)
		s := newState()
		t0 := e.steps
		e.run(s, fn, rootArgs(e, s, fn), nil)
		c.engine(e, append([]string{"none"}, kinds...)...)
		c.units = append(c.units, w.fname(fn))
		if debugJoin || only != "" || os.Getenv("GZROOTS") != "" {
			fmt.Fprintln(os.Stderr, w.fname(fn), e.steps-t0, e.gaveUp)
		}
	}
}

func init() {
	props["C15"] = &property{run: runC15,
		explain: "Every exported function and method of the connection, node and recorder packages that can touch a lock, a channel or shared state is interpreted abstractly with arbitrary arguments, together with every goroutine it starts and every callback and interface method it may call. The locks held are part of the abstract state. Decided: unlocks only of held locks in the same mode; no lock still held when an entry point or goroutine ends; no lock taken again while held (also read locks); the lock classes are nested acyclically over all entry points; no unbounded wait (channel operation without a timer case, wait for other goroutines, reading the port) while any lock is held.",
		assume:  []string{"Writing to the port, opening it and file operations are assumed to finish.", "User supplied callbacks and implementations of the port interfaces do not call back into the library.", "Two locks of the same class are assumed to be possibly the same lock unless the analysis can tell the objects apart."}}
}

func runC15(w *World, c *Check) {
	cw := newConcWorld(w)
	type edge struct{ a, b string }
	edges := map[edge]string{}
	nlock, nwait, nend := 0, 0, 0
	runUniverse(w, c, cw, func(e *Eng, ev *Event) {
		if e.probe > 0 {
			return
		}
		s := ev.S
		at := w.pos(ev.Instr)
		fn := "?"
		if ev.Instr != nil && ev.Instr.Parent() != nil {
			fn = w.fname(ev.Instr.Parent())
		}
		switch ev.Kind {
		case EvLock:
			nlock++
			cl := lockClass(ev.Ptr)
			again := false
			for _, h := range s.locks {
				hc := lockClass(h.mu)
				if h.mu == ev.Ptr || hc == cl && !distinctObjects(s, h.owner, ev.Recv) {
					again = true
				} else {
					if _, ok := edges[edge{hc, cl}]; !ok {
						edges[edge{hc, cl}] = at + " in " + fn + " (entry " + e.rootName + ")"
					}
				}
			}
			c.ob("no lock is taken while it is already held", fn+": "+cl, at, !again, "the lock of "+cl+" is taken while it is held: "+lockList(s)+" | entry "+e.rootName+trailStr(s))
		case EvRootEnd:
			nend++
			c.ob("locks are released on every path", e.rootShort(ev.Callee), e.w.rel(ev.Callee.Pos()), len(s.locks) == 0, "held at the end: "+lockList(s)+" | entry "+e.rootName+trailStr(s))
		case EvTryWait:
			if !ev.Block {
				return
			}
			nwait++
			bounded := false
			for i, ch := range ev.Chans {
				if ev.Dirs[i] == types.RecvOnly && isTimer(ch) {
					bounded = true
				}
			}
			c.ob("nothing waits without bound while a lock is held", fn+": "+waitName(e, ev), at, bounded || len(s.locks) == 0, "waits without a time-out while holding "+lockList(s)+" | entry "+e.rootName+trailStr(s))
		case EvInvoke:
			if ev.Method.Name() == "Read" && len(ev.Args) == 1 {
				c.ob("nothing waits without bound while a lock is held", fn+": Read", at, len(s.locks) == 0, "reads from the port while holding "+lockList(s)+" | entry "+e.rootName+trailStr(s))
			}
		case EvCall:
			if ev.Callee != nil && !w.inRepo(ev.Callee) {
				if _, name := extName(ev.Callee); unboundedExt(name) {
					c.ob("nothing waits without bound while a lock is held", fn+": "+name, at, len(s.locks) == 0, "calls "+name+" while holding "+lockList(s)+" | entry "+e.rootName+trailStr(s))
				}
			}
			jsonMethods(e, ev)
		}
	}, "unlock")
	// order
	next := map[string][]string{}
	for ed := range edges {
		next[ed.a] = append(next[ed.a], ed.b)
	}
	for ed, at := range edges {
		seen := map[string]bool{}
		var dfs func(x string) bool
		dfs = func(x string) bool {
			if x == ed.a {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, y := range next[x] {
				if dfs(y) {
					return true
				}
			}
			return false
		}
		c.ob("locks are nested in one order", ed.a+" before "+ed.b, at, !dfs(ed.b), "the locks of "+ed.a+" and "+ed.b+" are nested in both orders; "+ed.a+" is held when "+ed.b+" is taken at "+at)
		c.notes = append(c.notes, "order: "+ed.a+" before "+ed.b+" at "+at)
	}
	sort.Strings(c.notes)
	c.need("no lock is taken while it is already held", 5)
	c.need("locks are released on every path", 10)
	c.need("nothing waits without bound while a lock is held", 5)
	_, _, _ = nlock, nwait, nend
}

func (e *Eng) rootShort(fn *ssa.Function) string { return e.w.fname(fn) }

func waitName(e *Eng, ev *Event) string {
	switch x := ev.Instr.(type) {
	case *ssa.Send:
		return "send on " + e.describe(x.Chan)
	case *ssa.UnOp:
		return "receive from " + e.describe(x.X)
	case *ssa.Select:
		return "select"
	}
	return "wait"
}

// distinctObjects: the two owners are certainly different objects
func distinctObjects(s *State, a, b *Term) bool {
	ra, rb := root(a), root(b)
	if ra == rb {
		return false
	}
	return ra.op == OAlloc && rb.op == OAlloc || ra.op == OAlloc && allocFresh(s, ra) || rb.op == OAlloc && allocFresh(s, rb)
}

func allocFresh(s *State, r *Term) bool {
	_, ok := s.escaped.get(r.id)
	return !ok
}

// jsonMethods: encoding a value calls the encoding methods of the types inside it
func jsonMethods(e *Eng, ev *Event) {
	jsonWalk(e, ev, nil)
}

func jsonWalk(e *Eng, ev *Event, read func(s *State, base *Term, t types.Type, f *types.Var, val *Term)) {
	if ev.Callee == nil {
		return
	}
	_, name := extName(ev.Callee)
	i := -1
	switch name {
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		i = 0
	case "(*encoding/json.Encoder).Encode", "(*encoding/gob.Encoder).Encode":
		i = 1
	}
	if i < 0 || i >= len(ev.Args) {
		return
	}
	v := ev.Args[i]
	if v.op != OIface {
		return
	}
	seen := map[string]bool{}
	var walk func(s *State, t types.Type, v *Term, depth int)
	walk = func(s *State, t types.Type, v *Term, depth int) {
		if depth > 8 || s.facts.nilness(v) == 1 {
			return
		}
		if n := namedOf(t); n != nil {
			k := typStr(t)
			if seen[k] {
				return
			}
			for _, m := range []string{"MarshalJSON", "MarshalText"} {
				ms := e.w.prog.MethodSets.MethodSet(t)
				if sel := ms.Lookup(n.Obj().Pkg(), m); sel != nil {
					fn := e.w.prog.MethodValue(sel)
					if fn != nil && (e.w.inRepo(fn) || fn.Synthetic != "") {
						seen[k] = true
						st := s.clone()
						e.callFn(st, fn, []*Term{v}, nil, ev.Instr)
						e.cur = ev.Instr
						return
					}
				}
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if st, ok := u.Elem().Underlying().(*types.Struct); ok {
				seen[typStr(t)] = true
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					if !f.Exported() || reflectTag(st.Tag(i)) == "-" || isSyncType(f.Type()) {
						continue
					}
					loc := Field(v, i, types.NewPointer(f.Type()))
					fv := e.load(s, loc, f.Type())
					if read != nil {
						read(s, loc, f.Type(), f, fv)
					}
					walk(s, f.Type(), fv, depth+1)
				}
			}
		case *types.Slice:
			walk(s, u.Elem(), freshVal("jsonelem", u.Elem()), depth+1)
		case *types.Map:
			walk(s, u.Elem(), freshVal("jsonelem", u.Elem()), depth+1)
		case *types.Interface:
			if v.op == OIface {
				walk(s, v.typ, v.args[0], depth+1)
			}
		}
	}
	walk(ev.S, v.typ, v.args[0], 0)
}
