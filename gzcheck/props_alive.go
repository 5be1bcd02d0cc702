package main

// C02: nothing that is received crashes the receive and delivery path
// C23: nothing in the configuration file crashes the library

import (
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	common := []string{"An opener that reports no error returns a port; callers pass the library a usable writer and event sink.", "Nodes that users of the library build themselves and put into the exported list are their own responsibility, apart from their maps.", "Memory does not run out; the standard library and logging do not panic on arguments of the right type."}
	props["C02"] = &property{run: runC02,
		explain: "ConnectWithCustomPortOpener and every goroutine it starts (port reader, writer, time-outs, report delivery, discovery, identification, saving) are interpreted abstractly, with arbitrary bytes from the port in arbitrary pieces (what the decoder answers is summarised by interpreting it on an arbitrary buffer), arbitrary outstanding requests, arbitrary configuration, and every lock and wait forgetting everything other goroutines may change. On every path each dereference, map write, index, slice, type assertion, division, shift, allocation size, explicit panic and unlock is an obligation. Facts about shared objects are invariants with obligations of their own: a field that was set stays set, nodes anyone can see have maps, a connection and an event sink, only requests are sent to the writer, and channels are closed at most once and not sent on after that.",
		assume:  common}
	props["C23"] = &property{run: runC23,
		explain: "Everything a decoded configuration can contain is taken as nil or arbitrary: objects, maps, lists and their elements. Loading, connecting with everything that runs afterwards, and the exported operations of controller, list, nodes and endpoints are interpreted abstractly on such nodes; every operation that could panic is an obligation. Adding a node establishes that its maps exist, which is what is assumed of nodes in a list later. An error of the decoder makes loading return an error.",
		assume:  common}
}

// alive: what is known about shared objects, and the obligations that make it so
type alive struct {
	w        *World
	c        *Check
	conn     *connParts
	nodesF   *types.Var
	node     types.Type
	maps     []*types.Var // of nodes
	always   map[*types.Var]bool
	monotone map[*types.Var]bool
	optElem  map[string]bool
	optional map[*types.Var]bool
	closers  map[string]map[string]string // channel -> goroutine -> position
	senders  map[string]map[string]string
	late     map[string]string // sends that may come after the close
}

const (
	ruleNil, ruleStay, ruleSeen, rulePkg, ruleClose, ruleSend = "nil", "what was set stays set", "nodes in a list are complete", "only requests are sent to the writer", "channels are closed once", "nothing is sent on a closed channel"
)

func newAlive(w *World, c *Check) *alive {
	a := &alive{w: w, c: c, always: map[*types.Var]bool{}, monotone: map[*types.Var]bool{}, optElem: map[string]bool{}, optional: map[*types.Var]bool{}, closers: map[string]map[string]string{}, senders: map[string]map[string]string{}, late: map[string]string{}}
	a.conn = findConn(w)
	a.node = w.typ("nodes", "Node")
	ep := w.typ("nodes", "Endpoint")
	a.nodesF = w.fieldLike("nodes", "List", "nodes", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	epNode := w.fieldLike("nodes", "Endpoint", "node", func(t types.Type) bool { return a.node != nil && types.Identical(t, types.NewPointer(a.node)) })
	if len(w.missing) > 0 || ep == nil {
		return nil
	}
	st := a.node.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch f.Type().Underlying().(type) {
		case *types.Map:
			a.maps = append(a.maps, f)
			a.always[f] = true
		case *types.Interface, *types.Signature:
			if !f.Exported() {
				a.always[f] = true // by the rules about wiring
			}
		}
	}
	a.always[epNode] = true
	a.always[w.field("", "Controller", "Nodes")] = true // controllers are made by NewController
	a.always[w.field("", "Controller", "Connection")] = true
	// fields of shared objects that nobody sets to nil
	reset := map[*types.Var]bool{}
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Store); ok {
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if k, ok := x.Val.(*ssa.Const); ok && k.Value == nil {
							reset[ssaField(fa)] = true
						}
					}
				}
			}
		}
	}
	for _, t := range []types.Type{a.node, a.conn.conn, w.typ("", "Controller")} {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); pointerLike(f.Type()) && !reset[f] {
				if _, sl := f.Type().Underlying().(*types.Slice); !sl {
					a.monotone[f] = true
				}
			}
		}
	}
	// what the decoder of the configuration fills
	for f := range w.optional {
		a.optional[f] = true
	}
	seen := map[types.Type]bool{}
	var walk func(t types.Type, elem bool)
	walk = func(t types.Type, elem bool) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch x := t.Underlying().(type) {
		case *types.Pointer:
			if elem {
				a.optElem[typStr(t)] = true
			}
			walk(x.Elem(), false)
		case *types.Slice:
			walk(x.Elem(), true)
		case *types.Map:
			walk(x.Elem(), false)
		case *types.Struct:
			if n := namedOf(t); n != nil && (n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), module)) {
				return
			}
			for i := 0; i < x.NumFields(); i++ {
				f := x.Field(i)
				if !f.Exported() && pointerLike(f.Type()) {
					a.optional[f] = true // not known to the decoder, which makes the object
				}
				if !f.Exported() || reflectTag(x.Tag(i)) == "-" {
					continue
				}
				if pointerLike(f.Type()) {
					a.optional[f] = true
				}
				walk(f.Type(), false)
			}
		}
	}
	walk(w.field("", "Controller", "Nodes").Type(), false)
	walk(a.node, false)
	return a
}

func (a *alive) eng(ret, block int) *Eng {
	w, c := a.w, a.c
	cw := newConcWorld(w)
	e := cw.eng(nil)
	e.hooks = nil
	e.opaque = nil
	e.retCap, e.blockCap = ret, block
	e.resolveIface = func(m *types.Func) []types.Type {
		if !cw.repoIface(m) {
			return nil
		}
		return cw.implementers(m)
	}
	contracts(w, c, e, true)
	e.monotone, e.optional, e.optElem = a.monotone, a.optional, a.optElem
	e.wantEscape = true
	e.hooks = append(e.hooks, func(ev *Event) { a.hook(e, ev) })
	return e
}

func (a *alive) field(e *Eng, s *State, o *Term, f *types.Var, t types.Type) *Term {
	return e.load(s, Field(o, fieldIndex(t, f), types.NewPointer(f.Type())), f.Type())
}

func private(e *Eng, s *State, loc *Term) bool {
	r := root(loc)
	return r.op == OAlloc && !e.isEscaped(s, r)
}

// chanKey names the channel by where it is made or kept
func chanKey(ch *Term) string {
	if ch.op == OLoad {
		if f := fieldVar(ch.args[0]); f != nil {
			return "field " + f.Name()
		}
	}
	if n := allocSite(ch); n != "" {
		return "made at " + n
	}
	return ""
}

func (a *alive) hook(e *Eng, ev *Event) {
	w, c, s := a.w, a.c, ev.S
	at, pos := "", ""
	if ev.Instr != nil && ev.Instr.Parent() != nil {
		at, pos = w.fname(ev.Instr.Parent()), w.pos(ev.Instr)
	}
	via := func() string { return " | entry " + e.rootName + trailStr(s) }
	isPkg := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && types.Identical(p.Elem(), a.conn.pkg)
	}
	note := func(m map[string]map[string]string, k string) {
		if m[k] == nil {
			m[k] = map[string]string{}
		}
		m[k][e.rootName] = pos
	}
	switch ev.Kind {
	case EvInvoked: // an opener without an error gives a port
		if ev.Method != nil && ev.Method.Name() == "Open" && ev.Val != nil && ev.Val.op == OTuple && len(ev.Val.args) == 2 && s.facts.nilness(ev.Val.args[1]) == 1 {
			s.notNil(ev.Val.args[0])
		}
	case EvStore:
		f := fieldVar(ev.Ptr)
		if f == nil || ev.Val == nil {
			return
		}
		if s.facts.nilness(ev.Val) == 1 || ev.Val.op == OAlloc {
			if old, ok := s.heap.get(ev.Ptr.id); ok && old.op == OLoad {
				s.setExtra("taken", old)
			} else if !ok {
				s.setExtra("taken", e.load(s, ev.Ptr, f.Type()))
			}
			if s.extra["toforget"] == ev.Ptr {
				s.setExtra("toforget", nil)
				s.setMon("toforget", "")
			}
		}
		if e.probe == 0 && a.monotone[f] && !private(e, s, ev.Ptr) {
			c.ob(ruleStay, at+": "+f.Name(), pos, !e.nilable(s, ev.Val) && ev.Val.op != ONil && s.facts.nilness(ev.Val) != 1, f.Name()+" of an object others use may be set to nil again"+via())
		}
	case EvEscape:
		if t := ptrElem(ev.Ptr); t != nil && types.Identical(t, a.node) && e.probe == 0 {
			for _, f := range a.maps {
				c.ob(ruleSeen, at+": "+f.Name(), pos, s.facts.nilness(a.field(e, s, ev.Ptr, f, a.node)) == 2, "a node is made visible to others without "+f.Name()+via())
			}
		}
	case EvMapSet:
		x, ok := ev.Instr.(*ssa.MapUpdate)
		if !ok || e.probe > 0 || mapOwner(x.Map, a.nodesF, 0) == nil {
			return
		}
		n := ev.Val
		c.ob(ruleSeen, at+": not nil", pos, s.facts.nilness(n) == 2, "a list may get a node that is nil"+via())
		if len(e.always) == 0 {
			for _, f := range a.maps {
				c.ob(ruleSeen, at+": "+f.Name(), pos, s.facts.nilness(a.field(e, s, n, f, a.node)) == 2, "a node is put into a list although its "+f.Name()+" may be nil"+via())
			}
		}
	case EvSend:
		if isPkg(elemOfChan(ev.Ptr)) && e.probe == 0 {
			c.ob(rulePkg, at, pos, s.facts.nilness(ev.Val) == 2, "the writer may be sent nil instead of a request"+via())
		}
		if k := chanKey(ev.Ptr); k != "" && e.probe == 0 {
			note(a.senders, k)
			if s.extra["closed:"+k] == ev.Ptr {
				a.late[k] = pos
			}
		}
	case EvRecv:
		if ev.Val != nil && ev.Mode != 'c' && isPkg(elemOfChan(ev.Ptr)) {
			s.notNil(ev.Val)
		}
	case EvClose:
		ch := ev.Ptr
		if isPkg(elemOfChan(ch)) {
			c.ob(rulePkg, at+": close", pos, false, "the channel of the writer is closed, so that it receives nil"+via())
			return
		}
		k := chanKey(ch)
		if e.probe == 0 {
			if k != "" {
				note(a.closers, k)
			}
		}
		switch {
		case ch.op == OLoad:
			f := fieldVar(ch.args[0])
			if f == a.conn.retChan {
				return // its rules are those of the requests
			}
			if s.extra["taken"] == ch {
				s.setExtra("taken", nil)
				if e.probe == 0 {
					c.ob(ruleClose, at, pos, true, "")
				}
				return
			}
			own := false
			for _, l := range s.locks {
				own = own || l.owner == root(ch) || f != nil && l.owner == ch.args[0].args[0]
			}
			if e.probe == 0 {
				c.ob(ruleClose, at, pos, own && ch.args[0].op == OField, "a channel kept in an object is closed without the lock of that object, so that it may be closed twice"+via())
			}
			s.setExtra("toforget", ch.args[0])
			s.setMon("toforget", "y")
		case allocSite(ch) != "":
			if e.probe == 0 {
				c.ob(ruleClose, at, pos, s.extra["closed:"+k] != ch, "a channel may be closed twice"+via())
			}
			s.setExtra("closed:"+k, ch)
		}
	case EvUnlock, EvRootEnd:
		if s.mon["toforget"] != "" && e.probe == 0 {
			l := s.extra["toforget"]
			if ev.Kind == EvRootEnd || l == nil || ev.Recv == root(l) || l.op == OField && ev.Recv == l.args[0] {
				c.ob(ruleClose, at+": forgotten", pos, false, "a closed channel is still kept when others can close it again"+via())
				s.setMon("toforget", "")
			}
		}
	}
}

// finish adds the rules over all goroutines
func (a *alive) finish(retOwn bool) {
	var ks []string
	for k := range a.closers {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		who := a.closers[k]
		var l []string
		for r, p := range who {
			l = append(l, r+" ("+p+")")
		}
		sort.Strings(l)
		if strings.HasPrefix(k, "made") {
			a.c.ob(ruleClose, "channel "+k, "", len(l) == 1, "the channel is closed by more than one goroutine: "+strings.Join(l, ", "))
		}
		if k == "field "+a.conn.retChan.Name() {
			continue
		}
		ok := a.late[k] == ""
		for r := range a.senders[k] {
			ok = ok && strings.HasPrefix(k, "made") && who[r] != ""
		}
		a.c.ob(ruleSend, "channel "+k, "", ok, "something may be sent on a channel after it was closed")
	}
}

// borrow takes over the obligations of some rules of another property
func (a *alive) borrow(run func(*World, *Check), rules ...string) {
	sub := newCheck(a.w, a.c.id)
	run(a.w, sub)
	for _, r := range rules {
		n := sub.rules[r]
		a.c.total += n
		a.c.rules[r] += n
		for _, v := range sub.viol {
			if strings.HasPrefix(v.Key, r+" | ") && !a.c.seen[v.Key] {
				a.c.seen[v.Key] = true
				a.c.viol = append(a.c.viol, v)
			}
		}
		a.c.need(r, 1)
	}
	for _, v := range sub.viol {
		if k := strings.SplitN(v.Key, " | ", 2)[0]; (k == "undecided" || k == "anchor") && !a.c.seen[v.Key] {
			a.c.seen[v.Key] = true
			a.c.viol = append(a.c.viol, v)
		}
	}
}

func runC02(w *World, c *Check) {
	a := newAlive(w, c)
	fn := w.fn("", "ConnectWithCustomPortOpener")
	if a == nil || fn == nil {
		return
	}
	a.run(fn, nil, 2, 12)
	a.finish(true)
	a.borrow(runC11, "a channel is closed once", "answers are sent on open channels, at most one")
	a.borrow(runC22, "a node in the list has its connection and event sink", "endpoints point back to their node")
	c.need(ruleNil, 12)
	c.need("index", 5)
	c.need("slice", 3)
	c.need(rulePkg, 2)
	c.need(ruleClose, 4)
	c.need(ruleSeen, 2)
	c.need(ruleStay, 2)
}

func (a *alive) run(fn *ssa.Function, tweak func(e *Eng, s *State, args []*Term), ret, block int) []*State {
	e := a.eng(ret, block)
	e.always = a.always
	s := newState()
	args := rootArgs(e, s, fn)
	if tweak != nil {
		tweak(e, s, args)
	}
	outs := e.run(s, fn, args, nil)
	a.c.engine(e)
	a.c.units = append(a.c.units, a.w.fname(fn))
	return outs
}

func runC23(w *World, c *Check) {
	const loud = "an error of the decoder is returned"
	a := newAlive(w, c)
	fn := w.fn("", "ConnectWithCustomPortOpener")
	if a == nil || fn == nil {
		return
	}
	cw := newConcWorld(w)
	ctl, list := w.typ("", "Controller"), w.typ("nodes", "List")
	decodes := func(f *ssa.Function) bool { // decodes JSON itself or through what it calls
		return callsExt(f, "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode")
	}
	for _, f := range append(cw.roots(), fn) {
		// what fills lists must not rely on the nodes being complete
		fills := f.Signature.Recv() != nil && namedOf(f.Signature.Recv().Type()) != nil && types.Identical(namedOf(f.Signature.Recv().Type()), list)
		own := f.Pkg == w.ssas["nodes"] || f == fn || f.Signature.Recv() != nil && types.Identical(namedOf(f.Signature.Recv().Type()), ctl)
		for i := 0; i < f.Signature.Params().Len(); i++ { // the message is the caller's
			if it, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Interface); ok {
				for j := 0; j < it.NumMethods(); j++ {
					r := it.Method(j).Type().(*types.Signature).Results()
					own = own && !(r.Len() == 1 && isBytes(r.At(0).Type()))
				}
			}
		}
		if !own {
			continue
		}
		e := a.eng(2, 12)
		if !fills {
			e.always = a.always
		} else {
			e.always = map[*types.Var]bool{}
		}
		dec := decodes(f)
		e.hooks = append(e.hooks, func(ev *Event) {
			if ev.Kind != EvExt || ev.Val == nil {
				return
			}
			if _, n := extName(ev.Callee); n == "encoding/json.Unmarshal" || n == "(*encoding/json.Decoder).Decode" {
				er := ev.Val
				if ev.S.facts.nilness(er) == 2 {
					ev.S.setMon("decerr", "y")
				}
			}
		})
		s := newState()
		args := rootArgs(e, s, f)
		for _, o := range e.run(s, f, args, nil) {
			if !dec || f == fn || o.mon["decerr"] == "" {
				continue
			}
			c.ob(loud, w.fname(f), w.rel(f.Pos()), o.ret != nil && o.facts.nilness(o.ret) == 2, "the configuration cannot be decoded, but no error is returned"+trailStr(o))
		}
		c.engine(e)
		c.units = append(c.units, w.fname(f))
	}
	a.borrow(runC22, "a node in the list has its connection and event sink", "endpoints point back to their node")
	c.need(ruleNil, 12)
	c.need(ruleSeen, 5)
	c.need(loud, 2)
}

// callsExt: the function reaches one of the named functions through static calls
func callsExt(f *ssa.Function, names ...string) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(ssa.CallInstruction); ok {
					if g := x.Common().StaticCallee(); g != nil {
						if _, n := extName(g); slices.Contains(names, n) {
							return true
						}
						if walk(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(f)
}
