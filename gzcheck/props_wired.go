package main

// C22: a node is fully wired before anyone can see it

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C22"] = &property{run: runC22,
		explain: "All entry points and the goroutines they start are interpreted abstractly. Wherever a node is put into the list of a controller: its connection is the controller's and its event sink reaches the event queue, its key is its id, every endpoint (by induction over the loop) is nil or points back to it. A node created for the controller is only put in when a lookup of the same id found nothing, when the entry of the discovery result just seen is active, and with the number of that entry plus one, entry 0 excluded; every entry is looked at in order, and every active one leads to a lookup or a node. A discovered event carries the id of the node that was wired last; before the next node is put in, and before the end of every path, there is an attempt to send one for the node put in. The identification of the node of every active entry is started in a goroutine before the next entry (or the node is set aside for it).",
		assume:  []string{"Nodes added by users of the library through the exported List are their own responsibility.", "encoding/json builds separate objects for the nodes it decodes."}}
}

// mapOwner finds the object whose field the map value was read from
func mapOwner(v ssa.Value, f *types.Var, depth int) ssa.Value {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if ssaField(a) == f {
				return a.X
			}
		case *ssa.Alloc:
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					if o := mapOwner(st.Val, f, depth+1); o != nil {
						return o
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if o := mapOwner(e, f, depth+1); o != nil {
				return o
			}
		}
	case *ssa.ChangeType:
		return mapOwner(x.X, f, depth+1)
	}
	return nil
}

// callsTo: fn is target or calls it, directly or through other functions
func callsTo(fn, target *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == target {
		return true
	}
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && callsTo(g, target, seen) {
					return true
				}
			}
		}
	}
	return false
}

func runC22(w *World, c *Check) {
	const wired, back, keyed, kept, found, told, every, all, asked = "a node in the list has its connection and event sink", "endpoints point back to their node", "nodes are stored under their id", "a known node is kept", "only active entries become nodes, with the right id", "the announced id is that of a wired node", "every active entry becomes a node", "every node put into the list is announced", "the identification of every active entry is started"
	cw := newConcWorld(w)
	node := w.typ("nodes", "Node")
	nodesF := w.fieldLike("nodes", "List", "nodes", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	act := w.field("serialapi", "DiscoverdNodes", "ActiveNodes")
	idF := w.field("nodes", "Node", "Id")
	epsF := w.field("nodes", "Node", "Endpoints")
	connF := w.fieldLike("nodes", "Node", "connection", func(t types.Type) bool {
		return types.IsInterface(t) && types.NewMethodSet(t).Lookup(nil, "WriteAndWaitForReport") != nil
	})
	pushF := w.fieldLike("nodes", "Node", "pushEventFunc", func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok })
	epNode := w.fieldLike("nodes", "Endpoint", "node", func(t types.Type) bool { return types.Identical(t, types.NewPointer(node)) })
	listF := w.field("", "Controller", "Nodes")
	ctlConn := w.field("", "Controller", "Connection")
	identify := w.meth("nodes", "Node", "Identify")
	queF := w.fieldLike("", "Controller", "eventQue", isChanOf(func(t types.Type) bool { return types.IsInterface(t) }))
	if len(w.missing) > 0 {
		return
	}
	fieldLoc := func(o *Term, f *types.Var, t types.Type) *Term {
		return Field(o, fieldIndex(t, f), types.NewPointer(f.Type()))
	}
	actLen := int64(0)
	if a, ok := act.Type().Underlying().(*types.Array); ok {
		actLen = a.Len()
	}
	sites := fieldSites{}
	goodConn := func(v *Term) bool {
		return v != nil && v.op == OIface && sites.holds(v.args[0], ctlConn)
	}
	goodPush := func(v *Term) bool { return v != nil && v.op == OFunc && v.fn != nil && touches(v.fn, queF) }
	ge := func(s *State, a, b *Term) bool { return s.facts.entails(toLin(Sub(a, b))) }
	// the endpoints of the node are done
	epDone := func(e *Eng, s *State, n *Term) bool {
		l := e.load(s, fieldLoc(n, epsF, node), epsF.Type())
		if l.op != OSlice {
			return s.facts.nilness(l) == 1
		}
		k := Int(-1)
		if s.extra["epn"] == n && s.extra["epk"] != nil {
			k = s.extra["epk"]
		}
		return ge(s, AddC(k, 1), l.args[2])
	}
	isNode := func(n *Term) bool { t := ptrElem(n); return t != nil && types.Identical(t, node) }
	start := func(s *State, n *Term) {
		if s.extra["epn"] != n {
			s.setExtra("epn", n)
			s.setExtra("epk", Int(-1))
			s.setExtra("epok", nil)
			s.setExtra("epcur", nil)
		}
	}
	wiredNow := func(e *Eng, s *State, n *Term) (conn, push bool) {
		if n.op == OAlloc && allocFresh(s, n) {
			return goodConn(e.load(s, fieldLoc(n, connF, node), connF.Type())), goodPush(e.load(s, fieldLoc(n, pushF, node), pushF.Type()))
		}
		return s.extra["wconn"] == n, s.extra["wpush"] == n
	}
	runUniverse(w, c, cw, func(e *Eng, ev *Event) {
		s := ev.S
		sites.note(ev)
		// a node put into the list has not been announced yet
		untold := func(where, pos string) {
			if e.probe == 0 {
				c.ob(all, where, pos, s.mon["untold"] == "", "a node put into the list of the controller may never be announced | entry "+e.rootName+trailStr(s))
			}
		}
		at, pos := "", ""
		if ev.Instr != nil && ev.Instr.Parent() != nil {
			at, pos = w.fname(ev.Instr.Parent()), w.pos(ev.Instr)
		}
		// the map of a controller's list
		ctlList := func(v ssa.Value) bool {
			o := mapOwner(v, nodesF, 0)
			return o != nil && sites.holds(e.val(s, o), listF)
		}
		switch ev.Kind {
		case EvBranch, EvCall: // known before states are joined
			if n := s.extra["epn"]; n != nil && s.extra["epok"] != n && epDone(e, s, n) {
				s.setExtra("epok", n)
			}
		}
		switch ev.Kind {
		case EvStore:
			f := fieldVar(ev.Ptr)
			if f == nil || ev.Ptr.op != OField {
				return
			}
			n := ev.Ptr.args[0]
			switch f {
			case epsF:
				if s.extra["epn"] == n {
					s.setExtra("epn", nil)
				}
				s.setExtra("epok", nil)
			case connF:
				start(s, n)
				s.setExtra("wconn", nil)
				if goodConn(ev.Val) {
					s.setExtra("wconn", n)
				}
			case pushF:
				s.setExtra("wpush", nil)
				if goodPush(ev.Val) {
					s.setExtra("wpush", n)
				}
			case epNode:
				n := s.extra["epn"]
				k := s.extra["epcur"]
				if n == nil || k == nil || ev.Val != n {
					return
				}
				if l := e.load(s, fieldLoc(n, epsF, node), epsF.Type()); l.op == OSlice && s.readElem(e.content(s, l.args[0]), Add(l.args[1], k)) == ev.Ptr.args[0] {
					s.setMon("epset", "y")
				}
			}
		case EvLock:
			if isNode(ev.Recv) {
				start(s, ev.Recv)
			}
		case EvUnlock:
			if n := ev.Recv; isNode(n) && s.extra["epn"] == n && epDone(e, s, n) {
				s.setExtra("epok", n)
			}
		case EvIndex:
			n := s.extra["epn"]
			if n == nil {
				return
			}
			if l := e.load(s, fieldLoc(n, epsF, node), epsF.Type()); l != ev.Ptr {
				return
			}
			if s.extra["epcur"] == ev.Args[0] {
				return
			}
			k := s.extra["epk"]
			s.setMon("epset", "")
			if k != nil && s.facts.equalInt(ev.Args[0], AddC(k, 1)) {
				s.setExtra("epcur", ev.Args[0])
			} else {
				s.setExtra("epcur", nil)
			}
		case EvTryWait:
			for i, ch := range ev.Chans {
				if i >= len(ev.Args) || ev.Args[i] == nil || !sites.holds(ch, queF) {
					continue
				}
				if v := ev.Args[i]; v.op == OIface && typStr(v.typ) == "events.NodeDiscoverd" && len(v.args[0].args) > 0 {
					if l := s.extra["listed"]; l != nil && s.facts.equalInt(e.load(s, fieldLoc(l, idF, node), idF.Type()), v.args[0].args[0]) {
						s.setMon("untold", "")
					}
				}
			}
		case EvGo:
			f := ev.Callee
			i := s.extra["actcur"]
			if f != nil && ev.Instr.Parent() != nil && e.probe == 0 && callsTo(f, identify, map[*ssa.Function]bool{}) {
				c.ob(asked, at+": started", pos, true, "")
			}
			if f == nil || i == nil || !callsTo(f, identify, map[*ssa.Function]bool{}) {
				return
			}
			hit := func(n *Term, k string) bool {
				if n == nil || s.extra[k] == nil || !s.facts.equalInt(s.extra[k], AddC(i, 1)) {
					return false
				}
				for _, a := range ev.Args {
					if a == n {
						return true
					}
				}
				if ev.Ptr != nil && ev.Ptr.op == OFunc {
					for _, a := range ev.Ptr.args {
						if a == n || a != nil && a.typ != nil && n.typ != nil && types.Identical(ptrElemT(a.typ), n.typ) && e.load(s, a, n.typ) == n {
							return true
						}
					}
				}
				return false
			}
			if hit(s.extra["gotval"], "got") || hit(s.extra["listed"], "key") {
				s.setMon("asked", "y")
			}
		case EvAppend: // set aside, to be identified after the loop
			if l := ev.Args[1]; l.op == OSlice {
				a := s.readElem(e.content(s, l.args[0]), l.args[1])
				if isNode(a) && s.extra["actcur"] != nil && (a == s.extra["gotval"] || a == s.extra["listed"]) {
					s.setMon("asked", "y")
				}
			}
		case EvAgain:
			n, k := s.extra["epn"], s.extra["epcur"]
			if n != nil && k != nil {
				ok := s.mon["epset"] == "y"
				if l := e.load(s, fieldLoc(n, epsF, node), epsF.Type()); !ok && l.op == OSlice {
					ok = s.facts.nilness(s.readElem(e.content(s, l.args[0]), Add(l.args[1], k))) == 1
				}
				s.setMon("epset", "")
				s.setExtra("epcur", nil)
				if ok {
					s.setExtra("epk", k)
				}
			}
			if i := s.extra["actcur"]; i != nil && s.mon["act"] != "" && ev.Instr.Parent() != nil {
				if s.mon["act"] == "y" && e.probe == 0 {
					l := s.extra["look"]
					own := s.facts.entails(toLin(Sub(Int(0), i)))
					c.ob(every, at+": entry", pos, own || l != nil && s.facts.equalInt(l, AddC(i, 1)), "an active entry is passed over: no node is looked up or created for it"+trailStr(s))
					c.ob(asked, at+": entry", pos, own || s.mon["asked"] == "y", "the identification of the node of an active entry may not be started"+trailStr(s))
				}
				s.setMon("act", "seen")
				s.setMon("asked", "")
				s.setExtra("actcur", nil)
				s.setExtra("look", nil)
				s.setExtra("act0", i)
				s.setExtra("act1", i)
			}
		case EvRecv:
			if s.mon["act"] == "" {
				s.setExtra("act0", Int(-1))
				s.setExtra("act1", Int(0))
			}
		case EvBranch:
			var el *Term
			mentions(ev.Val, func(t *Term) bool {
				if t.op == OElem && mentions(t.args[0], func(t *Term) bool { return t.op == OLoad && fieldVar(t.args[0]) == act }, map[*Term]bool{}) {
					el = t
				}
				return false
			}, map[*Term]bool{})
			if el == nil {
				return
			}
			i := el.args[1]
			next := func(k string) bool {
				a := s.extra[k]
				return a != nil && ge(s, AddC(a, 1), i)
			}
			if e.probe == 0 {
				c.ob(every, at+": order", pos, next("act0") || next("act1"), "an entry of the discovery result may be skipped before this one"+trailStr(s))
			}
			switch s.facts.evalBool(el) {
			case 1:
				s.setMon("act", "y")
			case 2:
				s.setMon("act", "n")
			}
			s.setExtra("actcur", i)
		case EvMapGot:
			x, ok := ev.Instr.(*ssa.Lookup)
			if !ok || !ctlList(x.X) {
				return
			}
			s.setExtra("look", ev.Args[0])
			s.setExtra("got", ev.Args[0])
			s.setExtra("gotval", ev.Val)
			s.setMon("known", "y")
			if s.facts.nilness(ev.Val) == 1 {
				s.setMon("known", "n")
			}
		case EvMapSet:
			x, ok := ev.Instr.(*ssa.MapUpdate)
			if !ok || !ctlList(x.Map) {
				return
			}
			n, key := ev.Val, ev.Args[0]
			s.setExtra("look", key)
			untold(at, pos)
			s.setExtra("listed", n)
			s.setExtra("key", key)
			s.setMon("untold", "y")
			if e.probe > 0 {
				return
			}
			via := " | entry " + e.rootName + trailStr(s)
			gc, gp := wiredNow(e, s, n)
			c.ob(wired, at+": connection", pos, gc, "a node is put into the list of the controller before its connection is set"+via)
			c.ob(wired, at+": event sink", pos, gp, "a node is put into the list of the controller before its event sink is set"+via)
			id := e.load(s, fieldLoc(n, idF, node), idF.Type())
			c.ob(keyed, at, pos, s.facts.equalInt(id, key), "a node is stored under "+key.String()+", but its id is "+id.String()+via)
			c.ob(back, at, pos, s.extra["epok"] == n || epDone(e, s, n), "an endpoint of the node may not point back to it"+via)
			if n.op == OAlloc {
				l := s.extra["got"]
				c.ob(kept, at, pos, (s.mon["known"] == "n" || s.extra["gotval"] != nil && s.facts.nilness(s.extra["gotval"]) == 1) && l != nil && s.facts.equalInt(l, key), "a new node is put into the list although the node may be known already"+via)
				i := s.extra["actcur"]
				c.ob(found, at+": active", pos, i != nil && s.mon["act"] == "y", "a node is created for an entry that is not known to be active"+via)
				c.ob(found, at+": id", pos, i != nil && s.facts.equalInt(key, AddC(i, 1)), "the id of a new node is not the number of its entry plus one"+via)
				c.ob(found, at+": own entry", pos, i != nil && ge(s, i, Int(1)), "a node is created for the controller's own entry"+via)
			}
		case EvSend:
			if e.probe > 0 || ev.Val == nil || !sites.holds(ev.Ptr, queF) {
				return
			}
			v := ev.Val
			if v.op != OIface || typStr(v.typ) != "events.NodeDiscoverd" {
				return
			}
			var addr *Term
			if t := v.args[0]; len(t.args) > 0 {
				addr = t.args[0]
			}
			n := s.extra["epn"]
			ok := false
			if n != nil && addr != nil {
				gc, gp := wiredNow(e, s, n)
				if !gc && n.op == OAlloc {
					gc, gp = s.extra["wconn"] == n, s.extra["wpush"] == n
				}
				ok = gc && gp && s.facts.equalInt(e.load(s, fieldLoc(n, idF, node), idF.Type()), addr)
			}
			c.ob(told, at, pos, ok, "a node is announced that is not the one wired last | entry "+e.rootName+trailStr(s))
			c.ob(told, at+": listed", pos, n != nil && s.extra["listed"] == n, "a node is announced before it can be found in the list of the controller | entry "+e.rootName+trailStr(s))
		case EvRootEnd:
			if ev.Callee != nil {
				untold(w.fname(ev.Callee)+": end", w.rel(ev.Callee.Pos()))
			}
			if s.mon["act"] != "" && e.probe == 0 {
				done := func(k string) bool { a := s.extra[k]; return a != nil && ge(s, a, Int(actLen-1)) }
				c.ob(every, w.fname(ev.Callee)+": all", w.rel(ev.Callee.Pos()), done("act0") || done("act1"), "the discovery result is not processed to its end"+trailStr(s))
			}
		}
	})
	c.need(wired, 2)
	c.need(back, 2)
	c.need(keyed, 1)
	c.need(kept, 1)
	c.need(found, 3)
	c.need(told, 2)
	c.need(every, 2)
	c.need(all, 2)
	c.need(asked, 2)
}
