package main

// C32: what is looked up is what was asked for

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C32"] = &property{run: runC32,
		explain: "The functions that answer questions about the list of nodes, a node and its endpoints are interpreted abstractly for arbitrary contents and arguments. Get returns what the map of the list held under exactly the id asked for. All returns a map made by the call itself; by induction over the loop it got every entry under its own key and nothing else. Endpoint returns an element of the node's endpoints whose id is the one asked for; nothing is returned only after every endpoint was found to be nil or to have another id. The endpoints set from an endpoint report number 1, 2, ... up to the number reported, each under its own number and pointing back to the node (by induction over the loop). IsDeviceClass is true exactly if generic and specific class of the known protocol information are the ones asked about; GetID returns the id, GetNextEvent the channel events are sent to.",
		assume:  []string{"the identification and the list do not change while one question is answered (that they are locked meanwhile is C14)"}}
}

func runC32(w *World, c *Check) {
	const get, all, ep, eps, cls, own = "a node is found under its own id", "all nodes are returned, as a copy", "an endpoint is found under its own id", "the endpoints are those reported", "the device class is compared completely", "simple questions"
	node, list, endp := w.typ("nodes", "Node"), w.typ("nodes", "List"), w.typ("nodes", "Endpoint")
	getFn, allFn, epFn := w.meth("nodes", "List", "Get"), w.meth("nodes", "List", "All"), w.meth("nodes", "Node", "Endpoint")
	reqFn, clsFn, idFn := w.meth("nodes", "Node", "RequestEndpoints"), w.meth("nodes", "Node", "IsDeviceClass"), w.meth("nodes", "Node", "GetID")
	evFn := w.meth("", "Controller", "GetNextEvent")
	pi, epT := w.typ("serialapi", "FuncGetNodeProtocolInfo"), w.typ("commands/reports", "MultiChannelEndpoints")
	if len(w.missing) > 0 {
		return
	}
	nodesF := w.fieldLike("nodes", "List", "nodes", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	piF := w.fieldLike("nodes", "Node", "protocolInfo", func(t types.Type) bool { return types.Identical(t, types.NewPointer(pi)) })
	genF, spF := w.field("serialapi", "FuncGetNodeProtocolInfo", "Generic"), w.field("serialapi", "FuncGetNodeProtocolInfo", "Specific")
	idF, epsF := w.field("nodes", "Node", "Id"), w.field("nodes", "Node", "Endpoints")
	epID := w.field("nodes", "Endpoint", "Id")
	epNode := w.fieldLike("nodes", "Endpoint", "node", func(t types.Type) bool { return types.Identical(t, types.NewPointer(node)) })
	numF := w.field("commands/reports", "MultiChannelEndpoints", "Endpoints")
	queF := w.fieldLike("", "Controller", "eventQue", isChanOf(func(t types.Type) bool { return types.IsInterface(t) }))
	if len(w.missing) > 0 {
		return
	}
	type hookFn func(e *Eng, ev *Event)
	ld := func(e *Eng, s *State, o *Term, f *types.Var, t types.Type) *Term {
		return e.load(s, Field(o, fieldIndex(t, f), types.NewPointer(f.Type())), f.Type())
	}
	run := func(fn *ssa.Function, prep func(*Eng, *State, []*Term), hook hookFn, outs func(*Eng, *State, []*Term)) {
		e := newEng(w)
		e.followGo = false
		e.frozen = map[*types.Var]bool{nodesF: true, piF: true, genF: true, spF: true, idF: true, epID: true, queF: true, numF: true}
		if fn != reqFn {
			e.frozen[epsF] = true
		}
		for f := range w.frozen {
			e.frozen[f] = true
		}
		s := newState()
		args := rootArgs(e, s, fn)
		if fn.Signature.Recv() != nil {
			s.notNil(args[0])
		}
		if prep != nil {
			prep(e, s, args)
		}
		if hook != nil {
			e.hooks = append(e.hooks, func(ev *Event) { hook(e, ev) })
		}
		n := 0
		for _, o := range e.run(s, fn, args, nil) {
			n++
			outs(e, o, args)
		}
		c.ob(own, w.fname(fn)+": returns", w.rel(fn.Pos()), n > 0, "no path returns")
		c.engine(e, "none")
		c.units = append(c.units, w.fname(fn))
	}

	// List.Get
	run(getFn, nil, func(e *Eng, ev *Event) {
		if ev.Kind == EvMapGot && fromField(ev.Ptr, nodesF) {
			ev.S.setExtra("key", ev.Args[0])
			ev.S.setExtra("got", ev.Val)
		}
	}, func(e *Eng, o *State, args []*Term) {
		k, v := o.extra["key"], o.extra["got"]
		empty := o.facts.nilness(ld(e, o, args[0], nodesF, list)) == 1 && o.facts.nilness(o.ret) == 1
		same := k != nil && v != nil && o.facts.equalInt(k, args[1]) && (o.ret == v || o.facts.nilness(o.ret) == 1 && o.facts.nilness(v) == 1)
		c.ob(get, w.fname(getFn), w.rel(getFn.Pos()), empty || same, "what is returned may not be the node with the id asked for"+trailStr(o))
	})

	// List.All
	run(allFn, nil, func(e *Eng, ev *Event) {
		s := ev.S
		switch ev.Kind {
		case EvRange:
			if fromField(ev.Ptr, nodesF) {
				s.setMon("over", "in")
			}
		case EvMapRead:
			if ev.Mode == 'r' && s.mon["over"] == "in" {
				s.setExtra("k", ev.Args[0])
				s.setExtra("v", ev.Val)
				s.setMon("copied", "")
			}
		case EvMapSet, EvMapDel:
			k, v := s.extra["k"], s.extra["v"]
			ok := ev.Kind == EvMapSet && k != nil && v != nil && s.facts.equalInt(ev.Args[0], k) && ev.Val == v && allocSite(ev.Ptr) != ""
			if ok {
				s.setMon("copied", allocSite(ev.Ptr))
			}
			if e.probe == 0 {
				c.ob(all, w.fname(allFn)+": entries", w.pos(ev.Instr), ok, "something else than a node of the list under its own id is put into the result, or the list itself is changed"+trailStr(s))
			}
		case EvAgain:
			if s.extra["k"] != nil && e.probe == 0 {
				c.ob(all, w.fname(allFn)+": every node", w.pos(ev.Instr), s.mon["copied"] != "", "a node of the list may be missing in the result"+trailStr(s))
			}
			s.setExtra("k", nil)
			s.setExtra("v", nil)
			if s.mon["copied"] != "" {
				s.setMon("to", s.mon["copied"])
			}
			s.setMon("copied", "")
		case EvRangeEnd:
			if s.mon["over"] == "in" {
				s.setMon("over", "done")
			}
		}
	}, func(e *Eng, o *State, args []*Term) {
		none := o.facts.nilness(ld(e, o, args[0], nodesF, list)) == 1
		site := allocSite(o.ret)
		c.ob(all, w.fname(allFn)+": copy", w.rel(allFn.Pos()), site != "" || none && o.facts.nilness(o.ret) == 1, "the map returned is not a new one"+trailStr(o))
		c.ob(all, w.fname(allFn)+": complete", w.rel(allFn.Pos()), none || o.mon["over"] == "done" && (o.mon["to"] == "" || o.mon["to"] == site), "not all nodes are in the map returned"+trailStr(o))
	})

	// Node.Endpoint
	var epl *Term
	other := func(e *Eng, s *State, x, id *Term) bool {
		return s.facts.nilness(x) == 1 || s.facts.evalBool(Eq0(toLin(Sub(ld(e, s, x, epID, endp), id)))) == 2
	}
	run(epFn, func(e *Eng, s *State, args []*Term) {
		epl = ld(e, s, args[0], epsF, node)
		s.setExtra("k", Int(-1))
		if epl.op == OSlice {
			s.setExtra("kb", epl.args[2])
		}
		s.setExtra("id", args[1])
	}, func(e *Eng, ev *Event) {
		s := ev.S
		switch ev.Kind {
		case EvIndex:
			if ev.Ptr == epl && s.extra["cur"] != ev.Args[0] {
				k, kb := s.extra["k"], s.extra["kb"]
				if k != nil && s.facts.equalInt(ev.Args[0], AddC(k, 1)) || kb != nil && s.facts.equalInt(ev.Args[0], AddC(kb, -1)) {
					s.setExtra("cur", ev.Args[0])
				} else {
					s.setExtra("cur", nil)
				}
			}
		case EvAgain:
			cur := s.extra["cur"]
			s.setExtra("cur", nil)
			if cur == nil || epl.op != OSlice {
				return
			}
			if other(e, s, s.readElem(e.content(s, epl.args[0]), Add(epl.args[1], cur)), s.extra["id"]) {
				if k := s.extra["k"]; k != nil && s.facts.equalInt(cur, AddC(k, 1)) {
					s.setExtra("k", cur)
				} else {
					s.setExtra("kb", cur)
				}
			}
		}
	}, func(e *Eng, o *State, args []*Term) {
		if o.facts.nilness(o.ret) == 1 {
			k, kb := o.extra["k"], o.extra["kb"]
			ok := o.facts.nilness(epl) == 1 || k != nil && kb != nil && o.facts.entails(toLin(Sub(AddC(k, 1), kb)))
			c.ob(ep, w.fname(epFn)+": none", w.rel(epFn.Pos()), ok, "nothing is returned although not every endpoint was looked at"+trailStr(o))
			return
		}
		ok := o.facts.equalInt(ld(e, o, o.ret, epID, endp), args[1])
		in := false
		if epl.op == OSlice {
			mentions(o.ret, func(t *Term) bool {
				in = in || t == epl.args[0]
				return in
			}, map[*Term]bool{})
			if cur := o.extra["cur"]; cur != nil && o.readElem(e.content(o, epl.args[0]), Add(epl.args[1], cur)) == o.ret {
				in = true
			}
		}
		c.ob(ep, w.fname(epFn)+": id", w.rel(epFn.Pos()), ok && o.facts.nilness(o.ret) == 2, "an endpoint with another id than the one asked for is returned"+trailStr(o))
		c.ob(ep, w.fname(epFn)+": own", w.rel(epFn.Pos()), in, "what is returned may not be an endpoint of the node: "+o.ret.String()+trailStr(o))
	})

	// the endpoints of a report
	isEps := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(sl.Elem(), types.NewPointer(endp))
	}
	good := func(e *Eng, s *State, x, n, self *Term) bool {
		return s.facts.nilness(x) == 2 && s.facts.equalInt(ld(e, s, x, epID, endp), AddC(n, 1)) && ld(e, s, x, epNode, endp) == self
	}
	var self *Term
	run(reqFn, func(e *Eng, s *State, args []*Term) {
		self = args[0]
		e.retCap, e.blockCap = 20, 20
		s.setExtra("n", Int(0))
	}, func(e *Eng, ev *Event) {
		s := ev.S
		switch ev.Kind {
		case EvRecv:
			if ev.Val != nil && types.IsInterface(chanElem(ev.Ptr.typ)) {
				s.setExtra("report", ev.Val)
				s.setExtra("obj", unwrap(ev.Val, types.NewPointer(epT)))
			}
		case EvAppend:
			if ev.Val.typ == nil || !isEps(ev.Val.typ) {
				return
			}
			n, add := s.extra["n"], ev.Args[1]
			old := ev.Args[0]
			ok := n != nil && add.op == OSlice && s.facts.equalInt(add.args[2], Int(1)) && (old.op == OSlice && s.facts.equalInt(old.args[2], n) || s.facts.nilness(old) == 1 && s.facts.equalInt(n, Int(0))) &&
				good(e, s, s.readElem(e.content(s, add.args[0]), add.args[1]), n, self)
			if e.probe == 0 {
				c.ob(eps, w.fname(ev.Instr.Parent())+": endpoint", w.pos(ev.Instr), ok, "an endpoint is created under another number than its own, or does not point back to the node"+trailStr(s))
			}
			s.setExtra("n", nil)
			if ok {
				s.setExtra("n", AddC(n, 1))
			}
		case EvLoad:
			if o := s.extra["obj"]; fieldVar(ev.Ptr) == numF && ev.Ptr.op == OField && o != nil && ev.Ptr.args[0] == o {
				s.setExtra("num", ev.Val)
			}
		case EvStore:
			if fieldVar(ev.Ptr) == epsF && ev.Ptr.op == OField && ev.Ptr.args[0] == self {
				s.setExtra("kept", nil)
				if ev.Val.op == OSlice {
					s.setExtra("kept", ev.Val.args[2])
				}
			}
			if ev.Ptr.op == OElemAt && ev.Val.typ != nil && types.Identical(ev.Val.typ, types.NewPointer(endp)) {
				n := s.extra["n"]
			if n != nil && s.facts.equalInt(ev.Ptr.args[1], n) && good(e, s, ev.Val, n, self) {
					s.setExtra("byIndex", AddC(n, 1))
				}
			}
		case EvAgain:
			if b := s.extra["byIndex"]; b != nil && s.extra["n"] != nil && s.facts.equalInt(b, AddC(s.extra["n"], 1)) {
				s.setExtra("n", b)
			}
			s.setExtra("byIndex", nil)
		}
	}, func(e *Eng, o *State, args []*Term) {
		r := o.extra["report"]
		if r == nil || o.facts.nilness(o.ret) != 1 {
			return
		}
		d := o.facts.dynType(r)
		if d != nil && !types.Identical(d, types.NewPointer(epT)) {
			return
		}
		n := o.extra["n"]
		num, kept := o.extra["num"], o.extra["kept"]
		// as many as reported (none, if the number is not positive)
		many := n != nil && num != nil && (o.facts.equalInt(n, num) || o.facts.equalInt(n, Int(0)) && o.facts.entails(toLin(Sub(Int(0), num))))
		c.ob(eps, w.fname(reqFn)+": number", w.rel(reqFn.Pos()), many, "not as many endpoints are created as were reported"+trailStr(o))
		c.ob(eps, w.fname(reqFn)+": kept", w.rel(reqFn.Pos()), n != nil && kept != nil && o.facts.equalInt(kept, n), "the endpoints kept are not the ones created"+trailStr(o))
	})

	// IsDeviceClass, with both answers
	both := func(e *Eng, o *State, rule, at, pos string, sides func(s *State) (yes, no bool)) {
		for _, v := range []bool{true, false} {
			s := o.clone()
			if !s.facts.assume(o.ret, v) {
				continue
			}
			yes, no := sides(s)
			c.ob(rule, at+map[bool]string{true: ": yes", false: ": no"}[v], pos, v && yes || !v && no, "the answer may be wrong"+trailStr(s))
		}
	}
	run(clsFn, nil, nil, func(e *Eng, o *State, args []*Term) {
		p := ld(e, o, args[0], piF, node)
		both(e, o, cls, w.fname(clsFn), w.rel(clsFn.Pos()), func(s *State) (bool, bool) {
			if s.facts.nilness(p) == 1 {
				return false, true
			}
			a, b := Eq0(toLin(Sub(ld(e, s, p, genF, pi), args[1]))), Eq0(toLin(Sub(ld(e, s, p, spF, pi), args[2])))
			yes := s.facts.nilness(p) == 2 && s.facts.evalBool(a) == 1 && s.facts.evalBool(b) == 1
			t := s.clone()
			no := !t.facts.assume(a, true) || !t.facts.assume(b, true)
			return yes, no
		})
	})
	run(idFn, nil, nil, func(e *Eng, o *State, args []*Term) {
		c.ob(own, w.fname(idFn), w.rel(idFn.Pos()), o.facts.equalInt(o.ret, ld(e, o, args[0], idF, node)), "something else than the id is returned")
	})
	run(evFn, nil, nil, func(e *Eng, o *State, args []*Term) {
		c.ob(own, w.fname(evFn), w.rel(evFn.Pos()), fromField(o.ret, queF), "something else than the channel of the events is returned")
	})
	c.need(get, 1)
	c.need(all, 4)
	c.need(ep, 3)
	c.need(eps, 3)
	c.need(cls, 2)
	c.need(own, 9)
}
