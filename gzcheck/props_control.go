package main

// C09: control calls send only a supported class, to the addressed node or endpoint

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C09"] = &property{run: runC09,
		explain: "On, Off and Level of a node and of an endpoint are interpreted abstractly for an arbitrary node, endpoint and level. The question whether a class is supported is forked into both answers; on every path the messages handed to the connection are collected, their encoding is evaluated and compared byte by byte with the documented command: function, id of the node, length, class, set, value, and for endpoints the encapsulation with the id of the endpoint around it. A path must have sent exactly one command of the preferred supported class, or none after all usable classes turned out to be unsupported. The support question itself is interpreted over an arbitrary list of classes: true only with an entry of that class, false only after all of them were looked at.",
		assume:  []string{"The list of classes is not changed while it is searched (C14)."}}
}

// encodeOf evaluates the Encode method of a message handed to the connection: the states after it and the bytes
func encodeOf(e *Eng, s *State, msg *Term, at ssa.Instruction) (outs []*State) {
	if msg.op != OIface {
		return nil
	}
	sel := e.w.prog.MethodSets.MethodSet(msg.typ).Lookup(nil, "Encode")
	if sel == nil {
		return nil
	}
	fn := e.w.prog.MethodValue(sel)
	e.probe++
	hooks, probes := e.hooks, e.probe
	e.hooks = nil
	outs = e.inline(s.clone(), fn, []*Term{msg.args[0]}, nil, at)
	e.hooks = hooks
	e.probe = probes - 1
	return outs
}

func isWriter(m *types.Func) bool {
	if m == nil {
		return false
	}
	switch m.Name() {
	case "Write", "WriteWithTimeout", "WriteAndWaitForReport":
		sig := m.Type().(*types.Signature)
		if sig.Params().Len() == 0 {
			return false
		}
		t := sig.Params().At(0).Type()
		return types.IsInterface(t) && types.NewMethodSet(t).Lookup(nil, "Encode") != nil
	}
	return false
}

func runC09(w *World, c *Check) {
	const send, addr, value, encap, none, has = "exactly one command of the preferred supported class", "the command carries the node's own id", "the command carries the requested value", "endpoints are addressed by encapsulation", "nothing is sent without a supported class", "support is decided by the node's classes"
	node, endp := w.typ("nodes", "Node"), w.typ("nodes", "Endpoint")
	idF, epID := w.field("nodes", "Node", "Id"), w.field("nodes", "Endpoint", "Id")
	classesF := w.field("nodes", "Node", "CommandClasses")
	clsID := w.field("database", "CommandClass", "ID")
	epNode := w.fieldLike("nodes", "Endpoint", "node", func(t types.Type) bool { return types.Identical(t, types.NewPointer(node)) })
	connF := w.fieldLike("nodes", "Node", "connection", func(t types.Type) bool {
		return types.IsInterface(t) && types.NewMethodSet(t).Lookup(nil, "WriteAndWaitForReport") != nil
	})
	hasCmd := w.meth("nodes", "Node", "HasCommand")
	cls := w.typ("database", "CommandClass")
	if len(w.missing) > 0 {
		return
	}
	const bin, multi = 0x25, 0x26
	name := map[int64]string{bin: "bin", multi: "multi"}
	load := func(e *Eng, s *State, o *Term, f *types.Var, t types.Type) *Term {
		return e.load(s, Field(o, fieldIndex(t, f), types.NewPointer(f.Type())), f.Type())
	}

	for _, onEp := range []bool{false, true} {
		for _, op := range []string{"On", "Off", "Level"} {
			typ, tn := node, "Node"
			if onEp {
				typ, tn = endp, "Endpoint"
			}
			fn := w.meth("nodes", tn, op)
			if fn == nil {
				return
			}
			at := w.fname(fn)
			e := newEng(w)
			s := newState()
			args := rootArgs(e, s, fn)
			s.notNil(args[0])
			self := args[0]
			if onEp {
				self = load(e, s, args[0], epNode, endp)
			}
			nid := load(e, s, self, idF, node)
			conn := load(e, s, self, connF, node)
			var level *Term
			if op == "Level" {
				level = args[1]
			}
			_ = typ
			e.hooks = append(e.hooks, func(ev *Event) {
				s := ev.S
				switch ev.Kind {
				case EvCall:
					if ev.Callee != hasCmd {
						return
					}
					n, ok := s.facts.constOf(ev.Args[1])
					k := name[n]
					if e.probe == 0 {
						c.ob(send, at+": support asked of the node", w.pos(ev.Instr), ev.Args[0] == self, "the support of a class is asked of another node"+trailStr(s))
					}
					if !ok || k == "" || ev.Args[0] != self {
						return
					}
					for _, v := range []string{"y", "n"} {
						if m := s.mon[k]; m != "" && m != v {
							continue
						}
						st := s.clone()
						st.setMon(k, v)
						st.ret = Bool(v == "y")
						ev.Alts = append(ev.Alts, st)
					}
				case EvInvoke:
					if !isWriter(ev.Method) {
						return
					}
					pos := w.pos(ev.Instr)
					sent := "?"
					outs := encodeOf(e, s, ev.Args[0], ev.Instr)
					for _, o := range outs {
						got := e.sliceContent(o, o.ret)
						var b []*Term
						if got != nil {
							for i := int64(0); i < 11; i++ {
								b = append(b, o.readElem(got, Int(i)))
							}
						}
						if b == nil {
							if e.probe == 0 {
								c.ob(send, at+": bytes", pos, false, "the bytes of the command cannot be determined"+trailStr(o))
							}
							continue
						}
						is := func(i int, v int64) bool { n, ok := o.facts.constOf(b[i]); return ok && n == v }
						body := b[3:]
						if onEp {
							body = b[7:]
							eid := load(e, o, args[0], epID, endp)
							if e.probe == 0 {
								c.ob(encap, at, pos, is(3, 0x60) && is(4, 0x0d) && is(5, 1) && o.facts.equalInt(b[6], Wrap(eid, tU8)), "the command is not wrapped in an encapsulation with the id of the endpoint: "+got.String()+trailStr(o))
							}
						}
						k := ""
						if n, ok := o.facts.constOf(body[0]); ok {
							k = name[n]
						}
						if k == "" {
							sent = "?"
						} else {
							sent = k
						}
						if e.probe > 0 {
							continue
						}
						ln := int64(3)
						if onEp {
							ln = 7
						}
						n1, ok1 := o.facts.constOf(body[1])
						c.ob(send, at+": set command", pos, is(0, 0x13) && is(2, ln) && k != "" && ok1 && n1 == 1, "the message is not a set command of a switch class: "+got.String()+trailStr(o))
						c.ob(addr, at, pos, o.facts.equalInt(b[1], Wrap(nid, tU8)), "the command is not addressed to this node: "+b[1].String()+trailStr(o))
						v, okv := o.facts.constOf(body[2])
						switch {
						case op == "Level":
							checkLevel(c, value, o, body[2], level, at, pos)
						case op == "Off":
							c.ob(value, at+": "+k, pos, okv && v == 0, "the command does not switch off: value "+body[2].String()+trailStr(o))
						case k == "bin":
							c.ob(value, at+": "+k, pos, okv && v == 0xff, "the command does not switch on: value "+body[2].String()+trailStr(o))
						default:
							c.ob(value, at+": "+k, pos, okv && (v == 99 || v == 0xff), "the command does not switch fully on: value "+body[2].String()+trailStr(o))
						}
					}
					if e.probe == 0 {
						c.ob(send, at+": connection", pos, ev.Recv == conn, "the command goes to another connection than that of the node"+trailStr(s))
					}
					s.setMon("sent", s.mon["sent"]+" "+sent)
				}
			})
			e.followGo = false
			for _, o := range e.run(s, fn, args, nil) {
				pos := w.rel(fn.Pos())
				switch {
				case o.mon["sent"] == "":
					c.ob(none, at, pos, o.mon["multi"] == "n" && (op == "Level" || o.mon["bin"] == "n"), "nothing is sent although a usable class may be supported"+trailStr(o))
				case o.mon["sent"] == " multi" && op == "Level":
					c.ob(send, at, pos, o.mon["multi"] == "y", "a multilevel command is sent to a node that may not support it"+trailStr(o))
				case o.mon["sent"] == " bin" && op != "Level":
					c.ob(send, at, pos, o.mon["bin"] == "y", "a binary command is sent to a node that may not support it"+trailStr(o))
				case o.mon["sent"] == " multi":
					c.ob(send, at, pos, o.mon["multi"] == "y" && o.mon["bin"] == "n", "a multilevel command is sent to a node that may not support it or supports binary"+trailStr(o))
				default:
					c.ob(send, at, pos, false, "what is sent is not one single command of a usable class:"+o.mon["sent"]+trailStr(o))
				}
			}
			c.engine(e, "none")
			c.units = append(c.units, at)
		}
	}

	// the question itself
	e := newEng(w)
	e.frozen = map[*types.Var]bool{classesF: true, clsID: true}
	for f := range w.frozen {
		e.frozen[f] = true
	}
	s := newState()
	args := rootArgs(e, s, hasCmd)
	s.notNil(args[0])
	at := w.fname(hasCmd)
	list := load(e, s, args[0], classesF, node)
	isClass := func(s *State, x *Term) int {
		switch s.facts.nilness(x) {
		case 1:
			return 2
		}
		return s.facts.evalBool(Eq0(toLin(Sub(load(e, s, x, clsID, cls), args[1]))))
	}
	s.setExtra("k", Int(-1))
	if list.op == OSlice {
		s.setExtra("kb", list.args[2])
	}
	e.hooks = append(e.hooks, func(ev *Event) {
		s := ev.S
		switch ev.Kind {
		case EvIndex:
			if ev.Ptr == list {
				if s.extra["cur"] != ev.Args[0] {
					k, kb := s.extra["k"], s.extra["kb"]
					if k != nil && s.facts.equalInt(ev.Args[0], AddC(k, 1)) || kb != nil && s.facts.equalInt(ev.Args[0], AddC(kb, -1)) {
						s.setExtra("cur", ev.Args[0])
					} else {
						s.setExtra("cur", nil)
					}
				}
			}
		case EvAgain:
			cur := s.extra["cur"]
			s.setExtra("cur", nil)
			if cur == nil || list.op != OSlice {
				return
			}
			x := s.readElem(e.content(s, list.args[0]), Add(list.args[1], cur))
			switch isClass(s, x) {
			case 1:
				s.setMon("hit", "y")
			case 2:
				if k := s.extra["k"]; k != nil && s.facts.equalInt(cur, AddC(k, 1)) {
					s.setExtra("k", cur)
				} else {
					s.setExtra("kb", cur)
				}
			}
		}
	})
	for _, o := range e.run(s, hasCmd, args, nil) {
		hit := o.mon["hit"] == "y"
		if cur := o.extra["cur"]; cur != nil && list.op == OSlice && isClass(o, o.readElem(e.content(o, list.args[0]), Add(list.args[1], cur))) == 1 {
			hit = true
		}
		k, kb := o.extra["k"], o.extra["kb"]
		all := o.facts.nilness(list) == 1 || k != nil && kb != nil && o.facts.entails(toLin(Sub(AddC(k, 1), kb)))
		switch o.facts.evalBool(o.ret) {
		case 1:
			c.ob(has, at+": yes", w.rel(hasCmd.Pos()), hit, "a class is reported as supported that may not be in the list"+trailStr(o))
		case 2:
			c.ob(has, at+": no", w.rel(hasCmd.Pos()), all && !hit, "a class is reported as unsupported before all classes were looked at"+trailStr(o))
		default:
			c.ob(has, at, w.rel(hasCmd.Pos()), false, "the answer does not follow from the list: "+o.ret.String()+trailStr(o))
		}
	}
	c.engine(e, "none")
	c.units = append(c.units, at)
	c.need(has, 2)
	c.need(send, 20)
	c.need(addr, 10)
	c.need(value, 10)
	c.need(encap, 5)
	c.need(none, 6)
}
