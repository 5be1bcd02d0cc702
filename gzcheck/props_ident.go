package main

// C18 and C19: identification of a node

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C18"] = &property{run: func(w *World, c *Check) { runIdent(w, c, true) },
		explain: "The identification of an arbitrary node is interpreted abstractly as a typestate. A request that is not the one for the protocol information (told by its encoded bytes) may only be handed to the connection after the channel for wake-ups was received from, or the node was found to be marked as awake, since the last stage was finished and the last pause made. A node marked as awake is never waited for, and what is waited for is kept where a wake-up finds it. The mark is only ever set to the listening flag of the protocol information. A wake-up report closes the channel, if there is one, and forgets it; the channel is only replaced when there is none.",
		assume:  []string{"A node that woke up stays awake until the stage is finished.", "The state of the node is accessed under its lock (C14)."}}
	props["C19"] = &property{run: func(w *World, c *Check) { runIdent(w, c, false) },
		explain: "The identification of an arbitrary node is interpreted abstractly. The node is marked as identified only on paths on which protocol information, manufacturer data, endpoints and states were each found to be there or stored; each is only stored with what was received in answer to the request for it (endpoints also when no command classes are known, states after every class with a state was asked for, by induction over the loop). Identification only ends with the mark. After one of the first three stages was stored a NodeUpdated with the id of the node is handed to its event sink before the next request, wait or end (or in the same critical section). A request is not repeated without a pause. Whenever the command classes are stored, they are what the mandatory table gives for the device class in the node's own protocol information, followed by the classes of the database entry found under manufacturer, type and id, if any, with brand, product and description taken from the same entry.",
		assume:  []string{"A report that was received is no nil pointer (C11, C04).", "Two tables of the database are checked on their own (C24, C25).", "Nobody else changes the command classes of a node while it is identified, which is checked for the code of the library."}}
}

func runIdent(w *World, c *Check, sleep bool) {
	const awake, listen, release, addr, mark = "the node itself is only asked once it is awake", "a node marked as awake is not waited for", "a wake-up releases everybody who waits", "requests are addressed to the node", "the mark follows the protocol information"
	const stages, prov, pause, ends, classes, args_, told = "identified only after all stages", "what is kept is what was received", "a failed stage is retried after a pause", "identification ends only with the mark", "command classes and device data", "tables are looked up for this node", "what was learned is announced"
	node := w.typ("nodes", "Node")
	identify := w.meth("nodes", "Node", "Identify")
	apply := w.meth("nodes", "Node", "ProcessEvent")
	pi := w.typ("serialapi", "FuncGetNodeProtocolInfo")
	msT, epT, wuT := w.typ("commands/reports", "ManufacturerSpecific"), w.typ("commands/reports", "MultiChannelEndpoints"), w.typ("commands/reports", "WakeUp")
	cls, dev := w.typ("database", "CommandClass"), w.typ("database", "Device")
	mt := w.typ("serialapi", "Message")
	dbNew, mand := w.fn("database", "New"), w.fn("database", "GetMandatoryCommandClasses")
	if len(w.missing) > 0 {
		return
	}
	ptrTo := func(t types.Type) func(types.Type) bool {
		return func(x types.Type) bool { return types.Identical(x, types.NewPointer(t)) }
	}
	piF := w.fieldLike("nodes", "Node", "protocolInfo", ptrTo(pi))
	msF := w.fieldLike("nodes", "Node", "ManufacurerSpecific", ptrTo(msT))
	epsF, ccF := w.field("nodes", "Node", "Endpoints"), w.field("nodes", "Node", "CommandClasses")
	isBool := func(t types.Type) bool { return types.Identical(t, types.Typ[types.Bool]) }
	stF := w.fieldSetBy("nodes", "Node", "statesOk", w.meth("nodes", "Node", "RequestStates"), isBool)
	doneF := w.fieldSetBy("nodes", "Node", "identified", identify, isBool, stF)
	awF := w.fieldLike("nodes", "Node", "awake", func(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok })
	isAwF, idF := w.field("nodes", "Node", "IsAwake"), w.field("nodes", "Node", "Id")
	connF := w.fieldLike("nodes", "Node", "connection", func(t types.Type) bool {
		return types.IsInterface(t) && types.NewMethodSet(t).Lookup(nil, "WriteAndWaitForReport") != nil
	})
	pushF := w.fieldLike("nodes", "Node", "pushEventFunc", func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok })
	lisF, genF, spF := w.field("serialapi", "FuncGetNodeProtocolInfo", "Listening"), w.field("serialapi", "FuncGetNodeProtocolInfo", "Generic"), w.field("serialapi", "FuncGetNodeProtocolInfo", "Specific")
	dataF, clsID := w.field("serialapi", "Message", "Data"), w.field("database", "CommandClass", "ID")
	devCC := w.field("database", "Device", "CommandClasses")
	var devS, nodeS, msS []*types.Var
	for _, n := range []string{"Brand", "Product", "Description"} {
		devS, nodeS = append(devS, w.field("database", "Device", n)), append(nodeS, w.field("nodes", "Node", n))
	}
	for _, n := range []string{"Manufacturer", "Type", "ID"} {
		msS = append(msS, w.field("commands/reports", "ManufacturerSpecific", n))
	}
	if len(w.missing) > 0 {
		return
	}
	ld := func(e *Eng, s *State, o *Term, f *types.Var, t types.Type) *Term {
		return e.load(s, Field(o, fieldIndex(t, f), types.NewPointer(f.Type())), f.Type())
	}
	e := newEng(w)
	e.followGo, e.lean = false, true
	e.retCap, e.blockCap = 6, 8
	e.frozen = map[*types.Var]bool{piF: true, msF: true, epsF: true, ccF: true, stF: true} // nobody else changes them, see below
	for _, f := range nodeS {
		e.frozen[f] = true
	}
	for f := range w.frozen {
		e.frozen[f] = true
	}
	s0 := newState()
	args := rootArgs(e, s0, identify)
	self := args[0]
	s0.notNil(self)
	ofSelf := func(loc *Term, f *types.Var) bool {
		return loc != nil && loc.op == OField && fieldVar(loc) == f && loc.args[0] == self
	}
	// the value was read from the field of this node
	from := func(v *Term, f *types.Var) bool {
		return fromField(v, f) && mentions(v, func(x *Term) bool { return x == self }, map[*Term]bool{})
	}
	sites := fieldSites{}
	isAwakeChan := func(ch *Term) bool { return from(ch, awF) || sites[awF][allocSite(ch)] }
	hex := map[int64]string{0x25: "25", 0x26: "26", 0x31: "31"}
	ob := func(mine bool, rule, construct, pos string, ok bool, msg string) {
		if e.probe == 0 && mine == sleep {
			c.ob(rule, construct, pos, ok, msg)
		}
	}
	set := func(mine bool, s *State, k, v string) {
		if mine == sleep {
			s.setMon(k, v)
		}
	}
	done := func(s *State, stage string) {
		set(false, s, stage, "y")
		if (stage == "PI" || stage == "MS" || s.mon["kind"] == "60") && s.mon["told"] == "" {
			set(false, s, "untold", stage)
		}
		s.setMon("awake", "")
		s.setMon("listening", "")
		for _, k := range []string{"asked", "states", "kind", "req41", "req72", "req60"} {
			s.setMon(k, "")
		}
	}
	// what was stored has been announced
	announced := func(s *State, at, pos, what string) {
		ob(false, told, at+": "+what, pos, s.mon["untold"] == "", "something was learned about the node ("+s.mon["untold"]+") and may not be announced before "+what+trailStr(s))
	}
	clsIs := func(s *State, x *Term, n int64) int {
		return s.facts.evalBool(Eq0(toLin(AddC(ld(e, s, x, clsID, cls), -n))))
	}
	// the class was asked for its state, or has none
	settled := func(s *State, x *Term) bool {
		if s.mon["asked"] == "no need" || s.facts.nilness(x) == 1 {
			return true
		}
		for n, k := range hex {
			if clsIs(s, x, n) != 2 && s.mon["asked"] != k {
				return false
			}
		}
		return true
	}
	restart := func(s *State, list *Term) {
		s.setExtra("cc", list)
		s.setExtra("k", Int(-1))
		s.setExtra("cur", nil)
		s.setMon("asked", "")
	}
	sub := func(s *State, sl *Term) *Term { return segSub(sl.args[0], sl.args[1], sl.args[2]) }
	_ = sub
	paused := func(s *State) {
		for _, k := range []string{"awake", "listening", "failed", "kind", "asked", "states", "req41", "req72", "req60"} {
			s.setMon(k, "")
		}
		s.setExtra("reqErr", nil)
	}
	hook := func(ev *Event) {
		s := ev.S
		sites.note(ev)
		at, pos := "", ""
		if ev.Instr != nil && ev.Instr.Parent() != nil {
			at, pos = w.fname(ev.Instr.Parent()), w.pos(ev.Instr)
		}
		via := trailStr(s)
		switch ev.Kind {
		case EvCall:
			switch ev.Callee {
			case mand:
				a, b := ev.Args[0], ev.Args[1]
				own := func(x *Term, f *types.Var) bool {
					if x == ld(e, s, ld(e, s, self, piF, node), f, pi) {
						return true
					}
					return fromField(x, f) && x.args[0].op == OField && (from(x.args[0].args[0], piF) || x.args[0].args[0] == s.extra["piVal"])
				}
				ob(false, args_, at+": mandatory classes", pos, own(a, genF) && own(b, spF), "the mandatory classes are not those of the generic and specific device class of this node"+via)
				v := freshVal("?mandatory", mand.Signature.Results().At(0).Type())
				s.setExtra("mand", v)
				ev.Val = v
			case dbNew:
				m := s.extra["msVal"]
				ok := len(ev.Args) == 3
				for i := range msS {
					x := ev.Args[i]
					if x == ld(e, s, ld(e, s, self, msF, node), msS[i], msT) {
						continue
					}
					ok = ok && fromField(x, msS[i]) && x.args[0].op == OField && (from(x.args[0].args[0], msF) || m != nil && x.args[0].args[0] == m)
				}
				ob(false, args_, at+": device", pos, ok, "the device is not looked up under manufacturer, type and id of this node, in that order"+via)
				v := freshVal("?device", dbNew.Signature.Results().At(0).Type())
				s.setExtra("dev", v)
				if s.mon["dirty"] == "" {
					set(false, s, "dirty", "y")
				}
				ev.Val = v
			}
		case EvLoad:
			if cur, l := s.extra["cur"], s.extra["cc"]; !sleep && cur != nil && l != nil && l.op == OSlice && ev.Ptr.op == OElemAt && ev.Ptr.args[0] == l.args[0] && ev.Ptr.args[1] == Add(l.args[1], cur) {
				s.setExtra("elem", ev.Val)
			}
			for f, k := range map[*types.Var]string{piF: "PI", msF: "MS", epsF: "EP", stF: "ST", isAwF: "AW"} {
				if (k == "AW") == sleep && ofSelf(ev.Ptr, f) {
					s.setExtra("seen"+k, ev.Val)
				}
			}
			if ofSelf(ev.Ptr, ccF) && !sleep {
				s.setExtra("seenCC", ev.Val)
				if s.extra["cc"] != ev.Val {
					restart(s, ev.Val)
				}
			}
		case EvBranch:
			for _, k := range []string{"PI", "MS", "EP"} {
				if v := s.extra["seen"+k]; v != nil && s.facts.nilness(v) == 2 {
					set(false, s, k, "y")
				}
			}
			if v := s.extra["seenST"]; v != nil && s.facts.evalBool(v) == 1 {
				set(false, s, "ST", "y")
			}
			if v := s.extra["seenAW"]; v != nil {
				switch s.facts.evalBool(v) {
				case 1:
					set(true, s, "awake", "y")
					set(true, s, "listening", "y")
				case 2:
					set(true, s, "listening", "")
				}
			}
			if x := s.extra["elem"]; x != nil && s.extra["cur"] != nil && s.mon["asked"] == "" && settled(s, x) {
				set(false, s, "asked", "no need")
			}
			if v := s.extra["dev"]; v != nil && s.mon["dirty"] != "" {
				set(false, s, "dirty", []string{"y", "no device", "device"}[s.facts.nilness(v)])
			}
			if v := s.extra["reqErr"]; v != nil && s.facts.nilness(v) == 2 {
				set(false, s, "failed", "y")
			}
		case EvIndex:
			if sleep {
				return
			}
			if d := s.extra["dev"]; d != nil && ev.Ptr == ld(e, s, d, devCC, dev) {
				s.setExtra("devCur", ev.Args[0])
			}
			if ev.Ptr == s.extra["cc"] && ev.Ptr.op == OSlice && s.extra["cur"] != ev.Args[0] {
				set(false, s, "asked", "")
				if s.facts.equalInt(ev.Args[0], Int(0)) {
					if s.mon["states"] == "y" {
						set(false, s, "states", "again")
					}
					s.setExtra("k", Int(-1))
				}
				if k := s.extra["k"]; k != nil && s.facts.equalInt(ev.Args[0], AddC(k, 1)) {
					s.setExtra("cur", ev.Args[0])
					s.setExtra("elem", s.readElem(e.content(s, ev.Ptr.args[0]), Add(ev.Ptr.args[1], ev.Args[0])))
				} else {
					s.setExtra("cur", nil)
				}
			}
		case EvAgain:
			if sleep {
				return
			}
			cur, list := s.extra["cur"], s.extra["cc"]
			x := s.extra["elem"]
			if cur == nil || list == nil || x == nil {
				return
			}
			ok := settled(s, x)
			if ok {
				s.setExtra("k", cur)
			}
			s.setExtra("cur", nil)
			s.setExtra("elem", nil)
			set(false, s, "asked", "")
		case EvDyn:
			if !fromField(ev.Ptr, pushF) || ev.Ptr.args[0].args[0] != self || len(ev.Args) != 1 {
				return
			}
			if v := ev.Args[0]; v.op == OIface && typStr(v.typ) == "events.NodeUpdated" {
				if len(v.args[0].args) > 0 && s.facts.equalInt(v.args[0].args[0], ld(e, s, self, idF, node)) {
					set(false, s, "untold", "")
					set(false, s, "told", "y")
				}
			}
		case EvInvoke:
			if !isWriter(ev.Method) {
				return
			}
			announced(s, at, pos, "the next request")
			ob(true, addr, at+": connection", pos, from(ev.Recv, connF), "the request does not go to the connection of the node"+via)
			kind := "?"
			for _, o := range encodeOf(e, s, ev.Args[0], ev.Instr) {
				got := e.sliceContent(o, o.ret)
				if got == nil {
					continue
				}
				b := func(i int64) *Term { return o.readElem(got, Int(i)) }
				is := func(i, v int64) bool { n, ok := o.facts.constOf(b(i)); return ok && n == v }
				nid := ld(e, o, self, idF, node)
				ob(true, addr, at, pos, b(1) != nil && o.facts.equalInt(b(1), Wrap(nid, tU8)), "the request is addressed to another node: "+b(1).String()+via)
				switch {
				case is(0, 0x41):
					kind = "41"
				case is(0, 0x13):
					if n, ok := o.facts.constOf(b(3)); ok {
						kind = map[int64]string{0x72: "72", 0x60: "60", 0x25: "25", 0x26: "26", 0x31: "31"}[n]
					}
					cmd := map[string]int64{"72": 4, "60": 7, "25": 2, "26": 2, "31": 1}[kind]
					ob(false, prov, at+": request", pos, kind != "" && (is(4, cmd) || kind == "31" && is(4, 4)), "the request does not ask for anything identification needs: "+got.String()+via)
				}
			}
			if kind != "41" {
				ob(true, awake, at, pos, s.mon["awake"] == "y", "the node may be asked although nobody waited until it is awake"+via)
			} else {
				ob(true, awake, at+": protocol information", pos, true, "")
			}
			again := s.mon["req"+kind] == "y" && (kind == "41" || kind == "72" || kind == "60")
			if hex[map[string]int64{"25": 0x25, "26": 0x26, "31": 0x31}[kind]] != "" {
				again = s.mon["states"] == "again"
				set(false, s, "states", "y")
			}
			ob(false, pause, at, pos, !again && s.mon["failed"] == "", "a request is repeated, or another is made after a failure, without a pause"+via)
			set(false, s, "kind", "")
			if kind == "41" || kind == "72" || kind == "60" {
				set(false, s, "req"+kind, "y")
				set(false, s, "kind", kind)
			}
			if hex[map[string]int64{"25": 0x25, "26": 0x26, "31": 0x31}[kind]] != "" {
				set(false, s, "asked", kind)
				if x := s.extra["elem"]; x != nil && s.extra["cur"] != nil && settled(s, x) {
					set(false, s, "asked", "no need")
				}
			}
			s.setExtra("report", nil)
		case EvInvoked:
			if !isWriter(ev.Method) || ev.Val == nil {
				return
			}
			er, ch := ev.Val, (*Term)(nil)
			if ev.Val.op == OTuple {
				ch, er = ev.Val.args[0], ev.Val.args[len(ev.Val.args)-1]
			}
			s.setExtra("answers", ch)
			s.setExtra("reqErr", er)
			if sleep {
				s.setExtra("reqErr", nil)
			}
			if ch != nil && s.facts.nilness(er) == 2 {
				set(false, s, "failed", "y")
			}
		case EvTryWait:
			if !ev.Block {
				return
			}
			announced(s, at, pos, "waiting")
			for i, ch := range ev.Chans {
				if ev.Dirs[i] != types.RecvOnly {
					continue
				}
				if len(ev.Chans) == 1 && isAwakeChan(ch) {
					ob(true, listen, at, pos, s.mon["listening"] != "y", "it may wait for a wake-up of a node that is always awake"+via)
				} else if len(ev.Chans) == 1 && allocSite(ch) != "" {
					ob(true, listen, at+": other", pos, s.mon["closed"] == chanName(ch), "it waits on a channel that no wake-up closes"+via)
					set(true, s, "closed", "")
				}
			}
		case EvExt:
			if ev.Callee != nil && ev.Callee.String() == "time.Sleep" {
				paused(s)
			}
		case EvClose:
			if isAwakeChan(ev.Ptr) && allocSite(ev.Ptr) == "" {
				ob(true, release, at+": close", pos, false, "the wake-up channel is closed although the node may sleep"+via)
			}
			if allocSite(ev.Ptr) != "" {
				set(true, s, "closed", chanName(ev.Ptr))
			}
		case EvRecv:
			switch {
			case isTimer(ev.Ptr):
				paused(s)
			case isAwakeChan(ev.Ptr):
				set(true, s, "awake", "y")
			case ev.Ptr == s.extra["answers"]:
				s.setExtra("report", ev.Val)
			}
		case EvStore:
			f := fieldVar(ev.Ptr)
			if f == nil || ev.Ptr.op != OField || ev.Ptr.args[0] != self {
				return
			}
			rep := s.extra["report"]
			repIs := func(t types.Type) bool {
				if rep == nil {
					return false
				}
				d := s.facts.dynType(rep)
				return d != nil && types.Identical(d, types.NewPointer(t))
			}
			switch f {
			case piF:
				ok := false
				if rep != nil && s.mon["kind"] == "41" && s.facts.nilness(rep) == 2 {
					v := ld(e, s, rep, dataF, mt)
					d := s.facts.dynType(v)
					ok = d != nil && types.Identical(d, types.NewPointer(pi)) && ev.Val == unwrap(v, d)
				}
				ob(false, prov, at+": protocol information", pos, ok, "what is kept as protocol information is not the answer to the request for it"+via)
				s.setExtra("piVal", ev.Val)
				done(s, "PI")
			case isAwF:
				v := ev.Val
				ob(true, mark, at, pos, fromField(v, lisF) && v.args[0].op == OField && (v.args[0].args[0] == s.extra["piVal"] || v.args[0].args[0] == s.extra["piUse"] || from(v.args[0].args[0], piF) || isRep(s, ld, e, rep, dataF, mt, pi, v.args[0].args[0])), "the mark is not the listening flag of the protocol information of the node"+via)
			case msF:
				ok := rep != nil && s.mon["kind"] == "72" && repIs(msT) && ev.Val == unwrap(rep, types.NewPointer(msT))
				if ok {
					s.notNil(ev.Val) // reports are never nil pointers
				}
				ob(false, prov, at+": manufacturer", pos, ok, "what is kept as manufacturer data is not the report received in answer to the request for it"+via)
				s.setExtra("msVal", ev.Val)
				set(false, s, "CC", "")
				done(s, "MS")
			case epsF:
				none := s.extra["seenCC"] != nil && s.facts.nilness(s.extra["seenCC"]) == 1
				ok := s.mon["kind"] == "60" && repIs(epT) || none || s.mon["EP"] == "y"
				ob(false, prov, at+": endpoints", pos, ok && s.facts.nilness(ev.Val) != 1, "the endpoints are set although no endpoint report was received"+via)
				done(s, "EP")
			case stF:
				if s.facts.evalBool(ev.Val) == 2 {
					set(false, s, "ST", "")
					return
				}
				l, k := s.extra["cc"], s.extra["k"]
				all := l != nil && (s.facts.nilness(l) == 1 || l.op == OSlice && k != nil && s.facts.entails(toLin(Sub(AddC(k, 1), l.args[2]))))
				ob(false, prov, at+": states", pos, all, "the states are taken as known although a class with a state may not have been asked for"+via)
				done(s, "ST")
			case doneF:
				if s.facts.evalBool(ev.Val) == 2 {
					return
				}
				for _, k := range [][2]string{{"PI", "protocol information"}, {"MS", "manufacturer data"}, {"EP", "endpoints"}, {"ST", "states"}} {
					ob(false, stages, at+": "+k[1], pos, s.mon[k[0]] == "y", "the node may be marked as identified without "+k[1]+via)
				}
				ob(false, stages, at+": classes", pos, s.mon["CC"] == "full", "the node may be marked as identified without the classes and names of its device ("+s.mon["CC"]+")"+via)
				set(false, s, "ident", "y")
			case ccF:
				if sleep {
					ev.Val = freshVal("?classes", ccF.Type())
					return
				}
				set(false, s, "dirty", "y")
				m, d := s.extra["mand"], s.extra["dev"]
				old := e.sliceContent(s, ld(e, s, self, ccF, node))
				got := e.sliceContent(s, ev.Val)
				now := "unknown"
				eq := func(x *Term, more ...*Term) bool {
					if x == nil || got == nil {
						return false
					}
					return sameContent(s, got, mk(Term{op: OArr, typ: got.typ, args: append(append([]*Term{}, x.args...), more...)}))
				}
				var all *Term
				if d != nil {
					all = ld(e, s, d, devCC, dev)
				}
				switch {
				case m != nil && (ev.Val == m || eq(e.sliceContent(s, m))):
					now = "mand"
					s.setExtra("appended", Int(-1))
					if all != nil && all.op == OSlice && s.facts.equalInt(all.args[2], Int(0)) {
						now = "full"
					}
				case s.mon["list"] == "mand" && all != nil && all.op == OSlice && s.extra["appended"] != nil:
					n := s.extra["appended"]
					if dc := e.sliceContent(s, all); dc != nil && s.facts.equalInt(n, Int(-1)) && eq(old, dc.args...) {
						now = "full"
					} else if i := s.extra["devCur"]; i != nil && s.facts.equalInt(i, AddC(n, 1)) && old != nil &&
						got != nil && len(got.args) > 0 && eq(old, segLit(s.readElem(e.content(s, all.args[0]), Add(all.args[1], i)))) {
						now = "mand"
						s.setExtra("appended", i)
					}
				}
				if now != "unknown" {
					ev.Val = freshVal("?classes", ccF.Type())
				}
				set(false, s, "list", now)
			case nodeS[0], nodeS[1], nodeS[2]:
				set(false, s, "dirty", "y")
			case awF:
				old := ld(e, s, self, awF, node)
				ob(true, release, at+": channel", pos, s.facts.nilness(ev.Val) == 2 && s.facts.nilness(old) == 1, "the channel somebody may wait on is replaced"+via)
			}
		case EvUnlock:
			if ev.Recv == self {
				set(false, s, "told", "")
			}
			if ev.Recv != self || s.mon["dirty"] == "" || sleep {
				return
			}
			set(false, s, "dirty", "")
			cur := ld(e, s, self, ccF, node)
			got := e.sliceContent(s, cur)
			old := s.mon["list"]
			state := "unknown"
			ms := ld(e, s, self, msF, node)
			d := s.extra["dev"]
			n := s.extra["appended"]
			none := old == "mand" && n != nil && s.facts.equalInt(n, Int(-1))
			switch {
			case s.facts.nilness(ms) == 1:
				if none {
					state = "mand"
				}
			case d != nil && s.facts.nilness(d) == 1:
				if none {
					state = "full"
				}
			case d != nil:
				all := ld(e, s, d, devCC, dev)
				if old == "full" || old == "mand" && n != nil && (s.facts.nilness(all) == 1 || all.op == OSlice && s.facts.entails(toLin(Sub(AddC(n, 1), all.args[2])))) {
					state = "full"
				}
				for i := range devS {
					if ld(e, s, self, nodeS[i], node) != ld(e, s, d, devS[i], dev) {
						state = "other names"
					}
				}
			}
			gs := "?"
			if got != nil {
				gs = got.String()
			}
			ob(false, classes, at, pos, state == "mand" || state == "full", "the classes and names stored are not those of the mandatory table and the database ("+state+", "+old+"): "+gs+via)
			set(false, s, "CC", state)
		case EvRootEnd:
			announced(s, w.fname(identify), w.rel(identify.Pos()), "the end")
			ob(false, ends, e.rootShort(ev.Callee), w.rel(identify.Pos()), s.mon["ident"] == "y", "identification may end although the node is not marked as identified"+via)
		}
	}
	e.hooks = append(e.hooks, hook)
	e.run(s0, identify, args, nil)
	c.engine(e, "none")
	c.units = append(c.units, w.fname(identify))
	seen := map[*ssa.Function]bool{}
	for f := range e.fnSeen {
		seen[f] = true
	}
	if sleep {
		// wake-up reports
		e = newEng(w)
		e.followGo = false
		s := newState()
		args := rootArgs(e, s, apply)
		self, rep := args[0], args[1]
		s.notNil(self)
		wu := types.NewPointer(wuT)
		e.hooks = append(e.hooks, func(ev *Event) {
			s := ev.S
			at, pos := "", ""
			if ev.Instr != nil && ev.Instr.Parent() != nil {
				at, pos = w.fname(ev.Instr.Parent()), w.pos(ev.Instr)
			}
			switch ev.Kind {
			case EvLoad:
				if ev.Ptr.op == OField && ev.Ptr.args[0] == self && fieldVar(ev.Ptr) == awF && s.mon["closed"] == "" && s.mon["dropped"] == "" {
					s.setExtra("aw", ev.Val)
				}
			case EvClose:
				if fromField(ev.Ptr, awF) {
					if e.probe == 0 {
						c.ob(release, at+": close", pos, ev.Ptr == s.extra["aw"] && s.mon["closed"] == "" && ev.Mode != '?', "the channel closed may be nil, closed already or not that of the node"+trailStr(s))
						d := s.facts.dynType(rep)
						c.ob(release, at+": only by wake-ups", pos, d != nil && types.Identical(d, wu), "a report that is no wake-up releases those who wait"+trailStr(s))
					}
					s.setMon("closed", "y")
				}
			case EvStore:
				if ev.Ptr.op != OField || ev.Ptr.args[0] != self {
					return
				}
				switch fieldVar(ev.Ptr) {
				case awF:
					old := ld(e, s, self, awF, node)
					s.setMon("new", map[bool]string{true: "", false: "y"}[s.facts.nilness(ev.Val) == 1])
					if s.facts.nilness(old) != 1 {
						s.setMon("dropped", map[bool]string{true: "", false: "y"}[old == ev.Val])
					}
				case isAwF:
					if e.probe == 0 {
						c.ob(mark, at, pos, false, "a report changes whether the node counts as always awake"+trailStr(s))
					}
				}
			case EvUnlock:
				if ev.Recv != self || e.probe > 0 {
					return
				}
				cl, dr := s.mon["closed"] == "y", s.mon["dropped"] == "y"
				if d := s.facts.dynType(rep); d != nil && types.Identical(d, wu) {
					now := ld(e, s, self, awF, node)
					c.ob(release, at+": wake-up", pos, cl && dr || !cl && !dr && s.mon["new"] == "" && s.facts.nilness(now) == 1, "after a wake-up somebody may still wait, or the closed channel is kept"+trailStr(s))
				}
				c.ob(release, at+": kept", pos, !cl || dr, "a closed channel is kept for the next sleep"+trailStr(s))
				c.ob(release, at+": channel", pos, !dr || cl, "the channel somebody may wait on is replaced without being closed"+trailStr(s))
				s.setMon("closed", "")
				s.setMon("dropped", "")
				s.setMon("new", "")
			}
		})
		n := 0
		for _, o := range e.run(s, apply, args, nil) {
			if d := o.facts.dynType(rep); d != nil && types.Identical(d, wu) {
				n++
			}
		}
		c.ob(release, w.fname(apply)+": wake-ups", w.rel(apply.Pos()), n > 0, "wake-up reports are not told from others")
		c.engine(e, "none")
		c.units = append(c.units, w.fname(apply))
		for f := range e.fnSeen {
			seen[f] = true
		}
	}
	// nobody else changes these fields
	fields, rule := []*types.Var{piF, msF, stF, doneF, ccF, epsF, nodeS[0], nodeS[1], nodeS[2]}, prov
	if sleep {
		fields, rule = []*types.Var{awF, isAwF}, release
	}
	for _, f := range fields {
		for _, st := range w.stores[f] {
			fn := st.Parent()
			fresh := false
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				_, fresh = fa.X.(*ssa.Alloc)
			}
			c.ob(rule, w.fname(fn)+" stores "+f.Name(), w.pos(st), seen[fn] || fresh || !w.used(fn) && fn.Object() != nil && !fn.Object().Exported(), f.Name()+" is also changed outside identification and reports")
		}
	}
	if sleep {
		c.need(awake, 5)
		c.need(listen, 2)
		c.need(release, 4)
		c.need(addr, 6)
		c.need(mark, 1)
	} else {
		c.need(stages, 5)
		c.need(prov, 6)
		c.need(pause, 4)
		c.need(ends, 1)
		c.need(classes, 2)
		c.need(args_, 2)
		c.need(told, 3)
	}
}

// isRep: the object is the protocol information in the message just received
func isRep(s *State, ld func(*Eng, *State, *Term, *types.Var, types.Type) *Term, e *Eng, rep *Term, dataF *types.Var, mt, pi types.Type, o *Term) bool {
	if rep == nil || s.facts.nilness(rep) != 2 {
		return false
	}
	v := ld(e, s, rep, dataF, mt)
	d := s.facts.dynType(v)
	return d != nil && types.Identical(d, types.NewPointer(pi)) && o == unwrap(v, d)
}
