package main

// C31: what the stick says about the last request: the writer is told, a cancelled request is sent again

import (
	"go/types"
	"strings"
)

func init() {
	props["C31"] = &property{run: runC31,
		explain: "The functions that decode what is received are interpreted abstractly together with the goroutines they start. For every single byte the decoder accepts, every outstanding request is either compared with the last command or looked up by it; for the request that is the last command the byte is offered to the writer, and exactly when the byte is CAN a goroutine is started that waits on a timer and then hands this very request to the writer, once, on each of its paths; nothing else the reader does hands a request to the writer. In the writer, every request taken from the queue is written exactly once before the next is taken, with the last command naming it. Every function of the library that queues a new request does so at most once per path.",
		assume:  []string{"Timers fire; the writer keeps taking requests (see C10, C15).", "The length of the pause is not judged."}}
}

func runC31(w *World, c *Check) {
	const again, only, told, look, wr, name, once = "a cancelled request is sent again", "only a cancelled request is sent again", "the writer is told what the stick answered", "the last request is looked for", "every request taken from the queue is written once", "the last command names the request written", "a new request is queued once"
	cw := newConcWorld(w)
	p := findConn(w)
	isCAN := w.meth("serialapi", "Message", "IsCAN")
	uuidF := w.fieldLike("", "sendPackage", "uuid", func(t types.Type) bool { return types.Identical(t, types.Typ[types.String]) })
	if len(w.missing) > 0 {
		return
	}
	baseOf := func(v *Term, f *types.Var) *Term {
		if fromField(v, f) && v.op == OLoad && v.args[0].op == OField {
			return v.args[0].args[0]
		}
		return nil
	}
	pf := func(e *Eng, s *State, o *Term, f *types.Var, t types.Type) *Term {
		return e.load(s, Field(o, fieldIndex(t, f), types.NewPointer(f.Type())), f.Type())
	}
	at := func(ev *Event) (string, string) {
		if ev.Instr != nil && ev.Instr.Parent() != nil {
			return w.fname(ev.Instr.Parent()), w.pos(ev.Instr)
		}
		return "the reader", ""
	}
	// is the byte the decoder accepted CAN: y, n or not known
	can := func(s *State) string {
		if m := s.mon["can"]; m != "" {
			return m
		}
		if f := s.extra["decodedFirst"]; f != nil {
			return map[int]string{1: "y", 2: "n"}[s.facts.evalBool(Eq0(toLin(AddC(f, -0x18))))]
		}
		return ""
	}
	scope := func(e *Eng, ev *Event) {
		s := ev.S
		if s.mon["dec"] == "single" && e.probe == 0 {
			f, pos := at(ev)
			if s.mon["L"] == "y" {
				k := can(s)
				c.ob(told, f, pos, s.mon["told"] == "y", "the writer may not be told what the stick answered to the last request"+trailStr(s))
				c.ob(again, f, pos, k == "n" || k == "y" && s.mon["resent"] == "y", "the last request may not be sent again although the stick may have cancelled it"+trailStr(s))
			} else if s.extra["rk"] != nil {
				c.ob(look, f+": every request", pos, s.mon["L"] == "n", "an outstanding request may be passed over without having been compared with the last command"+trailStr(s))
			}
		}
		for _, k := range []string{"L", "told", "resent"} {
			s.setMon(k, "")
		}
		for _, k := range []string{"L", "rk", "rv"} {
			s.setExtra(k, nil)
		}
	}
	depth, resends := 0, 0
	readerRun(w, c, cw, p, func(e *Eng, ev *Event, rd *readerState) {
		s := ev.S
		isL := func(o *Term) bool { return s.mon["L"] == "y" && o != nil && o == s.extra["L"] }
		switch ev.Kind {
		case EvCall:
			if ev.Callee == isCAN && len(ev.Args) > 0 && ev.Args[0] == s.extra["decodedMsg"] {
				for _, yes := range []bool{true, false} {
					o := s.clone()
					o.ret = Bool(yes)
					m := map[bool]string{true: "y", false: "n"}[yes]
					if k := can(o); k != "" && k != m {
						continue
					}
					o.setMon("can", m)
					ev.Alts = append(ev.Alts, o)
				}
			}
		case EvRange:
			if rd.isMap(ev.Ptr, p.inFlight) && s.mon["dec"] == "single" {
				s.setMon("looked", "on")
			}
		case EvMapRead:
			if ev.Mode == 'r' && cw.isMapOf(ev, p.inFlight) && depth == 0 {
				scope(e, ev)
				s.setExtra("rk", ev.Args[0])
				s.setExtra("rv", ev.Val)
			}
		case EvMapGot:
			if cw.isMapOf(ev, p.inFlight) && depth == 0 && fromField(ev.Args[0], p.lastCommand) {
				s.setMon("looked", "y")
				if s.facts.nilness(ev.Val) != 1 {
					s.setMon("L", "y")
					s.setExtra("L", ev.Val)
				}
			}
		case EvRangeEnd:
			if rd.isMap(ev.Ptr, p.inFlight) && s.mon["looked"] == "on" {
				s.setMon("looked", "y")
			}
		case EvBranch:
			t, neg := ev.Val, false
			for t.op == ONot {
				t, neg = t.args[0], !neg
			}
			if t.op != OEq || len(t.args) != 2 {
				return
			}
			eq := (ev.Mode == 1) != neg
			for i := 0; i < 2; i++ {
				a, b := t.args[i], t.args[1-i]
				if !fromField(a, p.lastCommand) {
					continue
				}
				o := baseOf(b, uuidF)
				if o == nil && b == s.extra["rk"] {
					o = s.extra["rv"]
				}
				switch {
				case o == nil:
				case eq:
					s.setMon("L", "y")
					s.setExtra("L", o)
				case o == s.extra["rv"]:
					s.setMon("L", "n")
				}
			}
		case EvTryWait:
			for i, ch := range ev.Chans {
				if ev.Dirs[i] == types.SendOnly && fromField(ch, p.lastResult) && depth == 0 {
					s.setMon("told", "y")
				}
				if isTimer(ch) && len(ev.Chans) == 1 && depth > 0 {
					s.setMon("paused", "y")
				}
			}
		case EvSend:
			switch {
			case fromField(ev.Ptr, p.lastResult) && e.probe == 0 && depth == 0:
				f, pos := at(ev)
				b := s.extra["decodedFirst"]
				c.ob(told, f+": the byte", pos, b != nil && ev.Val != nil && s.facts.equalInt(ev.Val, b), "what the writer is told is "+ev.Val.String()+", not the byte received"+trailStr(s))
			case fromField(ev.Ptr, p.send):
				if e.probe == 0 {
					f, pos := at(ev)
					c.ob(only, f, pos, isL(ev.Val) && can(s) == "y" && s.mon["dec"] == "single", "a request is sent again that may not be the last command, or that the stick may not have cancelled"+trailStr(s))
					c.ob(again, f+": pause", pos, depth > 0 && s.mon["paused"] == "y", "a cancelled request is sent again without a pause in a goroutine of its own"+trailStr(s))
				}
				s.setMon("sent", more(s.mon["sent"]))
				resends++
			}
		case EvGo:
			if ev.Callee == nil || !w.inRepo(ev.Callee) || len(ev.Callee.Blocks) == 0 || !touches(ev.Callee, p.send) {
				return
			}
			depth++
			all := true
			for _, o := range e.inline(s.clone(), ev.Callee, ev.Args, ev.Ptr.args, ev.Instr) {
				all = all && o.mon["sent"] == "1"
			}
			depth--
			f, pos := at(ev)
			if e.probe == 0 {
				c.ob(again, f+": goroutine", pos, all && s.mon["resent"] == "", "the goroutine that sends a cancelled request again may not send it exactly once"+trailStr(s))
			}
			s.setMon("resent", "y")
		case EvAgain:
			if overMap(ev.Instr.Block()) && depth == 0 {
				scope(e, ev)
			}
		}
	}, func(e *Eng, ev *Event) {
		s := ev.S
		scope(e, ev)
		if s.mon["dec"] == "single" && e.probe == 0 {
			f, pos := at(ev)
			c.ob(look, f, pos, s.mon["looked"] == "y", "the reader may go on after an answer of the stick without having looked for the last request"+trailStr(s))
		}
		for _, k := range []string{"can", "looked", "sent", "paused"} {
			s.setMon(k, "")
		}
	})
	c.ob(again, "found", "", resends > 0, "no request is ever sent again")

	// the writer and those who queue new requests
	writes := 0
	for _, root := range cw.roots() {
		if root.Pkg != w.ssas[""] || !touches(root, p.send) {
			continue
		}
		e := cw.eng(c)
		hook := func(ev *Event) {
			s := ev.S
			f, pos := at(ev)
			via := " | entry " + e.rootName + trailStr(s)
			done := func() {
				if s.mon["pkg"] == "y" && e.probe == 0 {
					c.ob(wr, f, pos, s.mon["written"] == "1", "a request taken from the queue may be written "+itoa(len(s.mon["written"]))+" times"+via)
				}
				s.setMon("pkg", "")
				s.setMon("written", "")
			}
			switch ev.Kind {
			case EvRecv:
				if fromField(ev.Ptr, p.send) {
					done()
					if ev.Mode != 'c' {
						s.setMon("pkg", "y")
						s.setExtra("pkg", ev.Val)
					}
				}
			case EvTryWait:
				for i, ch := range ev.Chans {
					if ev.Dirs[i] == types.RecvOnly && fromField(ch, p.send) {
						done()
					}
				}
			case EvInvoke:
				if !isByteIO(ev.Method, "Write") || !cw.inRoot(ev.Instr) || !fromField(ev.Args[0], p.message) {
					return
				}
				s.setMon("written", more(s.mon["written"]))
				writes++
				o := s.extra["pkg"]
				if e.probe > 0 || o == nil {
					return
				}
				c.ob(wr, f+": its bytes", pos, s.mon["pkg"] == "y" && ev.Args[0] == pf(e, s, o, p.message, p.pkg), "what is written is not the message of the request taken from the queue"+via)
				named := false
				for _, l := range s.locks {
					if t := ptrElem(l.owner); t != nil && types.Identical(t, p.conn) && l.mode == 'W' {
						named = named || pf(e, s, l.owner, p.lastCommand, p.conn) == pf(e, s, o, uuidF, p.pkg)
					}
				}
				c.ob(name, f, pos, named, "the request is written although the last command may name another one, or may be changed by others at that moment"+via)
			case EvSend:
				if fromField(ev.Ptr, p.send) && !strings.HasPrefix(e.rootName, "goroutine") {
					s.setMon("queued", more(s.mon["queued"]))
					if e.probe == 0 {
						c.ob(once, f, pos, s.mon["queued"] == "1", "a request may be queued more than once"+via)
					}
				}
			case EvRootEnd:
				done()
			}
		}
		e.hooks = append(e.hooks, hook)
		s := newState()
		e.run(s, root, rootArgs(e, s, root), nil)
		c.engine(e, "none")
		c.units = append(c.units, w.fname(root))
	}
	c.ob(wr, "found", "", writes > 0, "no request is ever written")
	c.need(again, 4)
	c.need(only, 1)
	c.need(told, 2)
	c.need(look, 2)
	c.need(wr, 2)
	c.need(name, 1)
	c.need(once, 3)
}
