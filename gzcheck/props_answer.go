package main

// C11: every waiting request gets its answer or a closed channel, exactly once

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C11"] = &property{run: runC11,
		explain: "The entry points of the connection that touch the outstanding requests or their answer channels, and the goroutines they start, are interpreted abstractly. Per path it is recorded which request was taken out of the outstanding set and why, whether its channel is closed, and what was tried to be delivered. Decided: a request is only taken out when a frame matches it (after an attempt to deliver), when the stick refused it, when its own time-out has passed or when it has none; whoever takes it out also closes its channel before the connection is unlocked; a refused or matched request is taken out. Every request received by the writer is registered under its own identifier before it can be answered, and a goroutine that waits for its time-out is started, or it is taken out again; that goroutine ends only when the request is gone. A channel is closed only as the current channel of its request, under its lock, and is then forgotten; it is set only in a request nobody else knows; sending on it happens only when it is known to be open, under a lock every closer holds, and at most once. What the waiting functions return is the channel of the request they sent, with the time-out asked for, or a channel that the goroutine they start closes exactly once on every end after sending at most one report, that of the message received.",
		assume:  []string{"Identifiers of requests are unique (random).", "Timers fire; a goroutine whose caller stopped listening may stay.", "An entry of the outstanding set has the key it was stored under, which is checked where entries are stored."}}
}

func runC11(w *World, c *Check) {
	const why, clos, refused, reg, arm, tmo, once, send, ret, wait, cover = "a request is only taken out for a reason", "who takes a request out closes its channel", "a matched or refused request is taken out", "requests are registered before they can be answered", "every request gets its time-out or is forgotten", "the time-out goroutine ends only when the request is gone", "a channel is closed once", "answers are sent on open channels, at most one", "callers get the channel of their request", "the waiting goroutine closes what the caller waits on", "all code that handles outstanding requests is covered"
	cw := newConcWorld(w)
	p := findConn(w)
	match := w.methLike("", "sendPackage", "Match", isMatcher)
	isNAK := w.meth("serialapi", "Message", "IsNAK")
	uuidF := w.fieldLike("", "sendPackage", "uuid", func(t types.Type) bool { return types.Identical(t, types.Typ[types.String]) })
	dataF := w.field("serialapi", "Message", "Data")
	mt, ach := w.typ("serialapi", "Message"), w.typ("serialapi", "FuncApplicationCommandHandler")
	repF := w.field("serialapi", "FuncApplicationCommandHandler", "Report")
	if len(w.missing) > 0 {
		return
	}
	pf := func(e *Eng, s *State, o *Term, f *types.Var, t types.Type) *Term {
		return e.load(s, Field(o, fieldIndex(t, f), types.NewPointer(f.Type())), f.Type())
	}
	baseOf := func(v *Term, f *types.Var) *Term {
		if fromField(v, f) && v.op == OLoad && v.args[0].op == OField {
			return v.args[0].args[0]
		}
		return nil
	}
	same := func(s *State, a, b *Term) bool {
		if a == nil || b == nil {
			return false
		}
		x, y := s.extra["alias1"], s.extra["alias2"]
		return a == b || x != nil && (a == x && b == y || a == y && b == x)
	}
	isConn := func(o *Term) bool { t := ptrElem(o); return t != nil && types.Identical(t, p.conn) }
	isPkg := func(o *Term) bool { t := ptrElem(o); return t != nil && types.Identical(t, p.pkg) }
	set := func(s *State, k string, o *Term) {
		s.setMon(k, "y")
		s.setExtra(k, o)
	}
	clear := func(s *State, ks ...string) {
		for _, k := range ks {
			s.setMon(k, "")
			s.setExtra(k, nil)
		}
	}
	isSet := func(s *State, k string, o *Term) bool { return s.mon[k] == "y" && same(s, s.extra[k], o) }
	lockedW := func(s *State, o *Term) bool {
		for _, l := range s.locks {
			if l.owner == o && l.mode == 'W' {
				return true
			}
		}
		return false
	}
	sites := fieldSites{}
	ownChan := func(ch *Term) *Term { return baseOf(ch, p.retChan) }
	// the locks held at every send and close of answer channels
	var common map[string]bool
	commonAt := map[string]string{}
	holdLocks := func(s *State, at string) {
		h := map[string]bool{}
		for _, l := range s.locks {
			if l.mode == 'W' {
				h[lockClass(l.mu)] = true
			}
		}
		if common == nil {
			common = h
		} else {
			for k := range common {
				if !h[k] {
					delete(common, k)
				}
			}
		}
		var ks []string
		for k := range h {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		commonAt[at] = strings.Join(ks, ", ")
	}
	type end struct {
		mon  map[string]string
		pos  string
		gone bool
		any  bool // it waited for the time-out of a request
		tr   string
	}
	ends := map[*ssa.Function][]end{}
	armers := map[*ssa.Function]string{}
	type result struct {
		ch, at, fn string
		gos        []*ssa.Function
	}
	var results []result
	seen := map[*ssa.Function]bool{}
	gosOf := map[string]*ssa.Function{}
	nsend := 0

	for _, root := range cw.roots() {
		if root.Pkg != w.ssas[""] || !touches(root, p.inFlight) && !touches(root, p.retChan) {
			continue
		}
		about := false // of the connection or a request
		ps := root.Signature.Params()
		for i := -1; i < ps.Len(); i++ {
			v := root.Signature.Recv()
			if i >= 0 {
				v = ps.At(i)
			}
			if v != nil {
				t := ptrElemT(v.Type())
				about = about || types.Identical(t, p.conn) || types.Identical(t, p.pkg)
			}
		}
		if !about {
			continue
		}
		e := cw.eng(c)
		var args []*Term
		isGo := func() bool { return strings.HasPrefix(e.rootName, "goroutine") }
		// a message received on behalf of a caller is done with
		dropMsg := func(s *State) {
			m := s.extra["owedMsg"]
			if m == nil {
				return
			}
			d := s.extra["owedData"] // what it held when it was looked at
			s.setExtra("owedMsg", nil)
			s.setExtra("owedData", nil)
			if s.facts.nilness(m) == 1 || s.facts.nilness(m) == 2 && d != nil && !mayBe(s, d, types.NewPointer(ach)) {
				return
			}
			s.setMon("lost", "y")
		}
		// the part of the work on one request is over
		scope := func(ev *Event, what string) {
			s := ev.S
			at, pos := e.rootName, ""
			if ev.Instr != nil && ev.Instr.Parent() != nil {
				at, pos = w.fname(ev.Instr.Parent()), w.pos(ev.Instr)
			}
			if s.mon["D"] == "y" {
				if e.probe == 0 {
					c.ob(clos, at, pos, s.mon["C"] == "y" && same(s, s.extra["D"], s.extra["C"]), "a request taken out of the outstanding set may keep an open channel at "+what+trailStr(s))
				}
			}
			if s.mon["M"] == "y" {
				if e.probe == 0 {
					c.ob(refused, at+": match", pos, s.mon["D"] == "y" && same(s, s.extra["D"], s.extra["M"]), "a request that matched the frame may stay in the outstanding set at "+what+trailStr(s))
					c.ob(send, at+": attempt", pos, !isSet(s, "CC", s.extra["M"]) || isSet(s, "tried", s.extra["M"]), "the channel of a request that matched a frame may be closed without an attempt to deliver the answer"+trailStr(s))
				}
			}
			if s.mon["L"] == "y" && s.mon["dec"] == "single" {
				nak := s.mon["nak"]
				if f := s.extra["decodedFirst"]; nak == "" && f != nil {
					nak = map[int]string{1: "y", 2: "n"}[s.facts.evalBool(Eq0(toLin(AddC(f, -0x15))))]
				}
				if e.probe == 0 {
					c.ob(refused, at+": refusal", pos, nak == "n" || nak == "y" && s.mon["D"] == "y" && same(s, s.extra["D"], s.extra["L"]), "the last command may stay in the outstanding set although the stick refused it, at "+what+trailStr(s))
				}
			}
			if s.mon["owed"] == "y" && e.probe == 0 && s.facts.nilness(s.extra["owedCh"]) != 1 {
				c.ob(once, at+": forgotten", pos, false, "the channel of a request is forgotten without being closed at "+what+trailStr(s))
			}
			clear(s, "D", "C", "M", "L", "O", "S", "CC", "tried", "owed")
			s.setExtra("owedCh", nil)
			s.setExtra("rk", nil)
			s.setExtra("rv", nil)
		}
		hook := func(ev *Event) {
			s := ev.S
			sites.note(ev)
			at, pos := "", ""
			if ev.Instr != nil && ev.Instr.Parent() != nil {
				at, pos = w.fname(ev.Instr.Parent()), w.pos(ev.Instr)
			}
			via := " | entry " + e.rootName + trailStr(s)
			chanKnown := func() {
				t, o := s.extra["rcTerm"], s.extra["rcP"]
				if t == nil || o == nil {
					return
				}
				switch s.facts.nilness(t) {
				case 1:
					set(s, "C", o)
				case 2:
					set(s, "O", o)
				default:
					return
				}
				s.setExtra("rcTerm", nil)
				s.setExtra("rcP", nil)
			}
			switch ev.Kind {
			case EvCall:
				switch ev.Callee {
				case match, isNAK:
					for _, yes := range []bool{true, false} {
						o := s.clone()
						o.ret = Bool(yes)
						if ev.Callee == match {
							clear(o, "M")
							if yes {
								set(o, "M", ev.Args[0])
							}
						} else if ev.Args[0] == o.extra["decodedMsg"] {
							if m := o.mon["nak"]; m != "" && (m == "y") != yes {
								continue
							}
							o.setMon("nak", map[bool]string{true: "y", false: "n"}[yes])
						}
						ev.Alts = append(ev.Alts, o)
					}
					return
				}
			case EvLoad:
				if m := s.extra["owedMsg"]; m != nil && fieldVar(ev.Ptr) == dataF && ev.Ptr.op == OField && ev.Ptr.args[0] == m {
					s.setExtra("owedData", ev.Val)
				}
			case EvMapRead:
				if ev.Mode == 'r' && cw.isMapOf(ev, p.inFlight) {
					clear(s, "D", "C", "M", "L", "O", "S", "CC", "tried")
					s.setExtra("rk", ev.Args[0])
					s.setExtra("rv", ev.Val)
					s.setMon("sweep", "")
				}
			case EvMapGot:
				if !cw.isMapOf(ev, p.inFlight) {
					return
				}
				k := ev.Args[0]
				s.setExtra("rk", k)
				s.setExtra("rv", ev.Val)
				if s.facts.nilness(ev.Val) != 1 {
					if fromField(k, p.lastCommand) {
						set(s, "L", ev.Val)
					}
					if o := baseOf(k, uuidF); o != nil {
						s.setExtra("alias1", ev.Val)
						s.setExtra("alias2", o)
					}
				} else if o := baseOf(k, uuidF); o != nil {
					set(s, "gone", o)
				}
			case EvBranch:
				chanKnown()
				t, neg := ev.Val, false
				for t.op == ONot {
					t, neg = t.args[0], !neg
				}
				if t.op != OEq || len(t.args) != 2 {
					return
				}
				eq := (ev.Mode == 1) != neg
				rk, rv := s.extra["rk"], s.extra["rv"]
				for i := 0; i < 2; i++ {
					a, b := t.args[i], t.args[1-i]
					if fromField(a, p.lastCommand) {
						o := baseOf(b, uuidF)
						if o == nil && b == rk {
							o = rv
						}
						if o != nil && eq {
							set(s, "L", o)
						}
					}
					if o := baseOf(b, uuidF); rk != nil && o != nil && (a == rk || baseOf(a, uuidF) != nil && baseOf(a, uuidF) == rv) && o != rv {
						if eq {
							s.setExtra("alias1", rv)
							s.setExtra("alias2", o)
							s.setMon("sweep", "hit")
						} else {
							s.setMon("sweep", "other")
						}
					}
				}
			case EvRecv:
				switch {
				case isTimer(ev.Ptr):
					if ev.Ptr.op == OCall && len(ev.Ptr.args) > 0 {
						if o := baseOf(ev.Ptr.args[0], p.timeout); o != nil {
							set(s, "T", o)
						}
					}
				case fromField(ev.Ptr, p.send):
					pend(c, e, s, reg, arm, at, pos, via)
					if ev.Mode != 'c' {
						set(s, "pkg", ev.Val)
					}
				case sites.holds(ev.Ptr, p.retChan):
					k := "rc:" + chanName(ev.Ptr)
					if e.probe == 0 && isGo() {
						old := s.extra["plain"]
						c.ob(wait, at+": receive", pos, s.mon[k] != "closed" && (old == nil || s.facts.nilness(old) == 2), "it may go on receiving from the channel of the request after that was closed"+via)
					}
					s.setExtra("plain", nil)
					dropMsg(s)
					if ev.Mode == 'c' {
						s.setMon(k, "closed")
					} else {
						s.setExtra("msg", ev.Val)
						s.setExtra("owedMsg", ev.Val)
						if ev.Mode == 0 {
							s.setExtra("plain", ev.Val)
						}
					}
				}
			case EvMapSet:
				if !cw.isMapOf(ev, p.inFlight) {
					return
				}
				key, v := ev.Args[0], ev.Val
				if e.probe == 0 {
					c.ob(reg, at+": key", pos, isPkg(v) && key == pf(e, s, v, uuidF, p.pkg), "a request is registered under "+key.String()+", not under its own identifier"+via)
				}
				if s.extra["pkg"] == v {
					s.setMon("reg", "y")
				}
				clear(s, "D", "gone")
			case EvMapDel:
				if !cw.isMapOf(ev, p.inFlight) {
					return
				}
				scopeKeep := s.mon["D"] == "y"
				var o *Term
				if len(ev.Args) > 0 {
					k := ev.Args[0]
					if o = baseOf(k, uuidF); o == nil && k == s.extra["rk"] {
						o = s.extra["rv"]
					}
					if o == nil && fromField(k, p.lastCommand) && s.mon["L"] == "y" {
						o = s.extra["L"]
					}
				}
				if o == nil {
					if e.probe == 0 {
						c.ob(why, at, pos, false, "it cannot be told which request is taken out of the outstanding set"+via)
					}
					return
				}
				if scopeKeep && !same(s, s.extra["D"], o) && e.probe == 0 {
					c.ob(clos, at, pos, s.mon["C"] == "y" && same(s, s.extra["D"], s.extra["C"]), "a request taken out of the outstanding set may keep an open channel when the next is taken out"+via)
				}
				zero := s.facts.equalInt(pf(e, s, o, p.timeout, p.pkg), Int(0))
				nak := s.mon["nak"] == "y"
				if f := s.extra["decodedFirst"]; f != nil && s.mon["dec"] == "single" && s.facts.equalInt(f, Int(0x15)) {
					nak = true
				}
				m := isSet(s, "M", o)
				ok := m || nak && isSet(s, "L", o) || isSet(s, "T", o) || zero
				if e.probe == 0 {
					c.ob(why, at, pos, ok, "a request may be taken out of the outstanding set although no frame matched it, it was not refused and its time has not passed"+via)
				}
				set(s, "D", o)
				set(s, "gone", o)
				if same(s, s.extra["pkg"], o) && zero {
					s.setMon("arm", "y")
				}
			case EvTryWait:
				for i, ch := range ev.Chans {
					if o := ownChan(ch); o != nil && ev.Dirs[i] == types.SendOnly {
						nsend++
						bounded := false
						for j, x := range ev.Chans {
							bounded = bounded || ev.Dirs[j] == types.RecvOnly && isTimer(x)
						}
						if e.probe == 0 {
							c.ob(send, at+": open", pos, isSet(s, "O", o), "an answer may be sent on a channel that is closed or forgotten"+via)
							c.ob(send, at+": once", pos, !isSet(s, "S", o), "a second answer may be sent to the same request"+via)
							c.ob(send, at+": attempt", pos, ev.Block, "the answer is dropped when the caller is not waiting at that very moment"+via)
							holdLocks(s, at+" sends at "+pos)
						}
						set(s, "tried", o)
					} else if ev.Dirs[i] == types.SendOnly && sites.holds(ch, p.retChan) && e.probe == 0 {
						c.ob(send, at+": by the reader", pos, false, "something else than the registered channel of a request is sent to"+via)
					}
				}
			case EvSend:
				if o := ownChan(ev.Ptr); o != nil {
					set(s, "S", o)
					return
				}
				if fromField(ev.Ptr, p.send) && ev.Val != nil && isPkg(ev.Val) {
					s.setExtra("sentCh", pf(e, s, ev.Val, p.retChan, p.pkg))
					s.setExtra("sentTo", pf(e, s, ev.Val, p.timeout, p.pkg))
					s.setMon("sent", "y")
					return
				}
				if allocSite(ev.Ptr) != "" {
					k := "sn:" + chanName(ev.Ptr)
					s.setMon(k, more(s.mon[k]))
					s.setExtra("owedMsg", nil)
					if isGo() && e.probe == 0 && s.extra["msg"] != nil {
						m := s.extra["msg"]
						ok := false
						if s.facts.nilness(m) == 2 {
							v := pf(e, s, m, dataF, mt)
							if d := s.facts.dynType(v); d != nil && types.Identical(d, types.NewPointer(ach)) {
								ok = ev.Val == pf(e, s, unwrap(v, d), repF, ach)
							}
						}
						c.ob(wait, at+": the report", pos, ok, "what is passed on is not the report of the message received"+via)
					}
				}
			case EvClose:
				o := ownChan(ev.Ptr)
				if o == nil {
					if sites.holds(ev.Ptr, p.retChan) && e.probe == 0 {
						c.ob(once, at, pos, false, "the channel of a request is closed by somebody who does not look it up in the request"+via)
					}
					k := "cl:" + chanName(ev.Ptr)
					s.setMon(k, more(s.mon[k]))
					return
				}
				locked := lockedW(s, o)
				if isSet(s, "owed", o) && s.extra["owedCh"] == ev.Ptr { // taken out of the request right before
					clear(s, "owed")
					s.setExtra("owedCh", nil)
					if e.probe == 0 {
						c.ob(once, at+": current", pos, ev.Mode != '?', "what is closed may be nil"+via)
						holdLocks(s, at+" closes at "+pos)
					}
					set(s, "CC", o)
					return
				}
				if e.probe == 0 {
					c.ob(once, at+": current", pos, locked && ev.Ptr == pf(e, s, o, p.retChan, p.pkg) && ev.Mode != '?', "what is closed may be nil or not the current channel of the request, or the request is not locked"+via)
					holdLocks(s, at+" closes at "+pos)
				}
				set(s, "mustnil", o)
				set(s, "CC", o)
			case EvStore:
				f := fieldVar(ev.Ptr)
				if f == nil || ev.Ptr.op != OField {
					return
				}
				o := ev.Ptr.args[0]
				fresh := o.op == OAlloc && allocFresh(s, o) && !e.isEscaped(s, o)
				switch f {
				case p.retChan:
					if s.facts.nilness(ev.Val) == 1 {
						if isSet(s, "mustnil", o) {
							clear(s, "mustnil")
						} else if cur := pf(e, s, o, p.retChan, p.pkg); !fresh && s.facts.nilness(cur) != 1 {
							if e.probe == 0 {
								c.ob(once, at+": forgotten", pos, (s.mon["owed"] != "y" || s.facts.nilness(s.extra["owedCh"]) == 1) && lockedW(s, o), "the channel of a request is forgotten without being closed"+via)
							}
							set(s, "owed", o)
							s.setExtra("owedCh", cur)
						}
					} else if e.probe == 0 {
						c.ob(once, at+": set", pos, fresh, "the channel of a request is set when others may know the request already"+via)
					}
				case uuidF:
					if e.probe == 0 {
						c.ob(reg, at+": identifier", pos, fresh, "the identifier of a request changes"+via)
					}
				case p.timeout:
					if e.probe == 0 {
						c.ob(arm, at+": time-out", pos, fresh, "the time-out of a request is changed when others may know the request already"+via)
					}
				case p.inFlight:
					if e.probe == 0 {
						c.ob(why, at+": the set", pos, fresh, "the set of outstanding requests is replaced"+via)
					}
				}
			case EvUnlock:
				o := ev.Recv
				if isPkg(o) {
					if e.probe == 0 && s.mon["mustnil"] == "y" {
						c.ob(once, at+": then forgotten", pos, !isSet(s, "mustnil", o), "a closed channel stays in its request"+via)
					}
					clear(s, "mustnil")
					s.setExtra("rcTerm", pf(e, s, o, p.retChan, p.pkg))
					s.setExtra("rcP", o)
					chanKnown()
				}
				if isConn(o) && ev.Mode != 'R' {
					if e.probe == 0 && s.mon["wrote"] == "y" {
						c.ob(reg, at+": before the answer", pos, s.mon["reg"] == "y", "a request may be written and answered before it is registered"+via)
					}
					scope(ev, "the unlock of the connection")
				}
			case EvInvoke:
				if !isByteIO(ev.Method, "Write") || !cw.inRoot(ev.Instr) || !fromField(ev.Args[0], p.message) {
					return
				}
				s.setMon("wrote", "y")
				locked := false
				for _, l := range s.locks {
					locked = locked || isConn(l.owner) && l.mode == 'W'
				}
				if e.probe == 0 {
					c.ob(reg, at+": before writing", pos, locked || s.mon["reg"] == "y", "a request may be answered before it is registered"+via)
				}
			case EvGo:
				if ev.Callee == nil {
					return
				}
				if e.probe == 0 {
					gosOf[w.fname(ev.Callee)] = ev.Callee
				}
				if !isGo() {
					if !strings.Contains(s.mon["gos"], "|"+w.fname(ev.Callee)+"|") {
						s.setMon("gos", s.mon["gos"]+"|"+w.fname(ev.Callee)+"|")
					}
				}
				o := s.extra["pkg"]
				if o == nil || !touches(ev.Callee, p.inFlight) {
					return
				}
				has := false
				for _, a := range append(append([]*Term{}, ev.Args...), ev.Ptr.args...) {
					has = has || a == o || a.op == OAlloc && ptrElem(a) != nil && e.load(s, a, ptrElem(a)) == o
				}
				if has {
					s.setMon("arm", "y")
					if e.probe == 0 {
						armers[ev.Callee] = pos
					}
				}
			case EvAgain:
				if s.extra["owedMsg"] != nil && loopReceives(ev.Instr.Block(), p.retChan.Type()) {
					dropMsg(s)
				}
				if overMap(ev.Instr.Block()) {
					if s.mon["sweep"] == "" && s.extra["rk"] != nil || s.mon["sweep"] == "hit" && !isSet(s, "gone", s.extra["alias2"]) {
						s.setMon("missed", "y")
					}
					s.setMon("sweep", "")
					scope(ev, "the end of the pass")
				}
				if loopCalls(ev.Instr.Block(), cw.dec()) {
					s.setMon("nak", "")
				}
			case EvRangeEnd:
				if cw.isMapOf(ev, p.inFlight) {
					if s.mon["T"] == "y" && s.mon["missed"] != "y" {
						set(s, "gone", s.extra["T"])
					}
					s.setMon("missed", "")
				}
			case EvRootEnd:
				if e.probe > 0 {
					return
				}
				scope(ev, "the end of "+e.rootShort(ev.Callee))
				pend(c, e, s, reg, arm, w.fname(ev.Callee), w.rel(ev.Callee.Pos()), via)
				if isGo() {
					dropMsg(s)
					m := map[string]string{}
					for k, v := range s.mon {
						m[k] = v
					}
					ends[ev.Callee] = append(ends[ev.Callee], end{m, w.rel(ev.Callee.Pos()), s.mon["T"] == "y" && isSet(s, "gone", s.extra["T"]), s.mon["T"] == "y", trailStr(s)})
					return
				}
				sig := ev.Callee.Signature
				if sig.Results().Len() != 2 {
					return
				}
				if _, isC := sig.Results().At(0).Type().Underlying().(*types.Chan); !isC || ev.Val == nil || ev.Val.op != OTuple {
					return
				}
				name := w.fname(ev.Callee)
				v, er := ev.Val.args[0], ev.Val.args[1]
				if s.facts.nilness(er) == 2 {
					return
				}
				pos = w.rel(ev.Callee.Pos())
				var dur *Term
				for i := 0; i < sig.Params().Len(); i++ {
					if typStr(sig.Params().At(i).Type()) == "time.Duration" {
						dur = args[len(args)-sig.Params().Len()+i]
					}
				}
				c.ob(ret, name+": sent", pos, s.mon["sent"] == "y", "a channel is returned but no request may have been sent"+via)
				if s.mon["sent"] != "y" {
					return
				}
				to, ch := s.extra["sentTo"], s.extra["sentCh"]
				c.ob(ret, name+": time-out", pos, dur != nil && to != nil && s.facts.equalInt(to, dur), "the request is not sent with the time-out asked for"+via)
				c.ob(ret, name+": channel", pos, ch != nil && s.facts.nilness(ch) == 2, "the request is sent without an answer channel"+via)
				if v == ch {
					return
				}
				r := result{chanName(v), pos, name, nil}
				for _, g := range strings.Split(s.mon["gos"], "|") {
					if f := gosOf[g]; f != nil {
						r.gos = append(r.gos, f)
					}
				}
				c.ob(ret, name+": other channel", pos, allocSite(v) != "" && len(r.gos) > 0, "what is returned is neither the channel of the request nor one a goroutine fills"+via)
				results = append(results, r)
			}
		}
		e.hooks = append(e.hooks, hook)
		s := newState()
		args = rootArgs(e, s, root)
		e.run(s, root, args, nil)
		c.engine(e, "none")
		c.units = append(c.units, w.fname(root))
		for f := range e.fnSeen {
			seen[f] = true
		}
	}
	for _, fn := range w.fns {
		n := ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if f := fieldOfInstr(in); f == p.inFlight || f == p.retChan {
					n = f.Name()
				}
			}
		}
		if n != "" && (seen[fn] || w.used(fn)) {
			c.ob(cover, w.fname(fn)+": "+n, w.rel(fn.Pos()), seen[fn] || fn.Signature.Recv() == nil && fn.Parent() == nil && onlyFresh(fn, p.inFlight, p.retChan), "the function uses "+n+", but is not reached from the entry points of the connection")
		}
	}
	for f, at := range armers {
		es := ends[f]
		c.ob(tmo, w.fname(f)+": analysed", at, len(es) > 0, "the goroutine that should end the request never ends")
		for _, x := range es {
			c.ob(tmo, w.fname(f)+": waits", x.pos, x.any, "the goroutine may end without having waited for the time-out of the request"+x.tr)
			c.ob(tmo, w.fname(f)+": gone", x.pos, x.gone, "the time-out has passed, but the request may stay in the outstanding set"+x.tr)
		}
	}
	for _, r := range results {
		n := 0
		for _, g := range r.gos {
			es := ends[g]
			mine := false
			for _, x := range es {
				if x.mon["cl:"+r.ch] != "" || x.mon["sn:"+r.ch] != "" {
					mine = true
				}
			}
			if !mine {
				continue
			}
			n++
			for _, x := range es {
				c.ob(wait, w.fname(g)+": closed", x.pos, x.mon["cl:"+r.ch] == "1", "the goroutine may end with the channel of the caller closed "+itoa(len(x.mon["cl:"+r.ch]))+" times"+x.tr)
				c.ob(wait, w.fname(g)+": forwarded", x.pos, x.mon["lost"] == "", "a report that answers the request may not be passed on to the caller"+x.tr)
				c.ob(wait, w.fname(g)+": one report", x.pos, len(x.mon["sn:"+r.ch]) <= 1, "more than one report may be sent to the caller"+x.tr)
			}
		}
		c.ob(wait, r.fn+": one goroutine", r.at, n == 1, itoa(n)+" goroutines fill or close the channel returned by "+r.fn)
	}
	var hl []string
	for k, v := range commonAt {
		hl = append(hl, k+" holding "+v)
	}
	sort.Strings(hl)
	c.ob(send, "senders and closers exclude each other", "", len(common) > 0, "no lock is held by everybody who sends on or closes answer channels: "+strings.Join(hl, "; "))
	c.need(why, 3)
	c.need(clos, 3)
	c.need(refused, 2)
	c.need(reg, 2)
	c.need(arm, 1)
	c.need(tmo, 2)
	c.need(once, 3)
	c.need(send, 3)
	c.need(ret, 4)
	c.need(wait, 3)
}

// pend: the request received last was registered and got its time-out
func pend(c *Check, e *Eng, s *State, reg, arm, at, pos, via string) {
	if s.mon["pkg"] == "y" && e.probe == 0 {
		c.ob(reg, at+": registered", pos, s.mon["reg"] == "y", "a request taken from the queue may not be registered"+via)
		c.ob(arm, at, pos, s.mon["arm"] == "y", "a request may stay outstanding forever: neither a time-out is started nor is it taken out"+via)
	}
	s.setMon("pkg", "")
	s.setExtra("pkg", nil)
	s.setMon("reg", "")
	s.setMon("arm", "")
	s.setMon("wrote", "")
}

func more(n string) string {
	if len(n) < 2 {
		return n + "1"
	}
	return n
}

func ptrElemT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (cw *concWorld) dec() *ssa.Function { return cw.w.fn("serialapi", "Decode") }

// isMapOf: the map the event is about was read from the field
func (cw *concWorld) isMapOf(ev *Event, f *types.Var) bool {
	if fromField(ev.Ptr, f) {
		return true
	}
	switch x := ev.Instr.(type) {
	case *ssa.Lookup:
		return mapField(x.X, 0) == f
	case *ssa.MapUpdate:
		return mapField(x.Map, 0) == f
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			return mapField(r.X, 0) == f
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
			return mapField(x.Call.Args[0], 0) == f
		}
	}
	return false
}

func fieldOfInstr(in ssa.Instruction) *types.Var {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		return ssaField(x)
	}
	return nil
}

// onlyFresh: the fields are only used of objects the function itself allocates
func onlyFresh(fn *ssa.Function, fs ...*types.Var) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, f := range fs {
				if ssaField(x) == f {
					if _, ok := x.X.(*ssa.Alloc); !ok {
						return false
					}
				}
			}
		}
	}
	return true
}

// used: some function refers to fn
func (w *World) used(fn *ssa.Function) bool {
	if w.usedFns == nil {
		w.usedFns = map[*ssa.Function]bool{}
		for _, f := range w.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							w.usedFns[g] = true
						}
					}
				}
			}
		}
	}
	return w.usedFns[fn]
}

// loopReceives: the loop takes messages from a channel of this element type
func loopReceives(head *ssa.BasicBlock, ch types.Type) bool {
	l := infoOf(head.Parent()).loops[head]
	if l == nil {
		return false
	}
	el := chanElem(ch)
	seen := map[*ssa.Function]bool{}
	var in func(b *ssa.BasicBlock) bool
	in = func(b *ssa.BasicBlock) bool {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW && types.Identical(chanElem(x.X.Type()), el) {
					return true
				}
			case *ssa.Select:
				for _, st := range x.States {
					if st.Dir == types.RecvOnly && types.Identical(chanElem(st.Chan.Type()), el) {
						return true
					}
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && !seen[f] {
					seen[f] = true
					for _, fb := range f.Blocks {
						if in(fb) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for b := range l.body {
		if in(b) {
			return true
		}
	}
	return false
}
