package main

// C17: changes of a node's state are announced

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C17"] = &property{run: runC17,
		explain: "The function that applies a report to a node is interpreted abstractly with an arbitrary node and report; per path the state entries it sets (key and value, recognised as fields of the report) and the announcements in between are recorded. For every report type with documented state the entries announced last must be exactly the documented ones with the reported values, nothing may be set after the last announcement, and an alarm must be announced raised and then cleared; every announcement must carry the node's own id. Every function installed as event sink is interpreted: it never waits, and for an update it starts a goroutine (or sends to a channel) that ends only after triggering the save. Whoever receives the trigger waits for further triggers next to a timer and then saves unless no file is configured, and never stops. A report handed to the controller is applied to the node stored under its node id.",
		assume:  []string{"The user may read events or not; timers fire.", "The pause between the raised and the cleared alarm and the length of the save delay are not judged."}}
}

// strParts splits the value into its concatenated pieces; pieces below ToLower are marked
func strParts(t *Term, low bool) ([]string, bool) {
	switch {
	case t.op == OConst:
		s := constStr(t)
		if low {
			s = strings.ToLower(s)
		}
		return []string{"'" + s}, true
	case t.op == OBin && t.name == "+" && len(t.args) == 2, t.op == OCall && t.name == "+" && len(t.args) == 2:
		a, ok1 := strParts(t.args[0], low)
		b, ok2 := strParts(t.args[1], low)
		return append(a, b...), ok1 && ok2
	case t.op == OCall && t.name == "strings.ToLower" && len(t.args) == 1:
		return strParts(t.args[0], true)
	case t.op == OCall && t.name == "fmt.Sprintf" && len(t.args) == 2 && t.args[0].op == OConst && t.args[1].op == OArr:
		var out, l = []string(nil), []*Term(nil)
		for _, g := range t.args[1].args {
			if g.op != OSegLit {
				return nil, false
			}
			l = append(l, g.args[0])
		}
		f := constStr(t.args[0])
		for f != "" {
			i := strings.IndexByte(f, '%')
			if i < 0 {
				i = len(f)
			}
			if i > 0 {
				c := f[:i]
				if low {
					c = strings.ToLower(c)
				}
				out = append(out, "'"+c)
			}
			if i == len(f) {
				break
			}
			if i+1 >= len(f) || f[i+1] != 's' && f[i+1] != 'v' || len(l) == 0 || l[0].op != OIface {
				return nil, false
			}
			p, ok := strParts(l[0].args[0], low)
			if !ok {
				return nil, false
			}
			out = append(out, p...)
			l = l[1:]
			f = f[i+2:]
		}
		return out, len(l) == 0
	case t.op == OLoad:
		if f := fieldVar(t.args[0]); f != nil {
			if low {
				return []string{"lower " + f.Name()}, true
			}
			return []string{f.Name()}, true
		}
	}
	return nil, false
}

func joinParts(l []string) string {
	var out []string
	for _, p := range l {
		if n := len(out); n > 0 && strings.HasPrefix(p, "'") && strings.HasPrefix(out[n-1], "'") {
			out[n-1] += p[1:]
		} else {
			out = append(out, p)
		}
	}
	return strings.Join(out, "+")
}

func runC17(w *World, c *Check) {
	const state, told, sinkR, save, route = "reports set the documented state and announce it", "an announcement carries the node's own id", "announcing never waits", "an announced update leads to a save", "reports reach their node"
	cw := newConcWorld(w)
	node := w.typ("nodes", "Node")
	boolF, floatF := w.field("nodes", "Node", "StateBool"), w.field("nodes", "Node", "StateFloat")
	idF := w.field("nodes", "Node", "Id")
	pushF := w.fieldLike("nodes", "Node", "pushEventFunc", func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok })
	queF := w.fieldLike("", "Controller", "eventQue", isChanOf(func(t types.Type) bool { return types.IsInterface(t) }))
	trigF := w.fieldLike("", "Controller", "triggerFileSave", isChanOf(func(t types.Type) bool { st, ok := t.Underlying().(*types.Struct); return ok && st.NumFields() == 0 }))
	fileF := w.fieldLike("", "Controller", "filename", func(t types.Type) bool { return types.Identical(t, types.Typ[types.String]) })
	listF := w.field("", "Controller", "Nodes")
	nodesF := w.fieldLike("nodes", "List", "nodes", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	apply := w.meth("nodes", "Node", "ProcessEvent")
	deliver := w.meth("", "Controller", "DeliverReportToNode")
	saveFn := w.meth("", "Controller", "SaveConfigurationToFile")
	rep := func(n string) types.Type { return w.typ("commands/reports", n) }
	type spec struct {
		typ  types.Type
		name string
		want string
	}
	var specs []spec
	for _, x := range [][2]string{{"SwitchBinaryV1", "B on=CurrentValue"}, {"SwitchBinaryV2", "B on=CurrentValue"},
		{"SwitchMultilevelV1", "B on=CurrentValue>0;F level=CurrentValue"}, {"SwitchMultilevelV4", "B on=CurrentValue>0;F level=CurrentValue"},
		{"SensorMultiLevel", "F lower TypeString+'_+lower Unit=Value"}, {"Alarm", ""}} {
		specs = append(specs, spec{rep(x[0]), x[0], x[1]})
	}
	if len(w.missing) > 0 {
		return
	}

	// applying a report
	e := newEng(w)
	s := newState()
	args := rootArgs(e, s, apply)
	self, report := args[0], args[1]
	typeName := func(s *State) string {
		t := s.facts.dynType(report)
		if t == nil {
			return ""
		}
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
		return typStr(t)
	}
	ofReport := func(t *Term) string {
		if t.op == OFConv {
			t = t.args[0]
		}
		if t.op == OLoad && mentions(t, func(x *Term) bool { return x == report }, map[*Term]bool{}) {
			if f := fieldVar(t.args[0]); f != nil {
				return f.Name()
			}
		}
		return ""
	}
	value := func(s *State, v *Term, isBool bool) string {
		if n := ofReport(v); n != "" {
			return n
		}
		if t := s.facts.dynType(report); isBool && t != nil {
			// the same as the value of the report on this path?
			st, ok := isStructPtr(t)
			for i := 0; ok && i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Name() != "CurrentValue" {
					continue
				}
				x := e.load(s, Field(unwrap(report, t), i, types.NewPointer(f.Type())), f.Type())
				name := f.Name()
				on := func(s *State) int { return s.facts.evalBool(x) }
				if isFloat(f.Type()) {
					name += ">0"
					on = func(s *State) int {
						r := s.facts.frange(x)
						if r.lo > 0 || r.lo == 0 && r.loS {
							return 1
						}
						if r.hi <= 0 {
							return 2
						}
						return 0
					}
				}
				yes, no := s.clone(), s.clone()
				if (!yes.facts.assume(v, true) || on(yes) == 1) && (!no.facts.assume(v, false) || on(no) == 2) {
					return name
				}
			}
		}
		if isBool {
			switch s.facts.evalBool(v) {
			case 1:
				return "true"
			case 2:
				return "false"
			}
			return v.String()
		}
		if r := s.facts.frange(v); r.lo == r.hi && r.lo == 0 {
			return "0"
		}
		return v.String()
	}
	log := func(s *State, x string) { s.setMon("log", s.mon["log"]+x+"\n") }
	alarmT := func(s *State) string {
		t := s.extra["alarmType"]
		if t == nil {
			return "?"
		}
		if v, ok := s.facts.constOf(t); ok && v == 0 {
			return "0"
		}
		if s.facts.entails(toLin(AddC(t, -1))) {
			return "1"
		}
		return "?"
	}
	e.hooks = append(e.hooks, func(ev *Event) {
		s := ev.S
		switch ev.Kind {
		case EvLoad:
			if f := fieldVar(ev.Ptr); f != nil && f.Name() == "Type" && typeName(s) == "Alarm" && ev.Val != nil {
				s.setExtra("alarmType", ev.Val)
			}
		case EvMapSet:
			x, ok := ev.Instr.(*ssa.MapUpdate)
			if !ok {
				return
			}
			for kind, f := range map[string]*types.Var{"B": boolF, "F": floatF} {
				o := mapOwner(x.Map, f, 0)
				if o == nil || e.val(s, o) != self {
					if !fromField(ev.Ptr, f) || ev.Ptr.args[0].args[0] != self {
						continue
					}
				}
				p, ok := strParts(ev.Args[0], false)
				k := joinParts(p)
				if !ok {
					k = ev.Args[0].String()
				}
				k = strings.TrimPrefix(k, "'")
				log(s, kind+" "+k+"="+value(s, ev.Val, kind == "B"))
			}
		case EvMapDel:
			if fromField(ev.Ptr, boolF) || fromField(ev.Ptr, floatF) {
				log(s, "D "+ev.Args[0].String())
			}
		case EvDyn:
			if !fromField(ev.Ptr, pushF) || ev.Ptr.args[0].args[0] != self || len(ev.Args) != 1 {
				return
			}
			v := ev.Args[0]
			if v.op != OIface || typStr(v.typ) != "events.NodeUpdated" {
				return
			}
			id := e.load(s, Field(self, fieldIndex(node, idF), types.NewPointer(idF.Type())), idF.Type())
			ok := len(v.args[0].args) > 0 && s.facts.equalInt(v.args[0].args[0], id)
			if e.probe == 0 {
				c.ob(told, w.fname(ev.Instr.Parent()), w.pos(ev.Instr), ok, "an announcement carries "+v.String()+" instead of the node's id"+trailStr(s))
			}
			log(s, "! "+alarmT(s))
		}
	})
	outs := e.run(s, apply, args, nil)
	c.engine(e, "none")
	c.units = append(c.units, w.fname(apply))
	seen := map[string]bool{}
	for _, o := range outs {
		name := typeName(o)
		if name == "" {
			for _, sp := range specs {
				c.ob(state, sp.name+": handled", w.rel(apply.Pos()), o.facts.notDyn(report, types.NewPointer(sp.typ)) || o.facts.nilness(report) == 1, "a report of type "+sp.name+" may be ignored"+trailStr(o))
			}
			c.ob(state, "other reports", w.rel(apply.Pos()), o.mon["log"] == "", "an undocumented report changes the state: "+o.mon["log"]+trailStr(o))
			continue
		}
		cur := map[string]string{}
		var snaps []map[string]string
		kind := "?"
		dirty := ""
		for _, l := range strings.Split(o.mon["log"], "\n") {
			if strings.HasPrefix(l, "!") {
				m := map[string]string{}
				for k, v := range cur {
					m[k] = v
				}
				snaps = append(snaps, m)
				if len(snaps) == 1 {
					kind = l[2:]
				}
				dirty = ""
			} else if l != "" {
				k, v, _ := strings.Cut(l, "=")
				cur[k] = v
				dirty = l
			}
		}
		show := func(m map[string]string) string {
			var l []string
			for k, v := range m {
				l = append(l, k+"="+v)
			}
			sort.Strings(l)
			return strings.Join(l, ";")
		}
		c.ob(state, name+": announced", w.rel(apply.Pos()), dirty == "", "the state is changed ("+dirty+") without an announcement after it"+trailStr(o))
		known := false
		for _, sp := range specs {
			if sp.name != name {
				continue
			}
			known = true
			seen[name] = true
			last := "nothing"
			if len(snaps) > 0 {
				last = show(snaps[len(snaps)-1])
			}
			if name != "Alarm" {
				c.ob(state, name, w.rel(apply.Pos()), last == sp.want, "announced: "+last+", expected: "+sp.want+trailStr(o))
				continue
			}
			d := unwrap(report, types.NewPointer(sp.typ))
			st, _ := isStructPtr(sp.typ)
			var status *Term
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "Status" {
					status = e.load(o, Field(d, i, types.NewPointer(st.Field(i).Type())), st.Field(i).Type())
				}
			}
			if len(snaps) == 0 {
				ok := status != nil && !o.clone().facts.addEq(toLin(AddC(status, -255)))
				c.ob(state, "Alarm: raised", w.rel(apply.Pos()), ok, "a raised alarm may be ignored"+trailStr(o))
				continue
			}
			raised, cleared := "B alarm=true", "B alarm=false;F alarm=0"
			if kind != "0" {
				raised = "B alarm=true;F alarm=Type;F alarmLastType=Type"
				cleared += ";F alarmLastType=Type"
			}
			c.ob(state, "Alarm: raised", w.rel(apply.Pos()), show(snaps[0]) == raised, "announced for an alarm: "+show(snaps[0])+", expected: "+raised+trailStr(o))
			c.ob(state, "Alarm: cleared", w.rel(apply.Pos()), len(snaps) > 1 && last == cleared, "announced at the end of an alarm: "+last+", expected: "+cleared+trailStr(o))
		}
		if !known {
			c.ob(state, "other reports", w.rel(apply.Pos()), o.mon["log"] == "", "a report of type "+name+" changes the state: "+o.mon["log"]+trailStr(o))
		}
	}
	for _, sp := range specs {
		c.ob(state, sp.name+": applied", w.rel(apply.Pos()), seen[sp.name], "reports of type "+sp.name+" are not applied")
	}

	// sinks and the save
	sites := fieldSites{}
	sinks := map[*ssa.Function]*Term{}
	runUniverse(w, c, cw, func(e *Eng, ev *Event) {
		s := ev.S
		sites.note(ev)
		at, pos := "", ""
		if ev.Instr != nil && ev.Instr.Parent() != nil {
			at, pos = w.fname(ev.Instr.Parent()), w.pos(ev.Instr)
		}
		via := " | entry " + e.rootName
		switch ev.Kind {
		case EvStore:
			if fieldVar(ev.Ptr) == pushF && ev.Val != nil && ev.Val.op == OFunc && ev.Val.fn != nil && touches(ev.Val.fn, queF) {
				sinks[ev.Val.fn] = ev.Val
			}
		case EvDyn:
			if e.probe == 0 && fromField(ev.Ptr, pushF) && len(ev.Args) == 1 {
				n, v := ev.Ptr.args[0].args[0], ev.Args[0]
				if v.op == OIface && typStr(v.typ) == "events.NodeUpdated" && len(v.args[0].args) > 0 {
					id := e.load(s, Field(n, fieldIndex(node, idF), types.NewPointer(idF.Type())), idF.Type())
					c.ob(told, at, pos, s.facts.equalInt(v.args[0].args[0], id), "an announcement carries "+v.String()+" instead of the node's id"+via+trailStr(s))
				}
			}
		case EvTryWait:
			if e.probe > 0 {
				return
			}
			trig, timer := false, false
			for i, ch := range ev.Chans {
				if sites.holds(ch, queF) && ev.Dirs[i] == types.SendOnly {
					c.ob(sinkR, at+": event", pos, !ev.Block, "sending an event waits for a reader"+via+trailStr(s))
				}
				trig = trig || sites.holds(ch, trigF) && ev.Dirs[i] == types.RecvOnly
				timer = timer || isTimer(ch) && ev.Dirs[i] == types.RecvOnly
			}
			if s.mon["trig"] == "y" {
				c.ob(save, at+": waits", pos, timer, "after an update was announced something else is waited for, without a time limit: the configuration may never be saved"+via+trailStr(s))
			}
			if s.mon["trig"] == "due" {
				fl := s.extra["file"]
				none := fl != nil && s.facts.evalEq(fl, Str("")) == 1
				c.ob(save, at+": saves", pos, none, "the time to save has come, but the configuration is not saved"+via+trailStr(s))
			}
			_ = trig
		case EvLoad:
			if fieldVar(ev.Ptr) == fileF {
				s.setExtra("file", ev.Val)
			}
		case EvRecv:
			switch {
			case sites.holds(ev.Ptr, trigF) && ev.Mode == 'c':
				s.setMon("trig", "")
				s.setMon("listens", "closed")
			case sites.holds(ev.Ptr, trigF):
				s.setMon("trig", "y")
				s.setMon("listens", "y")
			case isTimer(ev.Ptr) && s.mon["trig"] == "y":
				s.setMon("trig", "due")
			}
		case EvClose:
			if e.probe == 0 && sites.holds(ev.Ptr, trigF) {
				c.ob(save, at+": close", pos, false, "the channel that triggers the save is closed"+via+trailStr(s))
			}
		case EvCall:
			if ev.Callee == saveFn && s.mon["trig"] != "" {
				s.setMon("trig", "saved")
			}
		case EvRootEnd:
			if s.mon["listens"] == "y" && e.probe == 0 {
				c.ob(save, e.rootName+": goes on", w.rel(ev.Callee.Pos()), false, "whoever waits for updates to save stops: later updates are not saved"+trailStr(s))
			}
		}
		if s.mon["trig"] == "saved" && ev.Kind == EvTryWait {
			s.setMon("trig", "")
		}
	})
	var fns []*ssa.Function
	for f := range sinks {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		e := newEng(w)
		e.followGo = false
		s := newState()
		args := rootArgs(e, s, f)
		var binds []*Term
		for _, fv := range f.FreeVars {
			b := expand(Sym("free."+fv.Name(), fv.Type()), fv.Type())
			binds = append(binds, b)
			s.notNil(b)
		}
		upd := w.typ("events", "NodeUpdated")
		depth := 0
		e.hooks = append(e.hooks, func(ev *Event) {
			s := ev.S
			switch ev.Kind {
			case EvTryWait:
				if depth == 0 && e.probe == 0 {
					c.ob(sinkR, w.fname(ev.Instr.Parent())+": "+waitName(e, ev), w.pos(ev.Instr), !ev.Block, "the announcer waits"+trailStr(s))
				}
			case EvCall:
				if depth == 0 && e.probe == 0 && ev.Callee != nil && !w.inRepo(ev.Callee) {
					_, name := extName(ev.Callee)
					c.ob(sinkR, w.fname(ev.Instr.Parent())+": "+name, w.pos(ev.Instr), name != "time.Sleep" && !unboundedExt(name), "the announcer waits in "+name+trailStr(s))
				}
			case EvSend:
				if fromField(ev.Ptr, trigF) {
					s.setMon("triggered", "y")
				}
			case EvGo:
				if ev.Callee == nil || !w.inRepo(ev.Callee) || len(ev.Callee.Blocks) == 0 || ev.Ptr.op != OFunc || !touches(ev.Callee, trigF) {
					return
				}
				was := s.mon["triggered"]
				got := "y"
				depth++
				for _, o := range e.inline(s.clone(), ev.Callee, ev.Args, ev.Ptr.args, ev.Instr) {
					if o.mon["triggered"] != "y" && mayBe(o, args[0], upd) {
						got = was
					}
				}
				depth--
				s.setMon("triggered", got)
			}
		})
		outs := e.run(s, f, args, binds)
		c.engine(e, "none")
		c.units = append(c.units, w.fname(f))
		for _, o := range outs {
			c.ob(save, f.Name()+": triggers", w.rel(f.Pos()), o.mon["triggered"] == "y" || !mayBe(o, args[0], upd), "an announced update may not trigger a save"+trailStr(o))
		}
	}

	// delivery
	e = newEng(w)
	s = newState()
	args = rootArgs(e, s, deliver)
	e.hooks = append(e.hooks, func(ev *Event) {
		s := ev.S
		switch ev.Kind {
		case EvMapGot:
			if x, ok := ev.Instr.(*ssa.Lookup); ok {
				if o := mapOwner(x.X, nodesF, 0); o != nil && fromField(e.val(s, o), listF) {
					s.setExtra("key", ev.Args[0])
					s.setExtra("node", ev.Val)
					s.setMon("looked", "y")
				}
			}
		case EvCall, EvGo:
			if ev.Callee == apply {
				k := s.extra["key"]
				if e.probe == 0 {
					c.ob(route, w.fname(ev.Instr.Parent()), w.pos(ev.Instr), k != nil && s.facts.equalInt(k, args[1]) && ev.Args[0] == s.extra["node"] && ev.Args[1] == args[2], "a report is not applied, as it is, to the node with the id it came from"+trailStr(s))
				}
				s.setMon("applied", s.mon["applied"]+"y")
				if ev.Kind == EvCall {
					ev.Alts = append(ev.Alts, s)
				}
			}
		}
	})
	e.followGo = false
	for _, o := range e.run(s, deliver, args, nil) {
		n := o.extra["node"]
		ok := o.mon["applied"] == "y" || o.mon["applied"] == "" && n != nil && o.facts.nilness(n) == 1 && o.extra["key"] != nil && o.facts.equalInt(o.extra["key"], args[1])
		c.ob(route, w.fname(deliver)+": applied", w.rel(deliver.Pos()), ok, "a report for a known node may not be applied, or more than once"+trailStr(o))
	}
	c.engine(e, "none")
	c.units = append(c.units, w.fname(deliver))
	c.need(state, 12)
	c.need(told, 6)
	c.need(sinkR, 2)
	c.need(save, 4)
	c.need(route, 2)
}

// mayBe: the value may be of the type
func mayBe(s *State, v *Term, t types.Type) bool {
	if v.op == OIface {
		return types.Identical(v.typ, t)
	}
	if d := s.facts.dynType(v); d != nil {
		return types.Identical(d, t)
	}
	return !s.facts.notDyn(v, t) && s.facts.nilness(v) != 1
}
