package main

// C29: connecting, losing the port and re-opening it

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C29"] = &property{run: runC29,
		explain: "ConnectWithCustomPortOpener and Connect are interpreted abstractly together with every goroutine they start, for an arbitrary port opener whose Open, and a port whose Read, may fail at any time. Decided on every path: without an opener an error is returned; an error is never returned together with a controller, success never without one, and success only after the connection reported that the port is open; on success goroutines that ask for the node list and that write the configuration are running. The result of a failed Open is always handed to the channel the caller waits on, and is not lost when nobody waits yet (blocking send or buffered channel); success is only reported while the port is open. The connection method ends with the port closed exactly once and marked as not connected; the mark can only be set under the connection's lock after a channel was found open that is closed before the mark is taken back. After a failed read the port is not read again. The loop opens the port again after each attempt, never without waiting on a timer of at least 10 ms in between, and only ends through a channel that is closed exactly when an error is returned. Connect and the serial port opener pass on the port name, the file name and the speed.",
		assume:  []string{"The mark is only used under the lock (property C14).", "Closing and writing to the port come back."}}
}

func runC29(w *World, c *Check) {
	const nilOp, result, started, report, closed, mark, pause, loop, pass = "connecting without a port opener is an error", "an error or a controller, by the outcome of the first attempt", "a successful connect starts discovery and saving", "the outcome of an attempt is reported and not lost", "a lost port is closed once and not read again", "the mark is taken back when the port is lost or cannot be opened", "a pause between attempts", "the port is opened again and again until connecting failed", "the port and file asked for are used"
	cw := newConcWorld(w)
	p := findConn(w)
	custom, plain := w.fn("", "ConnectWithCustomPortOpener"), w.fn("", "Connect")
	connect := w.meth("", "Connection", "Connect")
	opener := w.typ("", "PortOpener")
	save := w.fieldLike("", "Controller", "triggerFileSave", isChanOf(func(t types.Type) bool { st, ok := t.Underlying().(*types.Struct); return ok && st.NumFields() == 0 }))
	openerF := w.fieldLike("", "Connection", "portOpener", func(t types.Type) bool { return types.Identical(t, opener) })
	fileF := w.fieldLike("", "Controller", "filename", func(t types.Type) bool { return types.Identical(t, types.Typ[types.String]) })
	ctl := w.typ("", "Controller")
	if len(w.missing) > 0 {
		return
	}
	isConnLock := func(s *State) bool {
		for _, h := range s.locks {
			if h.mode == 'W' && lockClass(h.mu) == "Connection" {
				return true
			}
		}
		return false
	}
	isErrChan := func(t *Term) bool {
		return t != nil && isErrorT(elemOfChan(t))
	}
	did := map[string]map[string]bool{} // goroutine -> what it does
	type closer struct{ names map[string]bool }
	var ends []closer
	checked := map[string]string{} // channels looked at before the mark is set
	stops := map[string]string{}   // channels that end the loop
	quitNames := map[string]bool{} // channels closed when an error is returned
	opens, trues := 0, 0
	type outcome struct {
		pos     string
		started []string
	}
	var oks []outcome

	e := cw.eng(c)
	e.resolveIface = nil
	e.retCap = 8
	opaque := e.opaque
	e.opaque = func(f *ssa.Function) bool { // what is sent has to be known
		r := f.Signature.Results()
		return opaque(f) && !(r.Len() == 1 && w.prog.MethodSets.MethodSet(r.At(0).Type()).Lookup(nil, "Encode") != nil)
	}
	s := newState()
	args := rootArgs(e, s, custom)
	var po, file *Term
	for i, q := range custom.Params {
		switch {
		case types.Identical(q.Type(), opener):
			po = args[i]
		case types.Identical(q.Type(), types.Typ[types.String]) && i > 0:
			file = args[i]
		}
	}
	if po == nil || file == nil {
		w.missing = append(w.missing, "the parameters of ConnectWithCustomPortOpener")
		return
	}
	names := func(m string) map[string]bool {
		out := map[string]bool{}
		for _, f := range strings.Fields(m) {
			out[f] = true
		}
		return out
	}
	sites := fieldSites{}
	waits := func(s *State, ch *Term) bool { // the timer takes at least 10 ms
		var d *Term
		switch {
		case ch.op == OCall && len(ch.args) > 0:
			d = ch.args[0]
		case s.extra["timer"] != nil && root(ch.args[0]) == root(s.extra["timer"]):
			d = s.extra["timerD"]
		}
		return d != nil && s.facts.entails(toLin(AddC(d, -10000000)))
	}
	hook := func(ev *Event) {
		s := ev.S
		sites.note(ev)
		site := ""
		if ev.Instr != nil && ev.Instr.Parent() != nil {
			site = w.fname(ev.Instr.Parent())
		}
		pos := w.pos(ev.Instr)
		put := func(rule, what string, ok bool, msg string) {
			if e.probe == 0 {
				c.ob(rule, site+what, pos, ok, msg+" | entry "+e.rootName+trailStr(s))
			}
		}
		main := !strings.HasPrefix(e.rootName, "goroutine")
		doing := func(what string) {
			if e.probe == 0 {
				if did[e.rootName] == nil {
					did[e.rootName] = map[string]bool{}
				}
				did[e.rootName][what] = true
			}
		}
		switch ev.Kind {
		case EvInvoke:
			switch n := ev.Method.Name(); {
			case n == "Open" && types.Identical(ev.Recv.typ, opener):
				doing("open")
				put(pause, ": Open", s.mon["tried"] == "" || s.mon["paused"] == "y", "the port may be opened again at once after an attempt")
				put(closed, ": Open", s.mon["port"] != "open" || s.mon["closes"] == "1", "the port is opened again although the last one was not closed")
				s.setMon("tried", "y")
				for _, k := range []string{"paused", "port", "closes", "rd", "told", "dclosed", "fin", "kept"} {
					s.setMon(k, "")
				}
			case isByteIO(ev.Method, "Read") && cw.inRoot(ev.Instr):
				put(closed, ": Read", s.mon["rd"] == "", "the port is read again after reading it has failed")
				put(closed, ": Read open", s.mon["port"] == "open" && s.mon["closes"] == "" && (fromField(ev.Recv, p.port) && s.mon["kept"] == "y" || ev.Recv == s.extra["port"]), "what is read is not the port just opened")
			case n == "Close" && (fromField(ev.Recv, p.port) || s.extra["port"] != nil && ev.Recv == s.extra["port"]) && s.mon["port"] != "":
				if s.mon["closes"] == "" {
					s.setMon("closes", "1")
				} else {
					s.setMon("closes", "2")
				}
			}
		case EvInvoked:
			switch {
			case ev.Method.Name() == "Open" && types.Identical(ev.Recv.typ, opener) && ev.Val != nil && ev.Val.op == OTuple:
				if s.facts.nilness(ev.Val.args[1]) == 1 {
					s.setMon("port", "open")
					s.setExtra("port", ev.Val.args[0])
					s.setExtra("portOpen", Int(1))
					opens++
				} else {
					s.setMon("port", "failed")
					s.setExtra("openErr", ev.Val.args[1])
					s.setExtra("portOpen", nil)
				}
			case isByteIO(ev.Method, "Read") && cw.inRoot(ev.Instr) && ev.Val != nil && ev.Val.op == OTuple:
				if s.facts.nilness(ev.Val.args[1]) != 1 {
					s.setMon("rd", "failed")
				}
			}
		case EvExt:
			switch _, name := extName(ev.Callee); name {
			case "time.NewTimer", "time.NewTicker":
				s.setExtra("timer", ev.Val)
				s.setExtra("timerD", ev.Args[0])
			}
		case EvTryWait:
			all := ev.Block
			for _, ch := range ev.Chans {
				all = all && isTimer(ch) && waits(s, ch)
			}
			if all {
				s.setMon("paused", "y")
			}
			for i, ch := range ev.Chans {
				if ev.Dirs[i] == types.SendOnly && isErrChan(ch) {
					n := s.extra["chancap"+itoa(ch.id)]
					put(report, ": send", ev.Block || n != nil && s.facts.entails(toLin(AddC(n, -1))), "the outcome is dropped if nobody is waiting for it yet")
					s.setMon("told", "y")
				}
				if ev.Dirs[i] == types.RecvOnly && !ev.Block && isConnLock(s) && len(ev.Chans) == 1 {
					s.setMon("chk", chanName(ch))
				}
			}
		case EvSend:
			if !isErrChan(ev.Ptr) {
				return
			}
			switch {
			case s.mon["port"] == "failed":
				put(report, ": value", ev.Val == s.extra["openErr"], "something else than the error of opening the port is reported: "+ev.Val.String())
			default:
				put(report, ": success", s.facts.nilness(ev.Val) == 1 && s.extra["portOpen"] != nil && s.mon["true"] == "y", "success is reported although it is not known that the port is open")
				doing("success")
			}
		case EvRecv:
			switch {
			case isErrChan(ev.Ptr):
				s.setMon("got", "y")
				s.setExtra("got", ev.Val)
			case isTimer(ev.Ptr):
				if waits(s, ev.Ptr) {
					s.setMon("paused", "y")
				}
			default:
				if sites.holds(ev.Ptr, save) {
					doing("save")
				}
				if s.mon["tried"] == "y" && strings.HasPrefix(allocSite(ev.Ptr), "chan") {
					s.setMon("stopped", chanName(ev.Ptr))
				}
				if s.mon["chk"] == chanName(ev.Ptr) {
					s.setMon("chk", "")
				}
			}
		case EvLock, EvUnlock:
			if lockClass(ev.Ptr) == "Connection" {
				s.setMon("chk", "")
			}
		case EvClose:
			if main {
				s.setMon("quit", chanName(ev.Ptr))
				return
			}
			if allocSite(ev.Ptr) == "" {
				return
			}
			have := names(s.mon["dclosed"])
			have[chanName(ev.Ptr)] = true
			s.setMon("dclosed", joinNames(have))
		case EvCall:
			if ev.Callee == nil || ev.Callee.Signature.Recv() == nil || ptrElem(ev.Args[0]) == nil || !types.Identical(ptrElem(ev.Args[0]), p.conn) || len(ev.Args) < 2 || !types.IsInterface(ev.Callee.Signature.Params().At(0).Type()) || e.probe > 0 {
				return
			}
			for _, o := range encodeOf(e, s, ev.Args[1], ev.Instr) {
				if b, ok := literalBytes(e, o, o.ret); ok && len(b) == 1 && b[0] == 2 {
					doing("discover")
				}
			}
		case EvGo:
			if main {
				have := names(s.mon["go"])
				have[strings.ReplaceAll(pos, " ", "_")] = true
				s.setMon("go", joinNames(have))
			}
		case EvStore:
			if ev.Ptr == nil {
				return
			}
			switch f := fieldVar(ev.Ptr); {
			case f == p.connected && !(root(ev.Ptr).op == OAlloc && !e.isEscaped(s, root(ev.Ptr))):
				switch s.facts.evalBool(ev.Val) {
				case 1:
					trues++
					put(mark, ": set", isConnLock(s) && s.mon["chk"] != "" && s.extra["portOpen"] != nil, "the connection may be marked as connected although the port is already lost: the channel that tells so is not looked at under the same lock")
					if e.probe == 0 && s.mon["chk"] != "" {
						checked[s.mon["chk"]] = pos
					}
					s.setMon("true", "y")
				case 2:
					put(mark, ": taken back", isConnLock(s), "the mark is taken back without the lock")
					s.setMon("fin", "f "+s.mon["dclosed"])
				default:
					put(mark, ": unknown", false, "the mark is set to a value that cannot be followed")
				}
				if s.facts.evalBool(ev.Val) != 2 {
					s.setMon("fin", "t")
				}
			case f == p.port && root(ev.Ptr).op != OAlloc || f == p.port && e.isEscaped(s, root(ev.Ptr)):
				put(closed, ": port", s.mon["port"] == "open" && ev.Val == s.extra["port"], "the port of the connection is not the one just opened")
				s.setMon("kept", "y")
			case f == openerF:
				put(pass, ": opener", ev.Val == po, "another port opener is used than the one given")
				s.setMon("opener", "y")
			case f == fileF:
				put(pass, ": file name", ev.Val == file, "another file is used than the one asked for")
				s.setMon("file", "y")
			}
		case EvRet:
			if ev.Callee != connect || e.probe > 0 {
				return
			}
			tail := trailStr(s)
			at := w.fname(connect)
			cp := w.rel(connect.Pos())
			switch s.mon["port"] {
			case "open":
				c.ob(closed, at+": port lost", cp, s.mon["closes"] == "1", "the port that was opened is not closed exactly once when the connection ends"+tail)
				c.ob(mark, at+": port lost", cp, strings.HasPrefix(s.mon["fin"], "f"), "the connection is still marked as connected when the port is lost"+tail)
				ends = append(ends, closer{names(strings.TrimPrefix(s.mon["fin"], "f"))})
			case "failed":
				c.ob(report, at+": open failed", cp, s.mon["told"] == "y", "a failure to open the port is not reported"+tail)
				c.ob(mark, at+": open failed", cp, s.mon["fin"] != "t", "the connection is marked as connected although the port could not be opened"+tail)
			default:
				c.ob(loop, at, cp, false, "an attempt ends without opening the port"+tail)
			}
		case EvRootEnd:
			if e.probe > 0 || main {
				return
			}
			if s.mon["tried"] == "y" {
				x := s.mon["stopped"]
				c.ob(loop, "end of the loop", w.rel(ev.Callee.Pos()), x != "", "the goroutine that re-opens the port may end by itself"+trailStr(s))
				if x != "" {
					stops[x] = w.rel(ev.Callee.Pos())
				}
			}
		}
	}
	e.hooks = append(e.hooks, hook)
	outs := e.run(s, custom, args, nil)
	c.engine(e, "none")
	at, cp := w.fname(custom), w.rel(custom.Pos())
	c.units = append(c.units, at)
	for _, o := range outs {
		tail := trailStr(o)
		if o.ret == nil || o.ret.op != OTuple {
			c.ob(result, at, cp, false, "the results cannot be followed"+tail)
			continue
		}
		ct, er := o.ret.args[0], o.ret.args[1]
		if o.facts.nilness(po) != 2 {
			c.ob(nilOp, at, cp, o.facts.nilness(er) == 2 && o.facts.nilness(ct) == 1, "no error, or a controller, is returned without a port opener"+tail)
			continue
		}
		switch o.facts.nilness(er) {
		case 2:
			c.ob(result, at+": error", cp, o.facts.nilness(ct) == 1, "a controller is returned together with an error"+tail)
			if o.mon["got"] == "y" {
				c.ob(result, at+": which error", cp, er == o.extra["got"], "another error is returned than that of the attempt"+tail)
				c.ob(loop, at+": error", cp, o.mon["quit"] != "", "the port is opened again and again although connecting has failed"+tail)
				quitNames[o.mon["quit"]] = true
			}
		case 1:
			c.ob(result, at+": success", cp, o.mon["got"] == "y" && o.extra["got"] != nil && o.facts.nilness(o.extra["got"]) == 1, "success is returned although the attempt was not waited for or failed"+tail)
			good := o.facts.nilness(ct) == 2 && ptrElem(ct) != nil && types.Identical(ptrElem(ct), ctl)
			c.ob(result, at+": controller", cp, good, "no controller is returned with success"+tail)
			c.ob(loop, at+": success", cp, o.mon["quit"] == "", "the loop that re-opens the port is ended although connecting succeeded"+tail)
			oks = append(oks, outcome{cp, strings.Fields(o.mon["go"])})
			c.ob(pass, at+": file name", cp, o.mon["file"] == "y", "the controller does not get the file name"+tail)
			c.ob(pass, at+": opener", cp, o.mon["opener"] == "y", "the connection does not get the port opener"+tail)
		default:
			c.ob(result, at, cp, false, "it cannot be told whether an error is returned"+tail)
		}
	}
	has := func(started []string, what string) bool {
		for _, g := range started {
			if did["goroutine started at "+g][what] {
				return true
			}
		}
		return false
	}
	for _, o := range oks {
		c.ob(started, at+": discovery", o.pos, has(o.started, "discover"), "no goroutine that asks for the list of nodes is started on a successful connect")
		c.ob(started, at+": saving", o.pos, has(o.started, "save"), "no goroutine that writes the configuration is started on a successful connect")
		c.ob(loop, at+": started", o.pos, has(o.started, "open"), "no goroutine opens the port")
	}
	var ks []string
	for k := range checked {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		ok := len(ends) > 0
		for _, x := range ends {
			ok = ok && x.names[k]
		}
		c.ob(mark, "order: "+checked[k], checked[k], ok, "the channel looked at before the connection is marked as connected is not closed on every path before the mark is taken back, so the mark may stay set")
	}
	for k, at := range stops {
		c.ob(loop, "end of the loop: channel", at, quitNames[k], "the loop that re-opens the port ends through a channel that is not only closed when connecting fails")
	}
	c.ob(mark, "the mark is set", "", trues > 0 && opens > 0, "the connection is never marked as connected")
	n := 0
	for _, d := range did {
		if d["success"] {
			n++
		}
	}
	c.ob(report, "success is reported", "", n > 0, "nobody reports success, so connecting never comes back")
	connectWith(w, c, pass, custom, plain)
	c.need(nilOp, 1)
	c.need(result, 4)
	c.need(started, 2)
	c.need(report, 4)
	c.need(closed, 4)
	c.need(mark, 5)
	c.need(pause, 1)
	c.need(loop, 4)
	c.need(pass, 5)
}

func joinNames(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// connectWith: the plain Connect hands the port, the speed and the file on
func connectWith(w *World, c *Check, pass string, custom, plain *ssa.Function) {
	at, cp := w.fname(plain), w.rel(plain.Pos())
	e := newEng(w)
	e.followGo = false
	s := newState()
	args := rootArgs(e, s, plain)
	c.units = append(c.units, at)
	e.hooks = append(e.hooks, func(ev *Event) {
		if ev.Kind != EvCall || ev.Callee != custom {
			return
		}
		s := ev.S
		s.setMon("called", s.mon["called"]+"y")
		var po *Term
		for i, q := range custom.Params {
			if types.IsInterface(q.Type()) {
				po = ev.Args[i]
			} else if i > 0 && e.probe == 0 {
				c.ob(pass, at+": file name", w.pos(ev.Instr), ev.Args[i] == args[1], "another file name is passed on"+trailStr(s))
			}
		}
		ev.Val = freshVal("connected", custom.Signature.Results())
		if e.probe > 0 {
			return
		}
		d := s.facts.dynType(po)
		if po.op == OIface {
			d = po.args[0].typ
		}
		var open *ssa.Function
		if d != nil {
			if sel := w.prog.MethodSets.MethodSet(d).Lookup(nil, "Open"); sel != nil {
				open = w.prog.MethodValue(sel)
			}
		}
		c.ob(pass, at+": opener", w.pos(ev.Instr), open != nil, "it cannot be told which port opener is used"+trailStr(s))
		if open == nil {
			return
		}
		n := 0
		o := newEng(w)
		o.hooks = append(o.hooks, func(ev *Event) {
			if ev.Kind != EvExt || o.probe > 0 {
				return
			}
			if _, name := extName(ev.Callee); name != "github.com/tarm/serial.OpenPort" {
				return
			}
			s := ev.S
			cfg := ev.Args[0]
			st, ok := ptrElem(cfg).Underlying().(*types.Struct)
			if !ok {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				v := o.load(s, Field(cfg, i, types.NewPointer(st.Field(i).Type())), st.Field(i).Type())
				switch st.Field(i).Name() {
				case "Name":
					n++
					c.ob(pass, w.fname(open)+": name", w.pos(ev.Instr), v == args[0], "another port is opened than the one asked for: "+v.String())
				case "Baud":
					k, ok := s.facts.constOf(v)
					c.ob(pass, w.fname(open)+": speed", w.pos(ev.Instr), ok && k == 115200, "the port is not opened with 115200 baud: "+v.String())
				}
			}
			if ev.Val != nil {
				s.setExtra("opened", ev.Val)
			}
		})
		for _, x := range o.inline(s.clone(), open, []*Term{unwrap(po, d)}, nil, ev.Instr) {
			v := x.extra["opened"]
			good := v != nil && v.op == OTuple && x.ret != nil && x.ret.op == OTuple && sameErr(x, x.ret.args[1], v.args[1])
			if good && x.facts.nilness(v.args[1]) == 1 {
				y := x.ret.args[0]
				for y.op == OIface {
					y = y.args[0]
				}
				good = y == v.args[0]
			}
			c.ob(pass, w.fname(open)+": result", w.rel(open.Pos()), good, "the result of opening the port is not passed on"+trailStr(x))
		}
		c.ob(pass, w.fname(open)+": opens", w.rel(open.Pos()), n > 0, "the serial port is not opened")
	})
	for _, o := range e.run(s, plain, args, nil) {
		c.ob(pass, at+": connects", cp, o.mon["called"] == "y", "Connect does not connect with the serial port opener"+trailStr(o))
	}
	c.engine(e, "none")
}

// elemOfChan: what a channel value carries
func elemOfChan(t *Term) types.Type {
	typ := t.typ
	if typ == nil {
		return types.Typ[types.Invalid]
	}
	if p, ok := typ.Underlying().(*types.Pointer); ok { // a channel made here
		typ = p.Elem()
	}
	if ch, ok := typ.Underlying().(*types.Chan); ok {
		return ch.Elem()
	}
	return types.Typ[types.Invalid]
}
