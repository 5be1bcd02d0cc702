package main

// C10: what is written to the port, by whom, and when

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// connParts are the constructs of the connection the properties are about
type connParts struct {
	conn, pkg                                                         types.Type
	port, inFlight, send, lastCommand, lastResult, connected, reportC *types.Var
	message, retChan, timeout                                         *types.Var
	compile                                                           *ssa.Function
}

func isChanOf(p func(types.Type) bool) func(types.Type) bool {
	return func(t types.Type) bool {
		c, ok := t.Underlying().(*types.Chan)
		return ok && p(c.Elem())
	}
}

func findConn(w *World) *connParts {
	p := &connParts{conn: w.typ("", "Connection"), pkg: w.typ("", "sendPackage")}
	isByte := func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.Uint8 }
	p.port = w.fieldLike("", "Connection", "readWriteCloser", func(t types.Type) bool {
		return types.IsInterface(t) && types.NewMethodSet(t).Lookup(nil, "Write") != nil
	})
	p.inFlight = w.fieldLike("", "Connection", "inFlight", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	p.send = w.fieldLike("", "Connection", "send", isChanOf(func(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }))
	p.lastCommand = w.fieldLike("", "Connection", "lastCommand", func(t types.Type) bool { return types.Identical(t, types.Typ[types.String]) })
	p.lastResult = w.fieldLike("", "Connection", "lastResult", isChanOf(isByte))
	p.connected = w.fieldLike("", "Connection", "Connected", nil)
	p.reportC = w.fieldLike("", "Connection", "reportCallback", func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok })
	p.message = w.fieldLike("", "sendPackage", "message", func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok })
	p.retChan = w.fieldLike("", "sendPackage", "returnChan", func(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok })
	p.timeout = w.fieldLike("", "sendPackage", "timeout", func(t types.Type) bool { return typStr(t) == "time.Duration" })
	p.compile = w.fn("serialapi", "CompileMessage")
	return p
}

// fromField: the value was read from the field of an object
func fromField(t *Term, f *types.Var) bool {
	if t == nil {
		return false
	}
	if t.op == OSlice {
		t = t.args[0]
		if t.op == OCall && t.name == "arr" {
			t = t.args[0]
		}
	}
	return t.op == OLoad && fieldVar(t.args[0]) == f
}

// fieldSites: where the objects stored in fields were allocated
type fieldSites map[*types.Var]map[string]bool

func (fs fieldSites) note(ev *Event) {
	if ev.Kind != EvStore || ev.Ptr == nil || ev.Val == nil {
		return
	}
	if f, n := fieldVar(ev.Ptr), allocSite(ev.Val); f != nil && n != "" {
		if fs[f] == nil {
			fs[f] = map[string]bool{}
		}
		fs[f][n] = true
	}
}

// holds: the value was read from the field, or is an object created for it
func (fs fieldSites) holds(t *Term, f *types.Var) bool {
	return fromField(t, f) || fs[f][allocSite(t)]
}

// isPortWrite: a call of Write([]byte) (int, error) through an interface in the connection code
func isByteIO(m *types.Func, name string) bool {
	sig, ok := m.Type().(*types.Signature)
	return ok && m.Name() == name && sig.Params().Len() == 1 && sig.Results().Len() == 2 && typStr(sig.Params().At(0).Type()) == "[]byte"
}

func (cw *concWorld) inRoot(in ssa.Instruction) bool {
	if in == nil || in.Parent() == nil {
		return false
	}
	f := in.Parent()
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg == cw.w.ssas[""]
}

// literalBytes: the content of the slice, if it is completely known
func literalBytes(e *Eng, s *State, v *Term) ([]int64, bool) {
	if v.op != OSlice {
		return nil, false
	}
	n, ok := s.facts.constOf(v.args[2])
	if !ok || n > 64 {
		return nil, false
	}
	c := e.content(s, v.args[0])
	var out []int64
	for i := int64(0); i < n; i++ {
		x, ok := s.facts.constOf(s.readElem(c, AddC(v.args[1], i)))
		if !ok {
			return nil, false
		}
		out = append(out, x)
	}
	return out, true
}

func init() {
	props["C10"] = &property{run: runC10,
		explain: "All entry points of the library and the goroutines they start are interpreted abstractly. Every Write on the port must carry either exactly the byte 0x06 or, in one call, the whole message of a request, a field that only ever holds the result of the framing function and whose bytes are never changed. Functions that write requests run only in goroutines started under the connection's sync.Once (which is never replaced), or for a connection just built. Between two request writes of the writer it waits for the stick's answer to the first: directly on the result channel or a timer next to it, or on a fresh channel that is only closed or sent to after that. The result channel is unbuffered and only carries the ACK, NAK or CAN byte just decoded.",
		assume:  []string{"The length of the acknowledge time is not judged.", "The exported Writer method is not called directly by users of the library.", "The content of the frames is property C07."}}
}

func runC10(w *World, c *Check) {
	cw := newConcWorld(w)
	p := findConn(w)
	if len(w.missing) > 0 {
		return
	}
	const single, request, wait, source, framed = "only whole frames and single ACKs are written", "requests are written by one writer", "the next request waits for the answer to the previous one", "only decoded answers complete a command", "the message of a request is a finished frame"
	type goSite struct {
		fn     string
		pos    string
		onceOK bool
		entry  string
	}
	var gos []goSite
	reqWriters := map[string]string{} // functions that write requests -> position
	rootWriters := map[string]string{}
	type closer struct {
		answered bool
		at, fn   string
	}
	closers := map[string][]closer{}
	type relied struct{ ch, at, fn string }
	var relies []relied
	sites := fieldSites{}
	isLR := func(t *Term) bool { return sites.holds(t, p.lastResult) }
	var isDone func(s *State) bool = func(s *State) bool { return s.mon["answered"] == "y" }
	runUniverse(w, c, cw, func(e *Eng, ev *Event) {
		s := ev.S
		sites.note(ev)
		switch ev.Kind {
		case EvCall:
			if ev.Callee == p.compile {
				ev.Val = s.notNil(freshVal("frame", ev.Callee.Signature.Results().At(0).Type()))
				return
			}
			if e.probe == 0 && ev.Callee != nil && !w.inRepo(ev.Callee) && cw.inRoot(ev.Instr) {
				for _, a := range ev.Args {
					x := a
					for x.op == OIface {
						x = x.args[0]
					}
					if fromField(x, p.port) {
						_, name := extName(ev.Callee)
						c.ob(single, w.fname(ev.Instr.Parent())+": "+name, w.pos(ev.Instr), false, "the port is handed to "+name+", which may write anything | entry "+e.rootName)
					}
				}
			}
		case EvInvoke:
			if !isByteIO(ev.Method, "Write") || !cw.inRoot(ev.Instr) {
				return
			}
			fn := w.fname(ev.Instr.Parent())
			if b, ok := literalBytes(e, s, ev.Args[0]); ok && len(b) == 1 && b[0] == 6 {
				if e.probe == 0 {
					c.ob(single, fn+": ACK", w.pos(ev.Instr), true, "")
				}
				return
			}
			v := ev.Args[0]
			ok := fromField(v, p.message)
			if ok { // all of it
				m := v.args[0].args[0]
				whole := freshValOf(m)
				ok = v == whole
			} else if v.op == OSlice && strings.HasPrefix(root(v.args[0]).name, "frame#") {
				ok = true
			}
			if e.probe == 0 {
				c.ob(single, fn+": Write", w.pos(ev.Instr), ok, "something other than the whole message of a request or a single ACK is written: "+v.String()+" | entry "+e.rootName+trailStr(s))
				// everybody on the way here writes requests
				for f := s.fr; f != nil; f = f.parent {
					if f.fn != nil {
						reqWriters[w.fname(f.fn)] = w.pos(ev.Instr)
						if f.parent == nil || f.parent.fn == nil {
							if !strings.HasPrefix(e.rootName, "goroutine") {
								rootWriters[w.fname(f.fn)] = w.pos(ev.Instr)
							}
						}
					}
				}
				c.ob(wait, fn+": Write", w.pos(ev.Instr), s.mon["out"] == "", "a request may be written although the previous one was neither answered nor timed out | entry "+e.rootName+trailStr(s))
			}
			s.setMon("out", "y")
		case EvTryWait:
			lr := false
			for _, ch := range ev.Chans {
				lr = lr || isLR(ch)
			}
			if lr && ev.Block {
				s.setExtra("selLR", Int(int64(posID(ev.Instr))))
			} else {
				s.setExtra("selLR", nil)
			}
		case EvRecv:
			x := s.extra["selLR"]
			inSel := x != nil && x.n == int64(posID(ev.Instr))
			switch {
			case isLR(ev.Ptr), inSel && isTimer(ev.Ptr):
				s.setMon("out", "")
				s.setMon("answered", "y")
			case strings.HasPrefix(allocSite(ev.Ptr), "chan") && s.mon["out"] == "y":
				if last := s.extra["abort"]; last == ev.Ptr {
					return // a channel that was already waited for: a closed one lets everybody pass
				}
				if e.probe == 0 {
					relies = append(relies, relied{chanName(ev.Ptr), w.pos(ev.Instr), w.fname(ev.Instr.Parent())})
				}
				s.setExtra("abort", ev.Ptr)
				s.setMon("out", "")
			}
		case EvClose:
			if e.probe == 0 {
				closers[chanName(ev.Ptr)] = append(closers[chanName(ev.Ptr)], closer{isDone(s), w.pos(ev.Instr), w.fname(ev.Instr.Parent())})
			}
		case EvSend:
			if e.probe > 0 {
				return
			}
			closers[chanName(ev.Ptr)] = append(closers[chanName(ev.Ptr)], closer{isDone(s), w.pos(ev.Instr), w.fname(ev.Instr.Parent())})
			if isLR(ev.Ptr) {
				d := s.extra["decodedBuf"]
				ok := s.mon["dec"] == "single" && (s.extra["decodedFirst"] == ev.Val || d != nil && d.op == OSlice && s.readElem(e.content(s, d.args[0]), d.args[1]) == ev.Val)
				c.ob(source, w.fname(ev.Instr.Parent())+": send", w.pos(ev.Instr), ok, "the value "+ev.Val.String()+" sent as result of the last command is not the ACK, NAK or CAN byte just decoded | entry "+e.rootName+trailStr(s))
			}
		case EvGo:
			if e.probe > 0 {
				return
			}
			if ev.Callee == nil {
				return
			}
			once := false
			for _, o := range strings.Fields(s.mon["once"]) {
				if t := termByName(o); t != nil && t.op == OField && typeOfOwner(t) != nil && types.Identical(typeOfOwner(t), p.conn) {
					once = true
				}
			}
			if len(ev.Args) > 0 && root(ev.Args[0]).op == OAlloc && ev.Args[0].op == OAlloc && strings.HasPrefix(e.rootName, ev.Args[0].name) {
				once = true
			}
			gos = append(gos, goSite{w.fname(ev.Callee), w.pos(ev.Instr), once, e.rootName})
		case EvStore:
			if e.probe > 0 || ev.Ptr == nil {
				return
			}
			if f := fieldVar(ev.Ptr); f != nil {
				if f == p.message {
					r := ev.Val
					okv := r.op == OSlice && root(r.args[0]).op == OCall && strings.HasPrefix(root(r.args[0]).args[0].name, "frame#") || r.op == OSlice && strings.HasPrefix(root(r.args[0]).name, "frame#") || r.op == OSlice && mentions(r, func(t *Term) bool { return t.op == OSym && strings.HasPrefix(t.name, "frame#") }, map[*Term]bool{}) && r.args[1] == Int(0)
					c.ob(framed, w.fname(ev.Instr.Parent())+": message", w.pos(ev.Instr), okv, "the message of a request is not the result of the framing function | entry "+e.rootName)
				}
				if isSyncType(f.Type()) && typeOfOwner(ev.Ptr) != nil && types.Identical(typeOfOwner(ev.Ptr), p.conn) && typStr(f.Type()) == "sync.Once" && (root(ev.Ptr).op != OAlloc || e.isEscaped(s, root(ev.Ptr))) {
					c.ob(request, w.fname(ev.Instr.Parent())+": "+f.Name(), w.pos(ev.Instr), false, "the sync.Once that starts the writer is replaced, so another writer can be started | entry "+e.rootName)
				}
				if f == p.lastResult {
					n := s.extra["chancap"+itoa(ev.Val.id)]
					c.ob(source, w.fname(ev.Instr.Parent())+": result channel", w.pos(ev.Instr), n != nil && n == Int(0), "the result channel is buffered: an old answer could complete the next command | entry "+e.rootName)
				}
			}
		case EvMayWrite:
			if e.probe == 0 && ev.Ptr != nil && ev.Ptr.op == OCall && ev.Ptr.name == "arr" && fromField(ev.Ptr.args[0], p.message) {
				c.ob(framed, w.fname(ev.Instr.Parent())+": bytes of the message", w.pos(ev.Instr), false, "the bytes of a finished frame may be changed | entry "+e.rootName)
			}
		}
	})
	for _, g := range gos {
		if at, ok := reqWriters[g.fn]; ok {
			c.ob(request, g.fn+" started", g.pos, g.onceOK, "a goroutine that writes requests (at "+at+") is started outside the connection's sync.Once: re-connecting starts another writer | entry "+g.entry)
		}
	}
	started := map[string]bool{}
	for _, g := range gos {
		started[g.fn] = true
	}
	var rw []string
	for f := range rootWriters {
		rw = append(rw, f)
	}
	sort.Strings(rw)
	for _, f := range rw {
		c.ob(request, f+" writes", rootWriters[f], started[f], f+" writes requests to the port itself, beside the writer goroutine")
	}
	for _, r := range relies {
		cs := closers[r.ch]
		c.ob(wait, r.fn+": wait for the answer", r.at, len(cs) > 0, "nothing ends the wait for the answer")
		for _, x := range cs {
			c.ob(wait, x.fn+": end of the wait", x.at, x.answered, "the writer is released before the stick answered or the acknowledge time ran out (waited for at "+r.at+")")
		}
	}
	checkSingles(w, c)
	c.need(single, 2)
	c.need(wait, 1)
	c.need(framed, 1)
	c.need(request, 1)
	c.need(source, 2)
	_ = fmt.Sprint
}

func chanName(t *Term) string {
	if n := allocSite(t); n != "" {
		return n
	}
	return t.String()
}

func termByName(id string) *Term {
	n := 0
	for _, ch := range id {
		n = n*10 + int(ch-'0')
	}
	return termByID[n]
}

// typeOfOwner: the struct type the field address is in
func typeOfOwner(loc *Term) types.Type {
	if loc.op != OField {
		return nil
	}
	return ptrElem(loc.args[0])
}

func freshValOf(load *Term) *Term {
	if load.op == OCall && load.name == "arr" {
		load = load.args[0]
	}
	return expand(load, load.typ)
}

// checkSingles: the decoder consumes a single byte with a message only for ACK, NAK and CAN
func checkSingles(w *World, c *Check) {
	for _, k := range decoderCases(w, c, false) {
		if k.l == "n" && k.n == 1 && k.msg {
			c.ob("only decoded answers complete a command", "serialapi.Decode: one byte", "", k.single, "the decoder also consumes single bytes that are not ACK, NAK or CAN")
		}
	}
}
