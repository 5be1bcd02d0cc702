package main

// C12 and C13: the reader loop and the matching of answers to requests

import (
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- three-valued comparison of a path with a formula ----

type unknownAtom struct{ name string }

// atomSet gives the meaning of the atoms of a formula: split returns the facts with the atom true or false (nil: impossible)
type atomSet map[string]func(f *Facts, truth bool) *Facts

func linAtom(l *Lin, eq bool) func(f *Facts, truth bool) *Facts {
	return func(f *Facts, truth bool) *Facts {
		g := f.clone()
		ok := false
		switch {
		case eq && truth:
			ok = g.addEq(l)
		case eq:
			ok = g.addNe(l)
		case truth:
			ok = g.addGe(l)
		default:
			n := l.neg()
			ok = g.addGe(n.addc(-1))
		}
		if !ok {
			return nil
		}
		return g
	}
}

// cases enumerates the truth values of the formula that are possible on the path; each call of visit is one case
func cases(f *Facts, atoms atomSet, formula func(ask func(string) bool) bool, visit func(f *Facts, asg map[string]bool, v bool)) {
	asg := map[string]bool{}
	var rec func(f *Facts)
	rec = func(f *Facts) {
		var miss string
		v := func() (v bool) {
			defer func() {
				if r := recover(); r != nil {
					u, ok := r.(unknownAtom)
					if !ok {
						panic(r)
					}
					miss = u.name
				}
			}()
			return formula(func(n string) bool {
				b, ok := asg[n]
				if !ok {
					panic(unknownAtom{n})
				}
				return b
			})
		}()
		if miss == "" {
			visit(f, asg, v)
			return
		}
		for _, t := range []bool{true, false} {
			if g := atoms[miss](f, t); g != nil {
				asg[miss] = t
				rec(g)
				delete(asg, miss)
			}
		}
	}
	rec(f)
}

func asgStr(asg map[string]bool) string {
	var l []string
	for k, v := range asg {
		if v {
			l = append(l, k)
		} else {
			l = append(l, "not "+k)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func init() {
	props["C12"] = &property{run: runC12,
		explain: "Every path of the matching function is interpreted abstractly for an arbitrary request and an arbitrary frame; the answer of each path is compared, in every case of the documented conditions that the path leaves open, with the documented formula. The constructor of a request is compared with the bytes it must be taken from. In the reader every entry of the outstanding requests is offered exactly the decoded frame without its checksum, and answers are only sent to the request that has just matched.",
		assume:  []string{"A request field of zero stands for 'not specified'.", "Requests are compared with the bytes of the frame, whose layout is property C03."}}
	props["C13"] = &property{run: runC13,
		explain: "The reader loop is interpreted abstractly with the decoder replaced by the answers it can give (derived from its code). Ghost state holds what must be decoded next: the decoded slice minus exactly what that answer consumes. The next decoded slice must be that rest, or that rest (or nothing, when the read came later than the age limit) followed by exactly the bytes of one read. ACK writes and report deliveries are counted per answer.",
		assume:  []string{"What the decoder consumes and when it answers 'need more bytes' is property C03.", "The clock is not judged, only which comparison guards the discarding of old bytes."}}
}

// isMatcher: takes a frame and tells yes or no
func isMatcher(s *types.Signature) bool {
	return s.Params().Len() == 1 && isBytes(s.Params().At(0).Type()) && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), types.Typ[types.Bool])
}

// requestField finds a field of a request by name or, failing that, by the byte its constructor takes it from
func (w *World) requestField(name string, sp types.Type, ctor *ssa.Function) *types.Var {
	if sp == nil || ctor == nil {
		return nil
	}
	st := sp.Underlying().(*types.Struct)
	from := map[string]int64{"function": 0, "node": 1, "commandclass": 3}
	var cand []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == name {
			return f
		}
		if b, ok := f.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			continue
		}
		for _, x := range w.stores[f] {
			k, byIndex := from[name]
			hit := false
			if u, ok := x.Val.(*ssa.UnOp); ok && byIndex && x.Parent() == ctor {
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					if c, ok := ia.Index.(*ssa.Const); ok && c.Int64() == k {
						hit = true
					}
				}
			}
			if pr, ok := x.Val.(*ssa.Parameter); ok && !byIndex && x.Parent() != ctor && pr.Parent().Signature.Recv() != nil {
				hit = true // the report the caller waits for
			}
			if hit && (len(cand) == 0 || cand[len(cand)-1] != f) {
				cand = append(cand, f)
			}
		}
	}
	if len(cand) == 1 {
		return cand[0]
	}
	return nil
}

func runC12(w *World, c *Check) {
	const formula, request, offer, deliver, kept = "a frame matches exactly the requests it answers", "the request is described by its own bytes", "every outstanding request is offered the frame", "an answer goes only to a request that matches", "what describes a request does not change"
	match := w.methLike("", "sendPackage", "Match", isMatcher)
	ctor := w.fn("", "newSendPackage")
	sp := w.typ("", "sendPackage")
	fld := func(n string) (*types.Var, int) {
		v := w.requestField(n, sp, ctor)
		if v == nil {
			w.missing = append(w.missing, "sendPackage."+n)
			return nil, 0
		}
		return v, fieldIndex(sp, v)
	}
	fFn, iFn := fld("function")
	fNode, iNode := fld("node")
	fCC, iCC := fld("commandclass")
	fER, iER := fld("expectedReport")
	p := findConn(w)
	if match == nil || ctor == nil || len(w.missing) > 0 {
		return
	}
	// 1. the formula
	e := bigEng(w)
	s := newState()
	args := rootArgs(e, s, match)
	pl := payloadOf(args[1])
	get := func(f *types.Var, i int) *Term {
		return e.load(s, Field(args[0], i, types.NewPointer(f.Type())), f.Type())
	}
	fn, node, cc, er := get(fFn, iFn), get(fNode, iNode), get(fCC, iCC), get(fER, iER)
	atoms := atomSet{}
	isZero := func(n string, t *Term) { atoms[n] = linAtom(toLin(t), true) }
	isZero("no function", fn)
	isZero("no node", node)
	isZero("no class", cc)
	isZero("no report", er)
	atoms["function is send-data"] = linAtom(toLin(AddC(fn, -0x13)), true)
	atoms["function is protocol-info"] = linAtom(toLin(AddC(fn, -0x41)), true)
	for _, k := range []int64{3, 5, 7, 8} {
		atoms["frame has byte "+itoa(int(k))] = linAtom(toLin(AddC(pl.len, -k-1)), false)
	}
	atoms["byte 3 is the function"] = linAtom(toLin(Sub(pl.b(3), fn)), true)
	atoms["byte 3 is application-command"] = linAtom(toLin(AddC(pl.b(3), -4)), true)
	atoms["byte 5 is the node"] = linAtom(toLin(Sub(pl.b(5), node)), true)
	atoms["byte 7 is the class"] = linAtom(toLin(Sub(pl.b(7), cc)), true)
	atoms["byte 8 is the report"] = linAtom(toLin(Sub(pl.b(8), er)), true)
	spec := func(ask func(string) bool) bool {
		at := func(none string, k int, eq string) bool {
			return ask(none) || ask("frame has byte "+itoa(k)) && ask(eq)
		}
		if !at("no function", 3, "byte 3 is the function") &&
			!(ask("function is send-data") && ask("frame has byte 3") && ask("byte 3 is application-command")) {
			return false
		}
		if ask("function is protocol-info") {
			return true
		}
		return at("no node", 5, "byte 5 is the node") && at("no class", 7, "byte 7 is the class") && at("no report", 8, "byte 8 is the report")
	}
	nTrue, nFalse := 0, 0
	for _, o := range e.run(s, match, args, nil) {
		for _, want := range []bool{true, false} {
			f := o.facts.clone()
			if !f.assume(o.ret, want) {
				continue
			}
			cases(f, atoms, spec, func(_ *Facts, asg map[string]bool, v bool) {
				if v {
					nTrue++
				} else {
					nFalse++
				}
				c.ob(formula, w.fname(match), w.pos(match.Blocks[0].Instrs[0]), v == want, "the answer may be "+map[bool]string{true: "match", false: "no match"}[want]+" when "+asgStr(asg)+trailStr(o))
			})
		}
	}
	c.engine(e, "none")
	c.ob(formula, "both answers", "", nTrue > 2 && nFalse > 2, "the matching function does not give both answers")
	// 2. how a request is described
	e = bigEng(w)
	s = newState()
	args = rootArgs(e, s, ctor)
	data := payloadOf(bytesArg(args, ctor))
	n := 0
	for _, o := range e.run(s, ctor, args, nil) {
		r := o.ret
		if r == nil || o.facts.nilness(r) == 1 {
			c.bad(request, w.fname(ctor), "", "the constructor may return no request"+trailStr(o))
			continue
		}
		field := func(f *types.Var, i int) *Term {
			return e.load(o, Field(r, i, types.NewPointer(f.Type())), f.Type())
		}
		chk := func(name string, f *types.Var, i int, at, min, sure int64) {
			v := field(f, i)
			has := linAtom(toLin(AddC(data.len, -min)), false)
			full := linAtom(toLin(AddC(data.len, -sure)), false)
			short := true
			if g := full(o.facts, true); g != nil {
				n++
				c.ob(request, "the "+name, w.fname(ctor), g.entailsEq(toLin(Sub(v, data.b(at)))), "the "+name+" of a request is "+v.String()+", not byte "+itoa(int(at))+" of what is sent"+trailStr(o))
				short = false
			}
			if g := has(o.facts, false); g != nil {
				c.ob(request, "the "+name, w.fname(ctor), g.entailsEq(toLin(v)), "the "+name+" of a request without such a byte is "+v.String()+trailStr(o))
				short = false
			}
			if short { // the optional byte may or may not be used
				c.ob(request, "the "+name, w.fname(ctor), o.facts.entailsEq(toLin(v)) || o.facts.entailsEq(toLin(Sub(v, data.b(at)))), "the "+name+" of a request is "+v.String()+trailStr(o))
			}
		}
		chk("function", fFn, iFn, 0, 1, 1)
		chk("node", fNode, iNode, 1, 2, 2)
		chk("command class", fCC, iCC, 3, 4, 5)
		c.ob(request, "the expected report", w.fname(ctor), o.facts.entailsEq(toLin(field(fER, iER))), "a new request already expects a report"+trailStr(o))
	}
	c.engine(e, "none")
	c.ob(request, "long requests", "", n >= 3, "the constructor was not analysed for requests with all bytes")
	// 3. fields are not changed later, except that the sender sets the report it waits for
	desc := map[*types.Var]string{fFn: "function", fNode: "node", fCC: "command class", fER: "expected report"}
	cw := newConcWorld(w)
	sends := 0
	for _, root := range cw.roots() {
		if root.Pkg != w.ssas[""] {
			continue
		}
		re := cw.eng(c)
		re.followGo = false
		rs := newState()
		ra := rootArgs(re, rs, root)
		var erArg *Term
		if root.Signature.Results().Len() == 2 {
			if pr := root.Signature.Params(); pr.Len() == 3 {
				if b, ok := pr.At(2).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					erArg = ra[len(ra)-1]
				}
			}
		}
		if !mayCall(root, ctor) && !touches(root, p.inFlight) {
			continue
		}
		re.hooks = append(re.hooks, func(ev *Event) {
			if re.probe > 0 {
				return
			}
			switch ev.Kind {
			case EvStore:
				f := fieldVar(ev.Ptr)
				if n := desc[f]; n != "" && f != fER {
					own := ev.Instr.Parent() == ctor || root0(ev.Ptr)
					c.ob(kept, w.fname(ev.Instr.Parent())+": "+n, w.pos(ev.Instr), own, "the "+n+" of a request is changed after it was taken from the bytes to send | entry "+re.rootName)
				}
			case EvSend:
				if !fromField(ev.Ptr, p.send) || ev.Val == nil || !mayCall(root, ctor) {
					return
				}
				sends++
				v := re.load(ev.S, Field(ev.Val, iER, types.NewPointer(fER.Type())), fER.Type())
				want := Int(0)
				if erArg != nil {
					want = erArg
				}
				c.ob(request, w.fname(root)+": expected report", w.pos(ev.Instr), ev.S.facts.equalInt(v, want), "the request is sent with expected report "+v.String()+", asked for was "+want.String()+trailStr(ev.S))
			}
		})
		re.run(rs, root, ra, nil)
		c.engine(re, "none")
	}
	c.ob(request, "senders", "", sends >= 3, "the functions that send requests could not be found")
	// 4. the reader
	readerRun(w, c, cw, p, func(e *Eng, ev *Event, rd *readerState) {
		s := ev.S
		switch ev.Kind {
		case EvCall:
			if ev.Callee != match {
				return
			}
			if e.probe == 0 {
				buf, l := s.extra["decodedBuf"], s.extra["decodedLen"]
				v := ev.Args[1]
				ok := s.mon["dec"] == "frame" && buf != nil && l != nil && v.op == OSlice && v.args[0] == buf.args[0] && s.facts.equalInt(v.args[1], buf.args[1])
				c.ob(offer, w.fname(ev.Instr.Parent())+": the frame", w.pos(ev.Instr), ok, "what is compared with the outstanding requests is not the frame just decoded: "+v.String()+trailStr(s))
				if ok {
					c.ob(offer, w.fname(ev.Instr.Parent())+": without checksum", w.pos(ev.Instr), s.facts.equalInt(v.args[2], AddC(l, -1)), "what is compared with the outstanding requests is not exactly the frame without its checksum: "+v.String()+" of a frame of "+l.String()+" bytes"+trailStr(s))
				}
			}
			for _, yes := range []bool{true, false} {
				o := s.clone()
				o.setMon("match", "n")
				o.ret = tFalse
				if yes {
					o.setMon("match", "y")
					o.ret = tTrue
				}
				o.setExtra("matched", ev.Args[0])
				ev.Alts = append(ev.Alts, o)
			}
		case EvRange:
			if rd.isMap(ev.Ptr, p.inFlight) && s.mon["dec"] == "frame" {
				s.setMon("scan", "on")
			}
		case EvMapRead:
			if ev.Mode == 'r' && s.mon["scan"] == "on" && rd.isMap(ev.Ptr, p.inFlight) {
				s.setMon("match", "")
				s.setExtra("matched", nil)
			}
		case EvAgain:
			if s.mon["scan"] == "on" && overMap(ev.Instr.Block()) && e.probe == 0 {
				c.ob(offer, w.fname(ev.Instr.Parent())+": every request", w.pos(ev.Instr), s.mon["match"] != "", "an outstanding request may be skipped without comparing it with the frame"+trailStr(s))
			}
		case EvRangeEnd:
			if s.mon["scan"] == "on" && rd.isMap(ev.Ptr, p.inFlight) {
				s.setMon("scan", "done")
				s.setMon("match", "")
				s.setExtra("matched", nil)
			}
		case EvSend:
			if !fromField(ev.Ptr, p.retChan) {
				return
			}
			if e.probe == 0 {
				owner := ev.Ptr.args[0].args[0]
				m := s.extra["matched"]
				c.ob(deliver, w.fname(ev.Instr.Parent())+": send", w.pos(ev.Instr), s.mon["match"] == "y" && m == owner, "an answer may be delivered to a request that was not found to match the frame"+trailStr(s))
				c.ob(deliver, w.fname(ev.Instr.Parent())+": the message", w.pos(ev.Instr), s.extra["decodedMsg"] == ev.Val, "what is delivered is not the message decoded from the frame"+trailStr(s))
			}
		}
	}, func(e *Eng, ev *Event) {
		s := ev.S
		if e.probe == 0 && s.mon["dec"] == "frame" {
			c.ob(offer, "complete scan", w.pos(ev.Instr), s.mon["scan"] == "done", "the reader may go on after a frame without having offered it to every outstanding request"+trailStr(s))
		}
		s.setMon("scan", "")
		s.setMon("match", "")
		s.setExtra("matched", nil)
	})
	c.need(formula, 10)
	c.need(request, 8)
	c.need(offer, 4)
	c.need(deliver, 2)
}

// root0: the location belongs to an object built here
func root0(loc *Term) bool {
	r := root(loc)
	return r.op == OAlloc
}

// touches: the function or one it calls uses the field
func touches(fn *ssa.Function, f *types.Var) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function) bool
	rec = func(fn *ssa.Function) bool {
		if seen[fn] {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && ssaField(fa) == f {
					return true
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && rec(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}

// readerState is shared by the properties about the reader
type readerState struct {
	w    *World
	p    *connParts
	dec  *ssa.Function
	root []string
}

func (rd *readerState) isMap(t *Term, f *types.Var) bool { return fromField(t, f) }

// readerRun interprets the functions of the library that decode the received bytes.
// done is called when an answer of the decoder has been dealt with: before the next one and before the next read.
func readerRun(w *World, c *Check, cw *concWorld, p *connParts, hook func(*Eng, *Event, *readerState), done func(*Eng, *Event)) {
	rd := &readerState{w: w, p: p, dec: w.fn("serialapi", "Decode")}
	if rd.dec == nil {
		return
	}
	roots := cw.topCallers(rd.dec)
	c.ob("reader", "found", "", len(roots) > 0, "no function of the library decodes what is received")
	for _, fn := range roots {
		e := cw.eng(c)
		e.followGo = false
		post := e.hooks
		e.hooks = nil
		e.hooks = append(e.hooks, func(ev *Event) {
			if ev.Kind == EvAgain && loopCalls(ev.Instr.Block(), rd.dec) {
				done(e, ev)
			}
		})
		e.hooks = append(e.hooks, post...)
		e.hooks = append(e.hooks, func(ev *Event) { hook(e, ev, rd) })
		s := newState()
		e.run(s, fn, rootArgs(e, s, fn), nil)
		c.engine(e, "none")
		c.units = append(c.units, w.fname(fn))
		if os.Getenv("GZROOTS") != "" {
			println(w.fname(fn), e.steps, e.gaveUp)
		}
	}
}

// topCallers: the exported functions that call the target without going through another exported one
func (cw *concWorld) topCallers(target *ssa.Function) []*ssa.Function {
	roots := map[*ssa.Function]bool{}
	for _, r := range cw.roots() {
		roots[r] = true
	}
	var out []*ssa.Function
	for _, r := range cw.roots() {
		seen := map[*ssa.Function]bool{}
		var rec func(fn *ssa.Function) bool
		rec = func(fn *ssa.Function) bool {
			if seen[fn] || fn != r && roots[fn] {
				return false
			}
			seen[fn] = true
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if g := c.Common().StaticCallee(); g != nil && (g == target || rec(g)) {
						return true
					}
				}
			}
			return false
		}
		if rec(r) {
			out = append(out, r)
		}
	}
	return out
}

func runC13(w *World, c *Check) {
	const rest, fill, old, ack, report, all = "decoding goes on exactly behind what was decoded", "what is read is appended to the incomplete bytes", "only incomplete bytes older than 40 ms are discarded", "exactly one ACK per valid frame", "every application command is delivered once", "everything decodable is decoded before the next read"
	cw := newConcWorld(w)
	p := findConn(w)
	ach := w.typ("serialapi", "FuncApplicationCommandHandler")
	mt := w.typ("serialapi", "Message")
	if len(w.missing) > 0 {
		return
	}
	dataF, nodeF := w.field("serialapi", "Message", "Data"), w.field("serialapi", "Message", "NodeID")
	repF := w.field("serialapi", "FuncApplicationCommandHandler", "Report")
	if len(w.missing) > 0 {
		return
	}
	ld := func(e *Eng, s *State, ptr *Term, t types.Type, f *types.Var) *Term {
		return e.load(s, Field(ptr, fieldIndex(t, f), types.NewPointer(f.Type())), f.Type())
	}
	inc := func(s *State, k string) {
		switch s.mon[k] {
		case "":
			s.setMon(k, "1")
		default:
			s.setMon(k, "2")
		}
	}
	fnOf := func(ev *Event) string { return w.fname(ev.Instr.Parent()) }
	// forget what was noted about the last read
	forget := func(o *State) {
		o.setMon("read", "")
		o.setMon("age", "")
		o.setMon("sub", "")
		for _, k := range []string{"keptC", "keptN", "readC", "prevNow", "sub"} {
			o.setExtra(k, nil)
		}
	}
	// rest is what the last answer of the decoder left
	rest2 := func(s *State) *Term {
		b, k := s.extra["rest"], s.extra["restK"]
		if b == nil || k == nil || b.op != OSlice {
			return nil
		}
		return Slice(b.args[0], Add(b.args[1], k), Sub(b.args[2], k), Sub(b.args[3], k), b.typ)
	}
	// delivered: the report callback is called with these arguments
	delivered := func(e *Eng, ev *Event) {
		s := ev.S
		m := s.extra["decodedMsg"]
		ok := false
		why := "no message was decoded"
		if m != nil && s.facts.nilness(m) == 2 && len(ev.Args) == 2 {
			v := ld(e, s, m, mt, dataF)
			why = "the message may not be an application command"
			if d := s.facts.dynType(v); d != nil && types.Identical(d, types.NewPointer(ach)) {
				why = "the arguments are not the node id of the message and its report"
				cmd := unwrap(v, d)
				ok = ev.Args[0] == ld(e, s, m, mt, nodeF) && ev.Args[1] == ld(e, s, cmd, ach, repF)
			}
		}
		if e.probe == 0 {
			c.ob(report, fnOf(ev)+": arguments", w.pos(ev.Instr), ok, "the report callback is called with something else than the node id and the report of the frame just decoded: "+why+trailStr(s))
		}
		inc(s, "rep")
	}
	readerRun(w, c, cw, p, func(e *Eng, ev *Event, rd *readerState) {
		s := ev.S
		switch ev.Kind {
		case EvInvoke:
			if !cw.inRoot(ev.Instr) {
				return
			}
			if isByteIO(ev.Method, "Write") {
				b, ok := literalBytes(e, s, ev.Args[0])
				if ok && len(b) == 1 && b[0] == 6 {
					inc(s, "ack")
				}
			}
			if isByteIO(ev.Method, "Read") {
				g := rest2(s)
				if e.probe == 0 && g != nil {
					c.ob(all, fnOf(ev)+": Read", w.pos(ev.Instr), s.mon["inc"] == "y" || s.facts.entails(toLin(g.args[2]).neg()), "the reader may wait for more bytes although the buffer may still hold a complete frame"+trailStr(s))
				}
				k := arrOf(tU8, nil)
				n := Int(0)
				switch {
				case g != nil:
					k, n = e.sliceContent(s, g), g.args[2]
				case s.mon["held"] != "":
					k, n = nil, nil
				}
				s.setExtra("keptC", k)
				s.setExtra("keptN", n)
				s.setExtra("prevNow", s.extra["now"])
				s.setMon("read", "y")
				s.setMon("inc", "")
			}
		case EvInvoked:
			if isByteIO(ev.Method, "Read") && cw.inRoot(ev.Instr) && ev.Val != nil && ev.Val.op == OTuple && ev.Args[0].op == OSlice {
				b := ev.Args[0]
				s.setExtra("readC", arrOf(tU8, s.subContent(e.content(s, b.args[0]), b.args[1], ev.Val.args[0])))
			}
		case EvExt:
			_, name := extName(ev.Callee)
			switch name {
			case "time.Now":
				s.setExtra("now", ev.Val)
			case "(time.Time).Sub", "time.Since":
				ok := len(ev.Args) > 0 && s.extra["prevNow"] != nil && ev.Args[len(ev.Args)-1] == s.extra["prevNow"]
				if name != "time.Since" {
					ok = ok && ev.Args[0] == s.extra["now"]
				}
				s.setExtra("sub", ev.Val)
				s.setMon("sub", map[bool]string{true: "y", false: "n"}[ok])
			}
		case EvBranch:
			sub := s.extra["sub"]
			if sub == nil || s.mon["read"] != "y" || !mentions(ev.Val, func(t *Term) bool { return t == sub }, map[*Term]bool{}) {
				return
			}
			switch {
			case s.facts.entails(toLin(AddC(sub, -40000000))):
				s.setMon("age", "old")
			case s.facts.entails(toLin(Sub(Int(40000000), sub))):
				s.setMon("age", "new")
			default:
				s.setMon("age", "?")
			}
			if s.mon["sub"] != "y" {
				s.setMon("age", "other")
			}
		case EvCall:
			if ev.Callee != rd.dec {
				return
			}
			data := ev.Args[0]
			if e.probe == 0 && s.mon["read"] == "y" {
				have := e.sliceContent(s, data)
				kept, got, n := s.extra["keptC"], s.extra["readC"], s.extra["keptN"]
				known := kept != nil && got != nil && n != nil && kept.op == OArr && got.op == OArr
				c.ob(fill, fnOf(ev)+": known", w.pos(ev.Instr), known, "what was read cannot be followed"+trailStr(s))
				if known {
					both := arrOf(tU8, append(append([]*Term{}, kept.args...), got.args...))
					none := s.facts.entails(toLin(n).neg())
					switch age := s.mon["age"]; {
					case sameContent(s, have, both):
						c.ob(fill, fnOf(ev)+": Decode", w.pos(ev.Instr), true, "")
						c.ob(old, fnOf(ev)+": kept", w.pos(ev.Instr), none || age == "new", "incomplete bytes may be kept although it is not known that the previous read was at most 40 ms ago (their age is compared as: "+age+")"+trailStr(s))
					case sameContent(s, have, got):
						c.ob(old, fnOf(ev)+": discarded", w.pos(ev.Instr), none || age == "old", "incomplete bytes may be discarded although it is not known that the previous read was more than 40 ms ago (their age is compared as: "+age+")"+trailStr(s))
					default:
						c.ob(fill, fnOf(ev)+": Decode", w.pos(ev.Instr), false, "after a read, what is decoded is "+have.String()+", not the incomplete bytes "+kept.String()+" followed by the bytes read "+got.String()+trailStr(s))
					}
				}
			} else if e.probe == 0 {
				g := rest2(s)
				ok := g != nil && g.op == OSlice && data.op == OSlice && g.args[0] == data.args[0] && s.facts.equalInt(g.args[1], data.args[1]) && s.facts.equalInt(g.args[2], data.args[2])
				gs := "nothing"
				if g != nil {
					gs = g.String()
				}
				c.ob(rest, fnOf(ev)+": Decode", w.pos(ev.Instr), ok, "what is decoded next is "+data.String()+", but what the previous answer left is "+gs+trailStr(s))
				c.ob(rest, fnOf(ev)+": progress", w.pos(ev.Instr), s.mon["inc"] == "", "incomplete bytes may be decoded again without reading more"+trailStr(s))
			}
			for _, o := range ev.Alts {
				o.setMon("read", "done")
				for _, k := range []string{"keptC", "keptN", "readC", "prevNow", "sub"} {
					o.setExtra(k, nil)
				}
				k := o.extra["decodedLen"]
				switch o.mon["dec"] {
				case "more":
					k = Int(0)
					o.setMon("inc", "y")
				case "-1":
					k = Int(1)
				}
				o.setExtra("rest", data)
				o.setExtra("restK", k)
				o.setMon("held", "y")
				m := o.extra["decodedMsg"]
				if m != nil && o.facts.nilness(m) == 2 {
					if d := o.facts.dynType(ld(e, o, m, mt, dataF)); d != nil {
						o.setMon("kind", typStr(d)) // messages of different kinds are not joined
						if types.Identical(d, types.NewPointer(ach)) {
							o.setMon("want", "1")
						}
					}
				}
			}
		case EvGo:
			if ev.Ptr != nil && fromField(ev.Ptr, p.reportC) {
				delivered(e, ev)
				return
			}
			if ev.Callee != nil && w.inRepo(ev.Callee) && touches(ev.Callee, p.reportC) && len(ev.Callee.Blocks) > 0 && ev.Ptr.op == OFunc {
				// a goroutine that calls it
				was := s.mon["rep"]
				counts := map[string]bool{}
				for _, o := range e.inline(s.clone(), ev.Callee, ev.Args, ev.Ptr.args, ev.Instr) {
					counts[o.mon["rep"]] = true
				}
				if len(counts) == 1 {
					for k := range counts {
						s.setMon("rep", k)
					}
				} else if len(counts) > 1 {
					s.setMon("rep", was+"?")
				}
			}
		case EvDyn:
			if fromField(ev.Ptr, p.reportC) {
				delivered(e, ev)
			}
		}
	}, func(e *Eng, ev *Event) {
		s := ev.S
		if e.probe == 0 && s.mon["dec"] != "" {
			want := map[string]string{"frame": "1"}[s.mon["dec"]]
			n := s.mon["ack"]
			if n == "" {
				n = "no"
			}
			c.ob(ack, "after answer '"+s.mon["dec"]+"'", w.pos(ev.Instr), s.mon["ack"] == want, n+" ACK may be written after the decoder answered '"+s.mon["dec"]+"'"+trailStr(s))
			c.ob(report, "after answer '"+s.mon["dec"]+"'", w.pos(ev.Instr), s.mon["rep"] == s.mon["want"], "the report callback may be called "+s.mon["rep"]+" times, expected "+s.mon["want"]+trailStr(s))
		}
		s.setMon("ack", "")
		s.setMon("rep", "")
		s.setMon("want", "")
		s.setMon("kind", "")
		if s.mon["read"] == "y" { // nothing of it was decoded, which is right if there is nothing
			n, age := s.extra["keptN"], s.mon["age"]
			none := n != nil && s.facts.entails(toLin(n).neg())
			if got := s.extra["readC"]; got == nil || got.op != OArr || !s.facts.entails(toLin(arrLen(got)).neg()) {
				none = false
			}
			if e.probe == 0 {
				c.ob(fill, "nothing to decode", w.pos(ev.Instr), none || age == "old" && s.facts.entails(toLin(arrLen(s.extra["readC"])).neg()), "bytes that were read may not be decoded"+trailStr(s))
			}
			s.setMon("held", "")
			s.setExtra("rest", nil)
		} else if r := rest2(s); r != nil {
			s.setExtra("rest", r)
			s.setExtra("restK", Int(0))
		}
		forget(s)
	})
	c.need(rest, 2)
	c.need(fill, 2)
	c.need(old, 2)
	c.need(ack, 4)
	c.need(report, 5)
	c.need(all, 1)
}
