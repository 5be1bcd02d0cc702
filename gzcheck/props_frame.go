package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C03"] = &property{run: runC03,
		explain: "Abstract interpretation of the frame decoder on an arbitrary buffer: every path that hands bytes to the message decoder must imply the frame is complete and that its checksum byte equals the complement of the xor of exactly its own bytes (xor folds over array segments); the content handed on, the consumed length and the absence of writes to the caller's array are checked on every path.",
		assume:  []string{"loops computing xor folds are summarised by the analyser's invariant inference"}}
	props["C07"] = &property{run: runC07,
		explain: "Abstract interpretation of framing and of every command builder (constructor, setters, Encode) on arbitrary arguments; the resulting byte sequence is compared, segment by segment, with the documented layout, and writes to caller-owned arrays (directly or through append) are reported.",
		assume:  []string{"payloads are short enough for a one-byte count, encapsulated commands have at least three bytes"}}
	props["C08"] = &property{run: runC08,
		explain: "Interval analysis of the level clamp over a partition of the floats (below 1, 1 to 99, 99 and more, not a number): the byte reaching the encoded command is derived for each cell and compared with the documented level.",
		assume:  []string{"float to integer conversion truncates within the range of the target"}}
	props["C30"] = &property{run: runC30,
		explain: "The transfer functions of both results of Duration.Duration are extracted by abstract interpretation and compared with the specification for all 256 codes.",
	}
}

// writesTo reports obligations for every possible write to the given array
func noWrites(e *Eng, c *Check, arr *Term, what string) {
	e.hooks = append(e.hooks, func(ev *Event) {
		if ev.Ptr == nil || e.probe > 0 {
			return
		}
		hit := false
		switch ev.Kind {
		case EvStore:
			r := ev.Ptr
			for r.op == OField || r.op == OElemAt {
				r = r.args[0]
			}
			hit = r == arr
		case EvMayWrite:
			hit = ev.Ptr == arr
		}
		if hit {
			c.bad("modifies", e.w.fname(ev.Instr.Parent())+": "+what, e.w.pos(ev.Instr), "may overwrite "+what+trailStr(ev.S))
		}
	})
}

func runC03(w *World, c *Check) {
	fn := w.fn("serialapi", "Decode")
	nm := w.fn("serialapi", "NewMessage")
	if fn == nil || nm == nil {
		return
	}
	e := bigEng(w)
	s := newState()
	args := rootArgs(e, s, fn)
	data := bytesArg(args, fn)
	pl := payloadOf(data)
	b0, b1 := pl.b(0), pl.b(1)
	noWrites(e, c, data.args[0], "the caller's buffer")
	e.hooks = append(e.hooks, func(ev *Event) {
		if ev.Kind == EvCall && ev.Callee == nm {
			r := Sym("?msg", nm.Signature.Results().At(0).Type())
			ev.S.setExtra("msg", Tuple(r, e.sliceContent(ev.S, ev.Args[0])))
			ev.S.setMon("msg", ev.S.mon["msg"]+"m")
			ev.Val = Tuple(r, Sym("?err", tError))
		}
	})
	kinds := map[string]int{}
	at := w.fname(fn)
	for _, o := range e.run(s, fn, args, nil) {
		f := o.facts
		n, msg, er := o.ret.args[0], o.ret.args[1], o.ret.args[2]
		is := func(t *Term, k int64) bool { return f.entailsEq(toLin(AddC(t, -k))) }
		not := func(t *Term, k int64) bool { x := o.clone(); return !x.facts.addEq(toLin(AddC(t, -k))) }
		call := o.extra["msg"]
		calls := o.mon["msg"]
		eqN := func(k *Term) bool { return n == k || f.equalInt(n, k) }
		p := trailStr(o)
		if f.entails(toLin(pl.len).neg()) {
			kinds["empty"]++
			c.ob("empty", "no bytes", at, calls == "" && f.nilness(msg) == 1, "an empty buffer yields a message"+p)
			continue
		}
		if !f.entails(toLin(AddC(pl.len, -1))) && calls != "" {
			c.bad("guard", "length", at, "a message is decoded from a buffer that may be empty"+p)
		}
		ctl := is(b0, 0x06) || is(b0, 0x15) || is(b0, 0x18)
		if !ctl { // any of the three, not distinguished by the path
			x := o.clone()
			ctl = !x.facts.addEq(toLin(AddC(b0, -1))) && onlyValues(o, b0, 0x06, 0x15, 0x18)
		}
		switch {
		case ctl:
			kinds["control"]++
			c.ob("control", "consumes one byte", at, eqN(Int(1)), "ACK, NAK or CAN consumes "+n.String()+" bytes"+p)
			c.ob("control", "decoded from its own byte", at, calls == "m" && sameContent(o, call.args[1], arrOf(tU8, []*Term{segLit(b0)})) ||
				calls == "m" && sameContent(o, call.args[1], arrOf(tU8, []*Term{segSub(data.args[0], data.args[1], Int(1))})),
				"the message of a control byte is not decoded from exactly that byte"+p)
			c.ob("control", "message returned", at, calls == "m" && msg == call.args[0], "the decoded control message is not the one returned"+p)
		case is(b0, 0x01):
			switch {
			case calls != "":
				kinds["frame"]++
				c.ob("frame", "decoded once", at, calls == "m", "a frame is decoded more than once"+p)
				full := f.entails(toLin(Sub(pl.len, AddC(b1, 2))))
				c.ob("frame", "complete", at, full, "a frame is passed on although its declared bytes may not all be present"+p)
				sum := elemOf(data.args[0], Add(data.args[1], AddC(b1, 1)), tU8)
				want := Xor(0xff, Fold(data.args[0], AddC(data.args[1], 1), AddC(Add(data.args[1], b1), 1)))
				want = normFold(o, want)
				ok := relXor(o, sum, want) == 1
				c.ob("frame", "checksum", at, ok, "a frame is passed on without its checksum byte being known to equal the complement of the xor of its bytes"+p)
				// only the bytes of this frame, with the checksum byte last (its value is not used)
				own := arrOf(tU8, []*Term{segSub(data.args[0], data.args[1], AddC(b1, 1))})
				good := false
				if cont := call.args[1]; cont.op == OArr {
					segs := dropEmpty(o, cont.args, nil)
					if k := len(segs); k > 0 {
						last := segs[k-1]
						if last.op == OSegLit || last.op == OSegZero && f.equalInt(last.args[0], Int(1)) {
							good = sameContent(o, arrOf(tU8, segs[:k-1]), own)
						} else {
							good = sameContent(o, cont, own) || sameContent(o, cont, arrOf(tU8, []*Term{segSub(data.args[0], data.args[1], AddC(b1, 2))}))
						}
					}
				}
				c.ob("frame", "decoded from its own bytes", at, good, "the message is decoded from "+call.args[1].String()+", which is not exactly the frame's own bytes"+p)
				c.ob("frame", "consumes the frame", at, eqN(AddC(b1, 2)), "a valid frame consumes "+n.String()+" bytes, documented is "+AddC(b1, 2).String()+p)
				c.ob("frame", "message returned", at, msg == call.args[0] || f.nilness(msg) == 1 && f.nilness(er) == 2, "the decoded message is not the one returned"+p)
			default:
				c.ob("no frame", "no message", at, f.nilness(msg) == 1, "a message is returned for an incomplete or damaged frame"+p)
				switch {
				case f.entails(toLin(Sub(Int(1), pl.len))):
					kinds["short"]++
					c.ob("no frame", "needs more bytes", at, eqN(Int(2)) && f.nilness(er) == 1, "one byte of a frame yields "+n.String()+", documented is 2"+p)
				case f.entails(toLin(Sub(AddC(b1, 1), pl.len))):
					kinds["incomplete"]++
					c.ob("no frame", "needs more bytes", at, eqN(AddC(b1, 2)) && f.nilness(er) == 1, "an incomplete frame yields "+n.String()+", documented is "+AddC(b1, 2).String()+p)
				default:
					kinds["invalid"]++
					sum := elemOf(data.args[0], Add(data.args[1], AddC(b1, 1)), tU8)
					want := Xor(0xff, Fold(data.args[0], AddC(data.args[1], 1), AddC(Add(data.args[1], b1), 1)))
					want = normFold(o, want)
					bad := relXor(o, sum, want) == 2 && f.entails(toLin(Sub(pl.len, AddC(b1, 2))))
					c.ob("no frame", "only wrong checksums are invalid", at, bad, "a frame that may be valid is refused"+p)
					c.ob("no frame", "invalid", at, eqN(Int(-1)) && f.nilness(er) == 2, "a frame with a wrong checksum yields "+n.String()+", documented is -1 and an error"+p)
				}
			}
		default:
			kinds["start"]++
			ok := not(b0, 1) && not(b0, 6) && not(b0, 0x15) && not(b0, 0x18)
			c.ob("start", "only unknown start bytes are invalid", at, ok, "it is not decided what is done with start byte "+b0.String()+p)
			c.ob("start", "invalid", at, calls == "" && eqN(Int(-1)) && f.nilness(msg) == 1, "an unknown start byte yields "+n.String()+p)
		}
	}
	for _, k := range []string{"empty", "control", "frame", "incomplete", "invalid", "start"} {
		c.ob("kind", k, at, kinds[k] > 0, "no path handles this kind of input")
	}
	c.engine(e, "none")
	c.ob("modifies", "the caller's buffer", at, true, "")
}

// onlyValues: the byte can only have the given values on this path
func onlyValues(o *State, b *Term, vs ...int64) bool {
	f := factFilter(o, []*Term{b})
	for v := int64(0); v < 256; v++ {
		if f(evalEnv{b: v}) {
			in := false
			for _, x := range vs {
				in = in || x == v
			}
			if !in {
				return false
			}
		}
	}
	return true
}

// seq runs a chain of calls: each step gets the state and the results of all earlier steps
type step struct {
	fn   *ssa.Function
	args func(s *State, r []*Term) []*Term
}

type chain struct {
	s *State
	r []*Term
}

func (e *Eng) seq(s *State, steps ...step) []chain {
	cur := []chain{{s, nil}}
	s.fr = &Frame{}
	for _, st := range steps {
		var next []chain
		for _, ch := range cur {
			e.rootName = e.w.fname(st.fn)
			ch.s.fr = &Frame{}
			for _, o := range e.inline(ch.s, st.fn, st.args(ch.s, ch.r), nil, nil) {
				next = append(next, chain{o, append(append([]*Term{}, ch.r...), o.ret)})
			}
		}
		cur = next
	}
	return cur
}

func lits(l ...*Term) []*Term {
	var out []*Term
	for _, t := range l {
		out = append(out, segLit(t))
	}
	return out
}

func expectBytes(c *Check, e *Eng, o *State, ret *Term, want []*Term, construct, at string) {
	got := e.sliceContent(o, ret)
	w := arrOf(tU8, want)
	ok := got != nil && sameContent(o, normBytes(got), normBytes(w))
	gs := "unknown"
	if got != nil {
		gs = got.String()
	}
	c.ob("layout", construct, at, ok, "the bytes are "+gs+", documented are "+w.String()+trailStr(o))
}

// normBytes writes one-element pieces of arrays as elements
func normBytes(a *Term) *Term {
	var out []*Term
	for _, g := range a.args {
		if g.op == OSegSub && g.args[2].op == OInt && g.args[2].n <= 8 {
			for i := int64(0); i < g.args[2].n; i++ {
				out = append(out, segLit(elemOf(g.args[0], AddC(g.args[1], i), tU8)))
			}
			continue
		}
		out = append(out, g)
	}
	return mk(Term{op: OArr, typ: a.typ, args: out})
}

func runC07(w *World, c *Check) {
	if fn := w.fn("serialapi", "CompileMessage"); fn != nil {
		e := bigEng(w)
		s := newState()
		args := rootArgs(e, s, fn)
		data := bytesArg(args, fn)
		noWrites(e, c, data.args[0], "the caller's payload")
		n := data.args[2]
		s.facts.addGe(toLin(Sub(Int(253), n)))
		cnt := AddC(n, 2)
		for _, o := range e.run(s, fn, args, nil) {
			sum := Xor(0xff, Wrap(cnt, tU8), Fold(data.args[0], data.args[1], Add(data.args[1], n)))
			want := append(lits(Int(1), cnt, Int(0)), segSub(data.args[0], data.args[1], n), segLit(sum))
			got := e.sliceContent(o, o.ret)
			ok := false
			if got != nil {
				ok = sameContent(o, dropWrap(o, got), dropWrap(o, arrOf(tU8, want)))
			} else {
				got = Str("unknown")
			}
			c.ob("layout", "serialapi.CompileMessage", w.fname(fn), ok, "the frame is "+got.String()+", documented is "+arrOf(tU8, want).String()+trailStr(o))
		}
		c.engine(e, "none")
	}
	if fn := w.fn("serialapi", "NewRaw"); fn != nil {
		if enc := w.meth("serialapi", "Raw", "Encode"); enc != nil {
			e := bigEng(w)
			s := newState()
			data := expand(NamedSym("arg.b", fn.Params[0].Type()), fn.Params[0].Type())
			noWrites(e, c, data.args[0], "the caller's bytes")
			for _, ch := range e.seq(s, step{fn, func(*State, []*Term) []*Term { return []*Term{data} }},
				step{enc, func(s *State, r []*Term) []*Term { return []*Term{r[0]} }}) {
				expectBytes(c, e, ch.s, ch.s.ret, []*Term{segSub(data.args[0], Int(0), data.args[2])}, "serialapi.Raw", "")
			}
			c.engine(e, "none")
		}
	}
	node := NamedSym("node", tInt)
	nb := Wrap(node, tU8)
	mb := func(n string) *Term { return Int(w.constInt("commands", n)) }
	// switch commands
	for _, k := range []string{"SwitchBinary", "SwitchMultilevel"} {
		nw := w.fn("commands", "New"+k)
		sv, sn, en := w.meth("commands", "Cmd"+k, "SetValue"), w.meth("commands", "Cmd"+k, "SetNode"), w.meth("commands", "Cmd"+k, "Encode")
		if nw == nil || sv == nil || sn == nil || en == nil {
			continue
		}
		vals := []*Term{tTrue, tFalse}
		want := []*Term{Int(255), Int(0)}
		if k == "SwitchMultilevel" {
			vals = []*Term{floatConst(0), floatConst(42.5), floatConst(99), floatConst(100)}
			want = []*Term{Int(0), Int(42), Int(99), Int(99)}
		}
		for i, v := range vals {
			v := v
			for _, order := range []bool{true, false} { // setters in either order
				e := bigEng(w)
				first := step{sv, func(s *State, r []*Term) []*Term { return []*Term{r[0], v} }}
				second := step{sn, func(s *State, r []*Term) []*Term { return []*Term{r[0], node} }}
				if !order {
					first, second = second, first
				}
				chs := e.seq(newState(), step{nw, func(*State, []*Term) []*Term { return nil }}, first, second,
					step{en, func(s *State, r []*Term) []*Term { return []*Term{r[0]} }})
				for _, ch := range chs {
					expectBytes(c, e, ch.s, ch.s.ret, lits(Int(0x13), nb, Int(3), mb(k), Int(1), want[i], Int(0x25)), "commands.Cmd"+k, w.fname(en))
				}
				c.ob("built", "commands.Cmd"+k, "", len(chs) > 0, "never built")
				c.engine(e, "none")
			}
		}
	}
	// encapsulation
	if nw, en := w.fn("commands", "NewMultiChannelEncap"), w.meth("commands", "MultiChannelEncap", "Encode"); nw != nil && en != nil {
		e := bigEng(w)
		s := newState()
		msg := expand(NamedSym("arg.msg", types.NewSlice(tU8)), types.NewSlice(tU8))
		ep := NamedSym("endpoint", tInt)
		s.facts.addGe(toLin(AddC(msg.args[2], -3)))
		m := payloadOf(msg)
		s.facts.addGe(toLin(Sub(Int(251), m.b(2))))
		noWrites(e, c, msg.args[0], "the encapsulated command")
		chs := e.seq(s, step{nw, func(*State, []*Term) []*Term { return []*Term{msg, ep} }}, step{en, func(s *State, r []*Term) []*Term { return []*Term{r[0]} }})
		for _, ch := range chs {
			want := append(lits(m.b(0), m.b(1), AddC(m.b(2), 4), mb("MultiInstance"), Int(0x0d), Int(1), Wrap(ep, tU8)), segSub(msg.args[0], Int(3), AddC(m.len, -3)))
			got := e.sliceContent(ch.s, ch.s.ret)
			ok := got != nil && sameContent(ch.s, dropWrap(ch.s, got), dropWrap(ch.s, arrOf(tU8, want)))
			if got == nil {
				got = Str("unknown")
			}
			c.ob("layout", "commands.MultiChannelEncap", w.fname(en), ok, "the bytes are "+got.String()+", documented are "+arrOf(tU8, want).String()+trailStr(ch.s))
		}
		c.ob("built", "commands.MultiChannelEncap", "", len(chs) > 0, "never built")
		c.engine(e, "none")
	}
	// raw commands
	if nw, sn, en := w.fn("commands", "NewRaw"), w.meth("commands", "Raw", "SetNode"), w.meth("commands", "Raw", "Encode"); nw != nil && sn != nil && en != nil {
		e := bigEng(w)
		s := newState()
		data := expand(NamedSym("arg.b", types.NewSlice(tU8)), types.NewSlice(tU8))
		s.facts.addGe(toLin(Sub(Int(200), data.args[2])))
		noWrites(e, c, data.args[0], "the caller's command bytes")
		recvPtr := func(p *Term) func(s *State, r []*Term) []*Term { return nil }
		_ = recvPtr
		chs := e.seq(s, step{nw, func(*State, []*Term) []*Term { return []*Term{data} }},
			step{sn, func(s *State, r []*Term) []*Term { return []*Term{r[0], node} }},
			step{en, func(s *State, r []*Term) []*Term {
				if _, isPtr := en.Params[0].Type().(*types.Pointer); isPtr {
					return []*Term{r[0]}
				}
				return []*Term{e.load(s, r[0], ptrElem(r[0]))}
			}})
		for _, ch := range chs {
			got := e.sliceContent(ch.s, ch.s.ret)
			if got == nil || len(got.args) < 3 || got.args[2].op != OSegLit {
				c.bad("layout", "commands.Raw", w.fname(en), "the bytes are unknown")
				continue
			}
			cnt := got.args[2].args[0]
			rest := append([]*Term{}, got.args...)
			rest[2] = segLit(Int(0))
			want := append(lits(Int(0x13), nb, Int(0)), segSub(data.args[0], Int(0), data.args[2]))
			ok := sameContent(ch.s, dropWrap(ch.s, arrOf(tU8, rest)), dropWrap(ch.s, arrOf(tU8, want)))
			c.ob("layout", "commands.Raw", w.fname(en), ok, "the bytes are "+got.String()+", documented are "+arrOf(tU8, want).String()+trailStr(ch.s))
			okc := ch.s.facts.equalInt(unwrapFit(ch.s, cnt), data.args[2])
			c.ob("count", "commands.Raw declares "+unwrapFit(ch.s, cnt).String(), w.fname(en), okc, "the declared number of command bytes is "+cnt.String()+", "+data.args[2].String()+" follow"+trailStr(ch.s))
		}
		c.ob("built", "commands.Raw", "", len(chs) > 0, "never built")
		c.engine(e, "none")
	}
	// every other command builder of the package must be known
	known := map[string]bool{"CmdSwitchBinary": true, "CmdSwitchMultilevel": true, "MultiChannelEncap": true, "Raw": true}
	for _, fn := range w.fns {
		if fn.Name() == "Encode" && fn.Signature.Recv() != nil && fn.Synthetic == "" && fn.Pkg == w.ssas["commands"] {
			n := structName(fn.Signature.Recv().Type())
			if !known[n] {
				c.notes = append(c.notes, "command builder "+n+" has no documented layout and is not checked")
			}
		}
	}
	c.ob("modifies", "caller's bytes", "", true, "")
	c.need("layout", 5)
}

// unwrapFit drops a machine conversion the path shows to be lossless
func unwrapFit(s *State, t *Term) *Term {
	if t.op == OWrap {
		if lo, hi, ok := intRange(t.typ); ok && s.facts.entails(toLin(AddC(t.args[0], -lo))) && s.facts.entails(toLin(Sub(Int(hi), t.args[0]))) {
			return t.args[0]
		}
	}
	return t
}

func dropWrap(s *State, a *Term) *Term {
	f := func(x *Term) *Term {
		if x.op == OFold {
			if y := normFold(s, x); y != x {
				return y
			}
		}
		if x.op == OWrap {
			if y := unwrapFit(s, x); y != x {
				return y
			}
		}
		return nil
	}
	var out []*Term
	for _, g := range a.args {
		if g.op == OSegLit {
			out = append(out, segLit(subst(g.args[0], f, substMemo{})))
		} else {
			out = append(out, g)
		}
	}
	return normBytes(mk(Term{op: OArr, typ: a.typ, args: out}))
}

func runC30(w *World, c *Check) {
	fn := w.meth("commands", "Duration", "Duration")
	if fn == nil {
		return
	}
	e := bigEng(w)
	s := newState()
	args := rootArgs(e, s, fn)
	d := args[0]
	covered := map[int64]bool{}
	for _, o := range e.run(s, fn, args, nil) {
		flt := factFilter(o, []*Term{d})
		en := o.facts.nilness(errOf(o.ret))
		for v := int64(0); v < 256; v++ {
			env := evalEnv{d: v}
			if !flt(env) {
				continue
			}
			covered[v] = true
			if v >= 0xfe {
				c.ob("code", fmt.Sprintf("0x%02x", v), w.fname(fn), en == 2, "no error for a code without a duration"+trailStr(o))
				continue
			}
			want := v * 1000000000
			if v > 0x7f {
				want = (v - 0x7f) * 60 * 1000000000
			}
			got, ok := evalTerm(o.ret.args[0], env)
			c.ob("code", fmt.Sprintf("0x%02x", v), w.fname(fn), en == 1 && ok && got == want,
				fmt.Sprintf("the duration is %v (%s), documented is %d ns without error%s", got, o.ret.args[0], want, trailStr(o)))
		}
	}
	c.ob("covered", "all codes", w.fname(fn), len(covered) == 256, fmt.Sprintf("only %d codes reach a result", len(covered)))
	c.engine(e, "none")
}

// floatCells partition the floats for the level clamp
func floatCells(s *State, v *Term) map[string]*State {
	cmp := func(op string, a, b *Term) *Term { return mk(Term{op: OFCmp, name: op, args: []*Term{a, b}}) }
	one, nn := floatConst(1), floatConst(99)
	out := map[string]*State{}
	mkc := func(name string, f func(x *State) bool) {
		x := s.clone()
		if f(x) && !x.facts.frange(v).empty() {
			out[name] = x
		}
	}
	mkc("low", func(x *State) bool { return x.facts.assume(cmp("<", v, one), true) })
	mkc("mid", func(x *State) bool {
		return x.facts.assume(cmp("<=", one, v), true) && x.facts.assume(cmp("<", v, nn), true)
	})
	mkc("high", func(x *State) bool { return x.facts.assume(cmp("<=", nn, v), true) })
	mkc("nan", func(x *State) bool {
		r := x.facts.frange(v)
		if !r.maybeNaN {
			return false
		}
		return x.facts.assume(cmp("==", v, v), false)
	})
	return out
}

// simplifyF resolves minima and maxima the interval facts decide
func simplifyF(s *State, t *Term) *Term {
	return subst(t, func(x *Term) *Term {
		if x.op == OCall && (x.name == "math.Min" || x.name == "math.Max") {
			a, b := simplifyF(s, x.args[0]), simplifyF(s, x.args[1])
			ra, rb := s.facts.frange(a), s.facts.frange(b)
			if ra.maybeNaN || rb.maybeNaN {
				return x
			}
			if x.name == "math.Max" {
				a, b, ra, rb = b, a, rb, ra
			}
			switch {
			case ra.hi <= rb.lo:
				return a
			case rb.hi <= ra.lo:
				return b
			}
			return x
		}
		return nil
	}, substMemo{})
}

// checkLevel: byte t is the documented level for value v
func checkLevel(c *Check, rule string, s *State, t, v *Term, construct, at string) {
	for cell, x := range floatCells(s, v) {
		g := simplifyF(x, t)
		for g.op == OWrap {
			g = g.args[0]
		}
		ok := false
		switch cell {
		case "low", "nan":
			ok = g == Int(0)
			if g.op == OToInt && cell == "low" {
				r := x.facts.frange(g.args[0])
				ok = !r.maybeNaN && r.lo >= 0 && (r.hi < 1 || r.hi == 1 && r.hiS)
			}
		case "high":
			ok = g == Int(99)
			if g.op == OToInt {
				r := x.facts.frange(g.args[0])
				ok = !r.maybeNaN && r.lo >= 99 && (r.hi < 100 || r.hi == 100 && r.hiS)
			}
		case "mid":
			ok = g.op == OToInt && g.args[0] == v
		}
		want := map[string]string{"low": "0 for levels below 1", "nan": "0 when the level is not a number", "mid": "the integer part of levels from 1 to 99", "high": "99 for levels of 99 and more"}[cell]
		c.ob(rule, construct+": "+want, at, ok, "the level byte is "+t.String()+", documented is "+want+trailStr(s))
	}
}

func runC08(w *World, c *Check) {
	nw := w.fn("commands", "NewSwitchMultilevel")
	sv, en := w.meth("commands", "CmdSwitchMultilevel", "SetValue"), w.meth("commands", "CmdSwitchMultilevel", "Encode")
	if nw == nil || sv == nil || en == nil {
		return
	}
	e := bigEng(w)
	v := NamedSym("level", types.Typ[types.Float64])
	v0 := NamedSym("earlier level", types.Typ[types.Float64])
	chs := e.seq(newState(), step{nw, func(*State, []*Term) []*Term { return nil }},
		step{sv, func(s *State, r []*Term) []*Term { return []*Term{r[0], v0} }},
		step{sv, func(s *State, r []*Term) []*Term { return []*Term{r[0], v} }},
		step{en, func(s *State, r []*Term) []*Term { return []*Term{r[0]} }})
	for _, ch := range chs {
		got := e.sliceContent(ch.s, ch.s.ret)
		if got == nil || len(got.args) < 6 || got.args[5].op != OSegLit {
			c.bad("level", "encoded level byte", w.fname(en), "the encoded command is unknown")
			continue
		}
		checkLevel(c, "level", ch.s, got.args[5].args[0], v, "commands.CmdSwitchMultilevel", w.fname(sv))
	}
	c.need("level", 4)
	c.engine(e, "none")
	// nothing else writes the level byte
	lf := w.fieldSetBy("commands", "CmdSwitchMultilevel", "level", sv, func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.Uint8 })
	if lf != nil {
		for _, st := range w.stores[lf] {
			fn := st.Parent()
			c.ob("writer", w.fname(fn), w.pos(st), e.fnSeen[fn], "the level is also set outside the clamp")
		}
	}
	_ = math.Inf
	_ = strings.Contains
}

// normFold drops folds over ranges the path shows to be empty
func normFold(s *State, t *Term) *Term {
	return subst(t, func(x *Term) *Term {
		if x.op == OFold && s.facts.entails(toLin(Sub(x.args[1], x.args[2]))) {
			return Int(0)
		}
		if x.op == OFold && s.facts.equalInt(x.args[2], AddC(x.args[1], 1)) {
			return mk(Term{op: OElem, args: []*Term{x.args[0], x.args[1]}, typ: tU8})
		}
		return nil
	}, substMemo{})
}

// relXor decides x == want on this path (1 equal, 2 different, 0 unknown), also when the path speaks of the same
// fold with bounds that are only provably equal
func relXor(s *State, x, want *Term) int {
	f := s.facts
	r := f.evalBool(EqI(x, want))
	if r != 0 {
		return r
	}
	if f.equalInt(x, want) {
		return 1
	}
	alike := func(t *Term) bool { return normFold(s, sameFolds(s, t, want)) == want }
	seen := map[*Term]bool{}
	for _, l := range f.lins {
		if l.coef(x) == 0 {
			continue
		}
		for _, v := range l.vars {
			if v != x && !seen[v] && (v.op == OXor || v.op == OFold) && alike(v) && f.equalInt(x, v) {
				return 1
			}
			seen[v] = true
		}
	}
	for _, l := range f.ne {
		if len(l.vars) == 2 && l.c == 0 && l.coef(x) != 0 && l.coefs[0] == -l.coefs[1] {
			v := l.vars[0]
			if v == x {
				v = l.vars[1]
			}
			if alike(v) {
				return 2
			}
		}
	}
	return 0
}

func foldsIn(t *Term) []*Term {
	var l []*Term
	if t.op == OFold {
		l = append(l, t)
	}
	for _, a := range t.args {
		l = append(l, foldsIn(a)...)
	}
	return l
}

// sameFolds writes the folds of t with the bounds used in want where these are provably equal
func sameFolds(s *State, t, want *Term) *Term {
	ws := foldsIn(want)
	if len(ws) == 0 {
		return t
	}
	return subst(t, func(y *Term) *Term {
		if y.op != OFold {
			return nil
		}
		for _, g := range ws {
			if g.args[0] == y.args[0] && s.facts.equalInt(g.args[1], y.args[1]) && s.facts.equalInt(g.args[2], y.args[2]) {
				return g
			}
		}
		return nil
	}, substMemo{})
}
