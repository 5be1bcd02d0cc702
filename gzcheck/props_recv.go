package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- contract of the frame decoder, derived from its code ----

// decCase is one kind of answer of serialapi.Decode
type decCase struct {
	l      string // "n" for a constant, "in" for 2..len(data), "more" for more than len(data)
	n      int64
	msg    bool
	err    int // 1 nil, 2 not nil, 0 either
	data   types.Type
	any    bool
	single bool // every such input starts with ACK, NAK or CAN
}

func (d decCase) String() string {
	s := fmt.Sprint(d.l, d.n, " message=", d.msg, " err=", d.err)
	if d.single {
		s += " ACK/NAK/CAN"
	}
	if d.any {
		s += " any data"
	}
	if d.data != nil {
		s += " " + d.data.String()
	}
	return s
}

var decCases = map[*World][]decCase{}

// decoderCases runs the decoder on an arbitrary non-empty buffer and lists what its answers look like
//
// With strict set, answers that are not understood are reported; otherwise they stand for anything.
func decoderCases(w *World, c *Check, strict bool) []decCase {
	if l, ok := decCases[w]; ok && !strict {
		return l
	}
	fn := w.fn("serialapi", "Decode")
	mt := w.typ("serialapi", "Message")
	dataF := w.field("serialapi", "Message", "Data")
	if fn == nil || mt == nil || dataF == nil {
		return nil
	}
	e := newEng(w)
	e.retCap, e.blockCap = 200, 400
	e.lean = true
	s := newState()
	args := rootArgs(e, s, fn)
	d := bytesArg(args, fn)
	s.facts.addGe(toLin(AddC(d.args[2], -1)))
	seen := map[string]decCase{}
	for _, o := range e.run(s, fn, args, nil) {
		if o.ret == nil || o.ret.op != OTuple || len(o.ret.args) != 3 {
			continue
		}
		l, msg, er := o.ret.args[0], o.ret.args[1], o.ret.args[2]
		f := o.facts
		var k decCase
		n := d.args[2]
		if v, ok := f.constOf(l); ok && v < 2 {
			k.l, k.n = "n", v
			if v == 1 {
				k.single = singleByte(o.facts, o.readElem(e.content(o, d.args[0]), d.args[1]))
			}
		} else if f.entails(toLin(AddC(l, -2))) && f.entails(toLin(Sub(n, l))) {
			k.l = "in"
		} else if f.entails(toLin(AddC(Sub(l, n), -1))) {
			k.l = "more"
		} else if !strict {
			k.l = "any"
		} else {
			c.bad("decoder", "consumed length", w.fname(fn), "the decoder may consume "+l.String()+", which is neither one byte, nor a frame inside the buffer, nor more than the buffer"+trailStr(o))
			continue
		}
		k.err = f.nilness(er)
		var kinds []decCase
		switch f.nilness(msg) {
		case 1:
			kinds = append(kinds, k)
		case 2:
			k.msg = true
			v := e.load(o, Field(msg, fieldIndex(mt, dataF), types.NewPointer(dataF.Type())), dataF.Type())
			if f.nilness(v) != 1 {
				if k.data = f.dynType(v); k.data == nil && !strict {
					k.any = true
				} else if k.data == nil {
					c.bad("decoder", "type of the data", w.fname(fn), "the type of the decoded data is not known on a path"+trailStr(o))
				}
			}
			kinds = append(kinds, k)
		default:
			kinds = append(kinds, k)
			k.msg = true
			kinds = append(kinds, k)
		}
		for _, k := range kinds {
			seen[k.String()] = k
		}
	}
	if strict {
		c.engine(e)
	} else if e.gaveUp != "" {
		c.engine(e, "none")
	}
	var keys []string
	for k := range seen {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []decCase
	for _, k := range keys {
		out = append(out, seen[k])
		c.notes = append(c.notes, "decoder answer: "+k)
	}
	c.ob("decoder", "kinds of answers", w.fname(fn), len(out) >= 4, "the kinds of answers of the decoder could not be derived")
	decCases[w] = out
	return out
}

func singleByte(f *Facts, b *Term) bool {
	for v := int64(0); v < 256; v++ {
		if v == 0x06 || v == 0x15 || v == 0x18 {
			continue
		}
		g := f.clone()
		if g.addEq(toLin(AddC(b, -v))) {
			return false
		}
	}
	return true
}

// contracts replaces calls of the decoder and of the generated tables by what is known about their results
func contracts(w *World, c *Check, e *Eng, strict bool) {
	dec := w.fn("serialapi", "Decode")
	mt := w.typ("serialapi", "Message")
	dataF := w.field("serialapi", "Message", "Data")
	cases := decoderCases(w, c, strict)
	db := w.fn("database", "New")
	mand := w.fn("database", "GetMandatoryCommandClasses")
	e.hooks = append(e.hooks, func(ev *Event) {
		if ev.Kind == EvAgain && loopCalls(ev.Instr.Block(), dec) {
			ev.S.setMon("dec", "")
			ev.S.setExtra("decodedBuf", nil)
			ev.S.setExtra("decodedLen", nil)
			ev.S.setExtra("decodedMsg", nil)
			ev.S.setExtra("decodedFirst", nil)
		}
		if ev.Kind != EvCall || ev.Callee == nil {
			return
		}
		switch ev.Callee {
		case dec:
			data := ev.Args[0]
			for _, k := range cases {
				o := ev.S.clone()
				var l, m, er *Term
				o.setMon("dec", "") // answers of different kinds are not joined
				if k.l == "n" {
					o.setMon("dec", itoa(int(k.n)))
				}
				o.setExtra("decodedBuf", data)
				if k.single {
					o.setMon("dec", "single")
					o.setExtra("decodedFirst", o.readElem(e.content(o, data.args[0]), data.args[1]))
				}
				switch k.l {
				case "n":
					l = Int(k.n)
				case "any":
					l = Sym("consumed", tInt)
				case "in":
					o.setMon("dec", "frame")
					l = Sym("frame", tInt)
					if !o.facts.addGe(toLin(AddC(l, -2))) || !o.facts.addGe(toLin(Sub(data.args[2], l))) {
						continue
					}
				case "more":
					o.setMon("dec", "more")
					l = Sym("need", tInt)
					if !o.facts.addGe(toLin(AddC(l, -2))) || !o.facts.addGe(toLin(AddC(Sub(l, data.args[2]), -1))) {
						continue
					}
				}
				if k.msg {
					m = Sym("message", types.NewPointer(mt))
					o.notNil(m)
					v := e.load(o, Field(m, fieldIndex(mt, dataF), types.NewPointer(dataF.Type())), dataF.Type())
					if k.data != nil {
						o.notNil(v)
						o.facts.setDyn(v, k.data)
					} else if !k.any {
						o.facts.nils = o.facts.nils.set(v.id, tTrue)
						termByID[v.id] = v
					}
				} else {
					m = Nil(types.NewPointer(mt))
				}
				switch k.err {
				case 1:
					er = Nil(tError)
				default:
					er = Sym("?derr", tError)
					if k.err == 2 {
						o.notNil(er)
					}
				}
				o.ret = Tuple(l, m, er)
				o.setExtra("decodedLen", l)
				o.setExtra("decodedMsg", m)
				ev.Alts = append(ev.Alts, o)
			}
		case db:
			ev.Val = freshVal("?device", db.Signature.Results().At(0).Type())
		case mand:
			ev.Val = freshVal("?mandatory", mand.Signature.Results().At(0).Type())
		}
	})
}

var mayCallMemo = map[[2]*ssa.Function]bool{}

// mayCall: fn reaches target through static calls
func mayCall(fn, target *ssa.Function) bool {
	k := [2]*ssa.Function{fn, target}
	if r, ok := mayCallMemo[k]; ok {
		return r
	}
	mayCallMemo[k] = false
	for _, b := range fn.Blocks {
		if blockCalls(b, target) {
			mayCallMemo[k] = true
			return true
		}
	}
	return false
}

func blockCalls(b *ssa.BasicBlock, target *ssa.Function) bool {
	for _, in := range b.Instrs {
		if c, ok := in.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && (f == target || mayCall(f, target)) {
				return true
			}
		}
	}
	return false
}

// loopCalls: the loop with this head calls the function in each round
func loopCalls(head *ssa.BasicBlock, target *ssa.Function) bool {
	l := infoOf(head.Parent()).loops[head]
	if l == nil {
		return false
	}
	for b := range l.body {
		if blockCalls(b, target) {
			return true
		}
	}
	return false
}
