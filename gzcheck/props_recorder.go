package main

// C27: the recording port. C28: the converter of recordings.

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C27"] = &property{run: runC27,
		explain: "Every exported function and method of the recorder package, and the goroutines they start, are interpreted abstractly with arbitrary buffers. Decided on every path: Read and Write call the same method of the real port once, with the caller's own slice, and return exactly its results; before they return exactly one row is sent to the log channel, after the transfer, with the direction of the call and exactly the bytes transferred (the first n of the buffer) in memory of its own which is not touched afterwards. Nothing else sends rows. Rows are received by one goroutine only, started under the recorder's sync.Once on every path through Open (or by the constructor); every row received is encoded once, unmodified, by one encoder on the Logger before the next one is received. Open opens the port name and speed the recorder was made with, keeps the port it got, and returns itself and the error of opening; Close closes the real port.",
		assume:  []string{"The real port transfers between 0 and len(p) bytes (the contract of io.Reader and io.Writer).", "gob encodes a row completely before Encode returns.", "The time stamps are not judged.", "Users do not reach into the package's unexported parts."}}
}

// boolConst: the value of a boolean constant of the package
func (w *World) boolConst(rel, name string) (bool, bool) {
	p := w.pkgs[rel]
	if p == nil {
		return false, false
	}
	k, ok := p.Types.Scope().Lookup(name).(*types.Const)
	if !ok || k.Val().Kind() != constant.Bool {
		w.missing = append(w.missing, rel+"."+name)
		return false, false
	}
	return constant.BoolVal(k.Val()), true
}

func runC27(w *World, c *Check) {
	const pass, row, cont, own, once, enc, open = "the real port gets the caller's buffer and its results are returned", "one row per transfer, before the call returns", "the row holds the direction and exactly the bytes transferred", "the bytes are copied and not touched any more", "one goroutine receives the rows", "every row is encoded once and unmodified", "the recorder opens and closes the real port"
	const rel = "serialrecorder"
	rec, rowT := w.typ(rel, "serialRecorder"), w.typ(rel, "Row")
	port := w.fieldLike(rel, "serialRecorder", "serial", func(t types.Type) bool {
		return types.IsInterface(t) && types.NewMethodSet(t).Lookup(nil, "Read") != nil
	})
	isRowChan := isChanOf(func(t types.Type) bool { p, ok := t.(*types.Pointer); return ok && types.Identical(p.Elem(), rowT) })
	logger := w.fieldLike(rel, "serialRecorder", "Logger", nil)
	nameF := w.fieldLike(rel, "serialRecorder", "port", func(t types.Type) bool { return types.Identical(t, types.Typ[types.String]) })
	baudF := w.fieldLike(rel, "serialRecorder", "baud", func(t types.Type) bool { return types.Identical(t, types.Typ[types.Int]) })
	buf := w.fieldLike(rel, "serialRecorder", "writeBuffer", isRowChan)
	dirF, dataF := w.field(rel, "Row", "Direction"), w.field(rel, "Row", "Data")
	rd, ok1 := w.boolConst(rel, "DirectionRead")
	wr, ok2 := w.boolConst(rel, "DirectionWrite")
	read, write, opn, cls := w.meth(rel, "serialRecorder", "Read"), w.meth(rel, "serialRecorder", "Write"), w.meth(rel, "serialRecorder", "Open"), w.meth(rel, "serialRecorder", "Close")
	ctor := w.fn(rel, "New")
	if len(w.missing) > 0 {
		return
	}
	c.ob(cont, "DirectionRead, DirectionWrite", "", ok1 && ok2 && rd != wr, "reads and writes are logged with the same direction")
	// the recorder may only be built and changed inside the package: the fields of a finished one
	for _, f := range []*types.Var{buf, nameF, baudF} {
		c.ob(open, f.Name()+" is set by the constructor only", "", w.frozen[f], "the field "+f.Name()+" of a recorder in use may be changed")
	}
	type goSite struct {
		fn, pos, entry string
		ok             bool
	}
	var gos []goSite
	consumers := map[string]string{}
	type goEnd struct {
		fn, pos, tail string
		drained       bool
	}
	var ends []goEnd
	starts := 0
	roots := []*ssa.Function{}
	for _, fn := range w.fns {
		if fn.Pkg != nil && fn.Pkg == w.ssas[rel] && fn.Parent() == nil && fn.Synthetic == "" && fn.Object() != nil && fn.Object().Exported() {
			roots = append(roots, fn)
		}
	}
	for _, fn := range roots {
		dir, isIO := false, ""
		switch fn {
		case read:
			dir, isIO = rd, "Read"
		case write:
			dir, isIO = wr, "Write"
		}
		e := newEng(w)
		e.followGo = true
		e.retCap, e.blockCap = 8, 16
		s := newState()
		args := rootArgs(e, s, fn)
		at := w.fname(fn)
		isPort := func(s *State, t *Term) bool {
			return fromField(t, port) || s.extra["opened"] != nil && t == s.extra["opened"]
		}
		e.hooks = append(e.hooks, func(ev *Event) {
			s := ev.S
			site := ""
			if ev.Instr != nil && ev.Instr.Parent() != nil {
				site = w.fname(ev.Instr.Parent())
			}
			pos := w.pos(ev.Instr)
			put := func(rule, what string, ok bool, msg string) {
				if e.probe == 0 {
					c.ob(rule, site+what, pos, ok, msg+" | entry "+e.rootName+trailStr(s))
				}
			}
			main := !strings.HasPrefix(e.rootName, "goroutine")
			switch ev.Kind {
			case EvInvoke:
				if !isPort(s, ev.Recv) {
					return
				}
				n := ev.Method.Name()
				switch {
				case n == "Close":
					put(open, ": Close", main && fn == cls, "the real port is closed outside Close")
					s.setMon("closed", s.mon["closed"]+"y")
				case isByteIO(ev.Method, "Read") || isByteIO(ev.Method, "Write"):
					put(pass, ": "+n, main && n == isIO && ev.Args[0] == args[1], "the real port's "+n+" is called by "+at+" with "+ev.Args[0].String())
					put(pass, ": "+n+" once", s.mon["io"] == "", "the real port is used twice for one call")
				default:
					put(pass, ": "+n, false, "the port's method "+n+" is called")
				}
			case EvInvoked:
				if isPort(s, ev.Recv) && (isByteIO(ev.Method, "Read") || isByteIO(ev.Method, "Write")) && ev.Val != nil && ev.Val.op == OTuple {
					s.setMon("io", "y")
					s.setExtra("n", ev.Val.args[0])
					s.setExtra("err", ev.Val.args[1])
					if b := ev.Args[0]; b.op == OSlice {
						s.setExtra("bytes", arrOf(tU8, s.subContent(e.content(s, b.args[0]), b.args[1], ev.Val.args[0])))
					}
				} else if isPort(s, ev.Recv) && ev.Method.Name() == "Close" {
					s.setExtra("err", ev.Val)
				}
			case EvSend:
				if !types.Identical(elemOfChan(ev.Ptr), types.NewPointer(rowT)) {
					return
				}
				put(row, ": row", main && isIO != "" && s.mon["io"] == "y", "a row is logged that no transfer belongs to, or before it is known what was transferred")
				put(row, ": once", s.mon["sent"] == "", "a transfer is logged twice")
				put(row, ": channel", fromField(ev.Ptr, buf), "the row is not sent to the log channel")
				s.setMon("sent", "y")
				r := ev.Val
				d := e.load(s, Field(r, fieldIndex(rowT, dirF), types.NewPointer(dirF.Type())), dirF.Type())
				data := e.load(s, Field(r, fieldIndex(rowT, dataF), types.NewPointer(dataF.Type())), dataF.Type())
				want := 2
				if dir {
					want = 1
				}
				put(cont, ": direction", s.facts.evalBool(d) == want, "the direction of the row is not that of the call")
				got, exp := e.sliceContent(s, data), s.extra["bytes"]
				none := data.op == OSlice && s.extra["n"] != nil && s.facts.equalInt(data.args[2], Int(0)) && s.facts.equalInt(s.extra["n"], Int(0)) || s.facts.nilness(data) == 1 && s.extra["n"] != nil && s.facts.equalInt(s.extra["n"], Int(0))
				if got == nil || exp == nil {
					put(cont, ": bytes", none, "the bytes of the row cannot be determined")
				} else {
					put(cont, ": bytes", none || sameContent(s, got, exp), "the row holds "+got.String()+", transferred were "+exp.String())
				}
				fresh := r.op == OAlloc
				put(own, ": row", fresh, "the row is not a new object")
				fd := none || data.op == OSlice && root(data.args[0]).op == OAlloc && !mayShare(s, data)
				put(own, ": copy", fd, "the row refers to the caller's buffer: "+data.String())
				s.setExtra("row", r)
				s.setExtra("data", data)
			case EvMayWrite, EvStore:
				r, d := s.extra["row"], s.extra["data"]
				if ev.Kind == EvMayWrite && s.mon["io"] == "y" && main && isIO != "" && ev.Ptr != nil && args[1].op == OSlice {
					put(pass, ": buffer", ev.Ptr != args[1].args[0], "the recorder writes to the caller's buffer")
				}
				if r != nil && ev.Ptr != nil {
					put(own, ": later writes", root(ev.Ptr) != r && !(d != nil && d.op == OSlice && root(ev.Ptr) == root(d.args[0])), "a row is changed after it was handed to the log")
				}
			case EvRecv:
				if !types.Identical(elemOfChan(ev.Ptr), types.NewPointer(rowT)) {
					return
				}
				if e.probe == 0 {
					for f := s.fr; f != nil; f = f.parent {
						if f.fn != nil {
							consumers[w.fname(f.fn)] = pos
						}
					}
				}
				put(once, ": receives rows", !main, "rows are received outside the goroutine that writes the log")
				put(enc, ": next row", s.mon["pend"] == "", "the next row is received although the last one was not encoded")
				if ev.Mode == 'c' {
					s.setMon("drained", "y")
				} else {
					s.setMon("pend", "y")
					s.setExtra("recv", ev.Val)
				}
			case EvClose:
				put(row, ": channel", !fromField(ev.Ptr, buf), "the log channel is closed: what is transferred after a re-open is not logged, and logging it panics")
			case EvGo:
				if e.probe > 0 || ev.Callee == nil {
					return
				}
				under := false
				for _, o := range strings.Fields(s.mon["once"]) {
					if t := termByName(o); t != nil && t.op == OField && typeOfOwner(t) != nil && types.Identical(typeOfOwner(t), rec) && len(args) > 0 && t.args[0] == args[0] {
						under = true
					}
				}
				gos = append(gos, goSite{w.fname(ev.Callee), pos, e.rootName, under || fn == ctor && main})
				if fn == ctor && main {
					s.setMon("do", "y")
				}
			case EvExt:
				_, name := extName(ev.Callee)
				switch name {
				case "(*sync.Once).Do":
					s.setMon("do", "y")
				case "encoding/gob.NewEncoder":
					put(enc, ": encoder", s.mon["enc"] == "", "a second encoder is made, so the type of the rows is written again in the middle of the log")
					a := ev.Args[0]
					put(enc, ": destination", fromField(a, logger), "the log is not written to the Logger")
					s.setMon("enc", "y")
				case "(*encoding/gob.Encoder).Encode":
					v := ev.Args[1]
					for v.op == OIface {
						v = v.args[0]
					}
					r := s.extra["recv"]
					put(enc, ": Encode", r != nil && s.mon["pend"] == "y" && sameRow(e, s, v, r, rowT), "something else than the row just received is encoded, or it is encoded twice: "+v.String())
					s.setMon("pend", "")
				case "github.com/tarm/serial.OpenPort":
					cfg := ev.Args[0]
					t := ptrElem(cfg)
					if t == nil {
						put(open, ": configuration", false, "the configuration of the port cannot be followed")
						return
					}
					st := t.Underlying().(*types.Struct)
					for i := 0; i < st.NumFields(); i++ {
						v := e.load(s, Field(cfg, i, types.NewPointer(st.Field(i).Type())), st.Field(i).Type())
						switch st.Field(i).Name() {
						case "Name":
							put(open, ": name", fromField(v, nameF), "another port is opened: "+v.String())
						case "Baud":
							put(open, ": speed", fromField(v, baudF), "another speed is used: "+v.String())
						}
					}
					if ev.Val != nil && ev.Val.op == OTuple {
						s.setExtra("opened", ev.Val.args[0])
						s.setExtra("err", ev.Val.args[1])
					}
				}
			}
			if ev.Kind == EvStore && ev.Ptr != nil {
				switch f := fieldVar(ev.Ptr); {
				case f == port && root(ev.Ptr).op != OAlloc:
					v := ev.Val
					for v.op == OIface {
						v = v.args[0]
					}
					put(open, ": "+port.Name(), s.extra["opened"] != nil && v == s.extra["opened"], "the port of the recorder is replaced by something else than the port just opened")
					s.setMon("kept", "y")
				case f != nil && (f == dirF || f == dataF) && root(ev.Ptr).op != OAlloc:
					put(enc, ": "+f.Name(), false, "a row in the log is changed")
				case f != nil && typStr(f.Type()) == "sync.Once" && root(ev.Ptr).op != OAlloc:
					put(once, ": "+f.Name(), false, "the sync.Once that starts the log is replaced")
				}
			}
			if ev.Kind == EvRootEnd && e.probe == 0 && !main {
				c.ob(enc, e.rootShort(ev.Callee)+": end", e.w.rel(ev.Callee.Pos()), s.mon["pend"] == "", "the last row received is not encoded"+trailStr(s))
				ends = append(ends, goEnd{w.fname(ev.Callee), w.rel(ev.Callee.Pos()), trailStr(s), s.mon["drained"] == "y"})
			}
		})
		outs := e.run(s, fn, args, nil)
		c.engine(e, "none")
		c.units = append(c.units, at)
		pos := w.rel(fn.Pos())
		for _, o := range outs {
			tail := trailStr(o)
			switch fn {
			case read, write:
				c.ob(row, at+": return", pos, o.mon["sent"] == "y", "a transfer is not logged before the call returns"+tail)
				good := o.mon["io"] == "y" && o.ret != nil && o.ret.op == OTuple && o.extra["n"] != nil && o.facts.equalInt(o.ret.args[0], o.extra["n"]) && sameErr(o, o.ret.args[1], o.extra["err"])
				c.ob(pass, at+": results", pos, good, "the results of the real port are not returned unchanged"+tail)
			case cls:
				c.ob(open, at+": result", pos, o.mon["closed"] == "y" && sameErr(o, o.ret, o.extra["err"]), "the real port is not closed exactly once, or its error is lost"+tail)
			case opn:
				good := o.extra["err"] != nil && o.ret != nil && o.ret.op == OTuple && sameErr(o, o.ret.args[1], o.extra["err"])
				c.ob(open, at+": error", pos, good, "the error of opening the port is not returned"+tail)
				if good && o.facts.nilness(o.ret.args[1]) != 2 {
					v := o.ret.args[0]
					for v.op == OIface {
						v = v.args[0]
					}
					c.ob(open, at+": the recorder", pos, v == args[0] && o.mon["kept"] == "y", "what is returned as the opened port is not the recorder with the port just opened"+tail)
					c.ob(once, at+": log started", pos, o.mon["do"] == "y", "the port can be opened without the log being started"+tail)
				}
			case ctor:
				v := o.ret
				if v == nil || v.op != OAlloc {
					c.ob(open, at, pos, false, "the constructor does not return a new recorder"+tail)
					continue
				}
				get := func(f *types.Var) *Term {
					return e.load(o, Field(v, fieldIndex(rec, f), types.NewPointer(f.Type())), f.Type())
				}
				c.ob(open, at+": name", pos, get(nameF) == args[0], "the recorder is made for another port"+tail)
				c.ob(open, at+": speed", pos, get(baudF) == args[1], "the recorder is made with another speed"+tail)
				c.ob(once, at+": channel", pos, allocSite(get(buf)) != "", "the recorder has no log channel"+tail)
				if o.mon["do"] == "y" {
					starts++
				}
			}
		}
	}
	for _, g := range gos {
		if at, ok := consumers[g.fn]; ok {
			starts++
			c.ob(once, g.fn+" started", g.pos, g.ok, "the goroutine that receives rows (at "+at+") is not started under the recorder's sync.Once: re-opening starts another one, and rows are interleaved | entry "+g.entry)
		}
	}
	for _, g := range ends {
		if consumers[g.fn] != "" {
			c.ob(enc, g.fn+": goes on", g.pos, g.drained, "the log may end while rows are still sent: they are lost, and once the channel is full every transfer blocks"+g.tail)
		}
	}
	c.ob(once, "the log is started", "", starts > 0 && len(consumers) > 0, "no goroutine receives the rows")
	c.need(pass, 4)
	c.need(row, 4)
	c.need(cont, 5)
	c.need(own, 4)
	c.need(enc, 4)
	c.need(once, 4)
	c.need(open, 9)
}

// sameErr: the same error, or both nil
func sameErr(s *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	return a == b || s.facts.nilness(a) == 1 && s.facts.nilness(b) == 1
}

// mayShare: the array of the slice may be an older one that an append went on to use
func mayShare(s *State, data *Term) bool {
	old, ok := s.alias.get(data.args[0].id)
	return ok && (root(old).op != OAlloc || mayShareArr(s, old))
}

// sameRow: the row itself, or a copy of all of it
func sameRow(e *Eng, s *State, v, r *Term, rowT types.Type) bool {
	if v == r {
		return true
	}
	whole := e.load(s, r, rowT)
	if v == whole {
		return true
	}
	return ptrElem(v) != nil && types.Identical(ptrElem(v), rowT) && root(v).op == OAlloc && e.load(s, v, rowT) == whole
}

func mayShareArr(s *State, arr *Term) bool {
	old, ok := s.alias.get(arr.id)
	return ok && old != arr && (root(old).op != OAlloc || mayShareArr(s, old))
}
