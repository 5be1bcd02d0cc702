package main

// Models of builtins and of library functions outside the repository.

import (
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (s *State) notNil(t *Term) *Term {
	if t.op != OSlice {
		termByID[t.id] = t
		s.facts.nils = s.facts.nils.set(t.id, tFalse)
	}
	return t
}

func (e *Eng) builtin(s *State, name string, args []*Term, c *ssa.CallCommon, at ssa.Instruction, res ssa.Value) []*State {
	one := []*State{s}
	s.ret = nil
	switch name {
	case "len", "cap":
		v := args[0]
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			v = expand(v, u)
			if name == "len" {
				s.ret = v.args[2]
			} else {
				s.ret = v.args[3]
			}
		case *types.Basic:
			s.ret = strLen(v)
		case *types.Array:
			s.ret = Int(u.Len())
		case *types.Pointer:
			s.ret = Int(u.Elem().Underlying().(*types.Array).Len())
		default:
			s.ret = Sym("len", tInt)
			s.facts.addGe(toLin(s.ret))
		}
		return one
	case "append":
		return e.appendB(s, args, c, at)
	case "copy":
		return e.copyB(s, args, c, at)
	case "delete":
		if s.facts.nilness(args[0]) == 1 {
			return one
		}
		s.dropRange()
		e.fire(&Event{Kind: EvMapDel, S: s, Instr: at, Ptr: args[0], Args: args[1:]})
		return one
	case "clear":
		s.dropRange()
		e.fire(&Event{Kind: EvMapDel, S: s, Instr: at, Ptr: args[0]})
		return one
	case "close":
		mode := byte(0)
		if s.facts.nilness(args[0]) != 2 {
			mode = '?' // may be nil
		}
		if !e.deref(s, args[0], at, "closed channel "+e.describe(c.Args[0])) {
			return nil
		}
		ev := &Event{Kind: EvClose, S: s, Instr: at, Ptr: args[0], Mode: mode}
		e.fire(ev)
		if ev.Kill {
			return nil
		}
		return one
	case "print", "println":
		return one
	case "min", "max":
		a := args[0]
		ss := []*State{s}
		s.ret = a
		if res != nil && isInt(res.Type()) {
			for _, b := range args[1:] {
				var next []*State
				for _, st := range ss {
					cur := st.ret
					le := Le(cur, b)
					o := st.clone()
					if st.facts.assume(le, true) {
						if name == "max" {
							st.ret = b
						}
						next = append(next, st)
					}
					if o.facts.assume(le, false) {
						if name == "min" {
							o.ret = b
						}
						next = append(next, o)
					}
				}
				ss = next
			}
			return ss
		}
		if res != nil && isFloat(res.Type()) {
			n := map[string]string{"min": "math.Min", "max": "math.Max"}[name]
			for _, b := range args[1:] {
				s.ret = mk(Term{op: OCall, name: n, args: []*Term{s.ret, b}, typ: types.Typ[types.Float64]})
			}
			return one
		}
		s.ret = freshVal("minmax", res.Type())
		return one
	case "recover":
		s.ret = freshVal("?recover", res.Type())
		return one
	case "ssa:wrapnilchk":
		if !e.deref(s, args[0], at, "receiver") {
			return nil
		}
		s.ret = args[0]
		return one
	}
	if res != nil {
		s.ret = freshVal("builtin", res.Type())
	}
	return one
}

func (e *Eng) appendB(s *State, args []*Term, c *ssa.CallCommon, at ssa.Instruction) []*State {
	st := c.Args[0].Type().Underlying().(*types.Slice)
	a := expand(args[0], st)
	var bl *Term
	var bsegs []*Term
	if len(args) < 2 {
		bl = Int(0)
	} else if isString(c.Args[1].Type()) {
		bl = strLen(args[1])
		bsegs = []*Term{segSub(args[1], Int(0), bl)}
		if args[1].op == OConst {
			bsegs = nil
			for i, ch := range []byte(constStr(args[1])) {
				_ = i
				bsegs = append(bsegs, segLit(Int(int64(ch))))
			}
		}
	} else {
		b := expand(args[1], c.Args[1].Type())
		bl = b.args[2]
		if bl.op != OInt || bl.n != 0 {
			bsegs = e.sliceContent(s, b).args
		}
		for _, g := range bsegs {
			if g.op == OSegLit {
				if r := root(a.args[0]); r.op != OAlloc || e.isEscaped(s, r) {
					e.escape(s, g.args[0])
				}
			}
		}
	}
	asegs := e.sliceContent(s, a).args
	content := arrOf(st.Elem(), append(append([]*Term{}, asegs...), bsegs...))
	nl := Add(a.args[2], bl)
	arr := e.newArr(s, st.Elem(), content, "app"+itoa(posID(at)))
	ra := root(a.args[0])
	if ra.op == OAlloc && e.isEscaped(s, ra) {
		s.escaped = s.escaped.set(arr.id, tTrue)
	}
	nc := Sym("cap", tInt)
	s.facts.addRaw(toLin(Sub(nc, nl)))
	// the old array may be reused
	if a.args[0].op != ONil && !s.facts.equalInt(a.args[2], a.args[3]) && !(bl.op == OInt && bl.n == 0) {
		s.alias = s.alias.set(arr.id, a.args[0])
		e.fire(&Event{Kind: EvMayWrite, S: s, Instr: at, Ptr: a.args[0], Args: []*Term{Add(a.args[1], a.args[2])}})
		e.clobber(s, a.args[0], Add(a.args[1], a.args[2]))
	} else if a.args[0].op != ONil && bl.op == OInt && bl.n == 0 {
		s.ret = a
		return []*State{s}
	}
	s.ret = Slice(arr, Int(0), nl, nc, c.Args[0].Type())
	if len(args) > 1 {
		e.fire(&Event{Kind: EvAppend, S: s, Instr: at, Args: []*Term{a, args[1]}, Val: s.ret})
	}
	return []*State{s}
}

// clobber forgets the content of arr from position from on
func (e *Eng) clobber(s *State, arr, from *Term) {
	if arr.op == ONil {
		return
	}
	oc := e.content(s, arr)
	total := Int(0)
	for _, g := range oc.args {
		total = Add(total, segLen(g))
	}
	if s.facts.equalInt(total, from) {
		return
	}
	segs := append([]*Term{}, s.subContent(oc, Int(0), from)...)
	segs = append(segs, segSub(Sym("clob", oc.typ), Int(0), Sub(total, from)))
	termByID[arr.id] = arr
	s.heap = s.heap.set(arr.id, arrOf(elemTypeOfArr(oc), segs))
}

// havocSlice forgets the content of a slice (its array outside the slice is kept)
func (e *Eng) havocSlice(s *State, v *Term, name string, at ssa.Instruction) {
	if v.op != OSlice || v.args[0].op == ONil {
		return
	}
	e.fire(&Event{Kind: EvMayWrite, S: s, Instr: at, Ptr: v.args[0]})
	c := e.content(s, v.args[0])
	total := Int(0)
	for _, g := range c.args {
		total = Add(total, segLen(g))
	}
	end := Add(v.args[1], v.args[2])
	key := Sym(name, c.typ)
	if s.facts.equalInt(v.args[1], Int(0)) && s.facts.equalInt(end, total) {
		e.setContent(s, v.args[0], mk(Term{op: OArr, typ: c.typ, args: []*Term{segSub(key, Int(0), total)}}))
		return
	}
	segs := append([]*Term{}, s.subContent(c, Int(0), v.args[1])...)
	segs = append(segs, segSub(key, Int(0), v.args[2]))
	segs = append(segs, s.subContent(c, end, Sub(total, end))...)
	e.setContent(s, v.args[0], arrOf(elemTypeOfArr(c), segs))
}

func (e *Eng) copyB(s *State, args []*Term, c *ssa.CallCommon, at ssa.Instruction) []*State {
	d := expand(args[0], c.Args[0].Type())
	var sl *Term
	var segs func(st *State, n *Term) []*Term
	if isString(c.Args[1].Type()) {
		sl = strLen(args[1])
		segs = func(st *State, n *Term) []*Term { return []*Term{segSub(args[1], Int(0), n)} }
	} else {
		src := expand(args[1], c.Args[1].Type())
		sl = src.args[2]
		sc := e.content(s, src.args[0])
		segs = func(st *State, n *Term) []*Term { return st.subContent(sc, src.args[1], n) }
	}
	le := Le(sl, d.args[2])
	var outs []*State
	for _, t := range []bool{true, false} {
		st := s.clone()
		if !st.facts.assume(le, t) {
			continue
		}
		n := sl
		if !t {
			n = d.args[2]
		}
		if !(n.op == OInt && n.n == 0) && d.args[0].op != ONil {
			if r := root(d.args[0]); r.op != OAlloc || e.isEscaped(st, r) {
				e.fire(&Event{Kind: EvMayWrite, S: st, Instr: at, Ptr: d.args[0]})
			}
			dc := e.content(st, d.args[0])
			total := Int(0)
			for _, g := range dc.args {
				total = Add(total, segLen(g))
			}
			end := Add(d.args[1], n)
			l := append([]*Term{}, st.subContent(dc, Int(0), d.args[1])...)
			l = append(l, segs(st, n)...)
			l = append(l, st.subContent(dc, end, Sub(total, end))...)
			e.setContent(st, d.args[0], arrOf(elemTypeOfArr(dc), l))
		}
		st.ret = n
		outs = append(outs, st)
	}
	return outs
}

// ---- library functions ----

func lockOwner(mu *Term) *Term {
	if mu.op == OField {
		return mu.args[0]
	}
	return mu
}

func (e *Eng) lockOp(s *State, name string, mu *Term, at ssa.Instruction) []*State {
	owner := lockOwner(mu)
	switch name {
	case "Lock", "RLock":
		mode := byte('W')
		if name == "RLock" {
			mode = 'R'
		}
		ev := &Event{Kind: EvLock, S: s, Instr: at, Ptr: mu, Recv: owner, Mode: mode}
		e.fire(ev)
		if ev.Kill {
			return nil
		}
		e.havocShared(s)
		s.locks = append(append([]heldLock{}, s.locks...), heldLock{mu, owner, mode, at})
	case "Unlock", "RUnlock":
		mode := byte('W')
		if name == "RUnlock" {
			mode = 'R'
		}
		idx := -1
		for i := len(s.locks) - 1; i >= 0; i-- {
			if s.locks[i].mu == mu && s.locks[i].mode == mode {
				idx = i
				break
			}
		}
		e.oblige(s, "unlock", e.where(s, at, name), at, idx >= 0, "the mutex "+mu.String()+" is not held here in this mode")
		if idx < 0 {
			return nil
		}
		s.dropRange()
		e.fire(&Event{Kind: EvUnlock, S: s, Instr: at, Ptr: mu, Recv: owner, Mode: mode})
		s.locks = append(append([]heldLock{}, s.locks[:idx]...), s.locks[idx+1:]...)
		e.havocShared(s)
	}
	return []*State{s}
}

var tError = types.Universe.Lookup("error").Type()

func isErrorT(t types.Type) bool { return types.Identical(t, tError) }

// forkErr: results (vals..., error): one state where it succeeds, one where it fails
func (e *Eng) forkErr(s *State, ok []*Term, bad []*Term, name string) []*State {
	f := s.clone()
	mkRet := func(vals []*Term, err *Term) *Term {
		if len(vals) == 0 {
			return err
		}
		return Tuple(append(append([]*Term{}, vals...), err)...)
	}
	er := f.notNil(Sym("err."+name, tError))
	s.ret = mkRet(ok, Nil(tError))
	f.ret = mkRet(bad, er)
	p := e.w.pos(e.cur)
	e.note(s, p+" "+name+" succeeds")
	e.note(f, p+" "+name+" fails")
	return []*State{s, f}
}

// successful/failed results of an unknown function by type
func (e *Eng) genericResult(s *State, name string, sig *types.Signature) []*State {
	n := sig.Results().Len()
	if n == 0 {
		s.ret = nil
		return []*State{s}
	}
	last := sig.Results().At(n - 1).Type()
	if isErrorT(last) {
		var ok, bad []*Term
		for i := 0; i < n-1; i++ {
			t := sig.Results().At(i).Type()
			ok = append(ok, s.notNil(freshVal("r."+name, t)))
			if isInt(t) || isString(t) || isBool(t) || isFloat(t) {
				bad = append(bad, freshVal("r."+name, t))
			} else {
				bad = append(bad, zero(t))
			}
		}
		return e.forkErr(s, ok, bad, name)
	}
	var l []*Term
	for i := 0; i < n; i++ {
		l = append(l, s.notNil(freshVal("r."+name, sig.Results().At(i).Type())))
	}
	if n == 1 {
		s.ret = l[0]
	} else {
		s.ret = Tuple(l...)
	}
	return []*State{s}
}

func pureCall(name string, t types.Type, args ...*Term) *Term {
	return expand(mk(Term{op: OCall, name: name, args: args, typ: t}), t)
}

// snapshot replaces slices by their current content so that pure results do not depend on later writes
func (e *Eng) snapshot(s *State, v *Term) *Term {
	if v.op == OSlice {
		return e.sliceContent(s, v)
	}
	if v.op == OIface && v.args[0].op == OSlice {
		return Iface(v.typ, e.sliceContent(s, v.args[0]))
	}
	return v
}

func extName(fn *ssa.Function) (pkg, name string) {
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	return pkg, fn.String()
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "math": true, "unicode": true, "unicode/utf8": true, "math/bits": true, "path/filepath": true, "path": true}

func (e *Eng) external(s *State, fn *ssa.Function, args []*Term, at ssa.Instruction) []*State {
	pkg, name := extName(fn)
	one := []*State{s}
	s.ret = nil
	sig := fn.Signature
	recvNil := func() bool { return !e.deref(s, args[0], at, "receiver of "+fn.Name()) }
	switch {
	case strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex)."):
		switch fn.Name() {
		case "Lock", "RLock", "Unlock", "RUnlock":
			if recvNil() {
				return nil
			}
			return e.lockOp(s, fn.Name(), args[0], at)
		case "TryLock", "TryRLock":
			no := s.clone()
			no.ret = tFalse
			outs := e.lockOp(s, strings.TrimPrefix(fn.Name(), "Try"), args[0], at)
			for _, o := range outs {
				o.ret = tTrue
			}
			return append(outs, no)
		}
	case name == "(*sync.Once).Do":
		f := args[1]
		no := s.clone()
		if f.op == OFunc {
			termByID[args[0].id] = args[0]
			was := s.mon["once"]
			s.setMon("once", was+" "+itoa(args[0].id))
			outs := e.callFn(s, f.fn, nil, f.args, at)
			for _, o := range outs {
				o.setMon("once", was)
				o.ret = nil
			}
			return append(outs, no)
		}
		e.havocShared(s)
		return one
	case name == "time.After" || name == "time.Tick":
		s.ret = s.notNil(mk(Term{op: OCall, name: name, args: args, n: fresh(), typ: sig.Results().At(0).Type()}))
		return one
	case name == "time.Sleep":
		e.fire(&Event{Kind: EvTryWait, S: s, Instr: at, Chans: []*Term{s.notNil(mk(Term{op: OCall, name: "time.After", args: args, n: fresh(), typ: types.NewChan(types.RecvOnly, sig.Params().At(0).Type())}))}, Dirs: []types.ChanDir{types.RecvOnly}, Block: true})
		e.havocShared(s)
		return one
	case name == "fmt.Errorf" || name == "errors.New":
		er := s.notNil(Sym("err", tError))
		s.setExtra("errfmt"+itoa(er.id), nil)
		s.ret = er
		return one
	case pkg == "fmt" && strings.HasPrefix(fn.Name(), "Sprint"):
		var l []*Term
		for _, a := range args {
			l = append(l, e.snapshot(s, a))
		}
		s.ret = pureCall(name, sig.Results().At(0).Type(), l...)
		return one
	case pkg == "fmt" && (strings.HasPrefix(fn.Name(), "Print") || strings.HasPrefix(fn.Name(), "Fprint")):
		return e.genericResult(s, fn.Name(), sig)
	case pkg == "github.com/sirupsen/logrus" || pkg == "log":
		switch {
		case strings.HasPrefix(fn.Name(), "Fatal"):
			return nil
		case strings.HasPrefix(fn.Name(), "Panic"):
			e.oblige(s, "panic", e.where(s, at, name), at, false, "reachable "+name)
			return nil
		}
		return e.genericResult(s, fn.Name(), sig)
	case name == "os.Exit":
		return nil
	case name == "runtime.Goexit":
		return nil
	case name == "math.Pow" || name == "math.Min" || name == "math.Max":
		if a, ok := constF(args[0]); ok {
			if b, ok := constF(args[1]); ok {
				switch fn.Name() {
				case "Pow":
					s.ret = floatConst(math.Pow(a, b))
				case "Min":
					s.ret = floatConst(math.Min(a, b))
				case "Max":
					s.ret = floatConst(math.Max(a, b))
				}
				return one
			}
		}
		s.ret = pureCall(name, types.Typ[types.Float64], args...)
		return one
	case name == "math.IsNaN":
		s.ret = Not(mk(Term{op: OFCmp, name: "==", args: []*Term{args[0], args[0]}}))
		return one
	case name == "bytes.NewReader" || name == "bytes.NewBuffer":
		s.ret = s.notNil(mk(Term{op: OCall, name: name, args: []*Term{e.snapshot(s, args[0]), lenOfSlice(args[0])}, n: fresh(), typ: sig.Results().At(0).Type()}))
		return one
	case name == "encoding/binary.Read":
		return e.binaryRead(s, args, at)
	case strings.HasPrefix(name, "(encoding/binary.bigEndian).Uint") || strings.HasPrefix(name, "(encoding/binary.littleEndian).Uint"):
		n := map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8}[fn.Name()]
		b := args[len(args)-1]
		if n > 0 && b.op == OSlice {
			ok := s.facts.entails(toLin(AddC(b.args[2], -n)))
			e.oblige(s, "index", e.where(s, at, name), at, ok, "needs "+itoa(int(n))+" bytes, length is "+b.args[2].String())
			if !ok && !s.facts.addGe(toLin(AddC(b.args[2], -n))) {
				return nil
			}
			if n <= 4 {
				s.ret = e.assemble(s, e.sliceContent(s, b), 0, n, strings.Contains(name, "bigEndian"))
				return one
			}
		}
		return e.genericResult(s, fn.Name(), sig)
	case name == "encoding/json.Unmarshal" || name == "(*encoding/json.Decoder).Decode" || name == "(*encoding/gob.Decoder).Decode":
		tgt := args[1]
		src := "json"
		if strings.Contains(name, "gob") {
			src = "gob"
		}
		if tgt.op == OIface {
			if d := tgt.args[0]; d.typ != nil {
				if pt := ptrElem(d); pt != nil {
					e.decodeInto(s, d, pt, src, 0)
				}
			}
		}
		return e.forkErr(s, nil, nil, fn.Name())
	case pkg == "encoding/json" || pkg == "encoding/gob" || pkg == "encoding/hex":
		return e.genericResult(s, fn.Name(), sig)
	case name == "(*os.File).Write" || name == "(*os.File).WriteString" || name == "(*os.File).Read":
		if fn.Name() == "Read" {
			e.havocSlice(s, args[1], "filedata", at)
		}
		n := freshVal("n", tInt)
		s.facts.addGe(toLin(n))
		return e.forkErr(s, []*Term{n}, []*Term{n}, fn.Name())
	case pkg == "os":
		return e.genericResult(s, fn.Name(), sig)
	case pkg == "time":
		return e.genericResult(s, fn.Name(), sig)
	case pkg == "github.com/pborman/uuid":
		return e.genericResult(s, fn.Name(), sig)
	case pkg == "github.com/davecgh/go-spew/spew":
		return e.genericResult(s, fn.Name(), sig)
	case name == "bytes.Equal":
		s.ret = pureCall(name, types.Typ[types.Bool], e.snapshot(s, args[0]), e.snapshot(s, args[1]))
		return one
	case purePkgs[pkg]:
		n := sig.Results().Len()
		if n >= 1 && !isErrorT(sig.Results().At(n-1).Type()) {
			if pkg == "strings" && (fn.Name() == "Repeat") {
				break
			}
			var l []*Term
			for _, a := range args {
				l = append(l, e.snapshot(s, a))
			}
			if n == 1 {
				s.ret = pureCall(name, sig.Results().At(0).Type(), l...)
				return one
			}
		}
		return e.genericResult(s, fn.Name(), sig)
	case name == "github.com/tarm/serial.OpenPort":
		return e.genericResult(s, fn.Name(), sig)
	case name == "sort.Sort" || name == "sort.Stable" || name == "sort.Slice" || name == "sort.SliceStable":
		if args[0].op == OIface && args[0].args[0].op == OSlice {
			e.fire(&Event{Kind: EvExt, S: s, Instr: at, Callee: fn, Args: args, Mode: 's'})
		}
		return one
	}
	// unknown: anything reachable may be written or kept
	for _, a := range args {
		e.escape(s, a)
		if a.op == OSlice {
			e.havocSlice(s, a, "ext", at)
		}
	}
	e.havocShared(s)
	return e.genericResult(s, fn.Name(), sig)
}

func lenOfSlice(v *Term) *Term {
	if v.op == OSlice {
		return v.args[2]
	}
	return lenOf(v)
}

// assemble n bytes of a content from position p into an unsigned integer
func (e *Eng) assemble(s *State, content *Term, p, n int64, big bool) *Term {
	r := Int(0)
	for i := int64(0); i < n; i++ {
		b := s.readElem(content, Int(p+i))
		sh := i
		if big {
			sh = n - 1 - i
		}
		r = Add(r, Mul(b, Int(1<<uint(8*sh))))
	}
	return r
}

func (e *Eng) binaryRead(s *State, args []*Term, at ssa.Instruction) []*State {
	r, data := args[0], args[2]
	var content, n *Term
	if r.op == OIface && r.args[0].op == OCall && strings.HasPrefix(r.args[0].name, "bytes.New") && r.args[0].args[0].op == OArr {
		content, n = r.args[0].args[0], r.args[0].args[1]
	}
	big := true
	if args[1].op == OIface {
		big = strings.Contains(typStr(args[1].typ), "big")
	}
	var tgt *Term
	var tt types.Type
	if data.op == OIface {
		tgt = data.args[0]
		tt = ptrElem(tgt)
	}
	type part struct {
		loc *Term
		t   types.Type
		n   int64
	}
	var parts []part
	var size func(loc *Term, t types.Type) bool
	size = func(loc *Term, t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			var n int64
			switch u.Kind() {
			case types.Uint8, types.Int8:
				n = 1
			case types.Uint16, types.Int16:
				n = 2
			case types.Uint32, types.Int32:
				n = 4
			default:
				return false
			}
			parts = append(parts, part{loc, t, n})
			return true
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				if !size(Field(loc, i, types.NewPointer(ft)), ft) {
					return false
				}
			}
			return true
		}
		return false
	}
	key := ""
	pos := int64(0)
	known := content != nil && tt != nil && size(tgt, tt)
	if known {
		key = "rpos" + itoa(r.args[0].id)
		if p := s.extra[key]; p != nil {
			if p.op != OInt {
				known = false
			} else {
				pos = p.n
			}
		}
	}
	if !known {
		if tt != nil {
			e.decodeInto(s, tgt, tt, "bin", 0)
		}
		return e.forkErr(s, nil, nil, "binary.Read")
	}
	total := int64(0)
	for _, p := range parts {
		total += p.n
	}
	var outs []*State
	f := s.clone()
	if f.facts.addGe(toLin(Sub(Int(pos+total-1), n))) { // not enough bytes
		f.ret = f.notNil(Sym("err.read", tError))
		e.note(f, e.w.pos(at)+" binary.Read fails")
		outs = append(outs, f)
	}
	if s.facts.addGe(toLin(AddC(n, -pos-total))) {
		for _, p := range parts {
			v := e.assemble(s, content, pos, p.n, big)
			pos += p.n
			if !isUnsigned(p.t) {
				v = Wrap(v, p.t)
			}
			e.fire(&Event{Kind: EvStore, S: s, Instr: at, Ptr: p.loc, Val: v})
			e.store(s, p.loc, v, p.t)
		}
		s.setExtra(key, Int(pos))
		s.ret = Nil(tError)
		outs = append(outs, s)
	}
	return outs
}

// decodeInto: the object at loc receives arbitrary decoded content
func (e *Eng) decodeInto(s *State, loc *Term, t types.Type, src string, depth int) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Exported() && !f.Embedded() {
				continue
			}
			if reflectTag(st.Tag(i)) == "-" && src == "json" {
				continue
			}
			if n, ok := f.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
				continue
			}
			e.decodeInto(s, Field(loc, i, types.NewPointer(f.Type())), f.Type(), src, depth+1)
		}
		return
	}
	v := e.decodedVal(s, t, src)
	e.store(s, loc, v, t)
}

func (e *Eng) decodedVal(s *State, t types.Type, src string) *Term {
	name := src
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Interface:
		if src == "json" {
			name = "?json"
		}
	}
	return freshVal(name, t)
}

func reflectTag(tag string) string {
	i := strings.Index(tag, `json:"`)
	if i < 0 {
		return ""
	}
	r := tag[i+6:]
	if j := strings.IndexByte(r, '"'); j >= 0 {
		r = r[:j]
	}
	return r
}

// ---- interface methods ----

func (e *Eng) invokeModel(s *State, m *types.Func, recv *Term, args []*Term, at ssa.Instruction) []*State {
	sig := m.Type().(*types.Signature)
	one := []*State{s}
	s.ret = nil
	switch m.Name() {
	case "Read":
		if sig.Params().Len() == 1 && len(args) == 1 && args[0].op == OSlice {
			e.havocShared(s)
			e.havocSlice(s, args[0], "rd", at)
			n := Sym("nread", tInt)
			s.facts.addGe(toLin(n))
			s.facts.addGe(toLin(Sub(args[0].args[2], n)))
			return e.forkErr(s, []*Term{n}, []*Term{n}, "Read")
		}
	case "Write":
		if sig.Params().Len() == 1 && len(args) == 1 && args[0].op == OSlice && sig.Results().Len() == 2 {
			e.havocShared(s)
			n := Sym("nwritten", tInt)
			s.facts.addGe(toLin(n))
			s.facts.addGe(toLin(Sub(args[0].args[2], n)))
			return e.forkErr(s, []*Term{n}, []*Term{n}, "Write")
		}
	case "Error", "String":
		if sig.Params().Len() == 0 {
			s.ret = freshVal("str", types.Typ[types.String])
			return one
		}
	}
	for _, a := range args {
		e.escape(s, a)
	}
	e.havocShared(s)
	return e.genericResult(s, m.Name(), sig)
}
