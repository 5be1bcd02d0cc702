package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"

	"golang.org/x/tools/go/ssa"
)

var tU8 = types.Typ[types.Uint8]

// payload describes the bytes a decoder works on
type payload struct {
	b   func(i int64) *Term
	len *Term
}

func payloadOf(v *Term) payload {
	return payload{
		b:   func(i int64) *Term { return elemOf(v.args[0], AddC(v.args[1], i), tU8) },
		len: v.args[2],
	}
}

// fieldSpec: documented value of a field
type fieldSpec struct {
	name  string
	bytes []int64
	f     func(v []int64) interface{}
	min   int64 // payload length from which the field is present (0: always)
	other interface{}
}

func b1(name string, i int64) fieldSpec {
	return fieldSpec{name: name, bytes: []int64{i}, f: func(v []int64) interface{} { return v[0] }}
}
func bit(name string, i, mask int64) fieldSpec {
	return fieldSpec{name: name, bytes: []int64{i}, f: func(v []int64) interface{} { return v[0]&mask != 0 }}
}
func lvl(name string, i int64) fieldSpec {
	return fieldSpec{name: name, bytes: []int64{i}, f: func(v []int64) interface{} { return math.Min(float64(v[0]), 100) }}
}
func ne(name string, i, n int64) fieldSpec {
	return fieldSpec{name: name, bytes: []int64{i}, f: func(v []int64) interface{} { return v[0] != n }}
}
func hex4(name string, i int64) fieldSpec {
	return fieldSpec{name: name, bytes: []int64{i, i + 1}, f: func(v []int64) interface{} { return fmt.Sprintf("%04x", v[0]*256+v[1]) }}
}
func from(min int64, f fieldSpec) fieldSpec { f.min, f.other = min, int64(0); return f }

var reportSpecs = map[string][]fieldSpec{
	"Alarm": {b1("Type", 0), b1("Level", 1), from(6, b1("SensorSourceID", 2)), from(6, b1("Status", 3)),
		from(6, b1("SensorType", 4)), from(6, b1("Event", 5))},
	"ManufacturerSpecific":  {hex4("Manufacturer", 0), hex4("Type", 2), hex4("ID", 4)},
	"MultiChannelEndpoints": {bit("Dynamic", 0, 0x80), bit("Identical", 0, 0x40), b1("Endpoints", 1)},
	"SensorMultiLevel": {b1("ValueType", 0),
		{name: "Size", bytes: []int64{1}, f: func(v []int64) interface{} { return v[0] & 7 }},
		{name: "Scale", bytes: []int64{1}, f: func(v []int64) interface{} { return v[0] >> 3 & 3 }},
		{name: "Precision", bytes: []int64{1}, f: func(v []int64) interface{} { return v[0] >> 5 }}},
	"SwitchBinaryV1":     {{name: "CurrentValue", bytes: []int64{0}, f: func(v []int64) interface{} { return v[0] == 0xff }}, ne("Valid", 0, 0xfe)},
	"SwitchBinaryV2":     {ne("CurrentValue", 0, 0), ne("TargetValue", 1, 0), b1("Duration", 2)},
	"SwitchMultilevelV1": {lvl("CurrentValue", 0), ne("Valid", 0, 0xfe)},
	"SwitchMultilevelV4": {lvl("CurrentValue", 0), lvl("TargetValue", 1), b1("Duration", 2), ne("Valid", 0, 0xfe), ne("TargetValid", 1, 0xfe)},
	"WakeUp":             {},
}

var protocolInfoSpec = []fieldSpec{bit("Listening", 0, 0x80), bit("Routing", 0, 0x40),
	{name: "Version", bytes: []int64{0}, f: func(v []int64) interface{} { return v[0]&7 + 1 }},
	{name: "MaxBaud", bytes: []int64{0}, f: func(v []int64) interface{} {
		if v[0]&0x38 == 0x10 {
			return int64(40000)
		}
		return int64(9600)
	}},
	{name: "Flirs", bytes: []int64{1}, f: func(v []int64) interface{} { return v[0]&0x60 != 0 }},
	bit("Beaming", 1, 0x10), bit("Security", 1, 0x01), b1("Basic", 3), b1("Generic", 4), b1("Specific", 5)}

// fieldLoc finds a field of the struct at p by name
func fieldLoc(p *Term, name string) (*Term, types.Type) {
	t := ptrElem(p)
	if t == nil {
		return nil, nil
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			ft := st.Field(i).Type()
			return Field(p, i, types.NewPointer(ft)), ft
		}
	}
	return nil, nil
}

func structName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// checkFields compares the fields of the struct at p with their documented values
func checkFields(c *Check, e *Eng, s *State, p *Term, specs []fieldSpec, pl payload, name string, at string) {
	for _, f := range specs {
		what := name + "." + f.name
		loc, ft := fieldLoc(p, f.name)
		if loc == nil {
			c.bad("field", what, at, "the decoded value has no field "+f.name)
			continue
		}
		got := e.load(s, loc, ft)
		spec := f.f
		if f.min > 0 {
			switch {
			case s.facts.entails(toLin(AddC(pl.len, -f.min))):
			case s.facts.entails(toLin(Sub(Int(f.min-1), pl.len))):
				spec = func([]int64) interface{} { return f.other }
			default:
				// the field must hold on both sides of the length condition
				a, b := s.clone(), s.clone()
				if a.facts.addGe(toLin(AddC(pl.len, -f.min))) {
					g := f
					g.min = 0
					checkFields(c, e, a, p, []fieldSpec{g}, pl, name, at)
				}
				if b.facts.addGe(toLin(Sub(Int(f.min-1), pl.len))) {
					g := f
					g.min = 0
					g.f = func([]int64) interface{} { return f.other }
					checkFields(c, e, b, p, []fieldSpec{g}, pl, name, at)
				}
				continue
			}
		}
		var atoms []*Term
		for _, i := range f.bytes {
			atoms = append(atoms, pl.b(i))
		}
		ok, msg := sameFunction(s, got, atoms, spec)
		c.ob("field", what, at, ok, what+" "+msg+trailStr(s))
	}
}

func bigEng(w *World) *Eng {
	e := newEng(w)
	e.retCap, e.blockCap = 6000, 4000
	return e
}

// bytesArg returns the []byte argument of a root
func bytesArg(args []*Term, fn *ssa.Function) *Term {
	for i, p := range fn.Params {
		if isBytes(p.Type()) {
			return args[i]
		}
	}
	return nil
}

func errOf(ret *Term) *Term {
	if ret != nil && ret.op == OTuple {
		return ret.args[len(ret.args)-1]
	}
	return nil
}

func init() {
	props["C05"] = &property{run: runC05,
		explain: "The transfer function from payload bytes to every documented field is extracted by abstract interpretation of each decoder (all paths, loops summarised) and compared with the specification on the whole domain of the bytes it depends on; node lists are compared as generated bit segments.",
		assume:  []string{"fmt.Sprintf, math.Min and encoding/binary behave as documented"}}
	props["C06"] = &property{run: runC06,
		explain: "The transfer function of the sensor value is extracted by abstract interpretation: its numerator must be the canonical signed big-endian form of exactly the declared value bytes, its divisor is evaluated for all 256 header bytes, and every path that returns a value must imply that all declared bytes are present.",
		assume:  []string{"math.Pow is exact for the eight powers of ten"}}
	props["C04"] = &property{run: runC04,
		explain: "Abstract interpretation of the report factory: for every path, the path condition over command, class and length must imply the documented combination of the type returned, and error paths must be disjoint from every documented combination with a complete payload.",
		assume:  []string{"encoding/binary reads as documented"}}
}

func runC05(w *World, c *Check) {
	// report constructors
	found := map[string]bool{}
	for _, fn := range w.exportedFuncs("commands/reports", func(fn *ssa.Function) bool {
		return fn.Signature.Recv() == nil && fn.Signature.Results().Len() == 2
	}) {
		name := structName(fn.Signature.Results().At(0).Type())
		specs, ok := reportSpecs[name]
		if !ok || fn.Name() == "New" {
			continue
		}
		found[name] = true
		e := bigEng(w)
		s := newState()
		args := rootArgs(e, s, fn)
		data := bytesArg(args, fn)
		n := 0
		for _, o := range e.run(s, fn, args, nil) {
			if o.facts.nilness(errOf(o.ret)) == 2 {
				continue
			}
			n++
			p := o.ret.args[0]
			if o.facts.nilness(p) != 2 {
				c.bad("result", w.fname(fn), "", "no error but no report either"+trailStr(o))
				continue
			}
			pl := payload{}
			if data != nil {
				pl = payloadOf(data)
			}
			checkFields(c, e, o, p, specs, pl, "reports."+name, w.fname(fn))
		}
		c.ob("decoder", w.fname(fn), "", n > 0, "never returns a report")
		c.engine(e, "none")
	}
	var names []string
	for n := range reportSpecs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c.ob("constructor", "reports."+n, "", found[n], "no exported constructor of "+n)
	}
	c05Protocol(w, c)
	c05Nodes(w, c)
	c05Message(w, c)
}

func c05Protocol(w *World, c *Check) {
	fn := w.fn("serialapi", "NewGetNodeProtocolInfo")
	if fn == nil {
		return
	}
	e := bigEng(w)
	s := newState()
	args := rootArgs(e, s, fn)
	n := 0
	for _, o := range e.run(s, fn, args, nil) {
		if o.facts.nilness(errOf(o.ret)) == 2 {
			continue
		}
		n++
		checkFields(c, e, o, o.ret.args[0], protocolInfoSpec, payloadOf(bytesArg(args, fn)), "FuncGetNodeProtocolInfo", w.fname(fn))
	}
	c.ob("decoder", w.fname(fn), "", n > 0, "never returns a value")
	c.engine(e, "none")
}

// node list: bit i of the list is bit i%8 of byte i/8, all further nodes are absent
func c05Nodes(w *World, c *Check) {
	fn := w.fn("serialapi", "NewDiscoverdNodes")
	if fn == nil {
		return
	}
	e := bigEng(w)
	s := newState()
	args := rootArgs(e, s, fn)
	data := bytesArg(args, fn)
	n := 0
	for _, o := range e.run(s, fn, args, nil) {
		if o.facts.nilness(errOf(o.ret)) == 2 {
			continue
		}
		n++
		loc, ft := fieldLoc(o.ret.args[0], "ActiveNodes")
		if loc == nil {
			c.bad("anchor", "DiscoverdNodes.ActiveNodes", "", "field missing")
			return
		}
		got := e.load(o, loc, ft)
		bits := Mul(Int(8), data.args[2])
		total := ft.Underlying().(*types.Array).Len()
		want := arrOf(types.Typ[types.Bool], []*Term{segGen(data.args[0], data.args[1], Int(0), bits), segZero(Sub(Int(total), bits))})
		ok := sameContent(o, got, want)
		c.ob("field", "DiscoverdNodes.ActiveNodes", w.fname(fn), ok, "the node list is "+got.String()+", documented is "+want.String()+trailStr(o))
	}
	c.ob("decoder", w.fname(fn), "", n > 0, "never returns a node list")
	c.engine(e, "none")
}

// sameContent compares array contents under the facts of a state
func sameContent(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != OArr || b.op != OArr {
		return false
	}
	var el types.Type
	if a.typ != nil && b.typ != nil && types.Identical(a.typ, b.typ) {
		switch t := a.typ.Underlying().(type) {
		case *types.Slice:
			el = t.Elem()
		case *types.Array:
			el = t.Elem()
		}
	}
	x, y := dropEmpty(s, a.args, el), dropEmpty(s, b.args, el)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		g, h := x[i], y[i]
		if g == h {
			continue
		}
		if g.op != h.op || len(g.args) != len(h.args) {
			return false
		}
		for k := range g.args {
			if g.args[k] != h.args[k] && sameFolds(s, g.args[k], h.args[k]) != h.args[k] && !(isIntTerm(g.args[k]) && isIntTerm(h.args[k]) && s.facts.equalInt(g.args[k], h.args[k])) {
				return false
			}
		}
	}
	return true
}

// dropEmpty leaves out empty segments and writes a few zeros as elements
func dropEmpty(s *State, l []*Term, el types.Type) []*Term {
	var out []*Term
	for _, g := range l {
		if g.op == OSegZero && g.args[0].op == OInt && g.args[0].n <= 16 && el != nil {
			for i := int64(0); i < g.args[0].n; i++ {
				out = append(out, segLit(zero(el)))
			}
			continue
		}
		if g.op != OSegLit && s.facts.entails(toLin(segLen(g)).neg()) {
			continue
		}
		out = append(out, g)
	}
	return out
}

// message header and the payload handed to each payload decoder
func c05Message(w *World, c *Check) {
	fn := w.fn("serialapi", "NewMessage")
	mk1 := func(name string) *ssa.Function { return w.fn("serialapi", name) }
	ach, dn, pi := mk1("NewApplicationCommandHandler"), mk1("NewDiscoverdNodes"), mk1("NewGetNodeProtocolInfo")
	rn := w.fn("commands/reports", "New")
	if fn == nil || ach == nil || dn == nil || pi == nil || rn == nil {
		return
	}
	fnCode := func(name string) int64 { return w.constInt("serialapi", name) }
	cACH, cDN, cPI := fnCode("ApplicationCommandHandler"), fnCode("DiscoveryNodes"), fnCode("GetNodeProtocolInfo")
	e := bigEng(w)
	s := newState()
	args := rootArgs(e, s, fn)
	data := bytesArg(args, fn)
	pl := payloadOf(data)
	sub := func(f, t *Term) *Term { // content of data[f:t]
		return arrOf(tU8, []*Term{segSub(data.args[0], Add(data.args[1], f), Sub(t, f))})
	}
	// calls of the payload decoders: remember what they were given
	e.hooks = append(e.hooks, func(ev *Event) {
		if ev.Kind != EvCall {
			return
		}
		switch ev.Callee {
		case dn, pi:
			r := freshVal("?payload", ev.Callee.Signature.Results().At(0).Type())
			ev.S.setExtra("payload", Tuple(r, e.sliceContent(ev.S, bytesArg(ev.Args, ev.Callee))))
			ev.S.setMon("kind", ev.Callee.Name())
			ev.Val = Tuple(r, Sym("?err", tError))
		case rn:
			r := freshVal("?payload", ev.Callee.Signature.Results().At(0).Type())
			ev.S.setExtra("report", Tuple(r, e.sliceContent(ev.S, bytesArg(ev.Args, ev.Callee)), ev.Args[0], ev.Args[1]))
			ev.S.setMon("kind", "report")
			ev.Val = Tuple(r, Sym("?err", tError))
		}
	})
	kinds := map[string]int{}
	for _, o := range e.run(s, fn, args, nil) {
		if o.facts.nilness(errOf(o.ret)) == 2 {
			continue
		}
		p := o.ret.args[0]
		if o.facts.nilness(p) != 2 {
			c.bad("result", w.fname(fn), "", "no error but no message"+trailStr(o))
			continue
		}
		get := func(name string) *Term {
			l, t := fieldLoc(p, name)
			if l == nil {
				c.bad("anchor", "Message."+name, "", "field missing")
				return Int(-1)
			}
			return e.load(o, l, t)
		}
		if get("startByte") != pl.b(0) {
			c.bad("field", "Message.startByte", w.fname(fn), "the kind of frame is "+get("startByte").String()+", documented is its first byte")
		}
		c.ob("field", "Message.startByte", w.fname(fn), true, "")
		if o.facts.entails(toLin(Sub(Int(1), pl.len))) { // single byte message
			kinds["single"]++
			continue
		}
		checkFields(c, e, o, p, []fieldSpec{b1("Length", 1), b1("MessageType", 2), b1("Function", 3)}, pl, "Message", w.fname(fn))
		fc, known := o.facts.constOf(pl.b(3))
		d := get("Data")
		k := o.mon["kind"]
		kinds[k]++
		n6 := pl.b(6)
		expect := map[string]int64{"report": cACH, dn.Name(): cDN, pi.Name(): cPI}
		c.ob("dispatch", "payload decoder of "+k, w.fname(fn), known && k != "" && expect[k] == fc,
			"the payload decoder '"+k+"' is used for function "+pl.b(3).String()+" "+fmt.Sprint(fc)+trailStr(o))
		switch k {
		case "report":
			r := o.extra["report"]
			checkFields(c, e, o, p, []fieldSpec{b1("NodeID", 5)}, pl, "Message", w.fname(fn))
			want := sub(Int(9), AddC(n6, 7))
			ok := sameContent(o, r.args[1], want)
			c.ob("payload", "report payload", w.fname(fn), ok, "the report is decoded from "+r.args[1].String()+", documented are the bytes "+want.String()+trailStr(o))
			c.ob("payload", "report command", w.fname(fn), r.args[2] == pl.b(7), "the report's command is "+r.args[2].String()+", documented is "+pl.b(7).String())
			c.ob("payload", "report class", w.fname(fn), r.args[3] == pl.b(8), "the report's class is "+r.args[3].String()+", documented is "+pl.b(8).String())
			dp := unwrapTo(d)
			if dp == nil {
				c.bad("field", "Message.Data", w.fname(fn), "no decoded command: "+d.String())
				break
			}
			g := func(n string) *Term {
				l, t := fieldLoc(dp, n)
				if l == nil {
					return Int(-1)
				}
				return e.load(o, l, t)
			}
			c.ob("field", "FuncApplicationCommandHandler.Command", w.fname(ach), g("Command") == pl.b(7), "is "+g("Command").String()+", documented is "+pl.b(7).String())
			c.ob("field", "FuncApplicationCommandHandler.Class", w.fname(ach), g("Class") == pl.b(8), "is "+g("Class").String()+", documented is "+pl.b(8).String())
			c.ob("field", "FuncApplicationCommandHandler.Report", w.fname(ach), g("Report") == r.args[0], "is "+g("Report").String()+", documented is the decoded report")
		case dn.Name(), pi.Name():
			r := o.extra["payload"]
			want := sub(Int(7), AddC(n6, 7))
			if k == pi.Name() {
				want = sub(Int(4), pl.len)
			}
			ok := sameContent(o, r.args[1], want)
			c.ob("payload", k+" payload", w.fname(fn), ok, "the payload is decoded from "+r.args[1].String()+", documented are the bytes "+want.String()+trailStr(o))
			c.ob("field", "Message.Data of "+k, w.fname(fn), unwrapTo(d) == r.args[0], "is "+d.String()+", documented is the decoded payload")
		}
	}
	for _, k := range []string{"single", "report", dn.Name(), pi.Name()} {
		c.ob("message kind", k, w.fname(fn), kinds[k] > 0, "no path decodes this kind of message")
	}
	c.engine(e, "none")
}

func unwrapTo(v *Term) *Term {
	if v.op == OIface {
		return v.args[0]
	}
	return nil
}

func runC06(w *World, c *Check) {
	fn := w.fn("commands/reports", "NewSensorMultiLevel")
	if fn == nil {
		return
	}
	e := bigEng(w)
	s := newState()
	args := rootArgs(e, s, fn)
	data := bytesArg(args, fn)
	pl := payloadOf(data)
	sizes := map[int64]int{}
	for _, o := range e.run(s, fn, args, nil) {
		if o.facts.nilness(errOf(o.ret)) == 2 {
			continue
		}
		p := o.ret.args[0]
		loc, ft := fieldLoc(p, "Value")
		if loc == nil || o.facts.nilness(p) != 2 {
			c.bad("anchor", "SensorMultiLevel.Value", "", "no value decoded")
			return
		}
		got := e.load(o, loc, ft)
		hdr := pl.b(1)
		filter := factFilter(o, []*Term{hdr})
		var hs []int64
		sz := map[int64]bool{}
		for h := int64(0); h < 256; h++ {
			if filter(evalEnv{hdr: h}) {
				hs = append(hs, h)
				sz[h&7] = true
			}
		}
		for n := range sz {
			x := o.clone()
			if x.facts.addEq(toLin(AddC(And(hdr, Int(7)), -n))) {
				c.ob("length", "payload shorter than declared", w.fname(fn), x.facts.entails(toLin(AddC(pl.len, -2-n))),
					"a payload shorter than the declared "+itoa(int(n))+" value bytes is accepted"+trailStr(o))
			}
			if n != 1 && n != 2 && n != 4 {
				// sizes without a documented meaning: nothing to compare
				continue
			}
			sizes[n]++
			raw := Int(0)
			var t types.Type = types.Typ[types.Int8]
			switch n {
			case 2:
				t = types.Typ[types.Int16]
			case 4:
				t = types.Typ[types.Int32]
			}
			for i := int64(0); i < n; i++ {
				raw = Add(raw, Mul(pl.b(2+i), Int(1<<uint(8*(n-1-i)))))
			}
			num := mk(Term{op: OFConv, args: []*Term{Wrap(raw, t)}, typ: types.Typ[types.Float64]})
			nAtom := NamedSym("numerator", types.Typ[types.Float64])
			f := subst(got, func(x *Term) *Term {
				if x == num {
					return nAtom
				}
				return nil
			}, substMemo{})
			ok, msg := scaled(f, nAtom, hdr, hs, n)
			if !ok {
				msg += ", numerator should be " + num.String()
			}
			c.ob("value", "value of "+itoa(int(n))+" bytes", w.fname(fn), ok, "the value is "+got.String()+": "+msg+trailStr(o))
		}
	}
	for _, n := range []int64{1, 2, 4} {
		c.ob("size", itoa(int(n)), w.fname(fn), sizes[n] > 0, "no path decodes values of this size")
	}
	// sizes that cannot be read completely must be rejected: checked above by 'length'
	c.engine(e, "none")
}

// scaled: f == num / 10^(h>>5) for every header byte h of size n
func scaled(f, num, hdr *Term, hs []int64, n int64) (bool, string) {
	as := map[*Term]bool{}
	atomsOf(f, as)
	for a := range as {
		if a != num && a != hdr {
			return false, "depends on " + a.String()
		}
	}
	var den *Term
	switch {
	case f == num:
		den = nil
	case f.op == OBin && f.name == "f/" && f.args[0] == num && f.args[1] != num:
		den = f.args[1]
	default:
		return false, "is not the declared integer divided by a power of ten"
	}
	for _, h := range hs {
		if h&7 != n {
			continue
		}
		want := math.Pow(10, float64(h>>5))
		d := 1.0
		if den != nil {
			v, ok := evalTerm(den, evalEnv{hdr: h})
			d, _ = v.(float64)
			if !ok {
				return false, "the divisor " + den.String() + " is not a function of the precision"
			}
		}
		if d != want {
			return false, fmt.Sprintf("the divisor is %v for header byte 0x%02x, documented is %v", d, h, want)
		}
	}
	return true, ""
}

type reportRow struct {
	typ   string
	cmd   string // constant name
	class int64  // -1: any
	minL  int64
	maxL  int64 // -1: unbounded
	size  bool  // payload must hold the declared value bytes
}

var reportRows = []reportRow{
	{"Alarm", "Alarm", 5, 2, -1, false},
	{"ManufacturerSpecific", "ManufacturerSpecific", 5, 6, 6, false},
	{"MultiChannelEndpoints", "MultiInstance", 8, 2, -1, false},
	{"SensorMultiLevel", "SensorMultiLevel", 5, 2, -1, true},
	{"SwitchBinaryV1", "SwitchBinary", 3, 1, 1, false},
	{"SwitchBinaryV2", "SwitchBinary", 3, 3, 3, false},
	{"SwitchMultilevelV1", "SwitchMultilevel", 3, 1, 1, false},
	{"SwitchMultilevelV4", "SwitchMultilevel", 3, 3, 3, false},
	{"WakeUp", "WakeUp", -1, 0, -1, false},
}

func runC04(w *World, c *Check) {
	fn := w.fn("commands/reports", "New")
	if fn == nil {
		return
	}
	e := bigEng(w)
	s := newState()
	args := rootArgs(e, s, fn)
	data := bytesArg(args, fn)
	pl := payloadOf(data)
	var cmd, class *Term
	for i, p := range fn.Params {
		if structName(p.Type()) == "ZWaveCommand" {
			cmd = args[i]
		} else if isInt(p.Type()) {
			class = args[i]
		}
	}
	if cmd == nil || class == nil || data == nil {
		c.bad("anchor", "reports.New", "", "unexpected signature")
		return
	}
	seen := map[string]bool{}
	outs := e.run(s, fn, args, nil)
	for _, o := range outs {
		rep, er := o.ret.args[0], o.ret.args[1]
		en := o.facts.nilness(er)
		if en == 0 {
			c.bad("result", "reports.New", "", "it is not decided whether an error is returned"+trailStr(o))
			continue
		}
		if en == 2 {
			// no documented combination with a complete payload may end here
			for _, r := range reportRows {
				x := o.clone()
				ok := x.facts.addEq(toLin(AddC(cmd, -w.constInt("commands", r.cmd))))
				if ok && r.class >= 0 {
					ok = x.facts.addEq(toLin(AddC(class, -r.class)))
				}
				if ok {
					ok = x.facts.addGe(toLin(AddC(pl.len, -r.minL)))
				}
				if ok && r.maxL >= 0 {
					ok = x.facts.addGe(toLin(Sub(Int(r.maxL), pl.len)))
				}
				if ok && r.size {
					ok = x.facts.addGe(toLin(Sub(AddC(pl.len, -2), And(pl.b(1), Int(7)))))
					// only one, two and four value bytes are documented
					if ok {
						h := pl.b(1)
						flt := factFilter(x, []*Term{h})
						ok = false
						for v := int64(0); v < 256; v++ {
							if n := v & 7; (n == 1 || n == 2 || n == 4) && flt(evalEnv{h: v}) {
								y := x.clone()
								if y.facts.addEq(toLin(AddC(And(h, Int(7)), -n))) && y.facts.addGe(toLin(AddC(pl.len, -2-n))) {
									ok = true
								}
							}
						}
					}
				}
				c.ob("supported", r.typ, "reports.New", !ok, "an error is returned for a complete "+r.typ+" report"+trailStr(o))
			}
			c.ob("exclusive", "error", "reports.New", true, "")
			continue
		}
		// a report: which type
		d := o.facts.dynType(rep)
		if d == nil || o.facts.nilness(rep) != 2 || rep.op == OIface && o.facts.nilness(rep.args[0]) != 2 {
			c.bad("result", "reports.New", "", "no error, but the report is "+rep.String()+trailStr(o))
			continue
		}
		name := structName(d)
		row := -1
		for i, r := range reportRows {
			if r.typ == name {
				row = i
			}
		}
		if row < 0 {
			c.bad("type", "reports.New: "+name, "", "this type is not documented for any report"+trailStr(o))
			continue
		}
		r := reportRows[row]
		seen[name] = true
		ok := o.facts.entailsEq(toLin(AddC(cmd, -w.constInt("commands", r.cmd))))
		if r.class >= 0 {
			ok = ok && o.facts.entailsEq(toLin(AddC(class, -r.class)))
		}
		ok = ok && o.facts.entails(toLin(AddC(pl.len, -r.minL)))
		if r.maxL >= 0 {
			ok = ok && o.facts.entails(toLin(Sub(Int(r.maxL), pl.len)))
		}
		c.ob("type", "reports.New: "+name, "", ok, name+" is returned for a command, class and length it is not documented for"+trailStr(o))
	}
	for _, r := range reportRows {
		c.ob("dispatched", r.typ, "reports.New", seen[r.typ], "never returned")
	}
	c.engine(e, "none")
}
