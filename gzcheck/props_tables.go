package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C24"] = &property{run: runC24,
		explain: "Abstract interpretation of the device lookup on arbitrary manufacturer, type and id strings: every path that returns a record implies one exact key, the record constructor called there is analysed separately and the record it builds is compared, field by field, with the device definitions shipped in database/json; the keys found are exactly the keys of those definitions.",
		assume:  []string{"of several definitions with the same ids the first file in name order is the one that counts"}}
	props["C25"] = &property{run: runC25,
		explain: "The table of mandatory classes is read from the type-checked composite literal and compared with the specification table database/mandatory.txt (names resolved through a table of the public specification); the lookup is analysed by abstract interpretation: a result is the entry of exactly the requested pair, nothing is returned only after every entry was compared.",
		assume:  []string{"classes and device types the library has no name for are not listed", "groups of mandatory.txt without a specific type are not listed"}}
	props["C26"] = &property{run: runC26,
		explain: "Constants are read from the type-checked source and compared with the codes of the public specification; the naming functions are abstractly interpreted and the resulting transfer function is tabulated for all 256 codes.",
	}
}

// ---- C24 ----

type devCC struct {
	id               int64
	nif, sec, nonsec bool
	version          string
}
type devVal struct {
	from, to   int64
	desc, unit string
}
type devParam struct {
	id, size int64
	name     string
	vals     []devVal
}
type devRec struct {
	brand, product, desc string
	man, typ, id         string
	ccs                  []devCC
	params               []devParam
	file                 string
}

// deviceDefs reads the device definitions the records are generated from
func deviceDefs(dir string) (map[string]*devRec, error) {
	fs, err := filepath.Glob(filepath.Join(dir, "database", "json", "*.json"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	out := map[string]*devRec{}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var d struct {
			Label, Decription string
			Man               string   `json:"manufacturer_name"`
			ManID             string   `json:"manufacturer_id"`
			Refs              []string `json:"device_ref"`
			Endpoints         []struct {
				CCs []struct {
					ID, Version            string
					Nif, Secure, Nonsecure bool
				} `json:"commandclasses"`
			}
			Parameters []struct {
				ID, Size int64
				Label    string
				Min      int64 `json:"value_min"`
				Max      int64 `json:"value_max"`
				Options  []struct {
					Value int64
					Label string
				}
			}
		}
		if err := json.Unmarshal(b, &d); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
		for _, ref := range d.Refs {
			p := strings.SplitN(ref+":", ":", 3)
			r := &devRec{brand: d.Man, product: d.Label, desc: d.Decription, man: d.ManID, typ: p[0], id: p[1], file: filepath.Base(f)}
			key := strings.ToLower(r.man + "_" + r.typ + "_" + r.id)
			if out[key] != nil {
				continue
			}
			if len(d.Endpoints) > 0 {
				for _, cc := range d.Endpoints[0].CCs {
					var v int64
					if cc.ID != "" {
						if _, err := fmt.Sscanf(cc.ID, "%x", &v); err != nil {
							return nil, fmt.Errorf("%s: %v", f, err)
						}
					}
					r.ccs = append(r.ccs, devCC{v, cc.Nif, cc.Secure, cc.Nonsecure, cc.Version})
				}
			}
			for _, q := range d.Parameters {
				np := devParam{id: q.ID, size: q.Size, name: q.Label}
				for _, o := range q.Options {
					np.vals = append(np.vals, devVal{o.Value, o.Value, o.Label, ""})
				}
				if len(q.Options) == 0 {
					np.vals = []devVal{{from: q.Min, to: q.Max}}
				}
				if np.id < 0 {
					np.id = 0
				}
				r.params = append(r.params, np)
			}
			out[key] = r
		}
	}
	return out, nil
}

// rec reads constant data out of a heap
type constReader struct {
	e   *Eng
	o   *State
	bad string
}

func (r *constReader) fail(format string, a ...interface{}) {
	if r.bad == "" {
		r.bad = fmt.Sprintf(format, a...)
	}
}

func (r *constReader) fieldOf(p *Term, t types.Type, name string) (*Term, types.Type) {
	if p == nil || t == nil {
		return nil, nil
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		r.fail("%s is not a structure", t)
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			ft := st.Field(i).Type()
			if p.op == OStruct {
				return p.args[i], ft
			}
			return r.e.load(r.o, Field(p, i, types.NewPointer(ft)), ft), ft
		}
	}
	r.fail("no field %s", name)
	return nil, nil
}

func (r *constReader) str(p *Term, t types.Type, name string) string {
	v, _ := r.fieldOf(p, t, name)
	if v == nil || v.op != OConst || v.k.Kind() != constant.String {
		r.fail("field %s is not constant", name)
		return ""
	}
	return constStr(v)
}

func (r *constReader) int(p *Term, t types.Type, name string) int64 {
	v, _ := r.fieldOf(p, t, name)
	if v == nil || v.op != OInt {
		r.fail("field %s is not constant", name)
		return 0
	}
	return v.n
}

func (r *constReader) bool(p *Term, t types.Type, name string) bool {
	v, _ := r.fieldOf(p, t, name)
	if v != tTrue && v != tFalse {
		r.fail("field %s is not constant", name)
	}
	return v == tTrue
}

// list returns the elements of a slice field and their (pointed to) type
func (r *constReader) list(p *Term, t types.Type, name string) ([]*Term, types.Type) {
	v, ft := r.fieldOf(p, t, name)
	if v == nil || v.op != OSlice {
		r.fail("field %s is not a known slice", name)
		return nil, nil
	}
	et := ft.Underlying().(*types.Slice).Elem()
	if pt, ok := et.Underlying().(*types.Pointer); ok {
		et = pt.Elem()
	}
	if v.args[2] == Int(0) {
		return nil, et
	}
	cont := r.e.sliceContent(r.o, v)
	if cont == nil {
		r.fail("content of %s unknown", name)
		return nil, nil
	}
	var out []*Term
	for _, g := range cont.args {
		if g.op != OSegLit {
			r.fail("content of %s unknown: %s", name, g)
			return nil, nil
		}
		out = append(out, g.args[0])
	}
	return out, et
}

func runC24(w *World, c *Check) {
	fn := w.fn("database", "New")
	dt := w.typ("database", "Device")
	if fn == nil || dt == nil || len(fn.Params) != 3 {
		return
	}
	defs, err := deviceDefs(w.dir)
	if err != nil || len(defs) < 100 {
		c.bad("definitions", "database/json", "", fmt.Sprint("the device definitions could not be read: ", len(defs), " found ", err))
		return
	}
	e := bigEng(w)
	e.retCap, e.blockCap = 100000, 100000
	makers := map[*Term]*ssa.Function{}
	e.hooks = append(e.hooks, func(ev *Event) {
		if ev.Kind == EvCall && ev.Callee != nil && ev.Callee != fn && ev.Callee.Pkg == fn.Pkg && len(ev.Callee.Params) == 0 && ev.Callee.Signature.Results().Len() == 1 {
			r := NamedSym("record "+ev.Callee.Name(), ev.Callee.Signature.Results().At(0).Type())
			makers[r] = ev.Callee
			ev.Val = r
		}
	})
	s := newState()
	args := rootArgs(e, s, fn)
	at := w.fname(fn)
	used := map[string]bool{}
	recs := map[*ssa.Function]*devRec{}
	misses := 0
	for _, o := range e.run(s, fn, args, nil) {
		if o.ret == nil {
			continue
		}
		if o.facts.nilness(o.ret) == 1 {
			misses++
			// nothing is returned only for other keys
			for k := range defs {
				o.facts.bl.each(func(id int, v *Term) {
					if b := termByID[id]; b != nil && b.op == OEq && v == tTrue {
						if got, ok := keyOf(b, args); ok && got == k {
							c.bad("lookup", k, at, "nothing is returned for a device that is defined"+trailStr(o))
						}
					}
				})
			}
			continue
		}
		key := ""
		o.facts.bl.each(func(id int, v *Term) {
			if b := termByID[id]; b != nil && b.op == OEq && v == tTrue {
				if k, ok := keyOf(b, args); ok {
					key = k
				}
			}
		})
		if key == "" {
			c.bad("lookup", "key of "+o.ret.String(), at, "a record is returned although the ids are not known to be those of one device"+trailStr(o))
			continue
		}
		mk := makers[o.ret]
		if mk == nil {
			c.bad("lookup", key, at, "the record returned for this device is not one that is built for it: "+o.ret.String())
			continue
		}
		d := defs[key]
		if d == nil {
			c.bad("lookup", key, at, "a record is returned for a device that is not defined in database/json")
			continue
		}
		c.ob("lookup", key, at, !used[key], "the device is looked up twice")
		used[key] = true
		r, why := recs[mk], ""
		if r == nil {
			r, why = readRecord(w, e.w, mk, dt)
			recs[mk] = r
		}
		c.fns[w.fname(mk)] = true
		if why == "" {
			why = diffRec(r, d)
		}
		c.ob("record", key, w.rel(mk.Pos()), why == "", "the record returned for this device ("+mk.Name()+") differs from its definition in "+d.file+": "+why)
	}
	for k, d := range defs {
		c.ob("defined", k, at, used[k], "the device defined in "+d.file+" is never returned")
	}
	c.ob("unknown", "ids that are not defined", at, misses > 0, "no path returns nothing")
	c.need("record", 100)
	c.engine(e, "none")
}

// keyOf decodes a comparison of the joined ids with a constant
func keyOf(b *Term, args []*Term) (string, bool) {
	x, k := b.args[0], b.args[1]
	if x.op == OConst {
		x, k = k, x
	}
	if k.op != OConst || k.k.Kind() != constant.String {
		return "", false
	}
	var parts []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.op == OBin && t.name == "+" {
			for _, a := range t.args {
				flat(a)
			}
			return
		}
		parts = append(parts, t)
	}
	flat(x)
	rest := constStr(k)
	if strings.Count(rest, "_") != 2 || len(parts) != 5 {
		return "", false
	}
	v := strings.Split(rest, "_")
	got := map[*Term]string{}
	for i, p := range parts {
		if i%2 == 1 {
			if p.op != OConst || constStr(p) != "_" {
				return "", false
			}
			continue
		}
		for p.op == OCall && len(p.args) == 1 && strings.HasSuffix(p.name, "ToLower") {
			p = p.args[0]
		}
		got[p] = v[i/2]
	}
	if len(got) != 3 {
		return "", false
	}
	for _, a := range args {
		if _, ok := got[a]; !ok {
			return "", false
		}
	}
	return got[args[0]] + "_" + got[args[1]] + "_" + got[args[2]], true
}

// readRecord analyses a record constructor
func readRecord(w *World, _ *World, mk *ssa.Function, dt types.Type) (*devRec, string) {
	e := bigEng(w)
	outs := e.run(newState(), mk, nil, nil)
	if e.gaveUp != "" || len(outs) != 1 || outs[0].ret == nil {
		return nil, "its constructor could not be evaluated " + e.gaveUp
	}
	r := &constReader{e: e, o: outs[0]}
	p := outs[0].ret
	d := &devRec{brand: r.str(p, dt, "Brand"), product: r.str(p, dt, "Product"), desc: r.str(p, dt, "Description"),
		man: r.str(p, dt, "ManufacturerID"), typ: r.str(p, dt, "ProductType"), id: r.str(p, dt, "ProductID")}
	l, et := r.list(p, dt, "CommandClasses")
	for _, x := range l {
		d.ccs = append(d.ccs, devCC{r.int(x, et, "ID"), r.bool(x, et, "InNIF"), r.bool(x, et, "Secure"), r.bool(x, et, "NonSecure"), r.str(x, et, "Version")})
	}
	l, et = r.list(p, dt, "Parameters")
	for _, x := range l {
		q := devParam{id: r.int(x, et, "ID"), size: r.int(x, et, "Size"), name: r.str(x, et, "Name")}
		vl, vt := r.list(x, et, "Values")
		for _, v := range vl {
			q.vals = append(q.vals, devVal{r.int(v, vt, "From"), r.int(v, vt, "To"), r.str(v, vt, "Desc"), r.str(v, vt, "Unit")})
		}
		d.params = append(d.params, q)
	}
	return d, r.bad
}

func diffRec(r, d *devRec) string {
	switch {
	case r.man != d.man || r.typ != d.typ || r.id != d.id:
		return fmt.Sprintf("it belongs to device %s_%s_%s", r.man, r.typ, r.id)
	case r.brand != d.brand:
		return fmt.Sprintf("brand is %q, defined is %q", r.brand, d.brand)
	case r.product != d.product:
		return fmt.Sprintf("product is %q, defined is %q", r.product, d.product)
	case r.desc != d.desc:
		return fmt.Sprintf("description is %q, defined is %q", r.desc, d.desc)
	case len(r.ccs) != len(d.ccs):
		return fmt.Sprintf("it has %d command classes, defined are %d", len(r.ccs), len(d.ccs))
	case len(r.params) != len(d.params):
		return fmt.Sprintf("it has %d parameters, defined are %d", len(r.params), len(d.params))
	}
	for i := range r.ccs {
		if r.ccs[i] != d.ccs[i] {
			return fmt.Sprintf("command class %d is %+v, defined is %+v", i+1, r.ccs[i], d.ccs[i])
		}
	}
	for i := range r.params {
		if fmt.Sprintf("%+v", r.params[i]) != fmt.Sprintf("%+v", d.params[i]) {
			return fmt.Sprintf("parameter %d is %+v, defined is %+v", i+1, r.params[i], d.params[i])
		}
	}
	return ""
}

// ---- C25 ----

// classNames: command classes of the public specification by the names used in mandatory.txt
var classNames = map[string]int64{
	"Application Status": 0x22, "Association": 0x85, "Association Group Information": 0x59, "Basic": 0x20,
	"Binary Switch": 0x25, "Central Scene": 0x5b, "CRC16": 0x56, "Device Reset Locally": 0x5a, "Manufacturer Specific": 0x72,
	"Meter": 0x32, "Multichannel Association": 0x8e, "Multi Channel": 0x60, "Multilevel Sensor": 0x31, "Multilevel Switch": 0x26,
	"Notification": 0x71, "Power Level": 0x73, "Security": 0x98, "Version": 0x86, "Z-Wave Plus Info": 0x5e,
	"Thermostat Mode": 0x40, "Thermostat Set Point": 0x43,
	// not named by the library
	"Screen Meta Data": -1, "Simple AV": -1, "Simple AV Control": -1, "Thermostat Setback": -1,
}

// deviceTypes: generic and specific device types of the public specification
var deviceTypes = map[string]int64{
	"GENERIC_TYPE_DISPLAY": 4, "GENERIC_TYPE_ENTRY_CONTROL": 0x40, "GENERIC_TYPE_GENERIC_CONTROLLER": 1, "GENERIC_TYPE_METER": 0x31,
	"GENERIC_TYPE_REPEATER_SLAVE": 0x0f, "GENERIC_TYPE_SENSOR_MULTILEVEL": 0x21, "GENERIC_TYPE_SENSOR_NOTIFICATION": 7,
	"GENERIC_TYPE_STATIC_CONTROLLER": 2, "GENERIC_TYPE_SWITCH_BINARY": 0x10, "GENERIC_TYPE_SWITCH_MULTILEVEL": 0x11,
	"GENERIC_TYPE_THERMOSTAT": 8, "GENERIC_TYPE_WALL_CONTROLLER": 0x18,
	"SPECIFIC_TYPE_SIMPLE_DISPLAY": 1, "SPECIFIC_TYPE_SECURE_BARRIER_ADDON": 7, "SPECIFIC_TYPE_SECURE_BARRIER_CLOSE_ONLY": 9,
	"SPECIFIC_TYPE_SECURE_BARRIER_OPEN_ONLY": 8, "SPECIFIC_TYPE_SECURE_DOOR": 5, "SPECIFIC_TYPE_SECURE_GATE": 6,
	"SPECIFIC_TYPE_SECURE_KEYPAD": 0x0b, "SPECIFIC_TYPE_SECURE_KEYPAD_DOOR_LOCK": 3, "SPECIFIC_TYPE_SECURE_LOCKBOX": 0x0a,
	"SPECIFIC_TYPE_PORTABLE_REMOTE_CONTROLLER": 1, "SPECIFIC_TYPE_REMOTE_CONTROL_AV": 4, "SPECIFIC_TYPE_REMOTE_CONTROL_SIMPLE": 6,
	"SPECIFIC_TYPE_SIMPLE_METER": 1, "SPECIFIC_TYPE_WHOLE_HOME_METER_SIMPLE": 3, "SPECIFIC_TYPE_REPEATER_SLAVE": 1,
	"SPECIFIC_TYPE_ROUTING_MULTILEVEL_SENSOR": 1, "SPECIFIC_TYPE_NOTIFICATION_SENSOR": 1, "SPECIFIC_TYPE_GATEWAY": 7,
	"SPECIFIC_TYPE_PC_CONTROLLER": 1, "SPECIFIC_TYPE_SET_TOP_BOX": 4, "SPECIFIC_TYPE_SUB_SYSTEM_CONTROLLER": 5, "SPECIFIC_TYPE_TV": 6,
	"SPECIFIC_TYPE_IRRIGATION_CONTROLLER": 7, "SPECIFIC_TYPE_POWER_STRIP": 4, "SPECIFIC_TYPE_POWER_SWITCH_BINARY": 1,
	"SPECIFIC_TYPE_SIREN": 5, "SPECIFIC_TYPE_VALVE_OPEN_CLOSE": 6, "SPECIFIC_TYPE_CLASS_A_MOTOR_CONTROL": 5,
	"SPECIFIC_TYPE_CLASS_B_MOTOR_CONTROL": 6, "SPECIFIC_TYPE_CLASS_C_MOTOR_CONTROL": 7, "SPECIFIC_TYPE_FAN_SWITCH": 8,
	"SPECIFIC_TYPE_POWER_SWITCH_MULTILEVEL": 1, "SPECIFIC_TYPE_SETBACK_THERMOSTAT": 5, "SPECIFIC_TYPE_THERMOSTAT_GENERAL_V2": 6,
	"SPECIFIC_TYPE_BASIC_WALL_CONTROLLER": 1,
}

func className(s string) (int64, bool) {
	if v, ok := classNames[s]; ok {
		return v, true
	}
	best := ""
	for n := range classNames {
		if strings.HasPrefix(s, n) && len(n) > len(best) {
			rest := s[len(n):]
			if strings.HasPrefix(rest, " (") || strings.HasPrefix(rest, "(") || strings.HasPrefix(rest, " -") || strings.HasPrefix(rest, " –") {
				best = n
			}
		}
	}
	return classNames[best], best != ""
}

// mandatorySpec reads the specification table
func mandatorySpec(dir string) (map[[2]int64][]int64, map[[2]int64]string, error) {
	b, err := os.ReadFile(filepath.Join(dir, "database", "mandatory.txt"))
	if err != nil {
		return nil, nil, err
	}
	out := map[[2]int64][]int64{}
	names := map[[2]int64]string{}
	var keys [][2]int64
	var cls []int64
	flush := func() {
		for _, k := range keys {
			out[k] = cls
		}
		keys, cls = nil, nil
	}
	sc := bufio.NewScanner(strings.NewReader(string(b)))
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		switch {
		case l == "":
			flush()
		case strings.HasPrefix(l, "#"):
			p := strings.Split(l, "-")
			if len(p) < 3 {
				return nil, nil, fmt.Errorf("%q is not understood", l)
			}
			g, s := strings.TrimSpace(p[len(p)-2]), strings.TrimSpace(p[len(p)-1])
			if s == "SPECIFIC_TYPE_NOT_USED" {
				continue
			}
			gv, ok1 := deviceTypes[g]
			sv, ok2 := deviceTypes[s]
			if !ok1 || !ok2 {
				return nil, nil, fmt.Errorf("device type %s / %s is not in the public specification", g, s)
			}
			keys = append(keys, [2]int64{gv, sv})
			names[[2]int64{gv, sv}] = g + "/" + s
		case strings.HasPrefix(l, "-"):
			n := strings.TrimSpace(strings.TrimLeft(l, "-"))
			v, ok := className(n)
			if !ok {
				return nil, nil, fmt.Errorf("command class %q is not known", n)
			}
			if v >= 0 {
				cls = append(cls, v)
			}
		}
	}
	flush()
	return out, names, sc.Err()
}

func runC25(w *World, c *Check) {
	fn := w.fn("database", "GetMandatoryCommandClasses")
	cct := w.typ("database", "CommandClass")
	ini := w.ssas["database"].Func("init")
	if fn == nil || cct == nil || ini == nil || len(fn.Params) != 2 {
		return
	}
	spec, names, err := mandatorySpec(w.dir)
	if err != nil || len(spec) < 10 {
		c.bad("specification", "database/mandatory.txt", "", fmt.Sprint("the specification table could not be read: ", err))
		return
	}
	// the lookup
	e := bigEng(w)
	s := newState()
	args := rootArgs(e, s, fn)
	match := func(o *State, k *Term, eq bool) bool {
		if k != nil && k.op != OStruct {
			k = expand(k, k.typ)
		}
		if k == nil || k.op != OStruct || len(k.args) != 2 {
			return false
		}
		gi, si := fieldNamed(k.typ, "Generic"), fieldNamed(k.typ, "Specific")
		if gi < 0 || si < 0 {
			return false
		}
		if eq {
			return o.facts.equalInt(k.args[gi], args[0]) && o.facts.equalInt(k.args[si], args[1])
		}
		x := o.clone()
		return !x.facts.addEq(toLin(Sub(k.args[gi], args[0]))) || !x.facts.addEq(toLin(Sub(k.args[si], args[1])))
	}
	at := w.fname(fn)
	var table *ssa.Global
	isTable := func(m *Term) bool {
		g := globalOf(m)
		if g != nil && table == nil {
			table = g
		}
		return g != nil && g == table
	}
	e.hooks = append(e.hooks, func(ev *Event) {
		switch ev.Kind {
		case EvMapRead:
			c.ob("lookup", "table read", w.pos(ev.Instr), isTable(ev.Ptr), "the classes are looked up in "+ev.Ptr.String()+", which is not the one table")
			if ev.Mode == 'r' {
				ev.S.setExtra("entry", ev.Args[0])
			} else if match(ev.S, ev.Args[0], true) {
				ev.S.setMon("all", "1")
			}
		case EvRangeEnd:
			ev.S.setMon("all", "1")
		case EvIter:
			if k := ev.S.extra["entry"]; k != nil && e.probe == 0 {
				c.ob("skip", "entries passed over", w.pos(ev.Instr), match(ev.S, k, false), "an entry is passed over that may be the one asked for"+trailStr(ev.S))
			}
		}
	})
	found := 0
	for _, o := range e.run(s, fn, args, nil) {
		if o.ret == nil {
			continue
		}
		src := sliceSource(o.ret)
		if src == nil || o.facts.nilness(o.ret) == 1 {
			c.ob("nothing", "pairs that are not listed", at, o.mon["all"] == "1", "nothing is returned without having compared every entry"+trailStr(o))
			continue
		}
		mv := o.extra["mapval"+itoa(src.id)]
		ok := mv != nil && isTable(mv.args[0]) && match(o, mv.args[1], true)
		if ok {
			found++
		}
		c.ob("found", "classes returned", at, ok, "the classes returned are "+o.ret.String()+", not the entry of the pair asked for"+trailStr(o))
	}
	c.ob("found", "some path finds an entry", at, found > 0, "no path returns the entry of the pair asked for")
	c.engine(e, "none")
	if table == nil {
		c.bad("table", "not found", at, "the table of mandatory classes could not be found")
		return
	}
	// the table
	e2 := bigEng(w)
	e2.followGo = false
	type entry struct{ k, v *Term }
	var entries []entry
	e2.hooks = append(e2.hooks, func(ev *Event) {
		if ev.Kind == EvMapSet && len(ev.Args) > 0 && ev.Args[0].op == OStruct && e2.probe == 0 {
			entries = append(entries, entry{ev.Args[0], ev.Val})
		}
		if ev.Kind == EvCall && ev.Callee != nil && ev.Callee.Name() == "init" && ev.Callee != ini {
			ev.Val = Tuple()
		}
	})
	var last *State
	for _, o := range e2.run(newState(), ini, nil, nil) {
		last = o
	}
	_ = names
	if last == nil || e2.gaveUp != "" {
		c.bad("table", "initialisation", "", "the initialisation of the table could not be evaluated "+e2.gaveUp)
		return
	}
	seen := map[[2]int64]bool{}
	for _, en := range entries {
		gi, si := fieldNamed(en.k.typ, "Generic"), fieldNamed(en.k.typ, "Specific")
		if gi < 0 || en.k.args[gi].op != OInt || en.k.args[si].op != OInt {
			c.bad("table", "key "+en.k.String(), "", "the key of an entry is not constant")
			continue
		}
		k := [2]int64{en.k.args[gi].n, en.k.args[si].n}
		name := fmt.Sprintf("0x%02x/0x%02x %s", k[0], k[1], names[k])
		r := &constReader{e: e2, o: last}
		l, et := r.list(Struct(wrapS, en.v), wrapS2(en.v.typ), "v")
		var got []int64
		for _, x := range l {
			got = append(got, r.int(x, et, "ID"))
		}
		want, ok := spec[k]
		c.ob("table", name, "", ok && !seen[k], "an entry exists for a pair the specification does not list")
		seen[k] = true
		c.ob("classes", name, "", r.bad == "" && fmt.Sprint(sortedInts(got)) == fmt.Sprint(sortedInts(want)), fmt.Sprintf("the classes are %x, the specification lists %x %s", got, want, r.bad))
	}
	for k := range spec {
		c.ob("listed", names[k], "", seen[k], "the specification lists this pair, the table does not")
	}
	// nobody changes the table
	if st, ok := cct.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			c.ob("unchanged", "CommandClass."+f.Name(), "", len(w.stores[f]) == 0 || w.frozen[f], "the field is changed after the record was built, which may change the shared table")
		}
	}
	for _, f := range w.fns {
		if f == ini || f.Pkg == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if mt, ok := x.Map.Type().Underlying().(*types.Map); !ok || !types.Identical(mt, table.Type().(*types.Pointer).Elem().Underlying()) {
						continue
					}
					c.ob("unchanged", w.fname(f), w.pos(in), !loadsGlobal(x.Map, table), "the table is changed at run time")
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						c.ob("unchanged", w.fname(f), w.pos(in), g != table, "the table is replaced at run time")
					}
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && !w.underConstruction(ia.X, 0) {
						if st, ok := ia.X.Type().Underlying().(*types.Slice); ok {
							if pt, ok := st.Elem().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), cct) {
								c.bad("unchanged", w.fname(f), w.pos(in), "an entry of a list of command classes, which may be the shared table, is overwritten")
							}
						}
					}
				}
			}
		}
	}
}

var wrapS types.Type

// wrapS2 makes a one-field structure type so that a slice can be read like a field
func wrapS2(t types.Type) types.Type {
	return types.NewStruct([]*types.Var{types.NewField(0, nil, "v", t, false)}, nil)
}

func sortedInts(l []int64) []int64 {
	l = append([]int64{}, l...)
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func loadsGlobal(v ssa.Value, g *ssa.Global) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.X == ssa.Value(g)
}

func fieldNamed(t types.Type, n string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return i
		}
	}
	return -1
}

func sliceSource(v *Term) *Term {
	if v == nil || v.op != OSlice {
		return nil
	}
	if a := v.args[0]; a.op == OCall && a.name == "arr" {
		return a.args[0]
	}
	return nil
}

func globalOf(m *Term) *ssa.Global {
	for m != nil {
		if m.op == OGlobal {
			return m.glob
		}
		if len(m.args) == 0 {
			return nil
		}
		m = m.args[0]
	}
	return nil
}

// ---- C26 ----

// codes of the public specification, by the names the library uses
var specClasses = map[string]int64{
	"Basic": 0x20, "ControllerReplication": 0x21, "ApplicationStatus": 0x22, "SwitchBinary": 0x25, "SwitchMultilevel": 0x26,
	"SwitchAll": 0x27, "SwitchToggleBinary": 0x28, "SwitchToggleMultilevel": 0x29, "SceneActivation": 0x2B, "SceneActuatorConf": 0x2C,
	"SensorBinary": 0x30, "SensorMultiLevel": 0x31, "Meter": 0x32, "MeterPulse": 0x35, "ThermostatMode": 0x40,
	"ThermostatOperatingState": 0x42, "ThermostatSetpoint": 0x43, "ThermostatFanMode": 0x44, "ThermostatFanState": 0x45, "ClimateControlSchedule": 0x46,
	"BasicWindowCovering": 0x50, "CRC16Encap": 0x56, "AssociationGRPInfo": 0x59, "DeviceResetLocally": 0x5a, "CentralScenev2": 0x5b,
	"ZwavePlusInfov2": 0x5e, "MultiInstance": 0x60, "Configuration": 0x70, "Alarm": 0x71, "ManufacturerSpecific": 0x72,
	"PowerLevel": 0x73, "Protection": 0x75, "Lock": 0x76, "NodeNaming": 0x77, "FirmwareUpdateMDv3": 0x7a,
	"Battery": 0x80, "Clock": 0x81, "Hail": 0x82, "WakeUp": 0x84, "Association": 0x85,
	"Version": 0x86, "Indicator": 0x87, "Proprietary": 0x88, "Language": 0x89, "MultiInstanceAssociation": 0x8e,
	"MultiCmd": 0x8F, "EnergyProduction": 0x90, "ManufacturerProprietary": 0x91, "Security": 0x98, "AssociationCommandConfiguration": 0x9b,
	"Mark": 0xEF,
}

var specFunctions = map[string]int64{
	"None": 0x00, "DiscoveryNodes": 0x02, "SerialApiApplNodeInformation": 0x03, "ApplicationCommandHandler": 0x04, "GetControllerCapabilities": 0x05,
	"SerialApiSetTimeouts": 0x06, "SerialGetCapabilities": 0x07, "SerialApiSoftReset": 0x08, "SetRFReceiveMode": 0x10, "SetSleepMode": 0x11,
	"SendNodeInformation": 0x12, "SendData": 0x13, "SendDataMulti": 0x14, "GetVersion": 0x15, "SendDataAbort": 0x16,
	"RFPowerLevelSet": 0x17, "SendDataMeta": 0x18, "MemoryGetId": 0x20, "MemoryGetByte": 0x21, "MemoryPutByte": 0x22,
	"MemoryGetBuffer": 0x23, "MemoryPutBuffer": 0x24, "ReadMemory": 0x25, "ClockSet": 0x30, "ClockGet": 0x31,
	"ClockCompare": 0x32, "RtcTimerCreate": 0x33, "RtcTimerRead": 0x34, "RtcTimerDelete": 0x35, "RtcTimerCall": 0x36,
	"GetNodeProtocolInfo": 0x41, "SetDefault": 0x42, "ReplicationCommandComplete": 0x44, "ReplicationSendData": 0x45, "AssignReturnRoute": 0x46,
	"DeleteReturnRoute": 0x47, "RequestNodeNeighborUpdate": 0x48, "ApplicationUpdate": 0x49, "AddNodeToNetwork": 0x4a, "RemoveNodeFromNetwork": 0x4b,
	"CreateNewPrimary": 0x4c, "ControllerChange": 0x4d, "SetLearnMode": 0x50, "AssignSucReturnRoute": 0x51, "EnableSuc": 0x52,
	"RequestNetworkUpdate": 0x53, "SetSucNodeId": 0x54, "DeleteSucReturnRoute": 0x55, "GetSucNodeId": 0x56, "SendSucId": 0x57,
	"RediscoveryNeeded": 0x59, "RequestNodeInfo": 0x60, "RemoveFailedNodeId": 0x61, "IsFailedNode": 0x62, "ReplaceFailedNode": 0x63,
	"TimerStart": 0x70, "TimerRestart": 0x71, "TimerCancel": 0x72, "TimerCall": 0x73, "GetRoutingTableLine": 0x80,
	"GetTXCounter": 0x81, "ResetTXCounter": 0x82, "StoreNodeInfo": 0x83, "StoreHomeId": 0x84, "LockRouteResponse": 0x90,
	"SendDataRouteDemo": 0x91, "SerialApiTest": 0x95, "SerialApiSlaveNodeInfo": 0xa0, "ApplicationSlaveCommandHandler": 0xa1, "SendSlaveNodeInfo": 0xa2,
	"SendSlaveData": 0xa3, "SetSlaveLearnMode": 0xa4, "GetVirtualNodes": 0xa5, "IsVirtualNode": 0xa6, "SetPromiscuousMode": 0xd0,
}

var specDevices = map[string]int64{
	"BASIC_TYPE_CONTROLLER": 0x01, "BASIC_TYPE_ROUTING_SLAVE": 0x04, "BASIC_TYPE_SLAVE": 0x03, "BASIC_TYPE_STATIC_CONTROLLER": 0x02, "GENERIC_TYPE_GENERIC_CONTROLLER": 0x01,
	"SPECIFIC_TYPE_GENERIC_CONTROLLER_NOT_USED": 0x00, "SPECIFIC_TYPE_PORTABLE_REMOTE_CONTROLLER": 0x01, "SPECIFIC_TYPE_PORTABLE_SCENE_CONTROLLER": 0x02, "SPECIFIC_TYPE_PORTABLE_INSTALLER_TOOL": 0x03, "SPECIFIC_TYPE_REMOTE_CONTROL_AV": 0x04,
	"SPECIFIC_TYPE_REMOTE_CONTROL_SIMPLE": 0x06, "GENERIC_TYPE_STATIC_CONTROLLER": 0x02, "SPECIFIC_TYPE_STATIC_CONTROLLER_NOT_USED": 0x00, "SPECIFIC_TYPE_PC_CONTROLLER": 0x01, "SPECIFIC_TYPE_SCENE_CONTROLLER": 0x02,
	"SPECIFIC_TYPE_STATIC_INSTALLER_TOOL": 0x03, "SPECIFIC_TYPE_SET_TOP_BOX": 0x04, "SPECIFIC_TYPE_SUB_SYSTEM_CONTROLLER": 0x05, "SPECIFIC_TYPE_TV": 0x06, "SPECIFIC_TYPE_GATEWAY": 0x07,
	"GENERIC_TYPE_AV_CONTROL_POINT": 0x03, "SPECIFIC_TYPE_AV_CONTROL_POINT_NOT_USED": 0x00, "SPECIFIC_TYPE_DOORBELL": 0x12, "SPECIFIC_TYPE_SATELLITE_RECEIVER": 0x04, "SPECIFIC_TYPE_SATELLITE_RECEIVER_V2": 0x11,
	"GENERIC_TYPE_DISPLAY": 0x04, "SPECIFIC_TYPE_DISPLAY_NOT_USED": 0x00, "SPECIFIC_TYPE_SIMPLE_DISPLAY": 0x01, "GENERIC_TYPE_NETWORK_EXTENDER": 0x05, "SPECIFIC_TYPE_NETWORK_EXTENDER_NOT_USED": 0x00,
	"SPECIFIC_TYPE_SECURE_EXTENDER": 0x01, "GENERIC_TYPE_APPLIANCE": 0x06, "SPECIFIC_TYPE_APPLIANCE_NOT_USED": 0x00, "SPECIFIC_TYPE_GENERAL_APPLIANCE": 0x01, "SPECIFIC_TYPE_KITCHEN_APPLIANCE": 0x02,
	"SPECIFIC_TYPE_LAUNDRY_APPLIANCE": 0x03, "GENERIC_TYPE_SENSOR_NOTIFICATION": 0x07, "SPECIFIC_TYPE_SENSOR_NOTIFICATION_NOT_USED": 0x00, "SPECIFIC_TYPE_NOTIFICATION_SENSOR": 0x01, "GENERIC_TYPE_THERMOSTAT": 0x08,
	"SPECIFIC_TYPE_THERMOSTAT_NOT_USED": 0x00, "SPECIFIC_TYPE_SETBACK_SCHEDULE_THERMOSTAT": 0x03, "SPECIFIC_TYPE_SETBACK_THERMOSTAT": 0x05, "SPECIFIC_TYPE_SETPOINT_THERMOSTAT": 0x04, "SPECIFIC_TYPE_THERMOSTAT_GENERAL": 0x02,
	"SPECIFIC_TYPE_THERMOSTAT_GENERAL_V2": 0x06, "SPECIFIC_TYPE_THERMOSTAT_HEATING": 0x01, "GENERIC_TYPE_WINDOW_COVERING": 0x09, "SPECIFIC_TYPE_WINDOW_COVERING_NOT_USED": 0x00, "SPECIFIC_TYPE_SIMPLE_WINDOW_COVERING": 0x01,
	"GENERIC_TYPE_REPEATER_SLAVE": 0x0F, "SPECIFIC_TYPE_REPEATER_SLAVE_NOT_USED": 0x00, "SPECIFIC_TYPE_REPEATER_SLAVE": 0x01, "SPECIFIC_TYPE_VIRTUAL_NODE": 0x02, "GENERIC_TYPE_SWITCH_BINARY": 0x10,
	"SPECIFIC_TYPE_SWITCH_BINARY_NOT_USED": 0x00, "SPECIFIC_TYPE_POWER_SWITCH_BINARY": 0x01, "SPECIFIC_TYPE_SCENE_SWITCH_BINARY": 0x03, "SPECIFIC_TYPE_POWER_STRIP": 0x04, "SPECIFIC_TYPE_SIREN": 0x05,
	"SPECIFIC_TYPE_VALVE_OPEN_CLOSE": 0x06, "SPECIFIC_TYPE_COLOR_TUNABLE_BINARY": 0x02, "SPECIFIC_TYPE_IRRIGATION_CONTROLLER": 0x07, "GENERIC_TYPE_SWITCH_MULTILEVEL": 0x11, "SPECIFIC_TYPE_SWITCH_MULTILEVEL_NOT_USED": 0x00,
	"SPECIFIC_TYPE_CLASS_A_MOTOR_CONTROL": 0x05, "SPECIFIC_TYPE_CLASS_B_MOTOR_CONTROL": 0x06, "SPECIFIC_TYPE_CLASS_C_MOTOR_CONTROL": 0x07, "SPECIFIC_TYPE_MOTOR_MULTIPOSITION": 0x03, "SPECIFIC_TYPE_POWER_SWITCH_MULTILEVEL": 0x01,
	"SPECIFIC_TYPE_SCENE_SWITCH_MULTILEVEL": 0x04, "SPECIFIC_TYPE_FAN_SWITCH": 0x08, "SPECIFIC_TYPE_COLOR_TUNABLE_MULTILEVEL": 0x02, "GENERIC_TYPE_SWITCH_REMOTE": 0x12, "SPECIFIC_TYPE_SWITCH_REMOTE_NOT_USED": 0x00,
	"SPECIFIC_TYPE_SWITCH_REMOTE_BINARY": 0x01, "SPECIFIC_TYPE_SWITCH_REMOTE_MULTILEVEL": 0x02, "SPECIFIC_TYPE_SWITCH_REMOTE_TOGGLE_BINARY": 0x03, "SPECIFIC_TYPE_SWITCH_REMOTE_TOGGLE_MULTILEVEL": 0x04, "GENERIC_TYPE_SWITCH_TOGGLE": 0x13,
	"SPECIFIC_TYPE_SWITCH_TOGGLE_NOT_USED": 0x00, "SPECIFIC_TYPE_SWITCH_TOGGLE_BINARY": 0x01, "SPECIFIC_TYPE_SWITCH_TOGGLE_MULTILEVEL": 0x02, "GENERIC_TYPE_ZIP_NODE": 0x15, "SPECIFIC_TYPE_ZIP_NODE_NOT_USED": 0x00,
	"SPECIFIC_TYPE_ZIP_ADV_NODE": 0x02, "SPECIFIC_TYPE_ZIP_TUN_NODE": 0x01, "GENERIC_TYPE_VENTILATION": 0x16, "SPECIFIC_TYPE_VENTILATION_NOT_USED": 0x00, "SPECIFIC_TYPE_RESIDENTIAL_HRV": 0x01,
	"GENERIC_TYPE_SECURITY_PANEL": 0x17, "SPECIFIC_TYPE_SECURITY_PANEL_NOT_USED": 0x00, "SPECIFIC_TYPE_ZONED_SECURITY_PANEL": 0x01, "GENERIC_TYPE_WALL_CONTROLLER": 0x18, "SPECIFIC_TYPE_WALL_CONTROLLER_NOT_USED": 0x00,
	"SPECIFIC_TYPE_BASIC_WALL_CONTROLLER": 0x01, "GENERIC_TYPE_SENSOR_BINARY": 0x20, "SPECIFIC_TYPE_SENSOR_BINARY_NOT_USED": 0x00, "SPECIFIC_TYPE_ROUTING_SENSOR_BINARY": 0x01, "GENERIC_TYPE_SENSOR_MULTILEVEL": 0x21,
	"SPECIFIC_TYPE_SENSOR_MULTILEVEL_NOT_USED": 0x00, "SPECIFIC_TYPE_ROUTING_MULTILEVEL_SENSOR": 0x01, "SPECIFIC_TYPE_CHIMNEY_FAN": 0x02, "GENERIC_TYPE_METER_PULSE": 0x30, "SPECIFIC_TYPE_METER_PULSE_NOT_USED": 0x00,
	"GENERIC_TYPE_METER": 0x31, "SPECIFIC_TYPE_METER_NOT_USED": 0x00, "SPECIFIC_TYPE_SIMPLE_METER": 0x01, "SPECIFIC_TYPE_ADV_ENERGY_CONTROL": 0x02, "SPECIFIC_TYPE_WHOLE_HOME_METER_SIMPLE": 0x03,
	"GENERIC_TYPE_ENTRY_CONTROL": 0x40, "SPECIFIC_TYPE_ENTRY_CONTROL_NOT_USED": 0x00, "SPECIFIC_TYPE_DOOR_LOCK": 0x01, "SPECIFIC_TYPE_ADVANCED_DOOR_LOCK": 0x02, "SPECIFIC_TYPE_SECURE_KEYPAD_DOOR_LOCK": 0x03,
	"SPECIFIC_TYPE_SECURE_KEYPAD_DOOR_LOCK_DEADBOLT": 0x04, "SPECIFIC_TYPE_SECURE_DOOR": 0x05, "SPECIFIC_TYPE_SECURE_GATE": 0x06, "SPECIFIC_TYPE_SECURE_BARRIER_ADDON": 0x07, "SPECIFIC_TYPE_SECURE_BARRIER_OPEN_ONLY": 0x08,
	"SPECIFIC_TYPE_SECURE_BARRIER_CLOSE_ONLY": 0x09, "SPECIFIC_TYPE_SECURE_LOCKBOX": 0x0A, "SPECIFIC_TYPE_SECURE_KEYPAD": 0x0B, "GENERIC_TYPE_SEMI_INTEROPERABLE": 0x50, "SPECIFIC_TYPE_SEMI_INTEROPERABLE_NOT_USED": 0x00,
	"SPECIFIC_TYPE_ENERGY_PRODUCTION": 0x01, "GENERIC_TYPE_SENSOR_ALARM": 0xA1, "SPECIFIC_TYPE_SENSOR_ALARM_NOT_USED": 0x00, "SPECIFIC_TYPE_ADV_ZENSOR_NET_ALARM_SENSOR": 0x05, "SPECIFIC_TYPE_ADV_ZENSOR_NET_SMOKE_SENSOR": 0x0A,
	"SPECIFIC_TYPE_BASIC_ROUTING_ALARM_SENSOR": 0x01, "SPECIFIC_TYPE_BASIC_ROUTING_SMOKE_SENSOR": 0x06, "SPECIFIC_TYPE_BASIC_ZENSOR_NET_ALARM_SENSOR": 0x03, "SPECIFIC_TYPE_BASIC_ZENSOR_NET_SMOKE_SENSOR": 0x08, "SPECIFIC_TYPE_ROUTING_ALARM_SENSOR": 0x02,
	"SPECIFIC_TYPE_ROUTING_SMOKE_SENSOR": 0x07, "SPECIFIC_TYPE_ZENSOR_NET_ALARM_SENSOR": 0x04, "SPECIFIC_TYPE_ZENSOR_NET_SMOKE_SENSOR": 0x09, "SPECIFIC_TYPE_ALARM_SENSOR": 0x0B, "GENERIC_TYPE_NON_INTEROPERABLE": 0xFF,
	"SPECIFIC_TYPE_NON_INTEROPERABLE_NOT_USED": 0x00,
}

func runC26(w *World, c *Check) {
	family(w, c, "commands", "ZWaveCommand", specClasses, 40)
	family(w, c, "serialapi", "ZWaveFunction", specFunctions, 50)
	for n, v := range packageConsts(w, "protocol", "") {
		if want, ok := specDevices[n]; ok {
			c.ob("device type", n, "", v == want, fmt.Sprintf("the code is 0x%02x, the public specification has 0x%02x", v, want))
		}
	}
	c.need("device type", 100)
}

// packageConsts lists the codes a package declares: the constants of its largest declarations (other constants,
// such as limits, are no codes), and those of the given type
func packageConsts(w *World, rel, typ string) map[string]int64 {
	out := map[string]int64{}
	p := w.pkgs[rel]
	if p == nil {
		w.missing = append(w.missing, rel)
		return out
	}
	for _, file := range p.Syntax {
		for _, d := range file.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.CONST {
				continue
			}
			for _, sp := range g.Specs {
				for _, id := range sp.(*ast.ValueSpec).Names {
					k, ok := p.TypesInfo.Defs[id].(*types.Const)
					if !ok || k.Val().Kind() != constant.Int {
						continue
					}
					if n, ok := k.Type().(*types.Named); typ != "" && len(g.Specs) < 20 && !(ok && n.Obj().Name() == typ) {
						continue
					}
					if v, ok := constant.Int64Val(k.Val()); ok && id.Name != "_" {
						out[id.Name] = v
					}
				}
			}
		}
	}
	return out
}

func family(w *World, c *Check, rel, typ string, spec map[string]int64, min int) {
	fn := w.meth(rel, typ, "String")
	ks := packageConsts(w, rel, typ)
	if fn == nil {
		return
	}
	var ns []string
	for n := range ks {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	// values
	byVal := map[int64]string{}
	n := 0
	for _, k := range ns {
		v := ks[k]
		if v < 0 || v > 255 {
			continue
		}
		n++
		c.ob("distinct", rel+"."+k, "", byVal[v] == "", fmt.Sprintf("0x%02x is also the code of %s", v, byVal[v]))
		byVal[v] = k
		if want, ok := spec[k]; ok {
			c.ob("code", rel+"."+k, "", v == want, fmt.Sprintf("the code is 0x%02x, the public specification has 0x%02x", v, want))
		}
	}
	c.ob("codes", rel, "", n >= min, fmt.Sprintf("only %d codes found", n))
	// names: tabulate the naming function
	e := bigEng(w)
	s := newState()
	args := rootArgs(e, s, fn)
	names := map[int64]string{}
	got := map[int64]bool{}
	for _, o := range e.run(s, fn, args, nil) {
		f := factFilter(o, []*Term{args[0]})
		for v := int64(0); v < 256; v++ {
			if !f(evalEnv{args[0]: v}) {
				continue
			}
			r, ok := evalTerm(o.ret, evalEnv{args[0]: v})
			str, isStr := r.(string)
			if !ok || !isStr {
				if byVal[v] != "" {
					c.bad("name", fmt.Sprintf("%s 0x%02x", rel, v), w.fname(fn), "the name of this code is not known: "+o.ret.String())
				}
				continue
			}
			names[v], got[v] = str, true
		}
	}
	c.engine(e, "none")
	owner := map[string]int64{}
	for v := int64(0); v < 256; v++ {
		if k := byVal[v]; k != "" {
			c.ob("name", rel+"."+k, w.fname(fn), names[v] == k, fmt.Sprintf("code 0x%02x is rendered as %q", v, names[v]))
		} else if got[v] && names[v] != "" {
			// an unknown code never carries the name of a known one
			_, other := ks[names[v]]
			c.ob("unknown", fmt.Sprintf("%s 0x%02x", rel, v), w.fname(fn), !other, fmt.Sprintf("unknown code 0x%02x is rendered as %q, which is another code", v, names[v]))
		}
		if byVal[v] != "" && names[v] != "" {
			o, dup := owner[names[v]]
			c.ob("unique", fmt.Sprintf("%s %q", rel, names[v]), w.fname(fn), !dup, fmt.Sprintf("codes 0x%02x and 0x%02x have the same name", o, v))
			owner[names[v]] = v
		}
	}
}
