package main

// C21: what is saved is what is loaded

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C21"] = &property{run: runC21,
		explain: "The types reachable from the controller are walked by the rules of encoding/json: exported fields, tags, embedding, dominance of equal names. Every required item must be written under exactly one name that no other field of its object takes, with a type that decodes to what was encoded (no interfaces, functions, channels or locks, no encoder without a decoder), and the types encoded and decoded must be the same. Own encoders and decoders are interpreted abstractly: an encoder of one type may only encode the value itself under a type with the same fields; the list must encode a map that holds every node under a key made injectively from its own key, and put every decoded node into its map; loading must put every decoded node into the controller's list and may fill in only what was missing.",
		assume:  []string{"encoding/json behaves as documented; text is valid UTF-8 and numbers are finite."}}
}

// jsonField is one item of the encoding of a struct
type jsonField struct {
	name  string
	path  []*types.Var
	depth int
	tag   bool
}

type persist struct {
	w     *World
	c     *Check
	seen  map[string]bool
	kept  map[*types.Var]string // persisted fields -> name
	types []*types.Named
}

func isStructPtr(t types.Type) (*types.Struct, bool) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	return st, ok
}

// fieldsOf lists what encoding/json writes for a struct
func (p *persist) fieldsOf(t types.Type) (out []jsonField, lost []jsonField) {
	var all []jsonField
	var rec func(st *types.Struct, path []*types.Var, depth int, on map[*types.Struct]bool)
	rec = func(st *types.Struct, path []*types.Var, depth int, on map[*types.Struct]bool) {
		if on[st] {
			return
		}
		on[st] = true
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			name := strings.Split(tag, ",")[0]
			sub, isSt := isStructPtr(f.Type())
			if f.Embedded() {
				if !f.Exported() && !isSt {
					continue
				}
				if name == "" && isSt {
					if _, ptr := f.Type().(*types.Pointer); ptr && !f.Exported() && len(sub2(p, f.Type())) > 0 {
						p.c.ob("decodable", typStr(t)+"."+f.Name(), p.w.rel(f.Pos()), false, "an embedded pointer to an unexported struct with encoded fields cannot be decoded")
					}
					rec(sub, append(append([]*types.Var{}, path...), f), depth+1, on)
					continue
				}
			} else if !f.Exported() {
				continue
			}
			tagged := name != ""
			if name == "" {
				name = f.Name()
			}
			all = append(all, jsonField{name: name, path: append(append([]*types.Var{}, path...), f), depth: depth, tag: tagged})
		}
	}
	st, _ := isStructPtr(t)
	rec(st, nil, 0, map[*types.Struct]bool{})
	by := map[string][]jsonField{}
	for _, f := range all {
		by[f.name] = append(by[f.name], f)
	}
	for _, f := range all {
		win := true
		for _, g := range by[f.name] {
			if g.path[len(g.path)-1] == f.path[len(f.path)-1] {
				continue
			}
			if g.depth < f.depth || g.depth == f.depth && (g.tag || !f.tag) {
				win = false
			}
		}
		if win {
			out = append(out, f)
		} else {
			lost = append(lost, f)
		}
	}
	return
}

func sub2(p *persist, t types.Type) []jsonField {
	st, _ := isStructPtr(t)
	var out []jsonField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Exported() && reflect.StructTag(st.Tag(i)).Get("json") != "-" {
			out = append(out, jsonField{})
		}
	}
	return out
}

func ownMethod(t types.Type, name string) (*types.Func, bool) {
	n, ok := t.(*types.Named)
	if !ok {
		return nil, false
	}
	obj, path, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), name)
	f, ok := obj.(*types.Func)
	if !ok {
		return nil, false
	}
	return f, len(path) == 1
}

// walk checks that a value of type t comes back as it was; at names the place
func (p *persist) walk(t types.Type, at, pos string) {
	const safe, names = "what is encoded can be decoded", "every item has its own name"
	c := p.c
	if n, ok := t.(*types.Named); ok {
		k := typStr(n)
		if p.seen[k] {
			return
		}
		p.seen[k] = true
		if o := n.Obj().Pkg(); o != nil && o.Path() == "sync" {
			c.ob(safe, at, pos, false, "a lock is persisted")
			return
		}
		var have []string
		for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
			if _, own := ownMethod(n, m); own {
				have = append(have, m)
			} else if f, _ := ownMethod(n, m); f != nil {
				c.ob(safe, k+": "+m, pos, false, "the encoding of "+k+" is taken over by the method "+m+" of an embedded type: its own fields are not persisted")
				return
			}
		}
		if len(have) > 0 {
			p.types = append(p.types, n)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		c.ob(safe, at, pos, u.Info()&(types.IsInteger|types.IsBoolean|types.IsString|types.IsFloat) != 0 && u.Kind() != types.Uintptr && u.Kind() != types.UnsafePointer, typStr(t)+" cannot be encoded")
	case *types.Pointer:
		p.walk(u.Elem(), at, pos)
	case *types.Slice:
		p.walk(u.Elem(), at+"[]", pos)
	case *types.Array:
		p.walk(u.Elem(), at+"[]", pos)
	case *types.Map:
		b, ok := u.Key().Underlying().(*types.Basic)
		_, own := ownMethod(u.Key(), "MarshalText")
		c.ob(safe, at, pos, ok && b.Info()&(types.IsInteger|types.IsString) != 0 && !own, "the keys of "+typStr(t)+" cannot be restored")
		p.walk(u.Elem(), at+"[]", pos)
	case *types.Struct:
		fs, lost := p.fieldsOf(t)
		for _, f := range lost {
			v := f.path[len(f.path)-1]
			c.ob(names, typStr(t)+"."+v.Name(), p.w.rel(v.Pos()), false, "the name "+f.name+" is used by another field too: "+v.Name()+" is not persisted")
		}
		for _, f := range fs {
			v := f.path[len(f.path)-1]
			at := typStr(t) + "." + v.Name()
			c.ob(names, at, p.w.rel(v.Pos()), true, "")
			p.kept[v] = f.name
			p.walk(v.Type(), at, p.w.rel(v.Pos()))
		}
	default:
		c.ob(safe, at, pos, false, typStr(t)+" cannot be restored from a configuration")
	}
}

func runC21(w *World, c *Check) {
	const required, own, chain, load, same = "every item is persisted", "own encoders encode the value itself", "no node is left out", "loading keeps what was saved", "what is decoded has the type that was encoded"
	ctl := w.typ("", "Controller")
	node := w.typ("nodes", "Node")
	list := w.typ("nodes", "List")
	var need []*types.Var
	for _, n := range [][3]string{
		{"", "Controller", "Nodes"},
		{"nodes", "Node", "Id"}, {"nodes", "Node", "IsAwake"}, {"nodes", "Node", "ManufacurerSpecific"}, {"nodes", "Node", "Brand"}, {"nodes", "Node", "Product"}, {"nodes", "Node", "Description"},
		{"nodes", "Node", "CommandClasses"}, {"nodes", "Node", "Endpoints"}, {"nodes", "Node", "StateBool"}, {"nodes", "Node", "StateFloat"},
		{"nodes", "Endpoint", "Id"}, {"nodes", "Endpoint", "CommandClasses"}, {"nodes", "Endpoint", "StateBool"}, {"nodes", "Endpoint", "StateFloat"},
		{"commands/reports", "ManufacturerSpecific", "Manufacturer"}, {"commands/reports", "ManufacturerSpecific", "Type"}, {"commands/reports", "ManufacturerSpecific", "ID"},
		{"database", "CommandClass", "ID"},
	} {
		need = append(need, w.field(n[0], n[1], n[2]))
	}
	nodesF := w.fieldLike("nodes", "List", "nodes", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	if len(w.missing) > 0 {
		return
	}
	p := &persist{w: w, c: c, seen: map[string]bool{}, kept: map[*types.Var]string{}}
	p.walk(ctl, "Controller", "")
	p.walk(node, "Node", "")
	for _, v := range need {
		c.ob(required, v.Name()+" "+w.rel(v.Pos()), w.rel(v.Pos()), p.kept[v] != "", "the field "+v.Name()+" is not persisted (unexported, excluded, or hidden by another field)")
	}
	// fields nobody listed, but that can be persisted, are; those that cannot be are not state to restore
	isNodeMap := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && types.Identical(m.Elem(), types.NewPointer(node))
	}

	// the encoders
	var encoded []types.Type // what the list is encoded as
	for _, n := range p.types {
		k := typStr(n)
		mk1 := map[string]*ssa.Function{}
		for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
			if f, ok := ownMethod(n, m); ok {
				mk1[m] = w.prog.FuncValue(f)
			}
		}
		if mk1["MarshalText"] != nil || mk1["UnmarshalText"] != nil {
			c.ob(own, k, w.rel(n.Obj().Pos()), false, "the text form of "+k+" is not understood by this analysis: it is not known that it is restored")
			continue
		}
		if types.Identical(n, list) {
			continue
		}
		for _, m := range []string{"MarshalJSON", "UnmarshalJSON"} {
			fn := mk1[m]
			if fn == nil {
				continue
			}
			e := newEng(w)
			s := newState()
			args := rootArgs(e, s, fn)
			self := args[0]
			e.hooks = append(e.hooks, func(ev *Event) {
				if ev.Kind != EvExt {
					return
				}
				_, name := extName(ev.Callee)
				if !strings.HasPrefix(name, "encoding/json.Marshal") && name != "encoding/json.Unmarshal" {
					return
				}
				v := ev.Args[len(ev.Args)-1]
				if strings.HasPrefix(name, "encoding/json.Marshal") {
					v = ev.Args[0]
				}
				ok, why := false, "a value that is not the receiver is "+map[string]string{"MarshalJSON": "encoded", "UnmarshalJSON": "decoded"}[m]
				if v.op == OIface {
					t, x := v.typ, v.args[0]
					pt, isPtr := t.(*types.Pointer)
					el := t
					if isPtr {
						el = pt.Elem()
					}
					nn, isN := el.(*types.Named)
					switch {
					case x != self:
					case !isN || !types.Identical(nn.Underlying(), n.Underlying()):
						why = "the receiver is converted to a type with other fields or names"
					case hasOwnJSON(nn):
						why = "the receiver is converted to a type that encodes itself"
					default:
						ok = true
					}
				}
				if e.probe == 0 {
					c.ob(own, w.fname(fn)+": value", w.pos(ev.Instr), ok, why+trailStr(ev.S))
				}
				ev.S.setMon("enc", "y")
				ev.S.setExtra("enc", ev.Val)
			})
			outs := e.run(s, fn, args, nil)
			c.engine(e, "none")
			c.units = append(c.units, w.fname(fn))
			for _, o := range outs {
				c.ob(own, w.fname(fn)+": result", w.rel(fn.Pos()), o.mon["enc"] == "y" && o.ret == o.extra["enc"] || o.facts.nilness(lastOf(o.ret)) == 2, "something else than the encoding of the value may be returned"+trailStr(o))
			}
		}
	}

	// chains of copies of the node map
	dst := map[string]map[string]bool{} // copy -> what it is a complete copy of
	site := func(m *Term) string {
		if m == nil {
			return ""
		}
		if n := allocSite(m); n != "" {
			return n
		}
		if fromField(m, nodesF) {
			return "list of " + ownerName(m.args[0].args[0])
		}
		if m.op == OSym {
			return m.name
		}
		if m.op == OLoad {
			return "what was decoded into " + allocSite(m.args[0])
		}
		return m.String()
	}
	isNodes := func(ev *Event) bool {
		var t types.Type
		switch in := ev.Instr.(type) {
		case *ssa.Range:
			t = in.X.Type()
		case *ssa.MapUpdate:
			t = in.Map.Type()
		case *ssa.Next:
			m, ok := rangeMapType(in)
			if !ok {
				return false
			}
			t = m
		}
		return t != nil && isNodeMap(t)
	}
	follow := func(e *Eng, targets func(*State) []*Term) {
		site := func(s *State, in ssa.Instruction, m *Term) string {
			// the map of a list, whatever it is now
			var v ssa.Value
			switch x := in.(type) {
			case *ssa.MapUpdate:
				v = x.Map
			case *ssa.Range:
				v = x.X
			}
			if u, ok := v.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && ssaField(fa) == nodesF {
					return "list of " + ownerName(e.val(s, fa.X))
				}
			}
			for _, l := range targets(s) {
				if e.load(s, Field(l, fieldIndex(list, nodesF), types.NewPointer(nodesF.Type())), nodesF.Type()) == m {
					return "list of " + ownerName(l)
				}
			}
			return site(m)
		}
		e.hooks = append(e.hooks, func(ev *Event) {
			s := ev.S
			switch ev.Kind {
			case EvRange:
				if isNodes(ev) {
					s.setMon("from", site(s, ev.Instr, ev.Ptr))
				}
			case EvMapRead:
				if ev.Mode == 'r' && s.mon["from"] != "" && isNodes(ev) {
					s.setMon("copied", "")
					s.setExtra("k", ev.Args[0])
					s.setExtra("v", ev.Val)
				}
			case EvMapSet:
				if s.mon["from"] == "" || !isNodes(ev) {
					return
				}
				k, v := s.extra["k"], s.extra["v"]
				if v == nil || ev.Val != v {
					return
				}
				key := ev.Args[0]
				okKey := key == k || decimalOf(key) == k
				if !okKey { // the id of the node
					x := key
					if d := decimalOf(key); d != nil {
						x = d
					}
					okKey = x.op == OLoad && fieldVar(x.args[0]) == need[1] && root(x.args[0]) == v
				}
				if e.probe == 0 {
					c.ob(chain, w.fname(ev.Instr.Parent())+": key", w.pos(ev.Instr), okKey, "a node is put under a key that may be the key of another node: "+key.String()+trailStr(s))
				}
				s.setMon("copied", site(s, ev.Instr, ev.Ptr))
				d := site(s, ev.Instr, ev.Ptr)
				if dst[d] == nil {
					dst[d] = map[string]bool{}
				}
				dst[d][s.mon["from"]] = true
			case EvAgain:
				if s.mon["from"] != "" && overMap(ev.Instr.Block()) {
					v := s.extra["v"]
					if e.probe == 0 {
						c.ob(chain, w.fname(ev.Instr.Parent())+": every node", w.pos(ev.Instr), s.mon["copied"] != "" || v != nil && s.facts.nilness(v) == 1, "a node of the "+s.mon["from"]+" may be skipped"+trailStr(s))
					}
					s.setMon("copied", "")
					s.setExtra("k", nil)
					s.setExtra("v", nil)
				}
			case EvRangeEnd:
				if f := s.mon["from"]; f != "" {
					s.setMon("ended "+f, "y")
					s.setMon("from", "")
				}
			}
		})
	}
	// complete: a chain of finished copies leads from the source to d
	var complete func(s *State, d, src string, depth int) bool
	complete = func(s *State, d, src string, depth int) bool {
		if d == src {
			return true
		}
		for f := range dst[d] {
			if s.mon["ended "+f] != "" && depth < 5 && complete(s, f, src, depth+1) {
				return true
			}
		}
		return false
	}

	mf, _ := ownMethod(list, "MarshalJSON")
	uf, _ := ownMethod(list, "UnmarshalJSON")
	c.ob(same, "list", "", mf != nil && uf != nil, "the list of nodes needs its own encoder and decoder, since its map is not exported")
	if mf != nil && uf != nil {
		fn := w.prog.FuncValue(mf)
		e := newEng(w)
		s := newState()
		args := rootArgs(e, s, fn)
		follow(e, func(*State) []*Term { return args[:1] })
		type at struct {
			s   *State
			m   *Term
			pos string
		}
		var ms []at
		e.hooks = append(e.hooks, func(ev *Event) {
			if ev.Kind != EvExt || e.probe > 0 {
				return
			}
			if _, name := extName(ev.Callee); strings.HasPrefix(name, "encoding/json.Marshal") {
				v := ev.Args[0]
				if v.op == OIface {
					encoded = append(encoded, v.typ)
					ms = append(ms, at{ev.S.clone(), v.args[0], w.pos(ev.Instr)})
				}
				ev.S.setExtra("enc", ev.Val)
			}
		})
		outs := e.run(s, fn, args, nil)
		c.engine(e, "none")
		c.units = append(c.units, w.fname(fn))
		src := "list of " + ownerName(args[0])
		for _, m := range ms {
			c.ob(chain, w.fname(fn)+": encoded", m.pos, complete(m.s, site(m.m), src, 0), "what is encoded is not known to hold every node of the list"+trailStr(m.s))
		}
		for _, o := range outs {
			c.ob(chain, w.fname(fn)+": result", w.rel(fn.Pos()), o.extra["enc"] != nil && o.ret == o.extra["enc"] || o.facts.nilness(lastOf(o.ret)) == 2, "something else than the encoding of the nodes may be returned"+trailStr(o))
		}

		fn = w.prog.FuncValue(uf)
		e = newEng(w)
		s = newState()
		args = rootArgs(e, s, fn)
		follow(e, func(*State) []*Term { return args[:1] })
		e.hooks = append(e.hooks, func(ev *Event) {
			if ev.Kind != EvExt {
				return
			}
			if _, name := extName(ev.Callee); name == "encoding/json.Unmarshal" || name == "(*encoding/json.Decoder).Decode" {
				v := ev.Args[1]
				if ev.S.facts.nilness(ev.Val) == 2 {
					ev.S.setMon("failed", "y")
				} else if v.op == OIface {
					if pt, ok := v.typ.(*types.Pointer); ok {
						if m := e.load(ev.S, v.args[0], pt.Elem()); m != nil {
							ev.S.setMon("decoded", site(m))
						}
						if e.probe == 0 {
							same1 := len(encoded) > 0
							for _, t := range encoded {
								same1 = same1 && types.Identical(t, pt.Elem())
							}
							c.ob(same, "list", w.pos(ev.Instr), same1, "the list is not decoded as the type it is encoded as")
						}
					}
				}
			}
		})
		outs = e.run(s, fn, args, nil)
		c.engine(e, "none")
		c.units = append(c.units, w.fname(fn))
		for _, o := range outs {
			if o.mon["failed"] != "" {
				c.ob(load, w.fname(fn)+": failure", w.rel(fn.Pos()), o.facts.nilness(o.ret) == 2, "the list may be undecodable, but no error is returned"+trailStr(o))
				continue
			}
			if o.facts.nilness(o.ret) == 2 {
				continue
			}
			c.ob(chain, w.fname(fn)+": stored", w.rel(fn.Pos()), o.mon["decoded"] != "" && complete(o, "list of "+ownerName(args[0]), o.mon["decoded"], 0), "not every decoded node is known to be put into the list"+trailStr(o))
		}
	}

	// loading
	lf := w.meth("", "Controller", "LoadConfigurationFromFile")
	if len(w.missing) > 0 {
		return
	}
	e := newEng(w)
	s := newState()
	args := rootArgs(e, s, lf)
	listOf := func(s *State) *Term {
		return e.load(s, Field(args[0], fieldIndex(ctl, need[0]), types.NewPointer(need[0].Type())), need[0].Type())
	}
	follow(e, func(s *State) []*Term { return []*Term{listOf(s)} })
	e.hooks = append(e.hooks, func(ev *Event) {
		s := ev.S
		switch ev.Kind {
		case EvExt:
			if _, name := extName(ev.Callee); name == "encoding/json.Unmarshal" || name == "(*encoding/json.Decoder).Decode" {
				v := ev.Args[1]
				if ev.S.facts.nilness(ev.Val) == 2 || v.op != OIface {
					return
				}
				pt, ok := v.typ.(*types.Pointer)
				if e.probe == 0 {
					c.ob(same, "controller", w.pos(ev.Instr), ok && types.Identical(pt.Elem(), ctl), "the configuration is not decoded as the type it is encoded as")
				}
				if ok && types.Identical(pt.Elem(), ctl) {
					l := e.load(s, Field(v.args[0], fieldIndex(ctl, need[0]), types.NewPointer(need[0].Type())), need[0].Type())
					s.setMon("decoded", "list of "+ownerName(l))
				}
			}
		case EvStore:
			f := fieldVar(ev.Ptr)
			if f == nil || p.kept[f] == "" || e.probe > 0 {
				return
			}
			if r := root(ev.Ptr); r.op == OAlloc {
				return
			}
			old := e.load(s, ev.Ptr, f.Type())
			c.ob(load, w.fname(ev.Instr.Parent())+": "+f.Name(), w.pos(ev.Instr), old == ev.Val || s.facts.nilness(old) == 1, "the saved value of "+f.Name()+" may be replaced while it is loaded"+trailStr(s))
		}
	})
	outs := e.run(s, lf, args, nil)
	c.engine(e, "none")
	c.units = append(c.units, w.fname(lf))
	own1 := listOf(newState())
	for _, o := range outs {
		if o.facts.nilness(o.ret) == 2 {
			continue
		}
		c.ob(chain, w.fname(lf)+": loaded", w.rel(lf.Pos()), o.mon["decoded"] != "" && complete(o, "list of "+ownerName(own1), o.mon["decoded"], 0), "not every decoded node is known to be put into the controller's list"+trailStr(o))
	}
	var l []string
	for v, n := range p.kept {
		l = append(l, v.Name()+" as "+n)
	}
	sort.Strings(l)
	c.notes = append(c.notes, "persisted: "+strings.Join(l, ", "))
	c.need(required, 15)
	c.need("every item has its own name", 15)
	c.need("what is encoded can be decoded", 10)
	c.need(chain, 9)
	c.need(same, 2)
	c.need(own, 2)
}

func lastOf(t *Term) *Term {
	if t != nil && t.op == OTuple && len(t.args) > 0 {
		return t.args[len(t.args)-1]
	}
	return t
}

func hasOwnJSON(n *types.Named) bool {
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
		if f, _ := ownMethod(n, m); f != nil {
			return true
		}
	}
	return false
}

// decimalOf: the number whose decimal form the string is
func decimalOf(k *Term) *Term {
	if k == nil || k.op != OCall {
		return nil
	}
	switch {
	case k.name == "strconv.Itoa" && len(k.args) == 1:
		return k.args[0]
	case k.name == "strconv.FormatInt" && len(k.args) == 2 && k.args[1] == Int(10):
		return k.args[0]
	case k.name == "fmt.Sprint" && len(k.args) == 1, k.name == "fmt.Sprintf" && len(k.args) == 2 && k.args[0].op == OConst && constStr(k.args[0]) == "%d":
		if l := k.args[len(k.args)-1]; l.op == OArr && len(l.args) == 1 && l.args[0].op == OSegLit && l.args[0].args[0].op == OIface {
			return l.args[0].args[0].args[0]
		}
	}
	return nil
}

// ownerName names an object independent of when it was read
func ownerName(t *Term) string {
	switch t.op {
	case OLoad:
		return "*" + ownerName(t.args[0])
	case OField:
		return ownerName(t.args[0]) + "." + itoa(int(t.n))
	case OAlloc:
		return t.name
	case OSym:
		return strings.SplitN(t.name, "#", 2)[0]
	}
	return t.String()
}
