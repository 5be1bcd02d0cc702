package main

// C28: the converter of recordings

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C28"] = &property{run: runC28,
		explain: "The combiner of rows and the main function of the converter are interpreted abstractly. Combiner: for an arbitrary old buffer B and row with data D it either returns nothing and keeps B followed by D, or returns a row with B and keeps D in other memory; the returned row carries the combiner's direction and the time of the row before, and is only returned when the new row is later. Main: every row decoded (each into memory of its own, until the end of the file) goes, in order and exactly once, to a combiner that only gets rows of that direction; every row a combiner returns, and at the end what every combiner still holds, is added exactly once to the list that is printed; the list is only re-ordered by a sort on the time stamps; every element is printed exactly once with a format that prints all of its data in hexadecimal, unless its direction was excluded by the flag.",
		assume:  []string{"The time stamps of the rows of one direction do not decrease.", "encoding/gob decodes what was encoded; sort.Sort permutes through Swap by Less.", "Allocating never fails."}}
}

type fmtArg struct {
	verb byte
	i    int
}

// verbs: the arguments a format consumes
func verbs(f string) (out []fmtArg, ok bool) {
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.ContainsRune("+-# 0", rune(f[i])) {
			i++
		}
		if i >= len(f) {
			return nil, false
		}
		switch c := f[i]; {
		case c == '%':
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			out = append(out, fmtArg{c, n})
			n++
		default: // widths and precisions are not needed here
			return nil, false
		}
	}
	return out, true
}

func runC28(w *World, c *Check) {
	const comb, feed, fresh, keep, flush, order, print, until = "the combiner neither drops nor duplicates bytes", "every row goes to the combiner of its direction once and in order", "rows are decoded into memory of their own", "what a combiner returns is printed once", "what the combiners still hold is printed", "the list is only sorted by time", "every element is printed once with all of its data", "rows are decoded until the end of the file"
	const rel = "cmd/serialrecordingtohex"
	pk := w.ssas[rel]
	rowT := w.typ("serialrecorder", "Row")
	tsF, dirF, dataF := w.field("serialrecorder", "Row", "Timestamp"), w.field("serialrecorder", "Row", "Direction"), w.field("serialrecorder", "Row", "Data")
	rdC, _ := w.boolConst("serialrecorder", "DirectionRead")
	main := w.fn(rel, "main")
	if len(w.missing) > 0 {
		return
	}
	sameStruct := func(t types.Type) bool {
		return t != nil && types.Identical(t.Underlying(), rowT.Underlying())
	}
	// the combiner: the method that takes a row and may give one back
	var combine *ssa.Function
	for _, fn := range w.fns {
		sig := fn.Signature
		if fn.Pkg != pk || fn.Synthetic != "" || fn.Parent() != nil || sig.Recv() == nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
			continue
		}
		in := sig.Params().At(0).Type()
		if p, ok := in.Underlying().(*types.Pointer); ok {
			in = p.Elem()
		}
		if r, ok := sig.Results().At(0).Type().Underlying().(*types.Pointer); ok && sameStruct(r.Elem()) && sameStruct(in) {
			if combine != nil {
				w.missing = append(w.missing, "the only method of the converter that combines rows")
				return
			}
			combine = fn
		}
	}
	if combine == nil || combine.Signature.Recv() == nil {
		w.missing = append(w.missing, "the method of the converter that combines rows")
		return
	}
	recv, ok := combine.Signature.Recv().Type().Underlying().(*types.Pointer)
	if !ok {
		w.missing = append(w.missing, "a combiner with a pointer receiver")
		return
	}
	cT := recv.Elem()
	cs := cT.Underlying().(*types.Struct)
	prevI, bufI := -1, -1
	for i := 0; i < cs.NumFields(); i++ {
		switch t := cs.Field(i).Type(); {
		case sameStruct(t):
			prevI = i
		case isBytes(t):
			bufI = i
		}
	}
	byPtr := !sameStruct(combine.Signature.Params().At(0).Type())
	if prevI < 0 || bufI < 0 || cs.NumFields() != 2 || byPtr {
		w.missing = append(w.missing, "the last row and the buffer of the combiner")
		return
	}
	ts, dir, data := fieldIndex(rowT, tsF), fieldIndex(rowT, dirF), fieldIndex(rowT, dataF)
	bufOf := func(e *Eng, s *State, l *Term) *Term {
		t := cs.Field(bufI).Type()
		return e.load(s, Field(l, bufI, types.NewPointer(t)), t)
	}
	prevOf := func(e *Eng, s *State, l *Term, i int) *Term {
		p := Field(l, prevI, types.NewPointer(cs.Field(prevI).Type()))
		t := rowT.Underlying().(*types.Struct).Field(i).Type()
		return e.load(s, Field(p, i, types.NewPointer(t)), t)
	}
	rowField := func(e *Eng, s *State, r *Term, i int) *Term {
		t := rowT.Underlying().(*types.Struct).Field(i).Type()
		return e.load(s, Field(r, i, types.NewPointer(t)), t)
	}
	ft := func(i int) types.Type { return rowT.Underlying().(*types.Struct).Field(i).Type() }

	// the combiner
	{
		e := newEng(w)
		s := newState()
		args := rootArgs(e, s, combine)
		l, r := args[0], args[1]
		s.notNil(l)
		at, pos := w.fname(combine), w.rel(combine.Pos())
		old := bufOf(e, s, l)
		oldC, newC := e.sliceContent(s, old), e.sliceContent(s, project(r, data, ft(data)))
		oldTs, oldDir := prevOf(e, s, l, ts), prevOf(e, s, l, dir)
		rTs, rDir := project(r, ts, ft(ts)), project(r, dir, ft(dir))
		e.hooks = append(e.hooks, func(ev *Event) {
			if ev.Kind != EvExt {
				return
			}
			if _, n := extName(ev.Callee); n == "(time.Time).Sub" && ev.Val != nil {
				if ev.Args[0] == ev.Args[1] {
					ev.S.facts.addGe(toLin(ev.Val))
					ev.S.facts.addGe(toLin(Mul(Int(-1), ev.Val)))
				}
				if ev.Args[0] == rTs && ev.Args[1] == oldTs {
					ev.S.setExtra("gap", ev.Val)
				}
			}
		})
		for _, o := range e.run(s, combine, args, nil) {
			tail := trailStr(o)
			nb := bufOf(e, o, l)
			nbC := e.sliceContent(o, nb)
			c.ob(comb, at+": last row", pos, prevOf(e, o, l, ts) == rTs && prevOf(e, o, l, dir) == rDir, "the combiner does not remember the row it was given"+tail)
			switch o.facts.nilness(o.ret) {
			case 1:
				both := arrOf(tU8, append(append([]*Term{}, oldC.args...), newC.args...))
				c.ob(comb, at+": kept", pos, sameContent(o, nbC, both), "the buffer is "+nbC.String()+", it should be "+both.String()+tail)
			case 2:
				d := rowField(e, o, o.ret, data)
				dC := e.sliceContent(o, d)
				c.ob(comb, at+": returned", pos, sameContent(o, dC, oldC), "the row returned holds "+dC.String()+", the buffer was "+oldC.String()+tail)
				c.ob(comb, at+": kept after a row", pos, sameContent(o, nbC, newC), "the buffer is "+nbC.String()+", the row was "+newC.String()+tail)
				apart := nb.op == OSlice && d.op == OSlice && (nb.args[0] != d.args[0] && !aliased(o, nb.args[0], d.args[0]) || nb.args[0].op == ONil || d.args[0].op == ONil)
				c.ob(comb, at+": own memory", pos, apart, "the row returned and the buffer share memory, so the bytes of the row are overwritten later"+tail)
				rd := rowField(e, o, o.ret, dir)
				c.ob(comb, at+": direction", pos, rd == oldDir || rd == rDir, "the row returned has another direction"+tail)
				g := o.extra["gap"]
				later := g != nil && o.facts.entails(toLin(AddC(g, -1)))
				c.ob(comb, at+": time", pos, rowField(e, o, o.ret, ts) == oldTs && later, "the rows returned are not in the order of their time stamps"+tail)
			default:
				c.ob(comb, at, pos, false, "it cannot be told whether a row is returned"+tail)
			}
		}
		c.engine(e, "none")
		c.units = append(c.units, at)
	}

	// main
	e := newEng(w)
	s := newState()
	e.followGo = false
	at, pos := w.fname(main), w.rel(main.Pos())
	isRows := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && sameStruct(sl.Elem())
	}
	siteOf := func(t *Term) string {
		if t.op == OAlloc {
			return allocSite(t)
		}
		if t.op == OSym && strings.HasPrefix(t.name, "at.") {
			n := strings.TrimPrefix(t.name, "at.")
			if i := strings.IndexByte(n, '#'); i >= 0 {
				n = n[:i]
			}
			return n
		}
		return ""
	}
	combiners := func(s *State) map[string]*Term {
		m := map[string]*Term{}
		for k, v := range s.extra {
			if strings.HasPrefix(k, "comb:") {
				m[k[5:]] = v
			}
		}
		return m
	}
	scan := func(s *State) {
		for f := s.fr; f != nil; f = f.parent {
			f.env.each(func(_ int, t *Term) {
				if t != nil && ptrElem(t) != nil && types.Identical(ptrElem(t), cT) {
					if n := siteOf(t); n != "" && !strings.HasPrefix(n, "?") {
						s.setExtra("comb:"+n, t)
					}
				}
			})
		}
	}
	s.setExtra("rows", expand(zero(types.NewSlice(rowT)), types.NewSlice(rowT)))
	s.setExtra("list", s.extra["rows"])
	s.setExtra("rk", Int(-1))
	s.setExtra("lk", Int(-1))
	flags := map[string]*Term{}
	eqRow := func(a, b *Term) bool {
		if a == b {
			return true
		}
		for i := 0; i < rowT.Underlying().(*types.Struct).NumFields(); i++ {
			if project(a, i, ft(i)) != project(b, i, ft(i)) {
				return false
			}
		}
		return true
	}
	elem := func(s *State, l, i *Term) *Term {
		return s.readElem(e.content(s, l.args[0]), Add(l.args[1], i))
	}
	sameList := func(s *State, a, b *Term) bool {
		return a == b || a != nil && b != nil && a.op == OSlice && b.op == OSlice && (a.args[0] == b.args[0] && s.facts.equalInt(a.args[1], b.args[1]) && s.facts.equalInt(a.args[2], b.args[2]) || s.facts.equalInt(a.args[2], Int(0)) && s.facts.equalInt(b.args[2], Int(0)))
	}
	done := func(s *State, list, k string) bool { // all elements were visited
		l, i := s.extra[list], s.extra[k]
		return l != nil && i != nil && l.op == OSlice && s.facts.entails(toLin(Sub(AddC(i, 1), l.args[2])))
	}
	dirKnown := func(s *State, d *Term) string {
		switch s.facts.evalBool(d) {
		case 1:
			return map[bool]string{true: "r", false: "w"}[rdC]
		case 2:
			return map[bool]string{true: "w", false: "r"}[rdC]
		}
		return ""
	}
	ended := func(s *State, put func(string, string, bool, string)) {
		put(until, ": end", s.mon["dec"] == "eof" || s.mon["dec"] == "", "rows may be left in the file")
		put(feed, ": all rows", done(s, "rows", "rk"), "not all rows are handed to a combiner")
		put(keep, ": last row returned", s.extra["due"] == nil || s.mon["due"] == "", "the last row a combiner returned is not added to the list")
		cs := combiners(s)
		var ns []string
		for n := range cs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		put(flush, ": combiners", len(ns) > 0, "the combiners cannot be found")
		for _, n := range ns {
			b := s.extra["held:"+n]
			if b == nil {
				b = bufOf(e, s, cs[n])
			}
			empty := b.op == OSlice && s.facts.entails(toLin(b.args[2]).neg())
			put(flush, ": what is left", s.mon["fl:"+n] == "y" || empty, "what a combiner still holds is not added to the list")
		}
	}
	e.hooks = append(e.hooks, func(ev *Event) {
		s := ev.S
		p := w.pos(ev.Instr)
		put := func(rule, what string, ok bool, msg string) {
			if e.probe == 0 {
				c.ob(rule, at+what, p, ok, msg+trailStr(s))
			}
		}
		switch ev.Kind {
		case EvBranch, EvIndex, EvAppend, EvExt, EvCall:
			if s.mon["fin"] == "" {
				scan(s)
			}
		}
		switch ev.Kind {
		case EvCall:
			if ev.Callee != combine {
				return
			}
			l, v := ev.Args[0], ev.Args[1]
			d := project(v, dir, ft(dir))
			k := dirKnown(s, d)
			n := siteOf(l)
			put(feed, ": combiner", n != "", "it cannot be told which combiner gets the row")
			put(feed, ": direction", k != "" && (s.mon["dir:"+n] == "" || s.mon["dir:"+n] == k), "a combiner gets rows of both directions")
			s.setMon("dir:"+n, k)
			direct := s.mon["dec"] == "ok" && s.extra["dest"] != nil && eqRow(v, e.load(s, s.extra["dest"], rowT))
			cur := s.extra["rcur"]
			from := cur != nil && s.extra["rows"] != nil && eqRow(v, elem(s, s.extra["rows"], cur))
			put(feed, ": which row", direct || from, "something else than the next row is handed to the combiner: "+v.String())
			put(feed, ": once", s.mon["fed"] == "", "a row is handed to the combiners twice")
			put(keep, ": next row", s.mon["due"] == "", "a row returned by a combiner is not added to the list")
			put(feed, ": before the end", s.mon["fl:"+n] == "" && s.mon["fin"] == "", "rows are combined after what the combiner holds was added to the list")
			s.setMon("fed", "y")
			if direct {
				s.setMon("dec", "used")
			}
			for _, give := range []bool{false, true} {
				st := s.clone()
				b := freshVal("?held", cs.Field(bufI).Type())
				e.store(st, Field(l, bufI, types.NewPointer(cs.Field(bufI).Type())), b, cs.Field(bufI).Type())
				e.store(st, Field(l, prevI, types.NewPointer(cs.Field(prevI).Type())), v, cs.Field(prevI).Type())
				st.ret = Nil(combine.Signature.Results().At(0).Type())
				if give {
					r := st.notNil(freshVal("row", combine.Signature.Results().At(0).Type()))
					st.ret = r
					st.setExtra("due", r)
					st.setMon("due", "y")
				}
				ev.Alts = append(ev.Alts, st)
			}
		case EvAppend:
			a, b := ev.Args[0], ev.Args[1]
			if !isRows(ev.Val.typ) {
				return
			}
			var x *Term
			if got := e.sliceContent(s, b); got != nil && b.op == OSlice && s.facts.equalInt(b.args[2], Int(1)) {
				x = s.readElem(got, Int(0))
			}
			if x == nil {
				put(keep, ": append", false, "it cannot be told what is added to a list of rows")
				return
			}
			switch {
			case s.mon["dec"] == "ok" && s.extra["dest"] != nil && eqRow(x, e.load(s, s.extra["dest"], rowT)) && sameList(s, a, s.extra["rows"]):
				put(feed, ": kept", s.mon["fed"] == "", "a row is used twice")
				s.setMon("dec", "used")
				s.setExtra("rows", ev.Val)
			case sameList(s, a, s.extra["list"]):
				n := ""
				if s.mon["due"] == "y" && s.extra["due"] != nil && eqRow(x, e.load(s, s.extra["due"], rowT)) {
					s.setMon("due", "")
				} else {
					cs := combiners(s)
					for _, k := range sortedNames(cs) {
						l := cs[k]
						if project(x, data, ft(data)) == bufOf(e, s, l) && project(x, dir, ft(dir)) == prevOf(e, s, l, dir) && project(x, ts, ft(ts)) == prevOf(e, s, l, ts) && s.mon["fl:"+k] == "" {
							n = k
							break
						}
					}
					put(flush, ": append", n != "", "what is added to the list is neither a row a combiner returned, nor what a combiner still holds with its last time stamp and direction, or it is added twice: "+x.String())
					if n != "" {
						s.setMon("fl:"+n, "y")
					}
				}
				s.setExtra("list", ev.Val)
			default:
				put(keep, ": append", false, "rows are added to a list that is not the one that is printed, or to an old version of it")
			}
		case EvExt:
			_, name := extName(ev.Callee)
			switch name {
			case "flag.BoolVar":
				if ev.Args[1].op == OConst {
					flags[constStr(ev.Args[1])] = ev.Args[0]
				}
			case "(*encoding/gob.Decoder).Decode":
				v := ev.Args[1]
				for v.op == OIface {
					v = v.args[0]
				}
				put(until, ": Decode", s.mon["dec"] == "" || s.mon["dec"] == "used", "a row that was decoded is dropped, or decoding goes on after an error")
				put(fresh, ": Decode", root(v).op == OAlloc && s.extra["dest"] != v, "rows are decoded into the same memory again, which gob may use again for the data")
				if s.facts.nilness(ev.Val) == 1 {
					s.setMon("dec", "ok")
					s.setExtra("dest", v)
				} else {
					s.setMon("dec", "err")
					s.setExtra("decErr", ev.Val)
				}
				s.setMon("fed", "")
			case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable":
				v := ev.Args[0]
				t := v.typ
				for v.op == OIface {
					t = v.typ
					v = v.args[0]
				}
				put(order, ": list", sameList(s, v, s.extra["list"]), "something else than the list is sorted")
				if e.probe == 0 {
					var less *Term
					if len(ev.Args) > 1 {
						less = ev.Args[1]
					}
					sortCheck(w, c, order, t, less, rowT, ts, p)
				}
			case "fmt.Printf", "fmt.Fprintf":
				off := 0
				if name == "fmt.Fprintf" {
					off = 1
				}
				cur, l := s.extra["lcur"], s.extra["list"]
				if cur == nil || l == nil {
					return
				}
				x := project(elem(s, l, cur), data, ft(data))
				va := ev.Args[off+1]
				got := e.sliceContent(s, va)
				hit := -1
				if n, ok := s.facts.constOf(va.args[2]); ok && got != nil {
					for i := int64(0); i < n; i++ {
						y := s.readElem(got, Int(i))
						for y.op == OIface {
							y = y.args[0]
						}
						if y == x {
							hit = int(i)
						}
					}
				}
				vs, ok := []fmtArg(nil), false
				if ev.Args[off].op == OConst {
					vs, ok = verbs(constStr(ev.Args[off]))
				}
				hex := false
				for _, v := range vs {
					hex = hex || v.i == hit && (v.verb == 'x' || v.verb == 'X')
				}
				if hit < 0 {
					return
				}
				put(print, ": format", ok && hex, "the data of a row is not printed as a whole in hexadecimal")
				put(print, ": once", s.mon["printed"] == "" || s.extra["pv"] == ev.Args[off], "a row is printed twice")
				s.setMon("printed", "y")
			}
		case EvBranch:
			if er := s.extra["decErr"]; er != nil && s.mon["dec"] == "err" && ev.Mode == 1 && mentions(ev.Val, func(t *Term) bool { return t == er }, map[*Term]bool{}) && mentions(ev.Val, isEOF, map[*Term]bool{}) {
				s.setMon("dec", "eof")
			}
		case EvIndex:
			for _, z := range [][3]string{{"rows", "rk", "rcur"}, {"list", "lk", "lcur"}} {
				l := s.extra[z[0]]
				if !isRows(sliceTyp(ev.Ptr)) || !sameList(s, ev.Ptr, l) || s.facts.equalInt(l.args[2], Int(0)) {
					continue
				}
				if z[0] == "list" && s.mon["fin"] == "" && !sameList(s, ev.Ptr, s.extra["rows"]) {
					ended(s, put)
					s.setMon("fin", "y")
				}
				if cur := s.extra[z[2]]; cur != nil && s.facts.equalInt(cur, ev.Args[0]) {
					return
				}
				k := s.extra[z[1]]
				ok := k != nil && s.facts.equalInt(ev.Args[0], AddC(k, 1))
				put(map[string]string{"rows": feed, "list": print}[z[0]], ": next", ok, "the rows are not visited one after the other")
				s.setExtra(z[2], ev.Args[0])
				s.setMon("fed", "")
				s.setMon("printed", "")
				return
			}
		case EvAgain:
			if cur := s.extra["rcur"]; cur != nil && s.mon["fin"] == "" {
				put(feed, ": element", s.mon["fed"] == "y", "a row is not handed to a combiner")
				put(keep, ": element", s.mon["due"] == "", "a row returned by a combiner is not added to the list")
				s.setExtra("rk", cur)
				s.setExtra("rcur", nil)
				s.setMon("fed", "")
			}
			if cur := s.extra["lcur"]; cur != nil && s.mon["fin"] == "y" {
				d := dirKnown(s, project(elem(s, s.extra["list"], cur), dir, ft(dir)))
				f := flags[map[string]string{"r": "read", "w": "write"}[d]]
				off := d != "" && f != nil && s.facts.evalBool(e.load(s, f, types.Typ[types.Bool])) == 2
				put(print, ": element", s.mon["printed"] == "y" || off, "an element of the list is not printed although its direction is not excluded")
				s.setExtra("lk", cur)
				s.setExtra("lcur", nil)
				s.setMon("printed", "")
			}
		}
	})
	for _, o := range e.run(s, main, nil, nil) {
		tail := trailStr(o)
		if o.mon["dec"] == "" {
			continue // nothing was read
		}
		put := func(rule, what string, ok bool, msg string) { c.ob(rule, at+what, pos, ok, msg+tail) }
		if o.mon["fin"] == "" {
			ended(o, put)
		}
		put(print, ": all", done(o, "list", "lk"), "not all elements of the list are printed")
	}
	c.engine(e, "none")
	c.units = append(c.units, at)
	c.need(comb, 6)
	c.need(feed, 6)
	c.need(fresh, 1)
	c.need(keep, 2)
	c.need(flush, 3)
	c.need(print, 4)
	c.need(until, 2)
}

func sortedNames(m map[string]*Term) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func sliceTyp(t *Term) types.Type {
	if t == nil || t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

func isEOF(t *Term) bool {
	return strings.Contains(t.name, "EOF") || t.op == OGlobal && strings.HasSuffix(t.name, "EOF")
}

// aliased: one of the arrays may be the other after an append
func aliased(s *State, a, b *Term) bool {
	for _, x := range [][2]*Term{{a, b}, {b, a}} {
		for t, n := x[0], 0; t != nil && n < 8; n++ {
			o, ok := s.alias.get(t.id)
			if !ok {
				break
			}
			if o == x[1] {
				return true
			}
			t = o
		}
	}
	return false
}

// sortCheck: the order is that of the time stamps and elements are only exchanged
func sortCheck(w *World, c *Check, rule string, t types.Type, less *Term, rowT types.Type, ts int, pos string) {
	run := func(fn *ssa.Function, f func(e *Eng, s *State, args []*Term) func(o *State)) {
		e := newEng(w)
		s := newState()
		args := rootArgs(e, s, fn)
		chk := f(e, s, args)
		for _, o := range e.run(s, fn, args, nil) {
			chk(o)
		}
		c.engine(e, "none")
		c.units = append(c.units, w.fname(fn))
	}
	find := func(n string) *ssa.Function {
		sel := w.prog.MethodSets.MethodSet(t).Lookup(w.ssas["cmd/serialrecordingtohex"].Pkg, n)
		if sel == nil {
			return nil
		}
		return w.prog.MethodValue(sel)
	}
	if less != nil {
		c.ob(rule, "sort", pos, false, "the order of the list cannot be followed")
		return
	}
	lf, nf, sf := find("Less"), find("Len"), find("Swap")
	if lf == nil || nf == nil || sf == nil {
		c.ob(rule, "sort", pos, false, "the order of the list cannot be followed")
		return
	}
	tt := rowT.Underlying().(*types.Struct).Field(ts).Type()
	run(lf, func(e *Eng, s *State, args []*Term) func(o *State) {
		cnt := e.content(s, args[0].args[0])
		at := func(i *Term) *Term { return project(s.readElem(cnt, Add(args[0].args[1], i)), ts, tt) }
		want := [2]*Term{at(args[1]), at(args[2])}
		e.hooks = append(e.hooks, func(ev *Event) {
			if ev.Kind == EvExt {
				_, n := extName(ev.Callee)
				if n == "(time.Time).Before" && ev.Args[0] == want[0] && ev.Args[1] == want[1] || n == "(time.Time).After" && ev.Args[0] == want[1] && ev.Args[1] == want[0] {
					ev.S.setExtra("less", ev.Val)
				}
			}
		})
		return func(o *State) {
			c.ob(rule, w.fname(lf), w.rel(lf.Pos()), o.extra["less"] != nil && o.ret == o.extra["less"], "the list is not ordered by the time stamps, oldest first"+trailStr(o))
		}
	})
	run(nf, func(e *Eng, s *State, args []*Term) func(o *State) {
		return func(o *State) {
			c.ob(rule, w.fname(nf), w.rel(nf.Pos()), o.facts.equalInt(o.ret, args[0].args[2]), "not the whole list is sorted"+trailStr(o))
		}
	})
	run(sf, func(e *Eng, s *State, args []*Term) func(o *State) {
		cnt := e.content(s, args[0].args[0])
		a, b := s.readElem(cnt, Add(args[0].args[1], args[1])), s.readElem(cnt, Add(args[0].args[1], args[2]))
		e.hooks = append(e.hooks, func(ev *Event) {
			s := ev.S
			if ev.Kind != EvStore || ev.Ptr == nil || root(ev.Ptr).op == OAlloc {
				return
			}
			k := "bad"
			if ev.Ptr.op == OElemAt && ev.Ptr.args[0] == args[0].args[0] {
				switch {
				case s.facts.equalInt(ev.Ptr.args[1], Add(args[0].args[1], args[1])) && ev.Val == b:
					k = "i"
				case s.facts.equalInt(ev.Ptr.args[1], Add(args[0].args[1], args[2])) && ev.Val == a:
					k = "j"
				}
			}
			s.setMon("sw", s.mon["sw"]+k)
		})
		return func(o *State) {
			m := o.mon["sw"]
			c.ob(rule, w.fname(sf), w.rel(sf.Pos()), m == "ij" || m == "ji", "sorting does not only exchange elements"+trailStr(o))
		}
	})
}
