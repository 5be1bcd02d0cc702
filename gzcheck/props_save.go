package main

// C20: saving the configuration

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C20"] = &property{run: runC20,
		explain: "Every function of the library that changes files is interpreted abstractly from the exported function it is reached from, with each file operation succeeding or failing. Per file handle the state records what was done to it: created under a name that differs from the configured one, the whole encoding of the controller written, synced, closed. The configured name may only be the target of a rename, and only of a file for which all of that succeeded; a path on which any of encoding, creating, writing, syncing, closing or renaming fails must return a non-nil error, and a path that returns no error must have renamed.",
		assume:  []string{"Rename replaces the file atomically, and Write reports an error when it writes less than it was given (both documented by package os and the platform).", "Loss of the directory entry after a successful rename is not considered."}}
}

var fsCalls = map[string]bool{
	"os.Create": true, "os.OpenFile": true, "os.CreateTemp": true, "io/ioutil.TempFile": true, "os.WriteFile": true, "io/ioutil.WriteFile": true,
	"os.Rename": true, "os.Remove": true, "os.RemoveAll": true, "os.Truncate": true, "os.Link": true, "os.Symlink": true, "syscall.Rename": true, "syscall.Unlink": true,
}

func runC20(w *World, c *Check) {
	const target, whole, reported, replaced = "the configuration file is only ever replaced by rename", "what replaces the file was completely written, synced and closed", "every failure is returned", "success means the file was replaced"
	cw := newConcWorld(w)
	ctl := w.typ("", "Controller")
	fname := w.fieldLike("", "Controller", "filename", func(t types.Type) bool { return types.Identical(t, types.Typ[types.String]) })
	if len(w.missing) > 0 {
		return
	}
	// the functions that change files
	changes := map[*ssa.Function]bool{}
	for _, fn := range w.fns {
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Pkg != w.ssas[""] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && fsCalls[g.String()] {
						changes[fn] = true
					}
				}
			}
		}
	}
	roots := map[*ssa.Function]bool{}
	var order []*ssa.Function
	for _, fn := range w.fns {
		if !changes[fn] {
			continue
		}
		l := []*ssa.Function{fn}
		if fn.Object() == nil || !fn.Object().Exported() {
			l = cw.topCallers(fn)
		}
		c.ob(target, w.fname(fn)+": found", w.rel(fn.Pos()), len(l) > 0, "the function changes files but is not reached from an exported function")
		for _, r := range l {
			if !roots[r] {
				roots[r] = true
				order = append(order, r)
			}
		}
	}
	isConfig := func(t *Term) bool { return fromField(t, fname) }
	for _, fn := range order {
		e := newEng(w)
		writes := false
		differs := func(s *State, t *Term) bool {
			switch {
			case t == nil:
				return false
			case t.op == OBin && t.name == "+" && len(t.args) == 2:
				for i := range t.args {
					a, b := t.args[i], t.args[1-i]
					if isConfig(a) && b.op == OConst && constStr(b) != "" {
						return true
					}
				}
			case t.op == OCall && t.name == "fmt.Sprintf" && len(t.args) == 2 && t.args[0].op == OConst:
				f := constStr(t.args[0])
				r := strings.Replace(strings.Replace(f, "%s", "", 1), "%v", "", 1)
				if len(f)-len(r) == 2 && r != "" && !strings.Contains(r, "%") && t.args[1].op == OArr && len(t.args[1].args) == 1 {
					if g := t.args[1].args[0]; g.op == OSegLit && g.args[0].op == OIface && isConfig(g.args[0].args[0]) {
						return true
					}
				}
			}
			return s.mon["fresh"+itoa(t.id)] != ""
		}
		fail := func(s *State, what string) {
			if s.mon["failed"] == "" {
				s.setMon("failed", what)
			}
		}
		// result of the call: ok, value
		result := func(ev *Event) (bool, *Term) {
			v := ev.Val
			var er *Term
			if v != nil && v.op == OTuple && len(v.args) > 0 {
				er = v.args[len(v.args)-1]
				v = v.args[0]
			} else {
				er = v
			}
			return er == nil || ev.S.facts.nilness(er) == 1, v
		}
		e.hooks = append(e.hooks, func(ev *Event) {
			if ev.Kind != EvExt || ev.Callee == nil {
				return
			}
			s := ev.S
			_, name := extName(ev.Callee)
			at := w.fname(ev.Instr.Parent()) + ": " + ev.Callee.Name()
			pos := w.pos(ev.Instr)
			arg := func(i int) *Term {
				if i < len(ev.Args) {
					return ev.Args[i]
				}
				return Int(0)
			}
			isSelf := func(v *Term) bool {
				if v.op == OIface {
					v = v.args[0]
				}
				if pt := ptrElem(v); pt != nil {
					return types.Identical(pt, ctl)
				}
				return false
			}
			// state of the handle
			get := func(h *Term) string { return s.mon["file"+itoa(h.id)] }
			set := func(h *Term, v string) {
				termByID[h.id] = h
				s.setMon("file"+itoa(h.id), v)
			}
			written := func(h *Term, content *Term, what string) {
				st := get(h)
				enc := s.extra["encoding"]
				switch {
				case st == "created" && enc != nil && content != nil && sameContent(s, content, enc):
					set(h, "written")
				default:
					set(h, "written with something else than one whole encoding of the controller ("+what+")")
				}
			}
			create := func(n *Term) {
				if e.probe == 0 {
					c.ob(target, at, pos, !isConfig(n), "the configuration file itself is opened for writing: a crash or failure while writing leaves it incomplete"+trailStr(s))
					if !isConfig(n) {
						c.ob(target, at+": name", pos, differs(s, n), "it is not known that the file created ("+n.String()+") differs from the configuration file"+trailStr(s))
					}
				}
			}
			switch name {
			case "encoding/json.Marshal", "encoding/json.MarshalIndent":
				ok, v := result(ev)
				if !isSelf(arg(0)) {
					return
				}
				if !ok {
					fail(s, "encoding")
					return
				}
				if v != nil && v.op == OSlice {
					s.setExtra("encoding", e.sliceContent(s, v))
				}
			case "os.Create", "os.OpenFile", "os.CreateTemp", "io/ioutil.TempFile":
				ok, h := result(ev)
				if name == "os.OpenFile" {
					if fl, known := s.facts.constOf(arg(1)); known && fl&3 == 0 {
						return // reading
					} else if !known || fl&0x200 == 0 && fl&0x80 == 0 {
						if e.probe == 0 {
							c.ob(target, at+": flags", pos, false, "the file written may keep old content: it is opened without O_TRUNC or O_EXCL"+trailStr(s))
						}
					}
				}
				writes = true
				if strings.HasSuffix(name, "Temp") || strings.HasSuffix(name, "TempFile") {
					if ok {
						s.setMon("temp"+itoa(h.id), "y")
					}
				} else {
					create(arg(0))
				}
				if !ok {
					fail(s, "creating")
					return
				}
				set(h, "created")
				s.setExtra("name"+itoa(h.id), arg(0))
			case "os.WriteFile", "io/ioutil.WriteFile":
				writes = true
				create(arg(0))
				if ok, _ := result(ev); !ok {
					fail(s, "writing")
				}
				s.setMon("file"+itoa(arg(0).id), "written, but not synced")
			case "(*os.File).Name":
				if s.mon["temp"+itoa(arg(0).id)] != "" && ev.Val != nil {
					s.setMon("fresh"+itoa(ev.Val.id), itoa(arg(0).id))
					s.setExtra("name"+itoa(arg(0).id), ev.Val)
				}
			case "(*os.File).Write", "(*os.File).WriteString":
				if get(arg(0)) == "" {
					return
				}
				if ok, _ := result(ev); !ok {
					fail(s, "writing")
					set(arg(0), "not completely written")
					return
				}
				var content *Term
				if arg(1).op == OSlice {
					content = e.sliceContent(s, arg(1))
				}
				written(arg(0), content, arg(1).String())
			case "encoding/json.NewEncoder":
				if w := arg(0); w.op == OIface && ev.Val != nil {
					s.setExtra("encoder"+itoa(ev.Val.id), w.args[0])
				}
			case "(*encoding/json.Encoder).Encode":
				h := s.extra["encoder"+itoa(arg(0).id)]
				if h == nil || get(h) == "" {
					return
				}
				if ok, _ := result(ev); !ok {
					fail(s, "encoding and writing")
					set(h, "not completely written")
					return
				}
				if get(h) == "created" && isSelf(arg(1)) {
					set(h, "written")
				} else {
					set(h, "written with something else than one whole encoding of the controller")
				}
			case "(*os.File).Sync":
				st := get(arg(0))
				if st == "" {
					return
				}
				if ok, _ := result(ev); !ok {
					fail(s, "syncing")
					set(arg(0), "not synced")
				} else if st == "written" {
					set(arg(0), "synced")
				}
			case "(*os.File).Close":
				st := get(arg(0))
				if st == "" {
					return
				}
				if ok, _ := result(ev); !ok {
					if st != "closed" {
						fail(s, "closing")
						set(arg(0), "not closed")
					}
				} else if st == "synced" {
					set(arg(0), "closed")
				} else if st == "written" {
					set(arg(0), "written and closed, but not synced")
				}
			case "(*os.File).Truncate", "(*os.File).Seek", "(*os.File).WriteAt", "(*os.File).ReadFrom":
				if get(arg(0)) != "" {
					set(arg(0), "changed by "+ev.Callee.Name())
				}
			case "os.Rename", "syscall.Rename":
				from, to := arg(0), arg(1)
				ok, _ := result(ev)
				if e.probe == 0 {
					c.ob(target, at, pos, !isConfig(from), "the configuration file is moved away: a crash now leaves none"+trailStr(s))
				}
				if isConfig(to) {
					writes = true
					st := "not created here"
					for k, v := range s.extra {
						if strings.HasPrefix(k, "name") && (v == from || s.mon["fresh"+itoa(from.id)] == k[4:]) {
							st = s.mon["file"+k[4:]]
						}
					}
					if x := s.mon["file"+itoa(from.id)]; x != "" {
						st = x
					}
					if e.probe == 0 {
						c.ob(whole, at, pos, st == "closed", "the file that replaces the configuration is: "+st+trailStr(s))
					}
					if ok {
						s.setMon("renamed", "y")
					} else {
						fail(s, "renaming")
					}
				}
			case "os.Remove", "os.RemoveAll", "os.Truncate", "syscall.Unlink", "os.Link", "os.Symlink":
				if e.probe == 0 {
					for _, a := range ev.Args {
						c.ob(target, at, pos, !isConfig(a), "the configuration file itself is changed by "+ev.Callee.Name()+trailStr(s))
					}
				}
			}
		})
		s := newState()
		outs := e.run(s, fn, rootArgs(e, s, fn), nil)
		c.engine(e, "none")
		c.units = append(c.units, w.fname(fn))
		if !writes {
			continue
		}
		res := fn.Signature.Results()
		for _, o := range outs {
			if res.Len() == 0 || !isErrorT(res.At(res.Len()-1).Type()) {
				if f := o.mon["failed"]; f != "" || o.mon["renamed"] != "" {
					c.ob(reported, w.fname(fn)+": result", w.rel(fn.Pos()), false, "the function saves but returns no error"+trailStr(o))
				}
				continue
			}
			er := o.ret
			if er != nil && er.op == OTuple {
				er = er.args[len(er.args)-1]
			}
			n := o.facts.nilness(er)
			if f := o.mon["failed"]; f != "" {
				c.ob(reported, w.fname(fn)+": "+f+" fails", w.rel(fn.Pos()), n == 2, f+" fails but the caller may get no error"+trailStr(o))
			} else {
				c.ob(replaced, w.fname(fn)+": returns nil", w.rel(fn.Pos()), n == 2 || o.mon["renamed"] != "", "no error may be returned although the configuration was not replaced"+trailStr(o))
			}
		}
	}
	c.need(target, 2)
	c.need(whole, 1)
	c.need(reported, 6)
	c.need(replaced, 1)
}
