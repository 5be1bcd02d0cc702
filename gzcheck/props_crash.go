package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// rootArgs makes opaque arguments for an exported entry point
func rootArgs(e *Eng, s *State, fn *ssa.Function) []*Term {
	var l []*Term
	for i, p := range fn.Params {
		name := "arg." + p.Name()
		t := p.Type()
		v := NamedSym(name, t)
		r := expand(v, t)
		if fn.Signature.Recv() != nil && i == 0 {
			s.notNil(r)
		}
		l = append(l, r)
	}
	return l
}

func (w *World) exportedFuncs(rel string, pred func(*ssa.Function) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.fns {
		if fn.Parent() != nil || fn.Pkg == nil || fn.Pkg != w.ssas[rel] || fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		if pred(fn) {
			out = append(out, fn)
		}
	}
	return out
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func takesBytes(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isBytes(p.Type()) {
			return true
		}
	}
	return false
}

func init() {
	props["C01"] = &property{run: runC01,
		explain: "Abstract interpretation of every exported decoder and renderer of serialapi, commands and commands/reports on arbitrary arguments: every index, slice bound, nil dereference, type assertion, division, make length and explicit panic on any path is a proof obligation over a relational (linear inequality) domain.",
		assume:  []string{"library functions behave as modelled in gzcheck/models.go (bytes.Reader, binary.Read, fmt, strconv, math)", "receivers of rendering methods are values the decoders can return"}}
}

func runC01(w *World, c *Check) {
	n := 0
	for _, rel := range []string{"serialapi", "commands", "commands/reports"} {
		for _, fn := range w.exportedFuncs(rel, func(fn *ssa.Function) bool {
			return fn.Signature.Recv() == nil && fn.Name() != "init" || fn.Name() == "String" || fn.Name() == "Duration" || fn.Name() == "SetNode"
		}) {
			if fn.Signature.Recv() == nil && (rel == "commands" || !decoder(fn)) {
				continue
			}
			e := newEng(w)
			s := newState()
			args := rootArgs(e, s, fn)
			e.run(s, fn, args, nil)
			c.engine(e)
			c.units = append(c.units, w.fname(fn))
			n++
		}
	}
	c.ob("decoders", "exported decoders and renderers", "", n >= 20, "fewer entry points than the library is known to have")
}

// decoder: an exported constructor of a message or report, or anything that takes bytes and may fail
func decoder(fn *ssa.Function) bool {
	if !takesBytes(fn) {
		return false
	}
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if isErrorT(r.At(i).Type()) {
			return true
		}
		if p, ok := r.At(i).Type().Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Struct); ok {
				return true
			}
		}
		if _, ok := r.At(i).Type().Underlying().(*types.Interface); ok {
			return true
		}
	}
	return false
}
