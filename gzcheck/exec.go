package main

// The abstract interpreter: executes ssa functions over abstract states
// (exec.go), joins states (join.go), models library functions (models.go).

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debugCalls = os.Getenv("GZCALLS") != ""

func itoa(i int) string { return strconv.Itoa(i) }

var posIDs = map[interface{}]int{}

func posID(x interface{}) int {
	if v, ok := posIDs[x]; ok {
		return v
	}
	v := len(posIDs) + 1
	posIDs[x] = v
	return v
}

type EvKind string

const (
	EvMayWrite EvKind = "maywrite" // bytes of array Ptr may be overwritten
	EvStore    EvKind = "store"    // *Ptr = Val
	EvLoad     EvKind = "load"     // Val = *Ptr
	EvMapRead  EvKind = "mapread"  // Ptr = map, Args[0] = key
	EvMapGot   EvKind = "mapgot"   // outcome of a lookup
	EvMapSet   EvKind = "mapset"
	EvMapDel   EvKind = "mapdel"
	EvRange    EvKind = "range"
	EvSend     EvKind = "send" // Ptr = channel, Val = value
	EvRecv     EvKind = "recv" // Ptr = channel, Val = received value
	EvTryWait  EvKind = "wait" // about to block; Chans lists what is waited for, Args what is sent
	EvClose    EvKind = "close"
	EvGo       EvKind = "go"
	EvLock     EvKind = "lock"
	EvUnlock   EvKind = "unlock"
	EvCall     EvKind = "call"   // static call of Callee (external or in repo) about to happen
	EvExt      EvKind = "ext"    // external call finished, Val = result
	EvInvoke   EvKind = "invoke" // interface method call of Method
	EvInvoked  EvKind = "invoked"
	EvDyn      EvKind = "dyn" // call of an unknown function value Ptr
	EvReturn   EvKind = "return"
	EvRet      EvKind = "ret" // function Callee returned Val to its caller
	EvRootEnd  EvKind = "rootend"
	EvPanic    EvKind = "panic"
	EvSlice    EvKind = "slice" // Ptr[Args[0]:Args[1]]
	EvIter     EvKind = "backedge"
	EvAgain    EvKind = "again"    // about to start another round of a loop; hooks may forget what only the last round was about
	EvRangeEnd EvKind = "rangeend" // every entry of map Ptr was visited
	EvEscape   EvKind = "escape"   // the object Ptr made here becomes visible to others
	EvAppend   EvKind = "append"   // Args[1] was appended to Args[0], with result Val
	EvIndex    EvKind = "index"    // element read/addressed
	EvBranch   EvKind = "branch"
)

type Event struct {
	Kind   EvKind
	S      *State
	Instr  ssa.Instruction
	Callee *ssa.Function
	Method *types.Func
	Recv   *Term
	Args   []*Term
	Ptr    *Term
	Val    *Term
	Mode   byte
	Chans  []*Term
	Dirs   []types.ChanDir
	Block  bool
	Kill   bool     // set by a hook: this path is not continued
	Alts   []*State // set by a hook: the states after the call, with their results
}

type Eng struct {
	w           *World
	frozen      map[*types.Var]bool
	monotone    map[*types.Var]bool // once set, never nil again
	always      map[*types.Var]bool // never nil in objects that others can see
	wantEscape  bool
	optional    map[*types.Var]bool
	optElem     map[string]bool
	frozenAlloc map[string]bool
	hooks       []func(*Event)
	probe       int
	cur         ssa.Instruction
	rootName    string

	retCap, blockCap int
	lean             bool                               // forget dead values when states are joined
	opaque           func(*ssa.Function) bool           // calls not to be inlined
	resolveDyn       func(sig *types.Signature) []*Term // what an unknown function value may be
	resolveIface     func(m *types.Func) []types.Type   // what an unknown receiver may be
	spawns           map[spawnKey][]*State
	spawnOrder       []spawnKey
	followGo         bool
	steps            int
	maxSteps         int
	gaveUp           string

	obls     map[string]*Obl
	oblOrder []string
	globals  map[*ssa.Global]bool
	fnSeen   map[*ssa.Function]bool
	cmps     map[*ssa.Function][]*Term // linear terms compared in the function: candidate bounds
}

// Obl is one proof obligation (a rule applied to a construct)
type Obl struct {
	Kind, Where, Pos string
	N                int
	Bad              int
	Msg              string
}

type spawnKey struct {
	g  *ssa.Go
	fn *ssa.Function
}

func newEng(w *World) *Eng {
	return &Eng{w: w, frozen: w.frozen, monotone: map[*types.Var]bool{}, optional: w.optional, optElem: map[string]bool{},
		frozenAlloc: w.frozenAlloc, retCap: 16, blockCap: 40, spawns: map[spawnKey][]*State{}, followGo: true,
		maxSteps: 30000000, obls: map[string]*Obl{}, fnSeen: map[*ssa.Function]bool{}, cmps: map[*ssa.Function][]*Term{}}
}

func (e *Eng) fire(ev *Event) {
	if ev.Instr == nil {
		ev.Instr = e.cur
	}
	for _, h := range e.hooks {
		h(ev)
	}
}

// oblige records a proof obligation; false results are kept with their explanation
func (e *Eng) oblige(s *State, kind, where string, at ssa.Instruction, ok bool, msg string) {
	if e.probe > 0 {
		return
	}
	key := kind + " " + where
	o := e.obls[key]
	if o == nil {
		o = &Obl{Kind: kind, Where: where}
		if at != nil {
			o.Pos = e.w.pos(at)
		}
		e.obls[key] = o
		e.oblOrder = append(e.oblOrder, key)
	}
	o.N++
	if !ok {
		o.Bad++
		if o.Msg == "" {
			o.Msg = msg
			if s != nil {
				o.Msg += " | entry " + e.rootName + trailStr(s)
			}
			if at != nil {
				o.Pos = e.w.pos(at)
			}
		}
	}
}

func trailStr(s *State) string {
	var l []string
	for t := s.trail; t != nil && len(l) < 14; t = t.prev {
		l = append([]string{t.at}, l...)
	}
	if len(l) == 0 {
		return ""
	}
	return " | path " + strings.Join(l, " > ")
}

func (e *Eng) note(s *State, at string) { s.trail = &trail{s.trail, at} }

// ---- values ----

func constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch {
	case isBool(t):
		return Bool(constant.BoolVal(c.Value))
	case isInt(t):
		if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return Int(v)
		}
		return NamedSym("bigconst"+c.Value.ExactString(), t)
	case isFloat(t):
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return floatConst(f)
	case isString(t):
		return Str(constant.StringVal(c.Value))
	}
	return NamedSym("const"+c.Value.ExactString(), t)
}

func (e *Eng) val(s *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return mk(Term{op: OGlobal, glob: x, typ: x.Type()})
	case *ssa.Function:
		return mk(Term{op: OFunc, fn: x, typ: x.Type()})
	case *ssa.Builtin:
		return Str("builtin " + x.Name())
	}
	if t, ok := s.fr.env.get(posID(v)); ok {
		return t
	}
	// a value the analysis lost (should not happen on feasible paths)
	t := freshVal("lost."+v.Name(), v.Type())
	s.fr.env = s.fr.env.set(posID(v), t)
	return t
}

func (e *Eng) set(s *State, v ssa.Value, t *Term) {
	if t == nil {
		return
	}
	s.fr.env = s.fr.env.set(posID(v), t)
}

// ---- function information ----

type loopInfo struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	depth int
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo
	live  []map[int]bool // live-in per block, phis of the block included
	irred bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if fi, ok := fnInfos[fn]; ok {
		return fi
	}
	fi := &fnInfo{loops: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	onstk := map[*ssa.BasicBlock]bool{}
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		onstk[b] = true
		for _, t := range b.Succs {
			if !seen[t] {
				dfs(t)
			} else if onstk[t] {
				if !t.Dominates(b) {
					fi.irred = true
				}
				l := fi.loops[t]
				if l == nil {
					l = &loopInfo{head: t, body: map[*ssa.BasicBlock]bool{t: true}}
					fi.loops[t] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
		onstk[b] = false
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	// liveness
	n := len(fn.Blocks)
	fi.live = make([]map[int]bool, n)
	for i := range fi.live {
		fi.live[i] = map[int]bool{}
	}
	isVar := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[int]bool{}
			for _, t := range b.Succs {
				for k := range fi.live[t.Index] {
					live[k] = true
				}
				for _, in := range t.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, posID(ph))
				}
			}
			for _, t := range b.Succs {
				for pi, p := range t.Preds {
					if p != b {
						continue
					}
					for _, in := range t.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if isVar(ph.Edges[pi]) {
							live[posID(ph.Edges[pi])] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if ph, ok := in.(*ssa.Phi); ok {
					live[posID(ph)] = true
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, posID(v))
				}
				for _, op := range in.Operands(nil) {
					if isVar(*op) {
						live[posID(*op)] = true
					}
				}
			}
			if len(live) != len(fi.live[i]) {
				fi.live[i] = live
				changed = true
			}
		}
	}
	fnInfos[fn] = fi
	return fi
}

// ---- calls ----

func (e *Eng) onStack(s *State, fn *ssa.Function) int {
	n := 0
	for f := s.fr; f != nil; f = f.parent {
		if f.fn == fn {
			n++
		}
	}
	return n
}

// run executes fn as a root from the given state
func (e *Eng) run(s *State, fn *ssa.Function, args, binds []*Term) []*State {
	e.rootName = e.w.fname(fn)
	s.fr = &Frame{}
	outs := e.inline(s, fn, args, binds, nil)
	for _, o := range outs {
		e.fire(&Event{Kind: EvRootEnd, S: o, Val: o.ret, Callee: fn})
	}
	// goroutines started on the way are separate roots
	for e.followGo && len(e.spawnOrder) > 0 {
		g := e.spawnOrder[0]
		e.spawnOrder = e.spawnOrder[1:]
		ss := e.spawns[g]
		delete(e.spawns, g)
		e.runSpawn(g.g, ss)
	}
	return outs
}

func (e *Eng) runSpawn(g *ssa.Go, ss []*State) {
	st := e.joinAll(ss, "go")
	if st == nil {
		return
	}
	fnT := st.extra["go.fn"]
	args := st.extra["go.args"].args
	st.setExtra("go.fn", nil)
	st.setExtra("go.args", nil)
	e.rootName = "goroutine started at " + e.w.pos(g)
	st.fr = &Frame{}
	if fnT.op != OFunc || fnT.fn.Blocks == nil {
		return
	}
	outs := e.inline(st, fnT.fn, args, fnT.args, nil)
	for _, o := range outs {
		e.fire(&Event{Kind: EvRootEnd, S: o, Val: o.ret, Callee: fnT.fn})
	}
}

func (e *Eng) inline(s *State, fn *ssa.Function, args, binds []*Term, at ssa.Instruction) []*State {
	e.fnSeen[fn] = true
	parent := s.fr
	depth := 0
	if parent != nil {
		depth = parent.depth + 1
	}
	fr := &Frame{fn: fn, parent: parent, depth: depth, call: at}
	s.fr = fr
	if debugCalls {
		fmt.Fprintln(os.Stderr, strings.Repeat(" ", depth), e.w.fname(fn), e.probe)
	}
	for i, p := range fn.Params {
		if i < len(args) {
			e.set(s, p, args[i])
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			e.set(s, p, binds[i])
		}
	}
	fi := infoOf(fn)
	if fi.irred {
		e.gaveUp = "irreducible control flow in " + e.w.fname(fn)
	}
	rets, _, _ := e.region(fn, nil, fn.Blocks[0], []*State{s})
	for _, o := range rets {
		p := *o.fr.parent
		o.fr = &p
	}
	if len(rets) > e.retCap {
		rets = e.mergeByKey(rets, func(o *State) string { return o.monKey() + "#" + shape(o, o.ret) }, "ret")
	}
	return rets
}

// shape is the discrete part of a value: which results are nil, constant flags, dynamic types
func shape(s *State, v *Term) string {
	if v == nil {
		return "-"
	}
	if v.op == OTuple {
		r := ""
		for _, a := range v.args {
			r += shape(s, a) + ","
		}
		return r
	}
	if v == tTrue || v == tFalse {
		return v.k.String()
	}
	if v.op == OInt && v.n < 0 {
		return v.String()
	}
	if v.op == OIface {
		return "i" + itoa(typID(v.typ)) + shape(s, v.args[0])
	}
	switch s.facts.nilness(v) {
	case 1:
		return "nil"
	case 2:
		if t := s.facts.dynType(v); t != nil {
			return "d" + itoa(typID(t))
		}
		return "set"
	}
	return "*"
}

type exitEdge struct {
	to *ssa.BasicBlock
	s  *State
}

// region executes the blocks of a loop body (or of the whole function when body is nil)
func (e *Eng) region(fn *ssa.Function, body map[*ssa.BasicBlock]bool, head *ssa.BasicBlock, in []*State) (rets, backs []*State, exits []exitEdge) {
	fi := infoOf(fn)
	pend := map[*ssa.BasicBlock][]*State{head: in}
	route := func(to *ssa.BasicBlock, s *State) {
		switch {
		case body != nil && to == head:
			backs = append(backs, s)
		case body != nil && !body[to]:
			exits = append(exits, exitEdge{to, s})
		default:
			pend[to] = append(pend[to], s)
		}
	}
	for _, b := range fi.rpo {
		ss := pend[b]
		if len(ss) == 0 || body != nil && !body[b] {
			continue
		}
		delete(pend, b)
		if e.gaveUp != "" {
			return nil, nil, nil
		}
		if l := fi.loops[b]; l != nil && !(body != nil && b == head) {
			r, ex := e.execLoop(fn, l, ss)
			rets = append(rets, r...)
			for _, x := range ex {
				route(x.to, x.s)
			}
			continue
		}
		if len(ss) > e.blockCap {
			ss = e.mergeByKey(ss, func(o *State) string { return o.monKey() }, "blk")
		}
		for _, s := range ss {
			r := e.execBlock(s, b, route)
			rets = append(rets, r...)
		}
	}
	return
}

func (e *Eng) execLoop(fn *ssa.Function, l *loopInfo, in []*State) (rets []*State, exits []exitEdge) {
	key := func(o *State) string { return o.monKey() }
	n := 0
	if !overMap(l.head) {
		for _, s := range in {
			if t := e.trips(s, l); t == 0 {
				n = 0
				break
			} else if t > n {
				n = t
			}
		}
	}
	if n == 0 || len(in) > e.blockCap { // counted out by constants, it is straight-line code: nothing to join
		in = e.mergeByKey(in, func(o *State) string { return key(o) + "#" + e.envShape(o, l.head) }, "pre")
	}
	// first iteration on its own, except for loops over maps
	heads := map[string]*State{}
	var r, backs []*State
	var ex []exitEdge
	if !overMap(l.head) {
		r, backs, ex = e.region(fn, l.body, l.head, in)
		rets, exits = append(rets, r...), append(exits, ex...)
		for ; n > 0 && len(backs) > 0 && e.gaveUp == ""; n-- { // counted out by constants: round by round
			for _, b := range backs {
				e.fire(&Event{Kind: EvAgain, S: b, Instr: l.head.Instrs[0]})
			}
			if len(backs) > e.blockCap {
				backs = e.mergeByKey(backs, func(o *State) string { return key(o) + "#" + e.envShape(o, l.head) }, "round")
			}
			r, backs, ex = e.region(fn, l.body, l.head, backs)
			rets, exits = append(rets, r...), append(exits, ex...)
		}
		if len(backs) == 0 {
			return
		}
		heads = e.groupHeads(e.splitFlags(backs, l.head), key, l.head)
	} else {
		heads = e.groupHeads(in, key, nil)
	}
	ctxs := map[string]*loopCtx{}
	for k := range heads {
		ctxs[k] = newLoopCtx()
	}
	e.probe++
	stable := false
	for it := 0; it < 40; it++ {
		var in2 []*State
		for _, k := range sortedKeys(heads) {
			in2 = append(in2, heads[k].clone())
		}
		r2, backs2, ex2 := e.region(fn, l.body, l.head, in2)
		if e.gaveUp != "" {
			break
		}
		nb := e.groupHeads(e.splitFlags(backs2, l.head), key, l.head)
		changed := false
		if len(heads) > 24 || len(nb) > 24 {
			if debugJoin {
				for _, k := range sortedKeys(nb) {
					fmt.Fprintln(os.Stderr, "HEADKEY", k)
				}
				for _, k := range sortedKeys(heads) {
					fmt.Fprintln(os.Stderr, "HEADKEY0", k)
				}
			}
			e.gaveUp = "the locks held (or other state) keep changing with every pass of the loop in " + e.w.fname(fn) + " at " + e.w.posOf(l.head)
			break
		}
		for _, nh := range nb {
			if len(nh.locks) > 12 {
				e.gaveUp = "every pass of the loop in " + e.w.fname(fn) + " at " + e.w.posOf(l.head) + " may leave another lock held: " + lockList(nh)
			}
		}
		if e.gaveUp != "" {
			break
		}
		for _, k := range sortedKeys(nb) {
			h := heads[k]
			if debugJoin {
				fmt.Fprintln(os.Stderr, "widen", it, e.w.posOf(l.head), k, h == nil)
			}
			if h == nil {
				heads[k] = nb[k]
				ctxs[k] = newLoopCtx()
				changed = true
				continue
			}
			n, ch := e.widen(h, nb[k], ctxs[k], it)
			heads[k] = n
			if ch {
				changed = true
			}
		}
		if !changed {
			stable = true
			if e.probe > 1 { // an enclosing loop is still being explored: nothing is recorded yet
				e.probe--
				for _, b := range backs2 {
					e.fire(&Event{Kind: EvIter, S: b, Instr: l.head.Instrs[0]})
				}
				return append(rets, r2...), append(exits, ex2...)
			}
			break
		}
	}
	e.probe--
	if !stable && e.gaveUp == "" {
		e.gaveUp = "no stable loop state in " + e.w.fname(fn) + " at " + e.w.posOf(l.head)
	}
	var in3 []*State
	for _, k := range sortedKeys(heads) {
		in3 = append(in3, heads[k].clone())
	}
	r, backs, ex = e.region(fn, l.body, l.head, in3)
	for _, b := range e.splitFlags(backs, l.head) {
		e.fire(&Event{Kind: EvAgain, S: b, Instr: l.head.Instrs[0]})
		e.fire(&Event{Kind: EvIter, S: b, Instr: l.head.Instrs[0]})
	}
	return append(rets, r...), append(exits, ex...)
}

// splitFlags separates the values of boolean variables carried around the loop
func (e *Eng) splitFlags(ss []*State, head *ssa.BasicBlock) []*State {
	for _, in := range head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isBool(ph.Type()) {
			continue
		}
		var out []*State
		for _, s := range ss {
			v := e.val(s, ph)
			if v == nil || v.op != OEq0 && v.op != OGe0 && v.op != ONot || s.facts.evalBool(v) != 0 {
				out = append(out, s)
				continue
			}
			for _, b := range []bool{true, false} {
				x := s.clone()
				if x.facts.assume(v, b) {
					e.set(x, ph, Bool(b))
					out = append(out, x)
				}
			}
		}
		ss = out
	}
	return ss
}

func overMap(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			return !n.IsString
		}
	}
	return false
}

func (e *Eng) groupHeads(ss []*State, key func(*State) string, head *ssa.BasicBlock) map[string]*State {
	g := map[string][]*State{}
	for _, s := range ss {
		if head != nil {
			e.fire(&Event{Kind: EvAgain, S: s, Instr: head.Instrs[0]})
		}
		k := key(s)
		g[k] = append(g[k], s)
	}
	r := map[string]*State{}
	for k, l := range g {
		r[k] = e.joinAll(l, "head")
	}
	return r
}

func (e *Eng) envShape(s *State, b *ssa.BasicBlock) string {
	r := ""
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r += shape(s, e.val(s, ph)) + ";"
	}
	return r
}

// edge moves a state along a control-flow edge: phis, then drop dead values
func (e *Eng) edge(s *State, from, to *ssa.BasicBlock, occ int) {
	pi := -1
	k := 0
	for i, p := range to.Preds {
		if p == from {
			if k == occ {
				pi = i
				break
			}
			k++
			pi = i
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(s, ph.Edges[pi]))
	}
	for i, ph := range phis {
		e.set(s, ph, vals[i])
	}
	live := infoOf(from.Parent()).live[to.Index]
	env := s.fr.env
	s.fr.env.each(func(k int, _ *Term) {
		if !live[k] {
			env = env.del(k)
		}
	})
	s.fr.env = env
}

func (e *Eng) execBlock(s *State, b *ssa.BasicBlock, route func(*ssa.BasicBlock, *State)) (rets []*State) {
	ss := []*State{s}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		var next []*State
		for _, s := range ss {
			e.cur = in
			e.steps++
			if e.steps > e.maxSteps {
				e.gaveUp = "step limit reached"
			}
			if outOfBudget.Load() {
				e.gaveUp = "out of time or memory"
			}
			if e.gaveUp != "" {
				return nil
			}
			switch x := in.(type) {
			case *ssa.If:
				c := e.val(s, x.Cond)
				t, f := b.Succs[0], b.Succs[1]
				occ := 0
				if t == f {
					occ = 1
				}
				r := s.facts.evalBool(c)
				if r == 0 || r == 1 {
					st := s
					if r == 0 {
						st = s.clone()
					}
					if st.facts.assume(c, true) {
						if r == 0 {
							e.note(st, e.w.pos(in)+" true")
						}
						ev := &Event{Kind: EvBranch, S: st, Instr: in, Val: c, Mode: 1}
						e.fire(ev)
						if !ev.Kill {
							e.edge(st, b, t, 0)
							route(t, st)
						}
					}
				}
				if r == 0 || r == 2 {
					st := s
					if st.facts.assume(c, false) {
						if r == 0 {
							e.note(st, e.w.pos(in)+" false")
						}
						ev := &Event{Kind: EvBranch, S: st, Instr: in, Val: c, Mode: 0}
						e.fire(ev)
						if !ev.Kill {
							e.edge(st, b, f, occ)
							route(f, st)
						}
					}
				}
			case *ssa.Jump:
				e.edge(s, b, b.Succs[0], 0)
				route(b.Succs[0], s)
			case *ssa.Return:
				var rs []*Term
				for _, r := range x.Results {
					rs = append(rs, e.val(s, r))
				}
				switch len(rs) {
				case 0:
					s.ret = nil
				case 1:
					s.ret = rs[0]
				default:
					s.ret = Tuple(rs...)
				}
				e.fire(&Event{Kind: EvReturn, S: s, Instr: in, Val: s.ret, Callee: b.Parent()})
				rets = append(rets, s)
			case *ssa.Panic:
				e.oblige(s, "panic", e.where(s, in, "explicit panic"), in, false, "reachable panic")
				e.fire(&Event{Kind: EvPanic, S: s, Instr: in})
			default:
				next = append(next, e.instr(s, in)...)
			}
		}
		if len(next) > e.blockCap*2 {
			next = e.mergeByKey(next, func(o *State) string { return o.monKey() }, "mid")
		}
		ss = next
	}
	return
}

// where names a construct without line numbers: function and value description
func (e *Eng) where(s *State, in ssa.Instruction, what string) string {
	return e.w.fname(in.Parent()) + ": " + what
}
