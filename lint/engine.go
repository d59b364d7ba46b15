package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// State

type dcall struct {
	instr *ssa.Defer
	fn    *Val
	args  []*Val
	meth  *types.Func
}

type Frame struct {
	fn        *ssa.Function
	block     *ssa.BasicBlock
	idx       int
	prev      *ssa.BasicBlock
	env       map[ssa.Value]*Val
	defers    []dcall
	call      ssa.CallInstruction // call instruction in the caller (nil: root or deferred)
	retVal    ssa.Value           // value in the caller's env to bind
	ctx       string
	isDefer   bool // frame runs a deferred call of the frame below
	panicking bool // this frame is unwinding
	recovered bool
	pend      []*Val // values of the phis being entered
}

type RS [24]int16

type State struct {
	frames []*Frame
	mem    map[*Val]*Val
	facts  map[*Val]bool
	A      RS
	RV     [10]*Val
	panicV *Val
	trace  *Trace
}

type Trace struct {
	prev *Trace
	pos  token.Pos
	what string
	n    int
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		nf := *f
		nf.env = make(map[ssa.Value]*Val, len(f.env))
		for k, v := range f.env {
			nf.env[k] = v
		}
		nf.defers = append([]dcall(nil), f.defers...)
		n.frames[i] = &nf
	}
	n.mem = make(map[*Val]*Val, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.facts = make(map[*Val]bool, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	return &n
}

func (s *State) note(pos token.Pos, what string) {
	n := 0
	if s.trace != nil {
		n = s.trace.n
	}
	s.trace = &Trace{prev: s.trace, pos: pos, what: what, n: n + 1}
}

// ---------------------------------------------------------------------------
// Events

type EvKind int

const (
	EvCall      EvKind = iota // before a call (inlined or not)
	EvRet                     // after a call returned (inlined or not)
	EvSend                    // ch <- v
	EvRecv                    // <-ch
	EvSelect                  // one case of a select chosen (Case>=0), or default (Case==-1)
	EvStore                   // *addr = v
	EvGo                      // go f(args)
	EvReturn                  // root function returns normally
	EvPanic                   // root function exits by panic
	EvExit                    // process exit (os.Exit, log.Fatal)
	EvBranch                  // condition assumed
	EvMapUpdate               // m[k] = v
	EvBlock                   // entering block
	EvArith                   // integer addition or subtraction (ArithEvents)
	EvAlloc                   // allocation (AllocEvents)
	EvIndex                   // address of an element (IndexEvents)
	EvLoad                    // *addr, or m[k] with Args=[m,k] (LoadEvents)
	EvRisk                    // operation that may panic; Callee: index, div, makeslice, assert, slice (RiskEvents)
)

type Event struct {
	Kind        EvKind
	Instr       ssa.Instruction
	Fn          *ssa.Function // function containing the instruction
	Callee      string
	Target      *ssa.Function // static or resolved callee, nil if unknown
	Inlined     bool
	Args        []*Val // receiver first
	Res         []*Val
	Chan        *Val
	Dir         types.ChanDir
	Case        int
	Sel         *ssa.Select
	Blocking    bool
	Addr        *Val
	Val         *Val
	Cond        *Val
	Raw         *Val // stored value before abstraction (EvStore)
	Taken       bool
	Deferred    bool
	FnVal       *Val
	In          bool // frame depth info: true if root frame
	Block, From *ssa.BasicBlock
	Back        bool
}

func (e *Event) Pos() token.Pos {
	if e.Instr == nil {
		return token.NoPos
	}
	return e.Instr.Pos()
}

// Exec explores every path of one root function.
type Exec struct {
	P        *Prog
	T        *valTab
	Root     *ssa.Function
	Hook     func(x *Exec, s *State, e *Event)
	Inline   func(fn *ssa.Function) bool              // optional: restrict inlining
	PanicAt  func(s *State, e *Event) bool            // fork a panic edge at this (opaque) call
	Model    func(x *Exec, s *State, e *Event) []*Val // optional results of opaque call
	MaxSteps int
	Untrack  func(a *Val) bool // cells whose contents need not survive a join
	MaxTerm  int               // larger stored terms are abstracted
	MaxDepth int
	wasOf    map[*Val]*Val // old symbols: the terms they rename
	Fail     func(rule string, pos token.Pos, construct, msg string)
	// NoMerge keeps facts even if their leaves are unreachable
	Steps, Paths, Forks, Blocks int
	visited                     map[string]bool
	work                        []*State
	ids                         map[ssa.Instruction]int
	kill                        bool // set by hook: stop this path
	Undecided                   string
	fresh                       int
	argVals                     []*Val
	FactKeep                    func(v *Val) bool
	Keep                        func(f *Val) bool // facts worth keeping at joins; nil keeps all
	KeepIf                      func(f *Val, v bool) bool
	BlockEvents                 bool
	ArithEvents                 bool
	AllocEvents                 bool
	IndexEvents                 bool
	LoadEvents                  bool
	RiskEvents                  bool
	Fixed                       func(a *Val) *Val // values of cells that are never written
	CtxTerms                    bool              // derived contexts are terms ctxwith(site, parent, limit)
	Forget                      func(v *Val) bool // values whose identity need not survive a join
	inlined                     map[*ssa.Function]bool
	modCache                    map[*ssa.Function]*modset
	pair                        map[*Val]*Val // (value, error) results of database/sql calls
	ctxOf                       map[*Val]*Val // results of Context.Err: their context
	shared                      map[*Val]bool // cells written by goroutines
	Peel                        bool          // analyse the first iteration of index loops separately
	Unroll                      int64         // loops over a constant number of elements up to this are followed round by round
	MaxBin                      int           // larger arithmetic terms are abstracted
	Debug                       bool
	samples                     map[*ssa.BasicBlock][]string
}

func NewExec(p *Prog, root *ssa.Function) *Exec {
	return &Exec{P: p, T: &valTab{m: map[string]*Val{}}, Root: root, MaxSteps: 3000000, MaxTerm: 30, MaxBin: 30, MaxDepth: 10,
		Debug: os.Getenv("FINCHLINT_DEBUG") != "", visited: map[string]bool{}, ctxOf: map[*Val]*Val{}, pair: map[*Val]*Val{}, ids: map[ssa.Instruction]int{}, inlined: map[*ssa.Function]bool{}, modCache: map[*ssa.Function]*modset{}, shared: map[*Val]bool{}}
}

func (x *Exec) id(i ssa.Instruction) int {
	if n, ok := x.ids[i]; ok {
		return n
	}
	n := len(x.ids) + 1
	x.ids[i] = n
	return n
}

// Kill stops exploring the current path (called from hooks).
func (x *Exec) Kill() { x.kill = true }

// TraceStr renders the last steps of a path.
func (x *Exec) TraceStr(s *State, max int) []string {
	var out []string
	for t := s.trace; t != nil && len(out) < max; t = t.prev {
		out = append(out, x.P.Pos(t.pos)+" "+t.what)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Run explores the root function. args may be nil for default symbolic parameters.
func (x *Exec) Run(args []*Val, init func(s *State)) {
	s := &State{mem: map[*Val]*Val{}, facts: map[*Val]bool{}}
	fr := &Frame{fn: x.Root, env: map[ssa.Value]*Val{}, ctx: ""}
	for i, p := range x.Root.Params {
		v := x.T.sym("param:"+p.Name(), p.Type())
		if args != nil && i < len(args) && args[i] != nil {
			v = args[i]
		} else if _, ok := p.Type().Underlying().(*types.Pointer); ok && i == 0 && x.Root.Signature.Recv() != nil {
			s.facts[x.T.eq(v, x.T.nilv())] = false
		}
		fr.env[p] = v
		x.argVals = append(x.argVals, v)
	}
	for _, p := range x.Root.FreeVars {
		v := x.T.sym("free:"+p.Name(), p.Type())
		fr.env[p] = v
		x.argVals = append(x.argVals, v)
	}
	s.frames = []*Frame{fr}
	if init != nil {
		init(s)
	}
	if len(x.Root.Blocks) == 0 {
		x.Undecided = "no body: " + x.Root.String()
		return
	}
	x.enter(s, fr, nil, x.Root.Blocks[0])
	x.work = append(x.work, s)
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.exec(s)
		if x.Steps > x.MaxSteps {
			x.Undecided = fmt.Sprintf("state space of %s exceeds %d steps", x.Root.Name(), x.MaxSteps)
			return
		}
	}
}

// ArgVal returns root parameter i's value (receiver is 0; free vars follow).
func (x *Exec) ArgVal(i int) *Val {
	if i < len(x.argVals) {
		return x.argVals[i]
	}
	return nil
}

func (x *Exec) push(s *State) { x.work = append(x.work, s) }

func (x *Exec) exec(s *State) {
	for {
		x.Steps++
		if x.Steps > x.MaxSteps {
			return
		}
		fr := s.top()
		if fr.idx >= len(fr.block.Instrs) {
			return
		}
		if !x.step(s, fr) {
			return
		}
	}
}

// ---------------------------------------------------------------------------
// Liveness

type liveness struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
	at map[liveKey]map[ssa.Value]bool
}

func (p *Prog) liveness(fn *ssa.Function) *liveness {
	if l, ok := p.live[fn]; ok {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, sc := range b.Succs {
				for v := range l.in[sc] {
					live[v] = true
				}
				for _, in := range sc.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, ph)
				}
			}
			for _, sc := range b.Succs {
				for pi, pb := range sc.Preds {
					if pb != b {
						continue
					}
					for _, in := range sc.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if track(ph.Edges[pi]) {
							live[ph.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					continue // defined at entry: live there if used later
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && track(*op) {
						live[*op] = true
					}
				}
			}
			if len(live) != len(l.in[b]) {
				l.in[b] = live
				changed = true
			}
		}
	}
	// the recover block loads named results
	if fn.Recover != nil {
		for v := range l.in[fn.Recover] {
			for _, b := range fn.Blocks {
				l.in[b][v] = true
			}
		}
	}
	p.live[fn] = l
	return l
}

type liveKey struct {
	b   *ssa.BasicBlock
	idx int
}

// liveAt is the set of values live before instruction idx of block b.
func (p *Prog) liveAt(fn *ssa.Function, b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	l := p.liveness(fn)
	if l.at == nil {
		l.at = map[liveKey]map[ssa.Value]bool{}
	}
	k := liveKey{b, idx}
	if m, ok := l.at[k]; ok {
		return m
	}
	m := map[ssa.Value]bool{}
	for _, sc := range b.Succs {
		for v := range l.in[sc] {
			m[v] = true
		}
		for pi, pb := range sc.Preds {
			if pb != b {
				continue
			}
			for _, in := range sc.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				m[ph.Edges[pi]] = true
			}
		}
	}
	for j := len(b.Instrs) - 1; j >= idx; j-- {
		in := b.Instrs[j]
		if v, ok := in.(ssa.Value); ok {
			delete(m, v)
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				m[*op] = true
			}
		}
	}
	if fn.Recover != nil {
		for v := range l.in[fn.Recover] {
			m[v] = true
		}
	}
	l.at[k] = m
	return m
}

// ---------------------------------------------------------------------------
// Block transitions

func (x *Exec) enter(s *State, fr *Frame, from, to *ssa.BasicBlock) bool {
	x.Blocks++
	back := from != nil && to.Dominates(from)
	if x.BlockEvents && from != nil {
		if !x.fire(s, &Event{Kind: EvBlock, Fn: fr.fn, Block: to, From: from, Back: back}) {
			return false
		}
	}
	// evaluate phis in parallel
	var phis []*ssa.Phi
	fr.pend = nil
	if from != nil {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
				break
			}
		}
		unroll := x.Unroll > 0 && x.unrolls(s, fr, to, pi)
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			e := ph.Edges[pi]
			v := x.val(s, fr, e)
			if unroll {
				phis = append(phis, ph)
				fr.pend = append(fr.pend, v)
				continue
			}
			if !back && !x.Peel && isRangeIndex(ph) {
				v = x.symFor(s, fr, ph, "phi", ph.Type())
			}
			if back {
				if _, isC := e.(*ssa.Const); !isC {
					v = x.widen(s, fr, ph, v, e)
				}
			}
			if v.size > x.MaxTerm+10 {
				v = x.symFor(s, fr, ph, "big", ph.Type())
			}
			phis = append(phis, ph)
			fr.pend = append(fr.pend, v)
		}
	}
	for i, ph := range phis {
		// a widened phi symbol may be re-created: age the old one
		fr.env[ph] = fr.pend[i]
	}
	fr.pend = nil
	fr.prev, fr.block, fr.idx = from, to, len(phis)
	if from == nil {
		fr.idx = 0
	}
	if len(to.Preds) >= 2 || back {
		if x.Keep != nil {
			for f, v := range s.facts {
				if f.Op != "ctxdone" && !x.Keep(f) && (x.KeepIf == nil || !x.KeepIf(f, v)) {
					delete(s.facts, f)
				}
			}
		}
		if x.Untrack != nil {
			for a := range s.mem {
				if x.Untrack(a) {
					delete(s.mem, a)
				}
			}
		}
		x.prune(s)
		if x.Forget != nil {
			x.forget(s)
		}
		k := x.key(s)
		if x.visited[k] {
			return false
		}
		x.visited[k] = true
		if x.Debug {
			x.sample(s)
		}
	}
	return true
}

// unrolls: h is the header of a loop over a small constant number of elements.
func (x *Exec) unrolls(s *State, fr *Frame, h *ssa.BasicBlock, pi int) bool {
	if _, ok := h.Instrs[0].(*ssa.Phi); !ok {
		return false
	}
	lim, _, _, why := indexLoopIf(h, func(from, to *ssa.BasicBlock) bool { return true })
	if why == "" {
		n, ok := x.val(s, fr, lim).constInt()
		return ok && n <= x.Unroll
	}
	// counting up to a constant from another one
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch bo.Op {
	case token.LSS, token.LEQ, token.NEQ, token.GTR, token.GEQ:
	default:
		return false
	}
	ph, ok := bo.X.(*ssa.Phi)
	l := bo.Y
	if !ok || ph.Block() != h {
		ph, ok = bo.Y.(*ssa.Phi)
		l = bo.X
	}
	if !ok || ph.Block() != h {
		return false
	}
	for i, e := range ph.Edges {
		add, isAdd := e.(*ssa.BinOp)
		if loopBody(h)[h.Preds[i]] {
			if !isAdd || add.Op != token.ADD && add.Op != token.SUB || add.X != ssa.Value(ph) || !isConstInt(add.Y, 1) {
				return false
			}
		}
		if i == pi {
			if n, ok := x.val(s, fr, e).constInt(); !ok || n < -1 || n > x.Unroll {
				return false
			}
		}
	}
	if cv, ok := l.(*ssa.Convert); ok && cv.Block() == h {
		l = cv.X
	}
	if in, ok := l.(ssa.Instruction); ok && in.Block() == h {
		if sl := isLen(l); sl != nil {
			n, ok := x.lenOf(x.val(s, fr, sl)).constInt()
			return ok && n <= x.Unroll
		}
		return false
	}
	n, ok := x.val(s, fr, l).constInt()
	return ok && n <= x.Unroll
}

// isRangeIndex recognises the induction variable of a counting loop (0 or -1, +1).
func isRangeIndex(ph *ssa.Phi) bool {
	b, ok := ph.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || len(ph.Edges) < 2 {
		return false
	}
	inc, start := false, false
	for i, e := range ph.Edges {
		if c, ok := e.(*ssa.Const); ok && !ph.Block().Dominates(ph.Block().Preds[i]) {
			n, _ := constant.Int64Val(c.Value)
			if n != 0 && n != -1 {
				return false
			}
			start = true
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.X != ssa.Value(ph) {
			return false
		}
		inc = true
	}
	return inc && start
}

// widen abstracts a loop-carried value on a back edge.
func (x *Exec) widen(s *State, fr *Frame, ph *ssa.Phi, v *Val, e ssa.Value) *Val {
	cur := fr.env[ph]
	if cur == v {
		return v
	}
	b, _ := ph.Type().Underlying().(*types.Basic)
	if b != nil && b.Info()&types.IsNumeric != 0 {
		return x.symFor(s, fr, ph, "phi", ph.Type())
	}
	if b != nil && b.Info()&types.IsBoolean != 0 {
		if _, ok := v.constBool(); ok {
			return v
		}
		if v.Op == "sym" {
			return v
		}
		return x.symFor(s, fr, ph, "phi", ph.Type())
	}
	if v.isConst() || v.Op == "sym" || v.Op == "alloc" || v.Op == "func" || v.Op == "closure" || v.Op == "global" {
		return v
	}
	if v.Op == "load" && !v.contains(x.T.sym(x.symName(fr, ph, "phi"), nil)) && v.size < 8 {
		return v
	}
	return x.symFor(s, fr, ph, "phi", ph.Type())
}

func (x *Exec) symName(fr *Frame, in ssa.Instruction, what string) string {
	return fmt.Sprintf("%s%s#%d", what, fr.ctx, x.id(in))
}

// symFor makes the fresh symbol of instruction in in this frame, ageing a previous one.
func (x *Exec) symFor(s *State, fr *Frame, in ssa.Instruction, what string, ty types.Type) *Val {
	v := x.T.sym(x.symName(fr, in, what), ty)
	x.age(s, v)
	return v
}

// age renames term v, wherever it occurs in the state, to an "old" symbol, so v can be redefined.
func (x *Exec) age(s *State, v *Val) {
	if !x.occurs(s, v) {
		x.dropFacts(s, v)
		return
	}
	op := "sym"
	if v.Op == "alloc" {
		op = "alloc"
	}
	name := fmt.Sprintf("%s@%d", v.String(), v.id)
	old := x.T.mk(Val{Op: op, Name: "old:" + name, T: v.T})
	if x.occurs(s, old) {
		x.dropFacts(s, old)
		x.substAll(s, old, x.T.mk(Val{Op: "sym", Name: "mix:" + name, T: v.T}))
	}
	if x.wasOf == nil {
		x.wasOf = map[*Val]*Val{}
	}
	x.wasOf[old] = v
	x.substAll(s, v, old)
}

func (x *Exec) dropFacts(s *State, v *Val) {
	for f := range s.facts {
		if f.contains(v) {
			delete(s.facts, f)
		}
	}
}

func (x *Exec) occurs(s *State, v *Val) bool {
	for _, f := range s.frames {
		for _, e := range f.env {
			if e.contains(v) {
				return true
			}
		}
		for _, e := range f.pend {
			if e.contains(v) {
				return true
			}
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				if a.contains(v) {
					return true
				}
			}
		}
	}
	for k, m := range s.mem {
		if m.contains(v) || k.contains(v) {
			return true
		}
	}
	for _, r := range s.RV {
		if r != nil && r.contains(v) {
			return true
		}
	}
	return false
}

func (x *Exec) substAll(s *State, from, to *Val) {
	for _, f := range s.frames {
		for k, e := range f.env {
			if e.contains(from) {
				f.env[k] = x.T.subst(e, from, to)
			}
		}
		for k, e := range f.pend {
			f.pend[k] = x.T.subst(e, from, to)
		}
		for i, d := range f.defers {
			var na []*Val
			for _, a := range d.args {
				na = append(na, x.T.subst(a, from, to))
			}
			f.defers[i].args = na
		}
	}
	for k, m := range s.mem {
		nk, nm := x.T.subst(k, from, to), x.T.subst(m, from, to)
		if nk != k {
			delete(s.mem, k)
		}
		s.mem[nk] = nm
	}
	for i, r := range s.RV {
		if r != nil {
			s.RV[i] = x.T.subst(r, from, to)
		}
	}
	for f, b := range s.facts {
		if f.contains(from) {
			delete(s.facts, f)
			s.facts[x.T.subst(f, from, to)] = b
		}
	}
}

// Rename gives value v the name to everywhere in the state, keeping what is known about its nil-ness.
func (x *Exec) Rename(s *State, v, to *Val) {
	if v == to || v.isConst() {
		return
	}
	nl, known := x.IsNil(s, v)
	if x.occurs(s, to) {
		x.age(s, to)
	} else {
		x.dropFacts(s, to)
	}
	x.substAll(s, v, to)
	if _, ok := x.IsNil(s, to); known && !ok {
		s.facts[x.T.eq(to, x.T.nilv())] = nl
	}
}

// prune drops dead env entries, unreachable memory, and facts nobody can ask about.
func (x *Exec) prune(s *State) {
	reach := map[*Val]bool{}
	var mark func(v *Val)
	mark = func(v *Val) {
		if v == nil {
			return
		}
		for _, l := range v.leaves {
			reach[l] = true
		}
	}
	for i, f := range s.frames {
		var live map[ssa.Value]bool
		if i == len(s.frames)-1 {
			live = x.P.liveness(f.fn).in[f.block]
		} else {
			live = x.P.liveAt(f.fn, f.block, f.idx)
			if f.panicking {
				// only the recover block can still read values
				live = map[ssa.Value]bool{}
				if f.fn.Recover != nil {
					live = x.P.liveness(f.fn).in[f.fn.Recover]
				}
			}
		}
		for k, v := range f.env {
			if live != nil && !live[k] {
				delete(f.env, k)
				continue
			}
			mark(v)
		}
		for _, d := range f.defers {
			mark(d.fn)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, v := range x.argVals {
		mark(v)
	}
	for _, v := range s.RV {
		mark(v)
	}
	mark(s.panicV)
	for changed := true; changed; {
		changed = false
		for k, v := range s.mem {
			ok := true
			for _, l := range k.leaves {
				if !reach[l] && l.Op != "global" {
					ok = false
				}
			}
			if !ok {
				continue
			}
			for _, l := range v.leaves {
				if !reach[l] {
					reach[l] = true
					changed = true
				}
			}
		}
	}
	okLeaves := func(v *Val) bool {
		for _, l := range v.leaves {
			if !reach[l] && l.Op != "global" {
				return false
			}
		}
		return true
	}
	for k := range s.mem {
		if !okLeaves(k) {
			delete(s.mem, k)
		}
	}
	for k := range s.facts {
		if !okLeaves(k) && (x.FactKeep == nil || !x.FactKeep(k)) {
			delete(s.facts, k)
		}
	}
}

// forget replaces values the rule does not track by one symbol per location.
func (x *Exec) forget(s *State) {
	drop := func(v *Val) bool {
		if v == nil || v.Op == "const" || v.Op == "alloc" || v.Op == "closure" || v.Op == "func" || v.Op == "global" || v.Op == "field" || v.Op == "elem" || v.Op == "tuple" || v.Op == "range" || v.Op == "slice" {
			return false
		}
		sym := false
		for _, l := range v.leaves {
			if l.Op == "sym" && !strings.HasPrefix(l.Name, "param:") && !strings.HasPrefix(l.Name, "phi") {
				sym = true
			}
		}
		if !sym || strings.HasPrefix(v.Name, "at:") {
			return false
		}
		for _, r := range s.RV {
			if r != nil && (v.contains(r) || r.contains(v)) {
				return false
			}
		}
		return x.Forget(v)
	}
	repl := func(loc string, v *Val) *Val {
		n := x.T.sym("at:"+loc, v.T)
		if x.occurs(s, n) {
			x.age(s, n)
		}
		if isnil, ok := x.IsNil(s, v); ok {
			f := x.T.eq(n, x.T.nilv())
			if x.Keep == nil || x.Keep(f) || x.KeepIf != nil && x.KeepIf(f, isnil) {
				s.facts[f] = isnil
			}
		}
		return n
	}
	type loc struct {
		name string
		set  func(v *Val)
		get  func() *Val
	}
	var locs []loc
	for _, f := range s.frames {
		f := f
		for k, v := range f.env {
			k := k
			if drop(v) {
				locs = append(locs, loc{f.ctx + f.fn.Name() + "." + k.Name(), func(v *Val) { f.env[k] = v }, func() *Val { return f.env[k] }})
			}
		}
	}
	for k, v := range s.mem {
		k := k
		if drop(v) {
			locs = append(locs, loc{k.String(), func(v *Val) { s.mem[k] = v }, func() *Val { return s.mem[k] }})
		}
	}
	sort.Slice(locs, func(i, j int) bool { return locs[i].name < locs[j].name })
	for _, l := range locs {
		l.set(repl(l.name, l.get()))
	}
	if len(locs) > 0 {
		x.prune(s)
	}
}

// sample records states per block, for debugging state explosions.
func (x *Exec) sample(s *State) {
	if x.samples == nil {
		x.samples = map[*ssa.BasicBlock][]string{}
	}
	b := s.top().block
	x.samples[b] = append(x.samples[b], x.render(s))
}

func (x *Exec) render(s *State) string {
	var l []string
	for _, f := range s.frames {
		l = append(l, fmt.Sprintf("frame %s.%d%s", f.fn.Name(), f.block.Index, f.ctx))
		for k, v := range f.env {
			l = append(l, "  env "+f.fn.Name()+"."+k.Name()+" = "+v.String())
		}
	}
	for k, v := range s.mem {
		l = append(l, "  mem "+k.String()+" = "+v.String())
	}
	for k, v := range s.facts {
		l = append(l, fmt.Sprintf("  fact %v %s", v, k.String()))
	}
	l = append(l, fmt.Sprintf("  A %v", s.A))
	for i, r := range s.RV {
		if r != nil {
			l = append(l, fmt.Sprintf("  RV%d %s", i, r.String()))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// DumpSamples prints, for the block with most states, the lines that vary and how often.
func (x *Exec) DumpSamples() {
	var mb *ssa.BasicBlock
	for b, l := range x.samples {
		fmt.Printf("block %s.%d: %d states\n", b.Parent().Name(), b.Index, len(l))
		if mb == nil || len(l) > len(x.samples[mb]) {
			mb = b
		}
	}
	if mb == nil {
		return
	}
	n := map[string]int{}
	for _, st := range x.samples[mb] {
		for _, ln := range strings.Split(st, "\n") {
			n[ln]++
		}
	}
	var ks []string
	for k, v := range n {
		if v < len(x.samples[mb]) {
			ks = append(ks, fmt.Sprintf("%7d %s", v, k))
		}
	}
	sort.Strings(ks)
	fmt.Printf("varying at %s.%d (%d)\n%s\n", mb.Parent().Name(), mb.Index, len(x.samples[mb]), strings.Join(ks, "\n"))
}

func (x *Exec) key(s *State) string {
	var sb strings.Builder
	for _, f := range s.frames {
		if f.panicking {
			fmt.Fprintf(&sb, "F%p.%v%v%v[", f.fn, f.isDefer, f.panicking, f.recovered)
		} else {
			fmt.Fprintf(&sb, "F%p.%d.%d%v%v%v[", f.fn, f.block.Index, f.idx, f.isDefer, f.panicking, f.recovered)
		}
		if f != s.top() {
			sb.WriteString(f.ctx)
		}
		ks := make([]string, 0, len(f.env))
		for k, v := range f.env {
			ks = append(ks, fmt.Sprintf("%p=%d", k, v.id))
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ","))
		for _, d := range f.defers {
			fmt.Fprintf(&sb, "D%p", d.instr)
			for _, a := range d.args {
				fmt.Fprintf(&sb, ",%d", a.id)
			}
		}
		sb.WriteString("]" + f.ctx)
	}
	ms := make([]string, 0, len(s.mem))
	for k, v := range s.mem {
		ms = append(ms, fmt.Sprintf("%d=%d", k.id, v.id))
	}
	sort.Strings(ms)
	sb.WriteString("|M" + strings.Join(ms, ","))
	fs := make([]string, 0, len(s.facts))
	for k, v := range s.facts {
		fs = append(fs, fmt.Sprintf("%d=%v", k.id, v))
	}
	sort.Strings(fs)
	sb.WriteString("|P" + strings.Join(fs, ","))
	fmt.Fprintf(&sb, "|%v|", s.A)
	for _, r := range s.RV {
		if r != nil {
			fmt.Fprintf(&sb, "%d,", r.id)
		} else {
			sb.WriteString("_,")
		}
	}
	if s.panicV != nil {
		fmt.Fprintf(&sb, "|p%d", s.panicV.id)
	}
	return sb.String()
}

// ---------------------------------------------------------------------------
// Facts

// Ask evaluates a condition: (value, known).
func (x *Exec) Ask(s *State, c *Val) (bool, bool) {
	if c.Op == "not" {
		v, ok := x.Ask(s, c.Args[0])
		return !v, ok
	}
	if b, ok := c.constBool(); ok {
		return b, true
	}
	if b, ok := s.facts[c]; ok {
		return b, true
	}
	if c.Op == "eq" {
		a, b := c.Args[0], c.Args[1]
		// same left side equal to a different constant
		if b.isConst() {
			for f, t := range s.facts {
				if f.Op == "eq" && f.Args[0] == a && t && f.Args[1].isConst() && f.Args[1] != b {
					r := x.T.eq(f.Args[1], b)
					if v, ok := r.constBool(); ok && !v {
						return false, true
					}
				}
			}
		}
		if a.Op == "eqnn" {
			_ = b
		}
	}
	if c.Op == "lss" {
		// x<y known false if y<x ; known from eq constants
		if v, ok := s.facts[x.T.lss(c.Args[1], c.Args[0], nil)]; ok && v {
			return false, true
		}
		if v, ok := s.facts[x.T.eq(c.Args[0], c.Args[1])]; ok && v {
			return false, true
		}
	}
	return false, false
}

// IsNil evaluates v == nil.
func (x *Exec) IsNil(s *State, v *Val) (bool, bool) { return x.Ask(s, x.T.eq(v, x.T.nilv())) }

// Assume adds a condition; false if contradictory.
func (x *Exec) Assume(s *State, c *Val, t bool) bool {
	if c.Op == "not" {
		return x.Assume(s, c.Args[0], !t)
	}
	if v, ok := x.Ask(s, c); ok {
		return v == t
	}
	s.facts[c] = t
	if c.Op == "eq" && !t && c.Args[1].isNil() {
		if ctx := x.ctxOf[c.Args[0]]; ctx != nil {
			s.facts[x.ctxDone(ctx)] = true
		}
	}
	if c.Op == "eq" && c.Args[1].isNil() {
		// (value, error) results: exactly one is nil
		if o := x.pair[c.Args[0]]; o != nil {
			oc := x.T.eq(o, x.T.nilv())
			if v, ok := x.Ask(s, oc); ok {
				return v == !t
			}
			s.facts[oc] = !t
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// Memory

func rootOf(a *Val) *Val {
	for a.Op == "field" || a.Op == "elem" {
		a = a.Args[0]
	}
	return a
}

func under(a, base *Val) bool {
	for {
		if a == base {
			return true
		}
		if a.Op != "field" && a.Op != "elem" {
			return false
		}
		a = a.Args[0]
	}
}

func (x *Exec) Load(s *State, a *Val, ty types.Type) *Val {
	// overrides below a
	var over []*Val
	for k := range s.mem {
		if k != a && under(k, a) {
			over = append(over, k)
		}
	}
	base := x.loadBase(s, a, ty)
	if len(over) == 0 {
		return base
	}
	sort.Slice(over, func(i, j int) bool { return over[i].id < over[j].id })
	// only direct children are represented; deeper ones fold into the child
	done := map[*Val]bool{}
	for _, o := range over {
		c := o
		for c.Args[0] != a {
			c = c.Args[0]
		}
		if done[c] {
			continue
		}
		done[c] = true
		var cv *Val
		if c.Op == "field" {
			cv = x.Load(s, c, c.Fld.Type())
			base = x.T.mk(Val{Op: "with", Fld: c.Fld, Args: []*Val{base, cv}, T: ty})
		} else {
			cv = x.Load(s, c, nil)
			base = x.T.mk(Val{Op: "withe", Args: []*Val{base, c.Args[1], cv}, T: ty})
		}
	}
	return base
}

func (x *Exec) loadBase(s *State, a *Val, ty types.Type) *Val {
	if x.Fixed != nil {
		if v := x.Fixed(a); v != nil {
			return v
		}
	}
	if v, ok := s.mem[a]; ok {
		return v
	}
	switch a.Op {
	case "field":
		// enclosing struct stored as a whole?
		if x.hasAncestor(s, a) {
			b := x.loadBase(s, a.Args[0], nil)
			return x.T.vfield(b, a.Fld)
		}
	case "elem":
		if x.hasAncestor(s, a) {
			b := x.loadBase(s, a.Args[0], nil)
			if b.Op == "zero" && ty != nil {
				return x.T.zero(ty)
			}
			return x.T.app("velem", b, a.Args[1])
		}
	}
	return x.T.mk(Val{Op: "load", Args: []*Val{a}, T: ty})
}

func (x *Exec) hasAncestor(s *State, a *Val) bool {
	for a.Op == "field" || a.Op == "elem" {
		a = a.Args[0]
		if _, ok := s.mem[a]; ok {
			return true
		}
	}
	return false
}

// killLoads ages every term that reads an address satisfying may.
func (x *Exec) killLoads(s *State, may func(addr *Val) bool) { x.kills(s, "load", may) }

// killLookups ages every term that looks up a map satisfying may.
func (x *Exec) killLookups(s *State, may func(m *Val) bool) { x.kills(s, "lookup", may) }

func (x *Exec) kills(s *State, op string, may func(addr *Val) bool) {
	seen := map[*Val]bool{}
	var terms []*Val
	var visit func(v *Val)
	visit = func(v *Val) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if (v.Op == op || op == "lookup" && v.Op == "lookupok") && may(v.Args[0]) {
			terms = append(terms, v)
		}
		for _, a := range v.Args {
			visit(a)
		}
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			visit(v)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				visit(a)
			}
		}
	}
	for k, v := range s.mem {
		visit(k)
		visit(v)
	}
	for _, v := range s.RV {
		visit(v)
	}
	for f := range s.facts {
		visit(f)
	}
	sort.Slice(terms, func(i, j int) bool {
		return terms[i].size > terms[j].size || terms[i].size == terms[j].size && terms[i].id < terms[j].id
	})
	for _, t := range terms {
		x.age(s, t)
	}
}

func distinctAllocs(a, b *Val) bool {
	ra, rb := rootOf(a), rootOf(b)
	if ra == rb {
		return false
	}
	return ra.Op == "alloc" || rb.Op == "alloc" || (ra.Op == "global" && rb.Op == "global")
}

func (x *Exec) mayAlias(a, b *Val) bool {
	if a == b {
		return true
	}
	if distinctAllocs(a, b) {
		return false
	}
	switch {
	case a.Op == "field" && b.Op == "field":
		if a.Fld != b.Fld {
			return false
		}
		if a.Args[0] == b.Args[0] {
			return true
		}
		return x.mayAlias(a.Args[0], b.Args[0]) || a.Args[0].Op != "field" || b.Args[0].Op != "field"
	case a.Op == "elem" && b.Op == "elem":
		ia, ib := a.Args[1], b.Args[1]
		if a.Args[0] == b.Args[0] && ia.isConst() && ib.isConst() && ia != ib {
			return false
		}
		if a.Args[0] != b.Args[0] && sliceElem(a.Args[0]) != "" && sliceElem(b.Args[0]) != "" && sliceElem(a.Args[0]) != sliceElem(b.Args[0]) {
			return false
		}
		return true
	case (a.Op == "field" || a.Op == "elem") != (b.Op == "field" || b.Op == "elem"):
		return under(a, b) || under(b, a)
	case a.Op != b.Op && (a.Op == "field" || a.Op == "elem"):
		return under(a, b) || under(b, a)
	}
	// sym pointers: same type only
	if a.T != nil && b.T != nil {
		return types.Identical(a.T, b.T)
	}
	return false
}

func sliceElem(v *Val) string {
	t := v.T
	if t == nil {
		if f, _ := v.loadedField(); f != nil {
			t = f.Type()
		}
	}
	if t == nil {
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem().String()
	case *types.Array:
		return u.Elem().String()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem().String()
		}
	}
	return ""
}

func (x *Exec) Store(s *State, a, v *Val, fr *Frame, in ssa.Instruction) {
	for k := range s.mem {
		if k != a && under(k, a) {
			delete(s.mem, k)
		}
	}
	// memory cells that may alias become unknown
	for k := range s.mem {
		if k == a || under(a, k) {
			continue
		}
		if x.mayAlias(a, k) {
			s.mem[k] = x.T.sym(fmt.Sprintf("alias%s#%d:%d", fr.ctx, x.id(in), k.id), s.mem[k].T)
		}
	}
	if rootOf(a).Op != "alloc" {
		x.killLoads(s, func(addr *Val) bool { return addr == a || under(addr, a) || x.mayAlias(a, addr) })
	}
	// v itself may have been aged: recompute is not possible, so evaluate before kill
	s.mem[a] = v
}

// havocRoot makes memory under base unknown (its address was passed to unknown code).
func (x *Exec) havocRoot(s *State, base *Val, fr *Frame, in ssa.Instruction) {
	hit := false
	for k := range s.mem {
		if under(k, base) {
			hit = true
			delete(s.mem, k)
		}
	}
	if hit || base.Op == "alloc" {
		sy := x.T.sym(fmt.Sprintf("havoc%s#%d:%d", fr.ctx, x.id(in), base.id), nil)
		x.age(s, sy)
		s.mem[base] = sy
	} else {
		x.killLoads(s, func(addr *Val) bool { return under(addr, base) })
	}
}

// ---------------------------------------------------------------------------
// Values

func (x *Exec) val(s *State, fr *Frame, v ssa.Value) *Val {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			if _, ok := c.Type().Underlying().(*types.Basic); ok {
				return x.T.nilv()
			}
			return x.T.zero(c.Type())
		}
		cv := c.Value
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			cv = constant.ToInt(cv)
		}
		return x.T.konst(cv, c.Type())
	case *ssa.Function:
		return x.T.mk(Val{Op: "func", Fn: c, Name: c.String()})
	case *ssa.Global:
		return x.T.mk(Val{Op: "global", Name: c.String(), T: c.Type()})
	case *ssa.Builtin:
		return x.T.mk(Val{Op: "sym", Name: "builtin:" + c.Name()})
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	// not computed (should not happen): opaque but stable
	return x.T.sym(fmt.Sprintf("undef%s:%s", fr.ctx, v.Name()), v.Type())
}

func (x *Exec) set(fr *Frame, v ssa.Value, r *Val) { fr.env[v] = r }

func (x *Exec) fire(s *State, e *Event) bool {
	if x.Hook == nil {
		return true
	}
	x.kill = false
	e.In = len(s.frames) == 1
	x.Hook(x, s, e)
	k := x.kill
	x.kill = false
	return !k
}
