package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C11"] = ruleC11
	rules["C12"] = ruleC12
	rules["C13"] = ruleC13
}

const clientRun = "(*" + modPath + "/client.Client).Run"

// ctxBase follows derived contexts to the outermost one.
func ctxBase(v *Val) *Val {
	for v != nil && v.Op == "ctxwith" {
		v = v.Args[1]
	}
	return v
}

// ctxHas: v is c or derived from it.
func ctxHas(v, c *Val) bool {
	for v != nil {
		if v == c {
			return true
		}
		if v.Op != "ctxwith" {
			return false
		}
		v = v.Args[1]
	}
	return false
}

// fieldsOf: the last field named by a type in package rel.
func (p *Prog) fieldIn(rel, typ, f string) *types.Var { return p.Field(rel, typ, f) }

func ruleC11(c *Ctx) {
	const R = "groups-in-sequence"
	c.Rule(R, "On every path of Stage.Run: every client of every client group of an execution group is started exactly once (loops visit every element, one start per round), the waiting counter grows by exactly the clients started and shrinks by one per completion report, no client is started after waiting began, and the next execution group is reached only when the counter is not above zero or the run's context has ended.")
	const W = "wait-ends"
	c.Rule(W, "Every blocking wait for completion reports also waits for the end of the run's context; once that has ended nothing blocks on the reports and every further loop round counts down towards its exit.")
	run := c.P.Func("stage", "Stage", "Run")
	clientsF := c.P.Field("workload", "ClientGroup", "Clients")
	if run == nil || clientsF == nil {
		c.Missing(R, "stage.Stage.Run / workload.ClientGroup.Clients")
		return
	}
	isStart := func(n string, cc *ssa.CallCommon) bool { return n == clientRun }
	isClientChan := func(t types.Type) bool {
		ch, ok := t.Underlying().(*types.Chan)
		return ok && isNamed(deref(ch.Elem()), modPath+"/client", "Client")
	}
	reach := map[*ssa.Function]bool{}
	for f := range c.P.Reach(run) {
		if fnPkgPath(f) == modPath+"/stage" {
			reach[f] = true
		}
	}
	// loops: G starts clients, M goes over client groups, H over execution groups
	type role int
	const (
		G role = iota + 1
		M
		H
	)
	roles := map[*ssa.BasicBlock]role{}
	var startSites []*ssa.Go
	var recvs int
	for f := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok && calleeName(g.Common()) == clientRun {
					startSites = append(startSites, g)
				}
			}
		}
	}
	recvIn := func(in ssa.Instruction) bool {
		switch i := in.(type) {
		case *ssa.Select:
			for _, st := range i.States {
				if st.Dir == types.RecvOnly && isClientChan(st.Chan.Type()) {
					return true
				}
			}
		case *ssa.UnOp:
			return i.Op == token.ARROW && isClientChan(i.X.Type())
		}
		return false
	}
	recvFn := map[*ssa.Function]bool{}
	for f := range reach {
		for g := range c.P.Reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if recvIn(in) {
						recvFn[f] = true
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if recvIn(in) {
					recvs++
				}
			}
		}
	}
	c.Require(R, len(startSites), 1, "sites starting clients")
	c.Require(R, recvs, 1, "sites receiving completion reports")
	// classify loops by what they contain
	for f := range reach {
		for _, h := range f.Blocks {
			body := loopBody(h)
			if body == nil {
				continue
			}
			st, rc := false, false
			for b := range body {
				for _, in := range b.Instrs {
					if c.P.instrReaches(in, isStart) {
						st = true
					}
					if recvIn(in) {
						rc = true
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						if t := ci.Common().StaticCallee(); t != nil && recvFn[t] {
							rc = true
						}
					}
				}
			}
			switch {
			case st && rc:
				roles[h] = H
			case st:
				roles[h] = M
			}
		}
	}
	for _, g := range startSites {
		ls := c.P.loopsOf(g.Block())
		if len(ls) > 0 && roles[ls[len(ls)-1]] == M {
			roles[ls[len(ls)-1]] = G
		}
	}
	nG, nH := 0, 0
	for h, r := range roles {
		if r == G {
			nG++
		}
		if r == H {
			nH++
		}
		c.Fn(h.Parent())
		if r != H {
			sl, why := fullRange(h)
			c.Obl(R, "every element visited: "+c.P.Pos(blockPos(h)))
			if sl == nil {
				c.Fail(R, shortFn(h.Parent())+":loop over clients", blockPos(h), "the loop that starts clients does not visit every element: "+why)
			} else if r == G {
				for _, g := range startSites {
					if loopBody(h)[g.Block()] {
						recv := g.Call.Args[0]
						u, ok := recv.(*ssa.UnOp)
						var ia *ssa.IndexAddr
						if ok {
							ia, ok = u.X.(*ssa.IndexAddr)
						}
						if !ok || !samePath(ia.X, sl) {
							c.Fail(R, shortFn(g.Parent())+":client started", g.Pos(), "the started client is not the element of the slice the loop ranges over")
						}
					}
				}
			}
		} else if sl, why := rangeFromFirst(h); sl == nil {
			c.Fail(R, shortFn(h.Parent())+":loop over execution groups", blockPos(h), "the loop over execution groups does not go through every group in order: "+why)
		}
	}
	c.Require(R, nG, 1, "loops starting clients")
	c.Require(R, nH, 1, "loops over execution groups")

	// the waiting counter
	w := c.P.intWeb(reach)
	incs, decs := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	isClients := func(v ssa.Value) bool {
		return v != nil && v.Type().String() == clientsF.Type().String()
	}
	for f := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || !isIntVal(bo) {
					continue
				}
				if bo.Op == token.ADD && (isClients(isLen(bo.Y)) || isClients(isLen(bo.X))) {
					incs[w.find(bo)] = true
				}
				if bo.Op == token.SUB && isConstInt(bo.Y, 1) {
					decs[w.find(bo)] = true
				}
				if bo.Op == token.ADD && isConstInt(bo.Y, 1) {
					for h, r := range roles {
						if r == G && loopBody(h)[b] && !isIdx(bo) {
							incs[w.find(bo)] = true
						}
					}
				}
			}
		}
	}
	counter := func(v ssa.Value) bool { r := w.find(v); return incs[r] && decs[r] }

	x := NewExec(c.P, run)
	x.BlockEvents, x.ArithEvents, x.CtxTerms = true, true, true
	x.Inline = func(fn *ssa.Function) bool { return reach[fn] }
	x.Forget = func(v *Val) bool { return v.Op != "ctxwith" && !isCtxVal(v) }
	rt := c.P.Field("config", "Stage", "Runtime")
	x.Keep = func(f *Val) bool {
		return f.find(func(t *Val) bool { return t.Fld == rt }) != nil
	}
	r, rw := c.pathRule(R, x), c.pathRule(W, x)
	// A: 0 phase (1 starting, 2 waiting), 1 starts this round, 2 reports not yet counted, 3 all reported,
	//    4 clients counted one by one this round, 5 some client of the group started, 6 start loop entered
	// RV: 0 slice counted, 1 slice started
	const phase, starts, recv, complete, ones, some, entered = 0, 1, 2, 3, 4, 5, 6
	groupEnd := func(s *State, e *Event) {
		if s.A[starts] > 0 || s.A[some] == 2 {
		}
		if s.RV[1] != nil && s.RV[0] == nil && s.A[ones] == 0 {
			r.fail(s, e, "not counted", "clients are started but not added to the number waited for")
		}
		if s.RV[0] != nil && s.RV[1] == nil && s.A[entered] == 0 {
			r.fail(s, e, "not started", "clients are waited for but not started")
		}
		if s.RV[0] != nil && s.RV[1] != nil && s.RV[0] != s.RV[1] {
			r.fail(s, e, "other counted", "the clients counted are not the clients started")
		}
		if s.RV[0] != nil && s.A[ones] == 1 {
			r.fail(s, e, "counted twice", "clients are counted twice")
		}
		s.RV[0], s.RV[1], s.A[entered], s.A[ones] = nil, nil, 0, 0
	}
	base := func(v *Val) *Val { // slice of a loaded element
		if v != nil && v.Op == "load" && v.Args[0].Op == "elem" {
			return v.Args[0].Args[0]
		}
		return nil
	}
	ended := func(x *Exec, s *State) bool {
		for f, v := range s.facts {
			if f.Op == "ctxdone" && v && ctxBase(f.Args[0]) == x.ArgVal(1) {
				return true
			}
		}
		return false
	}
	nGo, nRecv := 0, 0
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvBlock:
			ev := &Event{Fn: e.Fn, Instr: blockInstr(e.Block)}
			if s.A[recv] > 0 && e.Back && roles[e.Block] == 0 {
				r.fail(s, ev, "report not counted", "a completion report is received but the number waited for is not reduced")
			}
			switch roles[e.Block] {
			case G:
				if !e.Back {
					s.A[starts], s.A[entered] = 0, 1
				} else {
					if s.A[starts] != 1 {
						r.fail(s, ev, "client not started", "a client of the group is not started")
					}
					s.A[starts] = 0
				}
			case M:
				if e.Back {
					groupEnd(s, ev)
				}
			case H:
				if e.Back {
					groupEnd(s, ev)
					if s.A[some] == 1 && s.A[complete] == 0 && !ended(x, s) {
						r.fail(s, ev, "next group early", "the next execution group is reached although not all clients of this one reported completion and the run has not ended")
					}
					r.obl(ev, "next group only after all reported or run ended")
					s.A[phase], s.A[complete], s.A[some], s.A[recv] = 0, 0, 0, 0
				}
			}
			if e.From != nil {
				for h, ro := range roles {
					if ro == H && h != e.From && loopBody(h)[e.From] && !loopBody(h)[e.Block] && h.Parent() == e.Fn && !ended(x, s) {
						r.fail(s, ev, "groups skipped", "the remaining execution groups are skipped although the run has not ended")
					}
				}
			}
			// waiting after the end of the run must count down
			if e.Back && roles[e.Block] == 0 && ended(x, s) && s.A[phase] == 2 && !isFullRange(e.Block) {
				rw.obl(ev, "round after the end of the run counts down")
				if !countsDown(x, s, e) {
					rw.fail(s, ev, "unbounded wait", "after the run has ended a waiting round does not count down towards leaving the loop")
				}
			}
		case EvGo:
			if e.Callee != clientRun {
				return
			}
			nGo++
			if s.A[phase] == 2 {
				r.fail(s, e, "start while waiting", "a client of the execution group is started after waiting for the group began")
			}
			s.A[phase], s.A[some], s.A[complete] = 1, 1, 0
			s.A[starts]++
			if s.A[starts] > 1 {
				r.fail(s, e, "started twice", "a client is started twice")
			}
			if b := base(e.Args[0]); b != nil {
				s.RV[1] = b
			} else {
				s.RV[1] = e.Args[0]
			}
			r.obl(e, "client started")
		case EvArith:
			bo := e.Instr.(*ssa.BinOp)
			if !counter(bo) {
				return
			}
			switch {
			case bo.Op == token.ADD && isLen(bo.Y) != nil, bo.Op == token.ADD && isLen(bo.X) != nil:
				sl := isLen(bo.Y)
				if sl == nil {
					sl = isLen(bo.X)
				}
				v := stripSlice(x.val(s, s.top(), sl))
				if s.RV[0] != nil {
					r.fail(s, e, "counted twice", "clients are counted twice")
				}
				s.RV[0] = v
				r.obl(e, "clients counted")
			case bo.Op == token.ADD && isConstInt(bo.Y, 1):
				s.A[ones] = 1
			case bo.Op == token.SUB && isConstInt(bo.Y, 1):
				if s.A[recv] != 1 {
					r.fail(s, e, "counted without report", "the number waited for is reduced without a completion report")
				}
				s.A[recv] = 0
				r.obl(e, "report counted")
			default:
				r.fail(s, e, "counter", "the number of clients waited for is changed by an unknown amount")
			}
		case EvRecv, EvSelect:
			rel := e.Kind == EvRecv && isClientChan(e.Instr.(*ssa.UnOp).X.Type())
			if e.Kind == EvSelect {
				for _, st := range e.Sel.States {
					if st.Dir == types.RecvOnly && isClientChan(st.Chan.Type()) {
						rel = true
					}
				}
			}
			if !rel {
				return
			}
			nRecv++
			if s.A[phase] != 2 {
				groupEnd(s, e)
			}
			s.A[phase] = 2
			if s.A[recv] > 0 {
				r.fail(s, e, "report not counted", "a completion report is received but the number waited for is not reduced")
			}
			got := e.Kind == EvRecv || e.Case >= 0 && isClientChan(e.Sel.States[e.Case].Chan.Type())
			if got {
				s.A[recv] = 1
			}
			// may block: must notice the end of the run
			if e.Kind == EvRecv || e.Blocking {
				timer, sees, strong := false, false, false
				if e.Kind == EvSelect {
					for _, ch := range e.Args {
						if ch.Op == "pure" && strings.HasSuffix(ch.Name, "Context.Done") && ctxBase(ch.Args[0]) == x.ArgVal(1) {
							sees = true
							if stageLevel(x, s, ch.Args[0], rt) {
								strong = true
							}
						}
						if ch.T != nil && strings.HasSuffix(ch.T.String(), "chan time.Time") {
							timer = true
						}
					}
				}
				selfEnd := e.Case >= 0 && e.Kind == EvSelect && e.Chan != nil && e.Chan.Op == "pure"
				switch {
				case !sees && !timer:
					rw.fail(s, e, "blind wait", "this wait for completion reports does not notice the end of the run")
				case sees && !strong && !timer:
					rw.fail(s, e, "stage end unseen", "this wait for completion reports does not notice the end of the stage's run time")
				case ended(x, s) && !timer && !selfEnd && got && s.A[7] == 1:
				}
				rw.obl(e, "wait notices the end of the run")
			}
		case EvBranch:
			f, tk := e.Cond, e.Taken
			_ = f
			iff, ok := e.Instr.(*ssa.If)
			if !ok {
				return
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				return
			}
			for _, sw := range []bool{false, true} {
				v, k, op := bo.X, bo.Y, bo.Op
				if sw {
					v, k = k, v
					op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
				}
				if _, isC := v.(*ssa.Const); isC || !counter(v) {
					continue
				}
				zero := op == token.GTR && isConstInt(k, 0) && !tk || op == token.NEQ && isConstInt(k, 0) && !tk || op == token.EQL && isConstInt(k, 0) && tk ||
					op == token.GEQ && isConstInt(k, 1) && !tk || op == token.LSS && isConstInt(k, 1) && tk || op == token.LEQ && isConstInt(k, 0) && tk
				if zero {
					s.A[complete] = 1
					groupEnd(s, e)
				}
			}
			if s.A[recv] > 0 && counter(bo.X) {
				r.fail(s, e, "report not counted", "a completion report is received but the number waited for is not reduced")
			}
		case EvReturn:
			if s.A[some] == 1 && s.A[complete] == 0 && !ended(x, s) {
				r.fail(s, e, "return early", "the run returns although not all clients reported completion and the run has not ended")
			}
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	c.Require(R, nGo, 1, "starts on paths")
	c.Require(W, nRecv, 1, "waits on paths")
}

// isIdx: the increment of a loop induction variable.
func isIdx(bo *ssa.BinOp) bool {
	ph, ok := bo.X.(*ssa.Phi)
	if !ok || !isRangeIndex(ph) {
		return false
	}
	// used as a slice index?
	for _, v := range []ssa.Value{ph, bo} {
		for _, r := range *v.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok && ia.Index == v {
				return true
			}
		}
	}
	return false
}

func isCtxVal(v *Val) bool {
	return v.T != nil && isNamed(v.T, "context", "Context")
}

// stageLevel: ctx ends with the stage's run time (or no run time is configured).
func stageLevel(x *Exec, s *State, ctx *Val, rt *types.Var) bool {
	for v := ctx; v != nil && v.Op == "ctxwith"; v = v.Args[1] {
		if v.Name == "context.WithDeadline" || v.Name == "context.WithTimeout" {
			return true
		}
	}
	for f, v := range s.facts {
		if f.Op == "eq" && v && f.find(func(t *Val) bool { return t.Fld == rt }) != nil {
			return true
		}
	}
	return false
}

// countsDown: on this back edge a loop variable tested by the loop's exit was reduced.
func countsDown(x *Exec, s *State, e *Event) bool {
	h, fr := e.Block, s.top()
	body := loopBody(h)
	pi := -1
	for i, p := range h.Preds {
		if p == e.From {
			pi = i
		}
	}
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isIntVal(ph) {
			continue
		}
		// tested by an exit of the loop
		tested := false
		for b := range body {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			exits := false
			for _, sc := range b.Succs {
				if !body[sc] {
					exits = true
				}
			}
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && exits && (bo.X == ssa.Value(ph) || bo.Y == ssa.Value(ph)) {
				tested = true
			}
		}
		if !tested {
			continue
		}
		cur, ok := fr.env[ph]
		v := x.val(s, fr, ph.Edges[pi])
		if ok && v != cur && (v.Op == "bin-" && v.Args[0] == cur && v.Args[1].isConst()) {
			if n, ok := v.Args[1].constInt(); ok && n > 0 {
				return true
			}
		}
		if ok && cur.isConst() && v.isConst() {
			a, ok1 := cur.constInt()
			b, ok2 := v.constInt()
			if ok1 && ok2 && b < a {
				return true
			}
		}
	}
	return false
}

// rangeFromFirst is fullRange for a loop that may be left early.
func rangeFromFirst(h *ssa.BasicBlock) (ssa.Value, string) {
	sl, why := fullRange(h)
	if sl == nil && why == "left early" {
		if iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok {
				for _, in := range h.Instrs {
					if ph, ok := in.(*ssa.Phi); ok && isRangeIndex(ph) {
						if l := isLen(bo.Y); l != nil {
							return l, ""
						}
					}
				}
			}
		}
	}
	return sl, why
}

func blockInstr(b *ssa.BasicBlock) ssa.Instruction {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in
		}
	}
	return b.Instrs[len(b.Instrs)-1]
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	i := blockInstr(b)
	if i.Pos().IsValid() {
		return i.Pos()
	}
	for _, s := range b.Succs {
		if p := blockInstr(s).Pos(); p.IsValid() {
			return p
		}
	}
	return b.Parent().Pos()
}

// ---------------------------------------------------------------------------
// C12

func ruleC12(c *Ctx) {
	const R = "context-nesting"
	c.Rule(R, "At every start of a client in Stage.Run the context passed derives from the context given to the run; it carries a deadline of the stage's configured run time unless that is known to be unset, and a deadline of the client group's run time, inside the former, unless that is known to be zero. No other deadline is added.")
	const T = "timer-release"
	c.Rule(T, "In every function of the repository, the cancel function of each derived context is called or deferred on every path to the function's end, or handed to another owner.")
	const G = "group-run-time"
	c.Rule(G, "The run time that the allocation of clients gives to each client group is the one configured for that same client group.")
	c.Borrow(G, "C15", func(f Finding) bool { return strings.HasSuffix(f.Construct, ":run time") })
	const S = "run-context"
	c.Rule(S, "Every call of Stage.Run passes a context derived from the caller's own context parameter or field, and no client is started by anything but Stage.Run.")
	run := c.P.Func("stage", "Stage", "Run")
	srt := c.P.Field("config", "Stage", "Runtime")
	grt := c.P.Field("workload", "ClientGroup", "Runtime")
	if run == nil || srt == nil || grt == nil {
		c.Missing(R, "stage.Stage.Run / Runtime fields")
		return
	}
	x := NewExec(c.P, run)
	x.CtxTerms = true
	x.Inline = c.P.inlineInstr(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && (calleeName(ci.Common()) == clientRun || strings.HasPrefix(calleeName(ci.Common()), "context.With"))
	})
	x.Forget = func(v *Val) bool { return !isCtxVal(v) }
	rts := map[*types.Var]bool{srt: true, grt: true}
	x.Keep = func(f *Val) bool { return mentions(f, rts) }
	r := c.pathRule(R, x)
	n := 0
	gcl := c.P.Field("workload", "ClientGroup", "Clients")
	// groupOf is the client group whose field v mentions
	groupOf := func(v *Val, f *types.Var) *Val {
		t := v.find(func(t *Val) bool { return t.Fld == f })
		if t == nil || len(t.Args) == 0 {
			return nil
		}
		g := t.Args[0]
		for g.Op == "load" {
			g = g.Args[0]
		}
		return g
	}
	var own *Val // client group of the client being started
	kind := func(s *State, w *Val) string {
		// what limits this deadline
		l := w.Args[2]
		if l.find(func(t *Val) bool { return t.Fld == grt }) != nil {
			if own != nil && groupOf(l, grt) != own {
				return "other group"
			}
			return "group"
		}
		if l.find(func(t *Val) bool { return t.Fld == srt }) != nil {
			return "stage"
		}
		return "?"
	}
	x.Model = func(x *Exec, s *State, e *Event) []*Val {
		switch e.Callee {
		case "time.ParseDuration":
			v := x.T.mk(Val{Op: "pure", Name: "time.ParseDuration/0", Args: []*Val{e.Args[0]}, T: types.Typ[types.Int64]})
			return []*Val{v, x.T.mk(Val{Op: "pure", Name: "time.ParseDuration/1", Args: []*Val{e.Args[0]}, T: types.Universe.Lookup("error").Type()})}
		}
		return nil
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		if e.Kind != EvGo || e.Callee != clientRun {
			return
		}
		n++
		r.obl(e, "client context")
		own = nil
		if gcl != nil {
			own = groupOf(e.Args[0], gcl)
		}
		if own == nil {
			r.fail(s, e, "whose client", "cannot tell which client group the started client belongs to")
			return
		}
		ctx := e.Args[1]
		if ctxBase(ctx) != x.ArgVal(1) {
			r.fail(s, e, "not derived", "the client's context does not derive from the context of the run")
			return
		}
		var ks []string
		for v := ctx; v.Op == "ctxwith"; v = v.Args[1] {
			if v.Name == "context.WithDeadline" || v.Name == "context.WithTimeout" {
				ks = append(ks, kind(s, v))
			}
		}
		hasG, hasS := false, false
		for i, k := range ks {
			switch k {
			case "group":
				if hasS || hasG {
					r.fail(s, e, "order", "the client group's deadline is not the innermost one")
				}
				hasG = true
			case "stage":
				hasS = true
			case "other group":
				r.fail(s, e, "other group", "the client's context carries the run time of another client group")
			default:
				r.fail(s, e, "other deadline", "the client's context carries a deadline that is not its group's or stage's run time")
			}
			_ = i
		}
		// base client group of the started client
		if !hasG {
			ok := false
			for f, v := range s.facts {
				if f.find(func(t *Val) bool { return t.Fld == grt }) == nil || groupOf(f, grt) != own {
					continue
				}
				// 0 < runtime is false, or runtime == 0
				if f.Op == "lss" && !v && f.Args[0].isConst() && isLoadOf(f.Args[1], grt) {
					if k, isI := f.Args[0].constInt(); isI && k <= 0 {
						ok = true
					}
				}
				if f.Op == "eq" && v && f.Args[1].isConst() {
					ok = true
				}
			}
			if !ok {
				r.fail(s, e, "group run time ignored", "a client is started without its client group's run time although that may be configured")
			}
		}
		if !hasS {
			ok := false
			for f, v := range s.facts {
				if f.Op == "eq" && v && isLoadOf(f.Args[0], srt) {
					if str, isS := f.Args[1].constStr(); isS && str == "" {
						ok = true
					}
				}
				if f.find(func(t *Val) bool { return t.Fld == srt }) != nil && f.find(func(t *Val) bool {
					return t.Op == "pure" && strings.HasPrefix(t.Name, "time.ParseDuration/0") || t.Op == "len"
				}) != nil {
					if f.Op == "eq" && v || f.Op == "lss" && !v {
						ok = true
					}
				}
			}
			if !ok {
				r.fail(s, e, "stage run time ignored", "a client is started without the stage's run time although that may be configured")
			}
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	c.Require(R, n, 1, "client starts")

	// run-context
	ns := 0
	for _, fn := range c.P.Funcs {
		for _, ci := range callsOf(fn) {
			nm := calleeName(ci.Common())
			if nm == "(*"+modPath+"/stage.Stage).Run" {
				ns++
				c.Obl(S, c.P.Pos(ci.Pos()))
				if !ctxFromCaller(c.P, ci.Common().Args[1], map[ssa.Value]bool{}) {
					c.Fail(S, shortFn(fn)+":Stage.Run", ci.Pos(), "the stage is run under a context that does not derive from the caller's context")
				}
			}
			if nm == clientRun {
				root := fn
				for root.Parent() != nil {
					root = root.Parent()
				}
				c.Obl(S, c.P.Pos(ci.Pos()))
				if fnPkgPath(root) != modPath+"/stage" {
					c.Fail(S, shortFn(fn)+":Client.Run", ci.Pos(), "a client is started outside Stage.Run")
				}
			}
		}
	}
	c.Require(S, ns, 2, "calls of Stage.Run")

	// timer-release
	nt := 0
	for _, fn := range c.P.Funcs {
		for _, ci := range callsOf(fn) {
			switch calleeName(ci.Common()) {
			case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause":
				nt++
				c.Fn(fn)
				c.Obl(T, c.P.Pos(ci.Pos()))
				if bad := cancelLost(ci); bad.IsValid() {
					c.Fail(T, shortFn(fn)+":"+calleeName(ci.Common()), ci.Pos(), fmt.Sprintf("the cancel function of this context is not called on the path to %s", c.P.Pos(bad)))
				}
			}
		}
	}
	c.Require(T, nt, 6, "derived contexts")
}

// ctxFromCaller: the context value comes from a parameter, free variable or field, possibly
// through context.With*; never from Background/TODO.
func ctxFromCaller(p *Prog, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.UnOp:
		if i.Op == token.MUL {
			if a, ok := i.X.(*ssa.Alloc); ok {
				ok := false
				for _, r := range *a.Referrers() {
					if st, isS := r.(*ssa.Store); isS && st.Addr == ssa.Value(a) {
						if !ctxFromCaller(p, st.Val, seen) {
							return false
						}
						ok = true
					}
				}
				return ok
			}
			if fv, ok := i.X.(*ssa.FreeVar); ok {
				_ = fv
				return true
			}
			_, ok := i.X.(*ssa.FieldAddr)
			return ok
		}
	case *ssa.Field:
		return true
	case *ssa.Phi:
		for _, e := range i.Edges {
			if !ctxFromCaller(p, e, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeInterface:
		return ctxFromCaller(p, i.X, seen)
	case *ssa.MakeInterface:
		return ctxFromCaller(p, i.X, seen)
	case *ssa.Extract:
		return ctxFromCaller(p, i.Tuple, seen)
	case *ssa.Call:
		n := calleeName(i.Common())
		if strings.HasPrefix(n, "context.With") && len(i.Call.Args) > 0 {
			return ctxFromCaller(p, i.Call.Args[0], seen)
		}
		if n == "(*net/http.Request).Context" {
			return true
		}
		if f := i.Call.StaticCallee(); f != nil && p.IsRepo(f) {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, res := range r.Results {
						if isNamed(res.Type(), "context", "Context") && !ctxFromCaller(p, res, seen) {
							return false
						}
					}
				}
			}
			return true
		}
	}
	return false
}

// cancelLost returns the position of an exit reached without calling the cancel function.
func cancelLost(ci ssa.CallInstruction) token.Pos {
	call, ok := ci.(*ssa.Call)
	if !ok {
		return token.NoPos
	}
	holders := map[ssa.Value]bool{}
	cells := map[ssa.Value]bool{}
	escaped := false
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if holders[v] {
			return
		}
		holders[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.Phi:
				add(i)
			case *ssa.ChangeType:
				add(i)
			case *ssa.Store:
				if i.Val == v {
					if a, ok := i.Addr.(*ssa.Alloc); ok {
						cells[a] = true
						for _, rr := range *a.Referrers() {
							if u, ok := rr.(*ssa.UnOp); ok {
								add(u)
							}
							if _, ok := rr.(*ssa.MakeClosure); ok {
								escaped = true
							}
						}
					} else {
						escaped = true
					}
				}
			case *ssa.Return, *ssa.MakeClosure, *ssa.MapUpdate, *ssa.MakeInterface, *ssa.Send:
				escaped = true
			case ssa.CallInstruction:
				for _, a := range i.Common().Args {
					if a == v {
						escaped = true
					}
				}
			}
		}
	}
	found := false
	for _, r := range *call.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == 1 {
			found = true
			add(ex)
		}
	}
	if !found {
		return call.Pos()
	}
	if escaped {
		return token.NoPos
	}
	uses := func(in ssa.Instruction) bool {
		if c, ok := in.(ssa.CallInstruction); ok {
			return holders[c.Common().Value]
		}
		return false
	}
	// depth-first search for an exit
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock, from int) token.Pos
	dfs = func(b *ssa.BasicBlock, from int) token.Pos {
		for k := from; k < len(b.Instrs); k++ {
			in := b.Instrs[k]
			if uses(in) {
				return token.NoPos
			}
			if in == ssa.Instruction(call) && from == 0 {
				return call.Pos() // created again without release
			}
			if r, ok := in.(*ssa.Return); ok {
				if r.Pos().IsValid() {
					return r.Pos()
				}
				return b.Parent().Pos()
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if p := dfs(s, 0); p.IsValid() {
				return p
			}
		}
		return token.NoPos
	}
	for k, in := range call.Block().Instrs {
		if in == ssa.Instruction(call) {
			return dfs(call.Block(), k+1)
		}
	}
	return token.NoPos
}

// ---------------------------------------------------------------------------
// C13

func ruleC13(c *Ctx) {
	const R = "stats-bracket"
	c.Rule(R, "On every path of Stage.Run with a statistics collector, Start is called exactly once before any client is started and Stop exactly once after the last start and before return; without a collector neither is called. CPU profiling, if a file is set, is started before and stopped after in the same way. The values are read from the stage's own configuration.")
	const P = "stats-registered"
	c.Rule(P, "On every path of Stage.Prepare that returns success with a collector, every client of every group is initialised and its statistics registered (loops visit every element, one registration per round); allocation is told whether statistics are enabled.")
	const D = "stats-disabled"
	c.Rule(D, "A collector is passed to a stage only when its configuration does not disable statistics.")
	run := c.P.Func("stage", "Stage", "Run")
	prep := c.P.Func("stage", "Stage", "Prepare")
	if run == nil || prep == nil {
		c.Missing(R, "stage.Stage.Run/Prepare")
		return
	}
	var statsF *types.Var
	if n := c.P.Type("stage", "Stage"); n != nil {
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if isNamed(deref(st.Field(i).Type()), modPath+"/stats", "Collector") {
				statsF = st.Field(i)
			}
		}
	}
	prof := c.P.Pkg("").Types.Scope().Lookup("CPUProfile")
	if statsF == nil || prof == nil {
		c.Missing(R, "stage field of type *stats.Collector / finch.CPUProfile")
		return
	}
	col := func(m string) string { return "(*" + modPath + "/stats.Collector)." + m }
	names := map[string]bool{col("Start"): true, col("Stop"): true, clientRun: true, "runtime/pprof.StartCPUProfile": true, "runtime/pprof.StopCPUProfile": true}
	x := NewExec(c.P, run)
	x.Inline = func(fn *ssa.Function) bool {
		return fnPkgPath(fn) == modPath+"/stage"
	}
	x.Forget = func(v *Val) bool { return true }
	isProf := func(t *Val) bool {
		return t.Op == "global" && t.String() == "finch.CPUProfile" || t.Op == "global" && strings.Contains(t.String(), "CPUProfile")
	}
	x.Keep = func(f *Val) bool {
		return f.find(func(t *Val) bool { return t.Fld == statsF || isProf(t) }) != nil
	}
	r := c.pathRule(R, x)
	stats := func() *Val {
		return x.T.mk(Val{Op: "load", Args: []*Val{x.T.fieldAddr(x.ArgVal(0), statsF)}, T: statsF.Type()})
	}
	profNil := func(s *State) (bool, bool) {
		for f, v := range s.facts {
			if f.Op == "eq" && f.Args[1].isNil() && f.Args[0].find(isProf) != nil {
				return v, true
			}
		}
		return false, false
	}
	n := 0
	const st, pf, ran = 0, 1, 2 // 0 none, 1 started, 2 stopped
	x.Hook = func(x *Exec, s *State, e *Event) {
		if e.Kind == EvReturn {
			nil_, known := x.IsNil(s, stats())
			if s.A[st] == 1 {
				r.fail(s, e, "not stopped", "the run ends without stopping the statistics collector")
			}
			if s.A[st] == 0 && !(known && nil_) {
				r.fail(s, e, "never started", "the run ends without having started and stopped statistics although a collector may be set")
			}
			if s.A[pf] == 1 {
				r.fail(s, e, "profile not stopped", "the run ends without stopping the CPU profile")
			}
			r.obl(e, "collector stopped at return")
			return
		}
		if e.Kind != EvCall && e.Kind != EvGo || !names[e.Callee] {
			return
		}
		switch e.Callee {
		case col("Start"):
			if s.A[st] != 0 || s.A[ran] != 0 {
				r.fail(s, e, "start late", "statistics are started twice or after clients were started")
			}
			s.A[st] = 1
			r.obl(e, "collector started")
		case col("Stop"):
			if s.A[st] != 1 {
				r.fail(s, e, "stop", "statistics are stopped although not running")
			}
			s.A[st] = 2
			r.obl(e, "collector stopped")
		case "runtime/pprof.StartCPUProfile":
			if s.A[pf] != 0 || s.A[ran] != 0 {
				r.fail(s, e, "profile late", "the CPU profile is started twice or after clients were started")
			}
			s.A[pf] = 1
			r.obl(e, "profile started")
		case "runtime/pprof.StopCPUProfile":
			if s.A[pf] != 1 {
				r.fail(s, e, "profile stop", "the CPU profile is stopped although not running")
			}
			s.A[pf] = 2
			r.obl(e, "profile stopped")
		case clientRun:
			n++
			s.A[ran] = 1
			nil_, known := x.IsNil(s, stats())
			if s.A[st] == 2 {
				r.fail(s, e, "client after stop", "a client is started after statistics were stopped")
			}
			if s.A[st] == 0 && !(known && nil_) {
				r.fail(s, e, "client before start", "a client is started before the statistics collector")
			}
			pn, pk := profNil(s)
			if s.A[pf] == 2 || s.A[pf] == 0 && !(pk && pn) {
				r.fail(s, e, "client outside profile", "a client is started outside the CPU profile")
			}
			r.obl(e, "client inside the bracket")
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	c.Require(R, n, 1, "client starts")

	// Prepare
	watch := map[*ssa.BasicBlock]bool{}
	all := map[*ssa.BasicBlock]bool{}
	preach := map[*ssa.Function]bool{}
	for f := range c.P.Reach(prep) {
		if fnPkgPath(f) == modPath+"/stage" {
			preach[f] = true
		}
	}
	isWatch := func(nm string, _ *ssa.CallCommon) bool { return nm == col("Watch") }
	isInit := func(nm string, _ *ssa.CallCommon) bool { return nm == "(*"+modPath+"/client.Client).Init" }
	nw := 0
	for f := range preach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c.P.instrReaches(in, isWatch) || c.P.instrReaches(in, isInit) {
					ls := c.P.loopsOf(b)
					for _, h := range ls {
						all[h] = true
					}
					if len(ls) > 0 {
						if ci, ok := in.(ssa.CallInstruction); ok && (isWatch(calleeName(ci.Common()), nil) || isInit(calleeName(ci.Common()), nil)) {
							watch[ls[len(ls)-1]] = true
							nw++
						}
					}
				}
			}
		}
	}
	for h := range all {
		c.Obl(P, "every element visited: "+c.P.Pos(blockPos(h)))
		if sl, why := fullRangeOrError(h); sl == nil {
			c.Fail(P, shortFn(h.Parent())+":loop", blockPos(h), "the loop that registers statistics does not visit every element: "+why)
		}
	}
	c.Require(P, nw, 2, "Init and Watch calls in loops")
	y := NewExec(c.P, prep)
	y.BlockEvents = true
	y.Inline = func(fn *ssa.Function) bool { return preach[fn] }
	y.Forget = func(v *Val) bool { return !isErrVal(v) }
	y.Keep = func(f *Val) bool {
		return f.find(func(t *Val) bool { return t.Fld == statsF }) != nil
	}
	rp := c.pathRule(P, y)
	told := 0
	y.Hook = func(x *Exec, s *State, e *Event) {
		stv := x.T.mk(Val{Op: "load", Args: []*Val{x.T.fieldAddr(x.ArgVal(0), statsF)}, T: statsF.Type()})
		switch e.Kind {
		case EvCall:
			switch e.Callee {
			case col("Watch"):
				s.A[0]++
				rp.obl(e, "statistics registered")
				ok := e.Args[1].find(func(t *Val) bool { return t.Fld == c.P.Field("client", "Client", "Stats") }) != nil
				if !ok {
					rp.fail(s, e, "other stats", "the statistics registered are not the client's")
				}
			case "(*" + modPath + "/client.Client).Init":
				s.A[1]++
			case "(*" + modPath + "/workload.Allocator).Clients":
				told++
				rp.obl(e, "allocation told whether statistics are enabled")
				w := e.Args[2]
				nl, known := x.IsNil(s, stv)
				ok := w == x.T.not(x.T.eq(stv, x.T.nilv()))
				if b, isC := w.constBool(); isC && known && b == !nl {
					ok = true
				}
				if !ok {
					rp.fail(s, e, "not told", "the allocator is not told whether a statistics collector is set")
				}
			}
		case EvBlock:
			if watch[e.Block] {
				if e.Back {
					nl, known := x.IsNil(s, stv)
					ev := &Event{Fn: e.Fn, Instr: blockInstr(e.Block)}
					if s.A[0] == 0 && !(known && nl) {
						rp.fail(s, ev, "not registered", "a client's statistics are not registered although a collector may be set")
					}
					if s.A[1] == 0 && !hasInitElsewhere(watch, e.Block, isInit) {
						rp.fail(s, ev, "not initialised", "a client is not initialised")
					}
				}
				s.A[0], s.A[1] = 0, 0
			}
		}
	}
	y.Run(nil, nil)
	c.finish(P, y)
	c.Require(P, told, 1, "calls of Allocator.Clients")

	// D: who passes a collector
	nd := 0
	dis := c.P.Field("config", "Stats", "Disable")
	if dis == nil {
		c.Missing(D, "config.Stats.Disable")
		return
	}
	for _, fn := range c.P.Funcs {
		for _, ci := range callsOf(fn) {
			if calleeName(ci.Common()) != modPath+"/stats.NewCollector" {
				continue
			}
			nd++
			c.Obl(D, c.P.Pos(ci.Pos()))
			root := fn
			z := NewExec(c.P, root)
			z.Inline = func(f *ssa.Function) bool { return fnPkgPath(f) == modPath+"/config" && smallFn(f) }
			z.Forget = func(v *Val) bool { return true }
			z.Keep = func(f *Val) bool { return f.find(func(t *Val) bool { return t.Fld == dis }) != nil }
			rd := c.pathRule(D, z)
			z.Hook = func(x *Exec, s *State, e *Event) {
				if e.Kind == EvCall && e.Callee == modPath+"/stats.NewCollector" {
					ok := false
					for f, v := range s.facts {
						if f.find(func(t *Val) bool { return t.Fld == dis }) == nil {
							continue
						}
						// Uint/Bool(disable) known false, or disable text not true
						if f.Op != "eq" && !v || f.Op == "eq" && v && f.Args[1].isNil() {
							ok = true
						}
					}
					if !ok {
						rd.fail(s, e, "collector", "a statistics collector is made although statistics may be disabled")
					}
				}
			}
			z.Run(nil, nil)
			c.finish(D, z)
		}
	}
	c.Require(D, nd, 1, "collectors made")
}

func hasInitElsewhere(watch map[*ssa.BasicBlock]bool, h *ssa.BasicBlock, isInit func(string, *ssa.CallCommon) bool) bool {
	for o := range watch {
		if o == h {
			continue
		}
		for b := range loopBody(o) {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isInit(calleeName(ci.Common()), nil) {
					return true
				}
			}
		}
	}
	return false
}

// fullRangeOrError is fullRange, also allowing exits that return an error known not to be nil.
func fullRangeOrError(h *ssa.BasicBlock) (ssa.Value, string) {
	sl, why := fullRange(h)
	if sl != nil || why != "left early" {
		return sl, why
	}
	body := loopBody(h)
	for b := range body {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if body[s] {
				continue
			}
			if !errorExit(s, map[*ssa.BasicBlock]bool{}) {
				return nil, "left early"
			}
		}
	}
	return rangeFromFirst(h)
}

// errorExit: everything from b returns a non-constant error as last result.
func errorExit(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		if len(r.Results) == 0 {
			return false
		}
		last := r.Results[len(r.Results)-1]
		if !isErrorType(last.Type()) {
			return false
		}
		if cst, ok := last.(*ssa.Const); ok && cst.IsNil() {
			return false
		}
		return true
	}
	if len(b.Succs) == 0 {
		return true
	}
	for _, s := range b.Succs {
		if !errorExit(s, seen) {
			return false
		}
	}
	return true
}

func isFullRange(h *ssa.BasicBlock) bool {
	sl, _ := fullRange(h)
	return sl != nil
}
