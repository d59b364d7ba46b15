package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C20"] = ruleC20
}

const stageRun = "(*" + modPath + "/stage.Stage).Run"
const stagePrepare = "(*" + modPath + "/stage.Stage).Prepare"

// recvField is the field whose channel an instruction receives from, if it does from one.
func recvFields(in ssa.Instruction) []*types.Var {
	var out []*types.Var
	add := func(v ssa.Value) {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if f := fieldOf(u.X); f != nil {
				out = append(out, f)
			}
		}
	}
	switch i := in.(type) {
	case *ssa.UnOp:
		if i.Op == token.ARROW {
			add(i.X)
		}
	case *ssa.Select:
		for _, st := range i.States {
			if st.Dir == types.RecvOnly {
				add(st.Chan)
			}
		}
	}
	return out
}

// ackLoops are the loops that receive from the channel of field f, with their functions.
func ackLoops(p *Prog, fns map[*ssa.Function]bool, f *types.Var) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, g := range recvFields(in) {
					if g != f {
						continue
					}
					if hs := p.loopsOf(b); len(hs) > 0 {
						// innermost
						best := hs[0]
						for _, h := range hs {
							if len(loopBody(h)) < len(loopBody(best)) {
								best = h
							}
						}
						out[best] = loopBody(best)
					}
				}
			}
		}
	}
	return out
}

func inBodies(m map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool, b *ssa.BasicBlock) bool {
	for _, body := range m {
		if body[b] {
			return true
		}
	}
	return false
}

func zeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == "0"
}

func ruleC20(c *Ctx) {
	const B, R, D, O = "booted-first", "run-once", "finished", "stage-order"
	c.Rule(B, "On every path of Server.Run, a stage is run (run signal closed, local instance started) only after a counter of successful boot acknowledgements (one increment per acknowledgement received whose error is known nil, nothing else) reached the configured number of instances, and Finch is not in test mode; the local instance is acknowledged only after its Prepare succeeded.")
	c.Rule(R, "The run signal of a stage is closed exactly once and the local instance started at most once.")
	c.Rule(D, "A stage that was started ends only when the counter of running instances (one decrement per completion received) reached zero, or Finch was interrupted, the remotes' stage was stopped and the local instance waited for; a stage that booted and is not a test is started. The goroutine of the local instance reports completion exactly once, after Stage.Run returned.")
	c.Rule(O, "The stages are run by a loop over all of them from the first, in order, left early only with an error or after an interrupt.")
	r := c.computeRoles(B)
	if r == nil {
		return
	}
	p := c.P
	fns := map[*ssa.Function]bool{}
	for fn := range p.Reach(r.serverRun) {
		if fnPkgPath(fn) == modPath+"/compute" {
			fns[fn] = true
		}
	}
	w := p.intWeb(fns)
	bootL, doneL := ackLoops(p, fns, r.boot), ackLoops(p, fns, r.doneCh)
	if len(bootL) == 0 || len(doneL) == 0 {
		c.Missing(B, "loops receiving acknowledgements")
		return
	}
	srv := namedOf(deref(r.serverRun.Params[0].Type()))
	c.Fn(r.serverRun)
	x := NewExec(p, r.serverRun)
	x.Inline = samePkg("compute")
	x.ArithEvents, x.AllocEvents = true, true
	pb, pr, pd, po := c.pathRule(B, x), c.pathRule(R, x), c.pathRule(D, x), c.pathRule(O, x)
	const (
		aPend   = iota // acknowledgement received and not counted: 1 boot, 2 done
		aBooted        // all booted
		aClosed        // run signals
		aDone          // all done
		aLocal         // local started
		aWaited        // local waited for
		aTest          // 1 not test, 2 test
		aStop          // API told to stop
		aOn            // a stage is in progress
		aSet           // stage given to the API
		aLoop          // inside the loop over stages
		aAck           // local acknowledgements
		aStages        // loop over stages seen
		aPrep          // Prepare called
		aCounted
		aCountedD
	)
	x.Model = func(x *Exec, s *State, e *Event) []*Val {
		if e.Callee == modPath+".Uint" {
			return []*Val{x.T.app("uint", e.Args[0])}
		}
		return nil
	}
	isN := func(v *Val) bool {
		v = stripConv(v)
		return v.Op == "uint" && v.find(func(t *Val) bool {
			f, _ := t.loadedField()
			return f != nil && f.Name() == "Instances" || t.Op == "vfield" && t.Fld != nil && t.Fld.Name() == "Instances" || t.Op == "field" && t.Fld != nil && t.Fld.Name() == "Instances"
		}) != nil
	}
	hasN := func(v *Val) bool { return v.find(func(t *Val) bool { return t != v && isN(t) || isN(v) }) != nil }
	// chanField is the stage's field that holds a channel
	chanField := func(s *State, ch *Val) *types.Var {
		if f, b := ch.loadedField(); f != nil {
			_ = b
			return f
		}
		if m := s.RV[3]; m != nil {
			for _, f := range []*types.Var{r.boot, r.doneCh, r.run} {
				if x.Load(s, x.T.fieldAddr(m, f), f.Type()) == ch {
					return f
				}
			}
		}
		return nil
	}
	nClose, nGo, nCnt := 0, 0, 0
	var localGo []*ssa.Function
	ended := func(s *State) bool {
		for f, t := range s.facts {
			if t && f.Op == "ctxdone" {
				return true
			}
		}
		return false
	}
	finish := func(s *State, e *Event) {
		if s.A[aOn] == 0 {
			return
		}
		pd.obl(e, "end of a stage")
		switch {
		case s.A[aClosed] == 0 && s.A[aBooted] == 1 && s.A[aTest] != 2:
			pd.fail(s, e, "not started", "a stage booted but is not started")
		case s.A[aClosed] == 0 && s.A[aBooted] == 0 && !ended(s):
			pd.fail(s, e, "not booted", "the server goes on although not all instances booted")
		case s.A[aClosed] > 0 && s.A[aDone] == 0:
			if !ended(s) {
				pd.fail(s, e, "not finished", "a stage counts as finished although instances may still be running")
			} else {
				if s.A[aSet] == 1 && s.A[aStop] == 0 {
					pd.fail(s, e, "not stopped", "the remotes are not told to stop although Finch was interrupted")
				}
				if s.A[aLocal] == 1 && s.A[aWaited] == 0 {
					pd.fail(s, e, "local", "the server ends without waiting for the local instance")
				}
			}
		}
	}
	start := func(s *State, e *Event, what string) {
		if s.A[aBooted] != 1 {
			pb.fail(s, e, "booted", what+" although fewer than the configured instances may have booted")
		}
		if s.A[aTest] != 1 {
			pb.fail(s, e, "test", what+" although this may be a boot test")
		}
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvAlloc:
			if ptrTo(e.Addr.T, r.meta) {
				t := s.A[aTest]
				lp := s.A[aLoop]
				s.A = RS{}
				s.A[aOn], s.A[aTest], s.A[aLoop] = 1, t, lp
				s.RV[0], s.RV[1], s.RV[2], s.RV[3] = nil, nil, nil, e.Addr
			}
		case EvRecv, EvSelect:
			ch := recvCase(e)
			if ch == nil {
				return
			}
			f := chanField(s, ch)
			switch {
			case f == r.boot || f == r.doneCh:
				s.A[aPend] = 1
				if f == r.doneCh {
					s.A[aPend] = 2
				}
				s.RV[0] = nil
				if len(e.Res) > 0 {
					s.RV[0] = x.T.vfield(e.Res[0], r.ackErr)
				}
			case f == nil && s.A[aLocal] == 1 && !(ch.Op == "pure"):
				s.A[aWaited] = 1
			}
		case EvArith:
			in, ok := e.Instr.(*ssa.BinOp)
			if !ok || in.Op != token.ADD && in.Op != token.SUB {
				return
			}
			inB, inD := inBodies(bootL, in.Block()), inBodies(doneL, in.Block())
			if !inB && !inD {
				return
			}
			one := isConstInt(in.Y, 1) || in.Op == token.ADD && isConstInt(in.X, 1)
			counter := false
			root := w.find(in)
			for fn := range fns {
				for _, b := range fn.Blocks {
					if inB && !inBodies(bootL, b) || inD && !inBodies(doneL, b) {
						continue
					}
					if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
						if bo, ok := iff.Cond.(*ssa.BinOp); ok && (isIntVal(bo.X) && w.find(bo.X) == root || isIntVal(bo.Y) && w.find(bo.Y) == root) {
							counter = true
						}
					}
				}
			}
			if !counter {
				return
			}
			nCnt++
			pb.obl(e, "acknowledgement counted")
			if !one {
				pb.fail(s, e, "step", "an acknowledgement is counted as more or less than one")
			}
			if inB {
				okk := s.A[aPend] == 1 && s.RV[0] != nil
				if okk {
					nn, k := x.IsNil(s, s.RV[0])
					okk = k && nn
				}
				if !okk {
					pb.fail(s, e, "counted", "an instance is counted as booted without an acknowledgement known to be free of errors")
				}
			} else if s.A[aPend] != 2 {
				pd.fail(s, e, "counted", "an instance is counted as done without its acknowledgement")
			}
			s.A[aPend] = 0
			if inB {
				s.A[aCounted] = 1
			} else {
				s.A[aCountedD] = 1
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if f, b := cond.loadedField(); f != nil && b == x.ArgVal(0) && fieldOwner(srv, f) {
				if s.A[aTest] = 1; taken {
					s.A[aTest] = 2
				}
			}
			iff, ok := e.Instr.(*ssa.If)
			if !ok {
				return
			}
			if e.Fn == r.serverRun {
				if sl, _ := rangeFromFirst(iff.Block()); sl != nil && sl == ssa.Value(r.serverRun.Params[len(r.serverRun.Params)-1]) {
					s.A[aStages] = 1
					s.A[aLoop] = 0
					if body := loopBody(iff.Block()); e.Taken && body[iff.Block().Succs[0]] || !e.Taken && body[iff.Block().Succs[1]] {
						s.A[aLoop] = 1
						// the stage before ended
						finish(s, e)
						s.A[aOn] = 0
					}
				}
			}
			inB, inD := inBodies(bootL, iff.Block()), inBodies(doneL, iff.Block())
			if !inB && !inD {
				return
			}
			bo, isBin := iff.Cond.(*ssa.BinOp)
			if !isBin || (cond.Op != "lss" && cond.Op != "eq") && !cond.isConst() {
				return
			}
			zero := zeroConst(bo.X) || zeroConst(bo.Y)
			if !isIntVal(bo.X) {
				return
			}
			// whether the comparison says "no more": by operator and direction
			op, X := bo.Op, bo.X
			t := e.Taken
			var fin bool
			if zeroConst(X) { // 0 op c
				switch op {
				case token.LSS, token.NEQ:
					fin = !t
				case token.GEQ, token.EQL:
					fin = t
				default:
					return
				}
			} else if zero { // c op 0
				switch op {
				case token.GTR, token.NEQ:
					fin = !t
				case token.LEQ, token.EQL:
					fin = t
				default:
					return
				}
			} else {
				a, b := cond, cond
				if cond.Op == "lss" || cond.Op == "eq" {
					a, b = cond.Args[0], cond.Args[1]
				}
				na, nb := isN(a), isN(b)
				if !na && !nb {
					if hasN(a) || hasN(b) {
						pb.fail(s, e, "target", "acknowledgements are compared with something other than the number of instances")
					}
					return
				}
				switch {
				case cond.Op == "lss" && nb: // c < N
					fin = !taken
				case cond.Op == "eq":
					fin = taken
				default:
					return
				}
			}
			if zero && (cond.Op == "lss" || cond.Op == "eq") && (inB && s.A[aCounted] == 0 || inD && s.A[aCountedD] == 0) {
				for _, a := range cond.Args {
					if !a.isConst() && !isN(a) && hasN(a) {
						pd.fail(s, e, "start", "the counter of instances does not start at their number")
					}
				}
			}
			if fin && inB {
				s.A[aBooted] = 1
				if s.A[aCounted] == 0 {
					s.A[aDone] = 1 // no instances at all
				}
			}
			if fin && inD {
				s.A[aDone] = 1
			}
		case EvCall:
			switch {
			case e.Callee == "builtin close":
				if f := chanField(s, e.Args[0]); f == r.run {
					if s.A[aOn] == 0 || inFn(s, r.stageFn) {
						return // the old stage, stopped by API.Stage
					}
					nClose++
					pb.obl(e, "run signal")
					start(s, e, "the run signal is given")
					if s.A[aClosed] > 0 {
						pr.fail(s, e, "twice", "the run signal is closed twice")
					}
					s.A[aClosed] = 1
				}
			case e.Target == r.stageFn:
				if len(e.Args) > 1 && e.Args[1].isNil() {
					s.A[aStop] = 1
				} else {
					s.A[aSet] = 1
					if s.A[aClosed] > 0 {
						pb.fail(s, e, "late", "the stage is offered to remotes after it was started")
					}
				}
			case e.Callee == stageRun && len(s.frames) > 0:
				pb.obl(e, "local started")
				start(s, e, "the local instance is started")
			}
		case EvRet:
			if e.Callee == stagePrepare && len(e.Res) == 1 {
				s.RV[2] = e.Res[0]
				s.A[aPrep] = 1
			}
		case EvGo:
			if e.Target == nil {
				return
			}
			if p.reachesCall(e.Target, func(n string, _ *ssa.CallCommon) bool { return n == stageRun }) || e.Callee == stageRun {
				nGo++
				pb.obl(e, "local started")
				start(s, e, "the local instance is started")
				pr.obl(e, "local started")
				if s.A[aLocal] == 1 {
					pr.fail(s, e, "twice", "the local instance is started twice")
				}
				s.A[aLocal] = 1
				dup := false
				for _, f := range localGo {
					dup = dup || f == e.Target
				}
				if !dup {
					localGo = append(localGo, e.Target)
				}
			}
		case EvSend:
			if f := chanField(s, e.Chan); f == r.boot {
				pb.obl(e, "local acknowledged")
				ok := s.RV[2] != nil
				if ok {
					nn, k := x.IsNil(s, s.RV[2])
					ok = k && nn
				}
				if !ok {
					pb.fail(s, e, "local", "the local instance is acknowledged although its boot may have failed")
				}
				if s.A[aAck] > 0 {
					pb.fail(s, e, "local twice", "the local instance is acknowledged twice")
				}
				s.A[aAck] = 1
			}
		case EvReturn:
			if e.Fn != r.serverRun {
				return
			}
			isErr := false
			if len(e.Res) == 1 && !e.Res[0].isNil() {
				nn, k := x.IsNil(s, e.Res[0])
				isErr = !k || !nn
			}
			if !isErr {
				finish(s, e)
				po.obl(e, "return")
				if s.A[aLoop] == 1 && !ended(s) {
					po.fail(s, e, "left early", "the loop over stages is left without error although Finch was not interrupted")
				}
			}
		}
	}
	x.Run(nil, nil)
	c.finish(B, x)
	c.Require(B, nClose, 1, "run signals")
	c.Require(B, nGo, 1, "local starts")
	c.Require(B, nCnt, 2, "counted acknowledgements")
	// counters change in no other way inside the loops
	for i, loops := range []map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{bootL, doneL} {
		rule := []string{B, D}[i]
		for h, body := range loops {
			ctr := map[ssa.Value]bool{}
			for b := range body {
				if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					if bo, ok := iff.Cond.(*ssa.BinOp); ok {
						for _, v := range []ssa.Value{bo.X, bo.Y} {
							if _, isC := v.(*ssa.Const); !isC && isIntVal(v) && w.parent[v] != nil {
								ctr[w.find(v)] = true
							}
						}
					}
				}
			}
			for b := range body {
				for _, in := range b.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok || !isIntVal(ph) || !ctr[w.find(ph)] {
						continue
					}
					c.Obl(rule, "counter in loop of "+shortFn(h.Parent()))
					for j, v := range ph.Edges {
						if !body[b.Preds[j]] {
							continue
						}
						switch t := v.(type) {
						case *ssa.Phi:
						case *ssa.BinOp:
							if t.Op != token.ADD && t.Op != token.SUB {
								c.Fail(rule, shortFn(h.Parent())+":assigned", v.Pos(), "the counter of instances is changed other than by counting acknowledgements")
							}
						default:
							c.Fail(rule, shortFn(h.Parent())+":assigned", v.Pos(), "the counter of instances is changed other than by counting acknowledgements")
						}
					}
				}
			}
		}
	}
	// order of stages
	found := false
	for _, b := range r.serverRun.Blocks {
		if loopBody(b) == nil {
			continue
		}
		if sl, _ := rangeFromFirst(b); sl != nil && sl == ssa.Value(r.serverRun.Params[len(r.serverRun.Params)-1]) {
			found = true
			c.Obl(O, "loop over stages")
		}
	}
	if !found {
		c.Fail(O, shortFn(r.serverRun)+":loop", r.serverRun.Pos(), "the stages are not run by a loop over all of them from the first")
	}
	// the goroutine of the local instance
	for _, fn := range localGo {
		c.Fn(fn)
		y := NewExec(p, fn)
		y.Inline = samePkg("compute")
		pg := c.pathRule(D, y)
		y.Hook = func(y *Exec, s *State, e *Event) {
			switch e.Kind {
			case EvRet:
				if e.Callee == stageRun {
					s.A[0]++
				}
			case EvSend:
				if f, _ := e.Chan.loadedField(); f == r.doneCh {
					pg.obl(e, "completion reported")
					if s.A[0] != 1 || s.A[1] > 0 {
						pg.fail(s, e, "completion", "completion is reported before the local instance ran, or twice")
					}
					s.A[1]++
				}
			case EvReturn:
				if e.Fn == fn && s.A[1] != 1 {
					pg.fail(s, e, "completion", "the local instance ends without reporting completion")
				}
			}
		}
		y.Run(nil, nil)
		c.finish(D, y)
	}
}

// inFn: fn is being executed.
func inFn(s *State, fn *ssa.Function) bool {
	for _, f := range s.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}
