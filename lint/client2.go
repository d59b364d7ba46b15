package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C01"] = ruleC01
	rules["C04"] = ruleC04
	rules["C05"] = ruleC05
	rules["C06"] = ruleC06
	rules["C08"] = ruleC08
	rules["C10"] = ruleC10
}

func notErr(v *Val) bool { return !isErrVal(v) }

// notErrConn: neither an error nor a connection or prepared statement.
func notErrConn(v *Val) bool { return !isErrVal(v) && !isConnVal(v) }

func isConnVal(v *Val) bool {
	return v.T != nil && (v.T.String() == "*database/sql.Conn" || v.T.String() == "*database/sql.Stmt")
}

// known reports nil-ness of an error value.
func (x *Exec) knownNil(s *State, v *Val) bool {
	n, ok := x.IsNil(s, v)
	return ok && n
}
func (x *Exec) knownNonNil(s *State, v *Val) bool {
	n, ok := x.IsNil(s, v)
	return ok && !n
}

// isStmtErr tells whether call e yields an error of executing a statement, and its result index.
func stmtErrCall(e *Event) bool {
	switch e.Callee {
	case "(*database/sql.Rows).Scan", "(*database/sql.Rows).Err", "(*database/sql.Rows).Close":
		return true
	}
	return false
}

// ---------------------------------------------------------------------------
// C01

func ruleC01(c *Ctx) {
	const R = "report-once-after-cleanup"
	c.Rule(R, "Every way out of Client.Run (return, or panic raised at any generated-value call, Scan or database/sql call) passes exactly one send of the client on DoneChan; before it every non-nil prepared statement and the connection were closed; nothing is closed or executed after it; a panic never escapes.")
	const R2 = "report-carries-error"
	c.Rule(R2, "When the report is sent after a panic, or after connecting/error handling returned a non-nil error that is not known to be a context error, Client.Error.Err holds that error; a value stored there is known not to be context.Canceled or DeadlineExceeded.")
	a := clientAnchors(c, R)
	if a == nil {
		return
	}
	isExec := intCall("(*database/sql.Stmt).Close", "(*database/sql.Conn).Close", "(*database/sql.DB).Conn")
	x := c.newClientExec(a, func(in ssa.Instruction) bool {
		if sd, ok := in.(*ssa.Send); ok {
			return strings.Contains(sd.Chan.Type().String(), "client.Client")
		}
		return isExec(in)
	})
	isHandler := func(fn *ssa.Function) bool {
		if fn == nil || !c.P.IsRepo(fn) || fn.Signature.Results().Len() == 0 || fn.Signature.Recv() == nil {
			return false
		}
		rs := fn.Signature.Results()
		return isErrorType(rs.At(rs.Len()-1).Type()) && c.P.reachesCall(fn, func(n string, _ *ssa.CallCommon) bool { return n == "(*database/sql.DB).Conn" })
	}
	hcache := map[*ssa.Function]bool{}
	handler := func(fn *ssa.Function) bool {
		v, ok := hcache[fn]
		if !ok {
			v = isHandler(fn)
			hcache[fn] = v
		}
		return v
	}
	x.Forget = func(v *Val) bool { return v.Op != "errorf" }
	x.Keep = func(f *Val) bool {
		if f.Op == "eq" && f.Args[1].isNil() && (isErrVal(f.Args[0]) || isConnVal(f.Args[0]) || mentions(f, map[*types.Var]bool{a.conn: true, a.ps: true}) || f.find(func(t *Val) bool { return strings.Contains(t.Name, "sql.DB).Conn") }) != nil) {
			return true
		}
		return f.find(func(t *Val) bool { return strings.HasPrefix(t.Name, "errors.Is") }) != nil
	}
	x.PanicAt = func(s *State, e *Event) bool {
		if s.A[0] > 0 || e.Deferred {
			return false
		}
		if len(s.frames) > 0 {
			for _, f := range s.frames {
				if f.isDefer {
					return false
				}
			}
		}
		if e.Callee == "" && e.Target == nil {
			// a generated value (not a context cancel function)
			for _, ar := range e.Args {
				if ar != nil && ar.T != nil && strings.Contains(ar.T.String(), "RunCount") {
					return true
				}
			}
			return len(e.Args) == 1 && e.Args[0] != nil && (e.Args[0].Op == "with" || e.Args[0].Op == "withe" || e.Args[0].Op == "zero")
		}
		return strings.HasPrefix(e.Callee, "invoke "+modPath+"/data.Generator") || sqlKind(e.Callee) != "" || e.Callee == "(*database/sql.Rows).Scan"
	}
	r := c.pathRule(R, x)
	r2 := c.pathRule(R2, x)
	const sent, psDone, inLoop, panicked, bad = 0, 1, 2, 3, 4
	sends, panics := 0, 0
	x.BlockEvents = true
	psLoop := func(cond *Val) (*Val, *Val) {
		if cond.Op == "lss" && cond.Args[1].Op == "len" && isLoadOf(cond.Args[1].Args[0], a.ps) {
			return cond.Args[0], cond.Args[1].Args[0]
		}
		return nil, nil
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		if x.anyPanicking(s) {
			s.A[panicked] = 1
		}
		switch e.Kind {
		case EvBranch:
			if i, l := psLoop(e.Cond); i != nil {
				if e.Taken {
					s.A[inLoop] = 1
					s.RV[0] = x.T.app("elem", l, i)
				} else {
					s.A[inLoop] = 0
					s.A[psDone] = 1
					s.RV[0] = nil
				}
			}
		case EvBlock:
			if e.Back && s.A[inLoop] == 1 && s.RV[0] != nil {
				st := x.T.mk(Val{Op: "load", Args: []*Val{s.RV[0]}, T: nil})
				if v, ok := x.Ask(s, x.T.eq(st, x.T.nilv())); ok && v {
					s.A[inLoop] = 0
				} else if x.knownNil(s, x.Load(s, s.RV[0], nil)) {
					s.A[inLoop] = 0
				} else {
					s.A[bad] = 1
				}
			}
		case EvCall:
			if sqlKind(e.Callee) != "" && s.A[sent] > 0 {
				r.fail(s, e, "sql after report", "MySQL is used after the client reported completion")
			}
			switch e.Callee {
			case "(*database/sql.Stmt).Close":
				if s.A[sent] > 0 {
					r.fail(s, e, "close after report", "a prepared statement is closed only after the client reported completion")
				}
				if s.RV[0] != nil && (e.Args[0] == x.Load(s, s.RV[0], nil) || e.Args[0].Op == "load" && e.Args[0].Args[0] == s.RV[0]) {
					s.A[inLoop] = 2
				}
			case "(*database/sql.Conn).Close":
				if s.A[sent] > 0 {
					r.fail(s, e, "close after report", "the connection is closed only after the client reported completion")
				}
				s.RV[1] = e.Args[0]
			case "(*database/sql.DB).Conn":
				s.A[psDone], s.A[bad] = 0, 0
			case "(*database/sql.Conn).PrepareContext":
				s.A[psDone], s.A[bad] = 0, 0
			}
		case EvRet:
			if e.Callee == "builtin recover" && s.A[panicked] == 1 {
				s.A[panicked] = 2
			}
			if e.Inlined && handler(e.Target) && len(e.Res) > 0 {
				h := e.Res[len(e.Res)-1]
				if !h.isNil() {
					to := x.T.sym("handler error", h.T)
					if h.Op == "errorf" {
						to = x.T.mk(Val{Op: "errorf", Name: "handler error", T: h.T, Args: h.Args[:min(1, len(h.Args))]})
					}
					x.Rename(s, h, to)
					e.Res[len(e.Res)-1] = to
					h = to
				}
				s.RV[2] = h
			}
		case EvStore:
			if e.Addr.Op == "field" && e.Addr.Fld == a.ErrErr {
				v := e.Val
				if !v.isNil() && !x.knownNil(s, v) {
					for _, g := range []string{"Canceled", "DeadlineExceeded"} {
						if v.Op == "errorf" {
							continue
						}
						if !x.isErrKnown(s, v, g, false) {
							r2.fail(s, e, "context error stored as client error", "an error that may be context."+g+" is reported as the client's error: end of run time is not an error")
						}
					}
				}
				r2.obl(e, "client error stored")
			}
		case EvSend:
			if !isLoadOf(e.Chan, a.DoneChan) {
				return
			}
			sends++
			if s.A[sent] > 0 {
				r.fail(s, e, "second report", "the client can report completion more than once")
			}
			s.A[sent] = 1
			if e.Val != x.ArgVal(0) {
				r.fail(s, e, "reports other client", "the value reported is not the client itself")
			}
			if s.A[psDone] != 1 || s.A[bad] == 1 {
				r.fail(s, e, "prepared statements open", "the client reports completion without having closed every prepared statement")
			}
			conn := a.cur(x, s, a.conn)
			if !x.knownNil(s, conn) && s.RV[1] != conn {
				r.fail(s, e, "connection open", "the client reports completion without having closed its connection")
			}
			r.obl(e, "completion report")
			ev := x.Load(s, x.T.fieldAddr(x.T.fieldAddr(x.ArgVal(0), a.Error), a.ErrErr), a.ErrErr.Type())
			if s.A[panicked] == 2 {
				panics++
				if !x.knownNonNil(s, ev) {
					r2.fail(s, e, "panic not reported", "after a panic the report does not carry an error")
				}
				r2.obl(e, "report after panic")
			} else if h := s.RV[2]; h != nil && !x.knownNil(s, h) {
				// handler error: must be reported unless it is the context's
				if ev != h && !x.isErrKnown(s, h, "Canceled", true) && !x.isErrKnown(s, h, "DeadlineExceeded", true) && !x.contradicts(s, h) {
					r2.fail(s, e, "error not reported", "an unrecoverable error ends the client but the report does not carry it")
				}
				r2.obl(e, "report after error")
			}
		case EvReturn:
			if s.A[sent] != 1 {
				r.fail(s, e, "return without report", "Client.Run can return without reporting completion")
			}
			r.obl(e, "return")
		case EvPanic:
			r.c.Fail(R, "panic escapes Client.Run", a.Run.Pos(), "a panic escapes Client.Run", x.TraceStr(s, 14)...)
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	c.Require(R, sends, 1, "reports")
	c.Require(R2, panics, 1, "reports after a panic")
}

// contradicts: h was never seen non-nil on a path that ended normally (caller did not test it)
func (x *Exec) contradicts(s *State, h *Val) bool { return false }

func (x *Exec) anyPanicking(s *State) bool {
	for _, f := range s.frames {
		if f.panicking && !f.recovered {
			return true
		}
	}
	return false
}

func (x *Exec) isErrKnown(s *State, v *Val, name string, want bool) bool {
	for f, b := range s.facts {
		if f.Op == "pure" && strings.HasPrefix(f.Name, "errors.Is") && f.Args[0] == v && b == want &&
			f.Args[1].find(func(t *Val) bool { return t.Op == "global" && t.Name == "context."+name }) != nil {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// C04

func ruleC04(c *Ctx) {
	const R = "record-per-execution"
	c.Rule(R, "On every path of Client.Run each executed statement is followed, before the next one or any exit, by exactly one stats.Trx.Record (unless the statistics slot is known nil), with the class that the statement's flags select and a duration in microseconds from a clock read taken directly before the execution to one taken after it; nothing is recorded without an execution.")
	const R2 = "error-per-failure"
	c.Rule(R2, "Each failed execution is followed, before the next one or any exit, by exactly one stats.Trx.Error with the MySQL code of that error, unless the slot is known nil or the run's context is known to have ended; no error is counted otherwise.")
	a := clientAnchors(c, R)
	if a == nil {
		return
	}
	rec := c.P.Func("stats", "Trx", "Record")
	errf := c.P.Func("stats", "Trx", "Error")
	if rec == nil || errf == nil {
		c.Missing(R, "stats.Trx.Record/Error")
		return
	}
	recName, errName := fnName(rec), fnName(errf)
	cls := map[int64]string{}
	for _, n := range []string{"READ", "WRITE", "COMMIT", "TOTAL"} {
		v, ok := constIntOf(c.P, "stats", n)
		if !ok {
			c.Missing(R, "stats."+n)
			return
		}
		cls[v] = n
	}
	heads := a.iterHeaders(c)
	x := c.newClientExec(a, intCall(recName, errName))
	x.BlockEvents = true
	inl := x.Inline
	x.Inline = func(fn *ssa.Function) bool { return fn != rec && fn != errf && inl(fn) }
	x.Forget = func(v *Val) bool { return notErr(v) && (v.T == nil || v.T.String() != "*"+modPath+"/stats.Trx") }
	x.Keep = func(f *Val) bool {
		if f.Op == "eq" && f.Args[1].isNil() && isErrVal(f.Args[0]) {
			return true
		}
		return mentions(f, map[*types.Var]bool{a.ResultSet: true, a.Write: true, a.Commit: true})
	}
	const begin = 3
	const R3 = "slot-of-trx-file"
	c.Rule(R3, "The statistics slot that receives a record or an error count is that of the trx file of the statement: the slot number is -1 when an iteration starts and goes up by one at each statement known to begin a trx file, and not otherwise.")
	r, r2, r3 := c.pathRule(R, x), c.pathRule(R2, x), c.pathRule(R3, x)
	// the slot number as the loop over the statements carries it: the integer
	// variables of the loop other than its index
	var slotVars []*ssa.Phi
	for h := range heads {
		for _, in := range h.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && !isRangeIndex(ph) && isIntType(ph.Type()) {
				slotVars = append(slotVars, ph)
			}
		}
	}
	sort.Slice(slotVars, func(i, j int) bool { return slotVars[i].Name() < slotVars[j].Name() })
	slots := 0
	slot := func(s *State, e *Event) {
		var idx *Val
		if e.Args[0].Op == "load" && e.Args[0].Args[0].Op == "elem" {
			idx = e.Args[0].Args[0].Args[1]
		}
		if idx == nil || len(slotVars) != 1 || s.RV[6] == nil {
			r3.obl(e, "slot number not kept by the loop over the statements: not decided")
			return
		}
		d := linear(idx).add(linear(s.RV[6]), -1)
		slots++
		switch {
		case len(d.c) == 0 && d.k == 0 && s.A[begin] == 2:
		case len(d.c) == 0 && d.k == 1 && s.A[begin] == 1:
		case s.A[begin] == 0:
			r3.fail(s, e, "slot not advanced", "a statement is recorded without testing whether it begins a trx file")
		default:
			r3.fail(s, e, "other slot", "a statement is recorded in the statistics of another trx file than its own")
		}
		r3.obl(e, "slot of the statement's trx file")
	}
	// A: 0 pending record (1 executed, 2 recorded, 3 slot nil), 1 error state (0 none, 1 failed uncounted, 2 counted, 3 excused)
	// RV: 0 S, 1 err, 2 last clock, 3 start clock, 4 last ctx.Err, 5 end clock candidate
	const pend, estate, stale = 0, 1, 2
	recs, errs, execs := 0, 0, 0
	settle := func(s *State, e *Event, where string) {
		if s.A[pend] == 1 {
			r.fail(s, e, "unrecorded:"+where, "a statement was executed but not recorded in the client's statistics before "+where)
		}
		if s.A[estate] == 1 {
			r2.fail(s, e, "uncounted:"+where, "a failed statement is not counted as an error before "+where)
		}
	}
	isSlot := func(v *Val) bool {
		return v.T != nil && v.T.String() == "*"+modPath+"/stats.Trx" || v.find(func(t *Val) bool { return isLoadOf(t, a.Stats) }) != nil
	}
	x.KeepIf = func(f *Val, v bool) bool { return !v && f.Op == "eq" && f.Args[1].isNil() && isSlot(f.Args[0]) }
	failed := func(s *State) {
		if s.RV[1] != nil && s.A[estate] == 0 && x.knownNonNil(s, s.RV[1]) {
			s.A[estate] = 1
			if s.A[pend] == 3 {
				s.A[estate] = 3
			}
		}
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvSelect, EvRecv, EvSend:
			s.A[stale] = 1
		case EvBlock:
			if heads[e.Block] {
				s.A[begin], s.RV[6] = 0, nil
				if !e.Back && len(slotVars) == 1 && slotVars[0].Block() == e.Block {
					for k, p := range e.Block.Preds {
						if p != e.From {
							continue
						}
						ev := &Event{Instr: e.From.Instrs[len(e.From.Instrs)-1], Fn: e.Fn}
						if n, ok := x.val(s, s.top(), slotVars[0].Edges[k]).constInt(); !ok || n != -1 {
							r3.fail(s, ev, "slot not reset", "an iteration starts without going back to before the first trx file's statistics")
						}
						r3.obl(ev, "slot number reset")
					}
				}
			}
		case EvBranch:
			failed(s)
			f, tk := e.Cond, e.Taken
			if f.Op == "not" {
				f, tk = f.Args[0], !tk
			}
			if heads[e.Instr.Block()] && len(slotVars) == 1 && slotVars[0].Block() == e.Instr.Block() && s.RV[6] == nil {
				s.RV[6] = x.val(s, s.top(), slotVars[0])
			}
			if f.Op == "eq" && f.Args[0].Op == "bin&" && f.Args[0].find(func(t *Val) bool { return isLoadOf(t, a.TrxBoundary) }) != nil {
				cv, ok := f.Args[1].constInt()
				for _, z := range f.Args[0].Args {
					if n, k := z.constInt(); k && ok && n == a.BEGIN && (cv == 0 || cv == n) {
						s.A[begin] = 2
						if tk == (cv != 0) {
							s.A[begin] = 1
						}
					}
				}
			}
			if f.Op == "eq" && f.Args[1].isNil() {
				if slot := f.Args[0]; isSlot(slot) && tk {
					if s.A[pend] == 1 {
						s.A[pend] = 3
					}
					if s.A[estate] == 1 {
						s.A[estate] = 3
					}
				}
				if f.Args[0] == s.RV[4] && !tk && s.A[estate] == 1 {
					s.A[estate] = 3 // run ended
				}
			}
		case EvCall:
			switch {
			case e.Callee == recName:
				recs++
				slot(s, e)
				if s.A[pend] != 1 {
					r.fail(s, e, "record without execution", "a response time is recorded that does not belong to exactly one executed statement (recorded twice, or nothing was executed)")
				}
				s.A[pend] = 2
				S := s.RV[0]
				if S == nil {
					return
				}
				if !x.knownNonNil(s, e.Args[0]) && !comparesReceiverToNil(rec) {
					r.fail(s, e, "record on nil slot", "statistics are recorded without checking that the client has statistics enabled")
				}
				k, ok := e.Args[1].constInt()
				ask := func(f *types.Var) (bool, bool) { return x.Ask(s, a.sfield(x, S, f)) }
				rs, rsk := ask(a.ResultSet)
				w, wk := ask(a.Write)
				cm, ck := ask(a.Commit)
				want := "?"
				switch {
				case rsk && rs:
					want = "READ"
				case wk && w:
					want = "WRITE"
				case wk && ck && cm:
					want = "COMMIT"
				case rsk && wk && ck:
					want = "TOTAL"
				}
				if !ok || cls[k] != want {
					r.fail(s, e, "class "+want, "the response time of a "+want+" statement is recorded under class "+cls[k]+" (or the class is not determined by the statement)")
				}
				// duration
				d := e.Args[2]
				sub := d.find(func(t *Val) bool { return t.Op == "pure" && strings.HasPrefix(t.Name, "(time.Time).Sub") })
				if sub == nil || s.RV[3] == nil || sub.Args[1] != s.RV[3] {
					r.fail(s, e, "start time", "the recorded time does not start at the clock read directly before the execution")
				} else if sub.Args[0] == s.RV[3] {
					r.fail(s, e, "end time", "the recorded time does not end after the execution")
				}
				us := d.find(func(t *Val) bool { return t.Op == "pure" && strings.HasPrefix(t.Name, "(time.Duration).Microseconds") }) != nil
				if b := d.find(func(t *Val) bool { return t.Op == "bin/" && len(t.Args) == 2 }); b != nil {
					if n, ok := b.Args[1].constInt(); ok && n == 1000 {
						us = true
					}
				}
				if !us {
					r.fail(s, e, "unit", "the recorded time is not in microseconds")
				}
				r.obl(e, "record "+want)
			case e.Callee == errName:
				errs++
				if s.A[pend] == 3 {
					x.Kill() // the slot is nil on this path
					return
				}
				slot(s, e)
				if s.A[estate] != 1 {
					r2.fail(s, e, "error without failure", "an error is counted although no statement failed (or it was already counted)")
				}
				code := e.Args[1]
				if code.Op == "conv" {
					code = code.Args[0]
				}
				if s.RV[1] == nil || code.Op != "pure" || !strings.Contains(code.Name, "MySQLErrorCode") || code.Args[0] != s.RV[1] {
					r2.fail(s, e, "wrong code", "the counted error is not the MySQL code of the failed statement's error")
				}
				if s.RV[4] == nil || !x.knownNil(s, s.RV[4]) {
					r2.fail(s, e, "counted after run ended", "an error is counted without knowing that the run is still active (the context may have ended)")
				}
				if !x.knownNonNil(s, e.Args[0]) && !comparesReceiverToNil(errf) {
					r2.fail(s, e, "error on nil slot", "an error is counted without checking that the client has statistics enabled")
				}
				s.A[estate] = 2
				r2.obl(e, "count error")
			default:
				op := a.sqlOp(x, e)
				if op == nil {
					if sqlKind(e.Callee) == "" && strings.HasPrefix(e.Callee, "invoke ") && !strings.HasPrefix(e.Callee, "invoke context.") {
						s.A[stale] = 1
					}
					if e.Callee == "" {
						s.A[stale] = 1
					}
					if strings.HasPrefix(e.Callee, "time.Sleep") {
						s.A[stale] = 1
					}
					return
				}
				if op.kind == "session" || op.kind == "prepare" {
					s.A[stale] = 1
					return
				}
				if op.kind == "unknown" {
					r.fail(s, e, "unknown statement", "cannot tell which statement this call executes")
					return
				}
				settle(s, e, "the next execution")
				execs++
				if s.RV[2] == nil || s.A[stale] == 1 {
					r.fail(s, e, "no clock before", "the clock is not read directly before the statement is executed (waiting or data generation would be counted as response time)")
				}
				s.RV[3] = s.RV[2]
				s.RV[0], s.RV[1], s.RV[4] = op.S, nil, nil
				s.A[pend], s.A[estate] = 1, 0
			}
		case EvRet:
			switch e.Callee {
			case "time.Now":
				s.RV[2] = e.Res[0]
				s.A[stale] = 0
			case "invoke context.Context.Err":
				s.RV[4] = e.Res[0]
			}
			if k := sqlKind(e.Callee); (k == "stmt" || k == "text") && s.A[pend] == 1 && s.RV[1] == nil && len(e.Res) == 2 {
				s.RV[1] = e.Res[1]
			}
			if stmtErrCall(e) && !e.Deferred && s.A[estate] == 0 && len(e.Res) == 1 {
				s.RV[1] = e.Res[0]
			}
		case EvReturn:
			failed(s)
			settle(s, e, "the client ends")
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	c.Require(R, recs, 1, "records")
	c.Require(R, execs, 4, "executions")
	c.Require(R2, errs, 1, "error counts")
}

func comparesReceiverToNil(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				for _, o := range []ssa.Value{bo.X, bo.Y} {
					if o == fn.Params[0] {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// C05

func ruleC05(c *Ctx) {
	const R = "failure-ends-iteration"
	c.Rule(R, "On every path of Client.Run the error of each execution, Scan, Rows.Err (and Close of a fully read result set) is tested before anything else is executed; once it is known non-nil, no statement is executed and no output, insert id or row count is used until a new iteration starts.")
	const R2 = "failure-identity"
	c.Rule(R2, "Every MySQL error code computed for handling or statistics is that of the failing statement's own error, and every statement number stored in Client.Error is that of the statement that failed (or could not be prepared), stored before a failing client reports.")
	a := clientAnchors(c, R)
	if a == nil {
		return
	}
	heads := a.iterHeaders(c)
	x := c.newClientExec(a, intCall("github.com/go-mysql/errors.MySQLErrorCode", "(*database/sql.Conn).PrepareContext"))
	x.Forget = notErr
	x.Keep = keepFacts(true)
	x.BlockEvents = true
	r, r2 := c.pathRule(R, x), c.pathRule(R2, x)
	const failing, unchecked, stored, handled = 0, 1, 2, 3
	n, codes, stores := 0, 0, 0
	upd := func(s *State) {
		if s.RV[0] == nil || s.A[unchecked] == 0 {
			return
		}
		if nl, ok := x.IsNil(s, s.RV[0]); ok {
			s.A[unchecked] = 0
			if !nl {
				s.A[failing], s.A[stored], s.A[handled] = 1, 0, 0
			} else {
				s.RV[0] = nil
			}
		}
	}
	use := func(s *State, e *Event, what string) {
		upd(s)
		if s.A[failing] == 1 {
			r.fail(s, e, what+" after failure", what+" after the statement failed, before a new iteration started")
		} else if s.A[unchecked] == 1 {
			r.fail(s, e, what+" unchecked", what+" although the error of the previous execution was not checked")
		}
		r.obl(e, what)
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvBranch:
			upd(s)
		case EvCall:
			switch {
			case e.Callee == "invoke database/sql.Result.RowsAffected":
				use(s, e, "row count used")
			case e.Callee == "invoke database/sql.Result.LastInsertId":
				use(s, e, "insert id used")
			case e.Callee == "invoke "+modPath+"/data.Generator.Scan":
				use(s, e, "insert id saved")
			case e.Callee == "(*database/sql.Rows).Next", e.Callee == "(*database/sql.Rows).Scan":
				use(s, e, "row read")
			case e.Callee == "github.com/go-mysql/errors.MySQLErrorCode":
				upd(s)
				if s.A[failing] != 1 || e.Args[0] != s.RV[0] {
					r2.fail(s, e, "other error", "the error handled or counted is not the error of the statement that failed")
				}
				codes++
				s.A[handled] = 1
				r2.obl(e, "error code of the failing statement")
			case e.Callee == "(*database/sql.Rows).Close":
				upd(s)
			default:
				op := a.sqlOp(x, e)
				if op == nil {
					return
				}
				if op.kind == "prepare" {
					s.RV[2] = op.Idx
				}
				if op.kind != "exec" {
					return
				}
				n++
				use(s, e, "statement executed")
				s.RV[1] = op.Idx
				s.RV[2] = nil
			}
		case EvRet:
			if e.Inlined {
				return
			}
			k := sqlKind(e.Callee)
			if (k == "stmt" || k == "text") && len(e.Res) == 2 && s.A[failing] == 0 {
				if call, ok := e.Instr.(ssa.CallInstruction); ok && a.isSession(x, s, call, e) {
					return
				}
				s.RV[0], s.A[unchecked] = e.Res[1], 1
			}
			if stmtErrCall(e) && !e.Deferred && s.A[failing] == 0 && len(e.Res) == 1 {
				if s.A[unchecked] == 1 {
					r.fail(s, e, "overwritten", "the error of an execution or row read is overwritten before it was checked")
				}
				s.RV[0], s.A[unchecked] = e.Res[0], 1
			}
		case EvStore:
			if e.Addr.Op == "field" && e.Addr.Fld == a.StatementNo {
				upd(s)
				stores++
				if e.Val != s.RV[1] && e.Val != s.RV[2] {
					r2.fail(s, e, "statement number", "the statement number reported is not that of the failing statement")
				}
				if e.Val == s.RV[1] {
					s.A[stored] = 1
				}
				r2.obl(e, "statement number stored")
			}
		case EvSend:
			if isLoadOf(e.Chan, a.DoneChan) && s.A[failing] == 1 {
				ev := x.Load(s, x.T.fieldAddr(x.T.fieldAddr(x.ArgVal(0), a.Error), a.ErrErr), a.ErrErr.Type())
				if x.knownNonNil(s, ev) && s.A[stored] == 0 && s.RV[2] == nil {
					r2.fail(s, e, "no statement number", "the client reports an error without the number of the statement that failed")
				}
			}
		case EvBlock:
			if heads[e.Block] && !e.Back {
				upd(s)
				if s.A[unchecked] == 1 {
					r.fail(s, &Event{Instr: e.Block.Instrs[0], Fn: e.Fn}, "iteration unchecked", "a new iteration starts although the error of the previous execution was not checked")
				}
				if s.A[failing] == 1 && s.A[handled] == 0 {
					r2.fail(s, &Event{Instr: e.Block.Instrs[0], Fn: e.Fn}, "not handled", "a new iteration starts after a statement failed although its error never went through error handling")
				}
				s.A[failing], s.A[unchecked], s.A[stored], s.A[handled] = 0, 0, 0, 0
				s.RV[0], s.RV[1], s.RV[2] = nil, nil, nil
			}
		case EvReturn:
			upd(s)
			if s.A[unchecked] == 1 {
				r.fail(s, e, "return unchecked", "the client ends without having checked the error of the last execution")
			}
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	c.Require(R, n, 4, "executions")
	c.Require(R2, codes, 1, "error code computations")
	c.Require(R2, stores, 1, "statement number stores")
}

// isSession: the finished call executed text that is not a configured statement.
func (a *clientA) isSession(x *Exec, s *State, call ssa.CallInstruction, e *Event) bool {
	ev := *e
	if len(ev.Args) == 0 {
		return false
	}
	op := a.sqlOp(x, &ev)
	return op != nil && op.kind == "session"
}

// ---------------------------------------------------------------------------
// C06

func ruleC06(c *Ctx) {
	const R = "error-table"
	c.Rule(R, "After a statement failed, on every path of Client.Run: the connection is kept only if the table has the error and it is marked continue, and then ROLLBACK succeeded first if it is marked rollback and a transaction may be open; the connection is replaced only if not; ROLLBACK is executed only if so marked, inside a transaction, on the current connection; an unlisted error of a DDL statement never leads to a reconnect.")
	a := clientAnchors(c, R)
	if a == nil {
		return
	}
	rb, ok1 := constIntOf(c.P, "", "Erollback")
	cont, ok2 := constIntOf(c.P, "", "Econtinue")
	if !ok1 || !ok2 {
		c.Missing(R, "finch.Erollback/Econtinue")
		return
	}
	heads := a.iterHeaders(c)
	x := c.newClientExec(a, intCall("(*database/sql.DB).Conn", "github.com/go-mysql/errors.MySQLErrorCode"))
	x.Forget = notErr
	x.BlockEvents = true
	hasLookup := func(f *Val) bool {
		return f.find(func(t *Val) bool { return t.Op == "lookup" || t.Op == "lookupok" }) != nil
	}
	keep := keepFacts(true, a.DDL, a.TrxBoundary)
	x.Keep = func(f *Val) bool { return keep(f) || hasLookup(f) }
	r := c.pathRule(R, x)
	const failing, unchecked, inTrx, endTested, endPend, execd, rolled, replaced = 0, 1, 2, 3, 4, 5, 6, 7
	n, rollbacks, conts, conns := 0, 0, 0, 0
	upd := func(s *State) {
		if s.RV[0] == nil || s.A[unchecked] == 0 {
			return
		}
		if nl, ok := x.IsNil(s, s.RV[0]); ok {
			s.A[unchecked] = 0
			if !nl {
				s.A[failing], s.A[rolled], s.A[replaced] = 1, 0, 0
			} else {
				s.RV[0] = nil
			}
		}
	}
	// table facts: (listed, known), bit value
	listed := func(s *State) (bool, bool) {
		for f, v := range s.facts {
			if f.Op == "lookupok" && s.RV[0] != nil && f.Args[1].contains(s.RV[0]) {
				return v, true
			}
		}
		return false, false
	}
	bit := func(s *State, b int64) (bool, bool) {
		for f, v := range s.facts {
			if f.Op != "eq" {
				continue
			}
			an := f.Args[0]
			cv, ok := f.Args[1].constInt()
			if an.Op != "bin&" || !ok {
				continue
			}
			var lk, k *Val
			for _, z := range an.Args {
				if z.Op == "lookup" {
					lk = z
				} else {
					k = z
				}
			}
			if lk == nil || k == nil || s.RV[0] == nil || !lk.Args[1].contains(s.RV[0]) {
				continue
			}
			kv, ok := k.constInt()
			if !ok {
				continue
			}
			if kv == b {
				if cv == 0 {
					return !v, true
				}
				if cv == b {
					return v, true
				}
			}
		}
		if l, k := listed(s); k && !l {
			return false, true // zero value
		}
		return false, false
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvBranch:
			upd(s)
			// infeasible: unlisted error with a flag set
			if l, k := listed(s); k && !l {
				for f, v := range s.facts {
					if !v && f.Op == "eq" && f.Args[0].Op == "bin&" && f.Args[0].find(func(t *Val) bool { return t.Op == "lookup" && s.RV[0] != nil && t.Args[1].contains(s.RV[0]) }) != nil {
						if cv, ok := f.Args[1].constInt(); ok && cv == 0 {
							x.Kill()
							return
						}
					}
				}
			}
			// boundaries
			f, tk := e.Cond, e.Taken
			if f.Op == "not" {
				f, tk = f.Args[0], !tk
			}
			if f.Op == "eq" && f.Args[0].Op == "bin&" && f.Args[0].find(func(t *Val) bool { return isLoadOf(t, a.TrxBoundary) }) != nil {
				cv, ok := f.Args[1].constInt()
				var kv int64 = -1
				for _, z := range f.Args[0].Args {
					if n, ok := z.constInt(); ok {
						kv = n
					}
				}
				if ok && kv > 0 {
					set := cv == 0 && !tk || cv == kv && tk
					switch kv {
					case a.BEGIN:
						if set {
							s.A[inTrx], s.A[execd], s.A[endPend] = 1, 0, 0
						}
					case a.END:
						s.A[endTested] = 1
						if set && s.A[failing] == 0 {
							if s.A[execd] == 1 {
								s.A[inTrx] = 0
							} else {
								s.A[endPend] = 1
							}
						}
					}
				}
			}
		case EvCall:
			if e.Callee == "(*database/sql.DB).Conn" {
				upd(s)
				if s.A[failing] == 1 {
					conns++
					l, lk := listed(s)
					ct, ck := bit(s, cont)
					if ck && ct {
						r.fail(s, e, "replaced", "the connection is replaced although the error is listed as continue")
					}
					d, dk := x.Ask(s, a.sfield(x, s.RV[1], a.DDL))
					if !(dk && !d) && !(lk && l) {
						r.fail(s, e, "ddl reconnect", "a DDL statement that failed with an unlisted error can lead to a reconnect instead of stopping the client")
					}
					if s.A[rolled] == 1 && (s.RV[3] == nil || !x.knownNil(s, s.RV[3])) {
						r.fail(s, e, "rollback error ignored", "the client goes on although ROLLBACK failed or its error was not checked")
					}
					s.A[replaced] = 1
					r.obl(e, "replace connection after failure")
				}
				return
			}
			op := a.sqlOp(x, e)
			if op == nil {
				return
			}
			switch op.kind {
			case "session":
				q, isC := op.Query.constStr()
				if isC && strings.EqualFold(strings.TrimSpace(q), "ROLLBACK") {
					upd(s)
					rollbacks++
					rbv, rk := bit(s, rb)
					if s.A[failing] != 1 || !rk || !rbv {
						r.fail(s, e, "rollback unasked", "ROLLBACK is executed although the error is not marked rollback")
					}
					if s.A[inTrx] != 1 {
						r.fail(s, e, "rollback outside trx", "ROLLBACK is executed although the client is not known to be inside a transaction")
					}
					if e.Args[0] != a.cur(x, s, a.conn) {
						r.fail(s, e, "rollback elsewhere", "ROLLBACK is not executed on the client's current connection")
					}
					if s.A[replaced] == 1 {
						r.fail(s, e, "rollback late", "ROLLBACK is executed on the new connection")
					}
					s.A[rolled] = 1
					r.obl(e, "ROLLBACK")
				}
			case "exec":
				upd(s)
				n++
				if s.A[execd] == 1 && s.A[endTested] == 0 {
					s.A[inTrx] = 2
				}
				if s.A[endPend] == 1 && s.A[execd] == 1 {
					s.A[inTrx], s.A[endPend] = 0, 0
				}
				s.A[execd], s.A[endTested] = 1, 0
				if s.A[endPend] == 1 {
					s.A[endTested] = 1
				}
				s.RV[1] = op.S
			}
		case EvRet:
			if e.Inlined {
				return
			}
			k := sqlKind(e.Callee)
			if (k == "stmt" || k == "text") && len(e.Res) == 2 {
				ev := *e
				if op := a.sqlOp(x, &ev); op != nil && op.kind == "session" {
					if q, ok := op.Query.constStr(); ok && strings.EqualFold(q, "ROLLBACK") {
						s.RV[3] = e.Res[1]
					}
				} else if s.A[failing] == 0 {
					s.RV[0], s.A[unchecked] = e.Res[1], 1
				}
			}
			if stmtErrCall(e) && !e.Deferred && s.A[failing] == 0 && len(e.Res) == 1 {
				s.RV[0], s.A[unchecked] = e.Res[0], 1
			}
		case EvBlock:
			if heads[e.Block] && !e.Back {
				upd(s)
				ev := &Event{Instr: e.Block.Instrs[0], Fn: e.Fn}
				if s.A[failing] == 1 {
					conts++
					if s.A[replaced] == 0 {
						ct, ck := bit(s, cont)
						if !ck || !ct {
							r.fail(s, ev, "kept", "the client continues on the same connection although the error is not known to be listed as continue")
						}
						rbv, rk := bit(s, rb)
						if !(rk && !rbv) && s.A[inTrx] != 0 {
							if s.A[rolled] != 1 || s.RV[3] == nil || !x.knownNil(s, s.RV[3]) {
								r.fail(s, ev, "no rollback", "the client continues on the same connection, inside a transaction, without a successful ROLLBACK although the error may be marked rollback")
							}
						}
					}
					r.obl(ev, "continue after failure")
				}
				s.A[failing], s.A[unchecked], s.A[execd], s.A[endTested], s.A[endPend] = 0, 0, 0, 0, 0
				s.A[inTrx], s.A[rolled], s.A[replaced] = 0, 0, 0
				for i := range s.RV {
					s.RV[i] = nil
				}
			}
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	c.Require(R, n, 4, "executions")
	c.Require(R, rollbacks, 1, "ROLLBACK executions")
	c.Require(R, conts, 1, "continuations after a failure")
	c.Require(R, conns, 1, "reconnects after a failure")
	_ = constant.MakeBool
}

// ---------------------------------------------------------------------------
// C08

func ruleC08(c *Ctx) {
	const R = "limit-asked-before-write"
	c.Rule(R, "On every path of Client.Run each execution of a statement that returns no rows either has a limit known to be nil or was preceded, since the last execution, by that same limit's More returning true; after More returned false nothing is executed again.")
	const R2 = "limit-fed-after-write"
	c.Rule(R2, "After each such execution known to have succeeded, and only then, exactly one Affected is called on that statement's limit (if not nil) with the RowsAffected of that execution's result, before the next execution or exit.")
	a := clientAnchors(c, R)
	if a == nil {
		return
	}
	more, aff := "invoke "+modPath+"/limit.Data.More", "invoke "+modPath+"/limit.Data.Affected"
	x := c.newClientExec(a, intCall(more, aff))
	x.Forget = notErr
	x.Keep = func(f *Val) bool {
		if f.find(func(t *Val) bool { return strings.Contains(t.Name, "limit.Data.More") }) != nil {
			return true
		}
		return keepFacts(true, a.Limit, a.ResultSet)(f)
	}
	r, r2 := c.pathRule(R, x), c.pathRule(R2, x)
	const stopped, fed, writing = 0, 1, 2
	execs, mores, affs := 0, 0, 0
	// nothing to report: no limit, or the write failed
	excuse := func(s *State) {
		if s.A[writing] == 1 && s.A[fed] == 0 && s.RV[4] != nil {
			if x.knownNil(s, a.sfield(x, s.RV[4], a.Limit)) || s.RV[2] != nil && x.knownNonNil(s, s.RV[2]) {
				s.A[fed] = 2
			}
		}
	}
	settle := func(s *State, e *Event, where string) {
		excuse(s)
		if s.A[writing] == 1 && s.A[fed] == 0 && s.RV[4] != nil {
			{
				r2.fail(s, e, "not fed:"+where, "a successful write does not report its row count to its data limit before "+where)
			}
		}
		s.A[writing] = 0
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			if e.Callee == more {
				s.RV[0], s.RV[1] = e.Args[0], e.Res[0]
				mores++
				r.obl(e, "limit asked")
			}
			if k := sqlKind(e.Callee); (k == "stmt" || k == "text") && len(e.Res) == 2 && s.A[writing] == 1 && s.RV[2] == nil {
				s.RV[2], s.RV[3] = e.Res[1], e.Res[0]
			}
			if e.Callee == "invoke database/sql.Result.RowsAffected" {
				s.RV[5] = e.Res[0]
				s.RV[6] = e.Args[0]
			}
		case EvBranch:
			excuse(s)
			if s.RV[1] != nil {
				if v, ok := x.Ask(s, s.RV[1]); ok && !v {
					s.A[stopped] = 1
				}
			}
		case EvCall:
			if e.Callee == aff {
				affs++
				switch {
				case s.RV[4] == nil || s.A[writing] != 1:
					r2.fail(s, e, "fed without write", "a data limit is fed without a write that succeeded")
				case e.Args[0] != a.sfield(x, s.RV[4], a.Limit):
					r2.fail(s, e, "other limit", "the row count is reported to a limit of another statement")
				case s.RV[2] == nil || !x.knownNil(s, s.RV[2]):
					r2.fail(s, e, "fed after failure", "a data limit is fed although the write is not known to have succeeded")
				case s.RV[5] == nil || e.Args[1] != s.RV[5] || s.RV[6] != s.RV[3]:
					r2.fail(s, e, "other count", "the count reported to the data limit is not the number of rows affected by this execution")
				case s.A[fed] == 1:
					r2.fail(s, e, "fed twice", "the data limit is fed twice for one write")
				}
				s.A[fed] = 1
				r2.obl(e, "limit fed")
				return
			}
			op := a.sqlOp(x, e)
			if op == nil || op.kind == "prepare" || op.kind == "session" {
				return
			}
			if op.kind == "unknown" {
				r.fail(s, e, "unknown statement", "cannot tell which statement this call executes")
				return
			}
			settle(s, e, "the next execution")
			execs++
			if s.A[stopped] == 1 {
				r.fail(s, e, "after stop", "a statement is executed after a data limit said no more")
			}
			lim := a.sfield(x, op.S, a.Limit)
			rs, rk := x.Ask(s, a.sfield(x, op.S, a.ResultSet))
			if !(rk && rs) {
				okm := false
				if s.RV[0] == lim && s.RV[1] != nil {
					v, k := x.Ask(s, s.RV[1])
					okm = k && v
				}
				if !x.knownNil(s, lim) && !okm {
					r.fail(s, e, "not asked", "a write is executed without its data limit (if any) having allowed it")
				}
				s.A[writing], s.A[fed] = 1, 0
				r.obl(e, "write execution")
			}
			s.RV[4], s.RV[2], s.RV[3], s.RV[5], s.RV[6] = op.S, nil, nil, nil, nil
			s.RV[0], s.RV[1] = nil, nil
			excuse(s)
		case EvReturn:
			settle(s, e, "the client ends")
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	c.Require(R, execs, 4, "executions")
	c.Require(R, mores, 1, "limit checks")
	c.Require(R2, affs, 1, "limit updates")
}

// ---------------------------------------------------------------------------
// C10

func ruleC10(c *Ctx) {
	const R = "result-set-lifecycle"
	c.Rule(R, "On every path of Client.Run a result set returned without error is closed before any other statement, prepare or connection change and before the client ends; reading it goes on until Next returns false or reading fails, after which Rows.Err is tested; a Close that is not on an error path is tested when the rows were not read.")
	const R2 = "outputs"
	c.Rule(R2, "Rows are scanned into the outputs of the statement that returned them; an insert id saved is the LastInsertId of the execution of that same statement, known to have succeeded, and each such execution whose statement may have a generator for it hands it over exactly once.")
	a := clientAnchors(c, R)
	if a == nil {
		return
	}
	x := c.newClientExec(a, intCall("(*database/sql.Rows).Close", "(*database/sql.Rows).Next", "(*database/sql.Rows).Scan", "(*database/sql.DB).Conn"))
	heads := a.iterHeaders(c)
	x.BlockEvents = true
	x.Forget = notErr
	x.Keep = func(f *Val) bool {
		if f.find(func(t *Val) bool { return strings.Contains(t.Name, "sql.Rows).Next") }) != nil {
			return true
		}
		return keepFacts(true, a.Outputs, a.InsertId, a.ResultSet)(f)
	}
	r, r2 := c.pathRule(R, x), c.pathRule(R2, x)
	const open, reading, endChk, failed, scanned, idPend = 0, 1, 2, 3, 4, 5
	// RV0 rows, RV1 exec err, RV2 last Next result, RV3 last scan/err result, RV4 idx, RV5 result, RV6 last insert id
	opens, closes, scans, ids := 0, 0, 0, 0
	openNow := func(s *State) bool {
		if s.A[open] == 1 && s.RV[1] != nil {
			if n, ok := x.IsNil(s, s.RV[1]); ok {
				if n {
					s.A[open] = 2
				} else {
					s.A[open] = 0
				}
			}
		}
		return s.A[open] > 0
	}
	chk := func(s *State) bool { // error of the read known
		if s.RV[3] != nil {
			if n, ok := x.IsNil(s, s.RV[3]); ok {
				if !n {
					s.A[failed] = 1
				}
				return true
			}
			return false
		}
		return true
	}
	// an insert id to save: not if the write failed or has no generator for it
	idExcuse := func(s *State) {
		if s.A[idPend] == 1 && s.RV[4] != nil {
			if s.RV[1] != nil && x.knownNonNil(s, s.RV[1]) || x.knownNil(s, a.dfield(x, s.RV[4], a.InsertId)) {
				s.A[idPend] = 0
			}
		}
	}
	boundary := func(s *State, e *Event, what string) {
		idExcuse(s)
		if s.A[idPend] == 1 {
			r2.fail(s, e, "insert id not saved at "+what, "a successful write whose insert id may be saved by a generator did not hand it over when "+what)
		}
		s.A[idPend] = 0
		if openNow(s) {
			r.fail(s, e, "open at "+what, "a result set is still open when "+what)
		}
		if !chk(s) {
			r.fail(s, e, "unchecked read at "+what, "an error while reading or closing a result set is not tested when "+what)
		}
		if s.A[reading] == 1 && s.A[failed] == 0 && s.A[endChk] == 0 {
			r.fail(s, e, "end not tested at "+what, "rows were read but the error at the end of the rows was not tested when "+what)
		}
	}
	reset := func(s *State) {
		s.A[open], s.A[reading], s.A[endChk], s.A[failed], s.A[scanned] = 0, 0, 0, 0, 0
		s.RV[0], s.RV[1], s.RV[2], s.RV[3] = nil, nil, nil, nil
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvBranch:
			openNow(s)
			chk(s)
			idExcuse(s)
			if s.A[reading] == 1 && s.RV[2] != nil {
				if v, ok := x.Ask(s, s.RV[2]); ok && v && s.A[scanned] == 0 {
					s.A[scanned] = 2 // a row is available and must be scanned
				}
			}
		case EvCall:
			switch e.Callee {
			case "(*database/sql.Rows).Next":
				if !openNow(s) || e.Args[0] != s.RV[0] {
					r.fail(s, e, "next on closed", "rows are read from a result set that is not open")
				}
				if !chk(s) || s.A[failed] == 1 {
					r.fail(s, e, "next after error", "reading goes on although scanning a row failed or its error was not tested")
				}
				if s.A[scanned] == 2 {
					r.fail(s, e, "row skipped", "a row is skipped: it is not offered to the configured outputs")
				}
				s.A[scanned] = 0
				s.A[reading], s.A[endChk] = 1, 0
			case "(*database/sql.Rows).Scan":
				scans++
				if !openNow(s) || e.Args[0] != s.RV[0] {
					r.fail(s, e, "scan on closed", "a row is scanned from a result set that is not open")
				}
				if len(e.Args) < 2 || s.RV[4] == nil || e.Args[1] != a.dfield(x, s.RV[4], a.Outputs) {
					r2.fail(s, e, "scan target", "a row is not scanned into the outputs of the statement that returned it")
				}
				if v, ok := x.Ask(s, orFalse(x, s.RV[2])); !ok || !v {
					r.fail(s, e, "scan without next", "a row is scanned without Next having returned true")
				}
				s.A[scanned] = 1
				r2.obl(e, "row scanned")
			case "(*database/sql.Rows).Close":
				closes++
				openNow(s)
				chk(s)
				if s.A[scanned] == 2 && s.A[failed] == 0 {
					r.fail(s, e, "row not scanned", "a row is available but not offered to the configured outputs")
				}
				if s.A[reading] == 1 && s.A[failed] == 0 && s.RV[2] != nil {
					if v, ok := x.Ask(s, s.RV[2]); !ok || v {
						r.fail(s, e, "closed before end", "the result set is closed before all rows were read")
					}
				}
				if e.Args[0] == s.RV[0] {
					s.A[open] = 0
				}
				r.obl(e, "result set closed")
			case "(*database/sql.DB).Conn":
				boundary(s, e, "the connection is replaced")
			case "invoke database/sql.Result.LastInsertId":
			case "invoke " + modPath + "/data.Generator.Scan":
				ids++
				ok := len(e.Args) > 1 && s.RV[6] != nil && e.Args[1].contains(s.RV[6]) && s.RV[4] != nil && e.Args[0] == a.dfield(x, s.RV[4], a.InsertId)
				if !ok {
					r2.fail(s, e, "insert id", "the insert id saved is not that of the statement's own execution")
				}
				if s.RV[1] == nil || !x.knownNil(s, s.RV[1]) {
					r2.fail(s, e, "insert id unchecked", "an insert id is saved although the execution is not known to have succeeded")
				}
				if s.A[idPend] == 2 {
					r2.fail(s, e, "insert id twice", "the insert id of one execution is saved twice")
				}
				s.A[idPend] = 2
				r2.obl(e, "insert id saved")
			default:
				op := a.sqlOp(x, e)
				if op == nil {
					return
				}
				what := "the next statement is executed"
				if op.kind != "exec" {
					what = "the session uses the connection (" + op.kind + ")"
				}
				boundary(s, e, what)
				if op.kind == "exec" {
					reset(s)
					s.RV[4], s.RV[5], s.RV[6] = op.Idx, nil, nil
				}
			}
		case EvRet:
			if e.Inlined || len(e.Args) == 0 {
				return
			}
			k := sqlKind(e.Callee)
			if (k == "stmt" || k == "text") && len(e.Res) == 2 {
				ev := *e
				if op := a.sqlOp(x, &ev); op != nil && op.kind == "exec" {
					s.RV[1] = e.Res[1]
					if op.Rows {
						opens++
						s.RV[0], s.A[open] = e.Res[0], 1
						r.obl(e, "result set opened")
					} else {
						s.RV[5] = e.Res[0]
						s.A[idPend] = 1
						idExcuse(s)
					}
				}
			}
			switch e.Callee {
			case "(*database/sql.Rows).Next":
				s.RV[2] = e.Res[0]
			case "(*database/sql.Rows).Scan", "(*database/sql.Rows).Err":
				s.RV[3] = e.Res[0]
				if e.Callee == "(*database/sql.Rows).Err" {
					s.A[endChk] = 1
				}
			case "(*database/sql.Rows).Close":
				if s.A[failed] == 0 && s.A[reading] == 0 {
					s.RV[3] = e.Res[0] // rows not read: Close yields the error of reading them
				}
			case "invoke database/sql.Result.LastInsertId":
				if e.Args[0] == s.RV[5] {
					s.RV[6] = e.Res[0]
				} else {
					s.RV[6] = nil
				}
			}
		case EvBlock:
			if heads[e.Block] && !e.Back {
				boundary(s, &Event{Instr: e.Block.Instrs[0], Fn: e.Fn}, "a new iteration starts")
				reset(s)
			}
		case EvReturn:
			boundary(s, e, "the client ends")
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	c.Require(R, opens, 2, "result sets opened")
	c.Require(R, closes, 1, "result set closes")
	c.Require(R2, scans, 1, "row scans")
	c.Require(R2, ids, 1, "insert ids saved")
}

func orFalse(x *Exec, v *Val) *Val {
	if v == nil {
		return x.T.boolv(false)
	}
	return v
}
