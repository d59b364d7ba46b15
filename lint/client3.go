package main

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C07"] = ruleC07
}

// ---------------------------------------------------------------------------
// C07

func ruleC07(c *Ctx) {
	const R = "session-restored"
	c.Rule(R, "On every path of Client.Run, between obtaining a connection (known non-nil) and the next statement executed: USE with the default database succeeded on it or no default database is known to be configured, and a loop over the statements left each with Prepare known false, a prepared statement known non-nil, or the result of PrepareContext on the new connection with that statement's query, its error known nil; a prepared statement is also given only to those statements after it that its PrepareMulti counts.")
	const R2 = "old-session-released"
	c.Rule(R2, "When a connection is requested, the client's previous connection is known nil or was closed, and every prepared statement used before was closed and forgotten.")
	const R3 = "new-session"
	c.Rule(R3, "On every path on which dbconn.Make returns a database handle, the handle keeps no closed connections in its pool (SetMaxIdleConns of at most 0 was called on it), nothing else sets the pool, and handles are made nowhere else.")
	c.newSession(R3)
	a := clientAnchors(c, R)
	if a == nil {
		return
	}
	x := c.newClientExec(a, intCall("(*database/sql.Stmt).Close", "(*database/sql.Conn).Close", "(*database/sql.DB).Conn", "(*database/sql.Conn).PrepareContext"))
	x.BlockEvents = true
	x.Forget = notErrConn
	kf := keepFacts(true, a.DefaultDb, a.Prepare, a.PrepareMulti, a.conn, a.ps)
	x.Keep = func(f *Val) bool {
		return f.Op == "eq" && f.Args[1].isNil() && isConnVal(f.Args[0]) || kf(f)
	}
	r, r2 := c.pathRule(R, x), c.pathRule(R2, x)
	const sess, use, prep, psClear, used, inLoop, badClear, badPrep, closedAll, hadNil, cur, stored = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11
	// RV0 cell of ps in loop, RV1 current session's conn, RV2 USE error, RV3 closed conn, RV4 statement in loop, RV5 prepare err, RV6 prepare result, RV7 original cell value
	conns, execs, preps, uses, shared := 0, 0, 0, 0, 0
	upd := func(s *State) {
		if s.A[sess] == 1 && s.RV[1] != nil {
			if n, ok := x.IsNil(s, s.RV[1]); ok && n {
				s.A[sess] = 0
			} else if ok {
				s.A[sess] = 2
			}
		}
		if s.A[sess] == 2 && s.A[use] == 0 {
			if v, ok := x.Ask(s, x.T.eq(a.cfield(x, a.DefaultDb), x.T.konst(constant.MakeString(""), nil))); ok && v {
				s.A[use] = 1
			}
			if s.RV[2] != nil && x.knownNil(s, s.RV[2]) {
				s.A[use] = 1
			}
		}
		if s.A[inLoop] > 0 && s.RV[7] != nil && s.A[hadNil] == 0 {
			if n, ok := x.IsNil(s, s.RV[7]); ok {
				if n {
					s.A[hadNil] = 1
				} else {
					s.A[hadNil] = 2
				}
			}
		}
	}
	endIter := func(s *State) {
		if s.A[inLoop] == 0 || s.RV[0] == nil {
			return
		}
		cell := x.Load(s, s.RV[0], nil)
		// cleared?
		clear := false
		if x.knownNil(s, cell) && (s.A[hadNil] == 1 || s.A[inLoop] == 2) {
			clear = true
		}
		if !clear {
			s.A[badClear] = 1
		}
		if s.A[inLoop] != 2 && s.A[hadNil] != 1 {
			s.A[closedAll] = 2
		}
		ok := false
		if p, k := x.Ask(s, a.sfield(x, s.RV[4], a.Prepare)); k && !p {
			ok = true
		}
		if cell == s.RV[7] && s.A[hadNil] == 2 {
			ok = true // prepared before on this connection
		}
		if s.A[stored] == 1 && s.RV[5] != nil && x.knownNil(s, s.RV[5]) {
			ok = true
		}
		if !ok {
			s.A[badPrep] = 1
		}
		s.A[inLoop] = 0
	}
	heads := a.iterHeaders(c)
	hids := map[*ssa.BasicBlock]int16{}
	loopCond := func(cond *Val) *Val {
		if cond.Op == "lss" && cond.Args[1].Op == "len" && (isLoadOf(cond.Args[1].Args[0], a.ps) || isLoadOf(cond.Args[1].Args[0], a.Statements)) {
			return cond.Args[0]
		}
		return nil
	}
	// the condition is that of a loop of its own, not of one nested in the loop over the statements
	ownLoop := func(s *State, b *ssa.BasicBlock) bool {
		ls := c.P.loopsOf(b)
		if len(ls) == 0 || ls[len(ls)-1] != b {
			return false
		}
		for _, h := range ls[:len(ls)-1] {
			if s.A[inLoop] > 0 && hids[h] > 0 && hids[h] == s.A[cur] {
				return false
			}
		}
		return true
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvBranch:
			upd(s)
			if i := loopCond(e.Cond); i != nil && !heads[e.Instr.Block()] && ownLoop(s, e.Instr.Block()) {
				h := hids[e.Instr.Block()]
				if h == 0 {
					h = int16(len(hids) + 1)
					hids[e.Instr.Block()] = h
				}
				if s.A[cur] != h {
					s.A[badClear], s.A[badPrep], s.A[closedAll], s.A[cur] = 0, 0, 0, h
				}
				if e.Taken {
					s.A[inLoop], s.A[hadNil], s.A[stored] = 1, 0, 0
					st := x.T.mk(Val{Op: "load", Args: []*Val{x.T.fieldAddr(x.ArgVal(0), a.Statements)}, T: a.Statements.Type()})
					s.RV[4] = x.T.mk(Val{Op: "load", Args: []*Val{x.T.app("elem", st, i)}})
					s.RV[0] = x.T.app("elem", a.cur(x, s, a.ps), i)
					s.RV[7] = x.Load(s, s.RV[0], nil)
					s.RV[5], s.RV[6] = nil, nil
					upd(s)
				} else {
					if s.A[badClear] == 0 {
						s.A[psClear], s.A[used] = 1, 0
					}
					if s.A[closedAll] == 0 {
						s.A[closedAll] = 1
					}
					if s.A[badPrep] == 0 && s.A[sess] == 2 {
						s.A[prep] = 1
					}
					s.A[inLoop], s.A[badClear], s.A[badPrep], s.A[cur] = 0, 0, 0, 0
					s.RV[0], s.RV[4], s.RV[5], s.RV[6], s.RV[7] = nil, nil, nil, nil, nil
					s.A[hadNil], s.A[stored] = 0, 0
				}
			}
		case EvBlock:
			upd(s)
			// back edge of the loop over statements, not of one nested in it
			if e.Back && s.A[inLoop] > 0 && hids[e.Block] == s.A[cur] && s.A[cur] > 0 {
				endIter(s)
			}
		case EvStore:
			if s.RV[0] != nil && e.Addr == s.RV[0] {
				s.A[stored] = 0
				if s.RV[6] != nil && e.Val == s.RV[6] {
					s.A[stored] = 1
				}
			}
			// another statement's cell: only those that share this one's prepared statement
			if s.RV[0] != nil && e.Addr != s.RV[0] && e.Addr.Op == "elem" && e.Addr.Args[0] == s.RV[0].Args[0] && s.A[inLoop] > 0 && !e.Val.isNil() {
				i, idx, pm := s.RV[0].Args[1], e.Addr.Args[1], a.sfield(x, s.RV[4], a.PrepareMulti)
				var q ineqs
				for f, v := range s.facts {
					q.fact(f, v)
				}
				goal := linear(idx).add(linear(i), -1).add(linear(pm), -1)
				goal.k++
				if !q.proves(goal) {
					r.fail(s, e, "shared too far", "a prepared statement is given to another statement that is not known to be one of the PrepareMulti statements that share it: that one would not be prepared itself")
				}
				shared++
				r.obl(e, "prepared statement shared")
			}
			if e.Addr.Op == "field" && e.Addr.Fld == a.ps {
				if e.Val.Op == "makeslice" && s.A[closedAll] == 1 {
					s.A[psClear], s.A[used] = 1, 0
				}
			}
		case EvCall:
			upd(s)
			switch e.Callee {
			case "(*database/sql.Stmt).Close":
				if s.A[inLoop] == 1 && e.Args[0] == s.RV[7] {
					s.A[inLoop] = 2
				}
				return
			case "(*database/sql.Conn).Close":
				s.RV[3] = e.Args[0]
				if e.Args[0] == s.RV[1] {
					s.A[sess] = 0
				}
				return
			case "(*database/sql.DB).Conn":
				conns++
				old := a.cur(x, s, a.conn)
				if s.A[sess] != 0 || !x.knownNil(s, old) && s.RV[3] != old {
					r2.fail(s, e, "connection not closed", "a new connection is requested although the previous one may still be open")
				}
				if s.A[used] == 1 {
					r2.fail(s, e, "stale prepared statements", "a new connection is requested without having closed and forgotten the prepared statements of the previous one: they would be used instead of being prepared again")
				}
				r2.obl(e, "connection requested")
				return
			}
			op := a.sqlOp(x, e)
			if op == nil {
				return
			}
			conn := a.cur(x, s, a.conn)
			switch op.kind {
			case "session":
				q := op.Query
				isUse := q.find(func(t *Val) bool {
					z, ok := t.constStr()
					return ok && strings.HasPrefix(strings.ToUpper(strings.TrimSpace(z)), "USE")
				}) != nil
				if isUse {
					uses++
					if q.find(func(t *Val) bool { return isLoadOf(t, a.DefaultDb) }) == nil {
						r.fail(s, e, "other database", "the database selected is not the client's default database")
					}
					if e.Args[0] != conn {
						r.fail(s, e, "USE elsewhere", "the default database is not selected on the client's new connection")
					}
					r.obl(e, "USE")
				}
			case "prepare":
				preps++
				s.A[used] = 1
				if e.Args[0] != conn {
					r.fail(s, e, "prepared elsewhere", "the statement is not prepared on the client's new connection")
				}
				r.obl(e, "prepare")
			case "exec", "unknown":
				execs++
				if op.kind == "unknown" {
					r.fail(s, e, "unknown statement", "cannot tell which statement this call executes")
					return
				}
				switch {
				case s.A[sess] == 0:
					r.fail(s, e, "no connection", "a statement is executed without a connection having been obtained")
				case s.A[sess] == 1:
					r.fail(s, e, "connection unknown", "a statement is executed although the connection may not have been obtained")
				}
				if s.A[use] == 0 {
					r.fail(s, e, "default database", "a statement is executed on a new connection without having successfully selected the configured default database")
				}
				if s.A[prep] == 0 {
					r.fail(s, e, "prepared statements", "a statement is executed on a new connection without every prepared statement having been successfully prepared on it")
				}
				s.A[used] = 1
				r.obl(e, "statement execution")
			}
		case EvRet:
			if e.Callee == "(*database/sql.DB).Conn" && len(e.Res) > 0 {
				s.A[sess], s.A[use], s.A[prep] = 1, 0, 0
				s.RV[1], s.RV[2], s.RV[3] = e.Res[0], nil, nil
			}
			if e.Callee == "(*database/sql.Conn).ExecContext" && !e.Inlined && len(e.Args) > 2 && len(e.Res) == 2 {
				q := e.Args[2]
				if q.find(func(t *Val) bool { return isLoadOf(t, a.DefaultDb) }) != nil {
					s.RV[2] = e.Res[1]
				}
			}
			if e.Callee == "(*database/sql.Conn).PrepareContext" && len(e.Res) == 2 {
				ev := *e
				if op := a.sqlOp(x, &ev); op != nil && op.kind == "prepare" && op.S == s.RV[4] {
					s.RV[6], s.RV[5] = e.Res[0], e.Res[1]
				}
			}
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	c.Require(R, execs, 4, "executions")
	c.Require(R, preps, 1, "prepares")
	c.Require(R, uses, 1, "USE executions")
	c.Require(R2, conns, 1, "connection requests")
}
