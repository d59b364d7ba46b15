package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// clientA are the anchors of the client rules: exported API of package client and trx.
type clientA struct {
	Run                                                          *ssa.Function
	DB, Data, DoneChan, Statements, Stats, DefaultDb             *types.Var
	IterExecGroup, IterExecGroupPtr, IterClients, IterClientsPtr *types.Var
	Iter, QPS, TPS, Error, ErrErr, StatementNo                   *types.Var
	Inputs, Outputs, InsertId, TrxBoundary                       *types.Var
	Query, ResultSet, Prepare, Begin, Commit, Write, DDL         *types.Var
	Idle, Limit, PrepareMulti                                    *types.Var
	ps, conn                                                     *types.Var // by type
	errTable                                                     types.Object
	BEGIN, END                                                   int64
}

func clientAnchors(c *Ctx, rule string) *clientA {
	a := &clientA{}
	ok := true
	get := func(rel, typ, f string) *types.Var {
		v := c.P.Field(rel, typ, f)
		if v == nil {
			c.Missing(rule, rel+"."+typ+"."+f)
			ok = false
		}
		return v
	}
	a.Run = c.P.Func("client", "Client", "Run")
	if a.Run == nil {
		c.Missing(rule, "client.Client.Run")
		return nil
	}
	cl := func(f string) *types.Var { return get("client", "Client", f) }
	a.DB, a.Data, a.DoneChan, a.Statements, a.Stats, a.DefaultDb = cl("DB"), cl("Data"), cl("DoneChan"), cl("Statements"), cl("Stats"), cl("DefaultDb")
	a.IterExecGroup, a.IterExecGroupPtr, a.IterClients, a.IterClientsPtr = cl("IterExecGroup"), cl("IterExecGroupPtr"), cl("IterClients"), cl("IterClientsPtr")
	a.Iter, a.QPS, a.TPS, a.Error = cl("Iter"), cl("QPS"), cl("TPS"), cl("Error")
	a.ErrErr, a.StatementNo = get("client", "Error", "Err"), get("client", "Error", "StatementNo")
	sd := func(f string) *types.Var { return get("client", "StatementData", f) }
	a.Inputs, a.Outputs, a.InsertId, a.TrxBoundary = sd("Inputs"), sd("Outputs"), sd("InsertId"), sd("TrxBoundary")
	st := func(f string) *types.Var { return get("trx", "Statement", f) }
	a.Query, a.ResultSet, a.Prepare, a.Begin, a.Commit, a.Write, a.DDL = st("Query"), st("ResultSet"), st("Prepare"), st("Begin"), st("Commit"), st("Write"), st("DDL")
	a.Idle, a.Limit, a.PrepareMulti = st("Idle"), st("Limit"), st("PrepareMulti")
	if n := c.P.Type("client", "Client"); n != nil {
		if u, isS := n.Underlying().(*types.Struct); isS {
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				switch f.Type().String() {
				case "[]*database/sql.Stmt":
					a.ps = f
				case "*database/sql.Conn":
					a.conn = f
				}
			}
		}
	}
	if a.ps == nil {
		c.Missing(rule, "client field of type []*sql.Stmt")
		ok = false
	}
	if a.conn == nil {
		c.Missing(rule, "client field of type *sql.Conn")
		ok = false
	}
	var k1, k2 bool
	a.BEGIN, k1 = constIntOf(c.P, "trx", "BEGIN")
	a.END, k2 = constIntOf(c.P, "trx", "END")
	if !k1 || !k2 {
		c.Missing(rule, "trx.BEGIN/trx.END")
		ok = false
	}
	if !ok {
		return nil
	}
	return a
}

// sqlKind classifies calls of database/sql that talk to MySQL.
func sqlKind(name string) string {
	switch name {
	case "(*database/sql.Conn).QueryContext", "(*database/sql.Conn).ExecContext", "(*database/sql.Conn).QueryRowContext",
		"(*database/sql.DB).Query", "(*database/sql.DB).QueryContext", "(*database/sql.DB).Exec", "(*database/sql.DB).ExecContext",
		"(*database/sql.DB).QueryRow", "(*database/sql.DB).QueryRowContext",
		"(*database/sql.Tx).Query", "(*database/sql.Tx).QueryContext", "(*database/sql.Tx).Exec", "(*database/sql.Tx).ExecContext":
		return "text"
	case "(*database/sql.Stmt).QueryContext", "(*database/sql.Stmt).ExecContext", "(*database/sql.Stmt).Query", "(*database/sql.Stmt).Exec",
		"(*database/sql.Stmt).QueryRow", "(*database/sql.Stmt).QueryRowContext":
		return "stmt"
	case "(*database/sql.Conn).PrepareContext", "(*database/sql.DB).Prepare", "(*database/sql.DB).PrepareContext", "(*database/sql.Tx).Prepare", "(*database/sql.Tx).PrepareContext":
		return "prepare"
	case "(*database/sql.DB).Conn":
		return "conn"
	}
	return ""
}

type sqlOp struct {
	kind  string // "exec" (configured statement), "prepare", "session" (other text), "unknown"
	S     *Val   // trx.Statement the text belongs to
	Idx   *Val   // its index
	Query *Val   // query term (text calls)
	Rows  bool   // returns rows
}

// sqlOp identifies which configured statement a database/sql call executes.
func (a *clientA) sqlOp(x *Exec, e *Event) *sqlOp {
	k := sqlKind(e.Callee)
	if k == "" || k == "conn" || e.Inlined {
		return nil
	}
	op := &sqlOp{kind: "unknown", Rows: strings.Contains(e.Callee, ").Query")}
	switch k {
	case "stmt":
		r := e.Args[0]
		if r.Op == "load" && r.Args[0].Op == "elem" {
			b := r.Args[0].Args[0]
			if f, base := b.loadedField(); f == a.ps {
				op.Idx = r.Args[0].Args[1]
				st := x.T.mk(Val{Op: "load", Args: []*Val{x.T.fieldAddr(base, a.Statements)}, T: a.Statements.Type()})
				op.S = x.T.mk(Val{Op: "load", Args: []*Val{x.T.app("elem", st, op.Idx)}})
				op.kind = "exec"
			}
		}
	case "text", "prepare":
		var q *Val
		for i := 1; i < len(e.Args) && i < 3; i++ {
			if i == 1 && strings.Contains(e.Callee, "Context") {
				continue
			}
			q = e.Args[i]
			break
		}
		if q == nil {
			return op
		}
		op.Query = q
		ql := q.find(func(t *Val) bool { return isLoadOf(t, a.Query) })
		if ql == nil {
			if q.find(func(t *Val) bool { _, ok := t.constStr(); return ok }) != nil {
				op.kind = "session"
			}
			return op
		}
		_, op.S = ql.loadedField()
		if op.S.Op == "load" && op.S.Args[0].Op == "elem" {
			op.Idx = op.S.Args[0].Args[1]
		}
		op.kind = "exec"
		if k == "prepare" {
			op.kind = "prepare"
		}
	}
	return op
}

// sfield is the load of field f of statement S.
func (a *clientA) sfield(x *Exec, S *Val, f *types.Var) *Val {
	return x.T.mk(Val{Op: "load", Args: []*Val{x.T.fieldAddr(S, f)}, T: f.Type()})
}

// cfield is the load of client field f (receiver is Run's first parameter).
func (a *clientA) cfield(x *Exec, f *types.Var) *Val {
	return x.T.mk(Val{Op: "load", Args: []*Val{x.T.fieldAddr(x.ArgVal(0), f)}, T: f.Type()})
}

// cur reads the current value of client field f.
func (a *clientA) cur(x *Exec, s *State, f *types.Var) *Val {
	return x.Load(s, x.T.fieldAddr(x.ArgVal(0), f), f.Type())
}

// dfield is field f of the data of statement number idx.
func (a *clientA) dfield(x *Exec, idx *Val, f *types.Var) *Val {
	d := a.cfield(x, a.Data)
	return x.T.mk(Val{Op: "load", Args: []*Val{x.T.fieldAddr(x.T.app("elem", d, idx), f)}, T: f.Type()})
}

func isStmtExecName(name string, _ *ssa.CallCommon) bool { return sqlKind(name) == "stmt" }
func isSQLName(name string, _ *ssa.CallCommon) bool      { return sqlKind(name) != "" }

// iterHeaders finds loops over the client's statements whose body executes statements:
// entering one from outside starts an iteration.
func (a *clientA) iterHeaders(c *Ctx) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	for fn := range c.P.Reach(a.Run) {
		for _, b := range fn.Blocks {
			body := loopBody(b)
			if body == nil {
				continue
			}
			// smallest loop containing an execution with an induction variable
			has := false
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if isRangeIndex(ph) {
					has = true
				}
			}
			if !has {
				continue
			}
			ex := false
			for bb := range body {
				for _, in := range bb.Instrs {
					if c.P.instrReaches(in, isStmtExecName) {
						ex = true
					}
				}
			}
			if ex {
				out[b] = true
			}
		}
	}
	return out
}

func (c *Ctx) newClientExec(a *clientA, interesting func(in ssa.Instruction) bool) *Exec {
	x := NewExec(c.P, a.Run)
	x.Inline = c.P.inlineInstr(interesting)
	return x
}

// finish reports an undecided exploration and counts.
func (c *Ctx) finish(rule string, x *Exec) {
	if x.Debug {
		x.DumpSamples()
	}
	if x.Undecided != "" {
		c.Fail(rule, "undecided:"+x.Root.Name(), x.Root.Pos(), x.Undecided)
	}
	c.Fn(x.Root)
	for f := range x.inlined {
		c.Fn(f)
	}
	c.Count("abstract_steps", x.Steps)
	c.Count("abstract_states_at_joins", len(x.visited))
	c.Count("branch_forks", x.Forks)
	c.Count("path_ends", x.Paths)
}

// siteName is a stable construct name for an event.
func siteName(e *Event, what string) string {
	f := e.Fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	return shortFn(f) + ":" + what
}

type pathRule struct {
	c    *Ctx
	x    *Exec
	rule string
	n    map[string]bool
	mute bool // first of two passes: only learning
}

func (r *pathRule) fail(s *State, e *Event, what, msg string) {
	if r.mute {
		return
	}
	n := 14
	if r.x.Debug {
		n = 60
		fmt.Println(what, r.x.render(s))
	}
	r.c.Fail(r.rule, siteName(e, what), e.Pos(), msg, r.x.TraceStr(s, n)...)
}

// obl counts a decided event once per (site, key).
func (r *pathRule) obl(e *Event, key string) {
	k := fmt.Sprintf("%p|%s", e.Instr, key)
	if r.n[k] {
		return
	}
	r.n[k] = true
	r.c.Obl(r.rule, r.c.P.Pos(e.Pos())+" "+key)
}

func (c *Ctx) pathRule(rule string, x *Exec) *pathRule {
	return &pathRule{c: c, x: x, rule: rule, n: map[string]bool{}}
}

func intCall(names ...string) func(in ssa.Instruction) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := calleeName(c.Common())
		return m[n] || sqlKind(n) == "stmt" || sqlKind(n) == "text" || strings.HasPrefix(n, "(*database/sql.Rows).")
	}
}

func isRecvInstr(in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.Select:
		return true
	case *ssa.UnOp:
		return i.Op == token.ARROW
	}
	return false
}

func init() {
	rules["C02"] = ruleC02
	rules["C03"] = ruleC03
}

// ---------------------------------------------------------------------------
// C02

func ruleC02(c *Ctx) {
	const R = "permit-before-statement"
	c.Rule(R, "On every path of Client.Run, between two executed statements each non-nil permit channel is received from exactly as required: one QPS permit per executed statement, one TPS permit per statement known to be a BEGIN, none for idle statements; no path reaches an execution without it.")
	a := clientAnchors(c, R)
	if a == nil {
		return
	}
	isExec := intCall()
	x := c.newClientExec(a, func(in ssa.Instruction) bool { return isExec(in) || isRecvInstr(in) })
	x.Forget = func(v *Val) bool { return true }
	x.Keep = keepFacts(false, a.QPS, a.TPS, a.Begin, a.Idle)
	r := c.pathRule(R, x)
	execs := 0
	const q, t = 0, 1 // permits held
	x.Hook = func(x *Exec, s *State, e *Event) {
		ch := e.Chan
		switch e.Kind {
		case EvRecv, EvSelect:
			if ch == nil || e.Kind == EvSelect && (e.Case < 0 || e.Dir == types.SendOnly) {
				return
			}
			idle := a.idleKnown(x, s)
			if isLoadOf(ch, a.QPS) {
				if s.A[q] > 0 {
					r.fail(s, e, "QPS twice", "a second QPS permit is taken before the statement is executed")
				}
				if idle {
					r.fail(s, e, "QPS idle", "a QPS permit is taken for an idle statement")
				}
				s.A[q] = 1
				r.obl(e, "QPS permit received")
			}
			if isLoadOf(ch, a.TPS) {
				if s.A[t] > 0 {
					r.fail(s, e, "TPS twice", "a second TPS permit is taken before the statement is executed")
				}
				s.A[t] = 1
				s.RV[0] = nil
				for f, v := range s.facts {
					if v && isLoadOf(f, a.Begin) {
						_, s.RV[0] = f.loadedField()
					}
				}
				if s.RV[0] == nil {
					r.fail(s, e, "TPS not begin", "a TPS permit is taken although the statement is not known to begin a transaction")
				}
				if idle {
					r.fail(s, e, "TPS idle", "a TPS permit is taken for an idle statement")
				}
				r.obl(e, "TPS permit received")
			}
		case EvBranch:
			if a.idleKnown(x, s) && (s.A[q] > 0 || s.A[t] > 0) {
				r.fail(s, e, "permit before idle", "a permit is taken before the statement turns out to be an idle statement")
			}
		case EvCall:
			op := a.sqlOp(x, e)
			if op == nil || op.kind == "session" || op.kind == "prepare" {
				return
			}
			if op.kind == "unknown" {
				r.fail(s, e, "unknown statement", "cannot tell which statement this call executes")
				return
			}
			execs++
			qn, qk := x.IsNil(s, a.cfield(x, a.QPS))
			switch {
			case qk && qn:
			case s.A[q] == 1:
			case qk:
				r.fail(s, e, "exec without QPS", "a statement is executed without a QPS permit although a QPS limit is configured")
			default:
				r.fail(s, e, "exec without QPS", "a statement is executed without checking whether a QPS limit is configured")
			}
			if qk && qn && s.A[q] > 0 {
				r.fail(s, e, "QPS nil", "permit from nil channel")
			}
			r.obl(e, "QPS before execution")
			tn, tk := x.IsNil(s, a.cfield(x, a.TPS))
			b, bk := x.Ask(s, a.sfield(x, op.S, a.Begin))
			switch {
			case tk && tn, bk && !b:
				if s.A[t] > 0 {
					r.fail(s, e, "TPS extra", "a TPS permit is used up by a statement that does not begin a transaction")
				}
			case s.A[t] == 1 && s.RV[0] == op.S:
			case s.A[t] == 1:
				r.fail(s, e, "TPS other statement", "the TPS permit was taken for a different statement than the one executed")
			default:
				r.fail(s, e, "exec without TPS", "a statement that may begin a transaction is executed without a TPS permit although a TPS limit may be configured")
			}
			r.obl(e, "TPS before execution")
			s.A[q], s.A[t] = 0, 0
			s.RV[0] = nil
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	c.Require(R, execs, 4, "statement executions")
}

// idleKnown: some statement of the client is known to be idle on this path.
func (a *clientA) idleKnown(x *Exec, s *State) bool {
	for f, v := range s.facts {
		if !v && f.Op == "eq" && isLoadOf(f.Args[0], a.Idle) {
			if n, ok := f.Args[1].constInt(); ok && n == 0 {
				return true
			}
		}
		if v && f.Op == "lss" && isLoadOf(f.Args[1], a.Idle) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// C03

func ruleC03(c *Ctx) {
	const R = "limit-before-iteration"
	c.Rule(R, "Every path of Client.Run that starts an iteration (enters the statement loop from outside) has, since the previous iteration started, atomically added exactly 1 to each configured shared counter and seen the result not exceed the limit, and has seen the per-client count differ from its limit and incremented it by 1; an unconfigured limit (0) needs nothing.")
	a := clientAnchors(c, R)
	if a == nil {
		return
	}
	heads := a.iterHeaders(c)
	isExec := intCall("sync/atomic.AddUint32")
	x := c.newClientExec(a, isExec)
	x.BlockEvents = true
	x.Forget = func(v *Val) bool { return true }
	x.Keep = keepFacts(false, a.IterExecGroup, a.IterClients, a.Iter)
	const R2 = "stops-only-at-limit"
	c.Rule(R2, "A client that ends between counting an iteration and starting it does so knowing that the counter of a shared limit went over the limit or that its own count reached its limit.")
	r, r2 := c.pathRule(R, x), c.pathRule(R2, x)
	starts := 0
	reached := func(s *State) {
		iter := a.cfield(x, a.Iter)
		why := false
		for k, lim := range []*types.Var{a.IterExecGroup, a.IterClients} {
			if s.RV[k] != nil {
				if over, known := x.Ask(s, x.T.lss(a.cfield(x, lim), s.RV[k], nil)); known && over {
					why = true
				}
			}
		}
		for f, v := range s.facts {
			if !v && f.Op == "eq" && f.Args[1].isNil() && f.find(func(t *Val) bool { return strings.Contains(t.Name, "context.Context.Err") }) != nil {
				why = true // the run ended
			}
			for k := range f.Args {
				if len(f.Args) == 2 && f.Args[k] == iter && f.Args[1-k].Op != "bin+" && f.Args[1-k].Op != "bin-" && (f.Op == "eq" && v || f.Op == "lss" && k == 1 && !v) {
					why = true
				}
			}
		}
		if why {
			s.A[5] = 1
		}
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			if e.Callee == "sync/atomic.AddUint32" || e.Callee == "(*sync/atomic.Uint32).Add" {
				k := -1
				if e.Args[0].find(func(t *Val) bool { return t.Fld == a.IterExecGroupPtr }) != nil {
					k = 0
				}
				if e.Args[0].find(func(t *Val) bool { return t.Fld == a.IterClientsPtr }) != nil {
					k = 1
				}
				if k >= 0 {
					if n, ok := e.Args[1].constInt(); !ok || n != 1 {
						r.fail(s, e, "delta", "the shared iteration counter is not advanced by exactly 1")
					}
					s.RV[k] = e.Res[0]
					r.obl(e, fmt.Sprintf("shared counter %d incremented", k))
				}
			}
		case EvBranch:
			// per-client counter compared with its limit
			f := e.Cond
			tk := e.Taken
			if f.Op == "not" {
				f, tk = f.Args[0], !tk
			}
			iter := a.cfield(x, a.Iter)
			if f.find(func(t *Val) bool { return t == iter }) != nil {
				s.A[4] = 1
			}
			reached(s)
			if f.Op == "eq" && !tk || f.Op == "lss" && tk && f.Args[1] == iter {
				if f.Args[0] == iter && !f.Args[1].isConst() {
					s.RV[2], s.A[3] = f.Args[1], 0
				} else if f.Args[1] == iter && !f.Args[0].isConst() {
					s.RV[2], s.A[3] = f.Args[0], 0
				}
			}
		case EvStore:
			if e.Addr.Op != "elem" && e.Addr.Op != "field" && e.Addr.Op != "alloc" {
				return
			}
			cur0 := x.Load(s, e.Addr, types.Typ[types.Uint])
			if s.RV[2] == nil && cur0 != nil && cur0.isConst() && cur0.C != nil {
				// first iteration: the count is still a known constant
				if v, ok := x.Ask(s, x.T.eq(cur0, a.cfield(x, a.Iter))); ok && !v {
					s.RV[2], s.A[3] = cur0, 0
				}
			}
			if s.RV[2] != nil {
				if st, ok := e.Instr.(*ssa.Store); ok {
					if b, ok := st.Val.(*ssa.BinOp); ok && b.Op == token.ADD {
						if cur0 == s.RV[2] || x.oldOf(cur0, s.RV[2]) {
							if n, ok := x.val(s, s.top(), b.Y).constInt(); ok && n == 1 {
								s.A[3] = 1
							} else {
								s.A[3] = 2
							}
						}
					}
				}
			}
		case EvReturn:
			if s.A[4] == 0 && s.RV[0] == nil && s.RV[1] == nil {
				return // not between counting and starting an iteration
			}
			if s.A[5] == 0 {
				r2.fail(s, e, "stops early", "the client ends instead of starting an iteration although no iteration limit is known to be reached")
			}
			r2.obl(e, "ends at a limit")
		case EvBlock:
			if !heads[e.Block] || e.Back {
				return
			}
			starts++
			ev := &Event{Instr: e.Block.Instrs[len(e.Block.Instrs)-1], Fn: e.Fn}
			for _, p := range e.Block.Instrs {
				if p.Pos().IsValid() {
					ev.Instr = p
				}
			}
			for k, lim := range []*types.Var{a.IterExecGroup, a.IterClients} {
				l := a.cfield(x, lim)
				if z, ok := x.Ask(s, x.T.eq(l, x.T.intv(0))); ok && z {
					continue
				}
				ok := false
				if s.RV[k] != nil {
					over, known := x.Ask(s, x.T.lss(l, s.RV[k], nil))
					ok = known && !over
				}
				if !ok {
					r.fail(s, ev, "iteration without "+lim.Name(), "an iteration can start without having counted itself against limit "+lim.Name()+" and found it not exceeded")
				}
				r.obl(ev, "iteration start checks "+lim.Name())
			}
			iter := a.cfield(x, a.Iter)
			if z, ok := x.Ask(s, x.T.eq(iter, x.T.intv(0))); !(ok && z) {
				if s.RV[2] == nil {
					r.fail(s, ev, "iteration without Iter", "an iteration can start without having compared its count with limit Iter")
				} else if s.A[3] != 1 {
					r.fail(s, ev, "iteration not counted", "an iteration can start without having advanced the per-client count compared with limit Iter by exactly 1")
				}
			}
			r.obl(ev, "iteration start checks Iter")
			s.RV[0], s.RV[1], s.RV[2], s.A[3], s.A[4], s.A[5] = nil, nil, nil, 0, 0, 0
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	c.Require(R, starts, 1, "iteration starts")
}

// oldOf: cur is the aged name of v (or v was aged to cur).
func (x *Exec) oldOf(cur, v *Val) bool {
	return cur != nil && v != nil && (cur.Name == "old:"+fmt.Sprintf("%s@%d", v.String(), v.id))
}
