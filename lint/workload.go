package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C14"] = ruleC14
	rules["C15"] = ruleC15
}

const (
	limitPkg    = modPath + "/limit"
	newRateFn   = limitPkg + ".NewRate"
	andFn       = limitPkg + ".And"
	rateAllow   = "invoke " + limitPkg + ".Rate.Allow"
	uintFn      = modPath + ".Uint"
	scopeCopyFn = "(*" + modPath + "/data.Scope).Copy"
)

// allocA holds the anchors of workload allocation.
type allocA struct {
	c                                    *Ctx
	fn                                   *ssa.Function
	workload, trxSet, stageQPS, stageTPS *types.Var
	cg                                   map[string]*types.Var      // config.ClientGroup
	cl                                   map[string]*types.Var      // client.Client
	sd                                   map[string]*types.Var      // client.StatementData
	st                                   map[string]*types.Var      // trx.Statement
	ts                                   map[string]*types.Var      // trx.Set
	wg                                   map[string]*types.Var      // workload.ClientGroup
	al                                   map[string]*types.Var      // workload.Allocator
	rl                                   map[string]*types.Var      // finch.RunLevel
	role                                 map[*ssa.BasicBlock]string // K clients, C groups, E exec groups, T trx, S statements
}

func (c *Ctx) fieldsOf(rule, rel, typ string, names ...string) map[string]*types.Var {
	m := map[string]*types.Var{}
	for _, n := range names {
		f := c.P.Field(rel, typ, n)
		if f == nil {
			c.Missing(rule, rel+"."+typ+"."+n)
		}
		m[n] = f
	}
	return m
}

func allocAnchors(c *Ctx, rule string) *allocA {
	a := &allocA{c: c, role: map[*ssa.BasicBlock]string{}}
	a.fn = c.P.Func("workload", "Allocator", "Clients")
	if a.fn == nil {
		c.Missing(rule, "workload.Allocator.Clients")
		return nil
	}
	a.cg = c.fieldsOf(rule, "config", "ClientGroup", "Clients", "Db", "Iter", "IterClients", "IterExecGroup", "DisableStats", "Group", "QPS", "QPSClients", "QPSExecGroup", "Runtime", "TPS", "TPSClients", "TPSExecGroup", "Trx")
	a.cl = c.fieldsOf(rule, "client", "Client", "RunLevel", "DB", "DefaultDb", "DoneChan", "Iter", "IterClients", "IterClientsPtr", "IterExecGroup", "IterExecGroupPtr", "QPS", "TPS", "Stats", "Statements", "Data")
	a.sd = c.fieldsOf(rule, "client", "StatementData", "Inputs", "Outputs", "InsertId", "TrxBoundary")
	a.st = c.fieldsOf(rule, "trx", "Statement", "Inputs", "Outputs", "InsertId", "Calls", "Limit")
	a.ts = c.fieldsOf(rule, "trx", "Set", "Statements", "Data")
	a.wg = c.fieldsOf(rule, "workload", "ClientGroup", "Clients", "Runtime", "DataLimit")
	a.al = c.fieldsOf(rule, "workload", "Allocator", "Workload", "TrxSet", "StageQPS", "StageTPS", "DoneChan", "Stage", "StageName")
	a.rl = c.fieldsOf(rule, "", "RunLevel", "Stage", "ExecGroup", "ClientGroup", "Client", "Trx", "TrxName", "Query")
	a.workload, a.trxSet, a.stageQPS, a.stageTPS = a.al["Workload"], a.al["TrxSet"], a.al["StageQPS"], a.al["StageTPS"]
	for _, v := range []map[string]*types.Var{a.cg, a.cl, a.sd, a.st, a.ts, a.wg, a.al, a.rl} {
		for _, f := range v {
			if f == nil {
				return nil
			}
		}
	}
	return a
}

// cgElem recognises a field of an element of Allocator.Workload: the field and the index.
func (a *allocA) cgElem(x *Exec, v *Val) (*types.Var, *Val) {
	if v == nil {
		return nil, nil
	}
	f, b := v.loadedField()
	if f == nil || b.Op != "elem" {
		return nil, nil
	}
	if !a.isGroups(b.Args[0]) {
		return nil, nil
	}
	return f, b.Args[1]
}

// isGroups: the client groups of the stage, configured or assigned automatically.
func (a *allocA) isGroups(v *Val) bool { return v.Op == "autogroups" || isLoadOf(v, a.workload) }

// uintOf recognises finch.Uint(Workload[i].F).
func (a *allocA) uintOf(x *Exec, v *Val) (*types.Var, *Val) {
	if v == nil || v.Op != "uint" {
		return nil, nil
	}
	return a.cgElem(x, v.Args[0])
}

// cgSlice: groups[e] for an index loaded from groups[e][i]; i too.
func cgSlice(idx *Val) (slice, i *Val) {
	if idx == nil || idx.Op != "load" || idx.Args[0].Op != "elem" {
		return nil, nil
	}
	return idx.Args[0].Args[0], idx.Args[0].Args[1]
}

func leavesOfRate(v *Val) []*Val {
	if v.isNil() {
		return nil
	}
	if v.Op == "rates" {
		return v.Args
	}
	return []*Val{v}
}

func (a *allocA) rates(x *Exec, vs ...*Val) *Val {
	m := map[*Val]bool{}
	var out []*Val
	for _, v := range vs {
		for _, l := range leavesOfRate(v) {
			if !m[l] {
				m[l] = true
				out = append(out, l)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) == 0 {
		return x.T.nilv()
	}
	return x.T.mk(Val{Op: "rates", Args: out})
}

// zeroLimit: the path decided that the setting is zero, or that its limiter is nil.
func (a *allocA) zeroLimit(x *Exec, s *State, fld *types.Var) bool {
	of := func(v *Val) bool { f, _ := a.uintOf(x, v); return f == fld }
	num := func(v *Val, n int64) bool { k, ok := v.constInt(); return ok && k == n }
	for f, t := range s.facts {
		if len(f.Args) != 2 {
			continue
		}
		l, r := f.Args[0], f.Args[1]
		switch {
		case f.Op == "eq" && t:
			if of(l) && num(r, 0) || of(r) && num(l, 0) {
				return true
			}
			if l.isNil() {
				l, r = r, l
			}
			if l.Op == "rate" && r.isNil() && of(l.Args[0]) {
				return true
			}
		case f.Op == "lss" && !t && num(l, 0) && of(r), f.Op == "lss" && t && of(l) && num(r, 1):
			return true
		}
	}
	return false
}

// newRate is a limiter made here from the given rate.
func (a *allocA) newRate(x *Exec, s *State, v *Val) *Val {
	return x.T.mk(Val{Op: "rate", Name: pathKey(x.LoopPath(s)), Args: []*Val{v}})
}

// newExec prepares the exploration of Allocator.Clients.
func (a *allocA) newExec(c *Ctx) *Exec {
	x := NewExec(c.P, a.fn)
	x.BlockEvents, x.AllocEvents, x.MaxTerm = true, true, 120
	x.Inline = func(fn *ssa.Function) bool {
		return fnPkgPath(fn) == modPath+"/workload"
	}
	x.Model = func(x *Exec, s *State, e *Event) []*Val {
		switch e.Callee {
		case uintFn:
			v := x.T.mk(Val{Op: "uint", Args: []*Val{e.Args[0]}, T: types.Typ[types.Uint]})
			return []*Val{v}
		case "(*" + modPath + "/workload.Allocator).AutoAssign":
			return []*Val{x.T.mk(Val{Op: "autogroups"})}
		case newRateFn:
			return []*Val{a.newRate(x, s, e.Args[0])}
		case andFn:
			return []*Val{a.rates(x, e.Args[0], e.Args[1])}
		case rateAllow:
			return []*Val{x.T.mk(Val{Op: "allow", Args: []*Val{a.rates(x, e.Args[0])}})}
		case "time.ParseDuration":
			return []*Val{x.T.mk(Val{Op: "duration", Args: []*Val{e.Args[0]}}), x.symFor(s, s.top(), e.Instr.(ssa.CallInstruction), "parseerr", nil)}
		case scopeCopyFn:
			if len(e.Args) == 3 {
				return []*Val{x.T.mk(Val{Op: "gen", Args: []*Val{e.Args[0], e.Args[1]}, T: e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type()})}
			}
		case modPath + "/stats.NewTrx":
			return []*Val{x.T.mk(Val{Op: "newtrx", Args: []*Val{e.Args[0]}})}
		case modPath + "/dbconn.Make":
			sig := e.Instr.(ssa.CallInstruction).Common().Signature()
			return []*Val{x.T.mk(Val{Op: "dbmake", Name: pathKey(x.LoopPath(s))}), x.symFor(s, s.top(), e.Instr.(ssa.CallInstruction), "dsn", nil), x.symFor(s, s.top(), e.Instr.(ssa.CallInstruction), "dberr", sig.Results().At(2).Type())}
		}
		return nil
	}
	return x
}

func hasUint(f *Val) bool {
	return f.find(func(t *Val) bool { return t.Op == "uint" || t.Op == "rates" || t.Op == "rate" }) != nil
}

// isClientElem: an address of an element of a []*client.Client.
func isClientPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(p.Elem(), modPath+"/client", "Client")
}

// clientStored reports the client stored in a slice of clients by this event, with the slice.
func clientStored(e *Event) (*Val, *Val) {
	switch e.Kind {
	case EvStore:
		st, ok := e.Instr.(*ssa.Store)
		if ok && isClientPtr(st.Val.Type()) && e.Addr.Op == "elem" {
			return e.Val, e.Addr
		}
	case EvCall:
		if e.Callee == "builtin append" && len(e.Args) == 2 {
			if ci, ok := e.Instr.(ssa.CallInstruction); ok {
				if sl, ok := ci.Common().Args[0].Type().Underlying().(*types.Slice); ok && isClientPtr(sl.Elem()) {
					return e.Args[1], nil
				}
			}
		}
	}
	return nil, nil
}

func prefixKeys(l []loopRef) []string {
	var out []string
	for i := 0; i <= len(l); i++ {
		out = append(out, pathKey(l[:i]))
	}
	return out
}

func ruleC14(c *Ctx) {
	const R = "limit-levels"
	c.Rule(R, "On every path of Allocator.Clients: the QPS (TPS) permit channel of each client combines the stage limit with a limiter made from the QPS (TPS) exec-group, clients and own setting of its client group, each present unless its setting is zero; the exec-group limiter is made once per execution group, the clients limiter once per client group, the own limiter once per client. Shared iteration counters are one variable per execution group / client group, paired with the limit from the same setting.")
	const S = "stage-limits"
	c.Rule(S, "Stage.Prepare hands the allocator one QPS and one TPS limiter made from the stage's qps and tps settings.")
	a := allocAnchors(c, R)
	if a == nil {
		return
	}
	c.Fn(a.fn)
	x := a.newExec(c)
	x.Keep = hasUint
	x.Forget = func(v *Val) bool { return !hasUint(v) }
	x.Untrack = func(ad *Val) bool {
		t := rootOf(ad).T
		if t == nil {
			return false
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			return true
		}
		if isNamed(deref(t), modPath, "RunLevel") {
			return true
		}
		return ad.Op == "field" && ad.Fld != nil && isNamed(ad.Fld.Type(), modPath, "RunLevel")
	}
	r := c.pathRule(R, x)
	nStore, nCheck := 0, 0
	cellLevel := map[*Val]int{} // uint32 variables by the loop they are created in
	type lvl struct {
		f    *types.Var
		n    int // number of enclosing loops where it must be made
		name string
	}
	qps := []lvl{{a.cg["QPSExecGroup"], 1, "qps-exec-group"}, {a.cg["QPSClients"], 2, "qps-clients"}, {a.cg["QPS"], 3, "qps"}}
	tps := []lvl{{a.cg["TPSExecGroup"], 1, "tps-exec-group"}, {a.cg["TPSClients"], 2, "tps-clients"}, {a.cg["TPS"], 3, "tps"}}
	recv := func() *Val { return x.ArgVal(0) }
	// RV 0: client, A0: client stored this round
	var checkRates func(s *State, e *Event, cl *Val, fld, stage *types.Var, want []lvl, levels []string, what string)
	checkRates = func(s *State, e *Event, cl *Val, fld, stage *types.Var, want []lvl, levels []string, what string) {
		v := x.Load(s, x.T.fieldAddr(cl, fld), fld.Type())
		ownCG, _ := a.cgElem(x, x.Load(s, x.T.fieldAddr(cl, a.cl["DefaultDb"]), types.Typ[types.String]))
		var ownIdx *Val
		if ownCG != nil {
			_, ownIdx = a.cgElem(x, x.Load(s, x.T.fieldAddr(cl, a.cl["DefaultDb"]), types.Typ[types.String]))
		}
		check := func(set *Val, absent bool) string {
			got := map[*types.Var]*Val{}
			hasStage := false
			for _, l := range leavesOfRate(set) {
				if isLoadOf(l, stage) && l.Args[0].Args[0] == recv() {
					hasStage = true
					continue
				}
				if l.Op != "rate" {
					return "has a limiter of unknown origin"
				}
				f, idx := a.uintOf(x, l.Args[0])
				if f == nil {
					return "has a limiter of unknown setting"
				}
				var w *lvl
				for i := range want {
					if want[i].f == f {
						w = &want[i]
					}
				}
				if w == nil {
					return "includes a limiter made from setting " + f.Name()
				}
				if got[f] != nil {
					return "includes two limiters for " + w.name
				}
				got[f] = l
				if l.Name != levels[w.n] {
					return "has a limiter for " + w.name + " that is not made once per " + []string{"", "execution group", "client group", "client"}[w.n]
				}
				if w.n >= 2 {
					if ownIdx != nil && idx != ownIdx {
						return "has a limiter for " + w.name + " made from another client group"
					}
				} else if ownIdx != nil {
					s1, _ := cgSlice(idx)
					s2, _ := cgSlice(ownIdx)
					if s1 == nil || s1 != s2 {
						return "has a limiter for " + w.name + " made from another execution group"
					}
				}
			}
			if !hasStage {
				if isnil, ok := x.IsNil(s, x.T.mk(Val{Op: "load", Args: []*Val{x.T.fieldAddr(recv(), stage)}})); !ok || !isnil {
					return "lacks the stage limit"
				}
			}
			for _, w := range want {
				if got[w.f] != nil {
					continue
				}
				zero := a.zeroLimit(x, s, w.f)
				if !zero {
					return "lacks the limit " + w.name
				}
			}
			return ""
		}
		nCheck++
		r.obl(e, what+" permit channel combines all its limits")
		switch {
		case v.Op == "allow":
			if why := check(v.Args[0], false); why != "" {
				r.fail(s, e, what+" limit", "the client's "+what+" limit "+why)
			}
		case v.isNil():
			// right only if the complete combination is known to be nil
			var nils []*Val
			for f, t := range s.facts {
				if f.Op == "eq" && t && (f.Args[0].isNil() || f.Args[1].isNil()) {
					o := f.Args[0]
					if o.isNil() {
						o = f.Args[1]
					}
					for _, l := range leavesOfRate(o) {
						in := isLoadOf(l, stage)
						if l.Op == "rate" {
							fl, _ := a.uintOf(x, l.Args[0])
							for _, w := range want {
								in = in || fl != nil && w.f == fl
							}
						}
						if in {
							nils = append(nils, l)
						}
					}
				}
			}
			why := check(a.rates(x, nils...), true)
			if why != "" {
				why = "is not set although a limit may be configured: the combination known to be absent " + why
			}
			if why != "" {
				r.fail(s, e, what+" limit", "the client's "+what+" limit "+why)
			}
		default:
			r.fail(s, e, what+" limit", "the client's "+what+" limit has unknown origin")
		}
	}
	iterCheck := func(s *State, e *Event, cl *Val, limF, ptrF, cfgF *types.Var, n int, levels []string, what string) {
		lim := x.Load(s, x.T.fieldAddr(cl, limF), limF.Type())
		ptr := x.Load(s, x.T.fieldAddr(cl, ptrF), ptrF.Type())
		if lim.Op == "conv" {
			lim = lim.Args[0]
		}
		r.obl(e, what+" counter")
		f, _ := a.uintOf(x, lim)
		if f == cfgF {
			if ptr.isNil() {
				r.fail(s, e, what+" counter", "a client has the "+what+" limit but no shared counter")
				return
			}
			if ptr.Op == "alloc" {
				if cellLevel[ptr] != n {
					r.fail(s, e, what+" counter", "the counter of the "+what+" limit is not one variable per "+[]string{"", "execution group", "client group"}[n])
				}
			} else {
				r.fail(s, e, what+" counter", "the counter of the "+what+" limit has unknown origin")
			}
			return
		}
		if k, ok := lim.constInt(); ok && k == 0 {
			if a.zeroLimit(x, s, cfgF) {
				return
			}
			r.fail(s, e, what+" limit", "the "+what+" limit of a client is not set although it may be configured")
			return
		}
		r.fail(s, e, what+" limit", "the "+what+" limit of a client does not come from its setting")
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvAlloc:
			al := e.Instr.(*ssa.Alloc)
			if b, ok := deref(al.Type()).Underlying().(*types.Basic); ok && b.Kind() == types.Uint32 {
				// remember counters by level
				cellLevel[e.Addr] = len(x.LoopPath(s))
			}
		case EvStore, EvCall:
			cl, _ := clientStored(e)
			if cl == nil {
				return
			}
			nStore++
			s.RV[0] = cl
			lp := x.LoopPath(s)
			if len(lp) != 3 {
				r.fail(s, e, "client loops", fmt.Sprintf("a client is created inside %d loops, expected execution groups, client groups and clients", len(lp)))
				return
			}
			a.role[lp[2].h] = "K"
		case EvBlock:
			if !e.Back || a.role[e.Block] != "K" || s.RV[0] == nil {
				return
			}
			ev := &Event{Fn: e.Fn, Instr: blockInstr(e.Block)}
			lp := x.LoopPath(s)
			levels := prefixKeys(lp)
			if len(levels) < 4 {
				return
			}
			cl := s.RV[0]
			checkRates(s, ev, cl, a.cl["QPS"], a.stageQPS, qps, levels, "QPS")
			checkRates(s, ev, cl, a.cl["TPS"], a.stageTPS, tps, levels, "TPS")
			iterCheck(s, ev, cl, a.cl["IterExecGroup"], a.cl["IterExecGroupPtr"], a.cg["IterExecGroup"], 1, levels, "iter-exec-group")
			iterCheck(s, ev, cl, a.cl["IterClients"], a.cl["IterClientsPtr"], a.cg["IterClients"], 2, levels, "iter-clients")
			if f, _ := a.uintOf(x, x.Load(s, x.T.fieldAddr(cl, a.cl["Iter"]), a.cl["Iter"].Type())); f != a.cg["Iter"] {
				r.fail(s, ev, "iter limit", "the iteration limit of a client does not come from its setting")
			}
			s.RV[0] = nil
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	c.Require(R, nStore, 1, "clients stored on paths")
	c.Require(R, nCheck, 2, "permit channels checked")

	// the stage's own limiters
	prep := c.P.Func("stage", "Stage", "Prepare")
	if prep == nil {
		c.Missing(S, "stage.Stage.Prepare")
		return
	}
	c.Fn(prep)
	cfgN := map[string]*types.Var{"StageQPS": c.P.Field("config", "Stage", "QPS"), "StageTPS": c.P.Field("config", "Stage", "TPS")}
	y := NewExec(c.P, prep)
	y.Inline = c.P.inlineIf(func(n string, _ *ssa.CallCommon) bool {
		return n == newRateFn || n == "(*"+modPath+"/workload.Allocator).Clients"
	})
	in0 := y.Inline
	y.Inline = func(fn *ssa.Function) bool { return fnPkgPath(fn) == modPath+"/stage" && in0(fn) }
	y.Model = a.newExec(c).Model
	y.Keep = hasUint
	rs := c.pathRule(S, y)
	n := 0
	flds := []*types.Var{a.stageQPS, a.stageTPS}
	cfgF := []*types.Var{cfgN["StageQPS"], cfgN["StageTPS"]}
	y.Hook = func(x *Exec, s *State, e *Event) {
		switch {
		case e.Kind == EvStore && e.Addr.Op == "field":
			for i, f := range flds {
				if e.Addr.Fld != f {
					continue
				}
				rs.obl(e, f.Name())
				s.A[i] = 1
				if e.Val.Op == "rate" && e.Val.Args[0].Op == "uint" && isLoadOf(e.Val.Args[0].Args[0], cfgF[i]) {
					continue
				}
				if e.Val.isNil() {
					s.A[i] = 0
					continue
				}
				rs.fail(s, e, f.Name(), "the stage's "+strings.TrimPrefix(f.Name(), "Stage")+" limiter is not made from its setting")
			}
		case e.Kind == EvCall && e.Callee == "(*"+modPath+"/workload.Allocator).Clients":
			n++
			for i, f := range flds {
				if s.A[i] == 1 {
					continue
				}
				zero := false
				for ft, t := range s.facts {
					if ft.Op == "eq" && t && ft.find(func(t *Val) bool { return t.Op == "uint" && isLoadOf(t.Args[0], cfgF[i]) }) != nil {
						zero = true
					}
				}
				if !zero {
					rs.fail(s, e, f.Name(), "the allocator gets no "+f.Name()+" although the stage may have one configured")
				}
			}
		}
	}
	y.Run(nil, nil)
	c.finish(S, y)
	c.Require(S, n, 1, "allocations of clients in Stage.Prepare")
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && (fieldOf(fa) == a.stageQPS || fieldOf(fa) == a.stageTPS) && fnPkgPath(fn) != modPath+"/stage" {
						c.Fail(S, shortFn(fn)+":"+fieldOf(fa).Name(), st.Pos(), "the stage's limiter is replaced after Stage.Prepare made it")
					}
				}
			}
		}
	}
}

// loopVal is one loop on the stack with its frame.
type loopVal struct {
	fr *Frame
	h  *ssa.BasicBlock
}

func (x *Exec) LoopVals(s *State) []loopVal {
	var out []loopVal
	for _, f := range s.frames {
		for _, h := range x.P.loopsOf(f.block) {
			out = append(out, loopVal{f, h})
		}
	}
	return out
}

// boundVal is the slice whose length bounds a loop, or the bound itself.
func (x *Exec) boundVal(s *State, fr *Frame, b ssa.Value) *Val {
	v := x.val(s, fr, b)
	if v.Op == "len" {
		return v.Args[0]
	}
	if sl := isLen(b); sl != nil {
		w := x.val(s, fr, sl)
		if strings.HasPrefix(w.Name, "undef") { // dead after the loop header: read again
			if u, ok := sl.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					return x.Load(s, x.T.fieldAddr(x.val(s, fr, fa.X), fieldOf(fa)), u.Type())
				}
			}
		}
		return w
	}
	return v
}

// countedLoop recognises "for i = 0; i < n; i++" left only at the end, by a panic or by an
// error: it returns the bound and the counter.
func countedLoop(h *ssa.BasicBlock) (bound, idx ssa.Value) {
	body := loopBody(h)
	if body == nil {
		return nil, nil
	}
	for b := range body {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if !body[s] && !errorExit(s, map[*ssa.BasicBlock]bool{}) {
				return nil, nil
			}
		}
	}
	return loopBound(h)
}

// loopBound is the bound and counter of a counting loop, which may be left early.
func loopBound(h *ssa.BasicBlock) (bound, idx ssa.Value) {
	body := loopBody(h)
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || body == nil {
		return nil, nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil
	}
	i, n := bo.X, bo.Y
	switch bo.Op {
	case token.LSS, token.NEQ:
	case token.GTR:
		i, n = n, i
	default:
		return nil, nil
	}
	if !body[h.Succs[0]] {
		return nil, nil
	}
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isRangeIndex(ph) {
			continue
		}
		start, okc := int64(0), true
		for k, e := range ph.Edges {
			if c, isC := e.(*ssa.Const); isC && !h.Dominates(h.Preds[k]) {
				start, _ = constant.Int64Val(c.Value)
			} else if b, isB := e.(*ssa.BinOp); !isB || !isConstInt(b.Y, 1) {
				okc = false
			}
		}
		if !okc {
			continue
		}
		if i == ssa.Value(ph) && start == 0 {
			return n, ph
		}
		if b, ok := i.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(ph) && isConstInt(b.Y, 1) && start == -1 {
			return n, b
		}
	}
	return nil, nil
}

func orParts(v *Val) (consts int64, rest []*Val) {
	if n, ok := v.constInt(); ok {
		return n, nil
	}
	if v.Op == "bin|" {
		for _, a := range v.Args {
			n, r := orParts(a)
			consts |= n
			rest = append(rest, r...)
		}
		return
	}
	if v.Op == "conv" {
		return orParts(v.Args[0])
	}
	return 0, []*Val{v}
}

func ruleC15(c *Ctx) {
	const R = "client-allocation"
	c.Rule(R, "On every path of Allocator.Clients: loops visit every execution group, every client group of it, as many clients as configured, every assigned trx in configured order and every statement of it in order; each statement is stored once, at the next position, with its inputs, outputs and insert id at the same position taken from that statement's data keys; the first statement of a trx is marked BEGIN before and the last END after its statements; the statistics slot of a trx is set exactly when statistics are on; database, completion channel and identity belong to the client.")
	const G = "grouping"
	c.Rule(G, "Allocator.Groups puts every client group in exactly one execution group, a new one exactly when the group name changes; a group with DDL and no iteration limit gets one iteration; automatic assignment puts every trx in one client group and a DDL trx alone in its own.")
	a := allocAnchors(c, R)
	if a == nil {
		return
	}
	begin, ok1 := constIntOf(c.P, "trx", "BEGIN")
	end, ok2 := constIntOf(c.P, "trx", "END")
	if !ok1 || !ok2 {
		c.Missing(R, "trx.BEGIN / trx.END")
		return
	}
	c.Fn(a.fn)
	x := a.newExec(c)
	T := x.T
	stmtsF, dataF, trxF := a.ts["Statements"], a.ts["Data"], a.cg["Trx"]
	reach := map[*ssa.Function]bool{}
	for f := range c.P.Reach(a.fn) {
		if fnPkgPath(f) == modPath+"/workload" {
			reach[f] = true
		}
	}
	w := c.P.intWeb(reach)
	isStmtElem := func(in ssa.Instruction) *ssa.IndexAddr {
		st, ok := in.(*ssa.Store)
		if !ok || !isNamed(deref(st.Val.Type()), modPath+"/trx", "Statement") {
			return nil
		}
		ia, _ := st.Addr.(*ssa.IndexAddr)
		return ia
	}
	var posWeb ssa.Value
	nSites := 0
	for f := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ia := isStmtElem(in); ia != nil {
					nSites++
					posWeb = w.find(ia.Index)
				}
			}
		}
	}
	if nSites != 1 {
		c.Fail(R, "statement position", a.fn.Pos(), fmt.Sprintf("%d places store statements of clients, expected one", nSites))
		return
	}
	isPos := func(v ssa.Value) bool { return w.find(v) == posWeb }
	x.ArithEvents = true
	x.Forget = func(v *Val) bool { return v.Op != "with" }
	withStats := func() *Val { return x.ArgVal(2) }
	x.Keep = func(f *Val) bool {
		return f.find(func(t *Val) bool {
			if t == withStats() || t.Op == "gen" {
				return true
			}
			fl, _ := t.loadedField()
			if fl == nil {
				return false
			}
			for _, g := range []*types.Var{a.cg["DisableStats"], a.st["Calls"], a.st["InsertId"], a.st["Outputs"], a.st["Inputs"], a.st["Limit"]} {
				if g == fl {
					return true
				}
			}
			return false
		}) != nil
	}
	x.Untrack = func(ad *Val) bool {
		t := rootOf(ad).T
		if t == nil {
			return false
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			return true
		}
		for _, n := range []string{"QPS", "TPS", "IterClients", "IterClientsPtr", "IterExecGroup", "IterExecGroupPtr"} {
			if ad.Op == "field" && ad.Fld == a.cl[n] {
				return true
			}
		}
		return false
	}
	r := c.pathRule(R, x)
	// A: 1 statement stored this S round, 2 position advanced, 3 statement stored this T round, 4 BEGIN, 5 END,
	//    6 stats set, 7 inputs appended this I round, 8 output set this O round, 9 insert id set, 10 query counted, 11 trx counted
	// RV: 0 client, 1 statement of this round, 2 index of its client group, 3 trx name, 4 key of this I/O round
	role := map[*ssa.BasicBlock]string{}
	nStmt, nIn, nOut, nClient, nGen := 0, 0, 0, 0, 0
	type loopInfo struct {
		sl, idx *Val
		why     string
	}
	info := func(s *State, l loopVal) loopInfo {
		b, i := countedLoop(l.h)
		if b == nil {
			_, why := fullRangeOrError(l.h)
			return loopInfo{why: why}
		}
		li := loopInfo{idx: x.val(s, l.fr, i)}
		li.sl = x.boundVal(s, l.fr, b)
		return li
	}
	stmtOf := func(v *Val) bool { // v is Statements[Trx[i]][j]
		return v != nil && v.Op == "load" && v.Args[0].Op == "elem" && v.Args[0].Args[0].Op == "lookup" && isLoadOf(v.Args[0].Args[0].Args[0], stmtsF)
	}
	// generator of a data key, when it is one
	genOf := func(v *Val) *Val {
		for v != nil && v.Op == "iface" {
			v = v.Args[0]
		}
		if v != nil && v.Op == "gen" {
			return v
		}
		return nil
	}
	// key is stmt.<f>[i] of the current statement
	keyOf := func(k *Val, f *types.Var) (stmt, i *Val) {
		if k.Op != "load" {
			return nil, nil
		}
		ad := k.Args[0]
		if ad.Op == "elem" && isLoadOf(ad.Args[0], f) {
			_, b := ad.Args[0].loadedField()
			return b, ad.Args[1]
		}
		if ad.Op == "field" && ad.Fld == f {
			return ad.Args[0], nil
		}
		return nil, nil
	}
	inS := func(s *State) bool { return len(x.LoopVals(s)) >= 5 }
	known := func(s *State, v *Val) (bool, bool) { return x.Ask(s, v) }
	dataField := func(ad *Val) *types.Var {
		if ad.Op == "field" {
			for _, f := range a.sd {
				if f == ad.Fld {
					return f
				}
			}
		}
		return nil
	}
	dataIndex := func(e *Event) ssa.Value {
		st, ok := e.Instr.(*ssa.Store)
		if !ok {
			return nil
		}
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			if ia, ok := fa.X.(*ssa.IndexAddr); ok {
				return ia.Index
			}
			// through a pointer variable: p := &c.Data[n]
			v := fa.X
			if p, ok := v.(*ssa.Parameter); ok {
				_ = p
				return nil
			}
		}
		return nil
	}
	// posIdx: the address is of Data[position]; sub reports Data[position-1].
	posIdx := func(s *State, e *Event) (pos, prev bool) {
		if iv := dataIndex(e); iv != nil {
			if b, ok := iv.(*ssa.BinOp); ok && b.Op == token.SUB {
				return false, isPos(b.X) && isConstInt(b.Y, 1)
			}
			return isPos(iv), false
		}
		if e.Addr.Op == "field" && e.Addr.Args[0].Op == "elem" && s.RV[5] != nil {
			return e.Addr.Args[0].Args[1] == s.RV[5], false
		}
		return false, false
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvArith:
			bo := e.Instr.(*ssa.BinOp)
			if !isPos(bo) || bo.Op == token.SUB {
				if bo.Op == token.SUB && isPos(bo) {
					for _, rf := range *bo.Referrers() {
						if _, ok := rf.(*ssa.Phi); ok {
							r.fail(s, e, "position", "the position of the next statement goes back")
						}
					}
				}
				return
			}
			if !isConstInt(bo.Y, 1) && !isConstInt(bo.X, 1) {
				r.fail(s, e, "position", "the position of the next statement is not advanced by one")
				return
			}
			if !inS(s) {
				r.fail(s, e, "position", "the position of the next statement is advanced outside the statement loop")
				return
			}
			s.A[2]++
			if s.A[2] > 1 {
				r.fail(s, e, "position", "the position of the next statement is advanced twice")
			}
		case EvCall:
			switch {
			case e.Callee == scopeCopyFn:
				nGen++
				if !isLoadOf(e.Args[0], dataF) {
					r.fail(s, e, "generator", "a data generator is not taken from the trx set of this stage")
				}
				lv := x.LoopVals(s)
				if len(lv) < 5 {
					r.fail(s, e, "generator", "a data generator is copied outside the statement loop")
					return
				}
				rl := e.Args[2]
				want := []struct {
					f string
					i int
				}{{"ExecGroup", 0}, {"ClientGroup", 1}, {"Client", 2}}
				for _, wn := range want {
					li := info(s, lv[wn.i])
					got := T.vfield(rl, a.rl[wn.f])
					r.obl(e, "run level "+wn.f)
					if li.idx == nil || !T.isNext(got, li.idx) {
						r.fail(s, e, "run level "+wn.f, "a data generator is copied for another "+wn.f+" than the client's")
					}
				}
				if f, b := T.vfield(rl, a.rl["Stage"]).loadedField(); f != a.al["Stage"] || b != x.ArgVal(0) {
					r.fail(s, e, "run level Stage", "a data generator is copied for another stage")
				}
				if s.A[10] != 1 {
					r.fail(s, e, "run level Query", "a data generator is copied before the statement number was advanced")
				}
				if s.A[11] != 1 {
					r.fail(s, e, "run level Trx", "a data generator is copied although the trx number was not advanced once for this trx")
				}
			case e.Callee == "builtin append" && len(e.Args) == 2:
				ci := e.Instr.(ssa.CallInstruction)
				sl, ok := ci.Common().Args[0].Type().Underlying().(*types.Slice)
				if !ok {
					return
				}
				if _, isF := sl.Elem().Underlying().(*types.Signature); isF {
					nIn++
					v := e.Args[1]
					r.obl(e, "input appended")
					if v.Op != "closure" || len(v.Args) != 1 || genOf(v.Args[0]) == nil {
						r.fail(s, e, "input", "an input is not a method of a copied data generator")
						return
					}
					g := genOf(v.Args[0])
					st, i := keyOf(g.Args[1], a.st["Inputs"])
					if i == nil || !stmtOf(st) {
						r.fail(s, e, "input", "the input is not for a data key of the statement's inputs")
						return
					}
					lv := x.LoopVals(s)
					il := lv[len(lv)-1]
					li := info(s, il)
					if li.idx != i || li.sl == nil || !isLoadOf(li.sl, a.st["Inputs"]) {
						r.fail(s, e, "input", "the inputs of a statement are not taken one by one in order")
						return
					}
					role[il.h] = "I"
					s.RV[1] = pick(s.RV[1], st)
					if s.RV[1] != st {
						r.fail(s, e, "input", "the inputs are those of another statement")
					}
					s.A[7]++
					if s.A[7] > 1 {
						r.fail(s, e, "input", "an input is added twice")
					}
					call := T.eq(T.app("load", T.app("elem", T.app("load", T.fieldAddr(st, a.st["Calls"])), i)), T.intv(1))
					is, ok := known(s, call)
					switch v.Fn.Name() {
					case "Call$bound":
						if !ok || !is {
							r.fail(s, e, "input kind", "an input that is not an explicit call is called every time")
						}
					case "Values$bound":
						if !ok || is {
							r.fail(s, e, "input kind", "an explicit call is not called every time")
						}
					default:
						r.fail(s, e, "input", "an input is neither a call nor the scoped value")
					}
					return
				}
			}
			if cl, _ := clientStored(e); cl != nil {
				a.c15client(x, s, e, r, cl, role)
				nClient++
			}
		case EvStore:
			if cl, _ := clientStored(e); cl != nil {
				nClient++
				a.c15client(x, s, e, r, cl, role)
				lv := x.LoopVals(s)
				if len(lv) == 3 {
					if li := info(s, lv[2]); li.idx == nil || e.Addr.Args[1] != li.idx {
						r.fail(s, e, "client slot", "a client is not stored at its own position")
					}
				}
				return
			}
			if ia := isStmtElem(e.Instr); ia != nil {
				nStmt++
				r.obl(e, "statement stored")
				lv := x.LoopVals(s)
				if len(lv) != 5 {
					r.fail(s, e, "statement loops", "statements are not stored in loops over groups, clients, trx and statements")
					return
				}
				role[lv[2].h], role[lv[3].h], role[lv[4].h] = "K", "T", "S"
				// every loop is complete
				for i, nm := range []string{"execution groups", "client groups", "clients", "assigned trx", "statements"} {
					if li := info(s, lv[i]); li.why != "" || li.idx == nil {
						r.fail(s, e, "loop over "+nm, "the loop over "+nm+" does not visit all of them in order: "+li.why)
						return
					}
				}
				e0, c0, k0, t0, s0 := info(s, lv[0]), info(s, lv[1]), info(s, lv[2]), info(s, lv[3]), info(s, lv[4])
				inner := T.app("load", T.app("elem", x.ArgVal(1), e0.idx))
				if e0.sl != x.ArgVal(1) {
					r.fail(s, e, "loop over execution groups", "the outer loop is not over the execution groups")
				}
				if c0.sl != inner {
					r.fail(s, e, "loop over client groups", "the second loop is not over the client groups of the execution group")
				}
				ref := T.app("load", T.app("elem", inner, c0.idx))
				kf, ki := a.uintOf(x, k0.sl)
				if kf == nil && k0.sl != nil { // range over the slice made for the clients
					for f, t := range s.facts {
						if f.Op == "eq" && t {
							for q := 0; q < 2; q++ {
								if f.Args[q].Op == "len" && f.Args[q].Args[0] == k0.sl {
									kf, ki = a.uintOf(x, f.Args[1-q])
								}
							}
						}
					}
				}
				if fl, _ := k0.sl.loadedField(); fl == a.wg["Clients"] && s.A[14] == 1 { // range over the slice made with that many places
					kf, ki = a.cg["Clients"], ref
				}
				if kf != a.cg["Clients"] || ki != ref {
					r.fail(s, e, "loop over clients", "the number of clients created is not the one configured for the client group")
				}
				if f, i := a.cgElem(x, t0.sl); f != trxF || i != ref {
					r.fail(s, e, "loop over trx", "the trx are not those assigned to the client group")
				}
				name := T.app("load", T.app("elem", t0.sl, t0.idx))
				if s0.sl.Op != "lookup" || !isLoadOf(s0.sl.Args[0], stmtsF) || s0.sl.Args[1] != name {
					r.fail(s, e, "loop over statements", "the statements are not those of the assigned trx")
				}
				if e.Val != T.app("load", T.app("elem", s0.sl, s0.idx)) {
					r.fail(s, e, "statement", "the statement stored is not the next statement of the trx")
				}
				if !isPos(ia.Index) || s.A[2] != 0 {
					r.fail(s, e, "position", "a statement is not stored at the next position")
				}
				s.A[1]++
				if s.A[1] > 1 {
					r.fail(s, e, "statement", "a statement is stored twice")
				}
				if s.A[5] > 0 {
					r.fail(s, e, "END", "statements follow the one marked as the end of the trx")
				}
				s.RV[1] = pick(s.RV[1], e.Val)
				if s.RV[1] != e.Val {
					r.fail(s, e, "statement", "inputs, outputs or insert id are those of another statement")
				}
				s.A[3] = 1
				s.RV[5] = e.Addr.Args[1]
				return
			}
			st, _ := e.Instr.(*ssa.Store)
			if f := dataField(e.Addr); f != nil {
				if _, isAlloc := rootOf(e.Addr).T.(*types.Pointer); isAlloc && e.Addr.Args[0].Op != "elem" {
					return // a local StatementData: checked when stored whole
				}
				pos, prev := posIdx(s, e)
				if f == a.sd["TrxBoundary"] {
					cst, rest := orParts(e.Raw)
					old := len(rest) == 1
					r.obl(e, "trx boundary marked")
					switch {
					case cst == begin && pos && !inS(s) && s.A[3] == 0 && s.A[2] == 0:
						s.A[4]++
					case cst == end && prev && !inS(s) && old:
						s.A[5]++
						if s.A[4] != 1 {
							r.fail(s, e, "BEGIN", "the end of a trx is marked but not its beginning")
						}
					default:
						r.fail(s, e, "boundary", "a trx boundary is marked on the wrong statement, with the wrong mark, or replaces the other mark")
					}
					return
				}
				if !pos || s.A[2] != 0 {
					r.fail(s, e, "data position", "data of a statement is stored at another position than the statement")
				}
				if f == a.sd["InsertId"] {
					r.obl(e, "insert id generator")
					g := genOf(e.Val)
					if g == nil {
						r.fail(s, e, "insert id", "the insert id is not a copied data generator")
						return
					}
					so, _ := keyOf(g.Args[1], a.st["InsertId"])
					if so == nil || !stmtOf(so) {
						r.fail(s, e, "insert id", "the insert id generator is not that of the statement's insert id")
						return
					}
					s.RV[1] = pick(s.RV[1], so)
					if s.RV[1] != so {
						r.fail(s, e, "insert id", "the insert id is that of another statement")
					}
					s.A[9] = 1
				}
				return
			}
			if g := genOf(e.Val); g != nil && e.Addr.Op == "elem" {
				nOut++
				r.obl(e, "output set")
				so, i := keyOf(g.Args[1], a.st["Outputs"])
				if i == nil || !stmtOf(so) || e.Addr.Args[1] != i {
					r.fail(s, e, "output", "an output is not the generator of the statement's output at the same position")
					return
				}
				lv := x.LoopVals(s)
				ol := lv[len(lv)-1]
				li := info(s, ol)
				if li.idx != i || li.sl == nil || !isLoadOf(li.sl, a.st["Outputs"]) {
					r.fail(s, e, "output", "the outputs of a statement are not taken one by one in order")
					return
				}
				role[ol.h] = "O"
				s.RV[1] = pick(s.RV[1], so)
				if s.RV[1] != so {
					r.fail(s, e, "output", "the outputs are those of another statement")
				}
				s.A[8]++
				return
			}
			if st != nil && isNamed(deref(st.Val.Type()), modPath+"/stats", "Trx") && e.Addr.Op == "elem" {
				r.obl(e, "statistics slot")
				lv := x.LoopVals(s)
				if len(lv) != 4 {
					r.fail(s, e, "statistics", "statistics are not set once per assigned trx")
					return
				}
				li := info(s, lv[3])
				if li.idx == nil || e.Addr.Args[1] != li.idx || e.Val.Op != "newtrx" || e.Val.Args[0] != T.app("load", T.app("elem", li.sl, li.idx)) {
					r.fail(s, e, "statistics", "the statistics slot of a trx does not get its own statistics")
				}
				if v, ok := known(s, withStats()); !ok || !v {
					r.fail(s, e, "statistics", "statistics are recorded although the stage has none")
				}
				ds := false
				_, own := a.cgElem(x, li.sl)
				for f, t := range s.facts {
					if fl, j := a.cgElem(x, f); fl == a.cg["DisableStats"] && !t && j == own {
						ds = true
					}
				}
				if !ds {
					r.fail(s, e, "statistics", "statistics are recorded although the client group disabled them")
				}
				s.A[6]++
				return
			}
			if e.Addr.Op == "field" {
				switch e.Addr.Fld {
				case a.rl["Query"]:
					a.counter(s, e, r, 10, "statement", inS(s))
				case a.rl["Trx"]:
					a.counter(s, e, r, 11, "trx", len(x.LoopVals(s)) == 4)
				case a.wg["Clients"]:
					lv := x.LoopVals(s)
					if len(lv) == 2 && e.Val.Op == "alloc" {
						ref := T.app("load", T.app("elem", T.app("load", T.app("elem", x.ArgVal(1), info(s, lv[0]).idx)), info(s, lv[1]).idx))
						for f, t := range s.facts {
							if f.Op == "eq" && t {
								for q := 0; q < 2; q++ {
									if fl, j := a.uintOf(x, f.Args[1-q]); f.Args[q].Op == "len" && f.Args[q].Args[0] == e.Val && fl == a.cg["Clients"] && j == ref {
										s.A[14] = 1
									}
								}
							}
						}
					}
				case a.wg["Runtime"]:
					if e.Val.Op == "duration" {
						lv := x.LoopVals(s)
						var ref *Val
						if len(lv) == 2 {
							ref = T.app("load", T.app("elem", T.app("load", T.app("elem", x.ArgVal(1), info(s, lv[0]).idx)), info(s, lv[1]).idx))
						}
						if f, j := a.cgElem(x, e.Val.Args[0]); f == a.cg["Runtime"] && j == ref {
							r.obl(e, "run time")
							s.A[12] = 1
							return
						}
					}
					r.fail(s, e, "run time", "the run time of a client group is not its configured one")
				}
			}
		case EvBlock:
			ro := role[e.Block]
			ev := &Event{Fn: e.Fn, Instr: blockInstr(e.Block)}
			switch {
			case ro == "S" && e.Back:
				if s.A[1] != 1 || s.A[2] != 1 {
					r.fail(s, ev, "statement skipped", "a statement of the trx is not given to the client, or its position is not advanced")
				}
				if s.RV[1] != nil {
					id := T.app("load", T.fieldAddr(s.RV[1], a.st["InsertId"]))
					if v, ok := known(s, T.eq(id, T.konst(constant.MakeString(""), nil))); s.A[9] == 0 && !(ok && v) {
						r.fail(s, ev, "insert id", "the statement's insert id is not saved")
					}
				}
				s.A[1], s.A[2], s.A[9], s.A[10] = 0, 0, 0, 0
				s.RV[1], s.RV[4], s.RV[5] = nil, nil, nil
			case ro == "I" && e.Back, ro == "O" && e.Back:
				n, what := 7, "input"
				if ro == "O" {
					n, what = 8, "output"
				}
				if s.A[n] == 0 {
					ok := false
					for f, t := range s.facts {
						if f.Op != "eq" || !t {
							continue
						}
						if f.find(func(v *Val) bool { return v.Op == "gen" }) != nil && (f.Args[0].isNil() || f.Args[1].isNil()) {
							ok = true
						}
						if ro == "O" && f.find(func(v *Val) bool { return isLoadOf(v, a.st["InsertId"]) }) != nil && !f.Args[0].isConst() && !f.Args[1].isConst() {
							ok = true
						}
					}
					if !ok {
						r.fail(s, ev, what+" skipped", "an "+what+" of a statement is skipped")
					}
				}
				s.A[n] = 0
			case ro == "T":
				if e.Back {
					if s.A[4] != 1 || s.A[5] != 1 {
						r.fail(s, ev, "boundary", "a trx is not marked with its beginning and its end")
					}
					if s.A[6] == 0 {
						ok := false
						if v, k := known(s, withStats()); k && !v {
							ok = true
						}
						for f, t := range s.facts {
							if fl, _ := a.cgElem(x, f); fl == a.cg["DisableStats"] && t {
								ok = true
							}
						}
						if !ok {
							r.fail(s, ev, "statistics", "a trx has no statistics although they are enabled")
						}
					}
				}
				s.A[3], s.A[4], s.A[5], s.A[6], s.A[11] = 0, 0, 0, 0, 0
			case ro == "K" && e.Back:
				if s.A[13] != 1 {
					r.fail(s, ev, "client skipped", "a client is not added to its client group exactly once")
				}
				s.A[13] = 0
				s.RV[0] = nil
			}
			if ro == "" && e.Back && s.A[12] == 0 {
				// client-group loop: run time must have been set
				for h, q := range role {
					if q == "K" && h.Parent() == e.Fn && loopBody(e.Block)[h] && len(c.P.loopsOf(e.Block)) == len(c.P.loopsOf(h))-1 {
						r.fail(s, ev, "run time", "the run time of a client group is not set")
					}
				}
			}
			if ro == "" && e.Back {
				for h, q := range role {
					if q == "K" && h.Parent() == e.Fn && loopBody(e.Block)[h] {
						s.A[12] = 0
					}
				}
			}
		case EvReturn:
			if len(e.Res) == 2 && e.Res[1].isNil() {
				r.obl(e, "allocation returned")
			}
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	// the position starts at 0 for every client and only there
	for f := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok || !isPos(ph) {
					continue
				}
				for i, ed := range ph.Edges {
					if _, isC := ed.(*ssa.Const); !isC {
						continue
					}
					if !isConstInt(ed, 0) || role[b] != "T" || b.Dominates(b.Preds[i]) {
						c.Fail(R, shortFn(f)+":position", blockPos(b), "the position of the next statement is set anew inside a client's statements, or does not start at 0")
					}
				}
			}
		}
	}
	c.Require(R, nStmt, 1, "statements stored on paths")
	c.Require(R, nIn, 2, "inputs added on paths")
	c.Require(R, nOut, 1, "outputs set on paths")
	c.Require(R, nClient, 1, "clients stored on paths")
	c.Require(R, nGen, 3, "generators copied on paths")
	a.grouping(c, G)
}

func pick(a, b *Val) *Val {
	if a != nil {
		return a
	}
	return b
}

// counter checks a run-level number: reset to 0 or advanced by one, once, at its level.
func (a *allocA) counter(s *State, e *Event, r *pathRule, slot int, what string, at bool) {
	if n, ok := e.Val.constInt(); ok && n == 0 {
		if at {
			r.fail(s, e, "run level "+what, "the "+what+" number is reset for every "+what)
		}
		return
	}
	if !at {
		r.fail(s, e, "run level "+what, "the "+what+" number is changed outside the "+what+" loop")
	}
	s.A[slot]++
	if s.A[slot] > 1 {
		r.fail(s, e, "run level "+what, "the "+what+" number is advanced twice")
	}
}

// c15client checks what a finished client belongs to.
func (a *allocA) c15client(x *Exec, s *State, e *Event, r *pathRule, cl *Val, role map[*ssa.BasicBlock]string) {
	lv := x.LoopVals(s)
	if len(lv) != 3 {
		r.fail(s, e, "client loops", "a client is not created in loops over execution groups, client groups and clients")
		return
	}
	role[lv[2].h] = "K"
	s.A[13]++
	s.RV[0] = cl
	get := func(n string) *Val { return x.Load(s, x.T.fieldAddr(cl, a.cl[n]), a.cl[n].Type()) }
	r.obl(e, "client belongs to its group")
	var ref *Val
	if f, i := a.cgElem(x, get("DefaultDb")); f != a.cg["Db"] {
		r.fail(s, e, "default database", "a client's default database is not that of its client group")
	} else {
		ref = i
	}
	if f, i := a.uintOf(x, get("Iter")); f != a.cg["Iter"] || i != ref {
		r.fail(s, e, "iter", "a client's iteration limit is not that of its client group")
	}
	if f, b := get("DoneChan").loadedField(); f != a.al["DoneChan"] || b != x.ArgVal(0) {
		r.fail(s, e, "completion channel", "a client does not report completion to its stage")
	}
	if v := get("DB"); v.Op != "dbmake" {
		r.fail(s, e, "database", "a client has no database connection pool of its own stage")
	}
	rl := get("RunLevel")
	for i, n := range []string{"ExecGroup", "ClientGroup", "Client"} {
		v := x.T.vfield(rl, a.rl[n])
		_, ix := countedLoop(lv[i].h)
		if ix == nil || !x.T.isNext(v, x.val(s, lv[i].fr, ix)) {
			r.fail(s, e, "identity "+n, "a client's "+n+" number is not its own")
		}
	}
	if f, b := x.T.vfield(rl, a.rl["Stage"]).loadedField(); f != a.al["Stage"] || b != x.ArgVal(0) {
		r.fail(s, e, "identity Stage", "a client's stage number is not that of its stage")
	}
}

// isNext: v is i+1, whatever integer types it is computed in.
func (t *valTab) isNext(v, i *Val) bool {
	for v.Op == "conv" {
		v = v.Args[0]
	}
	if c := v.find(func(u *Val) bool { return u.Op == "conv" && u.Args[0] == i }); c != nil {
		v = t.subst(v, c, i)
	}
	return v == t.binop(token.ADD, i, t.intv(1), types.Typ[types.Int])
}

// grouping decides Groups and AutoAssign.
func (a *allocA) grouping(c *Ctx, G string) {
	groups, auto := c.P.Func("workload", "Allocator", "Groups"), c.P.Func("workload", "Allocator", "AutoAssign")
	ddlF, orderF, metaF := c.P.Field("trx", "Meta", "DDL"), c.P.Field("trx", "Set", "Order"), c.P.Field("trx", "Set", "Meta")
	if groups == nil || auto == nil || ddlF == nil || orderF == nil || metaF == nil {
		c.Missing(G, "workload.Allocator.Groups / AutoAssign / trx.Meta.DDL / trx.Set.Order")
		return
	}
	c.Fn(groups, auto)
	ddlCond := func(v *Val) (lookup *Val) {
		f, b := v.loadedField()
		if f == ddlF && b != nil && b.Op == "lookup" && isLoadOf(b.Args[0], metaF) {
			return b
		}
		if f == ddlF {
			if l := v.find(func(t *Val) bool { return t.Op == "lookup" && isLoadOf(t.Args[0], metaF) }); l != nil {
				return l
			}
		}
		return nil
	}
	iterF, trxF, groupF := a.cg["Iter"], a.cg["Trx"], a.cg["Group"]

	// --- Groups
	{
		x := a.newExec(c)
		x.Root = groups
		in0 := x.Inline
		x.Inline = func(fn *ssa.Function) bool { return fn != auto && fn != a.fn && in0(fn) }
		x.Forget = func(v *Val) bool { return true }
		x.Keep = func(f *Val) bool {
			return f.find(func(t *Val) bool {
				fl, _ := t.loadedField()
				return fl == iterF || fl == trxF || fl == groupF
			}) != nil
		}
		r := c.pathRule(G, x)
		// A: 0 DDL seen, 1 iter set, 2 trx set, 3 new group, 4 appended, 5 DDL looked at
		const ddl, iter, trx, fresh, appended, looked, cmp = 0, 1, 2, 3, 4, 5, 6
		role := map[*ssa.BasicBlock]string{} // W: fills in groups, D: looks for DDL, A: assigns groups
		nDDL, nApp := 0, 0
		x.Hook = func(x *Exec, s *State, e *Event) {
			lv := x.LoopVals(s)
			switch e.Kind {
			case EvBranch:
				if q, eq := e.Cond, e.Taken; q.Op == "eq" || q.Op == "not" && q.Args[0].Op == "eq" {
					if q.Op == "not" {
						q, eq = q.Args[0], !eq
					}
					for k := 0; k < 2; k++ {
						if fl, j := a.cgElem(x, q.Args[k]); fl == groupF {
							s.A[cmp], s.RV[6] = 2, j
							if eq {
								s.A[cmp] = 1
							}
						}
					}
				}
				l := ddlCond(e.Cond)
				if l == nil {
					if e.Cond.Op == "not" {
						l = ddlCond(e.Cond.Args[0])
					}
					if l == nil {
						return
					}
				}
				nDDL++
				r.obl(e, "DDL looked for in the trx of a client group")
				if len(lv) < 2 {
					r.fail(s, e, "DDL", "DDL is not looked for in every trx of every client group")
					return
				}
				role[lv[len(lv)-1].h], role[lv[len(lv)-2].h] = "D", "W"
				sl, why := rangeFromFirst(lv[len(lv)-1].h)
				if sl == nil {
					r.fail(s, e, "DDL", "DDL is not looked for in every trx of a client group: "+why)
					return
				}
				bnd, _ := loopBound(lv[len(lv)-1].h)
				sv := x.boundVal(s, lv[len(lv)-1].fr, bnd)
				if f, _ := a.cgElem(x, sv); f != trxF && !isLoadOf(sv, orderF) {
					r.fail(s, e, "DDL", "DDL is looked for in other trx than those of the client group")
				}
				if k := l.Args[1]; k.Op != "load" || k.Args[0].Op != "elem" || k.Args[0].Args[0] != sv {
					r.fail(s, e, "DDL", "DDL is looked for in another trx")
				}
				s.A[looked] = 1
				if e.Taken == (e.Cond.Op != "not") {
					s.A[ddl] = 1
				}
			case EvStore:
				if e.Addr.Op != "field" || e.Addr.Args[0].Op != "elem" {
					return
				}
				switch e.Addr.Fld {
				case iterF:
					r.obl(e, "iterations of a DDL group")
					if v, ok := e.Val.constStr(); !ok || v != "1" {
						r.fail(s, e, "DDL iterations", "a client group with DDL does not get one iteration")
					}
					for f, t := range s.facts {
						if f.Op == "eq" && !t {
							for k := 0; k < 2; k++ {
								if fl, j := a.uintOf(x, f.Args[k]); fl == iterF && j == e.Addr.Args[0].Args[1] {
									r.fail(s, e, "DDL iterations", "a configured iteration limit is replaced")
								}
							}
						}
					}
					zero := false
					for f, t := range s.facts {
						if t && f.Op == "eq" && f.find(func(v *Val) bool { fl, j := a.cgElem(x, v); return fl == iterF && j == e.Addr.Args[0].Args[1] }) != nil {
							zero = true
						}
					}
					if !zero {
						r.fail(s, e, "DDL iterations", "the iteration limit is replaced without checking that none is configured")
					}
					s.A[iter]++
				case trxF:
					if !isLoadOf(e.Val, orderF) {
						r.fail(s, e, "default trx", "a client group without trx does not get all trx in order")
					}
					s.A[trx] = 1
				}
			case EvCall:
				if e.Callee != "builtin append" || len(e.Args) < 2 {
					return
				}
				ci := e.Instr.(ssa.CallInstruction)
				sl, ok := ci.Common().Args[0].Type().Underlying().(*types.Slice)
				if !ok {
					return
				}
				switch sl.Elem().String() {
				case "[]int":
					s.A[fresh]++
				case "int":
					nApp++
					r.obl(e, "client group assigned to an execution group")
					if len(lv) == 0 {
						r.fail(s, e, "assignment", "client groups are not assigned one by one")
						return
					}
					l := lv[len(lv)-1]
					role[l.h] = "A"
					n, ix := countedLoop(l.h)
					if n == nil || !a.isGroups(x.boundVal(s, l.fr, n)) {
						r.fail(s, e, "assignment", "the loop assigning client groups does not visit every client group")
						return
					}
					i := x.val(s, l.fr, ix)
					if e.Args[1] != i {
						r.fail(s, e, "assignment", "another client group is assigned")
					}
					s.A[appended]++
					if s.A[appended] > 1 {
						r.fail(s, e, "assignment", "a client group is assigned twice")
					}
					same, known := s.A[cmp] == 1, s.A[cmp] != 0 && s.RV[6] == i
					switch {
					case !known:
						r.fail(s, e, "execution group", "the group name is not compared with the current execution group's")
					case same && s.A[fresh] > 0:
						r.fail(s, e, "execution group", "a client group with the same group name starts a new execution group")
					case !same && s.A[fresh] != 1:
						r.fail(s, e, "execution group", "a client group with another group name does not start a new execution group")
					}
				}
			case EvBlock:
				ro := role[e.Block]
				ev := &Event{Fn: e.Fn, Instr: blockInstr(e.Block)}
				if e.From != nil {
					for h, q := range role {
						if q == "D" && h.Parent() == e.Fn && e.From != h && loopBody(h)[e.From] && !loopBody(h)[e.Block] && s.A[ddl] == 0 {
							r.fail(s, ev, "DDL", "the search for DDL stops before every trx was looked at")
						}
					}
				}
				switch {
				case ro == "W":
					if e.Back {
						configured := false
						_, ix := loopBound(e.Block)
						var cur *Val
						if ix != nil {
							cur = x.val(s, s.top(), ix)
						}
						for f, t := range s.facts {
							if f.Op == "eq" && !t && f.find(func(v *Val) bool { fl, j := a.cgElem(x, v); return fl == iterF && j == cur }) != nil {
								configured = true
							}
							if f.Op == "eq" && t && s.A[trx] == 0 {
								for k := 0; k < 2; k++ {
									if f.Args[k].Op == "len" {
										if fl, j := a.cgElem(x, f.Args[k].Args[0]); fl == trxF && j == cur {
											if n, ok := f.Args[1-k].constInt(); ok && n == 0 {
												r.fail(s, ev, "default trx", "a client group without trx gets none")
											}
										}
									}
								}
							}
						}
						if s.A[ddl] == 1 && s.A[iter] == 0 && !configured {
							r.fail(s, ev, "DDL iterations", "a client group with DDL and no iteration limit does not get one iteration")
						}
						if s.A[ddl] == 0 && s.A[iter] > 0 {
							r.fail(s, ev, "DDL iterations", "a client group without DDL gets an iteration limit")
						}
					}
					s.A[ddl], s.A[iter], s.A[trx], s.A[looked] = 0, 0, 0, 0
				case ro == "A":
					if e.Back {
						if s.A[appended] != 1 {
							r.fail(s, ev, "assignment", "a client group is not assigned to an execution group")
						}
						if s.A[fresh] > 0 {
							pi, ok := -1, false
							for i, p := range e.Block.Preds {
								if p == e.From {
									pi = i
								}
							}
							for _, in := range e.Block.Instrs {
								if ph, isP := in.(*ssa.Phi); isP && pi >= 0 {
									if fl, _ := a.cgElem(x, x.val(s, s.top(), ph.Edges[pi])); fl == groupF {
										ok = true
									}
								}
							}
							if !ok {
								r.fail(s, ev, "execution group", "the name of the new execution group is not remembered")
							}
						}
					}
					s.A[fresh], s.A[appended], s.A[cmp], s.RV[6] = 0, 0, 0, nil
				}
			}
		}
		x.Run(nil, nil)
		c.finish(G, x)
		c.Require(G, nDDL, 1, "tests for DDL")
		c.Require(G, nApp, 1, "assignments of client groups")
	}

	// --- AutoAssign
	{
		x := a.newExec(c)
		x.Root = auto
		in0 := x.Inline
		x.Inline = func(fn *ssa.Function) bool { return fn != groups && fn != a.fn && in0(fn) }
		x.Forget = func(v *Val) bool { return true }
		x.Keep = func(f *Val) bool { return false }
		r := c.pathRule(G, x)
		// A: 0 last client group is unusable for DML (none or DDL), 1 this trx has DDL (2 no), 2 assigned
		n := 0
		var loop *ssa.BasicBlock
		x.Hook = func(x *Exec, s *State, e *Event) {
			lv := x.LoopVals(s)
			switch e.Kind {
			case EvBranch:
				cond, taken := e.Cond, e.Taken
				if cond.Op == "not" {
					cond, taken = cond.Args[0], !taken
				}
				if ddlCond(cond) != nil {
					s.A[1] = 2
					if taken {
						s.A[1] = 1
					}
				}
			case EvCall:
				if e.Callee != "builtin append" || len(e.Args) < 2 || len(lv) == 0 {
					return
				}
				ci := e.Instr.(ssa.CallInstruction)
				sl, ok := ci.Common().Args[0].Type().Underlying().(*types.Slice)
				if !ok {
					return
				}
				isCG := isNamed(sl.Elem(), modPath+"/config", "ClientGroup")
				if !isCG && sl.Elem().String() != "string" {
					return
				}
				n++
				l := lv[len(lv)-1]
				loop = l.h
				r.obl(e, "trx assigned automatically")
				bound, ix := countedLoop(l.h)
				if bound == nil || !isLoadOf(x.boundVal(s, l.fr, bound), orderF) {
					r.fail(s, e, "automatic assignment", "the loop assigning trx automatically does not visit every trx in order")
					return
				}
				name := x.T.app("load", x.T.app("elem", x.boundVal(s, l.fr, bound), x.val(s, l.fr, ix)))
				s.A[2]++
				if s.A[2] > 1 {
					r.fail(s, e, "automatic assignment", "a trx is assigned twice")
				}
				if s.A[1] == 0 {
					r.fail(s, e, "automatic assignment", "a trx is assigned without looking for DDL")
				}
				if isCG {
					v := e.Args[1]
					tr, ok := x.VarArgs(s, x.T.vfield(v, trxF))
					if !ok || len(tr) != 1 || tr[0] != name {
						r.fail(s, e, "automatic assignment", "a new client group does not get exactly this trx")
					}
					it, ok := x.T.vfield(v, iterF).constStr()
					if !ok || s.A[1] == 1 && it != "1" || s.A[1] == 2 && it != "" {
						r.fail(s, e, "automatic assignment", "a client group made automatically has the wrong number of iterations")
					}
					if cl, ok := x.T.vfield(v, a.cg["Clients"]).constStr(); !ok || cl == "" || cl == "0" {
						r.fail(s, e, "automatic assignment", "a client group made automatically has no clients")
					}
					s.A[0] = 2 // usable
					if s.A[1] == 1 {
						s.A[0] = 1
					}
					return
				}
				if e.Args[1] != name {
					r.fail(s, e, "automatic assignment", "another trx is added to the client group")
				}
				if s.A[1] == 1 || s.A[0] != 2 {
					r.fail(s, e, "automatic assignment", "a trx is put into the client group of a DDL trx, or one with DDL into a shared one")
				}
			case EvBlock:
				if e.Block == loop && e.Back {
					if s.A[2] != 1 {
						r.fail(s, &Event{Fn: e.Fn, Instr: blockInstr(e.Block)}, "automatic assignment", "a trx is not assigned to any client group")
					}
					s.A[1], s.A[2] = 0, 0
				}
			}
		}
		x.Run(nil, nil)
		c.finish(G, x)
		c.Require(G, n, 3, "automatic assignments")
	}
}
