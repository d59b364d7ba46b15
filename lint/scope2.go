package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ruleC37(c *Ctx) {
	const DE, CP, GR, RS, CO = "decision", "copies", "unit", "reset", "counters"
	c.Rule(DE, "For every scope, on every path of ScopedGenerator.Values: the generator is asked for new values exactly if the unit of the scope changed since it was asked last (its count for one client; the iteration for the client asking, whichever its groups; never before for one-time scopes; always for value scope), new values are returned and kept together with that count, else those kept are returned. ScopedGenerator.Call always asks and keeps likewise.")
	c.Rule(GR, "For every scope, on every path of RunLevel.GreaterThan: the run level is greater exactly if one of the units at or above the scope (query, trx, client, client group, exec group, stage) is, always for value scope and never for global scope.")
	c.Rule(CP, "On every path of Scope.Copy: the generator of the last copy of the key is returned unless there is none yet or the run level is greater, then that of a new copy, of the scope of the key and of a copy of its original generator, which is kept with the run level.")
	c.Rule(RS, "On every path of Scope.Reset: every key is forgotten, and what was copied of it, exactly if its scope is neither stage nor global.")
	c.Rule(CO, "On every path of Client.Run: the statement count is advanced once before the values of each statement, the trx count exactly for the first statement of each trx, the iteration count once per iteration, and the connection count once per connection.")
	g := c.scopedGen(DE)
	if g == nil {
		return
	}
	for _, scope := range g.scopes {
		g.decision(DE, scope)
		g.greater(GR, scope)
	}
	g.scopeCopy(CP)
	g.scopeReset(RS)
	g.clientCounters(CO)
}

// isCount: element k of the run count passed to the method.
func isCount(x *Exec, v *Val, k int64) bool {
	if v == nil || (v.Op != "velem" && v.Op != "index") || len(v.Args) != 2 || v.Args[0] != x.argVals[1] {
		return false
	}
	n, ok := v.Args[1].constInt()
	return ok && n == k
}

func (g *scopedGen) decision(rule, scope string) {
	c := g.c
	class := scopeClass[scope]
	cnt := g.counters[scopeCounter[scope]]
	// what is kept, over both methods
	kept := map[string]map[*types.Var]bool{"count": {}, "values": {}}
	read := map[string]map[*types.Var]bool{"count": {}, "values": {}}
	for _, fn := range []*ssa.Function{g.values, g.call} {
		c.Fn(fn)
		c.Obl(rule, shortFn(fn)+" "+scope)
		x := g.exec(fn, scope)
		rets := map[int16]int{}
		// A: 0 asked, 1 unit changed 1 yes 2 no, 2 count kept, 3 values kept, 4 known to the maps
		// RV: 0 new values, 2 key
		fail := func(s *State, e *Event, what, msg string) {
			c.Fail(rule, siteName(e, what+" "+scope), e.Pos(), "in scope "+scope+", "+msg, x.TraceStr(s, 14)...)
		}
		// count: a cell or map entry that holds the count of the unit
		countCell := func(v *Val) *types.Var {
			switch {
			case v.Op == "load" && v.Args[0].Op == "elem":
				if n, ok := v.Args[0].Args[1].constInt(); ok && n == cnt {
					return g.cellField(x, v.Args[0])
				}
			case v.Op == "load":
				return g.cellField(x, v.Args[0])
			case v.Op == "lookup":
				return g.cellField(x, v.Args[0])
			}
			return nil
		}
		keyOk := func(k *Val) bool {
			for _, n := range []string{"EXEC_GROUP", "CLIENT_GROUP", "CLIENT"} {
				if k.find(func(t *Val) bool { return isCount(x, t, g.counters[n]) }) == nil {
					return false
				}
			}
			return true
		}
		x.Hook = func(x *Exec, s *State, e *Event) {
			switch e.Kind {
			case EvRet:
				if g.isGenCall(e, "Values") {
					if s.A[0]++; s.A[0] > 1 {
						fail(s, e, "twice", "the generator is asked twice")
					}
					s.RV[0] = e.Res[0]
					if e.Args[1] != x.argVals[1] {
						fail(s, e, "count", "the generator is not given the run count of the client")
					}
				}
			case EvBranch:
				cond, taken := e.Cond, e.Taken
				for cond.Op == "not" {
					cond, taken = cond.Args[0], !taken
				}
				switch class {
				case scSingle, scMulti:
					k := cnt
					if class == scMulti {
						k = g.counters["ITER"]
					}
					if cond.Op == "lookupok" && class == scMulti {
						if s.RV[2] = cond.Args[1]; !taken {
							s.A[1] = 1
						} else {
							s.A[4] = 1
						}
						if f := g.cellField(x, cond.Args[0]); f != nil {
							read["count"][f] = true
						}
						return
					}
					if cond.Op != "lss" && cond.Op != "eq" {
						return
					}
					a, b := cond.Args[0], cond.Args[1]
					if isCount(x, a, k) {
						if cond.Op == "eq" {
							a, b = b, a
						} else if countCell(b) != nil {
							fail(s, e, "compared", "new values are generated when its count decreases")
							return
						}
					}
					if !isCount(x, b, k) || countCell(a) == nil {
						return
					}
					if class == scMulti {
						if s.RV[2] == nil {
							// without an entry the count is zero
							s.RV[2], s.A[4] = a.Args[1], 1
						}
						if a.Op != "lookup" || a.Args[1] != s.RV[2] {
							return
						}
					}
					read["count"][countCell(a)] = true
					if s.A[1] = 2; taken == (cond.Op == "lss") {
						s.A[1] = 1
					}
				case scOnce:
					if cond.Op != "eq" || !cond.Args[1].isNil() && !cond.Args[1].isConst() {
						return
					}
					if f := g.cellField(x, cond.Args[0]); f != nil && cond.Args[0].Op == "load" && g.mutable[f] {
						if s.A[1] = 2; taken {
							s.A[1] = 1
						}
						read["values"][f] = true
					}
				}
			case EvMapUpdate:
				f := g.cellField(x, e.Args[0])
				if f == nil {
					return
				}
				k := e.Args[1]
				if !keyOk(k) || s.RV[2] != nil && s.RV[2] != k {
					fail(s, e, "client", "what is kept is not kept for this client in its groups")
				}
				s.RV[2] = k
				switch {
				case isCount(x, e.Val, g.counters["ITER"]):
					s.A[2] = 1
					kept["count"][f] = true
				case s.RV[0] != nil && e.Val == s.RV[0]:
					s.A[3] = 1
					kept["values"][f] = true
				default:
					fail(s, e, "kept", "something else than the count and the new values is kept")
				}
			case EvStore:
				f := g.cellField(x, e.Addr)
				if f == nil {
					return
				}
				switch {
				case class == scSingle && isCount(x, e.Raw, cnt) && (e.Addr.Op != "elem" || isConstN(e.Addr.Args[1], cnt)):
					s.A[2] = 1
					kept["count"][f] = true
				case class == scSingle && e.Raw == x.argVals[1]: // all counts
					s.A[2] = 1
					kept["count"][f] = true
				case s.RV[0] != nil && e.Raw == s.RV[0]:
					s.A[3] = 1
					kept["values"][f] = true
				default:
					if class == scSingle || class == scOnce {
						fail(s, e, "kept", "something else than the count and the new values is kept")
					}
				}
			case EvReturn:
				res := e.Res[0]
				must := fn == g.call || class == scValue
				if !must {
					rets[s.A[1]]++
				}
				switch {
				case must || s.A[1] == 1:
					switch {
					case s.A[0] == 0:
						fail(s, e, "stale", "values are not generated although they have to be")
					case res != s.RV[0]:
						fail(s, e, "returned", "the new values are not returned")
					case class == scSingle && (s.A[2] == 0 || s.A[3] == 0), class == scMulti && (s.A[2] == 0 || s.A[3] == 0), class == scOnce && s.A[3] == 0:
						fail(s, e, "kept", "the new values are not kept for the rest of the unit")
					}
				case s.A[1] == 2:
					switch {
					case s.A[0] != 0:
						fail(s, e, "changed", "new values are generated although the unit has not changed")
						return
					case class == scMulti && (res.Op != "lookup" || res.Args[1] != s.RV[2] || !keyOk(res.Args[1])), class != scMulti && res.Op != "load":
						fail(s, e, "returned", "the values kept are not returned")
						return
					}
					f := g.cellField(x, res.Args[0])
					if f == nil {
						fail(s, e, "returned", "the values kept are not returned")
						return
					}
					read["values"][f] = true
				default:
					fail(s, e, "undecided", "cannot tell whether its unit has changed")
				}
			case EvPanic:
				fail(s, e, "panic", "the method can panic")
			}
		}
		x.Run(nil, nil)
		c.finish(rule, x)
		if fn == g.values && class != scValue && (rets[1] == 0 || rets[2] == 0) {
			c.Fail(rule, shortFn(fn)+":never "+scope, fn.Pos(), "in scope "+scope+", values never change or are never kept")
		}
	}
	names := func(m map[*types.Var]bool) string {
		var out []string
		for f := range m {
			out = append(out, f.Name())
		}
		sort.Strings(out)
		return strings.Join(out, ",")
	}
	if class == scValue {
		return
	}
	for _, what := range []string{"count", "values"} {
		if what == "count" && class == scOnce {
			continue
		}
		if names(kept[what]) != names(read[what]) || len(read[what]) != 1 {
			c.Fail(rule, "data.ScopedGenerator:"+what+" "+scope, g.values.Pos(), fmt.Sprintf("in scope %s, the %s are kept in %s but read from %s", scope, what, names(kept[what]), names(read[what])))
		}
	}
}

func isConstN(v *Val, k int64) bool {
	n, ok := v.constInt()
	return ok && n == k
}

// scopeUnits: the parts of the run level at or above a scope.
func scopeUnits(scope string) []string {
	all := []string{"Query", "Trx", "Client", "ClientGroup", "ExecGroup", "Stage"}
	switch scope {
	case "row", "statement":
		return all
	case "trx":
		return all[1:]
	case "iter", "client":
		return all[2:]
	case "client-group":
		return all[3:]
	case "exec-group":
		return all[4:]
	case "workload", "stage":
		return all[5:]
	}
	return nil
}

func (g *scopedGen) greater(rule, scope string) {
	c, p := g.c, g.p
	fn := p.Func("", "RunLevel", "GreaterThan")
	if fn == nil || len(fn.Params) != 3 {
		c.Missing(rule, "finch.RunLevel.GreaterThan")
		return
	}
	c.Fn(fn)
	c.Obl(rule, "scope "+scope)
	x := NewExec(p, fn)
	x.Inline = func(f *ssa.Function) bool { return fnPkgPath(f) == modPath }
	x.Unroll = 16
	x.MaxTerm = 200
	k := x.T.konst(constant.MakeString(scope), types.Typ[types.String])
	units := map[string]bool{}
	all := scopeUnits("row")
	// A: per unit, whether it is greater: 1 yes 2 no
	no := func(s *State, u string) bool {
		for i, w := range all {
			if w == u {
				return s.A[i] == 2
			}
		}
		return false
	}
	for _, u := range scopeUnits(scope) {
		units[u] = true
	}
	// the unit compared, in which order
	cmp := func(f *Val) (string, bool) {
		if f.Op != "lss" && f.Op != "eq" {
			return "", false
		}
		a, b := stripConv(f.Args[0]), stripConv(f.Args[1])
		fa, ba := a.loadedField()
		fb, bb := b.loadedField()
		if fa == nil || fa != fb {
			return "", false
		}
		if ba == x.argVals[1] && bb == x.argVals[0] || f.Op == "eq" && ba == x.argVals[0] && bb == x.argVals[1] {
			return fa.Name(), true
		}
		if ba == x.argVals[0] && bb == x.argVals[1] {
			return "-" + fa.Name(), true
		}
		return "", false
	}
	n := 0
	x.Hook = func(x *Exec, s *State, e *Event) {
		fail := func(what, msg string) {
			c.Fail(rule, siteName(e, what+" "+scope), e.Pos(), "for scope "+scope+", "+msg, x.TraceStr(s, 14)...)
		}
		switch e.Kind {
		case EvPanic:
			fail("panic", "the comparison can panic")
		case EvBranch:
			if u, ok := cmp(notless(e.Cond)); ok {
				for i, w := range all {
					if w == u {
						cond, taken := e.Cond, e.Taken
						for cond.Op == "not" {
							cond, taken = cond.Args[0], !taken
						}
						if s.A[i] = 2; taken == (cond.Op == "lss") {
							s.A[i] = 1
						}
					}
				}
				if strings.HasPrefix(u, "-") {
					fail("order", "run levels are compared the wrong way")
				} else if !units[u] {
					fail("unit "+u, "the "+u+" decides, too")
				}
			}
		case EvReturn:
			n++
			res := e.Res[0]
			v, known := x.Ask(s, res)
			if !known {
				if u, ok := cmp(res); ok && units[u] {
					// the last comparison decides
					for w := range units {
						if w != u && !no(s, w) {
							fail("missing "+w, "the "+w+" does not matter")
						}
					}
					return
				}
				fail("undecided", "cannot tell what decides")
				return
			}
			if v {
				if scope == "value" {
					return
				}
				for i, w := range all {
					if units[w] && s.A[i] == 1 {
						return
					}
				}
				fail("true", "a run level is greater though no unit of it is")
				return
			}
			if scope == "value" {
				fail("false", "a run level is not greater")
			}
			for w := range units {
				if !no(s, w) {
					fail("missing "+w, "the "+w+" does not matter")
				}
			}
		}
	}
	x.Run([]*Val{nil, nil, k}, nil)
	c.finish(rule, x)
	c.Require(rule, n, 1, "results for scope "+scope)
}

func notless(v *Val) *Val {
	for v.Op == "not" {
		v = v.Args[0]
	}
	return v
}

func (g *scopedGen) scopeCopy(rule string) {
	c, p := g.c, g.p
	fn := p.Func("data", "Scope", "Copy")
	fld := map[string]*types.Var{}
	for _, n := range []string{"CopyOf", "CopiedAt", "Keys"} {
		fld[n] = p.Field("data", "Scope", n)
	}
	kScope, kGen := p.Field("data", "Key", "Scope"), p.Field("data", "Key", "Generator")
	gt := p.Func("", "RunLevel", "GreaterThan")
	if fn == nil || len(fn.Params) != 3 || fld["CopyOf"] == nil || fld["CopiedAt"] == nil || fld["Keys"] == nil || kScope == nil || kGen == nil || gt == nil {
		c.Missing(rule, "data.Scope.Copy, CopyOf, CopiedAt, Keys, Key.Scope, Key.Generator, RunLevel.GreaterThan")
		return
	}
	c.Fn(fn)
	x := NewExec(p, fn)
	x.Inline = func(f *ssa.Function) bool {
		return strings.HasPrefix(fnPkgPath(f), modPath) && f != gt && f != g.ctor
	}
	pr := c.pathRule(rule, x)
	rets, news := 0, 0
	// A: 0 copied before: 1 yes 2 no; 1 greater 1 yes 2 no; 2 level kept; 3 copy kept; 4 no-op key; 5 previous values
	// RV: 0 new scoped generator, 1 copy of the generator, 2 its scope, 3 result of GreaterThan, 4 last copy looked up, 5 scope of the key
	isKey := func(v *Val) bool {
		return v == x.argVals[1] || v.Op == "vfield" && v.Fld != nil && v.Fld.Name() == "Name"
	}
	inMap := func(v *Val, n string) bool {
		return (v.Op == "lookup" || v.Op == "lookupok") && loadsField(v.Args[0], fld[n]) && isKey(v.Args[1])
	}
	fromKeys := func(v *Val) bool {
		is := func(t *Val) bool { return inMap(t, "Keys") }
		return v.find(func(t *Val) bool { return is(t) || x.wasOf[t].find(is) != nil }) != nil
	}
	isScope := func(v *Val) bool {
		f, b := v.loadedField()
		return f == kScope && fromKeys(b)
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			switch {
			case e.Target == gt:
				s.RV[3], s.RV[5] = e.Res[0], e.Args[2]
				pr.obl(e, "greater")
				if e.Args[0] != x.argVals[2] {
					pr.fail(s, e, "level", "it is not the run level given that is compared")
				}
				if e.Args[1].find(func(t *Val) bool { return inMap(t, "CopiedAt") }) == nil {
					pr.fail(s, e, "last", "the run level is not compared with that of the last copy of the key")
				}
			case strings.HasSuffix(e.Callee, "Generator.Copy"):
				s.RV[1] = nil
				f, b := e.Args[0].loadedField()
				if f == kGen && fromKeys(b) || e.Args[0].Op == "sym" && x.wasOf[e.Args[0]] != nil && fromKeys(x.wasOf[e.Args[0]]) {
					s.RV[1] = e.Res[0]
				}
			case e.Target == g.ctor:
				s.RV[0] = e.Res[0]
				id := e.Args[0]
				s.RV[2] = x.T.vfield(id, g.scope)
				if s.A[4] == 1 {
					return
				}
				news++
				pr.obl(e, "new")
				if s.RV[1] == nil || e.Args[1] != s.RV[1] {
					pr.fail(s, e, "generator", "the generator of a new copy is not a copy of the original one of the key")
				}
				if !(s.A[0] == 2 || s.A[1] == 1) {
					pr.fail(s, e, "new", "a copy is made although the unit has not changed")
				}
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			switch {
			case inMap(cond, "CopiedAt") && cond.Op == "lookupok", inMap(cond, "CopyOf") && cond.Op == "lookupok":
				if s.A[0] = 2; taken {
					s.A[0] = 1
				}
			case cond == s.RV[3]:
				if s.A[1] = 2; taken {
					s.A[1] = 1
				}
			case cond.Op == "eq":
				if str, ok := cond.Args[1].constStr(); ok && taken {
					switch {
					case str == "@PREV" && cond.Args[0] == x.argVals[1]:
						s.A[5] = 1
					case str == "_":
						s.A[4] = 1
					}
				}
			}
		case EvMapUpdate:
			switch {
			case loadsField(e.Args[0], fld["CopyOf"]):
				if !isKey(e.Args[1]) || e.Val != s.RV[0] || s.RV[0] == nil {
					pr.fail(s, e, "kept", "the new copy is not kept for this key")
				}
				s.A[3] = 1
			case loadsField(e.Args[0], fld["CopiedAt"]):
				if !isKey(e.Args[1]) || e.Val != x.argVals[2] {
					pr.fail(s, e, "level kept", "the run level of the new copy is not kept for this key")
				}
				s.A[2] = 1
			}
		case EvReturn:
			rets++
			pr.obl(e, "return")
			res := e.Res[0]
			switch {
			case s.A[5] == 1:
				if !res.isNil() {
					pr.fail(s, e, "previous", "there is a generator for the values of another one")
				}
			case s.A[4] == 1:
				if res.isNil() {
					pr.fail(s, e, "no-op", "there is no generator for the column that is not saved")
				}
			case s.RV[0] != nil:
				if s.A[2] == 0 || s.A[3] == 0 {
					pr.fail(s, e, "kept", "a new copy is not kept")
				}
				if res != s.RV[0] && !inMap(res, "CopyOf") {
					pr.fail(s, e, "returned", "the new copy is not returned")
				}
				sc := s.RV[2]
				_, isC := sc.constStr()
				if !isScope(sc) && !isC && sc.find(func(t *Val) bool { return t.Fld == kScope }) == nil {
					pr.fail(s, e, "scope", "the scope of a new copy is not that of its key")
				}
				if s.RV[5] != nil && s.RV[5] != sc {
					pr.fail(s, e, "scope", "the scope of a new copy is not that of its key")
				}
			default:
				if !(s.A[0] == 1 && s.A[1] == 2) {
					pr.fail(s, e, "old", "no copy is made although there was none or the unit has changed")
				}
				if !inMap(res, "CopyOf") {
					pr.fail(s, e, "returned", "the last copy of the key is not returned")
				}
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	c.Require(rule, rets, 3, "results of Scope.Copy")
	c.Require(rule, news, 2, "copies made by Scope.Copy")
}

func (g *scopedGen) scopeReset(rule string) {
	c, p := g.c, g.p
	fn := p.Func("data", "Scope", "Reset")
	keys, kScope := p.Field("data", "Scope", "Keys"), p.Field("data", "Key", "Scope")
	if fn == nil || keys == nil || kScope == nil {
		c.Missing(rule, "data.Scope.Reset, Keys, Key.Scope")
		return
	}
	want := map[*types.Var]int{}
	for i, n := range []string{"Keys", "CopyOf", "CopiedAt"} {
		f := p.Field("data", "Scope", n)
		if f == nil {
			c.Missing(rule, "data.Scope."+n)
			return
		}
		want[f] = 1 + i
	}
	c.Fn(fn)
	x := NewExec(p, fn)
	x.Inline = func(f *ssa.Function) bool { return strings.HasPrefix(fnPkgPath(f), modPath) }
	x.BlockEvents = true
	pr := c.pathRule(rule, x)
	// loops over the keys
	heads := map[*ssa.BasicBlock]bool{}
	for f := range p.Reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if nx, ok := in.(*ssa.Next); ok {
					if rg, ok := nx.Iter.(*ssa.Range); ok && loadOfField(rg.X) == keys {
						heads[b] = true
					}
				}
			}
		}
	}
	c.Require(rule, len(heads), 1, "loops over keys")
	rounds := 0
	// A: 0 in a round, 1-3 deleted, 4 scope is stage 1 yes 2 no, 5 global
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if strings.Contains(cond.String(), "nextok") && cond.Op == "sym" && taken {
				s.A = [24]int16{1}
				s.RV[0] = nil
			}
			if cond.Op != "eq" {
				return
			}
			if f, _ := cond.Args[0].loadedField(); f != kScope {
				return
			}
			str, _ := cond.Args[1].constStr()
			at := map[string]int{"stage": 4, "global": 5}[str]
			if at == 0 {
				return
			}
			if s.A[at] = 2; taken {
				s.A[at] = 1
			}
		case EvCall:
			if e.Callee != "builtin delete" {
				return
			}
			for f, i := range want {
				if !loadsField(e.Args[0], f) {
					continue
				}
				if !strings.Contains(e.Args[1].String(), "nextk") {
					pr.fail(s, e, "key", "another key is forgotten")
				}
				s.A[i] = 1
			}
			pr.obl(e, "delete")
		case EvBlock:
			if !heads[e.Block] || !e.Back || s.A[0] == 0 {
				return
			}
			rounds++
			ev := &Event{Instr: e.Block.Instrs[0], Fn: e.Fn}
			keep := s.A[4] == 1 || s.A[5] == 1
			n := s.A[1] + s.A[2] + s.A[3]
			switch {
			case keep && n != 0:
				pr.fail(s, ev, "kept", "a key of stage or global scope is forgotten")
			case !keep && (s.A[4] != 2 || s.A[5] != 2):
				if n != 0 {
					pr.fail(s, ev, "unknown", "a key is forgotten whatever its scope")
				} else {
					pr.fail(s, ev, "unknown", "a key is kept whatever its scope")
				}
			case !keep && n != 3:
				pr.fail(s, ev, "forgotten", "a key that is not of stage or global scope is not forgotten with its copies")
			}
			s.A = [24]int16{}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	c.Require(rule, rounds, 2, "keys looked at")
	// left early
	for h := range heads {
		for b := range loopBody(h) {
			if b == h {
				continue
			}
			for _, t := range b.Succs {
				if !loopBody(h)[t] {
					c.Fail(rule, shortFn(fn)+":early", b.Instrs[len(b.Instrs)-1].Pos(), "not every key is looked at")
				}
			}
		}
	}
}

func (g *scopedGen) clientCounters(rule string) {
	c, p := g.c, g.p
	a := clientAnchors(c, rule)
	if a == nil {
		return
	}
	rct := p.Type("data", "RunCount")
	heads := a.iterHeaders(c)
	isInput := func(cc *ssa.CallCommon) bool {
		return !cc.IsInvoke() && cc.StaticCallee() == nil && isNamed(cc.Value.Type(), modPath+"/data", "ValueFunc")
	}
	connect := p.Func("client", "Client", "Connect")
	if connect == nil {
		c.Missing(rule, "client.Client.Connect")
		return
	}
	x := c.newClientExec(a, func(in ssa.Instruction) bool {
		if st, ok := in.(*ssa.Store); ok {
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && namedOf(deref(ia.X.Type())) == rct {
				return true
			}
		}
		cl, ok := in.(ssa.CallInstruction)
		return ok && isInput(cl.Common())
	})
	inl := x.Inline
	x.Inline = func(f *ssa.Function) bool { return f != connect && (inl == nil || inl(f)) }
	x.BlockEvents = true
	x.Keep = func(f *Val) bool { return false }
	x.Forget = notErr
	pr := c.pathRule(rule, x)
	const aSt, aTrx, aIter, aConn, aBnd, aDone, aRun = 0, 1, 2, 3, 4, 5, 6
	st, tr, it, co := g.counters["STATEMENT"], g.counters["TRX"], g.counters["ITER"], g.counters["CONN"]
	values, starts, incs := 0, 0, map[int64]int{}
	endRound := func(s *State, ev *Event) {
		if s.A[aRun] == 0 {
			return
		}
		if (s.A[aTrx] == 1) != (s.A[aBnd] == 1) || s.A[aTrx] > 1 {
			pr.fail(s, ev, "trx", "the trx count is not advanced exactly for the first statement of a trx")
		}
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvStore:
			sto, ok := e.Instr.(*ssa.Store)
			if !ok {
				return
			}
			ia, ok := sto.Addr.(*ssa.IndexAddr)
			if !ok || namedOf(deref(ia.X.Type())) != rct {
				return
			}
			k, ok := x.val(s, s.top(), ia.Index).constInt()
			if !ok {
				pr.fail(s, e, "index", "cannot tell which count is changed")
				return
			}
			at := map[int64]int{st: aSt, tr: aTrx, it: aIter, co: aConn}
			i, ok := at[k]
			if !ok {
				return
			}
			incs[k]++
			pr.obl(e, "count")
			b, isB := sto.Val.(*ssa.BinOp)
			one := isB && b.Op == token.ADD && (incOf(b.X, ia) && isConstInt(b.Y, 1) || incOf(b.Y, ia) && isConstInt(b.X, 1))
			if !one && !(k == co && isConstInt(sto.Val, 1)) {
				pr.fail(s, e, "advanced", "a count is changed other than by adding 1")
			}
			if s.A[i] < 3 {
				s.A[i]++
			}
		case EvRet:
			if e.Target == connect {
				if s.A[7] < 3 {
					s.A[7]++
				}
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Op == "eq" && cond.Args[0].Op == "bin&" && isConstN(cond.Args[1], 0) || cond.Op == "eq" && cond.Args[0].Op == "bin&" && isConstN(cond.Args[1], a.BEGIN) {
				m := cond.Args[0]
				if m.find(func(t *Val) bool { return isLoadOf(t, a.TrxBoundary) }) == nil || !isConstN(m.Args[0], a.BEGIN) && !isConstN(m.Args[1], a.BEGIN) {
					return
				}
				yes := taken != isConstN(cond.Args[1], 0)
				if s.A[aBnd] = 2; yes {
					s.A[aBnd] = 1
				}
			}
		case EvCall:
			cl, ok := e.Instr.(ssa.CallInstruction)
			if !ok || !isInput(cl.Common()) {
				return
			}
			values++
			pr.obl(e, "values")
			if s.A[aSt] != 1 {
				pr.fail(s, e, "statement", "the statement count is not advanced once before the values of a statement")
			}
			if (s.A[aTrx] == 1) != (s.A[aBnd] == 1) || s.A[aBnd] == 0 {
				pr.fail(s, e, "trx", "the trx count is not advanced exactly for the first statement of a trx, before its values")
			}
		case EvBlock:
			if !heads[e.Block] {
				return
			}
			ev := &Event{Instr: e.Block.Instrs[len(e.Block.Instrs)-1], Fn: e.Fn}
			for _, in := range e.Block.Instrs {
				if in.Pos().IsValid() {
					ev.Instr = in
				}
			}
			if e.Back {
				endRound(s, ev)
				s.A[aSt], s.A[aTrx], s.A[aBnd], s.A[aRun] = 0, 0, 0, 1
				return
			}
			starts++
			pr.obl(ev, "iteration")
			if s.A[aIter] != 1 {
				pr.fail(s, ev, "iteration", "the iteration count is not advanced once per iteration")
			}
			if s.A[aConn] != s.A[7] {
				pr.fail(s, ev, "connection", "the connection count is not advanced once per connection")
			}
			s.A[aSt], s.A[aTrx], s.A[aBnd], s.A[aIter], s.A[aConn], s.A[7], s.A[aRun] = 0, 0, 0, 0, 0, 0, 1
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	c.Require(rule, values, 1, "values generated")
	c.Require(rule, starts, 1, "iterations started")
	for n, k := range map[string]int64{"statement": st, "trx": tr, "iteration": it, "connection": co} {
		c.Require(rule, incs[k], 1, n+" counts")
	}
}

// incOf: the value in the same element.
func incOf(v ssa.Value, ia *ssa.IndexAddr) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	o, ok := u.X.(*ssa.IndexAddr)
	return ok && o.X == ia.X && samePath(o.Index, ia.Index)
}
