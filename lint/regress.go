package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// newSession decides that a client that closes its connection and asks for another gets a new MySQL session:
// no database handle keeps closed connections in a pool.
func (c *Ctx) newSession(rule string) {
	p := c.P
	mk := p.Func("dbconn", "", "Make")
	if mk == nil {
		c.Missing(rule, "dbconn.Make")
		return
	}
	opens := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := calleeName(ci.Common())
		return n == "database/sql.Open" || n == "database/sql.OpenDB" || n == "(*database/sql.DB).SetMaxIdleConns"
	}
	x := NewExec(p, mk)
	x.Inline = func(f *ssa.Function) bool { return p.IsRepo(f) && p.reachesInstr(f, opens) }
	pr := c.pathRule(rule, x)
	n := 0
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvCall:
			if e.Callee == "(*database/sql.DB).SetMaxIdleConns" && len(e.Args) == 2 {
				k, ok := e.Args[1].constInt()
				s.A[0] = 0
				if ok && k <= 0 && s.RV[0] != nil && e.Args[0] == s.RV[0] {
					s.A[0] = 1
				}
			}
		case EvRet:
			if e.Callee == "database/sql.Open" || e.Callee == "database/sql.OpenDB" {
				s.RV[0], s.A[0] = e.Res[0], 0
			}
		case EvReturn:
			if s.RV[0] == nil || len(e.Res) == 0 || e.Res[0] != s.RV[0] {
				return
			}
			if len(e.Res) > 0 {
				if nl, known := x.IsNil(s, e.Res[len(e.Res)-1]); known && !nl && isErrorType(e.Res[len(e.Res)-1].T) {
					return
				}
			}
			n++
			pr.obl(e, "pool")
			if s.A[0] != 1 {
				pr.fail(s, e, "pool", "closed connections are kept in the pool of the database handle: a client that reconnects can get the session it closed, with its open transaction")
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	c.Require(rule, n, 1, "paths on which dbconn.Make returns a database handle")
	for _, f := range p.Funcs {
		for _, ci := range callsOf(f) {
			switch calleeName(ci.Common()) {
			case "(*database/sql.DB).SetMaxIdleConns":
				c.Obl(rule, p.Pos(ci.Pos())+" SetMaxIdleConns")
				if k, ok := ci.Common().Args[1].(*ssa.Const); !ok || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() > 0 {
					c.Fail(rule, shortFn(f)+":SetMaxIdleConns", ci.Pos(), "closed connections are kept in the pool of the database handle")
				}
			case "database/sql.Open", "database/sql.OpenDB":
				c.Obl(rule, p.Pos(ci.Pos())+" open")
				if f != mk && !p.Reach(mk)[f] {
					c.Fail(rule, shortFn(f)+":Open", ci.Pos(), "a database handle is made elsewhere than in dbconn.Make")
				}
			}
		}
	}
}

// reachesInstr: fn, or a function it calls, has such an instruction.
func (p *Prog) reachesInstr(fn *ssa.Function, is func(ssa.Instruction) bool) bool {
	for f := range p.Reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if is(in) {
					return true
				}
			}
		}
	}
	return false
}

// failedResults decides that what a call returns besides an error is not used where the error is known.
func (c *Ctx) failedResults(rule string) {
	p := c.P
	n := 0
	for _, f := range p.Funcs {
		for _, e := range errCalls(f) {
			call, ok := e.call.(*ssa.Call)
			if !ok || e.err == nil || call.Referrers() == nil {
				continue
			}
			for _, u := range *call.Referrers() {
				ex, ok := u.(*ssa.Extract)
				if !ok || ssa.Value(ex) == e.err || ex.Referrers() == nil {
					continue
				}
				switch ex.Type().Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
				default:
					continue
				}
				g := p.Implementation(call.Common())
				n++
				c.Obl(rule, shortFn(f)+":"+e.name)
				if g != nil && alwaysResult(g, ex.Index) {
					continue
				}
				if pos := usedOnError(call, e.err, ex); pos != token.NoPos {
					c.Fail(rule, shortFn(f)+":"+e.name, pos, "the result of "+dropName(e.name)+" is used where its error is known not to be nil: it is nil then")
				}
			}
		}
	}
	c.Require(rule, n, 20, "results next to an error")
}

// Implementation is the repository function a call calls for certain.
func (p *Prog) Implementation(com *ssa.CallCommon) *ssa.Function {
	if g := com.StaticCallee(); g != nil && p.IsRepo(g) && len(g.Blocks) > 0 {
		return g
	}
	return nil
}

// alwaysResult: the result is not nil whatever the error.
func alwaysResult(fn *ssa.Function, k int) bool {
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || k >= len(ret.Results) {
			continue
		}
		switch ret.Results[k].(type) {
		case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeMap, *ssa.Global, *ssa.Function, *ssa.MakeClosure:
		default:
			return false
		}
	}
	return true
}

// usedOnError: a dereference of v (a result of call) that can be reached from where err is known not to be nil.
func usedOnError(call *ssa.Call, err, v ssa.Value) token.Pos {
	if err.Referrers() == nil {
		return token.NoPos
	}
	nilTest := func(cond ssa.Value, of ssa.Value) (ssa.Value, bool) { // cond tests of against nil; true: equal
		bo, ok := cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			return nil, false
		}
		isNil := func(x ssa.Value) bool { k, ok := x.(*ssa.Const); return ok && k.Value == nil }
		if bo.X == of && isNil(bo.Y) || bo.Y == of && isNil(bo.X) {
			return of, bo.Op == token.EQL
		}
		return nil, false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var hit token.Pos
	var walk func(from, b *ssa.BasicBlock)
	walk = func(from, b *ssa.BasicBlock) {
		if seen[b] || hit != token.NoPos || b == call.Block() {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if ci, ok := in.(ssa.CallInstruction); ok && ends(calleeName(ci.Common())) {
				return
			}
			if derefs(in, v) {
				hit = in.Pos()
				if hit == token.NoPos {
					hit = call.Pos()
				}
				return
			}
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if w, eq := nilTest(iff.Cond, v); w != nil { // nil here
				if eq {
					walk(b, b.Succs[0])
				} else {
					walk(b, b.Succs[1])
				}
				return
			}
			if w, eq := nilTest(iff.Cond, err); w != nil {
				if eq {
					walk(b, b.Succs[1])
				} else {
					walk(b, b.Succs[0])
				}
				return
			}
		}
		for _, s := range b.Succs {
			walk(b, s)
		}
	}
	for _, u := range *err.Referrers() {
		bo, ok := u.(*ssa.BinOp)
		if !ok || bo.Referrers() == nil {
			continue
		}
		w, eq := nilTest(bo, err)
		if w == nil {
			continue
		}
		for _, r := range *bo.Referrers() {
			iff, ok := r.(*ssa.If)
			if !ok {
				continue
			}
			arm := 0
			if eq {
				arm = 1
			}
			walk(iff.Block(), iff.Block().Succs[arm])
		}
	}
	return hit
}

func derefs(in ssa.Instruction, v ssa.Value) bool {
	switch i := in.(type) {
	case *ssa.FieldAddr:
		return i.X == v
	case *ssa.UnOp:
		return i.Op == token.MUL && i.X == v
	case *ssa.Store:
		return i.Addr == v
	case *ssa.MapUpdate:
		return i.Map == v
	case *ssa.TypeAssert:
		return i.X == v && !i.CommaOk
	case ssa.CallInstruction:
		com := i.Common()
		if com.IsInvoke() {
			return com.Value == v
		}
		if com.Value == v {
			return true
		}
		sg := com.Signature()
		return sg.Recv() != nil && len(com.Args) > 0 && com.Args[0] == v && derefsReceiver(com.StaticCallee())
	}
	return false
}

// derefsReceiver: the method uses its pointer receiver before it asks whether it is nil.
func derefsReceiver(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if len(fn.Blocks) == 0 || len(fn.Params) == 0 {
		return true
	}
	for _, in := range fn.Blocks[0].Instrs {
		if derefs(in, fn.Params[0]) {
			return true
		}
	}
	return false
}

// paramRounds decides that parameters that refer to parameters are substituted until nothing changes:
// one pass over a map depends on its random order.
func (c *Ctx) paramRounds(rule string, root, vars *ssa.Function) {
	p := c.P
	if p.Reach(vars)[vars] && p.callsItself(vars) {
		return // resolves references itself
	}
	n := 0
	for f := range p.Reach(root) {
		if fnPkgPath(f) != modPath+"/config" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				inner := p.loopsOf(b)
				if len(inner) == 0 {
					continue
				}
				call := fromCall(mu.Value, vars, map[ssa.Value]bool{})
				if call == nil || !sameSource(call.Call.Args[1], mu.Map) {
					continue
				}
				n++
				c.Obl(rule, p.Pos(mu.Pos())+" rounds")
				if len(inner) > 1 {
					out := inner[0]
					for _, h := range inner {
						if len(loopBody(h)) > len(loopBody(out)) {
							out = h
						}
					}
					if w := p.roundsEnd(out, mu.Map); w != "" {
						c.Fail(rule, shortFn(f)+":rounds", mu.Pos(), w)
					}
					continue
				}
				again := false
				for _, ci := range p.callersOf(f) {
					again = again || f != root && p.Reach(root)[ci.Parent()] && len(p.loopsOf(ci.Block())) > 0
				}
				if !again {
					c.Fail(rule, shortFn(f)+":rounds", mu.Pos(), "parameters are substituted with parameters in one pass only: whether a reference to a parameter that has references itself is resolved depends on the order of a map")
				}
			}
		}
	}
	c.Require(rule, n, 1, "substitutions of parameters in parameters")
}

func (p *Prog) callsItself(fn *ssa.Function) bool {
	for _, g := range p.callGraph()[fn] {
		if g == fn || p.IsRepo(g) && p.Reach(g)[fn] && g != fn {
			return true
		}
	}
	return false
}

func fromCall(v ssa.Value, fn *ssa.Function, seen map[ssa.Value]bool) *ssa.Call {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	switch u := v.(type) {
	case *ssa.Call:
		if u.Call.StaticCallee() == fn {
			return u
		}
	case *ssa.Extract:
		return fromCall(u.Tuple, fn, seen)
	case *ssa.Phi:
		for _, e := range u.Edges {
			if r := fromCall(e, fn, seen); r != nil {
				return r
			}
		}
	case *ssa.UnOp:
		if al, ok := u.X.(*ssa.Alloc); ok && al.Referrers() != nil {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					if r := fromCall(st.Val, fn, seen); r != nil {
						return r
					}
				}
			}
		}
	}
	return nil
}

// sameSource: the same value, or loads of the same field of the same thing.
func sameSource(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || la.Op != token.MUL || lb.Op != token.MUL {
		return false
	}
	if la.X == lb.X {
		return true
	}
	fa, fb := fieldOf(la.X), fieldOf(lb.X)
	return fa != nil && fa == fb
}

// roundsEnd: the loop is left (other than with an error) only when nothing changed or after as many rounds as there are entries.
func (p *Prog) roundsEnd(h *ssa.BasicBlock, m ssa.Value) string {
	body := loopBody(h)
	for b := range body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for _, s := range b.Succs {
			if body[s] {
				continue
			}
			cond := iff.Cond
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond = u.X
			}
			bo, ok := cond.(*ssa.BinOp)
			if !ok {
				continue // a flag
			}
			if isErrorType(bo.X.Type()) || isErrorType(bo.Y.Type()) {
				continue
			}
			lenOf := func(v ssa.Value) bool {
				for {
					if o, ok := v.(*ssa.BinOp); ok && (o.Op == token.ADD || o.Op == token.MUL) {
						v = o.X
						continue
					}
					break
				}
				call, ok := v.(*ssa.Call)
				return ok && calleeName(&call.Call) == "builtin len" && sameSource(call.Call.Args[0], m)
			}
			isCount := func(v ssa.Value) bool { // a counter of changes
				k, ok := v.(*ssa.Const)
				return ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() <= 1 && (bo.Op == token.EQL || bo.Op == token.NEQ || bo.Op == token.GTR || bo.Op == token.LEQ)
			}
			if lenOf(bo.X) || lenOf(bo.Y) || isCount(bo.Y) || isCount(bo.X) {
				continue
			}
			return "the rounds of substituting parameters with parameters end before nothing changes"
		}
	}
	return ""
}

// wholeNeedles decides that nothing in package trx looks for a variable text inside another one.
func (c *Ctx) wholeNeedles(rule string) {
	n := 0
	for _, f := range c.P.FuncsOf("trx") {
		for _, ci := range callsOf(f) {
			a := ci.Common().Args
			switch calleeName(ci.Common()) {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.Index", "strings.LastIndex", "strings.Replace", "strings.ReplaceAll", "strings.Count", "strings.Cut", "strings.TrimPrefix", "strings.Split", "strings.SplitN":
			default:
				continue
			}
			n++
			c.Obl(rule, c.P.Pos(ci.Pos())+" needle")
			if _, ok := a[1].(*ssa.Const); !ok && !constGlobal(a[1]) {
				c.Fail(rule, shortFn(f)+":"+calleeName(ci.Common()), ci.Pos(), "text that is not constant (a data key) is looked for inside another text: it also matches a part of another data key")
			}
		}
	}
	c.Require(rule, n, 5, "searches in text")
}

func constGlobal(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		_, ok := u.X.(*ssa.Global)
		return ok
	}
	if bo, ok := v.(*ssa.BinOp); ok {
		_, a := bo.X.(*ssa.Const)
		_, b := bo.Y.(*ssa.Const)
		return a && b
	}
	return false
}
