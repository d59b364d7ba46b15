package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C16"] = ruleC16
	rules["C17"] = ruleC17
}

const (
	rateWait  = "(*golang.org/x/time/rate.Limiter).Wait"
	rateWaitN = "(*golang.org/x/time/rate.Limiter).WaitN"
	newLimit  = "golang.org/x/time/rate.NewLimiter"
)

// samePkg inlines the functions of one package.
func samePkg(rel string) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool { return fnPkgPath(fn) == modPath+"/"+rel }
}

// unboxed is the value in an interface.
func unboxed(v *Val) *Val {
	for v.Op == "iface" {
		v = v.Args[0]
	}
	return v
}

func isRoot(v *Val, al *Val) bool { return v == al || v.Op == "load" && v.Args[0] == al }

// maker is what a limiter constructor returns for a combination of absent (nil) arguments.
type maker struct {
	c    *Ctx
	rule string
	r    *pathRule
	x    *Exec
	made []*types.Named // types of the limiters made
	gos  []*ssa.Function
}

// makes explores a constructor; ret judges each return.
func (c *Ctx) makes(rule string, fn *ssa.Function, ret func(m *maker, s *State, e *Event, v *Val)) *maker {
	c.Fn(fn)
	x := NewExec(c.P, fn)
	x.Inline = samePkg("limit")
	m := &maker{c: c, rule: rule, x: x}
	m.r = c.pathRule(rule, x)
	x.Model = func(x *Exec, s *State, e *Event) []*Val {
		if e.Callee == newLimit {
			return []*Val{x.T.mk(Val{Op: "limiter", Args: []*Val{e.Args[0], e.Args[1]}})}
		}
		return nil
	}
	n := 0
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvGo:
			if e.Target != nil {
				m.gos = append(m.gos, e.Target)
				s.A[0]++
				if len(e.Args) > 0 {
					s.RV[0] = e.Args[0]
				}
				for _, a := range e.Args {
					if a.Op == "alloc" {
						s.RV[0] = a
					}
				}
			}
		case EvReturn:
			if e.Fn == fn && len(e.Res) == 1 {
				n++
				m.r.obl(e, "return of "+shortFn(fn))
				v := e.Res[0]
				if v.Op == "iface" {
					in := v.Args[0]
					if p, ok := v.T.Underlying().(*types.Pointer); ok {
						if nm, ok := p.Elem().(*types.Named); ok {
							m.made = append(m.made, nm)
						}
						if in.Op != "alloc" {
							if nn, ok := x.IsNil(s, in); !ok || nn {
								m.r.fail(s, e, "typed nil", "returns a nil pointer in an interface, which callers take for a limit")
								return
							}
						}
					} else if nm, ok := v.T.(*types.Named); ok {
						m.made = append(m.made, nm)
					}
				}
				ret(m, s, e, v)
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	c.Require(rule, n, 1, "returns of "+shortFn(fn))
	return m
}

// combine checks And / Or: the present one if only one is, nil if none, otherwise a new one of both.
func (c *Ctx) combine(rule string, fn *ssa.Function, running bool) *maker {
	return c.makes(rule, fn, func(m *maker, s *State, e *Event, v *Val) {
		x := m.x
		a, b := x.ArgVal(0), x.ArgVal(1)
		an, ak := x.IsNil(s, a)
		bn, bk := x.IsNil(s, b)
		switch {
		case v == a && (bk && bn), v == b && (ak && an):
			return // also when the one returned is nil
		case v.isNil():
			if ak && bk && an && bn {
				return
			}
			m.r.fail(s, e, "combination", "a combination is absent although one of its parts may be present")
		case v == a || v == b:
			m.r.fail(s, e, "combination", "the other part of the combination is dropped although it may be present")
		case v.Op == "iface":
			if !(ak && bk) || an || bn {
				m.r.fail(s, e, "combination", "both parts are combined although one may be absent")
				return
			}
			root := unboxed(v)
			got := map[*Val]int{}
			if st, ok := deref(v.T).Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					var w *Val
					if root.Op == "alloc" {
						w = x.Load(s, x.T.fieldAddr(root, f), f.Type())
					} else {
						w = x.T.vfield(root, f)
					}
					got[w]++
				}
			}
			if got[a] != 1 || got[b] != 1 {
				m.r.fail(s, e, "combination", "the combination does not hold both of its parts")
			}
			if running && s.A[0] != 1 {
				m.r.fail(s, e, "started", "the combined limiter is returned without its goroutine running")
			}
			if running && s.RV[0] != root {
				m.r.fail(s, e, "started", "the goroutine started is not that of the limiter returned")
			}
		default:
			m.r.fail(s, e, "combination", "the combination is of unknown origin")
		}
	})
}

// permitChans: the channels of permits made in the package have the given capacity at most.
func (c *Ctx) permitCap(rule string) int64 {
	max := int64(-1)
	for _, fn := range c.P.FuncsOf("limit") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeChan)
				if !ok {
					continue
				}
				if bt, ok := mc.Type().Underlying().(*types.Chan).Elem().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
					continue
				}
				n, ok := mc.Size.(*ssa.Const)
				if !ok {
					c.Fail(rule, shortFn(fn)+":capacity", mc.Pos(), "the capacity of a permit channel is not constant")
					continue
				}
				k := n.Int64()
				if k > max {
					max = k
				}
				c.Obl(rule, shortFn(fn)+" permit channel")
				if k > 1 {
					c.Fail(rule, shortFn(fn)+":capacity", mc.Pos(), fmt.Sprintf("unread permits accumulate: a permit channel holds %d", k))
				}
			}
		}
	}
	return max
}

// sends reports the channel a permit is offered on, by whatever statement; taken if it was sent.
func sends(e *Event) (ch *Val, offered, blocking bool) {
	switch e.Kind {
	case EvSend:
		return e.Chan, true, true
	case EvSelect:
		for i, st := range e.Sel.States {
			if st.Dir == types.SendOnly {
				return e.Args[i], true, e.Blocking
			}
		}
	}
	return nil, false, false
}

func recvCase(e *Event) *Val {
	switch e.Kind {
	case EvRecv:
		return e.Chan
	case EvSelect:
		if e.Case >= 0 && e.Sel.States[e.Case].Dir == types.RecvOnly {
			return e.Chan
		}
	}
	return nil
}

func ruleC16(c *Ctx) {
	const R, N, A = "rate", "rate-new", "rate-and"
	c.Rule(N, "NewRate returns a nil interface exactly when the rate is zero, otherwise a new limiter whose token source is rate.NewLimiter(rate, 1) and whose goroutine was started once; permit channels hold at most one permit and Allow returns the channel permits are offered on.")
	c.Rule(R, "In the goroutine of a rate limiter: every offer of a permit follows a Wait of that limiter's own token source that returned nil since the last offer, every such grant is offered before the next Wait, and the goroutine does not end except when told to.")
	c.Rule(A, "And returns the present part, nil for none, or a new limiter of both with its goroutine started; its goroutine offers a permit only after receiving one from both parts since the last offer, and does so before receiving more.")
	nr, and := c.P.Func("limit", "", "NewRate"), c.P.Func("limit", "", "And")
	if nr == nil || and == nil {
		c.Missing(N, "limit.NewRate / limit.And")
		return
	}
	capn := c.permitCap(N)

	// constructor
	var rlField *types.Var
	m := c.makes(N, nr, func(m *maker, s *State, e *Event, v *Val) {
		x := m.x
		zero, known := x.Ask(s, x.T.eq(x.ArgVal(0), x.T.intv(0)))
		if v.isNil() {
			if !known || !zero {
				m.r.fail(s, e, "absent limit", "no limiter is made although the rate may not be zero")
			}
			return
		}
		if !known || zero {
			m.r.fail(s, e, "zero rate", "a limiter is made although the rate may be zero")
		}
		root := unboxed(v)
		st, ok := deref(v.T).Underlying().(*types.Struct)
		if root.Op != "alloc" || !ok {
			m.r.fail(s, e, "limiter", "the limiter returned is not a new one")
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			if w := x.Load(s, x.T.fieldAddr(root, st.Field(i)), st.Field(i).Type()); w.Op == "limiter" {
				rlField = st.Field(i)
				rate := w.Args[0]
				for rate.Op == "conv" {
					rate = rate.Args[0]
				}
				if rate != x.ArgVal(0) {
					m.r.fail(s, e, "rate", "the token source does not have the given rate")
				}
				if n, ok := w.Args[1].constInt(); !ok || n != 1 {
					m.r.fail(s, e, "burst", "the token source allows bursts")
				}
			}
		}
		if rlField == nil {
			m.r.fail(s, e, "token source", "the limiter has no token source made for it")
		}
		if s.A[0] != 1 || s.RV[0] != root {
			m.r.fail(s, e, "started", "the limiter is returned without its goroutine running exactly once")
		}
	})
	if rlField == nil || len(m.gos) == 0 {
		c.Missing(N, "token source or goroutine of a rate limiter")
		return
	}

	// goroutine
	var permits *types.Var
	run := m.gos[0]
	{
		c.Fn(run)
		x := NewExec(c.P, run)
		x.Inline = samePkg("limit")
		r := c.pathRule(R, x)
		n := 0
		x.Hook = func(x *Exec, s *State, e *Event) {
			if ch, ok, blocking := sends(e); ok && !(e.Kind == EvSelect && recvCase(e) != nil) {
				if f, _ := ch.loadedField(); f != nil {
					if b, isB := f.Type().Underlying().(*types.Chan).Elem().Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
						n++
						permits = f
						r.obl(e, "permit offered")
						if blocking && capn > 0 {
							r.fail(s, e, "accumulates", "permits accumulate: a buffered permit channel is sent on without dropping what nobody takes")
						}
						granted := s.A[0] == 1
						if s.RV[0] != nil {
							if nn, ok := x.IsNil(s, s.RV[0]); !ok || !nn {
								granted = false
							}
						}
						if !granted {
							r.fail(s, e, "permit", "a permit is offered without a token granted for it")
						}
						s.A[0], s.RV[0] = 0, nil
					}
				}
				return
			}
			switch {
			case e.Kind == EvSelect && recvCase(e) != nil:
				s.A[0], s.RV[0], s.A[1] = 0, nil, 1
			case e.Kind == EvRecv:
				s.A[1] = 1
			case e.Kind == EvCall && (e.Callee == rateWait || e.Callee == rateWaitN):
				if s.A[0] == 1 && s.RV[0] != nil {
					if nn, ok := x.IsNil(s, s.RV[0]); !ok || nn {
						r.fail(s, e, "grant lost", "a granted token is not offered to anyone")
					}
				}
				if !isLoadOf(e.Args[0], rlField) {
					r.fail(s, e, "token source", "waits on a token source other than the limiter's own")
				}
				if e.Callee == rateWaitN {
					if k, ok := e.Args[2].constInt(); !ok || k < 1 {
						r.fail(s, e, "token source", "does not take a token per permit")
					}
				}
				r.obl(e, "token awaited")
				s.A[0], s.RV[0] = 0, nil
			case e.Kind == EvRet && (e.Callee == rateWait || e.Callee == rateWaitN):
				s.A[0], s.RV[0] = 1, e.Res[0]
			case e.Kind == EvReturn && e.In:
				if s.A[1] == 0 {
					r.fail(s, e, "ended", "the limiter's goroutine ends by itself: nobody gets permits any more")
				}
			}
		}
		x.Run(nil, nil)
		c.finish(R, x)
		c.Require(R, n, 1, "permits offered on paths of "+shortFn(run))
	}
	c.allowReturns(N, m, permits)

	// and
	ma := c.combine(A, and, true)
	if len(ma.gos) == 0 {
		c.Missing(A, "goroutine of a combined limiter")
		return
	}
	var out *types.Var
	run = ma.gos[0]
	c.Fn(run)
	x := NewExec(c.P, run)
	x.Inline = samePkg("limit")
	r := c.pathRule(A, x)
	n := 0
	x.Model = func(x *Exec, s *State, e *Event) []*Val {
		if e.Callee == rateAllow {
			return []*Val{x.T.app("allowed", e.Args[0])}
		}
		return nil
	}
	parts := map[*types.Var]int{}
	x.Hook = func(x *Exec, s *State, e *Event) {
		if ch := recvCase(e); ch != nil && ch.Op == "allowed" {
			f, _ := ch.Args[0].loadedField()
			if f == nil {
				r.fail(s, e, "part", "a permit is awaited from an unknown limiter")
				return
			}
			k, ok := parts[f]
			if !ok {
				k = len(parts)
				parts[f] = k
			}
			if k > 1 {
				r.fail(s, e, "part", "more than two limiters are combined")
				return
			}
			if s.A[0] == 1 && s.A[1] == 1 {
				r.fail(s, e, "permit lost", "both parts granted a permit but none is offered")
			}
			r.obl(e, "permit of part "+f.Name())
			s.A[k] = 1
			return
		}
		if ch, ok, blocking := sends(e); ok {
			n++
			if f, _ := ch.loadedField(); f != nil {
				out = f
			}
			r.obl(e, "combined permit offered")
			if blocking && capn > 0 {
				r.fail(s, e, "accumulates", "permits accumulate: a buffered permit channel is sent on without dropping what nobody takes")
			}
			if s.A[0] != 1 || s.A[1] != 1 {
				r.fail(s, e, "permit", "a combined permit is offered although not both parts granted one for it")
			}
			s.A[0], s.A[1] = 0, 0
		}
		if e.Kind == EvReturn && e.In {
			r.fail(s, e, "ended", "the combined limiter's goroutine ends: nobody gets permits any more")
		}
	}
	x.Run(nil, nil)
	c.finish(A, x)
	c.Require(A, n, 1, "combined permits offered on paths")
	c.Require(A, len(parts), 2, "parts a combined limiter receives from")
	c.allowReturns(A, ma, out)
}

// allowReturns: Allow of the limiter types made returns the channel permits are offered on.
func (c *Ctx) allowReturns(rule string, m *maker, permits *types.Var) {
	done := map[*types.Named]bool{}
	for _, t := range m.made {
		if done[t] {
			continue
		}
		done[t] = true
		fn := c.P.Func("limit", t.Obj().Name(), "Allow")
		if fn == nil {
			c.Missing(rule, "Allow of limit."+t.Obj().Name())
			continue
		}
		c.Fn(fn)
		x := NewExec(c.P, fn)
		x.Inline = samePkg("limit")
		r := c.pathRule(rule, x)
		x.Hook = func(x *Exec, s *State, e *Event) {
			if e.Kind == EvReturn && e.In {
				r.obl(e, "Allow")
				if f, b := unconv(e.Res[0]).loadedField(); f != permits || b != x.ArgVal(0) {
					r.fail(s, e, "permit channel", "Allow does not return the channel this limiter offers permits on")
				}
			}
		}
		x.Run(nil, nil)
		c.finish(rule, x)
	}
	c.Require(rule, len(done), 1, "limiter types")
}

func unconv(v *Val) *Val {
	for v.Op == "conv" {
		v = v.Args[0]
	}
	return v
}

func ruleC17(c *Ctx) {
	const R, Z, O, P, S = "rows", "size", "or", "limit-parse", "no-typed-nil"
	c.Rule(R, "Rows.Affected adds exactly its argument, once, and Rows.More reports whether the count is below the maximum, both while holding the lock; NewRows starts from the offset and returns a nil interface for no maximum, otherwise a limit with that maximum.")
	c.Rule(Z, "Size.More returns false on every path with a known error of a database call, otherwise the comparison of the size just read with the maximum, or true when it was not time to measure.")
	c.Rule(O, "Or returns the present part, nil for none, or a new limit of both; its More is true only when both parts allow more and asks no further than a refusal; its Affected feeds both parts the same number, once.")
	c.Rule(S, "Every value made into a limit.Data anywhere in the program is a struct, a new object, or the result of a constructor that never returns nil: never a pointer that may be nil.")
	mk := c.P.Func("limit", "", "NewRows")
	or := c.P.Func("limit", "", "Or")
	aff, more := c.P.Func("limit", "Rows", "Affected"), c.P.Func("limit", "Rows", "More")
	smore := c.P.Func("limit", "Size", "More")
	dataT := c.P.Type("limit", "Data")
	if mk == nil || or == nil || aff == nil || more == nil || smore == nil || dataT == nil {
		c.Missing(R, "limit.NewRows / Or / Rows.Affected / Rows.More / Size.More / Data")
		return
	}
	isLock := func(e *Event, on bool) (*Val, bool) {
		if e.Kind != EvCall || len(e.Args) == 0 {
			return nil, false
		}
		switch e.Callee {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			return e.Args[0], on
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
			return e.Args[0], !on
		}
		return nil, false
	}
	// Affected finds the counter
	var cnt, max *types.Var
	{
		c.Fn(aff)
		x := NewExec(c.P, aff)
		x.Inline = samePkg("limit")
		r := c.pathRule(R, x)
		n := 0
		x.Hook = func(x *Exec, s *State, e *Event) {
			if _, ok := isLock(e, true); ok {
				s.A[0] = 1
			}
			if _, ok := isLock(e, false); ok {
				s.A[0] = 0
			}
			switch {
			case e.Kind == EvStore && e.Addr.Op == "field" && e.Addr.Args[0] == x.ArgVal(0):
				f := e.Addr.Fld
				if f.Type().String() != "int64" && e.Raw.find(func(v *Val) bool { return v == x.ArgVal(1) }) == nil {
					break
				}
				old := x.T.mk(Val{Op: "load", Args: []*Val{e.Addr}, T: f.Type()})
				sum := x.T.binop(token.ADD, old, x.ArgVal(1), f.Type())
				if e.Raw == sum {
					n++
					if cnt != nil && cnt != f {
						break
					}
					cnt = f
					s.A[1]++
					r.obl(e, "rows counted")
					if s.A[1] > 1 {
						r.fail(s, e, "counted twice", "affected rows are counted twice")
					}
					if s.A[0] == 0 {
						r.fail(s, e, "unlocked", "affected rows are counted without holding the limit's lock")
					}
				} else if f == cnt {
					r.fail(s, e, "count", "the row count is changed otherwise than by the affected rows")
				}
			case e.Kind == EvReturn && e.In:
				if s.A[1] == 0 {
					r.fail(s, e, "not counted", "affected rows are not counted on this path")
				}
				if s.A[0] == 1 && len(deferredUnlocks(aff)) == 0 {
					r.fail(s, e, "lock", "the limit's lock is not released")
				}
			}
		}
		x.Run(nil, nil)
		c.finish(R, x)
		c.Require(R, n, 1, "counting of affected rows")
	}
	{
		c.Fn(more)
		x := NewExec(c.P, more)
		x.Inline = samePkg("limit")
		r := c.pathRule(R, x)
		x.Hook = func(x *Exec, s *State, e *Event) {
			if _, ok := isLock(e, true); ok {
				s.A[0], s.A[1] = 1, s.A[1]+1
			}
			if _, ok := isLock(e, false); ok {
				s.A[0] = 0
			}
			if e.Kind == EvStore && e.Addr.Op == "field" && e.Addr.Fld == cnt {
				r.fail(s, e, "count", "asking for more changes the row count")
			}
			if e.Kind == EvReturn && e.In {
				r.obl(e, "more rows")
				if s.A[1] == 0 {
					r.fail(s, e, "unlocked", "the row count is read without holding the limit's lock")
				}
				v := e.Res[0]
				ok := false
				if v.Op == "lss" {
					lf, lb := unversion(v.Args[0]).loadedField()
					rf, rb := unversion(v.Args[1]).loadedField()
					if lf == cnt && rf != nil && rf != cnt && lb == x.ArgVal(0) && rb == lb {
						ok = max == nil || max == rf
						max = rf
					}
				}
				if k, isC := v.constBool(); isC {
					for f, t := range s.facts {
						if f.Op != "lss" || t != k {
							continue
						}
						lf, _ := f.Args[0].loadedField()
						rf, _ := f.Args[1].loadedField()
						if lf == cnt && rf != nil {
							ok = max == nil || max == rf
							max = rf
						}
					}
				}
				if !ok {
					r.fail(s, e, "comparison", "more rows are allowed otherwise than while the count is below the maximum")
				}
			}
		}
		x.Run(nil, nil)
		c.finish(R, x)
		if max == nil {
			c.Missing(R, "maximum of limit.Rows")
			return
		}
		// count and maximum are read under the lock only
		for _, fn := range c.P.FuncsOf("limit") {
			c.guardedReads(R, fn, cnt, mk)
		}
	}
	c.makes(R, mk, func(m *maker, s *State, e *Event, v *Val) {
		x := m.x
		zero, known := x.Ask(s, x.T.eq(x.ArgVal(0), x.T.intv(0)))
		if v.isNil() {
			if !known || !zero {
				m.r.fail(s, e, "absent limit", "no limit is made although a maximum may be given")
			}
			return
		}
		if !known || zero {
			m.r.fail(s, e, "zero limit", "a limit is made although the maximum may be zero, which means no limit")
		}
		root := unboxed(v)
		if root.Op != "alloc" {
			m.r.fail(s, e, "limit", "the limit returned is not a new one")
			return
		}
		if x.Load(s, x.T.fieldAddr(root, max), max.Type()) != x.ArgVal(0) {
			m.r.fail(s, e, "maximum", "the limit does not have the given maximum")
		}
		if x.Load(s, x.T.fieldAddr(root, cnt), cnt.Type()) != x.ArgVal(1) {
			m.r.fail(s, e, "offset", "counting does not start from the given offset")
		}
	})

	// size
	{
		ns := c.P.Func("limit", "", "NewSize")
		if ns == nil {
			c.Missing(Z, "limit.NewSize")
			return
		}
		var smax *types.Var
		x := NewExec(c.P, ns)
		x.Inline = samePkg("limit")
		r := c.pathRule(Z, x)
		x.Hook = func(x *Exec, s *State, e *Event) {
			if e.Kind == EvReturn && e.In {
				root := unboxed(e.Res[0])
				st, ok := deref(ns.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
				r.obl(e, "new size limit")
				if root.Op != "alloc" || !ok {
					r.fail(s, e, "limit", "the size limit returned is not a new one")
					return
				}
				smax = nil
				for i := 0; i < st.NumFields(); i++ {
					if f := st.Field(i); x.Load(s, x.T.fieldAddr(root, f), f.Type()) == x.ArgVal(0) {
						smax = f
					}
				}
				if smax == nil {
					r.fail(s, e, "maximum", "the size limit does not have the given maximum")
				}
			}
		}
		x.Run(nil, nil)
		c.finish(Z, x)
		c.Fn(ns, smore)
		x = NewExec(c.P, smore)
		x.Inline = samePkg("limit")
		x.Forget = func(v *Val) bool { return true }
		x.Keep = func(f *Val) bool {
			return f.find(isErrVal) != nil || f.find(func(v *Val) bool {
				fl, _ := v.loadedField()
				return fl != nil && isNamed(deref(v.Args[0].Args[0].T), modPath+"/limit", "Size")
			}) != nil
		}
		r = c.pathRule(Z, x)
		nq, nt := 0, 0
		x.Hook = func(x *Exec, s *State, e *Event) {
			switch e.Kind {
			case EvRet:
				if k := sqlKind(e.Callee); k != "" || hasAnyPrefix(e.Callee, "(*database/sql.Row") {
					nq++
					s.A[0] = 1
					for _, v := range e.Res {
						if isErrVal(v) {
							// a pending unchecked error must not be overwritten
							if s.RV[0] != nil {
								if nn, ok := x.IsNil(s, s.RV[0]); !ok || !nn {
									if hasAnyPrefix(e.Callee, "(*database/sql.Rows).Close") {
										break
									}
									r.fail(s, e, "error ignored", "goes on although the previous database call may have failed")
								}
							}
							if !hasAnyPrefix(e.Callee, "(*database/sql.Rows).Close") {
								s.RV[0] = v
								if e.Callee == "(*database/sql.Row).Scan" {
									if len(e.Args) == 2 {
										if vs, _ := x.VarArgs(s, e.Args[1]); len(vs) == 1 && isNumPtr(vs[0]) {
											s.RV[1] = unboxed(vs[0])
											s.A[1] = 1
										}
									}
								}
							}
						}
					}
				}
			case EvReturn:
				if !e.In {
					return
				}
				r.obl(e, "size limit decision")
				v := e.Res[0]
				pend := false
				if s.RV[0] != nil {
					nn, ok := x.IsNil(s, s.RV[0])
					pend = !ok || !nn
				}
				if k, ok := v.constBool(); ok {
					if k && (pend) {
						r.fail(s, e, "error", "more data is allowed although measuring may have failed")
					}
					if k && s.A[1] == 1 && !lssFact(x, s, smax, s.RV[1], true) {
						r.fail(s, e, "comparison", "more data is allowed without comparing the measured size")
					}
					if !k && !pend && !lssFact(x, s, smax, s.RV[1], false) {
						r.fail(s, e, "stopped", "loading stops although nothing failed and the maximum is not known to be reached")
					}
					return
				}
				nt++
				if pend {
					r.fail(s, e, "error", "the size is compared although reading it may have failed")
				}
				ok := false
				if v.Op == "lss" {
					rf, rb := v.Args[1].loadedField()
					ok = rf == smax && rb == x.ArgVal(0) && s.RV[1] != nil && v.Args[0] == x.Load(s, s.RV[1], types.Typ[types.Uint64])
				}
				if !ok {
					r.fail(s, e, "comparison", "more data is allowed otherwise than while the measured size is below the maximum")
				}
			}
		}
		x.Run(nil, nil)
		c.finish(Z, x)
		c.Require(Z, nq, 3, "database calls in Size.More")
		_ = nt
	}

	// or
	mo := c.combine(O, or, false)
	done := map[*types.Named]bool{}
	for _, t := range mo.made {
		if done[t] {
			continue
		}
		done[t] = true
		fm, fa := c.P.Func("limit", t.Obj().Name(), "More"), c.P.Func("limit", t.Obj().Name(), "Affected")
		if fm == nil || fa == nil {
			c.Missing(O, "More and Affected of limit."+t.Obj().Name())
			continue
		}
		c.Fn(fm, fa)
		const callMore, callAff = "invoke " + limitPkg + ".Data.More", "invoke " + limitPkg + ".Data.Affected"
		part := func(v *Val) *types.Var {
			if f, _ := v.loadedField(); f != nil {
				return f
			}
			if v.Op == "vfield" {
				return v.Fld
			}
			return nil
		}
		x := NewExec(c.P, fm)
		x.Inline = samePkg("limit")
		r := c.pathRule(O, x)
		asked := map[*types.Var]int{}
		slot := func(f *types.Var) int {
			if _, ok := asked[f]; !ok {
				asked[f] = len(asked)
			}
			return asked[f]
		}
		x.Hook = func(x *Exec, s *State, e *Event) {
			switch {
			case e.Kind == EvRet && e.Callee == callMore:
				f := part(e.Args[0])
				if f == nil || len(asked) > 2 {
					r.fail(s, e, "part", "an unknown limit is asked")
					return
				}
				k := slot(f)
				s.A[k] = 1
				s.RV[k] = e.Res[0]
				if e.Args[1] != x.ArgVal(1) {
					r.fail(s, e, "connection", "a part is asked with another connection")
				}
			case e.Kind == EvReturn && e.In:
				r.obl(e, "combined decision")
				v := e.Res[0]
				tr := func(k int) (bool, bool) {
					if s.A[k] == 0 {
						return false, false
					}
					if s.RV[k] == v { // result of the last part
						return true, true
					}
					return x.Ask(s, s.RV[k])
				}
				av, ak := tr(0)
				bv, bk := tr(1)
				if k, ok := v.constBool(); ok && !k {
					if !(ak && !av || bk && !bv) {
						r.fail(s, e, "refused", "more data is refused although neither part refused")
					}
					return
				}
				if v.Op == "and" {
					return
				}
				if !(ak && av && bk && bv) {
					r.fail(s, e, "allowed", "more data is allowed although not both parts allow it")
				}
			}
		}
		x.Run(nil, nil)
		c.finish(O, x)
		c.Require(O, len(asked), 2, "parts asked by a combined limit")

		x = NewExec(c.P, fa)
		x.Inline = samePkg("limit")
		r = c.pathRule(O, x)
		x.Hook = func(x *Exec, s *State, e *Event) {
			switch {
			case e.Kind == EvCall && e.Callee == callAff:
				f := part(e.Args[0])
				if f == nil {
					return
				}
				k := slot(f)
				s.A[k]++
				if s.A[k] > 1 {
					r.fail(s, e, "fed twice", "a part of a combined limit counts rows twice")
				}
				if e.Args[1] != x.ArgVal(1) {
					r.fail(s, e, "count", "a part of a combined limit gets another number of rows")
				}
			case e.Kind == EvReturn && e.In:
				r.obl(e, "both parts fed")
				if s.A[0] != 1 || s.A[1] != 1 {
					r.fail(s, e, "not fed", "a part of a combined limit is not told the affected rows")
				}
			}
		}
		x.Run(nil, nil)
		c.finish(O, x)
	}
	c.Require(O, len(done), 1, "combined limit types")

	// typed nil anywhere
	nm := 0
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || !isNamed(mi.Type(), modPath+"/limit", "Data") && !isNamed(mi.Type(), modPath+"/limit", "Rate") {
					continue
				}
				if fn.Name() == "init" && fn.Synthetic != "" {
					continue // compile-time assertions of the interface
				}
				nm++
				c.Obl(S, shortFn(fn)+" "+typeName(mi.X.Type()))
				if !c.P.neverNil(mi.X, mi, map[ssa.Value]bool{}) {
					c.Fail(S, shortFn(fn)+":"+typeName(mi.X.Type()), mi.Pos(), "a pointer that may be nil is made into a limit: it is then taken for a present limit")
				}
			}
		}
	}
	c.Require(S, nm, 2, "values made into limits")
}

// neverNil: structs, new objects, and results of functions that return only those; or a value
// compared with nil by a branch that dominates the use.
func (p *Prog) neverNil(v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
		return true
	}
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !p.neverNil(e, nil, seen) && (at == nil || !nilChecked(v, at)) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && p.IsRepo(f) && f.Signature.Results().Len() == 1 {
			ok := len(f.Blocks) > 0
			for _, b := range f.Blocks {
				if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR {
					ok = ok && p.neverNil(r.Results[0], r, seen)
				}
			}
			if ok {
				return true
			}
		}
	}
	return at != nil && nilChecked(v, at)
}

// nilChecked: at is reached only when v is known not to be nil.
func nilChecked(v ssa.Value, at ssa.Instruction) bool {
	for _, rf := range *v.Referrers() {
		bo, ok := rf.(*ssa.BinOp)
		if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) {
			continue
		}
		o := bo.Y
		if o == v {
			o = bo.X
		}
		if k, ok := o.(*ssa.Const); !ok || k.Value != nil {
			continue
		}
		for _, r2 := range *bo.Referrers() {
			iff, ok := r2.(*ssa.If)
			if !ok {
				continue
			}
			t := iff.Block().Succs[0]
			if bo.Op == token.EQL {
				t = iff.Block().Succs[1]
			}
			if len(t.Preds) == 1 && t.Dominates(at.Block()) {
				return true
			}
		}
	}
	return false
}

// isNumPtr: a pointer to a number in an interface.
func isNumPtr(v *Val) bool {
	if v.Op != "iface" || v.T == nil {
		return false
	}
	p, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	b, ok := p.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// lssFact: the path decided whether the measured value is below the maximum.
func lssFact(x *Exec, s *State, max *types.Var, cell *Val, want bool) bool {
	for f, t := range s.facts {
		if f.Op == "lss" && t == want {
			if rf, _ := f.Args[1].loadedField(); rf == max {
				return true
			}
		}
	}
	return false
}

func unversion(v *Val) *Val { return v }

// deferredUnlocks lists deferred unlock calls.
func deferredUnlocks(fn *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok && hasAnyPrefix(calleeName(&d.Call), "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock") {
				out = append(out, in)
			}
		}
	}
	return out
}

// guardedReads: a field is read only with the lock of the same object held on every path.
func (c *Ctx) guardedReads(rule string, fn *ssa.Function, fld *types.Var, except ...*ssa.Function) {
	for _, e := range except {
		if e == fn {
			return
		}
	}
	uses := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && fieldOf(fa) == fld {
				uses = true
			}
		}
	}
	if !uses {
		return
	}
	held := c.P.locks().must
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldOf(fa) == fld {
				c.Obl(rule, shortFn(fn)+" reads "+fld.Name())
				if len(held[in]) == 0 {
					c.Fail(rule, shortFn(fn)+":"+fld.Name(), u.Pos(), "the shared count is read without holding the lock")
				}
			}
		}
	}
}

var _ = constant.MakeInt64
