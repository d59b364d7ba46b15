package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C26"] = ruleC26
}

// atomicOp: the operation of a call on a sync/atomic.Pointer.
func atomicOp(name string) string {
	const pre = "(*sync/atomic.Pointer["
	if !strings.HasPrefix(name, pre) {
		return ""
	}
	return name[strings.LastIndex(name, ".")+1:]
}

func isAtomicPtr(t types.Type) bool {
	n, _ := t.(*types.Named)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" && n.Obj().Name() == "Pointer"
}

func ruleC26(c *Ctx) {
	const SW, AC, BO, CO = "swap", "active-only", "borrowed", "collect"
	c.Rule(SW, "On every path Trx.Swap resets the set that is not active, then stores it once as the active one, then returns the set that was active and neither resets nor changes that one; the flag that tells them apart is switched with them, and is consistent with what NewTrx makes active.")
	c.Rule(AC, "Only Swap and NewTrx touch the two sets and store the active pointer, and a client records only into what it has just loaded as the active set, in one call.")
	c.Rule(BO, "What Swap returns is never changed by whoever gets it: it is never the receiver of a method that changes statistics, never stored through, and never put into the statistics handed to reporters.")
	c.Rule(CO, "Collecting switches every watched set once and combines each into the totals.")
	p := c.P
	tt, st := p.Type("stats", "Trx"), p.Type("stats", "Stats")
	swap, mk := p.Func("stats", "Trx", "Swap"), p.Func("stats", "", "NewTrx")
	if tt == nil || st == nil || swap == nil || mk == nil || structOf(tt) == nil {
		c.Missing(SW, "stats.Trx, stats.Stats, Trx.Swap, NewTrx")
		return
	}
	var sets []*types.Var
	var ptr, flag *types.Var
	s := structOf(tt)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case ptrTo(f.Type(), st):
			sets = append(sets, f)
		case isAtomicPtr(f.Type()):
			ptr = f
		case isBoolT(f.Type()):
			flag = f
		}
	}
	if len(sets) != 2 || ptr == nil {
		c.Fail(SW, "stats.Trx", tt.Obj().Pos(), "Trx does not have two sets of statistics and an atomic pointer to the active one")
		return
	}
	// which methods of Stats change their receiver or arguments
	muts := p.statsMutators(st)
	stats := map[string]bool{}
	for f := range muts {
		stats[fnName(f)] = true
	}

	// ---- swap
	c.Fn(swap, mk)
	inl := func(f *ssa.Function) bool {
		return fnPkgPath(f) == modPath+"/stats" && !ptrTo(recvType(f), st) && f != p.Func("stats", "", "NewStats")
	}
	type sw struct{ active, idle int } // sets of a path, 1-based
	byFlag := map[int]sw{}
	{
		x := NewExec(p, swap)
		x.Inline = inl
		pr := c.pathRule(SW, x)
		const (
			aFlag   = iota // initial flag: 1 true, 2 false
			aStored        // set stored: 1, 2
			aReset         // bitmask of sets reset
			aSwap          // returned value is what the atomic Swap replaced
			aIs            // set known to be active by comparison
			aNew           // flag stored: 1 true, 2 false
			aMany
		)
		x.Hook = func(x *Exec, s *State, e *Event) {
			t := x.ArgVal(0)
			which := func(v *Val) int {
				f, b := v.loadedField()
				if f != nil && b == t {
					for i, g := range sets {
						if f == g {
							return i + 1
						}
					}
				}
				return 0
			}
			switch e.Kind {
			case EvBranch:
				cond, taken := e.Cond, e.Taken
				for cond.Op == "not" {
					cond, taken = cond.Args[0], !taken
				}
				if f, b := cond.loadedField(); f != nil && f == flag && b == t && s.A[aNew] == 0 {
					s.A[aFlag] = 2
					if taken {
						s.A[aFlag] = 1
					}
				}
				if cond.Op == "eq" && s.A[aStored] == 0 {
					for k := 0; k < 2; k++ {
						if w := which(cond.Args[k]); w != 0 && s.RV[0] != nil && cond.Args[1-k] == s.RV[0] {
							s.A[aIs] = int16(w)
							if !taken {
								s.A[aIs] = int16(3 - w)
							}
						}
					}
				}
			case EvStore:
				if e.Addr.Op == "field" && e.Addr.Args[0] == t {
					if e.Addr.Fld == flag {
						v := e.Val
						if b, ok := v.constBool(); ok {
							s.A[aNew] = 2
							if b {
								s.A[aNew] = 1
							}
						} else {
							neg := false
							for v.Op == "not" {
								v, neg = v.Args[0], !neg
							}
							if f, b := v.loadedField(); f == flag && b == t && neg && s.A[aNew] == 0 {
								s.A[aNew] = 3 // negated
							} else {
								s.A[aNew] = 4
							}
						}
					} else if isIn(sets, e.Addr.Fld) {
						pr.fail(s, e, "sets", "switching replaces one of the two sets")
					}
				}
				if f, b, _ := elemOf(e.Addr); f != nil && which(b) != 0 {
					pr.fail(s, e, "stores", "switching changes the statistics of a set")
				}
			case EvCall:
				if op := atomicOp(e.Callee); op != "" && e.Args[0].Op == "field" && e.Args[0].Fld == ptr {
					switch op {
					case "Store", "Swap":
						pr.obl(e, op)
						w := which(e.Args[1])
						if w == 0 {
							pr.fail(s, e, "store", "what becomes active is not one of the two sets")
							return
						}
						if s.A[aStored] != 0 {
							pr.fail(s, e, "twice", "the active set is switched twice")
						}
						if s.A[aReset]&(1<<w) == 0 {
							pr.fail(s, e, "not reset", "the set is made active without being reset first")
						}
						s.A[aStored] = int16(w)
					case "Load":
					default:
						pr.fail(s, e, op, "the active pointer is used in a way the rule does not know")
					}
					return
				}
				if f := e.Target; f != nil && muts[f] && !e.Inlined {
					for i, a := range e.Args {
						w := which(a)
						if w == 0 || i > 0 && !muts2(p, f, i) {
							continue
						}
						if f.Name() != "Reset" || i != 0 {
							pr.fail(s, e, f.Name(), "switching changes a set other than by resetting it")
							continue
						}
						if s.A[aStored] != 0 {
							pr.fail(s, e, "reset late", "a set is reset after the switch: it is active, or is the one to report")
						}
						s.A[aReset] |= 1 << w
					}
				}
			case EvRet:
				if op := atomicOp(e.Callee); op != "" && e.Args[0].Op == "field" && e.Args[0].Fld == ptr && len(e.Res) > 0 {
					if op == "Load" && s.A[aStored] == 0 {
						s.RV[0] = e.Res[0]
					}
					if op == "Swap" {
						s.RV[1] = e.Res[0]
					}
				}
			case EvReturn:
				if e.Fn != swap {
					return
				}
				pr.obl(e, "end")
				if len(e.Res) != 1 {
					pr.fail(s, e, "result", "Swap does not return one set")
					return
				}
				if s.A[aStored] == 0 {
					pr.fail(s, e, "none", "a path switches nothing")
					return
				}
				ret := which(e.Res[0])
				st := int(s.A[aStored])
				old := 3 - st
				if e.Res[0] != s.RV[1] && e.Res[0] != s.RV[0] && ret != old {
					pr.fail(s, e, "same", "what is returned is not the set that was switched away from")
				}
				if s.A[aReset]&(1<<old) != 0 {
					pr.fail(s, e, "old reset", "the set to report is reset")
				}
				// the set stored must be the idle one
				switch {
				case s.A[aIs] != 0:
					if int(s.A[aIs]) != old {
						pr.fail(s, e, "active", "the set that becomes active was active already")
					}
				case s.A[aFlag] == 1 || s.A[aFlag] == 2:
					fl := int(s.A[aFlag])
					if o, ok := byFlag[fl]; ok && (o.active != old) {
						pr.fail(s, e, "flag", "the flag does not tell which set is active")
					}
					byFlag[fl] = sw{active: old, idle: st}
					nf := s.A[aNew]
					if !(nf == 3 || fl == 1 && nf == 2 || fl == 2 && nf == 1) {
						pr.fail(s, e, "flag kept", "the flag that tells which set is active is not switched with it")
					}
				default:
					pr.fail(s, e, "unknown", "nothing tells which set is active")
				}
			}
		}
		x.Run(nil, nil)
		c.finish(SW, x)
		if len(byFlag) > 0 {
			if len(byFlag) != 2 || byFlag[1].active == byFlag[2].active {
				c.Fail(SW, "Trx.Swap:alternate", swap.Pos(), "the two values of the flag do not stand for the two sets")
			}
		}
	}
	// ---- the start
	{
		x := NewExec(p, mk)
		x.Inline = func(f *ssa.Function) bool { return inl(f) }
		pr := c.pathRule(SW, x)
		x.Hook = func(x *Exec, s *State, e *Event) {
			switch e.Kind {
			case EvStore:
				if e.Addr.Op == "field" {
					for i, f := range sets {
						if e.Addr.Fld == f {
							s.RV[2+i] = e.Val
						}
					}
					if e.Addr.Fld == flag {
						s.A[0] = 2
						if b, ok := e.Val.constBool(); ok && b {
							s.A[0] = 1
						} else if !ok {
							s.A[0] = 3
						}
					}
				}
			case EvCall:
				if atomicOp(e.Callee) == "Store" && e.Args[0].Op == "field" && e.Args[0].Fld == ptr {
					s.RV[4] = e.Args[1]
				}
			case EvReturn:
				if e.Fn != mk {
					return
				}
				pr.obl(e, "start")
				a, b, act := s.RV[2], s.RV[3], s.RV[4]
				if a == nil || b == nil || act == nil || a == b || act != a && act != b {
					pr.fail(s, e, "start", "a new Trx does not start with two sets of its own, one of them active")
					return
				}
				w := 1
				if act == b {
					w = 2
				}
				if len(byFlag) > 0 {
					fl := int(s.A[0])
					if fl == 0 {
						fl = 2
					}
					if byFlag[fl].active != w {
						pr.fail(s, e, "start flag", "a new Trx starts with a flag that names the other set")
					}
				}
			}
		}
		x.Run(nil, nil)
		c.finish(SW, x)
	}

	// ---- who touches the sets
	nload := 0
	for _, fn := range p.Funcs {
		if !p.IsRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if ok {
					f := fieldOf(fa)
					switch {
					case isIn(sets, f) || f == flag && flag != nil:
						c.Obl(AC, shortFn(fn)+" "+f.Name())
						if fn != swap && fn != mk && !p.onlyCalledBy(fn, swap, mk) {
							c.Fail(AC, shortFn(fn)+":"+f.Name(), in.Pos(), "one of the two sets of a Trx (or the flag) is used outside Swap")
						}
					case f == ptr:
						for _, r := range *fa.Referrers() {
							call, ok := r.(ssa.CallInstruction)
							if st, isSt := r.(*ssa.Store); isSt && fn == mk && st.Addr == ssa.Value(fa) {
								continue // the zero pointer
							}
							if !ok {
								c.Fail(AC, shortFn(fn)+":pointer", r.Pos(), "the active pointer is used other than by its atomic operations")
								continue
							}
							c.Obl(AC, shortFn(fn)+" "+calleeName(call.Common()))
							op := atomicOp(calleeName(call.Common()))
							if op != "Load" && fn != swap && fn != mk && !p.onlyCalledBy(fn, swap, mk) {
								c.Fail(AC, shortFn(fn)+":"+op, r.Pos(), "the active set is switched outside Swap")
							}
							if op == "Load" && fn != swap {
								nload++
								c.loadedOnly(AC, fn, call.(ssa.Value))
							}
						}
					}
				}
				// copies of whole Trx values
				if ld, ok := in.(*ssa.UnOp); ok && ld.Op.String() == "*" && types.Identical(ld.Type(), tt) {
					c.Fail(AC, shortFn(fn)+":copy", in.Pos(), "a Trx is copied")
				}
			}
		}
	}
	c.Require(AC, nload, 2, "loads of the active set")

	// ---- borrowed
	c.borrowed(BO, swap, muts, st)
	c.collectAll(CO, swap, muts)
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// onlyCalledBy: every call chain to fn starts in one of roots, directly or through functions
// that are only called from them.
func (p *Prog) onlyCalledBy(fn *ssa.Function, roots ...*ssa.Function) bool {
	return p.onlyCalledBy1(fn, roots, map[*ssa.Function]bool{})
}

func (p *Prog) onlyCalledBy1(fn *ssa.Function, roots []*ssa.Function, busy map[*ssa.Function]bool) bool {
	for _, r := range roots {
		if fn == r {
			return true
		}
	}
	if busy[fn] {
		return true
	}
	busy[fn] = true
	n := 0
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					call, ok := in.(ssa.CallInstruction)
					if !ok || call.Common().Value != ssa.Value(fn) {
						return false // used as a value
					}
					if _, isGo := in.(*ssa.Go); isGo {
						return false
					}
					n++
					if !p.onlyCalledBy1(g, roots, busy) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// statsMutators: the functions of package stats that change what one of their *Stats
// parameters points to (including by calling others that do).
func (p *Prog) statsMutators(st *types.Named) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range p.FuncsOf("stats") {
		for i, q := range fn.Params {
			if ptrTo(q.Type(), st) && muts2(p, fn, i) {
				out[fn] = true
			}
		}
	}
	return out
}

// muts2: fn stores through its i-th parameter.
func muts2(p *Prog, fn *ssa.Function, i int) bool {
	return p.mutatesParam(fn, i, map[string]bool{})
}

func (p *Prog) mutatesParam(fn *ssa.Function, i int, busy map[string]bool) bool {
	if fn == nil || len(fn.Blocks) == 0 || i >= len(fn.Params) {
		return false
	}
	k := fnName(fn) + "#" + string(rune('0'+i))
	if busy[k] {
		return false
	}
	busy[k] = true
	return p.mutatesVal(fn.Params[i], map[ssa.Value]bool{}, busy)
}

// mutatesVal: something reached from v (through fields, elements and copies of the pointer in
// the same function) is stored to, or passed to something that stores to it.
func (p *Prog) mutatesVal(v ssa.Value, seen map[ssa.Value]bool, busy map[string]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Addr == v {
				return true
			}
			if al, ok := i.Addr.(*ssa.Alloc); ok && i.Val == v { // a local variable
				for _, r2 := range *al.Referrers() {
					if ld, ok := r2.(*ssa.UnOp); ok && p.mutatesVal(ld, seen, busy) {
						return true
					}
				}
			}
		case *ssa.MapUpdate:
			if i.Map == v {
				return true
			}
		case *ssa.UnOp:
			if refT(i.Type()) && p.mutatesVal(i, seen, busy) {
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Phi, *ssa.Slice, *ssa.ChangeType, *ssa.Extract, *ssa.Lookup:
			if w := r.(ssa.Value); refT(w.Type()) && p.mutatesVal(w, seen, busy) {
				return true
			}
		case ssa.CallInstruction:
			cc := i.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if (b.Name() == "copy" || b.Name() == "delete" || b.Name() == "clear") && len(cc.Args) > 0 && cc.Args[0] == v {
					return true
				}
				continue
			}
			if f := cc.StaticCallee(); f != nil {
				for k, a := range cc.Args {
					if a == v && p.mutatesParam(f, k, busy) {
						return true
					}
				}
			}
		}
	}
	return false
}

func refT(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

// loadedOnly: what was loaded as the active set is used in this function only: recorded into or
// read, never kept.
func (c *Ctx) loadedOnly(rule string, fn *ssa.Function, v ssa.Value) {
	if v.Referrers() == nil {
		return
	}
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef, *ssa.BinOp:
		case *ssa.Call:
			cc := i.Common()
			if cc.StaticCallee() == nil {
				c.Fail(rule, shortFn(fn)+":kept", r.Pos(), "the active set is passed to a call the rule cannot follow")
			}
		default:
			c.Fail(rule, shortFn(fn)+":kept", r.Pos(), "the active set is kept beyond the call that loaded it, or used in a way the rule does not know")
		}
	}
}

// borrowed follows what Swap returns through variables, fields, elements and calls.
func (c *Ctx) borrowed(rule string, swap *ssa.Function, muts map[*ssa.Function]bool, st *types.Named) {
	p := c.P
	taint := map[interface{}]bool{} // ssa.Value or *types.Var (field)
	var work []interface{}
	add := func(k interface{}) {
		if !taint[k] {
			taint[k] = true
			work = append(work, k)
		}
	}
	n := 0
	loads := map[*types.Var][]ssa.Value{}
	for _, fn := range p.Funcs {
		if !p.IsRepo(fn) || fn == swap {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == swap {
					n++
					c.Fn(fn)
					c.Obl(rule, "call of Swap in "+shortFn(fn))
					add(call)
				}
				if u, ok := in.(*ssa.UnOp); ok {
					if f := fieldOf(u.X); f != nil {
						loads[f] = append(loads[f], u)
					}
				}
			}
		}
	}
	c.Require(rule, n, 1, "calls of Swap")
	fail := func(in ssa.Instruction, msg string) {
		c.Fail(rule, shortFn(in.Parent())+":changed", in.Pos(), msg)
	}
	holds := func(t types.Type) bool { // can the type hold a *Stats
		for {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
				continue
			case *types.Array:
				t = u.Elem()
				continue
			case *types.Map:
				t = u.Elem()
				continue
			case *types.Pointer:
				if ptrTo(t, st) {
					return true
				}
				t = u.Elem()
				continue
			case *types.Tuple, *types.Interface:
				return true
			}
			return false
		}
	}
	// containers: the root a stored value is put into
	var container func(v ssa.Value, in ssa.Instruction)
	container = func(v ssa.Value, in ssa.Instruction) {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			f := fieldOf(a)
			if n := namedOf(deref(a.X.Type())); n != nil && n.Obj().Name() == "Instance" {
				fail(in, "the borrowed statistics become part of an Instance, which outlives the interval")
				return
			}
			add(f)
		case *ssa.IndexAddr:
			container(a.X, in)
		case *ssa.UnOp:
			container(a.X, in)
		case *ssa.Lookup:
			container(a.X, in)
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			add(v)
		case *ssa.Phi:
			add(v)
			for _, e := range a.Edges {
				if _, ok := e.(*ssa.Phi); !ok {
					container(e, in)
				}
			}
		case *ssa.Slice:
			container(a.X, in)
		case *ssa.Call, *ssa.Parameter, *ssa.Extract, *ssa.FreeVar:
			add(v)
		case *ssa.Global:
			fail(in, "the borrowed statistics are kept in a package variable")
		default:
			fail(in, "the borrowed statistics are stored where the rule cannot follow them")
		}
	}
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		if f, ok := k.(*types.Var); ok {
			for _, v := range loads[f] {
				add(v)
			}
			continue
		}
		v := k.(ssa.Value)
		if v.Referrers() == nil {
			continue
		}
		isStats := ptrTo(v.Type(), st)
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.Store:
				if i.Val == v {
					container(i.Addr, i)
				} else if isStats {
					fail(r, "the borrowed statistics are overwritten")
				}
			case *ssa.MapUpdate:
				if i.Value == v {
					if u, ok := i.Map.(*ssa.UnOp); ok {
						container(u.X, i)
					} else {
						add(i.Map)
					}
				}
			case *ssa.Send:
				fail(r, "the borrowed statistics are sent away")
			case *ssa.MakeInterface:
				add(i)
			case *ssa.FieldAddr:
				if isStats && p.mutatesVal(i, map[ssa.Value]bool{}, map[string]bool{}) {
					fail(r, "the borrowed statistics are changed")
				}
			case *ssa.Call:
				f := i.Call.StaticCallee()
				for ai, a := range i.Call.Args {
					if a != v {
						continue
					}
					if f != nil && p.IsRepo(f) && len(f.Blocks) > 0 {
						c.Obl(rule, shortFn(i.Parent())+" passes to "+f.Name())
						if isStats && muts2(p, f, ai) {
							fail(r, "the borrowed statistics are changed by "+f.Name())
							continue
						}
						if !isStats || !muts[f] {
							add(f.Params[ai])
						}
					}
				}
				if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					add(i)
				}
			case *ssa.Go, *ssa.Defer:
				cc := r.(ssa.CallInstruction).Common()
				if f := cc.StaticCallee(); f != nil {
					for ai, a := range cc.Args {
						if a == v {
							if isStats && muts2(p, f, ai) {
								fail(r, "the borrowed statistics are changed by "+f.Name())
							} else if len(f.Params) > ai {
								add(f.Params[ai])
							}
						}
					}
				}
			case *ssa.MakeClosure:
				for bi, b := range i.Bindings {
					if b == v {
						add(i.Fn.(*ssa.Function).FreeVars[bi])
					}
				}
			case *ssa.UnOp:
				if holds(i.Type()) {
					add(i)
				}
			case *ssa.Return:
				// results of helpers
				for _, g := range p.Funcs {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == r.Parent() && holds(call.Type()) {
								add(call)
							}
						}
					}
				}
			default:
				if w, ok := r.(ssa.Value); ok && holds(w.Type()) {
					add(w)
				} else if ia, ok := r.(*ssa.IndexAddr); ok {
					add(ia)
				}
			}
		}
	}
}

// allOf: v is the whole of field f (or, at depth 1, an element of it), directly or passed down
// as a parameter.
func (p *Prog) allOf(v ssa.Value, f *types.Var, depth int, busy map[ssa.Value]bool) bool {
	if busy[v] {
		return false
	}
	busy[v] = true
	switch i := v.(type) {
	case *ssa.UnOp:
		if depth == 0 {
			return fieldOf(i.X) == f
		}
		if ia, ok := i.X.(*ssa.IndexAddr); ok {
			return p.allOf(ia.X, f, depth-1, busy)
		}
	case *ssa.Parameter:
		fn := i.Parent()
		k := -1
		for j, q := range fn.Params {
			if q == i {
				k = j
			}
		}
		n := 0
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == fn {
						n++
						if !p.allOf(call.Common().Args[k], f, depth, busy) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	}
	return false
}

// collectAll: every watched set is switched once and what comes back is combined.
func (c *Ctx) collectAll(rule string, swap *ssa.Function, muts map[*ssa.Function]bool) {
	p := c.P
	fn := p.Func("stats", "Collector", "Collect")
	tt := p.Type("stats", "Trx")
	ct := p.Type("stats", "Collector")
	if fn == nil || ct == nil || structOf(ct) == nil {
		c.Missing(rule, "stats.Collector.Collect")
		return
	}
	c.Fn(fn)
	var trxF *types.Var
	cs := structOf(ct)
	for i := 0; i < cs.NumFields(); i++ {
		if s1, ok := cs.Field(i).Type().Underlying().(*types.Slice); ok {
			if s2, ok := s1.Elem().Underlying().(*types.Slice); ok && ptrTo(s2.Elem(), tt) {
				trxF = cs.Field(i)
			}
		}
	}
	if trxF == nil {
		c.Missing(rule, "the field of Collector with the watched sets")
		return
	}
	name := p.Field("stats", "Trx", "Name")
	total := p.Field("stats", "Instance", "Total")
	trxM := p.Field("stats", "Instance", "Trx")
	if name == nil || total == nil || trxM == nil {
		c.Missing(rule, "Trx.Name, Instance.Total, Instance.Trx")
		return
	}
	const (
		aSwap = iota
		aTot
		aTrx
		aFresh    // the trx total of this round is emptied or was already
		aTotFresh // Total.Reset done
		aDone     // a swap loop and a combine loop were entered
		aNot      // trx not seen before in this collection
		aMark     // trx noted as seen
		aOne
		aAll // all trx emptied before the loop
	)
	resetLoop := map[*ssa.BasicBlock]bool{}
	swapLoop, combLoop := map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}
	outerOf := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	heldIn := map[*types.Var]bool{} // fields that hold the results of Swap
	const statsT = "(*" + modPath + "/stats.Stats)."
	var x *Exec
	for pass := 0; pass < 2; pass++ {
		pass := pass
		x = NewExec(p, fn)
		x.Inline = func(f *ssa.Function) bool {
			return fnPkgPath(f) == modPath+"/stats" && !ptrTo(recvType(f), p.Type("stats", "Stats")) && f != swap && f.Name() != "NewStats"
		}
		x.BlockEvents = true
		pr := c.pathRule(rule, x)
		inner := func(s *State) *ssa.BasicBlock {
			l := x.LoopPath(s)
			if len(l) < 2 {
				return nil
			}
			outerOf[l[len(l)-1].h] = l[len(l)-2].h
			return l[len(l)-1].h
		}
		fresh := func(s *State, e *Event, pr *pathRule, k *Val) {
			if s.A[aNot] != 1 || s.RV[4] != k {
				pr.fail(s, e, "trx reset", "the statistics of a trx are emptied although another client's may have been combined already")
			}
			s.A[aFresh] = 1
			s.RV[3] = k
		}
		// which set: indices of the watched set a value belongs to
		x.Hook = func(x *Exec, s *State, e *Event) {
			col := x.ArgVal(0)
			watched := func(v *Val) (i, j *Val) {
				f, b, i, j := elem2Of(v)
				if f != trxF || b != col {
					return nil, nil
				}
				return i, j
			}
			// result of Swap for i, j: returned in this round or held in a field at i, j
			result := func(v *Val) (i, j *Val) {
				if s.RV[0] != nil && v == s.RV[0] {
					return s.RV[1], s.RV[2]
				}
				f, b, i, j := elem2Of(v)
				if f != nil && b == col && heldIn[f] {
					return i, j
				}
				return nil, nil
			}
			// a map made by this collection
			local := func(v *Val) bool {
				return v.Op != "load" && (v.Op == "alloc" || v.Op == "makemap" || v.Op == "sym")
			}
			switch e.Kind {
			case EvCall:
				if e.Target == swap {
					i, j := watched(e.Args[0])
					h := inner(s)
					if i == nil || h == nil {
						pr.fail(s, e, "swap", "Swap is called other than on the watched sets, one after the other")
						return
					}
					swapLoop[h] = true
					pr.obl(e, "swap")
					if pass == 1 && s.A[aSwap] != 0 {
						pr.fail(s, e, "swap twice", "a set is switched twice in one collection: what it recorded in between is lost")
					}
					s.A[aSwap] = 1
					s.RV[1], s.RV[2] = i, j
				}
				switch e.Callee {
				case statsT + "Reset":
					f, _ := e.Args[0].loadedField()
					if f == total {
						s.A[aTotFresh] = 1
					}
					if e.Args[0].Op == "lookup" {
						if f, _ := e.Args[0].Args[0].loadedField(); f == trxM {
							fresh(s, e, pr, e.Args[0].Args[1])
						}
					}
					if e.Args[0].Op == "sym" && strings.HasPrefix(e.Args[0].Name, "nextv") && inner(s) == nil {
						if l := x.LoopPath(s); len(l) == 1 {
							resetLoop[l[0].h] = true
							s.A[aOne] = 1
						}
					}
				case statsT + "Combine":
					i, j := result(e.Args[1])
					if pass == 0 {
						if h := inner(s); h != nil {
							combLoop[h] = true
						}
						return
					}
					if i == nil {
						pr.fail(s, e, "what", "what is combined is not what was switched away from")
						return
					}
					pr.obl(e, "combine")
					if f, _ := e.Args[0].loadedField(); f == total {
						if s.A[aTotFresh] != 1 {
							pr.fail(s, e, "total not reset", "the total still has the previous interval")
						}
						if s.A[aTot] != 0 {
							pr.fail(s, e, "total twice", "a set is combined into the total twice")
						}
						s.A[aTot] = 1
						return
					}
					if e.Args[0].Op == "lookup" {
						if f, _ := e.Args[0].Args[0].loadedField(); f == trxM {
							k := e.Args[0].Args[1]
							nf, nb := k.loadedField()
							wi, wj := (*Val)(nil), (*Val)(nil)
							if nf == name {
								wi, wj = watched(nb)
							}
							if nf != name || wi != i || wj != j {
								pr.fail(s, e, "trx name", "statistics are combined into those of another trx")
							}
							if s.A[aTrx] != 0 {
								pr.fail(s, e, "trx twice", "a set is combined into its trx twice")
							}
							if !(s.A[aFresh] == 1 && s.RV[3] == k || s.A[aFresh] == 2 || s.A[aAll] == 1) {
								pr.fail(s, e, "trx not reset", "the statistics of the trx still have the previous interval")
							}
							s.A[aTrx] = 1
							return
						}
					}
					pr.fail(s, e, "into", "statistics are combined into something that is neither the total nor the trx's")
				}
			case EvRet:
				if e.Target == swap && len(e.Res) > 0 {
					s.RV[0] = e.Res[0]
				}
			case EvStore:
				v := e.Val
				if e.Raw != nil {
					v = e.Raw
				}
				if s.RV[0] != nil && v == s.RV[0] {
					if f, b, i, j := elem2Of(e.Addr); f != nil && b == col {
						heldIn[f] = true
						if i != s.RV[1] || j != s.RV[2] {
							pr.fail(s, e, "held", "what Swap returned is kept under another index")
						}
					}
				}
			case EvBranch:
				cond, taken := e.Cond, e.Taken
				for cond.Op == "not" {
					cond, taken = cond.Args[0], !taken
				}
				// seen already in this collection
				if cond.Op == "lookup" || cond.Op == "lookupok" {
					k := cond.Args[1]
					if nf, nb := k.loadedField(); nf == name && local(cond.Args[0]) {
						if i, _ := watched(nb); i != nil {
							if taken {
								s.A[aFresh] = 2
							} else {
								s.A[aNot] = 1
								s.RV[4] = k
							}
						}
					}
				}
			case EvMapUpdate:
				k := e.Args[1]
				if b, ok := e.Val.constBool(); (!ok || b) && local(e.Args[0]) {
					s.A[aMark] = 1
					s.RV[5] = k
				}
				if f, b := e.Args[0].loadedField(); f == trxM && b.Op == "field" && b.Args[0] == col {
					fresh(s, e, pr, k)
				}
			case EvBlock:
				if pass == 0 {
					return
				}
				h := e.Block
				if resetLoop[h] {
					s.A[aAll] = 1
					if e.Back && s.A[aOne] == 0 {
						pr.fail(s, e, "all reset", "the statistics of a trx can be left out when all are emptied")
					}
					s.A[aOne] = 0
				}
				if swapLoop[h] {
					if e.Back && s.A[aSwap] == 0 {
						pr.fail(s, e, "not swapped", "a watched set can be left out")
					}
					s.A[aSwap] = 0
					s.A[aDone] = 1
				}
				if combLoop[h] {
					if e.Back && (s.A[aTot] == 0 || s.A[aTrx] == 0) {
						pr.fail(s, e, "not combined", "the statistics of a watched set can be left out of the total or of its trx")
					}
					if e.Back && s.A[aFresh] == 1 && !(s.A[aMark] == 1 && s.RV[5] == s.RV[3]) {
						pr.fail(s, e, "trx not noted", "the trx is emptied again for the next client: what was combined is lost")
					}
					s.A[aTot], s.A[aTrx], s.A[aFresh], s.A[aNot], s.A[aMark] = 0, 0, 0, 0, 0
				}
			case EvReturn:
				if e.Fn == fn {
					pr.obl(e, "end")
				}
			}
		}
		x.Run(nil, nil)
	}
	c.finish(rule, x)
	c.Require(rule, len(swapLoop), 1, "loops that switch")
	c.Require(rule, len(combLoop), 1, "loops that combine")
	for _, m := range []map[*ssa.BasicBlock]bool{swapLoop, combLoop} {
		for h := range m {
			for d, hh := range []*ssa.BasicBlock{outerOf[h], h} {
				if hh == nil {
					continue
				}
				c.Obl(rule, "loop range")
				sl, why := fullRange(hh)
				if why == "" && !p.allOf(sl, trxF, d, map[ssa.Value]bool{}) {
					why = "it does not range over the watched sets"
				}
				if why != "" {
					c.Fail(rule, shortFn(hh.Parent())+":loop", firstPos(hh), "the loop over watched sets does not visit all of them: "+why)
				}
			}
		}
	}
}
