package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C24"] = ruleC24
}

// chanInfo resolves channels of the repository to where they come from.
type chanInfo struct {
	p      *Prog
	stores map[types.Object][]ssa.Value        // field -> stored values
	calls  map[*ssa.Function][]*ssa.CallCommon // static callers
	sites  map[*ssa.Function][]ssa.CallInstruction
	binds  map[*ssa.FreeVar][]ssa.Value
}

func newChanInfo(p *Prog) *chanInfo {
	ci := &chanInfo{p: p, stores: map[types.Object][]ssa.Value{}, calls: map[*ssa.Function][]*ssa.CallCommon{}, sites: map[*ssa.Function][]ssa.CallInstruction{}, binds: map[*ssa.FreeVar][]ssa.Value{}}
	for _, fn := range p.Funcs {
		if !p.IsRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					if f := fieldOf(i.Addr); f != nil {
						ci.stores[f] = append(ci.stores[f], i.Val)
					}
				case *ssa.MakeClosure:
					f := i.Fn.(*ssa.Function)
					for j, bnd := range i.Bindings {
						ci.binds[f.FreeVars[j]] = append(ci.binds[f.FreeVars[j]], bnd)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if t := c.Common().StaticCallee(); t != nil {
						ci.calls[t] = append(ci.calls[t], c.Common())
						ci.sites[t] = append(ci.sites[t], c)
					}
				}
			}
		}
	}
	return ci
}

// origins lists the roots of value v: makechans, fields, timers, contexts. through also
// expands fields to what is stored in them.
func (ci *chanInfo) origins(v ssa.Value, fields bool) map[interface{}]bool {
	out := map[interface{}]bool{}
	seen := map[ssa.Value]bool{}
	seenF := map[types.Object]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.MakeChan:
			out[i] = true
		case *ssa.Phi:
			for _, e := range i.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(i.X)
		case *ssa.UnOp:
			if i.Op != token.MUL {
				out["unknown"] = true
				return
			}
			if f := fieldOf(i.X); f != nil {
				if (f.Name() == "C") && f.Pkg() != nil && f.Pkg().Path() == "time" {
					out["timer"] = true
					return
				}
				out[f] = true
				if fields && !seenF[f] {
					seenF[f] = true
					for _, s := range ci.stores[f] {
						walk(s)
					}
				}
				return
			}
			walk(i.X)
		case *ssa.Field:
			st, _ := i.X.Type().Underlying().(*types.Struct)
			f := st.Field(i.Field)
			out[f] = true
			if fields && !seenF[f] {
				seenF[f] = true
				for _, s := range ci.stores[f] {
					walk(s)
				}
			}
		case *ssa.Alloc:
			if refs := i.Referrers(); refs != nil {
				for _, r := range *refs {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(i) {
						walk(s.Val)
					}
				}
			}
		case *ssa.FreeVar:
			for _, b := range ci.binds[i] {
				walk(b)
			}
		case *ssa.Parameter:
			idx := -1
			for k, q := range i.Parent().Params {
				if q == i {
					idx = k
				}
			}
			cs := ci.calls[i.Parent()]
			if len(cs) == 0 {
				out["unknown"] = true
			}
			for _, c := range cs {
				if idx < len(c.Args) {
					walk(c.Args[idx])
				}
			}
		case *ssa.Extract:
			if c, ok := i.Tuple.(*ssa.Call); ok {
				ci.results(c, i.Index, out, walk)
				return
			}
			out["unknown"] = true
		case *ssa.Call:
			ci.results(i, 0, out, walk)
		default:
			out["unknown"] = true
		}
	}
	walk(v)
	return out
}

func (ci *chanInfo) results(c *ssa.Call, idx int, out map[interface{}]bool, walk func(ssa.Value)) {
	n := calleeName(c.Common())
	switch n {
	case "invoke context.Context.Done":
		if b, ok := c.Call.Value.(*ssa.Call); ok && (calleeName(b.Common()) == "context.Background" || calleeName(b.Common()) == "context.TODO") {
			out["unknown"] = true
			return
		}
		out["ctx"] = true
		return
	case "time.After", "time.Tick":
		out["timer"] = true
		return
	}
	t := c.Call.StaticCallee()
	if t == nil || !ci.p.IsRepo(t) {
		out["unknown"] = true
		return
	}
	for _, b := range t.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
			walk(r.Results[idx])
		}
	}
}

func chMeet(a, b map[interface{}]bool) bool {
	for k := range a {
		if _, s := k.(string); !s && b[k] {
			return true
		}
	}
	return false
}

// mustPass reports whether every path from instruction from (nil: entry of fn) to one of the targets
// passes an instruction hit accepts.
func mustPass(fn *ssa.Function, from ssa.Instruction, hit, target func(ssa.Instruction) bool) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var scan func(b *ssa.BasicBlock, i int)
	scan = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if hit(in) {
				return
			}
			if target(in) {
				ok = false
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				scan(s, 0)
			}
		}
	}
	if from == nil {
		scan(fn.Blocks[0], 0)
		return ok
	}
	b := from.Block()
	for i, in := range b.Instrs {
		if in == from {
			scan(b, i+1)
		}
	}
	return ok
}

func isReturn(in ssa.Instruction) bool { _, ok := in.(*ssa.Return); return ok }

// closes reports whether instruction in closes a channel of key (now, deferred, in a called function on
// all its paths, or in a goroutine it starts on all its paths).
func (ci *chanInfo) closes(in ssa.Instruction, key map[interface{}]bool, deferred bool, busy map[*ssa.Function]bool) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if _, d := in.(*ssa.Defer); d && !deferred {
		return false
	}
	if b, ok := c.Common().Value.(*ssa.Builtin); ok {
		return b.Name() == "close" && chMeet(ci.origins(c.Common().Args[0], false), key)
	}
	t := c.Common().StaticCallee()
	if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
		t = mc.Fn.(*ssa.Function)
	}
	if t == nil || !ci.p.IsRepo(t) {
		return false
	}
	return ci.alwaysCloses(t, key, busy)
}

func (ci *chanInfo) alwaysCloses(fn *ssa.Function, key map[interface{}]bool, busy map[*ssa.Function]bool) bool {
	if busy[fn] || len(fn.Blocks) == 0 {
		return false
	}
	nb := map[*ssa.Function]bool{fn: true}
	for f := range busy {
		nb[f] = true
	}
	has := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci.closes(in, key, true, nb) {
				has = true
			}
		}
	}
	return has && mustPass(fn, nil, func(in ssa.Instruction) bool { return ci.closes(in, key, true, nb) }, isReturn)
}

// waitPoints are the places a wait on a channel of key happens: the instruction itself, or calls of its
// function when the channel is passed in, up to the function that made the channel.
func (ci *chanInfo) waitPoints(in ssa.Instruction, ch ssa.Value, depth int) []ssa.Instruction {
	if pa, ok := ch.(*ssa.Parameter); ok && depth > 0 {
		idx := -1
		for k, q := range pa.Parent().Params {
			if q == pa {
				idx = k
			}
		}
		var out []ssa.Instruction
		for _, s := range ci.sites[pa.Parent()] {
			if idx < len(s.Common().Args) {
				out = append(out, ci.waitPoints(s, s.Common().Args[idx], depth-1)...)
			}
		}
		return out
	}
	return []ssa.Instruction{in}
}

// instances reports whether v is at least the configured number of instances.
func (ci *chanInfo) instances(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.Convert:
		return ci.instances(i.X, seen)
	case *ssa.ChangeType:
		return ci.instances(i.X, seen)
	case *ssa.BinOp:
		if i.Op == token.ADD {
			if k, ok := i.Y.(*ssa.Const); ok && k.Int64() >= 0 {
				return ci.instances(i.X, seen)
			}
			if k, ok := i.X.(*ssa.Const); ok && k.Int64() >= 0 {
				return ci.instances(i.Y, seen)
			}
		}
		if i.Op == token.MUL {
			if k, ok := i.Y.(*ssa.Const); ok && k.Int64() >= 1 {
				return ci.instances(i.X, seen)
			}
			if k, ok := i.X.(*ssa.Const); ok && k.Int64() >= 1 {
				return ci.instances(i.Y, seen)
			}
		}
	case *ssa.Phi:
		for _, e := range i.Edges {
			if !ci.instances(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		for _, a := range i.Call.Args {
			if ci.instances(a, seen) {
				return calleeName(&i.Call) == modPath+".Uint" || strings.HasPrefix(calleeName(&i.Call), "strconv.")
			}
		}
	case *ssa.Extract:
		if c, ok := i.Tuple.(*ssa.Call); ok {
			return ci.instances(c, seen)
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			if f := fieldOf(i.X); f != nil {
				if f.Name() == "Instances" && f.Pkg() != nil && f.Pkg().Path() == modPath+"/config" {
					return true
				}
				ss := ci.stores[f]
				for _, s := range ss {
					if !ci.instances(s, seen) {
						return false
					}
				}
				return len(ss) > 0
			}
			if a, ok := i.X.(*ssa.Alloc); ok {
				n := 0
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						n++
						if !ci.instances(s.Val, seen) {
							return false
						}
					}
				}
				return n > 0
			}
		}
	case *ssa.Field:
		st, _ := i.X.Type().Underlying().(*types.Struct)
		f := st.Field(i.Field)
		return f.Name() == "Instances" && f.Pkg() != nil && f.Pkg().Path() == modPath+"/config"
	case *ssa.Parameter:
		idx := -1
		for k, q := range i.Parent().Params {
			if q == i {
				idx = k
			}
		}
		cs := ci.calls[i.Parent()]
		for _, c := range cs {
			if idx >= len(c.Args) || !ci.instances(c.Args[idx], seen) {
				return false
			}
		}
		return len(cs) > 0
	}
	return false
}

func keyName(k map[interface{}]bool) string {
	var out []string
	for o := range k {
		switch v := o.(type) {
		case types.Object:
			out = append(out, v.Name())
		case *ssa.MakeChan:
			out = append(out, "channel made in "+shortFn(v.Parent()))
		case string:
			out = append(out, v)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func ruleC24(c *Ctx) {
	const S, R, W, L = "sends", "receives", "selects", "polling"
	c.Rule(S, "Every send in compute, stats and proto is either one of a select with an alternative, or on a channel whose every make has room for one value per configured instance (one value, for a single send outside loops).")
	c.Rule(R, "Every receive without alternative is on a timer, a context, or a channel whose counterpart is guaranteed: a close that every path between making the channel and waiting for it passes (directly or in a goroutine started there which closes it on all its paths), a close on every path of a method, or a goroutine that closes it on all paths, ends when told by a close every path to the wait passes, and is started whenever the wait is reached.")
	c.Rule(W, "Every blocking select has a case on a timer, on a context that can end, or on a channel that some function always closes; in a request handler one of them is on a context, or on a timer of at most ten seconds.")
	c.Rule(L, "Every round of a loop that sleeps asks whether a timer outside the loop has fired, a context has ended, a stop channel was closed or a bounded counter ran out, and leaves the loop when it has.")
	p := c.P
	ci := newChanInfo(p)
	var fns []*ssa.Function
	for _, rel := range []string{"compute", "stats", "proto"} {
		fs := p.FuncsOf(rel)
		if len(fs) == 0 {
			c.Missing(S, "package "+rel)
			return
		}
		fns = append(fns, fs...)
	}
	everClosed := func(key map[interface{}]bool) bool {
		for _, fn := range fns {
			if ci.alwaysCloses(fn, key, nil) {
				return true
			}
		}
		return false
	}
	nS, nR, nW, nL := 0, 0, 0, 0
	for _, fn := range fns {
		c.Fn(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Send:
					nS++
					key := ci.origins(i.Chan, true)
					c.Obl(S, p.Pos(i.Pos())+" "+keyName(key))
					if key["unknown"] {
						c.Fail(S, shortFn(fn)+":unknown", i.Pos(), "a send without alternative on a channel that could not be traced to its make")
						continue
					}
					makes := 0
					for k := range key {
						mk, ok := k.(*ssa.MakeChan)
						if !ok {
							continue
						}
						makes++
						if ci.instances(mk.Size, map[ssa.Value]bool{}) {
							continue
						}
						if k, ok := mk.Size.(*ssa.Const); ok && k.Int64() >= 1 && len(p.loopsOf(b)) == 0 && ci.soleSend(fns, i, key) && (fn == mk.Parent() || fn.Parent() == mk.Parent()) {
							continue
						}
						c.Fail(S, shortFn(fn)+":"+keyName(ci.origins(i.Chan, false)), i.Pos(), "a send without alternative on a channel that does not have room for every sender (made at "+p.Pos(mk.Pos())+"): if the receiver is gone it blocks for ever")
					}
					if makes == 0 {
						c.Fail(S, shortFn(fn)+":"+keyName(key), i.Pos(), "a send without alternative on a channel without a known make")
					}
				case *ssa.Select:
					if !i.Blocking {
						continue
					}
					nW++
					ok := false
					names := ""
					for _, st := range i.States {
						key := ci.origins(st.Chan, true)
						names += " " + keyName(ci.origins(st.Chan, false))
						if st.Dir != types.RecvOnly || key["unknown"] {
							continue
						}
						if key["ctx"] || key["timer"] && len(key) == 1 || everClosed(key) {
							ok = true
						}
					}
					if ok && hasRequest(fn) {
						// a handler ends with its request, or soon after
						bound := false
						for _, st := range i.States {
							key := ci.origins(st.Chan, true)
							if key["ctx"] && !key["unknown"] {
								bound = true
							}
							if key["timer"] && shortTimer(st.Chan) {
								bound = true
							}
						}
						if !bound {
							c.Fail(W, shortFn(fn)+":request", i.Pos(), "a request handler waits without a case on its request's context: it can outlive its request")
						}
					}
					c.Obl(W, p.Pos(i.Pos())+names)
					if !ok {
						c.Fail(W, shortFn(fn)+":select", i.Pos(), "a select without timeout, cancellation or default: it blocks for ever when its peers are gone")
					}
				case *ssa.UnOp:
					if i.Op != token.ARROW {
						continue
					}
					nR++
					key := ci.origins(i.X, false)
					c.Obl(R, p.Pos(i.Pos())+" "+keyName(key))
					c.checkRecv(R, ci, fns, i, i.X)
				}
			}
		}
	}
	nL = c.pollingLoops(L, ci, fns)
	c.Require(S, nS, 1, "sends")
	c.Require(R, nR, 1, "receives")
	c.Require(W, nW, 1, "selects")
	c.Require(L, nL, 1, "polling loops")
}

// soleSend: no other send on the channel.
func (ci *chanInfo) soleSend(fns []*ssa.Function, snd *ssa.Send, key map[interface{}]bool) bool {
	n := 0
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Send:
					if chMeet(ci.origins(i.Chan, true), key) {
						n++
					}
				case *ssa.Select:
					for _, st := range i.States {
						if st.Dir == types.SendOnly && chMeet(ci.origins(st.Chan, true), key) {
							n++
						}
					}
				}
			}
		}
	}
	return n == 1
}

// checkRecv decides one receive without alternative.
func (c *Ctx) checkRecv(rule string, ci *chanInfo, fns []*ssa.Function, in ssa.Instruction, ch ssa.Value) {
	p := c.P
	key := ci.origins(ch, false)
	fn := in.Parent()
	if (key["timer"] || key["ctx"]) && len(key) == 1 {
		return
	}
	if key["unknown"] {
		c.Fail(rule, shortFn(fn)+":unknown", in.Pos(), "a receive without alternative from a channel that could not be traced to its make")
		return
	}
	var fields, makes map[interface{}]bool = map[interface{}]bool{}, map[interface{}]bool{}
	for k := range key {
		switch k.(type) {
		case *ssa.MakeChan:
			makes[k] = true
		default:
			fields[k] = true
		}
	}
	why := ""
	for k := range makes {
		mk := k.(*ssa.MakeChan)
		one := map[interface{}]bool{mk: true}
		for _, w := range ci.waitPoints(in, ch, 4) {
			if !ci.madeThenClosed(mk, w, one, 3) {
				why = "on some path nothing closes it (channel made at " + p.Pos(mk.Pos()) + ")"
			}
		}
	}
	for f := range fields {
		one := map[interface{}]bool{f: true}
		if !c.fieldClosed(ci, fns, in, one) {
			why = "nothing guarantees that it is closed"
		}
	}
	if why != "" {
		c.Fail(rule, shortFn(fn)+":"+keyName(key), in.Pos(), "a receive without alternative can wait for ever: "+why)
	}
}

// madeThenClosed: every path from the make to the wait passes a close (or starts a goroutine that closes).
func (ci *chanInfo) madeThenClosed(mk *ssa.MakeChan, w ssa.Instruction, key map[interface{}]bool, depth int) bool {
	hit := func(in ssa.Instruction) bool { return ci.closes(in, key, false, nil) }
	if mk.Parent() == w.Parent() {
		return mustPass(w.Parent(), mk, hit, func(in ssa.Instruction) bool { return in == w })
	}
	if mk.Parent() == nil || depth == 0 {
		return false
	}
	// made in a helper that returns it: the helper closes on all paths, or its caller does afterwards
	if mustPass(mk.Parent(), mk, hit, isReturn) {
		return true
	}
	if len(ci.sites[mk.Parent()]) == 0 {
		return false
	}
	for _, s := range ci.sites[mk.Parent()] {
		if s.Parent() != w.Parent() {
			return false
		}
		if !mustPass(w.Parent(), s, hit, func(in ssa.Instruction) bool { return in == w }) {
			return false
		}
	}
	return true
}

// fieldClosed decides a wait on a channel held in a field.
func (c *Ctx) fieldClosed(ci *chanInfo, fns []*ssa.Function, in ssa.Instruction, key map[interface{}]bool) bool {
	p := c.P
	goStart := map[*ssa.Function][]*ssa.Go{}
	isGo := map[*ssa.Function]bool{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if g, ok := i.(*ssa.Go); ok {
					t := g.Call.StaticCallee()
					if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
						t = mc.Fn.(*ssa.Function)
					}
					if t != nil {
						goStart[t] = append(goStart[t], g)
						isGo[t] = true
					}
				}
			}
		}
	}
	for _, fn := range fns {
		if fn == in.Parent() || !ci.alwaysCloses(fn, key, map[*ssa.Function]bool{}) {
			continue
		}
		// a function that closes it, on all paths, when it returns
		if !isGo[fn] {
			direct := true
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if g, ok := i.(*ssa.Go); ok && ci.closes(g, key, false, nil) {
						direct = false
					}
				}
			}
			if direct && fn.Parent() == nil && (fn.Object() != nil && fn.Object().Exported()) {
				return true
			}
			continue
		}
		// a goroutine: told to end on every path to the wait, and started when the wait is reached
		told := false
		for _, f := range append([]*ssa.Function{fn}, reachRepo(p, fn)...) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					var chs []ssa.Value
					switch s := i.(type) {
					case *ssa.Select:
						for _, st := range s.States {
							if st.Dir == types.RecvOnly {
								chs = append(chs, st.Chan)
							}
						}
					case *ssa.UnOp:
						if s.Op == token.ARROW {
							chs = append(chs, s.X)
						}
					}
					for _, ch := range chs {
						stop := ci.origins(ch, false)
						if stop["unknown"] || stop["timer"] || stop["ctx"] {
							continue
						}
						if ci.toldBefore(in, stop, 4) {
							told = true
						}
					}
				}
			}
		}
		if !told {
			continue
		}
		for _, g := range goStart[fn] {
			if c.startedWhenWaited(g, in) {
				return true
			}
		}
	}
	return false
}

// toldBefore: every path to in, from the entry of its function or of its callers, passes a close.
func (ci *chanInfo) toldBefore(in ssa.Instruction, stop map[interface{}]bool, depth int) bool {
	if mustPass(in.Parent(), nil, func(j ssa.Instruction) bool { return ci.closes(j, stop, false, nil) }, func(j ssa.Instruction) bool { return j == in }) {
		return true
	}
	sites := ci.sites[in.Parent()]
	if o := in.Parent().Object(); depth == 0 || len(sites) == 0 || o == nil || o.Exported() {
		return false
	}
	for _, s := range sites {
		if !ci.toldBefore(s, stop, depth-1) {
			return false
		}
	}
	return true
}

func reachRepo(p *Prog, fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for f := range p.Reach(fn) {
		if p.IsRepo(f) && f != fn && fnPkgPath(f) == fnPkgPath(fn) {
			out = append(out, f)
		}
	}
	return out
}

// startedWhenWaited: the conditions under which the function of g returns without starting it contradict
// those under which in is reached (both about fields of the receiver).
func (c *Ctx) startedWhenWaited(g *ssa.Go, in ssa.Instruction) bool {
	p := c.P
	s := g.Parent()
	facts := func(root *ssa.Function, at func(e *Event) bool) []map[string]bool {
		var out []map[string]bool
		x := NewExec(p, root)
		x.Inline = func(fn *ssa.Function) bool {
			return fnPkgPath(fn) == fnPkgPath(root) && (smallFn(fn) || p.Reach(fn)[in.Parent()])
		}
		x.Hook = func(x *Exec, st *State, e *Event) {
			if e.Kind == EvGo && e.Instr == g {
				st.A[0] = 1
			}
			if !at(e) || st.A[0] == 1 && root == s {
				return
			}
			recv := x.ArgVal(0)
			fs := map[string]bool{}
			for f, t := range st.facts {
				if recv != nil {
					f = x.T.subst(f, recv, x.T.sym("receiver", recv.T))
				}
				fs[f.String()] = t
			}
			out = append(out, fs)
		}
		x.Run(nil, nil)
		return out
	}
	not := facts(s, func(e *Event) bool { return e.Kind == EvReturn && e.Fn == s })
	var at []map[string]bool
	for _, m := range p.FuncsOf(strings.TrimPrefix(fnPkgPath(s), modPath+"/")) {
		o := m.Object()
		if m != in.Parent() && (o == nil || !o.Exported() || m.Synthetic != "") || m == in.Parent() && o != nil && !o.Exported() || !p.Reach(m)[in.Parent()] {
			continue
		}
		at = append(at, facts(m, func(e *Event) bool { return e.Instr == in && e.Kind == EvRecv })...)
	}
	if len(at) == 0 {
		return false
	}
	for _, a := range at {
		for _, n := range not {
			contra := false
			for f, t := range a {
				if u, ok := n[f]; ok && u != t {
					contra = true
				}
			}
			if !contra {
				return false
			}
		}
	}
	return true
}

// pollingLoops checks the loops that sleep.
func (c *Ctx) pollingLoops(rule string, ci *chanInfo, fns []*ssa.Function) int {
	p := c.P
	sleeps := func(in ssa.Instruction) bool {
		ca, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, g := in.(*ssa.Go); g {
			return false
		}
		n := calleeName(ca.Common())
		if n == "time.Sleep" {
			return true
		}
		t := ca.Common().StaticCallee()
		if t == nil || fnPkgPath(t) != fnPkgPath(in.Parent()) {
			return false
		}
		// a helper that sleeps outside loops of its own
		for f := range p.Reach(t) {
			if fnPkgPath(f) != fnPkgPath(t) {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if cc, ok := i.(ssa.CallInstruction); ok && calleeName(cc.Common()) == "time.Sleep" && len(p.loopsOf(b)) == 0 && f == t {
						return true
					}
				}
			}
		}
		return false
	}
	n := 0
	for _, fn := range fns {
		loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if sleeps(in) {
					if ls := p.loopsOf(b); len(ls) > 0 {
						h := ls[len(ls)-1]
						loops[h] = loopBody(h)
					}
				}
			}
		}
		if len(loops) == 0 {
			continue
		}
		x := NewExec(p, fn)
		x.Inline = func(f *ssa.Function) bool { return fnPkgPath(f) == fnPkgPath(fn) && len(f.Blocks) < 12 }
		x.BlockEvents = true
		pr := c.pathRule(rule, x)
		const (
			aAsked = iota
			aEnded
			aIn
		)
		inLoop := func(in ssa.Instruction) bool {
			for _, body := range loops {
				if body[in.Block()] {
					return true
				}
			}
			return false
		}
		x.Hook = func(x *Exec, s *State, e *Event) {
			switch e.Kind {
			case EvBlock:
				if loops[e.Block] == nil {
					return
				}
				if !e.Back {
					n++
					c.Obl(rule, p.Pos(firstPos(e.Block))+" loop that sleeps in "+shortFn(fn))
				} else {
					if s.A[aAsked] == 0 {
						pr.fail(s, e, "unasked", "a loop that sleeps can go round without asking whether it should stop: it never ends when its peer is gone")
					} else if s.A[aEnded] == 1 {
						pr.fail(s, e, "continues", "a loop that sleeps goes on although it was told to stop")
					}
				}
				s.A[aAsked], s.A[aEnded] = 0, 0
				s.RV[0] = nil
			case EvSelect:
				for k, st := range e.Sel.States {
					if st.Dir != types.RecvOnly {
						continue
					}
					key := ci.origins(st.Chan, true)
					if key["unknown"] {
						continue
					}
					good := key["ctx"]
					if key["timer"] {
						good = !e.Blocking && !madeInLoop(st.Chan, loops)
						if e.Blocking {
							continue // it paces the loop
						}
					}
					for q := range key {
						if _, isS := q.(string); !isS {
							for _, g := range fns {
								if ci.closesAnywhere(g, key) {
									good = true
								}
							}
						}
					}
					if good {
						s.A[aAsked] = 1
						if e.Case == k {
							s.A[aEnded] = 1
						}
					}
				}
			case EvRet:
				switch e.Callee {
				case "invoke context.Context.Err":
					s.A[aAsked] = 1
					s.RV[0] = e.Res[0]
				case "(time.Time).After", "(time.Time).Before", "time.Since", "(time.Time).Sub":
					s.A[aAsked] = 1
				}
			case EvBranch:
				cond, taken := e.Cond, e.Taken
				for cond.Op == "not" {
					cond, taken = cond.Args[0], !taken
				}
				if cond.Op == "eq" && s.RV[0] != nil && cond.Args[0] == s.RV[0] && cond.Args[1].isNil() && !taken {
					s.A[aEnded] = 1
				}
				if cond.Op == "lss" && inLoop(e.Instr) { // bounded counter
					for i := range cond.Args {
						base, _ := lin(cond.Args[i])
						if base.Op == "sym" && strings.HasPrefix(base.Name, "phi") {
							s.A[aAsked] = 1
						}
					}
				}
			}
		}
		x.Run(nil, nil)
		c.finish(rule, x)
	}
	return n
}

func (ci *chanInfo) closesAnywhere(fn *ssa.Function, key map[interface{}]bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if bl, ok := c.Common().Value.(*ssa.Builtin); ok && bl.Name() == "close" && chMeet(ci.origins(c.Common().Args[0], true), key) {
					return true
				}
			}
		}
	}
	return false
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

// madeInLoop: the timer channel is made inside one of the loops.
func madeInLoop(ch ssa.Value, loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool) bool {
	if in, ok := ch.(ssa.Instruction); ok {
		if u, isU := ch.(*ssa.UnOp); isU {
			return madeInLoop(u.X, loops)
		}
		if f, isF := ch.(*ssa.FieldAddr); isF {
			return madeInLoop(f.X, loops)
		}
		for _, body := range loops {
			if body[in.Block()] {
				return true
			}
		}
	}
	return false
}

// hasRequest: the function handles an HTTP request.
func hasRequest(fn *ssa.Function) bool {
	for ; fn != nil; fn = fn.Parent() {
		for _, p := range fn.Params {
			if isNamed(deref(p.Type()), "net/http", "Request") {
				return true
			}
		}
	}
	return false
}

// shortTimer: the channel is that of time.After or a new timer with a constant of at most ten seconds.
func shortTimer(ch ssa.Value) bool {
	found, short := false, true
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, depth int)
	walk = func(v ssa.Value, depth int) {
		if v == nil || seen[v] || depth > 8 {
			return
		}
		seen[v] = true
		if call, ok := v.(*ssa.Call); ok {
			switch calleeName(call.Common()) {
			case "time.After", "time.NewTimer", "time.NewTicker", "time.Tick":
				found = true
				k, ok := call.Call.Args[0].(*ssa.Const)
				if !ok || k.Int64() > 10e9 {
					short = false
				}
			}
			return
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					walk(*op, depth+1)
				}
			}
		}
	}
	walk(ch, 0)
	return found && short
}
