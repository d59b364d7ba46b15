package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modset is what a function (transitively) may write.
type modset struct {
	fields map[*types.Var]bool
	elems  map[string]bool
	maps   map[string]bool // types of maps
}

func (x *Exec) mods(fn *ssa.Function) *modset {
	if m, ok := x.modCache[fn]; ok {
		return m
	}
	m := &modset{fields: map[*types.Var]bool{}, elems: map[string]bool{}, maps: map[string]bool{}}
	for f := range x.P.Reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					switch a := i.Addr.(type) {
					case *ssa.FieldAddr:
						m.fields[fieldOf(a)] = true
					case *ssa.IndexAddr:
						m.elems[deref(a.Type()).String()] = true
					}
				case *ssa.MapUpdate:
					m.maps[i.Map.Type().Underlying().String()] = true
				case ssa.CallInstruction:
					if b, ok := i.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
						m.maps[i.Common().Args[0].Type().Underlying().String()] = true
					}
				}
			}
		}
	}
	x.modCache[fn] = m
	return m
}

func (x *Exec) applyMods(s *State, m *modset) {
	if len(m.fields) == 0 && len(m.elems) == 0 && len(m.maps) == 0 {
		return
	}
	hit := func(a *Val) bool {
		for v := a; ; v = v.Args[0] {
			switch v.Op {
			case "field":
				if m.fields[v.Fld] {
					return true
				}
			case "elem":
				if len(m.elems) > 0 {
					et := sliceElem(v.Args[0])
					if et == "" || m.elems[et] {
						return true
					}
				}
			default:
				return false
			}
		}
	}
	for k := range s.mem {
		if hit(k) && rootOf(k).Op != "alloc" {
			delete(s.mem, k)
		}
	}
	x.killLoads(s, func(a *Val) bool { return rootOf(a).Op != "alloc" && hit(a) })
	if len(m.maps) > 0 {
		x.killLookups(s, func(a *Val) bool { return a.T == nil || m.maps[a.T.Underlying().String()] })
	}
}

func (x *Exec) step(s *State, fr *Frame) bool {
	in := fr.block.Instrs[fr.idx]
	T := x.T
	switch i := in.(type) {
	case *ssa.DebugRef:
		fr.idx++
		return true

	case *ssa.If:
		c := x.val(s, fr, i.Cond)
		if v, ok := x.Ask(s, c); ok {
			if v {
				return x.enter(s, fr, fr.block, fr.block.Succs[0])
			}
			return x.enter(s, fr, fr.block, fr.block.Succs[1])
		}
		x.Forks++
		o := s.clone()
		if x.Assume(o, c, false) {
			of := o.top()
			o.note(condPos(i), "condition "+srcCond(i)+" is false")
			if x.fire(o, &Event{Kind: EvBranch, Instr: in, Fn: fr.fn, Cond: c, Taken: false}) {
				if x.enter(o, of, of.block, of.block.Succs[1]) {
					x.push(o)
				}
			}
		}
		if !x.Assume(s, c, true) {
			return false
		}
		s.note(condPos(i), "condition "+srcCond(i)+" is true")
		if !x.fire(s, &Event{Kind: EvBranch, Instr: in, Fn: fr.fn, Cond: c, Taken: true}) {
			return false
		}
		return x.enter(s, fr, fr.block, fr.block.Succs[0])

	case *ssa.Jump:
		return x.enter(s, fr, fr.block, fr.block.Succs[0])

	case *ssa.Return:
		var res []*Val
		for _, r := range i.Results {
			res = append(res, x.val(s, fr, r))
		}
		return x.doReturn(s, fr, res, in)

	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			return x.runDeferred(s, fr, d)
		}
		fr.idx++
		return true

	case *ssa.Panic:
		fr.panicking = true
		s.note(i.Pos(), "panic")
		s.panicV = T.sym("panic value", nil)
		return x.unwind(s)

	case *ssa.Call:
		fv, args := x.callArgs(s, fr, &i.Call)
		return x.call(s, fr, i, &i.Call, fv, args, false)

	case *ssa.Defer:
		fv, args := x.callArgs(s, fr, &i.Call)
		// a defer in a loop is kept once (its last instance)
		nd := fr.defers[:0:0]
		for _, d := range fr.defers {
			if d.instr != i {
				nd = append(nd, d)
			}
		}
		fr.defers = append(nd, dcall{instr: i, fn: fv, args: args})
		fr.idx++
		return true

	case *ssa.Go:
		fv, args := x.callArgs(s, fr, &i.Call)
		tgt := x.resolve(&i.Call, fv, args)
		e := &Event{Kind: EvGo, Instr: in, Fn: fr.fn, Callee: calleeName(&i.Call), Target: tgt, Args: args, FnVal: fv}
		if e.Callee == "" && tgt != nil {
			e.Callee = fnName(tgt)
		}
		if !x.fire(s, e) {
			return false
		}
		if fv != nil && fv.Op == "closure" {
			x.shareClosure(s, fr, in, fv, tgt)
		}
		for _, a := range args {
			if a != nil && a.Op == "closure" {
				x.shareClosure(s, fr, in, a, a.Fn)
			}
		}
		fr.idx++
		return true

	case *ssa.Send:
		ch, v := x.val(s, fr, i.Chan), x.val(s, fr, i.X)
		s.note(i.Pos(), "send")
		if !x.fire(s, &Event{Kind: EvSend, Instr: in, Fn: fr.fn, Chan: ch, Val: v, Blocking: true}) {
			return false
		}
		fr.idx++
		return true

	case *ssa.Select:
		return x.doSelect(s, fr, i)

	case *ssa.Store:
		a, v := x.val(s, fr, i.Addr), x.val(s, fr, i.Val)
		raw := v
		if v.size > x.MaxTerm || (strings.HasPrefix(v.Op, "bin") && !v.isConst()) {
			// widen accumulating stores
			if v.contains(T.mk(Val{Op: "load", Args: []*Val{a}})) || v.size > x.MaxTerm || x.memTermIn(s, a, v) {
				v = x.symFor(s, fr, in, "acc", i.Val.Type())
				a = x.val(s, fr, i.Addr)
			}
		}
		if x.isRMW(s, fr, i, a) {
			v = x.symFor(s, fr, in, "acc", i.Val.Type())
			a = x.val(s, fr, i.Addr)
		}
		if !x.fire(s, &Event{Kind: EvStore, Instr: in, Fn: fr.fn, Addr: a, Val: v, Raw: raw}) {
			return false
		}
		x.Store(s, a, v, fr, in)
		fr.idx++
		return true

	case *ssa.MapUpdate:
		m, k, v := x.val(s, fr, i.Map), x.val(s, fr, i.Key), x.val(s, fr, i.Value)
		if !x.fire(s, &Event{Kind: EvMapUpdate, Instr: in, Fn: fr.fn, Addr: m, Args: []*Val{m, k, v}, Val: v}) {
			return false
		}
		mt := i.Map.Type()
		x.killLookups(s, func(a *Val) bool {
			if a == m {
				return true
			}
			if a.Op == "alloc" || m.Op == "alloc" || a.Op == "makemap" && m.Op == "makemap" {
				return false
			}
			t := a.T
			if t == nil {
				if f, _ := a.loadedField(); f != nil {
					t = f.Type()
				}
			}
			return t == nil || types.Identical(t.Underlying(), mt.Underlying())
		})
		if m.size+k.size+v.size < 40 {
			// remember the binding as a fact about lookups
		}
		fr.idx++
		return true

	case ssa.Value:
		r, ok := x.eval(s, fr, i)
		if !ok {
			return false
		}
		x.set(fr, i, r)
		fr.idx++
		return true
	}
	fr.idx++
	return true
}

// isRMW recognises *a = *a op y.
func (x *Exec) isRMW(s *State, fr *Frame, i *ssa.Store, a *Val) bool {
	b, ok := i.Val.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL && x.val(s, fr, u.X) == a {
			return true
		}
	}
	return false
}

func (x *Exec) memTermIn(s *State, a, v *Val) bool {
	o, ok := s.mem[a]
	return ok && !o.isConst() && v.contains(o)
}

func condPos(i *ssa.If) token.Pos {
	if p := i.Cond.Pos(); p.IsValid() {
		return p
	}
	if u, ok := i.Cond.(ssa.Instruction); ok {
		for _, op := range u.Operands(nil) {
			if *op != nil && (*op).Pos().IsValid() {
				return (*op).Pos()
			}
		}
	}
	return i.Pos()
}

func srcCond(i *ssa.If) string {
	s := i.Cond.String()
	return strings.ReplaceAll(s, modPath+"/", "")
}

func (x *Exec) doReturn(s *State, fr *Frame, res []*Val, in ssa.Instruction) bool {
	if len(s.frames) == 1 {
		x.Paths++
		x.fire(s, &Event{Kind: EvReturn, Instr: in, Fn: fr.fn, Res: res})
		return false
	}
	s.frames = s.frames[:len(s.frames)-1]
	cf := s.top()
	if fr.isDefer {
		if cf.panicking {
			return x.unwind(s)
		}
		return true // re-executes RunDefers
	}
	return x.bind(s, cf, fr.call, fr.fn, res, true)
}

// bind gives a finished call its results and fires EvRet.
func (x *Exec) bind(s *State, cf *Frame, call ssa.CallInstruction, target *ssa.Function, res []*Val, inlined bool) bool {
	var v *Val
	switch len(res) {
	case 0:
		v = x.T.nilv()
	case 1:
		v = res[0]
	default:
		v = x.T.app("tuple", res...)
	}
	if cv, ok := call.(ssa.Value); ok {
		if v.size > 2*x.MaxTerm {
			v = x.symFor(s, cf, call, "bigres", cv.Type())
		}
		cf.env[cv] = v
	}
	e := &Event{Kind: EvRet, Instr: call, Fn: cf.fn, Callee: calleeName(call.Common()), Target: target, Inlined: inlined, Res: res}
	if e.Callee == "" && target != nil {
		e.Callee = fnName(target)
	}
	return x.fire(s, e)
}

func (x *Exec) runDeferred(s *State, fr *Frame, d dcall) bool {
	return x.call(s, fr, d.instr, &d.instr.Call, d.fn, d.args, true)
}

// unwind continues panicking from the top frame.
func (x *Exec) unwind(s *State) bool {
	for {
		fr := s.top()
		if fr.recovered {
			fr.recovered, fr.panicking = false, false
			if n := len(fr.defers); n > 0 {
				// remaining deferred calls run, then the function returns
				d := fr.defers[n-1]
				fr.defers = fr.defers[:n-1]
				fr.recovered, fr.panicking = true, true
				if !x.call(s, fr, d.instr, &d.instr.Call, d.fn, d.args, true) {
					return false
				}
				if s.top() != fr {
					return true
				}
				continue
			}
			if fr.fn.Recover != nil {
				return x.enter(s, fr, nil, fr.fn.Recover)
			}
			var res []*Val
			rs := fr.fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				res = append(res, x.T.zero(rs.At(i).Type()))
			}
			return x.doReturn(s, fr, res, nil)
		}
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			if !x.call(s, fr, d.instr, &d.instr.Call, d.fn, d.args, true) {
				return false
			}
			if s.top() != fr {
				return true
			}
			continue
		}
		if len(s.frames) == 1 {
			x.Paths++
			x.fire(s, &Event{Kind: EvPanic, Fn: fr.fn})
			return false
		}
		s.frames = s.frames[:len(s.frames)-1]
		s.top().panicking = true
	}
}

func (x *Exec) callArgs(s *State, fr *Frame, c *ssa.CallCommon) (*Val, []*Val) {
	var args []*Val
	fv := x.val(s, fr, c.Value)
	if c.IsInvoke() {
		args = append(args, fv)
	}
	for _, a := range c.Args {
		args = append(args, x.val(s, fr, a))
	}
	return fv, args
}

// resolve finds the function a call will run, if known.
func (x *Exec) resolve(c *ssa.CallCommon, fv *Val, args []*Val) *ssa.Function {
	if c.IsInvoke() {
		if fv.Op == "iface" && fv.T != nil {
			sel := x.P.SSA.MethodSets.MethodSet(fv.T).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel != nil {
				return x.P.SSA.MethodValue(sel)
			}
		}
		return nil
	}
	if fv != nil && (fv.Op == "func" || fv.Op == "closure") {
		return fv.Fn
	}
	return c.StaticCallee()
}

func (x *Exec) onStack(s *State, fn *ssa.Function) bool {
	for _, f := range s.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (x *Exec) call(s *State, fr *Frame, in ssa.CallInstruction, c *ssa.CallCommon, fv *Val, args []*Val, deferred bool) bool {
	tgt := x.resolve(c, fv, args)
	name := calleeName(c)
	if tgt != nil && (name == "" || c.IsInvoke()) {
		if x.P.IsRepo(tgt) || name == "" {
			name = fnName(tgt)
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(s, fr, in, c, b, args, deferred)
	}
	inline := tgt != nil && len(tgt.Blocks) > 0 && x.P.IsRepo(tgt) && name != modPath+".Debug" && !x.onStack(s, tgt) &&
		len(s.frames) < x.MaxDepth && (x.Inline == nil || x.Inline(tgt))
	e := &Event{Kind: EvCall, Instr: in, Fn: fr.fn, Callee: name, Target: tgt, Inlined: inline, Args: args, Deferred: deferred, FnVal: fv}
	if !inline || true {
		s.note(in.Pos(), "calls "+shortCallee(name))
	}
	if !x.fire(s, e) {
		return false
	}
	if e.Val != nil && e.Kind == EvCall && e.Res != nil {
		// hook supplied results: treat as opaque with these results
		inline = false
	}
	if name == modPath+".Debug" {
		if !deferred {
			fr.idx++
		}
		return true
	}
	if strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "(*log.Logger).Fatal") || name == "os.Exit" || name == "runtime.Goexit" {
		x.Paths++
		x.fire(s, &Event{Kind: EvExit, Instr: in, Fn: fr.fn, Callee: name, Args: args})
		return false
	}
	if strings.HasPrefix(name, "log.Panic") {
		fr.panicking = true
		s.panicV = x.T.sym("panic value", nil)
		return x.unwind(s)
	}
	if name == "(*sync.Once).Do" && len(args) == 2 && args[1].Fn != nil && !deferred {
		o := s.clone()
		o.top().idx++
		x.push(o)
		f := args[1]
		if len(s.frames) < x.MaxDepth && !x.onStack(s, f.Fn) && len(f.Fn.Blocks) > 0 {
			fr.idx++
			x.inlined[f.Fn] = true
			nf := x.newFrame(s, fr, in, f.Fn, f, nil)
			nf.call = in
			nf.isDefer = false
			s.frames = append(s.frames, nf)
			return x.enter(s, nf, nil, f.Fn.Blocks[0])
		}
		fr.idx++
		return true
	}
	if inline {
		if !deferred {
			fr.idx++
		}
		x.inlined[tgt] = true
		a := args
		if c.IsInvoke() && fv.Op == "iface" {
			a = append([]*Val{fv.Args[0]}, args[1:]...)
		}
		nf := x.newFrame(s, fr, in, tgt, fv, a)
		nf.isDefer = deferred
		if !deferred {
			nf.call = in
		}
		s.frames = append(s.frames, nf)
		return x.enter(s, nf, nil, tgt.Blocks[0])
	}
	// opaque call
	if x.PanicAt != nil && x.PanicAt(s, e) {
		o := s.clone()
		of := o.top()
		of.panicking = true
		o.note(in.Pos(), shortCallee(name)+" panics")
		o.panicV = x.T.sym("panic value", nil)
		if x.unwindPush(o) {
			x.push(o)
		}
	}
	x.effects(s, fr, in, c, name, tgt, fv, args)
	var res []*Val
	if x.Model != nil {
		res = x.Model(x, s, e)
	}
	if res == nil {
		res = x.results(s, fr, in, c, name, args)
	}
	if deferred {
		return x.fire(s, &Event{Kind: EvRet, Instr: in, Fn: fr.fn, Callee: name, Target: tgt, Res: res, Deferred: true})
	}
	fr.idx++
	var v *Val
	switch len(res) {
	case 0:
		v = x.T.nilv()
	case 1:
		v = res[0]
	default:
		v = x.T.app("tuple", res...)
	}
	if cv, ok := in.(ssa.Value); ok {
		fr.env[cv] = v
	}
	return x.fire(s, &Event{Kind: EvRet, Instr: in, Fn: fr.fn, Callee: name, Target: tgt, Args: args, Res: res})
}

func (x *Exec) unwindPush(o *State) bool { return x.unwind(o) }

func shortCallee(n string) string { return strings.ReplaceAll(n, modPath+"/", "") }

func (x *Exec) newFrame(s *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, fv *Val, args []*Val) *Frame {
	nf := &Frame{fn: fn, env: map[ssa.Value]*Val{}, ctx: fmt.Sprintf("%s.%d", fr.ctx, x.id(in))}
	for i, p := range fn.Params {
		if i < len(args) {
			nf.env[p] = args[i]
		}
	}
	if fv != nil && fv.Op == "closure" && fv.Fn == fn {
		for i, p := range fn.FreeVars {
			if i < len(fv.Args) {
				nf.env[p] = fv.Args[i]
			}
		}
	}
	return nf
}

// shareClosure marks cells the goroutine may write as volatile.
func (x *Exec) shareClosure(s *State, fr *Frame, in ssa.Instruction, fv *Val, fn *ssa.Function) {
	if fn == nil {
		return
	}
	for i, b := range fv.Args {
		if i >= len(fn.FreeVars) {
			break
		}
		if b.Op == "alloc" && freeVarWritten(fn, fn.FreeVars[i], map[*ssa.Function]bool{}) {
			x.shared[b] = true
			x.havocRoot(s, b, fr, in)
		}
	}
}

// freeVarWritten: may fn store through the captured variable?
func freeVarWritten(fn *ssa.Function, fv ssa.Value, seen map[*ssa.Function]bool) bool {
	if fv.Referrers() == nil {
		return false
	}
	for _, r := range *fv.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Addr == fv {
				return true
			}
			if i.Val == fv {
				return true
			}
		case *ssa.UnOp:
		case *ssa.FieldAddr:
			if addrWritten(i) {
				return true
			}
		case *ssa.IndexAddr:
			if addrWritten(i) {
				return true
			}
		case *ssa.MakeClosure:
			f := i.Fn.(*ssa.Function)
			for j, b := range i.Bindings {
				if b == fv && !seen[f] {
					seen[f] = true
					if freeVarWritten(f, f.FreeVars[j], seen) {
						return true
					}
				}
			}
		default:
			return true
		}
	}
	return false
}

func addrWritten(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.UnOp:
		case *ssa.FieldAddr:
			if addrWritten(i) {
				return true
			}
		case *ssa.IndexAddr:
			if addrWritten(i) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

var pureCalls = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "errors.Is": true, "path/filepath.Join": true, "path/filepath.Base": true,
	"path/filepath.Dir": true, "path/filepath.Ext": true, "path/filepath.Clean": true, "path/filepath.IsAbs": true,
	"github.com/go-mysql/errors.MySQLErrorCode": true, "path.Join": true, "path.Base": true, "path.Ext": true, "path.Dir": true, "path.Clean": true,
}

func isPure(n string) bool {
	if pureCalls[n] {
		return true
	}
	for _, p := range []string{"strings.", "strconv.", "unicode.", "math.", "(time.Duration).", "(time.Time)."} {
		if strings.HasPrefix(n, p) {
			return n != "strings.NewReader" && n != "strings.NewReplacer"
		}
	}
	return false
}

// VarArgs returns the elements of a variadic argument built at the call site.
func (x *Exec) VarArgs(s *State, v *Val) ([]*Val, bool) {
	if v == nil {
		return nil, false
	}
	if v.isNil() {
		return nil, true
	}
	if v.Op != "slice" || v.Args[0].Op != "alloc" {
		return nil, false
	}
	a := v.Args[0]
	arr, ok := deref(a.T).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	var out []*Val
	for i := int64(0); i < arr.Len(); i++ {
		out = append(out, x.Load(s, x.T.app("elem", a, x.T.intv(i)), arr.Elem()))
	}
	return out, true
}

func (x *Exec) results(s *State, fr *Frame, in ssa.CallInstruction, c *ssa.CallCommon, name string, args []*Val) []*Val {
	sig := c.Signature()
	n := sig.Results().Len()
	if n == 0 {
		return nil
	}
	T := x.T
	expand := func() []*Val {
		out := append([]*Val(nil), args...)
		if sig.Variadic() && len(out) > 0 {
			if el, ok := x.VarArgs(s, out[len(out)-1]); ok {
				out = append(out[:len(out)-1], el...)
			}
		}
		return out
	}
	if name == "fmt.Errorf" || name == "errors.New" {
		a := expand()
		v := T.mk(Val{Op: "errorf", Name: x.symName(fr, in, "err"), Args: a, T: sig.Results().At(0).Type()})
		if v.size > 30 {
			v = T.mk(Val{Op: "errorf", Name: x.symName(fr, in, "err"), T: sig.Results().At(0).Type()})
		}
		return []*Val{v}
	}
	if name == "time.Since" && len(args) == 1 {
		now := x.symFor(s, fr, in, "call:time.Now", nil)
		return []*Val{T.mk(Val{Op: "pure", Name: "(time.Time).Sub/0", Args: []*Val{now, args[0]}, T: sig.Results().At(0).Type()})}
	}
	if name == "errors.Is" && len(args) == 2 {
		if args[0].isNil() {
			return []*Val{T.boolv(false)}
		}
		if args[0].Op == "errorf" && len(args[0].Args) > 0 {
			if f, ok := args[0].Args[0].constStr(); ok && !strings.Contains(f, "%w") {
				return []*Val{T.boolv(false)}
			}
		}
	}
	if name == "invoke context.Context.Done" {
		return []*Val{T.mk(Val{Op: "pure", Name: name, Args: []*Val{args[0]}, T: sig.Results().At(0).Type()})}
	}
	if name == "invoke context.Context.Err" {
		v := x.symFor(s, fr, in, "call:"+name, sig.Results().At(0).Type())
		x.ctxOf[v] = args[0]
		if s.facts[x.ctxDone(args[0])] {
			s.facts[T.eq(v, T.nilv())] = false
		}
		return []*Val{v}
	}
	if x.CtxTerms {
		switch name {
		case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause", "context.WithoutCancel", "context.WithValue":
			site := x.symFor(s, fr, in, "ctx", nil)
			lim := T.nilv()
			if len(args) > 1 {
				lim = args[1]
			}
			c := T.mk(Val{Op: "ctxwith", Name: name, Args: []*Val{site, args[0], lim}, T: sig.Results().At(0).Type()})
			if c.size > 28 {
				c = T.mk(Val{Op: "ctxwith", Name: name, Args: []*Val{site, args[0], x.symFor(s, fr, in, "ctxlimit", nil)}, T: sig.Results().At(0).Type()})
			}
			s.facts[T.eq(c, T.nilv())] = false
			if n == 1 {
				return []*Val{c}
			}
			f := x.symFor(s, fr, in, "cancel", sig.Results().At(1).Type())
			s.facts[T.eq(f, T.nilv())] = false
			return []*Val{c, f}
		}
	}
	if isPure(name) {
		a := expand()
		size := 0
		for _, v := range a {
			size += v.size
		}
		if size < 25 {
			var res []*Val
			for i := 0; i < n; i++ {
				res = append(res, T.mk(Val{Op: "pure", Name: fmt.Sprintf("%s/%d", name, i), Args: a, T: sig.Results().At(i).Type()}))
			}
			return res
		}
	}
	var res []*Val
	for i := 0; i < n; i++ {
		what := "call:" + shortCallee(name)
		if n > 1 {
			what = fmt.Sprintf("call:%s/%d", shortCallee(name), i)
		}
		res = append(res, x.symFor(s, fr, in, what, sig.Results().At(i).Type()))
	}
	if len(res) == 2 && sqlKind(name) != "" && isErrorType(sig.Results().At(1).Type()) {
		x.pair[res[0]], x.pair[res[1]] = res[1], res[0]
	}
	switch name {
	case "time.After", "time.NewTimer", "time.NewTicker", "invoke context.Context.Done", "context.Background", "context.TODO":
		if name != "invoke context.Context.Done" {
			s.facts[T.eq(res[0], T.nilv())] = false
		}
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause":
		s.facts[T.eq(res[0], T.nilv())] = false
		s.facts[T.eq(res[1], T.nilv())] = false
	}
	return res
}

// ctxDone is the condition "context v has ended"; it never becomes false again.
func (x *Exec) ctxDone(v *Val) *Val { return x.T.app("ctxdone", v) }

func (x *Exec) recvDone(s *State, ch *Val) {
	if ch.Op == "pure" && ch.Name == "invoke context.Context.Done" {
		s.facts[x.ctxDone(ch.Args[0])] = true
	}
}

// effects applies what an opaque call may do to memory.
func (x *Exec) effects(s *State, fr *Frame, in ssa.CallInstruction, c *ssa.CallCommon, name string, tgt *ssa.Function, fv *Val, args []*Val) {
	// locks: data guarded by the same struct may have changed by others
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.WaitGroup).Wait":
		if len(args) > 0 && args[0].Op == "field" && rootOf(args[0]).Op != "alloc" {
			b := args[0].Args[0]
			for k := range s.mem {
				if k != b && under(k, b) {
					delete(s.mem, k)
				}
			}
			x.killLoads(s, func(a *Val) bool { return a != b && under(a, b) })
		}
		return
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.Mutex).TryLock":
		return
	}
	if tgt != nil && x.P.IsRepo(tgt) {
		x.applyMods(s, x.mods(tgt))
	} else if c.IsInvoke() {
		for _, m := range x.P.Implementations(c) {
			x.applyMods(s, x.mods(m))
		}
	} else if isPure(name) || strings.HasPrefix(name, "fmt.") && !strings.Contains(name, "scan") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "errors.New") {
		return
	}
	var hit func(a *Val, depth int)
	hit = func(a *Val, depth int) {
		if a == nil || depth > 4 {
			return
		}
		switch a.Op {
		case "alloc":
			x.havocRoot(s, a, fr, in)
		case "field", "elem":
			x.havocRoot(s, a, fr, in)
		case "iface":
			hit(a.Args[0], depth+1)
		case "slice":
			if el, ok := x.VarArgs(s, a); ok {
				for _, e := range el {
					hit(e, depth+1)
				}
			} else {
				hit(a.Args[0], depth+1)
			}
		case "closure":
			for i, b := range a.Args {
				if b.Op == "alloc" && i < len(a.Fn.FreeVars) && freeVarWritten(a.Fn, a.Fn.FreeVars[i], map[*ssa.Function]bool{}) {
					x.havocRoot(s, b, fr, in)
				}
			}
			x.applyMods(s, x.mods(a.Fn))
		}
	}
	args2 := args
	if c.IsInvoke() {
		args2 = args[1:]
		if args[0].Op == "iface" {
			args2 = args
		}
	}
	for _, a := range args2 {
		hit(a, 0)
	}
	if fv != nil && fv.Op == "closure" && tgt != nil {
		hit(fv, 0)
	}
}

func (x *Exec) builtin(s *State, fr *Frame, in ssa.CallInstruction, c *ssa.CallCommon, b *ssa.Builtin, args []*Val, deferred bool) bool {
	T := x.T
	var r *Val
	name := "builtin " + b.Name()
	e := &Event{Kind: EvCall, Instr: in, Fn: fr.fn, Callee: name, Args: args, Deferred: deferred}
	if b.Name() == "append" && len(args) == 2 {
		if el, ok := x.VarArgs(s, args[1]); ok {
			e.Args = append([]*Val{args[0]}, el...)
		}
	}
	s.note(in.Pos(), name)
	if !x.fire(s, e) {
		return false
	}
	switch b.Name() {
	case "len":
		r = x.lenOf(args[0])
	case "cap":
		r = T.app("cap", args[0])
	case "append":
		r = x.symFor(s, fr, in, "append", c.Signature().Results().At(0).Type())
		if len(e.Args) > 1 && len(args) == 2 {
			if _, ok := x.VarArgs(s, args[1]); ok {
				s.facts[T.eq(r, T.nilv())] = false
				s.facts[T.eq(T.app("len", r), T.intv(0))] = false
			}
		}
	case "copy":
		if len(args) > 0 {
			de := c.Args[0].Type().Underlying().(*types.Slice).Elem().String()
			x.killLoads(s, func(a *Val) bool {
				if a.Op != "elem" || rootOf(a).Op == "alloc" {
					return false
				}
				et := sliceElem(a.Args[0])
				return et == "" || et == de
			})
			if args[0].Op == "alloc" || args[0].Op == "slice" {
				x.havocRoot(s, rootOf(stripSlice(args[0])), fr, in)
			}
		}
		r = x.symFor(s, fr, in, "copy", types.Typ[types.Int])
	case "delete":
		m := args[0]
		x.killLookups(s, func(a *Val) bool {
			return a == m || (a.T != nil && m.T != nil && types.Identical(a.T.Underlying(), m.T.Underlying()))
		})
		r = T.nilv()
	case "recover":
		r = T.nilv()
		if fr.isDefer && len(s.frames) >= 2 {
			below := s.frames[len(s.frames)-2]
			if below.panicking && !below.recovered {
				below.recovered = true
				r = s.panicV
				if r == nil {
					r = T.sym("panicvalue", nil)
				}
				s.facts[T.eq(r, T.nilv())] = false
				s.panicV = nil
			}
		}
	case "close":
		r = T.nilv()
	case "min", "max":
		r = x.symFor(s, fr, in, b.Name(), c.Signature().Results().At(0).Type())
	default:
		if c.Signature().Results().Len() > 0 {
			r = x.symFor(s, fr, in, b.Name(), c.Signature().Results().At(0).Type())
		} else {
			r = T.nilv()
		}
	}
	if deferred {
		return true
	}
	if v, ok := in.(ssa.Value); ok && r != nil {
		fr.env[v] = r
	}
	fr.idx++
	return x.fire(s, &Event{Kind: EvRet, Instr: in, Fn: fr.fn, Callee: name, Args: e.Args, Res: []*Val{r}})
}

func stripSlice(v *Val) *Val {
	for v.Op == "slice" {
		v = v.Args[0]
	}
	return v
}

func (x *Exec) lenOf(v *Val) *Val {
	switch v.Op {
	case "const":
		if v.C == nil {
			return x.T.intv(0)
		}
		if sv, ok := v.constStr(); ok {
			return x.T.intv(int64(len(sv)))
		}
	case "slice":
		if len(v.Args) == 1 && v.Args[0].Op == "alloc" && v.Args[0].T != nil {
			if arr, ok := deref(v.Args[0].T).Underlying().(*types.Array); ok {
				return x.T.intv(arr.Len())
			}
		}
	case "makeslice":
		if len(v.Args) > 0 {
			return v.Args[0]
		}
	}
	return x.T.app("len", v)
}

func (x *Exec) doSelect(s *State, fr *Frame, i *ssa.Select) bool {
	T := x.T
	type opt struct{ c int }
	var opts []int
	for k, st := range i.States {
		ch := x.val(s, fr, st.Chan)
		if n, ok := x.IsNil(s, ch); ok && n {
			continue
		}
		opts = append(opts, k)
	}
	if !i.Blocking {
		opts = append(opts, -1)
	}
	if len(opts) == 0 {
		x.Paths++
		return false
	}
	nrecv := 0
	for _, st := range i.States {
		if st.Dir == types.RecvOnly {
			nrecv++
		}
	}
	run := func(st *State, k int) bool {
		f := st.top()
		e := &Event{Kind: EvSelect, Instr: i, Fn: f.fn, Case: k, Sel: i, Blocking: i.Blocking}
		res := []*Val{T.intv(int64(k)), x.symFor(st, f, i, "selok", types.Typ[types.Bool])}
		n := 0
		for j, c := range i.States {
			if c.Dir == types.RecvOnly {
				if j == k {
					rv := x.symFor(st, f, i, fmt.Sprintf("sel%d", j), c.Chan.Type().Underlying().(*types.Chan).Elem())
					res = append(res, rv)
					e.Res = []*Val{rv}
				} else {
					res = append(res, T.nilv())
				}
				n++
			}
		}
		if k >= 0 {
			e.Chan = x.val(st, f, i.States[k].Chan)
			e.Dir = i.States[k].Dir
			if i.States[k].Send != nil {
				e.Val = x.val(st, f, i.States[k].Send)
			}
			pos := i.States[k].Pos
			st.note(pos, fmt.Sprintf("select case %d", k))
			x.Assume(st, T.eq(e.Chan, T.nilv()), false)
			if e.Dir == types.RecvOnly {
				x.recvDone(st, e.Chan)
			}
		} else {
			st.note(i.Pos(), "select default")
		}
		for _, c := range i.States {
			e.Args = append(e.Args, x.val(st, f, c.Chan))
		}
		if !x.fire(st, e) {
			return false
		}
		f.env[i] = T.app("tuple", res...)
		f.idx++
		return true
	}
	for _, k := range opts[1:] {
		o := s.clone()
		if run(o, k) {
			x.push(o)
		}
	}
	return run(s, opts[0])
}

func (x *Exec) eval(s *State, fr *Frame, v ssa.Value) (*Val, bool) {
	T := x.T
	in := v.(ssa.Instruction)
	switch i := v.(type) {
	case *ssa.Alloc:
		a := T.mk(Val{Op: "alloc", Name: x.symName(fr, in, "alloc"), T: i.Type()})
		x.age(s, a)
		for k := range s.mem {
			if rootOf(k) == a {
				delete(s.mem, k)
			}
		}
		s.mem[a] = T.zero(deref(i.Type()))
		if x.AllocEvents && !x.fire(s, &Event{Kind: EvAlloc, Instr: in, Fn: fr.fn, Addr: a}) {
			return nil, false
		}
		return a, true

	case *ssa.UnOp:
		o := x.val(s, fr, i.X)
		switch i.Op {
		case token.MUL:
			if x.LoadEvents && !x.fire(s, &Event{Kind: EvLoad, Instr: in, Fn: fr.fn, Addr: o}) {
				return nil, false
			}
			if x.shared[rootOf(o)] {
				return x.symFor(s, fr, in, "shared", i.Type()), true
			}
			return x.Load(s, o, i.Type()), true
		case token.ARROW:
			s.note(i.Pos(), "receive")
			rt := i.X.Type().Underlying().(*types.Chan).Elem()
			r := x.symFor(s, fr, in, "recv", rt)
			res := []*Val{r}
			var out *Val = r
			if i.CommaOk {
				ok := x.symFor(s, fr, in, "recvok", types.Typ[types.Bool])
				out = T.app("tuple", r, ok)
				res = append(res, ok)
			}
			o = x.val(s, fr, i.X)
			x.recvDone(s, o)
			if !x.fire(s, &Event{Kind: EvRecv, Instr: in, Fn: fr.fn, Chan: o, Res: res, Blocking: true}) {
				return nil, false
			}
			return out, true
		case token.NOT:
			return T.not(o), true
		case token.SUB:
			if o.isConst() && o.C != nil && isNum(o.C) {
				return T.konst(constant.UnaryOp(token.SUB, o.C, 0), i.Type()), true
			}
			return T.app("neg", o), true
		}
		return T.app("un"+i.Op.String(), o), true

	case *ssa.BinOp:
		a, b := x.val(s, fr, i.X), x.val(s, fr, i.Y)
		ty := i.X.Type()
		switch i.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			ty = i.Type()
		}
		r := T.binop(i.Op, a, b, ty)
		if x.RiskEvents && (i.Op == token.QUO || i.Op == token.REM) && isIntType(i.Type()) && !x.fire(s, &Event{Kind: EvRisk, Callee: "div", Instr: in, Fn: fr.fn, Args: []*Val{b}}) {
			return nil, false
		}
		if x.ArithEvents && (i.Op == token.ADD || i.Op == token.SUB) {
			if !x.fire(s, &Event{Kind: EvArith, Instr: in, Fn: fr.fn, Args: []*Val{a, b}, Res: []*Val{r}}) {
				return nil, false
			}
		}
		if r.size > x.MaxBin && (i.Op == token.ADD || i.Op == token.SUB || i.Op == token.MUL) {
			return x.symFor(s, fr, in, "bigbin", i.Type()), true
		}
		if r.T == nil && strings.HasPrefix(r.Op, "bin") {
			r.T = i.Type()
		}
		return r, true

	case *ssa.FieldAddr:
		return T.fieldAddr(x.val(s, fr, i.X), fieldOf(i)), true
	case *ssa.Field:
		b := x.val(s, fr, i.X)
		return T.vfield(b, fieldOf(i)), true
	case *ssa.IndexAddr:
		if x.RiskEvents && !x.fire(s, &Event{Kind: EvRisk, Callee: "index", Instr: in, Fn: fr.fn, Args: []*Val{x.val(s, fr, i.X), x.val(s, fr, i.Index)}}) {
			return nil, false
		}
		if x.IndexEvents {
			if !x.fire(s, &Event{Kind: EvIndex, Instr: in, Fn: fr.fn, Args: []*Val{x.val(s, fr, i.X), x.val(s, fr, i.Index)}}) {
				return nil, false
			}
		}
		return T.app("elem", x.elemBase(x.val(s, fr, i.X)), x.val(s, fr, i.Index)), true
	case *ssa.Index:
		if x.RiskEvents && !x.fire(s, &Event{Kind: EvRisk, Callee: "index", Instr: in, Fn: fr.fn, Args: []*Val{x.val(s, fr, i.X), x.val(s, fr, i.Index)}}) {
			return nil, false
		}
		return T.mk(Val{Op: "velem", Args: []*Val{x.val(s, fr, i.X), x.val(s, fr, i.Index)}, T: i.Type()}), true
	case *ssa.Lookup:
		m, k := x.val(s, fr, i.X), x.val(s, fr, i.Index)
		et := i.Type()
		if i.CommaOk {
			et = i.Type().(*types.Tuple).At(0).Type()
		}
		if m.T == nil {
			m.T = i.X.Type()
		}
		if x.LoadEvents && !x.fire(s, &Event{Kind: EvLoad, Instr: in, Fn: fr.fn, Args: []*Val{m, k}}) {
			return nil, false
		}
		if k.isConst() && m.Op == "load" && m.Args[0].Op == "global" {
			if e, has, ok := x.constEntry(i.X, k); ok {
				r := T.zero(et)
				if has {
					r = T.konst(e.Value, et)
				}
				if i.CommaOk {
					return T.app("tuple", r, T.boolv(has)), true
				}
				return r, true
			}
		}
		r := T.mk(Val{Op: "lookup", Args: []*Val{m, k}, T: et})
		if i.CommaOk {
			return T.app("tuple", r, T.mk(Val{Op: "lookupok", Args: []*Val{m, k}, T: types.Typ[types.Bool]})), true
		}
		return r, true
	case *ssa.Range:
		return T.app("range", x.val(s, fr, i.X)), true
	case *ssa.Next:
		tt := i.Type().(*types.Tuple)
		ok := x.symFor(s, fr, in, "nextok", types.Typ[types.Bool])
		k := x.symFor(s, fr, in, "nextk", tt.At(1).Type())
		vv := x.symFor(s, fr, in, "nextv", tt.At(2).Type())
		return T.app("tuple", ok, k, vv), true
	case *ssa.Extract:
		t := x.val(s, fr, i.Tuple)
		if t.Op == "tuple" && i.Index < len(t.Args) {
			return t.Args[i.Index], true
		}
		return T.mk(Val{Op: "extract", Name: fmt.Sprint(i.Index), Args: []*Val{t}, T: i.Type()}), true
	case *ssa.TypeAssert:
		o := x.val(s, fr, i.X)
		_, toIface := i.AssertedType.Underlying().(*types.Interface)
		var r, ok *Val
		if o.Op == "iface" && o.T != nil {
			if toIface {
				it := i.AssertedType.Underlying().(*types.Interface)
				r, ok = o, T.boolv(types.Implements(o.T, it))
			} else {
				same := types.Identical(o.T, i.AssertedType)
				ok = T.boolv(same)
				if same {
					r = o.Args[0]
				} else {
					r = T.zero(i.AssertedType)
				}
			}
		} else if o.isNil() {
			ok = T.boolv(false)
			r = T.zero(i.AssertedType)
		} else {
			r = T.mk(Val{Op: "assert", Args: []*Val{o}, T: i.AssertedType})
			ok = T.mk(Val{Op: "assertok", Name: i.AssertedType.String(), Args: []*Val{o}, T: types.Typ[types.Bool]})
		}
		if i.CommaOk {
			return T.app("tuple", r, ok), true
		}
		if x.RiskEvents && !x.fire(s, &Event{Kind: EvRisk, Callee: "assert", Instr: in, Fn: fr.fn, Cond: ok}) {
			return nil, false
		}
		return r, true
	case *ssa.ChangeType:
		return x.val(s, fr, i.X), true
	case *ssa.ChangeInterface:
		return x.val(s, fr, i.X), true
	case *ssa.MakeInterface:
		return T.mk(Val{Op: "iface", Args: []*Val{x.val(s, fr, i.X)}, T: i.X.Type()}), true
	case *ssa.Convert:
		o := x.val(s, fr, i.X)
		tb, _ := i.Type().Underlying().(*types.Basic)
		fb, _ := i.X.Type().Underlying().(*types.Basic)
		if tb != nil && fb != nil && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
			if o.isConst() {
				return o, true
			}
			if isUnsignedOrLen(o, i.X.Type()) || tb.Info()&types.IsUnsigned == fb.Info()&types.IsUnsigned {
				if sizeOf(tb) >= sizeOf(fb) {
					return o, true // value preserved
				}
			}
		}
		if tb != nil && fb != nil && tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0 {
			return o, true
		}
		if o.isConst() && o.C != nil && tb != nil && tb.Info()&types.IsFloat != 0 && isNum(o.C) {
			return T.konst(constant.ToFloat(o.C), i.Type()), true
		}
		return T.mk(Val{Op: "conv", Args: []*Val{o}, T: i.Type()}), true
	case *ssa.MultiConvert:
		return T.mk(Val{Op: "conv", Args: []*Val{x.val(s, fr, i.X)}, T: i.Type()}), true
	case *ssa.MakeClosure:
		var b []*Val
		for _, y := range i.Bindings {
			b = append(b, x.val(s, fr, y))
		}
		return T.mk(Val{Op: "closure", Fn: i.Fn.(*ssa.Function), Args: b, T: i.Type()}), true
	case *ssa.MakeChan:
		m := T.mk(Val{Op: "alloc", Name: x.symName(fr, in, "chan"), T: i.Type()})
		x.age(s, m)
		return m, true
	case *ssa.MakeMap:
		m := T.mk(Val{Op: "alloc", Name: x.symName(fr, in, "map"), T: i.Type()})
		x.age(s, m)
		return m, true
	case *ssa.MakeSlice:
		m := T.mk(Val{Op: "alloc", Name: x.symName(fr, in, "mkslice"), T: i.Type()})
		x.age(s, m)
		l := x.val(s, fr, i.Len)
		if x.RiskEvents && !x.fire(s, &Event{Kind: EvRisk, Callee: "makeslice", Instr: in, Fn: fr.fn, Args: []*Val{l}}) {
			return nil, false
		}
		if l.size < 20 {
			s.facts[T.eq(T.app("len", m), l)] = true
		}
		return m, true
	case *ssa.Slice:
		o := x.val(s, fr, i.X)
		if x.RiskEvents && (i.Low != nil || i.High != nil || i.Max != nil) {
			bounds := []*Val{o, nil, nil}
			if i.Low != nil {
				bounds[1] = x.val(s, fr, i.Low)
			}
			if i.High != nil {
				bounds[2] = x.val(s, fr, i.High)
			}
			if !x.fire(s, &Event{Kind: EvRisk, Callee: "slice", Instr: in, Fn: fr.fn, Args: bounds}) {
				return nil, false
			}
		}
		if i.Low == nil && i.High == nil && i.Max == nil {
			if _, ok := i.X.Type().Underlying().(*types.Pointer); ok {
				return T.mk(Val{Op: "slice", Args: []*Val{o}, T: i.Type()}), true
			}
			return o, true
		}
		g := func(v ssa.Value) *Val {
			if v == nil {
				return T.nilv()
			}
			return x.val(s, fr, v)
		}
		r := T.mk(Val{Op: "subslice", Args: []*Val{o, g(i.Low), g(i.High), g(i.Max)}, T: i.Type()})
		if r.size > 30 {
			r = x.symFor(s, fr, in, "bigslice", i.Type())
		}
		return r, true
	case *ssa.SliceToArrayPointer:
		return x.val(s, fr, i.X), true
	case *ssa.Phi:
		return x.val(s, fr, i), true
	}
	return x.symFor(s, fr, in, "op", v.Type()), true
}

func (x *Exec) elemBase(b *Val) *Val {
	if b.Op == "slice" && len(b.Args) == 1 {
		return b.Args[0]
	}
	return b
}

func sizeOf(b *types.Basic) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(b)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
