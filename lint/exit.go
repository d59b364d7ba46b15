package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C43"] = ruleC43
}

const (
	serverRun = "(*" + modPath + "/compute.Server).Run"
	remoteRun = "(*" + modPath + "/compute.Client).Run"
)

// startup: errors that start-up code may drop, by package and callee, and why.
var startupDrops = map[string]string{
	"boot os.Hostname":                             "only a name",
	"config os.Chdir":                              "restoring the directory when returning",
	"dbconn mysql.RegisterTLSConfig":               "fails only for reserved names; the name is a constant",
	"dbconn mysql.SetLogger":                       "fails only for nil",
	"dbconn (*os/exec.Cmd).Output":                 "no sockets found: the default is used",
	"dbconn mysql.ParseDSN":                        "only for redacting",
	"workload time.ParseDuration":                  "validated before (C31)",
	"stage time.ParseDuration":                     "validated before (C31)",
	"stats time.ParseDuration":                     "validated before (C31)",
	". strconv.ParseUint":                          "validated before (C31)",
	"data data.NewIntGaps":                         "a copy (C38)",
	"data data.NewIntRange":                        "a copy (C38)",
	"data data.NewIntRangeSeq":                     "a copy (C38)",
	"data data.Register":                           "constant names",
	"stats stats.Register":                         "constant names",
	"limit (*golang.org/x/time/rate.Limiter).Wait": "tried again until it succeeds (C16)",
}

func ruleC43(c *Ctx) {
	const ST, MA, SI, FL, TE = "startup", "main", "interrupt", "flags", "test"
	c.Rule(ST, "In every function that starting Finch as a server calls and that returns an error, every error of a call is returned (or another error is) or ends the process, on every path on which it is not nil; logging it is not enough.")
	c.Rule(MA, "On every path of main on which boot.Up returned an error, the process ends with a non-zero status after printing it; a failing start never ends with status 0.")
	c.Rule(SI, "Before the server or the client runs, on every path, a goroutine was started that waits for an interrupt registered without losing it, cancels the context that the run uses, and ends the process with a non-zero status after a fixed time.")
	c.Rule(FL, "On every path with --help or --version boot.Up returns without an error and without loading or running anything; --test, --dsn and the stage files are passed on.")
	c.Rule(TE, "On every path of Server.Run with --test, no stage is run and no remote is told to run.")
	c.startupErrors(ST)
	c.mainExit(MA)
	up := c.P.Func("boot", "", "Up")
	if up == nil {
		c.Missing(FL, "boot.Up")
		return
	}
	c.bootPaths(SI, FL, up)
	c.testMode(TE)
}

func (c *Ctx) startupErrors(rule string) {
	p := c.P
	up, run := p.Func("boot", "", "Up"), p.Func("compute", "Server", "Run")
	if up == nil || run == nil {
		c.Missing(rule, "boot.Up and compute.Server.Run")
		return
	}
	// functions called on the way
	scope := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if scope[f] || len(f.Blocks) == 0 || !p.IsRepo(f) {
			return
		}
		if rt := f.Signature.Recv(); rt != nil {
			// a remote tries again instead, clients report errors as statistics
			if n := namedOf(rt.Type()); n != nil && (n.Obj().Name() == "Client" || n.Obj().Name() == "API" && f.Name() != "Stage") {
				return
			}
		}
		scope[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if g := call.Call.StaticCallee(); g != nil && returnsErr(g.Signature) {
					visit(g)
				}
				if call.Call.IsInvoke() && returnsErr(call.Call.Signature()) {
					for _, g := range p.Implementations(&call.Call) {
						visit(g)
					}
				}
			}
		}
	}
	visit(up)
	visit(run)
	if !scope[run] {
		c.Missing(rule, "Server.Run called by boot.Up")
	}
	n := 0
	for f := range scope {
		c.Fn(f)
		for _, e := range errCalls(f) {
			if notOps(e.name) || dropOK(e) {
				continue
			}
			key := strings.TrimPrefix(strings.TrimPrefix(fnPkgPath(f), modPath), "/")
			if key == "" {
				key = "."
			}
			key += " " + dropName(e.name)
			if why, ok := startupDrops[key]; ok {
				c.Assume("dropped on purpose: " + key + ": " + why)
				continue
			}
			n++
			c.Obl(rule, shortFn(f)+":"+e.name)
			what := shortFn(f) + ":" + dropName(e.name)
			_, isDefer := e.call.(*ssa.Defer)
			_, isGo := e.call.(*ssa.Go)
			if isGo || isDefer || e.err == nil {
				c.Fail(rule, what, e.call.Pos(), "the error is dropped: a failing start goes on")
				continue
			}
			fl := &errFlow{p: p, e: e, strict: true}
			fl.bad = func(pos token.Pos, msg string) {
				c.Fail(rule, what, pos, "the error of "+e.name+" at "+p.Pos(e.call.Pos())+" can be lost: "+msg)
			}
			fl.run()
		}
	}
	c.Require(rule, n, 60, "calls that can fail while starting")
}

func returnsErr(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isErrorType(sig.Results().At(n-1).Type())
}

// exitStatus: the status a call that ends the process ends it with; known?
func exitStatus(e *Event) (int64, bool) {
	if e.Callee == "os.Exit" {
		return e.Args[0].constInt()
	}
	if e.Callee == "runtime.Goexit" {
		return 0, true
	}
	return 1, true
}

func (c *Ctx) mainExit(rule string) {
	p := c.P
	m := p.Func("bin/finch", "", "main")
	up := p.Func("boot", "", "Up")
	if m == nil || up == nil {
		c.Missing(rule, "main of bin/finch and boot.Up")
		return
	}
	c.Fn(m)
	c.Obl(rule, "main")
	x := NewExec(p, m)
	x.Inline = samePkg("bin/finch")
	x.FactKeep = func(*Val) bool { return true }
	called := 0
	x.Hook = func(x *Exec, s *State, e *Event) {
		failed := func() (bool, bool) {
			if s.RV[0] == nil {
				return false, false
			}
			n, k := x.IsNil(s, s.RV[0])
			return !n, k
		}
		switch e.Kind {
		case EvCall:
			if strings.HasPrefix(e.Callee, "log.") || strings.HasPrefix(e.Callee, "fmt.F") || strings.HasPrefix(e.Callee, "fmt.P") {
				for _, a := range x.expandArgs(s, e) {
					if s.RV[0] != nil && a.find1(func(u *Val) bool { return u == s.RV[0] }) {
						s.A[0] = 1
					}
				}
			}
		case EvRet:
			if e.Target == up {
				called++
				s.RV[0] = e.Res[0]
			}
		case EvExit:
			st, known := exitStatus(e)
			bad, kb := failed()
			switch {
			case !known:
				c.Fail(rule, siteName(e, "status"), e.Pos(), "cannot tell the exit status", x.TraceStr(s, 14)...)
			case st == 0 && (!kb || bad):
				c.Fail(rule, siteName(e, "status"), e.Pos(), "the process ends with status 0 though starting or running failed", x.TraceStr(s, 14)...)
			case st != 0 && s.RV[0] != nil && kb && !bad:
				c.Fail(rule, siteName(e, "success"), e.Pos(), "the process ends with a non-zero status though nothing failed", x.TraceStr(s, 14)...)
			case st != 0 && s.A[0] == 0 && s.RV[0] != nil:
				c.Fail(rule, siteName(e, "message"), e.Pos(), "the process ends without printing the error", x.TraceStr(s, 14)...)
			}
		case EvReturn:
			if bad, kb := failed(); s.RV[0] == nil || !kb || bad {
				c.Fail(rule, siteName(e, "return"), e.Pos(), "the process ends with status 0 though starting or running failed", x.TraceStr(s, 14)...)
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	c.Require(rule, called, 1, "calls of boot.Up")
}

// expandArgs: arguments of a call, those of a variadic call one by one, without interfaces.
func (x *Exec) expandArgs(s *State, e *Event) []*Val {
	out := append([]*Val(nil), e.Args...)
	if n := len(out); n > 0 {
		if els, ok := x.VarArgs(s, out[n-1]); ok {
			out = append(out[:n-1], els...)
		}
	}
	for i := range out {
		out[i] = stripIface(out[i])
	}
	return out
}

func (c *Ctx) bootPaths(si, fl string, up *ssa.Function) {
	p := c.P
	load, newServer := p.Func("config", "", "Load"), p.Func("compute", "", "NewServer")
	parse := p.Func("boot", "", "ParseCommandLine")
	opts := map[string]*types.Var{}
	if t := p.Type("boot", "Options"); t != nil {
		opts = fieldsOf(t)
	}
	args := p.Field("boot", "CommandLine", "Args")
	for what, ok := range map[string]bool{"config.Load": load != nil, "compute.NewServer": newServer != nil, "boot.ParseCommandLine": parse != nil, "boot.CommandLine.Args": args != nil,
		"boot.Options": opts["Help"] != nil && opts["Version"] != nil && opts["Test"] != nil && opts["DSN"] != nil && opts["Database"] != nil && opts["Params"] != nil && opts["Server"] != nil && opts["Client"] != nil} {
		if !ok {
			c.Missing(fl, what)
			return
		}
	}
	c.Fn(up)
	x := NewExec(p, up)
	x.Inline = func(f *ssa.Function) bool {
		return fnPkgPath(f) == modPath+"/boot" && f != parse && f.Name() != "printHelp"
	}
	x.CtxTerms = true
	x.FactKeep = func(v *Val) bool {
		return v.find1(func(u *Val) bool { return u.Op == "vfield" || u.Op == "load" && u.Args[0].Op == "field" })
	}
	of := func(v *Val, f *types.Var) bool {
		if v == nil {
			return false
		}
		g := v.Fld
		if v.Op == "load" {
			g, _ = v.loadedField()
		} else if v.Op != "vfield" {
			return false
		}
		return g == f
	}
	opt := func(s *State, name string) (bool, bool) {
		for f, v := range s.facts {
			if of(f, opts[name]) {
				return v, true
			}
		}
		return false, false
	}
	runs, loads, early := 0, 0, 0
	cancelOf, notified := map[*Val]*Val{}, map[*Val]bool{}
	// A: 0 watched, 1 loaded or made something, 2 ran, 3 signal.Notify called; RV: 0 context that is cancelled, 1 stages loaded, 2 signal channel, 3 server made
	x.Hook = func(x *Exec, s *State, e *Event) {
		bad := func(rule, what, msg string) { c.Fail(rule, siteName(e, what), e.Pos(), msg, x.TraceStr(s, 20)...) }
		notEarly := func() {
			s.A[1] = 1
			for _, n := range []string{"Help", "Version"} {
				if v, known := opt(s, n); !known || v {
					bad(fl, n, "with --"+strings.ToLower(n)+" Finch does more than print")
				}
			}
		}
		switch e.Kind {
		case EvCall:
			switch {
			case e.Callee == "os/signal.Notify":
				s.RV[2] = e.Args[0]
				if ok, why := interrupts(x, s, e); ok {
					s.A[3] = 1
				} else {
					bad(si, "signal", why)
				}
			case e.Callee == "os/signal.Ignore":
				bad(si, "signal", "interrupts are ignored")
			case e.Callee == "os/signal.Stop" || e.Callee == "os/signal.Reset":
				bad(si, "signal", "interrupts are not handled any more")
			case e.Callee == "os/signal.NotifyContext":
				if ok, why := interrupts(x, s, e); ok {
					s.A[3] = 1
				} else {
					bad(si, "signal", why)
				}
			case e.Target == load:
				loads++
				notEarly()
				c.Obl(fl, "config.Load")
				if !x.within(s, e.Args[0], args) {
					bad(fl, "files", "the stage files of the command line are not loaded")
				}
				if !of(e.Args[1], opts["Params"]) || !of(e.Args[2], opts["DSN"]) || !of(e.Args[3], opts["Database"]) {
					bad(fl, "overrides", "--param, --dsn or --database are not passed on")
				}
			case e.Target == newServer:
				notEarly()
				c.Obl(fl, "compute.NewServer")
				if len(e.Args) < 3 || !of(e.Args[2], opts["Test"]) {
					bad(fl, "test", "--test is not passed on")
				}
				if len(e.Args) < 3 || !of(e.Args[1], opts["Server"]) {
					bad(fl, "server", "--server is not passed on")
				}
			case e.Callee == serverRun, e.Callee == remoteRun:
				runs++
				notEarly()
				s.A[2] = 1
				c.Obl(si, e.Callee)
				if s.A[0] == 0 {
					bad(si, "watch", "Finch runs without handling an interrupt")
				} else if s.RV[0] == nil || !sameCtx(e.Args[1], s.RV[0]) {
					bad(si, "context", "the run does not use the context that an interrupt cancels")
				}
				if e.Callee == serverRun {
					if len(e.Args) < 3 || e.Args[2] != s.RV[1] {
						bad(fl, "stages", "the stages run are not those loaded")
					}
				}
			}
		case EvRet:
			if strings.HasPrefix(e.Callee, "context.With") && len(e.Res) == 2 {
				cancelOf[e.Res[1]] = e.Res[0]
			}
			if e.Callee == "os/signal.NotifyContext" && len(e.Res) == 2 {
				notified[e.Res[0]] = true
			}
			if e.Target == load && len(e.Res) == 2 {
				s.RV[1] = e.Res[0]
			}
		case EvGo:
			if e.Target == nil {
				return
			}
			ctx, why, isWatch := c.watchesInterrupt(si, x, s, e, cancelOf, notified)
			if !isWatch {
				return
			}
			c.Obl(si, "goroutine")
			if why != "" {
				bad(si, "goroutine", why)
				return
			}
			s.A[0], s.RV[0] = 1, ctx
		case EvReturn:
			for _, n := range []string{"Help", "Version"} {
				v, known := opt(s, n)
				if !known || !v {
					continue
				}
				early++
				c.Obl(fl, n)
				if isNil, k := x.IsNil(s, e.Res[0]); !k || !isNil {
					bad(fl, n, "--"+strings.ToLower(n)+" fails")
				}
			}
		}
	}
	x.Run(nil, nil)
	c.finish(si, x)
	c.Require(si, runs, 2, "runs of a server or client")
	c.Require(fl, loads, 1, "loading of stage files")
	c.Require(fl, early, 2, "paths with --help or --version")
}

// within: the value is the field or part of it.
func (x *Exec) within(s *State, v *Val, f *types.Var) bool {
	return v.find1(func(u *Val) bool {
		if u.Op == "vfield" {
			return u.Fld == f
		}
		g, _ := u.loadedField()
		return g == f
	})
}

// sameCtx: the context is the one cancelled, or derived from it.
func sameCtx(v, base *Val) bool {
	for v != nil {
		if v == base {
			return true
		}
		if v.Op != "ctxwith" || v.Name == "context.WithoutCancel" {
			return false
		}
		v = v.Args[1]
	}
	return false
}

// interrupts: the call registers for os.Interrupt on a channel that can hold it.
func interrupts(x *Exec, s *State, e *Event) (bool, string) {
	com := e.Instr.(ssa.CallInstruction).Common()
	named, all := false, false
	vs := varargsOf(com.Args[1:])
	if k, ok := com.Args[1].(*ssa.Const); ok && k.Value == nil {
		all = true
	}
	for _, v := range vs {
		if u, ok := v.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && (g.String() == "os.Interrupt") {
				named = true
			}
		}
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && isNamed(k.Type(), "syscall", "Signal") {
			if n, ok := constant.Int64Val(k.Value); ok && n == 2 {
				named = true
			}
		}
	}
	if !named && !all {
		return false, "os.Interrupt is not registered"
	}
	if e.Callee == "os/signal.Notify" {
		ch := com.Args[0]
		for {
			if ct, ok := ch.(*ssa.ChangeType); ok {
				ch = ct.X
				continue
			}
			break
		}
		if !bufferedChan(ch, 0) {
			return false, "an interrupt can be lost: the channel has no buffer"
		}
	}
	return true, ""
}

// bufferedChan: every channel the value can be was made with a buffer.
func bufferedChan(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.MakeChan:
		k, ok := v.Size.(*ssa.Const)
		return ok && k.Int64() >= 1
	case *ssa.ChangeType:
		return bufferedChan(v.X, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !bufferedChan(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		var cell ssa.Value = v.X
		if fv, ok := cell.(*ssa.FreeVar); ok {
			cell = bindingOf(fv)
		}
		al, ok := cell.(*ssa.Alloc)
		if !ok || al.Referrers() == nil {
			return false
		}
		n := 0
		for _, r := range *al.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
				n++
				if !bufferedChan(st.Val, depth+1) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.FreeVar:
		if b := bindingOf(v); b != nil {
			return bufferedChan(b, depth+1)
		}
	}
	return false
}

// bindingOf: what a free variable is bound to, if there is one closure.
func bindingOf(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	var out ssa.Value
	if fn.Parent() == nil || idx < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				if out != nil {
					return nil
				}
				out = mc.Bindings[idx]
			}
		}
	}
	return out
}

// watchesInterrupt decides whether the goroutine started handles an interrupt: it
// returns the context that it cancels.
func (c *Ctx) watchesInterrupt(rule string, x *Exec, s *State, g *Event, cancelOf map[*Val]*Val, notified map[*Val]bool) (ctx *Val, why string, is bool) {
	fn := g.Target
	c.Fn(fn)
	y := NewExec(c.P, fn)
	y.Inline = samePkg("boot")
	y.FactKeep = func(*Val) bool { return true }
	// outer: the value the goroutine was given
	outer := func(v *Val) *Val {
		if v == nil {
			return nil
		}
		of := func(v *Val) *Val {
			for i := range fn.Params {
				if v == y.ArgVal(i) && i < len(g.Args) {
					return g.Args[i]
				}
			}
			for i := range fn.FreeVars {
				if v == y.ArgVal(len(fn.Params)+i) && g.FnVal != nil && g.FnVal.Op == "closure" && i < len(g.FnVal.Args) {
					return g.FnVal.Args[i]
				}
			}
			return nil
		}
		if o := of(v); o != nil {
			return o
		}
		if v.Op == "load" {
			if o := of(v.Args[0]); o != nil {
				return x.Load(s, o, v.T)
			}
		}
		return nil
	}
	fail := func(m string) {
		if why == "" {
			why = m
		}
	}
	exits := 0
	wait := func(t *State) {
		if t.A[1] == 0 {
			return
		}
		if t.A[2] == 0 {
			fail("an interrupt does not cancel the run before the goroutine waits")
		}
		t.A[3] = 1
	}
	// A: 1 got the signal, 2 cancelled, 3 waited; RV: 2 channel registered
	recv := func(t *State, e *Event, sch ssa.Value) {
		if t.A[1] == 1 {
			if timerChan(sch) {
				wait(t)
			} else {
				fail("after an interrupt the goroutine waits for something else than a fixed time")
			}
			return
		}
		if e.Chan != nil && e.Chan == t.RV[2] {
			t.A[1] = 1
			return
		}
		if o := outer(e.Chan); o != nil && o == s.RV[2] {
			is = true
			t.A[1] = 1
			return
		}
		if cl, ok := sch.(*ssa.Call); ok && cl.Call.IsInvoke() && cl.Call.Method.Name() == "Done" {
			if len(t.frames) > 0 {
				if o := outer(y.val(t, t.top(), cl.Call.Value)); o != nil && notified[o] {
					is = true
					ctx = o
					t.A[1], t.A[2] = 1, 1
				}
			}
		}
	}
	y.Hook = func(y *Exec, t *State, e *Event) {
		switch e.Kind {
		case EvCall:
			switch {
			case e.Callee == "os/signal.Notify":
				is = true
				t.RV[2] = e.Args[0]
				if ok, m := interrupts(y, t, e); !ok {
					fail(m)
				}
			case e.Callee == "time.Sleep":
				if d, ok := e.Args[0].constInt(); ok && d > 0 && d <= 60e9 {
					wait(t)
				} else if t.A[1] == 1 {
					fail("after an interrupt the goroutine does not wait a fixed time")
				}
			case strings.HasSuffix(e.Callee, "WaitGroup).Wait") || e.Callee == "(*sync.Cond).Wait":
				if t.A[1] == 1 {
					fail("after an interrupt the goroutine waits for something else than a fixed time")
				}
			default:
				if e.FnVal != nil && t.A[1] == 1 {
					if cx := cancelOf[outer(e.FnVal)]; cx != nil {
						t.A[2] = 1
						ctx = cx
					}
				}
			}
		case EvRecv:
			if u, ok := e.Instr.(*ssa.UnOp); ok {
				recv(t, e, u.X)
			}
		case EvSelect:
			if e.Sel != nil && e.Case >= 0 && e.Case < len(e.Sel.States) {
				recv(t, e, e.Sel.States[e.Case].Chan)
			} else if t.A[1] == 1 {
				fail("after an interrupt the goroutine does not wait a fixed time")
			}
		case EvExit:
			exits++
			if t.A[1] == 0 {
				fail("the process is ended without an interrupt")
				return
			}
			if st, k := exitStatus(e); !k || st == 0 {
				fail("an interrupted process that does not stop ends with status 0")
			}
			if t.A[2] == 0 {
				fail("an interrupt does not cancel the run")
			}
			if t.A[3] == 0 {
				fail("an interrupted run is ended without time to stop")
			}
		case EvReturn:
			if t.A[1] == 1 {
				fail("the process is not ended if the run does not stop after an interrupt")
			} else {
				fail("the goroutine can end without an interrupt")
			}
		}
	}
	y.Run(nil, nil)
	if is {
		c.finish(rule, y)
		if exits == 0 {
			fail("the process is not ended if the run does not stop after an interrupt")
		}
	}
	return ctx, why, is
}

// timerChan: a channel that receives after a constant time.
func timerChan(v ssa.Value) bool {
	fixed := func(a ssa.Value) bool {
		k, ok := a.(*ssa.Const)
		return ok && k.Value != nil && k.Int64() > 0 && k.Int64() <= 60e9
	}
	switch v := v.(type) {
	case *ssa.Call:
		return calleeName(&v.Call) == "time.After" && fixed(v.Call.Args[0])
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL && fieldOf(fa).Name() == "C" {
			if cl, ok := fa.X.(*ssa.Call); ok && calleeName(&cl.Call) == "time.NewTimer" {
				return fixed(cl.Call.Args[0])
			}
		}
	}
	return false
}

// testMode decides that nothing runs with --test.
func (c *Ctx) testMode(rule string) {
	p := c.P
	run, st := p.Func("compute", "Server", "Run"), p.Type("compute", "Server")
	mk := p.Func("compute", "", "NewServer")
	if run == nil || st == nil || mk == nil {
		c.Missing(rule, "compute.Server.Run")
		return
	}
	// the field --test is kept in
	var test *types.Var
	if len(mk.Params) == 3 && mk.Params[2].Referrers() != nil {
		for _, r := range *mk.Params[2].Referrers() {
			if s, ok := r.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && s.Val == ssa.Value(mk.Params[2]) {
					test = fieldOf(fa)
				}
			}
		}
	}
	if test == nil {
		c.Missing(rule, "the field of Server that --test is kept in")
		return
	}
	c.Fn(run)
	x := NewExec(p, run)
	x.Inline = func(f *ssa.Function) bool {
		rt := f.Signature.Recv()
		return fnPkgPath(f) == modPath+"/compute" && (rt == nil || namedOf(rt.Type()) == st)
	}
	isTest := func(v *Val) bool { f, _ := v.loadedField(); return f == test }
	x.FactKeep = func(v *Val) bool { return isTest(v) }
	n := 0
	off := func(s *State) bool {
		for f, v := range s.facts {
			if isTest(f) && !v {
				return true
			}
		}
		return false
	}
	reaches := func(fn *ssa.Function) bool {
		for f := range p.Reach(fn) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && calleeName(call.Common()) == stageRun {
						return true
					}
				}
			}
		}
		return false
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		hit := ""
		switch e.Kind {
		case EvCall:
			if e.Callee == stageRun {
				hit = "a stage is run"
			}
			if e.Callee == "builtin close" && !e.Deferred {
				hit = "the signal to run is given"
			}
		case EvGo:
			if e.Target != nil && (fnName(e.Target) == stageRun || reaches(e.Target)) {
				hit = "a stage is run"
			}
		case EvBranch:
			if isTest(stripNot(e.Cond)) {
				if v, k := x.Ask(s, stripNot(e.Cond)); k && !v {
					s.A[0] = 1
				} else {
					s.A[0] = 0
				}
			}
		}
		if hit == "" {
			return
		}
		n++
		c.Obl(rule, siteName(e, "run"))
		if s.A[0] == 0 && !off(s) {
			c.Fail(rule, siteName(e, "run"), e.Pos(), "with --test "+hit, x.TraceStr(s, 20)...)
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	c.Require(rule, n, 2, "places that run a stage")
}

func stripNot(v *Val) *Val {
	for v != nil && v.Op == "not" {
		v = v.Args[0]
	}
	return v
}
