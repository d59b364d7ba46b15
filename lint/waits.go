package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C09"] = ruleC09
}

// The longest wait that counts as finite. (Ending a run is allowed to take this long at most
// where nothing else ends the wait.)
const longestWait = 2 * time.Minute

type waits struct {
	c    *Ctx
	p    *Prog
	ci   *chanInfo
	ctxs map[ssa.Value]map[ssa.Value]bool
}

func ruleC09(c *Ctx) {
	const CA, PL, RE, SL, WA, LO = "contexts", "plain", "requests", "sleeps", "selects", "loops"
	c.Rule(CA, "The context of every call into database/sql and of every HTTP request is, through all callers, fields and variables, one that an interrupt or the end of the run ends, or has a finite constant timeout; never Background or TODO as such.")
	c.Rule(PL, "No call into database/sql or net/http that can block is made without a context: no Exec, Query, Ping, Prepare or Begin without Context, no http.Get, Post or Do of a request without one, no WaitGroup or process waited for while a stage runs.")
	c.Rule(RE, "Every request to the server has a finite constant timeout per try and constant waits, and is tried without end only with a context that ends.")
	c.Rule(SL, "Every sleep, and every receive from a timer without alternative, is for a constant finite time.")
	c.Rule(WA, "Every blocking select and receive of a client and of a stage has an alternative that ends with the context or a timer.")
	c.Rule(LO, "Every loop that makes such calls, or sleeps in a client, a stage or a limit, and is not over a list or a counter, passes on each round an operation that fails when the context has ended and whose failure leaves the loop, or a step of a counter that ends it. (Loops that sleep in other packages: C24.)")
	w := &waits{c: c, p: c.P, ci: newChanInfo(c.P), ctxs: map[ssa.Value]map[ssa.Value]bool{}}
	nC, nR, nS, nW, nL := 0, 0, 0, 0, 0
	running := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		rel := strings.TrimPrefix(strings.TrimPrefix(fnPkgPath(fn), modPath), "/")
		if strings.HasPrefix(rel, "test") || strings.HasPrefix(rel, "bin") {
			continue
		}
		if len(fn.Blocks) == 0 {
			continue
		}
		if rel == "client" || rel == "stage" || rel == "compute" || rel == "stats" || rel == "proto" || rel == "limit" {
			running[fn] = true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case ssa.CallInstruction:
					name := calleeName(i.Common())
					switch kind, arg := blocking(i.Common()); kind {
					case "ctx":
						nC++
						c.Obl(CA, c.P.Pos(i.Pos())+" "+name)
						w.context(CA, fn, i, i.Common().Args[arg], name)
					case "plain":
						c.Fail(PL, shortFn(fn)+":"+dropName(name), i.Pos(), name+" can block without a context that ends it")
					case "wait":
						if running[fn] {
							c.Fail(PL, shortFn(fn)+":"+dropName(name), i.Pos(), name+" can block without a context that ends it")
						}
					case "do":
						nC++
						c.Obl(CA, c.P.Pos(i.Pos())+" "+name)
						w.request(CA, PL, fn, i)
					case "sleep":
						nS++
						c.Obl(SL, c.P.Pos(i.Pos()))
						if why := w.finite(i.Common().Args[0], map[ssa.Value]bool{}); why != "" {
							c.Fail(SL, shortFn(fn)+":sleep", i.Pos(), "the time slept is not a short constant: "+why)
						}
					case "tries":
						nR++
						c.Obl(RE, c.P.Pos(i.Pos()))
						w.tries(RE, fn, i)
					}
				case *ssa.Select:
					if !i.Blocking || rel != "client" && rel != "stage" {
						continue
					}
					nW++
					ok := false
					for _, st := range i.States {
						if st.Dir == types.RecvOnly && w.ends(st.Chan) == "" {
							ok = true
						}
					}
					c.Obl(WA, c.P.Pos(i.Pos()))
					if !ok {
						c.Fail(WA, shortFn(fn)+":select", i.Pos(), "nothing ends this wait when the run ends")
					}
				case *ssa.UnOp:
					if i.Op != token.ARROW {
						continue
					}
					if ca, ok := i.X.(*ssa.Call); ok && calleeName(ca.Common()) == "time.After" {
						nS++
						c.Obl(SL, c.P.Pos(i.Pos()))
						if why := w.finite(ca.Call.Args[0], map[ssa.Value]bool{}); why != "" {
							c.Fail(SL, shortFn(fn)+":sleep", i.Pos(), "the time waited is not a short constant: "+why)
						}
						continue
					}
					if rel != "client" && rel != "stage" {
						continue
					}
					nW++
					c.Obl(WA, c.P.Pos(i.Pos()))
					if why := w.ends(i.X); why != "" {
						c.Fail(WA, shortFn(fn)+":receive", i.Pos(), "nothing ends this wait when the run ends")
					}
				}
			}
		}
		if running[fn] {
			nL += w.loops(LO, fn)
		}
	}
	c.Obl(PL, "all calls of the repository")
	c.Require(CA, nC, 10, "calls with a context")
	c.Require(RE, nR, 5, "requests to the server")
	c.Require(SL, nS, 5, "sleeps")
	c.Require(WA, nW, 3, "waits of clients and stages")
	c.Require(LO, nL, 4, "loops")
}

// blocking classifies a call that can wait for a peer: "ctx" with the index of its context
// argument, "plain" without one, "do" for an HTTP request, "sleep", "tries" for a request of
// proto, "wait" for another wait.
func blocking(c *ssa.CallCommon) (string, int) {
	n := calleeName(c)
	switch {
	case strings.HasPrefix(n, "(*database/sql."):
		recv, m := n[len("(*database/sql."):strings.Index(n, ")")], n[strings.LastIndex(n, ".")+1:]
		switch m {
		case "Exec", "Query", "QueryRow", "Ping", "Prepare", "Begin":
			return "plain", 0
		case "ExecContext", "QueryContext", "QueryRowContext", "PingContext", "PrepareContext", "BeginTx", "StmtContext":
			return "ctx", 1
		case "Conn":
			if recv == "DB" {
				return "ctx", 1
			}
		}
	case n == "net/http.Get", n == "net/http.Head", n == "net/http.Post", n == "net/http.PostForm":
		return "plain", 0
	case strings.HasPrefix(n, "(*net/http.Client)."):
		if strings.HasSuffix(n, ".Do") {
			return "do", 0
		}
		if !strings.HasSuffix(n, ".CloseIdleConnections") {
			return "plain", 0
		}
	case n == "net.Dial", n == "(*sync.WaitGroup).Wait", n == "(*sync.Cond).Wait", n == "(*os/exec.Cmd).Wait", n == "(*os/exec.Cmd).Run":
		return "wait", 0
	case n == "time.Sleep":
		return "sleep", 0
	case strings.HasPrefix(n, "(*"+modPath+"/proto.Client)."):
		for i, a := range c.Args {
			if isNamed(a.Type(), modPath+"/proto", "R") {
				return "tries", i
			}
		}
	}
	return "", 0
}

// roots: where a context comes from. Parameters of functions of proto stay: every call of
// those is a request of its own.
func (w *waits) roots(v ssa.Value) map[ssa.Value]bool {
	if r, ok := w.ctxs[v]; ok {
		return r
	}
	out := map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.Phi:
			for _, e := range i.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(i.X)
		case *ssa.ChangeInterface:
			walk(i.X)
		case *ssa.MakeInterface:
			walk(i.X)
		case *ssa.UnOp:
			if f := fieldOf(i.X); f != nil {
				w.stored(f, walk, out, v)
				return
			}
			walk(i.X)
		case *ssa.Field:
			w.stored(fieldOf(i), walk, out, v)
		case *ssa.Alloc:
			n := 0
			if refs := i.Referrers(); refs != nil {
				for _, r := range *refs {
					switch s := r.(type) {
					case *ssa.Store:
						if s.Addr == ssa.Value(i) {
							n++
							walk(s.Val)
						}
					case *ssa.MakeClosure: // assigned in the closure
						for k, b := range s.Bindings {
							if b == ssa.Value(i) {
								fv := s.Fn.(*ssa.Function).FreeVars[k]
								for _, q := range *fv.Referrers() {
									if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(fv) {
										walk(st.Val)
									}
								}
							}
						}
					}
				}
			}
			if n == 0 {
				out[v] = true
			}
		case *ssa.FreeVar:
			for _, b := range w.ci.binds[i] {
				walk(b)
			}
		case *ssa.Parameter:
			fn := i.Parent()
			if fnPkgPath(fn) == modPath+"/proto" {
				out[v] = true
				return
			}
			idx := -1
			for k, q := range fn.Params {
				if q == i {
					idx = k
				}
			}
			cs := w.p.callersOf(fn)
			n := 0
			for _, ca := range cs {
				if a := ca.Common().Args; idx < len(a) {
					n++
					walk(a[idx])
				}
			}
			for _, f := range w.p.Funcs {
				for _, ca := range callsOf(f) {
					if !ca.Common().IsInvoke() || ca.Common().Method.Name() != fn.Name() {
						continue
					}
					for _, g := range w.p.Implementations(ca.Common()) {
						if g == fn && idx-1 < len(ca.Common().Args) && idx > 0 {
							n++
							walk(ca.Common().Args[idx-1])
						}
					}
				}
			}
			if n == 0 {
				out[v] = true // of the API: its caller's
			}
		case *ssa.Extract:
			if c, ok := i.Tuple.(*ssa.Call); ok {
				w.made(c, i.Index, walk, out)
				return
			}
			out[v] = true
		case *ssa.Call:
			w.made(i, 0, walk, out)
		default:
			out[v] = true
		}
	}
	walk(v)
	w.ctxs[v] = out
	return out
}

func (w *waits) stored(f *types.Var, walk func(ssa.Value), out map[ssa.Value]bool, at ssa.Value) {
	if f == nil || len(w.ci.stores[f]) == 0 {
		out[at] = true
		return
	}
	for _, s := range w.ci.stores[f] {
		walk(s)
	}
}

func (w *waits) made(c *ssa.Call, idx int, walk func(ssa.Value), out map[ssa.Value]bool) {
	switch n := calleeName(c.Common()); n {
	case "context.WithCancel", "context.WithCancelCause", "context.WithValue":
		walk(c.Call.Args[0])
		return
	case "context.WithTimeout", "context.WithTimeoutCause":
		if w.finite(c.Call.Args[1], map[ssa.Value]bool{}) == "" {
			out[c] = true // good on its own
			return
		}
		walk(c.Call.Args[0])
		return
	case "context.WithDeadline", "context.WithDeadlineCause":
		// time.Now().Add(constant)
		if a, ok := c.Call.Args[1].(*ssa.Call); ok && calleeName(a.Common()) == "(time.Time).Add" && w.finite(a.Call.Args[1], map[ssa.Value]bool{}) == "" {
			if now, ok := a.Call.Args[0].(*ssa.Call); ok && calleeName(now.Common()) == "time.Now" {
				out[c] = true
				return
			}
		}
		walk(c.Call.Args[0])
		return
	}
	t := c.Call.StaticCallee()
	if t == nil || !w.p.IsRepo(t) || len(t.Blocks) == 0 {
		out[c] = true
		return
	}
	for _, b := range t.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
			walk(r.Results[idx])
		}
	}
}

// unbounded says why a context may never end, "" if it does.
func (w *waits) unbounded(v ssa.Value, protoOK bool) string {
	for r := range w.roots(v) {
		switch i := r.(type) {
		case *ssa.Call:
			switch n := calleeName(i.Common()); n {
			case "context.Background", "context.TODO":
				if fnPkgPath(i.Parent()) == modPath+"/boot" {
					continue // the context an interrupt cancels (C43)
				}
				return n + " at " + w.p.Pos(i.Pos()) + " without a finite timeout"
			case "context.WithTimeout", "context.WithDeadline", "context.WithTimeoutCause", "context.WithDeadlineCause", "(*net/http.Request).Context", "os/signal.NotifyContext":
				continue
			default:
				return "the result of " + n + " at " + w.p.Pos(i.Pos())
			}
		case *ssa.Parameter:
			if fnPkgPath(i.Parent()) == modPath+"/proto" && !protoOK {
				return "the context given to " + shortFn(i.Parent()) + ", which has no timeout of its own here"
			}
		default:
			return "a context that could not be traced (" + r.String() + ")"
		}
	}
	return ""
}

func (w *waits) context(rule string, fn *ssa.Function, in ssa.CallInstruction, v ssa.Value, name string) {
	if why := w.unbounded(v, false); why != "" {
		w.c.Fail(rule, shortFn(fn)+":"+dropName(name), in.Pos(), "the context of "+name+" may never end: "+why)
	}
}

// request: the request given to Do was made with a context that ends.
func (w *waits) request(rule, plain string, fn *ssa.Function, in ssa.CallInstruction) {
	seen := map[ssa.Value]bool{}
	found := false
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.Phi:
			for _, e := range i.Edges {
				walk(e)
			}
		case *ssa.UnOp:
			walk(i.X)
		case *ssa.Alloc:
			for _, r := range *i.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(i) {
					walk(s.Val)
				}
			}
		case *ssa.Extract:
			walk(i.Tuple)
		case *ssa.Parameter:
			idx := -1
			for k, q := range i.Parent().Params {
				if q == i {
					idx = k
				}
			}
			for _, ca := range w.p.callersOf(i.Parent()) {
				if idx < len(ca.Common().Args) {
					walk(ca.Common().Args[idx])
				}
			}
		case *ssa.Call:
			switch n := calleeName(i.Common()); n {
			case "net/http.NewRequestWithContext":
				found = true
				w.context(rule, fn, in, i.Call.Args[0], "an HTTP request")
			case "(*net/http.Request).WithContext", "(*net/http.Request).Clone":
				found = true
				w.context(rule, fn, in, i.Call.Args[1], "an HTTP request")
			case "net/http.NewRequest":
				found = true
				w.c.Fail(plain, shortFn(fn)+":request", i.Pos(), "an HTTP request without a context")
			default:
				if t := i.Call.StaticCallee(); t != nil && w.p.IsRepo(t) {
					for _, b := range t.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							for _, res := range r.Results {
								if isNamed(deref(res.Type()), "net/http", "Request") {
									walk(res)
								}
							}
						}
					}
				}
			}
		}
	}
	walk(in.Common().Args[1])
	if !found {
		w.c.Fail(rule, shortFn(fn)+":request", in.Pos(), "cannot tell where this HTTP request was made")
	}
}

// finite says why a duration is not a short constant, "" if it is.
func (w *waits) finite(v ssa.Value, seen map[ssa.Value]bool) string {
	if v == nil || seen[v] {
		return ""
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.Const:
		if i.Value == nil || i.Value.Kind() != constant.Int {
			return "not a number"
		}
		n, ok := constant.Int64Val(i.Value)
		if !ok || n > int64(longestWait) {
			return time.Duration(n).String() + " is longer than " + longestWait.String()
		}
		return ""
	case *ssa.Convert:
		return w.finite(i.X, seen)
	case *ssa.ChangeType:
		return w.finite(i.X, seen)
	case *ssa.Phi:
		for _, e := range i.Edges {
			if why := w.finite(e, seen); why != "" {
				return why
			}
		}
		return ""
	case *ssa.BinOp:
		switch i.Op {
		case token.QUO, token.REM, token.SUB, token.SHR:
			return w.finite(i.X, seen)
		}
		return "computed"
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return "computed"
		}
		if g, ok := i.X.(*ssa.Global); ok {
			return w.cell(g, seen)
		}
		if f := fieldOf(i.X); f != nil {
			return w.fieldConst(f, seen)
		}
		if al, ok := i.X.(*ssa.Alloc); ok {
			return w.cell(al, seen)
		}
		return "unknown"
	case *ssa.Field:
		return w.fieldConst(fieldOf(i), seen)
	case *ssa.Parameter:
		idx := -1
		for k, q := range i.Parent().Params {
			if q == i {
				idx = k
			}
		}
		cs := w.p.callersOf(i.Parent())
		if len(cs) == 0 {
			return "given by unknown callers"
		}
		for _, ca := range cs {
			if idx < len(ca.Common().Args) {
				if why := w.finite(ca.Common().Args[idx], seen); why != "" {
					return why
				}
			}
		}
		return ""
	case *ssa.Call:
		if t := i.Call.StaticCallee(); t != nil && w.p.IsRepo(t) && len(t.Blocks) > 0 {
			for _, b := range t.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					if why := w.finite(r.Results[0], seen); why != "" {
						return why
					}
				}
			}
			return ""
		}
		return "the result of " + calleeName(i.Common())
	}
	return "not a constant"
}

func (w *waits) cell(a ssa.Value, seen map[ssa.Value]bool) string {
	n := 0
	for _, fn := range w.allFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == a {
					n++
					if why := w.finite(s.Val, seen); why != "" {
						return why
					}
				}
			}
		}
	}
	if n == 0 {
		return "never set"
	}
	return ""
}

// allFuncs: the functions of the repository and the initialisers of its packages.
func (w *waits) allFuncs() []*ssa.Function {
	out := append([]*ssa.Function(nil), w.p.Funcs...)
	seen := map[*ssa.Function]bool{}
	for _, f := range out {
		seen[f] = true
	}
	for _, f := range w.p.Funcs {
		if f.Pkg != nil {
			if in := f.Pkg.Func("init"); in != nil && !seen[in] {
				seen[in] = true
				out = append(out, in)
			}
		}
	}
	return out
}

func (w *waits) fieldConst(f *types.Var, seen map[ssa.Value]bool) string {
	if f == nil || len(w.ci.stores[f]) == 0 {
		return "a field that is never set"
	}
	for _, s := range w.ci.stores[f] {
		if why := w.finite(s, seen); why != "" {
			return f.Name() + ": " + why
		}
	}
	return ""
}

// tries: a request without end needs a context that ends.
func (w *waits) tries(rule string, fn *ssa.Function, in ssa.CallInstruction) {
	if fnPkgPath(fn) == modPath+"/proto" {
		return // passes on what it was given
	}
	com := in.Common()
	what := shortFn(fn) + ":" + dropName(calleeName(com))
	var ctx, r ssa.Value
	for _, a := range com.Args {
		if isNamed(a.Type(), "context", "Context") {
			ctx = a
		}
		if isNamed(a.Type(), modPath+"/proto", "R") {
			r = a
		}
	}
	if ctx == nil || r == nil {
		w.c.Fail(rule, what, in.Pos(), "a request without a context")
		return
	}
	if w.unbounded(ctx, true) == "" {
		return // the retries end with the context (proto's loop)
	}
	// the literal
	ld, ok := r.(*ssa.UnOp)
	if !ok {
		w.c.Fail(rule, what, in.Pos(), "the number of tries of a request with a context that may never end is not a constant")
		return
	}
	refs := ld.X.Referrers()
	n := 0
	if refs != nil {
		for _, q := range *refs {
			fa, ok := q.(*ssa.FieldAddr)
			if !ok || fieldOf(fa) == nil || fieldOf(fa).Name() != "Tries" {
				continue
			}
			for _, s := range *fa.Referrers() {
				if st, ok := s.(*ssa.Store); ok {
					k, isC := st.Val.(*ssa.Const)
					if isC && k.Value != nil && constant.Sign(k.Value) >= 0 {
						n++
						continue
					}
					w.c.Fail(rule, what, in.Pos(), "a request is tried without end with a context that may never end: "+w.unbounded(ctx, true))
					return
				}
			}
		}
	}
	if n == 0 {
		w.c.Fail(rule, what, in.Pos(), "cannot tell how often a request with a context that may never end is tried: "+w.unbounded(ctx, true))
	}
}

// ends says why a receive from the channel may wait for ever, "" if a context or timer ends it.
func (w *waits) ends(ch ssa.Value) string {
	if ca, ok := ch.(*ssa.Call); ok && calleeName(ca.Common()) == "invoke context.Context.Done" {
		return w.unbounded(ca.Call.Value, false)
	}
	key := w.ci.origins(ch, true)
	if key["timer"] && len(key) == 1 {
		// a timer of configured length does not end with the run
		if ca, ok := ch.(*ssa.Call); ok && calleeName(ca.Common()) == "time.After" {
			return w.finite(ca.Call.Args[0], map[ssa.Value]bool{})
		}
		return "a timer"
	}
	return "a channel"
}

// ---------------------------------------------------------------------------
// loops

// loops checks the loops of a function that wait for a peer or ask a context.
func (w *waits) loops(rule string, fn *ssa.Function) int {
	n := 0
	sleepsHere := false
	switch strings.TrimPrefix(fnPkgPath(fn), modPath+"/") {
	case "client", "stage", "limit":
		sleepsHere = true
	}
	heads := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if body := loopBody(b); body != nil {
			heads[b] = body
			order = append(order, b)
		}
	}
	if len(order) == 0 {
		return 0
	}
	// inner loops first
	for i := range order {
		for j := i + 1; j < len(order); j++ {
			if len(heads[order[j]]) < len(heads[order[i]]) {
				order[i], order[j] = order[j], order[i]
			}
		}
	}
	for _, h := range order {
		body := heads[h]
		waitsHere := false
		hits := map[ssa.Instruction]bool{}
		for _, b := range fn.Blocks {
			if !body[b] {
				continue
			}
			for _, in := range b.Instrs {
				if ci, ok := in.(*ssa.Call); ok && calleeName(ci.Common()) == "time.Sleep" && sleepsHere {
					waitsHere = true
				}
				if sleepsHere && counts(in, h, body) {
					hits[in] = true
					continue
				}
				if k, _ := w.op(in); k == "" {
					continue
				} else if k != "next" {
					waitsHere = true
				}
				hits[in] = true
			}
		}
		if !waitsHere {
			continue
		}
		bounded := boundedLoop(h)
		// drop operations whose failure does not leave the loop
		paced := map[*ssa.BasicBlock]bool{} // inner loops each round of which has one of them
		for again := true; again; {
			again = false
			for _, in := range order {
				if in != h && body[in] {
					paced[in] = !w.reaches(in, 0, nil, in, heads[in], hits, nil, heads)
				}
			}
			for in := range hits {
				if _, step := in.(*ssa.BinOp); !step && w.back(in, h, body, hits, paced, heads) {
					delete(hits, in)
					again = true
				}
			}
		}
		good := !w.reaches(h, 0, nil, h, body, hits, paced, heads)
		if bounded {
			continue
		}
		n++
		w.c.Fn(fn)
		w.c.Obl(rule, w.p.Pos(firstPos(h))+" loop of "+shortFn(fn))
		if !good {
			w.c.Fail(rule, shortFn(fn)+":loop", firstPos(h), "a loop can go round without any operation that fails, and leaves the loop, when the context has ended: the wait goes on after the run has ended")
		}
	}
	return n
}

// counts: a step by a constant of a variable that a test of the loop compares, one outcome of
// which leaves the loop.
func counts(in ssa.Instruction, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	step, ok := in.(*ssa.BinOp)
	if !ok || step.Op != token.ADD && step.Op != token.SUB {
		return false
	}
	k, ok := step.Y.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int || constant.Sign(k.Value) == 0 {
		return false
	}
	phi, ok := step.X.(*ssa.Phi)
	if !ok || phi.Block() != h || phi.Referrers() == nil {
		return false
	}
	up := (step.Op == token.ADD) == (constant.Sign(k.Value) > 0)
	// only steps in this direction, by constants
	seen := map[ssa.Value]bool{}
	var only func(v ssa.Value) bool
	only = func(v ssa.Value) bool {
		if seen[v] || v == ssa.Value(phi) {
			return true
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.Phi:
			for _, e := range i.Edges {
				if !only(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			q, ok := i.Y.(*ssa.Const)
			if !ok || q.Value == nil || q.Value.Kind() != constant.Int || i.Op != token.ADD && i.Op != token.SUB {
				return false
			}
			if ((i.Op == token.ADD) == (constant.Sign(q.Value) > 0)) != up {
				return false
			}
			return only(i.X)
		}
		return false
	}
	for j, e := range phi.Edges {
		if body[h.Preds[j]] && !only(e) {
			return false
		}
	}
	for _, r := range *phi.Referrers() {
		cmp, ok := r.(*ssa.BinOp)
		if !ok || cmp.Referrers() == nil {
			continue
		}
		// the variable below (above) something when it goes up (down)
		var staysUp bool
		switch cmp.Op {
		case token.LSS, token.LEQ:
			staysUp = cmp.X == ssa.Value(phi)
		case token.GTR, token.GEQ:
			staysUp = cmp.Y == ssa.Value(phi)
		default:
			continue
		}
		for _, q := range *cmp.Referrers() {
			if iff, ok := q.(*ssa.If); ok && body[iff.Block()] {
				stay, leave := iff.Block().Succs[0], iff.Block().Succs[1]
				if staysUp != up {
					stay, leave = leave, stay
				}
				if !body[leave] && body[stay] && (iff.Block() == h || iff.Block().Dominates(in.Block())) {
					return true
				}
			}
		}
	}
	return false
}

// boundedLoop: over a list, map, string or channel, or a counter.
func boundedLoop(h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		switch i := in.(type) {
		case *ssa.Next:
			return true
		case *ssa.UnOp:
			if i.Op == token.ARROW && i.CommaOk {
				return true // ends when the channel is closed (C24)
			}
		}
	}
	_, _, _, why := indexLoopIf(h, func(from, to *ssa.BasicBlock) bool { return true })
	return why == ""
}

// op classifies an operation that notices that a context has ended: "call" returns an error,
// "asks" is ctx.Err, "select" has a case for it, "bool" is a call of a function that asks,
// "next" are rows of a query.
func (w *waits) op(in ssa.Instruction) (string, ssa.Value) {
	switch i := in.(type) {
	case *ssa.Select:
		for _, st := range i.States {
			if ca, ok := st.Chan.(*ssa.Call); ok && calleeName(ca.Common()) == "invoke context.Context.Done" && w.unbounded(ca.Call.Value, true) == "" {
				return "select", ca
			}
		}
	case *ssa.Call:
		n := calleeName(i.Common())
		switch n {
		case "invoke context.Context.Err":
			if w.unbounded(i.Call.Value, true) == "" {
				return "asks", i
			}
			return "", nil
		case "(*database/sql.Rows).Next":
			return "next", i
		}
		switch k, _ := blocking(i.Common()); k {
		case "ctx", "do", "tries":
			return "call", i
		}
		t := i.Call.StaticCallee()
		if t == nil || !w.p.IsRepo(t) || len(t.Blocks) == 0 {
			return "", nil
		}
		takes := false
		for k, a := range i.Call.Args {
			if isNamed(a.Type(), "context", "Context") && k < len(t.Params) && w.asks(t, t.Params[k], map[ssa.Value]bool{}) {
				takes = true
			}
		}
		if !takes {
			return "", nil
		}
		rs := t.Signature.Results()
		if rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type()) {
			return "call", i
		}
		if rs.Len() == 1 {
			if b, ok := rs.At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				return "bool", i
			}
		}
	}
	return "", nil
}

// asks: the function uses the context in an operation that notices its end.
func (w *waits) asks(fn *ssa.Function, ctx ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[ctx] || ctx.Referrers() == nil {
		return false
	}
	seen[ctx] = true
	for _, r := range *ctx.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Val == ctx && w.asks(fn, i.Addr, seen) {
				return true
			}
		case *ssa.UnOp:
			if w.asks(fn, i, seen) {
				return true
			}
		case *ssa.Phi:
			if w.asks(fn, i, seen) {
				return true
			}
		case *ssa.Call:
			n := calleeName(i.Common())
			if n == "invoke context.Context.Err" || n == "invoke context.Context.Done" {
				return true
			}
			if k, _ := blocking(i.Common()); k == "ctx" || k == "do" || k == "tries" {
				return true
			}
			if strings.HasPrefix(n, "context.With") || n == "net/http.NewRequestWithContext" {
				return true
			}
			if t := i.Call.StaticCallee(); t != nil && w.p.IsRepo(t) && len(t.Blocks) > 0 {
				for k, a := range i.Call.Args {
					if a == ctx && k < len(t.Params) && w.asks(t, t.Params[k], seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// back: when this operation fails because the context has ended, the loop can still go round
// without another such operation.
func (w *waits) back(in ssa.Instruction, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, hits map[ssa.Instruction]bool, paced map[*ssa.BasicBlock]bool, heads map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool) bool {
	b := in.Block()
	at := 0
	for k, q := range b.Instrs {
		if q == in {
			at = k + 1
		}
	}
	as := &failed{w: w, in: in}
	switch k, v := w.op(in); k {
	case "call":
		as.err = errResult(in.(*ssa.Call))
		if as.err == nil {
			return true // the error is dropped
		}
	case "asks":
		as.err = v
	case "bool", "next":
		// one of the outcomes leaves the loop
		as.boolv = v
		as.want = false
		if !w.reaches(b, at, as, h, body, hits, paced, heads) {
			return false
		}
		if k == "next" {
			return true
		}
		as.want = true
	case "select":
		as.sel = in.(*ssa.Select)
		for j, st := range as.sel.States {
			if st.Chan == v {
				as.selCase = j
			}
		}
	}
	return w.reaches(b, at, as, h, body, hits, paced, heads)
}

func errResult(call *ssa.Call) ssa.Value {
	if isErrorType(call.Type()) {
		if len(*call.Referrers()) == 0 {
			return nil
		}
		return call
	}
	for _, r := range *call.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && isErrorType(ex.Type()) && len(*ex.Referrers()) > 0 {
			return ex
		}
	}
	// (*sql.Row): its error comes with Scan
	if isNamed(deref(call.Type()), "database/sql", "Row") {
		for _, r := range *call.Referrers() {
			if sc, ok := r.(*ssa.Call); ok && len(*sc.Referrers()) > 0 {
				return sc
			}
		}
	}
	return nil
}

// failed is what is known after an operation noticed that the context has ended.
type failed struct {
	w       *waits
	in      ssa.Instruction
	err     ssa.Value // not nil
	boolv   ssa.Value
	want    bool
	sel     *ssa.Select
	selCase int
}

// branch: the successors possible with what is known.
func (f *failed) branch(iff *ssa.If) []*ssa.BasicBlock {
	succ := iff.Block().Succs
	cond, flip := iff.Cond, false
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, flip = u.X, !flip
	}
	pick := func(v bool) []*ssa.BasicBlock {
		if v != flip {
			return succ[:1]
		}
		return succ[1:2]
	}
	if f.boolv != nil && cond == f.boolv {
		return pick(f.want)
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return succ
	}
	x, y := bo.X, bo.Y
	if f.err != nil {
		if isNilConst(x) {
			x, y = y, x
		}
		if isNilConst(y) && f.isErr(x, map[ssa.Value]bool{}) {
			return pick(bo.Op == token.NEQ)
		}
	}
	if f.sel != nil {
		if ex, ok := x.(*ssa.Extract); ok && ex.Index == 0 && ex.Tuple == ssa.Value(f.sel) {
			if k, ok := y.(*ssa.Const); ok && k.Value != nil {
				n, _ := constant.Int64Val(k.Value)
				return pick((n == int64(f.selCase)) == (bo.Op == token.EQL))
			}
		}
	}
	return succ
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

// isErr: the value is the error, or the cell it was stored to, or one of the values a phi joins.
func (f *failed) isErr(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if v == f.err {
		return true
	}
	switch i := v.(type) {
	case *ssa.Phi:
		for _, e := range i.Edges {
			if f.isErr(e, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		if i.Op == token.MUL && f.err.Referrers() != nil {
			for _, r := range *f.err.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Val == f.err && s.Addr == i.X {
					return true
				}
			}
		}
	}
	return false
}

// reaches: the header is reached again from here without passing an operation of hits.
func (w *waits) reaches(b *ssa.BasicBlock, at int, as *failed, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, hits map[ssa.Instruction]bool, paced map[*ssa.BasicBlock]bool, heads map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, at int, first bool) bool
	walk = func(b *ssa.BasicBlock, at int, first bool) bool {
		if !first {
			if b == h {
				return true
			}
			if !body[b] || seen[b] {
				return false
			}
			seen[b] = true
		}
		for _, in := range b.Instrs[at:] {
			if hits[in] {
				return false
			}
		}
		succ := b.Succs
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && as != nil {
			succ = as.branch(iff)
		}
		for _, s := range succ {
			if b != h && paced[b] && !heads[b][s] {
				continue // an inner loop that asks on each round: not without a round
			}
			if walk(s, 0, false) {
				return true
			}
		}
		return false
	}
	return walk(b, at, true)
}
