package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C18"] = ruleC18
	rules["C19"] = ruleC19
}

// compute is what the server side of package compute is made of, found by type and use.
type computeRoles struct {
	api, meta, inst                *types.Named
	apiStage, instStage, instState *types.Var
	instName                       *types.Var
	cfg, clients, nRemotes, done   *types.Var
	boot, doneCh, run              *types.Var // channels: boot acks, done acks, run signal
	ackErr                         *types.Var
	handlers                       map[string]*ssa.Function // by path
	stageFn                        *ssa.Function            // sets and stops the current stage
	serverRun                      *ssa.Function
}

// httpHandlers are the functions registered for URL paths in a package.
func (p *Prog) httpHandlers(rel string) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, fn := range p.FuncsOf(rel) {
		for _, c := range callsOf(fn) {
			n := calleeName(c.Common())
			if n != "(*net/http.ServeMux).HandleFunc" && n != "net/http.HandleFunc" && n != "(*net/http.ServeMux).Handle" && n != "net/http.Handle" {
				continue
			}
			a := c.Common().Args
			k, ok := a[len(a)-2].(*ssa.Const)
			if !ok || k.Value == nil {
				continue
			}
			path := strings.Trim(k.Value.ExactString(), `"`)
			if i := strings.IndexByte(path, '/'); i > 0 {
				path = path[i:] // "GET /path"
			}
			v := a[len(a)-1]
			for {
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				} else if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				} else {
					break
				}
			}
			var f *ssa.Function
			switch t := v.(type) {
			case *ssa.MakeClosure:
				f = t.Fn.(*ssa.Function)
			case *ssa.Function:
				f = t
			}
			if f == nil {
				continue
			}
			if b := boundTarget(f); len(b) == 1 && f.Synthetic != "" {
				f = b[0]
			}
			out[path] = f
		}
	}
	return out
}

func ptrTo(t types.Type, n *types.Named) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	m, ok := p.Elem().(*types.Named)
	return ok && m.Obj() == n.Obj()
}

func structOf(n *types.Named) *types.Struct {
	s, _ := n.Underlying().(*types.Struct)
	return s
}

func (c *Ctx) computeRoles(rule string) *computeRoles {
	p := c.P
	r := &computeRoles{api: p.Type("compute", "API"), stageFn: p.Func("compute", "API", "Stage")}
	if r.api == nil || r.stageFn == nil || len(r.stageFn.Params) != 2 {
		c.Missing(rule, "compute.API.Stage")
		return nil
	}
	r.meta = namedOf(deref(r.stageFn.Params[1].Type()))
	r.handlers = p.httpHandlers("compute")
	for _, h := range []string{"/boot", "/file", "/run", "/stats", "/ping"} {
		if r.handlers[h] == nil {
			c.Missing(rule, "handler of "+h)
			return nil
		}
	}
	if r.meta == nil || structOf(r.meta) == nil {
		c.Missing(rule, "stage type of compute.API.Stage")
		return nil
	}
	ms := structOf(r.meta)
	var bools []*types.Var
	for i := 0; i < ms.NumFields(); i++ {
		f := ms.Field(i)
		switch t := f.Type().Underlying().(type) {
		case *types.Map:
			if n := namedOf(deref(t.Elem())); n != nil && structOf(n) != nil {
				r.clients, r.inst = f, n
			}
		case *types.Struct:
			if isNamed(f.Type(), modPath+"/config", "Stage") {
				r.cfg = f
			}
		case *types.Basic:
			if t.Kind() == types.Bool {
				bools = append(bools, f)
			} else if t.Info()&types.IsInteger != 0 {
				r.nRemotes = f
			}
		}
	}
	as := structOf(r.api)
	for i := 0; i < as.NumFields(); i++ {
		if ptrTo(as.Field(i).Type(), r.meta) {
			r.apiStage = as.Field(i)
		}
	}
	if r.inst == nil || r.cfg == nil || r.nRemotes == nil || r.apiStage == nil {
		c.Missing(rule, "fields of the stage and API types")
		return nil
	}
	is := structOf(r.inst)
	for i := 0; i < is.NumFields(); i++ {
		f := is.Field(i)
		if ptrTo(f.Type(), r.meta) {
			r.instStage = f
		} else if b, ok := f.Type().Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 {
				r.instState = f
			} else if b.Kind() == types.String {
				r.instName = f
			}
		}
	}
	// the stop flag is the one API.Stage sets
	for fn := range p.Reach(r.stageFn) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if f := fieldOf(st.Addr); f != nil {
						for _, x := range bools {
							if x == f {
								r.done = f
							}
						}
					}
				}
			}
		}
	}
	// channels by which handler sends on them
	sent := func(h string) *types.Var {
		var got *types.Var
		for fn := range p.Reach(r.handlers[h]) {
			if fnPkgPath(fn) != modPath+"/compute" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var ch []ssa.Value
					switch i := in.(type) {
					case *ssa.Send:
						ch = append(ch, i.Chan)
					case *ssa.Select:
						for _, st := range i.States {
							if st.Dir == types.SendOnly {
								ch = append(ch, st.Chan)
							}
						}
					}
					for _, v := range ch {
						if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
							if f := fieldOf(u.X); f != nil {
								got = f
							}
						}
					}
				}
			}
		}
		return got
	}
	r.boot, r.doneCh = sent("/boot"), sent("/run")
	for i := 0; i < ms.NumFields(); i++ {
		f := ms.Field(i)
		if ct, ok := f.Type().Underlying().(*types.Chan); ok && f != r.boot && f != r.doneCh {
			_ = ct
			r.run = f
		}
	}
	r.serverRun = p.Func("compute", "Server", "Run")
	if r.instStage == nil || r.instState == nil || r.instName == nil || r.done == nil || r.boot == nil || r.doneCh == nil || r.boot == r.doneCh || r.run == nil || r.serverRun == nil {
		c.Missing(rule, "fields of the instance and stage types")
		return nil
	}
	if st, ok := r.boot.Type().Underlying().(*types.Chan).Elem().Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if isErrorType(st.Field(i).Type()) {
				r.ackErr = st.Field(i)
			}
		}
	}
	if r.ackErr == nil {
		c.Missing(rule, "error of an acknowledgement")
		return nil
	}
	return r
}

func mutexOp(n string) (lock, unlock bool) {
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return true, false
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return false, true
	}
	return false, false
}

// lockBase is the object whose mutex is locked.
func lockBase(v *Val) *Val {
	if v.Op == "load" {
		v = v.Args[0]
	}
	if v.Op == "field" {
		return v.Args[0]
	}
	return nil
}

func stripConv(v *Val) *Val {
	for v != nil && v.Op == "conv" {
		v = v.Args[0]
	}
	return v
}

// one request of one handler
const (
	hMethod   = iota // 1 GET, 2 POST, 3 other
	hMeta            // stage lock held
	hAPI             // API lock held
	hState           // last checked state of the instance +1
	hAssigned        // instance is known to be assigned to the current stage
	hID              // stage id matches, or the stage is stopped
	hTo              // new state +1
	hFrom            // checked state +1 of a change in the critical section
	hDel             // instance removed from the stage
	hBoot            // boot acknowledgements sent
	hDone            // done acknowledgements sent
	hStatus          // status written
	hBody            // body: 1 empty, 2 not empty
	hFailed          // the peer is known to be gone
	hStopped         // stage known stopped, in this critical section
	hFresh           // new instance made here
	hLive            // request known to be alive since the last wait
	hAckErr          // acknowledgement sent carries: 1 no error, 2 error
	hIns             // inserted into the stage
	hMoved           // state found changed since it was checked
	hN               // state changes made
	hRun             // run signal received
)

// handlerRun explores one handler; the callbacks judge.
type handlerRun struct {
	c      *Ctx
	r      *computeRoles
	path   string
	x      *Exec
	insert func(h *handlerRun, s *State, e *Event, stage, inst *Val)
	effect func(h *handlerRun, s *State, e *Event, what string)
	ret    func(h *handlerRun, s *State, e *Event)
	change func(h *handlerRun, s *State, e *Event)
	ack    func(h *handlerRun, s *State, e *Event, f *types.Var)
	recv   func(h *handlerRun, s *State, e *Event)
	read   func(h *handlerRun, s *State, e *Event)
}

// known is the constant a value is known to equal.
func known(s *State, v *Val) (int64, bool) {
	if n, ok := v.constInt(); ok {
		return n, true
	}
	for f, t := range s.facts {
		if t && f.Op == "eq" && f.Args[0] == v {
			if n, ok := f.Args[1].constInt(); ok {
				return n, true
			}
		}
	}
	return 0, false
}

var fileReads = map[string]int{
	"os.ReadFile": 0, "io/ioutil.ReadFile": 0, "os.Open": 0, "os.OpenFile": 0, "net/http.ServeFile": 2, "os.DirFS": 0,
	"net/http.FileServer": 0, "io/ioutil.ReadDir": 0, "os.ReadDir": 0, "io/fs.ReadFile": 1, "net/http.ServeContent": 2, "os.NewFile": 1,
	"os.Readlink": 0, "path/filepath.Glob": 0, "path/filepath.Walk": 0, "path/filepath.WalkDir": 0, "os.OpenRoot": 0, "net/http.ServeFileFS": 3, "net/http.FileServerFS": 0,
}

// respWrite: a call that writes payload to the response writer.
func respWrite(e *Event, w *Val) bool {
	if e.Kind != EvCall {
		return false
	}
	switch e.Callee {
	case "invoke net/http.ResponseWriter.Write", "invoke io.Writer.Write":
		return len(e.Args) > 0 && unboxed(e.Args[0]) == w
	case "(*encoding/json.Encoder).Encode", "io.Copy", "io.WriteString", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "net/http.ServeFile":
		return true
	}
	return false
}

func (h *handlerRun) run() {
	c, r := h.c, h.r
	fn := r.handlers[h.path]
	c.Fn(fn)
	x := NewExec(c.P, fn)
	x.Inline = samePkg("compute")
	h.x = x
	np := len(fn.Params)
	if np < 2 {
		c.Missing("handler", "parameters of the handler of "+h.path)
		return
	}
	var w, req *Val
	guardedBy := func(a *Val) bool { // what other requests may change while no lock is held
		return a.Op == "field" && (a.Fld == r.instState || a.Fld == r.done || a.Fld == r.clients ||
			fieldOwner(r.meta, a.Fld) && a.Fld != r.cfg)
	}
	x.Model = func(x *Exec, s *State, e *Event) []*Val {
		if e.Callee == "(net/url.Values).Get" || e.Callee == "(*net/http.Request).FormValue" {
			return []*Val{x.T.mk(Val{Op: "pure", Name: e.Callee, Args: e.Args, T: types.Typ[types.String]})}
		}
		return nil
	}
	isEffectCall := func(e *Event) string {
		switch {
		case e.Callee == "builtin close":
			if f, _ := e.Args[0].loadedField(); f != nil && fieldOwner(r.meta, f) {
				return "a channel of the stage closed"
			}
		case strings.HasPrefix(e.Callee, "(*"+modPath+"/stats.Collector)"):
			return "statistics received"
		}
		if _, ok := fileReads[e.Callee]; ok {
			return "a file read"
		}
		return ""
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		if w == nil {
			w, req = x.ArgVal(np-2), x.ArgVal(np-1)
		}
		switch e.Kind {
		case EvCall:
			lock, unlock := mutexOp(e.Callee)
			if lock || unlock {
				b := lockBase(e.Args[0])
				if b == nil {
					return
				}
				i := hMeta
				if b.T != nil && ptrTo(b.T, r.api) {
					i = hAPI
				}
				if lock {
					s.A[i] = 1
					x.killLoads(s, guardedBy)
					x.killLookups(s, func(m *Val) bool {
						f, _ := m.loadedField()
						return f == r.clients
					})
					s.A[hStopped], s.A[hFrom] = 0, 0
					if i == hAPI {
						x.killLoads(s, func(a *Val) bool { return a.Op == "field" && a.Fld == r.apiStage })
					}
				} else {
					s.A[i] = 0
				}
				return
			}
			switch {
			case e.Callee == "time.Sleep":
				s.A[hLive] = 0
			case e.Callee == "invoke net/http.ResponseWriter.WriteHeader" && len(e.Args) == 2:
				if n, ok := e.Args[1].constInt(); ok {
					s.A[hStatus] = int16(n)
				} else {
					s.A[hStatus] = -1
				}
				return
			case e.Callee == "net/http.Error" && len(e.Args) == 3:
				if n, ok := e.Args[2].constInt(); ok {
					s.A[hStatus] = int16(n)
				} else {
					s.A[hStatus] = -1
				}
				return
			case e.Callee == "builtin delete":
				if f, _ := e.Args[0].loadedField(); f == r.clients {
					if h.effect != nil {
						h.effect(h, s, e, "an instance removed")
					}
					s.A[hDel] = 1
					if s.A[hMeta] == 0 {
						s.A[hDel] = 2
					}
				}
				return
			}
			if what := isEffectCall(e); what != "" {
				if h.effect != nil {
					h.effect(h, s, e, what)
				}
				if _, ok := fileReads[e.Callee]; ok && h.read != nil {
					h.read(h, s, e)
				}
				if strings.HasPrefix(what, "statistics") && h.recv != nil {
					h.recv(h, s, e)
				}
			} else if respWrite(e, w) && h.effect != nil {
				h.effect(h, s, e, "a response body sent")
			}
		case EvBranch:
			h.branch(s, e, req)
		case EvStore:
			if e.Addr.Op != "field" {
				return
			}
			f, base := e.Addr.Fld, e.Addr.Args[0]
			if f == r.instState {
				to, ok := e.Val.constInt()
				if base.Op == "alloc" && s.A[hIns] == 0 && literalStore(e.Instr) {
					// a new instance, not visible to others yet
					s.A[hState], s.A[hFresh] = int16(to)+1, 1
					s.RV[1] = base
					return
				}
				if h.effect != nil {
					h.effect(h, s, e, "the instance state changed")
				}
				cur := x.Load(s, e.Addr, f.Type())
				s.A[hFrom], s.A[hTo] = 0, -1
				if n, ok := known(s, cur); ok && s.A[hMeta] == 1 {
					s.A[hFrom] = int16(n) + 1
				}
				if ok {
					s.A[hTo] = int16(to) + 1
				}
				if h.change != nil {
					h.change(h, s, e)
				}
				s.A[hN]++
				s.A[hState] = s.A[hTo]
				return
			}
			if (fieldOwner(r.meta, f) || fieldOwner(r.inst, f) || fieldOwner(r.api, f)) && base.Op != "alloc" && f != r.instStage {
				if h.effect != nil {
					h.effect(h, s, e, "shared state "+f.Name()+" written")
				}
			}
		case EvMapUpdate:
			if f, st := e.Addr.loadedField(); f == r.clients {
				if h.effect != nil {
					h.effect(h, s, e, "an instance assigned")
				}
				if h.insert != nil {
					h.insert(h, s, e, st, e.Val)
				}
				s.A[hIns] = 1
			}
		case EvSend, EvSelect:
			ch := e.Chan
			if e.Kind == EvSelect && (e.Case < 0 || e.Sel.States[e.Case].Dir != types.SendOnly) {
				if e.Case >= 0 && ch != nil && ch.Op == "pure" && strings.Contains(ch.Name, "Context.Done") {
					s.A[hFailed] = 1
				}
				if e.Case >= 0 {
					h.signal(s, ch)
				}
				return
			}
			if f, _ := ch.loadedField(); f != nil && fieldOwner(r.meta, f) {
				if h.effect != nil {
					h.effect(h, s, e, "an acknowledgement delivered")
				}
				if h.ack != nil {
					h.ack(h, s, e, f)
				}
				if f == r.boot {
					s.A[hBoot]++
				} else {
					s.A[hDone]++
				}
			}
		case EvRecv:
			h.signal(s, e.Chan)
		case EvReturn:
			if e.Fn == fn && h.ret != nil {
				h.ret(h, s, e)
			}
		}
	}
	x.Run(nil, nil)
}

func (h *handlerRun) signal(s *State, ch *Val) {
	if ch == nil {
		return
	}
	if f, _ := ch.loadedField(); f == h.r.run {
		s.A[hRun] = 1
	}
}

// literalStore: the store of a composite literal's field.
func literalStore(in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	_, ok = fa.X.(*ssa.Alloc)
	return ok
}

func fieldOwner(n *types.Named, f *types.Var) bool {
	st := structOf(n)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == f {
			return true
		}
	}
	return false
}

// hasStr: the term contains the string constant k.
func hasStr(v *Val, k string) bool {
	return v.find(func(t *Val) bool { q, ok := t.constStr(); return ok && q == k }) != nil
}

// branch records what a request's checks established.
func (h *handlerRun) branch(s *State, e *Event, req *Val) {
	r, x := h.r, h.x
	cond, taken := e.Cond, e.Taken
	for cond.Op == "not" {
		cond, taken = cond.Args[0], !taken
	}
	current := func(m *Val) bool { // the clients of the API's current stage
		f, st := m.loadedField()
		if f != r.clients {
			return false
		}
		g, _ := st.loadedField()
		return g == r.apiStage && s.A[hMeta] == 1 && s.A[hAPI] == 1
	}
	assigned := func(lk *Val) {
		if s.A[hFresh] == 0 && current(lk.Args[0]) && hasStr(lk.Args[1], "name") {
			s.A[hAssigned] = 1
		}
	}
	if f, _ := cond.loadedField(); f == r.done && taken {
		s.A[hStopped] = 1
		s.A[hID] = 1
		return
	}
	switch cond.Op {
	case "lookupok":
		if taken {
			assigned(cond)
		}
	case "eq":
		a, b := cond.Args[0], cond.Args[1]
		if f, base := a.loadedField(); f != nil {
			if f.Name() == "Method" && base == req {
				if m, ok := b.constStr(); ok && taken {
					switch m {
					case "GET":
						s.A[hMethod] = 1
					case "POST":
						s.A[hMethod] = 2
					default:
						s.A[hMethod] = 3
					}
				}
			}
			if f == r.instState && !taken && s.A[hMeta] == 1 && s.A[hState] > 0 && b == x.T.intv(int64(s.A[hState]-1)) {
				s.A[hMoved] = 1
			}
			if f == r.instState && taken {
				if n, ok := b.constInt(); ok {
					s.A[hState] = int16(n) + 1
				}
			}
		}
		if a.Op == "lookup" && b.isNil() && !taken {
			assigned(a)
		}
		for i := 0; i < 2; i++ {
			u, v := cond.Args[i], cond.Args[1-i]
			if taken && hasStr(v, "stage-id") && u.find(func(t *Val) bool {
				f, st := t.loadedField()
				if f == nil {
					return false
				}
				for q := st; q != nil; {
					if q.Op == "field" {
						if q.Fld == r.cfg {
							return true
						}
						q = q.Args[0]
						continue
					}
					break
				}
				return f == r.cfg
			}) != nil {
				s.A[hID] = 1
			}
		}
		if b.isNil() && isErrVal(a) {
			if x.ctxOf[a] != nil {
				if taken {
					s.A[hLive] = 1
				} else {
					s.A[hFailed] = 1
				}
			} else if !taken {
				// an error of reading the request or writing the response
				if a.Op == "sym" && (strings.Contains(a.Name, "ReadAll") || strings.Contains(a.Name, "Write") || strings.Contains(a.Name, "Encode") || strings.Contains(a.Name, "ReadFrom")) {
					s.A[hFailed] = 1
				}
			}
		}
		// the body, as text or bytes
		k, okc := b.constStr()
		if okc && k == "" && bodyText(a) || isLenOf(a) && b.isConst() && b.C != nil && b.C.ExactString() == "0" && bodyText(a.Args[0]) {
			s.A[hBody] = 2
			if taken {
				s.A[hBody] = 1
			}
		}
	case "lss":
		// 0 < len(body)
		if isLenOf(cond.Args[1]) && bodyText(cond.Args[1].Args[0]) {
			if n, ok := cond.Args[0].constInt(); ok && n == 0 {
				s.A[hBody] = 1
				if taken {
					s.A[hBody] = 2
				}
			}
		}
	}
}

func isLenOf(v *Val) bool { return v.Op == "len" && len(v.Args) == 1 }

func bodyText(v *Val) bool {
	for v.Op == "conv" {
		v = v.Args[0]
	}
	if v.Op == "pure" && strings.HasPrefix(v.Name, "strings.Trim") {
		return bodyText(v.Args[0])
	}
	return v.Op == "sym" && strings.Contains(v.Name, "ReadAll")
}

func (h *handlerRun) where() string { return "request " + h.path }

// ---------------------------------------------------------------------------
// C18

func ruleC18(c *Ctx) {
	const R, B = "handout", "give-back"
	c.Rule(R, "Every insertion into the instances of a stage happens in the handler of GET /boot, into the API's current stage, with the API's and the stage's lock held, where in that same critical section the stage is known to be neither stopped nor booted, fewer instances than remotes are assigned and this name is not assigned, and the request is known to be alive since the last wait; the stage configuration sent afterwards is that stage's.")
	c.Rule(B, "An instance handed a stage leaves it (removed from the stage, state reset) on every path where sending the configuration failed, and on every path of POST /boot that carries an error.")
	r := c.computeRoles(R)
	if r == nil {
		return
	}
	const L = "closed-before-run"
	c.Rule(L, "On every path of Server.Run on which the run signal of a stage is closed, one of the stage's flags that keep instances out was set true before.")
	c.closedBeforeRun(L, r)
	// nothing else inserts
	reach := c.P.Reach(r.handlers["/boot"])
	ms := structOf(r.meta)
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				if u, ok := mu.Map.(*ssa.UnOp); ok && fieldOf(u.X) == r.clients && !reach[fn] {
					c.Fail(R, shortFn(fn)+":insert", in.Pos(), "an instance is assigned to a stage outside the handler of GET /boot")
				}
			}
		}
	}
	var bools []*types.Var
	for i := 0; i < ms.NumFields(); i++ {
		if b, ok := ms.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			bools = append(bools, ms.Field(i))
		}
	}
	// flags set when booted or stopped: written true in the server loop or API.Stage
	h := &handlerRun{c: c, r: r, path: "/boot"}
	var pr, pb *pathRule
	n, sent, gave := 0, 0, 0
	h.insert = func(h *handlerRun, s *State, e *Event, st, inst *Val) {
		if pr == nil {
			pr, pb = c.pathRule(R, h.x), c.pathRule(B, h.x)
		}
		x := h.x
		n++
		pr.obl(e, "instance assigned")
		if s.A[hMethod] != 1 {
			pr.fail(s, e, "method", "an instance is assigned although the request may not be GET")
		}
		if s.A[hMeta] != 1 || s.A[hAPI] != 1 {
			pr.fail(s, e, "locked", "an instance is assigned without holding both the API's and the stage's lock")
		}
		if f, _ := st.loadedField(); f != r.apiStage {
			pr.fail(s, e, "current stage", "an instance is assigned to a stage other than the API's current one")
		}
		for _, f := range bools {
			v, ok := x.Ask(s, x.Load(s, x.T.fieldAddr(st, f), f.Type()))
			if !ok || v {
				pr.fail(s, e, "phase:"+f.Name(), "an instance is assigned although "+f.Name()+" may be set, not known to be false in this critical section")
			}
		}
		m := x.Load(s, x.T.fieldAddr(st, r.clients), r.clients.Type())
		nr := x.Load(s, x.T.fieldAddr(st, r.nRemotes), r.nRemotes.Type())
		room := false
		for f, t := range s.facts {
			if f.Op == "lss" && t && stripConv(f.Args[1]) == nr {
				if l := stripConv(f.Args[0]); l.Op == "len" && l.Args[0] == m {
					room = true
				}
			}
		}
		if !room {
			pr.fail(s, e, "room", "an instance is assigned although the stage may have all its remotes, not known in this critical section")
		}
		absent := false
		for f, t := range s.facts {
			if f.Op == "eq" && t && f.Args[1].isNil() && f.Args[0].Op == "lookup" && f.Args[0].Args[0] == m && sameName(x, s, r, f.Args[0].Args[1], inst, e.Args[1]) ||
				f.Op == "lookupok" && !t && f.Args[0] == m && sameName(x, s, r, f.Args[1], inst, e.Args[1]) {
				absent = true
			}
		}
		if !absent {
			pr.fail(s, e, "absent", "an instance is assigned although one of the same name may be already, not known in this critical section")
		}
		if s.A[hLive] != 1 {
			pr.fail(s, e, "alive", "an instance is assigned although its request may have ended while it waited")
		}
		s.A[hLive] = 2
		s.RV[2] = st
	}
	h.effect = func(h *handlerRun, s *State, e *Event, what string) {
		if what != "a response body sent" || s.A[hIns] == 0 || pr == nil {
			return
		}
		sent++
		pr.obl(e, "configuration sent")
		if e.Callee == "(*encoding/json.Encoder).Encode" {
			v := unboxed(e.Args[1])
			ok := v.find(func(t *Val) bool {
				f, b := t.loadedField()
				return f == r.cfg && b == s.RV[2] || t.Op == "field" && t.Fld == r.cfg && t.Args[0] == s.RV[2]
			}) != nil
			if !ok && s.RV[2] != nil && s.RV[2].Op == "sym" {
				ok = v.find(func(t *Val) bool { return t.Op == "field" && t.Fld == r.cfg }) != nil
			}
			if !ok {
				pr.fail(s, e, "configuration", "the configuration sent is not that of the stage the instance was assigned to")
			}
		}
	}
	h.ret = func(h *handlerRun, s *State, e *Event) {
		if pb == nil {
			pr, pb = c.pathRule(R, h.x), c.pathRule(B, h.x)
		}
		switch {
		case s.A[hMethod] == 1 && s.A[hIns] == 1:
			gave++
			pb.obl(e, "hand-out finished")
			if s.A[hFailed] == 1 && s.A[hDel] != 1 {
				// legal only if the instance is known not to be in the handed-out state any more
				if s.A[hDel] == 0 && !leftAlready(s) {
					pb.fail(s, e, "lost instance", "sending the configuration failed but the instance keeps its place in the stage")
				}
			}
			if s.A[hDel] == 2 {
				pb.fail(s, e, "unlocked", "an instance is removed from the stage without its lock")
			}
		case s.A[hMethod] == 2 && s.A[hBody] == 2 && s.A[hBoot] > 0:
			gave++
			pb.obl(e, "boot error")
			if s.A[hDel] != 1 {
				pb.fail(s, e, "failed instance", "an instance that failed to boot keeps its place in the stage")
			}
		case s.A[hMethod] == 2 && s.A[hBody] == 1 && s.A[hDel] != 0:
			pb.fail(s, e, "booted instance", "an instance that booted loses its place in the stage")
		}
	}
	h.run()
	if pr == nil {
		c.Missing(R, "assignment of instances to a stage")
		return
	}
	c.finish(R, h.x)
	c.Require(R, n, 1, "assignments")
	c.Require(R, sent, 1, "configurations sent")
	c.Require(B, gave, 2, "give-backs")
}

// leftAlready: the state was compared and found changed (the instance left meanwhile).
func leftAlready(s *State) bool { return s.A[hMoved] == 1 }

// sameName: two keys naming one instance.
func sameName(x *Exec, s *State, r *computeRoles, k, inst, key *Val) bool {
	if k == key {
		return true
	}
	nm := x.Load(s, x.T.fieldAddr(inst, r.instName), r.instName.Type())
	return k == nm || key == nm && k == nm
}

// ---------------------------------------------------------------------------
// C19

func ruleC19(c *Ctx) {
	const G, T, A, P = "gate", "transition", "acknowledgement", "response"
	c.Rule(G, "Before any effect of a request (instance or stage state written, acknowledgement delivered, statistics received, file read, body sent) the path established that the method is GET or POST, that the instance named in the URL is assigned to the API's current stage (looked up under both locks; only GET /boot may be new) and that the stage id in the URL is the current one unless the stage was stopped; and the instance state is the one the request needs.")
	c.Rule(T, "Instance states change only in the request handlers and only: GET /boot ready->booting (and back when sending failed), POST /boot booting->runnable without error or booting->ready with removal on error, GET /run runnable->running after the run signal (and back when the reply failed), POST /run running->ready with removal; the old state is compared in the same critical section that writes the new one.")
	c.Rule(A, "POST /boot and POST /run deliver exactly one acknowledgement, on their own channel, exactly when they changed the state; a boot acknowledgement carries an error exactly when the body was not empty.")
	c.Rule(P, "A request that had no effect is answered with an error status (or the peer is known to be gone), one that had is not; reset (205) is answered only when the stage is known to be stopped.")
	r := c.computeRoles(G)
	if r == nil {
		return
	}
	// states change nowhere else
	var hs []*ssa.Function
	for _, f := range r.handlers {
		hs = append(hs, f)
	}
	reach := c.P.Reach(hs...)
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && fieldOf(st.Addr) == r.instState && !reach[fn] && !literalStore(in) {
					c.Fail(T, shortFn(fn)+":state", in.Pos(), "the instance state changes outside the request handlers")
				}
			}
		}
	}
	// states by what the handlers do
	S := [4]int16{-1, -1, -1, -1}
	set := func(i int, v int16, e *Event) {
		if S[i] < 0 {
			S[i] = v
		} else if S[i] != v {
			c.Fail(T, fmt.Sprintf("%s:state%d", shortFn(e.Fn), i), e.Pos(), "two different states where the protocol has one")
		}
	}
	hb := &handlerRun{c: c, r: r, path: "/boot"}
	type ch struct {
		from, to int16
		e        *Event
	}
	var bootPost []ch
	hb.change = func(h *handlerRun, s *State, e *Event) {
		if s.A[hMethod] == 1 && s.A[hN] == 0 {
			if s.A[hState] > 0 {
				set(0, s.A[hState], e)
			}
			set(1, s.A[hTo], e)
		}
		if s.A[hMethod] == 2 {
			bootPost = append(bootPost, ch{s.A[hFrom], s.A[hTo], e})
		}
	}
	hb.run()
	for _, t := range bootPost {
		if t.to != S[0] {
			set(2, t.to, t.e)
		}
	}
	hr := &handlerRun{c: c, r: r, path: "/run"}
	hr.change = func(h *handlerRun, s *State, e *Event) {
		if s.A[hMethod] == 1 && s.A[hN] == 0 {
			set(3, s.A[hTo], e)
		}
	}
	hr.run()
	for i := 0; i < 4; i++ {
		for j := 0; j < i; j++ {
			if S[i] <= 0 || S[i] == S[j] {
				c.Fail(T, "states", token.NoPos, fmt.Sprintf("the four instance states cannot be told apart (state %d)", i))
				return
			}
		}
	}
	names := []string{"ready", "booting", "runnable", "running"}
	name := func(v int16) string {
		for i := range S {
			if S[i] == v {
				return names[i]
			}
		}
		return "unknown"
	}
	nEff, nChange, nAck, nRet := 0, 0, 0, 0
	for _, path := range []string{"/boot", "/file", "/run", "/stats", "/ping"} {
		h := &handlerRun{c: c, r: r, path: path}
		var g, t, a, p *pathRule
		rules := func() {
			if g == nil {
				g, t, a, p = c.pathRule(G, h.x), c.pathRule(T, h.x), c.pathRule(A, h.x), c.pathRule(P, h.x)
			}
		}
		h.effect = func(h *handlerRun, s *State, e *Event, what string) {
			rules()
			nEff++
			g.obl(e, what)
			m := s.A[hMethod]
			if m != 1 && m != 2 {
				g.fail(s, e, "method", what+" although the method may be neither GET nor POST")
			}
			if path == "/boot" && m == 1 {
				if s.A[hAssigned] == 1 && s.A[hID] != 1 {
					g.fail(s, e, "stage id", what+" although the stage id may not match")
				}
			} else {
				if s.A[hAssigned] != 1 {
					g.fail(s, e, "assigned", what+" although the instance may not be assigned to the current stage")
				}
				if s.A[hID] != 1 {
					g.fail(s, e, "stage id", what+" although the stage id may not match")
				}
			}
			if strings.HasPrefix(what, "the instance state") {
				return // judged as a transition
			}
			need := int16(0)
			switch {
			case path == "/file":
				need = S[1]
			case path == "/stats":
				need = S[3]
			case path == "/run" && s.A[hN] == 0 && m == 1:
				need = S[2]
				if strings.HasPrefix(what, "an instance removed") {
					if s.A[hStopped] != 1 || s.A[hMeta] != 1 {
						t.fail(s, e, "removed", "an instance leaves a stage that is not known to be stopped")
					}
				} else {
					t.fail(s, e, "early", what+" before the instance state is changed")
				}
			case path == "/boot" && m == 1 && s.A[hN] == 0:
				if s.A[hFresh] == 1 && s.A[hAssigned] == 0 {
					return
				}
				need = S[0]
			case s.A[hN] == 0:
				g.fail(s, e, "order", what+" before the instance state is compared and changed")
				return
			default:
				return
			}
			if s.A[hState] != need {
				g.fail(s, e, "order", what+" although the instance may not be in state "+name(need))
			}
		}
		h.change = func(h *handlerRun, s *State, e *Event) {
			rules()
			nChange++
			t.obl(e, "state change")
			m, from, to, n := s.A[hMethod], s.A[hFrom], s.A[hTo], s.A[hN]
			if s.A[hMeta] != 1 {
				t.fail(s, e, "unlocked", "the instance state changes without the stage's lock")
			}
			bad := func() {
				f := "unknown (not compared in this critical section)"
				if from > 0 {
					f = name(from)
				}
				t.fail(s, e, "transition", fmt.Sprintf("state change %s -> %s is not allowed for this request", f, name(to)))
			}
			switch {
			case path == "/boot" && m == 1 && n == 0:
				if to != S[1] || s.A[hState] != S[0] {
					bad()
				}
			case path == "/boot" && m == 1 && n == 1:
				if from != S[1] || to != S[0] || s.A[hFailed] != 1 {
					bad()
				}
			case path == "/boot" && m == 2 && n == 0:
				if from != S[1] || to != S[0] && to != S[2] {
					bad()
				} else if to == S[0] && s.A[hBody] != 2 || to == S[2] && s.A[hBody] != 1 {
					t.fail(s, e, "outcome", "the boot outcome recorded is not the one in the body")
				}
			case path == "/run" && m == 1 && n == 0:
				if from != S[2] || to != S[3] {
					bad()
				} else if s.A[hRun] != 1 {
					t.fail(s, e, "signal", "an instance is told to run without the run signal")
				}
			case path == "/run" && m == 1 && n == 1:
				if from != S[3] || to != S[2] || s.A[hFailed] != 1 {
					bad()
				}
			case path == "/run" && m == 2 && n == 0:
				if from != S[3] || to != S[0] {
					bad()
				}
			default:
				bad()
			}
		}
		h.ack = func(h *handlerRun, s *State, e *Event, f *types.Var) {
			rules()
			nAck++
			a.obl(e, "acknowledgement")
			if s.A[hMethod] != 2 || s.A[hN] != 1 || s.A[hMeta] == 1 {
				a.fail(s, e, "order", "an acknowledgement is delivered that no state change of this request justifies")
			}
			if path == "/boot" && f != r.boot || path == "/run" && f != r.doneCh || path != "/boot" && path != "/run" {
				a.fail(s, e, "channel", "the acknowledgement is delivered on the wrong channel")
			}
			ev := h.x.T.vfield(e.Val, r.ackErr)
			nn, ok := h.x.IsNil(s, ev)
			if path == "/boot" && (!ok || nn != (s.A[hBody] == 1)) {
				a.fail(s, e, "outcome", "the boot acknowledgement does not carry the outcome in the body")
			}
			if path == "/run" && ok && s.A[hBody] == 2 && nn {
				a.fail(s, e, "outcome", "the error of the instance is not delivered")
			}
		}
		h.ret = func(h *handlerRun, s *State, e *Event) {
			rules()
			nRet++
			p.obl(e, "return")
			st, m, n := s.A[hStatus], s.A[hMethod], s.A[hN]
			isErr := st >= 400
			switch {
			case m == 2 && (path == "/boot" || path == "/run"):
				acks, other := s.A[hBoot], s.A[hDone]
				if path == "/run" {
					acks, other = other, acks
				}
				if n == 1 && (acks != 1 || other != 0) || n != 1 && acks+other != 0 {
					a.fail(s, e, "once", fmt.Sprintf("%d acknowledgements are delivered after %d state changes", acks+other, n))
				}
				if path == "/run" && n == 1 && s.A[hDel] != 1 {
					t.fail(s, e, "removed", "an instance that is done stays in the stage")
				}
				if path == "/boot" && n == 1 && (s.A[hDel] == 1) != (s.A[hState] == S[0]) {
					t.fail(s, e, "removed", "an instance leaves the stage exactly when it failed to boot, which is not so here")
				}
				if n == 1 && isErr {
					p.fail(s, e, "status", "an accepted acknowledgement is answered with an error")
				}
				if n == 0 && !isErr && s.A[hFailed] != 1 {
					p.fail(s, e, "status", "an acknowledgement without effect is answered with success")
				}
			case m == 1 && path == "/run":
				switch {
				case s.A[hDel] == 1:
					if st != 205 {
						p.fail(s, e, "status", "an instance of a stopped stage is not told to reset")
					}
				case n == 0 && !isErr && s.A[hFailed] != 1:
					p.fail(s, e, "status", "an instance is answered to run without changing its state")
				case n >= 1 && isErr:
					p.fail(s, e, "status", "an instance told to run is answered with an error")
				case n == 1 && s.A[hFailed] == 1 && s.A[hMoved] != 1 && s.A[hState] == S[3]:
					t.fail(s, e, "lost reply", "the reply failed but the instance counts as running")
				}
			case m == 1 && path == "/boot":
				if n == 0 && !isErr && s.A[hFailed] != 1 {
					p.fail(s, e, "status", "an instance that was not assigned is answered with success")
				}
				if n == 0 && s.A[hIns] == 1 {
					t.fail(s, e, "assigned", "an instance is assigned without changing its state")
				}
			case path == "/file" && s.A[hState] != S[1], path == "/stats" && s.A[hState] != S[3], m != 1 && m != 2:
				if !isErr && s.A[hFailed] != 1 {
					p.fail(s, e, "status", "a request out of order is answered with success")
				}
			case path == "/ping":
				if s.A[hAssigned] != 1 && !isErr {
					p.fail(s, e, "status", "an instance not in the stage is told to keep running")
				}
			}
			if st == 205 && s.A[hStopped] != 1 {
				p.fail(s, e, "reset", "an instance is told to reset although the stage is not known to be stopped")
			}
			if path == "/ping" && s.A[hStopped] == 1 && st != 205 && !isErr {
				p.fail(s, e, "reset", "an instance of a stopped stage is told to keep running")
			}
		}
		h.run()
		rules()
		c.finish(G, h.x)
	}
	c.Require(G, nEff, 8, "effects")
	c.Require(T, nChange, 5, "state changes")
	c.Require(A, nAck, 2, "acknowledgements")
	c.Require(P, nRet, 10, "returns")
}

// closedBeforeRun: the stage takes no more instances when it starts to run.
func (c *Ctx) closedBeforeRun(rule string, r *computeRoles) {
	x := NewExec(c.P, r.serverRun)
	x.Inline = samePkg("compute")
	x.AllocEvents = true
	pr := c.pathRule(rule, x)
	n := 0
	const closed = 0
	x.Hook = func(x *Exec, s *State, e *Event) {
		m := s.RV[0]
		switch e.Kind {
		case EvAlloc:
			if ptrTo(e.Addr.T, r.meta) {
				s.RV[0] = e.Addr
				s.A[closed] = 0
			}
		case EvStore:
			if m == nil || e.Addr.Op != "field" || e.Addr.Args[0] != m || e.Addr.Fld == nil {
				return
			}
			if b, ok := e.Addr.Fld.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
				return
			}
			if v, k := x.Ask(s, e.Val); k && v {
				s.A[closed] = 1
			}
		case EvCall:
			if e.Callee == "builtin close" && m != nil && e.Args[0] == x.Load(s, x.T.fieldAddr(m, r.run), r.run.Type()) {
				n++
				pr.obl(e, "run signal")
				if s.A[closed] == 0 {
					pr.fail(s, e, "open", "the stage is run although it is not known to be closed to further instances")
				}
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	c.Require(rule, n, 1, "run signals")
}
