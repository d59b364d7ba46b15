package main

import (
	"go/constant"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errCall is a call that returns an error.
type errCall struct {
	fn   *ssa.Function
	call ssa.CallInstruction
	name string
	err  ssa.Value // nil: discarded
}

// errCalls lists the calls in fn that return an error.
func errCalls(fn *ssa.Function) []errCall {
	var out []errCall
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			sig := call.Common().Signature()
			n := sig.Results().Len()
			if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
				continue
			}
			e := errCall{fn: fn, call: call, name: calleeName(call.Common())}
			if v, ok := in.(ssa.Value); ok {
				if n == 1 {
					if r := v.Referrers(); r != nil && len(*r) > 0 {
						e.err = v
					}
				} else if r := v.Referrers(); r != nil {
					for _, u := range *r {
						if x, ok := u.(*ssa.Extract); ok && x.Index == n-1 && x.Referrers() != nil && len(*x.Referrers()) > 0 {
							e.err = x
						}
					}
				}
			}
			out = append(out, e)
		}
	}
	return out
}

// errFlow follows the error of a call along every path on which it is not nil.
type errFlow struct {
	p      *Prog
	e      errCall
	strict bool // only returning it counts
	seen   map[string]bool
	bad    func(pos token.Pos, what string)
	found  bool
}

type aliasSet map[ssa.Value]bool

func (a aliasSet) key() string {
	var s []string
	for v := range a {
		s = append(s, v.Name())
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (a aliasSet) with(v ssa.Value) aliasSet {
	o := aliasSet{v: true}
	for k := range a {
		o[k] = true
	}
	return o
}

// lookOnly: calls that only look at an error.
func lookOnly(name string) bool {
	switch name {
	case modPath + ".Debug", "errors.Is", "errors.As", "errors.Unwrap", "os.IsNotExist", "os.IsTimeout", "os.IsPermission":
		return true
	}
	return false
}

// reports: calls that tell someone that something failed.
func reports(name string) bool {
	return strings.HasPrefix(name, "log.Print") || name == "net/http.Error" || strings.HasSuffix(name, "http.ResponseWriter.WriteHeader")
}

func ends(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "builtin panic", "runtime.Goexit":
		return true
	}
	return false
}

// nonNilErr: the value is an error that is not nil.
func nonNilErr(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Call:
		switch calleeName(&v.Call) {
		case "fmt.Errorf", "errors.New", "errors.Join", "invoke context.Context.Err", "context.Cause":
			return true
		}
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		_, g := v.X.(*ssa.Global)
		return g && v.Op == token.MUL
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !nonNilErr(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// nonNilAt: the block is only reached if v is not nil.
func nonNilAt(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b.Idom(); d != nil; b, d = d, d.Idom() {
		if len(b.Preds) != 1 || b.Preds[0] != d {
			continue
		}
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || c.X != v && c.Y != v {
			continue
		}
		if k, ok := c.Y.(*ssa.Const); !ok || k.Value != nil {
			continue
		}
		if c.Op == token.NEQ && d.Succs[0] == b || c.Op == token.EQL && d.Succs[1] == b {
			return true
		}
	}
	return false
}

// errorOnly: the block is only reached if the error is not nil.
func (f *errFlow) errorOnly(al aliasSet, b *ssa.BasicBlock) bool {
	for v := range al {
		if isErrorType(v.Type()) && nonNilAt(v, b) {
			return true
		}
	}
	return nonNilAt(f.e.err, b)
}

func (f *errFlow) run() {
	f.seen = map[string]bool{}
	in := f.e.call.(ssa.Instruction)
	b := in.Block()
	start := 0
	for i, x := range b.Instrs {
		if x == in {
			start = i + 1
		}
	}
	f.walk(b, start, aliasSet{f.e.err: true}, map[*ssa.If]bool{})
}

func (f *errFlow) report(pos token.Pos, what string) {
	if !f.found {
		f.found = true
		f.bad(pos, what)
	}
}

// consumer of an error stored in the arguments of a variadic call.
func variadicCall(addr ssa.Value) *ssa.Call {
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	al, ok := ia.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, r := range *al.Referrers() {
		if sl, ok := r.(*ssa.Slice); ok {
			for _, u := range *sl.Referrers() {
				if c, ok := u.(*ssa.Call); ok {
					return c
				}
			}
		}
	}
	return nil
}

func (f *errFlow) walk(b *ssa.BasicBlock, start int, al aliasSet, checked map[*ssa.If]bool) {
	if start == 0 {
		k := b.String() + "/" + al.key()
		if len(checked) > 0 {
			k += "/checked"
		}
		if f.seen[k] {
			return
		}
		f.seen[k] = true
	}
	for i := start; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in == f.e.call.(ssa.Instruction) {
			for v := range al {
				if _, ok := v.(*ssa.Phi); ok {
					return // a retry: the last error is kept
				}
			}
			if len(checked) > 0 && !f.strict && sameAgain(f.e.call) {
				return // a retry: exactly the same call, because it failed
			}
			f.report(in.Pos(), "it is forgotten when the call is made again")
			return
		}
		switch in := in.(type) {
		case *ssa.MakeInterface:
			if al[in.X] {
				al = al.with(in)
			}
		case *ssa.ChangeInterface:
			if al[in.X] {
				al = al.with(in)
			}
		case *ssa.ChangeType:
			if al[in.X] {
				al = al.with(in)
			}
		case *ssa.Store:
			if al[in.Val] {
				if c := variadicCall(in.Addr); c != nil {
					if lookOnly(calleeName(&c.Call)) {
						continue
					}
					switch n := calleeName(&c.Call); {
					case n == "fmt.Errorf" || n == "fmt.Sprintf" || n == "fmt.Sprint" || n == "errors.Join":
						al = al.with(c)
						continue
					}
					if f.strict {
						continue
					}
					return
				}
				return
			}
		case *ssa.MapUpdate:
			if al[in.Value] || al[in.Key] {
				return
			}
		case *ssa.Send:
			if al[in.X] {
				return
			}
		case *ssa.Panic:
			return
		case ssa.CallInstruction:
			cc := in.Common()
			n := calleeName(cc)
			if ends(n) {
				return
			}
			uses := cc.IsInvoke() && al[cc.Value]
			for _, a := range cc.Args {
				if al[a] {
					uses = true
				}
			}
			if uses && cc.IsInvoke() && cc.Method.Name() == "Error" {
				if v, ok := in.(ssa.Value); ok {
					al = al.with(v)
				}
				continue
			}
			if f.strict {
				continue
			}
			if uses && !lookOnly(n) || reports(n) && f.errorOnly(al, b) {
				return
			}
		case *ssa.BinOp:
			if in.Op == token.ADD && (al[in.X] || al[in.Y]) {
				al = al.with(in)
			}
		case *ssa.Return:
			for _, r := range in.Results {
				if al[r] {
					return
				}
				if isErrorType(r.Type()) && (nonNilErr(r, map[ssa.Value]bool{}) || nonNilAt(r, b)) {
					return
				}
			}
			if n := len(in.Results); n == 1 && !f.strict {
				if k, ok := in.Results[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value) {
					return // false instead of an error
				}
				if bo, ok := in.Results[0].(*ssa.BinOp); ok && (al[bo.X] || al[bo.Y]) {
					return // err == nil
				}
			}
			if !f.strict && f.errorOnly(al, b) && ownOutcome(in) {
				return // an outcome of its own
			}
			// a named result that holds it was stored: not here
			f.report(in.Pos(), "the function returns without it")
			return
		case *ssa.If:
			nilEdge, okEdge := -1, -1
			switch c := in.Cond.(type) {
			case *ssa.BinOp:
				if c.Op == token.EQL || c.Op == token.NEQ {
					x, y := c.X, c.Y
					if al[y] {
						x, y = y, x
					}
					if al[x] {
						eq := 0
						if c.Op == token.NEQ {
							eq = 1
						}
						if k, ok := y.(*ssa.Const); ok && k.Value == nil {
							nilEdge = eq
						} else if !al[y] {
							okEdge = eq // a particular error: deliberate
						}
					}
				}
			case *ssa.Call:
				if lookOnly(calleeName(&c.Call)) {
					for _, a := range c.Call.Args {
						if al[a] {
							okEdge = 0
						}
					}
				}
			}
			for k, s := range b.Succs {
				if k == nilEdge || k == okEdge {
					continue
				}
				ch := checked
				if nilEdge >= 0 {
					ch = map[*ssa.If]bool{in: true}
				}
				f.enter(b, s, al, ch)
			}
			return
		case *ssa.Jump:
			f.enter(b, b.Succs[0], al, checked)
			return
		}
	}
}

func (f *errFlow) enter(from, to *ssa.BasicBlock, al aliasSet, checked map[*ssa.If]bool) {
	o := aliasSet{}
	for v := range al {
		o[v] = true
	}
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if al[ph.Edges[idx]] {
			o[ph] = true
		} else {
			delete(o, ph)
		}
	}
	f.walk(to, 0, o, checked)
}

func init() { rules["C42"] = ruleC42 }

// dropped lists the errors that are dropped on purpose: how often at most in a package.
var dropped = map[string]struct {
	n   int
	why string
}{
	". strconv.ParseUint":                            {1, "finch.Uint: validated before (C31)"},
	"stats time.ParseDuration":                       {1, "validated before (C31)"},
	"workload time.ParseDuration":                    {1, "validated before (C31)"},
	"stage time.ParseDuration":                       {1, "validated before (C31)"},
	"limit (*golang.org/x/time/rate.Limiter).Wait":   {1, "tried again until it succeeds (C16)"},
	"config os.Chdir":                                {1, "restoring the directory when returning"},
	"data data.NewIntGaps":                           {1, "a copy: the same parameters were accepted before (C38, C39)"},
	"data data.NewIntRange":                          {1, "a copy: the same parameters were accepted before (C38, C39)"},
	"data data.NewIntRangeSeq":                       {1, "a copy: the same parameters were accepted before (C38, C39)"},
	"data data.Register":                             {20, "constant names in init (C38)"},
	"stats stats.Register":                           {5, "constant names in init"},
	"dbconn mysql.RegisterTLSConfig":                 {1, "fails only for reserved names; the name is a constant"},
	"dbconn mysql.SetLogger":                         {1, "fails only for nil"},
	"dbconn (*os/exec.Cmd).Output":                   {1, "no sockets found: the default is used"},
	"client (*database/sql.DB).Conn":                 {1, "tried again until connected or timed out (C07)"},
	"client invoke database/sql.Result.RowsAffected": {1, "never fails in the MySQL driver"},
	"client invoke database/sql.Result.LastInsertId": {1, "never fails in the MySQL driver"},
	"client invoke data.Generator.Scan":              {1, "insert id: a column generator accepts every value"},
	"compute (*proto.Client).Send":                   {1, "the boot error itself is returned"},
	"compute invoke net/http.ResponseWriter.Write":   {1, "the remote sees a short file and gives up"},
	"compute (*compute.Client).run":                  {1, "interrupted: not a failure of the remote"},
	"dbconn mysql.ParseDSN":                          {1, "only for redacting: an invalid DSN is not printed"},
	"boot os.Hostname":                               {1, "only a name"},
}

// dropOK: operations whose error nobody relies on.
func dropOK(e errCall) bool {
	n := e.name
	switch {
	case strings.HasPrefix(n, "(*bytes.Buffer)."), strings.HasPrefix(n, "(*strings.Builder)."), strings.HasPrefix(n, "fmt.Print"):
		return true
	case strings.HasSuffix(n, ").Close"), strings.HasSuffix(n, ".Close") && strings.HasPrefix(n, "invoke "):
		return true // nothing can be done
	case n == "os.RemoveAll" || n == "os.Remove":
		return true
	case n == "(*text/tabwriter.Writer).Flush": // to stdout
		return true
	case strings.HasPrefix(n, "fmt.Fprint"):
		w := e.call.Common().Args[0]
		if mi, ok := w.(*ssa.MakeInterface); ok {
			w = mi.X
		}
		if u, ok := w.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" {
				return true
			}
		}
		return isNamed(deref(w.Type()), "text/tabwriter", "Writer") || isNamed(deref(w.Type()), "strings", "Builder") || isNamed(deref(w.Type()), "bytes", "Buffer")
	}
	return false
}

// notOps: calls whose error result is not the outcome of an operation.
func notOps(n string) bool {
	switch n {
	case "fmt.Errorf", "errors.New", "errors.Join", "errors.Unwrap", "context.Cause":
		return true
	}
	return strings.HasSuffix(n, "context.Context.Err")
}

func ruleC42(c *Ctx) {
	const ER = "errors"
	c.Rule(ER, "At every call that returns an error, on every path on which the error is not nil, before it is overwritten or the function returns: it is returned (or another error is), passed on, stored, compared with a particular error, or the failure is logged, answered with an HTTP error or ends the process; finch.Debug is none of these. Errors dropped on purpose are a closed list, counted per package.")
	const RS = "results"
	c.Rule(RS, "Where the error of a call is known not to be nil, what else the call returned (a pointer, interface, map or function) is not dereferenced or called, unless it was found not to be nil.")
	c.failedResults(RS)
	p := c.P
	type site struct {
		e    errCall
		pos  token.Pos
		what string
	}
	drops := map[string][]site{}
	n := 0
	for _, f := range p.Funcs {
		if f.Blocks == nil {
			continue
		}
		c.Fn(f)
		for _, e := range errCalls(f) {
			if notOps(e.name) {
				continue
			}
			n++
			key := strings.TrimPrefix(strings.TrimPrefix(fnPkgPath(f), modPath), "/")
			if key == "" {
				key = "."
			}
			key += " " + dropName(e.name)
			c.Obl(ER, shortFn(f)+":"+e.name)
			_, isDefer := e.call.(*ssa.Defer)
			_, isGo := e.call.(*ssa.Go)
			if isGo || isDefer || e.err == nil {
				if !dropOK(e) {
					drops[key] = append(drops[key], site{e, e.call.Pos(), "its error is discarded"})
				}
				continue
			}
			fl := &errFlow{p: p, e: e}
			fl.bad = func(pos token.Pos, what string) {
				if !dropOK(e) {
					drops[key] = append(drops[key], site{e, pos, "its error can be lost: " + what})
				}
			}
			fl.run()
		}
	}
	c.Require(ER, n, 100, "calls that return an error")
	for key, ss := range drops {
		if len(ss) <= dropped[key].n {
			c.Assume("dropped on purpose: " + key + ": " + dropped[key].why)
			continue
		}
		for _, s := range ss {
			m := s.what
			if k := dropped[key].n; k > 0 {
				m += " (only " + strconv.Itoa(k) + " such call is known to be harmless: " + dropped[key].why + ")"
			}
			c.Fail(ER, shortFn(s.e.fn)+":"+s.e.name, s.e.call.Pos(), dropName(s.e.name)+": "+m+" at "+p.Pos(s.pos))
		}
	}
}

// dropName drops the module path and the import path of a package function.
func dropName(n string) string {
	n = strings.ReplaceAll(n, modPath+"/", "")
	n = strings.ReplaceAll(n, "github.com/go-sql-driver/", "")
	return n
}

// sameAgain: every call in the loop is the same, with the same arguments.
func sameAgain(call ssa.CallInstruction) bool {
	b := call.(ssa.Instruction).Block()
	body := map[*ssa.BasicBlock]bool{}
	for h := b; h != nil; h = h.Idom() {
		if l := loopBody(h); l != nil && l[b] {
			body = l
			break
		}
	}
	var fixed func(v ssa.Value, depth int) bool
	fixed = func(v ssa.Value, depth int) bool {
		in, ok := v.(ssa.Instruction)
		if !ok || !body[in.Block()] {
			return true
		}
		switch u := v.(type) {
		case *ssa.FieldAddr:
			return fixed(u.X, depth)
		case *ssa.UnOp:
			if u.Op != token.MUL || depth > 6 {
				return false
			}
			fl := fieldAddrOf(u.X)
			if fl == nil {
				return false
			}
			for q := range body { // a field that the loop does not change
				for _, i := range q.Instrs {
					if st, ok := i.(*ssa.Store); ok && fieldAddrOf(st.Addr) == fl {
						return false
					}
				}
			}
			return fixed(u.X, depth+1)
		case *ssa.Alloc: // constant structs and argument lists
			for _, r := range *u.Referrers() {
				switch r := r.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr:
					for _, w := range *r.(ssa.Value).Referrers() {
						if st, ok := w.(*ssa.Store); ok && !fixed(st.Val, depth+1) {
							return false
						}
					}
				case *ssa.Store:
					if !fixed(r.Val, depth+1) {
						return false
					}
				}
			}
			return depth < 6
		case *ssa.Convert:
			return fixed(u.X, depth+1)
		case *ssa.MakeInterface:
			return fixed(u.X, depth+1)
		case *ssa.Slice:
			return fixed(u.X, depth+1)
		}
		return false
	}
	cc := call.Common()
	if !fixed(cc.Value, 0) {
		return false
	}
	for _, a := range cc.Args {
		if !fixed(a, 0) {
			return false
		}
	}
	for q := range body { // and not at once
		for _, i := range q.Instrs {
			if cl, ok := i.(ssa.CallInstruction); ok {
				switch calleeName(cl.Common()) {
				case "time.Sleep", "time.After", "time.NewTimer":
					return true
				}
			}
		}
	}
	return false
}

// ownOutcome: the function only returns truth values, and these on no other return.
func ownOutcome(ret *ssa.Return) bool {
	key := func(r *ssa.Return) string {
		s := ""
		for _, v := range r.Results {
			k, ok := v.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.Bool {
				return "?"
			}
			s += k.Value.String() + ","
		}
		return s
	}
	if len(ret.Results) < 2 || key(ret) == "?" {
		return false
	}
	for _, b := range ret.Parent().Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if ok && r != ret && b != ret.Parent().Recover && (key(r) == key(ret) || key(r) == "?") {
			return false
		}
	}
	return true
}
