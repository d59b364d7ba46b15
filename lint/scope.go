package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C36"] = ruleC36
	rules["C37"] = ruleC37
}

// Scopes, and how their values are shared.
const (
	scValue  = iota // new on each use
	scSingle        // one client
	scMulti         // per client and iteration
	scOnce          // once
)

var scopeClass = map[string]int{
	"value": scValue, "row": scSingle, "statement": scSingle, "trx": scSingle, "iter": scSingle, "client": scSingle,
	"client-group": scMulti, "exec-group": scMulti, "workload": scMulti, "stage": scOnce, "global": scOnce,
}

var scopeCounter = map[string]string{"row": "STATEMENT", "statement": "STATEMENT", "trx": "TRX", "iter": "ITER", "client": "CONN"}

// scopedGen: what there is to know about data.ScopedGenerator.
type scopedGen struct {
	c                    *Ctx
	p                    *Prog
	t                    *types.Named
	st                   *types.Struct
	ctor                 *ssa.Function
	id                   *types.Named
	scope                *types.Var
	gen                  *types.Var
	values, call, scan   *ssa.Function
	mutable              map[*types.Var]bool
	counters             map[string]int64
	scopes               []string
	fixed                map[string]map[*types.Var]*Val // per scope: fields set by the constructor, in its own terms
	generator, valueFunc *types.Named
}

func (c *Ctx) scopedGen(rule string) *scopedGen {
	p := c.P
	g := &scopedGen{c: c, p: p, t: p.Type("data", "ScopedGenerator"), ctor: p.Func("data", "", "NewScopedGenerator"), id: p.Type("data", "Id"), scope: p.Field("data", "Id", "Scope"),
		values: p.Func("data", "ScopedGenerator", "Values"), call: p.Func("data", "ScopedGenerator", "Call"), scan: p.Func("data", "ScopedGenerator", "Scan"),
		generator: p.Type("data", "Generator"), counters: map[string]int64{}, mutable: map[*types.Var]bool{}, fixed: map[string]map[*types.Var]*Val{}}
	if g.t == nil || g.ctor == nil || g.id == nil || g.scope == nil || g.values == nil || g.call == nil || g.scan == nil || g.generator == nil {
		c.Missing(rule, "data.ScopedGenerator, NewScopedGenerator, Id.Scope, Values, Call, Scan")
		return nil
	}
	var ok bool
	if g.st, ok = g.t.Underlying().(*types.Struct); !ok {
		c.Missing(rule, "data.ScopedGenerator")
		return nil
	}
	for i := 0; i < g.st.NumFields(); i++ {
		if namedOf(g.st.Field(i).Type()) == g.generator {
			if g.gen != nil {
				c.Missing(rule, "the generator in a ScopedGenerator")
				return nil
			}
			g.gen = g.st.Field(i)
		}
	}
	if g.gen == nil {
		c.Missing(rule, "the generator in a ScopedGenerator")
		return nil
	}
	pk := p.Pkg("data")
	for _, n := range []string{"STATEMENT", "TRX", "ITER", "CONN", "CLIENT", "CLIENT_GROUP", "EXEC_GROUP", "STAGE"} {
		k, ok := pk.Types.Scope().Lookup(n).(*types.Const)
		if !ok {
			c.Missing(rule, "data."+n)
			return nil
		}
		g.counters[n], _ = constant.Int64Val(constant.ToInt(k.Val()))
	}
	// the scopes there are
	fp := p.Pkg("")
	for _, n := range fp.Types.Scope().Names() {
		if k, ok := fp.Types.Scope().Lookup(n).(*types.Const); ok && strings.HasPrefix(n, "SCOPE_") {
			s := constant.StringVal(k.Val())
			if _, known := scopeClass[s]; !known {
				c.Fail(rule, "finch."+n, k.Pos(), "it is not known what scope "+s+" means")
				continue
			}
			g.scopes = append(g.scopes, s)
		}
	}
	sort.Strings(g.scopes)
	if c.Require(rule, len(g.scopes), len(scopeClass), "scopes"); len(g.scopes) < len(scopeClass) {
		return nil
	}
	// fields that change after the constructor
	for _, fn := range p.FuncsOf("data") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || namedOf(deref(fa.X.Type())) != g.t {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh && fn == g.ctor {
					continue
				}
				if addrMutated(fa, map[ssa.Value]bool{}) {
					g.mutable[fieldOf(fa)] = true
				}
			}
		}
	}
	for _, s := range g.scopes {
		if !g.construct(rule, s) {
			return nil
		}
	}
	return g
}

// addrMutated: something is stored at the address or below it.
func addrMutated(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Addr == v {
				return true
			}
			return true // escapes
		case *ssa.FieldAddr:
			if addrMutated(i, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if addrMutated(i, seen) {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case ssa.CallInstruction:
			n := calleeName(i.Common())
			if !strings.HasPrefix(n, "(*sync.") {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// construct runs the constructor for a scope.
func (g *scopedGen) construct(rule, scope string) bool {
	c, p := g.c, g.p
	x := NewExec(p, g.ctor)
	x.Inline = func(f *ssa.Function) bool { return strings.HasPrefix(fnPkgPath(f), modPath) }
	id := x.T.sym("id", g.id)
	arg := x.T.mk(Val{Op: "with", Fld: g.scope, Args: []*Val{id, x.T.konst(constant.MakeString(scope), types.Typ[types.String])}, T: g.id})
	n, bad := 0, ""
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvPanic:
			bad = "there is no generator for scope " + scope
		case EvReturn:
			n++
			r := e.Res[0]
			m := map[*types.Var]*Val{}
			for i := 0; i < g.st.NumFields(); i++ {
				f := g.st.Field(i)
				m[f] = x.Load(s, x.T.fieldAddr(r, f), f.Type())
			}
			if r.Op != "alloc" {
				bad = "cannot tell what generator there is for scope " + scope
			}
			if old := g.fixed[scope]; old != nil {
				for f, v := range m {
					if old[f] != v {
						bad = "generators of scope " + scope + " differ"
					}
				}
			}
			g.fixed[scope] = m
			if w := m[g.gen]; w != x.ArgVal(1) {
				bad = "the generator of scope " + scope + " is not the one given"
			}
		}
	}
	x.Run([]*Val{arg}, nil)
	c.Fn(g.ctor)
	c.Obl(rule, "scope "+scope)
	if x.Undecided != "" || n == 0 && bad == "" {
		bad = "cannot tell what generator there is for scope " + scope
	}
	if bad != "" {
		c.Fail(rule, shortFn(g.ctor)+":"+scope, g.ctor.Pos(), bad)
		return false
	}
	return true
}

// exec prepares the analysis of a method for a scope.
func (g *scopedGen) exec(fn *ssa.Function, scope string) *Exec {
	x := NewExec(g.p, fn)
	x.Inline = func(f *ssa.Function) bool { return strings.HasPrefix(fnPkgPath(f), modPath) }
	x.Unroll = 16
	memo := map[*types.Var]*Val{}
	x.Fixed = func(a *Val) *Val {
		if a.Op != "field" || a.Args[0] != x.argVals[0] || a.Fld == nil || g.mutable[a.Fld] || a.Fld == g.gen {
			return nil
		}
		if v, ok := memo[a.Fld]; ok {
			return v
		}
		var v *Val
		switch w := g.fixed[scope][a.Fld]; {
		case w == nil:
		case w.Op == "const" && w.C == nil:
			v = x.T.nilv()
		case w.Op == "const":
			v = x.T.konst(w.C, a.Fld.Type())
		case w.Op == "zero":
			v = x.T.zero(a.Fld.Type())
		default:
			switch a.Fld.Type().Underlying().(type) {
			case *types.Pointer, *types.Map:
				v = x.T.mk(Val{Op: "alloc", Name: "made:" + a.Fld.Name(), T: a.Fld.Type()})
			}
		}
		memo[a.Fld] = v
		return v
	}
	return x
}

// isGenCall: the wrapped generator is asked for values or given one.
func (g *scopedGen) isGenCall(e *Event, name string) bool {
	return strings.HasSuffix(e.Callee, "Generator."+name) && strings.HasPrefix(e.Callee, "invoke ") && len(e.Args) > 0 && loadsField(e.Args[0], g.gen)
}

// lockField: the mutex field that is locked.
func (g *scopedGen) lockField(v *Val) *types.Var {
	switch {
	case v.Op == "field":
		return v.Fld
	case v.Op == "alloc" && strings.HasPrefix(v.Name, "made:"):
		for i := 0; i < g.st.NumFields(); i++ {
			if g.st.Field(i).Name() == strings.TrimPrefix(v.Name, "made:") {
				return g.st.Field(i)
			}
		}
	}
	return nil
}

// cellField: the field of the receiver an address or map belongs to.
func (g *scopedGen) cellField(x *Exec, v *Val) *types.Var {
	for v != nil {
		switch {
		case v.Op == "alloc" && strings.HasPrefix(v.Name, "made:"):
			return g.lockField(v)
		case v.Op == "field" && v.Args[0] == x.argVals[0]:
			return v.Fld
		case (v.Op == "field" || v.Op == "elem" || v.Op == "load") && len(v.Args) > 0:
			v = v.Args[0]
		default:
			return nil
		}
	}
	return nil
}

func ruleC36(c *Ctx) {
	const LK, FR, US, WH, OW = "locked", "fresh", "only scoped", "whose", "own"
	c.Rule(LK, "For every scope that spans several clients: on every path of every method of the scoped generator, the generator is asked for values or given one only while one and the same mutex of it is locked exclusively; what methods change is changed under it and read under it, at least shared.")
	c.Rule(FR, "The values a generator returns are in a new slice each time that nothing else keeps, and none of them can change later: bytes given to a generator are copied.")
	c.Rule(US, "Nothing but a scoped generator asks a generator for values or gives it one.")
	c.Rule(WH, "The run count a client passes to generators identifies it among all clients: its exec group, client group and number are set once, from its run level.")
	c.Rule(OW, "For every scope that spans several clients, on every path of ScopedGenerator.Values and Call: values are generated, kept and returned for the client asking, told apart by its groups and number, once in each of its iterations; or once for all.")
	g := c.scopedGen(LK)
	if g == nil {
		return
	}
	p := c.P
	for _, scope := range g.scopes {
		if cl := scopeClass[scope]; cl == scMulti || cl == scOnce {
			g.decision(OW, scope)
		}
	}
	type access struct {
		write bool
		excl  map[*types.Var]bool
		shar  map[*types.Var]bool
		e     *Event
		tr    []string
		what  string
	}
	shared := 0
	for _, scope := range g.scopes {
		if cl := scopeClass[scope]; cl != scMulti && cl != scOnce {
			continue
		}
		shared++
		cells := map[string][]*access{}
		for _, fn := range p.FuncsOf("data") {
			if fn.Signature.Recv() == nil || namedOf(fn.Signature.Recv().Type()) != g.t || fn.Parent() != nil || !fn.Object().Exported() {
				continue
			}
			c.Fn(fn)
			c.Obl(LK, shortFn(fn)+" "+scope)
			x := g.exec(fn, scope)
			x.LoadEvents = true
			// RV: 0-2 locked exclusively, 3-5 shared
			note := func(s *State, e *Event, name, what string, write bool) {
				a := &access{write: write, excl: map[*types.Var]bool{}, shar: map[*types.Var]bool{}, e: e, what: what, tr: x.TraceStr(s, 14)}
				for i := 0; i < 6; i++ {
					if s.RV[i] == nil {
						continue
					}
					if f := g.lockField(s.RV[i]); f != nil {
						a.shar[f] = true
						a.excl[f] = a.excl[f] || i < 3
					}
				}
				cells[name] = append(cells[name], a)
			}
			put := func(s *State, at int, v *Val) {
				for i := at; i < at+3; i++ {
					if s.RV[i] == nil {
						s.RV[i] = v
						return
					}
				}
			}
			drop := func(s *State, at int, v *Val) {
				for i := at; i < at+3; i++ {
					if s.RV[i] == v {
						s.RV[i] = nil
						return
					}
				}
			}
			x.Hook = func(x *Exec, s *State, e *Event) {
				switch e.Kind {
				case EvRet:
					switch e.Callee {
					case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
						put(s, 0, e.Args[0])
					case "(*sync.RWMutex).RLock":
						put(s, 3, e.Args[0])
					}
				case EvCall:
					switch e.Callee {
					case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
						drop(s, 0, e.Args[0])
					case "(*sync.RWMutex).RUnlock":
						drop(s, 3, e.Args[0])
					}
					if g.isGenCall(e, "Values") || g.isGenCall(e, "Scan") {
						note(s, e, "the generator", "the generator is used", true)
					}
					if e.Callee == "builtin delete" {
						if f := g.cellField(x, e.Args[0]); f != nil {
							note(s, e, f.Name(), f.Name()+" is changed", true)
						}
					}
				case EvMapUpdate:
					if f := g.cellField(x, e.Args[0]); f != nil {
						note(s, e, f.Name(), f.Name()+" is changed", true)
					}
				case EvStore:
					if f := g.cellField(x, e.Addr); f != nil {
						note(s, e, f.Name(), f.Name()+" is changed", true)
					}
				case EvLoad:
					if e.Addr != nil {
						if f := g.cellField(x, e.Addr); f != nil && g.mutable[f] {
							note(s, e, f.Name(), f.Name()+" is read", false)
						}
					} else if f := g.cellField(x, e.Args[0]); f != nil {
						note(s, e, f.Name(), f.Name()+" is read", false)
					}
				case EvReturn:
					for i := 0; i < 6; i++ {
						if s.RV[i] != nil && g.lockField(s.RV[i]) != nil {
							c.Fail(LK, siteName(e, "held "+scope), e.Pos(), "a mutex is still locked when the method returns", x.TraceStr(s, 14)...)
						}
					}
				}
			}
			x.Run(nil, nil)
			c.finish(LK, x)
		}
		for name, as := range cells {
			written := false
			common := map[*types.Var]int{}
			for _, a := range as {
				written = written || a.write
			}
			if !written {
				continue
			}
			for i := 0; i < g.st.NumFields(); i++ {
				f := g.st.Field(i)
				for _, a := range as {
					if a.excl[f] || !a.write && a.shar[f] {
						common[f]++
					}
				}
			}
			best := 0
			var lock *types.Var
			for f, n := range common {
				if n > best {
					best, lock = n, f
				}
			}
			for _, a := range as {
				if lock == nil || !(a.excl[lock] || !a.write && a.shar[lock]) {
					c.Fail(LK, siteName(a.e, name+" "+scope), a.e.Pos(), fmt.Sprintf("%s without the mutex that guards it, and clients share generators of scope %s", a.what, scope), a.tr...)
				}
			}
		}
		if len(cells["the generator"]) < 3 {
			c.Missing(LK, "uses of the generator of scope "+scope)
		}
	}
	c.Require(LK, shared, 5, "scopes that span clients")

	// nothing else uses generators
	sites := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(ssa.CallInstruction)
				if !ok || !cl.Common().IsInvoke() || namedOf(cl.Common().Value.Type()) != g.generator {
					continue
				}
				if n := cl.Common().Method.Name(); n != "Values" && n != "Scan" {
					continue
				}
				sites++
				c.Obl(US, p.Pos(in.Pos()))
				if r := fn.Signature.Recv(); r == nil || namedOf(r.Type()) != g.t {
					if !onlyFrom(p, fn, g.t) && !g.scopedField(loadOfField(cl.Common().Value)) {
						c.Fail(US, shortFn(fn), in.Pos(), "a generator is used directly, not in its scope")
					}
				}
			}
		}
	}
	c.Require(US, sites, 3, "uses of generators")
	// nor does database/sql
	out := p.Field("client", "StatementData", "Outputs")
	if out == nil {
		c.Missing(US, "client.StatementData.Outputs")
		return
	}
	n := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || loadOfField(ia.X) != out {
					continue
				}
				n++
				c.Obl(US, p.Pos(in.Pos())+" output")
				if !g.isScoped(st.Val) {
					c.Fail(US, shortFn(fn)+":output", in.Pos(), "a column is read into something that is not a scoped generator")
				}
			}
		}
	}
	c.Require(US, n, 1, "outputs")
	c.freshValues(FR, g)
	c.clientRunCount(WH, g)
}

// isScoped: the interface holds a scoped generator.
func (g *scopedGen) isScoped(v ssa.Value) bool {
	switch u := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return namedOf(u.X.Type()) == g.t
	case *ssa.ChangeInterface:
		return g.isScoped(u.X)
	case *ssa.Phi:
		for _, e := range u.Edges {
			if e != v && !g.isScoped(e) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		return g.scopedField(loadOfField(u))
	}
	return false
}

// scopedField: the field only ever holds scoped generators.
func (g *scopedGen) scopedField(f *types.Var) bool {
	if f == nil {
		return false
	}
	n := 0
	for _, fn := range g.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldOf(fa) != f {
					continue
				}
				n++
				if mi, ok := st.Val.(*ssa.MakeInterface); ok && namedOf(mi.X.Type()) == g.t {
					continue
				}
				if k, ok := st.Val.(*ssa.Const); ok && k.Value == nil {
					continue
				}
				return false
			}
		}
	}
	return n > 0
}

// onlyFrom: the function is only called by methods of the type.
func onlyFrom(p *Prog, fn *ssa.Function, t *types.Named) bool {
	cs := p.callersOf(fn)
	for _, cl := range cs {
		r := cl.Parent().Signature.Recv()
		if r == nil || namedOf(r.Type()) != t {
			return false
		}
	}
	return len(cs) > 0
}

// freshValues: values returned once do not change.
func (c *Ctx) freshValues(rule string, g *scopedGen) {
	p := c.P
	n := 0
	for _, t := range p.implTypes(g.generator) {
		if wrapsGenerator(t, g.generator) {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(t.Obj().Pkg().Path(), modPath), "/")
		fn := p.Func(rel, t.Obj().Name(), "Values")
		if fn == nil || fn.Blocks == nil {
			continue
		}
		n++
		c.Fn(fn)
		c.Obl(rule, shortFn(fn))
		if why := freshSlice(p, fn, map[*ssa.Function]bool{}); why != "" {
			c.Fail(rule, shortFn(fn), fn.Pos(), why)
		}
	}
	c.Require(rule, n, 9, "generators")
}

func freshSlice(p *Prog, fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[fn] {
		return ""
	}
	seen[fn] = true
	var fresh func(v ssa.Value, done map[ssa.Value]bool) string
	fresh = func(v ssa.Value, done map[ssa.Value]bool) string {
		if done[v] {
			return ""
		}
		done[v] = true
		var made ssa.Value
		switch u := v.(type) {
		case *ssa.Const:
			return ""
		case *ssa.Phi:
			for _, e := range u.Edges {
				if why := fresh(e, done); why != "" {
					return why
				}
			}
			return ""
		case *ssa.Slice:
			a, ok := u.X.(*ssa.Alloc)
			if !ok {
				return fresh(u.X, done)
			}
			if why := keptOnly(u); why != "" {
				return why
			}
			made = a
		case *ssa.MakeSlice:
			made = u
		case *ssa.Call:
			if f := u.Call.StaticCallee(); f != nil && f.Blocks != nil && strings.HasPrefix(fnPkgPath(f), modPath) {
				return freshSlice(p, f, seen)
			}
			if calleeName(&u.Call) == "builtin append" {
				return fresh(u.Call.Args[0], done)
			}
			return "cannot tell that its values are in a new slice"
		default:
			return "its values are not in a new slice each time"
		}
		if why := keptOnly(made); why != "" {
			return why
		}
		for _, r := range *made.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, w := range *ia.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					if why := lasting(p, st.Val); why != "" {
						return why
					}
				}
			}
		}
		return ""
	}
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, r := range ret.Results {
				if why := fresh(r, map[ssa.Value]bool{}); why != "" {
					return why
				}
			}
		}
	}
	return ""
}

// keptOnly: nothing keeps the slice.
func keptOnly(v ssa.Value) string {
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Val == v {
				return "its values are kept in something that can be changed by a later call"
			}
		case *ssa.MapUpdate:
			return "its values are kept in something that can be changed by a later call"
		case *ssa.Phi, *ssa.Return, *ssa.IndexAddr, *ssa.Slice, *ssa.DebugRef:
		case *ssa.Call:
			if n := calleeName(&i.Call); n != "builtin copy" && n != "builtin len" && n != "builtin append" {
				return "cannot tell what else keeps its values"
			}
		default:
			return "cannot tell what else keeps its values"
		}
	}
	return ""
}

// lasting: a value that cannot change later.
func lasting(p *Prog, v ssa.Value) string {
	switch u := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.MakeInterface:
		if _, ok := u.X.Type().Underlying().(*types.Basic); ok {
			return ""
		}
		return "one of its values can be changed by a later call"
	case *ssa.UnOp:
		f := loadOfField(u)
		if f == nil {
			break
		}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || fieldOf(fa) != f {
						continue
					}
					if why := notBytes(st); why != "" {
						return why
					}
				}
			}
		}
		return ""
	}
	return "cannot tell that its values do not change"
}

// notBytes: what is stored is not a slice of bytes that somebody else owns.
func notBytes(st *ssa.Store) string {
	switch u := st.Val.(type) {
	case *ssa.Const:
		return ""
	case *ssa.MakeInterface:
		if _, ok := u.X.Type().Underlying().(*types.Basic); ok {
			return ""
		}
	}
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), types.Typ[types.Byte])
	}
	for d, at := st.Block().Idom(), st.Block(); d != nil; at, d = d, d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		ex, ok := iff.Cond.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}
		ta, ok := ex.Tuple.(*ssa.TypeAssert)
		if !ok || ta.X != st.Val || !isBytes(ta.AssertedType) {
			continue
		}
		if d.Succs[1] == at || d.Succs[1].Dominates(st.Block()) && len(d.Succs[1].Preds) == 1 {
			return ""
		}
		return "bytes that belong to somebody else are kept"
	}
	return "a value is kept that may be bytes that belong to somebody else"
}

// clientRunCount: what a client says who it is.
func (c *Ctx) clientRunCount(rule string, g *scopedGen) {
	a := clientAnchors(c, rule)
	if a == nil {
		return
	}
	p := c.P
	rct := p.Type("data", "RunCount")
	want := map[int64]string{g.counters["CLIENT"]: "Client", g.counters["CLIENT_GROUP"]: "ClientGroup", g.counters["EXEC_GROUP"]: "ExecGroup", g.counters["STAGE"]: "Stage"}
	n := 0
	for fn := range p.Reach(a.Run) {
		if fnPkgPath(fn) != modPath+"/client" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || namedOf(deref(ia.X.Type())) != rct {
					continue
				}
				k, ok := ia.Index.(*ssa.Const)
				if !ok {
					c.Fail(rule, shortFn(fn)+":index", st.Pos(), "cannot tell which part of the run count is set")
					continue
				}
				name, ok := want[k.Int64()]
				if !ok {
					continue
				}
				n++
				c.Obl(rule, p.Pos(st.Pos())+" "+name)
				f := loadOfField(st.Val)
				if f == nil || f.Name() != name || f != p.Field("", "RunLevel", name) {
					c.Fail(rule, shortFn(fn)+":"+name, st.Pos(), "the "+name+" of the run count is not that of the client")
				}
				if len(p.loopsOf(b)) > 0 {
					c.Fail(rule, shortFn(fn)+":"+name, st.Pos(), "the "+name+" of the run count changes while the client runs")
				}
			}
		}
	}
	c.Require(rule, n, len(want), "parts of the run count that identify the client")
}
