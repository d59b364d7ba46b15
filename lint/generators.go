package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// madeGen is one way the factory makes a generator: a path of Make that
// succeeds, with what is known on it and the fields of the generator.
type madeGen struct {
	name   string // registered
	t      *types.Named
	st     *types.Struct
	fields map[*types.Var]*Val
	facts  map[*Val]bool
	tr     []string

	changed map[*types.Var]bool
}

type genMaker struct {
	c      *Ctx
	p      *Prog
	iface  *types.Named
	make   *ssa.Function
	T      *valTab
	ids    map[ssa.Instruction]int
	params *Val // of Make
	recv   *Val
	calls  map[*Val]string // results of opaque calls: the callee
	onMake func(x *Exec, s *State, e *Event)
	rand   map[*Val]*Val // random numbers: what they are less than
	steps  map[*Val]*Val // results of atomic additions: what is added
	inv    [][2]*types.Var
}

// genMaker finds the factory of the built-in generators.
func (c *Ctx) genMaker(rule string) *genMaker {
	p := c.P
	g := &genMaker{c: c, p: p, calls: map[*Val]string{}, steps: map[*Val]*Val{}, ids: map[ssa.Instruction]int{}}
	g.iface = p.Type("data", "Generator")
	fac := p.Type("data", "Factory")
	if g.iface == nil || fac == nil {
		c.Missing(rule, "data.Generator and data.Factory")
		return nil
	}
	for _, t := range p.implTypes(fac) {
		if t.Obj().Pkg().Path() == modPath+"/data" {
			if fn := p.Func("data", t.Obj().Name(), "Make"); fn != nil {
				if g.make != nil {
					c.Missing(rule, "a single built-in data factory")
					return nil
				}
				g.make = fn
			}
		}
	}
	if g.make == nil {
		c.Missing(rule, "the built-in data factory")
		return nil
	}
	g.T = NewExec(p, g.make).T
	g.params = g.T.sym("params", g.make.Params[3].Type())
	return g
}

func (g *genMaker) exec(fn *ssa.Function) *Exec {
	x := NewExec(g.p, fn)
	x.T, x.ids = g.T, g.ids
	x.Inline = func(f *ssa.Function) bool { return fnPkgPath(f) == modPath+"/data" }
	x.FactKeep = func(v *Val) bool {
		return !v.find1(func(u *Val) bool {
			return u.Op == "elem" || u.Op == "velem" || u.Op == "range" || u.Op == "sym" && strings.HasPrefix(u.Name, "phi")
		})
	}
	x.Keep = x.FactKeep
	x.Unroll, x.MaxBin, x.MaxTerm = 16, 200, 200
	x.Model = func(x *Exec, s *State, e *Event) []*Val {
		if e.Callee == modPath+".Bool" && len(e.Args) == 1 {
			return []*Val{g.T.mk(Val{Op: "pure", Name: e.Callee + "/0", Args: e.Args, T: types.Typ[types.Bool]})}
		}
		return nil
	}
	return x
}

// names: the constants a generator may be made for.
func (g *genMaker) names() []string {
	set := map[string]bool{}
	for fn := range g.p.Reach(g.make) {
		if fnPkgPath(fn) != modPath+"/data" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						set[constant.StringVal(k.Value)] = true
					}
				}
			}
		}
	}
	for _, s := range g.registered(nil) {
		set[s] = true
	}
	var out []string
	for s := range set {
		if s != "" {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

// registered: the names registered when the package is initialised.
func (g *genMaker) registered(bad func(pos token.Pos, construct, msg string)) []string {
	reg := g.p.Func("data", "", "Register")
	if reg == nil {
		return nil
	}
	var out []string
	for _, fn := range g.p.FuncsOf("data") {
		if fn.Name() != "init" && !strings.HasPrefix(fn.Name(), "init#") || fn.Signature.Recv() != nil {
			continue
		}
		x := NewExec(g.p, fn)
		x.Inline = func(f *ssa.Function) bool { return fnPkgPath(f) == modPath+"/data" && f != reg }
		x.Unroll = 64
		seen := map[string]bool{}
		x.Hook = func(x *Exec, s *State, e *Event) {
			if e.Kind != EvCall || e.Target != reg {
				return
			}
			n, ok := e.Args[0].constStr()
			if !ok {
				if bad != nil {
					bad(e.Pos(), "register", "cannot tell which generator name is registered")
				}
				return
			}
			if e.Args[1].Op == "iface" && e.Args[1].T != nil {
				if t := namedOf(e.Args[1].T); t != nil && g.make.Signature.Recv() != nil && t != namedOf(g.make.Signature.Recv().Type()) {
					return // another factory
				}
			}
			if !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		}
		x.Run(nil, nil)
		if x.Undecided != "" && bad != nil {
			bad(fn.Pos(), "register", x.Undecided)
		}
	}
	sort.Strings(out)
	return out
}

// made: the ways a generator of a name is made.
func (g *genMaker) made(rule, name string) (out []*madeGen, failed int, undecided string) {
	x := g.exec(g.make)
	var nm *Val
	if name != "" {
		nm = g.T.konst(constant.MakeString(name), types.Typ[types.String])
	}
	x.BlockEvents, x.Peel = g.onMake != nil, g.onMake != nil
	x.Hook = func(x *Exec, s *State, e *Event) {
		if g.onMake != nil {
			g.onMake(x, s, e)
		}
		switch e.Kind {
		case EvRet:
			g.note(e)
		case EvReturn:
			if e.Fn != g.make || len(e.Res) != 2 {
				return
			}
			if nl, known := x.IsNil(s, e.Res[1]); !known || !nl {
				if !known {
					undecided = "cannot tell whether making fails"
				}
				failed++
				return
			}
			r := stripIface(e.Res[0])
			if r.Op != "alloc" {
				if r.Op == "const" || r.T == nil {
					undecided = "no generator, but no error"
				} else {
					undecided = "cannot tell what generator is made"
				}
				return
			}
			t := namedOf(deref(r.T))
			if t == nil {
				undecided = "cannot tell what generator is made"
				return
			}
			m := &madeGen{name: name, t: t, fields: map[*types.Var]*Val{}, facts: map[*Val]bool{}, tr: x.TraceStr(s, 14)}
			m.st, _ = t.Underlying().(*types.Struct)
			if m.st == nil {
				undecided = "cannot tell what generator is made"
				return
			}
			for i := 0; i < m.st.NumFields(); i++ {
				f := m.st.Field(i)
				m.fields[f] = x.Load(s, x.T.fieldAddr(r, f), f.Type())
			}
			for k, v := range s.facts {
				m.facts[k] = v
			}
			out = append(out, m)
		}
	}
	x.Run([]*Val{nil, nm, nil, g.params}, nil)
	if x.Undecided != "" {
		undecided = x.Undecided
	}
	g.c.finish(rule, x)
	return
}

// note remembers what opaque calls return.
func (g *genMaker) note(e *Event) {
	for _, r := range e.Res {
		if r != nil && r.Op == "sym" {
			g.calls[r] = e.Callee
			if len(e.Args) == 2 {
				g.steps[r] = e.Args[1]
			}
		}
	}
}

// at rewrites a term of a method in terms of a made generator.
func (g *genMaker) at(v *Val, m *madeGen) *Val {
	for i := 0; i < 20 && v != nil; i++ {
		n := v.find(func(u *Val) bool {
			f, b := u.loadedField()
			return f != nil && b == g.recv && !m.changed[f] && m.fields[f] != nil && u != m.fields[f]
		})
		if n == nil {
			break
		}
		f, _ := n.loadedField()
		v = g.T.subst(v, n, m.fields[f])
	}
	return g.T.renorm(v)
}

// renorm rebuilds a term after substitution.
func (t *valTab) renorm(v *Val) *Val {
	if v == nil || len(v.Args) == 0 {
		return v
	}
	args := make([]*Val, len(v.Args))
	same := true
	for i, a := range v.Args {
		args[i] = t.renorm(a)
		same = same && args[i] == a
	}
	switch v.Op {
	case "eq":
		return t.eq(args[0], args[1])
	case "lss":
		return t.lss(args[0], args[1], nil)
	case "not":
		return t.not(args[0])
	case "len":
		return (&Exec{T: t}).lenOf(args[0])
	case "bin+":
		if v.T == nil || isString(v.T) {
			break
		}
		fallthrough
	case "bin*", "bin&", "bin|", "bin^":
		if args[1].id < args[0].id {
			args[0], args[1] = args[1], args[0]
			same = false
		}
	}
	if same {
		return v
	}
	n := *v
	n.Args = args
	n.leaves = nil
	return t.mk(n)
}

// contradicts: the path cannot be taken for the generator.
func (g *genMaker) contradicts(x *Exec, facts map[*Val]bool, m *madeGen) bool {
	st := &State{mem: map[*Val]*Val{}, facts: m.facts}
	for k, v := range facts {
		r := g.at(k, m)
		if b, ok := x.Ask(st, r); ok && b != v {
			return true
		}
	}
	return false
}

func stripIface(v *Val) *Val {
	for v != nil && v.Op == "iface" {
		v = v.Args[0]
	}
	return v
}

func init() {
	rules["C38"] = ruleC38
}

func ruleC38(c *Ctx) {
	const CF, SH, RG = "configuration", "shared", "registry"
	c.Rule(CF, "For every generator and every path on which the factory makes it: on every path of its Copy that can follow, the copy is a new generator of the same type, and each field set when made equals that of the original (the same value, or the same function of the same parameters, or made by the same call).")
	c.Rule(SH, "A pointer, slice, map, channel or interface of the copy that is also the original's refers to nothing any method of the generator changes.")
	c.Rule(RG, "The generator names registered are those the factory makes; the generator made says it is of that name, is given the parameters, and any other name is an error; data.Make asks the factory registered for the name.")
	g := c.genMaker(RG)
	if g == nil {
		return
	}
	g.registry(RG)
	for _, name := range g.registered(nil) {
		ms, _, _ := g.made(CF, name)
		if len(ms) == 0 {
			continue // reported by registry
		}
		g.copies(CF, SH, name, ms)
	}
	c.Require(CF, c.oblig[CF], 9, "generators")
}

func (g *genMaker) registry(rule string) {
	c, p := g.c, g.p
	reg := map[string]bool{}
	for _, n := range g.registered(func(pos token.Pos, construct, msg string) { c.Fail(rule, construct, pos, msg) }) {
		reg[n] = true
	}
	for _, n := range g.names() {
		ms, _, und := g.made(rule, n)
		switch {
		case reg[n]:
			c.Obl(rule, n)
			if und != "" || len(ms) == 0 {
				if und == "" {
					und = "the factory cannot make it"
				}
				c.Fail(rule, "generator "+n, g.make.Pos(), "generator "+n+" is registered, but "+und)
				continue
			}
			for _, m := range ms {
				if nm := p.Func("data", m.t.Obj().Name(), "Name"); nm == nil || !g.returnsConst(nm, n) {
					c.Fail(rule, "generator "+n, g.make.Pos(), "a generator of another name is made for "+n, m.tr...)
					break
				}
			}
		case len(ms) > 0 || und != "":
			c.Fail(rule, "generator "+n, g.make.Pos(), "a generator is made for the name "+fmt.Sprintf("%q", n)+", which is not registered")
		}
	}
	// any other name
	ms, _, und := g.made(rule, "")
	c.Obl(rule, "other names")
	for _, m := range ms {
		known := false
		for k, v := range m.facts {
			if k.Op == "eq" && v && k.Args[0].Op == "sym" {
				if s, ok := k.Args[1].constStr(); ok && reg[s] {
					known = true
				}
			}
		}
		if !known {
			und = "a generator is made for a name that is not known"
		}
	}
	if und != "" {
		c.Fail(rule, "other names", g.make.Pos(), und)
	}
	// data.Make and data.Register
	mk, rg := p.Func("data", "", "Make"), p.Func("data", "", "Register")
	if mk == nil || rg == nil {
		c.Missing(rule, "data.Make and data.Register")
		return
	}
	c.Obl(rule, "data.Make")
	c.Obl(rule, "data.Register")
	x := NewExec(p, mk)
	x.Inline = func(f *ssa.Function) bool { return fnPkgPath(f) == modPath+"/data" }
	asked := 0
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvCall:
			if !strings.HasSuffix(e.Callee, "data.Factory.Make") {
				return
			}
			asked++
			f := e.Args[0]
			ok := f.Op == "lookup" && f.Args[1] == x.ArgVal(0) && len(e.Args) == 4
			for i := 1; ok && i < 4; i++ {
				ok = e.Args[i] == x.ArgVal(i-1)
			}
			if ok {
				if v, known := x.Ask(s, x.T.app("lookupok", f.Args...)); !known || !v {
					if nl, known := x.IsNil(s, f); !known || nl {
						c.Fail(rule, siteName(e, "unknown"), e.Pos(), "no factory is registered for the name, yet one is asked", x.TraceStr(s, 14)...)
					}
				}
			} else {
				c.Fail(rule, siteName(e, "factory"), e.Pos(), "the factory of the generator's name is not asked with its name, data key and parameters", x.TraceStr(s, 14)...)
			}
			s.A[0] = 1
			s.RV[0] = nil
		case EvRet:
			if strings.HasSuffix(e.Callee, "data.Factory.Make") && len(e.Res) == 2 {
				s.RV[0], s.RV[1] = e.Res[0], e.Res[1]
			}
		case EvReturn:
			if e.Fn != mk {
				return
			}
			if s.A[0] == 1 {
				if e.Res[0] != s.RV[0] || e.Res[1] != s.RV[1] {
					if nl, known := x.IsNil(s, e.Res[1]); !known || nl {
						c.Fail(rule, siteName(e, "result"), e.Pos(), "what the factory makes is not returned", x.TraceStr(s, 14)...)
					}
				}
			} else if nl, known := x.IsNil(s, e.Res[1]); !known || nl {
				c.Fail(rule, siteName(e, "result"), e.Pos(), "no generator, but no error", x.TraceStr(s, 14)...)
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	if asked == 0 {
		c.Fail(rule, "data.Make:factory", mk.Pos(), "no factory is asked")
	}
	// Register keeps the factory, or fails
	y := NewExec(p, rg)
	y.Inline = x.Inline
	kept := false
	y.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvMapUpdate:
			if e.Args[1] == x.ArgVal(0) && e.Val == x.ArgVal(1) {
				s.A[0], kept = 1, true
			}
		case EvReturn:
			if e.Fn != rg {
				return
			}
			if nl, known := x.IsNil(s, e.Res[0]); (!known || nl) && s.A[0] == 0 {
				c.Fail(rule, siteName(e, "kept"), e.Pos(), "the factory is not kept", x.TraceStr(s, 14)...)
			}
		}
	}
	y.Run(nil, nil)
	c.finish(rule, y)
	if !kept {
		c.Fail(rule, "data.Register:kept", rg.Pos(), "factories are not kept")
	}
}

// returnsConst: every return is the constant.
func (g *genMaker) returnsConst(fn *ssa.Function, want string) bool {
	ok, n := true, 0
	x := g.exec(fn)
	x.Hook = func(x *Exec, s *State, e *Event) {
		if e.Kind == EvReturn && e.Fn == fn {
			n++
			if k, is := e.Res[0].constStr(); !is || k != want {
				ok = false
			}
		}
	}
	x.Run(nil, nil)
	return ok && n > 0 && x.Undecided == ""
}

// copies checks Copy against every way the generator is made.
func (g *genMaker) copies(cf, sh, name string, ms []*madeGen) {
	c, p := g.c, g.p
	t := ms[0].t
	cp := p.Func("data", t.Obj().Name(), "Copy")
	if cp == nil {
		c.Missing(cf, "Copy of data."+t.Obj().Name())
		return
	}
	c.Obl(cf, name)
	c.Obl(sh, name)
	mut := g.mutated(t)
	g.recv = g.T.sym("receiver", types.NewPointer(t))
	type one struct {
		s      *State
		e      *Event
		r      *Val
		fields map[*types.Var]*Val
		tr     []string
	}
	x := g.exec(cp)
	taken := map[*madeGen]int{}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			g.note(e)
			switch e.Callee {
			}
		case EvCall:
			if e.Callee == "builtin copy" && len(e.Args) == 2 {
				// dst holds a copy of src
				s.RV[0], s.RV[1] = stripSlice(e.Args[0]), e.Args[1]
			}
			if e.Callee == "builtin append" && len(e.Args) == 2 && (e.Args[0].isNil() || x.lenOf(e.Args[0]) == x.T.intv(0)) {
				s.RV[3] = e.Args[1]
				s.RV[2] = nil
			}
		case EvReturn:
			if e.Fn != cp {
				return
			}
			r := stripIface(e.Res[0])
			for _, m := range ms {
				if g.contradicts(x, s.facts, m) {
					continue
				}
				taken[m]++
				if r.Op != "alloc" || namedOf(deref(r.T)) != t {
					what := "the copy is not a new generator"
					if r == g.recv {
						what = "the copy is the generator itself"
					}
					if e.Res[0].isNil() || r.isNil() {
						what = "there is no copy"
					}
					c.Fail(cf, shortFn(cp)+":new", e.Pos(), what, x.TraceStr(s, 14)...)
					return
				}
				for i := 0; i < m.st.NumFields(); i++ {
					f := m.st.Field(i)
					raw := x.Load(s, x.T.fieldAddr(r, f), f.Type())
					v, w := g.at(raw, m), m.fields[f]
					if v == w {
						if refType(f.Type()) && mut[f] != "" && g.loadOf(raw) {
							c.Fail(sh, shortFn(cp)+":"+f.Name(), e.Pos(), "the copy shares "+f.Name()+" with the original, and "+mut[f], x.TraceStr(s, 14)...)
						}
						continue
					}
					if g.zero(w, f) {
						continue // not configured
					}
					if g.alike(x, s, v, w) {
						continue
					}
					c.Fail(cf, shortFn(cp)+":"+f.Name(), e.Pos(), f.Name()+" of the copy is not that of the original", x.TraceStr(s, 14)...)
				}
			}
		}
	}
	x.Run([]*Val{g.recv}, nil)
	for _, m := range ms {
		if taken[m] == 0 {
			c.Fail(cf, shortFn(cp)+":none", cp.Pos(), "generator "+name+" cannot be copied", m.tr...)
		}
	}
	c.finish(cf, x)
}

func (g *genMaker) zero(v *Val, f *types.Var) bool {
	return v == nil || v.isNil() || v == g.T.zero(f.Type())
}

// alike: the value of the copy is made like that of the original.
func (g *genMaker) alike(x *Exec, s *State, v, w *Val) bool {
	v, w = stripIface(v), stripIface(w)
	if v.Op == "sym" && w.Op == "sym" && g.calls[v] != "" && g.calls[v] == g.calls[w] && g.calls[v] != "builtin append" {
		return true
	}
	if v.Op == "alloc" && w.Op == "alloc" && v.T != nil && w.T != nil && types.Identical(v.T, w.T) {
		return true
	}
	if a, b := stripSlice(v), stripSlice(w); a != v && b != w && a.Op == "alloc" && b.Op == "alloc" && types.Identical(a.T, b.T) {
		return true
	}
	// a copy of the elements
	if s.RV[0] != nil && stripSlice(v) == s.RV[0] && g.loadOf(s.RV[1]) {
		return true
	}
	if s.RV[3] != nil && v.Op == "sym" && strings.Contains(v.Name, "append") && g.loadOf(s.RV[3]) {
		return true
	}
	return false
}

func (g *genMaker) loadOf(v *Val) bool {
	f, b := v.loadedField()
	return f != nil && b == g.recv
}

func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// mutated: the fields of a generator whose referent its methods change.
func (g *genMaker) mutated(t *types.Named) map[*types.Var]string {
	out := map[*types.Var]string{}
	p := g.p
	for _, fn := range p.FuncsOf("data") {
		if fn.Signature.Recv() == nil || namedOf(fn.Signature.Recv().Type()) != t || fn.Name() == "Copy" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				note := func(v ssa.Value, what string) {
					if f := refField(v, t); f != nil && out[f] == "" {
						out[f] = shortFn(fn) + " " + what + " it"
					}
				}
				switch i := in.(type) {
				case *ssa.Store:
					if a := i.Addr; a != nil {
						switch a := a.(type) {
						case *ssa.IndexAddr:
							note(a.X, "changes")
						case *ssa.FieldAddr:
							note(a.X, "changes")
						default:
							note(a, "changes")
						}
					}
				case *ssa.MapUpdate:
					note(i.Map, "changes")
				case *ssa.Send:
					note(i.Chan, "sends to")
				case ssa.CallInstruction:
					cm := i.Common()
					n := calleeName(cm)
					if strings.HasPrefix(n, "(*sync.") || n == "builtin len" || n == "builtin cap" {
						continue
					}
					if cm.IsInvoke() {
						note(cm.Value, "uses")
					}
					for k, a := range cm.Args {
						if n == "builtin copy" && k == 1 || n == "builtin append" && k == 1 {
							continue
						}
						if callee := cm.StaticCallee(); callee != nil && namedOf(a.Type()) == t {
							continue // a method of its own
						}
						note(a, "uses")
					}
				}
			}
		}
	}
	return out
}

// refField: the value is loaded from a field of type t.
func refField(v ssa.Value, t *types.Named) *types.Var {
	for {
		switch u := v.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return nil
			}
			if fa, ok := u.X.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == t {
				return fieldOf(fa)
			}
			return nil
		case *ssa.Slice:
			v = u.X
		case *ssa.ChangeType:
			v = u.X
		case *ssa.MakeInterface:
			v = u.X
		case *ssa.ChangeInterface:
			v = u.X
		case *ssa.FieldAddr:
			v = u.X
		case *ssa.IndexAddr:
			v = u.X
		case *ssa.Phi:
			for _, e := range u.Edges {
				if e != v {
					if f := refField(e, t); f != nil {
						return f
					}
				}
			}
			return nil
		default:
			return nil
		}
	}
}
