package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C39"] = ruleC39
}

// documented limits of the generators whose values are integers in a range
var genLimits = map[string]struct {
	lo, hi       string // parameters
	loDef, hiDef int64
	pair         bool
}{
	"int":           {"min", "max", 1, 100000, false},
	"int-range":     {"min", "max", 1, 100000, true},
	"int-range-seq": {"begin", "end", 1, 100000, true},
}

func ruleC39(c *Ctx) {
	const ER, WD, PN, RG, NV = "errors", "words", "panics", "range", "values"
	c.Rule(ER, "On every path of making a generator: a numeric parameter is used only if it was parsed without an error, and the error of one that was not names the parameter.")
	c.Rule(WD, "On every path of making a generator: a parameter that is compared with words is one of them, or there is an error; so is each element of a list.")
	c.Rule(PN, "For every way a generator is made and every path of its other methods: the argument of rand.Int63n and the like is positive, indexes and lengths are in range, divisors are not zero, type assertions hold, and what the methods use was made, given only what is known when it is made and on the path.")
	c.Rule(RG, "The integers returned are at least the minimum and at most the maximum (parameters, or documented defaults), in order if there are two.")
	c.Rule(NV, "A generator has at least one value, and an incremented one a positive step.")
	g := c.genMaker(ER)
	if g == nil {
		return
	}
	for _, name := range g.registered(nil) {
		ms := g.params39(ER, WD, name)
		if len(ms) == 0 {
			c.Fail(ER, "generator "+name, g.make.Pos(), "generator "+name+" cannot be made")
			continue
		}
		g.methods39(PN, RG, NV, name, ms)
	}
	c.Require(PN, c.oblig[PN], 9, "generators")
}

// paramOf: the parameter a term is computed from.
func (g *genMaker) paramOf(v *Val) string {
	k := ""
	v.find(func(u *Val) bool {
		if u.Op == "lookup" && u.Args[0] == g.params {
			if s, ok := u.Args[1].constStr(); ok {
				k = s
				return true
			}
		}
		return false
	})
	return k
}

// says: the message contains the word, other than as the key of a lookup.
func says(v *Val, k string) bool {
	if w, ok := v.constStr(); ok {
		return strings.Contains(w, k)
	}
	if v.Op == "lookup" || v.Op == "pure" && strings.HasPrefix(v.Name, "strconv.") {
		return false
	}
	for _, a := range v.Args {
		if says(a, k) {
			return true
		}
	}
	return false
}

func isParse(u *Val) bool {
	return u.Op == "pure" && (strings.HasPrefix(u.Name, "strconv.Parse") || strings.HasPrefix(u.Name, "strconv.Atoi"))
}

// params39 checks how parameters are taken, and returns the ways to make the generator.
func (g *genMaker) params39(er, wd, name string) []*madeGen {
	c := g.c
	c.Obl(er, name)
	c.Obl(wd, name)
	g.onMake = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			if e.Callee == "strings.Split" || e.Callee == "strings.SplitN" || e.Callee == "strings.Fields" {
				if len(e.Args) > 1 && len(e.Res) == 1 {
					if sep, ok := e.Args[1].constStr(); ok && sep != "" {
						x.Assume(s, x.T.eq(x.T.app("len", e.Res[0]), x.T.intv(0)), false)
					}
				}
			}
		case EvBranch:
			if e.Cond.Op != "eq" || !g.element(e.Cond.Args[0]) {
				return
			}
			if _, ok := e.Cond.Args[1].constStr(); !ok {
				return
			}
			s.A[0] = 2
			if e.Taken {
				s.A[0] = 1
			}
		case EvBlock:
			if e.Back {
				if s.A[0] == 2 {
					c.Fail(wd, shortFn(e.Fn)+":element", e.Block.Instrs[0].Pos(), "an unknown element of a list is ignored by generator "+name, x.TraceStr(s, 14)...)
				}
				s.A[0] = 0
			}
		case EvReturn:
			if nl, known := x.IsNil(s, e.Res[1]); known && nl {
				return
			}
			for f, v := range s.facts {
				if f.Op != "eq" || v || !f.Args[1].isNil() {
					continue
				}
				if p := f.Args[0]; isParse(p) && strings.HasSuffix(p.Name, "/1") {
					k := g.paramOf(p)
					if k == "" {
						continue
					}
					if !says(e.Res[1], k) {
						c.Fail(er, "generator "+name+":"+k, e.Pos(), "the error for a value of "+k+" that is not a number does not name the parameter", x.TraceStr(s, 14)...)
					}
				}
			}
		}
	}
	ms, _, und := g.made(er, name)
	g.onMake = nil
	if und != "" {
		c.Fail(er, "generator "+name, g.make.Pos(), und)
	}
	for _, m := range ms {
		// parsed without error
		check := func(v *Val) {
			v.find(func(u *Val) bool {
				if isParse(u) && strings.HasSuffix(u.Name, "/0") && g.paramOf(u) != "" {
					n := *u
					n.Name = strings.TrimSuffix(u.Name, "/0") + "/1"
					n.T, n.leaves = nil, nil
					ev := g.T.mk(n)
					if ok, known := m.facts[g.T.eq(ev, g.T.nilv())]; !known || !ok {
						c.Fail(er, "generator "+name+":"+g.paramOf(u), g.make.Pos(), "a value of "+g.paramOf(u)+" that is not a number is used", m.tr...)
					}
				}
				return false
			})
		}
		for _, v := range m.fields {
			check(v)
		}
		for f := range m.facts {
			check(f)
		}
		// one of the words
		words := map[string]int{}
		for f, v := range m.facts {
			if f.Op != "eq" {
				continue
			}
			w, ok := f.Args[1].constStr()
			k := g.paramOf(f.Args[0])
			if !ok || k == "" || f.Args[0].find1(isParse) {
				continue
			}
			if w != "" && words[k] == 0 {
				words[k] = 1
			}
			if v {
				words[k] = 2
			}
		}
		for k, n := range words {
			if n == 1 {
				c.Fail(wd, "generator "+name+":"+k, g.make.Pos(), "a value of "+k+" that is not known is accepted", m.tr...)
			}
		}
	}
	return ms
}

// element: an element of a list given as a parameter.
func (g *genMaker) element(v *Val) bool {
	return g.paramOf(v) != "" && v.find1(func(u *Val) bool { return u.Op == "elem" || u.Op == "velem" })
}

// know collects inequalities: of the path, of how the generator was made, and of random values.
func (g *genMaker) know(x *Exec, s *State, m *madeGen, goal ...*Val) ineqs {
	var q ineqs
	add := func(f *Val, v bool) {
		q.fact(f, v)
		q.axioms(f)
	}
	for f, v := range s.facts {
		add(g.at(f, m), v)
	}
	for f, v := range m.facts {
		add(f, v)
	}
	for _, v := range goal {
		q.axioms(v)
	}
	for r, n := range g.rand {
		q = append(q, &linexp{c: map[*Val]int64{r: -1}})
		q.le(r, g.at(n, m), 1)
	}
	for _, inv := range g.inv {
		q.le(m.fields[inv[1]], g.at0(inv[0]), 0)
		seen := map[*Val]bool{}
		for _, l := range q { // what it is after another client changed it
			for v := range l.c {
				seen[v] = true
			}
		}
		for _, v := range goal {
			v.find(func(u *Val) bool { seen[u] = true; return false })
		}
		for v := range seen {
			if f, b := v.loadedField(); f == inv[0] && b == g.recv {
				q.le(m.fields[inv[1]], v, 0)
			}
		}
	}
	return q
}

// at0: the field when the method began.
func (g *genMaker) at0(f *types.Var) *Val {
	return g.T.sym("begin:"+f.Name(), f.Type())
}

var randN = map[string]bool{"Int63n": true, "Int31n": true, "Intn": true, "Perm": true, "Int64N": true, "Int32N": true, "IntN": true, "N": true, "UintN": true, "Uint64N": true, "Uint32N": true}

func (g *genMaker) methods39(pn, rg, nv, name string, ms []*madeGen) {
	c, p := g.c, g.p
	t := ms[0].t
	c.Obl(pn, name)
	g.recv = g.T.sym("receiver", types.NewPointer(t))
	// fields the methods store
	stored := map[*types.Var]bool{}
	var fns []*ssa.Function
	for _, n := range []string{"Name", "Format", "Scan", "Values"} {
		fn := p.Func("data", t.Obj().Name(), n)
		if fn == nil {
			c.Missing(pn, t.Obj().Name()+"."+n)
			return
		}
		fns = append(fns, fn)
	}
	for _, fn := range p.FuncsOf("data") {
		if fn.Signature.Recv() == nil || namedOf(fn.Signature.Recv().Type()) != t || fn.Name() == "Copy" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == t {
					f := fieldOf(fa)
					for _, u := range *fa.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL {
							continue
						}
						stored[f] = true
					}
				}
			}
		}
	}
	// what the methods change is unknown when they begin
	for _, m := range ms {
		m.changed = stored
	}
	g.inv = nil
	g.invariants(ms, fns, stored)
	lim, ranged := genLimits[name]
	if ranged {
		c.Obl(rg, name)
	}
	c.Obl(nv, name)
	returned := 0
	for _, fn := range fns {
		c.Fn(fn)
		x := g.exec(fn)
		x.RiskEvents = true
		g.rand = map[*Val]*Val{}
		x.Hook = func(x *Exec, s *State, e *Event) {
			each := func(what string, ok func(m *madeGen) string) {
				for _, m := range ms {
					if g.contradicts(x, s.facts, m) {
						continue
					}
					if msg := ok(m); msg != "" {
						tr := append(append([]string{}, m.tr...), x.TraceStr(s, 14)...)
						rule := pn
						if i := strings.Index(what, "|"); i >= 0 {
							rule, what = what[:i], what[i+1:]
						}
						c.Fail(rule, siteName(e, what), e.Pos(), "generator "+name+": "+msg, tr...)
						return
					}
				}
			}
			atLeast := func(m *madeGen, v *Val, k int64) bool {
				v = g.at(v, m)
				l := linear(v)
				goal := (&linexp{k: k}).add(l, -1) // k - v <= 0
				return g.know(x, s, m, v).proves(goal)
			}
			below := func(m *madeGen, v, w *Val) bool { // v < w
				v, w = g.at(v, m), g.at(w, m)
				goal := linear(v).add(linear(w), -1)
				goal.k++
				return g.know(x, s, m, v, w).proves(goal)
			}
			switch e.Kind {
			case EvRet:
				g.note(e)
				if short := e.Callee[strings.LastIndex(e.Callee, ".")+1:]; strings.Contains(e.Callee, "math/rand") && randN[short] && len(e.Res) == 1 {
					g.rand[e.Res[0]] = e.Args[len(e.Args)-1]
				}
			case EvCall:
				short := e.Callee[strings.LastIndex(e.Callee, ".")+1:]
				switch {
				case strings.Contains(e.Callee, "math/rand") && randN[short]:
					each("random", func(m *madeGen) string {
						if atLeast(m, e.Args[len(e.Args)-1], 1) {
							return ""
						}
						return short + " may be given a number that is not positive, and panics"
					})
				case e.Callee == "(*strings.Builder).Grow" || e.Callee == "(*bytes.Buffer).Grow" || e.Callee == "strings.Repeat":
					each("length", func(m *madeGen) string {
						if atLeast(m, e.Args[1], 0) {
							return ""
						}
						return "a length may be negative"
					})
				}
				// what it uses was made
				if len(e.Args) > 0 {
					f, b := e.Args[0].loadedField()
					if f != nil && b == g.recv && !stored[f] && (strings.HasPrefix(e.Callee, "invoke ") || e.Target != nil && e.Target.Signature.Recv() != nil && isPointer(f.Type())) {
						each("nil", func(m *madeGen) string {
							v := m.fields[f]
							if v != nil && !v.isNil() && v != g.T.zero(f.Type()) {
								return ""
							}
							return f.Name() + " was not made"
						})
					}
				}
			case EvRisk:
				g.risk(x, s, e, each, atLeast, below)
			case EvReturn:
				switch fn.Name() {
				case "Format":
					each(nv+"|count", func(m *madeGen) string {
						if atLeast(m, e.Res[0], 1) {
							return ""
						}
						return "there may be no value"
					})
				case "Values":
					els, ok := x.VarArgs(s, e.Res[0])
					for _, v := range els {
						if r := stripIface(v); r.Op == "sym" && strings.HasPrefix(g.calls[r], "sync/atomic.Add") {
							if step := g.steps[r]; step != nil {
								each(nv+"|step", func(m *madeGen) string {
									if atLeast(m, step, 1) {
										return ""
									}
									return "the value may not increase"
								})
							}
						}
					}
					if !ranged {
						return
					}
					returned++
					if !ok || lim.pair && len(els) != 2 || !lim.pair && len(els) != 1 {
						c.Fail(rg, siteName(e, "values"), e.Pos(), "cannot tell which integers are returned", x.TraceStr(s, 14)...)
						return
					}
					each(rg+"|range", func(m *madeGen) string {
						lo, hi := g.limit(m, lim.lo, lim.loDef), g.limit(m, lim.hi, lim.hiDef)
						var vs []*Val
						for _, v := range els {
							vs = append(vs, g.at(stripIface(v), m))
						}
						q := g.know(x, s, m, append(vs, lo, hi)...)
						for _, v := range vs {
							if !q.proves(linear(lo).add(linear(v), -1)) {
								return "a value may be less than " + lim.lo
							}
							if !q.proves(linear(v).add(linear(hi), -1)) {
								return "a value may be greater than " + lim.hi
							}
						}
						if lim.pair && !q.proves(linear(vs[0]).add(linear(vs[1]), -1)) {
							return "the first value may be greater than the second"
						}
						return ""
					})
				}
			}
		}
		x.Run([]*Val{g.recv}, g.begin(stored))
		c.finish(pn, x)
	}
	if ranged && returned == 0 {
		c.Fail(rg, "generator "+name, fns[3].Pos(), "no values are returned")
	}
}

// begin gives the fields the methods change their own symbols.
func (g *genMaker) begin(stored map[*types.Var]bool) func(s *State) {
	return func(s *State) {
		for f := range stored {
			if isIntType(f.Type()) {
				s.mem[g.T.fieldAddr(g.recv, f)] = g.at0(f)
			}
		}
	}
}

// invariants: changed integers that are never less than a field that is set once.
func (g *genMaker) invariants(ms []*madeGen, fns []*ssa.Function, stored map[*types.Var]bool) {
	var cand [][2]*types.Var
	st := ms[0].st
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !stored[f] || !isIntType(f.Type()) {
			continue
		}
		for j := 0; j < st.NumFields(); j++ {
			b := st.Field(j)
			if stored[b] || !types.Identical(b.Type(), f.Type()) {
				continue
			}
			base := true
			for _, m := range ms {
				var q ineqs
				for k, v := range m.facts {
					q.fact(k, v)
					q.axioms(k)
				}
				base = base && q.proves(linear(m.fields[b]).add(linear(m.fields[f]), -1))
			}
			if base {
				cand = append(cand, [2]*types.Var{f, b})
			}
		}
	}
	for changed := true; changed && len(cand) > 0; {
		changed = false
		g.inv = cand
		bad := map[[2]*types.Var]bool{}
		for _, fn := range fns {
			x := g.exec(fn)
			g.rand = map[*Val]*Val{}
			x.Hook = func(x *Exec, s *State, e *Event) {
				if e.Kind != EvStore || e.Addr.Op != "field" || e.Addr.Args[0] != g.recv {
					return
				}
				raw := e.Raw
				if raw == nil {
					raw = e.Val
				}
				for _, in := range cand {
					if e.Addr.Fld != in[0] {
						continue
					}
					for _, m := range ms {
						if g.contradicts(x, s.facts, m) {
							continue
						}
						v := g.at(raw, m)
						if !g.know(x, s, m, v).proves(linear(m.fields[in[1]]).add(linear(v), -1)) {
							bad[in] = true
						}
					}
				}
			}
			x.Run([]*Val{g.recv}, g.begin(stored))
		}
		var keep [][2]*types.Var
		for _, in := range cand {
			if bad[in] {
				changed = true
			} else {
				keep = append(keep, in)
			}
		}
		cand = keep
	}
	g.inv = cand
}

// limit: the value of a parameter, or its default.
func (g *genMaker) limit(m *madeGen, key string, def int64) *Val {
	k := false
	for f, v := range m.facts {
		if f.Op == "lookupok" && f.Args[0] == g.params && v {
			if s, ok := f.Args[1].constStr(); ok && s == key {
				k = true
			}
		}
	}
	if !k {
		return g.T.intv(def)
	}
	var found []*Val
	look := func(v *Val) {
		v.find(func(u *Val) bool {
			if isParse(u) && strings.HasSuffix(u.Name, "/0") && g.paramOf(u) == key {
				found = append(found, u)
			}
			return false
		})
	}
	for f := range m.facts {
		look(f)
	}
	for _, v := range m.fields {
		look(v)
	}
	if len(found) == 0 {
		return g.T.sym("unknown:"+key, types.Typ[types.Int64])
	}
	sort.Slice(found, func(i, j int) bool { return found[i].id < found[j].id })
	return found[0]
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// risk: an operation that panics unless something holds.
func (g *genMaker) risk(x *Exec, s *State, e *Event, each func(string, func(*madeGen) string), atLeast func(*madeGen, *Val, int64) bool, below func(*madeGen, *Val, *Val) bool) {
	switch e.Callee {
	case "div":
		each("divide", func(m *madeGen) string {
			if k, ok := g.at(e.Args[0], m).constInt(); ok && k != 0 || atLeast(m, e.Args[0], 1) {
				return ""
			}
			return "a divisor may be zero"
		})
	case "makeslice":
		each("length", func(m *madeGen) string {
			if atLeast(m, e.Args[0], 0) {
				return ""
			}
			return "a length may be negative"
		})
	case "assert":
		each("assert", func(m *madeGen) string {
			if v, ok := x.Ask(s, e.Cond); ok && v {
				return ""
			}
			return "a type assertion may fail"
		})
	case "slice":
		each("slice", func(m *madeGen) string {
			for _, b := range e.Args[1:] {
				if b == nil {
					continue
				}
				if k, ok := b.constInt(); ok && k == 0 {
					continue
				}
				return "a slice may be out of range"
			}
			return ""
		})
	case "index":
		n := g.length(x, e)
		nonneg := false
		var iv ssa.Value
		switch in := e.Instr.(type) {
		case *ssa.IndexAddr:
			iv = in.Index
		case *ssa.Index:
			iv = in.Index
		}
		if iv != nil {
			nonneg = upward(iv)
		}
		each("index", func(m *madeGen) string {
			if k, ok := e.Args[1].constInt(); ok {
				if l, ok := n.constInt(); ok && k >= 0 && k < l {
					return ""
				}
			}
			if !nonneg && !atLeast(m, e.Args[1], 0) {
				return "an index may be negative"
			}
			if below(m, e.Args[1], n) || g.elements(m, e.Args[1], n) {
				return ""
			}
			return "an index may be out of range"
		})
	}
}

// length of what is indexed.
func (g *genMaker) length(x *Exec, e *Event) *Val {
	var t types.Type
	switch in := e.Instr.(type) {
	case *ssa.IndexAddr:
		t = in.X.Type()
	case *ssa.Index:
		t = in.X.Type()
	}
	if t != nil {
		if a, ok := deref(t).Underlying().(*types.Array); ok {
			return g.T.intv(a.Len())
		}
	}
	return x.lenOf(e.Args[0])
}

// upward: a number that starts at zero or more and only grows.
func upward(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Int64() >= 0
	case *ssa.Convert:
		if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && b.Kind() != types.Uint && b.Kind() != types.Uint64 {
			return true
		}
		return upward(v.X)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(v) {
				if k, ok := b.Y.(*ssa.Const); ok && k.Int64() > 0 {
					continue
				}
				return false
			}
			k, ok := e.(*ssa.Const)
			if !ok || k.Value == nil || k.Int64() < 0 {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		if v.Op == token.ADD {
			if ph, ok := v.X.(*ssa.Phi); ok && isRangeIndex(ph) {
				k, ok := v.Y.(*ssa.Const)
				return ok && k.Int64() == 1
			}
		}
		if v.Op == token.AND {
			for _, o := range []ssa.Value{v.X, v.Y} {
				if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Int64() >= 0 {
					return true
				}
			}
		}
	case *ssa.UnOp:
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	case *ssa.Extract:
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	return false
}

// elements: an index that is an element of a list of the generator, all of whose
// elements are constants in range.
func (g *genMaker) elements(m *madeGen, v, n *Val) bool {
	max, ok := n.constInt()
	if !ok {
		return false
	}
	for v.Op == "conv" {
		v = v.Args[0]
	}
	if v.Op == "load" {
		v = v.Args[0]
	}
	if v.Op != "elem" && v.Op != "velem" {
		return false
	}
	f, b := v.Args[0].loadedField()
	if f == nil || b != g.recv || m.changed[f] {
		return false
	}
	vals, ok := g.listConsts(m.t, f)
	if !ok {
		return false
	}
	for _, k := range vals {
		if k < 0 || k >= max {
			return false
		}
	}
	return len(vals) > 0
}

// listConsts: the constants a list field of the type is made of.
func (g *genMaker) listConsts(t *types.Named, f *types.Var) ([]int64, bool) {
	var out []int64
	ok := true
	seen := map[ssa.Value]bool{}
	var list func(v ssa.Value)
	cell := func(a ssa.Value) { // the elements stored in an array or through a slice
		for _, u := range *a.Referrers() {
			switch u := u.(type) {
			case *ssa.IndexAddr:
				for _, w := range *u.Referrers() {
					switch w := w.(type) {
					case *ssa.Store:
						if k, is := w.Val.(*ssa.Const); is && k.Value != nil {
							out = append(out, k.Int64())
						} else if cv, is := w.Val.(*ssa.Convert); is {
							_ = cv
							ok = false
						} else {
							ok = false
						}
					case *ssa.UnOp:
					default:
						ok = false
					}
				}
			}
		}
	}
	list = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
		case *ssa.Phi:
			for _, e := range v.Edges {
				list(e)
			}
		case *ssa.Slice:
			if al, is := v.X.(*ssa.Alloc); is {
				cell(al)
				return
			}
			list(v.X)
		case *ssa.MakeSlice:
			cell(v)
			for _, u := range *v.Referrers() {
				if cl, is := u.(*ssa.Call); is && calleeName(cl.Common()) == "builtin copy" && cl.Call.Args[0] == ssa.Value(v) {
					list(cl.Call.Args[1])
				}
			}
			out = append(out, 0)
		case *ssa.Call:
			if calleeName(v.Common()) == "builtin append" {
				for _, a := range v.Call.Args {
					list(a)
				}
				return
			}
			callee := v.Common().StaticCallee()
			if callee == nil || fnPkgPath(callee) != modPath+"/data" {
				ok = false
				return
			}
			for _, b := range callee.Blocks {
				if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && len(r.Results) == 1 {
					list(r.Results[0])
				} else if is {
					ok = false
				}
			}
		case *ssa.Extract:
			cl, is := v.Tuple.(*ssa.Call)
			if !is || cl.Common().StaticCallee() == nil || fnPkgPath(cl.Common().StaticCallee()) != modPath+"/data" {
				ok = false
				return
			}
			for _, b := range cl.Common().StaticCallee().Blocks {
				if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
					list(r.Results[v.Index])
				}
			}
		case *ssa.UnOp:
			if fa, is := v.X.(*ssa.FieldAddr); is && fieldOf(fa) == f {
				return
			}
			ok = false
		default:
			ok = false
		}
	}
	n := 0
	for _, fn := range g.p.FuncsOf("data") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, is := in.(*ssa.Store)
				if !is {
					continue
				}
				if fa, is := st.Addr.(*ssa.FieldAddr); is && fieldOf(fa) == f {
					n++
					list(st.Val)
				}
			}
		}
	}
	return out, ok && n > 0
}
