package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C35"] = ruleC35
}

func ruleC35(c *Ctx) {
	const SU, GE, VA, CA = "substitution", "generators", "values", "calls"
	c.Rule(SU, "On every path that returns a parsed statement: its inputs are the data keys found in the text, in order, only without their call suffix; which of them are called was decided before; the query is the text without call suffixes, every whole data key replaced by what a map has for it; every input was put in that map: a placeholder if the statement is prepared, else the format of the generator of that key (of a key before it for @PREV). Nothing else decides the query, in particular no order of a map.")
	c.Rule(CA, "An input is called explicitly exactly if its data key ends in the call suffix.")
	c.Rule(GE, "Every data generator returns as many values as its format says, of the kind its format prints.")
	c.Rule(VA, "On every path of Client.Run, each statement is executed with the values generated for it since the last execution: every input of the statement is called once, in order, and its values follow those of the inputs before it.")
	r := c.trxRoles(SU)
	if r == nil {
		return
	}
	const WH = "whole"
	c.Rule(WH, "No search, replacement or prefix test in package trx looks for text that is not constant, so no data key is taken for a part of another.")
	c.wholeNeedles(WH)
	c.dataKeySubstitution(SU, CA, r)
	c.generatorFormats(GE)
	c.clientValues(VA)
}

// wholeKeys: the pattern finds whole data keys.
func wholeKeys(re *regexp.Regexp) bool {
	for in, want := range map[string]string{
		"a=@d": "@d", "@d2 @d": "@d2,@d", "(@d(), @long-name_1)": "@d(),@long-name_1", "no": "", "@d,@d": "@d,@d", "@PREV;": "@PREV",
	} {
		if strings.Join(re.FindAllString(in, -1), ",") != want {
			return false
		}
	}
	return true
}

// explicitKeys: the pattern finds whole data keys with a call suffix, and no others.
func explicitKeys(re *regexp.Regexp) bool {
	for in, want := range map[string]string{"@d() @d2 @e-f()": "@d(),@e-f()", "NOW()": "", "@d ()": "", "@d(),@d()": "@d(),@d()"} {
		if strings.Join(re.FindAllString(in, -1), ",") != want {
			return false
		}
	}
	return true
}

// trimsSuffix: the function returns its argument without the suffix.
func trimsSuffix(fn *ssa.Function) bool {
	if fn == nil || len(fn.Params) != 1 {
		return false
	}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if !isTrim(ret.Results[0], fn.Params[0]) {
			return false
		}
	}
	return true
}

func isTrim(v, of ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok || calleeName(&call.Call) != "strings.TrimSuffix" || call.Call.Args[0] != of {
		return false
	}
	k, ok := call.Call.Args[1].(*ssa.Const)
	return ok && constantString(k) == "()"
}

// looksUp: the function returns what a captured map has for its argument, without its suffix if trimmed; the captured variable.
func looksUp(fn *ssa.Function, trimmed bool) *ssa.FreeVar {
	if fn == nil || len(fn.Params) != 1 {
		return nil
	}
	var fv *ssa.FreeVar
	n := 0
	var ok func(v ssa.Value, seen map[ssa.Value]bool) bool
	ok = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch u := v.(type) {
		case *ssa.Phi:
			for _, e := range u.Edges {
				if !ok(e, seen) {
					return false
				}
			}
			return true
		case *ssa.Extract:
			return ok(u.Tuple, seen)
		case *ssa.Lookup:
			m := u.X
			if ld, isL := m.(*ssa.UnOp); isL && ld.Op == token.MUL {
				m = ld.X
			}
			f, isF := m.(*ssa.FreeVar)
			if !isF || fv != nil && fv != f || (trimmed || u.Index != ssa.Value(fn.Params[0])) && !isTrim(u.Index, fn.Params[0]) {
				return false
			}
			fv = f
			n++
			return true
		case *ssa.Parameter:
			return true // not in the map
		}
		return false
	}
	for _, b := range fn.Blocks {
		if ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && !ok(ret.Results[0], map[ssa.Value]bool{}) {
			return nil
		}
	}
	if n == 0 {
		return nil
	}
	return fv
}

func (c *Ctx) dataKeySubstitution(rule, callRule string, r *trxRoles) {
	p := c.P
	keys, gen := p.Field("data", "Scope", "Keys"), p.Field("data", "Key", "Generator")
	mk := p.Func("data", "", "Make")
	if keys == nil || gen == nil || mk == nil {
		c.Missing(rule, "data.Scope.Keys, data.Key.Generator, data.Make")
		return
	}
	isCalls := func(f *ssa.Function) bool {
		sg := f.Signature
		if fnPkgPath(f) != modPath+"/trx" || sg.Recv() != nil || sg.Params().Len() != 1 || sg.Results().Len() != 1 {
			return false
		}
		return sg.Params().At(0).Type().String() == "[]string" && sg.Results().At(0).Type().String() == "[]byte"
	}
	x := NewExec(p, r.stmts)
	x.Inline = func(f *ssa.Function) bool {
		return f != r.stmts && fnPkgPath(f) == modPath+"/trx" && !p.Reach(f)[r.stmts] && !isCalls(f) && f.Parent() == nil
	}
	x.Keep = func(f *Val) bool { return false }
	x.Untrack = func(a *Val) bool {
		rt := rootOf(a)
		return rt.Op != "alloc" || rt.T == nil || namedOf(rt.T) != nil && a.Op == "field" && a.storedField() != r.field["Inputs"] && a.storedField() != r.field["Prepare"]
	}
	pr := c.pathRule(rule, x)
	// A: inputs stored; suffixes trimmed; round of the loop over inputs; all formats known; prepared 1 yes 2 no; no keys; calls stored; copy
	const aIn, aTrim, aRound, aAll, aPrep, aNone, aCalls, aCopy = 0, 1, 2, 3, 4, 5, 6, 7
	// RV: 0 data keys, 1 text they are from, 2 map of formats, 3 format, 4 its generator, 5 text without suffixes, 6 query, 7 calls, 8 key the generator is made for
	funcs := map[*ssa.Function]bool{}
	queries := 0
	isKeyElem := func(s *State, v *Val) bool {
		if s.RV[0] == nil || v == nil {
			return false
		}
		isElem := func(t *Val) bool {
			return t.Op == "elem" && (t.Args[0] == s.RV[0] || loadsField(t.Args[0], r.field["Inputs"]))
		}
		return v.find(func(t *Val) bool { return isElem(t) || x.wasOf[t].find(isElem) != nil }) != nil
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		if s.A[aNone] == 3 {
			return
		}
		switch e.Kind {
		case EvRet:
			re := (*regexp.Regexp)(nil)
			if strings.HasPrefix(e.Callee, "(*regexp.Regexp)") {
				re = p.regexpOf(e)
			}
			switch {
			case e.Target == r.stmts && !e.Inlined:
				s.A[aCopy] = 1
			case e.Callee == "(*regexp.Regexp).FindAllString":
				if k, ok := e.Args[2].constInt(); re != nil && wholeKeys(re) && ok && k < 0 {
					s.RV[0], s.RV[1], s.RV[5] = e.Res[0], e.Args[1], nil
					s.A[aTrim], s.A[aAll], s.A[aRound], s.A[aNone] = 0, 0, 0, 0
				}
			case e.Callee == "(*regexp.Regexp).ReplaceAllStringFunc":
				cl := e.Args[2]
				if cl.Op != "closure" && cl.Op != "func" {
					return
				}
				switch {
				case re != nil && (explicitKeys(re) || wholeKeys(re)) && trimsSuffix(cl.Fn):
					if e.Args[1] == s.RV[1] {
						s.RV[5] = e.Res[0]
					}
				case re != nil && wholeKeys(re) && s.A[aIn] == 1 && (e.Args[1] == s.RV[5] || e.Args[1] == s.RV[1]):
					fv := looksUp(cl.Fn, e.Args[1] != s.RV[5])
					if fv == nil {
						pr.fail(s, e, "replacement", "a data key is not replaced by what belongs to the whole key")
						return
					}
					for i, f := range cl.Fn.FreeVars {
						if f == fv && i < len(cl.Args) {
							m := cl.Args[i]
							if _, isP := m.T.(*types.Pointer); isP || m.Op == "alloc" {
								m = x.Load(s, m, deref(f.Type()))
							}
							if m != s.RV[2] {
								pr.fail(s, e, "replacement", "data keys are not replaced by the formats of the inputs")
							}
						}
					}
					if s.A[aAll] == 0 {
						pr.fail(s, e, "formats", "a data key can have no format, or that of another statement")
					}
					s.RV[6] = e.Res[0]
				}
			case e.Target != nil && isCalls(e.Target):
				if e.Args[0] == s.RV[0] || loadsField(e.Args[0], r.field["Inputs"]) {
					funcs[e.Target] = true
					s.RV[7] = e.Res[0]
					if s.A[aTrim] != 0 {
						pr.fail(s, e, "calls", "which inputs are called explicitly is decided after the suffixes are removed")
					}
				}
			case strings.HasSuffix(e.Callee, "Generator.Format"):
				s.RV[3], s.RV[4] = e.Res[1], e.Args[0]
				pr.obl(e, "format")
				g := e.Args[0]
				if g.isNil() {
					return // panics
				}
				byKey := g.find(func(t *Val) bool { return t.Op == "lookup" && loadsField(t.Args[0], keys) && isKeyElem(s, t.Args[1]) }) != nil
				if !byKey && !(s.RV[8] != nil && g == s.RV[8]) {
					pr.fail(s, e, "generator", "cannot tell that the format is of the generator of this data key")
				}
			case e.Target == mk:
				if isKeyElem(s, e.Args[1]) {
					s.RV[8] = e.Res[0]
				}
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if loadsField(cond, r.field["Prepare"]) {
				if s.A[aPrep] = 2; taken {
					s.A[aPrep] = 1
				}
			}
			if v := emptyLen(cond, taken); v != nil && v == s.RV[0] {
				s.A[aNone] = 1
			}
			if v := emptyLen(cond, !taken); v != nil && v == s.RV[0] {
				s.A[aNone] = 2
			}
			if cond.Op == "lss" && s.RV[0] != nil && cond.Args[1].Op == "len" && (cond.Args[1].Args[0] == s.RV[0] || loadsField(cond.Args[1].Args[0], r.field["Inputs"])) {
				if s.A[aRound] == 1 {
					s.A[aRound] = 9
				}
				s.RV[3], s.RV[4], s.RV[8], s.A[aPrep] = nil, nil, nil, 0
				switch {
				case taken && s.A[aRound] != 9:
					s.A[aRound] = 1
				case !taken:
					if s.A[aNone] == 2 && s.A[aRound] == 0 {
						s.A[aNone] = 3 // not possible: there are keys
					}
					if s.A[aRound] != 9 && s.RV[2] != nil {
						s.A[aAll] = 1
					}
					s.A[aRound] = 0
				}
			}
		case EvMapUpdate:
			mt, ok := e.Args[0].T, false
			if mt != nil {
				_, ok = mt.Underlying().(*types.Map)
			}
			if !ok || !isString(mt.Underlying().(*types.Map).Elem()) || e.Args[0].Op == "load" {
				return
			}
			if !isKeyElem(s, e.Args[1]) {
				return
			}
			pr.obl(e, "input")
			s.RV[2] = e.Args[0]
			if s.A[aRound] == 1 {
				s.A[aRound] = 2
			}
			prep := s.A[aPrep]
			if s.RV[9] != nil {
				if v, ok := x.Ask(s, x.Load(s, x.T.fieldAddr(s.RV[9], r.field["Prepare"]), types.Typ[types.Bool])); ok {
					if prep = 2; v {
						prep = 1
					}
				}
			}
			if k, ok := e.Val.constStr(); ok {
				if k != "?" {
					pr.fail(s, e, "placeholder", "a data key is replaced by "+k)
				} else if prep != 1 {
					pr.fail(s, e, "placeholder", "a data key of a statement that is not prepared is replaced by a placeholder")
				}
				return
			}
			if prep != 2 {
				pr.fail(s, e, "placeholder", "a data key of a prepared statement is not replaced by a placeholder")
			}
			if e.Val != s.RV[3] {
				pr.fail(s, e, "format", "a data key is not replaced by the format of its generator")
			}
		case EvStore:
			f := e.Addr.storedField()
			switch {
			case f == r.field["Inputs"]:
				pr.obl(e, "inputs")
				if e.Raw != s.RV[0] {
					pr.fail(s, e, "inputs", "the inputs are not all data keys found in the text, in order")
				}
				s.A[aIn], s.RV[9] = 1, e.Addr.Args[0]
			case f == r.field["Calls"]:
				if e.Raw != s.RV[7] {
					pr.fail(s, e, "calls", "cannot tell which inputs are called explicitly")
				}
				s.A[aCalls] = 1
			case e.Addr.Op == "elem" && isKeyElem(s, e.Addr):
				s.A[aTrim] = 1
				same := x.T.app("elem", e.Addr.Args[0], e.Addr.Args[1])
				isSame := func(t *Val) bool { return t == same }
				k := false
				e.Raw.find(func(t *Val) bool {
					if s, ok := t.constStr(); ok && s == "()" {
						k = true
					}
					return false
				})
				if e.Raw.find(func(t *Val) bool { return t == same || x.wasOf[t].find(isSame) != nil }) == nil || !k {
					pr.fail(s, e, "suffix", "a data key is changed other than by removing its call suffix")
				}
			case f == r.field["Query"]:
				queries++
				pr.obl(e, "query")
				switch {
				case s.RV[6] != nil && e.Raw == s.RV[6]:
					if s.A[aIn] == 0 {
						pr.fail(s, e, "inputs", "the statement has no inputs for its data keys")
					}
					if s.A[aCalls] == 0 {
						pr.fail(s, e, "calls", "which inputs are called explicitly is not stored")
					}
					if s.A[aTrim] == 0 {
						pr.fail(s, e, "suffix", "call suffixes are not removed from the data keys")
					}
				case s.RV[1] != nil && e.Raw == s.RV[1] && s.A[aNone] == 1:
				default:
					pr.fail(s, e, "query", "cannot tell that every whole data key of the text, and nothing else, is replaced")
				}
			}
		}
	}
	x.Run(nil, nil)
	c.Require(rule, queries, 2, "queries stored")
	c.finish(rule, x)

	for f := range funcs {
		c.Fn(f)
		c.Obl(callRule, shortFn(f))
		if why := p.callsBySuffix(f); why != "" {
			c.Fail(callRule, shortFn(f), f.Pos(), why)
		}
	}
	if len(funcs) == 0 {
		c.Missing(callRule, "function that tells which inputs are called")
	}
}

// callsBySuffix: one byte per key, 1 exactly if the key has the suffix.
func (p *Prog) callsBySuffix(f *ssa.Function) string {
	keys := ssa.Value(f.Params[0])
	var res ssa.Value
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if res != nil && res != ret.Results[0] {
				return "cannot tell what is returned"
			}
			res = ret.Results[0]
		}
	}
	ms, ok := res.(*ssa.MakeSlice)
	if !ok || isLen(ms.Len) != keys {
		return "not one entry per data key is returned"
	}
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || ia.X != ssa.Value(ms) {
				continue
			}
			n++
			if !isConstInt(st.Val, 1) {
				return "an entry is not 1"
			}
			// the block is entered on the true side of HasSuffix(keys[i], "()")
			okIf := false
			for d, at := b.Idom(), b; d != nil; at, d = d, d.Idom() {
				iff, isIf := d.Instrs[len(d.Instrs)-1].(*ssa.If)
				if !isIf || len(at.Preds) != 1 || at.Preds[0] != d {
					continue
				}
				call, isC := iff.Cond.(*ssa.Call)
				if !isC {
					continue
				}
				if calleeName(&call.Call) != "strings.HasSuffix" || d.Succs[0] != at {
					return "an entry is 1 for a data key without the call suffix"
				}
				k, isK := call.Call.Args[1].(*ssa.Const)
				u, isU := call.Call.Args[0].(*ssa.UnOp)
				if !isK || constantString(k) != "()" || !isU {
					return "an entry is 1 for a data key without the call suffix"
				}
				ka, isA := u.X.(*ssa.IndexAddr)
				if !isA || ka.X != keys || ka.Index != ia.Index {
					return "an entry depends on another data key"
				}
				okIf = true
				// every key is looked at
				loops := p.loopsOf(d)
				if len(loops) != 1 {
					return "cannot tell that every data key is looked at"
				}
				lim, idx, first, why := indexLoop(loops[0])
				if why != "" || first != 0 || isLen(lim) != keys && !samePath(lim, ms.Len) || idx != ia.Index {
					return "not every data key is looked at"
				}
				for _, pr := range loops[0].Preds {
					if loopBody(loops[0])[pr] && !d.Dominates(pr) {
						return "not every data key is looked at"
					}
				}
			}
			if !okIf {
				return "an entry is 1 for a data key without the call suffix"
			}
		}
	}
	if n == 0 {
		return "no entry is ever 1"
	}
	return ""
}

// generatorFormats compares Format and Values of every generator.
func (c *Ctx) generatorFormats(rule string) {
	p := c.P
	iface := p.Type("data", "Generator")
	if iface == nil {
		c.Missing(rule, "data.Generator")
		return
	}
	n := 0
	for _, t := range p.implTypes(iface) {
		obj := t.Obj()
		rel := strings.TrimPrefix(strings.TrimPrefix(obj.Pkg().Path(), modPath), "/")
		format, values := p.Func(rel, obj.Name(), "Format"), p.Func(rel, obj.Name(), "Values")
		if format == nil || values == nil || format.Blocks == nil {
			continue
		}
		if wrapsGenerator(t, iface) {
			continue // passes on what another generator says
		}
		n++
		c.Fn(format, values)
		c.Obl(rule, obj.Name())
		if why := p.formatAgrees(format, values); why != "" {
			c.Fail(rule, shortFn(format), format.Pos(), why)
		}
	}
	c.Require(rule, n, 8, "data generators")
}

func wrapsGenerator(t *types.Named, iface *types.Named) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if namedOf(st.Field(i).Type()) == iface {
			return true
		}
	}
	return false
}

// implTypes: the named types that implement an interface, themselves or by pointer.
func (p *Prog) implTypes(iface *types.Named) []*types.Named {
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*types.Named
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}
			if types.Implements(nt, it) || types.Implements(types.NewPointer(nt), it) {
				out = append(out, nt)
			}
		}
	}
	return out
}

func (p *Prog) formatAgrees(format, values *ssa.Function) string {
	type vals struct {
		n    int64  // number, -1 if as many as a field is long
		fld  string // that field
		kind string // of the elements: int, string, any
	}
	var collect func(v ssa.Value, seen map[ssa.Value]bool) ([]vals, string)
	elemKind := func(addr ssa.Value) (string, string) {
		kind := ""
		for _, r := range *addr.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, w := range *ia.Referrers() {
				st, ok := w.(*ssa.Store)
				if !ok {
					continue
				}
				k := "any"
				if mi, ok := st.Val.(*ssa.MakeInterface); ok {
					if b, ok := mi.X.Type().Underlying().(*types.Basic); ok {
						switch {
						case b.Info()&types.IsInteger != 0:
							k = "int"
						case b.Info()&types.IsString != 0:
							k = "string"
						case b.Info()&types.IsFloat != 0:
							k = "float"
						}
					}
				}
				if kind != "" && kind != k {
					return "", "its values are of different kinds"
				}
				kind = k
			}
		}
		return kind, ""
	}
	lenField := func(v ssa.Value) string {
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
		}
		if s := isLen(v); s != nil {
			if f := loadOfField(s); f != nil {
				return f.Name()
			}
		}
		return ""
	}
	collect = func(v ssa.Value, seen map[ssa.Value]bool) ([]vals, string) {
		if seen[v] {
			return nil, ""
		}
		seen[v] = true
		switch u := v.(type) {
		case *ssa.Const:
			return []vals{{n: 0}}, ""
		case *ssa.Phi:
			var out []vals
			for _, e := range u.Edges {
				o, why := collect(e, seen)
				if why != "" {
					return nil, why
				}
				out = append(out, o...)
			}
			return out, ""
		case *ssa.Slice:
			a, ok := u.X.(*ssa.Alloc)
			if !ok {
				return nil, "cannot tell how many values it returns"
			}
			arr, ok := deref(a.Type()).Underlying().(*types.Array)
			if !ok {
				return nil, "cannot tell how many values it returns"
			}
			n := arr.Len()
			if u.High != nil {
				k, ok := u.High.(*ssa.Const)
				if !ok {
					return nil, "cannot tell how many values it returns"
				}
				n = k.Int64()
			}
			k, why := elemKind(a)
			return []vals{{n: n, kind: k}}, why
		case *ssa.MakeSlice:
			k, why := elemKind(u)
			if c, ok := u.Len.(*ssa.Const); ok {
				return []vals{{n: c.Int64(), kind: k}}, why
			}
			if f := lenField(u.Len); f != "" {
				return []vals{{n: -1, fld: f, kind: k}}, why
			}
		case *ssa.Call:
			f := u.Call.StaticCallee()
			if f != nil && f.Blocks != nil && strings.HasPrefix(fnPkgPath(f), modPath) {
				var out []vals
				for _, b := range f.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						o, why := collect(ret.Results[0], seen)
						if why != "" {
							return nil, why
						}
						out = append(out, o...)
					}
				}
				return out, ""
			}
		}
		return nil, "cannot tell how many values it returns"
	}
	var all []vals
	for _, b := range values.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			o, why := collect(ret.Results[0], map[ssa.Value]bool{})
			if why != "" {
				return why
			}
			all = append(all, o...)
		}
	}
	for _, b := range format.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		var fmts []string
		var strs func(v ssa.Value, seen map[ssa.Value]bool) bool
		strs = func(v ssa.Value, seen map[ssa.Value]bool) bool {
			if seen[v] {
				return true
			}
			seen[v] = true
			switch u := v.(type) {
			case *ssa.Const:
				fmts = append(fmts, constantString(u))
				return true
			case *ssa.Phi:
				for _, e := range u.Edges {
					if !strs(e, seen) {
						return false
					}
				}
				return true
			}
			return false
		}
		if !strs(ret.Results[1], map[ssa.Value]bool{}) {
			return "its format is not constant"
		}
		for _, v := range all {
			if k, ok := ret.Results[0].(*ssa.Const); ok {
				if v.n != k.Int64() {
					return "it does not return as many values as its format says"
				}
			} else if f := lenField(ret.Results[0]); f == "" || v.n != -1 || f != v.fld {
				return "it does not return as many values as its format says"
			}
			for _, f := range fmts {
				if v.n == 0 && f == "" {
					continue
				}
				verb := strings.Trim(f, "'\"")
				quoted := verb != f
				switch {
				case verb == "%d" && v.kind == "int" && !quoted:
				case verb == "%s" && v.kind == "string" && quoted:
				case verb == "%v" && (v.kind == "any" || v.kind == "int"):
				case verb == "%v" && v.kind == "string" && quoted:
				case verb == "%f" && v.kind == "float" && !quoted:
				default:
					// a column has a value of any kind or text
					if verb == "%v" && v.kind == "string" && anyKind(values) {
						continue
					}
					return "it prints " + v.kind + " values as " + f
				}
			}
		}
	}
	if len(all) == 0 {
		return "it never returns values"
	}
	return ""
}

// anyKind: some value returned can be of any kind.
func anyKind(values *ssa.Function) bool {
	for _, b := range values.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if _, ok := st.Val.(*ssa.MakeInterface); !ok && types.IsInterface(st.Val.Type()) {
					return true
				}
			}
		}
	}
	return false
}

// clientValues: the values of a statement.
func (c *Ctx) clientValues(rule string) {
	a := clientAnchors(c, rule)
	if a == nil {
		return
	}
	p := c.P
	var values *types.Var
	if n := p.Type("client", "Client"); n != nil {
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if s := st.Field(i).Type().String(); s == "[][]interface{}" || s == "[][]any" {
				values = st.Field(i)
			}
		}
	}
	if values == nil {
		c.Missing(rule, "values of a client ([][]interface{})")
		return
	}
	isInput := func(cc *ssa.CallCommon) bool {
		return !cc.IsInvoke() && cc.StaticCallee() == nil && isNamed(cc.Value.Type(), modPath+"/data", "ValueFunc")
	}
	// where values are generated
	sites := 0
	for fn := range p.Reach(a.Run) {
		if fnPkgPath(fn) != modPath+"/client" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !isInput(&call.Call) {
					continue
				}
				sites++
				c.Obl(rule, p.Pos(call.Pos())+" generated")
				if why := p.inputLoop(call, a.Inputs, values); why != "" {
					c.Fail(rule, shortFn(fn)+":generated", call.Pos(), why)
				}
			}
		}
	}
	c.Require(rule, sites, 1, "calls that generate values")

	x := c.newClientExec(a, func(in ssa.Instruction) bool {
		cl, ok := in.(ssa.CallInstruction)
		return ok && (isInput(cl.Common()) || sqlKind(calleeName(cl.Common())) == "stmt" || sqlKind(calleeName(cl.Common())) == "text")
	})
	x.Keep = func(f *Val) bool { return false }
	x.Forget = notErr
	pr := c.pathRule(rule, x)
	execs := 0
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Op != "lss" || cond.Args[1].Op != "len" {
				return
			}
			f, base := cond.Args[1].Args[0].loadedField()
			if f != a.Inputs || base == nil || base.Op != "elem" {
				return
			}
			if s.RV[0] = nil; !taken { // all inputs are generated
				s.RV[0], s.A[0] = base.Args[1], 1
			}
		case EvCall:
			op := a.sqlOp(x, e)
			if op == nil || op.kind != "exec" {
				return
			}
			execs++
			pr.obl(e, "executed")
			if s.A[0] != 1 || s.RV[0] == nil {
				pr.fail(s, e, "generated", "a statement is executed with values that were generated for an execution before")
			} else if op.Idx != s.RV[0] {
				pr.fail(s, e, "generated", "a statement is executed with values that were generated for another one")
			}
			s.A[0], s.RV[0] = 0, nil
			from := e.Args[len(e.Args)-1]
			if op.Query != nil {
				from = op.Query
			}
			v := from.find(func(t *Val) bool {
				if t.Op != "load" || t.Args[0].Op != "elem" {
					return false
				}
				f, _ := t.Args[0].Args[0].loadedField()
				return f == values
			})
			switch {
			case v == nil && op.Query != nil && len(e.Args) > 3 && op.Query.Op == "load":
				pr.fail(s, e, "values", "cannot tell which values a statement is executed with")
			case v == nil:
				pr.fail(s, e, "values", "a statement is executed without its values")
			case v.Args[0].Args[1] != op.Idx:
				pr.fail(s, e, "values", "a statement is executed with the values of another one")
			}
		}
	}
	x.Run(nil, nil)
	c.Require(rule, execs, 4, "executions")
	c.finish(rule, x)

	// room for the values of every statement
	n := 0
	for _, fn := range p.FuncsOf("client") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || loadOfField(ia.X) != values {
					continue
				}
				n++
				c.Obl(rule, p.Pos(st.Pos())+" room")
				mk, ok := st.Val.(*ssa.MakeSlice)
				in := p.Field("trx", "Statement", "Inputs")
				if !ok || isLen(mk.Len) == nil || loadOfField(isLen(mk.Len)) != in {
					c.Fail(rule, shortFn(fn)+":room", st.Pos(), "there is not room for one value per input")
				}
			}
		}
	}
	c.Require(rule, n, 1, "values allocated")
}

// inputLoop: the call is made for every input of a statement in order, and its values are put behind each other.
func (p *Prog) inputLoop(call *ssa.Call, inputs, values *types.Var) string {
	u, ok := call.Call.Value.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return "cannot tell which input is called"
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok || loadOfField(ia.X) != inputs {
		return "cannot tell which input is called"
	}
	loops := p.loopsOf(call.Block())
	if len(loops) == 0 {
		return "inputs are not called in a loop"
	}
	h := loops[len(loops)-1]
	lim, idx, first, why := indexLoop(h)
	if why != "" {
		return "not every input is called: " + why
	}
	if first != 0 || isLen(lim) == nil || loadOfField(isLen(lim)) != inputs || ia.Index != idx {
		return "not every input is called once, in order"
	}
	for _, pr := range h.Preds {
		if loopBody(h)[pr] && !call.Block().Dominates(pr) {
			return "not every input is called"
		}
	}
	// where the values go
	for _, w := range *call.Referrers() {
		cp, ok := w.(*ssa.Call)
		if !ok {
			continue
		}
		bi, ok := cp.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "copy" || cp.Call.Args[1] != ssa.Value(call) {
			continue
		}
		sl, ok := cp.Call.Args[0].(*ssa.Slice)
		if !ok || sl.Low == nil || sl.High != nil {
			return "values do not follow those of the inputs before"
		}
		ld, ok := sl.X.(*ssa.UnOp)
		if !ok {
			return "cannot tell where the values are put"
		}
		va, ok := ld.X.(*ssa.IndexAddr)
		if !ok || loadOfField(va.X) != values {
			return "cannot tell where the values are put"
		}
		// the statement is the same
		if da, ok := ia.X.(*ssa.UnOp).X.(*ssa.FieldAddr); ok {
			if el, ok := da.X.(*ssa.IndexAddr); !ok || !samePath(el.Index, va.Index) {
				return "values are put where those of another statement belong"
			}
		}
		ph, ok := sl.Low.(*ssa.Phi)
		if !ok || ph.Block() != h {
			return "values do not follow those of the inputs before"
		}
		for i, e := range ph.Edges {
			if !loopBody(h)[h.Preds[i]] {
				if !isConstInt(e, 0) {
					return "the first value is not put first"
				}
				continue
			}
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD || !(bo.X == ssa.Value(ph) && bo.Y == ssa.Value(cp) || bo.Y == ssa.Value(ph) && bo.X == ssa.Value(cp)) {
				return "values do not follow those of the inputs before"
			}
		}
		return ""
	}
	return "values of an input are dropped"
}

var _ = constant.Int
