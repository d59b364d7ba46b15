package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loadSequence follows config.Load and checks what happens to each stage. Only violations of
// the categories wanted are reported, under the rule given for each.
//
//	vars      substituted without error before it is validated and returned
//	defaults  base, --param and command line applied, in this order, before substituting
//	valid     validated without error before it is returned
//	strict    decoded strictly, without error
//	base      the base applied is the one of the stage's directory
func (c *Ctx) loadSequence(rules map[string]string) {
	p := c.P
	load := p.Func("config", "", "Load")
	stage := p.Type("config", "Stage")
	base := p.Type("config", "Base")
	any := ""
	for _, r := range rules {
		any = r
	}
	if load == nil || stage == nil || base == nil {
		c.Missing(any, "config.Load, config.Stage, config.Base")
		return
	}
	c.Fn(load)
	x := NewExec(p, load)
	methods := map[string]*ssa.Function{}
	for _, m := range []string{"With", "CommandLine", "Vars", "Validate"} {
		f := p.Func("config", "Stage", m)
		if f == nil {
			c.Missing(any, "config.Stage."+m)
			return
		}
		methods[m] = f
	}
	x.Inline = func(f *ssa.Function) bool {
		for _, m := range methods {
			if m == f {
				return false
			}
		}
		return fnPkgPath(f) == modPath+"/config" && f.Name() != "FileExists" && f.Name() != "read" && fnPkgPath(f) == fnPkgPath(load)
	}
	x.BlockEvents = true
	prs := map[string]*pathRule{}
	for k, r := range rules {
		prs[k] = c.pathRule(r, x)
	}
	fail := func(s *State, e *Event, cat, what, msg string) {
		if pr := prs[cat]; pr != nil {
			pr.fail(s, e, what, msg)
		}
	}
	obl := func(e *Event, cat, what string) {
		if pr := prs[cat]; pr != nil {
			pr.obl(e, what)
		}
	}
	const (
		aDecoded = iota
		aWith
		aParams // --param loop passed
		aCL
		aVars
		aValid
		aPend // 1 error pending, 2 known to be an error
		aBase // 1 base decoded in this round
		aErrK // which error: 1 vars 2 valid 3 strict
	)
	cat := []string{"", "vars", "valid", "strict"}
	reset := func(s *State) {
		for k := aDecoded; k <= aValid; k++ {
			s.A[k] = 0
		}
		s.A[aBase] = 0
		s.RV[1] = nil
	}
	stageOf := func(v *Val) bool { return ptrTo(v.T, stage) }
	_ = stageOf
	nParam := 0
	// loops over stage files: contain the call of Vars
	outer := map[*ssa.BasicBlock]bool{}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvCall:
			if s.A[aPend] == 1 && (e.Target == methods["Vars"] || e.Target == methods["Validate"] || strings.HasSuffix(e.Callee, "UnmarshalStrict")) {
				fail(s, e, cat[s.A[aErrK]], "unchecked", "an error is not checked before going on")
			}
			switch {
			case e.Target == methods["With"]:
				obl(e, "defaults", "With")
				if s.A[aDecoded] == 0 {
					fail(s, e, "defaults", "With early", "the base is applied before the stage file was read: values of the stage file cannot be told from those not set")
				}
				if s.A[aCL] != 0 {
					fail(s, e, "defaults", "With late", "the base is applied after the command line options")
				}
				if s.A[aVars] != 0 {
					fail(s, e, "defaults", "With after Vars", "the base is applied after substituting")
					fail(s, e, "vars", "With after Vars", "the base is applied after substituting")
				}
				s.A[aWith] = 1
				obl(e, "base", "base")
				b := e.Args[1]
				switch {
				case s.A[aBase] != 0:
					if s.RV[1] == nil || b != x.Load(s, s.RV[1], base) {
						fail(s, e, "base", "base", "the base just read is not the one applied to the stage")
					}
				}
			case e.Target == methods["CommandLine"]:
				obl(e, "defaults", "CommandLine")
				if s.A[aWith] == 0 {
					fail(s, e, "defaults", "CommandLine early", "command line options are applied before the base")
				}
				if s.A[aVars] != 0 {
					fail(s, e, "vars", "CommandLine after Vars", "command line options are applied after substituting: references in them stay")
				}
				if e.Args[1] != x.ArgVal(2) || e.Args[2] != x.ArgVal(3) {
					fail(s, e, "defaults", "CommandLine args", "the options applied are not --dsn and --database")
				}
				s.A[aCL] = 1
			case e.Target == methods["Vars"]:
				obl(e, "vars", "Vars")
				if s.A[aValid] != 0 {
					fail(s, e, "vars", "Vars late", "the stage is validated before its settings are substituted")
				}
				if s.A[aWith] == 0 || s.A[aCL] == 0 {
					fail(s, e, "defaults", "Vars early", "settings are substituted before base and command line options are applied")
				}
				if s.A[aParams] == 0 {
					fail(s, e, "defaults", "params", "settings are substituted before --param is applied")
				}
				s.A[aVars] = 1
			case e.Target == methods["Validate"]:
				obl(e, "valid", "Validate")
				if s.A[aVars] == 0 {
					fail(s, e, "vars", "Validate early", "the stage is validated before its settings are substituted")
				}
				s.A[aValid] = 1
			case e.Callee == "builtin append":
				sl, ok := e.Args[0].T.(types.Type)
				if e.Args[0].T == nil || !ok {
					return
				}
				st, ok := sl.Underlying().(*types.Slice)
				if !ok || !types.Identical(st.Elem(), stage) {
					return
				}
				obl(e, "valid", "returned")
				if s.A[aVars] == 0 {
					fail(s, e, "vars", "not substituted", "a stage is returned whose settings were not substituted")
				}
				if s.A[aValid] == 0 {
					fail(s, e, "valid", "not validated", "a stage is returned that was not validated")
				}
				if s.A[aPend] != 0 {
					fail(s, e, cat[s.A[aErrK]], "in spite of error", "a stage is returned although there was an error")
				}
				if s.A[aWith] == 0 || s.A[aCL] == 0 {
					fail(s, e, "defaults", "not applied", "a stage is returned without base and command line options")
				}
			case strings.Contains(e.Callee, "yaml"):
				n := e.Callee[strings.LastIndexByte(e.Callee, '.')+1:]
				if n == "Unmarshal" || strings.Contains(n, "Decode") {
					obl(e, "strict", n)
					fail(s, e, "strict", "not strict", "a configuration file is decoded without rejecting unknown keys")
				}
			}
		case EvRet:
			k := int16(0)
			switch {
			case e.Target == methods["Vars"]:
				k = 1
			case e.Target == methods["Validate"]:
				k = 2
			case strings.HasSuffix(e.Callee, ".UnmarshalStrict"):
				k = 3
				obl(e, "strict", "UnmarshalStrict")
				o := e.Args[1]
				if o.Op == "iface" {
					o = o.Args[0]
				}
				if ptrTo(o.T, base) {
					s.A[aBase] = 1
					s.RV[1] = o
				} else {
					s.A[aDecoded] = 1
					if s.A[aWith] != 0 {
						fail(s, e, "defaults", "With early", "the stage file is read after the base was applied")
					}
				}
			}
			if k != 0 && len(e.Res) == 1 {
				s.A[aPend], s.A[aErrK] = 1, k
				s.RV[0] = e.Res[0]
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Op == "eq" && s.A[aPend] == 1 {
				for i := 0; i < 2; i++ {
					if cond.Args[i] == s.RV[0] && cond.Args[1-i].isNil() {
						if taken {
							s.A[aPend] = 0
						} else {
							s.A[aPend] = 2
						}
					}
				}
			}
		case EvMapUpdate:
			m := e.Args[0]
			f, b := m.loadedField()
			if f != nil && f.Name() == "Params" && b != nil {
				nParam++
				obl(e, "defaults", "--param")
				if s.A[aWith] == 0 {
					fail(s, e, "defaults", "--param early", "--param is applied before the base")
				}
				if s.A[aVars] != 0 {
					fail(s, e, "vars", "--param late", "--param is applied after substituting")
				}
			}
		case EvBlock:
			// the loop that applies --param
			if e.From != nil && e.From != e.Block {
				if body := loopBody(e.From); body != nil && !body[e.Block] {
					if setsParams(body) && s.A[aWith] != 0 {
						s.A[aParams] = 1
					}
				}
			}
			if body := loopBody(e.Block); body != nil {
				if _, ok := outer[e.Block]; !ok {
					outer[e.Block] = callsIn(body, methods["Vars"], 0)
				}
				if outer[e.Block] {
					if e.Back && s.A[aValid] == 0 {
						fail(s, e, "valid", "skipped", "a stage file can be skipped")
					}
					reset(s)
				}
			}
		case EvReturn:
			if e.Fn != load || len(e.Res) != 2 {
				return
			}
			nl, known := x.IsNil(s, e.Res[1])
			if s.A[aPend] != 0 && !(known && !nl) && e.Res[1] != s.RV[0] {
				fail(s, e, cat[s.A[aErrK]], "error lost", "there was an error but Load returns without one")
			}
		}
	}
	x.Run(nil, nil)
	for _, r := range rules {
		c.finish(r, x)
		break
	}
	if r, ok := rules["defaults"]; ok {
		c.Require(r, nParam, 1, "changes of parameters by --param")
	}
}

// setsParams: the loop stores into a map in field Params.
func setsParams(body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok {
				if u, ok := mu.Map.(*ssa.UnOp); ok {
					if f := fieldOf(u.X); f != nil && f.Name() == "Params" {
						return true
					}
				}
			}
		}
	}
	return false
}

// callsIn: the blocks call fn, possibly through functions of its package.
func callsIn(body map[*ssa.BasicBlock]bool, fn *ssa.Function, depth int) bool {
	for b := range body {
		for _, in := range b.Instrs {
			cc, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			t := cc.Common().StaticCallee()
			if t == fn {
				return true
			}
			if t != nil && depth < 3 && fnPkgPath(t) == fnPkgPath(fn) {
				all := map[*ssa.BasicBlock]bool{}
				for _, bb := range t.Blocks {
					all[bb] = true
				}
				if callsIn(all, fn, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// varsFunction checks the substitution in one string.
func (c *Ctx) varsFunction(UN, IN string, fn *ssa.Function) {
	p := c.P
	c.Fn(fn)
	// static: lookups say whether the reference is defined, whole references are replaced
	for f := range p.Reach(fn) {
		if fnPkgPath(f) != modPath+"/config" {
			continue
		}
		if f != fn && f.Parent() != fn && !p.onlyCalledBy(f, fn) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Lookup:
					mt, ok := i.X.Type().Underlying().(*types.Map)
					if !ok || !isString(mt.Elem()) {
						continue
					}
					src := i.X
					if u, ok := src.(*ssa.UnOp); ok {
						src = u.X
					}
					_, isParam := src.(*ssa.Parameter)
					g, isGlobal := src.(*ssa.Global)
					_, isFree := src.(*ssa.FreeVar)
					if isFree && mapMadeIn(src.(*ssa.FreeVar), fn) {
						continue
					}
					if isParam || isFree || isGlobal && g.Pkg != nil {
						c.Obl(UN, fmt.Sprintf("%s lookup", shortFn(f)))
						if !i.CommaOk {
							c.Fail(UN, shortFn(f)+":lookup", i.Pos(), "a parameter is looked up without noticing that it is not defined")
						}
					}
				case *ssa.Call:
					switch n := calleeName(&i.Call); n {
					case "os.Getenv", "os.ExpandEnv", "os.Expand":
						c.Fail(UN, shortFn(f)+":"+n, i.Pos(), n+" does not tell that a variable is not set")
					case "strings.Replace", "strings.ReplaceAll", "strings.NewReplacer":
						c.Fail(IN, shortFn(f)+":"+n, i.Pos(), n+" also replaces references another one is a prefix of")
					case "(*regexp.Regexp).ReplaceAllString":
						c.Fail(IN, shortFn(f)+":"+n, i.Pos(), n+" interprets $ in values")
					case "(*regexp.Regexp).ReplaceAllStringFunc", "(*regexp.Regexp).ReplaceAllLiteralString":
						c.Obl(IN, shortFn(f)+" replacement")
					case "(*regexp.Regexp).FindAllStringSubmatch", "(*regexp.Regexp).FindAllString", "(*regexp.Regexp).FindAllStringSubmatchIndex", "(*regexp.Regexp).FindAllStringIndex":
						c.Obl(IN, shortFn(f)+" matches")
						if k, ok := i.Call.Args[2].(*ssa.Const); !ok || k.Int64() >= 0 {
							c.Fail(IN, shortFn(f)+":matches", i.Pos(), "not all references are looked for")
						}
					}
				}
			}
		}
	}
	x := NewExec(p, fn)
	x.Inline = samePkg("config")
	x.BlockEvents = true
	pu := c.pathRule(UN, x)
	pi := c.pathRule(IN, x)
	found := func(v *Val) (val *Val, ok bool) { // v is the "found" flag of a lookup
		if v.Op == "lookupok" {
			if v.Args[0] == x.ArgVal(1) || v.Args[0].Op == "load" && v.Args[0].Args[0].Op == "global" {
				return v, true
			}
		}
		if v.Op == "sym" && s2(v, "env") {
			return v, true
		}
		return nil, false
	}
	x.Model = func(x *Exec, s *State, e *Event) []*Val {
		if e.Callee == "os.LookupEnv" {
			return []*Val{x.T.app("envval", e.Args[0]), x.symFor(s, s.top(), e.Instr, "env", types.Typ[types.Bool])}
		}
		return nil
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			if e.Callee == "os.LookupEnv" {
				s.RV[2] = e.Args[0]
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if _, ok := found(cond); ok {
				pu.obl(e, "reference")
				if taken {
					s.A[1] = 1 // found, not yet used
				} else {
					s.A[0] = 1
					if cond.Op == "lookupok" {
						s.RV[0] = cond.Args[1]
					} else {
						s.RV[0] = s.RV[2]
					}
				}
			}
		case EvMapUpdate:
			v := e.Val
			if v.Op == "envval" || v.Op == "lookup" {
				s.A[1] = 0
				pi.obl(e, "value")
				k := e.Args[1]
				j, isC := int64(-1), false
				if k.Op == "load" && k.Args[0].Op == "elem" {
					j, isC = k.Args[0].Args[1].constInt()
				}
				if isC && j != 0 {
					pi.fail(s, e, "key", "the value is kept under a part of the reference")
				}
			}
		case EvBlock:
			if e.Back && s.A[1] != 0 {
				pi.fail(s, e, "unused", "a value looked up is not used")
			}
			if e.Back {
				s.A[1] = 0
			}
		case EvReturn:
			if e.Fn != fn || s.A[0] == 0 {
				return
			}
			nl, known := x.IsNil(s, e.Res[1])
			if !known || nl {
				pu.fail(s, e, "undefined", "an undefined reference is not an error")
				return
			}
			if s.RV[0] != nil && !e.Res[1].contains(s.RV[0]) && !sharesSource(e.Res[1], s.RV[0]) {
				pu.fail(s, e, "name", "the error does not name the undefined reference")
			}
		}
	}
	x.Run(nil, nil)
	c.finish(UN, x)
}

func s2(v *Val, pre string) bool {
	return strings.HasPrefix(v.Name, pre) && (len(v.Name) == len(pre) || v.Name[len(pre)] == '.' || v.Name[len(pre)] == '#')
}

// sharesSource: a is computed from something b is computed from, too.
func sharesSource(a, b *Val) bool {
	if b.isConst() {
		return false
	}
	if b.Op == "load" || b.Op == "sym" || b.Op == "lookup" {
		return a.contains(b)
	}
	for _, g := range b.Args {
		if sharesSource(a, g) {
			return true
		}
	}
	return false
}

// mapMadeIn: the captured variable holds a map made in fn.
func mapMadeIn(fv *ssa.FreeVar, fn *ssa.Function) bool {
	mc := fv.Parent()
	k := -1
	for i, f := range mc.FreeVars {
		if f == fv {
			k = i
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(mc) && k >= 0 {
				switch v := m.Bindings[k].(type) {
				case *ssa.MakeMap:
					return true
				case *ssa.Alloc:
					for _, r := range *v.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(v) {
							if _, ok := st.Val.(*ssa.MakeMap); ok {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}
