package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// loops

// loopBody returns the natural loop of header h (nil if h is not a loop header).
func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			st = append(st, p)
		}
	}
	if len(st) == 0 {
		return nil
	}
	body[h] = true
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if body[b] {
			continue
		}
		body[b] = true
		st = append(st, b.Preds...)
	}
	return body
}

// calls lists the call instructions (call, defer, go) of fn.
func callsOf(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				out = append(out, c)
			}
		}
	}
	return out
}

// reachesCall reports whether fn or anything it may call in the repo calls a function matching name.
func (p *Prog) reachesCall(fn *ssa.Function, match func(name string, c *ssa.CallCommon) bool) bool {
	for f := range p.Reach(fn) {
		for _, c := range callsOf(f) {
			if match(calleeName(c.Common()), c.Common()) {
				return true
			}
		}
	}
	return false
}

// blockReaches reports whether instruction in directly is, or calls code containing, a matching call.
func (p *Prog) instrReaches(in ssa.Instruction, match func(name string, c *ssa.CallCommon) bool) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if match(calleeName(c.Common()), c.Common()) {
		return true
	}
	var roots []*ssa.Function
	if f := c.Common().StaticCallee(); f != nil {
		roots = append(roots, f)
	}
	if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
		roots = append(roots, mc.Fn.(*ssa.Function))
	}
	for _, a := range c.Common().Args {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			roots = append(roots, mc.Fn.(*ssa.Function))
		}
	}
	for _, r := range roots {
		if p.IsRepo(r) && p.reachesCall(r, match) {
			return true
		}
	}
	return false
}

// smallFn reports loop-free functions of few blocks: always worth inlining.
func smallFn(fn *ssa.Function) bool {
	if len(fn.Blocks) > 10 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return true
}

// inlineIf makes an inlining policy: small functions and those reaching interesting calls.
func (p *Prog) inlineIf(match func(name string, c *ssa.CallCommon) bool) func(fn *ssa.Function) bool {
	cache := map[*ssa.Function]bool{}
	return func(fn *ssa.Function) bool {
		if v, ok := cache[fn]; ok {
			return v
		}
		v := smallFn(fn) || p.reachesCall(fn, match)
		cache[fn] = v
		return v
	}
}

// inlineInstr is inlineIf with an instruction predicate.
func (p *Prog) inlineInstr(match func(in ssa.Instruction) bool) func(fn *ssa.Function) bool {
	cache := map[*ssa.Function]bool{}
	return func(fn *ssa.Function) bool {
		if v, ok := cache[fn]; ok {
			return v
		}
		v := smallFn(fn)
		if !v {
			for f := range p.Reach(fn) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if match(in) {
							v = true
						}
					}
				}
			}
		}
		cache[fn] = v
		return v
	}
}

func constIntOf(p *Prog, rel, name string) (int64, bool) {
	pk := p.Pkg(rel)
	if pk == nil {
		return 0, false
	}
	c, ok := pk.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	v, ok := constant.Int64Val(constant.ToInt(c.Val()))
	return v, ok
}

func hasAnyPrefix(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// isField reports a load of field fld.
func isLoadOf(v *Val, fld *types.Var) bool {
	f, _ := v.loadedField()
	return f != nil && f == fld
}

// mentions reports whether v contains a load (or address) of any of the fields.
func mentions(v *Val, flds map[*types.Var]bool) bool {
	return v.find(func(t *Val) bool { return t.Fld != nil && flds[t.Fld] }) != nil
}

func isErrVal(v *Val) bool { return v.T != nil && isErrorType(v.T) }

// keepFacts keeps facts on the fields and nil-tests of errors.
func keepFacts(errs bool, flds ...*types.Var) func(f *Val) bool {
	m := map[*types.Var]bool{}
	for _, f := range flds {
		m[f] = true
	}
	return func(f *Val) bool {
		if errs && f.Op == "eq" && f.Args[1].isNil() && (isErrVal(f.Args[0])) {
			return true
		}
		return mentions(f, m)
	}
}
