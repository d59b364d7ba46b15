package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// loop nests

// loopsOf lists the headers of the loops containing b, outermost first.
func (p *Prog) loopsOf(b *ssa.BasicBlock) []*ssa.BasicBlock {
	fn := b.Parent()
	if p.loopCache == nil {
		p.loopCache = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	}
	ls := p.loopCache[fn]
	if ls == nil {
		ls = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		for _, h := range fn.Blocks {
			if body := loopBody(h); body != nil {
				ls[h] = body
			}
		}
		p.loopCache[fn] = ls
	}
	var out []*ssa.BasicBlock
	for h, body := range ls {
		if body[b] {
			out = append(out, h)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if len(ls[out[i]]) != len(ls[out[j]]) {
			return len(ls[out[i]]) > len(ls[out[j]])
		}
		return out[i].Index < out[j].Index
	})
	return out
}

// loopRef is one loop of the current call stack.
type loopRef struct {
	ctx string
	h   *ssa.BasicBlock
}

// LoopPath lists the loops the current point is in, over all frames, outermost first.
func (x *Exec) LoopPath(s *State) []loopRef {
	var out []loopRef
	for _, f := range s.frames {
		for _, h := range x.P.loopsOf(f.block) {
			out = append(out, loopRef{f.ctx, h})
		}
	}
	return out
}

func pathKey(l []loopRef) string {
	k := ""
	for _, r := range l {
		k += fmt.Sprintf("%s:%d/", r.ctx, r.h.Index)
	}
	return k
}

// samePath: two values read the same location (same fields, same indices, same roots).
func samePath(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && x.Op == token.MUL && samePath(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && samePath(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && samePath(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && samePath(x.X, y.X) && samePath(x.Index, y.Index)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	}
	return false
}

// fullRange decides whether the loop with header h visits every element of one slice: an
// induction variable from the first element, step one, the header's comparison with its length
// as the only way out. It returns the slice and the index value used in the body.
func fullRange(h *ssa.BasicBlock) (slice ssa.Value, why string) {
	lim, _, start, why := indexLoop(h)
	if why != "" {
		return nil, why
	}
	if start != 0 {
		return nil, "does not start at the first element"
	}
	if s := isLen(lim); s != nil {
		return s, ""
	}
	return nil, "bound is not a length"
}

// indexLoop describes a loop over the integers start <= idx < lim, step one, left only by its header.
func indexLoop(h *ssa.BasicBlock) (limit, index ssa.Value, first int64, why string) {
	return indexLoopIf(h, nil)
}

// indexLoopIf: as indexLoop, where the loop may also be left from blocks early allows.
func indexLoopIf(h *ssa.BasicBlock, early func(from, to *ssa.BasicBlock) bool) (limit, index ssa.Value, first int64, why string) {
	return countLoop(h, early, false)
}

// countLoop: as indexLoopIf; a loop over start <= idx <= lim counts as one over start-1 <= idx < lim.
func countLoop(h *ssa.BasicBlock, early func(from, to *ssa.BasicBlock) bool, orEqual bool) (limit, index ssa.Value, first int64, why string) {
	body := loopBody(h)
	if body == nil {
		return nil, nil, 0, "not a loop"
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil, 0, "no condition in the loop header"
	}
	for b := range body {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if !body[s] && (early == nil || !early(b, s)) {
				return nil, nil, 0, "left early"
			}
		}
		if len(b.Succs) == 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); !ok {
				return nil, nil, 0, "left early"
			}
		}
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil, 0, "unknown loop condition"
	}
	idx, lim := bo.X, bo.Y
	op := bo.Op
	if op == token.GTR {
		idx, lim, op = lim, idx, token.LSS
	}
	if op == token.GEQ {
		idx, lim, op = lim, idx, token.LEQ
	}
	less := int64(0)
	if op == token.LEQ && orEqual {
		op, less = token.LSS, 1
	}
	if op != token.LSS && op != token.NEQ {
		return nil, nil, 0, "unknown loop condition"
	}
	if op == token.NEQ {
		idx, lim = bo.X, bo.Y
	}
	for _, in := range h.Instrs {
		ph, isP := in.(*ssa.Phi)
		if !isP {
			break
		}
		off := int64(0)
		if b, isB := idx.(*ssa.BinOp); isB && idx != ssa.Value(ph) && b.Op == token.ADD && b.X == ssa.Value(ph) {
			c, isC := b.Y.(*ssa.Const)
			if !isC {
				continue
			}
			off = c.Int64()
		} else if idx != ssa.Value(ph) {
			continue
		}
		start, inc := int64(0), 0
		bad := ""
		for i, e := range ph.Edges {
			if c, isC := e.(*ssa.Const); isC && !h.Dominates(h.Preds[i]) {
				if c.Value == nil || c.Value.Kind() != constant.Int {
					bad = "unknown start"
					break
				}
				start, _ = constant.Int64Val(c.Value)
				continue
			}
			b, isB := e.(*ssa.BinOp)
			if !isB || b.Op != token.ADD || b.X != ssa.Value(ph) || !h.Dominates(h.Preds[i]) {
				bad = "unknown step"
				break
			}
			if c, isC := b.Y.(*ssa.Const); !isC || c.Int64() != 1 {
				bad = "step is not 1"
				break
			}
			inc++
		}
		if bad != "" || inc == 0 {
			if bad == "" {
				bad = "unknown step"
			}
			return nil, nil, 0, bad
		}
		return lim, idx, start + off - less, ""
	}
	return nil, nil, 0, "does not start at the first element"
}

// ---------------------------------------------------------------------------
// webs of values

// web is a union of SSA values carrying one variable through phis, cells, parameters and results.
type web struct {
	parent map[ssa.Value]ssa.Value
}

func (w *web) find(v ssa.Value) ssa.Value {
	if w.parent[v] == nil {
		w.parent[v] = v
	}
	for w.parent[v] != v {
		v = w.parent[v]
	}
	return v
}
func (w *web) union(a, b ssa.Value) {
	if _, ok := a.(*ssa.Const); ok {
		return
	}
	if _, ok := b.(*ssa.Const); ok {
		return
	}
	x, y := w.find(a), w.find(b)
	if x != y {
		w.parent[x] = y
	}
}

func isIntVal(v ssa.Value) bool {
	b, ok := deref(v.Type()).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// intWeb links integer values of the functions fns: a counter is one web.
func (p *Prog) intWeb(fns map[*ssa.Function]bool) *web {
	w := &web{parent: map[ssa.Value]ssa.Value{}}
	for fn := range fns {
		rets := [][]ssa.Value{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Phi:
					if isIntVal(i) {
						for _, e := range i.Edges {
							w.union(i, e)
						}
					}
				case *ssa.BinOp:
					if isIntVal(i) && (i.Op == token.ADD || i.Op == token.SUB) {
						if _, c := i.X.(*ssa.Const); c && i.Op == token.ADD {
							w.union(i, i.Y)
						} else {
							w.union(i, i.X)
						}
					}
				case *ssa.UnOp:
					if i.Op == token.MUL && isIntVal(i) {
						if _, ok := i.X.(*ssa.FieldAddr); !ok {
							w.union(i, i.X)
						}
					}
				case *ssa.Store:
					if isIntVal(i.Val) {
						w.union(i.Val, i.Addr)
					}
				case *ssa.MakeClosure:
					f := i.Fn.(*ssa.Function)
					for j, bnd := range i.Bindings {
						if isIntVal(bnd) {
							w.union(bnd, f.FreeVars[j])
						}
					}
				case *ssa.Return:
					rets = append(rets, i.Results)
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if t := c.Common().StaticCallee(); t != nil && fns[t] {
						for j, a := range c.Common().Args {
							if j < len(t.Params) && isIntVal(a) {
								w.union(a, t.Params[j])
							}
						}
						if cv, ok := in.(*ssa.Call); ok {
							n := t.Signature.Results().Len()
							for _, bb := range t.Blocks {
								if r, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.Return); ok {
									if n == 1 && isIntVal(cv) {
										w.union(cv, r.Results[0])
									}
									if n > 1 && cv.Referrers() != nil {
										for _, ref := range *cv.Referrers() {
											if ex, ok := ref.(*ssa.Extract); ok && isIntVal(ex) && ex.Index < len(r.Results) {
												w.union(ex, r.Results[ex.Index])
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return w
}

// isLen returns x of len(x).
func isLen(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return c.Call.Args[0]
	}
	return nil
}

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	m, ok := constant.Int64Val(c.Value)
	return ok && m == n
}

// callersOf lists the static calls of a function in the repository.
func (p *Prog) callersOf(fn *ssa.Function) []ssa.CallInstruction {
	if p.callIdx == nil {
		p.callIdx = map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if cc, ok := in.(ssa.CallInstruction); ok {
						if t := cc.Common().StaticCallee(); t != nil {
							p.callIdx[t] = append(p.callIdx[t], cc)
						}
					}
				}
			}
		}
	}
	return p.callIdx[fn]
}
