package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// constMap returns the entries of a package-level map that is only written by its initialiser, with constants.
func (p *Prog) constMap(g *ssa.Global) (map[string]*ssa.Const, bool) {
	if m, ok := p.constMaps[g]; ok {
		return m, m != nil
	}
	if p.constMaps == nil {
		p.constMaps = map[*ssa.Global]map[string]*ssa.Const{}
	}
	m := p.readConstMap(g)
	p.constMaps[g] = m
	return m, m != nil
}

func (p *Prog) readConstMap(g *ssa.Global) map[string]*ssa.Const {
	if g.Pkg == nil || g.Pkg.Func("init") == nil {
		return nil
	}
	var mk *ssa.MakeMap
	out := map[string]*ssa.Const{}
	fns := append([]*ssa.Function{g.Pkg.Func("init")}, p.Funcs...)
	for i, fn := range fns {
		if i > 0 && fn == fns[0] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch i := in.(type) {
					case *ssa.Store:
						v, ok := i.Val.(*ssa.MakeMap)
						if !ok || mk != nil || i.Addr != ssa.Value(g) || fn != fns[0] {
							return nil
						}
						mk = v
					case *ssa.UnOp:
						if i.Op != token.MUL {
							return nil
						}
						for _, r := range *i.Referrers() {
							switch r := r.(type) {
							case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
							case *ssa.Call:
								if calleeName(&r.Call) != "builtin len" {
									return nil
								}
							default:
								return nil
							}
						}
					case *ssa.DebugRef:
					default:
						return nil
					}
				}
			}
		}
	}
	if mk == nil {
		return nil
	}
	for _, r := range *mk.Referrers() {
		switch r := r.(type) {
		case *ssa.Store, *ssa.DebugRef:
		case *ssa.MapUpdate:
			k, ok := r.Key.(*ssa.Const)
			v, ok2 := r.Value.(*ssa.Const)
			if !ok || !ok2 || k.Value == nil || r.Map != ssa.Value(mk) {
				return nil
			}
			out[k.Value.ExactString()] = v
		default:
			return nil
		}
	}
	return out
}

// constEntry looks a constant key up in a constant map.
func (x *Exec) constEntry(m ssa.Value, k *Val) (e *ssa.Const, has, ok bool) {
	ld, isL := m.(*ssa.UnOp)
	if !isL {
		return nil, false, false
	}
	g, isG := ld.X.(*ssa.Global)
	if !isG || k.C == nil {
		return nil, false, false
	}
	t, ok := x.P.constMap(g)
	if !ok {
		return nil, false, false
	}
	e, has = t[k.C.ExactString()]
	return e, has, true
}
