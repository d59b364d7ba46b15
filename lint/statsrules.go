package main

import (
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C25"] = ruleC25
}

// elemOf: v is the element (or address of it) at index i of field f of base.
func elemOf(v *Val) (f *types.Var, base, idx *Val) {
	if v == nil {
		return
	}
	if v.Op == "load" {
		v = v.Args[0]
	}
	if v.Op != "elem" {
		return
	}
	if f, base = v.Args[0].loadedField(); f == nil {
		return nil, nil, nil
	}
	return f, base, v.Args[1]
}

// elem2Of: element j of element i of field f.
func elem2Of(v *Val) (f *types.Var, base, i, j *Val) {
	if v == nil {
		return
	}
	if v.Op == "load" {
		v = v.Args[0]
	}
	if v.Op != "elem" || v.Args[0].Op != "load" {
		return
	}
	f, base, i = elemOf(v.Args[0])
	return f, base, i, v.Args[1]
}

// sumOf: v = a + b in any order.
func sumOf(v, a, b *Val) bool {
	if v == nil || !strings.HasPrefix(v.Op, "bin") || v.Op != "bin+" && v.Name != "+" || len(v.Args) != 2 {
		return false
	}
	return v.Args[0] == a && v.Args[1] == b || v.Args[0] == b && v.Args[1] == a
}

func ruleC25(c *Ctx) {
	const RS, CP, CB, RC, AL, CL = "reset", "copy", "combine", "record", "all-instances", "collected"
	c.Rule(RS, "Stats.Reset sets every element of every slice of Stats, and the value of every error code, to zero (or removes it), on every path of loops that visit every element.")
	c.Rule(CP, "Stats.Copy stores, for every slice of Stats and every index, the value of the source at the same index, stores the source's value of every error code, and removes the codes the source does not have.")
	c.Rule(CB, "Stats.Combine adds the source's value at the same index to every element of every counter and to every error code; the minimum is replaced exactly when the source is not empty and is smaller or the destination is empty, the maximum exactly when the source's is larger; what is compared is the value before combining.")
	c.Rule(RC, "Stats.Record counts the event once in the bucket and number of its own type and, unless that is the total, of the total; the bucket index is known to be in range; minimum and maximum are replaced exactly when the value is smaller (or the first) or larger.")
	c.Rule(AL, "Statistics of several instances are combined from all of them, each exactly once: a copy of the first and the combination of all others, or the combination of all into empty statistics.")
	p := c.P
	st := p.Type("stats", "Stats")
	if st == nil || structOf(st) == nil {
		c.Missing(RS, "stats.Stats")
		return
	}
	var slices, nested, maps []*types.Var
	s := structOf(st)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch t := f.Type().Underlying().(type) {
		case *types.Slice:
			if _, ok := t.Elem().Underlying().(*types.Slice); ok {
				nested = append(nested, f)
			} else {
				slices = append(slices, f)
			}
		case *types.Map:
			maps = append(maps, f)
		default:
			c.Fail(RS, "stats.Stats."+f.Name(), f.Pos(), "a field of Stats of a kind the rule does not know")
		}
	}
	for _, m := range []string{"Reset", "Copy", "Combine"} {
		c.statsTransfer(map[string]string{"Reset": RS, "Copy": CP, "Combine": CB}[m], m, slices, nested, maps)
	}
	c.statsRecord(RC)
	c.allInstances(AL)
	c.Rule(CL, "Each collection combines what every watched set recorded, exactly once, into an emptied total and into the statistics of its trx, emptied once per collection.")
	c.Borrow(CL, "C26", func(f Finding) bool { return f.Rule == "collect" })
}

// fullLoop: the loop visits all elements of the slices: bounded by their length or by the
// number of event types all slices are made with.
func (c *Ctx) fullLoop(h *ssa.BasicBlock, f *types.Var) string {
	lim, _, first, why := indexLoop(h)
	if why != "" {
		return why
	}
	if first != 0 {
		return "does not start at the first element"
	}
	lim = stripConvSSA(lim)
	if sl := isLen(lim); sl != nil {
		for {
			u, ok := sl.(*ssa.UnOp)
			if !ok {
				break
			}
			if g := fieldOf(u.X); g != nil && g.Pkg() != nil && strings.HasSuffix(g.Pkg().Path(), "/stats") {
				return ""
			}
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				sl = ia.X
				continue
			}
			break
		}
		return "not bounded by the length of the statistics"
	}
	// number of event types: what NewStats makes the slices with
	mk := c.P.Func("stats", "", "NewStats")
	if mk == nil {
		return "stats.NewStats is missing"
	}
	same := func(a, b ssa.Value) bool {
		a, b = stripConvSSA(a), stripConvSSA(b)
		if ca, ok := a.(*ssa.Const); ok {
			cb, ok := b.(*ssa.Const)
			return ok && ca.Value != nil && cb.Value != nil && constant.Compare(constant.ToInt(ca.Value), 39, constant.ToInt(cb.Value))
		}
		ua, ok1 := a.(*ssa.UnOp)
		ub, ok2 := b.(*ssa.UnOp)
		if ok1 && ok2 {
			g, ok := ua.X.(*ssa.Global)
			return ok && ua.X == ub.X && c.P.globalConstant(g)
		}
		return false
	}
	found := false
	for fn := range c.P.Reach(mk) {
		if fnPkgPath(fn) != modPath+"/stats" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.MakeSlice:
					if same(i.Len, lim) {
						found = true
					} else if _, isC := i.Len.(*ssa.Const); !isC {
						return "not bounded by the number of event types"
					}
				case *ssa.Alloc:
					if at, ok := deref(i.Type()).Underlying().(*types.Array); ok {
						if k, ok := lim.(*ssa.Const); ok && k.Int64() == at.Len() {
							found = true
						}
					}
				}
			}
		}
	}
	if !found {
		return "not bounded by the number of event types"
	}
	return ""
}

func stripConvSSA(v ssa.Value) ssa.Value {
	for {
		switch i := v.(type) {
		case *ssa.Convert:
			v = i.X
		case *ssa.ChangeType:
			v = i.X
		default:
			return v
		}
	}
}

// globalConstant: a package variable never stored to after its initialisation.
func (p *Prog) globalConstant(g *ssa.Global) bool {
	for _, fn := range p.Funcs {
		if !p.IsRepo(fn) || fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
							continue
						}
						return false
					}
				}
			}
		}
	}
	return true
}

func (c *Ctx) statsTransfer(rule, method string, slices, nested, maps []*types.Var) {
	p := c.P
	fn := p.Func("stats", "Stats", method)
	if fn == nil {
		c.Missing(rule, "stats.Stats."+method)
		return
	}
	c.Fn(fn)
	all := append(append([]*types.Var(nil), slices...), nested...)
	idx := map[*types.Var]int{}
	for i, f := range all {
		idx[f] = i
	}
	if len(all) > 8 {
		c.Fail(rule, method+":fields", fn.Pos(), "too many fields for the rule")
		return
	}
	const (
		aLT = 10 + iota // source minimum smaller: 1 yes, 2 no
		aSN0
		aCN0
		aGT
		aWhole
		aErr     // error code set in this round
		aErrKnow // code present in source: 1 yes, 2 no
		aSeen    // bits: loops entered
	)
	loopBit := map[*ssa.BasicBlock]int16{}
	loopOf := map[*types.Var]*ssa.BasicBlock{} // loop over event types in which the field is set
	inner := map[*types.Var]*ssa.BasicBlock{}  // loop over buckets
	entry := map[*ssa.BasicBlock][]*types.Var{}
	mapLoops := map[*ssa.BasicBlock]string{}
	whole := false // the receiver is replaced by new statistics on every path
	fieldNew := map[*types.Var]bool{}
	bad := map[string]bool{}
	fail1 := func(key string, fnn *ssa.Function, msg string) {
		if !bad[key] {
			bad[key] = true
			c.Fail(rule, method+":"+key, fnn.Pos(), msg)
		}
	}
	var pr *pathRule
	run := func(pass int) *Exec {
		x := NewExec(p, fn)
		x.Inline = samePkg("stats")
		x.BlockEvents = true
		pr = c.pathRule(rule, x)
		isSrcMap := func(s *State, v *Val) bool {
			f, b := v.loadedField()
			return f != nil && b == x.ArgVal(1) && isIn(maps, f)
		}
		isDstMap := func(v *Val) bool {
			f, b := v.loadedField()
			return f != nil && b == x.ArgVal(0) && isIn(maps, f)
		}
		outer := func(s *State) *ssa.BasicBlock {
			l := x.LoopPath(s)
			if len(l) == 0 {
				return nil
			}
			return l[0].h
		}
		innermost := func(s *State) *ssa.BasicBlock {
			l := x.LoopPath(s)
			if len(l) == 0 {
				return nil
			}
			return l[len(l)-1].h
		}
		empty := func(s *State) bool { return s.A[aCN0] == 1 }
		enter := func(s *State, h *ssa.BasicBlock) {
			if loopBit[h] == 0 {
				loopBit[h] = 1 << len(loopBit)
			}
			s.A[aSeen] |= loopBit[h]
		}
		loopUsed := func(h *ssa.BasicBlock) bool {
			for f, g := range loopOf {
				if g == h && !fieldNew[f] {
					return true
				}
			}
			k := mapLoops[h]
			return k == "src" && method != "Reset" || k == "dst" && method != "Combine" && !fieldNew[maps[0]]
		}
		x.Hook = func(x *Exec, s *State, e *Event) {
			dst := x.ArgVal(0)
			var src *Val
			if method != "Reset" {
				src = x.ArgVal(1)
			}
			switch e.Kind {
			case EvStore:
				v := e.Val
				if e.Raw != nil {
					v = e.Raw
				}
				if e.Addr == dst { // *s = ...
					if method == "Reset" && v.Op == "load" && strings.Contains(v.String(), "NewStats") {
						s.A[aWhole] = 1
						whole = true
					}
					return
				}
				if e.Addr.Op == "field" && e.Addr.Args[0] == dst {
					f := e.Addr.Fld
					if method == "Reset" && isIn(maps, f) && (v.Op == "sym" || v.Op == "makemap" || v.Op == "alloc") {
						fieldNew[f] = true
					}
					return
				}
				f, b, i := elemOf(e.Addr)
				if f != nil && b == dst && isIn(slices, f) {
					if pass == 0 {
						loopOf[f] = outer(s)
					}
					pr.obl(e, f.Name())
					own := x.T.app("load", e.Addr)
					var from *Val
					if src != nil {
						from = x.T.app("load", x.T.app("elem", x.T.app("load", x.T.fieldAddr(src, f)), i))
					}
					okk := false
					switch method {
					case "Reset":
						n, isC := v.constInt()
						okk = isC && n == 0
					case "Copy":
						okk = v == from
					case "Combine":
						switch f.Name() {
						case "Min":
							okk = v == own || v == from && s.A[aCN0] == 2 && (s.A[aLT] == 1 || s.A[aSN0] == 1)
							if v == own {
								return // not a change: decided like no store
							}
						case "Max":
							okk = v == own || v == from && s.A[aGT] == 1
							if v == own {
								return
							}
						default:
							okk = sumOf(v, own, from)
							if !okk && empty(s) && v == own {
								okk = true
							}
						}
					}
					if pass == 1 && s.A[idx[f]] == 1 && method == "Combine" {
						pr.fail(s, e, f.Name()+" twice", f.Name()+" is changed twice in one round")
					}
					if pass == 1 && !okk {
						pr.fail(s, e, f.Name(), "the value stored in "+f.Name()+" is not the one this operation requires")
					}
					s.A[idx[f]] = 1
					return
				}
				f, b, i, j := elem2Of(e.Addr)
				if f != nil && b == dst && isIn(nested, f) {
					if pass == 0 {
						loopOf[f], inner[f] = outer(s), innermost(s)
						entry[inner[f]] = append(entry[inner[f]], f)
					}
					pr.obl(e, f.Name())
					own := x.T.app("load", e.Addr)
					var from *Val
					if src != nil {
						from = x.T.app("load", x.T.app("elem", x.T.app("load", x.T.app("elem", x.T.app("load", x.T.fieldAddr(src, f)), i)), j))
					}
					okk := false
					switch method {
					case "Reset":
						n, isC := v.constInt()
						okk = isC && n == 0
					case "Copy":
						okk = v == from
					case "Combine":
						okk = sumOf(v, own, from)
					}
					if pass == 1 && !okk {
						pr.fail(s, e, f.Name(), "the value stored in "+f.Name()+" is not the one this operation requires")
					}
					s.A[idx[f]] = 2
				}
			case EvCall:
				switch e.Callee {
				case "builtin copy":
					df, db, di := elemOf(e.Args[0])
					sf, sb, si := elemOf(e.Args[1])
					if df != nil && db == dst && isIn(nested, df) {
						pr.obl(e, df.Name())
						if pass == 0 {
							loopOf[df] = outer(s)
						}
						if pass == 1 && (method != "Copy" || sf != df || sb != src || si != di) {
							pr.fail(s, e, df.Name(), "what is copied into "+df.Name()+" is not the source's")
						}
						s.A[idx[df]] = 1
						return
					}
					df, db = e.Args[0].loadedField()
					sf, sb = e.Args[1].loadedField()
					if df != nil && db == dst && isIn(slices, df) {
						pr.obl(e, df.Name())
						fieldNew[df] = true
						if pass == 1 && (method != "Copy" || sf != df || sb != src) {
							pr.fail(s, e, df.Name(), "what is copied into "+df.Name()+" is not the source's")
						}
					}
				case "builtin delete":
					if isDstMap(e.Args[0]) {
						if s.A[aErrKnow] == 1 && method == "Copy" {
							pr.fail(s, e, "Errors deleted", "an error code the source has is removed")
						}
						if method == "Combine" {
							pr.fail(s, e, "Errors deleted", "combining removes an error code")
						}
						s.A[aErr] = 2
					}
				case "builtin clear":
					if isDstMap(e.Args[0]) {
						for _, f := range maps {
							fieldNew[f] = true
						}
					}
				}
			case EvMapUpdate:
				if !isDstMap(e.Args[0]) {
					return
				}
				pr.obl(e, "Errors")
				s.A[aErr] = 1
				if pass != 1 {
					return
				}
				v := e.Val
				if e.Raw != nil {
					v = e.Raw
				}
				k := e.Args[1]
				fromOK := func(v *Val) bool {
					if v.Op == "lookup" && isSrcMap(s, v.Args[0]) && v.Args[1] == k {
						return true
					}
					return v.Op == "sym" && strings.HasPrefix(v.Name, "nextv") && strings.TrimPrefix(v.Name, "nextv") == strings.TrimPrefix(k.Name, "nextk")
				}
				okk := false
				switch method {
				case "Reset":
					n, isC := v.constInt()
					okk = isC && n == 0
				case "Copy":
					okk = fromOK(v)
				case "Combine":
					if v.Op == "bin+" || v.Name == "+" && len(v.Args) == 2 {
						a, b := v.Args[0], v.Args[1]
						if !fromOK(b) {
							a, b = b, a
						}
						okk = fromOK(b) && a.Op == "lookup" && isDstMap(a.Args[0]) && a.Args[1] == k
					}
				}
				if !okk {
					pr.fail(s, e, "Errors", "the value stored for an error code is not the one this operation requires ("+v.String()+")")
				}
			case EvBranch:
				cond, taken := e.Cond, e.Taken
				for cond.Op == "not" {
					cond, taken = cond.Args[0], !taken
				}
				set := func(a int, yes bool) {
					s.A[a] = 2
					if yes {
						s.A[a] = 1
					}
				}
				if len(cond.Args) == 2 {
					fa, ba, ia := elemOf(cond.Args[0])
					fb, bb, ib := elemOf(cond.Args[1])
					l0, isL := cond.Args[0].constInt()
					r0, isR := cond.Args[1].constInt()
					isLoad := func(v *Val) bool { return v.Op == "load" }
					switch {
					case cond.Op == "eq" && isR && r0 == 0 && fa != nil && fa.Name() == "N" && isLoad(cond.Args[0]):
						if ba == dst && s.A[idx[fa]] == 0 {
							set(aSN0, taken)
						}
						if src != nil && ba == src {
							set(aCN0, taken)
						}
					case cond.Op == "lss" && isL && l0 == 0 && fb != nil && fb.Name() == "N":
						if bb == dst && s.A[idx[fb]] == 0 {
							set(aSN0, !taken)
						}
						if src != nil && bb == src {
							set(aCN0, !taken)
						}
					case cond.Op == "lss" && isR && r0 == 1 && fa != nil && fa.Name() == "N":
						if ba == dst && s.A[idx[fa]] == 0 {
							set(aSN0, taken)
						}
						if src != nil && ba == src {
							set(aCN0, taken)
						}
					case cond.Op == "lss" && fa != nil && fb != nil && fa == fb && ia == ib:
						switch {
						case fa.Name() == "Min" && ba == src && bb == dst:
							set(aLT, taken)
						case fa.Name() == "Min" && ba == dst && bb == src: // s < c: not smaller; s >= c: replacing is harmless
							set(aLT, !taken)
						case fa.Name() == "Max" && ba == dst && bb == src:
							set(aGT, taken)
						case fa.Name() == "Max" && ba == src && bb == dst:
							set(aGT, !taken)
						}
					}
				}
				if cond.Op == "lookupok" && isSrcMap(s, cond.Args[0]) {
					set(aErrKnow, taken)
				}
				if n0, m := lenIsZero(cond, taken); n0 && m != nil { // an empty map need not be gone through
					for h, k := range mapLoops {
						if k == "dst" && isDstMap(m) || k == "src" && src != nil && isSrcMap(s, m) {
							s.A[aSeen] |= loopBit[h]
						}
					}
				}
			case EvBlock:
				// a loop over error codes starts or goes round
				h := e.Block
				for _, in := range h.Instrs {
					if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
						rg := nx.Iter.(*ssa.Range)
						fr := s.frames[len(s.frames)-1]
						mv := x.val(s, fr, rg.X)
						kind := ""
						if e.Back { // the map is dead by now
							kind = mapLoops[h]
						} else if isDstMap(mv) {
							kind = "dst"
						} else if src != nil && isSrcMap(s, mv) {
							kind = "src"
						}
						if kind == "" {
							continue
						}
						mapLoops[h] = kind
						enter(s, h)
						if os.Getenv("FINCHLINT_DEBUG") == "25" {
							println(method, pass, "maploop", kind, e.Back, s.A[aErr], s.A[aErrKnow])
						}
						if e.Back {
							okk := s.A[aErr] == 1 || s.A[aErr] == 2
							if kind == "dst" && method == "Copy" {
								okk = s.A[aErr] == 2 || s.A[aErrKnow] == 1
							}
							if kind == "src" {
								okk = s.A[aErr] == 1
							}
							if method == "Combine" && kind == "dst" {
								okk = true
							}
							if pass == 1 && !okk {
								pr.fail(s, e, "Errors missed", "an error code can be left out")
							}
						}
						s.A[aErr], s.A[aErrKnow] = 0, 0
					}
				}
				if pass == 0 {
					return
				}
				for f, ih := range inner {
					if h == ih && f != nil {
						if e.Back && s.A[idx[f]] != 2 {
							pr.fail(s, e, f.Name()+" missed", "an element of "+f.Name()+" can be left out")
						}
						if !e.Back {
							s.A[idx[f]] = 1
						} else {
							s.A[idx[f]] = 1
						}
					}
				}
				isOuter := false
				for _, f := range all {
					if loopOf[f] == h {
						isOuter = true
						enter(s, h)
						if e.Back {
							switch {
							case method == "Combine" && f.Name() == "Min":
								if s.A[idx[f]] == 0 && s.A[aCN0] != 1 && !(s.A[aLT] == 2 && s.A[aSN0] == 2) {
									pr.fail(s, e, "Min kept", "the minimum can be kept although the source has a smaller one or the destination was empty")
								}
							case method == "Combine" && f.Name() == "Max":
								if s.A[idx[f]] == 0 && s.A[aCN0] != 1 && s.A[aGT] != 2 {
									pr.fail(s, e, "Max kept", "the maximum can be kept although the source has a larger one")
								}
							case s.A[idx[f]] == 0 && !(method == "Combine" && empty(s)):
								pr.fail(s, e, f.Name()+" missed", f.Name()+" of an event type can be left out")
							}
						}
					}
				}
				if isOuter {
					for i := range all {
						s.A[i] = 0
					}
					s.A[aLT], s.A[aSN0], s.A[aCN0], s.A[aGT] = 0, 0, 0, 0
				}
			case EvReturn:
				if e.Fn == fn && pass == 1 && whole && s.A[aWhole] == 0 {
					pr.fail(s, e, "whole", "the statistics are not replaced on every path")
				}
				if e.Fn == fn && pass == 1 && !whole && !isNilVal(x, s, dst) && !(src != nil && isNilVal(x, s, src)) {
					for h, bit := range loopBit {
						if s.A[aSeen]&bit == 0 && (loopUsed(h)) {
							pr.fail(s, e, "returned early", "the operation can return without going through the loop at "+p.Pos(firstPos(h))+", leaving out part of the statistics")
						}
					}
				}
			}
			if os.Getenv("FINCHLINT_DEBUG") == "25" && e.Kind != EvCall {
				println(method, e.Kind, p.Pos(e.Pos()))
			}
		}
		x.Run(nil, nil)
		return x
	}
	run(0)
	x := run(1)
	c.finish(rule, x)
	if whole {
		return
	}
	for _, f := range all {
		c.Obl(rule, method+" covers "+f.Name())
		if fieldNew[f] {
			continue
		}
		h := loopOf[f]
		if h == nil {
			fail1(f.Name()+" never", fn, method+" does not set "+f.Name()+" in a loop over event types")
			continue
		}
		if why := c.fullLoop(h, f); why != "" {
			fail1(f.Name()+" range", h.Parent(), "the loop that sets "+f.Name()+" does not visit every event type: "+why)
		}
		if ih := inner[f]; ih != nil {
			if ih == h {
				fail1(f.Name()+" inner", h.Parent(), "the buckets are not set in a loop of their own")
			} else if why := c.fullLoop(ih, f); why != "" {
				fail1(f.Name()+" inner range", ih.Parent(), "the loop that sets the buckets does not visit every bucket: "+why)
			}
		}
	}
	have := map[string]bool{}
	for h, k := range mapLoops {
		have[k] = true
		if lb := loopBody(h); lb != nil {
			for b := range lb {
				if b == h {
					continue
				}
				for _, sc := range b.Succs {
					if !lb[sc] {
						fail1("Errors early", h.Parent(), "the loop over error codes can be left early")
					}
				}
			}
		}
	}
	for _, f := range maps {
		c.Obl(rule, method+" covers "+f.Name())
		need := []string{"src"}
		if method == "Reset" {
			need = []string{"dst"}
		} else if method == "Copy" {
			need = append(need, "dst")
		}
		for _, k := range need {
			if !have[k] && !(k == "dst" && fieldNew[f]) {
				fail1(f.Name()+" "+k, fn, method+" does not go through all error codes of the "+map[string]string{"src": "source", "dst": "destination"}[k])
			}
		}
	}
}

func isIn(fs []*types.Var, f *types.Var) bool {
	for _, g := range fs {
		if g == f {
			return true
		}
	}
	return false
}

func (c *Ctx) statsRecord(rule string) {
	p := c.P
	fn := p.Func("stats", "Stats", "Record")
	total, ok := constIntOf(p, "stats", "TOTAL")
	mk := p.Func("stats", "", "NewStats")
	if fn == nil || !ok || mk == nil {
		c.Missing(rule, "stats.Stats.Record / stats.TOTAL / stats.NewStats")
		return
	}
	// number of buckets
	nb := int64(0)
	for f := range p.Reach(mk) {
		if fnPkgPath(f) != modPath+"/stats" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					if at, ok := deref(a.Type()).Underlying().(*types.Array); ok && at.Len() > nb && isIntType(at.Elem()) {
						nb = at.Len()
					}
				}
				if m, ok := in.(*ssa.MakeSlice); ok {
					if k, ok := m.Len.(*ssa.Const); ok && isIntType(m.Type().Underlying().(*types.Slice).Elem()) && k.Int64() > nb {
						nb = k.Int64()
					}
				}
			}
		}
	}
	if nb == 0 {
		c.Missing(rule, "number of buckets in NewStats")
		return
	}
	c.Fn(fn)
	x := NewExec(p, fn)
	x.Inline = samePkg("stats")
	pr := c.pathRule(rule, x)
	const (
		aB = iota
		aN
		aMin
		aMax
		aLT
		aN0
		aGT
		aW // width
	)
	aIs := 2 * aW
	n := 0
	x.Hook = func(x *Exec, s *State, e *Event) {
		dst, et, d := x.ArgVal(0), x.ArgVal(1), x.ArgVal(2)
		slot := func(i *Val) int {
			if i == et {
				if k, ok := i.constInt(); ok && k == total {
					return 1
				}
				return 0
			}
			if k, ok := stripConv(i).constInt(); ok && k == total {
				return aW
			}
			return -1
		}
		switch e.Kind {
		case EvStore:
			v := e.Val
			if e.Raw != nil {
				v = e.Raw
			}
			own := x.T.app("load", e.Addr)
			if f, b, i := elemOf(e.Addr); f != nil && b == dst {
				o := slot(i)
				pr.obl(e, f.Name())
				n++
				if o < 0 {
					pr.fail(s, e, f.Name()+" index", f.Name()+" of an event type other than the event's own or the total is changed")
					return
				}
				switch f.Name() {
				case "N":
					s.A[o+aN]++
					if !sumOf(v, own, x.T.intv(1)) {
						pr.fail(s, e, "N", "the number of events does not grow by one")
					}
				case "Min":
					s.A[o+aMin] = 1
					if v != d || s.A[o+aLT] != 1 && s.A[o+aN0] != 1 {
						pr.fail(s, e, "Min", "the minimum is replaced although the value is not known to be smaller or the first")
					}
				case "Max":
					s.A[o+aMax] = 1
					if v != d || s.A[o+aGT] != 1 && s.A[o+aN0] != 1 {
						pr.fail(s, e, "Max", "the maximum is replaced although the value is not known to be larger")
					}
				}
				return
			}
			if f, b, i, j := elem2Of(e.Addr); f != nil && b == dst {
				o := slot(i)
				n++
				pr.obl(e, f.Name())
				if o < 0 {
					pr.fail(s, e, f.Name()+" index", "a bucket of an event type other than the event's own or the total is changed")
					return
				}
				s.A[o+aB]++
				if !sumOf(v, own, x.T.intv(1)) {
					pr.fail(s, e, "bucket", "the bucket does not grow by one")
				}
				okk := false
				if k, isC := j.constInt(); isC && k >= 0 && k < nb {
					okk = true
				}
				for f, t := range s.facts {
					if f.Op == "lss" && t && f.Args[0] == j {
						if k, isC := f.Args[1].constInt(); isC && k <= nb {
							okk = true
						}
					}
					if f.Op == "lss" && !t && f.Args[1] == j {
						if k, isC := f.Args[0].constInt(); isC && k < nb {
							okk = true
						}
					}
				}
				if os.Getenv("FINCHLINT_DEBUG") == "25" {
					println("bucket", j.String(), okk, nb, j.Op, j.C != nil && j.C.Kind() == constant.Float, j.C != nil)
				}
				if !okk {
					pr.fail(s, e, "bucket range", "the bucket index is not known to be in range")
				}
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			set := func(a int, yes bool) {
				s.A[a] = 2
				if yes {
					s.A[a] = 1
				}
			}
			if os.Getenv("FINCHLINT_DEBUG") == "25" {
				println("rec", p.Pos(e.Pos()), cond.String(), taken)
			}
			if len(cond.Args) != 2 {
				return
			}
			if cond.Op == "eq" && cond.Args[0] == et {
				if k, ok := cond.Args[1].constInt(); ok && k == total {
					set(aIs, taken)
				}
			}
			fa, ba, ia := elemOf(cond.Args[0])
			fb, bb, ib := elemOf(cond.Args[1])
			switch {
			case cond.Op == "eq" && fa != nil && fa.Name() == "N" && ba == dst:
				if k, ok := cond.Args[1].constInt(); ok && k == 0 && slot(ia) >= 0 && s.A[slot(ia)+aN] == 0 {
					set(slot(ia)+aN0, taken)
				}
			case cond.Op == "lss" && cond.Args[0] == d && fb != nil && bb == dst && slot(ib) >= 0:
				if fb.Name() == "Min" {
					set(slot(ib)+aLT, taken)
				} else if fb.Name() == "Max" { // d < max: not larger; otherwise replacing is harmless
					set(slot(ib)+aGT, !taken)
				}
			case cond.Op == "lss" && cond.Args[1] == d && fa != nil && ba == dst && slot(ia) >= 0:
				if fa.Name() == "Max" {
					set(slot(ia)+aGT, taken)
				} else if fa.Name() == "Min" {
					set(slot(ia)+aLT, !taken)
				}
			}
		case EvReturn:
			if e.Fn != fn {
				return
			}
			pr.obl(e, "end")
			check := func(o int, name string) {
				if s.A[o+aB] != 1 || s.A[o+aN] != 1 {
					pr.fail(s, e, name+" count", "the event is not counted exactly once in the bucket and number of "+name)
				}
				if s.A[o+aMin] == 0 && !(s.A[o+aLT] == 2 && (s.A[o+aN0] == 2)) {
					pr.fail(s, e, name+" min", "the minimum of "+name+" can be kept although the value is smaller or the first")
				}
				if s.A[o+aMax] == 0 && s.A[o+aGT] != 2 {
					pr.fail(s, e, name+" max", "the maximum of "+name+" can be kept although the value is larger")
				}
			}
			check(0, "its type")
			switch s.A[aIs] {
			case 1:
				if s.A[aW+aB]+s.A[aW+aN] > 0 {
					pr.fail(s, e, "total twice", "an event of the total is counted twice")
				}
			case 2:
				check(aW, "the total")
			default:
				pr.fail(s, e, "total", "the event is counted without asking whether its type is the total")
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	c.Require(rule, n, 4, "counters changed")
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// allInstances checks the callers of Stats.Combine that go over instances.
func (c *Ctx) allInstances(rule string) {
	p := c.P
	n := 0
	const copyN, combN = "(*" + modPath + "/stats.Stats).Copy", "(*" + modPath + "/stats.Stats).Combine"
	for _, fn := range p.FuncsOf("stats") {
		// a function with a slice of instances
		var from *ssa.Parameter
		for _, q := range fn.Params {
			if sl, ok := q.Type().Underlying().(*types.Slice); ok && isNamed(sl.Elem(), modPath+"/stats", "Instance") {
				from = q
			}
		}
		if from == nil || fn.Synthetic != "" || !p.reachesCall(fn, func(nm string, cc *ssa.CallCommon) bool { return nm == combN }) {
			continue
		}
		if o := fn.Object(); o == nil || !o.Exported() {
			continue
		}
		c.Fn(fn)
		x := NewExec(p, fn)
		x.Inline = func(f *ssa.Function) bool {
			return fnPkgPath(f) == modPath+"/stats" && namedOf(deref(recvType(f))) != p.Type("stats", "Stats") && f.Name() != "NewStats"
		}
		x.BlockEvents = true
		pr := c.pathRule(rule, x)
		pi := 0
		for i, q := range fn.Params {
			if q == from {
				pi = i
			}
		}
		seen := false
		const (
			aFirst = iota // 1 first copied, 2 empty
			aDone         // combined in this round
			aRest         // loop entered
		)
		loops := map[*ssa.BasicBlock]bool{}
		for pass := 0; pass < 2; pass++ {
			pass := pass
			if pass == 1 {
				x2 := NewExec(p, fn)
				x2.Inline, x2.BlockEvents = x.Inline, true
				x = x2
				pr = c.pathRule(rule, x)
			}
			x.Hook = func(x *Exec, s *State, e *Event) {
				fv := x.ArgVal(pi)
				// total of which instance
				which := func(v *Val) (*Val, *Val) { // index in from
					f, b := v.loadedField()
					if f == nil || f.Name() != "Total" || b.Op != "elem" {
						return nil, nil
					}
					return b.Args[0], b.Args[1]
				}
				switch e.Kind {
				case EvCall:
					switch e.Callee {
					case copyN:
						a, i := which(e.Args[1])
						if a == fv && i != nil {
							if k, ok := i.constInt(); ok && k == 0 {
								s.A[aFirst] = 1
								s.RV[0] = e.Args[0]
							}
						}
					case combN:
						a, i := which(e.Args[1])
						if a == nil {
							return // not of an instance
						}
						l := x.LoopPath(s)
						if len(l) == 0 {
							pr.fail(s, e, "no loop", "statistics of instances are combined outside a loop over them")
							return
						}
						h := l[len(l)-1].h
						loops[h] = true
						if pass == 0 {
							return
						}
						n++
						seen = true
						pr.obl(e, "combination")
						if s.A[aDone] == 1 {
							pr.fail(s, e, "twice", "an instance is combined twice")
						}
						s.A[aDone] = 1
						if s.A[aFirst] == 1 && s.RV[0] != e.Args[0] {
							pr.fail(s, e, "other", "the instances are not combined into the copy of the first")
						}
						lim, idx, first, why := indexLoop(h)
						if why != "" {
							pr.fail(s, e, "loop", "the loop over instances does not visit all of them: "+why)
							return
						}
						// bound: length of from, possibly without the first k
						drop := int64(-1)
						if sl := isLen(lim); sl != nil {
							drop = sliceLow(sl)
						}
						if drop < 0 {
							pr.fail(s, e, "bound", "the loop over instances is not bounded by their number")
							return
						}
						// index used, relative to from
						fr := s.frames[len(s.frames)-1]
						for k := len(s.frames) - 1; k >= 0; k-- {
							if s.frames[k].fn == h.Parent() {
								fr = s.frames[k]
								break
							}
						}
						iv := x.val(s, fr, idx)
						_, o1 := lin(i)
						_, o2 := lin(iv)
						off := o1 - o2
						if a != fv { // a slice of from
							lo, isC := int64(0), false
							if a.Op == "subslice" && a.Args[0] == fv && a.Args[2].isNil() {
								lo, isC = a.Args[1].constInt()
								if a.Args[1].isNil() {
									isC = true
								}
							}
							if !isC {
								pr.fail(s, e, "base", "what is combined is not one of the instances")
								return
							}
							off += lo
						}
						lo, hi := first+off, off-drop // hi relative to the number of instances
						if hi != 0 {
							pr.fail(s, e, "end", "the last instances are left out or beyond the end")
						}
						if !(lo == 1 && s.A[aFirst] == 1 || lo == 0 && s.A[aFirst] == 2) {
							pr.fail(s, e, "first", "the first instance is left out or counted twice")
						}
					}
				case EvRet:
					switch e.Callee {
					case "(*" + modPath + "/stats.Stats).Reset":
						s.A[aFirst] = 2
					case modPath + "/stats.NewStats":
						s.A[aFirst] = 2
					}
				case EvBlock:
					if loops[e.Block] && pass == 1 {
						if e.Back && s.A[aDone] == 0 {
							pr.fail(s, e, "skipped", "an instance can be left out")
						}
						s.A[aDone] = 0
						s.A[aRest] = 1
					}
				case EvReturn:
					if e.Fn == fn && pass == 1 && s.A[aRest] == 0 && s.A[aFirst] == 1 {
						pr.fail(s, e, "rest", "the statistics of the first instance are used without the others")
					}
				}
			}
			x.Run(nil, nil)
		}
		_ = seen
		c.finish(rule, x)
	}
	c.Require(rule, n, 1, "combinations over instances")
}

// sliceLow: v is a slice (or a sub-slice from k) of a parameter: k.
func sliceLow(v ssa.Value) int64 {
	switch i := v.(type) {
	case *ssa.Parameter:
		return 0
	case *ssa.Slice:
		if i.High != nil {
			return -1
		}
		lo := int64(0)
		if i.Low != nil {
			k, ok := i.Low.(*ssa.Const)
			if !ok {
				return -1
			}
			lo = k.Int64()
		}
		if b := sliceLow(i.X); b >= 0 {
			return b + lo
		}
	}
	return -1
}

func recvType(f *ssa.Function) types.Type {
	if r := f.Signature.Recv(); r != nil {
		return r.Type()
	}
	return types.Typ[types.Invalid]
}

// lenIsZero: the condition, as taken, says that the length of m is zero.
func lenIsZero(cond *Val, taken bool) (bool, *Val) {
	if len(cond.Args) != 2 {
		return false, nil
	}
	a, b := cond.Args[0], cond.Args[1]
	k0, is0 := a.constInt()
	k1, is1 := b.constInt()
	switch {
	case cond.Op == "eq" && a.Op == "len" && is1 && k1 == 0:
		return taken, a.Args[0]
	case cond.Op == "eq" && b.Op == "len" && is0 && k0 == 0:
		return taken, b.Args[0]
	case cond.Op == "lss" && is0 && k0 == 0 && b.Op == "len":
		return !taken, b.Args[0]
	case cond.Op == "lss" && is1 && k1 == 1 && a.Op == "len":
		return taken, a.Args[0]
	}
	return false, nil
}

func isNilVal(x *Exec, s *State, v *Val) bool {
	is, known := x.IsNil(s, v)
	return is && known
}
