package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stdoutOutput: which lines standard output gets.
func (c *Ctx) stdoutOutput(rule string) {
	p := c.P
	mk, rp := p.Func("stats", "", "NewStdout"), p.Func("stats", "Stdout", "Report")
	no, inst := p.Field("stats", "Instance", "Interval"), p.Type("stats", "Instance")
	if mk == nil || rp == nil || no == nil || inst == nil {
		c.Missing(rule, "stats.NewStdout, Stdout.Report, Instance.Interval")
		return
	}
	c.Fn(mk, rp)
	// the fields that hold the options
	opt := map[string]*types.Var{}
	boolFn := modPath + ".Bool"
	keyOf := func(v *Val) string {
		v = stripConv(v)
		if v.Op == "lookup" {
			if k, ok := v.Args[1].constStr(); ok {
				return k
			}
		}
		return ""
	}
	keys := []string{"each-instance", "combined"}
	const (
		kKnown = 0 // + key index: 1 given, 2 not
		kVal   = 2 // RV + key index: the option's value
	)
	for pass := 0; pass < 2; pass++ {
		pass := pass
		x := NewExec(p, mk)
		x.Inline = samePkg("stats")
		pr := c.pathRule(rule, x)
		pr.mute = pass == 0
		x.Hook = func(x *Exec, s *State, e *Event) {
			switch e.Kind {
			case EvCall:
				if e.Callee == boolFn && len(e.Args) == 1 {
					s.RV[4] = nil
					for i, k := range keys {
						if keyOf(e.Args[0]) == k {
							s.A[4] = int16(i + 1)
						}
					}
				}
			case EvRet:
				if e.Callee == boolFn && len(e.Res) == 1 && s.A[4] != 0 {
					s.RV[kVal+int(s.A[4])-1] = e.Res[0]
					s.A[4] = 0
				}
			case EvStore:
				v := e.Val
				if e.Raw != nil {
					v = e.Raw
				}
				if e.Addr.Op == "field" && isBoolT(e.Addr.Fld.Type()) {
					for i, k := range keys {
						if s.RV[kVal+i] != nil && v == s.RV[kVal+i] {
							opt[k] = e.Addr.Fld
						}
					}
				}
			case EvBranch:
				cond, taken := notOf(e.Cond, e.Taken)
				if cond.Op == "lookupok" {
					if k, ok := cond.Args[1].constStr(); ok {
						for i := range keys {
							if k == keys[i] {
								s.A[kKnown+i] = 2
								if taken {
									s.A[kKnown+i] = 1
								}
							}
						}
					}
				}
			case EvReturn:
				if e.Fn != mk || pass == 0 || len(e.Res) != 2 || len(opt) < 2 {
					return
				}
				if is, known := x.IsNil(s, e.Res[1]); !known || !is {
					return
				}
				pr.obl(e, "options")
				val := func(i int) *Val { return x.Load(s, x.T.fieldAddr(e.Res[0], opt[keys[i]]), types.Typ[types.Bool]) }
				for i, k := range keys {
					v := val(i)
					on, isC := v.constBool()
					if !isC {
						on, isC = x.Ask(s, v)
					}
					same := s.RV[kVal+i] != nil && v == s.RV[kVal+i]
					switch {
					case s.A[kKnown+i] == 1 && !same:
						pr.fail(s, e, "option "+k, "the value given for "+k+" is not what is used")
					case s.A[kKnown+i] == 2 && k == "combined" && !(isC && on):
						pr.fail(s, e, "default "+k, "the combined statistics are not reported by default")
					case s.A[kKnown+i] == 0 && !same && k == "combined":
						pr.fail(s, e, "option "+k, "it is not asked whether "+k+" is given")
					case s.A[kKnown] == 2 && s.A[kKnown+1] == 2 && !(isC && on):
						pr.fail(s, e, "default "+k, "without options not all statistics are reported")
					}
				}
			}
		}
		x.Run(nil, nil)
		c.finish(rule, x)
	}
	if opt[keys[0]] == nil || opt[keys[1]] == nil {
		c.Missing(rule, "the fields of Stdout that hold the options each-instance and combined")
		return
	}
	const (
		aEach  = iota // 1 true, 2 false
		aComb         // 1 true, 2 false
		aMany         // 2: at most one instance, 3: none
		aFmt          // 1 each, 2 combined
		aRound        // instance printed in this round
		aLoop         // loop over instances gone through
		aAll          // combined printed
		aMade         // combination made
	)
	loops := map[*ssa.BasicBlock]bool{}
	n := 0
	for pass := 0; pass < 2; pass++ {
		pass := pass
		x := NewExec(p, rp)
		x.Inline = func(f *ssa.Function) bool {
			return fnPkgPath(f) == modPath+"/stats" && !ptrTo(recvType(f), p.Type("stats", "Stats")) && recvType(f) != types.Type(p.Type("stats", "Stats"))
		}
		x.BlockEvents = true
		pr := c.pathRule(rule, x)
		pr.mute = pass == 0
		x.Hook = func(x *Exec, s *State, e *Event) {
			from := x.ArgVal(1)
			isOpt := func(v *Val, k string) bool {
				f, b := v.loadedField()
				return f == opt[k] && b == x.ArgVal(0)
			}
			isOne := func(v *Val) bool {
				return v.Op == "elem" && v.Args[0] == from
			}
			switch e.Kind {
			case EvBranch:
				cond, taken := notOf(e.Cond, e.Taken)
				st := int16(2)
				if taken {
					st = 1
				}
				switch {
				case isOpt(cond, keys[0]):
					s.A[aEach] = st
				case isOpt(cond, keys[1]):
					s.A[aComb] = st
				case len(cond.Args) == 2:
					a, b := cond.Args[0], cond.Args[1]
					isL := func(v *Val) bool { return v.Op == "len" && v.Args[0] == from }
					ka, okA := a.constInt()
					kb, okB := b.constInt()
					switch {
					case cond.Op == "lss" && okA && isL(b) && !taken && ka <= 1, cond.Op == "lss" && okB && isL(a) && taken && kb <= 2,
						cond.Op == "eq" && taken && (okA && isL(b) && ka <= 1 || okB && isL(a) && kb <= 1):
						s.A[aMany] = 2
						if okA && ka == 0 || okB && kb == 0 || cond.Op == "lss" && okB && kb <= 1 {
							s.A[aMany] = 3
						}
					}
				}
			case EvCall:
				switch {
				case e.Callee == "fmt.Sprintf" || e.Callee == "fmt.Fprintf" || e.Callee == "fmt.Appendf":
					args, _ := x.VarArgs(s, e.Args[len(e.Args)-1])
					for _, a := range args {
						f, b := stripIface(a).loadedField()
						if f != no {
							continue
						}
						s.A[aFmt] = 2
						if l := x.LoopPath(s); len(l) > 0 && isOne(b) {
							s.A[aFmt] = 1
							loops[l[0].h] = true
						}
						n++
						pr.obl(e, "line")
						if s.A[aFmt] == 2 && s.A[aMade] == 0 {
							pr.fail(s, e, "not combined", "the combined statistics are printed without being made of the instances of this interval")
						}
					}
					if e.Callee != "fmt.Fprintf" {
						break
					}
					fallthrough
				case strings.HasPrefix(e.Callee, "fmt.Fprint") || strings.HasSuffix(e.Callee, ".WriteString") || strings.HasSuffix(e.Callee, ".Write"):
					switch s.A[aFmt] {
					case 1:
						if s.A[aRound] == 1 {
							pr.fail(s, e, "twice", "an instance is printed twice")
						}
						s.A[aRound] = 1
					case 2:
						if s.A[aAll] == 1 {
							pr.fail(s, e, "all twice", "the combined statistics are printed twice")
						}
						s.A[aAll] = 1
					}
					s.A[aFmt] = 0
				}
				if e.Callee == "(*"+modPath+"/stats.Stats).Copy" || e.Callee == "(*"+modPath+"/stats.Stats).Combine" {
					s.A[aMade] = 1
				}
			case EvBlock:
				if pass == 1 && loops[e.Block] {
					if e.Back && s.A[aRound] == 0 {
						pr.fail(s, e, "left out", "an instance can be left out")
					}
					s.A[aRound] = 0
					s.A[aLoop] = 1
				}
			case EvReturn:
				if e.Fn != rp || pass == 0 {
					return
				}
				pr.obl(e, "end")
				switch {
				case s.A[aMany] == 3:
				case s.A[aEach] != 2 && s.A[aLoop] == 0:
					pr.fail(s, e, "instances", "the instances are not printed although each-instance is set")
				case s.A[aEach] == 2 && s.A[aLoop] == 1:
					pr.fail(s, e, "instances off", "the instances are printed although each-instance is not set")
				}
				switch {
				case s.A[aMany] == 3:
				case s.A[aComb] != 2 && s.A[aAll] == 0 && !(s.A[aMany] == 2 && s.A[aLoop] == 1):
					pr.fail(s, e, "combined", "the combined statistics are not printed although they are asked for and have not been printed as those of the only instance")
				case s.A[aComb] == 2 && s.A[aAll] == 1:
					pr.fail(s, e, "combined off", "the combined statistics are printed although they are not asked for")
				}
			}
		}
		x.Run(nil, nil)
		if pass == 1 {
			c.finish(rule, x)
		}
	}
	c.Require(rule, n, 1, "lines printed by Stdout.Report")
	c.Require(rule, len(loops), 1, "loops over instances in Stdout.Report")
	for h := range loops {
		c.Obl(rule, "loop over instances")
		sl, why := fullRange(h)
		if why == "" {
			if q, ok := sl.(*ssa.Parameter); !ok || !isInstances(q.Type()) {
				why = "it ranges over something else"
			}
		}
		if why != "" {
			c.Fail(rule, shortFn(h.Parent())+":instances", firstPos(h), "the loop over instances does not visit all of them: "+why)
		}
	}
}

func isInstances(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(sl.Elem(), modPath+"/stats", "Instance")
}

// percentileValues: as many values as percentiles, all printed.
func (c *Ctx) percentileValues(rule string) {
	p := c.P
	fn := p.Func("stats", "Stats", "Percentiles")
	if fn == nil {
		c.Missing(rule, "stats.Stats.Percentiles")
		return
	}
	c.Fn(fn)
	var ps *ssa.Parameter
	for _, q := range fn.Params {
		if sl, ok := q.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Float64]) {
			ps = q
		}
	}
	if ps == nil {
		c.Missing(rule, "the percentiles given to Stats.Percentiles")
		return
	}
	// block reached only when there are k percentiles
	under := func(b *ssa.BasicBlock, k int64) bool {
		for _, h := range fn.Blocks {
			iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			if isLen(bo.X) != ssa.Value(ps) {
				continue
			}
			succ := -1
			switch bo.Op.String() {
			case "==":
				if isConstInt(bo.Y, k) {
					succ = 0
				}
			case "!=":
				if isConstInt(bo.Y, k) {
					succ = 1
				}
			case "<":
				if k == 0 && isConstInt(bo.Y, 1) {
					succ = 0
				}
			case "<=":
				if k == 0 && isConstInt(bo.Y, 0) {
					succ = 0
				}
			case ">":
				if k == 0 && isConstInt(bo.Y, 0) {
					succ = 1
				}
			}
			if succ >= 0 && len(h.Succs[succ].Preds) == 1 && h.Succs[succ].Dominates(b) {
				return true
			}
		}
		return false
	}
	n := 0
	var look func(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool)
	look = func(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		bad := ""
		switch i := v.(type) {
		case *ssa.Phi:
			for k, e := range i.Edges {
				look(e, i.Block().Preds[k], seen)
			}
		case *ssa.Const: // nil
			if !under(b, 0) {
				bad = "no value at all is returned"
			}
		case *ssa.MakeSlice:
			if isLen(i.Len) != ssa.Value(ps) {
				if c, ok := stripConvSSA(i.Len).(*ssa.Const); ok && c.Int64() != 0 {
					bad = "the number of values is not that of the percentiles"
				}
			}
		case *ssa.Slice:
			if al, ok := i.X.(*ssa.Alloc); ok && al.Comment != "makeslice" {
				if at, ok := deref(al.Type()).Underlying().(*types.Array); ok && !under(b, at.Len()) {
					bad = "a fixed number of values is returned"
				}
			} else if i.High != nil && isLen(i.High) != ssa.Value(ps) {
				bad = "only part of the values is returned"
			} else if i.Low != nil && !isConstInt(i.Low, 0) {
				bad = "only part of the values is returned"
			}
		}
		if bad != "" {
			c.Fail(rule, "Percentiles:number", v.Pos(), bad+": the line has not as many columns as its header")
		}
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
			n++
			c.Obl(rule, "return of Percentiles")
			look(r.Results[0], b, map[ssa.Value]bool{})
		}
	}
	c.Require(rule, n, 1, "returns of Percentiles")

	// functions that print the values
	n = 0
	done := map[*ssa.Function]bool{}
	for _, g := range p.FuncsOf("stats") {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := call.Call.StaticCallee()
				if f == nil || done[f] || fnPkgPath(f) != modPath+"/stats" {
					continue
				}
				for k, a := range call.Call.Args {
					cl, ok := a.(*ssa.Call)
					if ok && cl.Call.StaticCallee() == fn {
						done[f] = true
						n++
						c.listed(rule, f, f.Params[k])
					}
				}
			}
		}
	}
	c.Require(rule, n, 1, "functions that print percentiles")
}

// listed: every loop of f over q puts every element into the result.
func (c *Ctx) listed(rule string, f *ssa.Function, q *ssa.Parameter) {
	c.Fn(f)
	for _, h := range f.Blocks {
		body := loopBody(h)
		if body == nil {
			continue
		}
		// values made of the element of this round
		der := map[ssa.Value]bool{}
		var work []ssa.Value
		add := func(v ssa.Value) {
			if v != nil && !der[v] {
				der[v] = true
				work = append(work, v)
			}
		}
		for b := range body {
			for _, in := range b.Instrs {
				if ia, ok := in.(*ssa.IndexAddr); ok && sliceOfParam(ia.X, q) {
					for _, r := range *ia.Referrers() {
						if ld, ok := r.(*ssa.UnOp); ok {
							add(ld)
						}
					}
				}
			}
		}
		if len(work) == 0 {
			continue
		}
		c.Obl(rule, "loop of "+shortFn(f))
		for len(work) > 0 {
			v := work[0]
			work = work[1:]
			if v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				switch i := r.(type) {
				case *ssa.Convert:
					add(i)
				case *ssa.ChangeType:
					add(i)
				case *ssa.MakeInterface:
					add(i)
				case *ssa.Call:
					add(i)
				case *ssa.Store:
					if ia, ok := i.Addr.(*ssa.IndexAddr); ok {
						if al, ok := ia.X.(*ssa.Alloc); ok {
							for _, r2 := range *al.Referrers() {
								if sl, ok := r2.(*ssa.Slice); ok {
									add(sl)
								}
							}
						}
					}
				}
			}
		}
		hit := func(in ssa.Instruction) bool {
			switch i := in.(type) {
			case *ssa.Call:
				for _, a := range i.Call.Args {
					if der[a] {
						return true
					}
				}
			case *ssa.BinOp:
				return i.Op.String() == "+" && (der[i.X] || der[i.Y])
			case *ssa.Store:
				return der[i.Val]
			}
			return false
		}
		_, _, _, why := indexLoop(h)
		if why == "" && !mustPass(f, h.Instrs[len(h.Instrs)-1], hit, func(in ssa.Instruction) bool { return in == h.Instrs[0] }) {
			why = "one can be skipped"
		}
		if why != "" {
			c.Fail(rule, shortFn(f)+":list", firstPos(h), "not every percentile is printed: "+why)
		}
	}
}

func sliceOfParam(v ssa.Value, q *ssa.Parameter) bool {
	for {
		if v == ssa.Value(q) {
			return true
		}
		sl, ok := v.(*ssa.Slice)
		if !ok {
			return false
		}
		v = sl.X
	}
}

// notOf strips negations off a condition.
func notOf(cond *Val, taken bool) (*Val, bool) {
	for cond.Op == "not" {
		cond, taken = cond.Args[0], !taken
	}
	return cond, taken
}

// timing: the duration and run time of an interval.
func (c *Ctx) timing(rule string) {
	p := c.P
	fn, start := p.Func("stats", "Collector", "Collect"), p.Func("stats", "Collector", "Start")
	sec, run := p.Field("stats", "Instance", "Seconds"), p.Field("stats", "Instance", "Runtime")
	if fn == nil || start == nil || sec == nil || run == nil {
		c.Missing(rule, "Collector.Collect, Collector.Start, Instance.Seconds, Instance.Runtime")
		return
	}
	c.Fn(fn, start)
	ct := p.Type("stats", "Collector")
	isTime := func(f *types.Var) bool { return f != nil && isNamed(f.Type(), "time", "Time") && fieldOwner(ct, f) }
	var lastF, startF *types.Var
	x := NewExec(p, fn)
	x.Inline = func(f *ssa.Function) bool {
		return fnPkgPath(f) == modPath+"/stats" && !ptrTo(recvType(f), p.Type("stats", "Stats"))
	}
	pr := c.pathRule(rule, x)
	// RV 4: end used for the duration
	x.Model = func(x *Exec, s *State, e *Event) []*Val {
		switch e.Callee {
		case "(time.Time).Sub", "time.Since", "(time.Duration).Seconds":
			return []*Val{x.T.mk(Val{Op: "pure", Name: e.Callee, Args: e.Args})}
		}
		return nil
	}
	const (
		aSec = iota
		aRun
		aLast // the time of the last collection is that of this one
	)
	x.Hook = func(x *Exec, s *State, e *Event) {
		col := x.ArgVal(0)
		switch e.Kind {
		case EvStore:
			v := e.Val
			if e.Raw != nil {
				v = e.Raw
			}
			if e.Addr.Op != "field" {
				return
			}
			f := e.Addr.Fld
			switch {
			case f == sec || f == run:
				if b := e.Addr.Args[0]; b.Op != "field" || b.Args[0] != col {
					return // a copy
				}
				pr.obl(e, f.Name())
				var from *types.Var
				var end *Val
				if v.Op == "pure" && v.Name == "(time.Duration).Seconds" && v.Args[0].Op == "pure" {
					d := v.Args[0]
					st := d.Args[len(d.Args)-1]
					for x.wasOf[st] != nil {
						st = x.wasOf[st]
					}
					if d.Name == "(time.Time).Sub" {
						end = d.Args[0]
					}
					if ff, b := st.loadedField(); isTime(ff) && b == col {
						from = ff
					}
				}
				if from == nil {
					pr.fail(s, e, f.Name(), "the "+map[bool]string{true: "duration", false: "run time"}[f == sec]+" of the interval is not the time since the last collection or the start")
					return
				}
				if f == sec {
					if lastF == nil {
						lastF = from
					}
					if from != lastF {
						pr.fail(s, e, "duration", "the duration of the interval is measured from different times")
					}
					s.A[aSec] = 1
					s.RV[4] = end
					if end != nil && end == s.RV[7] {
						s.A[aLast] = 1
					}
				} else {
					if startF == nil {
						startF = from
					}
					if from != startF {
						pr.fail(s, e, "run time", "the run time is measured from different times")
					}
					s.A[aRun] = 1
				}
			case isTime(f) && e.Addr.Args[0] == col:
				s.RV[7] = v
				if s.A[aSec] == 1 && f == lastF && (s.RV[4] == nil || v == s.RV[4]) {
					s.A[aLast] = 1
				}
			}
		case EvReturn:
			if e.Fn != fn {
				return
			}
			pr.obl(e, "end")
			if s.A[aSec] == 0 || s.A[aRun] == 0 {
				pr.fail(s, e, "not measured", "the duration or the run time of the interval is not measured on every path")
			}
			if s.A[aLast] == 0 {
				pr.fail(s, e, "last", "the next interval does not begin where this one ended")
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	if lastF == nil || startF == nil {
		return
	}
	c.Obl(rule, "times")
	if lastF == startF {
		c.Fail(rule, shortFn(fn)+":same", fn.Pos(), "the duration of the interval and the run time are measured from the same time")
	}
	stores := 0
	for g := range p.Reach(fn, p.Func("stats", "Collector", "Recv"), p.Func("stats", "Collector", "Report"), p.Func("stats", "Collector", "Stop"), p.Func("stats", "Collector", "Watch")) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && fieldOf(st.Addr) == startF {
					c.Fail(rule, shortFn(g)+":start", st.Pos(), "the time the run time is measured from is changed after the start")
				}
				if st, ok := in.(*ssa.Store); ok && fieldOf(st.Addr) == lastF {
					stores++
				}
			}
		}
	}
	if stores != 1 {
		c.Fail(rule, shortFn(fn)+":last", fn.Pos(), "the time of the last collection is set other than once per collection")
	}
	// both set at the start
	y := NewExec(p, start)
	y.Inline = samePkg("stats")
	ps := c.pathRule(rule, y)
	y.Hook = func(y *Exec, s *State, e *Event) {
		if len(s.frames) > 0 && e.Kind == EvStore && e.Addr.Op == "field" && e.Addr.Args[0] == y.ArgVal(0) {
			switch e.Addr.Fld {
			case lastF:
				s.A[0] = 1
			case startF:
				s.A[1] = 1
			}
		}
		if e.Kind == EvGo && (s.A[0] == 0 || s.A[1] == 0) {
			ps.fail(s, e, "start", "periodic collection begins before the times it measures from are set")
		}
		if e.Kind == EvReturn && e.Fn == start {
			ps.obl(e, "start")
			if s.A[0] == 0 || s.A[1] == 0 {
				ps.fail(s, e, "start", "the times measured from are not set at the start")
			}
		}
	}
	y.Run(nil, nil)
	c.finish(rule, y)
}
