package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C27"] = ruleC27
}

// collRoles are the parts of stats.Collector by what they are used for.
type collRoles struct {
	typ                           *types.Named
	reporters, interval, local    *types.Var
	n, no                         *types.Var
	inNo, inHost, inTotal, inTrx  *types.Var
	freq                          *types.Var
	recv, collect, report, stop   *ssa.Function
	nInst                         map[*types.Var]bool
	repReport, repStop, statsPref string
}

func (c *Ctx) collRoles(rule string) *collRoles {
	p := c.P
	r := &collRoles{
		typ:       p.Type("stats", "Collector"),
		recv:      p.Func("stats", "Collector", "Recv"),
		collect:   p.Func("stats", "Collector", "Collect"),
		report:    p.Func("stats", "Collector", "Report"),
		stop:      p.Func("stats", "Collector", "Stop"),
		inNo:      p.Field("stats", "Instance", "Interval"),
		inHost:    p.Field("stats", "Instance", "Hostname"),
		inTotal:   p.Field("stats", "Instance", "Total"),
		inTrx:     p.Field("stats", "Instance", "Trx"),
		freq:      p.Field("stats", "Collector", "Freq"),
		nInst:     map[*types.Var]bool{},
		repReport: "invoke " + modPath + "/stats.Reporter.Report",
		repStop:   "invoke " + modPath + "/stats.Reporter.Stop",
		statsPref: "(*" + modPath + "/stats.Stats).",
	}
	if r.typ == nil || structOf(r.typ) == nil || r.recv == nil || r.collect == nil || r.report == nil || r.stop == nil ||
		r.inNo == nil || r.inHost == nil || r.inTotal == nil || r.inTrx == nil || r.freq == nil {
		c.Missing(rule, "stats.Collector with Recv, Collect, Report, Stop, Freq; stats.Instance with Interval, Hostname, Total, Trx")
		return nil
	}
	inst := p.Type("stats", "Instance")
	rep := p.Type("stats", "Reporter")
	st := structOf(r.typ)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Type() == types.Type(inst) || types.Identical(f.Type(), inst) {
			r.local = f
		}
		if sl, ok := f.Type().Underlying().(*types.Slice); ok {
			if types.Identical(sl.Elem(), inst) {
				r.interval = f
			}
			if rep != nil && types.Identical(sl.Elem(), rep) {
				r.reporters = f
			}
		}
	}
	if r.interval == nil || r.reporters == nil || r.local == nil {
		c.Missing(rule, "Collector's instances, reporters and local instance")
		return nil
	}
	collField := func(v ssa.Value) *types.Var {
		v = stripConvSSA(v)
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return nil
		}
		f := fieldOf(u.X)
		if f == nil || !fieldOwner(r.typ, f) {
			return nil
		}
		return f
	}
	for fn := range p.Reach(r.recv, r.report, r.collect) {
		if fnPkgPath(fn) != modPath+"/stats" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					if ia, ok := i.Addr.(*ssa.IndexAddr); ok && collField(ia.X) == r.interval {
						if f := collField(ia.Index); f != nil {
							r.n = f
						}
					}
				case *ssa.BinOp:
					fx, fy := collField(i.X), collField(i.Y)
					isIn := func(v ssa.Value) bool {
						switch u := v.(type) {
						case *ssa.UnOp:
							return fieldOf(u.X) == r.inNo
						case *ssa.Field:
							return structField(u.X.Type(), u.Field) == r.inNo
						}
						return false
					}
					if fx != nil && isIn(i.Y) && !isIn(i.X) {
						r.no = fx
					}
					if fy != nil && isIn(i.X) && !isIn(i.Y) {
						r.no = fy
					}
				}
			}
		}
	}
	if r.n == nil || r.no == nil {
		c.Missing(rule, "Collector's count of instances received and number of the interval being filled")
		return nil
	}
	// fields that hold the number of instances: given the same value as the length of interval
	for _, fn := range p.FuncsOf("stats") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || fieldOf(st.Addr) != r.interval {
					continue
				}
				mk, ok := st.Val.(*ssa.MakeSlice)
				if !ok {
					continue
				}
				for _, b2 := range fn.Blocks {
					for _, in2 := range b2.Instrs {
						if s2, ok := in2.(*ssa.Store); ok {
							if f := fieldOf(s2.Addr); f != nil && fieldOwner(r.typ, f) && stripConvSSA(s2.Val) == stripConvSSA(mk.Len) {
								r.nInst[f] = true
							}
						}
					}
				}
			}
		}
	}
	return r
}

func ruleC27(c *Ctx) {
	const RC, RP, SN, ST, LK, TI = "receive", "report", "snapshot", "stop", "locked", "timing"
	c.Rule(RC, "Statistics received are dropped when their interval is past or the instance has reported already; when theirs is a later interval, the current one is reported first if it has any and then replaced; only then are they stored, at the end of those received, which are counted by one, and the interval is reported if it is complete now.")
	c.Rule(RP, "Every reporter is given, once, the instances received for the interval, when it is complete or forced; afterwards the next interval is being filled and none have been received; nothing else changes the number of the interval or forgets instances.")
	c.Rule(SN, "What Collect hands on is numbered one more than before, and its statistics are copies of the local ones.")
	c.Rule(ST, "Stopping first ends periodic collection, collects once more unless the interval was reported a moment ago, waits until the interval is reported or forces it at the timeout (asking under the same lock whether it has been reported meanwhile), and then stops every reporter once, after which nothing is reported.")
	r := c.collRoles(RC)
	if r == nil {
		return
	}
	c.Fn(r.recv, r.collect, r.report, r.stop)
	c.intervals(RC, RP, SN, r, r.recv)
	c.intervals(RC, RP, SN, r, r.collect)
	c.intervals(RC, RP, SN, r, r.report)
	c.stopping(ST, r)
	c.Rule(LK, "The interval being filled, what was received for it and when it was reported are read and written only under the collector's lock.")
	c.Borrow(LK, "C21", func(f Finding) bool { return strings.Contains(f.Construct, "stats.Collector") })
	c.Rule(TI, "The duration of an interval is the time since the last collection, which it then becomes, and its run time the time since the start; both are set when collection starts.")
	c.timing(TI)
}

func (c *Ctx) intervals(RC, RP, SN string, r *collRoles, root *ssa.Function) {
	p := c.P
	const (
		aLate   = iota // 1 in the past, 2 not
		aEarly         // 1 in the future, 2 not
		aSet           // interval number set to the received one
		aZero          // nothing received: n is known to be 0
		aDup           // 1 duplicates searched, 2 found
		aStored        // 1 stored, 2 counted
		aRep           // 1 reported, interval and n not moved on; bits 2 (number), 4 (count) when moved
		aRound         // reporter given it this round
		aFull          // 1 complete, 2 incomplete, 0 unknown (of the current n)
		aForce         // force parameter: 1 true, 2 false
		aEver          // reported in this run (after the last store)
		aMoved         // late etc: something changed
		aNum           // local interval number counted
		aTot           // total copied
		aTrx           // copy in this round of the loop over trx
		aTrxDone
		aSame // eq known: 2
	)
	// RV: 0 number compared, 1 host compared, 2 total copy, 3 trx map
	repLoop, dupLoop, trxLoop := map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}
	var x *Exec
	for pass := 0; pass < 2; pass++ {
		pass := pass
		x = NewExec(p, root)
		stt := p.Type("stats", "Stats")
		x.Inline = func(f *ssa.Function) bool {
			return fnPkgPath(f) == modPath+"/stats" && !ptrTo(recvType(f), stt) && f.Name() != "NewStats"
		}
		x.BlockEvents = true
		rc, rp, sn := c.pathRule(RC, x), c.pathRule(RP, x), c.pathRule(SN, x)
		rc.mute, rp.mute, sn.mute = pass == 0, pass == 0, pass == 0
		x.Hook = func(x *Exec, s *State, e *Event) {
			col := x.ArgVal(0)
			fa := func(f *types.Var) *Val { return x.T.fieldAddr(col, f) }
			cur := func(f *types.Var) *Val { return x.Load(s, fa(f), f.Type()) }
			isCur := func(v *Val, f *types.Var) bool { return stripConv(v) == stripConv(cur(f)) }
			isInst := func(v *Val) bool {
				v = stripConv(v)
				for f := range r.nInst {
					if isCur(v, f) {
						return true
					}
				}
				return v.Op == "len" && isCur(v.Args[0], r.interval)
			}
			isInNo := func(v *Val) bool {
				if f, b := v.loadedField(); f == r.inNo {
					return !(b.Op == "elem")
				}
				if root == r.collect && v == x.Load(s, x.T.fieldAddr(fa(r.local), r.inNo), r.inNo.Type()) {
					return true
				}
				return s.RV[0] != nil && v == s.RV[0]
			}
			val := e.Val
			if e.Raw != nil {
				val = e.Raw
			}
			switch e.Kind {
			case EvBranch:
				cond, taken := e.Cond, e.Taken
				for cond.Op == "not" {
					cond, taken = cond.Args[0], !taken
				}
				if root == r.report && len(root.Params) > 1 && cond == x.ArgVal(1) {
					s.A[aForce] = 2
					if taken {
						s.A[aForce] = 1
					}
				}
				if len(cond.Args) != 2 {
					return
				}
				a, b := cond.Args[0], cond.Args[1]
				yn := func(k int, y bool) {
					s.A[k] = 2
					if y {
						s.A[k] = 1
					}
				}
				switch {
				case cond.Op == "lss" && isCur(b, r.no) && isInNo(a):
					yn(aLate, taken)
					s.RV[0] = a
				case cond.Op == "lss" && isCur(a, r.no) && isInNo(b):
					yn(aEarly, taken)
					if taken {
						s.A[aLate] = 2
					}
					s.RV[0] = b
				case cond.Op == "eq" && (isCur(a, r.no) && isInNo(b) || isCur(b, r.no) && isInNo(a)):
					if isInNo(b) {
						a = b
					}
					s.RV[0] = a
					if taken {
						s.A[aLate], s.A[aEarly] = 2, 2
					} else {
						if s.A[aLate] == 2 {
							s.A[aEarly] = 1
						}
					}
				case cond.Op == "lss" && isCur(b, r.n):
					if k, ok := a.constInt(); ok && k == 0 && !taken {
						s.A[aZero] = 1
					}
					if isInst(a) && taken { // more than all
						s.A[aFull] = 1
					}
				case cond.Op == "lss" && isCur(a, r.n) && isInst(b):
					s.A[aFull] = 1
					if taken {
						s.A[aFull] = 2
					}
				case cond.Op == "lss" && isCur(a, r.n):
					if k, ok := b.constInt(); ok && k == 1 && taken {
						s.A[aZero] = 1
					}
				case cond.Op == "eq" && (isCur(a, r.n) || isCur(b, r.n)):
					o := a
					if isCur(a, r.n) {
						o = b
					}
					if k, ok := o.constInt(); ok && k == 0 && taken {
						s.A[aZero] = 1
					}
					if isInst(o) {
						s.A[aFull] = 2
						if taken {
							s.A[aFull] = 1
						}
					}
				case cond.Op == "eq":
					// host of a received instance against this one's
					was := func(v *Val) *Val { // what it was when it was read
						for x.wasOf[v] != nil {
							v = x.wasOf[v]
						}
						return v
					}
					fa1, b1 := was(a).loadedField()
					fb1, b2 := was(b).loadedField()
					if fa1 == r.inHost && fb1 == r.inHost {
						if b1.Op != "elem" {
							b1, b2 = b2, b1
							a, b = b, a
						}
						if b1.Op == "elem" && b2.Op != "elem" {
							l := x.LoopPath(s)
							if len(l) > 0 {
								dupLoop[l[len(l)-1].h] = true
							}
							s.RV[1] = b
							if taken {
								s.A[aDup] = 2
								if pass == 1 && !(s.A[aLate] == 2 && (s.A[aEarly] == 2 || s.A[aSet] == 1)) {
									rc.fail(s, e, "duplicate early", "an instance is taken for a duplicate although it reports another interval")
								}
							}
						}
					}
				}
			case EvStore:
				if e.Addr == fa(r.n) {
					s.A[aFull] = 0
					rp.obl(e, "n")
					k, isC := val.constInt()
					one := plusOne(val, e.old(x, s))
					switch {
					case isC && k == 0:
						if s.A[aRep] == 0 && s.A[aZero] != 1 {
							rp.fail(s, e, "forgotten", "instances received are forgotten without being reported")
						}
						s.A[aZero] = 1
						if s.A[aRep] != 0 {
							s.A[aRep] |= 4
						}
					case one:
						if s.A[aStored] != 1 {
							rc.fail(s, e, "count", "an instance is counted that was not stored")
						}
						s.A[aStored] = 2
						s.A[aZero] = 0
					default:
						rp.fail(s, e, "n", "the number of instances received is set to something else")
					}
					return
				}
				if e.Addr == fa(r.no) {
					rp.obl(e, "number")
					one := plusOne(val, e.old(x, s))
					switch {
					case one && s.A[aRep]&1 == 1 && s.A[aRep]&2 == 0:
						s.A[aRep] |= 2
					case s.RV[0] != nil && val == s.RV[0] && s.A[aEarly] == 1 && (s.A[aRep] != 0 || s.A[aZero] == 1):
						s.A[aSet] = 1
						if s.A[aRep] != 0 {
							s.A[aRep] |= 2
						}
					default:
						rp.fail(s, e, "number", "the number of the interval changes other than to the next one after reporting, or to the one received after reporting what there was")
					}
					return
				}
				if e.Addr.Op == "elem" {
					if f, b := e.Addr.Args[0].loadedField(); f == r.interval && b == col || isCur(e.Addr.Args[0], r.interval) {
						rc.obl(e, "store")
						if !isCur(e.Addr.Args[1], r.n) {
							rc.fail(s, e, "index", "the instance is not stored at the end of those received")
						}
						if s.A[aLate] != 2 {
							rc.fail(s, e, "late", "an instance is stored although its interval may be past")
						}
						if !(s.A[aEarly] == 2 || s.A[aSet] == 1 && s.A[aZero] == 1) {
							rc.fail(s, e, "early", "an instance is stored although its interval may be a later one than that being filled, or with those of another")
						}
						if pass == 1 && s.A[aDup] != 1 {
							rc.fail(s, e, "duplicate", "an instance is stored without asking whether it has reported this interval")
						}
						if s.A[aStored] != 0 {
							rc.fail(s, e, "twice", "an instance is stored twice")
						}
						if s.RV[0] != nil && x.T.vfield(val, r.inNo) != s.RV[0] {
							rc.fail(s, e, "other", "what is stored is not the instance whose interval was asked for")
						}
						if pass == 1 && s.RV[1] != nil && x.T.vfield(val, r.inHost) != s.RV[1] {
							rc.fail(s, e, "other host", "what is stored is not the instance whose host was searched")
						}
						s.A[aStored] = 1
						s.A[aEver] = 0
						if root == r.collect {
							sn.obl(e, "snapshot")
							if s.A[aNum] != 1 {
								sn.fail(s, e, "number", "the interval is not numbered one more than the one before")
							}
							if t := x.T.vfield(val, r.inTotal); t != s.RV[2] || s.RV[2] == nil || s.A[aTot] != 1 {
								sn.fail(s, e, "total", "the total handed on is not a copy of the local one made in this collection")
							}
							if t := x.T.vfield(val, r.inTrx); pass == 1 && (t.Op == "load" || s.A[aTrxDone] != 1) {
								sn.fail(s, e, "trx", "the statistics per trx handed on are not copies of the local ones")
							}
						}
						return
					}
				}
				if e.Addr.Op == "field" && e.Addr.Fld == r.inNo && e.Addr.Args[0] == fa(r.local) {
					if s.A[aNum] != 0 || !plusOne(val, e.old(x, s)) {
						sn.fail(s, e, "number", "the interval is not numbered one more than the one before")
					}
					s.A[aNum] = 1
				}
			case EvCall:
				switch e.Callee {
				case r.repReport:
					rp.obl(e, "reporter")
					l := x.LoopPath(s)
					if len(l) == 0 {
						rp.fail(s, e, "loop", "reporters are not called in a loop over all of them")
						return
					}
					repLoop[l[len(l)-1].h] = true
					if s.A[aRound] != 0 {
						rp.fail(s, e, "twice", "a reporter is given the interval twice")
					}
					s.A[aRound] = 1
					a := e.Args[1]
					okk := false
					if (a.Op == "subslice" || a.Op == "slice") && isCur(a.Args[0], r.interval) {
						k, isC := a.Args[1].constInt()
						okk = (a.Args[1].isNil() || isC && k == 0) && isCur(a.Args[2], r.n)
					}
					if !okk {
						rp.fail(s, e, "what", "what reporters are given is not exactly the instances received for the interval")
					}
					if s.A[aRep]&6 != 0 {
						rp.fail(s, e, "after", "reporters are called after the interval was moved on")
					}
				case r.statsPref + "Copy":
					if f, b := e.Args[1].loadedField(); f == r.inTotal && b == fa(r.local) && e.Args[0].Op != "load" {
						s.RV[2] = e.Args[0]
						s.A[aTot] = 1
						return
					}
					if l := x.LoopPath(s); len(l) > 0 && root == r.collect {
						trxLoop[l[len(l)-1].h] = true
						s.A[aTrx] = 1
					}
				}
			case EvBlock:
				h := e.Block
				if repLoop[h] && pass == 1 {
					if e.Back {
						if s.A[aRound] == 0 {
							rp.fail(s, e, "left out", "a reporter can be left out")
						}
					} else {
						switch {
						case s.A[aFull] == 1:
						case root == r.report && s.A[aForce] == 1:
						case root != r.report && s.A[aEarly] == 1 && s.A[aLate] != 1 && s.A[aSet] == 0 && s.A[aStored] == 0:
						default:
							rp.fail(s, e, "incomplete", "an interval is reported although it may be incomplete and nothing forces it")
						}
						if s.A[aRep] != 0 && s.A[aRep] != 7 && s.A[aSet] == 0 {
							rp.fail(s, e, "again", "an interval is reported twice")
						}
						if s.A[aStored] == 1 {
							rc.fail(s, e, "uncounted", "the interval is reported before the last instance is counted")
						}
						s.A[aRep] = 1
						s.A[aEver] = 1
					}
					s.A[aRound] = 0
				}
				if dupLoop[h] && pass == 1 && !e.Back && s.A[aDup] == 0 {
					s.A[aDup] = 1
				}
				if trxLoop[h] && pass == 1 {
					if e.Back && s.A[aTrx] == 0 {
						sn.fail(s, e, "trx left out", "the statistics of a trx can be left out of what is handed on")
					}
					s.A[aTrx] = 0
					s.A[aTrxDone] = 1
				}
			case EvReturn:
				if e.Fn != root {
					return
				}
				rc.obl(e, "end")
				if s.A[aDup] == 2 && s.A[aZero] == 1 {
					return // none received: none found
				}
				if s.A[aRep] != 0 && s.A[aRep] != 7 {
					rp.fail(s, e, "not moved on", "after reporting, the next interval is not started empty")
				}
				if s.A[aStored] == 1 {
					rc.fail(s, e, "uncounted", "an instance is stored but not counted")
				}
				if pass == 1 && s.A[aStored] == 2 && s.A[aEver] == 0 && s.A[aFull] != 2 {
					rc.fail(s, e, "complete", "the interval can be complete without being reported")
				}
				if root != r.report && s.A[aStored] == 0 && pass == 1 && s.A[aLate] != 1 && s.A[aDup] != 2 {
					rc.fail(s, e, "lost", "an instance is neither stored, nor late, nor a duplicate")
				}
				if root == r.report && s.A[aEver] == 0 && pass == 1 && (s.A[aForce] == 1 || s.A[aFull] == 1) {
					rp.fail(s, e, "kept", "a complete or forced interval is not reported")
				}
				if root != r.recv && len(e.Res) == 1 && pass == 1 {
					b, ok := e.Res[0].constBool()
					if !ok {
						rp.fail(s, e, "result", "it is not known whether the result tells that the interval was reported")
					} else if b != (s.A[aEver] == 1) {
						rp.fail(s, e, "result", "the result does not tell whether the interval was reported")
					}
				}
			}
		}
		x.Run(nil, nil)
	}
	c.finish(RC, x)
	c.finish(RP, x)
	if root == r.collect {
		c.finish(SN, x)
	}
	if root != r.report {
		c.Require(RC, len(dupLoop), 1, "searches for duplicates in "+shortFn(root))
	}
	c.Require(RP, len(repLoop), 1, "loops over reporters in "+shortFn(root))
	for h := range repLoop {
		c.wholeField(RP, h, r.reporters, "reporters")
	}
	found := func(from, to *ssa.BasicBlock) bool { // left because the host was found
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		b, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		host := func(v ssa.Value) bool {
			switch u := v.(type) {
			case *ssa.UnOp:
				return fieldOf(u.X) == r.inHost
			case *ssa.Field:
				return structField(u.X.Type(), u.Field) == r.inHost
			}
			return false
		}
		k := 0
		if b.Op == token.NEQ {
			k = 1
		} else if b.Op != token.EQL {
			return false
		}
		return (host(b.X) || host(b.Y)) && from.Succs[k] == to
	}
	for h := range dupLoop {
		c.Obl(RC, "search")
		lim, _, first, why := indexLoopIf(h, found)
		if why == "" && (first != 0 || !c.countedBy(lim, r)) {
			why = "it does not go over exactly the instances received"
		}
		if why != "" {
			c.Fail(RC, shortFn(h.Parent())+":search", firstPos(h), "the search for duplicates does not see every instance received: "+why)
		}
	}
}

// plusOne: v is old and one.
func plusOne(v, old *Val) bool {
	if a, ok := v.constInt(); ok {
		b, ok := old.constInt()
		return ok && a == b+1
	}
	b1, k1 := lin(stripConv(v))
	b2, k2 := lin(stripConv(old))
	return b1 == b2 && k1 == k2+1
}

// old: the value at the address before the store.
func (e *Event) old(x *Exec, s *State) *Val {
	return x.Load(s, e.Addr, deref(e.Instr.(*ssa.Store).Addr.Type()))
}

func (c *Ctx) wholeField(rule string, h *ssa.BasicBlock, f *types.Var, what string) {
	c.Obl(rule, "loop over "+what)
	sl, why := fullRange(h)
	if why == "" && !c.P.allOf(sl, f, 0, map[ssa.Value]bool{}) {
		why = "it ranges over something else"
	}
	if why != "" {
		c.Fail(rule, shortFn(h.Parent())+":"+what, firstPos(h), "the loop over "+what+" does not visit all of them: "+why)
	}
}

// countedBy: the limit is the count of instances received, or the length of the slice of them.
func (c *Ctx) countedBy(lim ssa.Value, r *collRoles) bool {
	lim = stripConvSSA(lim)
	if u, ok := lim.(*ssa.UnOp); ok && fieldOf(u.X) == r.n {
		return true
	}
	if sl := isLen(lim); sl != nil {
		if s, ok := sl.(*ssa.Slice); ok {
			if s.Low != nil && !isConstInt(s.Low, 0) || s.High == nil {
				return false
			}
			u, ok := stripConvSSA(s.High).(*ssa.UnOp)
			return ok && fieldOf(u.X) == r.n
		}
	}
	return false
}

func (c *Ctx) stopping(rule string, r *collRoles) {
	p := c.P
	const (
		aColl   = iota // collections
		aClosed        // a channel of the collector closed
		aJoined        // waited for the goroutine
		aOK            // reported, known recent, or forced
		aRound
		aStops // reporters stopped
		aFreq  // 1 zero, 2 not
		aCur   // known not to be reported yet, since the lock was taken
		aRecent
	)
	stopLoop := map[*ssa.BasicBlock]bool{}
	var x *Exec
	for pass := 0; pass < 2; pass++ {
		pass := pass
		x = NewExec(p, r.stop)
		x.Inline = func(f *ssa.Function) bool {
			return fnPkgPath(f) == modPath+"/stats" && f != r.collect && f != r.report && !ptrTo(recvType(f), p.Type("stats", "Stats"))
		}
		x.BlockEvents = true
		pr := c.pathRule(rule, x)
		pr.mute = pass == 0
		x.Hook = func(x *Exec, s *State, e *Event) {
			col := x.ArgVal(0)
			ready := func() {
				if s.A[aStops] != 0 {
					pr.fail(s, e, "late", "statistics are collected or reported after the reporters were stopped")
				}
				if s.A[aFreq] != 1 && s.A[aJoined] == 0 {
					pr.fail(s, e, "running", "statistics are collected or reported before periodic collection has ended")
				}
			}
			switch e.Kind {
			case EvCall:
				switch {
				case e.Target == r.collect:
					ready()
					pr.obl(e, "collect")
					s.A[aColl]++
					if s.A[aColl] > 1 {
						pr.fail(s, e, "collected twice", "the final interval is collected twice")
					}
				case e.Target == r.report:
					ready()
					pr.obl(e, "report")
					if s.A[aCur] == 0 {
						pr.fail(s, e, "empty", "the interval is reported without asking, under the same lock, whether it has been reported already: an empty interval is reported")
					}
					if b, ok := e.Args[1].constBool(); ok && b {
						s.A[aOK] = 1
					}
				case strings.HasSuffix(e.Callee, "Mutex).Unlock"):
					s.A[aCur] = 0
				case e.Callee == "builtin close":
					if f, b := e.Args[0].loadedField(); f != nil && b == col {
						s.A[aClosed] = 1
					}
				case e.Callee == r.repStop:
					pr.obl(e, "stop reporter")
					l := x.LoopPath(s)
					if len(l) == 0 {
						pr.fail(s, e, "loop", "reporters are not stopped in a loop over all of them")
						return
					}
					stopLoop[l[len(l)-1].h] = true
					if s.A[aRound] != 0 {
						pr.fail(s, e, "twice", "a reporter is stopped twice")
					}
					s.A[aRound] = 1
				}
			case EvRet:
				if (e.Target == r.collect || e.Target == r.report) && len(e.Res) == 1 {
					s.RV[0] = e.Res[0]
					if e.Target == r.collect {
						s.RV[1] = e.Res[0]
					}
				}
			case EvRecv:
				if f, b := e.Chan.loadedField(); f != nil && b == col && s.A[aClosed] == 1 {
					s.A[aJoined] = 1
				}
			case EvBranch:
				cond, taken := e.Cond, e.Taken
				for cond.Op == "not" {
					cond, taken = cond.Args[0], !taken
				}
				if taken && (cond == s.RV[0] || cond == s.RV[1]) {
					s.A[aOK] = 1
				}
				if len(cond.Args) == 2 {
					fa, ba := stripConv(cond.Args[0]).loadedField()
					fb, bb := stripConv(cond.Args[1]).loadedField()
					_ = bb
					k0, isC0 := cond.Args[0].constInt()
					k1, isC1 := cond.Args[1].constInt()
					switch {
					case cond.Op == "eq" && fa == r.freq && ba == col && isC1 && k1 == 0:
						s.A[aFreq] = 2
						if taken {
							s.A[aFreq] = 1
						}
					case cond.Op == "lss" && isC0 && k0 == 0 && fb == r.freq && bb == col:
						if s.A[aFreq] == 0 {
							s.A[aFreq] = 1
							if taken {
								s.A[aFreq] = 2
							}
						} else if s.A[aFreq] == 2 && !taken {
							s.A[aFreq] = 3 // negative: refused by the configuration
						}
					case cond.Op == "lss" && taken && fa == r.inNo && fb == r.no:
						s.A[aOK] = 1 // interval is past
					case cond.Op == "lss" && !taken && fa == r.inNo && fb == r.no, cond.Op == "eq" && taken && (fa == r.inNo && fb == r.no || fa == r.no && fb == r.inNo),
						cond.Op == "lss" && taken && isC0 && k0 == 0 && fb == r.n, cond.Op == "eq" && !taken && fa == r.n && isC1 && k1 == 0:
						s.A[aCur] = 1 // not reported yet
					case cond.Op == "lss" && taken && cond.Args[1].find(func(v *Val) bool { return v.Op == "field" && v.Fld == r.freq }) != nil:
						// reported a moment ago: less than half the frequency
						y, z := stripConv(cond.Args[1]), stripConv(cond.Args[0])
						half := func(v *Val, op string, min int64) bool {
							if v.Op != op {
								return false
							}
							for _, a := range v.Args {
								if k, ok := a.constInt(); ok && k >= min {
									return true
								}
							}
							return false
						}
						if half(y, "bin/", 2) || half(y, "bin>>", 1) || half(z, "bin*", 2) {
							s.A[aOK] = 1
							s.A[aRecent] = 1
						}
					}
				}
			case EvBlock:
				if stopLoop[e.Block] && pass == 1 {
					if e.Back {
						if s.A[aRound] == 0 {
							pr.fail(s, e, "left out", "a reporter can be left running")
						}
					} else {
						if s.A[aStops] != 0 {
							pr.fail(s, e, "again", "the reporters are stopped twice")
						}
						s.A[aStops] = 1
						if s.A[aFreq] != 1 && s.A[aJoined] == 0 {
							pr.fail(s, e, "running", "reporters are stopped while periodic collection can still report")
						}
						if s.A[aFreq] != 1 && s.A[aFreq] != 3 && s.A[aColl] == 0 && s.A[aRecent] == 0 {
							pr.fail(s, e, "last interval", "the final interval is not collected although the last report may be longer ago than half the frequency")
						}
						if s.A[aFreq] == 1 && s.A[aColl] == 0 {
							pr.fail(s, e, "never", "without periodic collection nothing is ever collected")
						}
						if s.A[aOK] == 0 {
							pr.fail(s, e, "unreported", "reporters are stopped although the final interval may not be reported and was not forced")
						}
					}
					s.A[aRound] = 0
				}
			case EvReturn:
				if e.Fn == r.stop {
					pr.obl(e, "end")
					if pass == 1 && s.A[aStops] == 0 {
						pr.fail(s, e, "not stopped", "the reporters are not stopped")
					}
				}
			}
		}
		x.Run(nil, nil)
	}
	c.finish(rule, x)
	c.Require(rule, len(stopLoop), 1, "loops over reporters")
	for h := range stopLoop {
		c.wholeField(rule, h, r.reporters, "reporters")
	}
}
