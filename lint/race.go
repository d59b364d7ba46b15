package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C21"] = ruleC21
}

// published: the object may be visible to others when the instruction runs (it was passed,
// stored or captured before).
func published(v ssa.Value, at ssa.Instruction) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return true
	}
	for _, r := range *al.Referrers() {
		esc := false
		switch r := r.(type) {
		case *ssa.Store:
			esc = r.Val == al
		case *ssa.MakeClosure, *ssa.MakeInterface, *ssa.Send, *ssa.MapUpdate:
			esc = true
		case ssa.CallInstruction:
			if _, _, _, isLock := lockOp(r.Common()); !isLock {
				esc = true
			}
		}
		if esc && r != at && instrBefore(r, at) {
			return true
		}
	}
	return false
}

// instrBefore: control can get from a to b.
func instrBefore(a, b ssa.Instruction) bool {
	ab, bb := a.Block(), b.Block()
	if ab == bb {
		for _, in := range ab.Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, ab.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == bb {
			return true
		}
		st = append(st, x.Succs...)
	}
	return false
}

// underNil: the instruction runs only when field f of the same object is nil.
func underNil(base ssa.Value, lockOwner types.Type, at ssa.Instruction) bool {
	for _, b := range at.Parent().Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) {
			continue
		}
		v := bo.X
		if k, ok := bo.Y.(*ssa.Const); !ok || k.Value != nil {
			if k, ok := bo.X.(*ssa.Const); !ok || k.Value != nil {
				continue
			}
			v = bo.Y
		}
		u, ok := v.(*ssa.UnOp)
		if !ok {
			continue
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || !samePath(fa.X, base) || !types.Identical(deref(u.Type()), lockOwner) {
			continue
		}
		t := b.Succs[0]
		if bo.Op == token.NEQ {
			t = b.Succs[1]
		}
		if len(t.Preds) == 1 && t.Dominates(at.Block()) {
			return true
		}
	}
	return false
}

// blockingCall names library calls that may wait for a peer.
func blockingCall(c *ssa.CallCommon) string {
	n := calleeName(c)
	switch n {
	case "time.Sleep", "io.ReadAll", "io/ioutil.ReadAll", "io.Copy", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait",
		"invoke net/http.ResponseWriter.Write", "(*encoding/json.Encoder).Encode", "(*encoding/json.Decoder).Decode",
		"(*net/http.Server).ListenAndServe", "(*net/http.Server).Shutdown", "net.Listen":
		return n
	}
	if hasAnyPrefix(n, "(*net/http.Client).", "net/http.Get", "net/http.Post", "net/http.Head", "net.Dial", "(*net.", "(*os/exec.Cmd).", "(*database/sql.", "(*github.com/square/finch/proto.Client).") {
		return n
	}
	return ""
}

// blocks reports why a function may wait for a peer, "" if it does not.
func (l *lockInfo) blocks(fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[fn] {
		return ""
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if w := l.blockingInstr(in, seen); w != "" {
				return w
			}
		}
	}
	return ""
}

func (l *lockInfo) blockingInstr(in ssa.Instruction, seen map[*ssa.Function]bool) string {
	switch i := in.(type) {
	case *ssa.Send:
		return "channel send"
	case *ssa.UnOp:
		if i.Op == token.ARROW {
			return "channel receive"
		}
	case *ssa.Select:
		if i.Blocking {
			return "select"
		}
	case *ssa.Call, *ssa.Defer:
		ci := in.(ssa.CallInstruction)
		if n := blockingCall(ci.Common()); n != "" {
			return n
		}
		for _, f := range l.callees[in] {
			if w := l.blocks(f, seen); w != "" {
				return w + " in " + shortFn(f)
			}
		}
	}
	return ""
}

func inPkgs(fn *ssa.Function, rels ...string) bool {
	pp := fnPkgPath(fn)
	for _, r := range rels {
		if pp == modPath+"/"+r {
			return true
		}
	}
	return false
}

func ruleC21(c *Ctx) {
	const G, R, D, O, B = "guarded-by", "released", "self-deadlock", "lock-order", "no-wait-under-lock"
	c.Rule(G, "Every access to a field protected by a lock (the documented ones, and every field of a struct with a mutex whose accesses are mostly under it), once its object is visible to others, happens with that lock held on every path, for writing when it writes (interprocedural must-lockset).")
	c.Rule(R, "Every lock of compute and stats that is acquired is released on every path out of the function (deferred unlocks included) unless the function always returns holding it, and nothing is unlocked that is not held.")
	c.Rule(D, "A lock is never acquired, directly or in a callee, where it may already be held.")
	c.Rule(O, "The relation 'acquired while holding' over the locks of compute and stats has no cycle.")
	c.Rule(B, "While a lock of compute or stats may be held, nothing waits: no channel operation without a default, no sleep, no network, database or body I/O, directly or in a callee.")
	l := c.P.locks()
	for _, in := range l.unknown {
		c.Fail(R, shortFn(in.Parent())+":unknown lock", in.Pos(), "cannot tell which lock this operation is on")
	}

	// --- guarded fields
	var gs []guarded
	seenG := map[*types.Var]bool{}
	addG := func(f *types.Var, lk types.Object) {
		if f != nil && lk != nil && !seenG[f] {
			seenG[f] = true
			gs = append(gs, guarded{f, lk})
		}
	}
	base := []struct{ rel, typ, fld, lrel, ltyp string }{
		{"compute", "API", "stage", "compute", "API"},
		{"compute", "stageMeta", "booted", "compute", "stageMeta"},
		{"compute", "stageMeta", "done", "compute", "stageMeta"},
		{"compute", "stageMeta", "clients", "compute", "stageMeta"},
		{"compute", "client", "state", "compute", "stageMeta"},
		{"stats", "Collector", "intervalNo", "stats", "Collector"},
		{"stats", "Collector", "interval", "stats", "Collector"},
		{"stats", "Collector", "n", "stats", "Collector"},
		{"stats", "Collector", "reported", "stats", "Collector"},
	}
	for _, b := range base {
		st := c.P.structOf(b.lrel, b.ltyp)
		if st == nil {
			continue // renamed: found by inference
		}
		if m := mutexField(st); m != nil {
			addG(c.P.Field(b.rel, b.typ, b.fld), m)
		}
	}
	acc := map[*types.Var][]fieldAccess{}
	for _, fn := range c.P.Funcs {
		if fn.Synthetic != "" && fn.Name() == "init" {
			continue
		}
		for _, a := range c.P.accesses(fn) {
			if !published(a.base, a.in) {
				continue
			}
			acc[a.fld] = append(acc[a.fld], a)
		}
	}
	srv := func(o types.Object) bool {
		return o != nil && o.Pkg() != nil && (o.Pkg().Path() == modPath+"/compute" || o.Pkg().Path() == modPath+"/stats")
	}
	for _, pk := range c.P.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || !srv(tn) {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			m := mutexField(st)
			if m == nil {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				w, in, out := 0, 0, 0
				for _, a := range acc[f] {
					if a.write {
						w++
					}
					if l.must[a.in][m] > 0 {
						in++
					} else {
						out++
					}
				}
				if f != m && w > 0 && in >= 3 && out*3 <= in {
					addG(f, m)
				}
			}
		}
	}
	nAcc := 0
	for _, g := range gs {
		owner := c.ownerOf(g.lock)
		for _, a := range acc[g.fld] {
			c.Fn(a.in.Parent())
			nAcc++
			c.Obl(G, c.P.lockName(g.fld)+" in "+shortFn(a.in.Parent()))
			h := l.must[a.in][g.lock]
			if h == 2 || h == 1 && !a.write {
				continue
			}
			if owner != nil && underNil(a.base, owner, a.in) {
				continue // no owner of the lock yet: not shared
			}
			what := "read"
			if a.write {
				what = "written"
			}
			pos := a.in.Pos()
			if pos == token.NoPos {
				pos = a.in.Parent().Pos()
			}
			c.Fail(G, shortFn(a.in.Parent())+":"+c.P.lockName(g.fld), pos, fmt.Sprintf("%s is %s without holding %s on every path", c.P.lockName(g.fld), what, c.P.lockName(g.lock)))
		}
	}
	c.Require(G, len(gs), 8, "guarded fields")
	c.Require(G, nAcc, 30, "accesses to guarded fields")

	// --- release, double, order, blocking
	edges := map[types.Object]map[types.Object]ssa.Instruction{}
	addEdge := func(a, b types.Object, in ssa.Instruction) {
		if edges[a] == nil {
			edges[a] = map[types.Object]ssa.Instruction{}
		}
		if edges[a][b] == nil {
			edges[a][b] = in
		}
	}
	nLock, nHeld := 0, 0
	for _, fn := range c.P.Funcs {
		touches := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				lk, m, a, isL := lockOp(ci.Common())
				if isL && lk != nil && !srv(lk) {
					continue
				}
				if isL && lk != nil {
					touches = true
					_, isDefer := in.(*ssa.Defer)
					switch {
					case a && !isDefer:
						nLock++
						c.Obl(R, "lock "+c.P.lockName(lk)+" in "+shortFn(fn))
						c.Obl(D, "lock "+c.P.lockName(lk)+" in "+shortFn(fn))
						for h, hm := range l.may[in] {
							if h == lk && (m == 2 || hm == 2) {
								c.Fail(D, shortFn(fn)+":"+c.P.lockName(lk), in.Pos(), "acquires "+c.P.lockName(lk)+" where it may already be held: deadlock")
							} else if h != lk {
								addEdge(h, lk, in)
							}
						}
					case !a && !isDefer:
						if l.must[in][lk] == 0 {
							c.Fail(R, shortFn(fn)+":unlock "+c.P.lockName(lk), in.Pos(), "unlocks "+c.P.lockName(lk)+" where it is not held on every path")
						}
						if hm := l.must[in][lk]; hm > 0 && hm != m {
							c.Fail(R, shortFn(fn)+":unlock kind "+c.P.lockName(lk), in.Pos(), "unlocks "+c.P.lockName(lk)+" in another mode than it was locked")
						}
					case !a && isDefer:
						for _, b2 := range fn.Blocks {
							if rd := runDefers(b2); rd != nil && b.Dominates(b2) && l.must[rd] != nil && l.must[rd][lk] == 0 {
								c.Fail(R, shortFn(fn)+":deferred unlock "+c.P.lockName(lk), in.Pos(), "the deferred unlock of "+c.P.lockName(lk)+" runs where it is not held on every path")
							}
						}
					}
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				for _, f := range l.callees[in] {
					for t, tm := range l.takes[f] {
						if !srv(t) {
							continue
						}
						for h, hm := range l.may[in] {
							if h == t && (tm == 2 || hm == 2) {
								if l.rel[f][t] > 0 {
									continue // releases it first
								}
								c.Fail(D, shortFn(fn)+":"+c.P.lockName(t)+" via "+shortFn(f), in.Pos(), shortFn(f)+" acquires "+c.P.lockName(t)+" which may already be held here: deadlock")
							} else if h != t && srv(h) {
								addEdge(h, t, in)
							}
						}
					}
				}
			}
		}
		if touches {
			c.Fn(fn)
			for _, b := range fn.Blocks {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				for lk := range l.exitMay[r] {
					if l.acq[fn][lk] > 0 && len(l.callers[fn]) > 0 {
						continue
					}
					pos := r.Pos()
					if pos == token.NoPos {
						pos = fn.Pos()
					}
					c.Fail(R, shortFn(fn)+":"+c.P.lockName(lk), pos, "returns with "+c.P.lockName(lk)+" possibly still locked")
				}
			}
		}
		// nothing waits under a lock of compute or stats
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var hs []types.Object
				for _, h := range sortedObjs(l.may[in]) {
					if srv(h) {
						hs = append(hs, h)
					}
				}
				if len(hs) == 0 {
					continue
				}
				nHeld++
				if _, isDefer := in.(*ssa.Defer); isDefer {
					continue
				}
				if w := l.blockingInstr(in, map[*ssa.Function]bool{}); w != "" {
					var ns []string
					for _, h := range hs {
						ns = append(ns, c.P.lockName(h))
					}
					pos := in.Pos()
					if pos == token.NoPos {
						pos = fn.Pos()
					}
					c.Fail(B, shortFn(fn)+":"+w, pos, "may wait ("+w+") while holding "+strings.Join(ns, ", "))
				} else if _, ok := in.(ssa.CallInstruction); ok {
					c.Obl(B, shortFn(fn)+" calls under a lock")
				}
			}
		}
	}
	c.Require(R, nLock, 15, "lock acquisitions")
	c.Require(B, nHeld, 50, "instructions under a lock")
	// cycles
	var objs []types.Object
	for o := range edges {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	n := 0
	for _, o := range objs {
		for t, in := range edges[o] {
			n++
			c.Obl(O, c.P.lockName(o)+" before "+c.P.lockName(t))
			if lockPath(edges, t, o, map[types.Object]bool{}) {
				c.Fail(O, c.P.lockName(o)+" and "+c.P.lockName(t), in.Pos(), c.P.lockName(t)+" is acquired while holding "+c.P.lockName(o)+", and elsewhere the other way round: deadlock")
			}
		}
	}
	c.Require(O, n, 1, "pairs of nested locks")
}

func lockPath(e map[types.Object]map[types.Object]ssa.Instruction, from, to types.Object, seen map[types.Object]bool) bool {
	if from == to {
		return true
	}
	if seen[from] {
		return false
	}
	seen[from] = true
	for t := range e[from] {
		if lockPath(e, t, to, seen) {
			return true
		}
	}
	return false
}

// ownerOf is the struct type holding a mutex field.
func (c *Ctx) ownerOf(lock types.Object) types.Type {
	v, ok := lock.(*types.Var)
	if !ok || !v.IsField() {
		return nil
	}
	for _, pk := range c.P.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i) == v {
							return tn.Type()
						}
					}
				}
			}
		}
	}
	return nil
}
