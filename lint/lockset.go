package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockSet maps a lock (the struct field or variable holding the mutex) to how it is held: 1 read, 2 write.
type lockSet map[types.Object]int

func (a lockSet) clone() lockSet {
	b := lockSet{}
	for k, v := range a {
		b[k] = v
	}
	return b
}

func (a lockSet) equal(b lockSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func meet(a, b lockSet) lockSet {
	o := lockSet{}
	for k, v := range a {
		if w := b[k]; w > 0 {
			if w < v {
				v = w
			}
			o[k] = v
		}
	}
	return o
}

func union(a, b lockSet) lockSet {
	o := a.clone()
	for k, v := range b {
		if v > o[k] {
			o[k] = v
		}
	}
	return o
}

// lockOp recognises sync.Mutex and sync.RWMutex operations.
func lockOp(c *ssa.CallCommon) (lock types.Object, mode int, acquire, ok bool) {
	n := calleeName(c)
	if !strings.HasPrefix(n, "(*sync.") {
		if n == "invoke sync.Locker.Lock" || n == "invoke sync.Locker.Unlock" {
			return nil, 2, n == "invoke sync.Locker.Lock", false
		}
		return
	}
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		mode, acquire = 2, true
	case "(*sync.RWMutex).RLock":
		mode, acquire = 1, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		mode = 2
	case "(*sync.RWMutex).RUnlock":
		mode = 1
	default:
		return
	}
	lock = lockObj(c.Args[0])
	return lock, mode, acquire, true
}

// lockObj identifies a mutex by the field or variable that holds it.
func lockObj(v ssa.Value) types.Object {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return fieldOf(x)
		case *ssa.Field:
			return structField(x.X.Type(), x.Field)
		case *ssa.Global:
			return x.Object()
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.Alloc:
			// a local holding the pointer: its only store
			var st ssa.Value
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x {
					st = s.Val
				}
			}
			if st != nil {
				v = st
				continue
			}
		case *ssa.Phi:
			v = x.Edges[0]
			continue
		}
		return nil
	}
	return nil
}

// lockInfo is the lockset analysis of the whole program.
type lockInfo struct {
	p         *Prog
	must, may map[ssa.Instruction]lockSet // held before the instruction
	acq       map[*ssa.Function]lockSet   // net acquired on every path
	acqMay    map[*ssa.Function]lockSet
	rel       map[*ssa.Function]lockSet // released without having been acquired
	takes     map[*ssa.Function]lockSet // acquired anywhere below
	unknown   []ssa.Instruction
	entryMust map[*ssa.Function]lockSet // nil: not yet reached
	entryMay  map[*ssa.Function]lockSet
	callees   map[ssa.Instruction][]*ssa.Function
	callers   map[*ssa.Function][]ssa.Instruction
	exitMust  map[ssa.Instruction]lockSet // at returns, relative
	exitMay   map[ssa.Instruction]lockSet
}

type lockState struct {
	held, defMust, defMay lockSet
}

func (p *Prog) locks() *lockInfo {
	if p.lockCache != nil {
		return p.lockCache
	}
	l := &lockInfo{p: p,
		must: map[ssa.Instruction]lockSet{}, may: map[ssa.Instruction]lockSet{},
		acq: map[*ssa.Function]lockSet{}, acqMay: map[*ssa.Function]lockSet{}, rel: map[*ssa.Function]lockSet{}, takes: map[*ssa.Function]lockSet{},
		entryMust: map[*ssa.Function]lockSet{}, entryMay: map[*ssa.Function]lockSet{},
		callees: map[ssa.Instruction][]*ssa.Function{}, callers: map[*ssa.Function][]ssa.Instruction{},
		exitMust: map[ssa.Instruction]lockSet{}, exitMay: map[ssa.Instruction]lockSet{},
	}
	p.lockCache = l
	rootFn := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		l.acq[fn], l.acqMay[fn], l.rel[fn], l.takes[fn] = lockSet{}, lockSet{}, lockSet{}, lockSet{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				var direct ssa.Value
				if isCall {
					direct = ci.Common().Value
					if lk, _, _, ok := lockOp(ci.Common()); ok && lk == nil {
						l.unknown = append(l.unknown, in)
					}
					_, isGo := in.(*ssa.Go)
					var fs []*ssa.Function
					if ci.Common().IsInvoke() {
						fs = p.Implementations(ci.Common())
					} else if f := ci.Common().StaticCallee(); f != nil && len(f.Blocks) > 0 {
						fs = append(fs, f)
					}
					for _, f := range fs {
						if !p.IsRepo(f) && f.Synthetic == "" {
							continue
						}
						if isGo {
							rootFn[f] = true
							continue
						}
						l.callees[in] = append(l.callees[in], f)
						l.callers[f] = append(l.callers[f], in)
					}
				}
				// functions used as values can be called from anywhere
				for _, op := range in.Operands(nil) {
					if *op == direct && isCall {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						if _, isMC := in.(*ssa.MakeClosure); isMC {
							continue
						}
						rootFn[f] = true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					for _, r := range *mc.Referrers() {
						if c, ok := r.(ssa.CallInstruction); ok && c.Common().Value == mc {
							if _, isGo := r.(*ssa.Go); !isGo {
								continue
							}
						}
						rootFn[f] = true
						for _, g := range boundTarget(f) {
							rootFn[g] = true
						}
					}
				}
			}
		}
	}
	// summaries, relative to an empty entry set
	for ch := true; ch; {
		ch = false
		for _, fn := range p.Funcs {
			a, am, r, t := l.summary(fn)
			if !a.equal(l.acq[fn]) || !am.equal(l.acqMay[fn]) || !r.equal(l.rel[fn]) || !t.equal(l.takes[fn]) {
				l.acq[fn], l.acqMay[fn], l.rel[fn], l.takes[fn] = a, am, r, t
				ch = true
			}
		}
	}
	// entry sets
	for _, fn := range p.Funcs {
		l.entryMay[fn] = lockSet{}
		if rootFn[fn] || len(l.callers[fn]) == 0 {
			l.entryMust[fn] = lockSet{}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range p.Funcs {
			em := l.entryMust[fn]
			if em == nil {
				continue
			}
			l.flow(fn, em, l.entryMay[fn], true)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, f := range l.callees[in] {
						at, am := l.must[in], l.may[in]
						if _, isD := in.(*ssa.Defer); isD { // runs at return: what is held there varies
							at = lockSet{}
							for _, b2 := range fn.Blocks {
								if rd := runDefers(b2); rd != nil {
									am = union(am, l.may[rd])
								}
							}
						}
						n := at
						if old := l.entryMust[f]; old != nil {
							n = meet(old, at)
						}
						if rootFn[f] {
							n = lockSet{}
						}
						if l.entryMust[f] == nil || !n.equal(l.entryMust[f]) {
							l.entryMust[f] = n
							ch = true
						}
						if u := union(l.entryMay[f], am); !u.equal(l.entryMay[f]) {
							l.entryMay[f] = u
							ch = true
						}
					}
				}
			}
		}
	}
	// functions never reached from the repository: assume nothing held
	for _, fn := range p.Funcs {
		if l.entryMust[fn] == nil {
			l.entryMust[fn] = lockSet{}
		}
		l.flow(fn, l.entryMust[fn], l.entryMay[fn], true)
	}
	return l
}

// boundTarget: the method behind a bound-method closure.
func boundTarget(f *ssa.Function) []*ssa.Function {
	if f.Synthetic == "" {
		return nil
	}
	var out []*ssa.Function
	for _, c := range callsOf(f) {
		if g := c.Common().StaticCallee(); g != nil {
			out = append(out, g)
		}
	}
	return out
}

func runDefers(b *ssa.BasicBlock) ssa.Instruction {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.RunDefers); ok {
			return in
		}
	}
	return nil
}

func (l *lockInfo) summary(fn *ssa.Function) (acq, acqMay, rel, takes lockSet) {
	rel, takes = lockSet{}, lockSet{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if lk, m, a, ok := lockOp(ci.Common()); ok && a && lk != nil {
					takes[lk] = max(takes[lk], m)
				}
				for _, f := range l.callees[in] {
					takes = union(takes, l.takes[f])
				}
			}
		}
	}
	rels := l.flow(fn, lockSet{}, lockSet{}, false)
	rel = rels
	first := true
	acqMay = lockSet{}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			m := l.exitMust[r]
			if m == nil {
				m = lockSet{}
			}
			if first {
				acq = m
				first = false
			} else {
				acq = meet(acq, m)
			}
			acqMay = union(acqMay, l.exitMay[r])
		}
	}
	if acq == nil {
		acq = lockSet{}
	}
	return
}

// flow runs both analyses over one function. When final is set the per-instruction results are
// kept; otherwise the sets at returns are. It returns the locks released without being held.
func (l *lockInfo) flow(fn *ssa.Function, entryMust, entryMay lockSet, final bool) lockSet {
	rel := lockSet{}
	run := func(entry lockSet, must bool) {
		type st = *lockState
		in := map[*ssa.BasicBlock]st{}
		if len(fn.Blocks) == 0 {
			return
		}
		in[fn.Blocks[0]] = &lockState{entry.clone(), lockSet{}, lockSet{}}
		work := []*ssa.BasicBlock{fn.Blocks[0]}
		step := func(s lockState, i ssa.Instruction) lockState {
			switch i := i.(type) {
			case *ssa.Defer:
				if lk, m, a, ok := lockOp(&i.Call); ok && lk != nil && !a {
					s.defMust, s.defMay = s.defMust.clone(), s.defMay.clone()
					s.defMust[lk], s.defMay[lk] = m, m
				}
				for _, f := range l.callees[i] {
					for lk, m := range l.rel[f] {
						s.defMust, s.defMay = s.defMust.clone(), s.defMay.clone()
						s.defMust[lk], s.defMay[lk] = m, m
					}
				}
			case *ssa.RunDefers:
				h := s.held.clone()
				d := s.defMust
				if must {
					d = s.defMay
				}
				for lk := range d {
					if must && h[lk] == 0 && s.defMust[lk] > 0 {
						rel[lk] = 2
					}
					delete(h, lk)
				}
				s.held = h
			case *ssa.Call:
				if lk, m, a, ok := lockOp(&i.Call); ok {
					if lk == nil {
						return s
					}
					h := s.held.clone()
					if a {
						h[lk] = m
					} else {
						if h[lk] == 0 && must {
							rel[lk] = m
						}
						delete(h, lk)
					}
					s.held = h
					return s
				}
				for _, f := range l.callees[i] {
					h := s.held.clone()
					for lk := range l.rel[f] {
						if h[lk] == 0 && must {
							rel[lk] = 2
						}
						delete(h, lk)
					}
					add := l.acq[f]
					if !must {
						add = l.acqMay[f]
					}
					for lk, m := range add {
						h[lk] = m
					}
					s.held = h
				}
			}
			return s
		}
		for len(work) > 0 {
			b := work[0]
			work = work[1:]
			s := *in[b]
			for _, i := range b.Instrs {
				s = step(s, i)
			}
			for _, t := range b.Succs {
				o := in[t]
				if o == nil {
					c := s
					in[t] = &c
					work = append(work, t)
					continue
				}
				n := lockState{held: union(o.held, s.held), defMust: meet(o.defMust, s.defMust), defMay: union(o.defMay, s.defMay)}
				if must {
					n.held = meet(o.held, s.held)
				}
				if !n.held.equal(o.held) || !n.defMust.equal(o.defMust) || !n.defMay.equal(o.defMay) {
					in[t] = &n
					work = append(work, t)
				}
			}
		}
		rel = lockSet{} // from the fixpoint only
		for _, b := range fn.Blocks {
			if in[b] == nil {
				continue
			}
			s := *in[b]
			for _, i := range b.Instrs {
				if final {
					if must {
						l.must[i] = s.held
					} else {
						l.may[i] = s.held
					}
				}
				if _, ok := i.(*ssa.Return); ok {
					if final {
						continue
					}
					if must {
						l.exitMust[i] = s.held
					} else {
						l.exitMay[i] = s.held
					}
				}
				s = step(s, i)
			}
		}
	}
	run(entryMay, false)
	run(entryMust, true)
	return rel
}

// lockName names a lock by its owner.
func (p *Prog) lockName(o types.Object) string {
	if v, ok := o.(*types.Var); ok && v.IsField() {
		for _, pk := range p.Pkgs {
			sc := pk.Types.Scope()
			for _, n := range sc.Names() {
				if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
					if st, ok := tn.Type().Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							if st.Field(i) == v {
								return pk.Types.Name() + "." + n + "." + v.Name()
							}
						}
					}
				}
			}
		}
	}
	return o.Name()
}

// fieldAccess is one access to a struct field's contents.
type fieldAccess struct {
	in    ssa.Instruction
	fld   *types.Var
	write bool
	fresh bool // of an object just made here, not yet visible to others
	base  ssa.Value
}

// accesses lists what a function does with fields: loads, stores, map updates, deletes, appends,
// calls with the address.
func (p *Prog) accesses(fn *ssa.Function) []fieldAccess {
	var out []fieldAccess
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			f := fieldOf(fa)
			fresh := isFresh(fa.X)
			for _, r := range *fa.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					out = append(out, fieldAccess{r, f, r.Addr == fa, fresh, fa.X})
				case *ssa.UnOp:
					// contents of a map or slice in the field
					w := false
					for _, r2 := range *r.Referrers() {
						switch r2 := r2.(type) {
						case *ssa.MapUpdate:
							if r2.Map == r {
								out = append(out, fieldAccess{r2, f, true, fresh, fa.X})
							}
						case *ssa.Call:
							if n := calleeName(&r2.Call); n == "builtin delete" || n == "builtin clear" || n == "builtin copy" && r2.Call.Args[0] == r {
								out = append(out, fieldAccess{r2, f, true, fresh, fa.X})
							} else if n == "builtin len" {
								out = append(out, fieldAccess{r2, f, false, fresh, fa.X})
							}
						case *ssa.Lookup:
							out = append(out, fieldAccess{r2, f, false, fresh, fa.X})
						case *ssa.Range:
							out = append(out, fieldAccess{r2, f, false, fresh, fa.X})
							for _, r3 := range *r2.Referrers() {
								if nx, ok := r3.(ssa.Instruction); ok {
									out = append(out, fieldAccess{nx, f, false, fresh, fa.X})
								}
							}
						case *ssa.IndexAddr:
							for _, r3 := range *r2.Referrers() {
								if st, ok := r3.(*ssa.Store); ok && st.Addr == r2 {
									out = append(out, fieldAccess{st, f, true, fresh, fa.X})
								}
							}
						case *ssa.MakeInterface: // printed, encoded: read by the call
							switch r2.X.Type().Underlying().(type) {
							case *types.Map, *types.Slice:
							default:
								continue
							}
							for _, r3 := range *r2.Referrers() {
								if nx, ok := r3.(ssa.Instruction); ok {
									out = append(out, fieldAccess{nx, f, false, fresh, fa.X})
								}
							}
						}
					}
					out = append(out, fieldAccess{r, f, w, fresh, fa.X})
				case *ssa.IndexAddr, *ssa.FieldAddr:
					// arrays and nested structs
					for _, r2 := range *r.(ssa.Value).Referrers() {
						if st, ok := r2.(*ssa.Store); ok {
							out = append(out, fieldAccess{st, f, true, fresh, fa.X})
						} else if ld, ok := r2.(*ssa.UnOp); ok {
							out = append(out, fieldAccess{ld, f, false, fresh, fa.X})
						}
					}
				case ssa.CallInstruction:
					out = append(out, fieldAccess{r, f, true, fresh, fa.X})
				}
			}
		}
	}
	return out
}

// isFresh: the object was made in this function (composite literal or new).
func isFresh(v ssa.Value) bool {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		default:
			return false
		}
	}
	return false
}

// guarded is a field protected by a lock.
type guarded struct {
	fld  *types.Var
	lock types.Object
}

func (p *Prog) structOf(rel, typ string) *types.Struct {
	t := p.Type(rel, typ)
	if t == nil {
		return nil
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

// mutexField: the mutex of a struct type.
func mutexField(st *types.Struct) *types.Var {
	var m *types.Var
	for i := 0; i < st.NumFields(); i++ {
		t := deref(st.Field(i).Type())
		if isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex") {
			if m != nil {
				return nil
			}
			m = st.Field(i)
		}
	}
	return m
}

func sortedObjs(s lockSet) []types.Object {
	var o []types.Object
	for k := range s {
		o = append(o, k)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].Pos() < o[j].Pos() })
	return o
}

var _ = token.NoPos
