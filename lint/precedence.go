package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C30"] = ruleC30
}

func ruleC30(c *Ctx) {
	const UN, MA, CL, OR, IS = "unset-only", "maps", "command-line", "order", "isolation"
	c.Rule(UN, "For every setting the base file can hold, on every path of Stage.With: a value set in the stage file is unchanged and one not set becomes the base's.")
	c.Rule(MA, "Parameters of the base are added exactly when the stage does not have them; reports of the base are taken, all of them, exactly when the stage has none.")
	c.Rule(CL, "On every path of Stage.CommandLine: a DSN or database given replaces the stage's and the database that of every client group; one not given changes nothing.")
	c.Rule(OR, "For every stage file: decoded, then the base of its own directory, then --param, then the command line options are applied, and only then is anything substituted.")
	c.Rule(IS, "Each stage file is decoded into a new value, and no map or list of a base becomes part of a stage: stages share nothing that is changed later.")
	p := c.P
	stage, base := p.Type("config", "Stage"), p.Type("config", "Base")
	with := p.Func("config", "Stage", "With")
	cl := p.Func("config", "Stage", "CommandLine")
	if stage == nil || base == nil || with == nil || cl == nil || len(with.Params) != 2 || len(cl.Params) != 3 {
		c.Missing(UN, "config.Stage.With, config.Stage.CommandLine")
		return
	}
	n := 0
	for _, l := range settings(base, "", 0) {
		if strings.ContainsAny(l.path, "[{") {
			continue
		}
		n++
		c.defaultLeaf(UN, with, stage, base, l)
	}
	c.Require(UN, n, 15, "settings of the base")
	// fields of my.cnf that the defaults also carry are covered through MySQL.With, called by Stage.With
	c.baseMaps(MA, with, stage)
	c.cmdLine(CL, cl, stage)
	c.loadSequence(map[string]string{"defaults": OR, "base": OR})
	c.stageIsolation(IS, with, base)
}

func cfgPkg(p *Prog, c *Ctx) func(f *ssa.Function) bool {
	return func(f *ssa.Function) bool {
		if fnPkgPath(f) == modPath+"/config" {
			c.Fn(f)
			return true
		}
		return false
	}
}

// fieldChain: the address of the setting at path below root.
func fieldChain(x *Exec, root *Val, t types.Type, path string) (*Val, types.Type) {
	a := root
	for _, n := range strings.Split(path, ".") {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				a = x.T.fieldAddr(a, st.Field(i))
				t = st.Field(i).Type()
				found = true
			}
		}
		if !found {
			return nil, nil
		}
	}
	return a, t
}

func (c *Ctx) defaultLeaf(rule string, with *ssa.Function, stage, base *types.Named, l setting) {
	p := c.P
	x := NewExec(p, with)
	x.Inline = cfgPkg(p, c)
	x.Unroll = 32
	pr := c.pathRule(rule, x)
	of := &cfgPaths{x: x, copy: map[*Val]string{}} // of the stage
	ofb := &cfgPaths{x: x, copy: map[*Val]string{}}
	mine := func(s *State, v *Val) bool { // mentions the setting
		hit := false
		var walk func(v *Val)
		walk = func(v *Val) {
			if hit {
				return
			}
			if v.Fld == l.field {
				hit = true
			}
			for _, a := range v.Args {
				walk(a)
			}
		}
		walk(v)
		return hit
	}
	x.Keep = func(f *Val) bool { return mine(nil, f) }
	x.Untrack = func(a *Val) bool { return rootOf(a).Op != "alloc" && !mine(nil, a) }
	var addr, before *Val
	_, isPtr := l.typ.Underlying().(*types.Pointer)
	x.Hook = func(x *Exec, s *State, e *Event) {
		of.root, ofb.root = x.ArgVal(0), x.ArgVal(1)
		if addr == nil {
			a, t := fieldChain(x, of.root, stage, l.path)
			if a == nil {
				return
			}
			addr = a
			before = x.T.mk(Val{Op: "load", Args: []*Val{a}, T: t})
		}
		isB := func(v *Val) bool { q, ok := ofb.of(s, v); return ok && q == l.path }
		if e.Kind == EvBranch {
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Op != "eq" {
				return
			}
			for i := 0; i < 2; i++ {
				v, k := cond.Args[i], cond.Args[1-i]
				str, isS := k.constStr()
				if !(isPtr && k.isNil() || isS && str == "") {
					continue
				}
				n := int16(2) // set
				if taken {
					n = 1
				}
				if v == before && x.Load(s, addr, l.typ) == before {
					s.A[0] = n
				} else if isB(v) {
					s.A[1] = n
				}
			}
			return
		}
		if e.Kind != EvReturn || e.Fn != with {
			return
		}
		pr.obl(e, l.path)
		now := x.Load(s, addr, l.typ)
		switch {
		case now == before:
			if s.A[0] != 2 && s.A[1] != 1 {
				pr.fail(s, e, l.path, l.path+" can be left unset although it is set in the base")
			}
			return
		case isB(now):
		case isPtr && now.Op == "alloc":
			ct := x.Load(s, now, deref(l.typ))
			if ct.Op != "load" || !isB(ct.Args[0]) {
				pr.fail(s, e, l.path, l.path+" becomes something other than the base's")
				return
			}
		default:
			pr.fail(s, e, l.path, l.path+" becomes something other than the base's")
			return
		}
		if s.A[0] != 1 {
			pr.fail(s, e, l.path, l.path+" of the stage is replaced by the base's although it can be set in the stage")
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	if addr == nil {
		c.Fail(rule, "config.Stage."+l.path, with.Pos(), "the base can hold "+l.path+" but the stage cannot")
	}
}

// baseMaps checks maps taken from the base.
func (c *Ctx) baseMaps(rule string, with *ssa.Function, stage *types.Named) {
	p := c.P
	x := NewExec(p, with)
	x.Inline = cfgPkg(p, c)
	x.BlockEvents = true
	pr := c.pathRule(rule, x)
	of := &cfgPaths{x: x, copy: map[*Val]string{}}
	ofb := &cfgPaths{x: x, copy: map[*Val]string{}}
	isMap := func(v *Val) bool {
		if v.T == nil {
			return false
		}
		_, ok := v.T.Underlying().(*types.Map)
		return ok
	}
	mentionsMap := func(v *Val) bool {
		hit := false
		var walk func(v *Val)
		walk = func(v *Val) {
			if v.Fld != nil {
				if _, ok := v.Fld.Type().Underlying().(*types.Map); ok {
					hit = true
				}
			}
			if v.Op == "lookupok" {
				hit = true
			}
			for _, a := range v.Args {
				walk(a)
			}
		}
		walk(v)
		return hit
	}
	x.Keep = mentionsMap
	x.Untrack = func(a *Val) bool { return rootOf(a).Op != "alloc" && !mentionsMap(a) }
	const (
		aSet    = iota // bits: path k set in this round
		aPassed        // loop over base params left
		aReport        // loop over base reports left
		aInner         // report's options copied in this round
		aAbsent        // the key of this round is known not to be in the stage
	)
	var mapAddr = map[string]*Val{}
	n := 0
	x.Hook = func(x *Exec, s *State, e *Event) {
		of.root, ofb.root = x.ArgVal(0), x.ArgVal(1)
		for _, m := range []string{"Params", "Stats.Report"} {
			if mapAddr[m] == nil {
				mapAddr[m], _ = fieldChain(x, of.root, stage, m)
			}
		}
		which := func(m *Val) string { // the map is the stage's
			if q, ok := of.of(s, m); ok {
				return q
			}
			for k, a := range mapAddr {
				if a != nil && x.Load(s, a, m.T) == m {
					return k
				}
			}
			if m.Op == "lookup" {
				for k, a := range mapAddr {
					if a != nil && x.Load(s, a, m.Args[0].T) == m.Args[0] {
						return k + "{}"
					}
				}
			}
			return ""
		}
		src := func(v *Val) string { q, _ := ofb.of(s, v); return q }
		sameKey := func(k, v *Val) bool {
			if v.Op == "lookup" {
				return v.Args[1] == k
			}
			return strings.TrimPrefix(k.Name, "nextk") == strings.TrimPrefix(v.Name, "nextv")
		}
		unsetMap := func(path string) bool {
			a := mapAddr[path]
			if a == nil {
				return false
			}
			b := x.T.mk(Val{Op: "load", Args: []*Val{a}, T: x.T.mk(*a).T})
			for f, v := range s.facts {
				if f.Op == "eq" && v {
					for i := 0; i < 2; i++ {
						if f.Args[i].Op == "load" && f.Args[i].Args[0] == a && f.Args[1-i].isNil() {
							return true
						}
						if l := f.Args[i]; l.Op == "len" && l.Args[0].Op == "load" && l.Args[0].Args[0] == a {
							if k, ok := f.Args[1-i].constInt(); ok && k == 0 {
								return true
							}
						}
					}
				}
			}
			_ = b
			return false
		}
		switch e.Kind {
		case EvStore:
			for path, a := range mapAddr {
				if e.Addr != a {
					continue
				}
				pr.obl(e, path)
				if e.Raw.Op != "alloc" {
					pr.fail(s, e, path, path+" is replaced by something other than a new map")
				}
				if !unsetMap(path) {
					pr.fail(s, e, path, path+" of the stage is replaced although it can be set")
				}
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Op == "lookupok" && which(cond.Args[0]) == "Params" {
				if taken {
					s.A[aSet] = 1 // nothing to do
				} else {
					s.A[aAbsent] = 1
					s.RV[0] = cond.Args[1]
				}
			}
		case EvMapUpdate:
			w := which(e.Args[0])
			n++
			switch w {
			case "Params":
				pr.obl(e, "Params")
				if src(e.Val) != "Params{}" || !sameKey(e.Args[1], e.Val) {
					pr.fail(s, e, "Params", "a parameter becomes something other than the base's value of the same name")
				}
				if s.A[aAbsent] == 0 || s.RV[0] != e.Args[1] {
					pr.fail(s, e, "Params set", "a parameter of the base is set although the stage can have it")
				}
				s.A[aSet] = 1
			default:
				mt, ok := e.Args[0].T.(types.Type)
				if e.Args[0].T == nil || !ok {
					return
				}
				m, ok := mt.Underlying().(*types.Map)
				if !ok {
					return
				}
				if _, nested := m.Elem().Underlying().(*types.Map); nested { // reports
					pr.obl(e, "Report")
					if e.Val.Op != "alloc" {
						pr.fail(s, e, "Report", "the options of a report are not copied")
					}
					s.A[aInner] |= 1
				} else if w != "" || src(e.Val) == "Stats.Report{}{}" || s.A[aInner] != 0 {
					pr.obl(e, "Report options")
					if src(e.Val) != "Stats.Report{}{}" || !sameKey(e.Args[1], e.Val) {
						pr.fail(s, e, "Report option", "an option of a report becomes something other than the base's")
					}
					s.A[aSet] |= 2
				}
			}
		case EvBlock:
			if e.From != nil {
				if body := loopBody(e.From); body != nil && !body[e.Block] {
					if q, ok := ofb.container(s, e.From); ok {
						switch q {
						case "Params{}":
							s.A[aPassed] = 1
						case "Stats.Report{}":
							s.A[aReport] = 1
						case "Stats.Report{}{}":
							s.A[aInner] |= 2
						}
					}
				}
			}
			q, ok := ofb.container(s, e.Block)
			if !ok {
				return
			}
			switch q {
			case "Params{}":
				if e.Back && s.A[aSet]&1 == 0 {
					pr.fail(s, e, "Params skipped", "a parameter of the base can be left out although the stage does not have it")
				}
				s.A[aSet], s.A[aAbsent], s.RV[0] = 0, 0, nil
			case "Stats.Report{}":
				if e.Back && s.A[aInner] != 3 {
					pr.fail(s, e, "Report skipped", "a report of the base can be left out")
				}
				s.A[aInner] = 0
			case "Stats.Report{}{}":
				if e.Back && s.A[aSet]&2 == 0 {
					pr.fail(s, e, "option skipped", "an option of a report of the base can be left out")
				}
				s.A[aSet] &^= 2
			}
		case EvReturn:
			if e.Fn != with {
				return
			}
			// not passed: the base has none, or (reports) the stage has some
			empty := func(path string) bool {
				for f, v := range s.facts {
					l := f
					if f.Op == "lss" && !v {
						l = f.Args[1]
					} else if f.Op == "eq" && v {
						l = f.Args[0]
						if !isLenOf(l) {
							l = f.Args[1]
						}
					}
					if isLenOf(l) && src(l.Args[0]) == path {
						return true
					}
				}
				return false
			}
			set := func(path string) bool { // the stage has some
				for f, v := range s.facts {
					for _, l := range f.Args {
						if isLenOf(l) && which(l.Args[0]) == path && (f.Op == "eq" && !v || f.Op == "lss" && v && l == f.Args[1]) {
							return true
						}
					}
				}
				return false
			}
			if s.A[aPassed] == 0 && !empty("Params") {
				pr.fail(s, e, "Params", "parameters of the base can be ignored")
			}
			if s.A[aReport] == 0 && !empty("Stats.Report") && !set("Stats.Report") {
				pr.fail(s, e, "Report", "reports of the base can be ignored although the stage has none")
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	c.Require(rule, n, 2, "settings taken from maps of the base")
	_ = isMap
}

// cmdLine checks Stage.CommandLine.
func (c *Ctx) cmdLine(rule string, fn *ssa.Function, stage *types.Named) {
	p := c.P
	c.Fn(fn)
	x := NewExec(p, fn)
	x.Inline = cfgPkg(p, c)
	x.BlockEvents = true
	pr := c.pathRule(rule, x)
	of := &cfgPaths{x: x, copy: map[*Val]string{}}
	const aGroup, aAll = 0, 1
	str := types.Typ[types.String]
	x.Hook = func(x *Exec, s *State, e *Event) {
		of.root = x.ArgVal(0)
		switch e.Kind {
		case EvStore:
			q, ok := of.of(s, e.Addr)
			if !ok || q == "" {
				return
			}
			switch q {
			case "Workload[].Db":
				if e.Raw == x.ArgVal(2) {
					s.A[aGroup] = 1
				} else {
					pr.fail(s, e, q, "the database of a client group becomes something other than --database")
				}
			case "MySQL.Db", "MySQL.DSN":
			default:
				pr.fail(s, e, q, "the command line changes "+q)
			}
		case EvBlock:
			if e.From != nil {
				if body := loopBody(e.From); body != nil && !body[e.Block] {
					if q, ok := of.container(s, e.From); ok && q == "Workload[]" {
						s.A[aAll] = 1
					}
				}
			}
			if q, ok := of.container(s, e.Block); ok && q == "Workload[]" {
				if e.Back && s.A[aGroup] == 0 {
					pr.fail(s, e, "group", "a client group keeps its own database although --database is given")
				}
				s.A[aGroup] = 0
			}
		case EvReturn:
			if e.Fn != fn {
				return
			}
			for i, q := range []string{"MySQL.DSN", "MySQL.Db"} {
				pr.obl(e, q)
				opt := x.ArgVal(1 + i)
				a, _ := fieldChain(x, of.root, stage, q)
				if a == nil {
					continue
				}
				now := x.Load(s, a, str)
				none, known := x.Ask(s, x.T.eq(opt, x.T.konst(constant.MakeString(""), str)))
				same := now.Op == "load" && now.Args[0] == a
				switch {
				case known && none:
					if !same && now != opt {
						pr.fail(s, e, q, q+" is changed without an option")
					}
					if now == opt {
						pr.fail(s, e, q, q+" is removed when no option is given")
					}
					if i == 1 && s.A[aAll] != 0 {
						pr.fail(s, e, "groups", "the databases of client groups are removed when no option is given")
					}
				case known:
					if now != opt {
						pr.fail(s, e, q, q+" is not replaced by the option given")
					}
					if i == 1 && s.A[aAll] == 0 {
						pr.fail(s, e, "groups", "client groups keep their own database although --database is given")
					}
				default:
					pr.fail(s, e, q, q+" does not depend on whether an option is given")
				}
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
}

// stageIsolation: nothing is shared between stages.
func (c *Ctx) stageIsolation(rule string, with *ssa.Function, base *types.Named) {
	p := c.P
	load := p.Func("config", "", "Load")
	vars := p.Func("config", "Stage", "Vars")
	n := 0
	for fn := range p.Reach(load) {
		if fnPkgPath(fn) != modPath+"/config" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !strings.HasSuffix(calleeName(&call.Call), ".UnmarshalStrict") {
					continue
				}
				n++
				c.Obl(rule, shortFn(fn)+" decode")
				v := call.Call.Args[1]
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				al, ok := v.(*ssa.Alloc)
				if !ok {
					if _, isParam := v.(*ssa.Parameter); !isParam {
						c.Fail(rule, shortFn(fn)+":decode", call.Pos(), "a configuration file is decoded into something that is not a new value")
					}
					continue
				}
				for _, h := range p.loopsOf(b) {
					if body := loopBody(h); callsIn(body, vars, 0) && !body[al.Block()] {
						c.Fail(rule, shortFn(fn)+":decode", call.Pos(), "all stage files are decoded into the same value: settings of one stay for the next")
					}
				}
			}
		}
	}
	c.Require(rule, n, 2, "files decoded")
	// nothing mutable of the base is stored in the stage
	for fn := range p.Reach(with) {
		if fnPkgPath(fn) != modPath+"/config" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var v, to ssa.Value
				switch i := in.(type) {
				case *ssa.Store:
					v, to = i.Val, i.Addr
				case *ssa.MapUpdate:
					v, to = i.Value, i.Map
				default:
					continue
				}
				switch u := v.Type().Underlying().(type) {
				case *types.Map, *types.Slice:
				case *types.Struct:
					if !hasMutable(u) {
						continue
					}
				default:
					continue
				}
				if al, ok := to.(*ssa.Alloc); ok && !al.Heap {
					continue // a local copy
				}
				c.Obl(rule, shortFn(fn)+" stores")
				src := v
				for {
					switch i := src.(type) {
					case *ssa.UnOp:
						src = i.X
						continue
					case *ssa.FieldAddr:
						src = i.X
						continue
					case *ssa.Field:
						src = i.X
						continue
					case *ssa.Lookup:
						src = i.X
						continue
					case *ssa.Extract:
						if nx, ok := i.Tuple.(*ssa.Next); ok {
							src = nx.Iter.(*ssa.Range).X
							continue
						}
					case *ssa.Alloc:
						if !i.Heap {
							var st *ssa.Store
							for _, r := range *i.Referrers() {
								if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(i) {
									st = s
								}
							}
							if st != nil {
								src = st.Val
								continue
							}
						}
					}
					break
				}
				if q, ok := src.(*ssa.Parameter); ok && len(fn.Params) > 1 && q != fn.Params[0] {
					c.Fail(rule, shortFn(fn)+":shared", in.Pos(), "a map or list of the base becomes part of the stage: substituting in one stage changes all that have this base")
				}
			}
		}
	}
}

func hasMutable(st *types.Struct) bool {
	for i := 0; i < st.NumFields(); i++ {
		switch u := st.Field(i).Type().Underlying().(type) {
		case *types.Map, *types.Slice:
			return true
		case *types.Struct:
			if hasMutable(u) {
				return true
			}
		}
	}
	return false
}
