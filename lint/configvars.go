package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C29"] = ruleC29
}

// ---------------------------------------------------------------------------
// settings of the stage file

// setting is a value of the stage file: a leaf of config.Stage.
type setting struct {
	path  string // like Workload[].Iter, Params{}
	field *types.Var
	typ   types.Type
}

// settings lists the leaves of a configuration struct. Fields with tag yaml:"-" are not
// settings.
func settings(t types.Type, pre string, depth int) []setting {
	if depth > 8 {
		return nil
	}
	var out []setting
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if reflect.StructTag(st.Tag(i)).Get("yaml") == "-" || !f.Exported() {
			continue
		}
		p, ft := pre+f.Name(), f.Type()
	unwrap:
		for {
			switch u := ft.Underlying().(type) {
			case *types.Slice:
				p, ft = p+"[]", u.Elem()
			case *types.Map:
				p, ft = p+"{}", u.Elem()
			default:
				break unwrap
			}
		}
		if pt, ok := ft.Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
				ft = pt.Elem()
			}
		}
		if _, ok := ft.Underlying().(*types.Struct); ok {
			out = append(out, settings(ft, p+".", depth+1)...)
			continue
		}
		out = append(out, setting{p, f, ft})
	}
	return out
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// cfgPaths names where in a configuration a value is.
type cfgPaths struct {
	x    *Exec
	root *Val
	copy map[*Val]string // local copies of elements
}

func (p *cfgPaths) instrOf(v *Val, what string) *ssa.Next {
	if v.Op != "sym" || !strings.HasPrefix(v.Name, what) {
		return nil
	}
	j := strings.LastIndexByte(v.Name, '#')
	for in, id := range p.x.ids {
		if fmt.Sprint(id) == v.Name[j+1:] {
			n, _ := in.(*ssa.Next)
			return n
		}
	}
	return nil
}

// of: path of the value v, or of what is at address v.
func (p *cfgPaths) of(s *State, v *Val) (string, bool) {
	if v == p.root {
		return "", true
	}
	switch v.Op {
	case "load":
		return p.of(s, v.Args[0])
	case "field", "vfield":
		b, ok := p.of(s, v.Args[0])
		if !ok || v.Fld == nil {
			return "", false
		}
		if b != "" {
			b += "."
		}
		return b + v.Fld.Name(), true
	case "elem":
		if _, isC := v.Args[1].constInt(); isC && !p.loopIndex(s, v.Args[1]) {
			return "", false
		}
		b, ok := p.of(s, v.Args[0])
		return b + "[]", ok
	case "lookup":
		b, ok := p.of(s, v.Args[0])
		return b + "{}", ok
	case "alloc":
		q, ok := p.copy[v]
		return q, ok
	case "sym":
		if n := p.instrOf(v, "nextv"); n != nil {
			m := p.rangeOver(s, n)
			if m == nil {
				return "", false
			}
			b, ok := p.of(s, m)
			return b + "{}", ok
		}
	}
	return "", false
}

// loopIndex: v is the index of a loop the current point is in.
func (p *cfgPaths) loopIndex(s *State, v *Val) bool {
	for _, l := range p.x.LoopPath(s) {
		_, idx, _, why := indexLoopIf(l.h, func(from, to *ssa.BasicBlock) bool { return true })
		if why != "" {
			continue
		}
		for k := len(s.frames) - 1; k >= 0; k-- {
			if s.frames[k].fn == l.h.Parent() && p.x.val(s, s.frames[k], idx) == v {
				return true
			}
		}
	}
	return false
}

// rangeOver: the map an iteration is over.
func (p *cfgPaths) rangeOver(s *State, n *ssa.Next) *Val {
	for k := len(s.frames) - 1; k >= 0; k-- {
		if s.frames[k].fn == n.Parent() {
			if r := p.x.val(s, s.frames[k], n.Iter); r.Op == "range" {
				return r.Args[0]
			}
		}
	}
	return nil
}

// container: the header of a loop over all elements of a part of the configuration.
func (p *cfgPaths) container(s *State, h *ssa.BasicBlock) (string, bool) {
	early := func(from, to *ssa.BasicBlock) bool { return true } // only returns matter: checked by the obligations
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			m := p.rangeOver(s, n)
			if m == nil {
				return "", false
			}
			b, ok := p.of(s, m)
			return b + "{}", ok
		}
	}
	lim, _, first, why := indexLoopIf(h, early)
	if why != "" || first != 0 {
		return "", false
	}
	for k := len(s.frames) - 1; k >= 0; k-- {
		if s.frames[k].fn == h.Parent() {
			l := p.x.val(s, s.frames[k], lim)
			if !isLenOf(l) {
				return "", false
			}
			b, ok := p.of(s, l.Args[0])
			return b + "[]", ok
		}
	}
	return "", false
}

func ruleC29(c *Ctx) {
	const SU, NU, UN, OR, IN = "substituted", "numbers", "undefined", "before-use", "interpolation"
	c.Rule(SU, "On every path on which Stage.Vars returns without error, every string setting of the stage file, including every element of every list and map, has been replaced by the result of substituting parameters in its own value.")
	c.Rule(NU, "Settings that are read as integers are substituted with human-readable numbers; settings that are read as durations are not (1m is a minute, not a million).")
	c.Rule(UN, "An error of substituting is returned and never overwritten or dropped; in the substitution itself every lookup that does not find the reference is an error that names it.")
	c.Rule(OR, "Parameters are substituted before they are used to substitute other settings, and for every stage the settings are substituted, without error, after defaults and command line options were applied and before the stage is validated and returned.")
	c.Rule(IN, "Every reference found is replaced, as a whole, by the value looked up for it.")
	p := c.P
	stage := p.Type("config", "Stage")
	vars := p.Func("config", "", "Vars")
	root := p.Func("config", "Stage", "Vars")
	if stage == nil || vars == nil || root == nil || len(vars.Params) != 3 {
		c.Missing(SU, "config.Stage, config.Vars, config.Stage.Vars")
		return
	}
	const RO = "rounds"
	c.Rule(RO, "Where parameters are substituted with the parameters themselves in a loop, that loop is repeated until nothing changes (or as often as there are parameters), so the result does not depend on the order of the map.")
	c.paramRounds(RO, root, vars)
	var leaves []setting
	bit := map[string]int{}
	for _, l := range settings(stage, "", 0) {
		if isString(l.typ) {
			bit[l.path] = len(leaves)
			leaves = append(leaves, l)
		}
	}
	c.Require(SU, len(leaves), 20, "string settings")
	const aPend, aBits = 0, 2 // A[1] free
	if len(leaves) > 15*(24-aBits) {
		c.Fail(SU, "config.Stage", root.Pos(), "more settings than the rule can follow")
		return
	}
	has := func(s *State, k int) bool { return s.A[aBits+k/15]&(1<<uint(k%15)) != 0 }
	set := func(s *State, k int, v bool) {
		if v {
			s.A[aBits+k/15] |= 1 << uint(k%15)
		} else {
			s.A[aBits+k/15] &^= 1 << uint(k%15)
		}
	}
	under := func(pre string) []int {
		var out []int
		for _, l := range leaves {
			if l.path == pre || strings.HasPrefix(l.path, pre) {
				out = append(out, bit[l.path])
			}
		}
		sort.Ints(out)
		return out
	}
	c.Fn(root)
	x := NewExec(p, root)
	x.Inline = func(f *ssa.Function) bool {
		if f != vars && fnPkgPath(f) == modPath+"/config" {
			c.Fn(f)
			return true
		}
		return false
	}
	x.Unroll = 32
	x.Peel = true
	x.BlockEvents = true
	pr := c.pathRule(SU, x)
	pu := c.pathRule(UN, x)
	po := c.pathRule(OR, x)
	pr.mute, pu.mute, po.mute = false, false, false
	cp := &cfgPaths{x: x, copy: map[*Val]string{}}
	numFlag := map[string]map[bool]token.Pos{}
	wb := map[string]bool{} // containers whose elements are changed through a copy
	x.Model = func(x *Exec, s *State, e *Event) []*Val {
		if e.Target != vars {
			return nil
		}
		return []*Val{x.T.app("substituted", e.Args[0]), x.symFor(s, s.top(), e.Instr, "verr", types.Universe.Lookup("error").Type())}
	}
	mark := func(s *State, e *Event, path string, v, key *Val) {
		k, ok := bit[path]
		if !ok {
			return
		}
		if v.Op == "substituted" {
			src := v.Args[0]
			q, ok := cp.of(s, src)
			if !ok || q != path {
				pr.fail(s, e, path, path+" is set to what was substituted in something else")
				return
			}
			if n := cp.instrOf(src, "nextv"); n != nil && key != nil && strings.TrimPrefix(src.Name, "nextv") != strings.TrimPrefix(key.Name, "nextk") {
				pr.fail(s, e, path, path+" is stored under another key")
			}
			if src.Op == "lookup" && key != nil && src.Args[1] != key {
				pr.fail(s, e, path, path+" is stored under another key")
			}
			set(s, k, true)
			return
		}
		pr.fail(s, e, path, path+" is replaced by something other than its substituted value")
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		cp.root = x.ArgVal(0)
		switch e.Kind {
		case EvCall:
			if e.Target != vars {
				return
			}
			if s.A[aPend] != 0 {
				pu.fail(s, e, "overwritten", "the error of substituting one setting is overwritten by the next")
			}
			path, ok := cp.of(s, e.Args[0])
			if !ok {
				return
			}
			if _, ok := bit[path]; !ok {
				return
			}
			pu.obl(e, path)
			if f, ok := e.Args[2].constBool(); ok {
				if numFlag[path] == nil {
					numFlag[path] = map[bool]token.Pos{}
				}
				numFlag[path][f] = e.Instr.Pos()
			}
			if q, _ := cp.of(s, e.Args[1]); q != "Params" {
				po.fail(s, e, path+" params", path+" is not substituted with the parameters of the stage")
			}
			if path != "Params{}" {
				po.obl(e, path)
				if !has(s, bit["Params{}"]) {
					po.fail(s, e, path, path+" is substituted before the parameters are")
				}
			}
		case EvRet:
			if e.Target == vars && len(e.Res) == 2 {
				s.A[aPend] = 1
				s.RV[0] = e.Res[1]
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Op == "eq" {
				for i := 0; i < 2; i++ {
					a, b := cond.Args[i], cond.Args[1-i]
					if a == s.RV[0] && b.isNil() {
						if taken {
							s.A[aPend] = 0
						} else {
							s.A[aPend] = 2
						}
					}
					if k, ok := b.constStr(); ok && k == "" && taken { // nothing to substitute
						if q, ok := cp.of(s, a); ok {
							if n, ok := bit[q]; ok {
								set(s, n, true)
							}
						}
					}
					if a.Op == "substituted" && a.Args[0] == b && taken { // nothing changed
						if q, ok := cp.of(s, b); ok {
							if n, ok := bit[q]; ok {
								set(s, n, true)
							}
						}
					}
					if isLenOf(a) && taken {
						if k, ok := b.constInt(); ok && k == 0 {
							if q, ok := cp.of(s, a.Args[0]); ok {
								for _, n := range append(under(q+"{}"), under(q+"[]")...) {
									set(s, n, true)
								}
							}
						}
					}
					if b.isNil() && taken {
						if q, ok := cp.of(s, a); ok {
							for _, n := range append(under(q+"{}"), under(q+"[]")...) {
								set(s, n, true)
							}
						}
					}
				}
			}
			if cond.Op == "lss" && !taken && isLenOf(cond.Args[1]) {
				if k, ok := cond.Args[0].constInt(); ok && k == 0 {
					if q, ok := cp.of(s, cond.Args[1].Args[0]); ok {
						for _, n := range append(under(q+"{}"), under(q+"[]")...) {
							set(s, n, true)
						}
					}
				}
			}
		case EvStore:
			if e.Addr.Op == "alloc" {
				if q, ok := cp.of(s, e.Val); ok && q != "" {
					if len(under(q+".")) > 0 {
						cp.copy[e.Addr] = q
						wb[q] = true
						for _, n := range under(q + ".") {
							set(s, n, false)
						}
						s.A[1] = 1 // to be written back
					}
				}
				return
			}
			path, ok := cp.of(s, e.Addr)
			if !ok {
				return
			}
			if len(under(path+".")) > 0 { // a whole element
				if q, ok := cp.of(s, e.Val); ok && q == path {
					s.A[1] = 0
				}
				return
			}
			mark(s, e, path, e.Raw, nil)
			if rootOf(e.Addr) != cp.root && rootOf(e.Addr).Op == "alloc" {
				s.A[1] = 1
			}
		case EvMapUpdate:
			b, ok := cp.of(s, e.Args[0])
			if !ok {
				return
			}
			path := b + "{}"
			if len(under(path+".")) > 0 {
				v := e.Val
				if q, ok := cp.of(s, v); ok && q == path || v.Op == "with" {
					s.A[1] = 0
				} else {
					for a, q := range cp.copy {
						if q == path && (v == x.Load(s, a, deref(a.T)) || v.contains(a)) {
							s.A[1] = 0
						}
					}
				}
				return
			}
			mark(s, e, path, e.Val, e.Args[1])
		case EvBlock:
			// loop left normally
			if e.From != nil {
				if body := loopBody(e.From); body != nil && !body[e.Block] {
					if q, ok := cp.container(s, e.From); ok {
						for _, n := range under(q) {
							set(s, n, true)
						}
					}
				}
			}
			q, ok := cp.container(s, e.Block)
			if ok && e.Back {
				for _, n := range under(q) {
					if !has(s, n) {
						pr.fail(s, e, leaves[n].path, leaves[n].path+" of an element is not substituted")
					}
					set(s, n, false)
				}
				if s.A[1] != 0 && wb[q] {
					pr.fail(s, e, q, "what was substituted in a copy of an element is not stored")
				}
				return
			}
			if ok {
				if q != "Params{}" {
					for _, n := range under(q) {
						set(s, n, false)
					}
				}
			}
		case EvReturn:
			if e.Fn != root {
				return
			}
			res := e.Res[0]
			nl, known := x.IsNil(s, res)
			switch {
			case s.A[aPend] == 2 && !(known && !nl) && res != s.RV[0]:
				pu.fail(s, e, "dropped", "substituting a setting failed but no error is returned")
			case s.A[aPend] == 1 && res != s.RV[0]:
				pu.fail(s, e, "unchecked", "the error of substituting a setting is not checked")
			}
			if s.A[aPend] == 2 || known && !nl {
				return
			}
			for k, l := range leaves {
				pr.obl(e, l.path)
				if !has(s, k) {
					pr.fail(s, e, l.path, "Stage.Vars can return without error although "+l.path+" has not been substituted")
				}
			}
		}
	}
	x.Run(nil, nil)
	c.finish(SU, x)
	c.numberSettings(NU, leaves, numFlag)
	c.varsFunction(UN, IN, vars)
	c.loadSequence(map[string]string{"vars": OR})
}

// numberSettings: which settings are read as integers and which as durations.
func (c *Ctx) numberSettings(rule string, leaves []setting, flag map[string]map[bool]token.Pos) {
	p := c.P
	ints, durs := p.numericFields()
	n := 0
	for _, l := range leaves {
		switch {
		case ints[l.field]:
			n++
			c.Obl(rule, l.path+" is an integer")
			if pos, bad := flag[l.path][false]; bad {
				c.Fail(rule, "config:"+l.path, pos, l.path+" is read as an integer but human-readable numbers in it are not changed to integers")
			}
		case durs[l.field]:
			n++
			c.Obl(rule, l.path+" is a duration")
			if pos, bad := flag[l.path][true]; bad {
				c.Fail(rule, "config:"+l.path, pos, l.path+" is read as a duration but human-readable numbers in it are changed to integers: 1m becomes a million")
			}
		}
	}
	c.Require(rule, n, 12, "integer and duration settings")
}

// fieldsOf: the fields a value is loaded from, through phis and parameters.
func (p *Prog) fieldsOf(v ssa.Value, seen map[ssa.Value]bool, depth int) []*types.Var {
	if seen[v] || depth > 6 {
		return nil
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.UnOp:
		if f := fieldOf(i.X); f != nil {
			return []*types.Var{f}
		}
		if a, ok := i.X.(*ssa.Alloc); ok {
			var out []*types.Var
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					out = append(out, p.fieldsOf(st.Val, seen, depth)...)
				}
			}
			return out
		}
	case *ssa.Field:
		return []*types.Var{structField(i.X.Type(), i.Field)}
	case *ssa.Phi:
		var out []*types.Var
		for _, e := range i.Edges {
			out = append(out, p.fieldsOf(e, seen, depth)...)
		}
		return out
	case *ssa.Parameter:
		var out []*types.Var
		fn := i.Parent()
		if !p.IsRepo(fn) {
			return nil
		}
		for k, q := range fn.Params {
			if q != i {
				continue
			}
			for _, call := range p.callersOf(fn) {
				if k < len(call.Common().Args) {
					out = append(out, p.fieldsOf(call.Common().Args[k], seen, depth+1)...)
				}
			}
		}
		return out
	}
	return nil
}
