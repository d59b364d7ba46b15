package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C31"] = ruleC31
}

// leafSet follows a property of every setting along a path: a bit for each, in A[base...].
type leafSet struct {
	leaves []setting
	bit    map[string]int
	base   int
}

func newLeafSet(ls []setting, base int) *leafSet {
	l := &leafSet{leaves: ls, bit: map[string]int{}, base: base}
	for k, x := range ls {
		l.bit[x.path] = k
	}
	return l
}

func (l *leafSet) has(s *State, k int) bool { return s.A[l.base+k/15]&(1<<uint(k%15)) != 0 }
func (l *leafSet) set(s *State, k int, v bool) {
	if v {
		s.A[l.base+k/15] |= 1 << uint(k%15)
	} else {
		s.A[l.base+k/15] &^= 1 << uint(k%15)
	}
}
func (l *leafSet) under(pre string) []int {
	var out []int
	for k, x := range l.leaves {
		if strings.HasPrefix(x.path, pre) {
			out = append(out, k)
		}
	}
	return out
}

// yamlName is the name of a setting in the stage file.
func yamlName(t types.Type, path string) string {
	name := ""
	for _, n := range strings.Split(path, ".") {
		n = strings.TrimRight(n, "[]{}")
		for {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
				continue
			case *types.Map:
				t = u.Elem()
				continue
			}
			break
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return name
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				name = strings.Split(reflect.StructTag(st.Tag(i)).Get("yaml"), ",")[0]
				if name == "" {
					name = strings.ToLower(n)
				}
				t = st.Field(i).Type()
			}
		}
	}
	return name
}

func ruleC31(c *Ctx) {
	const CH, NA, PA, LO, ST = "checked", "named", "parsers", "before-use", "strict"
	c.Rule(CH, "On every path on which Stage.Validate accepts a stage that is not disabled: every setting that is read as an integer or a duration anywhere has been parsed without error (or is not set, or was replaced by a constant that parses), every file exists, every trx a client group names is defined, every data key has a generator and a known scope; in every element of every list and map. The number of compute instances is not zero.")
	c.Rule(NA, "The error for an invalid integer or duration contains the name of the setting.")
	c.Rule(PA, "What validates a number or duration accepts only what the code that reads it parses: same base, no more bits, positive durations.")
	c.Rule(LO, "Every stage file is validated without error before the stage is returned; none is skipped.")
	c.Rule(ST, "Configuration files are decoded strictly: unknown keys are errors, and the error is returned.")
	p := c.P
	stage := p.Type("config", "Stage")
	root := p.Func("config", "Stage", "Validate")
	parseInt := p.Func("config", "", "parseInt")
	validFreq := p.Func("config", "", "ValidFreq")
	exists := p.Func("config", "", "FileExists")
	if stage == nil || root == nil || validFreq == nil || exists == nil {
		c.Missing(CH, "config.Stage.Validate, config.ValidFreq, config.FileExists")
		return
	}
	ints, durs := p.numericFields()
	var req []setting
	kind := map[string]string{}
	for _, l := range settings(stage, "", 0) {
		if !isString(l.typ) {
			continue
		}
		switch {
		case ints[l.field]:
			kind[l.path] = "int"
		case durs[l.field]:
			kind[l.path] = "duration"
		case l.path == "Trx[].File" || strings.HasPrefix(l.path, "MySQL.TLS."):
			kind[l.path] = "file"
		case l.path == "Workload[].Trx[]":
			kind[l.path] = "trx"
		case l.path == "Trx[].Data{}.Scope":
			kind[l.path] = "scope"
		case l.path == "Trx[].Data{}.Generator":
			kind[l.path] = "generator"
		default:
			continue
		}
		req = append(req, l)
	}
	c.Require(CH, len(req), 20, "settings to validate")
	ls := newLeafSet(req, 3)     // validated; of a list: the current element
	inner := newLeafSet(req, 7)  // not validated in some element of an inner list
	outer := newLeafSet(req, 11) // ... of an outer list
	done := newLeafSet(req, 15)  // validated in every element of the outermost list
	if len(req) > 60 {
		c.Missing(CH, "at most 60 settings to validate")
		return
	}
	incomplete := func(q string) (*leafSet, bool) {
		if strings.Count(q, "[]")+strings.Count(q, "{}") > 1 {
			return inner, false
		}
		return outer, true
	}
	scopes := map[string]bool{"": true}
	if pk := p.Pkg(""); pk != nil {
		for _, n := range pk.Types.Scope().Names() {
			if k, ok := pk.Types.Scope().Lookup(n).(*types.Const); ok && strings.HasPrefix(n, "SCOPE_") && k.Val().Kind() == constant.String {
				scopes[constant.StringVal(k.Val())] = true
			}
		}
	}
	c.Require(CH, len(scopes), 10, "scopes")
	c.Fn(root)
	x := NewExec(p, root)
	x.Inline = func(f *ssa.Function) bool {
		if f == parseInt || f == validFreq || f == exists || fnPkgPath(f) != modPath+"/config" {
			return false
		}
		c.Fn(f)
		return true
	}
	x.BlockEvents = true
	x.Unroll = 32
	x.Keep = func(f *Val) bool { return false }
	x.Untrack = func(a *Val) bool { return rootOf(a).Op != "alloc" }
	pr := c.pathRule(CH, x)
	pn := c.pathRule(NA, x)
	cp := &cfgPaths{x: x, copy: map[*Val]string{}}
	const aPend, aLeaf, aDis, aInst = 0, 1, 2, 20
	instances := func(s *State, v *Val) bool { q, ok := cp.of(s, v); return ok && q == "Compute.Instances" }
	nInst := func(s *State, v *Val) bool {
		v = stripConv(v)
		return v.Op == "pure" && v.Name == "Uint" && instances(s, v.Args[0]) || s.RV[5] != nil && v == s.RV[5]
	}
	toUint := p.Func("", "", "Uint")
	x.Model = func(x *Exec, s *State, e *Event) []*Val {
		if toUint != nil && e.Target == toUint {
			return []*Val{x.T.mk(Val{Op: "pure", Name: "Uint", Args: e.Args, T: types.Typ[types.Uint]})}
		}
		return nil
	}
	disAddr := (*Val)(nil)
	badSet, usedSet := map[*Val]bool{}, map[*Val]bool{}
	x.Hook = func(x *Exec, s *State, e *Event) {
		cp.root = x.ArgVal(0)
		if disAddr == nil {
			disAddr, _ = fieldChain(x, cp.root, stage, "Disable")
		}
		leaf := func(v *Val, kinds ...string) int {
			q, ok := cp.of(s, v)
			if !ok {
				return -1
			}
			k, ok := ls.bit[q]
			if !ok {
				return -1
			}
			for _, t := range kinds {
				if kind[q] == t {
					return k
				}
			}
			return -1
		}
		switch e.Kind {
		case EvCall:
			k := -1
			switch {
			case e.Target != nil && e.Target == parseInt, strings.HasPrefix(e.Callee, "strconv.ParseUint"), e.Callee == "strconv.Atoi", e.Callee == "strconv.ParseInt":
				k = leaf(e.Args[0], "int")
			case e.Target == validFreq, e.Callee == "time.ParseDuration":
				k = leaf(e.Args[0], "duration")
			}
			if k >= 0 && s.A[aPend] == 1 {
				pr.fail(s, e, "unchecked", "the error of validating "+ls.leaves[s.A[aLeaf]].path+" is not checked")
			}
		case EvRet:
			k := -1
			errI := 0
			switch {
			case e.Target != nil && e.Target == parseInt:
				k = leaf(e.Args[0], "int")
			case strings.HasPrefix(e.Callee, "strconv.ParseUint"), e.Callee == "strconv.Atoi", e.Callee == "strconv.ParseInt":
				k, errI = leaf(e.Args[0], "int"), 1
			case e.Target == validFreq:
				k = leaf(e.Args[0], "duration")
				s.RV[1] = e.Args[1]
			case e.Callee == "time.ParseDuration":
				k, errI = leaf(e.Args[0], "duration"), 1
			}
			if k >= 0 && errI == 1 && instances(s, e.Args[0]) {
				s.RV[5] = e.Res[0]
			}
			if k >= 0 && len(e.Res) > errI {
				s.A[aPend], s.A[aLeaf] = 1, int16(k)
				s.RV[0] = e.Res[errI]
				if e.Target != validFreq {
					s.RV[1] = nil
				}
			}
			if e.Target == exists {
				if k := leaf(e.Args[0], "file"); k >= 0 {
					s.RV[2] = e.Res[0]
					s.RV[3] = e.Args[0]
				}
			}
			if strings.HasSuffix(e.Callee, ".RunLevelIsValid") {
				if k := leaf(e.Args[0], "scope"); k >= 0 {
					s.RV[2] = e.Res[0]
					s.RV[3] = e.Args[0]
				}
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if disAddr != nil && cond.Op == "load" && cond.Args[0] == disAddr && taken {
				s.A[aDis] = 1
			}
			if len(cond.Args) == 2 {
				k0, c0 := cond.Args[0].constInt()
				k1, c1 := cond.Args[1].constInt()
				switch {
				case cond.Op == "eq" && !taken && (nInst(s, cond.Args[0]) && c1 && k1 == 0 || nInst(s, cond.Args[1]) && c0 && k0 == 0),
					cond.Op == "eq" && taken && (nInst(s, cond.Args[0]) && c1 && k1 > 0 || nInst(s, cond.Args[1]) && c0 && k0 > 0),
					cond.Op == "lss" && taken && c0 && k0 >= 0 && nInst(s, cond.Args[1]),
					cond.Op == "lss" && !taken && nInst(s, cond.Args[0]) && c1 && k1 >= 1:
					s.A[aInst] = 1
				}
			}
			if s.RV[2] != nil && cond == s.RV[2] && taken {
				if k := leaf(s.RV[3], "file", "scope"); k >= 0 {
					ls.set(s, k, true)
				}
			}
			if cond.Op == "load" && taken { // TLS disabled
				if q, ok := cp.of(s, cond); ok && q == "MySQL.TLS.Disable" {
					for _, k := range ls.under("MySQL.TLS.") {
						ls.set(s, k, true)
					}
				}
			}
			if l := emptyLen(cond, taken); l != nil {
				if q, ok := cp.of(s, l); ok { // nothing in it
					for _, n := range append(ls.under(q+"[]"), ls.under(q+"{}")...) {
						ls.set(s, n, true)
					}
				}
			}
			if (cond.Op == "lookup" || cond.Op == "lookupok") && taken { // in the set of names
				if k := leaf(cond.Args[1], "trx"); k >= 0 && !badSet[cond.Args[0]] {
					usedSet[cond.Args[0]] = true
					ls.set(s, k, true)
				}
			}
			if cond.Op != "eq" {
				return
			}
			for i := 0; i < 2; i++ {
				a, b := cond.Args[i], cond.Args[1-i]
				if a == s.RV[0] && b.isNil() && s.A[aPend] == 1 {
					if taken {
						s.A[aPend] = 0
						ls.set(s, int(s.A[aLeaf]), true)
					} else {
						s.A[aPend] = 2
					}
				}
				if k := leaf(a, "int", "duration", "file"); k >= 0 && taken {
					if v, ok := b.constStr(); ok && v == "" && ls.leaves[k].path != "Trx[].File" {
						ls.set(s, k, true)
					}
				}
				if k := leaf(a, "generator"); k >= 0 && !taken {
					if v, ok := b.constStr(); ok && v == "" {
						ls.set(s, k, true)
					}
				}
				if k := leaf(a, "scope"); k >= 0 && taken {
					if v, ok := b.constStr(); ok && scopes[v] {
						ls.set(s, k, true)
					}
				}
				if k := leaf(a, "trx"); k >= 0 && taken {
					if q, ok := cp.of(s, b); ok && q == "Trx[].Name" {
						ls.set(s, k, true)
					}
				}
			}
		case EvMapUpdate:
			if q, ok := cp.of(s, e.Args[1]); !ok || q != "Trx[].Name" || !e.Val.isTrueConst() {
				badSet[e.Args[0]] = true
				if usedSet[e.Args[0]] {
					pr.fail(s, e, "set", "what a trx name is looked up in does not contain only the names of trx")
				}
			}
		case EvStore:
			if instances(s, e.Addr) {
				s.A[aInst] = 0
				if v, ok := e.Raw.constStr(); ok {
					if n, err := strconv.ParseUint(v, 10, 32); err == nil && n > 0 {
						s.A[aInst] = 1
					}
				}
			}
			k := leaf(e.Addr, "int", "duration", "file", "trx", "scope", "generator")
			if k < 0 {
				return
			}
			v, ok := e.Raw.constStr()
			good := false
			if ok {
				switch kind[ls.leaves[k].path] {
				case "int":
					_, err := strconv.ParseUint(v, 10, 32)
					good = v == "" || err == nil
				case "duration":
					_, err := time.ParseDuration(v)
					good = v == "" || err == nil
				}
			}
			ls.set(s, k, good)
		case EvBlock:
			if e.From != nil {
				if body := loopBody(e.From); body != nil && !body[e.Block] {
					if q, ok := cp.container(s, e.From); ok { // every element was seen
						inc, outer := incomplete(q)
						for _, n := range ls.under(q) {
							ls.set(s, n, !inc.has(s, n))
							if outer && !inc.has(s, n) {
								done.set(s, n, true)
							}
						}
					}
				}
			}
			q, ok := cp.container(s, e.Block)
			if !ok {
				return
			}
			inc, _ := incomplete(q)
			for _, n := range ls.under(q) {
				if e.Back && !ls.has(s, n) {
					inc.set(s, n, true)
				}
				if !e.Back {
					inc.set(s, n, false)
				}
				ls.set(s, n, false)
			}
		case EvReturn:
			if e.Fn != root {
				return
			}
			res := e.Res[0]
			nl, known := x.IsNil(s, res)
			isErr := known && !nl || s.A[aPend] == 2 && res == s.RV[0]
			if s.A[aPend] == 1 && res == s.RV[0] { // returned as it is
				isErr = true
			}
			if s.A[aPend] != 0 {
				l := ls.leaves[s.A[aLeaf]]
				if !isErr {
					pr.fail(s, e, l.path, "an invalid "+l.path+" is not an error")
					return
				}
				pn.obl(e, l.path)
				var text []string
				constStrings(res, &text, map[*Val]bool{})
				if s.RV[1] != nil {
					constStrings(s.RV[1], &text, map[*Val]bool{})
				}
				yn := yamlName(stage, l.path)
				if !hasWord(strings.Join(text, " "), yn) {
					pn.fail(s, e, l.path, "the error for an invalid "+l.path+" does not name the setting "+yn)
				}
			}
			if isErr || s.A[aDis] != 0 {
				return
			}
			pr.obl(e, "instances")
			if s.A[aInst] != 1 {
				pr.fail(s, e, "instances", "a stage with zero compute instances can be accepted: the server waits for ever")
			}
			for k, l := range ls.leaves {
				pr.obl(e, l.path)
				if !ls.has(s, k) && !done.has(s, k) {
					pr.fail(s, e, l.path, "a stage can be accepted although "+l.path+" was not validated")
				}
			}
		}
	}
	x.Run(nil, nil)
	c.finish(CH, x)
	c.parsersAgree(PA, parseInt, validFreq)
	c.loadSequence(map[string]string{"valid": LO, "strict": ST})
	// no other place decodes configuration leniently
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					n := calleeName(&call.Call)
					if strings.Contains(n, "yaml") && (strings.HasSuffix(n, ".Unmarshal") || strings.HasSuffix(n, ".Decode") || strings.HasSuffix(n, ".NewDecoder")) {
						c.Fail(ST, shortFn(f)+":"+n, call.Pos(), "a file is decoded without rejecting unknown keys")
					}
				}
			}
		}
	}
}

// constStrings collects the constant strings in a term.
func constStrings(v *Val, out *[]string, seen map[*Val]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	if s, ok := v.constStr(); ok {
		*out = append(*out, s)
	}
	for _, a := range v.Args {
		constStrings(a, out, seen)
	}
}

// hasWord: text contains the name, not as part of a longer one.
func hasWord(text, w string) bool {
	part := func(c byte) bool {
		return c == '-' || c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i := 0; ; {
		j := strings.Index(text[i:], w)
		if j < 0 {
			return false
		}
		a, b := i+j, i+j+len(w)
		if (a == 0 || !part(text[a-1])) && (b == len(text) || !part(text[b])) {
			return true
		}
		i = a + 1
	}
}

// numericFields: the fields read as integers and as durations anywhere.
func (p *Prog) numericFields() (ints, durs map[*types.Var]bool) {
	ints, durs = map[*types.Var]bool{}, map[*types.Var]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || len(call.Call.Args) == 0 {
					continue
				}
				var into map[*types.Var]bool
				switch calleeName(&call.Call) {
				case modPath + ".Uint", "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi", modPath + "/config.parseInt":
					into = ints
				case "time.ParseDuration", modPath + "/config.ValidFreq":
					into = durs
				default:
					continue
				}
				for _, v := range p.fieldsOf(call.Call.Args[0], map[ssa.Value]bool{}, 0) {
					into[v] = true
				}
			}
		}
	}
	return
}

// parsersAgree: what is accepted can be read.
func (c *Ctx) parsersAgree(rule string, parseInt, validFreq *ssa.Function) {
	p := c.P
	read := p.Func("", "", "Uint")
	if read == nil {
		c.Missing(rule, "finch.Uint")
		return
	}
	type ps struct {
		base, bits int64
		pos        token.Pos
	}
	find := func(fn *ssa.Function) *ps {
		var out *ps
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && calleeName(&call.Call) == "strconv.ParseUint" {
					bc, ok1 := call.Call.Args[1].(*ssa.Const)
					wc, ok2 := call.Call.Args[2].(*ssa.Const)
					if ok1 && ok2 {
						out = &ps{bc.Int64(), wc.Int64(), call.Pos()}
					}
				}
			}
		}
		return out
	}
	r := find(read)
	c.Obl(rule, "integers")
	if r == nil {
		c.Missing(rule, "how finch.Uint parses")
		return
	}
	if parseInt != nil {
		c.Fn(parseInt, read)
		v := find(parseInt)
		if v == nil {
			c.Fail(rule, "config.parseInt:parser", parseInt.Pos(), "integers are not validated with the parser that reads them")
		} else if v.base != r.base || v.bits > r.bits {
			c.Fail(rule, "config.parseInt:parser", v.pos, "integers are accepted that finch.Uint reads as something else")
		}
		c.acceptsParsed(rule, parseInt, false)
	}
	c.Fn(validFreq)
	c.acceptsParsed(rule, validFreq, true)
}

// acceptsParsed: the function returns nil only if its argument is empty or was parsed
// without error (and is positive).
func (c *Ctx) acceptsParsed(rule string, fn *ssa.Function, positive bool) {
	x := NewExec(c.P, fn)
	x.Inline = func(f *ssa.Function) bool { return fnPkgPath(f) == modPath+"/config" }
	pr := c.pathRule(rule, x)
	const aEmpty, aOK, aPos, aErr = 0, 1, 2, 3
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			if (e.Callee == "strconv.ParseUint" || e.Callee == "time.ParseDuration") && e.Args[0] == x.ArgVal(0) {
				s.RV[0], s.RV[1] = e.Res[1], e.Res[0]
				s.A[aErr] = 1
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			for i := 0; i < 2 && len(cond.Args) == 2; i++ {
				a, b := cond.Args[i], cond.Args[1-i]
				if cond.Op == "eq" {
					if v, ok := b.constStr(); ok && v == "" && a == x.ArgVal(0) && taken {
						s.A[aEmpty] = 1
					}
					if a.isLenOf(x.ArgVal(0)) && taken && isZero(b) {
						s.A[aEmpty] = 1
					}
					if a == s.RV[0] && s.RV[0] != nil && b.isNil() && taken {
						s.A[aOK] = 1
					}
				}
			}
			if cond.Op == "lss" && s.RV[1] != nil {
				a, b := cond.Args[0], cond.Args[1]
				if isZero(a) && b == s.RV[1] && taken { // 0 < d
					s.A[aPos] = 1
				}
				if a == s.RV[1] && !taken { // d >= 1
					if k, ok := b.constInt(); ok && k >= 1 {
						s.A[aPos] = 1
					}
				}
			}
		case EvReturn:
			if e.Fn != fn {
				return
			}
			pr.obl(e, "accept")
			nl, known := x.IsNil(s, e.Res[0])
			if known && !nl || e.Res[0] == s.RV[0] && s.RV[0] != nil && !(positive) {
				return
			}
			if e.Res[0] == s.RV[0] && s.RV[0] != nil && s.A[aOK] == 0 && !known {
				// err itself: nil only if parsed
				if !positive || s.A[aPos] != 0 {
					return
				}
			}
			if s.A[aEmpty] != 0 {
				return
			}
			if s.A[aOK] == 0 {
				pr.fail(s, e, "not parsed", "a value is accepted that was not parsed without error")
			} else if positive && s.A[aPos] == 0 {
				pr.fail(s, e, "not positive", "a duration is accepted that is not greater than zero")
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
}

func (v *Val) isLenOf(a *Val) bool { return v.Op == "len" && v.Args[0] == a }

func isZero(v *Val) bool {
	k, ok := v.constInt()
	return ok && k == 0
}

// emptyLen: the list or map which the outcome of the condition says is empty.
func emptyLen(cond *Val, taken bool) *Val {
	switch {
	case cond.Op == "lss" && isZero(cond.Args[0]) && cond.Args[1].Op == "len" && !taken:
		return cond.Args[1].Args[0]
	case cond.Op == "lss" && cond.Args[0].Op == "len" && taken:
		if k, ok := cond.Args[1].constInt(); ok && k == 1 {
			return cond.Args[0].Args[0]
		}
	case cond.Op == "eq" && taken:
		for i := 0; i < 2; i++ {
			if cond.Args[i].Op == "len" && isZero(cond.Args[1-i]) {
				return cond.Args[i].Args[0]
			}
		}
	}
	return nil
}

func (v *Val) isTrueConst() bool { b, ok := v.constBool(); return ok && b }
