package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C34"] = ruleC34
}

// trxRoles are the parts of package trx the rules are about.
type trxRoles struct {
	load, stmts                   *ssa.Function
	stmt                          *types.Named
	mods, text, copyNo, ddl, list *types.Var
	field                         map[string]*types.Var // of Statement
}

func (c *Ctx) trxRoles(rule string) *trxRoles {
	p := c.P
	r := &trxRoles{load: p.Func("trx", "File", "Load"), stmt: p.Type("trx", "Statement"), field: map[string]*types.Var{}}
	file := p.Type("trx", "File")
	if r.load == nil || r.stmt == nil || file == nil {
		c.Missing(rule, "trx.File.Load, trx.Statement")
		return nil
	}
	isList := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && ptrTo(sl.Elem(), r.stmt)
	}
	for _, f := range p.FuncsOf("trx") {
		res := f.Signature.Results()
		if f.Signature.Recv() != nil && namedOf(f.Signature.Recv().Type()) == file && res.Len() == 2 && isList(res.At(0).Type()) && f.Parent() == nil {
			r.stmts = f
		}
	}
	var scan func(st *types.Struct, depth int)
	scan = func(st *types.Struct, depth int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			switch u := f.Type().Underlying().(type) {
			case *types.Struct:
				if n := namedOf(f.Type()); n != nil && n.Obj().Pkg() == file.Obj().Pkg() && depth == 0 {
					scan(u, 1)
				}
			case *types.Slice:
				if isList(f.Type()) {
					r.list = f
				} else if isString(u.Elem()) {
					r.mods = f
				}
			case *types.Basic:
				switch {
				case u.Kind() == types.String:
					r.text = f
				case u.Kind() == types.Bool:
					r.ddl = f
				case u.Kind() == types.Uint && strings.Contains(strings.ToLower(f.Name()), "copy"):
					r.copyNo = f
				}
			}
		}
	}
	scan(file.Underlying().(*types.Struct), 0)
	st := r.stmt.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		r.field[st.Field(i).Name()] = st.Field(i)
	}
	for _, n := range []string{"ResultSet", "Begin", "Commit", "Write", "DDL", "Prepare", "PrepareMulti", "Query", "Inputs", "Calls", "Outputs", "InsertId", "Limit", "Idle", "Trx"} {
		if r.field[n] == nil {
			c.Missing(rule, "trx.Statement."+n)
			return nil
		}
	}
	if r.stmts == nil || r.mods == nil || r.text == nil || r.copyNo == nil || r.ddl == nil || r.list == nil {
		c.Missing(rule, "the method of trx.File that returns statements and the fields it reads")
		return nil
	}
	return r
}

// globalRegexp is the pattern of a package-level regular expression.
func (p *Prog) globalRegexp(g *ssa.Global) *regexp.Regexp {
	var pat string
	n := 0
	for _, f := range p.FuncsOf(strings.TrimPrefix(strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath), "/")) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				n++
				if call, ok := st.Val.(*ssa.Call); ok && calleeName(&call.Call) == "regexp.MustCompile" {
					if k, ok := call.Call.Args[0].(*ssa.Const); ok {
						pat = constant.StringVal(k.Value)
					}
				}
			}
		}
	}
	if init := g.Pkg.Func("init"); n == 0 && init != nil {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					n++
					if call, ok := st.Val.(*ssa.Call); ok && calleeName(&call.Call) == "regexp.MustCompile" {
						if k, ok := call.Call.Args[0].(*ssa.Const); ok {
							pat = constant.StringVal(k.Value)
						}
					}
				}
			}
		}
	}
	if n != 1 || pat == "" {
		return nil
	}
	re, err := regexp.Compile(pat)
	if err != nil {
		return nil
	}
	return re
}

// regexpOf: the regular expression a call is made on, if it is a package-level one.
func (p *Prog) regexpOf(e *Event) *regexp.Regexp {
	call, ok := e.Instr.(ssa.CallInstruction)
	if !ok || len(call.Common().Args) == 0 {
		return nil
	}
	u, ok := call.Common().Args[0].(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || g.Pkg == nil {
		return nil
	}
	return p.globalRegexp(g)
}

// keywords: how a statement is treated by its first keyword.
var keywords = []struct{ word, flag string }{
	{"SELECT", "ResultSet"}, {"BEGIN", "Begin"}, {"START", "Begin"}, {"COMMIT", "Commit"},
	{"INSERT", "Write"}, {"UPDATE", "Write"}, {"DELETE", "Write"}, {"REPLACE", "Write"},
	{"ALTER", "DDL"}, {"CREATE", "DDL"}, {"DROP", "DDL"}, {"RENAME", "DDL"}, {"TRUNCATE", "DDL"},
}

var stmtFlags = []string{"ResultSet", "Begin", "Commit", "Write", "DDL"}

func ruleC34(c *Ctx) {
	const KW, CP, TR = "keyword", "copies", "trx"
	c.Rule(KW, "On every path that returns a parsed statement: the first word of the text, in upper case (a word is what the pattern of a package-level regular expression finds), was compared with every known keyword, and exactly the flag of the keyword it equals is set; no flag is set if it equals none.")
	c.Rule(CP, "copies: N returns N statements, each parsed from the same text with the same modifiers except copies and its own copy number, for every N >= 0.")
	c.Rule(TR, "A DDL statement marks its trx as DDL, for good.")
	p := c.P
	r := c.trxRoles(KW)
	if r == nil {
		return
	}
	c.Fn(r.stmts, r.load)
	c.trxKeyword(KW, TR, r)
	c.trxCopies(CP, r)

	// the mark is never taken back, and is what the metadata says
	n := 0
	for _, f := range p.FuncsOf("trx") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				switch fl := fieldOf(fa); {
				case fl == r.ddl:
					c.Obl(TR, p.Pos(st.Pos()))
					if k, ok := st.Val.(*ssa.Const); ok && !constant.BoolVal(k.Value) {
						c.Fail(TR, shortFn(f)+":reset", st.Pos(), "a trx with DDL is marked as without")
					}
				case fl == p.Field("trx", "Meta", "DDL"):
					n++
					c.Obl(TR, p.Pos(st.Pos()))
					if u, ok := st.Val.(*ssa.UnOp); !ok || fieldAddrOf(u.X) != r.ddl {
						c.Fail(TR, shortFn(f)+":Meta.DDL", st.Pos(), "the trx is not marked as DDL by whether it has a DDL statement")
					}
				}
			}
		}
	}
	c.Require(TR, n, 1, "trx metadata")
}

func fieldAddrOf(v ssa.Value) *types.Var {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return fieldOf(fa)
	}
	return nil
}

// trxKeyword follows what a statement is classified as.
func (c *Ctx) trxKeyword(rule, ddlRule string, r *trxRoles) {
	p := c.P
	x := NewExec(p, r.stmts)
	x.Inline = func(f *ssa.Function) bool {
		if f == r.stmts || fnPkgPath(f) != modPath+"/trx" {
			return false
		}
		return p.reachesStore(f, r.field["ResultSet"], r.field["Begin"], r.field["Commit"], r.field["Write"], r.field["DDL"], r.ddl) || smallFn(f)
	}
	x.Keep = func(f *Val) bool { return false }
	x.Untrack = func(a *Val) bool { return rootOf(a).Op != "alloc" }
	pr := c.pathRule(rule, x)
	const aKw, aNot, aFlag, aDDL, aCopy, aSym, aDead = 0, 1, 2, 3, 4, 5, 6
	index := map[string]int{}
	for i, k := range keywords {
		index[k.word] = i
	}
	flagBit := map[*types.Var]int{}
	for i, f := range stmtFlags {
		flagBit[r.field[f]] = i
	}
	upper, word := map[*Val]bool{}, map[*Val]bool{}
	fold := map[*Val]string{}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			switch {
			case e.Target == r.stmts && e.Fn != nil && e.Instr != nil && !e.Inlined:
				s.A[aCopy] = 1
			case strings.HasPrefix(e.Callee, "(*regexp.Regexp).Find"):
				if re := p.regexpOf(e); re != nil && firstWordRe(re) && len(e.Res) == 1 && e.Callee == "(*regexp.Regexp).FindString" {
					if e.Args[1].find(func(t *Val) bool { return loadsField(t, r.text) }) != nil || s.RV[5] != nil && e.Args[1].contains(s.RV[5]) {
						word[e.Res[0]] = true
					}
				}
			case e.Callee == "strings.TrimSpace" || e.Callee == "strings.TrimLeft" || e.Callee == "strings.TrimLeftFunc":
				if e.Args[0].find(func(t *Val) bool { return loadsField(t, r.text) }) != nil {
					s.RV[5] = e.Res[0]
				}
			case e.Callee == "strings.ToUpper":
				if word[e.Args[0]] {
					upper[e.Res[0]] = true
				}
			case e.Callee == "strings.EqualFold":
				for i := 0; i < 2; i++ {
					if k, ok := e.Args[1-i].constStr(); ok && word[e.Args[i]] {
						fold[e.Res[0]] = strings.ToUpper(k)
					}
				}
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			kw := fold[cond]
			if cond.Op == "eq" {
				for i := 0; i < 2; i++ {
					if k, ok := cond.Args[1-i].constStr(); ok && upper[cond.Args[i]] {
						kw = k
						if _, known := index[k]; !known && k != "" {
							kw = "?"
						}
					}
				}
			}
			if kw == "" {
				return
			}
			if i, ok := index[kw]; ok {
				if taken && (s.A[aKw] != 0 && s.A[aKw] != int16(i+1) || s.A[aNot]&(1<<uint(i)) != 0) || !taken && s.A[aKw] == int16(i+1) {
					s.A[aDead] = 1 // the word cannot equal two keywords
				}
				if taken {
					s.A[aKw] = int16(i + 1)
				} else {
					s.A[aNot] |= 1 << uint(i)
				}
			}
		case EvStore:
			f := e.Addr.storedField()
			if i, ok := flagBit[f]; ok {
				v, known := e.Raw.constBool()
				for k, w := range keywords { // what was stored before
					if flagBit[r.field[w.flag]] == i {
						s.A[aSym] &^= 1 << uint(k)
					}
				}
				if !known { // the comparison itself
					ok := false
					if e.Raw.Op == "eq" {
						for j := 0; j < 2; j++ {
							if w, isC := e.Raw.Args[1-j].constStr(); isC && upper[e.Raw.Args[j]] {
								if k, isK := index[w]; isK && flagBit[r.field[keywords[k].flag]] == i {
									s.A[aSym] |= 1 << uint(k)
									s.A[aFlag] &^= 1 << uint(i)
									ok = true
								}
							}
						}
					}
					if !ok {
						pr.fail(s, e, "flag", "how the statement is treated is not decided by its keyword")
					}
					return
				}
				if v {
					s.A[aFlag] |= 1 << uint(i)
				} else {
					s.A[aFlag] &^= 1 << uint(i)
				}
			}
			if f == r.ddl {
				if v, known := e.Raw.constBool(); known && v {
					s.A[aDDL] = 1
				}
			}
		case EvReturn:
			if e.Fn != r.stmts || s.A[aCopy] != 0 || s.A[aDead] != 0 {
				return
			}
			if nl, known := x.IsNil(s, e.Res[1]); known && !nl {
				return
			}
			if nl, known := x.IsNil(s, e.Res[0]); known && nl {
				return // no statement
			}
			pr.obl(e, "classified")
			want, what := int16(0), "another statement"
			if k := s.A[aKw]; k > 0 {
				want = 1 << uint(flagBit[r.field[keywords[k-1].flag]])
				what = keywords[k-1].word
				pr.obl(e, what)
				if s.A[aSym]&(1<<uint(k-1)) != 0 {
					s.A[aFlag] |= want
				}
			} else if (s.A[aNot]|s.A[aSym])&(1<<uint(len(keywords))-1) != 1<<uint(len(keywords))-1 {
				for i, k := range keywords {
					if (s.A[aNot]|s.A[aSym])&(1<<uint(i)) == 0 {
						pr.fail(s, e, "unknown "+k.word, "a statement is returned without its first word being compared with "+k.word)
					}
				}
				return
			}
			if s.A[aFlag] != want {
				pr.fail(s, e, what, what+" is treated as "+flagNames(s.A[aFlag])+", not as "+flagNames(want))
			}
			if want == 1<<uint(flagBit[r.field["DDL"]]) {
				if !pr.n["ddl"+what] {
					pr.n["ddl"+what] = true
					c.Obl(ddlRule, what)
				}
				if s.A[aDDL] == 0 {
					c.Fail(ddlRule, siteName(e, what), e.Pos(), "the trx is not marked as DDL")
				}
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
}

func flagNames(m int16) string {
	var out []string
	for i, f := range stmtFlags {
		if m&(1<<uint(i)) != 0 {
			out = append(out, f)
		}
	}
	if out == nil {
		return "none"
	}
	return strings.Join(out, "+")
}

// firstWordRe: the pattern finds the first keyword of statements.
func firstWordRe(re *regexp.Regexp) bool {
	for in, want := range map[string]string{"SELECT 1": "SELECT", "select(1)": "select", "Begin": "Begin", "START TRANSACTION": "START",
		"insert into t values (1)": "insert", "DELETE\tFROM t": "DELETE", "TRUNCATE `t`": "TRUNCATE", "commit;": "commit", "CREATE_X t": "CREATE_X"} {
		if re.FindString(in) != want {
			return false
		}
	}
	return true
}

// reachesStore: the function, or what it calls, stores to one of the fields.
func (p *Prog) reachesStore(fn *ssa.Function, fields ...*types.Var) bool {
	for f := range p.Reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					fl := fieldAddrOf(st.Addr)
					for _, w := range fields {
						if fl != nil && fl == w {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (c *Ctx) trxCopies(rule string, r *trxRoles) {
	p := c.P
	x := NewExec(p, r.stmts)
	x.Inline = func(f *ssa.Function) bool {
		return f != r.stmts && fnPkgPath(f) == modPath+"/trx" && (p.reachesFn(f, r.stmts) || p.reachesStore(f, r.mods, r.copyNo, r.text, r.list))
	}
	x.BlockEvents = true
	x.Keep = func(f *Val) bool { return false }
	x.Untrack = func(a *Val) bool { return rootOf(a).Op != "alloc" }
	pr := c.pathRule(rule, x)
	// A: filter state of the current modifier; a kept or dropped wrongly one; modifiers replaced; copy number; stored
	const aMod, aBad, aMods, aNo, aStored, aLoop, aReset, aIn, aApp = 0, 1, 2, 3, 4, 5, 6, 7, 8
	const aNone = 9
	prefix := map[*Val]bool{}
	calls := 0
	loops := p.recursionLoops(r.stmts, x.Inline) // that contain the recursion
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvBlock:
			if e.Block != nil && p.filterLoop(r, e.Block) {
				if e.Back && (s.A[aMod] == 1 || s.A[aMod] == 3) { // not kept, though not copies
					s.A[aBad] = 2
				}
				s.A[aMod] = 1
			}
			if e.Back && e.Block != nil && loops[e.Block] {
				if s.A[aIn] == 0 {
					pr.fail(s, e, "copy", "a copy is not parsed")
				} else if s.A[aStored] == 0 {
					pr.fail(s, e, "copy", "a copy is not returned")
				}
				s.A[aStored], s.A[aIn] = 0, 0
			}
		case EvRet:
			switch {
			case e.Callee == "strings.HasPrefix":
				if k, ok := e.Args[1].constStr(); ok && strings.HasPrefix(k, "copies") {
					prefix[e.Res[0]] = true
				}
			case e.Callee == "builtin append":
				if s.RV[0] != nil && len(e.Args) > 1 {
					if vs, ok := x.VarArgs(s, e.Args[1]); ok {
						for _, v := range vs {
							if v != nil && v.contains(s.RV[0]) {
								s.A[aStored], s.A[aApp] = 1, 1
							}
						}
					} else if e.Args[1].contains(s.RV[0]) {
						s.A[aStored], s.A[aApp] = 1, 1
					}
				}
				if t, ok := e.Args[0].T.(*types.Slice); ok && isString(t.Elem()) && s.A[aMod] != 0 {
					switch s.A[aMod] {
					case 1:
						s.A[aBad] = 1 // kept without looking
					case 3:
						s.A[aMod] = 4
					case 2:
						s.A[aBad] = 1
					}
				}
			case e.Callee == "strconv.Atoi" || e.Callee == "strconv.ParseInt" || e.Callee == "strconv.ParseUint":
				s.RV[6] = e.Res[0]
				s.A[aNone] = 0
			case e.Target == r.stmts:
				if s.RV[1] = nil; len(e.Res) == 2 {
					s.RV[0] = e.Res[0]
				}
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if s.RV[6] != nil && len(cond.Args) == 2 && taken {
				a, b := stripConv(cond.Args[0]), stripConv(cond.Args[1])
				ka, isA := a.constInt()
				kb, isB := b.constInt()
				if cond.Op == "eq" && (a == s.RV[6] && isB && kb == 0 || b == s.RV[6] && isA && ka == 0) ||
					cond.Op == "lss" && a == s.RV[6] && isB && kb == 1 {
					s.A[aNone] = 1
				}
			}
			if prefix[cond] {
				if taken {
					s.A[aMod] = 2
				} else {
					s.A[aMod] = 3
				}
			}
		case EvCall:
			if e.Target != r.stmts {
				return
			}
			calls++
			s.A[aIn] = 1
			pr.obl(e, "copy")
			if s.A[aMods] == 0 {
				pr.fail(s, e, "modifiers", "a copy is parsed with the modifiers of the original, copies included")
			}
			if s.A[aNo] == 0 {
				pr.fail(s, e, "number", "a copy is parsed without its own number")
			}
			s.A[aNo] = 0
			// which loop
			h := (*ssa.BasicBlock)(nil)
			fn := e.Instr.Parent()
			for _, l := range p.loopsOf(e.Instr.Block()) {
				h = l
			}
			if fn != r.stmts && h == nil {
				return
			}
			if h == nil {
				pr.fail(s, e, "loop", "copies are not parsed in a loop")
				return
			}
			lim, idx, first, why := countLoop(h, func(from, to *ssa.BasicBlock) bool { return leadsToError(to) }, true)
			if why != "" {
				pr.fail(s, e, "loop", "cannot tell how many copies are parsed: "+why)
				return
			}
			_ = idx
			if sl := isLen(lim); sl != nil {
				if mk := p.sliceMake(sl); mk != nil {
					lim = mk.Len
				}
			}
			if first != 0 || !p.isAtoi(lim, 0) {
				pr.fail(s, e, "loop", "the number of copies is not the number that is asked for")
			}
		case EvStore:
			switch f := e.Addr.storedField(); {
			case f == r.mods:
				if s.A[aBad] == 1 {
					pr.fail(s, e, "filter", "a copy can have the copies modifier, too")
				} else if s.A[aBad] == 2 {
					pr.fail(s, e, "filter", "a copy can lack a modifier of the original")
				}
				s.A[aMods] = 1
			case f == r.copyNo:
				if k, ok := e.Raw.constInt(); ok && k == 0 {
					s.A[aReset] = 1
				} else {
					s.A[aNo], s.A[aReset] = 1, 0
					var h *ssa.BasicBlock
					for _, l := range p.loopsOf(e.Instr.Block()) {
						h = l
					}
					if h != nil { // numbered by the loop: from 1
						early := func(from, to *ssa.BasicBlock) bool { return leadsToError(to) }
						_, idx, first, why := countLoop(h, early, false)
						if why != "" {
							if _, idx, first, why = countLoop(h, early, true); why == "" {
								first++
							}
						}
						if why == "" {
							b1, o1 := lin(stripConv(e.Raw))
							b2, o2 := lin(x.val(s, s.frames[len(s.frames)-1], idx))
							if b1 == b2 && first+o1-o2 != 1 {
								pr.fail(s, e, "numbered", "copies are not numbered from 1")
							}
						}
					}
				}
			case f == r.text || f == r.list:
				pr.fail(s, e, "text", "parsing a statement changes the text that copies are parsed from")
			case e.Addr.Op == "elem" && e.Raw != nil && s.RV[0] != nil && e.Raw.contains(s.RV[0]):
				s.A[aStored] = 1
				base := e.Addr.Args[0]
				ia, _ := e.Instr.(*ssa.Store).Addr.(*ssa.IndexAddr)
				if ia == nil {
					return
				}
				if _, ok := ia.X.(*ssa.Alloc); ok { // what is appended
					s.A[aStored] = 0
					return
				}
				if mk := p.sliceMake(ia.X); mk != nil && p.isAtoi(mk.Len, 0) {
					s.RV[2] = base
				} else {
					pr.fail(s, e, "slice", "cannot tell how many copies are returned")
				}
			}
		case EvReturn:
			if e.Fn == r.stmts && len(e.Res) == 2 && e.Res[0].isNil() && e.Res[1].isNil() && s.A[aNone] == 0 {
				pr.fail(s, e, "none", "no statement is returned although 0 copies were not asked for")
			}
			if e.Fn != r.stmts || calls == 0 || s.RV[0] == nil {
				return
			}
			if nl, known := x.IsNil(s, e.Res[1]); known && !nl {
				return
			}
			pr.obl(e, "returned")
			if s.A[aApp] == 1 {
				if ret, ok := e.Instr.(*ssa.Return); !ok || !p.appendWeb(ret.Results[0], map[ssa.Value]bool{}) {
					pr.fail(s, e, "returned", "not only the copies are returned")
				}
			} else if s.RV[2] == nil || stripSlice(e.Res[0]) != s.RV[2] && e.Res[0] != s.RV[2] {
				pr.fail(s, e, "returned", "not all copies are returned")
			}
			if s.A[aReset] == 0 {
				pr.fail(s, e, "reset", "the copy number is kept for the next statement")
			}
		}
	}
	x.Run(nil, nil)
	if calls == 0 {
		c.Missing(rule, "parsing of copies")
	}
	c.finish(rule, x)
}

// leadsToError: the block (or what only it leads to) returns an error.
func leadsToError(b *ssa.BasicBlock) bool {
	for i := 0; i < 8; i++ {
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			n := len(t.Results)
			if n == 0 || !isErrorType(t.Results[n-1].Type()) {
				return false
			}
			v := t.Results[n-1]
			if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL { // results of functions with defer
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == ld.X {
						v = st.Val
					}
				}
				if v == ssa.Value(ld) {
					return false
				}
			}
			return nonNilErr(v, map[ssa.Value]bool{}) || nonNilAt(v, b)
		case *ssa.Jump:
			b = b.Succs[0]
		default:
			return false
		}
	}
	return false
}

func (p *Prog) reachesFn(fn, target *ssa.Function) bool { return p.Reach(fn)[target] }

// loadOfField: the field whose value v is.
func loadOfField(v ssa.Value) *types.Var {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return fieldAddrOf(u.X)
	}
	return nil
}

// storedField: the field an address is the address of.
func (v *Val) storedField() *types.Var {
	if v.Op == "field" {
		return v.Fld
	}
	return nil
}

func loadsField(v *Val, f *types.Var) bool {
	g, _ := v.loadedField()
	return g != nil && g == f
}

// sliceMake: the make a slice is from.
func (p *Prog) sliceMake(v ssa.Value) *ssa.MakeSlice {
	for i := 0; i < 6; i++ {
		switch u := v.(type) {
		case *ssa.MakeSlice:
			return u
		case *ssa.Parameter:
			cs := p.callersOf(u.Parent())
			if len(cs) != 1 {
				return nil
			}
			for k, q := range u.Parent().Params {
				if q == u {
					v = cs[0].Common().Args[k]
				}
			}
		default:
			return nil
		}
	}
	return nil
}

// isAtoi: the value is a number read with strconv.Atoi.
func (p *Prog) isAtoi(v ssa.Value, depth int) bool {
	switch u := v.(type) {
	case *ssa.Extract:
		call, ok := u.Tuple.(*ssa.Call)
		return ok && u.Index == 0 && (calleeName(&call.Call) == "strconv.Atoi" || strings.HasPrefix(calleeName(&call.Call), "strconv.Parse"))
	case *ssa.Convert:
		return p.isAtoi(u.X, depth)
	case *ssa.Parameter:
		if depth > 3 {
			return false
		}
		cs := p.callersOf(u.Parent())
		for _, c := range cs {
			for k, q := range u.Parent().Params {
				if q == u && !p.isAtoi(c.Common().Args[k], depth+1) {
					return false
				}
			}
		}
		return len(cs) > 0
	}
	return false
}

// recursionLoops: the innermost loops that call target, in it and in the functions that are inlined.
func (p *Prog) recursionLoops(target *ssa.Function, inline func(*ssa.Function) bool) map[*ssa.BasicBlock]bool {
	loops := map[*ssa.BasicBlock]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool // does f call target outside of any loop of its own?
	visit = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		open := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				t := call.Common().StaticCallee()
				if t == nil || t != target && !(inline(t) && visit(t)) {
					continue
				}
				if l := p.loopsOf(b); len(l) > 0 {
					loops[l[len(l)-1]] = true
				} else {
					open = true
				}
			}
		}
		return open
	}
	visit(target)
	return loops
}

// appendWeb: the value is what is appended, in a loop, to an empty slice.
func (p *Prog) appendWeb(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch u := v.(type) {
	case *ssa.Const:
		return u.IsNil()
	case *ssa.MakeSlice:
		return isConstInt(u.Len, 0)
	case *ssa.Slice: // []T{}
		a, ok := u.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		arr, ok := deref(a.Type()).Underlying().(*types.Array)
		return ok && arr.Len() == 0
	case *ssa.Phi:
		for _, e := range u.Edges {
			if !p.appendWeb(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		return p.appendWeb(u.Tuple, seen)
	case *ssa.Call:
		if b, ok := u.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "append" && p.appendWeb(u.Call.Args[0], seen)
		}
		f := u.Call.StaticCallee()
		if f == nil || f.Blocks == nil {
			return false
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if !p.appendWeb(ret.Results[0], seen) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// modsLoop: the block starts a loop over all modifiers.
func (p *Prog) modsLoop(r *trxRoles, h *ssa.BasicBlock, any bool) bool {
	lim, _, first, why := indexLoopIf(h, func(from, to *ssa.BasicBlock) bool { return any })
	if why != "" || first != 0 {
		return false
	}
	sl := isLen(lim)
	for i := 0; i < 4 && sl != nil; i++ {
		if loadOfField(sl) == r.mods {
			return true
		}
		u, ok := sl.(*ssa.Parameter)
		if !ok {
			return false
		}
		cs := p.callersOf(u.Parent())
		if len(cs) != 1 {
			return false
		}
		for k, q := range u.Parent().Params {
			if q == u {
				sl = cs[0].Common().Args[k]
			}
		}
	}
	return false
}

// filterLoop: a loop over all modifiers inside the one that handles each modifier, or in a function of its own.
func (p *Prog) filterLoop(r *trxRoles, h *ssa.BasicBlock) bool {
	if !p.modsLoop(r, h, false) {
		return false
	}
	if h.Parent() != r.stmts {
		return true
	}
	for _, b := range h.Parent().Blocks {
		if b != h && b.Dominates(h) && loopBody(b) != nil && p.modsLoop(r, b, true) {
			return true
		}
	}
	return false
}
