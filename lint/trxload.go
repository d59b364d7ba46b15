package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C33"] = ruleC33
}

func ruleC33(c *Ctx) {
	const LD, MD, IB, ER, CO = "loaded", "modifier", "in bounds", "reported", "columns"
	c.Rule(LD, "On every path on which File.Load succeeds: the scanner said that there are no more lines, or the end mark was read, and it has no error; every line was added to the statement, added to the modifiers, blank, or the end mark; the text of every statement, the last one too, was parsed before it was cleared, and it and its modifiers were cleared before the next; all statements it gave are stored, there is at least one, and they are in the set under the name of the trx.")
	c.Rule(MD, "On every path that goes on to the next modifier of a statement, the modifier equals one of the known ones, and what it asks for is stored in the statement.")
	c.Rule(IB, "Where a word of a line, or a group of a regular expression, is taken by a constant index, there are that many on every path.")
	c.Rule(ER, "Every error in package trx while loading is returned, and nothing there ends the process; a data key that is not configured is an error.")
	c.Rule(CO, "Every saved column is counted from zero, every use of it is counted, and loading fails if a count is zero.")
	r := c.trxRoles(LD)
	if r == nil {
		return
	}
	p := c.P
	c.Fn(r.load, r.stmts)
	file := p.Type("trx", "File")
	var refs *types.Var
	fs := file.Underlying().(*types.Struct)
	for i := 0; i < fs.NumFields(); i++ {
		if m, ok := fs.Field(i).Type().Underlying().(*types.Map); ok && isString(m.Key()) {
			if b, ok := m.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				refs = fs.Field(i)
			}
		}
	}
	if refs == nil {
		c.Missing(CO, "counts of column references (a map in trx.File)")
		return
	}
	c.trxLoaded(LD, r)
	c.trxModifiers(MD, IB, ER, CO, r, refs)
	c.trxUnused(CO, r, refs)

	c.textBounds(IB, r)
	n := 0
	for f := range p.Reach(r.load) {
		if fnPkgPath(f) != modPath+"/trx" || f.Blocks == nil {
			continue
		}
		c.Fn(f)
		for _, ci := range callsOf(f) {
			if ends(calleeName(ci.Common())) {
				c.Fail(ER, shortFn(f)+":"+calleeName(ci.Common()), ci.Pos(), "loading a trx file ends the process instead of returning an error")
			}
		}
		for _, e := range errCalls(f) {
			if notOps(e.name) || dropOK(e) || strings.HasSuffix(e.name, ").Close") || strings.HasPrefix(e.name, "fmt.Print") {
				continue
			}
			n++
			c.Obl(ER, shortFn(f)+":"+e.name)
			if e.err == nil {
				c.Fail(ER, shortFn(f)+":"+e.name, e.call.Pos(), "its error is discarded")
				continue
			}
			fl := &errFlow{p: p, e: e, strict: true}
			fl.bad = func(pos token.Pos, what string) {
				c.Fail(ER, shortFn(f)+":"+e.name, e.call.Pos(), "its error may not be returned: "+what+" at "+p.Pos(pos))
			}
			fl.run()
		}
	}
	c.Require(ER, n, 8, "calls that return an error while a trx file is loaded")
}

// trxLoaded follows what becomes of every line.
func (c *Ctx) trxLoaded(rule string, r *trxRoles) {
	p := c.P
	x := NewExec(p, r.load)
	cfgName := p.Field("config", "Trx", "Name")
	order, stmts, meta := p.Field("trx", "Set", "Order"), p.Field("trx", "Set", "Statements"), p.Field("trx", "Set", "Meta")
	if cfgName == nil || order == nil || stmts == nil || meta == nil {
		c.Missing(rule, "trx.Set and config.Trx.Name")
		return
	}
	x.Inline = func(f *ssa.Function) bool {
		return f != r.stmts && f != r.load && fnPkgPath(f) == modPath+"/trx" && !p.reachesFn1(r.stmts, f)
	}
	x.Keep = func(f *Val) bool { return false }
	x.Untrack = func(a *Val) bool { return rootOf(a).Op != "alloc" }
	pr := c.pathRule(rule, x)
	// A: scanned 1 more 2 ended; a line not used yet; text pending; parsed and not cleared; statements not stored;
	// has statements; error checked; stored in order, statements, meta; modifiers parsed and not cleared; modifiers pending
	const aScan, aLine, aText, aParsed, aGot, aSome, aOrder, aStmts, aMeta, aModsOld, aMods, aEOF, aErr, aEach = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13
	scans, returns := 0, 0
	isLine := func(s *State, v *Val) bool {
		return s.RV[1] != nil && v.contains(s.RV[1]) || s.RV[4] != nil && v.contains(s.RV[4])
	}
	used := func(s *State) { s.A[aLine] = 0 }
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			switch {
			case e.Callee == "(*bufio.Scanner).Scan":
				scans++
				pr.obl(e, "scan")
				if s.A[aLine] == 1 {
					pr.fail(s, e, "line", "a line is ignored")
				}
				s.RV[0], s.RV[1], s.RV[4] = e.Res[0], nil, nil
				s.A[aLine] = 0
			case e.Callee == "(*bufio.Scanner).Text" || e.Callee == "(*bufio.Scanner).Bytes":
				s.RV[1] = e.Res[0]
			case e.Callee == "(*bufio.Scanner).Err":
				s.RV[2], s.A[aErr] = e.Res[0], 0
			case e.Target == r.stmts:
				s.RV[3], s.RV[7] = e.Res[0], e.Res[1]
				s.A[aParsed], s.A[aGot], s.A[aModsOld], s.A[aEach] = 1, 1, 1, 0
			case e.Callee == "builtin append":
				if len(e.Args) < 2 {
					return
				}
				into := e.Args[0].loadedFieldIs
				switch {
				case into(r.mods):
					for _, v := range e.Args[1:] {
						if v != nil && isLine(s, v) {
							s.RV[5] = e.Res[0]
						}
					}
				case into(r.list) || s.RV[6] != nil && e.Args[0] == s.RV[6]:
					if s.RV[3] == nil || len(e.Args) != 2 {
						return
					}
					if e.Args[1] == s.RV[3] {
						s.RV[6] = e.Res[0]
					} else if e.Args[1].contains(s.RV[3]) { // one by one
						for _, h := range p.loopsOf(e.Instr.Block()) {
							if lim, _, first, why := indexLoop(h); why == "" && first == 0 && isLen(lim) != nil {
								s.RV[6], s.A[aEach] = e.Res[0], 2
							}
						}
					}
				case into(order):
					if len(e.Args) == 2 && e.Args[1].find1(func(t *Val) bool { return loadsField(t, cfgName) }) {
						s.RV[8] = e.Res[0]
					}
				}
			default:
				if len(e.Res) > 0 && e.Res[0] != nil && !e.Inlined {
					for _, a := range e.Args {
						if a != nil && isLine(s, a) {
							s.RV[4] = e.Res[0]
						}
					}
				}
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Op == "eq" && taken && s.RV[2] != nil && (cond.Args[0] == s.RV[2] && cond.Args[1].isNil() || cond.Args[1] == s.RV[2] && cond.Args[0].isNil()) {
				s.A[aErr] = 1
			}
			if cond.Op == "lss" && s.RV[3] != nil && cond.Args[1].Op == "len" && cond.Args[1].Args[0] == s.RV[3] && s.A[aGot] == 1 {
				if s.A[aEach] == 1 {
					s.A[aEach] = 9 // a round that stores none
				}
				switch {
				case taken && s.A[aEach] != 9:
					s.A[aEach] = 1
				case !taken:
					if s.A[aEach] != 9 { // all are
						s.A[aGot] = 0
					}
					s.A[aEach] = 0
				}
			}
			if cond == s.RV[0] {
				if taken {
					s.A[aScan], s.A[aLine] = 1, 1
				} else {
					s.A[aScan] = 2
				}
			}
			if v := emptyLen(cond, taken); v != nil {
				if loadsField(v, r.text) {
					s.A[aText] = 0
				}
				if isLine(s, v) {
					used(s)
				}
			} else if v := emptyLen(cond, !taken); v != nil && (loadsField(v, r.list) || v == s.RV[6]) {
				s.A[aSome] = 1
			}
			if cond.Op == "eq" && taken {
				for i := 0; i < 2; i++ {
					if k, ok := cond.Args[1-i].constStr(); ok {
						if isLine(s, cond.Args[i]) {
							used(s)
							if k != "" {
								s.A[aEOF] = 1
							}
						}
						if k == "" && loadsField(cond.Args[i], r.text) {
							s.A[aText] = 0
						}
					}
				}
			}
		case EvStore:
			switch f := e.Addr.storedField(); f {
			case r.text:
				if k, ok := e.Raw.constStr(); ok && k == "" {
					if s.A[aText] == 1 && s.A[aParsed] == 0 {
						pr.fail(s, e, "text", "text of a statement is dropped without being parsed")
					}
					s.A[aText], s.A[aParsed] = 0, 0
					return
				}
				pr.obl(e, "text")
				if s.A[aParsed] == 1 {
					pr.fail(s, e, "text", "the text of a statement that is already parsed is kept for the next")
				}
				if isLine(s, e.Raw) {
					used(s)
				}
				if !e.Raw.find1(func(t *Val) bool { return loadsField(t, r.text) }) && s.A[aText] == 1 {
					pr.fail(s, e, "text", "a line replaces the lines of the statement before it")
				}
				s.A[aText] = 1
			case r.mods:
				if s.RV[5] != nil && e.Raw == s.RV[5] {
					pr.obl(e, "modifier")
					used(s)
					if s.A[aModsOld] == 1 {
						pr.fail(s, e, "modifiers", "the modifiers of a statement that is already parsed are kept for the next")
					}
					s.A[aMods] = 1
					return
				}
				if s.A[aMods] == 1 && s.A[aModsOld] == 0 {
					pr.fail(s, e, "modifiers", "modifiers are dropped before their statement is parsed")
				}
				s.A[aMods], s.A[aModsOld] = 0, 0
			case r.list:
				if s.RV[6] != nil && e.Raw == s.RV[6] {
					if s.A[aGot] = 0; s.A[aEach] == 2 {
						s.A[aGot], s.A[aEach] = 1, 0
					}
					if k, ok := x.Ask(s, x.T.eq(x.T.app("len", e.Raw), x.T.intv(0))); ok && !k {
						s.A[aSome] = 1
					}
				} else {
					pr.fail(s, e, "statements", "statements parsed before are lost")
				}
			case order:
				if e.Raw == s.RV[8] {
					s.A[aOrder] = 1
				}
			}
		case EvMapUpdate:
			byName := e.Args[1].find1(func(t *Val) bool { return loadsField(t, cfgName) })
			switch {
			case loadsField(e.Args[0], stmts):
				if byName && loadsField(e.Val, r.list) {
					s.A[aStmts] = 1
				}
			case loadsField(e.Args[0], meta):
				if byName {
					s.A[aMeta] = 1
				}
			}
		case EvCall:
			if e.Target == r.stmts && s.A[aGot] == 1 {
				pr.fail(s, e, "statements", "parsed statements are not stored")
			}
		case EvReturn:
			if e.Fn != r.load {
				return
			}
			if nl, known := x.IsNil(s, e.Res[0]); known && !nl {
				return
			}
			returns++
			pr.obl(e, "loaded")
			bad := func(what, msg string) { pr.fail(s, e, what, msg) }
			if s.A[aScan] != 2 && s.A[aEOF] == 0 {
				bad("scan", "loading can succeed before the end of the file")
			}
			if s.A[aEOF] == 0 {
				if s.RV[2] == nil {
					bad("error", "an error when reading the file is not checked")
				} else if s.A[aErr] == 0 {
					bad("error", "an error when reading the file is not returned")
				}
			}
			if s.A[aLine] == 1 {
				bad("line", "a line is ignored")
			}
			if s.A[aText] == 1 && s.A[aParsed] == 0 {
				bad("last", "the text of the last statement is ignored")
			}
			if s.A[aGot] == 1 && s.RV[7] != nil {
				bad("statements", "parsed statements are not stored")
			}
			if s.A[aSome] == 0 {
				bad("empty", "a file without statements is loaded")
			}
			if s.A[aOrder]+s.A[aStmts]+s.A[aMeta] != 3 {
				bad("set", "the statements are not added to the set under the name of the trx")
			}
		}
	}
	x.Run(nil, nil)
	if scans == 0 {
		c.Missing(rule, "bufio.Scanner that reads the file")
	}
	if returns == 0 {
		c.Missing(rule, "successful return of File.Load")
	}
	c.finish(rule, x)
}

// reachesFn1: target can be reached from fn (for recursion: never inlined).
func (p *Prog) reachesFn1(fn, target *ssa.Function) bool { return fn != target && p.Reach(fn)[target] }

// loadedFieldIs: the value is what field f holds.
func (v *Val) loadedFieldIs(f *types.Var) bool { return loadsField(v, f) }

// find1: does some part of the value match?
func (v *Val) find1(m func(*Val) bool) bool { return v != nil && v.find(m) != nil }

// modifiers and what they set.
var modifiers = map[string][]string{
	"prepare": {"Prepare"}, "prepared": {"Prepare"}, "idle": {"Idle"}, "rows": {"Limit"}, "table-size": {"Limit"}, "database-size": {"Limit"},
	"save-insert-id": {"InsertId", "Outputs"}, "save-columns": {"Outputs"}, "copies": nil,
}

var modifierNames = []string{"prepare", "prepared", "idle", "rows", "table-size", "database-size", "save-insert-id", "save-columns", "copies"}

func (c *Ctx) trxModifiers(rule, bounds, errRule, colRule string, r *trxRoles, refs *types.Var) {
	p := c.P
	keys, column := p.Field("data", "Scope", "Keys"), p.Field("data", "Key", "Column")
	cfgData := p.Field("config", "Trx", "Data")
	mk := p.Func("data", "", "Make")
	if keys == nil || column == nil || cfgData == nil || mk == nil {
		c.Missing(rule, "data.Scope.Keys, data.Key.Column, config.Trx.Data, data.Make")
		return
	}
	isFile := func(f *ssa.Function) bool {
		return fnPkgPath(f) == modPath+"/trx"
	}
	// one pass over the parser, one over what it calls to save a column
	x := NewExec(p, r.stmts)
	x.Inline = func(f *ssa.Function) bool { return f != r.stmts && isFile(f) && !p.Reach(f)[r.stmts] }
	x.IndexEvents, x.BlockEvents = true, true
	x.Keep = func(f *Val) bool { return false }
	x.Untrack = func(a *Val) bool { // the name of the modifier is looked at repeatedly
		if a.Op == "elem" {
			if _, ok := a.Args[1].constInt(); ok && rootOf(a).Op != "alloc" {
				return false
			}
		}
		return true
	}
	x.KeepIf = func(f *Val, v bool) bool {
		if f.Op == "eq" {
			for _, a := range f.Args {
				if k, ok := a.constStr(); ok && modifiers[k] != nil || k == "copies" {
					return true
				}
			}
		}
		return false
	}
	pm, pb, pe, pc := c.pathRule(rule, x), c.pathRule(bounds, x), c.pathRule(errRule, x), c.pathRule(colRule, x)
	const aMod, aEff, aLoop, aOne, aWords, aGroups, aUsed, aCol, aCounted, aZero, aIn = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10
	mi := map[string]int16{}
	for i, m := range modifierNames {
		mi[m] = int16(i + 1)
	}
	bit := map[*types.Var]int16{r.field["Prepare"]: 1, r.field["Idle"]: 2, r.field["Limit"]: 4, r.field["InsertId"]: 8, r.field["Outputs"]: 16}
	// words of a line: RV[0] by strings.Fields and the like, RV[1] groups of a regular expression
	seen := map[string]bool{}
	handled := map[*ssa.BasicBlock]bool{}
	mainLoop := func(b *ssa.BasicBlock) bool { return p.modsLoop(r, b, true) && !p.filterLoop(r, b) }
	endMod := func(s *State, e *Event) {
		k := s.A[aMod]
		if k == 0 {
			pm.fail(s, e, "unknown", "a modifier that equals none of the known ones is ignored")
			return
		}
		name := modifierNames[k-1]
		seen[name] = true
		pm.obl(e, name)
		if name == "copies" && s.A[aOne] == 0 {
			pm.fail(s, e, name, "copies is ignored, though not 1")
		}
		if name == "save-columns" && s.A[aLoop] == 1 {
			return
		}
		for _, f := range modifiers[name] {
			if s.A[aEff]&bit[r.field[f]] == 0 {
				pm.fail(s, e, name, "the modifier "+name+" has no effect: Statement."+f+" is not set")
			}
		}
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvBlock:
			if e.Block == nil {
				return
			}
			if e.Back && s.A[aUsed] == 1 && e.Fn == r.stmts {
				pc.fail(s, e, "use", "the use of a saved column is not counted")
				s.A[aUsed] = 0
			}
			if s.A[aCol] == 1 && e.Back {
				pm.fail(s, e, "save-columns", "a column is not saved")
				s.A[aCol] = 0
			}
			if mainLoop(e.Block) {
				handled[e.Block] = true
				if e.Back {
					endMod(s, e)
				}
				s.A[aMod], s.A[aEff], s.A[aLoop], s.A[aOne] = 0, 0, 0, 0
				s.A[aWords], s.RV[0], s.RV[3], s.RV[4], s.RV[5] = 0, nil, nil, nil, nil
			} else if s.A[aMod] != 0 && loopBody(e.Block) != nil {
				s.A[aLoop] = 1
			}
		case EvCall:
			if e.Target != mk {
				return
			}
			pe.obl(e, "configured")
			if _, ok := e.Args[0].constStr(); ok {
				return
			}
			if s.A[aIn] != 1 {
				pe.fail(s, e, "data key", "a data key that is not configured is not an error")
			}
		case EvRet:
			switch {
			case (e.Callee == "strings.Fields" || strings.HasPrefix(e.Callee, "strings.Split")) && len(e.Res) == 1:
				if s.RV[0] = e.Res[0]; e.Callee == "strings.Fields" {
					s.A[aWords] = 0
				} else {
					s.A[aWords] = 1
				}
			case strings.HasSuffix(e.Callee, "Submatch") && strings.HasPrefix(e.Callee, "(*regexp.Regexp)"):
				s.RV[1], s.A[aGroups] = e.Res[0], 0
				s.RV[2] = nil
				if re := p.regexpOf(e); re != nil {
					s.RV[2] = x.T.intv(int64(re.NumSubexp() + 1))
				}
			case e.Target != nil && isFile(e.Target) && e.Inlined && e.Target.Signature.Results().Len() == 2 && isString(e.Target.Signature.Results().At(0).Type()):
				if nl, known := x.IsNil(s, e.Res[1]); known && nl && (s.A[aMod] == mi["save-columns"] || s.A[aMod] == mi["save-insert-id"]) {
					s.RV[3], s.A[aCol] = e.Res[0], 1
				}
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Op == "eq" {
				for i := 0; i < 2; i++ {
					if k, ok := cond.Args[1-i].constStr(); ok && mi[k] > 0 && taken {
						s.A[aMod] = mi[k]
					}
				}
			}
			lower := func(v *Val) int16 { // what the branch says about the length of v
				if v == nil {
					return 0
				}
				is := func(t *Val) bool { return t.Op == "len" && t.Args[0] == v }
				switch cond.Op {
				case "eq":
					for i := 0; i < 2; i++ {
						if k, ok := cond.Args[1-i].constInt(); ok && is(cond.Args[i]) {
							if taken {
								return int16(k)
							} else if k == 0 {
								return 1
							}
						}
						if cond.Args[1-i].isNil() && cond.Args[i] == v && !taken {
							return 1
						}
					}
				case "lss":
					if k, ok := cond.Args[1].constInt(); ok && is(cond.Args[0]) && !taken {
						return int16(k)
					}
					if k, ok := cond.Args[0].constInt(); ok && is(cond.Args[1]) && taken {
						return int16(k + 1)
					}
				}
				return 0
			}
			if n := lower(s.RV[0]); n > s.A[aWords] {
				s.A[aWords] = n
			}
			if n := lower(s.RV[1]); n > s.A[aGroups] {
				if s.A[aGroups] = n; s.RV[2] != nil {
					if k, _ := s.RV[2].constInt(); k > int64(n) {
						s.A[aGroups] = int16(k)
					}
				}
			}
			if cond.Op == "eq" && taken || cond.Op == "lss" {
				for i := 0; i < 2; i++ {
					if k, ok := cond.Args[1-i].constInt(); ok && cond.Op == "eq" && k == 1 && isNumber(cond.Args[i]) {
						s.A[aOne] = 1
					}
				}
			}
			if cond.Op == "lookupok" && cond.Args[0].find1(func(t *Val) bool { return loadsField(t, cfgData) }) {
				if s.A[aIn] = 2; taken {
					s.A[aIn] = 1
				}
			}
			if cond.Op == "lss" && isZero(cond.Args[1]) && !taken || cond.Op == "lss" && !isZero(cond.Args[1]) && taken {
				for _, a := range cond.Args {
					if a.Op == "vfield" && fieldIs(a, column) && a.find1(func(t *Val) bool { return loadsField(t, keys) }) {
						s.A[aUsed] = 1
					}
				}
			}
		case EvStore:
			f := e.Addr.storedField()
			if b, ok := bit[f]; ok {
				if v, known := e.Raw.constBool(); !(known && !v) && !e.Raw.isNil() {
					s.A[aEff] |= b
				}
				if f == r.field["Outputs"] && s.A[aCol] == 1 {
					s.A[aCol] = 0
				}
			}
		case EvMapUpdate:
			switch {
			case loadsField(e.Args[0], refs):
				if k, ok := e.Val.constInt(); ok && k == 0 {
					s.RV[4] = e.Args[1]
				} else if e.Val.Op == "bin+" || strings.HasPrefix(e.Val.Op, "bin") {
					pc.obl(e, "count")
					s.A[aUsed] = 0
				} else {
					pc.fail(s, e, "count", "cannot tell how uses of a column are counted")
				}
			case loadsField(e.Args[0], keys):
				col := x.T.vfield(e.Val, column)
				if k, ok := col.constInt(); ok && k < 0 {
					return
				}
				if _, ok := e.Args[1].constStr(); ok {
					return // the column that is not saved
				}
				pc.obl(e, "saved")
				if s.RV[4] != e.Args[1] {
					s.RV[5], s.A[aZero] = e.Args[1], 1
				}
			}
			if s.A[aZero] == 1 && s.RV[4] == s.RV[5] {
				s.A[aZero] = 0
			}
		case EvIndex:
			k, ok := e.Args[1].constInt()
			if !ok {
				return
			}
			switch {
			case s.RV[0] != nil && e.Args[0] == s.RV[0]:
				pb.obl(e, "word")
				if k < 0 || int16(k) >= s.A[aWords] {
					pb.fail(s, e, "word", "a line with too few words crashes Finch")
				}
			case s.RV[1] != nil && e.Args[0] == s.RV[1]:
				pb.obl(e, "group")
				if k < 0 || int16(k) >= s.A[aGroups] {
					pb.fail(s, e, "group", "a statement that does not match crashes Finch")
				}
			}
		case EvReturn:
			if e.Fn != r.stmts {
				return
			}
			if s.A[aZero] == 1 {
				pc.fail(s, e, "saved", "whether a saved column is used is not counted")
			}
			if nl, known := x.IsNil(s, e.Res[1]); known && !nl {
				return
			}
			if s.A[aMod] != 0 && modifierNames[s.A[aMod]-1] != "copies" {
				pm.fail(s, e, "rest", "modifiers after one are ignored")
			}
			if s.A[aUsed] == 1 {
				pc.fail(s, e, "use", "the use of a saved column is not counted")
			}
		}
	}
	x.Run(nil, nil)
	if len(handled) == 0 {
		c.Missing(rule, "loop over the modifiers of a statement")
	}
	for _, m := range modifierNames {
		if !seen[m] {
			c.Fail(rule, "trx.File:"+m, r.stmts.Pos(), "the modifier "+m+" is not known")
		}
	}
	c.finish(rule, x)
}

func isNumber(v *Val) bool {
	if v.T == nil {
		return false
	}
	b, ok := v.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && v.Op != "len"
}

func fieldIs(v *Val, f *types.Var) bool {
	g, _ := v.loadedField()
	return g == f
}

// trxUnused: a column that is not used is an error.
func (c *Ctx) trxUnused(rule string, r *trxRoles, refs *types.Var) {
	p := c.P
	n := 0
	for fn := range p.Reach(r.load) {
		if fnPkgPath(fn) != modPath+"/trx" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				rg, ok := in.(*ssa.Range)
				if !ok || loadOfField(rg.X) != refs {
					continue
				}
				n++
				c.Obl(rule, p.Pos(rg.Pos())+" unused columns")
				if why := p.unusedColumns(r, rg); why != "" {
					c.Fail(rule, shortFn(fn)+":unused", rg.Pos(), why)
				}
			}
		}
	}
	if n == 0 {
		c.Fail(rule, "trx.File.Load:unused", r.load.Pos(), "a saved column that is not used is not an error")
	}
}

func (p *Prog) unusedColumns(r *trxRoles, rg *ssa.Range) string {
	const unknown = "a saved column that is not used is not an error"
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if nx, ok := u.(*ssa.Next); ok {
			next = nx
		}
	}
	if next == nil {
		return unknown
	}
	h := next.Block()
	body := loopBody(h)
	var key, val ssa.Value
	for _, u := range *next.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok {
			switch ex.Index {
			case 1:
				key = ex
			case 2:
				val = ex
			}
		}
	}
	if val == nil && key != nil {
		for _, u := range *key.Referrers() {
			if lk, ok := u.(*ssa.Lookup); ok && loadOfField(lk.X) == loadOfField(rg.X) && !lk.CommaOk {
				val = lk
			}
		}
	}
	if val == nil || body == nil {
		return unknown
	}
	// the loop is left early only with an error
	for b := range body {
		for _, s := range b.Succs {
			if b != h && !body[s] && !leadsToError(s) {
				return "not all saved columns are checked"
			}
		}
	}
	var zero *ssa.BasicBlock
	for _, u := range *val.Referrers() {
		bo, ok := u.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, w := range *bo.Referrers() {
			iff, ok := w.(*ssa.If)
			if !ok {
				continue
			}
			// value of the comparison for a count of 0
			a, b := int64(0), int64(0)
			get := func(v ssa.Value) (int64, bool) {
				if v == val {
					return 0, true
				}
				k, ok := v.(*ssa.Const)
				if !ok || k.Value == nil {
					return 0, false
				}
				return k.Int64(), true
			}
			a, ok1 := get(bo.X)
			b, ok2 := get(bo.Y)
			if !ok1 || !ok2 {
				continue
			}
			cmp := func(a, b int64) bool {
				switch bo.Op {
				case token.GTR:
					return a > b
				case token.LSS:
					return a < b
				case token.EQL:
					return a == b
				case token.NEQ:
					return a != b
				case token.LEQ:
					return a <= b
				case token.GEQ:
					return a >= b
				}
				return false
			}
			one := func() (int64, int64) {
				x, y := a, b
				if bo.X == val {
					x = 1
				}
				if bo.Y == val {
					y = 1
				}
				return x, y
			}
			z := cmp(a, b)
			x1, y1 := one()
			if cmp(x1, y1) == z {
				continue // does not tell 0 from 1
			}
			if zero = iff.Block().Succs[1]; z {
				zero = iff.Block().Succs[0]
			}
			// every iteration decides
			for _, pr := range h.Preds {
				if body[pr] && !iff.Block().Dominates(pr) {
					return "not all saved columns are checked"
				}
			}
		}
	}
	if zero == nil {
		return unknown
	}
	if !p.onSuccess(rg.Block(), r.load, 0) {
		return "saved columns are not always checked"
	}
	if leadsToError(zero) {
		return ""
	}
	if key == nil {
		return unknown
	}
	for _, in := range zero.Instrs {
		call, ok := in.(*ssa.Call)
		if !ok {
			continue
		}
		if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
			continue
		}
		if p.emptyChecked(call, r.load, map[ssa.Value]bool{}) {
			return ""
		}
	}
	return unknown
}

// onSuccess: the block is passed on every path on which the function, and the functions that call it up to load, return no error.
func (p *Prog) onSuccess(b *ssa.BasicBlock, load *ssa.Function, depth int) bool {
	fn := b.Parent()
	for _, q := range fn.Blocks {
		if _, ok := q.Instrs[len(q.Instrs)-1].(*ssa.Return); ok && q != fn.Recover && !leadsToError(q) && !b.Dominates(q) {
			return false
		}
	}
	if fn == load {
		return true
	}
	cs := p.callersOf(fn)
	if len(cs) == 0 || depth > 4 {
		return false
	}
	for _, cl := range cs {
		if !p.onSuccess(cl.(ssa.Instruction).Block(), load, depth+1) {
			return false
		}
	}
	return true
}

// emptyChecked: whether the slice is empty is tested on success, and an error results if it is not.
func (p *Prog) emptyChecked(v ssa.Value, load *ssa.Function, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Phi:
			if p.emptyChecked(u, load, seen) {
				return true
			}
		case *ssa.Call:
			b, ok := u.Call.Value.(*ssa.Builtin)
			if !ok {
				continue
			}
			if b.Name() == "append" && u.Call.Args[0] == v {
				if p.emptyChecked(u, load, seen) {
					return true
				}
			}
			if b.Name() != "len" {
				continue
			}
			for _, w := range *u.Referrers() {
				bo, ok := w.(*ssa.BinOp)
				if !ok {
					continue
				}
				for _, z := range *bo.Referrers() {
					iff, ok := z.(*ssa.If)
					if !ok {
						continue
					}
					for i, s := range iff.Block().Succs {
						if leadsToError(s) && lenNonEmpty(bo, u, i == 0) && p.onSuccess(iff.Block(), load, 0) {
							return true
						}
					}
				}
			}
		case *ssa.Return:
			for _, cl := range p.callersOf(u.Parent()) {
				call, ok := cl.(*ssa.Call)
				if !ok {
					continue
				}
				if u.Parent().Signature.Results().Len() == 1 {
					if p.emptyChecked(call, load, seen) {
						return true
					}
					continue
				}
				for _, w := range *call.Referrers() {
					if ex, ok := w.(*ssa.Extract); ok && u.Results[ex.Index] == v && p.emptyChecked(ex, load, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// lenNonEmpty: the comparison having this value is the same as the length not being zero.
func lenNonEmpty(bo *ssa.BinOp, ln ssa.Value, val bool) bool {
	k := func(n int64) bool {
		get := func(v ssa.Value) int64 {
			if v == ln {
				return n
			}
			if c, ok := v.(*ssa.Const); ok && c.Value != nil {
				return c.Int64()
			}
			return -99
		}
		a, b := get(bo.X), get(bo.Y)
		switch bo.Op {
		case token.GTR:
			return a > b
		case token.LSS:
			return a < b
		case token.EQL:
			return a == b
		case token.NEQ:
			return a != b
		case token.LEQ:
			return a <= b
		case token.GEQ:
			return a >= b
		}
		return !val
	}
	return k(0) != val && k(1) == val && k(2) == val
}

// textBounds: parts of a text taken by constant positions.
func (c *Ctx) textBounds(rule string, r *trxRoles) {
	p := c.P
	for fn := range p.Reach(r.load) {
		if fnPkgPath(fn) != modPath+"/trx" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var s ssa.Value
				need := int64(0)
				bound := func(v ssa.Value, add int64) {
					if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64()+add > need {
						need = k.Int64() + add
					}
				}
				switch i := in.(type) {
				case *ssa.Slice:
					s = i.X
					if i.Low != nil {
						bound(i.Low, 0)
					}
					if i.High != nil {
						bound(i.High, 0)
					}
				case *ssa.Lookup:
					s = i.X
					bound(i.Index, 1)
				case *ssa.Index:
					s = i.X
					bound(i.Index, 1)
				default:
					continue
				}
				if !isString(s.Type()) || need == 0 {
					continue
				}
				c.Obl(rule, p.Pos(in.Pos())+" text")
				if p.longText(s, b) < need {
					c.Fail(rule, shortFn(fn)+":text", in.Pos(), "a text that is too short crashes Finch")
				}
			}
		}
	}
}

// longText: the text is at least this long where the block is reached.
func (p *Prog) longText(s ssa.Value, b *ssa.BasicBlock) int64 {
	best := int64(0)
	if k, ok := s.(*ssa.Const); ok && k.Value != nil {
		return int64(len(constantString(k)))
	}
	if u, ok := s.(*ssa.Parameter); ok {
		if cs := p.callersOf(u.Parent()); len(cs) > 0 {
			least := int64(-1)
			for _, cl := range cs {
				for k, q := range u.Parent().Params {
					if q == u {
						if n := p.longText(cl.Common().Args[k], cl.(ssa.Instruction).Block()); least < 0 || n < least {
							least = n
						}
					}
				}
			}
			best = least
		}
	}
	for d := b.Idom(); d != nil; b, d = d, d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 || b.Preds[0] != d || d.Succs[0] == d.Succs[1] {
			continue
		}
		yes := d.Succs[0] == b
		n := int64(0)
		switch cond := iff.Cond.(type) {
		case *ssa.Call:
			if nm := calleeName(&cond.Call); yes && (nm == "strings.HasPrefix" || nm == "strings.HasSuffix" || nm == "strings.Contains") && cond.Call.Args[0] == s {
				if k, ok := cond.Call.Args[1].(*ssa.Const); ok {
					n = int64(len(constantString(k)))
				}
			}
		case *ssa.BinOp:
			ln, k := cond.X, cond.Y
			op := cond.Op
			if isLen(ln) == nil {
				ln, k = k, ln
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
			kc, ok := k.(*ssa.Const)
			if isLen(ln) != s || !ok || kc.Value == nil {
				if ok && cond.X == s && kc.Value != nil && isString(kc.Type()) && (op == token.EQL) == yes {
					n = 1
					if v := constantString(kc); yes {
						n = int64(len(v))
					} else if v != "" {
						n = 0
					}
				}
				break
			}
			if kc.Value.Kind() != constant.Int {
				break
			}
			m := kc.Int64()
			switch {
			case op == token.GEQ && yes, op == token.LSS && !yes, op == token.EQL && yes, op == token.NEQ && !yes:
				n = m
			case op == token.GTR && yes, op == token.LEQ && !yes:
				n = m + 1
			}
		}
		if n > best {
			best = n
		}
	}
	return best
}

func constantString(k *ssa.Const) string {
	if k.Value == nil || k.Value.Kind() != constant.String {
		return ""
	}
	return constant.StringVal(k.Value)
}
