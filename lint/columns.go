package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C28"] = ruleC28
}

// ---------------------------------------------------------------------------
// provenance of values through expressions, variables and helpers

// bind is a function activation: what its parameters stand for.
type bind struct {
	fn   *ssa.Function
	args []ssa.Value
	up   *bind
}

func (b *bind) arg(q *ssa.Parameter) (ssa.Value, *bind, bool) {
	if b == nil || b.fn != q.Parent() {
		return nil, nil, false
	}
	for i, p := range b.fn.Params {
		if p == q && i < len(b.args) {
			return b.args[i], b.up, true
		}
	}
	return nil, nil, false
}

func (b *bind) depth() int {
	n := 0
	for ; b != nil; b = b.up {
		n++
	}
	return n
}

// atoms collects what a value is computed from.
type atoms struct {
	p    *Prog
	set  map[string]bool
	root map[string]map[string]bool // type name -> roots
	quo  bool                       // a quotient of N by Seconds
	sum  bool                       // a sum
	com  bool                       // printed with a comma every thousand
	seen map[string]bool
}

func (a *atoms) key(v ssa.Value, b *bind) string { return fmt.Sprintf("%p|%p", v, b) }

// constByte resolves an index to a constant.
func constIdx(v ssa.Value, b *bind) (int64, bool) {
	for {
		v = stripConvSSA(v)
		switch i := v.(type) {
		case *ssa.Const:
			if i.Value != nil && i.Value.Kind() == constant.Int {
				return i.Int64(), true
			}
			return 0, false
		case *ssa.Parameter:
			w, up, ok := b.arg(i)
			if !ok {
				return 0, false
			}
			v, b = w, up
		default:
			return 0, false
		}
	}
}

// srcRoot names the object a field or element belongs to.
func srcRoot(v ssa.Value, b *bind) string {
	for {
		switch i := v.(type) {
		case *ssa.FieldAddr:
			return srcRoot(i.X, b) + "." + fieldOf(i).Name()
		case *ssa.Field:
			return srcRoot(i.X, b) + "." + structField(i.X.Type(), i.Field).Name()
		case *ssa.IndexAddr:
			return srcRoot(i.X, b) + "[]"
		case *ssa.Index:
			return srcRoot(i.X, b) + "[]"
		case *ssa.Slice:
			v = i.X
		case *ssa.UnOp:
			v = i.X
		case *ssa.ChangeType:
			v = i.X
		case *ssa.Parameter:
			w, up, ok := b.arg(i)
			if !ok {
				return "param:" + i.Name()
			}
			v, b = w, up
		case *ssa.Alloc:
			// a local copy: what is stored into it, if one thing
			var src ssa.Value
			n := 0
			for _, r := range *i.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(i) {
					src = st.Val
					n++
				}
			}
			if n == 1 {
				v = src
				continue
			}
			return i.Name() + "@" + i.Parent().Name()
		default:
			return v.Name() + "@" + fmt.Sprint(v.Parent())
		}
	}
}

func (a *atoms) add(k, typ, root string) {
	a.set[k] = true
	if typ != "" {
		if a.root[typ] == nil {
			a.root[typ] = map[string]bool{}
		}
		a.root[typ][root] = true
	}
}

func (a *atoms) walk(v ssa.Value, b *bind) {
	k := a.key(v, b)
	if a.seen[k] || b.depth() > 12 {
		return
	}
	a.seen[k] = true
	switch i := v.(type) {
	case *ssa.Const:
		if i.Value != nil && i.Value.Kind() == constant.String {
			a.set[fmt.Sprintf("%q", constant.StringVal(i.Value))] = true
		}
	case *ssa.Parameter:
		if w, up, ok := b.arg(i); ok {
			a.walk(w, up)
			return
		}
		a.add("param "+i.Name(), "", "")
	case *ssa.BinOp:
		if i.Op == token.QUO {
			l, r := a.sub(i.X, b), a.sub(i.Y, b)
			if len(l) == 1 && strings.HasPrefix(l[0], "Stats.N[") && len(r) == 1 && r[0] == "Instance.Seconds" {
				a.quo = true
			} else {
				a.set["quotient of "+strings.Join(l, "+")+" by "+strings.Join(r, "+")] = true
			}
		} else if i.Op == token.ADD {
			a.sum = true
		} else {
			a.set["operator "+i.Op.String()] = true
		}
		a.walk(i.X, b)
		a.walk(i.Y, b)
	case *ssa.Phi:
		live := b.live()
		for k, e := range i.Edges {
			if live == nil || live[i.Block().Preds[k]] {
				a.walk(e, b)
			}
		}
	case *ssa.Convert:
		a.walk(i.X, b)
	case *ssa.ChangeType:
		a.walk(i.X, b)
	case *ssa.MakeInterface:
		a.walk(i.X, b)
	case *ssa.Extract:
		if nx, ok := i.Tuple.(*ssa.Next); ok {
			a.walk(nx.Iter.(*ssa.Range).X, b)
			return
		}
		if c, ok := i.Tuple.(*ssa.Call); ok {
			a.call(c, i.Index, b)
			return
		}
		a.walk(i.Tuple, b)
	case *ssa.Lookup:
		a.walk(i.X, b)
	case *ssa.Field:
		f := structField(i.X.Type(), i.Field)
		a.field(f, i.X.Type(), srcRoot(i.X, b), "")
	case *ssa.UnOp:
		if i.Op != token.MUL {
			a.set["operator "+i.Op.String()] = true
			a.walk(i.X, b)
			return
		}
		switch ad := i.X.(type) {
		case *ssa.FieldAddr:
			a.field(fieldOf(ad), deref(ad.X.Type()), srcRoot(ad.X, b), "")
		case *ssa.IndexAddr:
			if u, ok := ad.X.(*ssa.UnOp); ok {
				if f := fieldOf(u.X); f != nil {
					fa := u.X.(*ssa.FieldAddr)
					if k, ok := constIdx(ad.Index, b); ok {
						a.field(f, deref(fa.X.Type()), srcRoot(fa.X, b), fmt.Sprintf("[%d]", k))
					} else {
						a.field(f, deref(fa.X.Type()), srcRoot(fa.X, b), "[?]")
					}
					return
				}
			}
			a.walk(ad.X, b)
		case *ssa.Alloc:
			for _, r := range *ad.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(ad) {
					a.walk(st.Val, b)
				}
			}
		case *ssa.Global:
			if c := a.p.globalString(ad); c != nil {
				a.set[fmt.Sprintf("%q", *c)] = true
			} else {
				a.add("global "+ad.Name(), "", "")
			}
		default:
			a.set["load"] = true
		}
	case *ssa.Call:
		a.call(i, 0, b)
	case *ssa.Slice:
		a.walk(i.X, b)
	case *ssa.MakeSlice:
		for _, r := range *i.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						a.walk(st.Val, b)
					}
				}
			}
		}
	case *ssa.Alloc: // a literal: its elements
		for _, r := range *i.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok {
						a.walk(st.Val, b)
					}
				}
			}
		}
	default:
		a.set[fmt.Sprintf("%T", v)] = true
	}
}

func (a *atoms) field(f *types.Var, owner types.Type, root, idx string) {
	n := namedOf(owner)
	nm := "?"
	if n != nil {
		nm = n.Obj().Name()
	}
	a.add(nm+"."+f.Name()+idx, nm, root)
}

func (a *atoms) call(i *ssa.Call, res int, b *bind) {
	if bl, ok := i.Call.Value.(*ssa.Builtin); ok {
		if bl.Name() == "len" {
			a.set["len"] = true
			return
		}
		for _, g := range i.Call.Args {
			a.walk(g, b)
		}
		return
	}
	f := i.Call.StaticCallee()
	if f == nil {
		a.set["call "+calleeName(&i.Call)] = true
		return
	}
	if fnName(f) == "("+modPath+"/stats.Stats).Percentiles" || fnName(f) == "(*"+modPath+"/stats.Stats).Percentiles" {
		et := "[?]"
		if k, ok := constIdx(i.Call.Args[1], b); ok {
			et = fmt.Sprintf("[%d]", k)
		}
		a.add("percentiles"+et, "Stats", srcRoot(i.Call.Args[0], b))
		a.walk(i.Call.Args[2], b)
		return
	}
	if fnName(f) == modPath+"/stats.ParsePercentiles" {
		a.add(fmt.Sprintf("parsed#%d", res), "parse", i.Name()+"@"+i.Parent().Name())
		return
	}
	if a.p.IsRepo(f) && len(f.Blocks) > 0 {
		nb := &bind{fn: f, args: i.Call.Args, up: b}
		for _, bl := range f.Blocks {
			if r, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return); ok && res < len(r.Results) {
				a.walkDeep(r.Results[res], nb)
			}
		}
		return
	}
	if strings.HasSuffix(calleeName(&i.Call), "go-humanize.Comma") {
		a.com = true
	}
	for _, g := range i.Call.Args {
		a.walk(g, b)
	}
}

// live lists the blocks that can be reached given constant boolean arguments.
func (b *bind) live() map[*ssa.BasicBlock]bool {
	if b == nil || len(b.fn.Blocks) == 0 {
		return nil
	}
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(bl *ssa.BasicBlock)
	visit = func(bl *ssa.BasicBlock) {
		if seen[bl] {
			return
		}
		seen[bl] = true
		if iff, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.If); ok {
			if q, ok := iff.Cond.(*ssa.Parameter); ok {
				v, bb := ssa.Value(q), b
				for {
					q, ok := v.(*ssa.Parameter)
					if !ok {
						break
					}
					w, up, ok := bb.arg(q)
					if !ok {
						break
					}
					v, bb = w, up
				}
				if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
					if constant.BoolVal(k.Value) {
						visit(bl.Succs[0])
					} else {
						visit(bl.Succs[1])
					}
					return
				}
			}
		}
		for _, s := range bl.Succs {
			visit(s)
		}
	}
	visit(b.fn.Blocks[0])
	return seen
}

// walkDeep: as walk, and what is stored into a slice made in the function.
func (a *atoms) walkDeep(v ssa.Value, b *bind) {
	if m, ok := v.(*ssa.MakeSlice); ok {
		for _, r := range *m.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok {
						a.walk(st.Val, b)
					}
				}
			}
		}
		return
	}
	a.walk(v, b)
}

func (a *atoms) sub(v ssa.Value, b *bind) []string {
	s := &atoms{p: a.p, set: map[string]bool{}, root: map[string]map[string]bool{}, seen: map[string]bool{}}
	s.walk(v, b)
	return sortedKeys(s.set)
}

// globalString: the constant a package string variable is initialised with and never changed.
func (p *Prog) globalString(g *ssa.Global) *string {
	if !p.globalConstant(g) {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					s := constant.StringVal(c.Value)
					return &s
				}
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------------------

// strOf resolves a string constant.
func (p *Prog) strOf(v ssa.Value, b *bind) (string, bool) {
	switch i := v.(type) {
	case *ssa.Const:
		if i.Value != nil && i.Value.Kind() == constant.String {
			return constant.StringVal(i.Value), true
		}
	case *ssa.UnOp:
		if g, ok := i.X.(*ssa.Global); ok && i.Op == token.MUL {
			if s := p.globalString(g); s != nil {
				return *s, true
			}
		}
	case *ssa.Parameter:
		if w, up, ok := b.arg(i); ok {
			return p.strOf(w, up)
		}
	case *ssa.Call:
		if calleeName(&i.Call) == "strings.ReplaceAll" {
			s, ok1 := p.strOf(i.Call.Args[0], b)
			o, ok2 := p.strOf(i.Call.Args[1], b)
			n, ok3 := p.strOf(i.Call.Args[2], b)
			if ok1 && ok2 && ok3 {
				return strings.ReplaceAll(s, o, n), true
			}
		}
	}
	return "", false
}

// variadic lists the elements of a variadic argument.
func variadic(v ssa.Value) ([]ssa.Value, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, at.Len())
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					out[k.Int64()] = st.Val
				}
			}
		}
	}
	for _, o := range out {
		if o == nil {
			return nil, false
		}
	}
	return out, true
}

// column is one column of a printed line.
type column struct {
	lit string
	v   ssa.Value // value printed, or percentiles filled in
	b   *bind
}

type repl struct {
	v    ssa.Value
	b    *bind
	each []int64 // in a loop over these event types, the loop variable standing for each
	idx  ssa.Value
}

// line resolves a printed line to a format call and the replacements made in it.
func (p *Prog) line(v ssa.Value, b *bind, depth int) (call *ssa.Call, cb *bind, reps []repl, why string) {
	if depth > 20 {
		return nil, nil, nil, "too deep"
	}
	switch i := v.(type) {
	case *ssa.MakeInterface:
		return p.line(i.X, b, depth+1)
	case *ssa.Parameter:
		if w, up, ok := b.arg(i); ok {
			return p.line(w, up, depth+1)
		}
	case *ssa.Phi: // line = replace(line) in a loop over event types
		var init ssa.Value
		var in *ssa.Call
		for k, e := range i.Edges {
			if i.Block().Dominates(i.Block().Preds[k]) {
				c, ok := e.(*ssa.Call)
				if !ok || in != nil {
					return nil, nil, nil, "unknown loop"
				}
				in = c
			} else {
				init = e
			}
		}
		if init == nil || in == nil || calleeName(&in.Call) != "strings.Replace" || in.Call.Args[0] != ssa.Value(i) {
			return nil, nil, nil, "unknown loop"
		}
		_, idx, first, why := indexLoop(i.Block())
		if why != "" || first != 0 {
			return nil, nil, nil, "the loop does not go over all event types: " + why
		}
		if why := replOK(p, in, b); why != "" {
			return nil, nil, nil, why
		}
		call, cb, reps, why := p.line(init, b, depth+1)
		if why != "" {
			return nil, nil, nil, why
		}
		lits, elem := literalElems(idx)
		if lits == nil {
			return nil, nil, nil, "the loop does not go over a literal list of event types"
		}
		return call, cb, append(reps, repl{in.Call.Args[2], b, lits, elem}), ""
	case *ssa.Call:
		switch n := calleeName(&i.Call); n {
		case "strings.Replace":
			if why := replOK(p, i, b); why != "" {
				return nil, nil, nil, why
			}
			call, cb, reps, why = p.line(i.Call.Args[0], b, depth+1)
			return call, cb, append(reps, repl{v: i.Call.Args[2], b: b}), why
		case "fmt.Sprintf":
			return i, b, nil, ""
		default:
			if f := i.Call.StaticCallee(); f != nil && p.IsRepo(f) && len(f.Blocks) > 0 {
				var ret ssa.Value
				for _, bl := range f.Blocks {
					if r, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return); ok {
						if ret != nil || len(r.Results) != 1 {
							return nil, nil, nil, f.Name() + " has several results"
						}
						ret = r.Results[0]
					}
				}
				if ret != nil {
					return p.line(ret, &bind{fn: f, args: i.Call.Args, up: b}, depth+1)
				}
			}
		}
	}
	return nil, nil, nil, "unknown value " + v.String()
}

func replOK(p *Prog, i *ssa.Call, b *bind) string {
	if s, ok := p.strOf(i.Call.Args[1], b); !ok || s != "P" {
		return "something other than P is replaced"
	}
	if !isConstInt(i.Call.Args[3], 1) {
		return "not exactly one P is replaced at a time"
	}
	return ""
}

// literalElems: idx indexes a literal list of integers: the list and the element read.
func literalElems(idx ssa.Value) ([]int64, ssa.Value) {
	if idx.Referrers() == nil {
		return nil, nil
	}
	for _, r := range *idx.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		sl, ok := ia.X.(*ssa.Slice)
		var al *ssa.Alloc
		if ok {
			al, _ = sl.X.(*ssa.Alloc)
		} else {
			al, _ = ia.X.(*ssa.Alloc)
		}
		if al == nil {
			continue
		}
		at, ok := deref(al.Type()).Underlying().(*types.Array)
		if !ok {
			continue
		}
		out := make([]int64, at.Len())
		for _, r2 := range *al.Referrers() {
			ia2, ok := r2.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := ia2.Index.(*ssa.Const)
			if !ok {
				continue
			}
			for _, r3 := range *ia2.Referrers() {
				if st, ok := r3.(*ssa.Store); ok {
					c, ok := st.Val.(*ssa.Const)
					if !ok {
						return nil, nil
					}
					out[k.Int64()] = c.Int64()
				}
			}
		}
		for _, r2 := range *ia.Referrers() {
			if u, ok := r2.(*ssa.UnOp); ok {
				return out, u
			}
		}
	}
	return nil, nil
}

// columns splits a format into columns and pairs them with the arguments.
func columns(format, sep string, args []ssa.Value, b *bind) ([]column, string) {
	var out []column
	k := 0
	for _, part := range strings.Split(strings.TrimSuffix(format, "\n"), sep) {
		n := strings.Count(part, "%") - 2*strings.Count(part, "%%")
		switch n {
		case 0:
			out = append(out, column{lit: part})
		case 1:
			if k >= len(args) {
				return nil, "there are more verbs than values"
			}
			out = append(out, column{lit: part, v: args[k], b: b})
			k++
		default:
			return nil, "a column has two values"
		}
	}
	if k != len(args) {
		return nil, "there are more values than verbs"
	}
	return out, ""
}

func ruleC28(c *Ctx) {
	const CO, HD, SV, CL, OU, VA = "columns", "header", "server", "clients", "output", "all-values"
	c.Rule(CO, "Each column of the line a reporter prints is computed from exactly what the column of the header in the same place names: interval, duration, run time, clients, and for total, read, write and commit the number divided by the duration, the minimum, the percentiles and the maximum of that event type, then errors and host; all from the same instance and the same statistics.")
	c.Rule(HD, "The percentile columns of the header are the names of the percentiles whose values are printed, in the same list, under the prefix of their event type.")
	c.Rule(CL, "Where the statistics of several instances are combined, the number of clients is the sum over all of them, each exactly once.")
	c.Rule(SV, "Reporting to the server never blocks: the only send is one that gives up when the queue is full, nothing else in it waits; it sends the one instance it is given, and the sender posts each instance received from the queue once and never ends before the queue is closed.")
	p := c.P
	if p.Type("stats", "Stats") == nil || p.Type("stats", "Instance") == nil {
		c.Missing(CO, "stats.Stats, stats.Instance")
		return
	}
	et := map[string]int64{}
	for pre, n := range map[string]string{"": "TOTAL", "r_": "READ", "w_": "WRITE", "c_": "COMMIT"} {
		k, ok := constIntOf(p, "stats", n)
		if !ok {
			c.Missing(CO, "stats."+n)
			return
		}
		et[pre] = k
	}
	rep := p.Type("stats", "Reporter")
	if rep == nil {
		c.Missing(CO, "stats.Reporter")
		return
	}
	n := 0
	for _, name := range []string{"CSV", "Stdout"} {
		if p.Func("stats", name, "Report") == nil || p.Func("stats", "", "New"+name) == nil {
			c.Missing(CO, "stats."+name+".Report, stats.New"+name)
			continue
		}
		n += c.reporterColumns(CO, HD, name, et)
	}
	c.Require(CO, n, 2, "lines printed")
	c.clientsTotal(CL)
	c.serverReporter(SV)
	c.Rule(OU, "Standard output has a line for every instance if each-instance is set and a line for all combined if combined is set, unless the only instance has been printed; both options are used as given, combined is on when not given, and so is each-instance when neither is.")
	c.stdoutOutput(OU)
	c.Rule(VA, "As many values are returned as percentiles are asked for, and all of them are printed.")
	c.percentileValues(VA)
}

// elemField: v is the named field of an element of a slice: the slice and the index.
func elemField(v ssa.Value, name string) (slice, idx ssa.Value) {
	var at func(v ssa.Value) (ssa.Value, ssa.Value) // of the struct or its address
	at = func(v ssa.Value) (ssa.Value, ssa.Value) {
		switch i := v.(type) {
		case *ssa.IndexAddr:
			return i.X, i.Index
		case *ssa.UnOp:
			if i.Op == token.MUL {
				return at(i.X)
			}
		case *ssa.Alloc:
			var src ssa.Value
			n := 0
			for _, r := range *i.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(i) {
					src = st.Val
					n++
				}
			}
			if n == 1 {
				return at(src)
			}
		}
		return nil, nil
	}
	switch i := stripConvSSA(v).(type) {
	case *ssa.Field:
		if structField(i.X.Type(), i.Field).Name() == name {
			return at(i.X)
		}
	case *ssa.UnOp:
		if fa, ok := i.X.(*ssa.FieldAddr); ok && i.Op == token.MUL && fieldOf(fa).Name() == name {
			return at(fa.X)
		}
	}
	return nil, nil
}

// clientsTotal checks loops that add the number of clients of instances.
func (c *Ctx) clientsTotal(rule string) {
	p := c.P
	const combN = "(*" + modPath + "/stats.Stats).Combine"
	sums := map[*ssa.Function]bool{}
	for _, fn := range p.FuncsOf("stats") {
		var from *ssa.Parameter
		for _, q := range fn.Params {
			if sl, ok := q.Type().Underlying().(*types.Slice); ok && isNamed(sl.Elem(), modPath+"/stats", "Instance") {
				from = q
			}
		}
		if from == nil || fn.Synthetic != "" {
			continue
		}
		of := func(v ssa.Value) (off int64, idx ssa.Value) { // Clients of element idx+off of from
			sl, ix := elemField(v, "Clients")
			if sl == nil {
				return -1, nil
			}
			b := sliceLow(sl)
			if b < 0 {
				return -1, nil
			}
			return b, ix
		}
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				add, ok := in.(*ssa.BinOp)
				if !ok || add.Op != token.ADD {
					continue
				}
				acc := add.X
				off, ix := of(add.Y)
				if ix == nil || isConstIdx(ix) {
					off, ix = of(add.X)
					acc = add.Y
				}
				if ix == nil || isConstIdx(ix) {
					continue
				}
				fail := func(what, msg string) { c.Fail(rule, shortFn(fn)+":"+what, add.Pos(), msg) }
				sums[fn] = true
				c.Fn(fn)
				c.Obl(rule, shortFn(fn)+" sum of clients")
				// the loop
				var h *ssa.BasicBlock
				if ls := p.loopsOf(bl); len(ls) > 0 {
					h = ls[len(ls)-1]
				}
				if h == nil {
					fail("loop", "clients are added outside a loop over the instances")
					continue
				}
				for _, pr := range h.Preds {
					if h.Dominates(pr) && !bl.Dominates(pr) {
						fail("skipped", "an instance's clients can be left out")
					}
				}
				lim, idx, first, why := indexLoop(h)
				if why != "" {
					fail("loop", "the loop does not visit all instances: "+why)
					continue
				}
				drop := int64(-1)
				if sl := isLen(lim); sl != nil {
					drop = sliceLow(sl)
				}
				if drop < 0 {
					fail("bound", "the loop is not bounded by the number of instances")
					continue
				}
				d, ok := offsetFrom(ix, idx)
				if !ok {
					fail("index", "the instance added is not the one of the round")
					continue
				}
				lo, hi := first+d+off, d+off-drop
				if hi != 0 {
					fail("end", "the clients of the last instances are left out")
				}
				// what the sum starts with
				start := func(v ssa.Value) bool {
					if isConstInt(stripConvSSA(v), 0) {
						return lo == 0
					}
					if o, ix := of(v); ix != nil {
						k, isC := ix.(*ssa.Const)
						return isC && k.Int64()+o == 0 && lo == 1
					}
					return false
				}
				okStart := false
				switch a := acc.(type) {
				case *ssa.Phi:
					okStart = a.Block() == h
					for k, e := range a.Edges {
						if h.Dominates(h.Preds[k]) {
							if e != ssa.Value(add) {
								fail("lost", "the sum is not carried on")
							}
						} else if okStart {
							okStart = start(e)
						}
					}
				case *ssa.UnOp:
					if f := fieldOf(a.X); f != nil {
						stored := false
						for _, b2 := range fn.Blocks {
							for _, in2 := range b2.Instrs {
								st, ok := in2.(*ssa.Store)
								if !ok || fieldOf(st.Addr) != f {
									continue
								}
								if st.Val == ssa.Value(add) {
									stored = true
								} else if loopBody(h)[b2] || !b2.Dominates(h) && !h.Dominates(b2) {
									fail("changed", "the sum is changed elsewhere")
								} else if b2.Dominates(h) {
									okStart = start(st.Val)
								} else {
									fail("changed", "the sum is changed after the loop")
								}
							}
						}
						if !stored {
							fail("lost", "the sum is not carried on")
						}
					}
				}
				if !okStart {
					fail("start", "the sum leaves out the first instance, or counts it twice")
				}
			}
		}
	}
	n := 0
	for _, fn := range p.FuncsOf("stats") {
		has := false
		for _, q := range fn.Params {
			if sl, ok := q.Type().Underlying().(*types.Slice); ok && isNamed(sl.Elem(), modPath+"/stats", "Instance") {
				has = true
			}
		}
		if o := fn.Object(); !has || o == nil || !o.Exported() || fn.Synthetic != "" || !p.reachesCall(fn, func(nm string, cc *ssa.CallCommon) bool { return nm == combN }) {
			continue
		}
		n++
		c.Obl(rule, shortFn(fn)+" adds clients")
		found := false
		for f := range p.Reach(fn) {
			found = found || sums[f]
		}
		if !found {
			c.Fail(rule, shortFn(fn)+":clients", fn.Pos(), "the statistics of several instances are combined but not their numbers of clients")
		}
	}
	c.Require(rule, n, 1, "functions combining instances")
}

func isConstIdx(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

// offsetFrom: v = idx + constant.
func offsetFrom(v, idx ssa.Value) (int64, bool) {
	v = stripConvSSA(v)
	if v == idx {
		return 0, true
	}
	if b, ok := v.(*ssa.BinOp); ok {
		if k, isC := b.Y.(*ssa.Const); isC && (b.Op == token.ADD || b.Op == token.SUB) {
			d, ok := offsetFrom(b.X, idx)
			if b.Op == token.SUB {
				return d - k.Int64(), ok
			}
			return d + k.Int64(), ok
		}
		if k, isC := b.X.(*ssa.Const); isC && b.Op == token.ADD {
			d, ok := offsetFrom(b.Y, idx)
			return d + k.Int64(), ok
		}
	}
	return 0, false
}

// printed lists the lines a function (and helpers it calls) prints: the value of the last
// argument of a Fprint call.
type printed struct {
	call *ssa.Call
	v    ssa.Value
	b    *bind
}

func (p *Prog) printedBy(fn *ssa.Function, b *bind, depth int, out *[]printed) {
	if depth > 4 {
		return
	}
	for _, bl := range fn.Blocks {
		for _, in := range bl.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			switch calleeName(&call.Call) {
			case "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "(*os.File).WriteString", "(*bufio.Writer).WriteString":
				last := call.Call.Args[len(call.Call.Args)-1]
				if args, ok := variadic(last); ok {
					for _, a := range args {
						*out = append(*out, printed{call, a, b})
					}
				} else {
					*out = append(*out, printed{call, last, b})
				}
			case "fmt.Fprintf":
				*out = append(*out, printed{call, call, b})
			default:
				if f := call.Call.StaticCallee(); f != nil && fnPkgPath(f) == modPath+"/stats" && len(f.Blocks) > 0 {
					p.printedBy(f, &bind{fn: f, args: call.Call.Args, up: b}, depth+1, out)
				}
			}
		}
	}
}

func (c *Ctx) reporterColumns(CO, HD, name string, et map[string]int64) int {
	p := c.P
	mk, rp := p.Func("stats", "", "New"+name), p.Func("stats", name, "Report")
	c.Fn(mk, rp)
	fail := func(rule string, what string, pos token.Pos, msg string) {
		c.Fail(rule, "stats."+name+":"+what, pos, msg)
	}
	// header: the call that formats one whose first column is "interval"
	var header []column
	var hpos token.Pos
	for fn := range p.Reach(mk, rp) {
		if fnPkgPath(fn) != modPath+"/stats" {
			continue
		}
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				fi := -1
				switch calleeName(&call.Call) {
				case "fmt.Sprintf":
					fi = 0
				case "fmt.Fprintf":
					fi = 1
				default:
					continue
				}
				f, ok := p.strOf(call.Call.Args[fi], nil)
				if !ok || !strings.HasPrefix(f, "interval,") {
					continue
				}
				args, ok := variadic(call.Call.Args[fi+1])
				if !ok {
					fail(HD, "header", call.Pos(), "the arguments of the header are not known")
					continue
				}
				cols, why := columns(f, ",", args, nil)
				if why != "" {
					fail(HD, "header", call.Pos(), "header: "+why)
					continue
				}
				if header != nil {
					fail(HD, "header", call.Pos(), "there are two headers")
				}
				header, hpos = cols, call.Pos()
			}
		}
	}
	if header == nil {
		c.Missing(HD, "header of "+name)
		return 0
	}
	newAtoms := func() *atoms {
		return &atoms{p: p, set: map[string]bool{}, root: map[string]map[string]bool{}, seen: map[string]bool{}}
	}
	// names of percentiles
	pre := ""
	var preOf []string
	for _, h := range header {
		for _, q := range []string{"r_", "w_", "c_"} {
			if strings.HasPrefix(h.lit, q) {
				pre = q
			}
		}
		if h.lit == "TPS" {
			pre = "c_"
		}
		preOf = append(preOf, pre)
	}
	for i, h := range header {
		if h.v == nil {
			continue
		}
		c.Obl(HD, name+" percentile names "+preOf[i])
		a := newAtoms()
		a.walk(h.v, nil)
		delete(a.set, "\",\"")
		want := map[string]bool{"parsed#0": true}
		if preOf[i] != "" {
			want[fmt.Sprintf("%q", preOf[i])] = true
		}
		if strings.Join(sortedKeys(a.set), " ") != strings.Join(sortedKeys(want), " ") {
			fail(HD, "percentile names", hpos, fmt.Sprintf("column %d of the header is made of %v, not of the names of the percentiles with prefix %q", i+1, sortedKeys(a.set), preOf[i]))
		}
	}
	// the field with the percentiles holds the values of the same list
	var pf *types.Var
	for _, bl := range mk.Blocks {
		for _, in := range bl.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if f := fieldOf(st.Addr); f != nil {
					if sl, ok := f.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Float64]) {
						pf = f
						c.Obl(HD, name+" percentile values")
						a := newAtoms()
						a.walk(st.Val, nil)
						if strings.Join(sortedKeys(a.set), " ") != "parsed#1" {
							fail(HD, "percentile values", st.Pos(), "the percentiles printed are not those named in the header")
						}
					}
				}
			}
		}
	}
	if pf == nil {
		c.Missing(HD, name+": the percentiles given to the reporter")
	}
	// lines
	var pr []printed
	p.printedBy(rp, nil, 0, &pr)
	n := 0
	for _, l := range pr {
		var call *ssa.Call
		var cb *bind
		var reps []repl
		why := ""
		if v, ok := l.v.(*ssa.Call); ok && v == l.call { // Fprintf
			call, cb = v, l.b
		} else {
			u := l.v
			if mi, ok := u.(*ssa.MakeInterface); ok {
				u = mi.X
			}
			if ld, ok := u.(*ssa.UnOp); ok && fieldOf(ld.X) != nil {
				continue // a field: the header
			}
			if _, ok := u.(*ssa.Const); ok {
				continue
			}
			call, cb, reps, why = p.line(l.v, l.b, 0)
		}
		if why != "" {
			fail(CO, "line", l.call.Pos(), "it is not known what is printed: "+why)
			continue
		}
		fi := 0
		if calleeName(&call.Call) == "fmt.Fprintf" {
			fi = 1
		}
		f, ok := p.strOf(call.Call.Args[fi], cb)
		if !ok {
			fail(CO, "format", call.Pos(), "the format of the line is not known")
			continue
		}
		sep := ","
		if strings.Contains(f, "\t") {
			sep = "\t"
		}
		args, ok := variadic(call.Call.Args[fi+1])
		if !ok {
			fail(CO, "values", call.Pos(), "the values of the line are not known")
			continue
		}
		cols, why := columns(f, sep, args, cb)
		if why != "" {
			fail(CO, "verbs", call.Pos(), why)
			continue
		}
		n++
		// fill in percentiles
		var flat []repl
		var et1 []int64
		for _, r := range reps {
			if r.each == nil {
				flat, et1 = append(flat, r), append(et1, -1)
				continue
			}
			for _, k := range r.each {
				flat, et1 = append(flat, r), append(et1, k)
			}
		}
		k := 0
		loopET := map[int]int64{}
		for i := range cols {
			if cols[i].v == nil && cols[i].lit == "P" {
				if k >= len(flat) {
					fail(CO, "P", call.Pos(), "percentiles of an event type are not filled in")
					break
				}
				cols[i].v, cols[i].b = flat[k].v, flat[k].b
				loopET[i] = et1[k]
				k++
			} else if cols[i].v == nil {
				fail(CO, "literal", call.Pos(), "column "+fmt.Sprint(i+1)+" has no value")
			}
		}
		if k < len(flat) {
			fail(CO, "P", call.Pos(), "more percentiles are filled in than there are columns")
		}
		if len(cols) != len(header) {
			fail(CO, "number", call.Pos(), fmt.Sprintf("the line has %d columns and the header %d", len(cols), len(header)))
			continue
		}
		roots := map[string]map[string]bool{}
		var clients *atoms
		for i, h := range header {
			if cols[i].v == nil {
				continue
			}
			c.Obl(CO, fmt.Sprintf("%s column %d (%s)", name, i+1, h.lit))
			a := newAtoms()
			a.walk(cols[i].v, cols[i].b)
			set := a.set
			if a.com && sep == "," {
				fail(CO, "thousands", call.Pos(), fmt.Sprintf("column %d is printed with commas inside a line separated by commas", i+1))
			}
			if h.lit == "clients" {
				clients = a
			}
			e := et[preOf[i]]
			var want []string
			quo := false
			nm := strings.TrimPrefix(h.lit, preOf[i])
			opt := map[string]bool{}
			switch {
			case h.v != nil:
				ek := fmt.Sprintf("percentiles[%d]", e)
				if t, ok := loopET[i]; ok && t >= 0 && set["percentiles[?]"] {
					delete(set, "percentiles[?]")
					set[fmt.Sprintf("percentiles[%d]", t)] = true
				}
				want = []string{ek, name + "." + pf.Name()}
				// separator and layout of the list
				seps := 0
				for s := range set {
					if strings.HasPrefix(s, "\"") {
						if s == fmt.Sprintf("%q", sep) {
							seps++
							delete(set, s)
						} else if strings.Contains(s, "%") || s == `""` {
							delete(set, s)
						}
					}
				}
				if seps == 0 {
					fail(CO, "separator", call.Pos(), "the percentiles are not separated like the columns")
				}
				for s := range set {
					if strings.HasPrefix(s, "param ") {
						delete(set, s)
					}
				}
			case h.lit == "interval":
				want = []string{"Instance.Interval"}
			case h.lit == "duration":
				want = []string{"Instance.Seconds"}
			case h.lit == "runtime":
				want = []string{"Instance.Runtime"}
			case h.lit == "clients":
				want = []string{"Instance.Clients"}
			case nm == "QPS" || h.lit == "TPS":
				want = []string{fmt.Sprintf("Stats.N[%d]", e), "Instance.Seconds"}
				quo = true
			case nm == "min":
				want = []string{fmt.Sprintf("Stats.Min[%d]", e)}
			case nm == "max":
				want = []string{fmt.Sprintf("Stats.Max[%d]", e)}
			case h.lit == "errors":
				want = []string{"Stats.Errors"}
			case h.lit == "compute":
				want = []string{"Instance.Hostname"}
				opt["len"] = true
				for s := range set {
					if strings.HasPrefix(s, "\"") {
						opt[s] = true
					}
				}
			default:
				fail(HD, "column "+h.lit, hpos, "the rule does not know what column "+h.lit+" of the header is")
				continue
			}
			wm := map[string]bool{}
			for _, w := range want {
				wm[w] = true
			}
			var odd []string
			for s := range set {
				if !wm[s] && !opt[s] {
					odd = append(odd, s)
				}
			}
			for _, w := range want {
				if !set[w] {
					odd = append(odd, "not "+w)
				}
			}
			sort.Strings(odd)
			if len(odd) > 0 {
				fail(CO, "column "+h.lit, call.Pos(), fmt.Sprintf("column %d, %s of the header, is made of other things: %s", i+1, h.lit, strings.Join(odd, ", ")))
			} else if quo && !a.quo {
				fail(CO, "column "+h.lit, call.Pos(), "column "+h.lit+" is not the number of events divided by the duration")
			}
			for t, rs := range a.root {
				if roots[t] == nil {
					roots[t] = map[string]bool{}
				}
				for r := range rs {
					roots[t][r] = true
				}
			}
		}
		if clients != nil && !clients.sum && len(roots["Stats"]) == 1 && len(roots["Instance"]) == 1 &&
			sortedKeys(roots["Stats"])[0] != sortedKeys(roots["Instance"])[0]+".Total" {
			fail(CO, "column clients", call.Pos(), "the number of clients is of one instance but the statistics are combined")
		}
		for _, t := range []string{"Instance", "Stats"} {
			if len(roots[t]) > 1 {
				fail(CO, "mixed", call.Pos(), "the columns are of different "+strings.ToLower(t)+"s: "+strings.Join(sortedKeys(roots[t]), ", "))
			}
		}
	}
	if n == 0 {
		fail(CO, "none", rp.Pos(), "no line is printed")
	}
	return n
}

func (c *Ctx) serverReporter(rule string) {
	p := c.P
	fn := p.Func("stats", "Server", "Report")
	mk := p.Func("stats", "", "NewServer")
	if fn == nil || mk == nil {
		c.Missing(rule, "stats.Server.Report, stats.NewServer")
		return
	}
	c.Fn(fn, mk)
	x := NewExec(p, fn)
	x.Inline = samePkg("stats")
	pr := c.pathRule(rule, x)
	var queue *types.Var
	x.Hook = func(x *Exec, s *State, e *Event) {
		from := x.ArgVal(1)
		sent := func(ch, v *Val) {
			pr.obl(e, "send")
			f, _ := ch.loadedField()
			if f == nil {
				if ch.Op == "vfield" {
					f = ch.Fld
				}
			}
			if f == nil {
				pr.fail(s, e, "queue", "what is sent to is not a queue of the reporter")
			}
			queue = f
			if s.A[0] != 0 {
				pr.fail(s, e, "twice", "an instance is queued twice")
			}
			s.A[0] = 1
			ok := false
			u := v
			if u.Op == "load" {
				u = u.Args[0]
			}
			if u.Op == "elem" && u.Args[0] == from {
				k, isC := u.Args[1].constInt()
				ok = isC && k == 0
			}
			if !ok {
				pr.fail(s, e, "what", "what is queued is not the instance to report")
			}
		}
		switch e.Kind {
		case EvSend:
			pr.fail(s, e, "blocks", "reporting waits until the server takes the statistics")
		case EvRecv:
			pr.fail(s, e, "blocks", "reporting waits for something")
		case EvSelect:
			if e.Blocking {
				pr.fail(s, e, "blocks", "reporting waits until the server takes the statistics")
			}
			if e.Case >= 0 && e.Dir == types.SendOnly {
				sent(e.Chan, x.val(s, s.frames[len(s.frames)-1], e.Sel.States[e.Case].Send))
			}
			if e.Case < 0 {
				s.A[1] = 1
			}
		case EvCall:
			if e.Inlined {
				return
			}
			n := e.Callee
			if n == "time.Sleep" || strings.Contains(n, "sync.") && strings.HasSuffix(n, "Lock") || strings.Contains(n, "net/http") || strings.Contains(n, "/proto.") || strings.HasSuffix(n, ").Wait") {
				pr.fail(s, e, "blocks", "reporting waits in "+n)
			}
		case EvReturn:
			if e.Fn == fn {
				pr.obl(e, "end")
				if s.A[0] == 0 && s.A[1] == 0 {
					pr.fail(s, e, "lost", "an instance is dropped although the queue may have room")
				}
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	if queue == nil {
		return
	}
	// the queue has room
	room := false
	for _, f := range p.FuncsOf("stats") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && fieldOf(st.Addr) == queue {
					if m, ok := st.Val.(*ssa.MakeChan); ok {
						k, ok := m.Size.(*ssa.Const)
						room = ok && k.Int64() > 0 || !ok
					}
				}
			}
		}
	}
	c.Obl(rule, "queue has room")
	if !room {
		c.Fail(rule, "stats.Server:queue", mk.Pos(), "the queue has no room: statistics are dropped whenever the sender is busy")
	}
	// sender
	n := 0
	for f := range p.Reach(mk) {
		if fnPkgPath(f) != modPath+"/stats" || f == fn {
			continue
		}
		var rcv *ssa.UnOp
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
					ch := u.X
					if ld, ok := ch.(*ssa.UnOp); ok && fieldOf(ld.X) == queue {
						rcv = u
					}
					if fv, ok := ch.(*ssa.Field); ok && structField(fv.X.Type(), fv.Field) == queue {
						rcv = u
					}
				}
			}
		}
		if rcv == nil {
			continue
		}
		n++
		c.Fn(f)
		h := rcv.Block()
		if !rcv.CommaOk || loopBody(h) == nil {
			c.Fail(rule, shortFn(f)+":receive", rcv.Pos(), "the sender does not receive until the queue is closed")
			continue
		}
		sx := NewExec(p, f)
		sx.Inline = samePkg("stats")
		sx.BlockEvents = true
		sp := c.pathRule(rule, sx)
		sendN := "(*" + modPath + "/proto.Client).Send"
		sx.Hook = func(x *Exec, s *State, e *Event) {
			switch e.Kind {
			case EvRecv:
				if e.Instr == ssa.Instruction(rcv) {
					s.A[0] = 1
				}
			case EvCall:
				if e.Callee == sendN {
					sp.obl(e, "post")
					if k, ok := e.Args[2].constStr(); !ok || k != "/stats" {
						sp.fail(s, e, "where", "statistics are posted to another endpoint")
					}
					if s.A[1] != 0 {
						sp.fail(s, e, "twice", "an instance is posted twice")
					}
					s.A[1] = 1
				}
			case EvBlock:
				if e.Block == h {
					if e.Back && s.A[1] == 0 {
						sp.fail(s, e, "not posted", "an instance taken from the queue can be dropped without being posted")
					}
					s.A[0], s.A[1] = 0, 0
				}
			case EvReturn, EvPanic:
				if e.Fn == f && s.A[1] != 0 {
					sp.fail(s, e, "ends", "the sender can end before the queue is closed")
				}
			}
		}
		sx.Run(nil, nil)
		c.finish(rule, sx)
	}
	c.Require(rule, n, 1, "senders")
}
