package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C41"] = ruleC41
}

// Taint of a value.
const (
	tSecret  uint8 = 1 << iota // a password, or text with one in it
	tPath                      // name of a file with a secret in it
	tParam                     // value of a param or environment variable
	tCarrier                   // struct that prints a secret in it
)

func ruleC41(c *Ctx) {
	const FL, PR, RD = "flow", "params", "redact"
	c.Rule(FL, "No password, DSN, contents of the password file or stage configuration received from the server flows into a log line, printed text, error or panic: data flow through calls, fields, globals, closures, string operations and formatting, from every place that reads one to every place that writes text.")
	c.Rule(PR, "No value substituted for a param or environment variable flows into text written while substituting.")
	c.Rule(RD, "Values with a secret in a field are formatted only if their String method hides it or if, on every path to the call, the field was overwritten by a constant or is empty; a DSN is formatted only after its password was overwritten.")
	s := &secrets{c: c, p: c.P, fields: map[*types.Var]uint8{}, globals: map[*ssa.Global]uint8{}, ctxs: map[string]*secretCtx{}, unsafe: map[ssa.Instruction]bool{}, pathed: map[*ssa.Function]bool{}}
	s.rules = [3]string{FL, PR, RD}
	p := c.P
	n := 0
	for typ, names := range map[string][]string{"MySQL": {"Password", "DSN"}} {
		for _, f := range names {
			if v := p.Field("config", typ, f); v != nil {
				s.fields[v] |= tSecret
				n++
			} else {
				c.Missing(FL, "config."+typ+"."+f)
			}
		}
	}
	if v := p.Field("config", "MySQL", "PasswordFile"); v != nil {
		s.fields[v] |= tPath
		n++
	} else {
		c.Missing(FL, "config.MySQL.PasswordFile")
	}
	// the command line
	cl := 0
	if pkg := p.Pkg("boot"); pkg != nil {
		sc := pkg.Types.Scope()
		for _, name := range sc.Names() {
			if tn, ok := sc.Lookup(name).(*types.TypeName); ok {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if f := st.Field(i); f.Name() == "DSN" || strings.Contains(st.Tag(i), "FINCH_DSN") {
							s.fields[f] |= tSecret
							cl++
						}
					}
				}
			}
		}
	}
	c.Require(FL, cl, 1, "command line options with a DSN")
	s.vars = p.Func("config", "", "Vars")
	if s.vars == nil {
		c.Missing(PR, "config.Vars")
		return
	}
	c.Obl(PR, "config.Vars")
	for {
		s.changed = false
		s.sinks, s.formatted, s.subst = 0, 0, 0
		for _, k := range s.ctxs {
			k.done = false
		}
		for _, fn := range p.Funcs {
			if s.skip(fn) {
				continue
			}
			s.run(s.ctx(fn, make([]uint8, len(fn.Params)+len(fn.FreeVars)), nil, token.NoPos))
		}
		if !s.changed {
			break
		}
	}
	for _, k := range s.ctxs {
		c.Fn(k.fn)
		f := s.fix(k)
		s.report = true
		for _, b := range k.fn.Blocks {
			for _, in := range b.Instrs {
				f.step(in)
			}
		}
		s.report = false
		if m := k.fn; m.Signature.Recv() != nil && (m.Name() == "String" || m.Name() == "Error") && m.Signature.Params().Len() == 0 && len(k.res) == 1 {
			c.Obl(RD, shortFn(m))
			if k.res[0]&tSecret != 0 {
				c.Fail(RD, shortFn(m), m.Pos(), "the text of a value has a password or DSN in it")
			}
		}
	}
	for f := range s.fields {
		if f.Pkg() != nil {
			c.Obl(FL, "secret field "+f.Pkg().Name()+"."+f.Name())
		}
	}
	c.Require(FL, s.sinks, 250, "calls that write text")
	c.Require(PR, s.subst, 2, "values substituted")
	c.Count("contexts", len(s.ctxs))
	s.redaction()
}

type secrets struct {
	c         *Ctx
	p         *Prog
	rules     [3]string
	fields    map[*types.Var]uint8
	globals   map[*ssa.Global]uint8
	ctxs      map[string]*secretCtx
	unsafe    map[ssa.Instruction]bool // calls that format a struct with a secret in it
	pathed    map[*ssa.Function]bool
	vars      *ssa.Function
	changed   bool
	report    bool
	sinks     int
	formatted int
	subst     int
}

// secretCtx is a function with the taint of its parameters and free variables.
type secretCtx struct {
	fn      *ssa.Function
	in      []uint8
	res     []uint8
	out     []uint8 // what it puts into its parameters and free variables
	done    bool
	caller  *secretCtx
	callPos token.Pos
}

func (s *secrets) skip(fn *ssa.Function) bool {
	return len(fn.Blocks) == 0 || fnPkgPath(fn) == modPath+"/test"
}

func (s *secrets) ctx(fn *ssa.Function, in []uint8, caller *secretCtx, pos token.Pos) *secretCtx {
	k := fmt.Sprint(fn.String(), fn.Pos(), in)
	if x := s.ctxs[k]; x != nil {
		return x
	}
	x := &secretCtx{fn: fn, in: in, res: make([]uint8, fn.Signature.Results().Len()), out: make([]uint8, len(in)), caller: caller, callPos: pos}
	s.ctxs[k] = x
	s.changed = true
	return x
}

// textual: whether values of the type can hold text.
func textual(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.Byte || u.Kind() == types.Rune || u.Kind() == types.Invalid
	case *types.Chan:
		return textual(u.Elem())
	}
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "database/sql", "context", "sync", "time", "net/http":
			return false
		}
	}
	return true
}

type flow struct {
	s  *secrets
	k  *secretCtx
	v  map[ssa.Value]uint8
	tu map[ssa.Value][]uint8
	ch bool
}

func (s *secrets) run(k *secretCtx) {
	if k.done {
		return
	}
	k.done = true
	s.fix(k)
}

func (s *secrets) fix(k *secretCtx) *flow {
	fl := &flow{s: s, k: k, v: map[ssa.Value]uint8{}, tu: map[ssa.Value][]uint8{}}
	fn := k.fn
	for i, p := range fn.Params {
		fl.v[p] = k.in[i]
	}
	for i, p := range fn.FreeVars {
		fl.v[p] = k.in[len(fn.Params)+i]
	}
	for {
		fl.ch = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fl.step(in)
			}
		}
		if !fl.ch {
			return fl
		}
	}
}

func (f *flow) add(v ssa.Value, t uint8) {
	if t == 0 || v == nil || f.v[v]|t == f.v[v] {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	f.v[v] |= t
	f.ch = true
}

func (f *flow) set(v ssa.Value, t uint8) {
	if t != 0 && textual(v.Type()) {
		f.add(v, t)
	}
}

// put: t flows into what the address or container leads to.
func (f *flow) put(a ssa.Value, t uint8, depth int) {
	if t == 0 || depth > 8 {
		return
	}
	f.add(a, t)
	switch a := a.(type) {
	case *ssa.FieldAddr:
		fd := fieldOf(a)
		if w := t & (tSecret | tPath); w != 0 && f.s.fields[fd]|w != f.s.fields[fd] && textual(fd.Type()) && fd.Pkg() != nil && strings.HasPrefix(fd.Pkg().Path(), modPath) {
			f.s.fields[fd] |= w
			f.s.changed = true
		}
	case *ssa.IndexAddr:
		f.put(a.X, t, depth+1)
	case *ssa.Slice:
		f.put(a.X, t, depth+1)
	case *ssa.ChangeType:
		f.put(a.X, t, depth+1)
	case *ssa.MakeInterface:
		f.put(a.X, t, depth+1)
	case *ssa.Phi:
		for _, e := range a.Edges {
			f.put(e, t, depth+1)
		}
	case *ssa.UnOp:
		if a.Op == token.MUL {
			f.put(a.X, t, depth+1)
		}
	case *ssa.Global:
		if f.s.globals[a]|t != f.s.globals[a] {
			f.s.globals[a] |= t
			f.s.changed = true
		}
	case *ssa.Parameter:
		for i, p := range f.k.fn.Params {
			if p == a {
				f.out(i, t)
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.k.fn.FreeVars {
			if p == a {
				f.out(len(f.k.fn.Params)+i, t)
			}
		}
	}
}

func (f *flow) out(i int, t uint8) {
	if f.k.out[i]|t != f.k.out[i] {
		f.k.out[i] |= t
		f.s.changed = true
	}
}

func isDriverConfig(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "go-sql-driver/mysql") && n.Obj().Name() == "Config"
}

func (f *flow) fieldTaint(fd *types.Var, base uint8, bt types.Type) uint8 {
	t := f.s.fields[fd]
	if isDriverConfig(bt) {
		if fd.Name() == "Passwd" {
			t |= base
		}
		return t
	}
	if f.s.holds(bt) {
		return t // known field by field
	}
	return t | base
}

// holds: a struct type of this module, whose fields are told apart.
func (s *secrets) holds(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func (f *flow) step(in ssa.Instruction) {
	s := f.s
	switch in := in.(type) {
	case *ssa.Store:
		t := f.v[in.Val]
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok && isDriverConfig(fa.X.Type()) {
			return
		}
		f.put(in.Addr, t, 0)
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			var t uint8
			switch a := in.X.(type) {
			case *ssa.FieldAddr:
				t = f.fieldTaint(fieldOf(a), f.v[a.X], a.X.Type())
				if f.v[a] != 0 && !s.holds(a.X.Type()) {
					t |= f.v[a]
				}
			case *ssa.Global:
				t = s.globals[a] | f.v[a]
			case *ssa.IndexAddr:
				t = f.v[a.X] | f.v[a]
			default:
				t = f.v[in.X]
			}
			f.set(in, t)
		case token.ARROW:
			if in.CommaOk {
				f.setTuple(in, []uint8{f.v[in.X], 0})
			} else {
				f.set(in, f.v[in.X])
			}
		}
	case *ssa.FieldAddr:
		fd := fieldOf(in)
		switch fd.Type().Underlying().(type) {
		case *types.Slice, *types.Map, *types.Struct, *types.Array:
			f.add(in, f.fieldTaint(fd, f.v[in.X], in.X.Type()))
		}
	case *ssa.Field:
		st, ok := in.X.Type().Underlying().(*types.Struct)
		if ok {
			f.set(in, f.fieldTaint(st.Field(in.Field), f.v[in.X], in.X.Type()))
		}
	case *ssa.IndexAddr:
		f.add(in, f.v[in.X])
	case *ssa.BinOp:
		if in.Op == token.ADD {
			f.set(in, f.v[in.X]|f.v[in.Y])
		}
	case *ssa.Phi:
		for _, e := range in.Edges {
			f.set(in, f.v[e])
		}
	case *ssa.ChangeType:
		f.set(in, f.v[in.X])
	case *ssa.Convert:
		f.set(in, f.v[in.X])
	case *ssa.ChangeInterface:
		f.set(in, f.v[in.X])
	case *ssa.MakeInterface:
		t := f.v[in.X]
		if why := s.carries(in.X.Type(), map[types.Type]bool{}, 0); why != nil {
			t |= tCarrier
		}
		f.set(in, t)
	case *ssa.TypeAssert:
		if in.CommaOk {
			f.setTuple(in, []uint8{f.v[in.X], 0})
		} else {
			f.set(in, f.v[in.X])
		}
	case *ssa.Slice:
		f.add(in, f.v[in.X])
	case *ssa.Index:
		f.set(in, f.v[in.X])
	case *ssa.Lookup:
		t := f.v[in.X]
		if f.k.fn == s.vars || f.k.fn.Parent() == s.vars {
			if m, ok := in.X.Type().Underlying().(*types.Map); ok && isString(m.Elem()) {
				if p, ok := in.X.(*ssa.Parameter); ok && p.Parent() == s.vars {
					t |= tParam
					s.subst++
				}
			}
		}
		if in.CommaOk {
			f.setTuple(in, []uint8{t, 0})
		} else {
			f.set(in, t)
		}
	case *ssa.Range:
		f.add(in, f.v[in.X])
	case *ssa.Next:
		t := f.v[in.Iter]
		f.setTuple(in, []uint8{0, t, t})
	case *ssa.Extract:
		if tu := f.tu[in.Tuple]; in.Index < len(tu) {
			f.set(in, tu[in.Index])
		}
	case *ssa.Send:
		f.put(in.Chan, f.v[in.X], 0)
	case *ssa.Select:
		tu := []uint8{0, 0}
		for _, st := range in.States {
			if st.Dir == types.SendOnly {
				f.put(st.Chan, f.v[st.Send], 0)
			} else {
				tu = append(tu, f.v[st.Chan])
			}
		}
		f.setTuple(in, tu)
	case *ssa.MapUpdate:
		f.put(in.Map, f.v[in.Value]|f.v[in.Key], 0)
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		mask := make([]uint8, len(fn.Params)+len(fn.FreeVars))
		for i, b := range in.Bindings {
			mask[len(fn.Params)+i] = f.v[b]
		}
		k := s.ctx(fn, mask, f.k, in.Pos())
		s.run(k)
		for i, b := range in.Bindings {
			f.put(b, k.out[len(fn.Params)+i], 0)
		}
	case *ssa.Return:
		for i, r := range in.Results {
			t := f.v[r]
			if f.k.fn == s.vars || f.k.fn.Parent() == s.vars {
				t &^= tParam
			}
			if f.k.res[i]|t != f.k.res[i] {
				f.k.res[i] |= t
				s.changed = true
				f.ch = true
			}
		}
	case *ssa.Panic:
		f.sink(in, []ssa.Value{in.X}, "panic")
	case ssa.CallInstruction:
		f.call(in)
	}
}

func (f *flow) setTuple(v ssa.Value, t []uint8) {
	o := f.tu[v]
	if o == nil {
		o = make([]uint8, len(t))
		f.tu[v] = o
	}
	for i := range t {
		if i < len(o) && o[i]|t[i] != o[i] {
			o[i] |= t[i]
			f.ch = true
		}
	}
}

// writesText: functions that print, log or make an error of their arguments.
func writesText(name string) bool {
	switch {
	case name == modPath+".Debug", name == "fmt.Errorf", name == "errors.New", name == "errors.Join", name == "net/http.Error", name == "builtin print", name == "builtin println":
		return true
	case strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Fprint"):
		return true
	case strings.HasPrefix(name, "log."), strings.HasPrefix(name, "(*log.Logger)."), strings.HasPrefix(name, "log/slog."), strings.HasPrefix(name, "(*log/slog.Logger)."):
		return true
	case strings.HasPrefix(name, "(*text/tabwriter.Writer).Write"), name == "(*os.File).WriteString", name == "io.WriteString":
		return true
	}
	return false
}

func (f *flow) call(in ssa.CallInstruction) {
	s := f.s
	com := in.Common()
	name := calleeName(com)
	var args []ssa.Value
	if com.IsInvoke() {
		args = append(args, com.Value)
	}
	args = append(args, com.Args...)
	var all uint8
	for _, a := range args {
		all |= f.v[a]
	}
	val, _ := in.(ssa.Value)
	result := func(i, n int, t uint8) {
		if val == nil || t == 0 {
			return
		}
		if n == 1 {
			f.set(val, t)
			return
		}
		tu := make([]uint8, n)
		tu[i] = t
		f.setTuple(val, tu)
	}
	sig := com.Signature()
	nres := sig.Results().Len()
	if all&tCarrier != 0 {
		s.path(f.k.fn)
		if !s.unsafe[in] && f.local(args) {
			all &^= tCarrier
		}
	}
	if writesText(name) {
		s.sinks++
		f.sink1(in, all, name, args)
		if name == "fmt.Errorf" {
			return
		}
		if name != modPath+".Debug" {
			return
		}
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			result(0, 1, all)
			if all != 0 {
				f.put(args[0], all, 0)
			}
		case "copy":
			f.put(args[0], f.v[args[1]], 0)
		case "min", "max":
			result(0, 1, all)
		}
		return
	}
	// functions of this module
	var callees []*ssa.Function
	if sc := com.StaticCallee(); sc != nil {
		callees = append(callees, sc)
	} else if com.IsInvoke() {
		callees = s.p.Implementations(com)
	} else {
		callees = closuresOf(com.Value, 0)
	}
	known := false
	for _, fn := range callees {
		if len(fn.Blocks) == 0 || !s.p.IsRepo(fn) {
			continue
		}
		known = true
		if s.skip(fn) {
			continue
		}
		mask := make([]uint8, len(fn.Params)+len(fn.FreeVars))
		a := args
		if !com.IsInvoke() && com.StaticCallee() == nil && len(a) > len(fn.Params) {
			a = a[len(a)-len(fn.Params):]
		}
		for i := range a {
			if i < len(fn.Params) {
				mask[i] = f.v[a[i]]
				if mask[i]&tCarrier != 0 && all&tCarrier == 0 {
					mask[i] &^= tCarrier
				}
			}
		}
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			for i, b := range mc.Bindings {
				mask[len(fn.Params)+i] = f.v[b]
			}
		}
		k := s.ctx(fn, mask, f.k, in.Pos())
		s.run(k)
		for i := range k.res {
			result(i, nres, k.res[i])
		}
		for i := range a {
			if i < len(fn.Params) {
				f.put(a[i], k.out[i], 0)
			}
		}
	}
	if known {
		return
	}
	// other functions
	switch {
	case name == "(*github.com/go-sql-driver/mysql.Config).FormatDSN":
		if !s.redacts(f.k.fn, in) {
			result(0, 1, all)
		}
		return
	case name == "os.LookupEnv" || name == "os.Getenv":
		if f.k.fn == s.vars || f.k.fn.Parent() == s.vars {
			result(0, nres, tParam)
			s.subst++
		}
		if len(args) == 1 {
			if k, ok := args[0].(*ssa.Const); ok && k.Value != nil && constant.StringVal(k.Value) == "FINCH_DSN" {
				result(0, nres, tSecret)
			}
		}
		return
	case strings.HasPrefix(name, "(*regexp.Regexp).Find"):
		return // references found in a setting
	case strings.HasSuffix(name, "ini.Section).Key") && len(args) == 2:
		if k, ok := args[1].(*ssa.Const); ok && k.Value != nil && constant.StringVal(k.Value) == "password" {
			all |= tSecret
		}
	case name == "encoding/json.Unmarshal" && len(args) == 2:
		// the stage configuration sent by the server
		if mi, ok := args[1].(*ssa.MakeInterface); ok && s.configType(mi.X.Type()) {
			f.put(args[0], tSecret, 0)
			s.formatted++
		}
	}
	// a struct encoded by other functions
	if all&tCarrier != 0 || s.encodes(name) && s.anyConfig(args) {
		all |= tSecret
	}
	all &^= tCarrier
	if all&tPath != 0 && (strings.Contains(name, "Read") || strings.Contains(name, "Scan") || strings.Contains(name, ".Text") || strings.Contains(name, ".Bytes")) {
		all |= tSecret
	}
	if all == 0 {
		return
	}
	for i := 0; i < nres; i++ {
		rt := sig.Results().At(i).Type()
		if !textual(rt) {
			continue
		}
		if isErrorType(rt) {
			w := all & (tSecret | tParam)
			if w != 0 && !quietErrors(name) {
				// the error repeats its argument, which is secret only if an argument is
				w = 0
				for _, a := range args {
					w |= f.v[a] & (tSecret | tParam)
				}
				result(i, nres, w)
			}
			continue
		}
		result(i, nres, all)
	}
	// what is written into buffers and builders
	if strings.Contains(name, ".Write") || strings.Contains(name, "Unmarshal") || strings.Contains(name, ".Read") || strings.Contains(name, "Encode") {
		for i, a := range args {
			rest := all
			if f.v[a] == all && i > 0 {
				continue
			}
			if _, ok := a.Type().Underlying().(*types.Pointer); ok && textual(a.Type()) && !s.holds(a.Type()) {
				f.put(a, rest, 0)
			}
		}
	}
}

// quietErrors: functions whose errors do not repeat their arguments.
func quietErrors(name string) bool {
	for _, p := range []string{"database/sql", "go-sql-driver/mysql", "encoding/json", "io.", "bufio", "(*os.File)", "net/http", "crypto/", "io/ioutil.ReadAll", "(*bytes", "(*strings", "gopkg.in/yaml"} {
		if strings.HasPrefix(strings.TrimLeft(name, "(*"), strings.TrimLeft(p, "(*")) || strings.Contains(name, p) {
			return true
		}
	}
	return false
}

func (s *secrets) encodes(name string) bool {
	return strings.HasSuffix(name, ".Marshal") || strings.HasSuffix(name, ".MarshalIndent")
}

// configType: a type with a secret field in it, however it is printed.
func (s *secrets) configType(t types.Type) bool {
	return s.contains(t, map[types.Type]bool{})
}

func (s *secrets) contains(t types.Type, seen map[types.Type]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return s.contains(u.Elem(), seen)
	case *types.Slice:
		return s.contains(u.Elem(), seen)
	case *types.Map:
		return s.contains(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s.fields[u.Field(i)]&tSecret != 0 || u.Field(i).Pkg() != nil && strings.HasPrefix(u.Field(i).Pkg().Path(), modPath) && s.contains(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

func (s *secrets) anyConfig(args []ssa.Value) bool {
	for _, a := range args {
		if mi, ok := a.(*ssa.MakeInterface); ok && s.configType(mi.X.Type()) {
			return true
		}
	}
	return false
}

// closuresOf: the functions a value can be.
func closuresOf(v ssa.Value, depth int) []*ssa.Function {
	if depth > 4 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	case *ssa.Function:
		return []*ssa.Function{v}
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range v.Edges {
			out = append(out, closuresOf(e, depth+1)...)
		}
		return out
	case *ssa.ChangeType:
		return closuresOf(v.X, depth+1)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			var out []*ssa.Function
			if a, ok := v.X.(*ssa.Alloc); ok && a.Referrers() != nil {
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
						out = append(out, closuresOf(st.Val, depth+1)...)
					}
				}
			}
			return out
		}
	}
	return nil
}

// local: every struct with a secret in it among the arguments was put there in this function.
func (f *flow) local(args []ssa.Value) bool {
	for _, a := range args {
		if f.v[a]&tCarrier == 0 {
			continue
		}
		switch a := a.(type) {
		case *ssa.MakeInterface:
		case *ssa.Slice:
			if _, ok := a.X.(*ssa.Alloc); !ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (f *flow) sink(in ssa.Instruction, args []ssa.Value, name string) {
	var all uint8
	for _, a := range args {
		all |= f.v[a]
	}
	f.sink1(in, all, name, args)
}

func (f *flow) sink1(in ssa.Instruction, all uint8, name string, args []ssa.Value) {
	s := f.s
	if !s.report {
		return
	}
	if format, ok := constFormat(args); ok && strings.Contains(format, "%#") {
		for _, a := range varargsOf(args) {
			if s.configType(a.Type()) {
				all |= tCarrier
			}
		}
	}
	if all&(tSecret|tParam|tCarrier) == 0 {
		return
	}
	var tr []string
	for k := f.k; k != nil && k.caller != nil && len(tr) < 8; k = k.caller {
		tr = append(tr, s.p.Pos(k.callPos)+" calls "+shortFn(k.fn))
	}
	root := f.k.fn
	for root.Parent() != nil {
		root = root.Parent()
	}
	what := shortFn(root) + ":" + name[strings.LastIndex(name, "/")+1:]
	switch {
	case all&tSecret != 0:
		s.c.Fail(s.rules[0], what, in.Pos(), "a password or DSN flows into "+name, tr...)
	case all&tCarrier != 0:
		s.c.Fail(s.rules[2], what, in.Pos(), "a struct with a password or DSN in it is printed by "+name, tr...)
	default:
		s.c.Fail(s.rules[1], what, in.Pos(), "the value of a param or environment variable flows into "+name, tr...)
	}
}

func constFormat(args []ssa.Value) (string, bool) {
	for _, a := range args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value), true
		}
	}
	return "", false
}

// varargsOf: the values put into the variadic slice among the arguments.
func varargsOf(args []ssa.Value) []ssa.Value {
	var out []ssa.Value
	add := func(v ssa.Value) {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		out = append(out, v)
	}
	for _, a := range args {
		sl, ok := a.(*ssa.Slice)
		if !ok {
			add(a)
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok || al.Referrers() == nil {
			continue
		}
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
				for _, w := range *ia.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						add(st.Val)
					}
				}
			}
		}
	}
	return out
}

// carries: how formatting a value of the type prints a secret field; nil if it does not.
func (s *secrets) carries(t types.Type, seen map[types.Type]bool, depth int) [][]*types.Var {
	if seen[t] || depth > 6 {
		return nil
	}
	seen[t] = true
	defer delete(seen, t)
	if hasFormat(t) {
		return nil // its methods are analysed like any other function
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if depth == 0 {
			return s.carries(u.Elem(), seen, depth+1)
		}
	case *types.Slice:
		return s.carries(u.Elem(), seen, depth+1)
	case *types.Array:
		return s.carries(u.Elem(), seen, depth+1)
	case *types.Map:
		return s.carries(u.Elem(), seen, depth+1)
	case *types.Struct:
		var out [][]*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fd := u.Field(i)
			if s.fields[fd]&tSecret != 0 {
				out = append(out, []*types.Var{fd})
				continue
			}
			if fd.Pkg() == nil || !strings.HasPrefix(fd.Pkg().Path(), modPath) {
				continue
			}
			if _, ptr := fd.Type().Underlying().(*types.Pointer); ptr {
				continue // printed as an address
			}
			if !fd.Exported() && s.configType(fd.Type()) {
				out = append(out, []*types.Var{fd}) // methods are not called for it
				continue
			}
			for _, w := range s.carries(fd.Type(), seen, depth+1) {
				out = append(out, append([]*types.Var{fd}, w...))
			}
		}
		return out
	}
	return nil
}

// hasFormat: fmt prints values of the type through a method.
func hasFormat(t types.Type) bool {
	for _, m := range []string{"String", "Error", "Format"} {
		if o := types.NewMethodSet(t).Lookup(nil, m); o != nil {
			if fn, ok := o.Obj().(*types.Func); ok {
				sig := fn.Type().(*types.Signature)
				if m == "Format" && sig.Params().Len() == 2 || m != "Format" && sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) {
					return true
				}
			}
		}
	}
	return false
}

// path decides, on every path of the function, which calls format a struct whose
// secret fields were not overwritten.
func (s *secrets) path(fn *ssa.Function) {
	if s.pathed[fn] {
		return
	}
	s.pathed[fn] = true
	x := NewExec(s.p, fn)
	x.Inline = func(f *ssa.Function) bool {
		return fnPkgPath(f) == fnPkgPath(fn) && f.Parent() == nil && len(f.Blocks) < 10 && f.Signature.Results().Len() == 1
	}
	x.FactKeep = func(*Val) bool { return true }
	x.Hook = func(x *Exec, st *State, e *Event) {
		if e.Kind != EvCall || e.Instr == nil {
			return
		}
		args := append([]*Val(nil), e.Args...)
		if n := len(args); n > 0 {
			if els, ok := x.VarArgs(st, args[n-1]); ok {
				args = append(args[:n-1], els...)
			}
		}
		for _, a := range args {
			if a.Op != "iface" || a.T == nil {
				continue
			}
			t := a.T
			a = stripIface(a)
			for _, leaf := range s.carries(t, map[types.Type]bool{}, 0) {
				v := a
				if p, ok := t.Underlying().(*types.Pointer); ok {
					v = x.Load(st, a, p.Elem())
				}
				for _, fd := range leaf {
					v = x.T.vfield(v, fd)
				}
				if v.isConst() || v.Op == "zero" {
					continue
				}
				if empty, known := x.Ask(st, x.T.eq(v, x.T.konst(constant.MakeString(""), types.Typ[types.String]))); known && empty {
					continue
				}
				s.unsafe[e.Instr] = true
			}
		}
	}
	x.Run(nil, nil)
	s.c.Obl(s.rules[2], shortFn(fn))
	s.c.finish(s.rules[2], x)
}

// redacts: on every path, the password of the driver configuration was overwritten by a constant.
func (s *secrets) redacts(fn *ssa.Function, call ssa.CallInstruction) bool {
	ok, n := true, 0
	x := NewExec(s.p, fn)
	x.Inline = func(*ssa.Function) bool { return false }
	x.Hook = func(x *Exec, st *State, e *Event) {
		switch {
		case e.Kind == EvStore && e.Addr.Op == "field" && e.Addr.Fld != nil && e.Addr.Fld.Name() == "Passwd" && isDriverConfig(e.Addr.Args[0].T):
			if e.Val.isConst() {
				st.RV[0] = e.Addr.Args[0]
			} else {
				st.RV[0] = nil
			}
		case e.Kind == EvCall && e.Instr == call.(ssa.Instruction):
			n++
			if st.RV[0] == nil || st.RV[0] != e.Args[0] {
				ok = false
			}
		}
	}
	x.Run(nil, nil)
	return ok && n > 0
}

// redaction: the ways to print a configuration exist.
func (s *secrets) redaction() {
	c, p := s.c, s.p
	n := 0
	for _, t := range []*types.Named{p.Type("config", "MySQL"), p.Type("config", "Stage"), p.Type("config", "File")} {
		if t == nil {
			continue
		}
		n++
		c.Obl(s.rules[2], t.Obj().Name())
	}
	c.Require(s.rules[2], n, 2, "types with a secret in them")
	c.Count("structs_printed", s.formatted)
}
