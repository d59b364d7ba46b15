package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C32"] = ruleC32
}

// effects: what each setting must reach, any one of the alternatives: a call ("c:" and the
// callee), a branch ("branch"), the size of something made ("size"), or a key of a map ("key").
// A setting that is not listed must reach a branch, a size or a call outside the repository
// that does not only print.
var effects = map[string]string{
	"Stage.Disable":             "branch",
	"Stage.Name":                "c:fmt.Printf c:fmt.Println c:fmt.Print c:log.Printf",
	"Stage.Params":              "c:" + modPath + "/config.Vars",
	"Stage.QPS":                 rateCalls,
	"Stage.TPS":                 rateCalls,
	"Stage.Runtime":             deadlineCalls,
	"Compute.DisableLocal":      "branch",
	"Compute.Instances":         "branch size",
	"Trx.Name":                  "key branch",
	"Trx.File":                  readCalls,
	"Data.Generator":            "c:" + modPath + "/data.Make",
	"Data.Params":               "c:" + modPath + "/data.Make",
	"Data.Scope":                "branch",
	"Stats.Disable":             "branch",
	"Stats.Freq":                "c:time.NewTicker c:time.Tick c:time.NewTimer c:time.After",
	"Stats.Report":              "c:invoke " + modPath + "/stats.ReporterFactory.Make",
	"ClientGroup.Clients":       "branch size",
	"ClientGroup.Db":            "c:(*database/sql.Conn).ExecContext c:(*database/sql.DB).ExecContext",
	"ClientGroup.DisableStats":  "branch",
	"ClientGroup.Iter":          "branch",
	"ClientGroup.IterClients":   "branch",
	"ClientGroup.IterExecGroup": "branch",
	"ClientGroup.Group":         "branch",
	"ClientGroup.QPS":           rateCalls,
	"ClientGroup.QPSClients":    rateCalls,
	"ClientGroup.QPSExecGroup":  rateCalls,
	"ClientGroup.TPS":           rateCalls,
	"ClientGroup.TPSClients":    rateCalls,
	"ClientGroup.TPSExecGroup":  rateCalls,
	"ClientGroup.Runtime":       deadlineCalls,
	"ClientGroup.Trx":           "key branch",
	"MySQL.Db":                  openCalls,
	"MySQL.DSN":                 openCalls,
	"MySQL.Hostname":            openCalls,
	"MySQL.Username":            openCalls,
	"MySQL.Password":            openCalls,
	"MySQL.Socket":              openCalls,
	"MySQL.TimeoutConnect":      openCalls,
	"MySQL.PasswordFile":        readCalls,
	"MySQL.MyCnf":               "c:github.com/go-ini/ini.LoadSources c:github.com/go-ini/ini.Load c:github.com/go-ini/ini.LooseLoad",
	"MySQL.DisableAutoTLS":      "branch",
	"TLS.CA":                    readCalls,
	"TLS.Cert":                  "c:crypto/tls.LoadX509KeyPair",
	"TLS.Key":                   "c:crypto/tls.LoadX509KeyPair",
	"TLS.Disable":               "branch",
}

const (
	rateCalls     = "c:golang.org/x/time/rate.NewLimiter c:(*golang.org/x/time/rate.Limiter).SetLimit"
	deadlineCalls = "c:context.WithDeadline c:context.WithTimeout c:time.AfterFunc"
	readCalls     = "c:os.Open c:os.OpenFile c:os.ReadFile c:io/ioutil.ReadFile"
	openCalls     = "c:database/sql.Open"
)

// noEffect: fields that are parsed but documented nowhere.
var noEffect = map[string]string{
	"Data.Name": "not documented: the key of the data map is the name",
}

func ruleC32(c *Ctx) {
	const EF, OP, DI, LE, LO, ST, RE = "effect", "options", "disabled", "lenient", "local", "statistics", "reports"
	c.Rule(OP, "Every command-line option flows from its load, through values, fields, calls and returns (stage settings included), to each operation that does what it controls; --test also decides that remotes waiting for the signal to run are woken.")
	c.Rule(EF, "Every setting that can be written in a stage file flows, from a load outside the config package, through values, fields, calls and returns, to the operation that does what it controls; none reaches only log messages or nothing.")
	c.Rule(DI, "On every path of Server.Run, a stage is started (collector, local stage, announcement to remotes) only when that very stage is known not to be disabled, and after a disabled stage the next one is tried.")
	c.Rule(LE, "Stage.Validate returns no error for a disabled stage and looks at nothing else of it.")
	c.Rule(LO, "On every path of a stage in the server the local stage is made and prepared if and only if the local instance is not disabled.")
	c.Rule(ST, "On every path of a stage in the server and in a remote, a statistics collector is made if and only if statistics are not disabled, and it is the one the stage gets.")
	c.Rule(RE, "Every configured report becomes a reporter with its own options, or the stage fails.")
	c.settingFlow(EF)
	c.optionFlow(OP)
	c.disabledStage(DI, LE, LO, ST)
	c.reports(RE)
}

// optionEffects: like effects, but all of them must be reached ("|" separates alternatives).
var optionEffects = map[string][]string{
	"Client":     {"c:net/http.NewRequestWithContext|c:net/http.NewRequest"},
	"CPUProfile": {"c:runtime/pprof.StartCPUProfile"},
	"Database":   {"c:database/sql.Open|c:(*database/sql.Conn).ExecContext"},
	"Debug":      {"branch"},
	"DSN":        {"c:database/sql.Open"},
	"Help":       {"branch"},
	"Params":     {"c:" + modPath + "/config.Vars"},
	"Server":     {"c:net.Listen|c:net/http.ListenAndServe|c:(*net/http.Server).ListenAndServe"},
	"Test":       {"branch", "closes"},
	"Version":    {"branch"},
}

func (c *Ctx) optionFlow(rule string) {
	opt := c.P.Type("boot", "Options")
	if opt == nil || structOf(opt) == nil {
		c.Missing(rule, "boot.Options")
		return
	}
	all := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		all[fn] = true
	}
	st := structOf(opt)
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		n++
		fl := newSettingFlow(c.P, all)
		fl.into2 = true
		fl.seed(f)
		fl.run()
		c.Obl(rule, fmt.Sprintf("%s: %d loads, reaches %d operations", f.Name(), fl.loads, len(fl.sinks)))
		if fl.loads == 0 {
			c.Fail(rule, "option "+f.Name(), f.Pos(), "nothing reads this option: it is parsed and ignored")
			continue
		}
		for _, want := range optionEffects[f.Name()] {
			ok := false
			for _, w := range strings.Split(want, "|") {
				ok = ok || fl.sinks[w]
			}
			if !ok {
				c.Fail(rule, "option "+f.Name(), f.Pos(), "this option is read but its value does not reach what it controls ("+strings.ReplaceAll(want, "c:", "")+")")
			}
		}
	}
	c.Require(rule, n, 8, "options")
}

// leafSettings: fields of the config structs reachable from Stage that are not structs or lists of structs.
func (c *Ctx) leafSettings(rule string) map[*types.Var]string {
	out := map[*types.Var]string{}
	root := c.P.Type("config", "Stage")
	if root == nil {
		c.Missing(rule, "config.Stage")
		return out
	}
	seen := map[*types.Named]bool{}
	var visit func(n *types.Named)
	visit = func(n *types.Named) {
		if seen[n] {
			return
		}
		seen[n] = true
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if reflect.StructTag(st.Tag(i)).Get("yaml") == "-" || !f.Exported() {
				continue
			}
			sub := func(t types.Type) *types.Named {
				for {
					if n, ok := t.(*types.Named); ok {
						if _, isS := n.Underlying().(*types.Struct); isS && n.Obj().Pkg() == root.Obj().Pkg() {
							return n
						}
						return nil
					}
					switch u := t.(type) {
					case *types.Pointer:
						t = u.Elem()
					case *types.Slice:
						t = u.Elem()
					case *types.Map:
						t = u.Elem()
					default:
						return nil
					}
				}
			}
			if m := sub(f.Type()); m != nil {
				visit(m)
				continue
			}
			out[f] = n.Obj().Name() + "." + f.Name()
		}
	}
	visit(root)
	return out
}

func (c *Ctx) settingFlow(rule string) {
	leaves := c.leafSettings(rule)
	var fs []*types.Var
	for f := range leaves {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return leaves[fs[i]] < leaves[fs[j]] })
	uses := settingUsers(c.P)
	seenName := map[string]bool{}
	n := 0
	for _, f := range fs {
		name := leaves[f]
		seenName[name] = true
		if why, ok := noEffect[name]; ok {
			c.Assume(name + ": " + why)
			continue
		}
		n++
		fl := newSettingFlow(c.P, uses)
		fl.seed(f)
		fl.run()
		var got []string
		for s := range fl.sinks {
			got = append(got, s)
		}
		sort.Strings(got)
		want, listed := effects[name]
		ok := false
		if listed {
			for _, w := range splitEffects(want) {
				if fl.sinks[w] {
					ok = true
				}
			}
		} else {
			for _, s := range got {
				if s == "branch" || s == "size" || strings.HasPrefix(s, "c:") && !strings.Contains(s, modPath) && !onlyPrints(s[2:]) {
					ok = true
				}
			}
		}
		if name == "Data.Params" {
			for _, fn := range c.P.FuncsOf("trx") {
				for _, ci := range callsOf(fn) {
					if calleeName(ci.Common()) != modPath+"/data.Make" {
						continue
					}
					has := false
					for _, a := range ci.Common().Args {
						if _, isMap := a.Type().Underlying().(*types.Map); isMap && fl.seen[a] {
							has = true
						}
					}
					c.Obl(rule, "Data.Params at "+c.P.Pos(ci.Pos()))
					if !has {
						c.Fail(rule, shortFn(fn)+":Data.Params", ci.Pos(), "a data generator is made without the params of its data key")
					}
				}
			}
		}
		c.Obl(rule, fmt.Sprintf("%s: %d loads, reaches %d operations", name, fl.loads, len(got)))
		if ok {
			continue
		}
		if fl.loads == 0 {
			c.Fail(rule, name, f.Pos(), "nothing outside the config package reads this setting: it is parsed and ignored")
			continue
		}
		for i := range got {
			got[i] = strings.TrimPrefix(got[i], "c:")
		}
		if len(got) > 12 {
			got = append(got[:12], "...")
		}
		c.Fail(rule, name, f.Pos(), "this setting is read but its value does not reach what it controls ("+strings.ReplaceAll(strings.Join(splitEffects(want), " or "), "c:", "")+"); it reaches: "+strings.Join(got, ", "))
	}
	for k := range effects {
		if !seenName[k] {
			c.Missing(rule, "the setting "+k)
		}
	}
	c.Require(rule, n, 45, "settings")
}

func splitEffects(s string) []string {
	var out []string
	for _, w := range strings.Fields(s) {
		if strings.HasPrefix(w, "c:") || w == "branch" || w == "size" || w == "key" || w == "closes" {
			out = append(out, w)
		} else {
			out[len(out)-1] += " " + w
		}
	}
	return out
}

func onlyPrints(name string) bool {
	return strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger)") || strings.HasPrefix(name, "builtin ")
}

// settingFlow follows a value forward through the whole program: context-insensitive, but
// returning only to calls it came through; fields stand for all their instances.
type settingFlow struct {
	p       *Prog
	seen    map[ssa.Value]bool
	fields  map[*types.Var]bool
	globals map[*ssa.Global]bool
	entered map[*ssa.Function]map[ssa.CallInstruction]bool
	rets    map[*ssa.Function]map[int]bool
	work    []ssa.Value
	sinks   map[string]bool
	loads   int
	uses    map[*ssa.Function]bool // where reading a setting counts
	into2   bool                   // into settings, too
}

// settingUsers: functions outside the config package, and those of the config package that they
// call for more than loading, merging, checking and printing a configuration.
func settingUsers(p *Prog) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	g := p.callGraph()
	visit = func(fn *ssa.Function) {
		if out[fn] {
			return
		}
		switch {
		case fnPkgPath(fn) != modPath+"/config":
			return
		case fn.Name() == "Load" && fn.Signature.Recv() == nil:
			return
		}
		switch fn.Name() {
		case "With", "Vars", "Validate", "CommandLine", "String", "GoString", "Redacted":
			return
		}
		out[fn] = true
		for _, h := range g[fn] {
			visit(h)
		}
	}
	for _, fn := range p.Funcs {
		if fnPkgPath(fn) != modPath+"/config" {
			for _, h := range g[fn] {
				visit(h)
			}
		}
	}
	for _, fn := range p.Funcs {
		if fnPkgPath(fn) != modPath+"/config" {
			out[fn] = true
		}
	}
	return out
}

func newSettingFlow(p *Prog, uses map[*ssa.Function]bool) *settingFlow {
	return &settingFlow{p: p, seen: map[ssa.Value]bool{}, fields: map[*types.Var]bool{}, globals: map[*ssa.Global]bool{},
		entered: map[*ssa.Function]map[ssa.CallInstruction]bool{}, rets: map[*ssa.Function]map[int]bool{}, sinks: map[string]bool{}, uses: uses}
}

func (fl *settingFlow) add(v ssa.Value) {
	if v == nil || fl.seen[v] {
		return
	}
	fl.seen[v] = true
	fl.work = append(fl.work, v)
}

// seed adds every load of a field outside the config package.
func (fl *settingFlow) seed(f *types.Var) { fl.loads += fl.field(f, false) }

func (fl *settingFlow) field(f *types.Var, anywhere bool) int {
	if fl.fields[f] {
		return 0
	}
	fl.fields[f] = true
	n := 0
	for _, fn := range fl.p.Funcs {
		if !anywhere && !fl.uses[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Field:
					if fieldOf(i) == f {
						n++
						fl.add(i)
					}
				case *ssa.FieldAddr:
					if fieldOf(i) != f || i.Referrers() == nil {
						continue
					}
					for _, r := range *i.Referrers() {
						switch u := r.(type) {
						case *ssa.UnOp:
							n++
							fl.add(u)
						case *ssa.Store, *ssa.DebugRef:
						default:
							// its address or an element
							n++
							fl.add(i)
						}
					}
				}
			}
		}
	}
	return n
}

// into: something tainted was stored at this address.
func (fl *settingFlow) into(a ssa.Value) {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		if f := fieldOf(a); f != nil {
			if f.Pkg() != nil && f.Pkg().Path() == modPath+"/config" && !fl.fields[f] && !fl.into2 {
				return // another setting
			}
			fl.field(f, true)
		}
	case *ssa.IndexAddr:
		fl.container(a.X)
	case *ssa.Global:
		if !fl.globals[a] {
			fl.globals[a] = true
			for _, fn := range fl.p.Funcs {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(a) {
							fl.add(u)
						}
					}
				}
			}
		}
	default:
		fl.container(a)
	}
}

// container: something tainted is kept in this slice, map or cell.
func (fl *settingFlow) container(v ssa.Value) {
	if fl.seen[v] {
		return
	}
	fl.add(v)
	switch v := v.(type) {
	case *ssa.UnOp:
		fl.into(v.X)
	case *ssa.Slice:
		fl.container(v.X)
	case *ssa.IndexAddr:
		fl.container(v.X)
	case *ssa.FieldAddr:
		fl.into(v)
	case *ssa.FreeVar:
		for _, b := range bindingsOf(v) {
			fl.container(b)
		}
	}
}

func bindingsOf(fv *ssa.FreeVar) []ssa.Value {
	fn := fv.Parent()
	var out []ssa.Value
	if fn.Parent() == nil {
		return nil
	}
	for i, v := range fn.FreeVars {
		if v != fv {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					out = append(out, mc.Bindings[i])
				}
			}
		}
	}
	return out
}

func (fl *settingFlow) run() {
	for len(fl.work) > 0 {
		v := fl.work[len(fl.work)-1]
		fl.work = fl.work[:len(fl.work)-1]
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			fl.use(v, r)
		}
	}
}

func (fl *settingFlow) use(v ssa.Value, r ssa.Instruction) {
	switch i := r.(type) {
	case *ssa.If:
		fl.sinks["branch"] = true
		arm := 0 // taken when the value is true
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			arm = 1
		}
		if b := i.Block().Succs[arm]; len(b.Preds) == 1 {
			for _, d := range i.Parent().Blocks {
				if !b.Dominates(d) {
					continue
				}
				for _, in := range d.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && calleeName(call.Common()) == "builtin close" {
						fl.sinks["closes"] = true
					}
				}
			}
		}
	case *ssa.MakeChan:
		fl.sinks["size"] = true
	case *ssa.MakeSlice:
		fl.sinks["size"] = true
	case *ssa.Lookup:
		if i.Index == v {
			fl.sinks["key"] = true
		}
		fl.add(i)
	case *ssa.MapUpdate:
		if i.Key == v {
			fl.sinks["key"] = true
		}
		if i.Map != v {
			fl.container(i.Map)
		}
	case *ssa.Store:
		if i.Val == v {
			fl.into(i.Addr)
		}
	case *ssa.FieldAddr:
		// a field of a tainted struct is not tainted as a whole unless it is kept in a cell
		if _, ok := i.X.(*ssa.Alloc); ok {
			return
		}
		if f := fieldOf(i); f != nil && f.Pkg() != nil && f.Pkg().Path() == modPath+"/config" && !fl.fields[f] {
			return
		}
		fl.add(i)
	case *ssa.Field:
		if f := fieldOf(i); f != nil && f.Pkg() != nil && f.Pkg().Path() == modPath+"/config" && !fl.fields[f] {
			return
		}
		fl.add(i)
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		for k, b := range i.Bindings {
			if b == v {
				fl.add(fn.FreeVars[k])
			}
		}
	case *ssa.Return:
		fn := i.Parent()
		for k, res := range i.Results {
			if res != v {
				continue
			}
			if fl.rets[fn] == nil {
				fl.rets[fn] = map[int]bool{}
			}
			fl.rets[fn][k] = true
			for call := range fl.entered[fn] {
				fl.result(call, k)
			}
			if len(fl.entered[fn]) == 0 {
				// it was loaded inside: every caller
				for _, call := range fl.p.callersOf(fn) {
					fl.result(call, k)
				}
			}
		}
	case ssa.CallInstruction:
		fl.call(v, i)
	case *ssa.Send, *ssa.DebugRef, *ssa.RunDefers, *ssa.Jump:
	case ssa.Value:
		fl.add(i)
	}
}

func (fl *settingFlow) result(call ssa.CallInstruction, k int) {
	cv, ok := call.(*ssa.Call)
	if !ok {
		return
	}
	if _, tuple := cv.Type().(*types.Tuple); !tuple {
		fl.add(cv)
		return
	}
	for _, r := range *cv.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == k {
			fl.add(ex)
		}
	}
}

func (fl *settingFlow) call(v ssa.Value, i ssa.CallInstruction) {
	com := i.Common()
	name := calleeName(com)
	fl.sinks["c:"+name] = true
	enter := func(fn *ssa.Function, args []ssa.Value) {
		if fl.entered[fn] == nil {
			fl.entered[fn] = map[ssa.CallInstruction]bool{}
		}
		fl.entered[fn][i] = true
		for k, a := range args {
			if a == v && k < len(fn.Params) {
				fl.add(fn.Params[k])
			}
		}
		for k := range fl.rets[fn] {
			fl.result(i, k)
		}
	}
	if g := com.StaticCallee(); g != nil && fl.p.IsRepo(g) && len(g.Blocks) > 0 {
		if mc, ok := com.Value.(*ssa.MakeClosure); ok && ssa.Value(mc) == v {
			return
		}
		enter(g, com.Args)
		return
	}
	if com.IsInvoke() {
		impl := fl.p.Implementations(com)
		for _, g := range impl {
			enter(g, append([]ssa.Value{com.Value}, com.Args...))
		}
		if len(impl) > 0 {
			return
		}
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			if com.Args[1] == v {
				fl.container(com.Args[0])
			}
			return
		case "append", "len", "cap", "min", "max":
		default:
			return
		}
	}
	// an opaque call: its results may carry the value, and so may what its pointers point to
	if cv, ok := i.(*ssa.Call); ok {
		if t, tuple := cv.Type().(*types.Tuple); tuple {
			for k := 0; k < t.Len(); k++ {
				if !isErrorType(t.At(k).Type()) {
					fl.result(i, k)
				}
			}
		} else if !isErrorType(cv.Type()) {
			fl.add(cv)
		}
	}
}

// cfgRoot: the value of a whole stage configuration without changes to single fields.
func cfgRoot(v *Val) *Val {
	for v != nil && (v.Op == "with" || v.Op == "withe") {
		v = v.Args[0]
	}
	return v
}

func (c *Ctx) disabledStage(di, le, lo, st string) {
	p := c.P
	run, srv := p.Func("compute", "Server", "Run"), p.Type("compute", "Server")
	cl, clt := p.Func("compute", "Client", "Run"), p.Type("compute", "Client")
	val := p.Func("config", "Stage", "Validate")
	newStage, newColl := p.Func("stage", "", "New"), p.Func("stats", "", "NewCollector")
	prep := p.Func("stage", "Stage", "Prepare")
	apiStage := p.Func("compute", "API", "Stage")
	dis, ldis, sdis := p.Field("config", "Stage", "Disable"), p.Field("config", "Compute", "DisableLocal"), p.Field("config", "Stats", "Disable")
	stt := p.Type("config", "Stage")
	for what, ok := range map[string]bool{"compute.Server.Run": run != nil && srv != nil, "compute.Client.Run": cl != nil && clt != nil, "config.Stage.Validate": val != nil,
		"stage.New": newStage != nil, "stage.Stage.Prepare": prep != nil, "stats.NewCollector": newColl != nil, "compute.API.Stage": apiStage != nil,
		"config.Stage.Disable": dis != nil && stt != nil, "config.Compute.DisableLocal": ldis != nil, "config.Stats.Disable": sdis != nil} {
		if !ok {
			c.Missing(di, what)
			return
		}
	}
	is := func(v *Val, f *types.Var) (*Val, bool) {
		if v == nil {
			return nil, false
		}
		if v.Op == "vfield" && v.Fld == f {
			return v.Args[0], true
		}
		if g, b := v.loadedField(); g == f {
			return b, true
		}
		return nil, false
	}
	// base of a whole configuration: the value or address it was read from
	base := func(v *Val) *Val {
		for v != nil {
			switch {
			case v.Op == "with" || v.Op == "withe":
				v = v.Args[0]
			case v.Op == "load":
				v = v.Args[0]
			case v.Op == "vfield":
				v = v.Args[0]
			case v.Op == "field":
				v = v.Args[0]
			default:
				return v
			}
		}
		return nil
	}
	explore := func(root *ssa.Function, typ *types.Named, server bool) {
		x := NewExec(p, root)
		x.BlockEvents = true
		x.Inline = func(f *ssa.Function) bool {
			if f == apiStage {
				return false
			}
			if fnPkgPath(f) == modPath+"/config" {
				return smallFn(f)
			}
			rt := f.Signature.Recv()
			return fnPkgPath(f) == modPath+"/compute" && (rt == nil || namedOf(rt.Type()) == typ)
		}
		x.FactKeep = func(v *Val) bool { _, a := is(v, ldis); return a }
		// A: 0 enabled (1) or disabled (2), 1 local enabled/disabled, 2 statistics enabled/disabled, 3 collector made, 4 stage made, 5 prepared, 6 started anything
		// RV: 0 the configuration asked, 1 the collector, 2 the stage
		starts, locals, colls := 0, 0, 0
		reset := func(s *State) {
			for i := 0; i < 8; i++ {
				s.A[i] = 0
			}
			s.RV[0], s.RV[1], s.RV[2] = nil, nil, nil
		}
		x.Hook = func(x *Exec, s *State, e *Event) {
			bad := func(rule, what, msg string) { c.Fail(rule, siteName(e, what), e.Pos(), msg, x.TraceStr(s, 20)...) }
			enabled := func(what string) {
				s.A[6] = 1
				if !server {
					return
				}
				starts++
				c.Obl(di, p.Pos(e.Pos())+" "+what)
				if s.A[0] != 1 {
					bad(di, what, "a stage can be started although it is disabled")
				}
			}
			sameCfg := func(v *Val, what string) {
				if server && s.RV[0] != nil && base(v) != s.RV[0] {
					bad(di, what, "the stage that is started is not the one known to be enabled")
				}
			}
			switch e.Kind {
			case EvBranch:
				cond := stripNot(e.Cond)
				taken, known := x.Ask(s, cond)
				if !known {
					return
				}
				v := func() int16 {
					if taken {
						return 2
					}
					return 1
				}()
				if b, ok := is(cond, dis); ok {
					s.A[0], s.RV[0] = v, base(b)
				}
				if _, ok := is(cond, ldis); ok {
					s.A[1] = v
				}
				// statistics: a *bool
				if cond.Op == "load" {
					if _, ok := is(cond.Args[0], sdis); ok {
						s.A[2] = v
					}
				}
				if cond.Op == "eq" && taken {
					for i, a := range cond.Args {
						if _, ok := is(a, sdis); ok && cond.Args[1-i].isNil() {
							s.A[2] = 1
						}
					}
				}
			case EvBlock:
				if e.Back && len(s.frames) == 1 {
					if s.A[6] == 1 && s.A[4] == 0 && s.A[1] != 2 {
						bad(lo, "stage", "a stage goes by without its local instance although that is not disabled")
					}
				}
				if loopBody(e.Block) != nil && len(loopBody(e.Block)) > 0 && len(s.frames) == 1 {
					reset(s)
				}
			case EvCall:
				switch e.Target {
				case newColl:
					colls++
					enabled("collector")
					c.Obl(st, p.Pos(e.Pos()))
					s.A[3] = 1
					if s.A[2] != 1 {
						bad(st, "collector", "statistics are collected although they can be disabled")
					}
					sameCfg(e.Args[0], "collector")
				case newStage:
					locals++
					enabled("stage")
					c.Obl(st, p.Pos(e.Pos()))
					s.A[4] = 1
					if server {
						c.Obl(lo, p.Pos(e.Pos()))
						if s.A[1] != 1 {
							bad(lo, "stage", "the local instance is started although it can be disabled")
						}
					}
					sameCfg(e.Args[0], "stage")
					col := e.Args[len(e.Args)-1]
					isNil, k := x.IsNil(s, col)
					switch {
					case s.A[2] == 0:
						bad(st, "disable", "the stage is made without asking whether statistics are disabled")
					case s.A[2] == 2 && !(k && isNil):
						bad(st, "disabled", "a stage with disabled statistics gets a collector")
					case s.A[2] == 1 && (s.RV[1] == nil || col != s.RV[1]):
						bad(st, "enabled", "the stage does not get the collector although statistics are not disabled")
					}
				case prep:
					s.A[5] = 1
					if s.RV[2] == nil || e.Args[0] != s.RV[2] {
						bad(lo, "prepare", "the stage that is prepared is not the one made from the configuration")
					}
				case apiStage:
					if n, k := x.IsNil(s, e.Args[1]); !k || !n {
						enabled("remotes")
						if s.A[1] == 1 && s.A[4] == 0 {
							bad(lo, "order", "the stage is announced to remotes without its local instance")
						}
						if s.A[1] == 0 {
							bad(lo, "order", "the stage is announced to remotes without asking whether the local instance is disabled")
						}
					}
				}
			case EvRet:
				if e.Target == newColl {
					s.RV[1] = e.Res[0]
				}
				if e.Target == newStage {
					s.RV[2] = e.Res[0]
				}
			case EvReturn:
				if server && s.A[0] == 2 {
					bad(di, "next", "stages after a disabled stage are not run")
				}
				if s.A[6] == 1 && s.A[4] == 1 && s.A[5] == 0 {
					bad(lo, "prepare", "the stage is made but not prepared")
				}
			}
		}
		x.Run(nil, nil)
		c.finish(di, x)
		if server {
			c.Require(di, starts, 3, "starts of a stage")
			c.Require(lo, locals, 1, "local stages")
		}
		c.Require(st, colls, 1, "collectors")
	}
	explore(run, srv, true)
	explore(cl, clt, false)

	// lenient
	x := NewExec(p, val)
	x.Inline = samePkg("config")
	c.Fn(val)
	x.Hook = func(x *Exec, s *State, e *Event) {
		bad := func(what, msg string) { c.Fail(le, siteName(e, what), e.Pos(), msg, x.TraceStr(s, 20)...) }
		switch e.Kind {
		case EvBranch:
			if cond := stripNot(e.Cond); true {
				if _, ok := is(cond, dis); ok {
					if taken, known := x.Ask(s, cond); known && taken {
						s.A[0] = 2
					} else {
						s.A[0] = 1
					}
				}
			}
		case EvReturn:
			n, k := x.IsNil(s, e.Res[0])
			if s.A[0] == 2 {
				c.Obl(le, "disabled stage")
				if !k || !n {
					bad("disabled", "a disabled stage is rejected")
				}
			} else if s.A[0] == 0 {
				bad("disabled", "the stage is validated without asking whether it is disabled")
			}
		case EvCall:
			if s.A[0] != 1 && !strings.HasPrefix(e.Callee, "builtin ") && e.Target != nil && (fnPkgPath(e.Target) == modPath+"/config" && e.Target.Signature.Recv() != nil || fnPkgPath(e.Target) == "os") {
				bad("order", "a setting is validated before it is known that the stage is not disabled")
			}
		case EvPanic:
			if s.A[0] != 1 {
				bad("panic", "a disabled stage ends the process")
			}
		}
	}
	x.Run(nil, nil)
	c.finish(le, x)
}

// reports: every entry of Stats.Report becomes a reporter.
func (c *Ctx) reports(rule string) {
	p := c.P
	fn, rep := p.Func("stats", "", "MakeReporters"), p.Field("config", "Stats", "Report")
	nc := p.Func("stats", "", "NewCollector")
	if fn == nil || rep == nil || nc == nil {
		c.Missing(rule, "stats.MakeReporters, stats.NewCollector and config.Stats.Report")
		return
	}
	c.Fn(fn)
	x := NewExec(p, fn)
	x.BlockEvents = true
	x.Inline = func(f *ssa.Function) bool { return fnPkgPath(f) == modPath+"/stats" && f != nc }
	makes := 0
	// A: 0 made in this iteration, 1 kept in this iteration; RV: 0 the reporter
	x.Hook = func(x *Exec, s *State, e *Event) {
		bad := func(what, msg string) { c.Fail(rule, siteName(e, what), e.Pos(), msg, x.TraceStr(s, 20)...) }
		switch e.Kind {
		case EvBlock:
			if e.Back && (s.A[0] != 1 || s.A[1] != 1) {
				bad("skipped", "a configured report is skipped without an error")
			}
			if len(loopBody(e.Block)) > 0 {
				s.A[0], s.A[1], s.RV[0] = 0, 0, nil
			}
		case EvCall:
			if strings.HasSuffix(e.Callee, "ReporterFactory.Make") {
				makes++
				c.Obl(rule, p.Pos(e.Pos()))
				s.A[0] = 1
				name, opts := e.Args[1], e.Args[2]
				if !ofNext(name, "nextk") || !ofNext(opts, "nextv") && !(opts.Op == "lookup" && opts.Args[1] == name) {
					bad("options", "a reporter is not made with its own name and options: "+name.String()+" "+opts.String())
				}
			}
			if e.Callee == "builtin append" && s.A[0] == 1 {
				if len(e.Args) != 2 || s.RV[0] == nil || stripIface(e.Args[1]) != stripIface(s.RV[0]) {
					bad("other", "something else than the reporter is kept")
				}
				s.A[1]++
			}
		case EvRet:
			if strings.HasSuffix(e.Callee, "ReporterFactory.Make") {
				s.RV[0] = e.Res[0]
			}
		case EvReturn:
			if n, k := x.IsNil(s, e.Res[1]); k && n {
				if s.A[0] != 0 {
					bad("early", "the reports after the first one are skipped without an error")
				}
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	c.Require(rule, makes, 1, "reporters made")
}

func ofNext(v *Val, what string) bool {
	return v != nil && v.Op == "sym" && strings.HasPrefix(v.Name, what)
}
