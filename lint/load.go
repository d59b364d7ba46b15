package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/square/finch"

// Prog is the type-checked program and its SSA form.
type Prog struct {
	constMaps map[*ssa.Global]map[string]*ssa.Const
	loopCache map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	Repo      string
	Fset      *token.FileSet
	Pkgs      []*packages.Package // repo packages only
	ByPth     map[string]*packages.Package
	SSA       *ssa.Program
	Funcs     []*ssa.Function // all repo functions with bodies, including closures
	callIdx   map[*ssa.Function][]ssa.CallInstruction
	cg        map[*ssa.Function][]*ssa.Function
	live      map[*ssa.Function]*liveness
	lockCache *lockInfo
}

func load(repo string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   repo,
		Env:   os.Environ(),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Repo: repo, ByPth: map[string]*packages.Package{}, live: map[*ssa.Function]*liveness{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("%s: %s", pk.PkgPath, e)
		}
		if strings.HasPrefix(pk.PkgPath, modPath+"/test") {
			continue // test helpers
		}
		p.Pkgs = append(p.Pkgs, pk)
		p.ByPth[pk.PkgPath] = pk
		p.Fset = pk.Fset
	}
	if len(p.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded from %s", repo)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	seen := map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(prog) {
		if p.IsRepo(fn) && len(fn.Blocks) > 0 && !seen[fn] {
			seen[fn] = true
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return p, nil
}

// IsRepo reports whether fn's code is part of square/finch (not test helpers).
func (p *Prog) IsRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	pk := f.Package()
	if pk == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			_, ok := p.ByPth[o.Pkg().Path()]
			return ok
		}
		return false
	}
	_, ok := p.ByPth[pk.Pkg.Path()]
	return ok
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// Pkg returns the repo package with the given path relative to the module.
func (p *Prog) Pkg(rel string) *packages.Package {
	if rel == "" {
		return p.ByPth[modPath]
	}
	return p.ByPth[modPath+"/"+rel]
}

// Type returns the named type rel.name.
func (p *Prog) Type(rel, name string) *types.Named {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Func returns package-level function or (with recv) method; nil if not found.
func (p *Prog) Func(rel, recv, name string) *ssa.Function {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	if recv == "" {
		o, _ := pk.Types.Scope().Lookup(name).(*types.Func)
		if o == nil {
			return nil
		}
		return p.SSA.FuncValue(o)
	}
	n := p.Type(rel, recv)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

// Field returns the struct field object of type rel.name.
func (p *Prog) Field(rel, typ, field string) *types.Var {
	n := p.Type(rel, typ)
	if n == nil {
		return nil
	}
	st, _ := n.Underlying().(*types.Struct)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i)
		}
	}
	return nil
}

// FuncsOf returns repo functions of the package (relative path), incl. closures.
func (p *Prog) FuncsOf(rel string) []*ssa.Function {
	path := modPath
	if rel != "" {
		path += "/" + rel
	}
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if fnPkgPath(fn) == path {
			out = append(out, fn)
		}
	}
	return out
}

func fnPkgPath(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Package() != nil {
		return f.Package().Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// calleeName identifies a call's target: "database/sql.Open",
// "(*database/sql.Conn).Close", "invoke context.Context.Err", "builtin close", or "" if dynamic.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke " + typeName(c.Value.Type()) + "." + c.Method.Name()
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return "builtin " + v.Name()
	case *ssa.Function:
		return fnName(v)
	case *ssa.MakeClosure:
		return fnName(v.Fn.(*ssa.Function))
	}
	return ""
}

func fnName(f *ssa.Function) string {
	if o := f.Object(); o != nil {
		if tf, ok := o.(*types.Func); ok {
			return tf.Origin().FullName()
		}
	}
	return f.String()
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// isNamed reports whether t (or *t) is the named type path.name.
func isNamed(t types.Type, path, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// fieldOf returns the field object of a FieldAddr or Field instruction.
func fieldOf(v ssa.Value) *types.Var {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return structField(deref(x.X.Type()), x.Field)
	case *ssa.Field:
		return structField(x.X.Type(), x.Field)
	}
	return nil
}

func structField(t types.Type, i int) *types.Var {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return nil
	}
	f := st.Field(i)
	return f.Origin()
}

// callGraph is a conservative repo-internal call graph: static calls, closures made,
// functions referenced, go/defer, and interface calls resolved to repo methods.
func (p *Prog) callGraph() map[*ssa.Function][]*ssa.Function {
	if p.cg != nil {
		return p.cg
	}
	p.cg = map[*ssa.Function][]*ssa.Function{}
	// methods by name for invoke resolution
	byName := map[string][]*ssa.Function{}
	for _, fn := range p.Funcs {
		if fn.Signature.Recv() != nil {
			byName[fn.Name()] = append(byName[fn.Name()], fn)
		}
	}
	for _, fn := range p.Funcs {
		add := func(f *ssa.Function) {
			if f != nil && len(f.Blocks) > 0 {
				p.cg[fn] = append(p.cg[fn], f)
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						add(v)
					case *ssa.MakeClosure:
						add(v.Fn.(*ssa.Function))
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, m := range p.Implementations(c.Common()) {
						add(m)
					}
				}
			}
		}
	}
	return p.cg
}

// Implementations returns repo methods an interface call may dispatch to.
func (p *Prog) Implementations(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Name() != c.Method.Name() || fn.Signature.Recv() == nil || fn.Synthetic != "" {
			continue
		}
		rt := fn.Signature.Recv().Type()
		if types.Implements(rt, it) || types.Implements(types.NewPointer(rt), it) {
			out = append(out, fn)
		}
	}
	return out
}

// Reach returns all repo functions reachable from roots.
func (p *Prog) Reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	cg := p.callGraph()
	seen := map[*ssa.Function]bool{}
	var st []*ssa.Function
	for _, r := range roots {
		if r != nil {
			st = append(st, r)
		}
	}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[f] {
			continue
		}
		seen[f] = true
		st = append(st, cg[f]...)
	}
	return seen
}

// fileOf returns syntax file containing pos.
func (p *Prog) fileOf(pos token.Pos) *ast.File {
	for _, pk := range p.Pkgs {
		for _, f := range pk.Syntax {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
	}
	return nil
}

// shortFn is a stable display name for a function.
func shortFn(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), modPath+"/", "")
}
