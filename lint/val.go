package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a hash-consed abstract value: equal terms are the same pointer.
type Val struct {
	id     int
	Op     string // "const","sym","alloc","global","func", or an operator
	Args   []*Val
	C      constant.Value // const; nil means nil/zero pointer
	T      types.Type
	Fn     *ssa.Function
	Fld    *types.Var
	Name   string
	size   int
	mix    bool // contains a symbol standing for several generations of a value
	leaves []*Val
}

type valTab struct {
	m map[string]*Val
}

func (t *valTab) mk(v Val) *Val {
	var sb strings.Builder
	sb.WriteString(v.Op)
	sb.WriteByte('|')
	sb.WriteString(v.Name)
	if v.Fld != nil {
		fmt.Fprintf(&sb, "|f%p", v.Fld)
	}
	if v.Fn != nil {
		fmt.Fprintf(&sb, "|F%p", v.Fn)
	}
	if v.C != nil {
		fmt.Fprintf(&sb, "|c%d:%s", v.C.Kind(), v.C.ExactString())
	}
	if v.Op == "zero" || v.Op == "iface" || v.Op == "const" || v.Op == "conv" || v.Op == "assert" {
		if v.T != nil {
			sb.WriteString("|t" + v.T.String())
		}
	}
	for _, a := range v.Args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if o, ok := t.m[k]; ok {
		return o
	}
	n := &v
	n.id = len(t.m) + 1
	n.size = 1
	ls := map[*Val]bool{}
	n.mix = v.Op != "" && strings.HasPrefix(v.Name, "mix:")
	for _, a := range v.Args {
		n.size += a.size
		n.mix = n.mix || a.mix
		for _, l := range a.leaves {
			ls[l] = true
		}
	}
	switch v.Op {
	case "sym", "alloc", "global":
		ls[n] = true
	}
	for l := range ls {
		n.leaves = append(n.leaves, l)
	}
	sort.Slice(n.leaves, func(i, j int) bool { return n.leaves[i].id < n.leaves[j].id })
	t.m[k] = n
	return n
}

func (v *Val) hasLeaf(l *Val) bool {
	for _, x := range v.leaves {
		if x == l {
			return true
		}
	}
	return false
}

// contains reports whether term t occurs in v.
func (v *Val) contains(t *Val) bool {
	if v == t {
		return true
	}
	if v.size <= t.size {
		return false
	}
	for _, a := range v.Args {
		if a.contains(t) {
			return true
		}
	}
	return false
}

// find returns the first subterm satisfying f.
func (v *Val) find(f func(*Val) bool) *Val {
	if v == nil {
		return nil
	}
	if f(v) {
		return v
	}
	for _, a := range v.Args {
		if r := a.find(f); r != nil {
			return r
		}
	}
	return nil
}

func (v *Val) String() string {
	if v == nil {
		return "_"
	}
	switch v.Op {
	case "const":
		if v.C == nil {
			return "nil"
		}
		return v.C.String()
	case "sym", "alloc", "global":
		return v.Name
	case "func":
		return v.Fn.Name()
	case "load":
		return "*" + v.Args[0].String()
	case "field":
		return "&" + v.Args[0].String() + "." + v.Fld.Name()
	case "vfield":
		return v.Args[0].String() + "." + v.Fld.Name()
	case "not":
		return "!" + v.Args[0].String()
	}
	var a []string
	for _, x := range v.Args {
		a = append(a, x.String())
	}
	n := v.Op
	if v.Name != "" {
		n += ":" + v.Name
	}
	if v.Fn != nil {
		n += ":" + v.Fn.Name()
	}
	return n + "(" + strings.Join(a, ",") + ")"
}

func (v *Val) isConst() bool { return v.Op == "const" }
func (v *Val) isNil() bool   { return v.Op == "const" && v.C == nil }
func (v *Val) constBool() (bool, bool) {
	if v.Op == "const" && v.C != nil && v.C.Kind() == constant.Bool {
		return constant.BoolVal(v.C), true
	}
	return false, false
}
func (v *Val) constInt() (int64, bool) {
	if v.Op == "const" && v.C != nil && v.C.Kind() == constant.Int {
		return constant.Int64Val(v.C)
	}
	return 0, false
}
func (v *Val) constStr() (string, bool) {
	if v.Op == "const" && v.C != nil && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	return "", false
}

// loadOf reports the field loaded if v is a load of (or value-select of) a struct field.
func (v *Val) loadedField() (*types.Var, *Val) {
	switch v.Op {
	case "load":
		if a := v.Args[0]; a.Op == "field" {
			return a.Fld, a.Args[0]
		}
	case "vfield":
		return v.Fld, v.Args[0]
	}
	return nil, nil
}

func (t *valTab) konst(c constant.Value, ty types.Type) *Val {
	// canonical: type ignored except to make it readable
	if b, ok := ty.(*types.Basic); ty != nil && (ok || isBasicT(ty)) && c != nil {
		if !ok {
			b = ty.Underlying().(*types.Basic)
		}
		switch {
		case b.Info()&types.IsInteger != 0 && c.Kind() == constant.Float:
			if i := constant.ToInt(c); i.Kind() == constant.Int {
				c = i
			}
		case b.Info()&types.IsFloat != 0 && c.Kind() == constant.Int:
			c = constant.ToFloat(c)
		}
	}
	return t.mk(Val{Op: "const", C: c})
}

func isBasicT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

func (t *valTab) nilv() *Val { return t.mk(Val{Op: "const"}) }
func (t *valTab) boolv(b bool) *Val {
	return t.mk(Val{Op: "const", C: constant.MakeBool(b)})
}
func (t *valTab) intv(i int64) *Val { return t.mk(Val{Op: "const", C: constant.MakeInt64(i)}) }
func (t *valTab) sym(name string, ty types.Type) *Val {
	return t.mk(Val{Op: "sym", Name: name, T: ty})
}
func (t *valTab) app(op string, args ...*Val) *Val { return t.mk(Val{Op: op, Args: args}) }

func (t *valTab) zero(ty types.Type) *Val {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return t.boolv(false)
		case u.Info()&types.IsString != 0:
			return t.konst(constant.MakeString(""), ty)
		case u.Info()&types.IsInteger != 0:
			return t.intv(0)
		case u.Info()&types.IsFloat != 0:
			return t.konst(constant.ToFloat(constant.MakeInt64(0)), ty)
		}
		return t.nilv()
	case *types.Struct, *types.Array:
		return t.mk(Val{Op: "zero", T: ty})
	}
	return t.nilv()
}

func (t *valTab) vfield(s *Val, f *types.Var) *Val {
	for {
		switch s.Op {
		case "with":
			if s.Fld == f {
				return s.Args[1]
			}
			s = s.Args[0]
			continue
		case "zero":
			return t.zero(f.Type())
		case "load":
			// value select from a loaded struct is a load of the field
			return t.app("load", t.fieldAddr(s.Args[0], f))
		}
		return t.mk(Val{Op: "vfield", Fld: f, Args: []*Val{s}, T: f.Type()})
	}
}

func (t *valTab) fieldAddr(b *Val, f *types.Var) *Val {
	return t.mk(Val{Op: "field", Fld: f, Args: []*Val{b}})
}

func isUnsignedOrLen(v *Val, ty types.Type) bool {
	if v.Op == "len" || v.Op == "cap" {
		return true
	}
	if ty == nil {
		return false
	}
	b, ok := ty.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (t *valTab) not(v *Val) *Val {
	if b, ok := v.constBool(); ok {
		return t.boolv(!b)
	}
	if v.Op == "not" {
		return v.Args[0]
	}
	return t.app("not", v)
}

// nonNil reports values that are never nil.
func (v *Val) nonNil() bool {
	switch v.Op {
	case "load": // a package-level error variable
		g := v.Args[0]
		return g.Op == "global" && g.T != nil && isErrorType(deref(g.T))
	case "alloc", "global", "field", "elem", "func", "closure", "iface", "makechan", "makemap", "makeslice", "errorf":
		return true
	}
	return false
}

func (t *valTab) eq(a, b *Val) *Val {
	if a == b && !a.mix {
		return t.boolv(true)
	}
	if a.Op == "const" && b.Op == "const" {
		if a.C == nil || b.C == nil {
			return t.boolv(a.C == nil && b.C == nil)
		}
		if a.C.Kind() == b.C.Kind() || (isNum(a.C) && isNum(b.C)) {
			return t.boolv(constant.Compare(a.C, token.EQL, b.C))
		}
	}
	if a.isNil() && b.nonNil() || b.isNil() && a.nonNil() {
		return t.boolv(false)
	}
	if a.Op == "errorf" && b.Op == "load" && b.nonNil() || b.Op == "errorf" && a.Op == "load" && a.nonNil() {
		return t.boolv(false) // a new error is not a particular one
	}
	// bool == const
	if x, ok := a.constBool(); ok {
		if x {
			return b
		}
		return t.not(b)
	}
	if x, ok := b.constBool(); ok {
		if x {
			return a
		}
		return t.not(a)
	}
	if a.Op == "const" || (b.Op != "const" && b.id < a.id) {
		a, b = b, a
	}
	// len(s)==0 for strings is s==""
	if a.Op == "len" && a.Args[0].T != nil {
		if bt, ok := a.Args[0].T.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			if n, ok := b.constInt(); ok && n == 0 {
				return t.eq(a.Args[0], t.konst(constant.MakeString(""), nil))
			}
		}
	}
	return t.app("eq", a, b)
}

func isNum(c constant.Value) bool { return c.Kind() == constant.Int || c.Kind() == constant.Float }

func (t *valTab) lss(a, b *Val, ty types.Type) *Val {
	if a == b {
		return t.boolv(false)
	}
	if a.Op == "const" && b.Op == "const" && a.C != nil && b.C != nil && isNum(a.C) && isNum(b.C) {
		return t.boolv(constant.Compare(a.C, token.LSS, b.C))
	}
	if n, ok := a.constInt(); ok && n == 0 && isUnsignedOrLen(b, ty) {
		return t.not(t.eq(b, a))
	}
	if n, ok := b.constInt(); ok && isUnsignedOrLen(a, ty) {
		if n == 0 {
			return t.boolv(false)
		}
		if n == 1 {
			return t.eq(a, t.intv(0))
		}
	}
	return t.mk(Val{Op: "lss", Args: []*Val{a, b}})
}

func (t *valTab) binop(op token.Token, a, b *Val, ty types.Type) *Val {
	switch op {
	case token.EQL:
		return t.eq(a, b)
	case token.NEQ:
		return t.not(t.eq(a, b))
	case token.LSS:
		return t.lss(a, b, ty)
	case token.GTR:
		return t.lss(b, a, ty)
	case token.LEQ:
		return t.not(t.lss(b, a, ty))
	case token.GEQ:
		return t.not(t.lss(a, b, ty))
	}
	if a.Op == "const" && b.Op == "const" && a.C != nil && b.C != nil {
		switch op {
		case token.SHL, token.SHR:
			if s, ok := b.constInt(); ok && a.C.Kind() == constant.Int && s >= 0 && s < 64 {
				return t.konst(constant.Shift(a.C, op, uint(s)), ty)
			}
		case token.QUO, token.REM:
			if s, ok := b.constInt(); ok && s != 0 && a.C.Kind() == constant.Int {
				if op == token.QUO {
					return t.konst(constant.BinaryOp(a.C, token.QUO_ASSIGN, b.C), ty)
				}
				return t.konst(constant.BinaryOp(a.C, op, b.C), ty)
			}
		default:
			if a.C.Kind() == b.C.Kind() {
				return t.konst(constant.BinaryOp(a.C, op, b.C), ty)
			}
		}
	}
	switch op {
	case token.ADD:
		// non-string addition is commutative
		if bt, ok := ty.Underlying().(*types.Basic); ok && bt.Info()&types.IsString == 0 && b.id < a.id {
			a, b = b, a
		}
	case token.MUL, token.AND, token.OR, token.XOR:
		if b.id < a.id {
			a, b = b, a
		}
	}
	return t.app("bin"+op.String(), a, b)
}

// subst replaces from by to in v.
func (t *valTab) subst(v, from, to *Val) *Val {
	if v == nil || v == from {
		if v == from && v != nil {
			return to
		}
		return v
	}
	if !v.contains(from) {
		return v
	}
	args := make([]*Val, len(v.Args))
	for i, a := range v.Args {
		args[i] = t.subst(a, from, to)
	}
	n := *v
	n.Args = args
	n.leaves = nil
	return t.mk(n)
}
