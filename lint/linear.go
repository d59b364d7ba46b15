package main

import (
	"go/constant"
	"go/types"
	"sort"
)

// linexp is a linear expression over terms: k + sum of coefficients.
type linexp struct {
	k int64
	c map[*Val]int64
}

func (l *linexp) add(o *linexp, m int64) *linexp {
	n := &linexp{k: l.k + m*o.k, c: map[*Val]int64{}}
	for v, c := range l.c {
		n.c[v] = c
	}
	for v, c := range o.c {
		n.c[v] += m * c
		if n.c[v] == 0 {
			delete(n.c, v)
		}
	}
	return n
}

// linear decomposes an integer term. Additions are taken not to overflow.
func linear(v *Val) *linexp {
	if n, ok := v.constInt(); ok {
		return &linexp{k: n, c: map[*Val]int64{}}
	}
	switch v.Op {
	case "bin+":
		if v.T == nil || !isString(v.T) {
			return linear(v.Args[0]).add(linear(v.Args[1]), 1)
		}
	case "bin-":
		return linear(v.Args[0]).add(linear(v.Args[1]), -1)
	case "conv":
		if wide(v.T) && (wide(v.Args[0].T) || v.Args[0].Op == "len") {
			return linear(v.Args[0])
		}
	}
	return &linexp{c: map[*Val]int64{v: 1}}
}

// wide: int, int64 and unsigned lengths are taken to be alike.
func wide(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.Uint || b.Kind() == types.Uint64)
}

// ineqs are expressions known to be at most zero.
type ineqs []*linexp

func (q *ineqs) le(a, b *Val, k int64) { // a + k <= b
	l := linear(a).add(linear(b), -1)
	l.k += k
	*q = append(*q, l)
}

// fact adds what a fact says of integers.
func (q *ineqs) fact(f *Val, v bool) {
	switch f.Op {
	case "not":
		q.fact(f.Args[0], !v)
	case "lss":
		if v {
			q.le(f.Args[0], f.Args[1], 1)
		} else {
			q.le(f.Args[1], f.Args[0], 0)
		}
	case "eq":
		a, b := f.Args[0], f.Args[1]
		if _, ok := b.constInt(); !ok && (a.T == nil || !isIntType(a.T)) && a.Op != "len" {
			return
		}
		if b.isConst() && (b.C == nil || b.C.Kind() != constant.Int) {
			return
		}
		if v {
			q.le(a, b, 0)
			q.le(b, a, 0)
		} else if k, ok := b.constInt(); ok && k == 0 && (a.Op == "len" || a.T != nil && isUnsignedInt(a.T)) {
			q.le(b, a, 1)
		}
	}
}

// axioms of the terms of an expression.
func (q *ineqs) axioms(v *Val) {
	v.find(func(u *Val) bool {
		zero := &linexp{c: map[*Val]int64{u: -1}}
		switch {
		case u.Op == "len", u.Op == "cap":
			*q = append(*q, zero)
		case u.Op == "bin&":
			for _, a := range u.Args {
				if n, ok := a.constInt(); ok && n >= 0 {
					*q = append(*q, zero, &linexp{k: -n, c: map[*Val]int64{u: 1}})
				}
			}
		case u.Op == "conv" && u.T != nil && len(u.Args) == 1 && u.Args[0].Op == "bin&":
		case u.T != nil && isUnsignedInt(u.T):
			*q = append(*q, zero)
		}
		return false
	})
}

// proves reports whether goal <= 0 is a sum of the inequalities.
func (q ineqs) proves(goal *linexp) bool {
	seen := map[string]bool{}
	var try func(g *linexp, depth int) bool
	try = func(g *linexp, depth int) bool {
		if len(g.c) == 0 {
			return g.k <= 0
		}
		if depth == 0 {
			return false
		}
		var vs []*Val
		for v := range g.c {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
		key := ""
		for _, v := range vs {
			key += itoa(int64(v.id)) + ":" + itoa(g.c[v]) + " "
		}
		key += itoa(g.k) + "/" + itoa(int64(depth))
		if seen[key] {
			return false
		}
		seen[key] = true
		for _, f := range q {
			for v, c := range f.c {
				gc := g.c[v]
				if gc == 0 || (gc > 0) != (c > 0) || gc%c != 0 {
					continue
				}
				if try(g.add(f, -(gc/c)), depth-1) {
					return true
				}
			}
		}
		return false
	}
	return try(goal, 5)
}

func itoa(n int64) string { return constant.MakeInt64(n).ExactString() }

func isUnsignedInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
