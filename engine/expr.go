package main

// Hash-consed bit-vector / boolean expression DAG with a local simplifier.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLShr
	OpAShr
	OpExtract // k = lo bit, width = w
	OpZExt
	OpSExt
	OpIte
	OpEq
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpAnd
	OpOr
	OpNot
)

var opNames = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvshl", "bvlshr", "bvashr", "extract", "zext", "sext", "ite", "=", "bvult", "bvule", "bvslt", "bvsle", "and", "or", "not"}

// Var is a symbolic input.
type Var struct {
	id   int
	name string
	w    uint8
	lo   uint64
	hi   uint64
	dom  *[4]uint64 // for 8 bit variables: the allowed values
	e    *Expr
}

// Expr is an immutable node; w==0 means boolean.
type Expr struct {
	op     Op
	w      uint8
	multi  bool // support has more than one variable
	hasVar bool
	inTab  bool
	id     int32
	k      uint64
	args   []*Expr
	v      *Var // the single support variable if hasVar && !multi
	lo, hi uint64
	tab    *[4]uint64 // truth table (bool, single 8 bit var)
	btab   []uint64   // value table (bv, single 8 bit var)
	supp   []int      // cached support
	suppOK bool
	defd   bool // defined in the solver
}

func (e *Expr) isConst() bool { return e.op == OpConst }

// Ctx owns the expressions of one engine.
type Ctx struct {
	depth  int
	tab    map[uint64][]*Expr
	n      int32
	vars   []*Var
	byName map[string]*Var
	T, F   *Expr
	small  [65][]*Expr
	canon  map[canonKey]*Expr
}

type canonKey struct {
	v *Var
	t [4]uint64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[uint64][]*Expr{}, byName: map[string]*Var{}, canon: map[canonKey]*Expr{}}
	c.F = c.mk(OpConst, 0, 0, nil)
	c.T = c.mk(OpConst, 0, 1, nil)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (c *Ctx) mk(op Op, w uint8, k uint64, args []*Expr) *Expr {
	h := uint64(op)*0x9E3779B97F4A7C15 ^ uint64(w)*0xC2B2AE3D27D4EB4F ^ k*0x165667B19E3779F9
	for _, a := range args {
		h = (h ^ uint64(a.id)) * 0x100000001B3
		h ^= h >> 29
	}
	bucket := c.tab[h]
outer:
	for _, e := range bucket {
		if e.op != op || e.w != w || e.k != k || len(e.args) != len(args) {
			continue
		}
		for i := range args {
			if e.args[i] != args[i] {
				continue outer
			}
		}
		return e
	}
	cp := make([]*Expr, len(args))
	copy(cp, args)
	e := &Expr{op: op, w: w, k: k, args: cp, id: c.n}
	c.n++
	for _, a := range cp {
		if !a.hasVar {
			continue
		}
		if !e.hasVar {
			e.hasVar, e.multi, e.v = true, a.multi, a.v
		} else if !e.multi && (a.multi || a.v != e.v) {
			e.multi, e.v = true, nil
		}
	}
	c.interval(e)
	if w == 0 && e.hasVar && !e.multi && e.v.w == 8 && op != OpVar {
		if r := c.computeTab(e); r != nil {
			c.tab[h] = append(c.tab[h], r)
			// r may not have the same structure; do not register under this key unless it is e
			if r != e {
				c.tab[h] = c.tab[h][:len(c.tab[h])-1]
				return r
			}
			return e
		}
	}
	c.tab[h] = append(c.tab[h], e)
	return e
}

// computeTab computes the truth table of a boolean over one byte variable and
// canonicalises it; it returns nil when no table can be computed.
func (c *Ctx) computeTab(e *Expr) *Expr {
	v := e.v
	var t [4]uint64
	all, none := true, true
	for x := 0; x < 256; x++ {
		if v.dom != nil && v.dom[x>>6]>>(uint(x)&63)&1 == 0 {
			continue
		}
		r, ok := c.tabEval(e, x)
		if !ok {
			return nil
		}
		if r != 0 {
			t[x>>6] |= 1 << (uint(x) & 63)
			none = false
		} else {
			all = false
		}
	}
	if all {
		return c.T
	}
	if none {
		return c.F
	}
	e.tab = &t
	key := canonKey{v, t}
	if o := c.canon[key]; o != nil {
		return o
	}
	c.canon[key] = e
	return e
}

// tabEval evaluates a single-byte-variable expression at x using child tables.
func (c *Ctx) tabEval(e *Expr, x int) (uint64, bool) {
	if !e.hasVar {
		return e.k, true
	}
	if e.op == OpVar {
		return uint64(x), true
	}
	if e.w == 0 && e.tab != nil {
		return e.tab[x>>6] >> (uint(x) & 63) & 1, true
	}
	if e.w != 0 {
		if e.btab == nil {
			bt := make([]uint64, 256)
			for y := 0; y < 256; y++ {
				if e.v.dom != nil && e.v.dom[y>>6]>>(uint(y)&63)&1 == 0 {
					continue
				}
				r, ok := c.tabEval1(e, y)
				if !ok {
					return 0, false
				}
				bt[y] = r
			}
			e.btab = bt
		}
		return e.btab[x], true
	}
	return c.tabEval1(e, x)
}

func (c *Ctx) tabEval1(e *Expr, x int) (uint64, bool) {
	var buf [8]uint64
	vals := buf[:0]
	for _, a := range e.args {
		r, ok := c.tabEval(a, x)
		if !ok {
			return 0, false
		}
		vals = append(vals, r)
	}
	return evalOp(e, vals), true
}

func (c *Ctx) interval(e *Expr) {
	m := mask(e.w)
	e.lo, e.hi = 0, m
	switch e.op {
	case OpConst:
		e.lo, e.hi = e.k, e.k
	case OpIte:
		a, b := e.args[1], e.args[2]
		e.lo, e.hi = min(a.lo, b.lo), max(a.hi, b.hi)
	case OpZExt:
		e.lo, e.hi = e.args[0].lo, e.args[0].hi
	case OpSExt:
		a := e.args[0]
		if a.hi>>(a.w-1) == 0 {
			e.lo, e.hi = a.lo, a.hi
		}
	case OpExtract:
		a := e.args[0]
		if e.k == 0 && a.hi <= m {
			e.lo, e.hi = a.lo, a.hi
		}
	case OpAdd:
		a, b := e.args[0], e.args[1]
		hi, carry := bits.Add64(a.hi, b.hi, 0)
		if carry == 0 && hi <= m {
			e.lo, e.hi = a.lo+b.lo, hi
		} else if b.op == OpConst {
			// subtraction by a constant: both ends wrap
			nb := (-b.k) & m
			if a.lo >= nb {
				e.lo, e.hi = a.lo-nb, a.hi-nb
			}
		}
	case OpSub:
		a, b := e.args[0], e.args[1]
		if a.lo >= b.hi {
			e.lo, e.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OpMul:
		a, b := e.args[0], e.args[1]
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			e.lo, e.hi = a.lo*b.lo, l
		}
	case OpBAnd:
		e.hi = min(e.args[0].hi, e.args[1].hi)
	case OpLShr:
		if b := e.args[1]; b.op == OpConst {
			if b.k >= 64 {
				e.lo, e.hi = 0, 0
			} else {
				e.lo, e.hi = e.args[0].lo>>b.k, e.args[0].hi>>b.k
			}
		} else {
			e.hi = e.args[0].hi
		}
	case OpUDiv:
		if b := e.args[1]; b.op == OpConst && b.k != 0 {
			e.lo, e.hi = e.args[0].lo/b.k, e.args[0].hi/b.k
		}
	case OpURem:
		if b := e.args[1]; b.op == OpConst && b.k != 0 {
			e.hi = min(b.k-1, e.args[0].hi)
		}
	}
	if e.op != OpVar && e.w == 0 && e.op != OpConst {
		e.lo, e.hi = 0, 1
	}
}

func (c *Ctx) Const(w uint8, k uint64) *Expr {
	k &= mask(w)
	if w == 0 {
		if k != 0 {
			return c.T
		}
		return c.F
	}
	if k < 1024 {
		s := c.small[w]
		if s == nil {
			s = make([]*Expr, 1024)
			c.small[w] = s
		}
		if s[k] == nil {
			s[k] = c.mk(OpConst, w, k, nil)
		}
		return s[k]
	}
	return c.mk(OpConst, w, k, nil)
}

func (c *Ctx) Int(k int) *Expr { return c.Const(64, uint64(k)) }

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.T
	}
	return c.F
}

// Var returns the variable of that name, creating it.
func (c *Ctx) Var(name string, w uint8, lo, hi uint64, dom *[4]uint64) *Expr {
	if v := c.byName[name]; v != nil {
		if v.w != w || v.lo != lo || v.hi != hi {
			unsup("variable %s redeclared with another domain", name)
		}
		return v.e
	}
	v := &Var{id: len(c.vars), name: name, w: w, lo: lo, hi: hi, dom: dom}
	c.vars = append(c.vars, v)
	c.byName[name] = v
	e := &Expr{op: OpVar, w: w, k: uint64(v.id), id: c.n, hasVar: true, v: v}
	c.n++
	e.lo, e.hi = lo, hi
	v.e = e
	return e
}

func (c *Ctx) Not(a *Expr) *Expr {
	switch a.op {
	case OpConst:
		return c.Bool(a.k == 0)
	case OpNot:
		return a.args[0]
	}
	return c.mk(OpNot, 0, 0, []*Expr{a})
}

func isNeg(a, b *Expr) bool {
	return (a.op == OpNot && a.args[0] == b) || (b.op == OpNot && b.args[0] == a)
}

func sortedInsert(set []*Expr, e *Expr) []*Expr {
	i := sort.Search(len(set), func(i int) bool { return set[i].id >= e.id })
	if i < len(set) && set[i] == e {
		return set
	}
	set = append(set, nil)
	copy(set[i+1:], set[i:])
	set[i] = e
	return set
}

func contains(set []*Expr, e *Expr) bool {
	i := sort.Search(len(set), func(i int) bool { return set[i].id >= e.id })
	return i < len(set) && set[i] == e
}

func (c *Ctx) And(xs ...*Expr) *Expr { return c.nary(OpAnd, xs) }
func (c *Ctx) Or(xs ...*Expr) *Expr  { return c.nary(OpOr, xs) }

func (c *Ctx) nary(op Op, xs []*Expr) *Expr {
	unit, zero := c.T, c.F
	dual := OpOr
	if op == OpOr {
		unit, zero = c.F, c.T
		dual = OpAnd
	}
	c.depth++
	defer func() { c.depth-- }()
	var set []*Expr
	for _, x := range xs {
		if x == zero {
			return zero
		}
		if x == unit {
			continue
		}
		if x.op == op {
			for _, y := range x.args {
				set = sortedInsert(set, y)
			}
		} else {
			set = sortedInsert(set, x)
		}
	}
	if c.depth > 40 { // rewriting must end
		switch len(set) {
		case 0:
			return unit
		case 1:
			return set[0]
		}
		return c.mk(op, 0, 0, set)
	}
	// complements
	for _, x := range set {
		if x.op == OpNot && contains(set, x.args[0]) {
			return zero
		}
	}
	// absorption and unit propagation into dual children
	changed := true
	for changed && len(set) <= 64 {
		changed = false
		for i, x := range set {
			if x.op != dual {
				continue
			}
			drop := false
			var keep []*Expr
			removed := false
			for _, y := range x.args {
				if contains(set, y) { // absorbed: a & (a|b) = a
					drop = true
					break
				}
				neg := false
				if y.op == OpNot {
					neg = contains(set, y.args[0])
				} else {
					for _, z := range set {
						if z.op == OpNot && z.args[0] == y {
							neg = true
							break
						}
					}
				}
				if neg {
					removed = true
					continue
				}
				keep = append(keep, y)
			}
			if drop {
				set = append(append([]*Expr{}, set[:i]...), set[i+1:]...)
				changed = true
				break
			}
			if removed {
				rest := append(append([]*Expr{}, set[:i]...), set[i+1:]...)
				n := c.nary(dual, keep)
				if n == x {
					continue // the truth-table form brings it back
				}
				return c.nary(op, append(rest, n))
			}
		}
	}
	// common factor of two dual terms: (a&b)|(a&c) = a&(b|c)
	if len(set) == 2 {
		f1, f2 := factors(set[0], dual), factors(set[1], dual)
		var common, r1, r2 []*Expr
		for _, x := range f1 {
			if contains(f2, x) {
				common = append(common, x)
			} else {
				r1 = append(r1, x)
			}
		}
		if len(common) > 0 {
			for _, x := range f2 {
				if !contains(f1, x) {
					r2 = append(r2, x)
				}
			}
			inner := c.nary(op, []*Expr{c.nary(dual, r1), c.nary(dual, r2)})
			return c.nary(dual, append(common, inner))
		}
	}
	switch len(set) {
	case 0:
		return unit
	case 1:
		return set[0]
	}
	// merge single-byte-variable members with tables
	byVar := map[*Var]int{}
	for _, x := range set {
		if x.tab != nil {
			byVar[x.v]++
		}
	}
	for v, n := range byVar {
		if n < 2 || n == len(set) {
			continue
		}
		var same, rest []*Expr
		for _, x := range set {
			if x.tab != nil && x.v == v {
				same = append(same, x)
			} else {
				rest = append(rest, x)
			}
		}
		m := c.mk(op, 0, 0, same)
		if m.op == op { // could not be reduced to a canonical other node
			continue
		}
		return c.nary(op, append(rest, m))
	}
	return c.mk(op, 0, 0, set)
}

func factors(e *Expr, dual Op) []*Expr {
	if e.op == dual {
		return e.args
	}
	return []*Expr{e}
}

func (c *Ctx) Ite(cd, a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if cd.op == OpConst {
		if cd.k != 0 {
			return a
		}
		return b
	}
	if cd.op == OpNot {
		return c.Ite(cd.args[0], b, a)
	}
	if a.w != b.w {
		panic("ite width mismatch")
	}
	if a.w == 0 {
		if a == c.T {
			return c.Or(cd, b)
		}
		if a == c.F {
			return c.And(c.Not(cd), b)
		}
		if b == c.F {
			return c.And(cd, a)
		}
		if b == c.T {
			return c.Or(c.Not(cd), a)
		}
		if a == cd {
			return c.Or(cd, b)
		}
		if b == cd {
			return c.And(cd, a)
		}
	}
	if a.op == OpIte && a.args[0] == cd {
		return c.Ite(cd, a.args[1], b)
	}
	if b.op == OpIte && b.args[0] == cd {
		return c.Ite(cd, a, b.args[2])
	}
	// ite(c, ite(d, x, y), y) = ite(c&d, x, y)
	if a.op == OpIte && a.args[2] == b {
		return c.mk(OpIte, a.w, 0, []*Expr{c.And(cd, a.args[0]), a.args[1], b})
	}
	if b.op == OpIte && b.args[1] == a {
		return c.Ite(c.Or(cd, b.args[0]), a, b.args[2])
	}
	return c.mk(OpIte, a.w, 0, []*Expr{cd, a, b})
}

// iteConstLeaves reports whether e is an ite tree with few constant leaves.
func iteConstLeaves(e *Expr, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if e.op == OpConst {
		return true
	}
	if e.op == OpIte {
		return iteConstLeaves(e.args[1], budget) && iteConstLeaves(e.args[2], budget)
	}
	return false
}

func iteTree(e *Expr) bool {
	if e.op != OpIte {
		return false
	}
	b := 24
	return iteConstLeaves(e, &b)
}

// liftIte applies f at the leaves of an ite tree.
func (c *Ctx) liftIte(e *Expr, f func(*Expr) *Expr) *Expr {
	if e.op == OpIte {
		return c.Ite(e.args[0], c.liftIte(e.args[1], f), c.liftIte(e.args[2], f))
	}
	return f(e)
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		return c.F
	}
	if a.w == 0 {
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.k != 0 {
				return a
			}
			return c.Not(a)
		}
		if isNeg(a, b) {
			return c.F
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OpEq, 0, 0, []*Expr{a, b})
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.F
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		switch a.op {
		case OpIte:
			if a.args[1].op == OpConst || a.args[2].op == OpConst || iteTree(a) {
				return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
			}
		case OpZExt:
			in := a.args[0]
			if b.k&^mask(in.w) != 0 {
				return c.F
			}
			return c.Eq(in, c.Const(in.w, b.k))
		case OpSExt:
			in := a.args[0]
			if uint64(sext64(b.k&mask(in.w), in.w))&mask(a.w) != b.k {
				return c.F
			}
			return c.Eq(in, c.Const(in.w, b.k))
		case OpAdd:
			if a.args[1].op == OpConst {
				return c.Eq(a.args[0], c.Const(a.w, b.k-a.args[1].k))
			}
		case OpVar:
			if d := a.v.dom; d != nil && d[b.k>>6]>>(b.k&63)&1 == 0 {
				return c.F
			}
		}
	} else {
		if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == OpSExt && b.op == OpSExt && a.args[0].w == b.args[0].w {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == OpAdd && b.op == OpAdd && a.args[1].op == OpConst && a.args[1] == b.args[1] {
			return c.Eq(a.args[0], b.args[0])
		}
		if iteTree(a) && iteTree(b) {
			return c.liftIte(a, func(x *Expr) *Expr { return c.Eq(b, x) })
		}
	}
	if b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, []*Expr{a, b})
}

func (c *Ctx) ULt(a, b *Expr) *Expr {
	if a == b {
		return c.F
	}
	if a.hi < b.lo {
		return c.T
	}
	if a.lo >= b.hi {
		return c.F
	}
	if iteTree(a) && (b.op == OpConst || iteTree(b)) {
		return c.liftIte(a, func(x *Expr) *Expr { return c.ULt(x, b) })
	}
	if iteTree(b) && a.op == OpConst {
		return c.liftIte(b, func(x *Expr) *Expr { return c.ULt(a, x) })
	}
	if a.op == OpZExt && b.op == OpConst {
		in := a.args[0]
		if b.k > mask(in.w) {
			return c.T
		}
		return c.ULt(in, c.Const(in.w, b.k))
	}
	if b.op == OpZExt && a.op == OpConst {
		in := b.args[0]
		if a.k >= mask(in.w) {
			return c.F
		}
		return c.ULt(c.Const(in.w, a.k), in)
	}
	if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
		return c.ULt(a.args[0], b.args[0])
	}
	return c.mk(OpULt, 0, 0, []*Expr{a, b})
}

func (c *Ctx) ULe(a, b *Expr) *Expr { return c.Not(c.ULt(b, a)) }

func (c *Ctx) SLt(a, b *Expr) *Expr {
	if a == b {
		return c.F
	}
	sb := uint64(1) << (a.w - 1)
	an, bn := a.hi < sb, b.hi < sb // non negative
	if an && bn {
		return c.ULt(a, b)
	}
	aneg, bneg := a.lo >= sb, b.lo >= sb
	if aneg && bn {
		return c.T
	}
	if an && bneg {
		return c.F
	}
	if aneg && bneg {
		return c.ULt(a, b)
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	if iteTree(a) && (b.op == OpConst || iteTree(b)) {
		return c.liftIte(a, func(x *Expr) *Expr { return c.SLt(x, b) })
	}
	if iteTree(b) && a.op == OpConst {
		return c.liftIte(b, func(x *Expr) *Expr { return c.SLt(a, x) })
	}
	if a.op == OpSExt && b.op == OpConst {
		in := a.args[0]
		kb := sext64(b.k, b.w)
		mn, mx := -(int64(1) << (in.w - 1)), int64(1)<<(in.w-1)-1
		if kb > mx {
			return c.T
		}
		if kb <= mn {
			return c.F
		}
		return c.SLt(in, c.Const(in.w, b.k))
	}
	if b.op == OpSExt && a.op == OpConst {
		in := b.args[0]
		ka := sext64(a.k, a.w)
		mn, mx := -(int64(1) << (in.w - 1)), int64(1)<<(in.w-1)-1
		if ka >= mx {
			return c.F
		}
		if ka < mn {
			return c.T
		}
		return c.SLt(c.Const(in.w, a.k), in)
	}
	if a.op == OpSExt && b.op == OpSExt && a.args[0].w == b.args[0].w {
		return c.SLt(a.args[0], b.args[0])
	}
	return c.mk(OpSLt, 0, 0, []*Expr{a, b})
}

func (c *Ctx) SLe(a, b *Expr) *Expr { return c.Not(c.SLt(b, a)) }

func evalOp(e *Expr, v []uint64) uint64 {
	m := mask(e.w)
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch e.op {
	case OpConst:
		return e.k
	case OpAdd:
		return (v[0] + v[1]) & m
	case OpSub:
		return (v[0] - v[1]) & m
	case OpMul:
		return (v[0] * v[1]) & m
	case OpUDiv:
		if v[1] == 0 {
			return m
		}
		return v[0] / v[1]
	case OpSDiv:
		x, y := sext64(v[0], e.w), sext64(v[1], e.w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpURem:
		if v[1] == 0 {
			return v[0]
		}
		return v[0] % v[1]
	case OpSRem:
		x, y := sext64(v[0], e.w), sext64(v[1], e.w)
		if y == 0 {
			return v[0]
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpBAnd:
		return v[0] & v[1]
	case OpBOr:
		return v[0] | v[1]
	case OpBXor:
		return v[0] ^ v[1]
	case OpBNot:
		return ^v[0] & m
	case OpShl:
		if v[1] >= uint64(e.w) {
			return 0
		}
		return (v[0] << v[1]) & m
	case OpLShr:
		if v[1] >= uint64(e.w) {
			return 0
		}
		return v[0] >> v[1]
	case OpAShr:
		x := sext64(v[0], e.w)
		s := v[1]
		if s >= uint64(e.w) {
			s = uint64(e.w) - 1
		}
		return uint64(x>>s) & m
	case OpExtract:
		return (v[0] >> e.k) & m
	case OpZExt:
		return v[0]
	case OpSExt:
		return uint64(sext64(v[0], e.args[0].w)) & m
	case OpIte:
		if v[0] != 0 {
			return v[1]
		}
		return v[2]
	case OpEq:
		return b2u(v[0] == v[1])
	case OpULt:
		return b2u(v[0] < v[1])
	case OpULe:
		return b2u(v[0] <= v[1])
	case OpSLt:
		w := e.args[0].w
		return b2u(sext64(v[0], w) < sext64(v[1], w))
	case OpSLe:
		w := e.args[0].w
		return b2u(sext64(v[0], w) <= sext64(v[1], w))
	case OpAnd:
		for _, x := range v {
			if x == 0 {
				return 0
			}
		}
		return 1
	case OpOr:
		for _, x := range v {
			if x != 0 {
				return 1
			}
		}
		return 0
	case OpNot:
		return 1 - v[0]
	}
	panic("evalOp")
}

// Bin builds a bit-vector operation.
func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	if a.w != b.w {
		panic(fmt.Sprintf("%s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.w, evalOp(&Expr{op: op, w: a.w, args: []*Expr{a, b}}, []uint64{a.k, b.k}))
	}
	switch op {
	case OpAdd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.k == 0 {
				return a
			}
			if a.op == OpAdd && a.args[1].op == OpConst {
				return c.Bin(OpAdd, a.args[0], c.Const(a.w, a.args[1].k+b.k))
			}
			if iteTree(a) {
				return c.liftIte(a, func(x *Expr) *Expr { return c.Bin(op, x, b) })
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OpSub:
		if b.op == OpConst {
			return c.Bin(OpAdd, a, c.Const(a.w, -b.k))
		}
		if a == b {
			return c.Const(a.w, 0)
		}
		if iteTree(b) && a.op == OpConst {
			return c.liftIte(b, func(x *Expr) *Expr { return c.Bin(op, a, x) })
		}
	case OpMul:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if iteTree(a) {
				return c.liftIte(a, func(x *Expr) *Expr { return c.Bin(op, x, b) })
			}
		}
	case OpBAnd:
		if a.op == OpConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OpConst {
			if b.k == 0 {
				return b
			}
			if b.k == mask(a.w) {
				return a
			}
			// a mask covering the whole interval
			if b.k&(b.k+1) == 0 && a.hi <= b.k {
				return a
			}
		}
	case OpBOr:
		if a.op == OpConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OpConst {
			if b.k == 0 {
				return a
			}
			if b.k == mask(a.w) {
				return b
			}
		}
	case OpBXor:
		if a == b {
			return c.Const(a.w, 0)
		}
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst && b.k == 0 {
			return a
		}
	case OpShl, OpLShr, OpAShr:
		if b.op == OpConst {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(a.w) && op != OpAShr {
				return c.Const(a.w, 0)
			}
		}
	case OpUDiv, OpSDiv:
		if b.op == OpConst && b.k == 1 {
			return a
		}
	}
	if op == OpSDiv || op == OpSRem {
		sb := uint64(1) << (a.w - 1)
		if a.hi < sb && b.hi < sb && b.lo > 0 {
			if op == OpSDiv {
				return c.Bin(OpUDiv, a, b)
			}
			return c.Bin(OpURem, a, b)
		}
	}
	return c.mk(op, a.w, 0, []*Expr{a, b})
}

func (c *Ctx) BNot(a *Expr) *Expr {
	if a.op == OpConst {
		return c.Const(a.w, ^a.k)
	}
	return c.mk(OpBNot, a.w, 0, []*Expr{a})
}

func (c *Ctx) Neg(a *Expr) *Expr { return c.Bin(OpSub, c.Const(a.w, 0), a) }

// Resize converts a to width w, sign or zero extending.
func (c *Ctx) Resize(a *Expr, w uint8, signed bool) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		if w > a.w && signed {
			return c.Const(w, uint64(sext64(a.k, a.w)))
		}
		return c.Const(w, a.k)
	}
	if w < a.w {
		if (a.op == OpZExt || a.op == OpSExt) && a.args[0].w >= w {
			return c.Resize(a.args[0], w, false)
		}
		if (a.op == OpZExt || a.op == OpSExt) && a.args[0].w < w {
			return c.Resize(a.args[0], w, a.op == OpSExt)
		}
		if iteTree(a) {
			return c.liftIte(a, func(x *Expr) *Expr { return c.Resize(x, w, signed) })
		}
		if a.op == OpBAnd && a.args[1].op == OpConst && a.args[1].k&mask(w) == mask(w) {
			return c.Resize(a.args[0], w, false)
		}
		return c.mk(OpExtract, w, 0, []*Expr{a})
	}
	if iteTree(a) {
		return c.liftIte(a, func(x *Expr) *Expr { return c.Resize(x, w, signed) })
	}
	if signed && a.hi>>(a.w-1) != 0 {
		if a.op == OpSExt {
			a = a.args[0]
		}
		return c.mk(OpSExt, w, 0, []*Expr{a})
	}
	if a.op == OpZExt {
		a = a.args[0]
	}
	return c.mk(OpZExt, w, 0, []*Expr{a})
}

// Support returns the sorted variable ids of e.
func (c *Ctx) Support(e *Expr) []int {
	if e.suppOK {
		return e.supp
	}
	if !e.hasVar {
		e.suppOK = true
		return nil
	}
	if !e.multi {
		e.supp = []int{e.v.id}
		e.suppOK = true
		return e.supp
	}
	var s []int
	for _, a := range e.args {
		s = mergeInts(s, c.Support(a))
	}
	e.supp, e.suppOK = s, true
	return s
}

func mergeInts(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]int, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	return append(out, b[j:]...)
}

// Model is an assignment; missing variables take their low value.
type Model struct {
	vals map[int]uint64
	memo map[int32]uint64
}

func NewModel() *Model { return &Model{vals: map[int]uint64{}, memo: map[int32]uint64{}} }

func (m *Model) with(vals map[int]uint64) *Model {
	n := NewModel()
	for k, v := range m.vals {
		n.vals[k] = v
	}
	for k, v := range vals {
		n.vals[k] = v
	}
	return n
}

func domFirst(v *Var) uint64 {
	if v.dom != nil {
		for x := uint64(0); x < 256; x++ {
			if v.dom[x>>6]>>(x&63)&1 == 1 {
				return x
			}
		}
	}
	return v.lo
}

func (m *Model) value(v *Var) uint64 {
	if x, ok := m.vals[v.id]; ok {
		return x
	}
	return domFirst(v)
}

func (m *Model) Eval(e *Expr) uint64 {
	if e.op == OpConst {
		return e.k
	}
	if e.op == OpVar {
		return m.value(e.v)
	}
	if r, ok := m.memo[e.id]; ok {
		return r
	}
	var r uint64
	switch e.op {
	case OpIte:
		if m.Eval(e.args[0]) != 0 {
			r = m.Eval(e.args[1])
		} else {
			r = m.Eval(e.args[2])
		}
	case OpAnd:
		r = 1
		for _, a := range e.args {
			if m.Eval(a) == 0 {
				r = 0
				break
			}
		}
	case OpOr:
		for _, a := range e.args {
			if m.Eval(a) != 0 {
				r = 1
				break
			}
		}
	default:
		var buf [4]uint64
		vals := buf[:0]
		for _, a := range e.args {
			vals = append(vals, m.Eval(a))
		}
		r = evalOp(e, vals)
	}
	m.memo[e.id] = r
	return r
}

func (e *Expr) String() string {
	var sb strings.Builder
	e.write(&sb, 0)
	return sb.String()
}

func (e *Expr) write(sb *strings.Builder, d int) {
	switch e.op {
	case OpConst:
		if e.w == 0 {
			fmt.Fprintf(sb, "%v", e.k != 0)
		} else {
			fmt.Fprintf(sb, "%d", e.k)
		}
	case OpVar:
		sb.WriteString(e.v.name)
	default:
		if d > 6 {
			sb.WriteString("...")
			return
		}
		sb.WriteString("(" + opNames[e.op])
		for _, a := range e.args {
			sb.WriteByte(' ')
			a.write(sb, d+1)
		}
		sb.WriteByte(')')
	}
}
