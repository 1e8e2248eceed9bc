package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// valEq is Go's == on two register values.
func (E *Engine) valEq(a, b Value) *Expr {
	c := E.c
	switch x := a.(type) {
	case *Expr:
		return c.Eq(x, b.(*Expr))
	case *Str:
		return E.strEq(x, b.(*Str))
	case Ptr:
		if y, ok := b.(Ptr); ok {
			return c.Bool(x == y)
		}
	case Slice:
		if y, ok := b.(Slice); ok && (x.obj == 0 || y.obj == 0) {
			return c.Bool(x.obj == 0 && y.obj == 0)
		}
	case MapRef:
		return c.Bool(x == b.(MapRef))
	case ChanRef:
		return c.Bool(x == b.(ChanRef))
	case *Closure:
		y := b.(*Closure)
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
	case Float:
		return c.Bool(x.f == b.(Float).f)
	case Complex:
		return c.Bool(x.c == b.(Complex).c)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return c.F
		}
		if !types.Comparable(x.t) {
			unsup("comparing uncomparable %s", x.t)
		}
		return E.valEq(x.v, y.v)
	case Agg:
		y := b.(Agg)
		cs := make([]*Expr, 0, len(x))
		for i := range x {
			e := E.valEq(x[i], y[i])
			if e == c.F {
				return e
			}
			cs = append(cs, e)
		}
		return c.And(cs...)
	case Poison:
		unsup("poisoned value: %s", x.msg)
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

// iteVal merges two values under a condition when no references need joining.
func (E *Engine) iteVal(cd *Expr, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Expr:
		return E.c.Ite(cd, x, b.(*Expr)), true
	case *Str:
		y := b.(*Str)
		if x.Len() != y.Len() {
			return nil, false
		}
		if x == y || (x.sym == nil && y.sym == nil && x.s == y.s) {
			return x, true
		}
		out := make([]*Expr, x.Len())
		for i := range out {
			out[i] = E.c.Ite(cd, E.byteAt(x, i), E.byteAt(y, i))
		}
		return mkStr(out), true
	case Agg:
		y := b.(Agg)
		out := make(Agg, len(x))
		for i := range x {
			v, ok := E.iteVal(cd, x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return x, x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := E.iteVal(cd, x.v, y.v)
		return Iface{x.t, v}, ok
	}
	if sameVal(a, b) {
		return a, true
	}
	return nil, false
}

func (E *Engine) binop(st *State, op token.Token, t types.Type, a, b Value, yt types.Type) []res {
	c := E.c
	if pz, ok := a.(Poison); ok {
		unsup("poisoned value: %s", pz.msg)
	}
	if pz, ok := b.(Poison); ok {
		unsup("poisoned value: %s", pz.msg)
	}
	switch op {
	case token.EQL:
		return one(st, E.valEq(a, b))
	case token.NEQ:
		return one(st, c.Not(E.valEq(a, b)))
	}
	switch x := a.(type) {
	case *Str:
		y := b.(*Str)
		switch op {
		case token.ADD:
			return one(st, E.strConcat(x, y))
		case token.LSS:
			return one(st, E.strLt(x, y))
		case token.GTR:
			return one(st, E.strLt(y, x))
		case token.LEQ:
			return one(st, c.Not(E.strLt(y, x)))
		case token.GEQ:
			return one(st, c.Not(E.strLt(x, y)))
		}
	case Float:
		y := b.(Float)
		var r float64
		switch op {
		case token.ADD:
			r = x.f + y.f
		case token.SUB:
			r = x.f - y.f
		case token.MUL:
			r = x.f * y.f
		case token.QUO:
			r = x.f / y.f
		case token.LSS:
			return one(st, c.Bool(x.f < y.f))
		case token.GTR:
			return one(st, c.Bool(x.f > y.f))
		case token.LEQ:
			return one(st, c.Bool(x.f <= y.f))
		case token.GEQ:
			return one(st, c.Bool(x.f >= y.f))
		default:
			unsup("float op %s", op)
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return one(st, Float{r})
	case *Expr:
		y, ok := b.(*Expr)
		if !ok {
			break
		}
		if x.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return one(st, c.And(x, y))
			case token.OR, token.LOR:
				return one(st, c.Or(x, y))
			}
			break
		}
		_, signed := basicWidth(t.Underlying().(*types.Basic))
		switch op {
		case token.ADD:
			return one(st, c.Bin(OpAdd, x, y))
		case token.SUB:
			return one(st, c.Bin(OpSub, x, y))
		case token.MUL:
			return one(st, c.Bin(OpMul, x, y))
		case token.QUO, token.REM:
			nz, z := E.split(st, c.Not(c.Eq(y, c.Const(y.w, 0))))
			var out []res
			if z != nil {
				out = append(out, E.rtPanic(z, "integer divide by zero"))
			}
			if nz != nil {
				o := OpUDiv
				switch {
				case op == token.QUO && signed:
					o = OpSDiv
				case op == token.REM && signed:
					o = OpSRem
				case op == token.REM:
					o = OpURem
				}
				out = append(out, res{st: nz, v: c.Bin(o, x, y)})
			}
			return out
		case token.AND:
			return one(st, c.Bin(OpBAnd, x, y))
		case token.OR:
			return one(st, c.Bin(OpBOr, x, y))
		case token.XOR:
			return one(st, c.Bin(OpBXor, x, y))
		case token.AND_NOT:
			return one(st, c.Bin(OpBAnd, x, c.BNot(y)))
		case token.SHL, token.SHR:
			_, ys := basicWidth(yt.Underlying().(*types.Basic))
			var out []res
			if ys {
				okS, neg := E.split(st, c.Not(c.SLt(y, c.Const(y.w, 0))))
				if neg != nil {
					out = append(out, E.rtPanic(neg, "negative shift amount"))
				}
				if okS == nil {
					return out
				}
				st = okS
			}
			// saturate the count to the width of x
			var cnt *Expr
			if y.w > x.w {
				big := c.ULt(c.Const(y.w, uint64(x.w)-1), y)
				cnt = c.Ite(big, c.Const(x.w, uint64(x.w)&mask(x.w)), c.Resize(y, x.w, false))
			} else {
				cnt = c.Resize(y, x.w, false)
			}
			o := OpShl
			if op == token.SHR {
				o = OpLShr
				if signed {
					o = OpAShr
				}
			}
			return append(out, res{st: st, v: c.Bin(o, x, cnt)})
		case token.LSS:
			if signed {
				return one(st, c.SLt(x, y))
			}
			return one(st, c.ULt(x, y))
		case token.GTR:
			if signed {
				return one(st, c.SLt(y, x))
			}
			return one(st, c.ULt(y, x))
		case token.LEQ:
			if signed {
				return one(st, c.SLe(x, y))
			}
			return one(st, c.ULe(x, y))
		case token.GEQ:
			if signed {
				return one(st, c.SLe(y, x))
			}
			return one(st, c.ULe(y, x))
		}
	}
	unsup("binop %s on %T", op, a)
	return nil
}

func (E *Engine) convert(st *State, from, to types.Type, v Value) []res {
	fu, tu := from.Underlying(), to.Underlying()
	c := E.c
	if pz, ok := v.(Poison); ok {
		unsup("poisoned value: %s", pz.msg)
	}
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Kind() == types.UnsafePointer {
			return one(st, v)
		}
		if tb.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case *Str:
				return one(st, x)
			case Slice:
				et := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if et.Kind() == types.Uint8 {
					return one(st, E.sliceToStr(st, x))
				}
				// []rune
				var rs []*Expr
				if x.len > 0 {
					o := E.obj(st, x.obj)
					for i := 0; i < x.len; i++ {
						rs = append(rs, o.cells[x.off+i].(*Expr))
					}
				}
				return E.runesToStr(st, rs)
			case *Expr:
				b, _ := fu.(*types.Basic)
				_, sg := basicWidth(b)
				return E.runesToStr(st, []*Expr{c.Resize(x, 32, sg)})
			}
		}
		switch x := v.(type) {
		case *Expr:
			fb := fu.(*types.Basic)
			_, sg := basicWidth(fb)
			if tb.Info()&types.IsFloat != 0 {
				if !x.isConst() {
					unsup("symbolic integer to float")
				}
				var f float64
				if sg {
					f = float64(sext64(x.k, x.w))
				} else {
					f = float64(x.k)
				}
				if tb.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return one(st, Float{f})
			}
			w, _ := basicWidth(tb)
			if w == 255 {
				unsup("convert %s to %s", from, to)
			}
			if x.w == 0 {
				return one(st, x)
			}
			return one(st, c.Resize(x, w, sg))
		case Float:
			if tb.Info()&types.IsFloat != 0 {
				f := x.f
				if tb.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return one(st, Float{f})
			}
			w, sg := basicWidth(tb)
			if sg {
				return one(st, c.Const(w, uint64(int64(x.f))))
			}
			return one(st, c.Const(w, uint64(x.f)))
		case Complex:
			return one(st, x)
		case Ptr:
			unsup("pointer to %s", to)
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(*Str); ok {
			et := ts.Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Uint8 {
				bs := E.strBytes(s)
				cells := make([]Value, len(bs))
				for i, b := range bs {
					cells[i] = b
				}
				id := E.alloc(st, &Obj{cells: cells})
				return one(st, Slice{id, 0, len(bs), len(bs)})
			}
			var out []res
			for _, r := range E.strRunes(st, s) {
				cells := make([]Value, len(r.rs))
				for i, b := range r.rs {
					cells[i] = b
				}
				id := E.alloc(r.st, &Obj{cells: cells})
				out = append(out, res{st: r.st, v: Slice{id, 0, len(cells), len(cells)}})
			}
			return out
		}
		return one(st, v)
	}
	if _, ok := tu.(*types.Pointer); ok {
		switch v.(type) {
		case Ptr, SymPtr:
			return one(st, v)
		}
	}
	unsup("convert %s to %s (%T)", from, to, v)
	return nil
}

func (E *Engine) sliceToStr(st *State, x Slice) *Str {
	if x.len == 0 {
		return emptyStr
	}
	o := E.obj(st, x.obj)
	bs := make([]*Expr, x.len)
	for i := range bs {
		e, ok := o.cells[x.off+i].(*Expr)
		if !ok {
			unsup("byte slice holds %T", o.cells[x.off+i])
		}
		bs[i] = e
	}
	return mkStr(bs)
}

type runesRes struct {
	st *State
	rs []*Expr
}

// decodeRune decodes the rune at pos of s.
type runeRes struct {
	st *State
	r  *Expr
	n  int
}

func (E *Engine) decodeRune(st *State, s *Str, pos int) []runeRes {
	if s.sym == nil {
		r, n := utf8.DecodeRuneInString(s.s[pos:])
		return []runeRes{{st, E.c.Const(32, uint64(r)), n}}
	}
	b := E.byteAt(s, pos)
	t, f := E.split(st, E.c.ULt(b, E.c.Const(8, 0x80)))
	var out []runeRes
	if t != nil {
		out = append(out, runeRes{t, E.c.Resize(b, 32, false), 1})
	}
	if f != nil {
		fn := E.world.fnByName("unicode/utf8", "DecodeRuneInString")
		for _, r := range E.exec(fn, f, []Value{substr(s, pos, s.Len())}, nil) {
			if r.pan {
				unsup("panic in DecodeRuneInString")
			}
			tp := r.v.(Tuple)
			for _, k := range E.concretize(r.st, tp[1].(*Expr)) {
				out = append(out, runeRes{k.st, tp[0].(*Expr), int(k.k)})
			}
		}
	}
	return out
}

func (E *Engine) strRunes(st *State, s *Str) []runesRes {
	cur := []struct {
		runesRes
		pos int
	}{{runesRes{st, nil}, 0}}
	var out []runesRes
	for len(cur) > 0 {
		x := cur[len(cur)-1]
		cur = cur[:len(cur)-1]
		if x.pos >= s.Len() {
			out = append(out, x.runesRes)
			continue
		}
		for _, r := range E.decodeRune(x.st, s, x.pos) {
			rs := append(append([]*Expr(nil), x.rs...), r.r)
			cur = append(cur, struct {
				runesRes
				pos int
			}{runesRes{r.st, rs}, x.pos + r.n})
		}
	}
	return out
}

func (E *Engine) runesToStr(st *State, rs []*Expr) []res {
	type part struct {
		st *State
		bs []*Expr
	}
	cur := []part{{st, nil}}
	for _, r := range rs {
		var next []part
		for _, p := range cur {
			if r.isConst() {
				s := string(rune(sext64(r.k, r.w)))
				bs := append([]*Expr(nil), p.bs...)
				for i := 0; i < len(s); i++ {
					bs = append(bs, E.c.Const(8, uint64(s[i])))
				}
				next = append(next, part{p.st, bs})
				continue
			}
			t, f := E.split(p.st, E.c.ULt(r, E.c.Const(32, 0x80)))
			if t != nil {
				next = append(next, part{t, append(append([]*Expr(nil), p.bs...), E.c.Resize(r, 8, false))})
			}
			if f != nil {
				fn := E.world.fnByName("unicode/utf8", "AppendRune")
				for _, q := range E.exec(fn, f, []Value{Slice{}, r}, nil) {
					if q.pan {
						unsup("panic in AppendRune")
					}
					s := E.sliceToStr(q.st, q.v.(Slice))
					next = append(next, part{q.st, append(append([]*Expr(nil), p.bs...), E.strBytes(s)...)})
				}
			}
		}
		cur = next
	}
	var out []res
	for _, p := range cur {
		out = append(out, res{st: p.st, v: mkStr(p.bs)})
	}
	return out
}

// ---- maps ----

func (E *Engine) mapLookup(st *State, mv, key Value, et types.Type, commaOk bool) []res {
	if pz, ok := mv.(Poison); ok {
		unsup("poisoned value: %s", pz.msg)
	}
	m := mv.(MapRef)
	ret := func(st *State, v Value, ok *Expr) res {
		if commaOk {
			return res{st: st, v: Tuple{v, ok}}
		}
		return res{st: st, v: v}
	}
	if m.obj == 0 {
		return []res{ret(st, E.zero(et), E.c.F)}
	}
	ents := E.obj(st, m.obj).m.ents
	type cand struct {
		e *Expr
		v Value
	}
	var cs []cand
	for _, en := range ents {
		e := E.c.And(en.present, E.valEq(key, en.k))
		if e == E.c.F {
			continue
		}
		if e == E.c.T {
			return []res{ret(st, en.v, E.c.T)}
		}
		cs = append(cs, cand{e, en.v})
	}
	if len(cs) == 0 {
		return []res{ret(st, E.zero(et), E.c.F)}
	}
	// one ite value when shapes allow
	v := E.zero(et)
	okE := E.c.F
	good := true
	for _, x := range cs {
		nv, ok := E.iteVal(x.e, x.v, v)
		if !ok {
			good = false
			break
		}
		v = nv
		okE = E.c.Or(okE, x.e)
	}
	if good {
		return []res{ret(st, v, okE)}
	}
	var out []res
	cur := st
	for _, x := range cs {
		t, f := E.split(cur, x.e)
		if t != nil {
			out = append(out, ret(t, x.v, E.c.T))
		}
		cur = f
		if cur == nil {
			return out
		}
	}
	return append(out, ret(cur, E.zero(et), E.c.F))
}

func (E *Engine) mapUpdate(st *State, mv, key, val Value) []res {
	m := mv.(MapRef)
	if m.obj == 0 {
		return []res{E.rtPanic(st, "assignment to entry in nil map")}
	}
	ents := E.obj(st, m.obj).m.ents
	var idx []int
	var es []*Expr
	mergeable := true
	for i, en := range ents {
		e := E.valEq(key, en.k)
		full := E.c.And(en.present, e)
		if full == E.c.T {
			E.wobj(st, m.obj).m.ents[i].v = val
			return one(st, nil)
		}
		if e == E.c.T {
			// same key, conditionally present or gone: overwrite (a second entry
			// for the key would not be found by iterators)
			o := E.wobj(st, m.obj)
			o.m.ents[i] = MapEntry{en.k, val, E.c.T}
			// other entries may only hold the key while absent here: keep keys distinct
			for j := range o.m.ents {
				if j != i {
					q := E.valEq(key, o.m.ents[j].k)
					if q != E.c.F {
						o.m.ents[j].present = E.c.And(o.m.ents[j].present, E.c.Not(q))
					}
				}
			}
			return one(st, nil)
		}
		if full == E.c.F {
			continue
		}
		idx = append(idx, i)
		es = append(es, full)
		if _, ok := E.iteVal(full, val, en.v); !ok {
			mergeable = false
		}
	}
	if mergeable {
		o := E.wobj(st, m.obj)
		none := E.c.T
		for k, i := range idx {
			v, _ := E.iteVal(es[k], val, o.m.ents[i].v)
			o.m.ents[i].v = v
			none = E.c.And(none, E.c.Not(es[k]))
		}
		if none != E.c.F {
			o.m.ents = append(o.m.ents, MapEntry{key, val, none})
		}
		return one(st, nil)
	}
	var out []res
	cur := st
	for k, i := range idx {
		t, f := E.split(cur, es[k])
		if t != nil {
			E.wobj(t, m.obj).m.ents[i].v = val
			out = append(out, res{st: t})
		}
		cur = f
		if cur == nil {
			return out
		}
	}
	o := E.wobj(cur, m.obj)
	o.m.ents = append(o.m.ents, MapEntry{key, val, E.c.T})
	return append(out, res{st: cur})
}

func (E *Engine) mapDelete(st *State, mv, key Value) {
	m := mv.(MapRef)
	if m.obj == 0 {
		return
	}
	ents := E.obj(st, m.obj).m.ents
	for i := range ents {
		e := E.c.And(ents[i].present, E.valEq(key, ents[i].k))
		if e == E.c.F {
			continue
		}
		o := E.wobj(st, m.obj)
		o.m.ents[i].present = E.c.And(o.m.ents[i].present, E.c.Not(e))
		ents = o.m.ents
	}
	// drop dead entries when no iterator can observe positions
	o := E.wobj(st, m.obj)
	var keep []MapEntry
	for _, e := range o.m.ents {
		if e.present != E.c.F {
			keep = append(keep, e)
		}
	}
	o.m.ents = keep
}

func (E *Engine) mapLen(st *State, m MapRef) *Expr {
	if m.obj == 0 {
		return E.c.Int(0)
	}
	n := E.c.Int(0)
	for _, e := range E.obj(st, m.obj).m.ents {
		n = E.c.Bin(OpAdd, n, E.c.Ite(e.present, E.c.Int(1), E.c.Int(0)))
	}
	return n
}

// entryOf finds the entry of a snapshot key.
func (E *Engine) entryOf(ents []MapEntry, key Value) int {
	for i, e := range ents {
		if sameVal(e.k, key) || E.keyConst(e.k, key) {
			return i
		}
	}
	return -1
}

func (E *Engine) keyConst(a, b Value) bool { return E.valEq(a, b) == E.c.T }

func (E *Engine) next(st *State, it IterRef, i *ssa.Next) []res {
	io := E.obj(st, it.obj).it
	tt := i.Type().(*types.Tuple)
	if i.IsString {
		if io.pos >= io.str.Len() {
			return one(st, Tuple{E.c.F, E.c.Int(0), E.c.Const(32, 0)})
		}
		pos := io.pos
		var out []res
		for _, r := range E.decodeRune(st, io.str, pos) {
			E.wobj(r.st, it.obj).it.pos = pos + r.n
			out = append(out, res{st: r.st, v: Tuple{E.c.T, E.c.Int(pos), r.r}})
		}
		return out
	}
	zeroOf := func(k int) Value {
		t := tt.At(k).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return E.zero(t)
	}
	var out []res
	cur := st
	for cur != nil {
		io = E.obj(cur, it.obj).it
		var cands []int
		for k := range io.keys {
			if !io.used[k] {
				cands = append(cands, k)
			}
		}
		if len(cands) == 0 {
			out = append(out, res{st: cur, v: Tuple{E.c.F, zeroOf(1), zeroOf(2)}})
			return out
		}
		choices := cands[:1]
		var states []kstate
		if cur.perm != 0 && len(cands) > 1 {
			if len(cands) > 6 {
				unsup("map with %d entries in every-order mode", len(cands))
			}
			choices = cands
			v := E.c.Var("perm#"+strconv.Itoa(cur.nperm)+"/"+strconv.Itoa(len(cands)), 8, 0, uint64(len(cands)-1), nil)
			cur.nperm++
			states = E.concretize(cur, v)
			E.permChoices++
		} else {
			states = []kstate{{cur, 0}}
		}
		var again *State
		for _, ks := range states {
			s := ks.st
			k := choices[ks.k]
			w := E.wobj(s, it.obj).it
			w.used[k] = true
			w.n++
			ents := E.obj(s, w.m).m.ents
			key := w.keys[k]
			j := E.entryOf(ents, key)
			if j < 0 {
				again = E.nextMore(again, s, &out, it, i)
				continue
			}
			t, f := E.split(s, ents[j].present)
			if t != nil {
				var vv Value = nil
				if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
					vv = ents[j].v
				}
				out = append(out, res{st: t, v: Tuple{E.c.T, ents[j].k, vv}})
			}
			if f != nil {
				again = E.nextMore(again, f, &out, it, i)
			}
		}
		cur = again
	}
	return out
}

// nextMore continues the search for a present entry on s.
func (E *Engine) nextMore(again, s *State, out *[]res, it IterRef, i *ssa.Next) *State {
	if again == nil {
		return s
	}
	*out = append(*out, E.next(s, it, i)...)
	return again
}

// ---- channels and goroutines ----

func (E *Engine) chanSend(st *State, ch ChanRef, v Value) []res {
	if ch.obj == 0 {
		unsup("send on nil channel blocks")
	}
	o := E.wobj(st, ch.obj)
	if o.ch.closed {
		return []res{E.rtPanic(st, "send on closed channel")}
	}
	if o.ch.cap > 0 && len(o.ch.q) >= o.ch.cap {
		// let goroutines make room
		var out []res
		if st.goq == nil {
			unsup("send blocks forever")
		}
		for _, r := range E.runOne(st) {
			if r.pan {
				out = append(out, r)
				continue
			}
			out = append(out, E.chanSend(r.st, ch, v)...)
		}
		return out
	}
	o.ch.q = append(o.ch.q, v)
	return one(st, nil)
}

func (E *Engine) chanRecv(st *State, ch ChanRef, commaOk bool, et types.Type) []res {
	if ch.obj == 0 {
		unsup("receive from nil channel blocks")
	}
	o := E.obj(st, ch.obj)
	ret := func(v Value, ok bool) []res {
		if commaOk {
			return one(st, Tuple{v, E.c.Bool(ok)})
		}
		return one(st, v)
	}
	if len(o.ch.q) > 0 {
		w := E.wobj(st, ch.obj)
		v := w.ch.q[0]
		w.ch.q = append([]Value(nil), w.ch.q[1:]...)
		return ret(v, true)
	}
	if o.ch.closed {
		return ret(E.zero(et), false)
	}
	if st.goq == nil {
		unsup("receive blocks forever")
	}
	var out []res
	for _, r := range E.runOne(st) {
		if r.pan {
			out = append(out, r)
			continue
		}
		out = append(out, E.chanRecv(r.st, ch, commaOk, et)...)
	}
	return out
}

// runOne runs one pending goroutine to completion (every choice in schedule mode).
func (E *Engine) runOne(st *State) []res {
	n := st.goq.n
	pick := []kstate{{st, 0}}
	if st.perm == 1 && n > 1 {
		v := E.c.Var("sched#"+strconv.Itoa(st.nperm)+"/"+strconv.Itoa(n), 8, 0, uint64(n-1), nil)
		st.nperm++
		pick = E.concretize(st, v)
	}
	var out []res
	for _, p := range pick {
		out = append(out, E.runNth(p.st, int(p.k))...)
	}
	return out
}

// runNth runs the k-th oldest pending goroutine to completion.
func (E *Engine) runNth(st *State, k int) []res {
	var all []deferRec
	for l := st.goq; l != nil; l = l.parent {
		all = append([]deferRec{l.v.(deferRec)}, all...)
	}
	g := all[k]
	rest := append(append([]deferRec(nil), all[:k]...), all[k+1:]...)
	st.goq = nil
	for i, r := range rest {
		st.goq = &List{v: r, parent: st.goq, n: i + 1}
	}
	st.gor++
	rs := E.callValue(st, g.fn, g.args, g.call)
	for _, r := range rs {
		r.st.gor--
	}
	return rs
}

// preempt continues an item that is about to change a shared variable, and in
// schedule mode also runs any other pending goroutine first.
func (a *activation) preempt(it *item) []*item {
	E := a.E
	n := it.st.goq.n
	v := E.c.Var("pre#"+strconv.Itoa(it.st.nperm)+"/"+strconv.Itoa(n), 8, 0, uint64(n), nil)
	it.st.nperm++
	var its []*item
	for _, p := range E.concretize(it.st, v) {
		if p.k == 0 {
			its = append(its, it.clone(p.st))
			continue
		}
		for _, r := range E.runNth(p.st, int(p.k)-1) {
			x := it.clone(r.st)
			if r.pan {
				unsup("panic in a goroutine")
			}
			its = append(its, x)
		}
	}
	return its
}

// lock takes a mutex; a goroutine that runs inside of the holder cannot go on,
// which another schedule covers.
func (E *Engine) lock(st *State, key string) []res {
	for l := st.locks; l != nil; l = l.parent {
		if l.v.(string) == key {
			if st.gor <= 1 {
				unsup("lock blocks forever")
			}
			return nil
		}
	}
	st.locks = &List{v: key, parent: st.locks}
	return one(st, nil)
}

func (E *Engine) unlock(st *State, key string) []res {
	var keep []string
	for l := st.locks; l != nil; l = l.parent {
		if l.v.(string) != key {
			keep = append(keep, l.v.(string))
		}
	}
	st.locks = nil
	for i := len(keep) - 1; i >= 0; i-- {
		st.locks = &List{v: keep[i], parent: st.locks}
	}
	return one(st, nil)
}

// drain runs every pending goroutine.
func (E *Engine) drain(st *State) []res {
	cur := []*State{st}
	var out []res
	for len(cur) > 0 {
		s := cur[len(cur)-1]
		cur = cur[:len(cur)-1]
		if s.goq == nil {
			out = E.addOut(out, res{st: s})
			continue
		}
		for _, r := range E.runOne(s) {
			if r.pan {
				out = append(out, r)
			} else {
				cur = append(cur, r.st)
			}
		}
	}
	return out
}

func (a *activation) sel(it *item, i *ssa.Select) []res {
	E := a.E
	st := it.st
	var ready []int
	for k, s := range i.States {
		ch := a.get(it, s.Chan).(ChanRef)
		if ch.obj == 0 {
			continue
		}
		o := E.obj(st, ch.obj).ch
		if s.Dir == types.SendOnly {
			if o.cap == 0 || len(o.q) < o.cap {
				ready = append(ready, k)
			}
		} else if len(o.q) > 0 || o.closed {
			ready = append(ready, k)
		}
	}
	mk := func(st *State, k int, v Value, ok bool) Tuple {
		t := Tuple{E.c.Int(k), E.c.Bool(ok)}
		for j, s := range i.States {
			if s.Dir == types.RecvOnly {
				if j == k {
					t = append(t, v)
				} else {
					t = append(t, E.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		return t
	}
	if len(ready) == 0 {
		if !i.Blocking {
			return one(st, mk(st, -1, nil, false))
		}
		if st.goq == nil {
			unsup("select blocks forever")
		}
		var out []res
		for _, r := range E.runOne(st) {
			if r.pan {
				out = append(out, r)
				continue
			}
			y := it.clone(r.st)
			out = append(out, a.sel(y, i)...)
		}
		return out
	}
	states := []kstate{{st, 0}}
	if len(ready) > 1 {
		v := E.c.Var("sel#"+strconv.Itoa(st.nperm)+"/"+strconv.Itoa(len(ready)), 8, 0, uint64(len(ready)-1), nil)
		st.nperm++
		states = E.concretize(st, v)
	}
	var out []res
	for _, ks := range states {
		k := ready[ks.k]
		s := i.States[k]
		ch := a.get(it, s.Chan).(ChanRef)
		if s.Dir == types.SendOnly {
			for _, r := range E.chanSend(ks.st, ch, a.get(it, s.Send)) {
				if r.pan {
					out = append(out, r)
				} else {
					out = append(out, res{st: r.st, v: mk(r.st, k, nil, false)})
				}
			}
			continue
		}
		for _, r := range E.chanRecv(ks.st, ch, true, s.Chan.Type().Underlying().(*types.Chan).Elem()) {
			if r.pan {
				out = append(out, r)
				continue
			}
			t := r.v.(Tuple)
			out = append(out, res{st: r.st, v: mk(r.st, k, t[0], t[1].(*Expr) == E.c.T)})
		}
	}
	return out
}

// ---- builtins ----

type growKey struct{ es, oldCap, oldLen, add int }

var growCache = map[growKey]int{}

// growCap asks the Go runtime for the capacity append would choose.
func growCap(es, oldLen, oldCap, add int) int {
	if oldCap > 4096 || oldLen+add > 8192 {
		return max(2*oldCap, oldLen+add)
	}
	at := reflect.ArrayOf(es, reflect.TypeOf(byte(0)))
	s := reflect.MakeSlice(reflect.SliceOf(at), oldLen, oldCap)
	e := reflect.MakeSlice(reflect.SliceOf(at), add, add)
	return reflect.AppendSlice(s, e).Cap()
}

var gcSizes = types.SizesFor("gc", "amd64")

func (E *Engine) appendVals(st *State, s Slice, et types.Type, vals []Value) Slice {
	es := E.lay.sizeof(et)
	n := len(vals) / max(es, 1)
	if es == 0 {
		unsup("append of zero-size elements")
	}
	if n == 0 {
		return s
	}
	if s.len+n <= s.cap {
		o := E.wobj(st, s.obj)
		copy(o.cells[s.off+s.len*es:], vals)
		s.len += n
		return s
	}
	nc := E.growCapC(int(gcSizes.Sizeof(et)), s.len, s.cap, n)
	cells := make([]Value, 0, nc*es)
	if s.len > 0 {
		cells = append(cells, E.obj(st, s.obj).cells[s.off:s.off+s.len*es]...)
	}
	cells = append(cells, vals...)
	if len(cells) < nc*es {
		z := E.zeroCells(et, nil)
		for len(cells) < nc*es {
			cells = append(cells, z...)
		}
	}
	id := E.alloc(st, &Obj{cells: cells, note: "append"})
	return Slice{id, 0, s.len + n, nc}
}

func (E *Engine) growCapC(es, oldLen, oldCap, add int) int {
	growMu.Lock()
	defer growMu.Unlock()
	k := growKey{es, oldCap, oldLen, add}
	if c, ok := growCache[k]; ok {
		return c
	}
	c := growCap(es, oldLen, oldCap, add)
	growCache[k] = c
	return c
}

func (E *Engine) sliceCells(st *State, v Value, et types.Type) []Value {
	switch x := v.(type) {
	case *Str:
		bs := E.strBytes(x)
		out := make([]Value, len(bs))
		for i, b := range bs {
			out[i] = b
		}
		return out
	case Slice:
		if x.len == 0 {
			return nil
		}
		es := E.lay.sizeof(et)
		o := E.obj(st, x.obj)
		return append([]Value(nil), o.cells[x.off:x.off+x.len*es]...)
	}
	unsup("slice cells of %T", v)
	return nil
}

func (E *Engine) builtin(st *State, b *ssa.Builtin, args []Value, c *ssa.CallCommon) []res {
	for _, a := range args {
		if pz, ok := a.(Poison); ok {
			unsup("poisoned value: %s", pz.msg)
		}
	}
	argT := func(i int) types.Type { return c.Args[i].Type() }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return one(st, E.c.Int(x.Len()))
		case Slice:
			return one(st, E.c.Int(x.len))
		case MapRef:
			return one(st, E.mapLen(st, x))
		case ChanRef:
			if x.obj == 0 {
				return one(st, E.c.Int(0))
			}
			return one(st, E.c.Int(len(E.obj(st, x.obj).ch.q)))
		case Ptr:
			return one(st, E.c.Int(int(argT(0).Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())))
		case Agg:
			return one(st, E.c.Int(int(argT(0).Underlying().(*types.Array).Len())))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return one(st, E.c.Int(x.cap))
		case ChanRef:
			return one(st, E.c.Int(E.obj(st, x.obj).ch.cap))
		case Agg:
			return one(st, E.c.Int(int(argT(0).Underlying().(*types.Array).Len())))
		}
	case "append":
		et := argT(0).Underlying().(*types.Slice).Elem()
		if E.lay.sizeof(et) == 0 {
			s := args[0].(Slice)
			n := args[1].(Slice).len
			if s.obj == 0 && n > 0 {
				s.obj = E.alloc(st, &Obj{cells: []Value{}})
			}
			s.len += n
			s.cap = max(s.cap, s.len)
			return one(st, s)
		}
		return one(st, E.appendVals(st, args[0].(Slice), et, E.sliceCells(st, args[1], et)))
	case "copy":
		d := args[0].(Slice)
		et := argT(0).Underlying().(*types.Slice).Elem()
		es := E.lay.sizeof(et)
		src := E.sliceCells(st, args[1], et)
		n := d.len * es
		if len(src) < n {
			n = len(src)
		}
		if n > 0 {
			o := E.wobj(st, d.obj)
			copy(o.cells[d.off:d.off+n], src[:n])
		}
		if es == 0 {
			return one(st, E.c.Int(0))
		}
		return one(st, E.c.Int(n/es))
	case "delete":
		E.mapDelete(st, args[0], args[1])
		return one(st, nil)
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x.obj != 0 {
				E.wobj(st, x.obj).m.ents = nil
			}
		case Slice:
			et := argT(0).Underlying().(*types.Slice).Elem()
			if x.len > 0 {
				z := E.zeroCells(types.NewArray(et, int64(x.len)), nil)
				copy(E.wobj(st, x.obj).cells[x.off:], z)
			}
		}
		return one(st, nil)
	case "recover":
		if st.panOn {
			v := st.pan
			st.panOn, st.pan = false, nil
			return one(st, v)
		}
		return one(st, Iface{})
	case "print", "println":
		return one(st, nil)
	case "close":
		ch := args[0].(ChanRef)
		E.wobj(st, ch.obj).ch.closed = true
		return one(st, nil)
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			switch y := x.(type) {
			case *Expr:
				_, sg := basicWidth(argT(0).Underlying().(*types.Basic))
				lt := E.c.ULt
				if sg {
					lt = E.c.SLt
				}
				z := r.(*Expr)
				if b.Name() == "min" {
					r = E.c.Ite(lt(y, z), y, z)
				} else {
					r = E.c.Ite(lt(z, y), y, z)
				}
			case Float:
				if b.Name() == "min" {
					r = Float{math.Min(r.(Float).f, y.f)}
				} else {
					r = Float{math.Max(r.(Float).f, y.f)}
				}
			default:
				unsup("min/max of %T", x)
			}
		}
		return one(st, r)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			return []res{E.rtPanic(st, "value method called using nil pointer")}
		}
		return one(st, args[0])
	case "String": // unsafe.String(ptr, len)
		n := args[1].(*Expr)
		if !n.isConst() {
			unsup("symbolic unsafe.String")
		}
		if n.k == 0 {
			return one(st, emptyStr)
		}
		p := args[0].(Ptr)
		return one(st, E.sliceToStr(st, Slice{p.obj, p.off, int(n.k), int(n.k)}))
	case "SliceData":
		s := args[0].(Slice)
		if s.obj == 0 {
			return one(st, Ptr{})
		}
		return one(st, Ptr{s.obj, s.off})
	case "StringData":
		s := args[0].(*Str)
		bs := E.strBytes(s)
		cells := make([]Value, len(bs))
		for i, x := range bs {
			cells[i] = x
		}
		return one(st, Ptr{obj: E.alloc(st, &Obj{cells: cells})})
	case "Slice":
		n := args[1].(*Expr)
		p := args[0].(Ptr)
		if !n.isConst() {
			unsup("symbolic unsafe.Slice")
		}
		if p.obj == 0 {
			return one(st, Slice{})
		}
		return one(st, Slice{p.obj, p.off, int(n.k), int(n.k)})
	case "real":
		return one(st, Float{real(args[0].(Complex).c)})
	case "imag":
		return one(st, Float{imag(args[0].(Complex).c)})
	}
	unsup("builtin %s", b.Name())
	return nil
}

var _ = fmt.Sprint
