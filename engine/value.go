package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of *Expr, *Str, Ptr, Slice, MapRef, ChanRef, Iface, *Closure,
// Agg (flat leaves of a struct or array), Tuple, Float, Poison, IterRef.
type Value interface{}

// Str is an immutable string of concrete length.
type Str struct {
	s   string
	sym []*Expr // nil if concrete
}

func (s *Str) Len() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

type Ptr struct{ obj, off int }
type Slice struct{ obj, off, len, cap int }
type MapRef struct{ obj int }
type ChanRef struct{ obj int }
type IterRef struct{ obj int }
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn      *ssa.Function
	bind    []Value
	builtin *ssa.Builtin
}
type Agg []Value
type Tuple []Value
type Float struct{ f float64 }
type Complex struct{ c complex128 }
type Poison struct{ msg string }

var nilClosure *Closure

type unsupported struct{ msg string }

func unsup(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

// ---- layout ----

type layoutCache struct {
	size map[types.Type]int
	offs map[types.Type][]int
}

func newLayout() *layoutCache {
	return &layoutCache{size: map[types.Type]int{}, offs: map[types.Type][]int{}}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (l *layoutCache) sizeof(t types.Type) int {
	if n, ok := l.size[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		offs := make([]int, u.NumFields())
		for i := range offs {
			offs[i] = n
			n += l.sizeof(u.Field(i).Type())
		}
		l.offs[t] = offs
	case *types.Array:
		n = int(u.Len()) * l.sizeof(u.Elem())
	case *types.Tuple:
		n = u.Len()
	}
	l.size[t] = n
	return n
}

func (l *layoutCache) fieldOff(t types.Type, i int) int {
	if o, ok := l.offs[t]; ok {
		return o[i]
	}
	l.sizeof(t)
	if o, ok := l.offs[t]; ok {
		return o[i]
	}
	// cached size from an equal type pointer cannot happen; recompute
	delete(l.size, t)
	l.sizeof(t)
	return l.offs[t][i]
}

func basicWidth(b *types.Basic) (uint8, bool) { // width, signed
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 255, false
}

func (E *Engine) zeroCells(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = E.zeroCells(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		n := int(u.Len())
		if n > 0 {
			start := len(out)
			out = E.zeroCells(u.Elem(), out)
			es := len(out) - start
			for i := 1; i < n; i++ {
				out = append(out, out[start:start+es]...)
			}
		}
		return out
	}
	return append(out, E.zero(t))
}

// zero returns the zero register value of t.
func (E *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return emptyStr
		case u.Info()&types.IsFloat != 0:
			return Float{0}
		case u.Info()&types.IsComplex != 0:
			return Complex{0}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		}
		w, _ := basicWidth(u)
		return E.c.Const(w, 0)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return nilClosure
	case *types.Struct, *types.Array:
		return Agg(E.zeroCells(t, nil))
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = E.zero(u.At(i).Type())
		}
		return tp
	}
	unsup("zero of %s", t)
	return nil
}

var emptyStr = &Str{}

func concStr(s string) *Str { return &Str{s: s} }

// mkStr builds a string from byte expressions.
func mkStr(bs []*Expr) *Str {
	for _, b := range bs {
		if b.op != OpConst {
			return &Str{sym: bs}
		}
	}
	raw := make([]byte, len(bs))
	for i, b := range bs {
		raw[i] = byte(b.k)
	}
	return &Str{s: string(raw)}
}

func (E *Engine) byteAt(s *Str, i int) *Expr {
	if s.sym != nil {
		return s.sym[i]
	}
	return E.c.Const(8, uint64(s.s[i]))
}

func (E *Engine) strBytes(s *Str) []*Expr {
	if s.sym != nil {
		return s.sym
	}
	out := make([]*Expr, len(s.s))
	for i := range out {
		out[i] = E.c.Const(8, uint64(s.s[i]))
	}
	return out
}

func substr(s *Str, lo, hi int) *Str {
	if s.sym != nil {
		return mkStr(s.sym[lo:hi:hi])
	}
	return &Str{s: s.s[lo:hi]}
}

func (E *Engine) strConcat(a, b *Str) *Str {
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	if a.sym == nil && b.sym == nil {
		return &Str{s: a.s + b.s}
	}
	out := make([]*Expr, 0, a.Len()+b.Len())
	out = append(out, E.strBytes(a)...)
	out = append(out, E.strBytes(b)...)
	return mkStr(out)
}

func (E *Engine) strEq(a, b *Str) *Expr {
	if a.Len() != b.Len() {
		return E.c.F
	}
	if a.sym == nil && b.sym == nil {
		return E.c.Bool(a.s == b.s)
	}
	n := a.Len()
	cs := make([]*Expr, 0, n)
	for i := 0; i < n; i++ {
		e := E.c.Eq(E.byteAt(a, i), E.byteAt(b, i))
		if e == E.c.F {
			return e
		}
		cs = append(cs, e)
	}
	return E.c.And(cs...)
}

func (E *Engine) strLt(a, b *Str) *Expr {
	if a.sym == nil && b.sym == nil {
		return E.c.Bool(a.s < b.s)
	}
	n := min(a.Len(), b.Len())
	r := E.c.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := E.byteAt(a, i), E.byteAt(b, i)
		r = E.c.Or(E.c.ULt(x, y), E.c.And(E.c.Eq(x, y), r))
	}
	return r
}

// ---- heap ----

type Obj struct {
	epoch int64
	cells []Value
	m     *MapObj
	it    *IterObj
	ch    *ChanObj
	note  string
}

type MapEntry struct {
	k, v    Value
	present *Expr
}
type MapObj struct {
	ents []MapEntry
}
type IterObj struct {
	m     int // map object
	keys  []Value
	used  []bool
	n     int
	str   *Str
	pos   int
	isStr bool
}
type ChanObj struct {
	q      []Value
	cap    int
	closed bool
}

func (o *Obj) clone(epoch int64) *Obj {
	n := &Obj{epoch: epoch, note: o.note}
	if o.cells != nil {
		n.cells = make([]Value, len(o.cells))
		copy(n.cells, o.cells)
	}
	if o.m != nil {
		m := &MapObj{ents: make([]MapEntry, len(o.m.ents))}
		copy(m.ents, o.m.ents)
		n.m = m
	}
	if o.it != nil {
		it := *o.it
		it.used = append([]bool(nil), it.used...)
		n.it = &it
	}
	if o.ch != nil {
		ch := *o.ch
		ch.q = append([]Value(nil), ch.q...)
		n.ch = &ch
	}
	return n
}

const hbits = 5
const hwidth = 1 << hbits

type hnode struct {
	epoch int64
	kids  [hwidth]*hnode
	objs  *[hwidth]*Obj
}

// Heap is a persistent vector of objects.
type Heap struct {
	root  *hnode
	shift uint
}

func (h *Heap) get(id int) *Obj {
	if id>>(h.shift+hbits) != 0 {
		return nil
	}
	n := h.root
	for s := h.shift; s > 0; s -= hbits {
		if n == nil {
			return nil
		}
		n = n.kids[(id>>s)&(hwidth-1)]
	}
	if n == nil || n.objs == nil {
		return nil
	}
	return n.objs[id&(hwidth-1)]
}

func (h *Heap) set(id int, o *Obj, epoch int64) {
	for id>>(h.shift+hbits) != 0 {
		r := &hnode{epoch: epoch}
		r.kids[0] = h.root
		h.root = r
		h.shift += hbits
	}
	own := func(n *hnode, leaf bool) *hnode {
		if n == nil {
			n = &hnode{epoch: epoch}
			if leaf {
				n.objs = new([hwidth]*Obj)
			}
			return n
		}
		if n.epoch == epoch {
			if leaf && n.objs == nil {
				n.objs = new([hwidth]*Obj)
			}
			return n
		}
		c := *n
		c.epoch = epoch
		if n.objs != nil {
			x := *n.objs
			c.objs = &x
		} else if leaf {
			c.objs = new([hwidth]*Obj)
		}
		return &c
	}
	h.root = own(h.root, h.shift == 0)
	n := h.root
	for s := h.shift; s > 0; s -= hbits {
		i := (id >> s) & (hwidth - 1)
		n.kids[i] = own(n.kids[i], s == hbits)
		n = n.kids[i]
	}
	n.objs[id&(hwidth-1)] = o
}

// diff calls f for each id < limit whose object differs.
func heapDiff(a, b *Heap, limit int, f func(id int)) {
	var walk func(x, y *hnode, s uint, base int)
	walk = func(x, y *hnode, s uint, base int) {
		if x == y || base >= limit {
			return
		}
		if s == 0 {
			for i := 0; i < hwidth; i++ {
				var p, q *Obj
				if x != nil && x.objs != nil {
					p = x.objs[i]
				}
				if y != nil && y.objs != nil {
					q = y.objs[i]
				}
				if p != q && base+i < limit {
					f(base + i)
				}
			}
			return
		}
		for i := 0; i < hwidth; i++ {
			var p, q *hnode
			if x != nil {
				p = x.kids[i]
			}
			if y != nil {
				q = y.kids[i]
			}
			walk(p, q, s-hbits, base+i<<s)
		}
	}
	ra, rb := *a, *b
	for ra.shift < rb.shift {
		r := &hnode{}
		r.kids[0] = ra.root
		ra.root, ra.shift = r, ra.shift+hbits
	}
	for rb.shift < ra.shift {
		r := &hnode{}
		r.kids[0] = rb.root
		rb.root, rb.shift = r, rb.shift+hbits
	}
	walk(ra.root, rb.root, ra.shift, 0)
}

// PC is a persistent list of path conjuncts.
type PC struct {
	cond   *Expr
	parent *PC
	depth  int
	next   int
}

// List is a persistent list of recorded events.
type List struct {
	v      interface{}
	parent *List
	n      int
}

// State is one symbolic machine state (without the frame).
type State struct {
	heap  Heap // ids >= 1
	over  Heap // overrides of base objects (ids negated)
	next  int
	epoch int64
	pc    *PC
	model *Model
	base  bool // initialisation mode: allocate in the engine's base heap
	// inputs drawn on this path, by name
	inputs *List
	obs    *List // observations
	goq    *List // pending goroutines (newest first)
	gor    int   // running goroutines, each started at a point inside of the one before
	locks  *List // held mutexes (schedule mode)
	pan    Value // value of the active panic (Iface), nil if none
	panOn  bool
	perm   int // map iteration mode
	nperm  int
	steps  int
}

func (E *Engine) newEpoch() int64 { E.epochs++; return E.epochs }

// fork returns a copy; both get fresh epochs.
func (E *Engine) fork(s *State) *State {
	if s.base {
		unsup("fork during initialisation")
	}
	n := *s
	s.epoch = E.newEpoch()
	n.epoch = E.newEpoch()
	E.Forks++
	return &n
}

func (E *Engine) alloc(s *State, o *Obj) int {
	if s.base {
		o.epoch = -1
		E.base = append(E.base, o)
		return -(len(E.base) - 1)
	}
	id := s.next
	s.next++
	o.epoch = s.epoch
	s.heap.set(id, o, s.epoch)
	return id
}

func (E *Engine) obj(s *State, id int) *Obj {
	if id > 0 {
		return s.heap.get(id)
	}
	if id == 0 {
		panic("nil object")
	}
	if !s.base {
		if o := s.over.get(-id); o != nil {
			return o
		}
	}
	return E.base[-id]
}

// wobj returns the object for in-place mutation.
func (E *Engine) wobj(s *State, id int) *Obj {
	if id > 0 {
		o := s.heap.get(id)
		if o.epoch != s.epoch {
			o = o.clone(s.epoch)
			s.heap.set(id, o, s.epoch)
		}
		return o
	}
	if s.base {
		return E.base[-id]
	}
	o := s.over.get(-id)
	if o == nil {
		o = E.base[-id].clone(s.epoch)
		s.over.set(-id, o, s.epoch)
	} else if o.epoch != s.epoch {
		o = o.clone(s.epoch)
		s.over.set(-id, o, s.epoch)
	}
	return o
}

func (E *Engine) load(s *State, p Ptr, t types.Type) Value {
	o := E.obj(s, p.obj)
	if !isAgg(t) {
		v := o.cells[p.off]
		if pz, ok := v.(Poison); ok {
			unsup("poisoned value: %s", pz.msg)
		}
		return v
	}
	n := E.lay.sizeof(t)
	if o == nil {
		unsup("load of %v from object %d, which is not there", t, p.obj)
	}
	if p.off+n > len(o.cells) {
		unsup("load of %v from an object of %d cells (%s)", t, len(o.cells), o.note)
	}
	out := make(Agg, n)
	copy(out, o.cells[p.off:p.off+n])
	return out
}

func (E *Engine) store(s *State, p Ptr, v Value) {
	o := E.wobj(s, p.obj)
	if a, ok := v.(Agg); ok {
		copy(o.cells[p.off:p.off+len(a)], a)
		return
	}
	o.cells[p.off] = v
}

// ---- debugging / concretisation under a model ----

func (E *Engine) concStr(s *Str, m *Model) string {
	if s.sym == nil {
		return s.s
	}
	b := make([]byte, len(s.sym))
	for i, e := range s.sym {
		b[i] = byte(m.Eval(e))
	}
	return string(b)
}

func (E *Engine) show(st *State, v Value, m *Model, d int) string {
	if d > 5 {
		return "..."
	}
	switch x := v.(type) {
	case *Expr:
		if x.op == OpConst || m == nil {
			return x.String()
		}
		return fmt.Sprint(m.Eval(x))
	case *Str:
		if m == nil {
			m = NewModel()
		}
		return fmt.Sprintf("%q", E.concStr(x, m))
	case Ptr:
		if x.obj == 0 {
			return "nil"
		}
		return fmt.Sprintf("&%d+%d", x.obj, x.off)
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", x.t, E.show(st, x.v, m, d+1))
	case Slice:
		if x.obj == 0 {
			return "[]nil"
		}
		return fmt.Sprintf("slice(%d+%d,%d,%d)", x.obj, x.off, x.len, x.cap)
	case Agg:
		var p []string
		for _, y := range x {
			p = append(p, E.show(st, y, m, d+1))
		}
		return "{" + strings.Join(p, ",") + "}"
	case Tuple:
		return E.show(st, Agg(x), m, d)
	}
	return fmt.Sprintf("%T%v", v, v)
}
