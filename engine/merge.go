package main

// State merging: two states that diverged on exclusive conditions are joined
// when their control position and shapes agree; scalars become ite terms.

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
)

type objPair struct{ a, b int }

type merger struct {
	E     *Engine
	cond  *Expr // selects A
	A, B  *State
	base  int
	fwd   map[int]int
	rev   map[int]int
	queue []objPair
	upd   map[int]*Obj // results by A id
	over  map[int]*Obj
	dry   bool // shapes only: no terms are built
	as    []*Expr
	bs    []*Expr
}

func (E *Engine) pcSplit(a, b *PC) (common *PC, as, bs []*Expr, an, bn int, ok bool) {
	x, y := a, b
	dep := func(p *PC) int {
		if p == nil {
			return 0
		}
		return p.depth
	}
	var xa, xb *PC
	for dep(x) > dep(y) {
		as = append(as, x.cond)
		xa = x
		x = x.parent
	}
	for dep(y) > dep(x) {
		bs = append(bs, y.cond)
		xb = y
		y = y.parent
	}
	for x != y {
		as = append(as, x.cond)
		bs = append(bs, y.cond)
		xa, xb = x, y
		x, y = x.parent, y.parent
	}
	if xa == nil || xb == nil {
		return nil, nil, nil, 0, 0, false
	}
	return x, as, bs, xa.next, xb.next, true
}

var mergeLim, _ = strconv.Atoi(os.Getenv("VP_MERGELIM"))

func dbgObj(o *Obj) string {
	if o == nil {
		return "nil"
	}
	if o.m != nil {
		s := "map"
		for _, e := range o.m.ents {
			k := fmt.Sprint(e.k)
			if x, ok := e.k.(*Str); ok {
				k = fmt.Sprintf("%q%v", x.s, x.sym)
			}
			s += fmt.Sprintf("\n\t%s: %v present %v", k, e.v, e.present)
		}
		return s
	}
	if o.it != nil {
		return fmt.Sprintf("iter%v", *o.it)
	}
	return fmt.Sprintf("%v", o.cells)
}

func (m *merger) bOf(a int) int {
	if b, ok := m.fwd[a]; ok {
		return b
	}
	return a
}

var verifyMerges = os.Getenv("VP_VERIFY") != ""

var noMerge = os.Getenv("VP_NOMERGE") != ""

// newMerger prepares joining a and b, or returns nil.
func (E *Engine) newMerger(a, b *State) (*merger, *PC) {
	if noMerge || E.cfg.NoMerge || (mergeLim > 0 && int(E.Merges) >= mergeLim) || a.panOn != b.panOn || a.perm != b.perm || a.goq != b.goq || a.gor != b.gor || a.locks != b.locks || a.base || b.base {
		return nil, nil
	}
	common, as, bs, an, bn, ok := E.pcSplit(a.pc, b.pc)
	if !ok {
		return nil, nil
	}
	m := &merger{E: E, dry: true, A: a, B: b, base: min(an, bn), as: as, bs: bs}
	m.reset()
	return m, common
}

func (m *merger) reset() {
	m.fwd, m.rev, m.queue = map[int]int{}, map[int]int{}, m.queue[:0]
	m.upd, m.over = map[int]*Obj{}, map[int]*Obj{}
}

// wet leaves the shape-only mode: the discriminator and the joined path
// condition are built.
func (m *merger) wet() *Expr {
	E := m.E
	ca, cb := E.c.And(m.as...), E.c.And(m.bs...)
	cond := ca
	// a simple discriminator, if there is one
	for i := len(m.as) - 1; i >= 0; i-- {
		n := E.c.Not(m.as[i])
		found := false
		for _, y := range m.bs {
			if y == n {
				found = true
				break
			}
		}
		if found {
			cond = m.as[i]
			break
		}
	}
	m.cond = cond
	m.dry = false
	m.reset()
	return E.c.Or(ca, cb)
}

func (m *merger) refs(a, b int) bool {
	if a == b && a < m.base {
		return true // shared object (or base heap or nil)
	}
	if a < m.base || b < m.base {
		return false
	}
	if x, ok := m.fwd[a]; ok {
		return x == b
	}
	if _, ok := m.rev[b]; ok {
		return false
	}
	m.fwd[a], m.rev[b] = b, a
	m.queue = append(m.queue, objPair{a, b})
	return true
}

func (m *merger) val(a, b Value) (Value, bool) {
	switch x := a.(type) {
	case nil:
		return nil, b == nil
	case *Expr:
		y, ok := b.(*Expr)
		if !ok {
			return nil, false
		}
		if x == y {
			return a, true
		}
		if x.w != y.w {
			return nil, false
		}
		if m.dry {
			return a, true
		}
		return m.E.c.Ite(m.cond, x, y), true
	case *Str:
		y, ok := b.(*Str)
		if !ok || x.Len() != y.Len() {
			return nil, false
		}
		if x == y || (x.sym == nil && y.sym == nil && x.s == y.s) {
			return a, true
		}
		if m.E.cfg.NoStrMerge && (x.sym == nil || y.sym == nil) {
			return nil, false
		}
		if m.dry {
			return a, true
		}
		n := x.Len()
		out := make([]*Expr, n)
		for i := 0; i < n; i++ {
			out[i] = m.E.c.Ite(m.cond, m.E.byteAt(x, i), m.E.byteAt(y, i))
		}
		return mkStr(out), true
	case Ptr:
		y, ok := b.(Ptr)
		return a, ok && x.off == y.off && m.refs(x.obj, y.obj)
	case SymPtr:
		y, ok := b.(SymPtr)
		if !ok || x.off != y.off || x.es != y.es || x.n != y.n || !m.refs(x.obj, y.obj) {
			return nil, false
		}
		if m.dry {
			return a, true
		}
		x.idx = m.E.c.Ite(m.cond, x.idx, y.idx)
		return x, true
	case Slice:
		y, ok := b.(Slice)
		if !ok || x.len != y.len || (x.obj == 0) != (y.obj == 0) {
			return nil, false
		}
		if x.off != y.off || !m.refs(x.obj, y.obj) {
			return nil, false
		}
		if x.cap != y.cap {
			x.cap = min(x.cap, y.cap) // capacity is not observable beyond reallocation
			if x.cap < x.len {
				return nil, false
			}
		}
		return x, true
	case MapRef:
		y, ok := b.(MapRef)
		return a, ok && m.refs(x.obj, y.obj)
	case ChanRef:
		y, ok := b.(ChanRef)
		return a, ok && m.refs(x.obj, y.obj)
	case IterRef:
		y, ok := b.(IterRef)
		return a, ok && m.refs(x.obj, y.obj)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil || y.t == nil {
			return a, x.t == nil && y.t == nil
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := m.val(x.v, y.v)
		return Iface{x.t, v}, ok
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return nil, false
		}
		if x == y {
			return a, m.closureRefs(x)
		}
		if x == nil || y == nil || x.fn != y.fn || x.builtin != y.builtin || len(x.bind) != len(y.bind) {
			return nil, false
		}
		bind := make([]Value, len(x.bind))
		for i := range bind {
			if bind[i], ok = m.val(x.bind[i], y.bind[i]); !ok {
				return nil, false
			}
		}
		return &Closure{fn: x.fn, bind: bind, builtin: x.builtin}, true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		return m.vals(x, y)
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r, ok := m.vals(Agg(x), Agg(y))
		if !ok {
			return nil, false
		}
		return Tuple(r.(Agg)), true
	case Float:
		return a, a == b
	case Complex:
		return a, a == b
	case Poison:
		_, ok := b.(Poison)
		return a, ok
	}
	return nil, false
}

func (m *merger) closureRefs(x *Closure) bool {
	if x == nil {
		return true
	}
	for _, b := range x.bind {
		if _, ok := m.val(b, b); !ok {
			return false
		}
	}
	return true
}

func (m *merger) vals(x, y Agg) (Value, bool) {
	var out Agg
	for i := range x {
		v, ok := m.val(x[i], y[i])
		if !ok {
			return nil, false
		}
		if out != nil {
			out[i] = v
		} else if !sameVal(v, x[i]) {
			out = make(Agg, len(x))
			copy(out, x[:i])
			out[i] = v
		}
	}
	if out == nil {
		return x, true
	}
	return out, true
}

// sameVal is a shallow identity test that never panics.
func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Expr:
		y, ok := b.(*Expr)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case MapRef:
		y, ok := b.(MapRef)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && (x.t == nil || sameVal(x.v, y.v))
	}
	return false
}

func noRefs(v Value) bool {
	switch x := v.(type) {
	case *Expr, *Str, Float, Complex, nil:
		return true
	case Agg:
		for _, y := range x {
			if !noRefs(y) {
				return false
			}
		}
		return true
	case Iface:
		return x.t == nil || noRefs(x.v)
	case Slice:
		return x.obj == 0
	case Ptr:
		return x.obj == 0
	}
	return false
}

// sharedRefs reports that v only refers to objects both sides share.
func (m *merger) sharedRefs(v Value) bool {
	switch x := v.(type) {
	case Ptr:
		return x.obj < m.base
	case Slice:
		return x.obj < m.base
	case MapRef:
		return x.obj < m.base
	case Agg:
		for _, y := range x {
			if !m.sharedRefs(y) {
				return false
			}
		}
		return true
	case Iface:
		return x.t == nil || m.sharedRefs(x.v)
	}
	return noRefs(v)
}

func (m *merger) obj(a, b *Obj) (*Obj, bool) {
	if (a.m == nil) != (b.m == nil) || (a.it == nil) != (b.it == nil) || (a.ch == nil) != (b.ch == nil) || len(a.cells) != len(b.cells) {
		return nil, false
	}
	E := m.E
	if a.cells != nil {
		v, ok := m.vals(Agg(a.cells), Agg(b.cells))
		if !ok {
			return nil, false
		}
		out := v.(Agg)
		if len(out) == 0 || &out[0] == &a.cells[0] {
			return a, true
		}
		return &Obj{cells: out, note: a.note}, true
	}
	if a.m != nil {
		if a == b {
			for _, e := range a.m.ents {
				if _, ok := m.val(e.k, e.k); !ok {
					return nil, false
				}
				if _, ok := m.val(e.v, e.v); !ok {
					return nil, false
				}
			}
			return a, true
		}
		and := func(p, q *Expr) *Expr {
			if m.dry {
				return p
			}
			return E.c.And(p, q)
		}
		usedB := make([]bool, len(b.m.ents))
		var ents []MapEntry
		for _, ea := range a.m.ents {
			j := -1
			for k, eb := range b.m.ents {
				if !usedB[k] && m.sameKey(ea.k, eb.k) {
					j = k
					break
				}
			}
			if j < 0 {
				if !m.sharedRefs(ea.k) || !m.sharedRefs(ea.v) {
					return nil, false
				}
				ents = append(ents, MapEntry{ea.k, ea.v, and(ea.present, m.cond)})
				continue
			}
			usedB[j] = true
			eb := b.m.ents[j]
			v, ok := m.val(ea.v, eb.v)
			if !ok {
				// values of different shape: fine when one is absent
				if ea.present == E.c.F && m.sharedRefs(eb.v) {
					v = eb.v
				} else if eb.present == E.c.F {
					v = ea.v
				} else {
					return nil, false
				}
			}
			pr := ea.present
			if !m.dry {
				pr = E.c.Ite(m.cond, ea.present, eb.present)
			}
			ents = append(ents, MapEntry{ea.k, v, pr})
		}
		for k, eb := range b.m.ents {
			if usedB[k] {
				continue
			}
			if !m.sharedRefs(eb.k) || !m.sharedRefs(eb.v) {
				return nil, false
			}
			if m.dry {
				continue
			}
			ents = append(ents, MapEntry{eb.k, eb.v, E.c.And(E.c.Not(m.cond), eb.present)})
		}
		return &Obj{m: &MapObj{ents: ents}, note: a.note}, true
	}
	if a.it != nil {
		x, y := a.it, b.it
		if x.isStr != y.isStr || x.pos != y.pos || len(x.keys) != len(y.keys) || x.n != y.n {
			return nil, false
		}
		it := *x
		it.used = append([]bool(nil), x.used...)
		if x.isStr {
			v, ok := m.val(x.str, y.str)
			if !ok {
				return nil, false
			}
			it.str = v.(*Str)
			return &Obj{it: &it}, true
		}
		if !m.refs(x.m, y.m) {
			return nil, false
		}
		for i := range x.used {
			if x.used[i] != y.used[i] {
				return nil, false
			}
		}
		it.keys = make([]Value, len(x.keys))
		for i := range x.keys {
			// the key identifies the entry, so it must be the same
			if !m.sameKey(x.keys[i], y.keys[i]) {
				return nil, false
			}
			it.keys[i] = x.keys[i]
		}
		return &Obj{it: &it}, true
	}
	if a.ch != nil {
		x, y := a.ch, b.ch
		if x.closed != y.closed || x.cap != y.cap || len(x.q) != len(y.q) {
			return nil, false
		}
		ch := *x
		ch.q = make([]Value, len(x.q))
		for i := range x.q {
			v, ok := m.val(x.q[i], y.q[i])
			if !ok {
				return nil, false
			}
			ch.q[i] = v
		}
		return &Obj{ch: &ch}, true
	}
	return a, true
}

// sameKey: provably equal keys without new references.
func (m *merger) sameKey(a, b Value) bool {
	switch x := a.(type) {
	case *Expr:
		y, ok := b.(*Expr)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		return ok && m.E.strEq(x, y) == m.E.c.T
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || x.off != y.off {
			return false
		}
		if x.obj == y.obj && x.obj < m.base {
			return true
		}
		// already identified objects only
		f, ok := m.fwd[x.obj]
		return ok && f == y.obj
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !m.sameKey(x[i], y[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		return x.t == nil || (types.Identical(x.t, y.t) && m.sameKey(x.v, y.v))
	}
	return false
}

// heaps unifies the heaps.
func (m *merger) heaps() bool {
	E := m.E
	ok := true
	a, b := m.A, m.B
	heapDiff(&a.heap, &b.heap, m.base, func(id int) {
		if !ok {
			return
		}
		oa, ob := a.heap.get(id), b.heap.get(id)
		if oa == nil || ob == nil {
			ok = false
			return
		}
		r, k := m.obj(oa, ob)
		if !k {
			ok = false
			if E.cfg.TraceMerge {
				E.logf("merge fail: shared object %d (%s)", id, oa.note)
			}
			return
		}
		m.upd[id] = r
	})
	if !ok {
		return false
	}
	heapDiff(&a.over, &b.over, int(^uint(0)>>1), func(id int) {
		if !ok {
			return
		}
		oa, ob := a.over.get(id), b.over.get(id)
		if oa == nil {
			oa = E.base[id]
		}
		if ob == nil {
			ob = E.base[id]
		}
		r, k := m.obj(oa, ob)
		if !k {
			ok = false
			if E.cfg.TraceMerge {
				E.logf("merge fail: global object %d (%s)", id, oa.note)
			}
			return
		}
		m.over[id] = r
	})
	if !ok {
		return false
	}
	for len(m.queue) > 0 {
		p := m.queue[len(m.queue)-1]
		m.queue = m.queue[:len(m.queue)-1]
		oa, ob := a.heap.get(p.a), b.heap.get(p.b)
		r, k := m.obj(oa, ob)
		if !k {
			if E.cfg.TraceMerge {
				E.logf("merge fail: object %d/%d (%s)", p.a, p.b, oa.note)
			}
			return false
		}
		if r != oa {
			m.upd[p.a] = r
		}
	}
	return true
}

// finish unifies the heaps and builds the merged state.
func (m *merger) finish(common *PC, or *Expr) *State {
	E := m.E
	a, b := m.A, m.B
	if !m.heaps() {
		return nil
	}
	obs, k := m.obsList(a.obs, b.obs)
	if !k {
		return nil
	}
	n := *a
	n.obs = obs
	n.epoch = E.newEpoch()
	a.epoch = E.newEpoch()
	n.next = max(a.next, b.next)
	for id, o := range m.upd {
		// copied even if unchanged: it may refer to objects made since the
		// two sides parted, so it must not pass for one both share
		c := *o
		if c.epoch = n.epoch; o == a.heap.get(id) {
			c.epoch = 0 // its contents are shared
		}
		n.heap.set(id, &c, n.epoch)
	}
	for id, o := range m.over {
		c := *o
		if c.epoch = n.epoch; o == a.over.get(id) || o == E.base[id] {
			c.epoch = 0
		}
		n.over.set(id, &c, n.epoch)
	}
	n.pc = common
	n.steps = max(a.steps, b.steps)
	n.nperm = max(a.nperm, b.nperm)
	if b.inputs != nil && (a.inputs == nil || b.inputs.n > a.inputs.n) {
		n.inputs = b.inputs
	}
	// objects from base on are not shared with states that left before
	next := n.next
	n.next = m.base
	E.pushPC(&n, or)
	n.next = next
	E.Merges++
	if verifyMerges {
		for id := range m.upd {
			E.verifyHeap(a, "A", Ptr{obj: id})
			E.verifyHeap(b, "B", Ptr{obj: m.bOf(id)})
			E.verifyHeap(&n, fmt.Sprintf("finish %d base %d A.next %d B.next %d id %d->%d in %s", E.Merges, m.base, a.next, b.next, id, m.bOf(id), E.curFn[len(E.curFn)-1]), Ptr{obj: id})
		}
	}
	if mergeLim > 0 && int(E.Merges) == mergeLim {
		E.logf("merge %d: in %v cond %s or %s", E.Merges, E.curFn[len(E.curFn)-1], m.cond, or)
		for _, st := range []*State{a, b} {
			for p := st.pc; p != common; p = p.parent {
				E.logf("  pc next=%d %s", p.next, p.cond)
			}
			E.logf("  --- base %d", m.base)
		}
		for id, o := range m.upd {
			E.logf("  upd %d: %s A %s | B %s -> %s", id, o.note, dbgObj(a.heap.get(id)), dbgObj(b.heap.get(m.bOf(id))), dbgObj(o))
		}
	}
	return &n
}

type obsRec struct {
	label string
	v     Value
}

func (m *merger) obsList(a, b *List) (*List, bool) {
	if a == b {
		return a, true
	}
	if a == nil || b == nil || a.n != b.n {
		return nil, false
	}
	p, ok := m.obsList(a.parent, b.parent)
	if !ok {
		return nil, false
	}
	x, y := a.v.(obsRec), b.v.(obsRec)
	if x.label != y.label {
		return nil, false
	}
	v, ok := m.val(x.v, y.v)
	if !ok || !noRefs(v) {
		return nil, false
	}
	return &List{v: obsRec{x.label, v}, parent: p, n: a.n}, true
}

// verifyHeap checks that everything reachable from the merged objects exists (debugging).
func (E *Engine) verifyHeap(st *State, what string, roots ...Value) {
	seen := map[int]bool{}
	var val func(v Value, path string)
	ref := func(id int, path string) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		o := E.obj(st, id)
		if o == nil {
			panic(fmt.Sprintf("dangling %d (next %d) after %s: %s", id, st.next, what, path))
		}
		p := path + "/" + strconv.Itoa(id) + o.note
		for _, c := range o.cells {
			val(c, p)
		}
		if o.m != nil {
			for _, e := range o.m.ents {
				val(e.k, p)
				val(e.v, p)
			}
		}
	}
	val = func(v Value, path string) {
		switch x := v.(type) {
		case Ptr:
			ref(x.obj, path)
		case Slice:
			ref(x.obj, path)
		case MapRef:
			ref(x.obj, path)
		case Iface:
			val(x.v, path)
		case Agg:
			for _, y := range x {
				val(y, path)
			}
		case Tuple:
			for _, y := range x {
				val(y, path)
			}
		case *Closure:
			if x != nil {
				for _, y := range x.bind {
					val(y, path)
				}
			}
		}
	}
	for _, r := range roots {
		val(r, "root")
	}
}
