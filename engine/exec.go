package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// SymPtr points at element idx of an array starting at off (stride es, n elements).
type SymPtr struct {
	obj, off, es, n int
	sub             int // offset inside the element
	idx             *Expr
}

type deferRec struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type item struct {
	st     *State
	regs   []Value
	blk    *ssa.BasicBlock
	pc     int
	iters  []int32
	defers []deferRec
	pre    ssa.Instruction // where other goroutines have just run
}

func (it *item) clone(st *State) *item {
	n := *it
	n.st = st
	n.regs = append([]Value(nil), it.regs...)
	n.iters = append([]int32(nil), it.iters...)
	n.defers = append([]deferRec(nil), it.defers...)
	return &n
}

// res is one outcome of an operation.
type res struct {
	st  *State
	v   Value
	pan bool
}

type activation struct {
	E    *Engine
	in   *fnInfo
	pend []*item
	outs []res
}

func (E *Engine) rtPanic(st *State, msg string) res {
	if os.Getenv("VP_PANIC") != "" {
		where := ""
		for i := len(E.curFn) - 1; i >= 0 && i > len(E.curFn)-8; i-- {
			where += " < " + E.curFn[i].String()
		}
		fmt.Fprintln(os.Stderr, msg, where)
	}
	return res{st: st, v: Iface{E.rtErr, concStr("runtime error: " + msg)}, pan: true}
}

func one(st *State, v Value) []res { return []res{{st: st, v: v}} }

func (E *Engine) exec(fn *ssa.Function, st *State, args, bind []Value) []res {
	in := infoOf(fn)
	E.depth++
	if E.depth > 2000 {
		E.depth--
		unsup("call depth exceeded in %s", fn)
	}
	E.curFn = append(E.curFn, fn)
	d0 := E.depth
	n0 := len(E.curFn)
	ok := false
	defer func() {
		if ok {
			E.depth = d0 - 1
			E.curFn = E.curFn[:n0-1]
		}
	}()
	E.funcsUsed[fn]++
	a := &activation{E: E, in: in}
	it := &item{st: st, regs: make([]Value, in.nslots), blk: fn.Blocks[0], iters: make([]int32, len(in.nest[0]))}
	for i, p := range fn.Params {
		it.regs[in.slot[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		it.regs[in.slot[p]] = bind[i]
	}
	a.pend = append(a.pend, it)
	for len(a.pend) > 0 {
		// the earliest control position first
		mi := 0
		if E.cfg.NoMerge {
			// nothing to meet: any order will do
			mi = len(a.pend) - 1
		}
		for i := 1; i < len(a.pend) && !E.cfg.NoMerge; i++ {
			if a.before(a.pend[i], a.pend[mi]) {
				mi = i
			}
		}
		x := a.pend[mi]
		a.pend[mi] = a.pend[len(a.pend)-1]
		a.pend = a.pend[:len(a.pend)-1]
		a.run(x)
		E.depth = d0
		E.curFn = E.curFn[:n0]
	}
	ok = true
	return a.outs
}

// before compares control positions.
func (a *activation) before(x, y *item) bool {
	if x.blk == y.blk {
		for i := range x.iters {
			if x.iters[i] != y.iters[i] {
				return x.iters[i] < y.iters[i]
			}
		}
		return false
	}
	nx, ny := a.in.nest[x.blk.Index], a.in.nest[y.blk.Index]
	for i := 0; ; i++ {
		px, py := a.in.pos[x.blk.Index], a.in.pos[y.blk.Index]
		if i < len(nx) {
			px = a.in.pos[nx[i]]
		}
		if i < len(ny) {
			py = a.in.pos[ny[i]]
		}
		if px != py {
			return px < py
		}
		if i >= len(nx) || i >= len(ny) {
			return false
		}
		if x.iters[i] != y.iters[i] {
			return x.iters[i] < y.iters[i]
		}
	}
}

func (a *activation) jump(it *item, to *ssa.BasicBlock) {
	in := a.in
	from := it.blk
	// phis
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	n := 0
	var vals []Value
	for _, i := range to.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, a.get(it, ph.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		it.regs[in.slot[to.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	// iteration vector
	nf, nt := in.nest[from.Index], in.nest[to.Index]
	iters := make([]int32, len(nt))
	for i := range nt {
		if i >= len(nf) || nf[i] != nt[i] {
			break
		}
		iters[i] = it.iters[i]
		if nt[i] == to.Index {
			iters[i]++
			break
		}
	}
	it.iters = iters
	it.blk = to
	it.pc = n
	a.enqueue(it)
}

func (a *activation) enqueue(it *item) {
	if a.E.cfg.NoMerge {
		a.pend = append(a.pend, it)
		return
	}
	tried := 0
	for i := len(a.pend) - 1; i >= 0 && tried < mergeTries; i-- {
		p := a.pend[i]
		if p.blk != it.blk || !sameIters(p.iters, it.iters) || p.pc != it.pc {
			continue
		}
		if m := a.merge(p, it); m != nil {
			a.pend[i] = m
			return
		}
		tried++
		a.E.MergeFails++
	}
	a.pend = append(a.pend, it)
}

func sameIters(a, b []int32) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (a *activation) merge(x, y *item) *item {
	E := a.E
	if len(x.defers) != len(y.defers) {
		return nil
	}
	m, common := E.newMerger(x.st, y.st)
	if m == nil {
		return nil
	}
	live := a.in.live[x.blk.Index]
	regs := make([]Value, len(x.regs))
	var defers []deferRec
	shape := func() bool {
		for i := range regs {
			if !live.has(i) {
				continue
			}
			v, ok := m.val(x.regs[i], y.regs[i])
			if !ok {
				if E.cfg.TraceMerge {
					E.logf("merge fail in %s block %d: register %d %s / %s", a.in.name, x.blk.Index, i, E.show(x.st, x.regs[i], nil, 0), E.show(y.st, y.regs[i], nil, 0))
				}
				return false
			}
			regs[i] = v
		}
		defers = nil
		for i := range x.defers {
			p, q := x.defers[i], y.defers[i]
			if p.call != q.call {
				return false
			}
			f, ok := m.val(p.fn, q.fn)
			if !ok {
				return false
			}
			as, ok := m.vals(Agg(p.args), Agg(q.args))
			if !ok {
				return false
			}
			defers = append(defers, deferRec{f, as.(Agg), p.call})
		}
		return true
	}
	if !shape() || !m.heaps() {
		return nil
	}
	or := m.wet()
	if !shape() {
		return nil
	}
	st := m.finish(common, or)
	if st == nil {
		return nil
	}
	if verifyMerges {
		E.verifyHeap(x.st, "A", x.regs...)
		E.verifyHeap(y.st, "B", y.regs...)
		E.verifyHeap(st, fmt.Sprintf("merge %d in %s base %d A.next %d B.next %d", E.Merges, a.in.name, m.base, x.st.next, y.st.next), regs...)
	}
	return &item{st: st, regs: regs, blk: x.blk, pc: x.pc, iters: x.iters, defers: defers}
}

// mergeTries bounds how many pending states a new state is compared with
// (joining states is an optimisation, so giving up early is always sound).
const mergeTries = 24

// addOut merges a return outcome into outs.
func (E *Engine) addOut(outs []res, r res) []res {
	if !r.pan && !E.cfg.NoMerge {
		tried := 0
		for i := len(outs) - 1; i >= 0 && tried < mergeTries; i-- {
			o := outs[i]
			if o.pan {
				continue
			}
			tried++
			m, common := E.newMerger(o.st, r.st)
			if m == nil {
				continue
			}
			v, ok := m.val(o.v, r.v)
			if ok && m.heaps() {
				or := m.wet()
				v, _ = m.val(o.v, r.v)
				if st := m.finish(common, or); st != nil {
					outs[i] = res{st: st, v: v}
					return outs
				}
				ok = true
			} else {
				ok = false
			}
			if !ok {
				E.MergeFails++
				if E.cfg.TraceMerge {
					E.logf("merge fail at return: %s / %s", E.show(o.st, o.v, nil, 0), E.show(r.st, r.v, nil, 0))
				}
				continue
			}
			E.MergeFails++
		}
	}
	return append(outs, r)
}

func (a *activation) get(it *item, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return a.E.constVal(x)
	case *ssa.Global:
		return a.E.globalPtr(it.st, x)
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return &Closure{builtin: x}
	}
	return it.regs[a.in.slot[v]]
}

// run executes an item to the end of its block.
func (a *activation) run(it *item) {
	a.E.States++
	work := []*item{it}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		work = append(work, a.safeRun(x)...)
	}
}

func (a *activation) safeRun(it *item) (more []*item) {
	E := a.E
	d0, n0 := E.depth, len(E.curFn)
	if !it.st.base {
		defer func() {
			if r := recover(); r != nil {
				u, ok := r.(unsupported)
				if !ok {
					panic(r)
				}
				where := ""
				if len(E.curFn) > 0 {
					where = " in " + E.curFn[len(E.curFn)-1].String()
				}
				E.Incomplete[u.msg+where]++
				E.depth, E.curFn = d0, E.curFn[:n0]
				more = nil
			}
		}()
	}
	return a.runItem(it)
}

// runItem executes until the block ends; returned items continue in the same block.
func (a *activation) runItem(it *item) []*item {
	E := a.E
	in := a.in
	for {
		instr := it.blk.Instrs[it.pc]
		E.Instrs++
		if E.Instrs&0xfff == 0 {
			if atomic.LoadInt32(&memStop) != 0 {
				panic(budget{"memory budget exhausted"})
			}
			if E.cfg.MaxInstr > 0 && E.Instrs > E.cfg.MaxInstr {
				panic(budget{"instruction budget exhausted"})
			}
			if !E.cfg.Deadline.IsZero() && time.Now().After(E.cfg.Deadline) {
				panic(budget{"time budget exhausted"})
			}
		}
		var rs []res
		var dst ssa.Value
		switch i := instr.(type) {
		case *ssa.DebugRef:
			it.pc++
			continue
		case *ssa.Jump:
			a.jump(it, it.blk.Succs[0])
			return nil
		case *ssa.If:
			c := a.get(it, i.Cond).(*Expr)
			t, f := E.split(it.st, c)
			switch {
			case f == nil:
				a.jump(it, it.blk.Succs[0])
			case t == nil:
				a.jump(it, it.blk.Succs[1])
			default:
				o := it.clone(f)
				it.st = t
				a.jump(it, it.blk.Succs[0])
				a.jump(o, it2succ(o, 1))
			}
			return nil
		case *ssa.Return:
			var v Value
			switch len(i.Results) {
			case 0:
			case 1:
				v = a.get(it, i.Results[0])
			default:
				tp := make(Tuple, len(i.Results))
				for k, r := range i.Results {
					tp[k] = a.get(it, r)
				}
				v = tp
			}
			a.outs = E.addOut(a.outs, res{st: it.st, v: v})
			return nil
		case *ssa.Panic:
			v := a.get(it, i.X)
			a.raise(it, v)
			return nil
		case *ssa.RunDefers:
			oOn, oPan := it.st.panOn, it.st.pan
			it.st.panOn, it.st.pan = false, nil
			its := a.runDefers(it)
			var cont []*item
			for _, x := range its {
				if x.st.panOn { // a deferred call panicked
					v := x.st.pan
					x.st.panOn, x.st.pan = oOn, oPan
					a.raise(x, v)
					continue
				}
				x.st.panOn, x.st.pan = oOn, oPan
				x.pc++
				cont = append(cont, x)
			}
			return cont
		case *ssa.Store:
			if it.st.perm == 1 && it.st.gor > 0 && it.st.goq != nil && it.pre != instr {
				if _, ok := i.Addr.(*ssa.FreeVar); ok {
					it.pre = instr
					return a.preempt(it)
				}
			}
			it.pre = nil
			p := a.get(it, i.Addr)
			rs = E.storeTo(it.st, p, a.get(it, i.Val))
		case *ssa.MapUpdate:
			rs = E.mapUpdate(it.st, a.get(it, i.Map), a.get(it, i.Key), a.get(it, i.Value))
		case *ssa.Send:
			ch := a.get(it, i.Chan).(ChanRef)
			rs = E.chanSend(it.st, ch, a.get(it, i.X))
		case *ssa.Go:
			fn, args := a.callTarget(it, &i.Call)
			n := 1
			if it.st.goq != nil {
				n = it.st.goq.n + 1
			}
			it.st.goq = &List{v: deferRec{fn, args, &i.Call}, parent: it.st.goq, n: n}
			it.pc++
			continue
		case *ssa.Defer:
			fn, args := a.callTarget(it, &i.Call)
			it.defers = append(it.defers, deferRec{fn, args, &i.Call})
			it.pc++
			continue
		case *ssa.Call:
			dst = i
			fn, args, pr := a.callTargetP(it, &i.Call)
			if pr != nil {
				rs = []res{*pr}
			} else if it.st.base {
				rs = a.initCall(it, i, fn, args)
			} else {
				rs = E.callValue(it.st, fn, args, &i.Call)
			}
		case ssa.Value:
			dst = i
			rs = a.value(it, i)
		default:
			unsup("instruction %T", instr)
		}
		if verifyMerges {
			for k, r := range rs {
				if !r.pan {
					E.verifyHeap(r.st, fmt.Sprintf("%s in %s result %d of %d", instr, a.in.name, k, len(rs)), r.v)
				}
			}
		}
		// distribute the outcomes
		if len(rs) == 1 && !rs[0].pan {
			it.st = rs[0].st
			if dst != nil {
				it.regs[in.slot[dst]] = rs[0].v
			}
			it.pc++
			continue
		}
		if len(rs) == 0 {
			return nil
		}
		var cont []*item
		for k, r := range rs {
			x := it
			if k < len(rs)-1 {
				x = it.clone(r.st)
			}
			x.st = r.st
			if r.pan {
				a.raise(x, r.v)
				continue
			}
			if dst != nil {
				x.regs[in.slot[dst]] = r.v
			}
			x.pc++
			cont = append(cont, x)
		}
		return cont
	}
}

func it2succ(it *item, k int) *ssa.BasicBlock { return it.blk.Succs[k] }

// isPkgInit tells a package initialiser from a method of that name.
func isPkgInit(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && fn.Signature.Recv() == nil
}

// initCall tolerates unsupported calls in package initialisers: the result is poisoned.
func (a *activation) initCall(it *item, i *ssa.Call, fn Value, args []Value) (rs []res) {
	E := a.E
	if !isPkgInit(a.in.fn) {
		return E.callValue(it.st, fn, args, &i.Call)
	}
	d0, n0 := E.depth, len(E.curFn)
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			E.depth, E.curFn = d0, E.curFn[:n0]
			E.initWarn[a.in.fn.Pkg.Pkg.Path()+": "+u.msg] = true
			var v Value = Poison{u.msg}
			if tp, ok := i.Type().(*types.Tuple); ok {
				t := make(Tuple, tp.Len())
				for k := range t {
					t[k] = Poison{u.msg}
				}
				v = t
			} else if isAgg(i.Type()) {
				n := E.lay.sizeof(i.Type())
				g := make(Agg, n)
				for k := range g {
					g[k] = Poison{u.msg}
				}
				v = g
			}
			rs = one(it.st, v)
		}
	}()
	if c, ok := fn.(*Closure); ok && c.fn != nil {
		if isPkgInit(c.fn) && c.fn != a.in.fn {
			return one(it.st, nil) // imported packages initialise on demand
		}
	}
	rs = E.callValue(it.st, fn, args, &i.Call)
	if len(rs) != 1 || rs[0].pan {
		unsup("call in initialiser has no single outcome")
	}
	return rs
}

// raise unwinds it with the panic value v.
func (a *activation) raise(it *item, v Value) {
	E := a.E
	oOn, oPan := it.st.panOn, it.st.pan
	it.st.panOn, it.st.pan = true, v
	for _, x := range a.runDefers(it) {
		if x.st.panOn {
			pv := x.st.pan
			x.st.panOn, x.st.pan = oOn, oPan
			a.outs = E.addOut(a.outs, res{st: x.st, v: pv, pan: true})
			continue
		}
		x.st.panOn, x.st.pan = oOn, oPan
		// recovered
		fn := a.in.fn
		if fn.Recover != nil {
			x.blk = fn.Recover
			x.pc = 0
			x.iters = make([]int32, len(a.in.nest[fn.Recover.Index]))
			a.enqueue(x)
			continue
		}
		sig := fn.Signature.Results()
		var rv Value
		switch sig.Len() {
		case 0:
		case 1:
			rv = E.zero(sig.At(0).Type())
		default:
			rv = E.zero(sig)
		}
		a.outs = E.addOut(a.outs, res{st: x.st, v: rv})
	}
}

// runDefers runs the deferred calls of it (LIFO).
func (a *activation) runDefers(it *item) []*item {
	cur := []*item{it}
	var done []*item
	for len(cur) > 0 {
		x := cur[len(cur)-1]
		cur = cur[:len(cur)-1]
		if len(x.defers) == 0 {
			done = append(done, x)
			continue
		}
		d := x.defers[len(x.defers)-1]
		x.defers = x.defers[:len(x.defers)-1]
		rs := a.E.callValue(x.st, d.fn, d.args, d.call)
		for k, r := range rs {
			y := x
			if k < len(rs)-1 {
				y = x.clone(r.st)
			}
			y.st = r.st
			if r.pan {
				y.st.panOn, y.st.pan = true, r.v
			}
			cur = append(cur, y)
		}
	}
	return done
}

// callTarget evaluates callee and arguments.
func (a *activation) callTarget(it *item, c *ssa.CallCommon) (Value, []Value) {
	f, args, p := a.callTargetP(it, c)
	if p != nil {
		unsup("nil interface in go/defer")
	}
	return f, args
}

func (a *activation) callTargetP(it *item, c *ssa.CallCommon) (Value, []Value, *res) {
	E := a.E
	if c.IsInvoke() {
		rv := a.get(it, c.Value)
		if pz, ok := rv.(Poison); ok {
			unsup("poisoned value: %s", pz.msg)
		}
		ifc := rv.(Iface)
		if ifc.t == nil {
			r := E.rtPanic(it.st, "invalid memory address or nil pointer dereference")
			return nil, nil, &r
		}
		fn := E.method(ifc.t, c.Method)
		if fn == nil {
			unsup("method %s not found on %s", c.Method, ifc.t)
		}
		args := make([]Value, 0, len(c.Args)+1)
		args = append(args, ifc.v)
		for _, x := range c.Args {
			args = append(args, a.get(it, x))
		}
		return &Closure{fn: fn}, args, nil
	}
	args := make([]Value, 0, len(c.Args))
	for _, x := range c.Args {
		args = append(args, a.get(it, x))
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		return &Closure{fn: f}, args, nil
	case *ssa.Builtin:
		return &Closure{builtin: f}, args, nil
	}
	return a.get(it, c.Value), args, nil
}

// callValue calls a function value.
func (E *Engine) callValue(st *State, fv Value, args []Value, c *ssa.CallCommon) []res {
	f, ok := fv.(*Closure)
	if !ok {
		if pz, ok := fv.(Poison); ok {
			unsup("poisoned value: %s", pz.msg)
		}
		unsup("call of %T", fv)
	}
	if f == nil {
		return []res{E.rtPanic(st, "invalid memory address or nil pointer dereference")}
	}
	if f.builtin != nil {
		return E.builtin(st, f.builtin, args, c)
	}
	return E.callFn(st, f.fn, args, f.bind)
}

func (E *Engine) callFn(st *State, fn *ssa.Function, args, bind []Value) []res {
	for {
		h := E.world.hookOf(fn)
		if h.intr != nil {
			E.funcsUsed[fn]++
			return h.intr(E, st, fn, args)
		}
		if h.redirect != nil && h.redirect != fn {
			fn = h.redirect
			continue
		}
		break
	}
	if fn.Blocks == nil {
		unsup("no body: %s", fn.String())
	}
	return E.exec(fn, st, args, bind)
}

// value evaluates a value instruction.
func (a *activation) value(it *item, instr ssa.Value) []res {
	E := a.E
	st := it.st
	c := E.c
	switch i := instr.(type) {
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		id := E.alloc(st, &Obj{cells: E.zeroCells(et, nil), note: i.Comment})
		return one(st, Ptr{obj: id})
	case *ssa.BinOp:
		return E.binop(st, i.Op, i.X.Type(), a.get(it, i.X), a.get(it, i.Y), i.Y.Type())
	case *ssa.UnOp:
		x := a.get(it, i.X)
		switch i.Op {
		case token.MUL:
			return E.loadFrom(st, x, i.Type())
		case token.NOT:
			return one(st, c.Not(x.(*Expr)))
		case token.SUB:
			if f, ok := x.(Float); ok {
				return one(st, Float{-f.f})
			}
			return one(st, c.Neg(x.(*Expr)))
		case token.XOR:
			return one(st, c.BNot(x.(*Expr)))
		case token.ARROW:
			return E.chanRecv(st, x.(ChanRef), i.CommaOk, i.X.Type().Underlying().(*types.Chan).Elem())
		}
	case *ssa.ChangeType:
		return one(st, a.get(it, i.X))
	case *ssa.ChangeInterface:
		return one(st, a.get(it, i.X))
	case *ssa.Convert:
		return E.convert(st, i.X.Type(), i.Type(), a.get(it, i.X))
	case *ssa.MultiConvert:
		return E.convert(st, i.X.Type(), i.Type(), a.get(it, i.X))
	case *ssa.MakeInterface:
		return one(st, Iface{i.X.Type(), a.get(it, i.X)})
	case *ssa.MakeClosure:
		cl := &Closure{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			cl.bind = append(cl.bind, a.get(it, b))
		}
		return one(st, cl)
	case *ssa.MakeMap:
		return one(st, MapRef{E.alloc(st, &Obj{m: &MapObj{}})})
	case *ssa.MakeChan:
		n := a.get(it, i.Size).(*Expr)
		if !n.isConst() {
			unsup("symbolic channel size")
		}
		return one(st, ChanRef{E.alloc(st, &Obj{ch: &ChanObj{cap: int(n.k)}})})
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		var out []res
		for _, kc := range E.concretizeInt(st, a.get(it, i.Cap)) {
			for _, kl := range E.concretizeInt(kc.st, a.get(it, i.Len)) {
				ln, cp := int(int64(kl.k)), int(int64(kc.k))
				if ln < 0 || cp < ln {
					out = append(out, E.rtPanic(kl.st, "makeslice: len out of range"))
					continue
				}
				if cp > 1<<20 {
					unsup("make of %d elements", cp)
				}
				out = append(out, res{st: kl.st, v: E.newSlice(kl.st, et, ln, cp)})
			}
		}
		return out
	case *ssa.Slice:
		return a.slice(it, i)
	case *ssa.FieldAddr:
		p := a.get(it, i.X)
		stt := i.X.Type().Underlying().(*types.Pointer).Elem()
		off := E.lay.fieldOff(stt.Underlying(), i.Field)
		switch x := p.(type) {
		case Ptr:
			if x.obj == 0 {
				return []res{E.rtPanic(st, "invalid memory address or nil pointer dereference")}
			}
			return one(st, Ptr{x.obj, x.off + off})
		case SymPtr:
			x.sub += off
			return one(st, x)
		case Poison:
			unsup("poisoned value: %s", x.msg)
		}
	case *ssa.Field:
		g := a.get(it, i.X).(Agg)
		stt := i.X.Type().Underlying()
		off := E.lay.fieldOff(stt, i.Field)
		if isAgg(i.Type()) {
			n := E.lay.sizeof(i.Type())
			return one(st, g[off:off+n:off+n])
		}
		return one(st, g[off])
	case *ssa.IndexAddr:
		return a.indexAddr(it, i)
	case *ssa.Index:
		return a.index(it, i)
	case *ssa.Lookup:
		x := a.get(it, i.X)
		if s, ok := x.(*Str); ok {
			return E.strIndex(st, s, a.get(it, i.Index).(*Expr), i.Index.Type())
		}
		mt := i.X.Type().Underlying().(*types.Map)
		return E.mapLookup(st, x, a.get(it, i.Index), mt.Elem(), i.CommaOk)
	case *ssa.Range:
		x := a.get(it, i.X)
		if s, ok := x.(*Str); ok {
			return one(st, IterRef{E.alloc(st, &Obj{it: &IterObj{isStr: true, str: s}})})
		}
		m := x.(MapRef)
		io := &IterObj{m: m.obj}
		if m.obj != 0 {
			for _, e := range E.obj(st, m.obj).m.ents {
				io.keys = append(io.keys, e.k)
			}
			io.used = make([]bool, len(io.keys))
		}
		return one(st, IterRef{E.alloc(st, &Obj{it: io})})
	case *ssa.Next:
		return E.next(st, a.get(it, i.Iter).(IterRef), i)
	case *ssa.TypeAssert:
		return E.typeAssert(st, a.get(it, i.X), i)
	case *ssa.Extract:
		tv := a.get(it, i.Tuple)
		return one(st, tv.(Tuple)[i.Index])
	case *ssa.Select:
		return a.sel(it, i)
	case *ssa.SliceToArrayPointer:
		s := a.get(it, i.X).(Slice)
		n := int(i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			return []res{E.rtPanic(st, "cannot convert slice to array pointer")}
		}
		return one(st, Ptr{s.obj, s.off})
	}
	unsup("value instruction %T %s", instr, instr)
	return nil
}

func (E *Engine) concretizeInt(st *State, v Value) []kstate {
	return E.concretize(st, v.(*Expr))
}

func (E *Engine) newSlice(st *State, et types.Type, ln, cp int) Slice {
	cells := E.zeroCells(types.NewArray(et, int64(cp)), nil)
	id := E.alloc(st, &Obj{cells: cells, note: "make"})
	return Slice{id, 0, ln, cp}
}

func (E *Engine) loadFrom(st *State, p Value, t types.Type) []res {
	switch x := p.(type) {
	case Ptr:
		if x.obj == 0 {
			return []res{E.rtPanic(st, "invalid memory address or nil pointer dereference")}
		}
		return one(st, E.load(st, x, t))
	case SymPtr:
		return E.symLoad(st, x, t)
	case Poison:
		unsup("poisoned value: %s", x.msg)
	}
	unsup("load through %T", p)
	return nil
}

func (E *Engine) storeTo(st *State, p Value, v Value) []res {
	switch x := p.(type) {
	case Ptr:
		if x.obj == 0 {
			return []res{E.rtPanic(st, "invalid memory address or nil pointer dereference")}
		}
		E.store(st, x, v)
		return one(st, nil)
	case SymPtr:
		if e, ok := v.(*Expr); ok {
			o := E.wobj(st, x.obj)
			for k := 0; k < x.n; k++ {
				c := E.c.Eq(x.idx, E.c.Int(k))
				if c == E.c.F {
					continue
				}
				j := x.off + k*x.es + x.sub
				o.cells[j] = E.c.Ite(c, e, o.cells[j].(*Expr))
			}
			return one(st, nil)
		}
		var out []res
		for _, k := range E.concretize(st, x.idx) {
			E.store(k.st, Ptr{x.obj, x.off + int(k.k)*x.es + x.sub}, v)
			out = append(out, res{st: k.st})
		}
		return out
	}
	unsup("store through %T", p)
	return nil
}

// symLoad reads element idx (known to be in range).
func (E *Engine) symLoad(st *State, x SymPtr, t types.Type) []res {
	o := E.obj(st, x.obj)
	if !isAgg(t) {
		if _, ok := o.cells[x.off+x.sub].(*Expr); ok {
			lo, hi := 0, x.n-1
			if x.idx.lo > 0 {
				lo = int(x.idx.lo)
			}
			if x.idx.hi < uint64(hi) {
				hi = int(x.idx.hi)
			}
			return one(st, E.selectExpr(x.idx, lo, hi, func(k int) *Expr { return o.cells[x.off+k*x.es+x.sub].(*Expr) }))
		}
	}
	var out []res
	for _, k := range E.concretize(st, x.idx) {
		out = append(out, res{st: k.st, v: E.load(k.st, Ptr{x.obj, x.off + int(k.k)*x.es + x.sub}, t)})
	}
	return out
}

// selectExpr builds table[idx] for lo <= idx <= hi as a chain over runs.
func (E *Engine) selectExpr(idx *Expr, lo, hi int, f func(int) *Expr) *Expr {
	if idx.isConst() {
		return f(int(idx.k))
	}
	type run struct {
		end int
		v   *Expr
	}
	var runs []run
	for k := lo; k <= hi; k++ {
		v := f(k)
		if n := len(runs); n > 0 && runs[n-1].v == v {
			runs[n-1].end = k
		} else {
			runs = append(runs, run{k, v})
		}
	}
	var build func(a, b int) *Expr
	build = func(a, b int) *Expr {
		if a == b {
			return runs[a].v
		}
		m := (a + b) / 2
		return E.c.Ite(E.c.ULe(idx, E.c.Const(idx.w, uint64(runs[m].end))), build(a, m), build(m+1, b))
	}
	return build(0, len(runs)-1)
}

// inRange splits on 0 <= idx < n.
func (E *Engine) inRange(st *State, idx *Expr, t types.Type, n int) (ok *State, bad *State, ix *Expr) {
	_, signed := basicWidth(t.Underlying().(*types.Basic))
	ix = E.c.Resize(idx, 64, signed)
	ok, bad = E.split(st, E.c.ULt(ix, E.c.Int(n)))
	return
}

func (a *activation) indexAddr(it *item, i *ssa.IndexAddr) []res {
	E := a.E
	x := a.get(it, i.X)
	idx := a.get(it, i.Index).(*Expr)
	var obj, off, n int
	var et types.Type
	switch t := i.X.Type().Underlying().(type) {
	case *types.Slice:
		if pz, ok := x.(Poison); ok {
			unsup("poisoned value: %s", pz.msg)
		}
		s := x.(Slice)
		obj, off, n = s.obj, s.off, s.len
		et = t.Elem()
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		et = at.Elem()
		n = int(at.Len())
		switch p := x.(type) {
		case Ptr:
			if p.obj == 0 {
				return []res{E.rtPanic(it.st, "invalid memory address or nil pointer dereference")}
			}
			obj, off = p.obj, p.off
		case SymPtr:
			var out []res
			for _, k := range E.concretize(it.st, p.idx) {
				p2 := Ptr{p.obj, p.off + int(k.k)*p.es + p.sub}
				out = append(out, E.elemAddr(k.st, p2.obj, p2.off, n, E.lay.sizeof(et), idx, i.Index.Type())...)
			}
			return out
		default:
			unsup("index of %T", x)
		}
	}
	return E.elemAddr(it.st, obj, off, n, E.lay.sizeof(et), idx, i.Index.Type())
}

func (E *Engine) elemAddr(st *State, obj, off, n, es int, idx *Expr, it types.Type) []res {
	var out []res
	ok, bad, ix := E.inRange(st, idx, it, n)
	if bad != nil {
		out = append(out, E.rtPanic(bad, fmt.Sprintf("index out of range [%s] with length %d", ix, n)))
	}
	if ok != nil {
		if ix.isConst() {
			out = append(out, res{st: ok, v: Ptr{obj, off + int(ix.k)*es}})
		} else {
			out = append(out, res{st: ok, v: SymPtr{obj: obj, off: off, es: es, n: n, idx: ix}})
		}
	}
	return out
}

func (a *activation) index(it *item, i *ssa.Index) []res {
	E := a.E
	x := a.get(it, i.X)
	idx := a.get(it, i.Index).(*Expr)
	if s, ok := x.(*Str); ok {
		return E.strIndex(it.st, s, idx, i.Index.Type())
	}
	g := x.(Agg)
	at := i.X.Type().Underlying().(*types.Array)
	es := E.lay.sizeof(at.Elem())
	n := int(at.Len())
	var out []res
	ok, bad, ix := E.inRange(it.st, idx, i.Index.Type(), n)
	if bad != nil {
		out = append(out, E.rtPanic(bad, "index out of range"))
	}
	if ok == nil {
		return out
	}
	elem := func(k int) Value {
		if isAgg(at.Elem()) {
			return g[k*es : (k+1)*es : (k+1)*es]
		}
		return g[k]
	}
	if ix.isConst() {
		return append(out, res{st: ok, v: elem(int(ix.k))})
	}
	if _, sc := g[0].(*Expr); sc && !isAgg(at.Elem()) {
		v := E.selectExpr(ix, int(min(ix.lo, uint64(n-1))), int(min(ix.hi, uint64(n-1))), func(k int) *Expr { return g[k].(*Expr) })
		return append(out, res{st: ok, v: v})
	}
	for _, k := range E.concretize(ok, ix) {
		out = append(out, res{st: k.st, v: elem(int(k.k))})
	}
	return out
}

func (E *Engine) strIndex(st *State, s *Str, idx *Expr, t types.Type) []res {
	var out []res
	n := s.Len()
	ok, bad, ix := E.inRange(st, idx, t, n)
	if bad != nil {
		out = append(out, E.rtPanic(bad, fmt.Sprintf("index out of range [%s] with length %d", ix, n)))
	}
	if ok != nil {
		v := E.selectExpr(ix, int(min(ix.lo, uint64(n-1))), int(min(ix.hi, uint64(n-1))), func(k int) *Expr { return E.byteAt(s, k) })
		out = append(out, res{st: ok, v: v})
	}
	return out
}

func (a *activation) slice(it *item, i *ssa.Slice) []res {
	E := a.E
	x := a.get(it, i.X)
	var out []res
	bounds := func(st *State, v ssa.Value, def int) []kstate {
		if v == nil {
			return []kstate{{st, uint64(def)}}
		}
		e := a.get(it, v).(*Expr)
		_, sg := basicWidth(v.Type().Underlying().(*types.Basic))
		return E.concretize(st, E.c.Resize(e, 64, sg))
	}
	if p, ok := x.(SymPtr); ok {
		for _, k := range E.concretize(it.st, p.idx) {
			y := it.clone(k.st)
			y.regs[a.in.slot[i.X]] = Ptr{p.obj, p.off + int(k.k)*p.es + p.sub}
			out = append(out, a.slice(y, i)...)
		}
		return out
	}
	var n, cp int
	var base Slice
	var str *Str
	es := 1
	switch v := x.(type) {
	case *Str:
		str = v
		n = v.Len()
		cp = n
	case Slice:
		base = v
		n, cp = v.len, v.cap
		es = E.lay.sizeof(i.X.Type().Underlying().(*types.Slice).Elem())
	case Ptr:
		if v.obj == 0 {
			return []res{E.rtPanic(it.st, "invalid memory address or nil pointer dereference")}
		}
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n = int(at.Len())
		cp = n
		es = E.lay.sizeof(at.Elem())
		base = Slice{v.obj, v.off, n, n}
	default:
		unsup("slice of %T", x)
	}
	for _, m := range bounds(it.st, i.Max, cp) {
		for _, h := range bounds(m.st, i.High, n) {
			for _, l := range bounds(h.st, i.Low, 0) {
				lo, hi, mx := int(int64(l.k)), int(int64(h.k)), int(int64(m.k))
				if str != nil {
					if hi < 0 || hi > n || lo < 0 || lo > hi {
						out = append(out, E.rtPanic(l.st, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n)))
						continue
					}
					out = append(out, res{st: l.st, v: substr(str, lo, hi)})
					continue
				}
				if mx < 0 || mx > cp || hi < 0 || hi > mx || lo < 0 || lo > hi {
					out = append(out, E.rtPanic(l.st, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cp)))
					continue
				}
				if base.obj == 0 {
					out = append(out, res{st: l.st, v: Slice{}})
					continue
				}
				out = append(out, res{st: l.st, v: Slice{base.obj, base.off + lo*es, hi - lo, mx - lo}})
			}
		}
	}
	return out
}

func (E *Engine) typeAssert(st *State, v Value, i *ssa.TypeAssert) []res {
	if pz, ok := v.(Poison); ok {
		unsup("poisoned value: %s", pz.msg)
	}
	x := v.(Iface)
	var ok bool
	it, isI := i.AssertedType.Underlying().(*types.Interface)
	if x.t != nil {
		if isI {
			ok = E.implements(x.t, it, i.AssertedType)
		} else {
			ok = x.t == i.AssertedType || types.Identical(x.t, i.AssertedType)
		}
	}
	var rv Value
	if ok {
		if isI {
			rv = x
		} else {
			rv = x.v
		}
	} else {
		if !i.CommaOk {
			return []res{E.rtPanic(st, fmt.Sprintf("interface conversion: %v is not %s", x.t, i.AssertedType))}
		}
		rv = E.zero(i.AssertedType)
	}
	if i.CommaOk {
		return one(st, Tuple{rv, E.c.Bool(ok)})
	}
	return one(st, rv)
}
