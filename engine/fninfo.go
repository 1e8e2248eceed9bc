package main

// Per-function static data: register slots, weak topological order, liveness.

import (
	"sync"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	fn     *ssa.Function
	name   string
	slot   map[ssa.Value]int
	nslots int
	pos    []int   // WTO position per block
	nest   [][]int // enclosing component heads (outer to inner) per block
	live   []bitset
	ninstr int
}

type bitset []uint64

func (b bitset) has(i int) bool { return b[i>>6]>>(uint(i)&63)&1 == 1 }
func (b bitset) set(i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func (b bitset) clr(i int)      { b[i>>6] &^= 1 << (uint(i) & 63) }

var (
	infoMu sync.RWMutex
	infos  = map[*ssa.Function]*fnInfo{}
)

func infoOf(fn *ssa.Function) *fnInfo {
	infoMu.RLock()
	in := infos[fn]
	infoMu.RUnlock()
	if in != nil {
		return in
	}
	in = newInfo(fn)
	infoMu.Lock()
	if o := infos[fn]; o != nil {
		in = o
	} else {
		infos[fn] = in
	}
	infoMu.Unlock()
	return in
}

func newInfo(fn *ssa.Function) *fnInfo {
	in := &fnInfo{fn: fn, name: fn.String(), slot: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		in.slot[v] = in.nslots
		in.nslots++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			in.ninstr++
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	in.wto()
	in.liveness()
	return in
}

type wtoElem struct {
	blk  int
	comp []*wtoElem // nil for a plain vertex
	loop bool
}

func (in *fnInfo) wto() {
	n := len(in.fn.Blocks)
	in.pos = make([]int, n)
	in.nest = make([][]int, n)
	const inf = int(^uint(0) >> 1)
	dfn := make([]int, n)
	num := 0
	var stack []int
	var visit func(v int, part *[]*wtoElem) int
	component := func(v int) *wtoElem {
		var part []*wtoElem
		for _, s := range in.fn.Blocks[v].Succs {
			if dfn[s.Index] == 0 {
				visit(s.Index, &part)
			}
		}
		// part is in prepend order: reverse
		for i, j := 0, len(part)-1; i < j; i, j = i+1, j-1 {
			part[i], part[j] = part[j], part[i]
		}
		return &wtoElem{blk: v, comp: part, loop: true}
	}
	visit = func(v int, part *[]*wtoElem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, s := range in.fn.Blocks[v].Succs {
			m := dfn[s.Index]
			if m == 0 {
				m = visit(s.Index, part)
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			e := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for e != v {
					dfn[e] = 0
					e = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append(*part, component(v))
			} else {
				*part = append(*part, &wtoElem{blk: v})
			}
		}
		return head
	}
	var top []*wtoElem
	for _, b := range in.fn.Blocks {
		if dfn[b.Index] == 0 {
			var part []*wtoElem
			visit(b.Index, &part)
			for i, j := 0, len(part)-1; i < j; i, j = i+1, j-1 {
				part[i], part[j] = part[j], part[i]
			}
			top = append(top, part...)
		}
	}
	p := 0
	var number func(es []*wtoElem, nest []int)
	number = func(es []*wtoElem, nest []int) {
		for _, e := range es {
			in.pos[e.blk] = p
			p++
			if e.loop {
				nn := append(append([]int(nil), nest...), e.blk)
				in.nest[e.blk] = nn
				number(e.comp, nn)
			} else {
				in.nest[e.blk] = nest
			}
		}
	}
	number(top, nil)
}

func (in *fnInfo) liveness() {
	fn := in.fn
	words := in.nslots/64 + 1
	n := len(fn.Blocks)
	in.live = make([]bitset, n) // live after the phis of the block
	for i := range in.live {
		in.live[i] = make(bitset, words)
	}
	// iterate: liveOut(b) = U over succ s: (live[s] - phidefs(s)) U phi edge uses
	changed := true
	var ops []*ssa.Value
	for changed {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			cur := make(bitset, words)
			for _, s := range b.Succs {
				for w := range cur {
					cur[w] |= in.live[s.Index][w]
				}
			}
			for _, s := range b.Succs {
				for _, i := range s.Instrs {
					ph, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					cur.clr(in.slot[ph])
				}
			}
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
						for _, i := range s.Instrs {
							ph, ok := i.(*ssa.Phi)
							if !ok {
								break
							}
							if sl, ok := in.slot[ph.Edges[pi]]; ok {
								cur.set(sl)
							}
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				i := b.Instrs[k]
				if _, ok := i.(*ssa.Phi); ok {
					break
				}
				if v, ok := i.(ssa.Value); ok {
					cur.clr(in.slot[v])
				}
				if _, ok := i.(*ssa.DebugRef); ok {
					continue
				}
				ops = i.Operands(ops[:0])
				for _, o := range ops {
					if *o == nil {
						continue
					}
					if sl, ok := in.slot[*o]; ok {
						cur.set(sl)
					}
				}
			}
			for w := range cur {
				if cur[w]&^in.live[bi][w] != 0 {
					in.live[bi][w] |= cur[w]
					changed = true
				}
			}
		}
	}
	// the recover block reads named results through allocs: keep them live everywhere
	if fn.Recover != nil {
		for w, x := range in.live[fn.Recover.Index] {
			for i := range in.live {
				in.live[i][w] |= x
			}
		}
	}
}
