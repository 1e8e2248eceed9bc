package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Config of one engine run.
type Config struct {
	NoStrMerge bool
	NoMerge    bool
	TraceMerge bool
	TraceCalls bool
	MaxInstr   int64
	Deadline   time.Time
	Shard      int
	Shards     int
	Samples    int
	Tier       int
}

// Engine runs one harness (or one shard of it).
type Engine struct {
	c      *Ctx
	sol    *Solver
	sol2   *Solver
	cfg    Config
	world  *World
	lay    *layoutCache
	base   []*Obj
	glob   map[*ssa.Global]int
	inited map[*ssa.Package]int // 1 running, 2 done, 3 failed
	epochs int64

	cexs      []*Model
	unsatC    map[string]bool
	constC    map[*ssa.Const]Value
	implC     map[implKey]bool
	methC     map[methKey]*ssa.Function
	rtErr     types.Type
	funcsUsed map[*ssa.Function]int

	Instrs      int64
	Forks       int64
	Merges      int64
	MergeFails  int64
	States      int64
	CacheHits   int64
	TabHits     int64
	Asserts     int
	AssertQ     int
	Viol        []*Violation
	Incomplete  map[string]int
	Reached     map[string]int
	Samples     []Sample
	EndPaths    int
	depth       int
	prof        map[string]int64
	forkProf    map[string]int
	curFn       []*ssa.Function
	initWarn    map[string]bool
	permChoices int
}

type implKey struct{ t, i types.Type }
type methKey struct {
	t    types.Type
	name string
}

// Violation is a failed assertion with its model.
type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Kind    string            `json:"kind"` // assert, panic
	Inputs  map[string]uint64 `json:"inputs"`
	Where   string            `json:"where"`
	Shard   int               `json:"shard"`
	ID      string            `json:"id,omitempty"`
	Count   int               `json:"count"`
}

// Sample is a satisfying assignment of one end path with its observations.
type Sample struct {
	Inputs map[string]uint64 `json:"inputs"`
	Obs    []string          `json:"obs"`
	Shard  int               `json:"shard"`
	Perm   bool              `json:"perm"`
}

type budget struct{ msg string }

func NewEngine(w *World, cfg Config) (*Engine, error) {
	E := &Engine{
		c: NewCtx(), cfg: cfg, world: w, lay: newLayout(), base: []*Obj{nil},
		glob: map[*ssa.Global]int{}, inited: map[*ssa.Package]int{}, unsatC: map[string]bool{},
		constC: map[*ssa.Const]Value{}, implC: map[implKey]bool{}, methC: map[methKey]*ssa.Function{},
		Incomplete: map[string]int{}, Reached: map[string]int{}, funcsUsed: map[*ssa.Function]int{},
		prof: map[string]int64{}, forkProf: map[string]int{}, initWarn: map[string]bool{},
	}
	var err error
	E.sol, err = NewSolver(E.c, []string{"z3-new", "-in"}, 20000)
	if err != nil {
		return nil, err
	}
	E.rtErr = types.Typ[types.String]
	return E, nil
}

func (E *Engine) logf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
}

func (E *Engine) pushPC(s *State, c *Expr) {
	if c == E.c.T {
		return
	}
	if c.op == OpAnd {
		for _, x := range c.args {
			E.pushPC(s, x)
		}
		return
	}
	d := 1
	if s.pc != nil {
		d = s.pc.depth + 1
	}
	s.pc = &PC{cond: c, parent: s.pc, depth: d, next: s.next}
}

// sat looks for a model of pc & extra. hint satisfies pc.
func (E *Engine) sat(pc *PC, extra *Expr, hint *Model) *Model {
	if extra == E.c.F {
		return nil
	}
	if hint != nil && hint.Eval(extra) != 0 {
		return hint
	}
	// slice
	supp := map[int]bool{}
	for _, v := range E.c.Support(extra) {
		supp[v] = true
	}
	var rest []*Expr
	for p := pc; p != nil; p = p.parent {
		rest = append(rest, p.cond)
	}
	cs := []*Expr{extra}
	changed := true
	for changed {
		changed = false
		keep := rest[:0]
		for _, e := range rest {
			hit := false
			sp := E.c.Support(e)
			for _, v := range sp {
				if supp[v] {
					hit = true
					break
				}
			}
			if hit {
				for _, v := range sp {
					supp[v] = true
				}
				cs = append(cs, e)
				changed = true
			} else {
				keep = append(keep, e)
			}
		}
		rest = keep
	}
	// single byte variable: decide by table
	if extra.tab != nil {
		t := *extra.tab
		ok := true
		for _, e := range cs[1:] {
			if e.tab == nil || e.v != extra.v {
				ok = false
				break
			}
			for i := range t {
				t[i] &= e.tab[i]
			}
		}
		if ok {
			E.TabHits++
			for x := int(extra.v.lo); x < 256 && uint64(x) <= extra.v.hi; x++ {
				if t[x>>6]>>(uint(x)&63)&1 == 1 {
					return hint.with(map[int]uint64{extra.v.id: uint64(x)})
				}
			}
			return nil
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	n := 0
	var kb strings.Builder
	for i, e := range cs {
		if i > 0 && cs[i-1] == e {
			continue
		}
		cs[n] = e
		n++
		fmt.Fprintf(&kb, "%d,", e.id)
	}
	cs = cs[:n]
	key := kb.String()
	if E.unsatC[key] {
		E.CacheHits++
		return nil
	}
	for i := len(E.cexs) - 1; i >= 0; i-- {
		m := E.cexs[i]
		good := true
		for _, e := range cs {
			if m.Eval(e) == 0 {
				good = false
				break
			}
		}
		if good {
			E.CacheHits++
			vals := map[int]uint64{}
			for v := range supp {
				vals[v] = m.value(E.c.vars[v])
			}
			return hint.with(vals)
		}
	}
	r, vals, err := E.sol.Check(cs)
	if err != nil {
		E.sol.restart()
		r, vals, err = E.sol.Check(cs)
	}
	if err != nil || r == RUnknown {
		r2, vals2, err2 := E.second(cs)
		if err2 != nil || r2 == RUnknown {
			unsup("solver gave no answer (%v)", err)
		}
		r, vals = r2, vals2
	}
	if r == RUnsat {
		E.unsatC[key] = true
		return nil
	}
	m := hint.with(vals)
	for _, e := range cs {
		if m.Eval(e) == 0 {
			panic(budget{"encoder error: solver model does not satisfy the query"})
		}
	}
	E.cexs = append(E.cexs, m)
	if len(E.cexs) > 24 {
		E.cexs = append([]*Model(nil), E.cexs[8:]...)
	}
	return m
}

// second asks another solver.
func (E *Engine) second(cs []*Expr) (Result, map[int]uint64, error) {
	if E.sol2 == nil {
		s, err := NewSolver(E.c, []string{"cvc5", "--incremental", "--produce-models", "--tlimit-per=60000"}, 60000)
		if err != nil {
			return RUnknown, nil, err
		}
		E.sol2 = s
	}
	r, v, err := E.sol2.Check(cs)
	if err != nil {
		E.sol2.restart()
	}
	return r, v, err
}

// split returns the states where c holds and where it does not (nil if infeasible).
func (E *Engine) split(s *State, c *Expr) (t, f *State) {
	if c.op == OpConst {
		if c.k != 0 {
			return s, nil
		}
		return nil, s
	}
	if s.model.Eval(c) != 0 {
		m := E.sat(s.pc, E.c.Not(c), s.model)
		if m == nil {
			return s, nil
		}
		o := E.fork(s)
		o.model = m
		E.pushPC(o, E.c.Not(c))
		E.pushPC(s, c)
		E.noteFork()
		return s, o
	}
	m := E.sat(s.pc, c, s.model)
	if m == nil {
		return nil, s
	}
	o := E.fork(s)
	o.model = m
	E.pushPC(o, c)
	E.pushPC(s, E.c.Not(c))
	E.noteFork()
	return o, s
}

func (E *Engine) noteFork() {
	if len(E.curFn) > 0 {
		E.forkProf[E.curFn[len(E.curFn)-1].String()]++
	}
}

// assume restricts s to c; false if infeasible.
func (E *Engine) assume(s *State, c *Expr) bool {
	if c == E.c.T {
		return true
	}
	if s.model.Eval(c) == 0 {
		m := E.sat(s.pc, c, s.model)
		if m == nil {
			return false
		}
		s.model = m
	}
	E.pushPC(s, c)
	return true
}

type kstate struct {
	st *State
	k  uint64
}

// concretize enumerates the feasible values of e.
func (E *Engine) concretize(s *State, e *Expr) []kstate {
	if e.op == OpConst {
		return []kstate{{s, e.k}}
	}
	var out []kstate
	cur := s
	for n := 0; cur != nil; n++ {
		if n > 300 {
			unsup("too many values for a symbolic size or index: %s k=%d", e.String(), cur.model.Eval(e))
		}
		k := cur.model.Eval(e)
		t, f := E.split(cur, E.c.Eq(e, E.c.Const(e.w, k)))
		if t != nil {
			out = append(out, kstate{t, k})
		}
		cur = f
	}
	return out
}

// ---- constants ----

func (E *Engine) constVal(v *ssa.Const) Value {
	if x, ok := E.constC[v]; ok {
		return x
	}
	x := E.constVal1(v)
	E.constC[v] = x
	return x
}

func (E *Engine) constVal1(v *ssa.Const) Value {
	t := v.Type()
	if v.Value == nil {
		return E.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if v.Value.Kind() == constant.String {
				return concStr(constant.StringVal(v.Value))
			}
			n, _ := constant.Int64Val(v.Value)
			return concStr(string(rune(n)))
		case u.Info()&types.IsBoolean != 0:
			return E.c.Bool(constant.BoolVal(v.Value))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(v.Value))
			if u.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return Float{f}
		case u.Info()&types.IsComplex != 0:
			r, _ := constant.Float64Val(constant.Real(v.Value))
			i, _ := constant.Float64Val(constant.Imag(v.Value))
			return Complex{complex(r, i)}
		case u.Info()&types.IsInteger != 0:
			w, _ := basicWidth(u)
			iv := constant.ToInt(v.Value)
			if n, ok := constant.Int64Val(iv); ok {
				return E.c.Const(w, uint64(n))
			}
			n, _ := constant.Uint64Val(iv)
			return E.c.Const(w, n)
		}
	case *types.Interface, *types.TypeParam:
		unsup("constant of type %s", t)
	}
	unsup("constant of type %s", t)
	return nil
}

func (E *Engine) globalPtr(s *State, g *ssa.Global) Ptr {
	id, ok := E.glob[g]
	if !ok {
		et := g.Type().(*types.Pointer).Elem()
		cells := E.zeroCells(et, nil)
		E.base = append(E.base, &Obj{epoch: -1, cells: cells, note: g.String()})
		id = -(len(E.base) - 1)
		E.glob[g] = id
	}
	E.ensureInit(g.Pkg)
	return Ptr{obj: id}
}

// ensureInit runs a package initialiser once, in the engine's base heap.
func (E *Engine) ensureInit(p *ssa.Package) {
	if p == nil {
		return
	}
	switch E.inited[p] {
	case 1, 2:
		return
	case 3:
		unsup("package %s could not be initialised", p.Pkg.Path())
	}
	E.inited[p] = 1
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		E.inited[p] = 2
		return
	}
	st := &State{base: true, model: NewModel(), epoch: -1, next: 1}
	savedDepth := E.depth
	savedFn := E.curFn
	E.depth = 0
	E.curFn = nil
	defer func() { E.depth = savedDepth; E.curFn = savedFn }()
	ok := E.runInit(st, fn)
	if ok {
		E.inited[p] = 2
	} else {
		E.inited[p] = 3
	}
}

func (E *Engine) runInit(st *State, fn *ssa.Function) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			u, is := r.(unsupported)
			if !is {
				panic(r)
			}
			E.initWarn[fn.Pkg.Pkg.Path()+": "+u.msg] = true
			ok = false
		}
	}()
	rs := E.exec(fn, st, nil, nil)
	if len(rs) != 1 {
		unsup("initialiser of %s has %d outcomes", fn.Pkg.Pkg.Path(), len(rs))
	}
	if rs[0].pan {
		unsup("initialiser of %s panics", fn.Pkg.Pkg.Path())
	}
	return true
}

// ---- type queries ----

func (E *Engine) implements(t types.Type, i *types.Interface, it types.Type) bool {
	k := implKey{t, it}
	if r, ok := E.implC[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	E.implC[k] = r
	return r
}

func (E *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := E.methC[k]; ok {
		return f
	}
	E.world.mu.Lock()
	sel := E.world.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	var f *ssa.Function
	if sel != nil {
		f = E.world.prog.MethodValue(sel)
	}
	E.world.mu.Unlock()
	E.methC[k] = f
	return f
}
