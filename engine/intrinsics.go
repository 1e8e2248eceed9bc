package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"os"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var growMu sync.Mutex

type intrFn = func(*Engine, *State, *ssa.Function, []Value) []res

var intrinsics map[string]intrFn

func (E *Engine) argStr(v Value) string {
	s, ok := v.(*Str)
	if !ok || s.sym != nil {
		unsup("harness names must be constant")
	}
	return s.s
}

func (E *Engine) argInt(v Value) int {
	e := v.(*Expr)
	if !e.isConst() {
		unsup("harness bounds must be constant")
	}
	return int(int64(e.k))
}

func noop(E *Engine, st *State, fn *ssa.Function, args []Value) []res {
	return one(st, E.zeroResult(fn))
}

func (E *Engine) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return E.zero(r.At(0).Type())
	}
	return E.zero(r)
}

func ident0(E *Engine, st *State, fn *ssa.Function, args []Value) []res { return one(st, args[0]) }

func alphabet(s string) *[4]uint64 {
	if s == "" {
		return nil
	}
	var d [4]uint64
	for i := 0; i < len(s); i++ {
		d[s[i]>>6] |= 1 << (s[i] & 63)
	}
	return &d
}

// pinned fixes inputs while debugging (VP_PIN=name:value,...).
var pinned = func() map[string]uint64 {
	m := map[string]uint64{}
	for _, f := range strings.FieldsFunc(os.Getenv("VP_PIN"), func(r rune) bool { return r == ',' || r == ' ' }) {
		k, v, _ := strings.Cut(f, ":")
		n, _ := strconv.ParseUint(v, 10, 64)
		m[k] = n
	}
	return m
}()

// draw declares a nondeterministic input.
func (E *Engine) draw(st *State, name string, w uint8, lo, hi uint64, dom *[4]uint64) *Expr {
	for l := st.inputs; l != nil; l = l.parent {
		if l.v.(string) == name {
			unsup("input %s drawn twice", name)
		}
	}
	n := 1
	if st.inputs != nil {
		n = st.inputs.n + 1
	}
	st.inputs = &List{v: name, parent: st.inputs, n: n}
	if dom != nil {
		lo, hi = 255, 0
		for x := uint64(0); x < 256; x++ {
			if dom[x>>6]>>(x&63)&1 == 1 {
				lo, hi = min(lo, x), max(hi, x)
			}
		}
	}
	if lo == hi {
		return E.c.Const(w, lo)
	}
	if k, ok := pinned[name]; ok {
		return E.c.Const(w, k)
	}
	return E.c.Var(name, w, lo, hi, dom)
}

func init() {
	V := vpRoot + "/vp."
	intrinsics = map[string]intrFn{
		V + "Bool": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return one(st, E.draw(st, E.argStr(a[0]), 0, 0, 1, nil))
		},
		V + "Int": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			lo, hi := E.argInt(a[1]), E.argInt(a[2])
			if lo < 0 {
				x := E.draw(st, E.argStr(a[0]), 64, 0, ^uint64(0), nil)
				if !E.assume(st, E.c.And(E.c.SLe(E.c.Int(lo), x), E.c.SLe(x, E.c.Int(hi)))) {
					return nil
				}
				return one(st, x)
			}
			return one(st, E.draw(st, E.argStr(a[0]), 64, uint64(lo), uint64(hi), nil))
		},
		V + "Int32": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			lo, hi := int32(E.argInt(a[1])), int32(E.argInt(a[2]))
			if lo < 0 {
				x := E.draw(st, E.argStr(a[0]), 32, 0, 1<<32-1, nil)
				if !E.assume(st, E.c.And(E.c.SLe(E.c.Const(32, uint64(lo)), x), E.c.SLe(x, E.c.Const(32, uint64(hi))))) {
					return nil
				}
				return one(st, x)
			}
			return one(st, E.draw(st, E.argStr(a[0]), 32, uint64(lo), uint64(hi), nil))
		},
		V + "Choice": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			n := E.argInt(a[1])
			if n < 1 {
				return nil
			}
			x := E.draw(st, E.argStr(a[0]), 64, 0, uint64(n-1), nil)
			var out []res
			for _, k := range E.concretize(st, x) {
				out = append(out, res{st: k.st, v: E.c.Int(int(k.k))})
			}
			return out
		},
		V + "Byte": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return one(st, E.draw(st, E.argStr(a[0]), 8, 0, 255, nil))
		},
		V + "ByteIn": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return one(st, E.draw(st, E.argStr(a[0]), 8, 0, 255, alphabet(E.argStr(a[1]))))
		},
		V + "String": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			name := E.argStr(a[0])
			dom := alphabet(E.argStr(a[1]))
			lo, hi := E.argInt(a[2]), E.argInt(a[3])
			ln := E.draw(st, name+".len", 64, uint64(lo), uint64(hi), nil)
			var out []res
			for _, k := range E.concretize(st, ln) {
				bs := make([]*Expr, k.k)
				for i := range bs {
					bs[i] = E.draw(k.st, name+"."+strconv.Itoa(i), 8, 0, 255, dom)
				}
				out = append(out, res{st: k.st, v: mkStr(bs)})
			}
			return out
		},
		V + "Assume": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			if !E.assume(st, a[0].(*Expr)) {
				return nil
			}
			return one(st, nil)
		},
		V + "Assert": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return E.assertion(st, a[0].(*Expr), a[1].(*Str), "assert", "")
		},
		V + "Finding": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return E.assertion(st, a[1].(*Expr), a[2].(*Str), "finding", E.argStr(a[0]))
		},
		V + "Reach": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			E.Reached[E.argStr(a[0])]++
			return one(st, nil)
		},
		V + "Observe": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			E.observe(st, E.argStr(a[0]), a[1])
			return one(st, nil)
		},
		V + "ObserveInt": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			E.observe(st, E.argStr(a[0]), a[1])
			return one(st, nil)
		},
		V + "ObserveBool": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			E.observe(st, E.argStr(a[0]), a[1])
			return one(st, nil)
		},
		V + "Shard": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			if n := E.argInt(a[0]); n != E.cfg.Shards {
				unsup("harness declares %d shards, directive says %d", n, E.cfg.Shards)
			}
			return one(st, E.c.Int(E.cfg.Shard))
		},
		V + "Tier": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return one(st, E.c.Int(E.cfg.Tier))
		},
		V + "AnyOrder": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			if a[0].(*Expr) == E.c.T {
				st.perm = 1
			} else {
				st.perm = 0
			}
			return one(st, nil)
		},
		V + "Unsupported": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			unsup("model: %s", E.concStr(a[0].(*Str), st.model))
			return nil
		},
		V + "Concrete": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			var out []res
			for _, k := range E.concretize(st, a[0].(*Expr)) {
				out = append(out, res{st: k.st, v: E.c.Int(int(int64(k.k)))})
			}
			return out
		},
		V + "Debug": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			E.logf("%s: %s", E.argStr(a[0]), E.show(st, a[1], st.model, 0))
			return one(st, nil)
		},
		V + "Symbolic": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return one(st, E.c.T)
		},
		V + "SliceLen": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return one(st, E.c.Int(a[0].(Iface).v.(Slice).len))
		},
		V + "SliceElem": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			x := a[0].(Iface)
			et := x.t.Underlying().(*types.Slice).Elem()
			s := x.v.(Slice)
			v := E.load(st, Ptr{s.obj, s.off + E.argInt(a[1])*E.lay.sizeof(et)}, et)
			if _, ok := et.Underlying().(*types.Interface); ok {
				return one(st, v)
			}
			return one(st, Iface{et, v})
		},
		V + "SliceSwap": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			x := a[0].(Iface)
			es := E.lay.sizeof(x.t.Underlying().(*types.Slice).Elem())
			s := x.v.(Slice)
			i, j := E.argInt(a[1]), E.argInt(a[2])
			o := E.wobj(st, s.obj)
			for k := 0; k < es; k++ {
				p, q := s.off+i*es+k, s.off+j*es+k
				o.cells[p], o.cells[q] = o.cells[q], o.cells[p]
			}
			return one(st, nil)
		},
		V + "TypeName": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			x := a[0].(Iface)
			if x.t == nil {
				return one(st, concStr("<nil>"))
			}
			return one(st, concStr(types.TypeString(x.t, func(p *types.Package) string { return p.Name() })))
		},
		V + "Kind": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return one(st, E.c.Int(kindOf(a[0].(Iface).t)))
		},
		V + "AsInt": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			x := a[0].(Iface)
			_, sg := basicWidth(x.t.Underlying().(*types.Basic))
			return one(st, E.c.Resize(x.v.(*Expr), 64, sg))
		},
		V + "AsString": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return one(st, a[0].(Iface).v)
		},
		V + "Field": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			x := a[0].(Iface)
			name := E.argStr(a[1])
			t, v := x.t, x.v
			if t == nil {
				unsup("field of nil")
			}
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
				v = E.load(st, v.(Ptr), t)
			}
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() != name {
						continue
					}
					ft, off := s.Field(i).Type(), E.lay.fieldOff(s, i)
					if isAgg(ft) {
						return one(st, Iface{t: ft, v: v.(Agg)[off : off+E.lay.sizeof(ft)]})
					}
					return one(st, Iface{t: ft, v: v.(Agg)[off]})
				}
			}
			unsup("no field %s in %s", name, t)
			return nil
		},
		V + "AsBool": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return one(st, a[0].(Iface).v)
		},
		V + "FormatFloat": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			x := a[0].(Iface)
			f, ok := x.v.(Float)
			if !ok {
				unsup("float format of %s", x.t)
			}
			return one(st, concStr(strconv.FormatFloat(f.f, byte(E.argInt(a[1])), -1, 64)))
		},

		"internal/abi.NoEscape":                     ident0,
		"internal/abi.Escape":                       ident0,
		"internal/stringslite.noescape":             ident0,
		"strings.noescape":                          ident0,
		"runtime.KeepAlive":                         noop,
		"runtime.GC":                                noop,
		"runtime.Gosched":                           noop,
		"runtime.SetFinalizer":                      noop,
		"internal/godebug.New":                      noop,
		"(*internal/godebug.Setting).Value":         noop,
		"(*internal/godebug.Setting).IncNonDefault": noop,
		"internal/race.Enable":                      noop,
		"internal/race.Disable":                     noop,
		"internal/race.Acquire":                     noop,
		"internal/race.Release":                     noop,
		"internal/race.ReleaseMerge":                noop,
		"internal/race.Read":                        noop,
		"internal/race.Write":                       noop,
		"internal/race.ReadRange":                   noop,
		"internal/race.WriteRange":                  noop,
		"(*sync.Mutex).Lock": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			if st.perm != 1 {
				return one(st, nil)
			}
			p := a[0].(Ptr)
			return E.lock(st, fmt.Sprint(p.obj, "/", p.off))
		},
		"(*sync.Mutex).Unlock": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			if st.perm != 1 {
				return one(st, nil)
			}
			p := a[0].(Ptr)
			return E.unlock(st, fmt.Sprint(p.obj, "/", p.off))
		},
		"(*sync.RWMutex).Lock":    noop,
		"(*sync.RWMutex).Unlock":  noop,
		"(*sync.RWMutex).RLock":   noop,
		"(*sync.RWMutex).RUnlock": noop,
		"(*sync.WaitGroup).Add":   noop,
		"(*sync.WaitGroup).Done":  noop,
		"(*sync.WaitGroup).Wait": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return E.drain(st)
		},
		"(*sync.Pool).Put": noop,
		"(*sync.Pool).Get": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			p := a[0].(Ptr)
			pt := fn.Signature.Recv().Type().(*types.Pointer).Elem()
			stt := pt.Underlying().(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == "New" {
					f := E.obj(st, p.obj).cells[p.off+E.lay.fieldOff(stt, i)].(*Closure)
					if f == nil {
						return one(st, Iface{})
					}
					return E.callValue(st, f, nil, nil)
				}
			}
			return one(st, Iface{})
		},
		"sync.runtime_registerPoolCleanup": noop,
		"(*sync.Once).Do": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			// the done word is the first integer cell
			p := a[0].(Ptr)
			o := E.wobj(st, p.obj)
			n := E.lay.sizeof(fn.Signature.Recv().Type().(*types.Pointer).Elem())
			for i := p.off; i < p.off+n; i++ {
				if e, ok := o.cells[i].(*Expr); ok && e.w == 32 {
					if e.isConst() && e.k == 1 {
						return one(st, nil)
					}
					o.cells[i] = E.c.Const(32, 1)
					return E.callValue(st, a[1], nil, nil)
				}
			}
			unsup("sync.Once layout")
			return nil
		},
		"math.Float64bits": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			unsup("math.Float64bits")
			return nil
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSliceStable,
		"math/bits.Len64":  bitsLen,
		"math/bits.Len":    bitsLen,
		"math/bits.Len32":  bitsLen,
		// a reflect.Value has the value in its first cell
		"reflect.ValueOf": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			i, ok := a[0].(Iface)
			if !ok {
				unsup("reflect.ValueOf of %T", a[0])
			}
			if i.t == nil {
				return one(st, E.zero(fn.Signature.Results().At(0).Type()))
			}
			return one(st, Agg{i, Ptr{}, E.c.Const(64, 1)})
		},
		"(reflect.Value).IsNil": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			if g, ok := a[0].(Agg); ok {
				if i, ok := g[0].(Iface); ok {
					if p, ok := i.v.(Ptr); ok {
						return one(st, E.c.Bool(p.obj == 0))
					}
				}
			}
			unsup("reflect.Value.IsNil of other than a pointer")
			return nil
		},
		"reflect.DeepEqual": func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return one(st, E.deepEq(st, a[0], a[1], 0))
		},
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+ty] = func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return E.loadFrom(st, a[0], fn.Signature.Results().At(0).Type())
		}
		intrinsics["sync/atomic.Store"+ty] = func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			return E.storeTo(st, a[0], a[1])
		}
		intrinsics["sync/atomic.Add"+ty] = func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			v := E.c.Bin(OpAdd, E.load(st, a[0].(Ptr), fn.Signature.Results().At(0).Type()).(*Expr), a[1].(*Expr))
			E.store(st, a[0].(Ptr), v)
			return one(st, v)
		}
		intrinsics["sync/atomic.CompareAndSwap"+ty] = func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			cur := E.load(st, a[0].(Ptr), fn.Signature.Params().At(1).Type())
			eq := E.valEq(cur, a[1])
			if eq == E.c.T {
				E.store(st, a[0].(Ptr), a[2])
			} else if eq != E.c.F {
				unsup("symbolic compare and swap")
			}
			return one(st, eq)
		}
		intrinsics["sync/atomic.Swap"+ty] = func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
			cur := E.load(st, a[0].(Ptr), fn.Signature.Params().At(1).Type())
			E.store(st, a[0].(Ptr), a[1])
			return one(st, cur)
		}
	}
}

func kindOf(t types.Type) int {
	if t == nil {
		return 0
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return 1
		case u.Info()&types.IsUnsigned != 0:
			return 3
		case u.Info()&types.IsInteger != 0:
			return 2
		case u.Info()&types.IsString != 0:
			return 4
		case u.Info()&types.IsFloat != 0:
			return 8
		}
	case *types.Slice:
		return 5
	case *types.Pointer:
		return 6
	}
	return 7
}

func bitsLen(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
	x := a[0].(*Expr)
	if x.isConst() {
		return one(st, E.c.Int(bits.Len64(x.k)))
	}
	return E.exec(fn, st, a, nil)
}

func sortSlice(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
	x := a[0].(Iface)
	if x.t == nil {
		return one(st, nil)
	}
	n := x.v.(Slice).len
	var out []res
	mk := E.world.fnByName(vpRoot+"/models", "mkSwap")
	pdq := E.world.fnByName("sort", "pdqsort_func")
	for _, r := range E.exec(mk, st, []Value{x}, nil) {
		out = append(out, E.exec(pdq, r.st, []Value{Agg{a[1], r.v}, E.c.Int(0), E.c.Int(n), E.c.Int(bits.Len(uint(n)))}, nil)...)
	}
	return out
}

func sortSliceStable(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
	x := a[0].(Iface)
	if x.t == nil {
		return one(st, nil)
	}
	n := x.v.(Slice).len
	var out []res
	mk := E.world.fnByName(vpRoot+"/models", "mkSwap")
	stb := E.world.fnByName("sort", "stable_func")
	for _, r := range E.exec(mk, st, []Value{x}, nil) {
		out = append(out, E.exec(stb, r.st, []Value{Agg{a[1], r.v}, E.c.Int(n)}, nil)...)
	}
	return out
}

// intrinsicByPattern handles whole packages.
func intrinsicByPattern(fn *ssa.Function, name string) intrFn {
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	switch {
	case pkg == "go.uber.org/zap":
		if strings.HasPrefix(name, "(*go.uber.org/zap.Logger)") {
			if fn.Signature.Results().Len() == 1 && fn.Name() != "Check" && fn.Name() != "Sync" && fn.Name() != "Core" {
				return ident0
			}
			return noop
		}
		if strings.HasPrefix(name, "(*go.uber.org/zap.SugaredLogger)") {
			return noop
		}
		if fn.Signature.Recv() == nil && fn.Name() != "init" {
			if fn.Name() == "NewNop" {
				return func(E *Engine, st *State, fn *ssa.Function, a []Value) []res {
					t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
					return one(st, Ptr{obj: E.alloc(st, &Obj{cells: E.zeroCells(t, nil), note: "zap"})})
				}
			}
			return noop
		}
	case pkg == "github.com/golang/protobuf/proto" && strings.HasPrefix(fn.Name(), "Register"):
		return noop
	case pkg == "github.com/gogo/protobuf/proto" && strings.HasPrefix(fn.Name(), "Register"):
		return noop
	}
	return nil
}

func (E *Engine) observe(st *State, label string, v Value) {
	n := 1
	if st.obs != nil {
		n = st.obs.n + 1
	}
	st.obs = &List{v: obsRec{label, v}, parent: st.obs, n: n}
}

// assertion discharges one proof obligation.
func (E *Engine) assertion(st *State, c *Expr, msg *Str, kind, id string) []res {
	E.Asserts++
	if c == E.c.T {
		return one(st, nil)
	}
	E.AssertQ++
	t, f := E.split(st, c)
	if f != nil {
		E.violation(f, E.concStr(msg, f.model), kind, id)
	}
	if t == nil {
		return nil
	}
	return one(t, nil)
}

func (E *Engine) violation(st *State, msg, kind, id string) {
	for _, v := range E.Viol {
		if v.Msg == msg && v.Kind == kind && v.ID == id {
			v.Count++
			return
		}
	}
	w := ""
	if len(E.curFn) > 0 {
		w = E.curFn[len(E.curFn)-1].String()
	}
	E.Viol = append(E.Viol, &Violation{Msg: msg, Kind: kind, ID: id, Inputs: E.inputsOf(st), Where: w, Shard: E.cfg.Shard, Count: 1})
}

func (E *Engine) inputsOf(st *State) map[string]uint64 {
	in := map[string]uint64{}
	for _, v := range E.c.vars {
		in[v.name] = st.model.value(v)
	}
	for n, k := range pinned {
		in[n] = k
	}
	return in
}

// deepEq is reflect.DeepEqual on typed interface values.
func (E *Engine) deepEq(st *State, a, b Value, d int) *Expr {
	if d > 50 {
		unsup("DeepEqual depth")
	}
	x, y := a.(Iface), b.(Iface)
	if x.t == nil || y.t == nil {
		return E.c.Bool(x.t == nil && y.t == nil)
	}
	if !types.Identical(x.t, y.t) {
		return E.c.F
	}
	return E.deepT(st, x.t, x.v, y.v, d)
}

func (E *Engine) deepT(st *State, t types.Type, a, b Value, d int) *Expr {
	if d > 60 {
		unsup("DeepEqual depth")
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return E.deepEq(st, a, b, d+1)
	case *types.Pointer:
		p, q := a.(Ptr), b.(Ptr)
		if p == q {
			return E.c.T
		}
		if p.obj == 0 || q.obj == 0 {
			return E.c.F
		}
		return E.deepT(st, u.Elem(), E.load(st, p, u.Elem()), E.load(st, q, u.Elem()), d+1)
	case *types.Slice:
		p, q := a.(Slice), b.(Slice)
		if p.len != q.len || (p.obj == 0) != (q.obj == 0) {
			return E.c.F
		}
		r := E.c.T
		es := E.lay.sizeof(u.Elem())
		for i := 0; i < p.len && r != E.c.F; i++ {
			r = E.c.And(r, E.deepT(st, u.Elem(), E.load(st, Ptr{p.obj, p.off + i*es}, u.Elem()), E.load(st, Ptr{q.obj, q.off + i*es}, u.Elem()), d+1))
		}
		return r
	case *types.Struct:
		p, q := a.(Agg), b.(Agg)
		r := E.c.T
		for i := 0; i < u.NumFields() && r != E.c.F; i++ {
			ft := u.Field(i).Type()
			off := E.lay.fieldOff(u, i)
			var v, w Value
			if isAgg(ft) {
				n := E.lay.sizeof(ft)
				v, w = p[off:off+n], q[off:off+n]
			} else {
				v, w = p[off], q[off]
			}
			r = E.c.And(r, E.deepT(st, ft, v, w, d+1))
		}
		return r
	case *types.Array:
		p, q := a.(Agg), b.(Agg)
		es := E.lay.sizeof(u.Elem())
		r := E.c.T
		for i := 0; i < int(u.Len()); i++ {
			var v, w Value
			if isAgg(u.Elem()) {
				v, w = p[i*es:(i+1)*es], q[i*es:(i+1)*es]
			} else {
				v, w = p[i*es], q[i*es]
			}
			r = E.c.And(r, E.deepT(st, u.Elem(), v, w, d+1))
		}
		return r
	case *types.Map:
		p, q := a.(MapRef), b.(MapRef)
		if p.obj == 0 || q.obj == 0 {
			return E.c.Bool(p.obj == 0 && q.obj == 0)
		}
		r := E.c.Eq(E.mapLen(st, p), E.mapLen(st, q))
		for _, e := range E.obj(st, p.obj).m.ents {
			hit := E.c.F
			for _, f := range E.obj(st, q.obj).m.ents {
				k := E.c.And(f.present, E.valEq(e.k, f.k))
				if k == E.c.F {
					continue
				}
				hit = E.c.Or(hit, E.c.And(k, E.deepT(st, u.Elem(), e.v, f.v, d+1)))
			}
			r = E.c.And(r, E.c.Or(E.c.Not(e.present), hit))
		}
		return r
	case *types.Signature:
		p, q := a.(*Closure), b.(*Closure)
		return E.c.Bool(p == nil && q == nil)
	}
	return E.valEq(a, b)
}
