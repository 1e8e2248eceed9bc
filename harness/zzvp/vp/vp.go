// Package vp is the harness vocabulary. The symbolic engine intercepts every
// function below; the bodies are the native (replay) meaning.
package vp

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

// Run is the native replay context.
type Run struct {
	Inputs  map[string]uint64
	Shard   int
	Failed  []string
	Reached []string
	Obs     []string
	Known   []string
	Order   bool
	end     []func()
}

// OnEnd runs f when the native run ends.
func OnEnd(f func()) { Cur.end = append(Cur.end, f) }

// Cur is the active replay.
var Cur *Run

// Stop is thrown when an assumption does not hold.
type Stop struct{ Msg string }

func get(name string, def uint64) uint64 {
	if v, ok := Cur.Inputs[name]; ok {
		return v
	}
	return def
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return get(name, 0) != 0 }

// Int is an arbitrary int in [lo,hi].
func Int(name string, lo, hi int) int { return int(get(name, uint64(lo))) }

// Int32 is an arbitrary int32 in [lo,hi].
func Int32(name string, lo, hi int32) int32 { return int32(get(name, uint64(uint32(lo)))) }

// Choice is an arbitrary int in [0,n), explored case by case.
func Choice(name string, n int) int { return int(get(name, 0)) }

// ByteIn is an arbitrary byte of the alphabet.
func ByteIn(name string, alphabet string) byte { return byte(get(name, uint64(alphabet[0]))) }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(get(name, 0)) }

// String is an arbitrary string of min to max bytes of the alphabet; an empty
// alphabet means every byte value.
func String(name string, alphabet string, min, max int) string {
	n := int(get(name+".len", uint64(min)))
	b := make([]byte, n)
	def := uint64(0)
	if alphabet != "" {
		lo := alphabet[0]
		for i := 0; i < len(alphabet); i++ {
			if alphabet[i] < lo {
				lo = alphabet[i]
			}
		}
		def = uint64(lo)
	}
	for i := range b {
		b[i] = byte(get(name+"."+strconv.Itoa(i), def))
	}
	return string(b)
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(Stop{"assumption"})
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		Cur.Failed = append(Cur.Failed, msg)
		panic(Stop{"assert"})
	}
}

// Finding is an assertion about a recorded, unrepaired defect.
func Finding(id string, c bool, msg string) {
	if !c {
		Cur.Known = append(Cur.Known, id+": "+msg)
		panic(Stop{"finding"})
	}
}

// Reach marks a point that must be reachable.
func Reach(label string) { Cur.Reached = append(Cur.Reached, label) }

// Observe records an output for translation validation.
func Observe(label string, s string) {
	Cur.Obs = append(Cur.Obs, label+"="+strconv.Quote(s))
}

// ObserveInt records an output.
func ObserveInt(label string, n int) { Cur.Obs = append(Cur.Obs, label+"="+strconv.Itoa(n)) }

// ObserveBool records an output.
func ObserveBool(label string, b bool) { Cur.Obs = append(Cur.Obs, label+"="+strconv.FormatBool(b)) }

// Shard returns the part of the input space this run explores.
func Shard(n int) int { return Cur.Shard }

// AnyOrder makes map iteration and goroutine scheduling order arbitrary.
func AnyOrder(on bool) { Cur.Order = Cur.Order || on }

// Unsupported ends a path the model cannot follow.
func Unsupported(msg string) { panic(Stop{"unsupported: " + msg}) }

// Concrete forces a case split on n.
func Concrete(n int) int { return n }

// Merge is a hint; no effect.
func Debug(label string, v interface{}) {
	if os.Getenv("VP_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s: %v\n", label, v)
	}
}

// Tier is 0 for quick and 1 for thorough runs.
func Tier() int { n, _ := strconv.Atoi(os.Getenv("VP_TIER")); return n }

// Symbolic reports whether the code runs in the engine.
func Symbolic() bool { return false }

// SliceLen is the length of the slice in x.
func SliceLen(x interface{}) int { panic("engine only") }

// SliceSwap swaps two elements of the slice in x.
func SliceSwap(x interface{}, i, j int) { panic("engine only") }

// TypeName is the type of x as %T prints it.
func TypeName(x interface{}) string { return fmt.Sprintf("%T", x) }

// Kind classifies x for printing: 1 bool, 2 signed, 3 unsigned, 4 string, 5 slice, 6 pointer, 7 other, 0 nil, 8 float.
func Kind(x interface{}) int { panic("engine only") }

// AsInt, AsString and AsBool convert a value of a basic kind, whatever its named type.
func AsInt(x interface{}) int64 { panic("engine only") }

// AsString converts.
func AsString(x interface{}) string { panic("engine only") }

// AsBool converts.
func AsBool(x interface{}) bool { panic("engine only") }

// Field is a field of the struct in x, or that x points to.
func Field(x interface{}, name string) interface{} { panic("engine only") }

// SliceElem is element i of the slice in x.
func SliceElem(x interface{}, i int) interface{} { panic("engine only") }

// FormatFloat prints a concrete float.
func FormatFloat(x interface{}, verb byte) string { panic("engine only") }

// Result is what a replay reports.
type Result struct {
	Failed  []string
	Reached []string
	Obs     []string
	Known   []string
	Panic   string
	Stopped string
	Order   bool
}

// Execute runs one harness natively.
func Execute(f func(), inputs map[string]uint64, shard int) (r Result) {
	Cur = &Run{Inputs: inputs, Shard: shard}
	defer func() {
		c := Cur
		if e := recover(); e != nil {
			if s, ok := e.(Stop); ok {
				r.Stopped = s.Msg
			} else {
				r.Panic = fmt.Sprint(e)
			}
		}
		for _, g := range c.end {
			g()
		}
		r.Failed, r.Reached, r.Obs, r.Known, r.Order = c.Failed, c.Reached, c.Obs, c.Known, c.Order
	}()
	f()
	return
}

// Job is one replay request.
type Job struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Shard   int               `json:"shard"`
	Tries   int               `json:"tries"`
	Want    []string          `json:"want"` // observations, to stop early in every-order mode
}

// Main replays the jobs read from stdin.
func Main(table map[string]func()) {
	var jobs []Job
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out := make([]Result, len(jobs))
	for i, j := range jobs {
		f := table[j.Harness]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", j.Harness)
			os.Exit(3)
		}
		n := j.Tries
		if n < 1 {
			n = 1
		}
		for k := 0; k < n; k++ {
			r := Execute(f, j.Inputs, j.Shard)
			out[i] = r
			if len(r.Failed) > 0 || r.Panic != "" {
				break
			}
			if j.Want != nil && fmt.Sprint(r.Obs) == fmt.Sprint(j.Want) {
				break
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
