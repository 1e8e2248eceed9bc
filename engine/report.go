package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type report struct {
	prop, tier string
	tierN      int
	verif      string
	hn         []string
	results    []*jobResult
	hs         []*Harness
	rep        *Replayer
	t0         time.Time
	loadT      time.Duration
	symT       time.Duration
	verbose    bool
	noNative   bool
}

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		ID       string `json:"id"`
		What     string `json:"what"`
	} `json:"findings"`
}

func (r *report) finish() int {
	exit := 0
	fault := func(f string, a ...interface{}) {
		fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+f+"\n", a...)
		if exit == 0 {
			exit = 2
		}
	}
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(r.verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fault("known_findings.json: %v", err)
		}
	}
	listed := map[string]string{}
	for _, f := range kf.Findings {
		if f.Property == r.prop {
			listed[f.ID] = f.What
		}
	}

	var jobs []nativeJob
	type ref struct {
		v *Violation
		s *Sample
		h *Harness
	}
	var refs []ref
	incomplete := map[string]int{}
	reached := map[string]map[string]int{}
	var states, trans, forks, merges, queries, sat, unsat, unk, asserts, assertQ int64
	var solverT time.Duration
	funcs := map[string]bool{}
	hang := map[string]string{}
	for _, jr := range r.results {
		if jr.err != "" {
			hang[jr.h.Name] = jr.err
		}
		E := jr.E
		if E == nil {
			continue
		}
		states += E.States
		trans += E.Instrs
		forks += E.Forks
		merges += E.Merges
		queries += int64(E.sol.Queries)
		sat += int64(E.sol.Sat)
		unsat += int64(E.sol.Unsat)
		unk += int64(E.sol.Unknown)
		asserts += int64(E.Asserts)
		assertQ += int64(E.AssertQ)
		solverT += E.sol.Time
		for m, k := range E.Incomplete {
			incomplete[jr.h.Name+": "+m] += k
		}
		if reached[jr.h.Name] == nil {
			reached[jr.h.Name] = map[string]int{}
		}
		for l, k := range E.Reached {
			reached[jr.h.Name][l] += k
		}
		for f := range E.funcsUsed {
			if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/uber/prototool/internal/") && !strings.HasPrefix(f.Pkg.Pkg.Path(), vpRoot) {
				p := r.posOf(jr.E, f.Pos())
				if strings.Contains(p, "/zzvp/") {
					continue
				}
				funcs[f.String()] = true
			}
		}
		for _, v := range E.Viol {
			v.Harness = jr.h.Name
			tries, sched := 1, false
			for k := range v.Inputs {
				if strings.HasPrefix(k, "perm#") || strings.HasPrefix(k, "sched#") || strings.HasPrefix(k, "sel#") {
					tries = 3000
				}
				if strings.HasPrefix(k, "sched#") || strings.HasPrefix(k, "sel#") {
					sched = true
				}
			}
			race := false
			for k, n := range v.Inputs {
				if strings.HasPrefix(k, "pre#") && n > 0 {
					tries, race = 20, true
				}
			}
			jobs = append(jobs, nativeJob{Harness: jr.h.Name, Inputs: clean(v.Inputs), Shard: v.Shard, Tries: tries, Race: race, Sched: sched && !race})
			refs = append(refs, ref{v: v, h: jr.h})
		}
		for i := range E.Samples {
			s := &E.Samples[i]
			tries := 1
			if s.Perm {
				tries = 1000
			}
			w := s.Obs
			if w == nil {
				w = []string{}
			}
			jobs = append(jobs, nativeJob{Harness: jr.h.Name, Inputs: clean(s.Inputs), Shard: s.Shard, Tries: tries, Want: w})
			refs = append(refs, ref{s: s, h: jr.h})
		}
	}
	nat, err := r.rep.run(jobs)
	if err != nil {
		if r.noNative {
			nat = nil
		} else {
			fault("replay: %v", err)
		}
	}
	validated := 0
	nviol := 0
	var samples []interface{}
	seenFinding := map[string]bool{}
	printed := map[string]bool{}
	if nat != nil {
		for i, n := range nat {
			rf := refs[i]
			if rf.s != nil {
				if len(n.Failed) > 0 || n.Panic != "" || n.Stopped != "" {
					// a failing sample of a passing path: the finding assertion may stop it
					fault("translation mismatch in %s: engine path passes, native says failed=%v panic=%q stopped=%q inputs=%v", rf.h.Name, n.Failed, n.Panic, n.Stopped, rf.s.Inputs)
					continue
				}
				a, b := strings.Join(rf.s.Obs, ";"), strings.Join(n.Obs, ";")
				if a != b {
					if rf.s.Perm {
						continue // this order did not come up natively
					}
					fault("translation mismatch in %s: engine observes %s, native observes %s (inputs %v)", rf.h.Name, a, b, rf.s.Inputs)
					continue
				}
				validated++
				if len(samples) < 6 {
					samples = append(samples, map[string]interface{}{"harness": rf.h.Name, "inputs": nonzero(rf.s.Inputs), "observed": rf.s.Obs})
				}
				continue
			}
			v := rf.v
			if v.Kind == "finding" {
				if len(n.Known) == 0 && len(n.Failed) == 0 && n.Panic == "" {
					fault("finding %s of %s did not reproduce natively (%s)", v.ID, rf.h.Name, v.Msg)
					continue
				}
				if what, ok := listed[v.ID]; ok {
					if !seenFinding[v.ID] {
						fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", r.prop, v.ID, what)
					}
					seenFinding[v.ID] = true
					continue
				}
			} else if len(n.Failed) == 0 && n.Panic == "" && !v.ordered() {
				fault("counterexample of %s did not reproduce natively: %s %q inputs=%v (native: stopped=%q obs=%v)", rf.h.Name, v.Kind, v.Msg, v.Inputs, n.Stopped, n.Obs)
				continue
			}
			nviol++
			if printed[v.Msg] || len(printed) >= 10 {
				continue
			}
			printed[v.Msg] = true
			path := filepath.Join(r.verif, "evidence", fmt.Sprintf("%s-replay-%d.json", r.prop, len(printed)))
			b, _ := json.MarshalIndent(map[string]interface{}{"Packages": r.hn, "Tier": r.tierN, "Job": jobs[i], "Message": v.Msg, "Native": n}, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
			fmt.Printf("  %s: %s %s\n", rf.h.Name, v.Kind, v.Msg)
			fmt.Printf("  inputs: %s\n", pretty(v.Inputs))
			if len(n.Failed) == 0 && n.Panic == "" {
				fmt.Printf("  this schedule or map order did not come up in %d native runs: shown by the execution of the code's SSA under it\n", jobs[i].Tries)
			}
			if n.Panic != "" {
				fmt.Printf("  native panic: %s\n", n.Panic)
			}
			exit = 1
		}
	}
	// vacuity: every harness must reach what it declares
	allEnds := 0
	for _, h := range r.hs {
		want := strings.Split(h.Opts["reach"], ",")
		if h.Opts["reach"] == "" {
			want = nil
		}
		for _, l := range want {
			if reached[h.Name][l] == 0 && nviol == 0 && hang[h.Name] == "" && len(incomplete) == 0 {
				fault("vacuous: %s never reaches %q", h.Name, l)
			}
		}
		ends := 0
		for _, jr := range r.results {
			if jr.h == h && jr.E != nil {
				ends += jr.E.EndPaths
			}
		}
		allEnds += ends
		if ends == 0 && nviol == 0 && hang[h.Name] == "" && len(incomplete) == 0 {
			fault("vacuous: %s has no completed path (%s)", h.Name, hang[h.Name])
		}
	}
	if allEnds == 0 && nviol == 0 {
		fault("nothing was decided")
	}
	var reduced []string
	for n, e := range hang {
		if strings.HasPrefix(e, "encoder error") {
			fault("%s: %s", n, e)
			continue
		}
		reduced = append(reduced, n+": stopped early: "+e)
	}
	for m, k := range incomplete {
		reduced = append(reduced, fmt.Sprintf("%s (%d paths)", m, k))
	}
	sort.Strings(reduced)
	for _, m := range reduced {
		fmt.Printf("REDUCED-BOUND: property=%s %s\n", r.prop, m)
	}
	// a harness that lost paths gives no full answer on its bound
	if len(reduced) > 0 && exit == 0 && os.Getenv("VP_STRICT") != "" {
		exit = 2
	}

	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, "github.com/uber/prototool/internal/", ""))
	}
	sort.Strings(fl)
	var hl []interface{}
	var assume []string
	for _, h := range r.hs {
		var hE int64
		var hq, ha int
		for _, jr := range r.results {
			if jr.h == h && jr.E != nil {
				hE += jr.E.States
				hq += jr.E.sol.Queries
				ha += jr.E.Asserts
			}
		}
		hl = append(hl, map[string]interface{}{"harness": h.Name, "bound": h.Doc, "states": hE, "queries": hq, "assertions": ha, "reach": reached[h.Name]})
	}
	assume = append(assume,
		"bounds are those stated per harness; nothing is claimed outside them",
		"Go SSA (golang.org/x/tools/go/ssa) and z3 are trusted; assembly leaf functions, fmt, sync and zap are replaced by the models in harness/zzvp/models and engine/intrinsics.go",
		"maps iterate in insertion order except in harnesses marked order=any, which explore every order")
	exh := len(reduced) == 0
	ev := map[string]interface{}{
		"property": r.prop,
		"tier":     r.tier,
		"seed":     seed(),
		"level":    "model_checking",
		"wall_s":   time.Since(r.t0).Seconds(),
		"coverage": map[string]interface{}{
			"states":                        states,
			"transitions":                   trans,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"exhaustive":                    exh,
			"explanation":                   "symbolic execution of the SSA of /repo's current source; states are symbolic states (path prefixes after merging), transitions are SSA instructions executed symbolically; every assertion is decided by the SMT solver for all values of the symbolic inputs within the harness bound",
			"functions_encoded":             fl,
			"harnesses":                     hl,
			"forks":                         forks,
			"merges":                        merges,
			"assertions_reached":            asserts,
			"assertions_sent_to_solver":     assertQ,
			"solver_queries":                queries,
			"solver_sat":                    sat,
			"solver_unsat":                  unsat,
			"solver_unknown":                unk,
			"solver_time_s":                 solverT.Seconds(),
			"load_time_s":                   r.loadT.Seconds(),
			"symbolic_time_s":               r.symT.Seconds(),
			"reduced_bounds":                reduced,
			"solver":                        "z3 (z3-new -in), cvc5 as fallback",
		},
		"assumptions": assume,
		"violations":  nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if len(b) > 0 {
		if err := os.WriteFile(filepath.Join(r.verif, "evidence", r.prop+".json"), append(b, '\n'), 0o644); err != nil {
			fault("evidence: %v", err)
		}
	}
	for id := range listed {
		if !seenFinding[id] && r.verbose {
			fmt.Fprintf(os.Stderr, "note: listed finding %s was not seen\n", id)
		}
	}
	if exit == 0 {
		fmt.Printf("OK property=%s tier=%s harnesses=%d states=%d transitions=%d queries=%d validated=%d reduced=%d wall=%.1fs\n", r.prop, r.tier, len(r.hs), states, trans, queries, validated, len(reduced), time.Since(r.t0).Seconds())
	}
	return exit
}

func clean(in map[string]uint64) map[string]uint64 {
	out := map[string]uint64{}
	for k, v := range in {
		if !strings.Contains(k, "#") {
			out[k] = v
		}
	}
	return out
}

func nonzero(in map[string]uint64) map[string]uint64 {
	out := map[string]uint64{}
	for k, v := range in {
		if len(out) < 40 {
			out[k] = v
		}
	}
	return out
}

// pretty groups string inputs.
func pretty(in map[string]uint64) string {
	var ks []string
	for k := range in {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		if strings.HasSuffix(k, ".len") {
			base := strings.TrimSuffix(k, ".len")
			var b []byte
			for i := uint64(0); i < in[k]; i++ {
				b = append(b, byte(in[fmt.Sprintf("%s.%d", base, i)]))
			}
			out = append(out, fmt.Sprintf("%s=%q", base, b))
			continue
		}
		if i := strings.LastIndexByte(k, '.'); i > 0 {
			if _, ok := in[k[:i]+".len"]; ok {
				continue
			}
		}
		out = append(out, fmt.Sprintf("%s=%d", k, in[k]))
	}
	return strings.Join(out, " ")
}

func seed() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func (r *report) posOf(E *Engine, p tokenPos) string {
	return E.world.prog.Fset.Position(p).Filename
}

type tokenPos = token.Pos

// ordered tells whether a violation depends on a schedule or on a map order,
// which the runtime may not choose natively.
func (v *Violation) ordered() bool {
	for k, n := range v.Inputs {
		if strings.HasPrefix(k, "perm#") || strings.HasPrefix(k, "sched#") || strings.HasPrefix(k, "sel#") || strings.HasPrefix(k, "pre#") && n > 0 {
			return true
		}
	}
	return false
}
