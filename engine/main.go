package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type jobResult struct {
	h      *Harness
	shard  int
	E      *Engine
	err    string // the run stopped early
	wall   time.Duration
	engine string
}

func runJob(w *World, h *Harness, shard, shards, tier int, deadline time.Time, samples int, opts Config) (jr *jobResult) {
	t0 := time.Now()
	jr = &jobResult{h: h, shard: shard}
	cfg := opts
	cfg.Shard, cfg.Shards, cfg.Tier, cfg.Deadline, cfg.Samples = shard, shards, tier, deadline, samples
	E, err := NewEngine(w, cfg)
	if err != nil {
		jr.err = err.Error()
		return
	}
	jr.E = E
	defer func() {
		E.sol.Close()
		if E.sol2 != nil {
			E.sol2.Close()
		}
		if r := recover(); r != nil {
			switch x := r.(type) {
			case budget:
				jr.err = x.msg
			case unsupported:
				E.Incomplete[x.msg]++
			default:
				where := ""
				for i := len(E.curFn) - 1; i >= 0 && i > len(E.curFn)-5; i-- {
					where += " < " + E.curFn[i].String()
				}
				jr.err = fmt.Sprintf("engine fault: %v%s", r, where)
				if os.Getenv("VP_STACK") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}
		}
		jr.wall = time.Since(t0)
		E.release()
	}()
	st := &State{model: NewModel(), epoch: E.newEpoch(), next: 1}
	if h.Opts["order"] == "any" {
		st.perm = 1
	}
	if h.Opts["order"] == "maps" {
		st.perm = 2
	}
	if h.Opts["merge"] == "off" {
		E.cfg.NoMerge = true
	}
	if h.Opts["strmerge"] == "off" {
		E.cfg.NoStrMerge = true
	}
	rs := E.exec(h.Fn, st, nil, nil)
	// pending goroutines still run
	for _, r := range rs {
		E.endPath(r)
	}
	return
}

// release drops what a finished run no longer needs.
func (E *Engine) release() {
	E.c = &Ctx{n: E.c.n}
	E.base, E.cexs, E.unsatC, E.constC = nil, nil, nil, nil
	E.glob, E.inited, E.implC, E.methC, E.curFn = nil, nil, nil, nil, nil
	s := *E.sol
	E.sol = &Solver{Queries: s.Queries, Sat: s.Sat, Unsat: s.Unsat, Unknown: s.Unknown, Time: s.Time}
	E.sol2 = nil
}

// memStop ends the running jobs when they hold too much memory.
var memStop int32

func watchMemory(limit uint64) {
	debug.SetMemoryLimit(int64(limit) / 2)
	for {
		time.Sleep(200 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > limit {
			atomic.StoreInt32(&memStop, 1)
			time.Sleep(time.Second)
			runtime.GC()
			runtime.ReadMemStats(&m)
			if m.HeapAlloc < limit {
				atomic.StoreInt32(&memStop, 0)
			}
		}
	}
}

func (E *Engine) endPath(r res) {
	E.EndPaths++
	if r.pan {
		msg := "panic"
		if i, ok := r.v.(Iface); ok && i.t != nil {
			if s, ok := i.v.(*Str); ok {
				msg = "panic: " + E.concStr(s, r.st.model)
			} else {
				msg = "panic: " + i.t.String()
			}
		}
		E.violation(r.st, msg, "panic", "")
		return
	}
	if len(E.Samples) < E.cfg.Samples {
		E.Samples = append(E.Samples, E.sample(r.st))
	}
	// further diverse samples of the same path: other models seen
	for _, m := range E.cexs {
		if len(E.Samples) >= E.cfg.Samples {
			break
		}
		ok := true
		for p := r.st.pc; p != nil; p = p.parent {
			if m.Eval(p.cond) == 0 {
				ok = false
				break
			}
		}
		if ok {
			s := *r.st
			s.model = m
			E.Samples = append(E.Samples, E.sample(&s))
		}
	}
}

func (E *Engine) sample(st *State) Sample {
	s := Sample{Inputs: E.inputsOf(st), Shard: E.cfg.Shard, Perm: E.permChoices > 0}
	var obs []string
	for l := st.obs; l != nil; l = l.parent {
		o := l.v.(obsRec)
		var t string
		switch x := o.v.(type) {
		case *Str:
			t = strconv.Quote(E.concStr(x, st.model))
		case *Expr:
			k := st.model.Eval(x)
			if x.w == 0 {
				t = strconv.FormatBool(k != 0)
			} else {
				t = strconv.Itoa(int(sext64(k, x.w)))
			}
		}
		obs = append([]string{o.label + "=" + t}, obs...)
	}
	s.Obs = obs
	return s
}

// ---- native replay ----

type Replayer struct {
	dir   string
	bin   string
	err   error
	ready chan struct{}
	repo  string
	ov    string // overlay file
	tier  int
}

type nativeJob struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Shard   int               `json:"shard"`
	Tries   int               `json:"tries"`
	Want    []string          `json:"want"`
	Race    bool              `json:"race"`  // decided by the race detector
	Sched   bool              `json:"sched"` // needs a schedule
}

type nativeRes struct {
	Failed  []string
	Reached []string
	Obs     []string
	Known   []string
	Panic   string
	Stopped string
	Order   bool
}

func (r *Replayer) build(repo, verif string, hnames []string, hs []string) {
	defer close(r.ready)
	want := map[string]bool{}
	for _, n := range hnames {
		want[n] = true
	}
	files, err := overlayFiles(repo, verif, want)
	if err != nil {
		r.err = err
		return
	}
	var b bytes.Buffer
	b.WriteString("package main\n\nimport (\n\t\"" + vpRoot + "/vp\"\n")
	for _, n := range hnames {
		fmt.Fprintf(&b, "\th_%s \"%s/h/%s\"\n", n, vpRoot, n)
	}
	b.WriteString(")\n\nfunc main() {\n\tvp.Main(map[string]func(){\n")
	for _, h := range hs {
		p, f, _ := strings.Cut(h, ".")
		fmt.Fprintf(&b, "\t\t%q: h_%s.%s,\n", h, p, f)
	}
	b.WriteString("\t})\n}\n")
	mainF := filepath.Join(r.dir, "main.go")
	if r.err = os.WriteFile(mainF, b.Bytes(), 0o644); r.err != nil {
		return
	}
	files[filepath.Join(repo, "internal", "zzvp", "replay", "main.go")] = mainF
	// the models package is engine only
	ov, _ := json.Marshal(map[string]interface{}{"Replace": files})
	ovF := filepath.Join(r.dir, "overlay.json")
	if r.err = os.WriteFile(ovF, ov, 0o644); r.err != nil {
		return
	}
	r.bin = filepath.Join(r.dir, "replay")
	r.repo, r.ov = repo, ovF
	r.err = r.gobuild(r.bin)
}

func (r *Replayer) gobuild(bin string, args ...string) error {
	cmd := exec.Command("go", append(append([]string{"build", "-overlay", r.ov, "-o", bin}, args...), "./internal/zzvp/replay")...)
	cmd.Dir = r.repo
	cmd.Env = goEnv(r.repo)
	if len(args) > 0 {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v\n%s", err, out)
	}
	return nil
}

// run replays the jobs: those whose schedule stops a goroutine between two
// accesses to a variable with the race detector, one by one.
func (r *Replayer) run(jobs []nativeJob) ([]nativeRes, error) {
	<-r.ready
	if r.err != nil {
		return nil, r.err
	}
	var plain, race []nativeJob
	for _, j := range jobs {
		if j.Race {
			race = append(race, j)
		} else {
			plain = append(plain, j)
		}
	}
	ps, _, err := r.exec(r.bin, plain)
	if err != nil {
		return ps, err
	}
	// a schedule that does not come up with all processors may with one
	for i, n := range plain {
		if !n.Sched || len(ps[i].Failed) > 0 || ps[i].Panic != "" || len(ps[i].Known) > 0 {
			continue
		}
		n.Tries = 20
		rs, _, err := r.exec("taskset", []nativeJob{n}, "-c", "0", r.bin)
		if err == nil && len(rs) == 1 {
			ps[i] = rs[0]
		}
		if i >= 20 {
			break
		}
	}
	if len(race) == 0 {
		return ps, err
	}
	bin := r.bin + "-race"
	if err := r.gobuild(bin, "-race"); err != nil {
		return nil, err
	}
	var out []nativeRes
	for i, n := range jobs {
		if !n.Race {
			out = append(out, ps[0])
			ps = ps[1:]
			continue
		}
		var res nativeRes
		if i < 40 {
			rs, se, err := r.exec(bin, []nativeJob{n})
			if len(rs) == 1 {
				res = rs[0]
			}
			if strings.Contains(se, "WARNING: DATA RACE") {
				res.Failed = append(res.Failed, "data race: "+tail(se, 3000))
			} else if err != nil {
				return nil, err
			}
		}
		out = append(out, res)
	}
	return out, nil
}

func (r *Replayer) exec(bin string, jobs []nativeJob, args ...string) ([]nativeRes, string, error) {
	if len(jobs) == 0 {
		return nil, "", nil
	}
	in, _ := json.Marshal(jobs)
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	// The code under test may write files: it runs as an unprivileged user
	// whose only writable place is a scratch directory.
	home := filepath.Join(r.dir, "home")
	os.MkdirAll(home, 0o755)
	cmd.Dir = home
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + home, "TMPDIR=" + home, "LANG=C", "VP_TIER=" + strconv.Itoa(r.tier), "VP_DEBUG=" + os.Getenv("VP_DEBUG")}
	if os.Getuid() == 0 {
		const nobody = 65534
		os.Chmod(r.dir, 0o755)
		if err := os.Chown(home, nobody, nobody); err != nil {
			return nil, "", err
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	cmd.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		var out []nativeRes
		json.Unmarshal(so.Bytes(), &out)
		return out, se.String(), fmt.Errorf("native run: %v %s", err, tail(se.String(), 2000))
	}
	var out []nativeRes
	if err := json.Unmarshal(so.Bytes(), &out); err != nil {
		return nil, "", err
	}
	return out, se.String(), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---- the check command ----

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check|list|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		exit(checkCmd(os.Args[2:]))
	case "replay":
		exit(replayCmd(os.Args[2:]))
	}
	os.Exit(2)
}

func exit(code int) {
	if modDir != "" {
		os.RemoveAll(modDir)
	}
	os.Exit(code)
}

func replayCmd(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Packages []string
		Job      nativeJob
		Tier     int
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, _ := os.MkdirTemp("", "vpreplay")
	defer os.RemoveAll(dir)
	r := &Replayer{dir: dir, ready: make(chan struct{}), tier: f.Tier}
	r.build(*repo, *verif, f.Packages, []string{f.Job.Harness})
	res, err := r.run([]nativeJob{f.Job})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o, _ := json.MarshalIndent(res[0], "", " ")
	fmt.Println(string(o))
	if len(res[0].Failed) > 0 || res[0].Panic != "" {
		return 1
	}
	return 0
}

func checkCmd(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tierS := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	pkgs := fs.String("pkgs", "", "harness packages, comma separated")
	only := fs.String("only", "", "run only harnesses whose name contains this")
	verbose := fs.Bool("v", false, "")
	workers := fs.Int("j", runtime.NumCPU(), "")
	traceMerge := fs.Bool("tracemerge", false, "")
	cpuprof := fs.String("cpuprofile", "", "")
	memGB := fs.Int("mem", 20, "memory limit in GB")
	limit := fs.Duration("limit", 0, "time limit of the symbolic runs")
	shardOnly := fs.Int("shard", -1, "")
	noNative := fs.Bool("nonative", false, "")
	fs.Parse(args)
	t0 := time.Now()
	debug.SetGCPercent(400)
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	tier := 0
	if *tierS == "thorough" {
		tier = 1
	}
	if *limit == 0 {
		*limit = 420 * time.Second
		if tier == 1 {
			*limit = 700 * time.Second
		}
	}
	hn := strings.Split(*pkgs, ",")
	// a package may come with tier defaults
	w, err := loadWorld(*repo, *verif, hn)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the program:", err)
		return 2
	}
	loadT := time.Since(t0)
	var hs []*Harness
	var hnm []string
	for _, h := range w.harness {
		if h.Prop != *prop {
			continue
		}
		if h.Opts["tier"] == "thorough" && tier == 0 {
			continue
		}
		if *only != "" && !strings.Contains(h.Name, *only) {
			continue
		}
		hs = append(hs, h)
		hnm = append(hnm, h.Name)
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		return 2
	}
	dir, err := os.MkdirTemp("", "vpcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	rep := &Replayer{dir: dir, ready: make(chan struct{}), tier: tier}
	if *noNative {
		rep.err = fmt.Errorf("native replay disabled")
		close(rep.ready)
	} else {
		go rep.build(*repo, *verif, hn, hnm)
	}

	type task struct {
		h     *Harness
		shard int
		n     int
	}
	var tasks []task
	for _, h := range hs {
		n := 1
		if s := h.Opts["shards"]; s != "" {
			n, _ = strconv.Atoi(s)
		}
		for i := 0; i < n; i++ {
			if *shardOnly >= 0 && i != *shardOnly {
				continue
			}
			tasks = append(tasks, task{h, i, n})
		}
	}
	// longest first by hint, else one shard of each harness after the other
	sort.SliceStable(tasks, func(i, j int) bool {
		if weight(tasks[i].h) != weight(tasks[j].h) {
			return weight(tasks[i].h) > weight(tasks[j].h)
		}
		return tasks[i].shard < tasks[j].shard
	})
	deadline := t0.Add(*limit)
	go watchMemory(uint64(*memGB) << 30)
	results := make([]*jobResult, len(tasks))
	ch := make(chan int)
	var wg sync.WaitGroup
	for i := 0; i < *workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range ch {
				t := tasks[k]
				// no run may keep the others from starting
				d := deadline
				if x := time.Now().Add(*limit / 2); x.Before(d) {
					d = x
				}
				results[k] = runJob(w, t.h, t.shard, t.n, tier, d, samplesOf(t.n), Config{TraceMerge: *traceMerge})
				if *verbose {
					printJob(results[k], t.n)
				}
			}
		}()
	}
	for k := range tasks {
		ch <- k
	}
	close(ch)
	wg.Wait()
	symT := time.Since(t0)
	rp := &report{prop: *prop, tier: *tierS, tierN: tier, verif: *verif, hn: hn, results: results, hs: hs, rep: rep, t0: t0, loadT: loadT, symT: symT, verbose: *verbose, noNative: *noNative}
	return rp.finish()
}

func samplesOf(shards int) int {
	if shards >= 8 {
		return 6
	}
	if shards > 1 {
		return 12
	}
	return 24
}

func weight(h *Harness) int {
	n, _ := strconv.Atoi(h.Opts["weight"])
	return n
}

func printJob(r *jobResult, n int) {
	E := r.E
	if E == nil {
		fmt.Fprintf(os.Stderr, "%s: %s\n", r.h.Name, r.err)
		return
	}
	fmt.Fprintf(os.Stderr, "%s[%d/%d] %.1fs instr=%d states=%d forks=%d merges=%d mfail=%d ends=%d asserts=%d/%d queries=%d (sat %d unsat %d unk %d) solver=%.1fs cache=%d tab=%d exprs=%d viol=%d err=%q\n",
		r.h.Name, r.shard, n, r.wall.Seconds(), E.Instrs, E.States, E.Forks, E.Merges, E.MergeFails, E.EndPaths, E.Asserts, E.AssertQ, E.sol.Queries, E.sol.Sat, E.sol.Unsat, E.sol.Unknown, E.sol.Time.Seconds(), E.CacheHits, E.TabHits, E.c.n, len(E.Viol), r.err)
	for m, k := range E.Incomplete {
		fmt.Fprintf(os.Stderr, "   incomplete x%d: %s\n", k, m)
	}
	for m := range E.initWarn {
		if os.Getenv("VP_INIT") != "" {
			fmt.Fprintf(os.Stderr, "   init: %s\n", m)
		}
	}
	for _, v := range E.Viol {
		fmt.Fprintf(os.Stderr, "   VIOL %s %q x%d in %s\n", v.Kind, v.Msg, v.Count, v.Where)
		if os.Getenv("VP_INPUTS") != "" {
			fmt.Fprintf(os.Stderr, "        %v\n", v.Inputs)
		}
	}
	if os.Getenv("VP_FORKS") != "" {
		type kv struct {
			k string
			n int
		}
		var l []kv
		for k, n := range E.forkProf {
			l = append(l, kv{k, n})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
		for i, x := range l {
			if i > 14 {
				break
			}
			fmt.Fprintf(os.Stderr, "   forks %6d %s\n", x.n, x.k)
		}
	}
}
