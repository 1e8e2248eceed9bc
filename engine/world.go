package main

import (
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const vpRoot = "github.com/uber/prototool/internal/zzvp"

// World is the loaded program.
type World struct {
	prog    *ssa.Program
	mu      sync.Mutex
	models  map[string]*ssa.Function
	hooks   sync.Map // *ssa.Function -> *hook
	byName  sync.Map
	harness []*Harness
	pkgs    map[string]*ssa.Package
}

type hook struct {
	intr     func(*Engine, *State, *ssa.Function, []Value) []res
	redirect *ssa.Function
}

// Harness is one entry point.
type Harness struct {
	Prop    string
	Name    string // pkgpath.Func
	Fn      *ssa.Function
	Pkg     string
	Opts    map[string]string
	Doc     string
	Asserts int
}

// overlayFiles maps /repo paths to /verif files. Only harness packages in want are included.
func overlayFiles(repo, verif string, want map[string]bool) (map[string]string, error) {
	out := map[string]string{}
	root := filepath.Join(verif, "harness", "zzvp")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		parts := strings.Split(rel, string(filepath.Separator))
		if parts[0] == "h" && want != nil && !want[parts[1]] {
			return nil
		}
		out[filepath.Join(repo, "internal", "zzvp", rel)] = p
		return nil
	})
	if err != nil {
		return nil, err
	}
	// in-package harness helpers: harness/inpkg/<need>/<dir>/file.go is added to
	// /repo/internal/<dir> when harness package <need> is wanted
	in := filepath.Join(verif, "harness", "inpkg")
	if _, err := os.Stat(in); err == nil {
		err = filepath.Walk(in, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return err
			}
			rel, _ := filepath.Rel(in, p)
			parts := strings.Split(rel, string(filepath.Separator))
			if want != nil && !want[parts[0]] {
				return nil
			}
			dst := filepath.Join(repo, "internal", filepath.Join(parts[1:len(parts)-1]...), "zz_vp_"+parts[0]+"_"+parts[len(parts)-1])
			out[dst] = p
			return nil
		})
	}
	return out, err
}

// modDir has copies of go.mod and go.sum, so that the go command does not write
// those of the repository.
var modDir string

func modCopy(repo string) string {
	if modDir == "" {
		d, err := os.MkdirTemp("", "vpmod")
		if err != nil {
			return ""
		}
		modDir = d
		for _, n := range []string{"go.mod", "go.sum"} {
			b, err := os.ReadFile(filepath.Join(repo, n))
			if err == nil {
				err = os.WriteFile(filepath.Join(d, n), b, 0o644)
			}
			if err != nil && n == "go.mod" {
				return ""
			}
		}
	}
	return " -modfile=" + filepath.Join(modDir, "go.mod")
}

func goEnv(repo string) []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod"+modCopy(repo), "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

// loadWorld loads the harness packages of the given names from repo's current tree.
func loadWorld(repo, verif string, hnames []string) (*World, error) {
	want := map[string]bool{}
	for _, n := range hnames {
		want[n] = true
	}
	files, err := overlayFiles(repo, verif, want)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(repo), Overlay: ov}
	pats := []string{vpRoot + "/vp", vpRoot + "/models", "sort", "unicode/utf8"}
	for _, n := range hnames {
		pats = append(pats, vpRoot+"/h/"+n)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 20 {
				fmt.Fprintln(os.Stderr, "load:", e)
			}
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d load errors", nerr)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, models: map[string]*ssa.Function{}, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
	}
	var scan []*packages.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, vpRoot+"/") {
			scan = append(scan, p)
		}
	})
	for _, p := range scan {
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					if strings.HasPrefix(t, "vp:model ") {
						w.models[strings.TrimSpace(strings.TrimPrefix(t, "vp:model "))] = sp.Func(fd.Name.Name)
					}
					if strings.HasPrefix(t, "vp:harness ") {
						fs := strings.Fields(t)[1:]
						h := &Harness{Prop: fs[0], Name: filepath.Base(p.PkgPath) + "." + fd.Name.Name, Fn: sp.Func(fd.Name.Name), Pkg: p.PkgPath, Opts: map[string]string{}}
						for _, o := range fs[1:] {
							k, v, _ := strings.Cut(o, "=")
							h.Opts[k] = v
						}
						var doc []string
						for _, l := range strings.Split(fd.Doc.Text(), "\n") {
							if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "vp:") {
								doc = append(doc, l)
							}
						}
						h.Doc = strings.Join(doc, " ")
						w.harness = append(w.harness, h)
					}
				}
			}
		}
	}
	sort.Slice(w.harness, func(i, j int) bool { return w.harness[i].Name < w.harness[j].Name })
	return w, nil
}

func (w *World) fnByName(pkg, name string) *ssa.Function {
	k := pkg + "." + name
	if f, ok := w.byName.Load(k); ok {
		return f.(*ssa.Function)
	}
	p := w.pkgs[pkg]
	if p == nil || p.Func(name) == nil {
		unsup("function %s not loaded", k)
	}
	w.byName.Store(k, p.Func(name))
	return p.Func(name)
}

func (w *World) hookOf(fn *ssa.Function) *hook {
	if h, ok := w.hooks.Load(fn); ok {
		return h.(*hook)
	}
	h := &hook{}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if i, ok := intrinsics[name]; ok {
		h.intr = i
	} else if m, ok := w.models[name]; ok {
		h.redirect = m
	} else if i := intrinsicByPattern(fn, name); i != nil {
		h.intr = i
	}
	w.hooks.Store(fn, h)
	return h
}
