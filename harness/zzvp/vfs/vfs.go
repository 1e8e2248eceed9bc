// Package vfs is the file tree and the programs a harness gives to the code
// under test. Natively it is a scratch directory; in the engine it is the
// model of files in models.go, which stands for the os package.
package vfs

import (
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/uber/prototool/internal/zzvp/vp"
)

var native string

// Root is the directory everything happens in.
func Root() string {
	if vp.Symbolic() {
		start()
		return symRoot
	}
	if native == "" {
		d, err := os.MkdirTemp("", "vpfs")
		if err != nil {
			panic(err)
		}
		if d, err = filepath.EvalSymlinks(d); err != nil {
			panic(err)
		}
		native = d
		vp.OnEnd(func() {
			os.Chdir(os.TempDir())
			os.RemoveAll(native)
			native = ""
		})
	}
	return native
}

// Path is the absolute path of rel below the root.
func Path(rel string) string { return filepath.Join(Root(), rel) }

// Dir makes a directory with its parents.
func Dir(rel string) {
	if err := os.MkdirAll(Path(rel), 0755); err != nil {
		panic(err)
	}
}

// File writes a file, making its directory.
func File(rel string, data string) {
	Dir(filepath.Dir(rel))
	if err := os.WriteFile(Path(rel), []byte(data), 0644); err != nil {
		panic(err)
	}
}

// FileIf writes a file if c holds; its directory is made in any case.
func FileIf(c bool, rel string, data string) {
	Dir(filepath.Dir(rel))
	if vp.Symbolic() {
		n := put(Path(rel), false)
		n.data = []byte(data)
		n.live = c
		return
	}
	if c {
		File(rel, data)
	}
}

// Exists reports whether something is at rel.
func Exists(rel string) bool {
	_, err := os.Stat(Path(rel))
	return err == nil
}

// Read is the content of a file, or "<missing>".
func Read(rel string) string {
	b, err := os.ReadFile(Path(rel))
	if err != nil {
		return "<missing>"
	}
	return string(b)
}

// List has the relative path of every file below the root.
func List() []string {
	var l []string
	filepath.Walk(Root(), func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			if r, err := filepath.Rel(Root(), p); err == nil {
				l = append(l, r)
			}
		}
		return nil
	})
	return l
}

// Chdir makes rel the working directory.
func Chdir(rel string) {
	if vp.Symbolic() {
		start()
		cwd = Path(rel)
		return
	}
	if err := os.Chdir(Path(rel)); err != nil {
		panic(err)
	}
}

// Rule is what a program does when its arguments contain Match (one argument
// per line). Out is written to the file named by the argument after -o, if any.
type Rule struct {
	Match  string
	Stdout string
	Stderr string
	Exit   int
	Out    string
	// Copy is a directory whose tree is copied to the last argument.
	Copy string
}

// Program is an executable that records its calls and answers by the first
// matching rule; without one it fails with status 99.
func Program(rel string, rules ...Rule) {
	if vp.Symbolic() {
		Dir(filepath.Dir(rel))
		n := put(Path(rel), false)
		n.data = []byte("program")
		n.mode = 0755
		n.rules = rules
		return
	}
	os.MkdirAll(filepath.Dir(Path(rel)), 0755)
	if err := os.WriteFile(Path(rel), []byte(script(rel, rules)), 0755); err != nil {
		panic(err)
	}
}

// Script is the content of a program that works like Program with the name.
func Script(rel string, rules ...Rule) string {
	if vp.Symbolic() {
		scripts = append(scripts, rules)
		return scriptToken + strconv.Itoa(len(scripts)-1)
	}
	return script(rel, rules)
}

const scriptToken = "#!vp"

var scripts [][]Rule

func script(rel string, rules []Rule) string {
	d := Path(".vp/" + rel)
	os.MkdirAll(d, 0755)
	s := "#!/bin/sh\nf=$(mktemp " + d + "/call.XXXXXX)\nprintf '%s\\n' \"$@\" > \"$f\"\na=\"\n$(cat \"$f\")\n\"\nw=\nwhile [ $# -gt 1 ]; do [ \"$1\" = -o ] && w=$2; shift; done\nt=$1\n"
	for i, r := range rules {
		b := d + "/" + strconv.Itoa(i)
		os.WriteFile(b+".out", []byte(r.Stdout), 0644)
		os.WriteFile(b+".err", []byte(r.Stderr), 0644)
		os.WriteFile(b+".match", []byte(r.Match), 0644)
		put := ""
		if r.Out != "" {
			os.WriteFile(b+".file", []byte(r.Out), 0644)
			put = "[ -n \"$w\" ] && cat " + b + ".file > \"$w\"; "
		}
		if r.Copy != "" {
			put += "cp -R " + Path(r.Copy) + "/. \"$t\"; "
		}
		s += "m=$(cat " + b + ".match)\ncase \"$a\" in *\"$m\"*) " + put + "cat " + b + ".out; cat " + b + ".err >&2; exit " + strconv.Itoa(r.Exit) + ";; esac\n"
	}
	return s + "exit 99\n"
}

// Temp is the content of a temporary file outside of the root.
func Temp(p string) string {
	if vp.Symbolic() {
		n := find(p)
		if n == nil || n.dir {
			return "\xff no file"
		}
		return string(n.data)
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return "\xff no file"
	}
	os.Remove(p)
	return string(b)
}

// Calls has the arguments of every call of a program, one per line, sorted.
func Calls(rel string) []string {
	var l []string
	if vp.Symbolic() {
		for _, c := range calls {
			if c.path == Path(rel) {
				l = append(l, c.args)
			}
		}
	} else {
		fs, _ := filepath.Glob(Path(".vp/"+rel) + "/call.*")
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			l = append(l, strings.TrimSuffix(string(b), "\n"))
		}
	}
	sort.Strings(l)
	return l
}

// OnPath is a program that is found by its name.
func OnPath(name string, rules ...Rule) {
	Program("onpath/"+name, rules...)
	if vp.Symbolic() {
		return
	}
	old := os.Getenv("PATH")
	os.Setenv("PATH", Path("onpath")+":"+old)
	vp.OnEnd(func() { os.Setenv("PATH", old) })
}

// NoDiff takes the program diff away.
func NoDiff() {
	if vp.Symbolic() {
		noDiff = true
		return
	}
	old := os.Getenv("PATH")
	os.Setenv("PATH", Path("nowhere"))
	vp.OnEnd(func() { os.Setenv("PATH", old) })
}

// Setenv sets an environment variable.
func Setenv(k, v string) {
	if vp.Symbolic() {
		if env == nil {
			env = map[string]string{}
		}
		env[k] = v
		return
	}
	old, had := os.LookupEnv(k)
	os.Setenv(k, v)
	vp.OnEnd(func() {
		os.Unsetenv(k)
		if had {
			os.Setenv(k, old)
		}
	})
}
