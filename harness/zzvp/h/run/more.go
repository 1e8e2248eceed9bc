package run

import (
	"sort"
	"strings"

	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/conf"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
	_ "github.com/uber/prototool/internal/zzvp/zips"
)

// The ignores that lint --generate-ignores prints for two files with failures of two rules, of which some are ignored already, put in the configuration: they list exactly the failures, and lint then has none.
//
//vp:harness L02 reach=none,some merge=off
func Ignores() {
	e := settings.ExternalConfig{}
	e.Lint.Rules.NoDefault = true
	ids := []string{"MESSAGE_NAMES_CAMEL_CASE", "FILE_OPTIONS_REQUIRE_GO_PACKAGE"}
	e.Lint.Rules.Add = ids
	type ignore = struct {
		ID    string   `json:"id,omitempty" yaml:"id,omitempty"`
		Files []string `json:"files,omitempty" yaml:"files,omitempty"`
	}
	switch vp.Choice("before", 3) {
	case 1:
		e.Lint.Ignores = append(e.Lint.Ignores, ignore{ids[0], []string{"b"}})
	case 2:
		e.Lint.Ignores = append(e.Lint.Ignores, ignore{ids[1], []string{"a.proto"}}, ignore{ids[0], []string{"b/b.proto", "c"}})
	}
	vfs.File("w/prototool.yaml", conf.Text(e))
	want := map[string]string{}
	for _, n := range []string{"a.proto", "b/b.proto"} {
		s := "syntax = \"proto3\";\n"
		if vp.Bool("package " + n) {
			want[ids[1]] += n + ";"
		} else {
			s += "\noption go_package = \"x\";\n"
		}
		if vp.Bool("name " + n) {
			want[ids[0]] += n + ";"
			s += "\nmessage a_b {}\nmessage b_c {}\n"
		}
		vfs.File("w/"+n, s)
	}
	protoc(fine)
	args := []string{"lint"}
	switch vp.Choice("input", 3) {
	case 1:
		args = append(args, ".")
	case 2:
		args = append(args, vfs.Path("w"))
	}
	before := state()
	status, got := do(append(append([]string(nil), args...), "--generate-ignores")...)
	vp.Assert(status == 0 && state() == before, "ignores are printed")
	if len(want) == 0 {
		vp.Assert(got == "", "without failures nothing is printed")
		vp.Reach("none")
		return
	}
	r, err := conf.Parse(got)
	vp.Assert(err == nil, "what is printed is a configuration")
	last := ""
	for _, i := range r.Lint.Ignores {
		vp.Assert(i.ID > last, "the rules are listed in order, each once")
		last = i.ID
		vp.Assert(strings.Join(i.Files, ";")+";" == want[i.ID], "exactly the files with failures of the rule are listed, in order")
	}
	vp.Assert(len(r.Lint.Ignores) == len(want), "every rule with failures is listed")
	e.Lint.Ignores = r.Lint.Ignores
	vfs.File("w/prototool.yaml", conf.Text(e))
	status, got = do(args...)
	vp.Assert(status == 0 && got == "", "with these ignores there is no failure")
	vp.Reach("some")
}

// The files listed for six inputs, in a tree of five proto files and others, of which a file, a directory or nothing is excluded by one of two configurations, or by flag.
//
//vp:harness F04 reach=listed,error merge=off
func Files() {
	names := []string{"a.proto", "b/b.proto", "b/c/d.proto", "ba/e.proto", "f/g.proto"}
	for _, n := range names {
		vfs.File("w/"+n, plain)
	}
	vfs.File("w/b/b.prototool", plain)
	vfs.File("w/b/proto", plain)
	e := settings.ExternalConfig{}
	ex := []string{"", "b", "b/b.proto", "b/c", "a.proto"}[vp.Choice("exclude", 5)]
	if ex != "" {
		e.Excludes = []string{ex}
	}
	args := []string{"files"}
	nested := false
	switch vp.Choice("config", 3) {
	case 0:
		vfs.File("w/prototool.yaml", conf.Text(e))
	case 1:
		vfs.File("w/prototool.json", conf.Text(e))
		vfs.File("w/f/prototool.yaml", "")
		nested = true
	case 2:
		args = append(args, "--config-data="+conf.Text(e))
	}
	protoc(fine)
	in := []string{"", ".", "b", "ba", "b/b.proto", "ABS", "f", "nothing", "b/b.prototool"}[vp.Choice("input", 9)]
	dir := in
	if in == "ABS" {
		in, dir = vfs.Path("w/b"), "b"
	}
	if in != "" {
		args = append(args, in)
	}
	status, got := do(args...)
	if nested && dir != "f" || dir == "nothing" {
		vp.Assert(status != 0, "several configurations and missing files are errors")
		vp.Reach("error")
		return
	}
	var want []string
	for _, n := range names {
		switch {
		case ex != "" && (n == ex || strings.HasPrefix(n, ex+"/")) && !(nested && n[0] == 'f'):
		case strings.HasPrefix(dir, "b/b"):
			// a file stands for its directory
			if strings.HasPrefix(n, "b/") {
				want = append(want, n)
			}
		case dir == "" || dir == "." || strings.HasPrefix(n, dir+"/"):
			want = append(want, n)
		}
	}
	vp.Observe("got", got)
	sort.Strings(want)
	s := ""
	for _, n := range want {
		s += n + "\n"
	}
	if len(want) == 0 {
		vp.Reach("error")
		return
	}
	vp.Assert(status == 0 && got == s, "exactly the files are listed, in order")
	vp.Reach("listed")
}

type plugin = struct {
	Name              string `json:"name,omitempty" yaml:"name,omitempty"`
	Type              string `json:"type,omitempty" yaml:"type,omitempty"`
	Flags             string `json:"flags,omitempty" yaml:"flags,omitempty"`
	Output            string `json:"output,omitempty" yaml:"output,omitempty"`
	Path              string `json:"path,omitempty" yaml:"path,omitempty"`
	FileSuffix        string `json:"file_suffix,omitempty" yaml:"file_suffix,omitempty"`
	IncludeImports    bool   `json:"include_imports,omitempty" yaml:"include_imports,omitempty"`
	IncludeSourceInfo bool   `json:"include_source_info,omitempty" yaml:"include_source_info,omitempty"`
}

// The commands that compile and generate print with --dry-run, and those they run without, for two directories, up to two plugins, and four inputs.
//
//vp:harness P02 reach=end merge=off
func DryRun() {
	e := settings.ExternalConfig{}
	plugins := vp.Choice("plugins", 3)
	for i := 0; i < plugins; i++ {
		e.Generate.Plugins = append(e.Generate.Plugins, plugin{Name: []string{"x", "y"}[i], Flags: []string{"", "f=1"}[i], Output: []string{"out", "../gen"}[i]})
	}
	e.Protoc.Includes = []string{"inc"}[:vp.Choice("includes", 2)]
	vfs.File("w/prototool.yaml", conf.Text(e))
	vfs.File("w/a.proto", plain)
	vfs.File("w/b/b.proto", plain)
	vfs.File("w/b/c.proto", plain)
	protoc(fine)
	args := []string{"generate"}
	if vp.Bool("compile") {
		args = []string{"compile"}
	}
	switch vp.Choice("input", 4) {
	case 1:
		args = append(args, "b")
	case 2:
		args = append(args, "a.proto")
	case 3:
		args = append(args, vfs.Path("w/b/c.proto"))
	}
	before := state()
	status, got := do(append(append([]string(nil), args...), "--dry-run")...)
	vp.Assert(status == 0 && len(vfs.Calls("bin/protoc")) == 0, "nothing is run")
	vp.Assert(state() == before, "no file is changed")
	status, out := do(args...)
	vp.Assert(status == 0 && out == "", "nothing is printed")
	want := vfs.Calls("bin/protoc")
	vp.Assert(len(want) > 0, "protoc is run")
	for i, c := range want {
		want[i] = vfs.Path("bin/protoc") + " " + strings.Replace(c, "\n", " ", -1)
	}
	sort.Strings(want)
	l := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
	sort.Strings(l)
	vp.Assert(strings.Join(l, "\n") == strings.Join(want, "\n"), "exactly the commands are printed")
	vp.Reach("end")
}

// The command all for a file with any of four contents, another that is fine, while protoc fails or not when it compiles, compiles again and generates, with formatting or linting disabled or not.
//
//vp:harness E01 reach=compile,format,generate,lint,fine merge=off
func All() {
	e := settings.ExternalConfig{}
	e.Lint.Rules.NoDefault = true
	e.Lint.Rules.Add = []string{"MESSAGE_NAMES_CAMEL_CASE"}
	e.Generate.Plugins = []plugin{{Name: "x", Output: "out"}}
	vfs.File("w/prototool.yaml", conf.Text(e))
	vfs.File("w/a.proto", plain)
	in := []string{"syntax=\"proto3\";message M{}", "syntax=\"proto3\";message a_b{}", "syntax = \"proto3\";\n\nmessage M {}\n", "syntax=\"proto3\"; message {"}[vp.Choice("file", 4)]
	vfs.File("w/b/b.proto", in)
	compile, generate := vp.Bool("compile"), vp.Bool("generate")
	var rules []vfs.Rule
	if compile {
		rules = append(rules, vfs.Rule{Match: "-o\n/dev/null\n" + vfs.Path("w/b/b.proto"), Stderr: "b/b.proto:1:1:not compiled\n", Exit: 1})
	}
	if generate {
		rules = append(rules, vfs.Rule{Match: "--x_out=" + vfs.Path("w/out") + "\n" + vfs.Path("w/b/b.proto"), Stderr: "b/b.proto:1:1:not generated\n", Exit: 1})
	}
	protoc(append(rules, vfs.Rule{}))
	noFormat, noLint := vp.Bool("no format"), vp.Bool("no lint")
	args := append([]string{"all"}, options([]string{"--disable-format", "--disable-lint"}, noFormat, noLint)...)
	if vp.Bool("file only") {
		args = append(args, "b/b.proto")
	}
	status, got := do(args...)
	a, b := vfs.Read("w/a.proto"), vfs.Read("w/b/b.proto")
	vp.Observe("got", got)
	ran := 0
	for _, c := range vfs.Calls("bin/protoc") {
		if strings.Contains(c, "--x_out") {
			ran++
		}
	}
	out, failures, bad := formatted(in)
	if failures > 0 || bad || noFormat {
		out = in
	}
	switch {
	case compile:
		vp.Assert(status != 0 && got == "b/b.proto:1:1:not compiled\n" && a == plain && b == in && ran == 0, "failures of compiling stop everything")
		vp.Reach("compile")
	case !noFormat && (bad || failures > 0):
		vp.Assert(status != 0 && (bad || strings.HasPrefix(got, "b/b.proto:")) && b == in && ran == 0, "failures of formatting stop what follows")
		vp.Reach("format")
	case generate:
		vp.Assert(status != 0 && got == "b/b.proto:1:1:not generated\n" && b == out && ran > 0, "failures of generating stop what follows")
		vp.Reach("generate")
	case !noLint && (bad || failures > 0 || strings.Contains(in, "a_b")):
		vp.Assert(status != 0 && (bad || strings.HasPrefix(got, "b/b.proto:")) && b == out && ran > 0, "failures of rules are printed")
		vp.Reach("lint")
	default:
		vp.Assert(status == 0 && got == "" && b == out && ran > 0, "without failures everything is done")
		vp.Reach("fine")
	}
}

// The command config init, with its two flags, in the working directory, in another or in a new one, while the file is there or not.
//
//vp:harness C01 reach=existing,created merge=off
func Init() {
	vfs.Dir("w/b")
	protoc(fine)
	dir := vp.Choice("dir", 4)
	name := []string{"w", "w", "w/b", "w/c/d"}[dir] + "/prototool.yaml"
	there := vp.Bool("there")
	if there {
		vfs.File(name, vp.String("content", "ax", 0, 2))
	}
	args := append([]string{"config", "init"}, options([]string{"--uncomment", "--document"}, vp.Bool("uncomment"), vp.Bool("document"))...)
	args = append(args, [][]string{nil, {"."}, {"b"}, {"c/d"}}[dir]...)
	before := state()
	status, _ := do(args...)
	if there {
		vp.Assert(status != 0 && state() == before, "an existing file is not changed")
		vp.Reach("existing")
		return
	}
	vp.Assert(status == 0 && vfs.Read(name) != "", "the file is created")
	vp.Reach("created")
}

// The command create for two files in two directories, one of them mapped to a package or not, by a configuration file or flag, with a package given by flag or not, while the second has content or not.
//
//vp:harness C01 reach=existing,created merge=off
func Create() {
	vfs.Dir("w/x/y")
	vfs.Dir("w/z")
	protoc(fine)
	e := settings.ExternalConfig{}
	want := [2]string{"x.y", "z"}
	if vp.Bool("mapped") {
		e.Create.Packages = append(e.Create.Packages, struct {
			Directory string `json:"directory,omitempty" yaml:"directory,omitempty"`
			Name      string `json:"name,omitempty" yaml:"name,omitempty"`
		}{"x", "m.n"})
		want[0] = "m.n.y"
	}
	args := []string{"create"}
	switch vp.Choice("config", 3) {
	case 0:
		vfs.File("w/prototool.yaml", conf.Text(e))
	case 1:
		vfs.File("w/prototool.yaml", "")
		args = append(args, "--config-data", conf.Text(e))
	case 2:
		args = append(args, "--config-data="+conf.Text(e))
	}
	switch vp.Choice("package", 3) {
	case 1:
		args = append(args, "--package", "p.v1")
		want = [2]string{"p.v1", "p.v1"}
	case 2:
		args = append([]string{"create", "--package=q"}, args[1:]...)
		want = [2]string{"q", "q"}
	}
	there := vp.Bool("there")
	if there {
		vfs.File("w/z/b.proto", plain)
	}
	before := state()
	status, _ := do(append(args, "x/y/a.proto", vfs.Path("w/z/b.proto"))...)
	if there {
		vp.Assert(status != 0 && state() == before, "a file with content is not changed, and nothing is created")
		vp.Reach("existing")
		return
	}
	vp.Assert(status == 0, "the files are created")
	for i, n := range []string{"w/x/y/a.proto", "w/z/b.proto"} {
		vp.Assert(strings.Contains(vfs.Read(n), "\npackage "+want[i]+";\n"), "a file has its package")
	}
	vp.Reach("created")
}
