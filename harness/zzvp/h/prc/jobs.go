package prc

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/uber/prototool/internal/file"
	"github.com/uber/prototool/internal/protoc"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

type outcome struct {
	lines []string // failure messages
	err   bool
	rule  vfs.Rule
}

// result is what protoc does for one job: success, failures with status 1 or
// 0, a failure without any output.
func result(k int, f string) outcome {
	o := outcome{rule: vfs.Rule{Match: "/" + f + "\n"}}
	switch k {
	case 1:
		o.lines = []string{"m1"}
		o.rule.Exit = 1
	case 2:
		o.lines = []string{"m2"}
	case 3:
		o.err = true
		o.rule.Exit = 1
	case 4:
		o.lines = []string{"m2", "m1", "m2"}
		o.rule.Exit = 1
	}
	for i, l := range o.lines {
		o.rule.Stderr += f + ":1:" + d(1+i%2) + ": " + l + "\n"
	}
	return o
}

// temps counts the temporary files left.
func temps() int {
	n := 0
	l, _ := os.ReadDir(os.TempDir())
	for _, e := range l {
		if strings.HasPrefix(e.Name(), "prototool") {
			n++
		}
	}
	return n
}

func jobs(nd, np, nr int) {
	var rules []vfs.Rule
	var want []string
	err := false
	set := &file.ProtoSet{WorkDirPath: "/w", DirPath: "/w", DirPathToFiles: map[string][]*file.ProtoFile{}}
	set.Config.DirPath = vfs.Path("w")
	var opts []protoc.CompilerOption
	desc := 0
	switch {
	case np > 0:
		opts = append(opts, protoc.CompilerWithGen())
		for i := 0; i < np; i++ {
			set.Config.Gen.Plugins = append(set.Config.Gen.Plugins, settings.GenPlugin{
				Name:       "x" + d(i),
				GetPath:    func() (string, error) { return "", nil },
				OutputPath: settings.OutputPath{RelPath: ".", AbsPath: vfs.Path("w")},
			})
		}
	case vp.Choice("desc", 2) == 1:
		opts = append(opts, protoc.CompilerWithFileDescriptorSet())
		desc = nd
	}
	for i := 0; i < nd; i++ {
		dir := "/w/" + d(i)
		f := d(i) + "/f.proto"
		set.DirPathToFiles[dir] = []*file.ProtoFile{{Path: "/w/" + f, DisplayPath: f}}
		for j := 0; j == 0 || j < np; j++ {
			o := result(vp.Choice("r"+d(i)+d(j), nr), f)
			if np > 0 {
				o.rule.Match = "--x" + d(j) + "_out=" + vfs.Path("w") + "\n/w/" + f + "\n"
			}
			rules = append(rules, o.rule)
			err = err || o.err
			for k, l := range o.lines {
				want = append(want, f+":1:"+d(1+k%2)+":"+l)
			}
		}
	}
	opts = append(opts, base(rules...)...)
	r, e := protoc.NewCompiler(opts...).Compile(set)
	vp.Assert(temps() == 0, "no temporary file is left")
	n := len(vfs.Calls("bin/protoc"))
	if np == 0 {
		np = 1
	}
	vp.Assert(n == nd*np, "protoc runs once per directory and plugin")
	if err {
		vp.Assert(e != nil, "an error of a job is an error")
		vp.Reach("error")
		return
	}
	vp.Assert(e == nil, "without an error of a job there is none")
	vp.Assert(len(r.Failures) == len(want), "every failure is reported once")
	// sorted by insertion
	for i := range want {
		for j := i; j > 0 && want[j] < want[j-1]; j-- {
			want[j], want[j-1] = want[j-1], want[j]
		}
	}
	for i, f := range r.Failures {
		vp.Assert(f.Filename+":"+d(f.Line)+":"+d(f.Column)+":"+f.Message == want[i], "failures are those of all jobs, sorted")
	}
	if len(want) > 0 {
		vp.Assert(len(r.FileDescriptorSets) == 0, "no descriptor sets with failures")
		vp.Reach("failures")
		return
	}
	vp.Assert(len(r.FileDescriptorSets) == desc, "one descriptor set per directory")
	seen := map[string]bool{}
	for _, s := range r.FileDescriptorSets {
		vp.Assert(s.DirPath == filepath.Dir(s.ProtoFiles[0].Path) && s.ProtoSet == set && !seen[s.DirPath], "a descriptor set belongs to its directory")
		seen[s.DirPath] = true
	}
	vp.Reach("fine")
}

// Two directories compiled (also to descriptor sets) at the same time, each with one of five results, in every order and with every stop of a job before it changes a variable shared with the other.
//
//vp:harness P04 reach=error,failures,fine order=any
func TwoJobs() { jobs(2, 0, 5) }

// Three directories compiled (also to descriptor sets), each with one of five results, in one order.
//
//vp:harness P04 reach=error,failures,fine
func ThreeJobs() { jobs(3, 0, 5) }

// Two directories and two plugins, each job with one of four results, in one order.
//
//vp:harness P04 reach=error,failures,fine
func PluginJobs() { jobs(2, 2, 4) }

// Three directories compiled at the same time, each with one of four results, in every order and with every stop of a job before it changes a variable shared with the others.
//
//vp:harness P04 reach=error,failures,fine order=any tier=thorough weight=4
func ThreeJobsAnyOrder() { jobs(3, 0, 4) }
