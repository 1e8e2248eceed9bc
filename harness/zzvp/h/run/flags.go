package run

import (
	"strings"

	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// failing is a protoc with one failure.
var failing = []vfs.Rule{{Stderr: "a.proto:1:1:bad\n", Exit: 1}}

const plain = "syntax=\"proto3\";"

// tree is a directory with two files.
func tree() {
	vfs.File("w/prototool.yaml", "")
	vfs.File("w/a.proto", plain)
	vfs.File("w/b/b.proto", plain)
}

// state is every file with its content.
func state() string {
	s := ""
	for _, f := range vfs.List() {
		if !strings.HasPrefix(f, ".vp/") {
			s += f + "=" + vfs.Read(f) + "\n"
		}
	}
	return s
}

func count(l ...bool) int {
	n := 0
	for _, b := range l {
		if b {
			n++
		}
	}
	return n
}

// flags checks that a command is rejected before anything is done if and only
// if bad says so of its flags; ran says whether it compiles files otherwise.
func flags(cmd []string, opts []string, ran func(set []bool) bool, bad func(set []bool) bool) {
	tree()
	protoc(failing)
	set := make([]bool, len(opts))
	args := append([]string(nil), cmd...)
	for i, o := range opts {
		set[i] = vp.Bool("flag" + d(i))
		if set[i] {
			args = append(args, o)
		}
	}
	before := state()
	status, got := do(args...)
	calls := len(vfs.Calls("bin/protoc"))
	vp.Assert(state() == before, "no file is changed")
	if bad(set) {
		vp.Assert(status != 0, "contradictory flags give a status that is not zero")
		vp.Assert(calls == 0, "with contradictory flags nothing is compiled")
		vp.Assert(got != "" && !strings.Contains(got, ":bad"), "contradictory flags are explained")
		vp.Reach("rejected")
		return
	}
	if ran(set) {
		vp.Assert(calls > 0 && status != 0, "files are compiled")
		vp.Assert(strings.Contains(got, "bad"), "the failure is printed")
	} else {
		vp.Assert(calls == 0 && status == 0 && got != "", "a list is printed")
	}
	vp.Reach("accepted")
}

func always([]bool) bool { return true }

// All sets of the three flags of format.
//
//vp:harness E01 reach=rejected,accepted merge=off
func FormatFlags() {
	flags([]string{"format"}, []string{"--overwrite", "--diff", "--lint"}, always, func(s []bool) bool { return count(s...) > 1 })
}

// All sets of the six flags of lint that list something.
//
//vp:harness E01 reach=rejected,accepted merge=off
func LintFlags() {
	flags([]string{"lint"}, []string{"--list-all-linters", "--list-linters", "--list-all-lint-groups", "--list-lint-group=google", "--diff-lint-groups=google,uber2", "--generate-ignores"},
		func(s []bool) bool { return count(s[:5]...) == 0 }, func(s []bool) bool { return count(s...) > 1 })
}

// All sets of the flags of descriptor-set, break check and break descriptor-set.
//
//vp:harness E01 reach=rejected,accepted merge=off
func SetFlags() {
	switch vp.Choice("command", 3) {
	case 0:
		flags([]string{"descriptor-set"}, []string{"-o=" + vfs.Path("out"), "--tmp", "--json", "--include-imports"}, always, func(s []bool) bool { return s[0] && s[1] })
	case 1:
		flags([]string{"break", "check"}, []string{"--git-branch=x", "-f=" + vfs.Path("in"), "--json"}, always, func(s []bool) bool { return s[0] && s[1] })
	case 2:
		flags([]string{"break", "descriptor-set"}, []string{"-o=" + vfs.Path("out"), "--json"}, always, func(s []bool) bool { return !s[0] })
	}
}

// All sets of the flags of grpc that are required or exclude each other.
//
//vp:harness E01 reach=rejected,accepted merge=off shards=4
func GRPCFlags() {
	n := vp.Shard(4)
	common := []string{"grpc", "--address=localhost:1", "--method=a.S/M"}
	if n == 0 {
		flags([]string{"grpc"}, []string{"--address=localhost:1", "--method=a.S/M", "--data={}", "--stdin"}, always,
			func(s []bool) bool { return !s[0] || !s[1] || s[2] == s[3] })
		return
	}
	common = append(common, []string{"--data={}", "--data={}", "--stdin"}[n-1], []string{"--insecure=true", "--insecure=false", "--insecure=false"}[n-1])
	insecure := n == 1
	flags(common, []string{"--tls", "--cacert=a", "--cert=b", "--key=c", "--server-name=d"}, always,
		func(s []bool) bool {
			other := count(s[1:]...) > 0
			return !s[0] && (other || insecure) || s[0] && insecure && other || s[2] != s[3]
		})
}

// commands take at most one file or directory.
var commands = [][]string{
	{"all"}, {"compile"}, {"files"}, {"format"}, {"generate"}, {"lint"}, {"descriptor-set"},
	{"break", "check"}, {"break", "descriptor-set", "-o=/nowhere/out"}, {"grpc", "--address=a:1", "--method=S/M", "--data={}"}, {"config", "init"}, {"cache", "update"},
	{"x", "inspect", "packages"}, {"x", "inspect", "package-deps", "--name=a"}, {"x", "inspect", "package-importers", "--name=a"},
}

// Every command with two arguments, with an unknown flag, with a file that is
// not there, and with values that are not of the kind of the flag.
//
//vp:harness E01 reach=end merge=off
func Arguments() {
	tree()
	protoc(fine)
	c := vp.Choice("command", len(commands))
	args := append([]string(nil), commands[c]...)
	switch vp.Choice("wrong", 4) {
	case 0:
		args = append(args, "a.proto", "b")
	case 1:
		args = append(args, "--unknown")
	case 2:
		vp.Assume(args[0] != "config")
		args = append(args, "missing.proto")
	case 3:
		if c == 10 {
			args = append(args, "--document=maybe")
		} else {
			args = append(args, "--walk-timeout=maybe")
		}
	}
	before := state()
	status, got := do(args...)
	vp.Assert(status != 0 && got != "", "wrong arguments are explained")
	vp.Assert(state() == before && len(vfs.Calls("bin/protoc")) == 0, "with wrong arguments nothing is done")
	vp.Reach("end")
}
