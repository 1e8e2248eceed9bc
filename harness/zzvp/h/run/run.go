// Package run has harnesses for whole commands.
package run

import (
	"bytes"
	"strconv"
	"strings"

	"go.uber.org/zap"

	"github.com/uber/prototool/internal/cmd"
	"github.com/uber/prototool/internal/exec"
	"github.com/uber/prototool/internal/format"
	"github.com/uber/prototool/internal/zzvp/patch"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func d(n int) string { return strconv.Itoa(n) }

// runner makes a runner in w with a protoc, and its output.
func runner(rules []vfs.Rule, opts ...exec.RunnerOption) (exec.Runner, *bytes.Buffer) {
	protoc(rules)
	out := &bytes.Buffer{}
	opts = append([]exec.RunnerOption{exec.RunnerWithLogger(zap.NewNop()), exec.RunnerWithProtocBinPath(vfs.Path("bin/protoc")), exec.RunnerWithProtocWKTPath(vfs.Path("wkt"))}, opts...)
	return exec.NewRunner(vfs.Path("w"), strings.NewReader(""), out, opts...), out
}

// protoc is there and w the working directory.
func protoc(rules []vfs.Rule) {
	vfs.Program("bin/protoc", rules...)
	vfs.Dir("wkt/google/protobuf")
	vfs.Setenv("PROTOTOOL_PROTOC_BIN_PATH", vfs.Path("bin/protoc"))
	vfs.Setenv("PROTOTOOL_PROTOC_WKT_PATH", vfs.Path("wkt"))
	vfs.Chdir("w")
}

// do runs a command line; it gives the status and the output.
func do(args ...string) (int, string) {
	out := &bytes.Buffer{}
	n := cmd.Do(args, strings.NewReader(""), out, &bytes.Buffer{})
	return n, out.String()
}

// code is the status of a command.
func code(err error) int {
	if err == nil {
		return 0
	}
	if e, ok := err.(*exec.ExitError); ok {
		return e.Code
	}
	return 1
}

// format1 formats in one of the modes.
func format1(rules []vfs.Rule, mode int, fix bool, args ...string) (int, string) {
	r, out := runner(rules)
	n := code(r.Format(args, mode == overwrite, mode == diffs, mode == lints, fix))
	return n, out.String()
}

// options are the arguments for some of the flags.
func options(flags []string, set ...bool) []string {
	var l []string
	for i, f := range flags {
		if set[i] {
			l = append(l, f)
		}
	}
	return l
}

var fine = []vfs.Rule{{}}

// files are formatted ones, others, one with a failure and ones that are no
// proto files.
var files = []string{
	"syntax = \"proto3\";\n", "syntax=\"proto3\";\n", "", "syntax = \"proto3\";", "syntax = \"proto3\";\n\nmessage M {}\n",
	"syntax=\"proto2\"; package a; // b\n",
	"syntax = \"proto3\";\n\noption (o) = [1, 2];\n", "message", "syntax=\"proto4\";", "syntax = \"proto3\";\npackage a; message {",
}

// modes of the command format.
const (
	show = iota
	overwrite
	diffs
	lints
)

// modeFlags select them; the first has none.
var modeFlags = []string{"--debug=false", "-w", "-d", "-l"}

// formatted is what should be made of a file; error and failures are other
// outcomes.
func formatted(in string, opts ...format.TransformerOption) (out string, failures int, err bool) {
	b, fs, e := format.NewTransformer(opts...).Transform("a.proto", []byte(in))
	return string(b), len(fs), e != nil
}

// formats checks the outcome for one file of the name in dir w.
func formats(in string, mode int, status int, got string, name string, opts ...format.TransformerOption) {
	want, failures, bad := formatted(in, opts...)
	now := vfs.Read("w/" + name)
	vp.Assert(mode == overwrite || now == in, "only overwriting changes a file")
	switch {
	case bad:
		vp.Assert(status != 0, "an error is reported")
		vp.Assert(!strings.Contains(got, "syntax=") && !strings.Contains(got, "syntax ="), "nothing of a file with an error is printed")
		vp.Assert(now == in, "a file with an error is not written")
		vp.Reach("error")
	case failures > 0:
		vp.Assert(status != 0, "a failure gives a status that is not zero")
		l := strings.Split(got, "\n")
		vp.Assert(len(l) == failures+1 && l[failures] == "", "every failure is printed on a line, and nothing else")
		for _, s := range l[:failures] {
			vp.Assert(strings.HasPrefix(s, name+":"), "failures name the file")
		}
		vp.Assert(now == in, "a file with failures is not written")
		vp.Reach("failures")
	case mode == overwrite:
		vp.Assert(status == 0 && got == "", "overwriting has no failure")
		vp.Assert(now == want, "the file is formatted")
		vp.Reach("overwrite")
	case mode == show:
		vp.Assert(got == want, "the formatted file is printed")
		vp.Assert((status != 0) == (in != want), "the status says whether the file differs")
		vp.Reach("show")
	case in == want:
		vp.Assert(status == 0 && got == "", "nothing is said of a formatted file")
		vp.Reach("same")
	case mode == lints:
		vp.Assert(status != 0 && got == name+":1:1:Format returned a diff.\n", "a file that is not formatted is a failure")
		vp.Reach("lint")
	case mode == diffs:
		out, from, to, ok := patch.Apply(in, got)
		vp.Assert(status != 0 && ok && out == want, "the diff formats the file")
		vp.Assert(from == name+".orig" && to == name, "the diff names the file")
		vp.Reach("diff")
	}
}

// One of ten files in every mode of formatting, by file or directory.
//
//vp:harness M04 reach=error,failures,overwrite,show,same,lint,diff merge=off
func Formats() {
	vfs.File("w/prototool.yaml", "")
	in := files[vp.Choice("file", len(files))]
	vfs.File("w/a.proto", in)
	mode := vp.Choice("mode", 4)
	arg := []string{".", "a.proto"}[vp.Choice("arg", 2)]
	protoc(fine)
	status, got := do("format", modeFlags[mode], arg)
	formats(in, mode, status, got, "a.proto")
}
