package run

import (
	"strings"

	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/conf"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// failure is what a line of output shows.
type failure struct{ file, line, column, id, message string }

// forms are ways to ask for failures, and what they give.
var forms = []struct {
	arg  string
	show func(f failure) string
}{
	{"--debug=false", func(f failure) string { return f.file + ":" + f.line + ":" + f.column + ":" + f.message }},
	{"--error-format=message:id:FILENAME", func(f failure) string {
		s := f.message + ":"
		if f.id != "" {
			s += f.id + ":"
		}
		return s + f.file
	}},
	{"--error-format=column:line", func(f failure) string { return f.column + ":" + f.line }},
	{"--json", func(f failure) string {
		s := "{"
		if f.file != "<input>" {
			s += "\"filename\":\"" + f.file + "\","
			// the rule of the go_package option is about no line
			if f.id != "FILE_OPTIONS_REQUIRE_GO_PACKAGE" {
				s += "\"line\":" + f.line + ",\"column\":" + f.column + ","
			}
		}
		if f.id != "" {
			s += "\"lint_id\":\"" + f.id + "\","
		}
		return s + "\"message\":\"" + strings.Replace(f.message, "\"", "\\\"", -1) + "\"}"
	}},
}

// inputs are ways to name the files, and the file whose failures are shown;
// "b/" is for all below.
var inputs = [][2]string{{".", ""}, {"", ""}, {"a.proto", "a.proto"}, {"./b/b.proto", "b/b.proto"}, {"b", "b/"}, {"ABS", "a.proto"}, {"b/../a.proto", "a.proto"}}

// want is the output for failures.
func want(all []failure, form int, name string) string {
	s := ""
	for _, f := range all {
		if name == "" || f.file == name || strings.HasSuffix(name, "/") && strings.HasPrefix(f.file, name) || f.file == "<input>" {
			s += forms[form].show(f) + "\n"
		}
	}
	return s
}

// input picks one of them.
func input(args []string) ([]string, string) {
	in := inputs[vp.Choice("input", len(inputs))]
	if in[0] == "ABS" {
		in[0] = vfs.Path("w/a.proto")
	}
	if in[0] != "" {
		args = append(args, in[0])
	}
	return args, in[1]
}

// Failures of protoc for two files and without file, in four forms, for seven
// ways to name the input, in eight commands.
//
//vp:harness E01 reach=end merge=off
func Prints() {
	tree()
	protoc([]vfs.Rule{{Match: "/w/a.proto", Stderr: "a.proto:2:1:bad \"x\"\na.proto:1:1:worse\n--go_out: protoc-gen-go: Plugin failed with status code 1.\n", Exit: 1}, {Match: "/w/b/b.proto", Stderr: "b/b.proto:1:3:no\n", Exit: 1}, {}})
	all := []failure{{"<input>", "1", "1", "", "protoc-gen-go failed with status code 1."}, {"a.proto", "1", "1", "", "worse"}, {"a.proto", "2", "1", "", "bad \"x\""}, {"b/b.proto", "1", "3", "", "no"}}
	cmd := [][]string{{"all"}, {"compile"}, {"format", "-w"}, {"generate"}, {"lint"}, {"descriptor-set"}, {"grpc", "--address=a:1", "--method=S/M", "--data={}"}, {"lint", "--generate-ignores"}}[vp.Choice("command", 8)]
	form := vp.Choice("form", len(forms))
	if cmd[0] == "descriptor-set" || cmd[0] == "grpc" {
		// no JSON of failures
		vp.Assume(form != 3)
	}
	args, name := input(append(append([]string(nil), cmd...), forms[form].arg))
	if strings.HasPrefix(name, "b/") {
		all = all[3:]
	}
	before := state()
	status, got := do(args...)
	vp.Assert(status != 0, "failures give a status that is not zero")
	vp.Assert(got == want(all, form, name), "every failure is printed in the requested form")
	vp.Assert(state() == before, "no file is changed")
	vp.Reach("end")
}

// Failures of rules for two files, in four forms, for seven ways to name the
// input, by lint and all.
//
//vp:harness E01 reach=none,some merge=off
func Lints() {
	e := settings.ExternalConfig{}
	e.Lint.Rules.NoDefault = true
	e.Lint.Rules.Add = []string{"MESSAGE_NAMES_CAMEL_CASE", "FILE_OPTIONS_REQUIRE_GO_PACKAGE"}
	vfs.File("w/prototool.yaml", conf.Text(e))
	var all []failure
	for _, n := range []string{"a.proto", "b/b.proto"} {
		s := "syntax = \"proto3\";\n"
		bad := vp.Bool("package " + n)
		if bad {
			all = append(all, failure{n, "1", "1", "FILE_OPTIONS_REQUIRE_GO_PACKAGE", "File option \"go_package\" is required."})
		} else {
			s += "\noption go_package = \"x\";\n"
		}
		if vp.Bool("name " + n) {
			line := "5"
			if bad {
				line = "3"
			}
			all = append(all, failure{n, line, "1", "MESSAGE_NAMES_CAMEL_CASE", "Message name \"a_b\" must be CamelCase."})
			s += "\nmessage a_b {}\n"
		}
		vfs.File("w/"+n, s)
	}
	protoc(fine)
	form := vp.Choice("form", len(forms))
	cmd := [][]string{{"lint"}, {"all"}}[vp.Choice("command", 2)]
	args, name := input(append(append([]string(nil), cmd...), forms[form].arg))
	if strings.HasPrefix(name, "b/") {
		for len(all) > 0 && all[0].file == "a.proto" {
			all = all[1:]
		}
	}
	before := state()
	status, got := do(args...)
	vp.Observe("got", got)
	vp.Assert(status != 0 == (len(all) > 0), "the status is not zero when there are failures")
	vp.Assert(got == want(all, form, name), "every failure is printed in the requested form")
	vp.Assert(state() == before, "no file is changed")
	if len(all) > 0 {
		vp.Reach("some")
	} else {
		vp.Reach("none")
	}
}
