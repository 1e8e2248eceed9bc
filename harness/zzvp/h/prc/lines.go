package prc

import (
	"strconv"
	"strings"

	"github.com/uber/prototool/internal/file"
	"github.com/uber/prototool/internal/protoc"
	"github.com/uber/prototool/internal/text"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// compile runs protoc with the output on files with the given display names.
func compile(output string, exit int, allow bool, names ...string) ([]*text.Failure, error) {
	opts := base(vfs.Rule{Stderr: output, Exit: exit})
	set := &file.ProtoSet{WorkDirPath: "/w", DirPath: "/w", DirPathToFiles: map[string][]*file.ProtoFile{}}
	set.Config.DirPath = "/w"
	set.Config.Compile.AllowUnusedImports = allow
	for _, n := range names {
		set.DirPathToFiles["/w"] = append(set.DirPathToFiles["/w"], &file.ProtoFile{Path: "/w/" + n, DisplayPath: n})
	}
	r, err := protoc.NewCompiler(opts...).Compile(set)
	if err != nil {
		return nil, err
	}
	return r.Failures, nil
}

// form is a line of protoc: F is a file name, L and C numbers, X a name, and
// what the failure says.
type form struct {
	line, msg string
	kind      int // 0 failure, 1 warning that can be allowed, 2 not reported by itself
}

var forms = []form{
	{"F:L:C: X", "X", 0},
	{"F:L:C: warning: Import X is unused.", `Import "X" was not used.`, 1},
	{"F:L:C: warning: Import X but not used.", `Import "X" was not used.`, 1},
	{"F: warning: Import X but not used.", `Import "X" was not used.`, 1},
	{"F:L:C: File recursively imports itself: X -> Y", "File recursively imports itself X -> Y.", 0},
	{"F: File recursively imports itself: X -> Y", "File recursively imports itself X -> Y.", 0},
	{"X: warning: directory does not exist.", `Directory "X" does not exist.`, 0},
	{"X: File not found.", `Import "X" was not found.`, 0},
	{"F: Import X was not found or had errors.", "", 2},
	{"[libprotobuf WARNING google/protobuf/compiler/parser.cc:546] No syntax specified for the proto file: F. Please use 'syntax = \"proto2\";' or 'syntax = \"proto3\";' to specify a syntax version. (Defaulted to proto2 syntax.)", `No syntax specified. Please use 'syntax = "proto2";' or 'syntax = "proto3";' to specify a syntax version.`, 0},
	{"F:L:C: The JSON camel-case name of field \"X\" conflicts with field \"Y\": bad.", `The JSON camel-case name of field "X" conflicts with field "Y": bad.`, 0},
	{"F: The JSON camel-case name of field \"X\" conflicts with field \"Y\".", `The JSON camel-case name of field "X" conflicts with field "Y".`, 0},
	{"F: \"X\" is not defined.", `"X" is not defined.`, 0},
	{"F: \"X\" seems to be defined in \"Y\", which is not imported by \"F\". To use it here, please add the necessary import.", `"X" seems to be defined in "Y", which is not imported by "F". To use it here, please add the necessary import.`, 0},
	{"F: Explicit default values are not allowed in proto3.", "Explicit default values are not allowed in proto3.", 0},
	{"F: Error while parsing option value for X", "Error while parsing option value for X", 0},
	{"protoc-gen-X: program not found or is not executable", "protoc-gen-X not found or is not executable.", 0},
	{"F: The first enum value must be zero in proto3.", "The first enum value must be zero in proto3.", 0},
	{"--X_out: protoc-gen-X: Plugin failed with status code L.", "protoc-gen-X failed with status code L.", 0},
	{"--X_out: some problem", "protoc-gen-X: some problem", 0},
	{"some problem --X_out: protoc-gen-X: Plugin failed with status code L.", "protoc-gen-X failed with status code L: some problem ", 0},
	{"something else X", "something else X", 0},
	{"X:something:L:else", "X:something:L:else", 0},
	{"F:L:X: something", "F:L:X: something", 0},
	{"F:L:C:", "F:L:C:", 0},
}

func fill(s string, f, l, c, x string) string {
	// placeholders are single capital letters between other characters
	var b []byte
	for i := 0; i < len(s); i++ {
		alone := (i == 0 || !letter(s[i-1])) && (i+1 == len(s) || !letter(s[i+1]) || s[i+1] == '_')
		switch {
		case alone && s[i] == 'F':
			b = append(b, f...)
		case alone && s[i] == 'L':
			b = append(b, l...)
		case alone && s[i] == 'C':
			b = append(b, c...)
		case alone && s[i] == 'X':
			b = append(b, x...)
		default:
			b = append(b, s[i])
		}
	}
	return string(b)
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }

// Every one of 25 forms of protoc's output, with line numbers of 1 to 3 and columns of 1 or 2 digits, names of 1 or 2 bytes, and a file name that is that of a given file, the end of one or two of them, or of none, with unused imports allowed or not and any status.
//
//vp:harness P01 reach=reported,allowed,alone shards=25
func Forms() {
	k := vp.Shard(25)
	f := forms[k]
	l := string([]byte{'1' + vp.ByteIn("l0", "\x00\x03\x08")}) + vp.String("l", "05", 0, 2)
	c := vp.String("c", "17", 1, 2)
	x := vp.String("x", "ab", 1, 2)
	name, shown := "s/a.proto", "s/a.proto"
	switch vp.Choice("name", 5) {
	case 1:
		name = "a.proto"
	case 2: // ends two names
		name, shown = "b.proto", "b.proto"
	case 3: // ends a name, but not at a path component
		name, shown = "c.proto", "c.proto"
	case 4:
		name, shown = "d.proto", "d.proto"
	}
	line := fill(f.line, name, l, c, x)
	allow := vp.Choice("allow", 2) == 1
	exit := vp.Choice("exit", 2)
	got, err := compile(line+"\n", exit, allow, "s/a.proto", "s/b.proto", "t/b.proto", "s/xc.proto")
	if f.kind == 2 || f.kind == 1 && allow {
		vp.Assert(len(got) == 0 && (err != nil) == (exit == 1), "a line that is not reported is no failure, but a failing protoc still is an error")
		if f.kind == 2 {
			vp.Reach("alone")
		} else {
			vp.Reach("allowed")
		}
		return
	}
	vp.Assert(err == nil && len(got) == 1, "a line is one failure")
	g := got[0]
	want := &text.Failure{Message: fill(f.msg, name, l, c, x)}
	if strings.Contains(f.line, "F:") && f.msg != f.line || strings.Contains(f.line, ": F.") {
		want.Filename = shown
	}
	if strings.Contains(f.line, "F:L:C: ") {
		want.Line, _ = strconv.Atoi(l)
		want.Column, _ = strconv.Atoi(c)
	}
	vp.Assert(g.Message == want.Message, "a failure has the message")
	vp.Assert(g.Filename == want.Filename, "a failure names the file the user gave")
	vp.Assert(g.Line == want.Line && g.Column == want.Column, "a failure has the line and column")
	vp.Assert(g.LintID == "", "a failure of protoc has no rule")
	vp.Reach("reported")
}

// Two lines of eight forms each, possibly with empty lines and blanks around them.
//
//vp:harness P01 reach=two,one
func Lines() {
	ks := []int{0, 1, 5, 7, 8, 19, 21, 24}
	a, b := vp.Choice("a", len(ks)), vp.Choice("b", len(ks))
	sep := []string{"\n", "\n\n", " \n\t\r\n "}[vp.Choice("sep", 3)]
	pre := []string{"", " \n"}[vp.Choice("pre", 2)]
	n := 0
	out := pre
	for i, k := range []int{ks[a], ks[b]} {
		out += fill(forms[k].line, "s/a.proto", d(i+1), "7", "x"+d(i)) + sep
		if forms[k].kind != 2 {
			n++
		}
	}
	got, err := compile(out, 0, false, "s/a.proto")
	vp.Assert(err == nil && len(got) == n, "every line is one failure")
	for i, k := range []int{ks[a], ks[b]} {
		found := forms[k].kind == 2
		for _, g := range got {
			found = found || g.Message == fill(forms[k].msg, "s/a.proto", d(i+1), "7", "x"+d(i))
		}
		vp.Assert(found, "the failure of every line is there")
	}
	if n == 2 {
		vp.Reach("two")
	} else {
		vp.Reach("one")
	}
}

// Any output of 1 to 6 bytes (9 in the thorough check) made of letters, digits, colons, blanks and line ends.
//
//vp:harness P01 reach=some,nothing shards=3
func AnyOutput() {
	k := vp.Shard(3)
	lo, hi := 1+2*k, 2+2*k
	if vp.Tier() > 0 {
		lo, hi = 1+3*k, 3+3*k
	}
	s := vp.String("s", "a1: \n", lo, hi)
	n := 0
	blank := true
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '\n' {
			if !blank {
				n++
			}
			blank = true
		} else if s[i] != ' ' {
			blank = false
		}
	}
	got, err := compile(s, 0, false, "s/a.proto")
	vp.Assert(err == nil && len(got) == n, "every line that is not blank is one failure")
	for _, g := range got {
		vp.Assert(g.Message != "", "a failure has a message")
	}
	if n > 0 {
		vp.Reach("some")
	} else {
		vp.Reach("nothing")
	}
}
