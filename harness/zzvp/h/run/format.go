package run

import (
	"strings"

	"github.com/uber/prototool/internal/format"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/conf"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// Any text of up to three bytes over ten characters (four thorough) in one of six places of a file, in every mode of formatting.
//
//vp:harness M04 reach=error,overwrite,show,lint,diff merge=off shards=6
func Texts() {
	c := []string{"message M{%}", "enum E{%}", "option (o)=%;", "%message M{}", "message M{oneof o{%}}", "message M{int64 a=1[%];}"}[vp.Shard(6)]
	in := "syntax=\"proto3\";" + strings.Replace(c, "%", vp.String("s", " \n;/*{}a=[", 0, 3+vp.Tier()), 1)
	vfs.File("w/prototool.yaml", "")
	vfs.File("w/a.proto", in)
	mode := vp.Choice("mode", 4)
	status, got := format1(fine, mode, false, ".")
	formats(in, mode, status, got, "a.proto")
}

// Three files in two directories, each of five contents (seven thorough),
// formatted together or one of them, in three modes; another file is excluded.
//
//vp:harness M04 reach=error,failures,overwrite,show,lint,one merge=off
func Several() {
	several(5 + 2*vp.Tier())
}

// Three files in two directories, each of two contents, formatted together or
// one of them, in three modes, under every map iteration order; another file is
// excluded.
//
//vp:harness M04 reach=overwrite,show,lint,one merge=off order=maps
func SeveralAnyOrder() {
	several(2)
}

func several(kinds int) {
	vfs.File("w/prototool.yaml", conf.Text(settings.ExternalConfig{Excludes: []string{"c"}}))
	names := []string{"a.proto", "b/a.proto", "b/b.proto"}
	in := make([]string, 3)
	for i, n := range names {
		in[i] = []string{files[1], files[0], files[6], files[7], files[2], files[5], files[8]}[vp.Choice(n, kinds)]
		vfs.File("w/"+n, in[i])
	}
	vfs.File("w/c/c.proto", files[1])
	mode := []int{show, overwrite, lints}[vp.Choice("mode", 3)]
	arg := vp.Choice("arg", 3)
	status, got := format1(fine, mode, false, []string{".", "b", "b/a.proto"}[arg])
	vp.Assert(vfs.Read("w/c/c.proto") == files[1], "an excluded file is not written")
	all, bad, differ, failed := "", false, false, false
	for i, n := range names {
		now := vfs.Read("w/" + n)
		if arg == 1 && i == 0 || arg == 2 && i != 1 {
			vp.Assert(now == in[i], "another file is not written")
			continue
		}
		want, failures, e := formatted(in[i])
		switch {
		case e:
			bad = true
			vp.Assert(now == in[i], "a file with an error is not written")
		case failures > 0:
			failed = true
			vp.Assert(now == in[i], "a file with failures is not written")
			all += "failed " + n + "\n"
		case mode == overwrite:
			vp.Assert(now == want || status != 0 && now == in[i], "the file is formatted")
		default:
			vp.Assert(now == in[i], "only overwriting changes a file")
			differ = differ || in[i] != want
			if mode == show {
				all += want
			} else if in[i] != want {
				all += n + ":1:1:Format returned a diff.\n"
			}
		}
	}
	if bad {
		vp.Assert(status != 0, "an error is reported")
		vp.Reach("error")
		return
	}
	vp.Assert((status != 0) == (failed || differ), "the status says whether a file differs or has failures")
	if failed {
		vp.Reach("failures")
	}
	// failures are checked above
	l := strings.SplitAfter(got, "\n")
	got = ""
	for _, s := range l {
		for _, n := range names {
			if strings.HasPrefix(s, n+":") && !strings.HasSuffix(s, ":1:1:Format returned a diff.\n") {
				s = "failed " + n + "\n"
			}
		}
		got += s
	}
	vp.Assert(got == all, "files are printed in order")
	switch {
	case arg == 2:
		vp.Reach("one")
	case mode == overwrite:
		vp.Reach("overwrite")
	case mode == show:
		vp.Reach("show")
	default:
		vp.Reach("lint")
	}
}

// Two files of four contents in every mode and in the command all, while
// protoc has a failure, an output that is none, or an error.
//
//vp:harness M04 reach=end merge=off
func Uncompiled() {
	vfs.File("w/prototool.yaml", "")
	names := []string{"a.proto", "b/a.proto"}
	in := make([]string, 2)
	for i, n := range names {
		in[i] = []string{files[0], files[1], files[6], files[7]}[vp.Choice(n, 4)]
		vfs.File("w/"+n, in[i])
	}
	rule := []vfs.Rule{{Stderr: "a.proto:1:1:bad\n", Exit: 1}, {Stderr: "what\n", Exit: 1}, {Exit: 1}}[vp.Choice("protoc", 3)]
	// protoc fails for one of the directories
	rule.Match = []string{"/w/a.proto", "/b/a.proto"}[vp.Choice("dir", 2)]
	mode := vp.Choice("mode", 6)
	rules := []vfs.Rule{rule, {}}
	var status int
	var got string
	if mode < 4 {
		status, got = format1(rules, mode, false)
	} else {
		r, out := runner(rules)
		status, got = code(r.All(nil, false, false, mode == 5)), out.String()
	}
	vp.Assert(status != 0, "files that do not compile are an error")
	vp.Assert(!strings.Contains(got, "syntax=") && !strings.Contains(got, "syntax =") && !strings.Contains(got, "Format"), "only failures are printed")
	for i, n := range names {
		vp.Assert(vfs.Read("w/"+n) == in[i], "without success of protoc no file is written")
	}
	vp.Reach("end")
}

// A file formatted with fixing in every mode, with each of three groups and
// with or without header and prefix.
//
//vp:harness M04 reach=error,failures,overwrite,show,same,lint,diff merge=off
func Fixed() {
	e := settings.ExternalConfig{}
	if !vp.Bool("plain") {
		e.Lint.FileHeader.Content = "x"
		e.Lint.JavaPackagePrefix = "org"
	}
	e.Lint.Group = []string{"uber1", "uber2", "google", ""}[vp.Choice("group", 4)]
	style := format.FixV1
	if e.Lint.Group == "uber2" {
		style = format.FixV2
	}
	header := ""
	if e.Lint.FileHeader.Content != "" {
		header = "// x"
	}
	vfs.File("w/prototool.yaml", conf.Text(e))
	in := append([]string{"syntax = \"proto3\";\n\npackage a.v1;\n\noption go_package = \"av1\";\noption java_multiple_files = true;\noption java_outer_classname = \"AProto\";\noption java_package = \"com.a.v1\";\n"}, files...)[vp.Choice("file", len(files)+1)]
	vfs.File("w/a.proto", in)
	mode := vp.Choice("mode", 4)
	fix := vp.Bool("fix")
	status, got := format1(fine, mode, fix)
	if fix {
		formats(in, mode, status, got, "a.proto", format.TransformerWithFix(style), format.TransformerWithFileHeader(header), format.TransformerWithJavaPackagePrefix(e.Lint.JavaPackagePrefix))
	} else {
		formats(in, mode, status, got, "a.proto")
	}
}
