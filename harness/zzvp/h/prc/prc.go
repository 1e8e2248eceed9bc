// Package prc has harnesses for how protoc is run.
package prc

import (
	"path/filepath"
	"strconv"
	"strings"

	"github.com/uber/prototool/internal/file"
	"github.com/uber/prototool/internal/protoc"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func d(n int) string { return strconv.Itoa(n) }

// base makes a protoc and a directory of well known types and returns the
// options that select them.
func base(rules ...vfs.Rule) []protoc.CompilerOption {
	vfs.Program("bin/protoc", rules...)
	vfs.Dir("wkt/google/protobuf")
	return []protoc.CompilerOption{
		protoc.CompilerWithProtocBinPath(vfs.Path("bin/protoc")),
		protoc.CompilerWithProtocWKTPath(vfs.Path("wkt")),
	}
}

// under reports whether p is dir or below it.
func under(p, dir string) bool {
	return p == dir || dir == "/" || strings.HasPrefix(p, dir+"/")
}

func protoFiles(dir string, n int) []*file.ProtoFile {
	var l []*file.ProtoFile
	for i := 0; i < n; i++ {
		p := filepath.Join(dir, "f"+d(i)+".proto")
		l = append(l, &file.ProtoFile{Path: p, DisplayPath: p})
	}
	return l
}

func join(l []*file.ProtoFile) string {
	s := ""
	for _, f := range l {
		s += " " + f.Path
	}
	return s
}

// tmp replaces the name of the temporary file in the -o argument by TMP.
func tmp(c string) string {
	i := strings.Index(c, " -o ")
	if i < 0 || strings.HasPrefix(c[i:], " -o /dev/null ") {
		return c
	}
	rest := c[i+4:]
	j := strings.Index(rest, " ")
	if j < 0 || !strings.Contains(rest[:j], "prototool") {
		return c
	}
	return c[:i] + " -o TMP" + rest[j:]
}

// same asserts that the commands are exactly the wanted ones in some order.
func same(got, want []string) {
	vp.Assert(len(got) == len(want), "one protoc command per directory and output")
	for _, w := range want {
		n := 0
		for _, g := range got {
			if tmp(g) == w {
				n++
			}
		}
		m := 0
		for _, o := range want {
			if o == w {
				m++
			}
		}
		vp.Assert(n == m, "every command has the configured flags and files")
	}
}

var dirNames = []string{"/w", "/w/a", "/w/a/b", "/w/ab", "/w/a.b"}

// Any of five directories (some names prefixes of others) with 1 or 2 files, any of them given, and 0 or 1 plugins, with each of: compile, generate, descriptor sets (and their two options), under every map iteration order.
//
//vp:harness P02 reach=some,none shards=5 order=any
func Directories() {
	at := dirNames[vp.Shard(5)]
	opts := base()
	mode := vp.Choice("mode", 5)
	imports, info := false, false
	switch mode {
	case 1:
		opts = append(opts, protoc.CompilerWithGen())
	case 2:
		opts = append(opts, protoc.CompilerWithFileDescriptorSet())
	case 3:
		imports, info = vp.Choice("imports", 2) == 1, vp.Choice("info", 2) == 1
		opts = append(opts, protoc.CompilerWithFileDescriptorSetFullControl(imports, info))
	case 4:
		opts = append(opts, protoc.CompilerWithFileDescriptorSet(), protoc.CompilerWithGen())
	}
	set := &file.ProtoSet{WorkDirPath: "/w", DirPath: at, DirPathToFiles: map[string][]*file.ProtoFile{}}
	set.Config.DirPath = "/w"
	plugin := mode%3 == 1 && vp.Choice("plugin", 2) == 1
	if plugin {
		set.Config.Gen.Plugins = []settings.GenPlugin{{
			Name:       "x",
			GetPath:    func() (string, error) { return "", nil },
			OutputPath: settings.OutputPath{RelPath: "gen", AbsPath: "/w/gen"},
		}}
	}
	var want []string
	for i, dir := range dirNames {
		if i > 2 && vp.Choice("has"+d(i), 2) == 0 {
			continue
		}
		l := protoFiles(dir, 1+i%2)
		set.DirPathToFiles[dir] = l
		if !under(dir, at) {
			continue
		}
		c := vfs.Path("bin/protoc") + " -I /w"
		if !plugin || mode == 4 {
			f := " -o /dev/null"
			if mode >= 2 {
				f = " -o TMP"
				if mode != 3 || imports {
					f += " --include_imports"
				}
				if info {
					f += " --include_source_info"
				}
			}
			want = append(want, c+f+join(l))
		}
		if plugin {
			want = append(want, c+" --x_out=/w/gen"+join(l))
		}
	}
	got, err := protoc.NewCompiler(opts...).ProtocCommands(set)
	vp.Assert(err == nil, "the commands are made")
	same(got, want)
	if len(got) > 0 {
		vp.Reach("some")
	} else {
		vp.Reach("none")
	}
}

func comps(p string, n int, max int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += "/" + vp.String(p+d(i), "ab", 1, max)
	}
	return s
}

// A directory 1 to 3 levels below the root, up to two include paths 1 or 2 levels below it, a configuration directory among the directory itself, its parents or another one, all names of 1 or 2 letters, with or without the well known types.
//
//vp:harness P02 reach=extra,noextra shards=12
func Includes() {
	sh := vp.Shard(12)
	n := 1 + sh%3
	dir := comps("d", n, 2)
	var inc []string
	for i, m := 0, (sh/3)%4; m > 0; i, m = i+1, m-2 {
		if m == 3 {
			m = 4
			inc = append(inc, comps("i"+d(i), 2, 2))
		} else {
			inc = append(inc, comps("i"+d(i), 1, 2))
		}
	}
	if len(inc) == 2 {
		vp.Assume(inc[0] != inc[1])
	}
	conf := dir
	if k := vp.Choice("conf", 3); k == 1 {
		conf = filepath.Dir(dir)
	} else if k == 2 {
		conf = "/" + vp.String("c", "ab", 1, 2)
	}
	set := &file.ProtoSet{WorkDirPath: "/", DirPath: "/", DirPathToFiles: map[string][]*file.ProtoFile{dir: protoFiles(dir, 1)}}
	set.Config.DirPath = conf
	set.Config.Compile.IncludePaths = inc
	set.Config.Compile.IncludeWellKnownTypes = vp.Choice("wkt", 2) == 1
	want := vfs.Path("bin/protoc")
	in := false
	for _, i := range inc {
		want += " -I " + i
		in = in || under(dir, i) || i == conf
	}
	opts := base()
	if set.Config.Compile.IncludeWellKnownTypes {
		want += " -I " + vfs.Path("wkt")
	}
	if !in {
		want += " -I " + conf
		vp.Reach("extra")
	} else {
		vp.Reach("noextra")
	}
	want += " -o /dev/null " + filepath.Join(dir, "f0.proto")
	got, err := protoc.NewCompiler(opts...).ProtocCommands(set)
	vp.Assert(err == nil && len(got) == 1, "one command is made")
	vp.Assert(got[0] == want, "include paths are the configured ones, the well known types if configured, and the configuration's directory if no other contains the file")
}
