package prc

import (
	"errors"
	"path/filepath"
	"strings"

	"github.com/uber/prototool/internal/file"
	"github.com/uber/prototool/internal/protoc"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/wkt"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

var types = []settings.GenPluginType{settings.GenPluginTypeNone, settings.GenPluginTypeGo, settings.GenPluginTypeGogo}

// One or two plugins of any type, with or without flags, a path, a file suffix and the two descriptor set flags, for a directory among three others that give modifiers, with up to two extra modifiers.
//
//vp:harness P02 reach=none,go,gogo shards=12
func Plugins() {
	sh := vp.Shard(12)
	opts := append(base(), protoc.CompilerWithGen())
	conf := []string{"/w", "/"}[sh%2]
	set := &file.ProtoSet{WorkDirPath: "/w", DirPath: "/w/b", DirPathToFiles: map[string][]*file.ProtoFile{}}
	set.Config.DirPath = conf
	all := []string{"/w", "/w/b", "/w/a", "/w/a/b"}
	for i, dir := range all {
		if i == 1 || vp.Choice("has"+d(i), 2) == 1 {
			set.DirPathToFiles[dir] = protoFiles(dir, 1+i%2)
		}
	}
	imp := "i/p"
	set.Config.Gen.GoPluginOptions.ImportPath = imp
	extra := map[string]string{}
	if vp.Choice("e0", 2) == 1 {
		extra["x.proto"] = "y"
	}
	if vp.Choice("e1", 2) == 1 {
		extra["a/x.proto"] = "z"
	}
	set.Config.Gen.GoPluginOptions.ExtraModifiers = extra
	type plug struct {
		head string
		mods map[string]string
		tail string
	}
	var want []plug
	n := 1
	if sh/2%2 == 1 {
		n = 2
	}
	for i := 0; i < n; i++ {
		p := settings.GenPlugin{Name: string(rune('x' + i))}
		w := plug{head: "--" + p.Name + "_out=", mods: map[string]string{}}
		k := (sh/4 + i) % 3
		p.Type = types[k]
		more := i == 0 || vp.Tier() > 0 // the second plugin varies in the thorough check only
		if more && vp.Choice("flags"+d(i), 2) == 1 {
			p.Flags = "f=g,h"
			w.head += p.Flags
		}
		path := ""
		if more && vp.Choice("path"+d(i), 2) == 1 {
			path = "/p/q" + d(i)
			w.tail += " --plugin=protoc-gen-" + p.Name + "=" + path
		}
		p.GetPath = func() (string, error) { return path, nil }
		out := []string{"gen", ".", "../g"}[i+sh%2]
		p.OutputPath = settings.OutputPath{RelPath: out, AbsPath: filepath.Join(conf, out)}
		res := p.OutputPath.AbsPath
		if i == 0 {
			if vp.Choice("suffix", 2) == 1 {
				p.FileSuffix = "jar"
				rel := "b"
				if conf == "/" {
					rel = "w/b"
				}
				res = filepath.Join(res, rel, "b.jar")
			}
			if vp.Choice("desc", 2) == 1 {
				p.IncludeImports = true
				w.tail += " --include_imports"
			}
			if vp.Choice("info", 2) == 1 {
				p.IncludeSourceInfo = true
				w.tail += " --include_source_info"
			}
		}
		if k > 0 {
			for _, dir := range all {
				if dir == "/w/b" {
					continue
				}
				for _, f := range set.DirPathToFiles[dir] {
					r, _ := filepath.Rel(conf, f.Path)
					w.mods[r] = filepath.Join(imp, out, filepath.Dir(r))
				}
			}
			for a, b := range extra {
				w.mods[a] = b
			}
		}
		sep := ""
		if p.Flags != "" || len(w.mods) > 0 {
			sep = ":"
		}
		w.tail = sep + res + w.tail
		want = append(want, w)
		set.Config.Gen.Plugins = append(set.Config.Gen.Plugins, p)
		vp.Reach([]string{"none", "go", "gogo"}[k])
	}
	got, err := protoc.NewCompiler(opts...).ProtocCommands(set)
	vp.Assert(err == nil && len(got) == n, "one command per plugin")
	for i, w := range want {
		rest, ok := cut(got[i], vfs.Path("bin/protoc")+" -I "+conf+" "+w.head, w.tail+join(set.DirPathToFiles["/w/b"]))
		vp.Assert(ok, "a plugin has its flags, path and output")
		mods(rest, w.mods)
	}
}

// A Go plugin for a directory, with any of four other directories, below it, above it, with a name that starts like it and beside it, each with one or two files, of which those at or below the directory are compiled, too.
//
//vp:harness P02 reach=one,more
func Modifiers() {
	opts := append(base(), protoc.CompilerWithGen())
	set := &file.ProtoSet{WorkDirPath: "/w", DirPath: "/w/a", DirPathToFiles: map[string][]*file.ProtoFile{}}
	set.Config.DirPath = "/w"
	set.Config.Gen.GoPluginOptions.ImportPath = "i"
	set.Config.Gen.Plugins = []settings.GenPlugin{{Name: "x", Type: types[1+vp.Choice("type", 2)], OutputPath: settings.OutputPath{RelPath: "g", AbsPath: "/w/g"}, GetPath: func() (string, error) { return "", nil }}}
	var dirs []string
	for i, dir := range []string{"/w/a", "/w/a/a", "/w", "/w/ab", "/w/b"} {
		if i == 0 || vp.Bool("has"+d(i)) {
			dirs = append(dirs, dir)
			set.DirPathToFiles[dir] = protoFiles(dir, 1+vp.Choice("files"+d(i), 2))
		}
	}
	got, err := protoc.NewCompiler(opts...).ProtocCommands(set)
	vp.Assert(err == nil, "commands are made")
	n := 0
	for _, dir := range dirs {
		if !under(dir, "/w/a") {
			continue
		}
		want := map[string]string{}
		for _, other := range dirs {
			if other != dir {
				for _, f := range set.DirPathToFiles[other] {
					r := strings.TrimPrefix(f.Path, "/w/")
					want[r] = strings.TrimSuffix("i/g/"+strings.TrimPrefix(strings.TrimPrefix(other, "/w"), "/"), "/")
				}
			}
		}
		sep := ""
		if len(want) > 0 {
			sep = ":"
		}
		c := 0
		for _, g := range got {
			if rest, ok := cut(g, vfs.Path("bin/protoc")+" -I /w --x_out=", sep+"/w/g"+join(set.DirPathToFiles[dir])); ok {
				mods(rest, want)
				c++
			}
		}
		vp.Assert(c == 1, "one command per directory")
		n++
	}
	vp.Assert(len(got) == n, "only directories at or below the given one are compiled")
	if n == 1 {
		vp.Reach("one")
	} else {
		vp.Reach("more")
	}
}

// cut removes a prefix and a suffix.
func cut(s, pre, post string) (string, bool) {
	if len(s) < len(pre)+len(post) || !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, post) {
		return "", false
	}
	return s[len(pre) : len(s)-len(post)], true
}

// mods checks that rest is exactly the modifiers in some order.
func mods(rest string, want map[string]string) {
	n := 0
	for _, f := range strings.Split(rest, ",") {
		if f == "" {
			continue
		}
		n++
		e := strings.Index(f, "=")
		vp.Assert(f[0] == 'M' && e > 0, "modifiers have the form Mfile=package")
		v, ok := want[f[1:e]]
		vp.Assert(ok && v == f[e+1:], "modifiers map the files of other directories, the configured and the well known ones")
	}
	vp.Assert(n == len(want), "every modifier is given once")
}

// The well known types' modifiers of a Go or Gogo plugin, when the types are included or not, and a plugin whose program cannot be found.
//
//vp:harness P02 reach=ok,error
func WellKnown() {
	opts := append(base(), protoc.CompilerWithGen())
	set := &file.ProtoSet{WorkDirPath: "/w", DirPath: "/w", DirPathToFiles: map[string][]*file.ProtoFile{"/w": protoFiles("/w", 1)}}
	set.Config.DirPath = "/w"
	set.Config.Gen.GoPluginOptions.ImportPath = "i"
	k := vp.Choice("type", 3)
	bad := vp.Bool("bad")
	set.Config.Gen.Plugins = []settings.GenPlugin{{Name: "x", Type: types[k], OutputPath: settings.OutputPath{RelPath: "g", AbsPath: "/w/g"}, GetPath: func() (string, error) {
		if bad {
			return "", errors.New("not found")
		}
		return "", nil
	}}}
	set.Config.Compile.IncludeWellKnownTypes = vp.Choice("wkt", 2) == 1
	got, err := protoc.NewCompiler(opts...).ProtocCommands(set)
	if bad {
		vp.Assert(err != nil, "a plugin that is not found is an error")
		vp.Reach("error")
		return
	}
	vp.Assert(err == nil && len(got) == 1, "one command")
	want := map[string]string{}
	inc, sep := "-I /w", ""
	if set.Config.Compile.IncludeWellKnownTypes {
		inc = "-I " + vfs.Path("wkt") + " " + inc
		if k == 1 {
			want = wkt.FilenameToGoModifierMap
		} else if k == 2 {
			want = wkt.FilenameToGogoModifierMap
		}
		if k > 0 {
			sep = ":"
			for _, n := range []string{"any", "duration", "empty", "struct", "timestamp", "wrappers", "descriptor", "compiler/plugin"} {
				vp.Assert(strings.Contains(want["google/protobuf/"+n+".proto"], filepath.Base(n)) || k == 2 && strings.HasSuffix(want["google/protobuf/"+n+".proto"], "/types"), "well known types have modifiers")
			}
		}
	}
	rest, ok := cut(got[0], vfs.Path("bin/protoc")+" "+inc+" --x_out=", sep+"/w/g /w/f0.proto")
	vp.Assert(ok, "a plugin has its output")
	mods(rest, want)
	vp.Reach("ok")
}
