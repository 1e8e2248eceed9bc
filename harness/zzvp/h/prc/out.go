package prc

import (
	"path/filepath"
	"strings"

	"github.com/uber/prototool/internal/file"
	"github.com/uber/prototool/internal/protoc"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// A directory 0 to 3 levels below the configuration's directory (itself the root or one or two levels deep), all names of 1 or 2 letters, with any of four output paths and with or without a file suffix.
//
//vp:harness P03 reach=plain,suffix,top shards=12
func OutputPaths() {
	sh := vp.Shard(12)
	conf := comps("c", sh%3, 2)
	n := sh / 3
	rel := comps("d", n, 2)
	dir := conf + rel
	if conf == "" {
		conf = "/"
	}
	if dir == "" {
		dir = "/"
	}
	out := []string{"gen", ".", "../gen", "a/b"}[vp.Choice("out", 4)]
	p := settings.GenPlugin{Name: "x", GetPath: func() (string, error) { return "", nil }, OutputPath: settings.OutputPath{RelPath: out, AbsPath: filepath.Join(conf, out)}}
	want := p.OutputPath.AbsPath
	if vp.Choice("suffix", 2) == 1 {
		p.FileSuffix = "a.b"
		last := "default"
		if dir != "/" {
			last = dir[strings.LastIndex(dir, "/")+1:]
		}
		if want != "/" {
			want += rel
		} else {
			want = rel
		}
		want += "/" + last + ".a.b"
		vp.Reach("suffix")
	} else {
		vp.Reach("plain")
	}
	if n == 0 {
		vp.Reach("top")
	}
	set := &file.ProtoSet{WorkDirPath: "/", DirPath: "/", DirPathToFiles: map[string][]*file.ProtoFile{dir: protoFiles(dir, 1)}}
	set.Config.DirPath = conf
	set.Config.Gen.Plugins = []settings.GenPlugin{p}
	got, err := protoc.NewCompiler(append(base(), protoc.CompilerWithGen())...).ProtocCommands(set)
	vp.Assert(err == nil && len(got) == 1, "one command")
	vp.Assert(got[0] == vfs.Path("bin/protoc")+" -I "+conf+" --x_out="+want+" "+filepath.Join(dir, "f0.proto"), "the output goes below the output path, in the file named after the directory when there is a suffix")
}

// Generating with up to two plugins, each with any of four output paths and with or without a file suffix, for any of four directories of which any is given: the directories made before protoc runs.
//
//vp:harness P03 reach=made shards=5
func OutputDirs() {
	at := []string{".", "a", "a/b", "ab", "a.b"}[vp.Shard(5)]
	opts := append(base(vfs.Rule{Match: ""}), protoc.CompilerWithGen())
	set := &file.ProtoSet{WorkDirPath: vfs.Path("w"), DirPath: vfs.Path("w/" + at), DirPathToFiles: map[string][]*file.ProtoFile{}}
	set.Config.DirPath = vfs.Path("w")
	vfs.Dir("w")
	var dirs []string
	for i, dir := range []string{".", "a", "a/b", "ab"} {
		if vp.Choice("has"+d(i), 2) == 1 {
			dirs = append(dirs, dir)
			set.DirPathToFiles[vfs.Path("w/"+dir)] = protoFiles(vfs.Path("w/"+dir), 1)
		}
	}
	var want []string
	n := 1 + vp.Choice("n", 2)
	first := vp.Choice("out", 4)
	for i := 0; i < n; i++ {
		out := []string{"gen", ".", "../gen", "x/y"}[(first+i)%4]
		p := settings.GenPlugin{Name: "x" + d(i), GetPath: func() (string, error) { return "", nil }, OutputPath: settings.OutputPath{RelPath: out, AbsPath: vfs.Path("w/" + out)}}
		if vp.Choice("suffix"+d(i), 2) == 1 {
			p.FileSuffix = "jar"
			for _, dir := range dirs {
				if under(vfs.Path("w/"+dir), set.DirPath) {
					want = append(want, filepath.Join("w", out, dir))
				}
			}
		} else {
			want = append(want, filepath.Join("w", out))
		}
		set.Config.Gen.Plugins = append(set.Config.Gen.Plugins, p)
	}
	_, err := protoc.NewCompiler(opts...).Compile(set)
	vp.Assert(err == nil, "generating works")
	for _, o := range []string{"gen", "w/gen", "w/x", "w/x/y"} {
		for _, dir := range []string{".", "a", "a/b", "ab"} {
			p := filepath.Join(o, dir)
			made := false
			for _, w := range want {
				made = made || under("/"+w, "/"+p)
			}
			vp.Assert(vfs.Exists(p) == made, "exactly the output directories and their parents are made")
		}
	}
	vp.Reach("made")
}
