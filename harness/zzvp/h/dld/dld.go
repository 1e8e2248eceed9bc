// Package dld has harnesses for finding and downloading protoc.
package dld

import (
	"bytes"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/uber/prototool/internal/cmd"
	"github.com/uber/prototool/internal/protoc"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/vars"
	"github.com/uber/prototool/internal/zzvp/conf"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
	"github.com/uber/prototool/internal/zzvp/zips"
)

func d(n int) string { return strconv.Itoa(n) }

var works, fails = []vfs.Rule{{Stdout: "libprotoc 3.8.0\n"}}, []vfs.Rule{{Exit: 1}}

// at is a path given absolute or relative to w.
func at(name, rel string) string {
	if vp.Bool(name + " relative") {
		p, err := filepath.Rel("w", rel)
		if err != nil {
			panic(err)
		}
		return p
	}
	return vfs.Path(rel)
}

// The path of protoc, of the well known types, and the URL, each given or not, absolute or relative (also without a directory), where the paths are there, missing, or below a file.
//
//vp:harness W01 reach=error,given merge=off
func Paths() {
	vfs.File("w/a.proto", "")
	vfs.Program("w/protoc", works...)
	vfs.Program("bin/protoc", works...)
	vfs.Dir("w/wkt/google/protobuf")
	vfs.Dir("w/no/google")
	vfs.File("w/odd/google/protobuf", "")
	vfs.File("w/flat", "")
	// a program of the same name that is not meant
	vfs.OnPath("protoc", fails...)
	vfs.Chdir("w")
	bin := []string{"", "w/protoc", "bin/protoc", "w/nothing", "w/flat/protoc"}[vp.Choice("bin", 5)]
	wkt := []string{"", "w/wkt", "w/nothing", "w/no", "w/odd", "w/flat"}[vp.Choice("wkt", 6)]
	url := vp.Bool("url")
	var opts []protoc.DownloaderOption
	if bin != "" {
		opts = append(opts, protoc.DownloaderWithProtocBinPath(at("bin", bin)))
	}
	if wkt != "" {
		opts = append(opts, protoc.DownloaderWithProtocWKTPath(at("wkt", wkt)))
	}
	if url {
		opts = append(opts, protoc.DownloaderWithProtocURL("file:///nothing"))
	}
	down, err := protoc.NewDownloader(settings.Config{}, opts...)
	if bin == "" && wkt == "" {
		vp.Assert(err == nil, "without paths there is no error yet")
		return
	}
	if url || bin != "w/protoc" && bin != "bin/protoc" || wkt != "w/wkt" {
		vp.Assert(err != nil, "paths that are not both there, or a URL besides them, are an error")
		vp.Reach("error")
		return
	}
	vp.Assert(err == nil, "paths that are there are accepted")
	got, err := down.ProtocPath()
	vp.Assert(err == nil && same(got, bin) && (filepath.IsAbs(got) || strings.Contains(got, "/")), "the given program is used")
	got, err = down.WellKnownTypesIncludePath()
	vp.Assert(err == nil && same(got, wkt), "the given types are used")
	vp.Reach("given")
}

// same tells whether a path from w is the one.
func same(p, rel string) bool {
	if !filepath.IsAbs(p) {
		p = filepath.Join(vfs.Path("w"), p)
	}
	return filepath.Clean(p) == vfs.Path(rel)
}

// Flags and environment variables for the paths of protoc and its types, each given or not: flags go before variables, and a URL with neither.
//
//vp:harness W01 reach=flag,variable merge=off
func Flags() {
	vfs.File("w/prototool.yaml", "")
	vfs.File("w/a.proto", "syntax = \"proto3\";")
	names := []string{"flag", "variable"}
	for _, n := range names {
		vfs.Program(n+"/protoc", vfs.Rule{})
		vfs.Dir(n + "/wkt/google/protobuf")
	}
	vfs.Chdir("w")
	args := []string{"compile"}
	bin, wkt := vp.Choice("bin", 4), vp.Choice("wkt", 4)
	if bin&2 > 0 {
		vfs.Setenv("PROTOTOOL_PROTOC_BIN_PATH", vfs.Path("variable/protoc"))
	}
	if wkt&2 > 0 {
		vfs.Setenv("PROTOTOOL_PROTOC_WKT_PATH", vfs.Path("variable/wkt"))
	}
	if bin&1 > 0 {
		args = append(args, "--protoc-bin-path="+vfs.Path("flag/protoc"))
	}
	if wkt&1 > 0 {
		args = append(args, "--protoc-wkt-path", "../flag/wkt")
	}
	if bin == 0 && wkt == 0 {
		return
	}
	url := vp.Bool("url")
	if url {
		args = append(args, "--protoc-url=file:///nothing")
	}
	status := cmd.Do(args, strings.NewReader(""), &bytes.Buffer{}, &bytes.Buffer{})
	flag, variable := vfs.Calls("flag/protoc"), vfs.Calls("variable/protoc")
	if bin == 0 || wkt == 0 || url {
		vp.Assert(status != 0 && len(flag)+len(variable) == 0, "one path alone, or a URL besides, is an error")
		return
	}
	vp.Assert(status == 0, "the file is compiled")
	used := flag
	if bin&1 > 0 {
		vp.Assert(len(flag) == 1 && len(variable) == 0, "the program given by flag is used")
		vp.Reach("flag")
	} else {
		used = variable
		vp.Assert(len(flag) == 0 && len(variable) == 1, "the program given by variable is used")
		vp.Reach("variable")
	}
	dir := vfs.Path("variable/wkt")
	if wkt&1 > 0 {
		dir = vfs.Path("flag/wkt")
	}
	vp.Assert(strings.Contains(used[0], "-I\n"+dir+"\n") || wkt&1 > 0 && strings.Contains(used[0], "-I\n../flag/wkt\n"), "the given types are used")
}

// entry is one of the contents of a zip file.
func entry(n int) zips.Entry {
	return []zips.Entry{
		{Name: "bin/protoc", Mode: 0755, Data: vfs.Script("new", works...)},
		{Name: "include/google/protobuf/any.proto", Mode: 0644, Data: "any"},
		{Name: "include/", Mode: 0755 | os.ModeDir},
		{Name: "include/b", Mode: 0600, Data: "b", Bad: true},
		{Name: "bin/protoc", Mode: 0755, Data: vfs.Script("bad", fails...)},
		{Name: "bin/protoc/x", Mode: 0644, Data: "x"},
		{Name: "include/google/protobuf/any.proto", Mode: 0644, Data: "other"},
		{Name: "../out", Mode: 0644, Data: "out"},
	}[n]
}

// installed tells whether exactly the files of the zip file are in the directory.
func installed(base string, l []zips.Entry) bool {
	files := map[string]string{}
	for _, e := range l {
		if e.Mode.IsDir() {
			continue
		}
		files[e.Name] = e.Data
	}
	for n, c := range files {
		if !vfs.Exists(base+"/"+n) || vfs.Read(base+"/"+n) != c {
			return false
		}
	}
	return true
}

// entries picks up to n of the contents of a zip file.
func entries(name string, shard, n int) (l []zips.Entry, bad bool) {
	n = vp.Choice(name+" entries", n+1)
	vp.Assume(n > 0 || shard == 0)
	program := false
	for i := 0; i < n; i++ {
		k := 0
		if i == 0 {
			k = vp.Choice(name+" entry", 2)*4 + shard
		} else {
			k = vp.Choice(name+" entry "+d(i), 8)
		}
		e := entry(k)
		for _, x := range l {
			// no two entries of one name
			vp.Assume(x.Name != e.Name)
			bad = bad || x.Name == "bin/protoc" && k == 5 || x.Name == "bin/protoc/x" && e.Name == "bin/protoc"
		}
		program = program || k == 0
		bad = bad || e.Bad || k == 7
		l = append(l, e)
	}
	return l, bad || !program
}

// A zip file of up to three of eight entries, of which some cannot be read or written or are outside, or something else, is installed from a URL; then it is used again when the zip file is gone; after a failure another zip file is installed.
//
//vp:harness W01 reach=error,installed,broken merge=off shards=4
func Install() {
	shard := vp.Shard(4)
	vfs.Dir("w")
	vfs.Chdir("w")
	url := "file://" + vfs.Path("protoc.zip")
	l, bad := entries("first", shard, 3)
	text := zips.Text(l)
	if vp.Bool("no zip file") {
		vp.Assume(len(l) == 0)
		text = "something else"
	}
	vfs.File("protoc.zip", text)
	base := ""
	use := func() error {
		down, err := protoc.NewDownloader(settings.Config{}, protoc.DownloaderWithCachePath(vfs.Path("cache")), protoc.DownloaderWithProtocURL(url))
		vp.Assert(err == nil, "a downloader is made")
		b, err := down.Download()
		p, perr := down.ProtocPath()
		w, werr := down.WellKnownTypesIncludePath()
		vp.Assert((err == nil) == (perr == nil) && (err == nil) == (werr == nil), "all paths are there or none")
		if err == nil {
			vp.Assert(p == b+"/bin/protoc" && w == b+"/include", "the paths are below the installation")
			base = strings.TrimPrefix(b, vfs.Root()+"/")
			vp.Assert(strings.HasPrefix(base, "cache/"), "the installation is below the cache")
		}
		return err
	}
	err := use()
	vp.Assert((err != nil) == bad, "an installation is complete or an error")
	vp.Assert(!vfs.Exists("out") && !vfs.Exists("cache/out") && !vfs.Exists("cache/protobuf/out"), "nothing is written outside")
	// again, without a zip file
	vfs.File("protoc.zip", "something else")
	again := use()
	vp.Assert((again != nil) == bad, "an installation that is not complete is not used")
	if bad {
		// again, with one that is fine
		l = []zips.Entry{entry(0), entry(1)}
		vfs.File("protoc.zip", zips.Text(l))
		vp.Assert(use() == nil, "what was left does not hinder an installation")
		vp.Reach("error")
	}
	vp.Assert(installed(base, l), "all of the zip file is installed")
	if !bad {
		vp.Reach("installed")
	} else {
		vp.Reach("broken")
	}
}

// The cache at four places, by flag, variable, XDG_CACHE_HOME or HOME, of which all but one have an installation, of the default or configured version, or a program that says another version, one longer or shorter, or something else: what is used, and what is deleted.
//
//vp:harness W01 reach=used,missing,deleted merge=off shards=5
func Cache() {
	vfs.File("w/a.proto", "syntax = \"proto3\";")
	vfs.Chdir("w")
	version := vars.DefaultProtocVersion
	configured := vp.Bool("version")
	if configured {
		version = "3.7.1"
	}
	// no option is needed elsewhere
	dirs := []string{"w/flag", "variable", "xdg/prototool/Linux/x86_64", "home/.cache/prototool/Linux/x86_64"}
	roots := []string{"w/flag", "variable", "xdg/prototool", "home/.cache/prototool"}
	without := vp.Shard(5)
	for i, p := range dirs {
		vfs.File(roots[i]+"/other", "other")
		// of the version that is not meant
		v := "3.7.1"
		if configured {
			v = vars.DefaultProtocVersion
		}
		vfs.Program(p+"/protobuf/"+v+"/bin/protoc", vfs.Rule{Match: "--version", Stdout: "libprotoc " + v + "\n"})
		if i != without {
			vfs.Program(p+"/protobuf/"+version+"/bin/protoc", vfs.Rule{Match: "--version", Stdout: "libprotoc " + version + "\n"}, vfs.Rule{})
			vfs.Dir(p + "/protobuf/" + version + "/include/google/protobuf")
		} else if k := vp.Choice("wrong", 6); k > 0 {
			said := []string{"libprotoc " + v, "libprotoc " + version + "0", "libprotoc " + version[:len(version)-1], "xlibprotoc " + version, version}[k-1]
			vfs.Program(p+"/protobuf/"+version+"/bin/protoc", vfs.Rule{Match: "--version", Stdout: said + "\n"}, vfs.Rule{})
		}
	}
	at := 3
	vfs.Setenv("HOME", vfs.Path("home"))
	if vp.Bool("xdg") {
		at = 2
		vfs.Setenv("XDG_CACHE_HOME", vfs.Path("xdg"))
	} else {
		vfs.Setenv("XDG_CACHE_HOME", "")
	}
	def := at
	if vp.Bool("variable") {
		at = 1
		vfs.Setenv("PROTOTOOL_CACHE_PATH", vfs.Path("variable"))
	}
	var args []string
	if configured {
		e := settings.ExternalConfig{}
		e.Protoc.Version = version
		args = append(args, "--config-data", conf.Text(e))
	}
	do := func(args ...string) int {
		return cmd.Do(args, strings.NewReader(""), &bytes.Buffer{}, &bytes.Buffer{})
	}
	switch vp.Choice("command", 3) {
	case 0:
		if !configured && vp.Bool("delete twice") {
			vp.Assert(do("cache", "delete") == 0, "a cache is deleted")
		}
		before := vfs.List()
		vp.Assert(do("cache", "delete") == 0, "a cache is deleted, also when it is not there")
		after := vfs.List()
		for _, f := range before {
			gone := strings.HasPrefix(f, roots[def]+"/")
			vp.Assert(gone != has(after, f), "the default cache is deleted, and nothing else")
		}
		vp.Reach("deleted")
		return
	case 1:
		if vp.Bool("flag") {
			at = 0
			args = append(args, "--cache-path", "flag")
		}
		ok := do(append([]string{"cache", "update"}, args...)...) == 0
		vp.Assert(ok == (at != without), "an installation that is there is kept, and one that cannot be downloaded is an error")
	case 2:
		if vp.Bool("flag") {
			at = 0
			args = append(args, "--cache-path="+vfs.Path("w/flag"))
		}
		ok := do(append([]string{"compile"}, args...)...) == 0
		vp.Assert(ok == (at != without), "the installation is used, if there is one")
		for i, p := range dirs {
			used := 0
			for _, c := range vfs.Calls(p + "/protobuf/" + version + "/bin/protoc") {
				if !strings.Contains(c, "--version") {
					used++
				}
			}
			vp.Assert((used == 1) == (i == at && ok) && used <= 1, "only that installation is used")
		}
	}
	if at == without {
		vp.Reach("missing")
	} else {
		vp.Reach("used")
	}
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
