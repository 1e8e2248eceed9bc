package fil

import (
	"path/filepath"
	"strings"

	"github.com/uber/prototool/internal/file"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/conf"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func comps(p string, n int, max int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += "/" + vp.String(p+d(i), "ab", 1, max)
	}
	return s
}

// A file 1 to 3 levels below the working root and one or two excluded paths 1 to 3 levels below it, all names of 1 or 2 letters, so that equal, nested and name-prefix paths occur.
//
//vp:harness F01 reach=in,out shards=9
func Excluded() {
	sh := vp.Shard(9)
	f := "/r" + comps("f", 1+sh%3, 2)
	ex := []string{"/r" + comps("x", 1+sh/3, 2)}
	if vp.Choice("two", 2) == 1 {
		ex = append(ex, "/r"+comps("y", 1, 2))
	}
	want := false
	for _, e := range ex {
		if f == e || strings.HasPrefix(f, e+"/") {
			want = true
		}
	}
	vp.Assert(file.IsExcluded(f, "/r", ex...) == want, "a path is excluded exactly when it or a directory above it is")
	vp.Assert(!file.IsExcluded(f, "/r"), "nothing is excluded without excludes")
	if want {
		vp.Reach("in")
	} else {
		vp.Reach("out")
	}
}

// Two excludes of thirteen forms each (relative, absolute, with dots, the configuration's directory itself, outside of it, in a sibling whose name starts alike), from a configuration in one of three directories.
//
//vp:harness F01 reach=ok,error shards=3
func ExcludeForms() {
	dir := []string{"/w", "/w/foo", "/"}[vp.Shard(3)]
	forms := []string{"a", "a/b", "./a", "a/", "a/../b", filepath.Join(dir, "c"), dir, ".", "a/..", "..", "../foobar", filepath.Clean(dir + "bar/a"), "a b"}
	var e settings.ExternalConfig
	var want []string
	bad := false
	n := 1 + vp.Choice("n", 2)
	for i := 0; i < n; i++ {
		x := forms[vp.Choice("x"+d(i), len(forms))]
		e.Excludes = append(e.Excludes, x)
		if !filepath.IsAbs(x) {
			x = dir + "/" + x
		}
		x = filepath.Clean(x)
		if x == dir || dir != "/" && !strings.HasPrefix(x, dir+"/") {
			bad = true
		}
		want = append(want, x)
	}
	c, err := settings.NewConfigProvider().GetForData(dir, conf.Text(e))
	p, perr := settings.NewConfigProvider().GetExcludePrefixesForData(dir, conf.Text(e))
	if bad {
		vp.Assert(err != nil && perr != nil, "excluding the directory of the configuration or anything outside of it is an error")
		vp.Reach("error")
		return
	}
	vp.Assert(err == nil && perr == nil, "excludes below the directory of the configuration are accepted")
	for _, got := range [][]string{c.ExcludePrefixes, p} {
		for _, w := range want {
			vp.Assert(has(got, w), "every exclude is used as an absolute clean path")
		}
		for _, g := range got {
			vp.Assert(has(want, g), "no other excludes are used")
		}
	}
	vp.Reach("ok")
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

type tcase struct {
	dirs    []string // of the tree below /w
	confs   []string // directories that may have a configuration
	exclude []string // of the configuration in the first of confs
}

// under reports whether p is d or below it.
func under(p, d string) bool { return p == d || d == "." || strings.HasPrefix(p, d+"/") }

// checkTree builds a tree and compares what GetForDir finds for every start
// directory with the reference.
func checkTree(dirs, confs []string, excludes [][]string, work string, sh int) {
	has := make([]bool, len(confs))
	ex := make([]string, len(confs))
	for i, c := range confs {
		has[i] = sh>>uint(i)&1 == 1
		if !has[i] {
			continue
		}
		var e settings.ExternalConfig
		if len(excludes[i]) > 0 {
			if k := vp.Choice("ex"+d(i), 1+len(excludes[i])); k > 0 {
				ex[i] = filepath.Join(c, excludes[i][k-1])
				e.Excludes = []string{excludes[i][k-1]}
			}
		}
		vfs.File(c+"/prototool.yaml", conf.Text(e))
	}
	var files []string
	for i, p := range dirs {
		vfs.Dir(p)
		vfs.File(p+"/x.txt", "")
		vfs.File(p+"/proto", "")
		vfs.File(p+"/a.proto.bak", "")
		if vp.Choice("a"+d(i), 2) == 1 {
			vfs.File(p+"/a.proto", "")
			files = append(files, filepath.Join(p, "a.proto"))
		}
		if i < 2 {
			vfs.File(p+"/b.proto", "")
			files = append(files, filepath.Join(p, "b.proto"))
		}
	}
	at := dirs[sh>>2]
	near := func(p string) int {
		for ; ; p = filepath.Dir(p) {
			for i, c := range confs {
				if c == p && has[i] {
					return i
				}
			}
			if p == "." {
				return -1
			}
		}
	}
	root := at
	if k := near(at); k >= 0 {
		root = confs[k]
	}
	groups := map[int]int{}
	var want []string
	for _, f := range files {
		if !under(f, root) {
			continue
		}
		out := false
		for i := range confs {
			if ex[i] != "" && under(confs[i], root) && under(f, ex[i]) {
				out = true
			}
		}
		if !out {
			want = append(want, f)
			groups[near(filepath.Dir(f))]++
		}
	}
	outside := false // a file without configuration and outside of the working directory
	for _, f := range want {
		outside = outside || near(filepath.Dir(f)) < 0 && !under(f, work)
	}
	s, err := file.NewProtoSetProvider().GetForDir(vfs.Path(work), vfs.Path(at))
	if len(groups) > 1 {
		vp.Assert(err != nil, "files under different configurations are an error")
		vp.Reach("several")
		return
	}
	if outside {
		vp.Assert(err != nil, "files without a configuration outside of the working directory are an error")
		vp.Reach("outside")
		return
	}
	vp.Assert(err == nil && s != nil, "files under one configuration are collected")
	vp.Assert(s.WorkDirPath == vfs.Path(work) && s.DirPath == vfs.Path(at), "the working and given directories are kept")
	n := 0
	for dir, l := range s.DirPathToFiles {
		vp.Assert(len(l) > 0, "no directory without files")
		for _, f := range l {
			n++
			ok := false
			for _, w := range want {
				if vfs.Path(w) == f.Path {
					ok = true
					r, _ := filepath.Rel(vfs.Path(work), f.Path)
					vp.Assert(f.DisplayPath == r, "a file is displayed relative to the working directory")
				}
			}
			vp.Assert(ok, "only matching files are collected")
			vp.Assert(filepath.Dir(f.Path) == dir, "a file is in the group of its directory")
		}
		for i, f := range l {
			for _, g := range l[:i] {
				vp.Assert(g.Path != f.Path, "a file is collected once")
			}
		}
	}
	vp.Assert(n == len(want), "no file is lost")
	if n > 0 {
		k := -1
		for g := range groups {
			k = g
		}
		cd := vfs.Path(work)
		if k >= 0 {
			cd = vfs.Path(confs[k])
		}
		vp.Assert(s.Config.DirPath == cd, "the configuration is the nearest to the files")
	}
	vp.Reach("one")
}

// A tree of four directories (one name a prefix of another) with any of the .proto files among other files, a configuration or none at the top and in a subdirectory, with one of five excludes, looked up from any of the directories.
//
//vp:harness F04 reach=one,several shards=16
func Tree() {
	checkTree([]string{".", "a", "a/b", "ab"}, []string{".", "a"}, [][]string{{"a", "a/b", "ab", "a/a.proto", "b"}, {"b", "a.proto"}}, ".", vp.Shard(16))
}

// The same with a configuration in the middle directory or in its parent, seen from a working directory in the tree; one directory is named "..c".
//
//vp:harness F04 reach=one,several,outside shards=16
func TreeInside() {
	checkTree([]string{"a", "a/b", "a/b/c", "a/..c"}, []string{"a/b", "a"}, [][]string{{"c", "c/a.proto"}, {"b", "b/c", "..c"}}, "a/b", vp.Shard(16))
}
