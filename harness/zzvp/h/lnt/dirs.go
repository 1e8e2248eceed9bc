package lnt

import (
	"github.com/emicklei/proto"
	"github.com/uber/prototool/internal/lint"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// differ tells whether two values of which ok is set differ.
func differ(vals []string, ok []bool) bool {
	r := false
	for i := range vals {
		for j := 0; j < i; j++ {
			r = r || (ok[i] && ok[j] && vals[i] != vals[j])
		}
	}
	return r
}

// expectDirs asserts that each file of a directory has one failure exactly
// when its directory is in disagreement.
func expectDirs(id string, dirs map[string][]*lint.FileDescriptor, bad map[string]bool) {
	fs, err := lint.CheckMultiple([]lint.Linter{rule(id)}, dirs, nil)
	vp.Assert(err == nil, "linting succeeds")
	count := map[string]int{}
	for _, f := range fs {
		vp.Assert(f.LintID == id, "failures are labelled with the rule")
		count[f.Filename]++
	}
	total := 0
	for dir, fds := range dirs {
		for _, d := range fds {
			w := 0
			if bad[dir] {
				w = 1
			}
			vp.Assert(count[d.Filename] == w, id+" reports every file of a directory whose files disagree and no other")
			total += w
		}
	}
	vp.Assert(len(fs) == total, id+" reports nothing else")
}

// Two directories of three and two files and one of one file; each file has a
// package name of 1 to 3 bytes or none.
//
//vp:harness L06 reach=same,differ shards=4 order=any
func Packages() {
	mask := vp.Shard(4)
	dirs := map[string][]*lint.FileDescriptor{}
	bad := map[string]bool{}
	k := 0
	for _, d := range []struct {
		dir string
		n   int
	}{{"/w", 3}, {"/w/a", 2}, {"/w/b", 1}} {
		var vals []string
		var ok []bool
		for i := 0; i < d.n; i++ {
			l := string(rune('a' + k))
			k++
			f := fd(d.dir+"/"+l+".proto", "syntax = \"proto3\";\npackage p;\n", settings.LintConfig{})
			v := vp.String("v"+l, "abA_.", 1, n(2, 3))
			f.Elements[1].(*proto.Package).Name = v
			have := !((i == 0 && mask&1 == 1) || (i == 1 && mask&2 == 2))
			if !have {
				f.Elements = f.Elements[:1]
			}
			vals = append(vals, v)
			ok = append(ok, have)
			dirs[d.dir] = append(dirs[d.dir], f)
		}
		bad[d.dir] = differ(vals, ok)
		if bad[d.dir] {
			vp.Reach("differ")
		} else {
			vp.Reach("same")
		}
	}
	expectDirs("PACKAGES_SAME_IN_DIR", dirs, bad)
}

var sameDirRules = []struct{ id, option string }{
	{"FILE_OPTIONS_CSHARP_NAMESPACE_SAME_IN_DIR", "csharp_namespace"},
	{"FILE_OPTIONS_GO_PACKAGE_SAME_IN_DIR", "go_package"},
	{"FILE_OPTIONS_JAVA_MULTIPLE_FILES_SAME_IN_DIR", "java_multiple_files"},
	{"FILE_OPTIONS_JAVA_PACKAGE_SAME_IN_DIR", "java_package"},
	{"FILE_OPTIONS_OBJC_CLASS_PREFIX_SAME_IN_DIR", "objc_class_prefix"},
	{"FILE_OPTIONS_PHP_NAMESPACE_SAME_IN_DIR", "php_namespace"},
}

// Every rule on options; two directories of three and two files and one of one
// file; each file has the option in one of three places with a value of 1 or 2
// bytes, or not at all.
//
//vp:harness L06 reach=same,differ shards=24 order=any
func OptionsSame() {
	sh := vp.Shard(24)
	r := sameDirRules[sh%6]
	mask := sh / 6
	dirs := map[string][]*lint.FileDescriptor{}
	bad := map[string]bool{}
	k := 0
	for _, d := range []struct {
		dir string
		n   int
	}{{"/w", 3}, {"/w/a", 2}, {"/w/b", 1}} {
		var vals []string
		var ok []bool
		for i := 0; i < d.n; i++ {
			l := string(rune('a' + k))
			k++
			f := optionFile(d.dir+"/"+l+".proto", r.option, settings.LintConfig{})
			v := vp.String("v"+l, "abAB. ", 1, n(1, 3))
			f.first.Constant.Source, f.second.Constant.Source, f.third.Constant.Source = v, v, v
			have := true
			switch {
			case i == 0 && mask&1 == 1, i == 1 && mask&2 == 2:
				have = false
			case k%3 == 0:
				f.first.Name = r.option
			case k%3 == 1:
				f.second.Name = r.option
			default:
				f.third.Name = r.option
			}
			if vp.Bool("none" + l) {
				have = false
				f.first.Name, f.second.Name, f.third.Name = "a", "b", "c"
			}
			if !have {
				v = ""
			}
			vals = append(vals, v)
			ok = append(ok, true)
			dirs[d.dir] = append(dirs[d.dir], f.fd)
		}
		bad[d.dir] = differ(vals, ok)
		if bad[d.dir] {
			vp.Reach("differ")
		} else {
			vp.Reach("same")
		}
	}
	expectDirs(r.id, dirs, bad)
}
