// Package crt has harnesses for the creation of files.
package crt

import (
	"path/filepath"
	"strconv"
	"strings"

	"github.com/uber/prototool/internal/create"
	"github.com/uber/prototool/internal/protostrs"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/conf"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func d(n int) string { return strconv.Itoa(n) }

// content checks a created file.
func content(rel, header, pkg, java string, v2 bool) {
	vp.Assert(vfs.Exists(rel), "the file is created")
	text := vfs.Read(rel)
	if header != "" {
		vp.Assert(strings.HasPrefix(text, header+"\n\n"), "the file starts with the header")
		text = text[len(header):]
	}
	if java == "" {
		java = "com"
	}
	want := []string{
		`syntax = "proto3";`,
		"package " + pkg + ";",
		"option java_multiple_files = true;",
		`option java_outer_classname = "` + protostrs.JavaOuterClassname(filepath.Base(rel)) + `";`,
		`option java_package = "` + java + "." + pkg + `";`,
	}
	if v2 {
		want = append(want,
			`option go_package = "`+protostrs.GoPackageV2(pkg)+`";`,
			`option csharp_namespace = "`+protostrs.CSharpNamespace(pkg)+`";`,
			`option objc_class_prefix = "`+protostrs.OBJCClassPrefix(pkg)+`";`,
			`option php_namespace = "`+protostrs.PHPNamespace(pkg)+`";`)
	} else {
		want = append(want, `option go_package = "`+protostrs.GoPackage(pkg)+`";`)
	}
	n := 0
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		n++
		found := false
		for _, w := range want {
			if line == w {
				found = true
			}
		}
		vp.Assert(found, "the file has the package and the derived options: "+line)
	}
	vp.Assert(n == len(want), "the file has nothing but the package and the derived options")
}

func dflt(v2 bool) string {
	if v2 {
		return "uber.prototool.generated.v1"
	}
	return "uber.prototool.generated"
}

// below is the rest of dir below base.
func below(dir, base string) (string, bool) {
	if base == "." || dir == base {
		if dir == base {
			return "", true
		}
		return dir, true
	}
	if strings.HasPrefix(dir, base+"/") {
		return dir[len(base)+1:], true
	}
	return "", false
}

func join(base, rest string) string {
	rest = strings.Replace(rest, "/", ".", -1)
	if base == "" || rest == "" {
		return base + rest
	}
	return base + "." + rest
}

type mapping struct{ dir, name string }

// want is the package for a file in dir (relative to the root), with the
// configuration in at.
func want(dir, at string, maps []mapping, v2 bool) string {
	pkg, best := "", -1
	for _, m := range maps {
		if rest, ok := below(dir, filepath.Join(at, m.dir)); ok && len(filepath.Join(at, m.dir)) > best {
			best = len(filepath.Join(at, m.dir))
			pkg = join(m.name, rest)
		}
	}
	if best < 0 {
		if rest, ok := below(dir, at); ok {
			pkg = join("", rest)
		}
	}
	if pkg == "" {
		return dflt(v2)
	}
	return pkg
}

var dirs = []string{".", "idl", "idl/a", "idl/a/b", "idlx", "idlx/a", "v1"}

// A file in any of seven directories (some names prefixes of others), with the configuration at the top or in idl, up to two mappings of six directories, with and without the uber2 group.
//
//vp:harness C01 reach=done shards=7
func Mapped() {
	dir := dirs[vp.Shard(7)]
	for _, x := range dirs {
		vfs.Dir(x)
	}
	at := []string{".", "idl"}[vp.Choice("at", 2)]
	var e settings.ExternalConfig
	var maps []mapping
	mdirs := []string{".", "idl", "a", "idl/a", "a/b", "idlx"}
	n := vp.Choice("n", 3)
	for i := 0; i < n; i++ {
		m := mapping{mdirs[vp.Choice("m"+d(i), len(mdirs))], []string{"foo", "bar.baz"}[i]}
		if i > 0 {
			vp.Assume(m.dir != maps[0].dir)
		}
		maps = append(maps, m)
	}
	for _, m := range maps {
		e.Create.Packages = append(e.Create.Packages, struct {
			Directory string `json:"directory,omitempty" yaml:"directory,omitempty"`
			Name      string `json:"name,omitempty" yaml:"name,omitempty"`
		}{m.dir, m.name})
	}
	v2 := vp.Bool("v2")
	if v2 {
		e.Lint.Group = "uber2"
	}
	vfs.File(filepath.Join(at, "prototool.yaml"), conf.Text(e))
	err := create.NewHandler().Create(vfs.Path(filepath.Join(dir, "foo_bar.proto")))
	vp.Assert(err == nil, "a file is created in a directory")
	if _, ok := below(dir, at); !ok {
		maps, v2, at = nil, false, dir
	}
	content(filepath.Join(dir, "foo_bar.proto"), "", want(dir, at, maps, v2), "", v2)
	vp.Reach("done")
}
