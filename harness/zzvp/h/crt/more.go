package crt

import (
	"path/filepath"
	"strings"

	"github.com/uber/prototool/internal/create"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/conf"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// Up to three paths to create of eight kinds: new, empty, with content of one or two bytes, a directory, below a file, below nothing, empty path.
//
//vp:harness C01 reach=created,refused
func Existing() {
	full := vp.String("full", "\x00 \n", 1, 2)
	vfs.Dir("a")
	vfs.File("a/empty.proto", "")
	vfs.File("a/full.proto", full)
	vfs.Dir("a/dir.proto")
	paths := []string{"a/new.proto", "a/empty.proto", "a/full.proto", "a/dir.proto", "a/full.proto/x.proto", "none/x.proto", "", "top.proto"}
	n := 1 + vp.Choice("n", 3)
	var args []string
	bad := false
	given := map[string]bool{}
	for i := 0; i < n; i++ {
		x := vp.Choice("p"+d(i), len(paths))
		if x >= 2 && x <= 6 {
			bad = true
		}
		p := paths[x]
		vp.Assume(!given[p])
		given[p] = true
		if p == "" {
			args = append(args, "")
		} else {
			args = append(args, vfs.Path(p))
		}
	}
	err := create.NewHandler().Create(args...)
	vp.Assert(vfs.Read("a/full.proto") == full, "a file with content is never changed")
	vp.Assert(!vfs.Exists("none"), "no directory is made")
	if bad {
		vp.Assert(err != nil, "a path that cannot be created or has content is an error")
		vp.Assert(vfs.Read("a/empty.proto") == "" && !vfs.Exists("a/new.proto") && !vfs.Exists("top.proto"), "nothing is created when one path is refused")
		vp.Reach("refused")
		return
	}
	vp.Assert(err == nil, "new and empty files can be created")
	for _, p := range []string{"a/new.proto", "a/empty.proto", "top.proto"} {
		if given[p] {
			content(p, "", dflt(false), "", false)
		} else {
			vp.Assert(!vfs.Exists(p) || vfs.Read(p) == "", "no other file is created")
		}
	}
	vp.Reach("created")
}

// A file header given by content or by path, of up to five bytes, not blank, commented or not, with a java package prefix or none.
//
//vp:harness C01 reach=header,none shards=5
func Header() {
	text := vp.String("text", "/a \n", vp.Shard(5)+1, vp.Shard(5)+1)
	var e settings.ExternalConfig
	prefix := []string{"", "com", "org.x"}[vp.Choice("java", 3)]
	e.Lint.JavaPackagePrefix = prefix
	commented := vp.Bool("commented")
	e.Lint.FileHeader.IsCommented = commented
	if vp.Bool("path") {
		e.Lint.FileHeader.Path = "h/header.txt"
		vfs.File("h/header.txt", text)
	} else {
		e.Lint.FileHeader.Content = text
	}
	v2 := vp.Bool("v2")
	if v2 {
		e.Lint.Group = "uber2"
	}
	header := vp.Bool("header")
	if !header {
		e.Lint.FileHeader.Path, e.Lint.FileHeader.Content = "", ""
	}
	vfs.File("prototool.yaml", conf.Text(e))
	vfs.Dir("a/v1")
	trim := strings.TrimSpace(text)
	vp.Assume(trim != "")
	err := create.NewHandler().Create(vfs.Path("a/v1/x.proto"))
	vp.Assert(err == nil, "a file with header is created")
	if !header {
		content("a/v1/x.proto", "", "a.v1", prefix, v2)
		vp.Reach("none")
		return
	}
	got := vfs.Read("a/v1/x.proto")
	i := strings.Index(got, "\n\nsyntax")
	vp.Assert(i > 0, "the header stands before the syntax")
	head := got[:i]
	w, g := strings.Split(trim, "\n"), strings.Split(head, "\n")
	vp.Assert(len(w) == len(g), "the header has as many lines as given")
	for j, line := range g {
		if !commented {
			vp.Assert(strings.HasPrefix(line, "//"), "every line of the header becomes a comment")
			line = line[2:]
		}
		vp.Assert(strings.TrimSpace(line) == strings.TrimSpace(w[j]), "the header has the lines given")
	}
	content("a/v1/x.proto", head, "a.v1", prefix, v2)
	vp.Reach("header")
}

// A package given by flag, configuration data given by flag or not, a configuration file in any of three directories or none, any of four working directories, and a file given by absolute or relative path.
//
//vp:harness C01 reach=done
func Flags() {
	for _, x := range dirs {
		vfs.Dir(x)
	}
	wd := []string{".", "idl", "idl/a", "idlx"}[vp.Choice("wd", 4)]
	dir := []string{".", "idl/a/b", "idlx/a"}[vp.Choice("dir", 3)]
	vfs.Chdir(wd)
	var opts []create.HandlerOption
	conf1 := func(v string, name string) string {
		var e settings.ExternalConfig
		e.Lint.Group = v
		e.Create.Packages = append(e.Create.Packages, struct {
			Directory string `json:"directory,omitempty" yaml:"directory,omitempty"`
			Name      string `json:"name,omitempty" yaml:"name,omitempty"`
		}{"a", name})
		return conf.Text(e)
	}
	at := ""
	if k := vp.Choice("at", 4); k < 3 {
		at = []string{".", "idl", "idl/a"}[k]
		vfs.File(filepath.Join(at, "prototool.yaml"), conf1("uber2", "foo.v1"))
	}
	v2, maps, under := true, []mapping{{"a", "foo.v1"}}, at
	if vp.Bool("data") {
		opts = append(opts, create.HandlerWithConfigData(conf1("google", "bar")))
		v2, maps, under = false, []mapping{{"a", "bar"}}, wd
	} else if _, ok := below(dir, at); at == "" || !ok {
		v2, maps, under = false, nil, dir
	}
	pkg := want(dir, under, maps, v2)
	if vp.Bool("pkg") {
		pkg = "given.v1"
		opts = append(opts, create.HandlerWithPackage(pkg))
	}
	p := vfs.Path(filepath.Join(dir, "a.proto"))
	if vp.Bool("rel") {
		r, err := filepath.Rel(vfs.Path(wd), p)
		if err != nil {
			panic(err)
		}
		p = r
	}
	err := create.NewHandler(opts...).Create(p)
	vp.Assert(err == nil, "a file is created in a directory")
	content(filepath.Join(dir, "a.proto"), "", pkg, "", v2)
	vp.Reach("done")
}

// A file 0 to 3 levels below the configuration and a mapping 1 or 2 levels below it, all names of 1 or 2 letters, so that equal, nested and name-prefix directories occur.
//
//vp:harness C01 reach=mapped,plain,top shards=8
func Names() {
	sh := vp.Shard(8)
	comps := func(p string, n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s = filepath.Join(s, vp.String(p+d(i), "ab", 1, 2))
		}
		return s
	}
	dir := filepath.Clean(comps("f", sh%4))
	m := mapping{comps("m", 1+sh/4), "foo"}
	var e settings.ExternalConfig
	e.Create.Packages = append(e.Create.Packages, struct {
		Directory string `json:"directory,omitempty" yaml:"directory,omitempty"`
		Name      string `json:"name,omitempty" yaml:"name,omitempty"`
	}{m.dir, m.name})
	vfs.File("prototool.yaml", conf.Text(e))
	vfs.Dir(dir)
	err := create.NewHandler().Create(vfs.Path(filepath.Join(dir, "x.proto")))
	vp.Assert(err == nil, "a file is created in a directory")
	content(filepath.Join(dir, "x.proto"), "", want(dir, ".", []mapping{m}, false), "", false)
	if _, ok := below(dir, m.dir); ok {
		vp.Reach("mapped")
	} else if dir == "." {
		vp.Reach("top")
	} else {
		vp.Reach("plain")
	}
}
