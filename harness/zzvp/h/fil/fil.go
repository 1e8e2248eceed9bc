// Package fil has harnesses for finding files and configurations.
package fil

import (
	"path/filepath"
	"strconv"

	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/conf"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func d(n int) string { return strconv.Itoa(n) }

// A chain of four directories, each with or without prototool.yaml and prototool.json, and any of the directories (or one that does not exist) to look up.
//
//vp:harness F02 reach=none,found,two
func Nearest() {
	var yaml, json [4]bool
	dirs := []string{".", "a", "a/b", "a/b/c", "a/b/c/d"}
	text := func(p string) string {
		var e settings.ExternalConfig
		e.Protoc.Version = p
		return conf.Text(e)
	}
	for i := range yaml {
		yaml[i], json[i] = vp.Bool("yaml"+d(i)), vp.Bool("json"+d(i))
		vfs.FileIf(yaml[i], dirs[i]+"/prototool.yaml", text("y"+d(i)))
		vfs.FileIf(json[i], dirs[i]+"/prototool.json", text("j"+d(i)))
	}
	at := vp.Choice("at", len(dirs))
	cp := settings.NewConfigProvider()
	p, err := cp.GetFilePathForDir(vfs.Path(dirs[at]))
	c, cerr := cp.GetForDir(vfs.Path(dirs[at]))
	for i := at; i >= 0; i-- {
		if i > 3 || !yaml[i] && !json[i] {
			continue
		}
		if yaml[i] && json[i] {
			vp.Assert(err != nil && cerr != nil, "two configuration files in one directory are an error")
			vp.Reach("two")
			return
		}
		name, v := "prototool.yaml", "y"
		if json[i] {
			name, v = "prototool.json", "j"
		}
		vp.Assert(err == nil && p == vfs.Path(filepath.Join(dirs[i], name)), "the nearest configuration file is found")
		vp.Assert(cerr == nil && c.DirPath == vfs.Path(dirs[i]) && c.Compile.ProtobufVersion == v+d(i), "the nearest configuration applies")
		vp.Reach("found")
		return
	}
	vp.Assert(err == nil && p == "", "without configuration file there is none")
	vp.Assert(cerr == nil && c.DirPath == vfs.Path(dirs[at]) && c.Compile.ProtobufVersion == "", "without configuration file the default applies")
	vp.Reach("none")
}

// Lookups of any two of seven directories one after the other, written clean or not, each of five directories (among them nested ones and ones whose names begin alike) with or without configuration.
//
//vp:harness F02 reach=none,found,same
func Lookups() {
	dirs := []string{".", "a", "a/b", "ab", "a/c"}
	has := map[string]bool{}
	for i, dir := range dirs {
		if b := vp.Bool("has" + d(i)); b {
			has[dir] = true
			var e settings.ExternalConfig
			e.Protoc.Version = "v" + d(i)
			name := "prototool.yaml"
			if i%2 == 1 {
				name = "prototool.json"
			}
			vfs.File(dir+"/"+name, conf.Text(e))
		}
	}
	cp := settings.NewConfigProvider()
	at := []string{".", "a", "a/b", "ab", "a/c", "a/b/d", "ab/d"}
	var found [2]string
	for i := range found {
		dir := at[vp.Choice("at"+d(i), len(at))]
		written := vfs.Path(dir)
		switch vp.Choice("written"+d(i), 3) {
		case 1:
			written += "/"
		case 2:
			written += "/x/.."
		}
		p, err := cp.GetFilePathForDir(written)
		c, cerr := cp.GetForDir(written)
		vp.Assert(err == nil && cerr == nil, "a lookup succeeds")
		expected, expectedDir, version := "", dir, ""
		for e := dir; ; e = filepath.Dir(e) {
			if has[e] {
				j := 0
				for dirs[j] != e {
					j++
				}
				expected, expectedDir, version = filepath.Join(e, []string{"prototool.yaml", "prototool.json"}[j%2]), e, "v"+d(j)
				break
			}
			if e == "." {
				break
			}
		}
		if expected == "" {
			vp.Assert(p == "", "without configuration file there is none")
			vp.Reach("none")
		} else {
			vp.Assert(p == vfs.Path(expected), "the nearest configuration file is found, whatever was looked up before")
			vp.Reach("found")
		}
		vp.Assert(filepath.Clean(c.DirPath) == vfs.Path(expectedDir) && c.Compile.ProtobufVersion == version, "the nearest configuration applies, whatever was looked up before")
		found[i] = expected
	}
	if found[0] != "" && found[0] == found[1] {
		vp.Reach("same")
	}
}
