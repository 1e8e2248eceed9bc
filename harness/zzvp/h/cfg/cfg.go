// Package cfg has harnesses for the translation of configurations.
package cfg

import (
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/conf"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func d(n int) string { return strconv.Itoa(n) }

// load gives e as configuration data, as a YAML or as a JSON file.
func load(e settings.ExternalConfig, dir string, src int, opts ...settings.ConfigProviderOption) (settings.Config, error) {
	p := settings.NewConfigProvider(opts...)
	switch src {
	case 0:
		return p.GetForData(vfs.Path(dir), conf.Text(e))
	case 1:
		vfs.File(filepath.Join(dir, "prototool.yaml"), conf.Text(e))
		return p.Get(vfs.Path(filepath.Join(dir, "prototool.yaml")))
	case 2:
		vfs.File(filepath.Join(dir, "prototool.json"), conf.Text(e))
		return p.GetForDir(vfs.Path(dir))
	}
	vfs.File(filepath.Join(dir, "prototool.yaml"), conf.Text(e))
	vfs.Dir(filepath.Join(dir, "sub/dir"))
	return p.GetForDir(vfs.Path(filepath.Join(dir, "sub/dir")))
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(a)
	sort.Strings(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// uniq drops repeated strings.
func uniq(l []string) []string {
	var r []string
	for _, s := range l {
		seen := false
		for _, x := range r {
			if x == s {
				seen = true
			}
		}
		if !seen {
			r = append(r, s)
		}
	}
	return r
}

func abs(dir, p string) string {
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	return vfs.Path(filepath.Join(dir, p))
}

// All settings that are taken as they are, with any values (strings of up to 2 bytes), given as data, YAML or JSON file, in the directory itself or above it; suppression with and without devel mode.
//
//vp:harness F03 reach=ok,error shards=4
func Plain() {
	var e settings.ExternalConfig
	e.Protoc.Version = vp.String("version", "", 0, 2)
	e.Protoc.AllowUnusedImports = vp.Bool("unused")
	e.Lint.Group = vp.String("group", "aZ2", 0, 2)
	e.Lint.Rules.NoDefault = vp.Bool("nodefault")
	e.Lint.JavaPackagePrefix = vp.String("java", "", 0, 1)
	e.Lint.AllowSuppression = vp.Bool("suppress")
	e.Break.IncludeBeta = vp.Bool("beta")
	e.Break.AllowBetaDeps = vp.Bool("deps")
	e.Generate.GoOptions.ImportPath = vp.String("import", "", 0, 1)
	devel := vp.Bool("devel")
	mods := map[string]string{}
	for i := 0; i < 2; i++ {
		if vp.Bool("mod" + d(i)) {
			mods["a"+d(i)] = vp.String("to"+d(i), "", 0, 1)
		}
	}
	if len(mods) > 0 {
		e.Generate.GoOptions.ExtraModifiers = mods
	}
	var opts []settings.ConfigProviderOption
	if devel {
		opts = append(opts, settings.ConfigProviderWithDevelMode())
	}
	c, err := load(e, "w", vp.Shard(4), opts...)
	if e.Lint.AllowSuppression && !devel {
		vp.Assert(err != nil, "suppression is only allowed in devel mode")
		vp.Reach("error")
		return
	}
	vp.Assert(err == nil, "the settings are accepted")
	vp.Assert(c.DirPath == vfs.Path("w"), "the directory is that of the configuration")
	vp.Assert(c.Compile.ProtobufVersion == e.Protoc.Version, "the protoc version is kept")
	vp.Assert(c.Compile.AllowUnusedImports == e.Protoc.AllowUnusedImports, "unused imports are allowed as configured")
	vp.Assert(c.Compile.IncludeWellKnownTypes, "well known types are included")
	vp.Assert(c.Lint.Group == strings.ToLower(e.Lint.Group), "the lint group is kept, in lower case")
	vp.Assert(c.Lint.NoDefault == e.Lint.Rules.NoDefault, "the default rules are dropped as configured")
	vp.Assert(c.Lint.JavaPackagePrefix == e.Lint.JavaPackagePrefix, "the java package prefix is kept")
	vp.Assert(c.Lint.AllowSuppression == e.Lint.AllowSuppression, "suppression is allowed as configured")
	vp.Assert(c.Lint.FileHeader == "", "there is no header")
	vp.Assert(c.Break.IncludeBeta == e.Break.IncludeBeta && c.Break.AllowBetaDeps == e.Break.AllowBetaDeps, "beta settings are kept")
	vp.Assert(c.Gen.GoPluginOptions.ImportPath == e.Generate.GoOptions.ImportPath, "the import path is kept")
	vp.Assert(len(c.Gen.GoPluginOptions.ExtraModifiers) == len(mods), "no modifier is added or lost")
	for k, v := range mods {
		vp.Assert(c.Gen.GoPluginOptions.ExtraModifiers[k] == v, "the modifiers are kept")
	}
	vp.Assert(len(c.Gen.Plugins) == 0 && len(c.ExcludePrefixes) == 0 && len(c.Compile.IncludePaths) == 0 && len(c.Create.DirPathToBasePackage) == 0 && len(c.Lint.IncludeIDs) == 0 && len(c.Lint.ExcludeIDs) == 0 && len(c.Lint.IgnoreIDToFilePaths) == 0, "nothing is made up")
	vp.Reach("ok")
}

// Up to two include paths (three in the thorough check) of ten forms and up to two excludes of four forms, in any order and repeated.
//
//vp:harness F03 reach=ok shards=4
func Paths() {
	var e settings.ExternalConfig
	forms := []string{"a", "b", "a/b", "./a", "../x", ".", "..", "/abs", "/abs/../y", "a b"}
	var want, ex []string
	n := vp.Choice("n", 3+vp.Tier())
	for i := 0; i < n; i++ {
		x := forms[vp.Choice("i"+d(i), len(forms))]
		e.Protoc.Includes = append(e.Protoc.Includes, x)
		want = append(want, abs("w", x))
	}
	m := vp.Choice("m", 3)
	for i := 0; i < m; i++ {
		x := []string{"a", "b/c", "a.proto", "./b/c"}[vp.Choice("x"+d(i), 4)]
		e.Excludes = append(e.Excludes, x)
		ex = append(ex, abs("w", x))
	}
	c, err := load(e, "w", vp.Shard(4))
	vp.Assert(err == nil, "the settings are accepted")
	vp.Assert(same(uniq(c.Compile.IncludePaths), uniq(want)), "the include paths are those configured, relative to the configuration")
	vp.Assert(same(uniq(c.ExcludePrefixes), uniq(ex)), "the excludes are those configured, relative to the configuration")
	vp.Reach("ok")
}

// Up to two ignore entries with any of four rule names and up to two of five paths each (one for the second, but in the thorough check).
//
//vp:harness F03 reach=ok shards=4
func Ignores() {
	var e settings.ExternalConfig
	want := map[string][]string{}
	files := []string{"a.proto", "b/c", "./b/c", "../d.proto", "/abs/e.proto"}
	n := 1 + vp.Choice("n", 2)
	for i := 0; i < n; i++ {
		id := []string{"AB", "ab", "Cd", "A_B"}[vp.Choice("id"+d(i), 4)]
		var l []string
		m := vp.Choice("m"+d(i), 3-i*(1-vp.Tier()))
		for j := 0; j < m; j++ {
			x := files[vp.Choice("f"+d(i)+d(j), len(files))]
			l = append(l, x)
			want[strings.ToUpper(id)] = append(want[strings.ToUpper(id)], abs("w", x))
		}
		e.Lint.Ignores = append(e.Lint.Ignores, struct {
			ID    string   `json:"id,omitempty" yaml:"id,omitempty"`
			Files []string `json:"files,omitempty" yaml:"files,omitempty"`
		}{id, l})
	}
	c, err := load(e, "w", vp.Shard(4))
	vp.Assert(err == nil, "the settings are accepted")
	for _, id := range []string{"AB", "CD", "A_B", "ab", "Cd"} {
		vp.Assert(same(uniq(c.Lint.IgnoreIDToFilePaths[id]), uniq(want[id])), "the ignored paths of a rule are those configured, relative to the configuration")
	}
	vp.Reach("ok")
}

// Up to two added and two removed rules, names of 1 or 2 bytes in any case.
//
//vp:harness F03 reach=ok,error shards=4
func Rules() {
	var e settings.ExternalConfig
	var add, remove []string
	n, m := vp.Choice("n", 3), vp.Choice("m", 3)
	for i := 0; i < n; i++ {
		x := vp.String("a"+d(i), "aAb_", 1, 2)
		e.Lint.Rules.Add = append(e.Lint.Rules.Add, x)
		add = append(add, strings.ToUpper(x))
	}
	both := false
	for i := 0; i < m; i++ {
		x := vp.String("r"+d(i), "aAb_", 1, 2)
		e.Lint.Rules.Remove = append(e.Lint.Rules.Remove, x)
		remove = append(remove, strings.ToUpper(x))
		for _, y := range add {
			if y == strings.ToUpper(x) {
				both = true
			}
		}
	}
	c, err := load(e, "w", vp.Shard(4))
	if both {
		vp.Assert(err != nil, "a rule that is both added and removed is an error")
		vp.Reach("error")
		return
	}
	vp.Assert(err == nil, "the settings are accepted")
	vp.Assert(same(c.Lint.IncludeIDs, uniq(add)), "the added rules are those configured, in upper case, once")
	vp.Assert(same(c.Lint.ExcludeIDs, uniq(remove)), "the removed rules are those configured, in upper case, once")
	vp.Reach("ok")
}

// Up to two create packages with any of seven directories (relative, absolute, empty, equal but for their form) and three names (one empty).
//
//vp:harness F03 reach=ok,error shards=4
func Packages() {
	var e settings.ExternalConfig
	want := map[string][]string{}
	bad := false
	n := 1 + vp.Choice("n", 2)
	for i := 0; i < n; i++ {
		dir := []string{"a", "a/b", "./a", ".", "../x", "", "/abs"}[vp.Choice("dir"+d(i), 7)]
		name := []string{"foo", "foo.bar", ""}[vp.Choice("name"+d(i), 3)]
		if dir == "" || name == "" || dir == "/abs" {
			bad = true
		} else {
			want[abs("w", dir)] = append(want[abs("w", dir)], name)
		}
		e.Create.Packages = append(e.Create.Packages, struct {
			Directory string `json:"directory,omitempty" yaml:"directory,omitempty"`
			Name      string `json:"name,omitempty" yaml:"name,omitempty"`
		}{dir, name})
	}
	c, err := load(e, "w", vp.Shard(4))
	if bad {
		vp.Assert(err != nil, "an incomplete create package or one with an absolute directory is an error")
		vp.Reach("error")
		return
	}
	vp.Assert(err == nil, "the settings are accepted")
	vp.Assert(len(c.Create.DirPathToBasePackage) == len(want), "no create package is added or lost")
	for dir, names := range want {
		got := c.Create.DirPathToBasePackage[dir]
		vp.Assert(got == names[0] || got == names[len(names)-1], "the create packages are those configured, relative to the configuration")
	}
	vp.Reach("ok")
}

type plugin = struct {
	Name              string `json:"name,omitempty" yaml:"name,omitempty"`
	Type              string `json:"type,omitempty" yaml:"type,omitempty"`
	Flags             string `json:"flags,omitempty" yaml:"flags,omitempty"`
	Output            string `json:"output,omitempty" yaml:"output,omitempty"`
	Path              string `json:"path,omitempty" yaml:"path,omitempty"`
	FileSuffix        string `json:"file_suffix,omitempty" yaml:"file_suffix,omitempty"`
	IncludeImports    bool   `json:"include_imports,omitempty" yaml:"include_imports,omitempty"`
	IncludeSourceInfo bool   `json:"include_source_info,omitempty" yaml:"include_source_info,omitempty"`
}

// want is the type of p and whether p is refused.
func wantPlugin(p plugin, imp string) (settings.GenPluginType, bool) {
	t, bad := settings.GenPluginTypeNone, false
	switch strings.ToLower(p.Type) {
	case "":
	case "go":
		t = settings.GenPluginTypeGo
	case "gogo":
		t = settings.GenPluginTypeGogo
	default:
		bad = true
	}
	if t != settings.GenPluginTypeNone && imp == "" {
		bad = true
	}
	if p.Output == "" || p.FileSuffix != "" && p.FileSuffix[0] == '.' || strings.HasPrefix(p.Name, "protoc-gen-") {
		bad = true
	}
	if p.Name != "descriptor_set" && (p.IncludeImports || p.IncludeSourceInfo) {
		bad = true
	}
	return t, bad
}

func checkPlugin(g settings.GenPlugin, p plugin, t settings.GenPluginType) {
	vp.Assert(g.Name == p.Name && g.Flags == p.Flags && g.FileSuffix == p.FileSuffix, "name, flags and suffix of a plugin are kept")
	vp.Assert(g.Type == t, "the type of a plugin is the one configured")
	vp.Assert(g.IncludeImports == p.IncludeImports && g.IncludeSourceInfo == p.IncludeSourceInfo, "the descriptor set settings are kept")
	vp.Assert(g.OutputPath.AbsPath == abs("w", p.Output), "the output path is relative to the configuration")
	vp.Assert(!filepath.IsAbs(g.OutputPath.RelPath) && abs("w", g.OutputPath.RelPath) == abs("w", p.Output), "the relative output path names the same directory")
}

// One plugin with any of five names, six types, seven outputs, four suffixes, both descriptor set settings, flags of up to 2 bytes, with and without an import path.
//
//vp:harness F03 reach=ok,error shards=7
func Plugin() {
	var e settings.ExternalConfig
	p := plugin{
		Name:              []string{"go", "descriptor_set", "protoc-gen-go", "x-protoc-gen-", "protoc-gen"}[vp.Choice("name", 5)],
		Type:              []string{"", "go", "gogo", "Go", "GOGO", "gogogo"}[vp.Choice("type", 6)],
		Flags:             vp.String("flags", "", 0, 2),
		Output:            []string{"gen", "gen/go", "../gen", ".", "", "/abs/gen", "./gen/../x"}[vp.Shard(7)],
		FileSuffix:        []string{"", "jar", ".jar", "a.jar"}[vp.Choice("suffix", 4)],
		IncludeImports:    vp.Bool("imports"),
		IncludeSourceInfo: vp.Bool("info"),
	}
	e.Generate.Plugins = append(e.Generate.Plugins, p)
	if vp.Bool("import") {
		e.Generate.GoOptions.ImportPath = "x.com/y"
	}
	t, bad := wantPlugin(p, e.Generate.GoOptions.ImportPath)
	c, err := load(e, "w", vp.Choice("src", 4))
	if bad {
		vp.Assert(err != nil, "a malformed plugin is an error")
		vp.Reach("error")
		return
	}
	vp.Assert(err == nil && len(c.Gen.Plugins) == 1, "the settings are accepted")
	checkPlugin(c.Gen.Plugins[0], p, t)
	vp.Reach("ok")
}

// Up to three plugins of any of three names (also repeated), each with an output and flags of its own, any one of them malformed or not.
//
//vp:harness F03 reach=ok,error
func Plugins() {
	var e settings.ExternalConfig
	n := 2 + vp.Choice("n", 2)
	wrong := vp.Choice("wrong", 4)
	for i := 0; i < n; i++ {
		p := plugin{Name: []string{"a", "b", "go"}[vp.Choice("name"+d(i), 3)], Output: "o" + d(i), Flags: "f" + d(i)}
		if wrong == i {
			p.Output = ""
		}
		e.Generate.Plugins = append(e.Generate.Plugins, p)
	}
	c, err := load(e, "w", 0)
	if wrong < n {
		vp.Assert(err != nil, "a malformed plugin among others is an error")
		vp.Reach("error")
		return
	}
	vp.Assert(err == nil && len(c.Gen.Plugins) == n, "the settings are accepted")
	for _, p := range e.Generate.Plugins {
		m := 0
		for _, g := range c.Gen.Plugins {
			if g.Flags == p.Flags {
				m++
				checkPlugin(g, p, settings.GenPluginTypeNone)
			}
		}
		vp.Assert(m == 1, "every plugin appears once")
	}
	for i := 1; i < n; i++ {
		vp.Assert(c.Gen.Plugins[i-1].Name <= c.Gen.Plugins[i].Name, "plugins are sorted by name")
	}
	vp.Reach("ok")
}

// The path of a plugin's program: none, one that exists (and can be executed or not), or one that does not.
//
//vp:harness F03 reach=none,found,error
func PluginPath() {
	var e settings.ExternalConfig
	vfs.Program("bin/x")
	vfs.File("bin/y", "not a program")
	k := vp.Choice("path", 4)
	p := plugin{Name: "x", Output: "o"}
	if k > 0 {
		p.Path = vfs.Path("bin/" + []string{"x", "y", "z"}[k-1])
	}
	e.Generate.Plugins = append(e.Generate.Plugins, p)
	c, err := load(e, "w", 0)
	vp.Assert(err == nil && len(c.Gen.Plugins) == 1, "a plugin's program is only looked up when it is used")
	got, err := c.Gen.Plugins[0].GetPath()
	switch k {
	case 0:
		vp.Assert(err == nil && got == "", "a plugin without path has none")
		vp.Reach("none")
	case 1:
		vp.Assert(err == nil && got == p.Path, "a plugin's path is the one configured")
		vp.Reach("found")
	default:
		vp.Assert(err != nil, "a plugin whose program cannot be run is an error")
		vp.Reach("error")
	}
}

// A header given as content, as a path (relative, absolute, of a missing, an empty or a blank file), as both or not at all, commented or not.
//
//vp:harness F03 reach=ok,error,none shards=4
func Header() {
	var e settings.ExternalConfig
	vfs.File("w/h.txt", "a\nb\n")
	vfs.File("w/empty.txt", "")
	vfs.File("w/blank.txt", " \n ")
	path := []string{"", "h.txt", "./h.txt", "sub/../h.txt", "abs", "none.txt", "empty.txt", "blank.txt"}[vp.Choice("path", 8)]
	if path == "abs" {
		path = vfs.Path("w/h.txt")
	}
	content := []string{"", "a\nb", " a \n b\n\n", " \n"}[vp.Choice("content", 4)]
	e.Lint.FileHeader.Path, e.Lint.FileHeader.Content = path, content
	e.Lint.FileHeader.IsCommented = vp.Bool("commented")
	vfs.Dir("w/sub")
	c, err := load(e, "w", vp.Shard(4))
	if path == "" && content == "" {
		vp.Assert(err == nil && c.Lint.FileHeader == "", "there is no header")
		vp.Reach("none")
		return
	}
	if path != "" && content != "" || filepath.IsAbs(path) || path == "none.txt" {
		vp.Assert(err != nil, "a header by both path and content, by absolute path or without file is an error")
		vp.Reach("error")
		return
	}
	if path == "empty.txt" || path == "blank.txt" || strings.TrimSpace(content) == "" && path == "" {
		vp.Assert(err != nil || !e.Lint.FileHeader.IsCommented, "a header without text is an error")
		vp.Reach("error")
		return
	}
	want := "// a\n// b"
	if e.Lint.FileHeader.IsCommented {
		want = "a\nb"
	}
	vp.Assert(err == nil && c.Lint.FileHeader == want, "the header is the one configured, as comment")
	vp.Reach("ok")
}

// A configuration that is empty, unreadable or not a configuration, in a file of any of three extensions or as data; absolute and relative paths.
//
//vp:harness F03 reach=empty,bad,relative,extension
func Files() {
	p := settings.NewConfigProvider()
	text := []string{"", conf.Bad}[vp.Choice("text", 2)]
	ext := []string{".yaml", ".json", ".toml"}[vp.Choice("ext", 3)]
	vfs.File("w/prototool"+ext, text)
	if vp.Bool("relative") {
		_, err := p.Get("w/prototool" + ext)
		_, err2 := p.GetForDir("w")
		_, err3 := p.GetForData("w", "{}")
		_, err4 := p.GetFilePathForDir("w")
		_, err5 := p.GetExcludePrefixesForDir("w")
		vp.Assert(err != nil && err2 != nil && err3 != nil && err4 != nil && err5 != nil, "relative paths are refused")
		vp.Reach("relative")
		return
	}
	c, err := p.Get(vfs.Path("w/prototool" + ext))
	if ext == ".toml" && text != "" {
		vp.Assert(err != nil, "a configuration of another format is an error")
		vp.Reach("extension")
	} else if text == "" {
		vp.Assert(err == nil && c.DirPath == vfs.Path("w") && c.Lint.Group == "", "an empty configuration is the default")
		vp.Reach("empty")
	} else {
		vp.Assert(err != nil, "a file that is not a configuration is an error")
		_, err = p.GetForData(vfs.Path("w"), text)
		vp.Assert(err != nil, "data that is not a configuration is an error")
		_, err = p.GetForDir(vfs.Path("w"))
		vp.Assert(err != nil, "a file that is not a configuration is an error in its directory")
		vp.Reach("bad")
	}
}
