package lnt

import (
	"sort"
	"strings"

	"github.com/uber/prototool/internal/lint"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/text"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// documented gives the rules of a group.
func documented(group string) map[string]bool {
	r := map[string]bool{}
	for _, d := range docGroups {
		for _, g := range strings.Split(d.groups, ",") {
			if g == group {
				r[d.id] = true
			}
		}
	}
	return r
}

// sameRules asserts that the rules are exactly the wanted ones, each once.
func sameRules(ls []lint.Linter, want map[string]bool) {
	got := map[string]int{}
	for _, l := range ls {
		got[l.ID()]++
	}
	count := 0
	for _, d := range docGroups {
		w := 0
		if want[d.id] {
			w = 1
			count++
		}
		vp.Assert(got[d.id] == w, "exactly the configured rules run, each once: "+d.id)
	}
	vp.Assert(len(ls) == count, "only known rules run")
}

func base(group string, noDefault bool) map[string]bool {
	switch {
	case group == "" && noDefault:
		return map[string]bool{}
	case group == "":
		return documented("uber1")
	}
	return documented(group)
}

var groupForms = []struct {
	group string
	no    bool
}{{"", false}, {"", true}, {"uber1", false}, {"uber2", true}, {"google", false}, {"empty", false}}

// Every group name of up to 6 bytes, with and without default rules.
//
//vp:harness L01 reach=known,unknown
func GroupNames() {
	group := vp.String("group", "abceglmoprtuy012UGE", 0, n(6, 7))
	no := vp.Bool("no")
	ls, err := lint.GetLinters(settings.LintConfig{Group: group, NoDefault: no})
	switch group {
	case "", "uber1", "uber2", "google", "empty":
		vp.Reach("known")
		vp.Assert(err == nil, "known groups are accepted")
		if group == "" {
			sameRules(ls, base("", no))
		} else {
			sameRules(ls, documented(group))
		}
	default:
		vp.Reach("unknown")
		vp.Assert(err != nil, "an unknown group is an error")
	}
}

// Every group, with up to three added and two removed rules: each rule of the
// 96 once at each place, added or removed or both left out.
//
//vp:harness L01 reach=in,out shards=96
func AddRemove() {
	sh := vp.Shard(96)
	id := docGroups[sh].id
	other := []string{docGroups[(sh*7+5)%96].id, docGroups[(sh*11+40)%96].id}
	if other[0] == id || other[1] == id || other[0] == other[1] {
		other = []string{docGroups[(sh+1)%96].id, docGroups[(sh+2)%96].id}
	}
	g := groupForms[sh%6]
	if vp.Bool("group") {
		g = groupForms[(sh+2+sh/6%3)%6]
	}
	want := base(g.group, g.no)
	var inc, exc []string
	place := func(name, id string) {
		switch vp.Choice(name, 3) {
		case 0:
			inc = append(inc, id)
			want[id] = true
		case 1:
			exc = append(exc, id)
			want[id] = false
		}
	}
	place("first", id)
	place("second", other[0])
	place("third", other[1])
	if len(inc) > 1 && vp.Bool("swap") {
		inc[0], inc[1] = inc[1], inc[0]
	}
	ign := map[string][]string{}
	if vp.Bool("ignore") {
		// ignoring a rule for some files neither adds nor removes it
		ign[id] = []string{"/w/a.proto"}
		ign[other[0]] = nil
	}
	ls, err := lint.GetLinters(settings.LintConfig{Group: g.group, NoDefault: g.no, IncludeIDs: inc, ExcludeIDs: exc, IgnoreIDToFilePaths: ign})
	vp.Assert(err == nil, "known rules are accepted")
	sameRules(ls, want)
	if want[id] {
		vp.Reach("in")
	} else {
		vp.Reach("out")
	}
}

// Rule names near every known one: any byte of it, or one more or less, differs;
// as added, removed or ignored rule after a known one.
//
//vp:harness L01 reach=known,unknown shards=96
func UnknownRules() {
	sh := vp.Shard(96)
	s := docGroups[sh].id
	i := (sh * 5) % len(s)
	b := string([]byte{vp.ByteIn("byte", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_ ")})
	switch vp.Choice("change", 4) {
	case 0:
		s = s[:i] + b + s[i+1:]
	case 1:
		s = s[:i] + s[i+1:]
	case 2:
		s = s[:i] + b + s[i:]
	default:
		s = s + b
	}
	known := false
	for _, d := range docGroups {
		known = known || d.id == s
	}
	lc := settings.LintConfig{Group: groupForms[sh%6].group}
	where := vp.Choice("where", 3)
	first := docGroups[(sh+48)%96].id
	switch where {
	case 0:
		lc.IncludeIDs = []string{first, s}
	case 1:
		lc.ExcludeIDs = []string{first, s}
	default:
		lc.IgnoreIDToFilePaths = map[string][]string{first: nil, s: nil}
	}
	_, err := lint.GetLinters(lc)
	vp.Assert((err == nil) == known, "exactly unknown rules are an error")
	if known {
		vp.Reach("known")
	} else {
		vp.Reach("unknown")
	}
}

// Selections for three configurations in a row over all pairs of groups; the
// lists returned are sorted in between, as listing them does.
//
//vp:harness L01 reach=ok shards=36
func Histories() {
	sh := vp.Shard(36)
	a, b := groupForms[sh%6], groupForms[sh/6]
	ida, idb := docGroups[(sh*13)%96].id, docGroups[(sh*17+3)%96].id
	conf := func(l string, g struct {
		group string
		no    bool
	}, id string) (settings.LintConfig, map[string]bool) {
		c := settings.LintConfig{Group: g.group, NoDefault: g.no}
		want := base(g.group, g.no)
		switch vp.Choice(l, 3) {
		case 0:
			c.IncludeIDs = []string{id}
			want[id] = true
		case 1:
			c.ExcludeIDs = []string{id}
			want[id] = false
		}
		return c, want
	}
	ca, wa := conf("a", a, ida)
	cb, wb := conf("b", b, idb)
	la, err := lint.GetLinters(ca)
	vp.Assert(err == nil, "known rules are accepted")
	sort.Slice(la, func(i, j int) bool { return la[i].ID() > la[j].ID() })
	lb, err := lint.GetLinters(cb)
	vp.Assert(err == nil, "known rules are accepted")
	sort.Slice(lb, func(i, j int) bool { return lb[i].ID() < lb[j].ID() })
	lc, err := lint.GetLinters(ca)
	vp.Assert(err == nil, "known rules are accepted")
	sameRules(la, wa)
	sameRules(lb, wb)
	sameRules(lc, wa)
	sameRules(lint.AllLinters, func() map[string]bool {
		r := map[string]bool{}
		for _, d := range docGroups {
			r[d.id] = true
		}
		return r
	}())
	for _, g := range []string{"uber1", "uber2", "google", "empty"} {
		sameRules(lint.GroupToLinters[g], documented(g))
	}
	sameRules(lint.DefaultLinters, documented("uber1"))
	vp.Reach("ok")
}

const resTmpl = `syntax = "proto2";
message a { message b {} message C {} } enum d {
  D = 0;
}
message e_E {
}
`

// violations of the three rules below in resTmpl with the given names
func resWant(file string, names [4]string, ignored map[string]bool) []*text.Failure {
	var r []*text.Failure
	put := func(line, col int, id string) {
		if !ignored[id] {
			r = append(r, &text.Failure{Filename: file, Line: line, Column: col, LintID: id})
		}
	}
	put(0, 0, "PACKAGE_IS_DECLARED")
	put(1, 1, "SYNTAX_PROTO3")
	msg := func(line, col int, name string) {
		if !camel(name) {
			put(line, col, "MESSAGE_NAMES_CAMEL_CASE")
		}
		if !capital(name) {
			put(line, col, "MESSAGE_NAMES_CAPITALIZED")
		}
	}
	msg(2, 1, names[0])
	msg(2, 13, names[1])
	if !capital(names[2]) {
		put(2, 41, "ENUM_NAMES_CAPITALIZED")
	}
	msg(5, 1, names[3])
	return r
}

func resFile(name, l string) (*lint.FileDescriptor, [4]string) {
	f := fd(name, resTmpl, settings.LintConfig{})
	var names [4]string
	k := 0
	for _, x := range walk(f.Proto) {
		if (x.kind == "message" || x.kind == "enum") && *x.name() != "C" {
			if l != "" {
				*x.name() = []string{"A", "a", "B_", "b_"}[vp.Choice(l+string(rune('0'+k)), 4)]
			}
			names[k] = *x.name()
			k++
		}
	}
	return f, names
}

var resRules = []string{"MESSAGE_NAMES_CAPITALIZED", "ENUM_NAMES_CAPITALIZED", "SYNTAX_PROTO3", "MESSAGE_NAMES_CAMEL_CASE", "PACKAGE_IS_DECLARED"}

func resLinters(rot int, rev bool) []lint.Linter {
	var ls []lint.Linter
	for i := range resRules {
		ls = append(ls, rule(resRules[(i+rot)%len(resRules)]))
	}
	if rev {
		for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
			ls[i], ls[j] = ls[j], ls[i]
		}
	}
	return ls
}

func sameFailures(fs, want []*text.Failure) {
	vp.Assert(len(fs) == len(want), "every failure of every rule and file and no other is reported")
	for i := range want {
		vp.Assert(fs[i].Filename == want[i].Filename && fs[i].Line == want[i].Line && fs[i].Column == want[i].Column && fs[i].LintID == want[i].LintID, "failures are complete, labelled with their rule and ordered by file, line, column and rule")
	}
}

// Five rules in ten orders over three files in two directories, given in any
// order; the names of the definitions of one file vary.
//
//vp:harness L02 reach=ok shards=30 order=any
func Complete() {
	sh := vp.Shard(30)
	at := sh % 3
	files := []string{"/w/a.proto", "/w/b.proto", "/w/a/z.proto"}
	dirOf := []string{"/w", "/w", "/w/a"}
	dirs := map[string][]*lint.FileDescriptor{}
	wants := map[string][]*text.Failure{}
	for i, name := range files {
		l := ""
		if i == at {
			l = "n"
		}
		f, names := resFile(name, l)
		wants[name] = resWant(name, names, nil)
		if vp.Bool("front" + name[3:4] + string(rune('0'+i))) {
			dirs[dirOf[i]] = append([]*lint.FileDescriptor{f}, dirs[dirOf[i]]...)
		} else {
			dirs[dirOf[i]] = append(dirs[dirOf[i]], f)
		}
	}
	fs, err := lint.CheckMultiple(resLinters(sh/3%5, sh/15 == 1), dirs, nil)
	vp.Assert(err == nil, "linting succeeds")
	want := append(append(append([]*text.Failure{}, wants["/w/a.proto"]...), wants["/w/a/z.proto"]...), wants["/w/b.proto"]...)
	sameFailures(fs, want)
	vp.Reach("ok")
}

// ignoredBy is the documented effect of an ignore: the path itself or one of
// its parents below the directory of the configuration.
func ignoredBy(file string, paths []string) bool {
	r := false
	for i := 3; i <= len(file); i++ {
		if i == len(file) || file[i] == '/' {
			for _, p := range paths {
				r = r || p == file[:i]
			}
		}
	}
	return r
}

var ignorable = []string{"/w/a.proto", "/w/a", "/w/a/z.proto", "/w/a/z", "/w/ab/a.proto", "/w/ab", "/w", "/w/a/", "/w/z.proto", "/w/b.proto"}

// Four files in three directories and five rules; up to two rules are ignored
// for up to two paths each, of ten kinds.
//
//vp:harness L02 reach=ignored,kept shards=50 order=any
func Ignores() {
	sh := vp.Shard(50)
	files := []string{"/w/a.proto", "/w/a/z.proto", "/w/ab/a.proto", "/w/b.proto"}
	dirs := map[string][]*lint.FileDescriptor{}
	id1, id2 := resRules[sh%5], resRules[(sh%5+1+sh/25)%5]
	p1 := []string{ignorable[sh/5]}
	var p2 []string
	if k := vp.Choice("more", len(ignorable)+1); k > 0 {
		p1 = append(p1, ignorable[k-1])
	}
	if k := vp.Choice("second", len(ignorable)+1); k > 0 {
		p2 = append(p2, ignorable[k-1])
	}
	var want []*text.Failure
	for _, name := range files {
		f, names := resFile(name, "")
		dir := name[:strings.LastIndexByte(name, '/')]
		dirs[dir] = append(dirs[dir], f)
		ign := map[string]bool{}
		if ignoredBy(name, p1) {
			ign[id1] = true
			vp.Reach("ignored")
		} else {
			vp.Reach("kept")
		}
		if ignoredBy(name, p2) {
			ign[id2] = true
		}
		want = append(want, resWant(name, names, ign)...)
	}
	ids := map[string][]string{id1: p1}
	if len(p2) > 0 {
		ids[id2] = p2
	}
	fs, err := lint.CheckMultiple(resLinters(sh%5, false), dirs, ids)
	vp.Assert(err == nil, "linting succeeds")
	sameFailures(fs, want)
}

// One ignored path of any content up to 7 bytes below the directory.
//
//vp:harness L02 reach=ignored,kept
func IgnoredPath() {
	p := "/w" + vp.String("path", "/ab.", 0, n(5, 7))
	f := fd("/w/a/b.a", "syntax = \"proto2\";\n", settings.LintConfig{})
	g := fd("/w/ab", "syntax = \"proto2\";\n", settings.LintConfig{})
	var want []*text.Failure
	for _, d := range []*lint.FileDescriptor{f, g} {
		if ignoredBy(d.Filename, []string{p}) {
			vp.Reach("ignored")
		} else {
			vp.Reach("kept")
			want = append(want, &text.Failure{Filename: d.Filename, Line: 1, Column: 1, LintID: "SYNTAX_PROTO3"})
		}
	}
	fs, err := lint.CheckMultiple([]lint.Linter{rule("SYNTAX_PROTO3")}, map[string][]*lint.FileDescriptor{"/w": {g}, "/w/a": {f}}, map[string][]string{"SYNTAX_PROTO3": {p}})
	vp.Assert(err == nil, "linting succeeds")
	sameFailures(fs, want)
}
