package run

import (
	"sort"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"

	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/conf"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// version is what two files have: a/a.proto in package x.v1 with message K and,
// if m, M, that imports b/b.proto if dep; and, if b, b/b.proto in package other
// with message P and, if n, N.
type version struct {
	m, n, b, dep bool
	other        string
}

func fileOf(name, pkg string, messages ...string) *descriptor.FileDescriptorProto {
	f := &descriptor.FileDescriptorProto{Name: proto.String(name), Package: proto.String(pkg), Syntax: proto.String("proto3")}
	for _, m := range messages {
		if m != "" {
			f.MessageType = append(f.MessageType, &descriptor.DescriptorProto{Name: proto.String(m)})
		}
	}
	return f
}

func onlyIf(c bool, s string) string {
	if c {
		return s
	}
	return ""
}

// files are a/a.proto and b/b.proto, or nil.
func (v version) files() (a, b *descriptor.FileDescriptorProto) {
	a = fileOf("a/a.proto", "x.v1", "K", onlyIf(v.m, "M"))
	if v.b {
		b = fileOf("b/b.proto", v.other, "P", onlyIf(v.n, "N"))
		if v.dep {
			a.Dependency = []string{"b/b.proto"}
		}
	}
	return a, b
}

// sets are the outputs of protoc with imports for a and b, and all files.
func (v version) sets() (string, string, string) {
	a, b := v.files()
	switch {
	case b == nil:
		return setOf(a), "", setOf(a)
	case v.dep:
		return setOf(b, a), setOf(b), setOf(b, a)
	}
	return setOf(a), setOf(b), setOf(b, a)
}

func setOf(l ...*descriptor.FileDescriptorProto) string {
	b, err := proto.Marshal(&descriptor.FileDescriptorSet{File: l})
	if err != nil {
		panic(err)
	}
	return string(b)
}

// only is what the compilation of the directory a alone shows.
func (v version) only() version {
	v.b = v.b && v.dep
	return v
}

// breaks are the messages that a check gives.
func breaks(from, to version, beta, deps bool) string {
	var l []string
	if from.m && !to.m {
		l = append(l, "Message \"x.v1.M\" was deleted.")
	}
	isBeta := to.other == "y.v1beta1"
	if from.b && (beta || !isBeta) {
		if !to.b {
			l = append(l, "Package \""+from.other+"\" was deleted.")
		} else if from.n && !to.n {
			l = append(l, "Message \""+from.other+".N\" was deleted.")
		}
	}
	if to.b && to.dep && isBeta && !beta && !deps {
		l = append(l, "Package \"x.v1\" depends on beta package \""+to.other+"\" which is not allowed.")
	}
	sort.Strings(l)
	s := ""
	for _, m := range l {
		s += m + "\n"
	}
	return s
}

// put makes the files of a version in dir, and the answers of protoc to them.
func (v version) put(dir, match string) []vfs.Rule {
	a, b, _ := v.sets()
	vfs.File(dir+"/a/a.proto", plain)
	if v.b {
		vfs.File(dir+"/b/b.proto", plain)
	}
	return []vfs.Rule{{Match: match + "/a/a.proto", Out: a}, {Match: match + "/b/b.proto", Out: b}}
}

// checks runs break check against a descriptor set, or the clone of a
// repository, for an input.
func checks(from, to version, beta, deps bool, way int, in string, extra ...string) {
	rules := to.put("w", "/w")
	_, _, all := from.sets()
	seen, now := from, to
	if in == "a" || in == "./a" {
		now = to.only()
	}
	args := append([]string{"break", "check"}, extra...)
	switch way {
	case 0:
		vfs.File("sets/old", all)
		args = append(args, "-f", vfs.Path("sets/old"))
	default:
		vfs.Dir("w/.git")
		rules = append(rules, from.put("old", "")...)
		if vfs.Exists("w/prototool.yaml") {
			vfs.File("old/prototool.yaml", "")
		}
		rule := vfs.Rule{Match: "clone\n--depth\n1\nfile://" + vfs.Path("w") + "\n", Copy: "old"}
		if way == 2 {
			args = append(args, "--git-branch=dev")
			rule.Match = "clone\n--depth\n1\n--branch\ndev\nfile://" + vfs.Path("w") + "\n"
		}
		vfs.OnPath("git", rule)
		if in == "a" || in == "./a" {
			seen = from.only()
		}
	}
	protoc(rules)
	if in != "" {
		args = append(args, in)
	}
	before := state()
	status, got := do(args...)
	want := breaks(seen, now, beta, deps)
	vp.Observe("got", got)
	vp.Assert(got == want, "the breaking changes are printed")
	vp.Assert((status != 0) == (want != ""), "the status says whether there are any")
	vp.Assert(state() == before, "no file is changed")
	if want == "" {
		vp.Reach("none")
	} else {
		vp.Reach("some")
	}
}

// ways are a way to give the old version, and an input.
var ways = []struct {
	way int
	in  string
}{{0, ""}, {1, "."}, {2, "a"}, {0, "./a"}, {1, "a"}}

// A message of either of two packages in two directories, or one of the packages, deleted or not, by break check against a descriptor set, the clone of a repository or of one of its branches, for all or one directory.
//
//vp:harness B01 reach=none,some merge=off shards=5
func BreakCheck() {
	vfs.File("w/prototool.yaml", "")
	from := version{vp.Bool("m"), vp.Bool("n"), vp.Bool("b"), vp.Bool("dep"), "y.v1"}
	to := version{vp.Bool("m now"), vp.Bool("n now"), vp.Bool("b now"), vp.Bool("dep now"), "y.v1"}
	vp.Assume((from.b || !from.n && !from.dep) && (to.b || !to.n && !to.dep))
	w := ways[vp.Shard(len(ways))]
	checks(from, to, false, false, w.way, w.in)
}

// A stable package that imports a beta package or not, before and after, with a message of each deleted or not, under both settings, which are in the configuration file or given by flag.
//
//vp:harness B05 reach=none,some merge=off
func BreakConfig() {
	beta, deps := vp.Bool("beta"), vp.Bool("deps")
	e := settings.ExternalConfig{}
	e.Break.IncludeBeta = beta
	e.Break.AllowBetaDeps = deps
	var extra []string
	if vp.Bool("flag") {
		extra = append(extra, "--config-data="+conf.Text(e))
	} else {
		vfs.File("w/prototool.yaml", conf.Text(e))
	}
	from := version{true, true, true, vp.Bool("dep"), "y.v1beta1"}
	to := version{vp.Bool("m now"), vp.Bool("n now"), vp.Bool("b now"), vp.Bool("dep now"), "y.v1beta1"}
	vp.Assume(to.b || !to.n && !to.dep)
	w := ways[vp.Choice("way", 3)]
	checks(from, to, beta, deps, w.way, w.in, extra...)
}
