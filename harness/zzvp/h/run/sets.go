package run

import (
	"github.com/golang/protobuf/protoc-gen-go/descriptor"

	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// The commands descriptor-set and break descriptor-set, with their flags for imports, source information and the output, for two directories of which one may import the other, or one of them.
//
//vp:harness D01 reach=stdout,file,tmp,error merge=off
func SetCommands() {
	vfs.File("w/prototool.yaml", "")
	vfs.File("w/a/a.proto", plain)
	vfs.File("w/b/b.proto", plain)
	dep := vp.Bool("dep")
	files := func(info bool) (a, b *descriptor.FileDescriptorProto) {
		// what stands for source information
		i := onlyIf(info, "Info")
		a, b = fileOf("a/a.proto", "x.v1", "M", i), fileOf("b/b.proto", "y.v1", "N", i)
		if dep {
			a.Dependency = []string{"b/b.proto"}
		}
		return a, b
	}
	var rules []vfs.Rule
	for i := 3; i >= 0; i-- {
		flags := onlyIf(i&1 > 0, "--include_imports\n") + onlyIf(i&2 > 0, "--include_source_info\n")
		a, b := files(i&2 > 0)
		if i&1 > 0 && dep {
			rules = append(rules, vfs.Rule{Match: flags + vfs.Path("w/a/a.proto"), Out: setOf(b, a)})
		}
		rules = append(rules, vfs.Rule{Match: flags + vfs.Path("w/a/a.proto"), Out: setOf(a)}, vfs.Rule{Match: flags + vfs.Path("w/b/b.proto"), Out: setOf(b)})
	}
	protoc(rules)
	args := []string{"descriptor-set"}
	imports, info := true, false
	if vp.Bool("break") {
		args = []string{"break", "descriptor-set"}
	} else {
		imports, info = vp.Bool("imports"), vp.Bool("info")
		args = append(args, options([]string{"--include-imports", "--include-source-info"}, imports, info)...)
	}
	a, b := files(info)
	want := setOf(a, b)
	switch vp.Choice("input", 5) {
	case 1:
		args = append(args, ".")
	case 2, 3:
		args = append(args, []string{"a", "a/a.proto"}[vp.Choice("a", 2)])
		if !imports || !dep {
			want = setOf(a)
		}
	case 4:
		args = append(args, "./b/../b")
		want = setOf(b)
	}
	out := vp.Choice("output", 5)
	vp.Assume(args[0] != "break" || out != 0 && out != 1)
	switch out {
	case 1:
		args = append(args, "--tmp")
	case 2:
		args = append(args, "-o", vfs.Path("out"))
	case 3:
		vfs.File("w/out", "old content that is longer than the new content is, whatever that will be, with all its files and messages and enums and services")
		args = append(args, "--output-path=out")
	case 4:
		args = append(args, "-o", "nowhere/out")
	}
	before := state()
	status, got := do(args...)
	switch out {
	case 0:
		vp.Assert(status == 0 && got == want, "the set of files is printed")
		vp.Assert(state() == before, "no file is changed")
		vp.Reach("stdout")
	case 1:
		vp.Assert(status == 0 && len(got) > 1 && got[len(got)-1] == '\n', "the name of the file is printed")
		vp.Assert(vfs.Temp(got[:len(got)-1]) == want, "the set of files is in the temporary file")
		vp.Assert(state() == before, "no file is changed")
		vp.Reach("tmp")
	case 2, 3:
		vp.Assert(status == 0 && got == "", "nothing is printed")
		name := []string{"out", "w/out"}[out-2]
		vp.Assert(vfs.Read(name) == want, "the set of files is written")
		vp.Reach("file")
	case 4:
		vp.Assert(status != 0 && state() == before, "a file that cannot be written is an error")
		vp.Reach("error")
	}
}

// Three packages in three directories, with any of the three imports of later ones, listed, or the ones that one of them imports or that import it, of all or one directory.
//
//vp:harness X02 reach=packages,dependencies,importers,error merge=off
func Inspect() {
	vfs.File("w/prototool.yaml", "")
	names := []string{"c", "b", "a"}
	pkgs := []string{"n.v1", "m", "n"}
	var rules []vfs.Rule
	var files []*descriptor.FileDescriptorProto
	var uses [3][3]bool
	var sets [][]*descriptor.FileDescriptorProto
	for i, n := range names {
		vfs.File("w/"+n+"/"+n+".proto", plain)
		f := fileOf(n+"/"+n+".proto", pkgs[i], "M")
		set := []*descriptor.FileDescriptorProto{}
		var in [3]bool
		for j := 0; j < i; j++ {
			if vp.Bool(n + " imports " + names[j]) {
				uses[i][j] = true
				f.Dependency = append(f.Dependency, names[j]+"/"+names[j]+".proto")
				in[j] = true
				for k := range in {
					in[k] = in[k] || uses[j][k]
				}
			}
		}
		for j := range in {
			if in[j] {
				set = append(set, files[j])
			}
		}
		files = append(files, f)
		sets = append(sets, append(set, f))
		rules = append(rules, vfs.Rule{Match: "/w/" + n + "/" + n + ".proto", Out: setOf(sets[i]...)})
	}
	protoc(rules)
	args := []string{"x", "inspect", []string{"packages", "package-deps", "package-importers"}[vp.Choice("command", 3)]}
	// what is there
	var here [3]bool
	in := vp.Choice("input", 3)
	for i := range here {
		here[i] = in == 0 || i == in
		for _, f := range sets[in] {
			here[i] = here[i] || f == files[i]
		}
	}
	name := -1
	if args[2] != "packages" {
		name = vp.Choice("name", 5)
		args = append(args, "--name="+[]string{"n.v1", "m", "n", "x", ""}[name])
	}
	if in > 0 {
		args = append(args, names[in])
	}
	want := ""
	for _, i := range []int{1, 2, 0} {
		if !here[i] {
			continue
		}
		switch {
		case name < 0, name < 3 && args[2] == "package-deps" && here[name] && uses[name][i], name < 3 && args[2] == "package-importers" && uses[i][name]:
			want += pkgs[i] + "\n"
		}
	}
	status, got := do(args...)
	if name >= 3 || name >= 0 && !here[name] {
		vp.Assert(status != 0, "an unknown package is an error")
		vp.Reach("error")
		return
	}
	vp.Observe("got", got)
	vp.Assert(status == 0 && got == want, "the packages are printed in order")
	switch {
	case name < 0:
		vp.Reach("packages")
	case args[2] == "package-deps":
		vp.Reach("dependencies")
	default:
		vp.Reach("importers")
	}
}
