package lnt

import (
	"strings"

	"github.com/emicklei/proto"
	"github.com/uber/prototool/internal/lint"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/text"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// expectFiles is expect for several files.
func expectFiles(id string, fs []*text.Failure, want map[string]map[int]int, max int) {
	per := map[string][]*text.Failure{}
	for _, f := range fs {
		_, ok := want[f.Filename]
		vp.Assert(ok, id+" names a file that was given")
		per[f.Filename] = append(per[f.Filename], f)
	}
	for name, w := range want {
		expect(id, name, per[name], w, max)
	}
}

const optTmpl = `syntax = "proto3";
package foo.bar.v1;
option first = "x";
import "a.proto";
option second = "y";
message M {
  option inner = "z";
  int64 f = 1 [field = "z"];
  message N {
    option deeper = "z";
  }
}
enum E {
  option inner = "z";
  E_INVALID = 0 [value = "z"];
}
service S {
  option inner = "z";
  rpc R(M) returns (M) {
    option inner = "z";
  }
}
option third = "w";
`

type optFile struct {
	fd                   *lint.FileDescriptor
	name                 string
	first, second, third *proto.Option
}

// optionFile is a file with three file options whose other options all have
// the given name.
func optionFile(name, inner string, lc settings.LintConfig) *optFile {
	r := &optFile{fd: fd(name, optTmpl, lc), name: name}
	for _, x := range walk(r.fd.Proto) {
		if x.kind != "option" {
			continue
		}
		o := x.v.(*proto.Option)
		switch o.Name {
		case "first":
			r.first = o
		case "second":
			r.second = o
		case "third":
			r.third = o
		default:
			o.Name = inner
		}
	}
	return r
}

var requireRules = []struct{ id, option string }{
	{"FILE_OPTIONS_REQUIRE_CSHARP_NAMESPACE", "csharp_namespace"},
	{"FILE_OPTIONS_REQUIRE_GO_PACKAGE", "go_package"},
	{"FILE_OPTIONS_REQUIRE_JAVA_MULTIPLE_FILES", "java_multiple_files"},
	{"FILE_OPTIONS_REQUIRE_JAVA_OUTER_CLASSNAME", "java_outer_classname"},
	{"FILE_OPTIONS_REQUIRE_JAVA_PACKAGE", "java_package"},
	{"FILE_OPTIONS_REQUIRE_OBJC_CLASS_PREFIX", "objc_class_prefix"},
	{"FILE_OPTIONS_REQUIRE_PHP_NAMESPACE", "php_namespace"},
	{"FILE_OPTIONS_REQUIRE_RUBY_PACKAGE", "ruby_package"},
	{"FILE_OPTIONS_UNSET_JAVA_MULTIPLE_FILES", "java_multiple_files"},
	{"FILE_OPTIONS_UNSET_JAVA_OUTER_CLASSNAME", "java_outer_classname"},
}

// printable are bytes that messages show unchanged.
const printable = ";abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./ :=()"

// Three files with three options each at file level and others of the same name
// inside messages, fields, enums and services, of which the file options of the
// second file have any name as long as the wanted one (or one shorter or longer)
// and those of the others are the wanted one or not; every requiring and
// forbidding rule.
//
//vp:harness L04 reach=missing,set shards=30
func RequiredUnset() {
	sh := vp.Shard(30)
	r := requireRules[sh%10]
	at := sh / 10
	var fs []*optFile
	var fds []*lint.FileDescriptor
	set := func(o *proto.Option, b bool) {
		if b {
			o.Name = r.option
		} else {
			o.Name = "optimize_for"
		}
	}
	want := map[string]map[int]int{}
	for i, name := range []string{"/w/a.proto", "/w/b.proto", "/w/c.proto"} {
		f := optionFile(name, r.option, settings.LintConfig{})
		l := string(rune('a' + i))
		n1, n2, n3 := vp.Bool(l+"1"), vp.Bool(l+"2"), vp.Bool(l+"3")
		// the same option twice in one file is not valid protobuf
		vp.Assume(!(n1 && n2) && !(n1 && n3) && !(n2 && n3))
		set(f.first, n1)
		set(f.second, n2)
		set(f.third, n3)
		if i == at {
			f.first.Name = vp.String("name", "abcdefghijklmnopqrstuvwxyzJ_.()", len(r.option)-1, len(r.option)+1)
			n1 = f.first.Name == r.option
			vp.Assume(!(n1 && n2) && !(n1 && n3))
		}
		w := map[int]int{}
		if strings.HasPrefix(r.id, "FILE_OPTIONS_REQUIRE") {
			if !n1 && !n2 && !n3 {
				w[0] = 1
				vp.Reach("missing")
			} else {
				vp.Reach("set")
			}
		} else {
			for j, b := range []bool{n1, n2, n3} {
				if b {
					w[[]int{3, 5, 23}[j]] = 1
					vp.Reach("set")
				} else {
					vp.Reach("missing")
				}
			}
		}
		want[name] = w
		fs = append(fs, f)
		fds = append(fds, f.fd)
	}
	expectFiles(r.id, run(r.id, fds...), want, 24)
}

type pkgForm struct{ pkg, csharp, gopb, gov2, objc string }

var pkgForms = []pkgForm{
	{"foo", "Foo", "foopb", "foopb", "FXX"},
	{"foo.bar", "Foo.Bar", "barpb", "barpb", "FBX"},
	{"foo.v1", "Foo.V1", "v1pb", "foov1", "FXX"},
	{"foo.bar.v1", "Foo.Bar.V1", "v1pb", "barv1", "FBX"},
	{"foo.barBaz.v1beta2", "Foo.BarBaz.V1Beta2", "v1beta2pb", "barBazv1beta2", "FBX"},
	{"google.proto.bar", "Google.Proto.Bar", "barpb", "barpb", "GPX"},
	{"a.b.c.d.v10", "A.B.C.D.V10", "v10pb", "dv10", "ABCD"},
	{"foo.bar.v0", "Foo.Bar.V0", "v0pb", "v0pb", "FBV"},
	{"v1", "V1", "v1pb", "v1pb", "VXX"},
	{"foo_bar.v2", "Foo_bar.V2", "v2pb", "foo_barv2", "FXX"},
}

var classNames = [][2]string{
	{"/w/foo.proto", "FooProto"},
	{"/w/foo_bar.proto", "FooBarProto"},
	{"/w/x/foo_bar_v1.proto", "FooBarV1Proto"},
	{"/w/FooBar.proto", "FooBarProto"},
	{"/w/foo.bar.proto", "Foo.barProto"},
}

// expectedOption is the documented value.
func expectedOption(id string, p pkgForm, class, prefix string) string {
	switch id {
	case "FILE_OPTIONS_EQUAL_CSHARP_NAMESPACE_CAPITALIZED":
		return p.csharp
	case "FILE_OPTIONS_EQUAL_PHP_NAMESPACE_CAPITALIZED":
		r := ""
		for i := 0; i < len(p.csharp); i++ {
			if p.csharp[i] == '.' {
				// as written in the file, escaped
				r += `\\`
			} else {
				r += p.csharp[i : i+1]
			}
		}
		return r
	case "FILE_OPTIONS_EQUAL_GO_PACKAGE_PB_SUFFIX":
		return p.gopb
	case "FILE_OPTIONS_EQUAL_GO_PACKAGE_V2_SUFFIX":
		return p.gov2
	case "FILE_OPTIONS_EQUAL_JAVA_MULTIPLE_FILES_TRUE":
		return "true"
	case "FILE_OPTIONS_EQUAL_JAVA_OUTER_CLASSNAME_PROTO_SUFFIX":
		return class
	case "FILE_OPTIONS_EQUAL_JAVA_PACKAGE_COM_PREFIX":
		return "com." + p.pkg
	case "FILE_OPTIONS_EQUAL_JAVA_PACKAGE_PREFIX":
		if prefix != "" {
			return prefix + "." + p.pkg
		}
		return "com." + p.pkg
	case "FILE_OPTIONS_EQUAL_OBJC_CLASS_PREFIX_ABBR":
		return p.objc
	}
	panic(id)
}

var equalRules = []struct{ id, option string }{
	{"FILE_OPTIONS_EQUAL_CSHARP_NAMESPACE_CAPITALIZED", "csharp_namespace"},
	{"FILE_OPTIONS_EQUAL_GO_PACKAGE_PB_SUFFIX", "go_package"},
	{"FILE_OPTIONS_EQUAL_GO_PACKAGE_V2_SUFFIX", "go_package"},
	{"FILE_OPTIONS_EQUAL_JAVA_MULTIPLE_FILES_TRUE", "java_multiple_files"},
	{"FILE_OPTIONS_EQUAL_JAVA_OUTER_CLASSNAME_PROTO_SUFFIX", "java_outer_classname"},
	{"FILE_OPTIONS_EQUAL_JAVA_PACKAGE_COM_PREFIX", "java_package"},
	{"FILE_OPTIONS_EQUAL_JAVA_PACKAGE_PREFIX", "java_package"},
	{"FILE_OPTIONS_EQUAL_OBJC_CLASS_PREFIX_ABBR", "objc_class_prefix"},
	{"FILE_OPTIONS_EQUAL_PHP_NAMESPACE_CAPITALIZED", "php_namespace"},
}

// Every prescribing rule, ten package names, five file names and three prefixes;
// the option is missing, or is one of two file options, with any value of the
// prescribed length or one byte longer or shorter, in a file with or without
// package, next to a second file with other settings.
//
//vp:harness L04 reach=right,wrong,missing shards=90
func Equal() {
	sh := vp.Shard(90)
	r := equalRules[sh%9]
	p := pkgForms[sh/9]
	q := pkgForms[(sh/9+3)%len(pkgForms)]
	cls := classNames[(sh+sh/9)%5]
	prefix := []string{"", "com.uber", "x"}[(sh/9)%3]
	lc := settings.LintConfig{JavaPackagePrefix: prefix}
	f := optionFile(cls[0], r.option, lc)
	g := optionFile("/w/zother.proto", r.option, lc)
	f.fd.Elements[1].(*proto.Package).Name = p.pkg
	g.fd.Elements[1].(*proto.Package).Name = q.pkg
	// the value of the first file is symbolic
	v := expectedOption(r.id, p, cls[1], prefix)
	var val string
	if r.option != "php_namespace" {
		val = vp.String("val", printable, len(v)-1, len(v)+1)
	} else {
		// one byte differs, is missing or is added
		i := (sh / 9 * 5) % len(v)
		switch vp.Choice("change", 3) {
		case 0:
			val = v[:i] + string([]byte{vp.ByteIn("byte", printable+"\\")}) + v[i+1:]
		case 1:
			val = v[:i] + v[i+1:]
		default:
			val = v[:i] + string([]byte{vp.ByteIn("byte", printable+"\\")}) + v[i:]
		}
	}
	gv := expectedOption(r.id, q, "ZotherProto", prefix)
	which := vp.Choice("which", 3)
	wf := map[int]int{}
	f.first.Name, f.second.Name = "java_generic_services", "py_generic_services"
	switch which {
	case 0:
		f.first.Name = r.option
		f.first.Constant.Source = val
		if val != v {
			wf[3] = 1
		}
	case 1:
		f.second.Name = r.option
		f.second.Constant.Source = val
		if val != v {
			wf[5] = 1
		}
	default:
		vp.Reach("missing")
	}
	if which < 2 {
		if val == v {
			vp.Reach("right")
		} else {
			vp.Reach("wrong")
		}
	}
	wg := map[int]int{}
	g.third.Name = r.option
	if vp.Bool("g") {
		g.third.Constant.Source = gv
	} else {
		wg[23] = 1
	}
	if vp.Bool("nopkg") {
		// without package there is nothing to derive the value from
		f.fd.Elements = append(append([]proto.Visitee{}, f.fd.Elements[:1]...), f.fd.Elements[2:]...)
		wf = map[int]int{}
	}
	want := map[string]map[int]int{f.name: wf, g.name: wg}
	if vp.Bool("swap") {
		f, g = g, f
	}
	expectFiles(r.id, run(r.id, f.fd, g.fd), want, 24)
}

// go_package of up to 4 bytes in two files, in either file option or missing.
//
//vp:harness L04 reach=long,short
func LongForm() {
	id := "FILE_OPTIONS_GO_PACKAGE_NOT_LONG_FORM"
	want := map[string]map[int]int{}
	var fds []*lint.FileDescriptor
	for _, name := range []string{"/w/a.proto", "/w/b.proto"} {
		f := optionFile(name, "go_package", settings.LintConfig{})
		l := name[3:4]
		v := vp.String("v"+l, printable, 0, n(4, 8))
		f.first.Constant.Source, f.second.Constant.Source = v, v
		w := map[int]int{}
		isLong := strings.IndexByte(v, ';') >= 0
		if isLong {
			vp.Reach("long")
		} else {
			vp.Reach("short")
		}
		if vp.Bool("first" + l) {
			f.first.Name = "go_package"
			if isLong {
				w[3] = 1
			}
		} else if vp.Bool("second" + l) {
			f.second.Name = "go_package"
			if isLong {
				w[5] = 1
			}
		}
		want[name] = w
		fds = append(fds, f.fd)
	}
	expectFiles(id, run(id, fds...), want, 24)
}
