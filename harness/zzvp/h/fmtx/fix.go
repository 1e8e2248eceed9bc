package fmtx

import (
	"strings"

	"github.com/emicklei/proto"

	"github.com/uber/prototool/internal/format"
	"github.com/uber/prototool/internal/zzvp/vp"
)

type derived struct{ pkg, csharp, gov1, gov2, objc string }

// values for packages, as documented.
var derivedFor = []derived{
	{"foo", "Foo", "foopb", "foopb", "FXX"},
	{"foo.bar.v1", "Foo.Bar.V1", "v1pb", "barv1", "FBX"},
	{"foo.barBaz.v1beta2", "Foo.BarBaz.V1Beta2", "v1beta2pb", "barBazv1beta2", "FBX"},
	{"google.proto.bar", "Google.Proto.Bar", "barpb", "barpb", "GPX"},
}

// want gives the values of the derived options.
func (p derived) want(fix int, prefix string) map[string]string {
	if prefix == "" {
		prefix = "com"
	}
	w := map[string]string{
		"java_multiple_files": "true", "java_outer_classname": "\"FooBarProto\"", "java_package": "\"" + prefix + "." + p.pkg + "\"",
		"go_package": "\"" + p.gov1 + "\"",
	}
	if fix == format.FixV2 {
		w["go_package"] = "\"" + p.gov2 + "\""
		w["csharp_namespace"] = "\"" + p.csharp + "\""
		w["objc_class_prefix"] = "\"" + p.objc + "\""
		w["php_namespace"] = "\"" + strings.Replace(p.csharp, ".", `\\`, -1) + "\""
	}
	return w
}

var derivable = []string{"csharp_namespace", "go_package", "java_multiple_files", "java_outer_classname", "java_package", "objc_class_prefix", "php_namespace"}

// without gives the file without the options and what comes with them.
func without(p *proto.Proto, names map[string]string) *proto.Proto {
	var l []proto.Visitee
	for _, e := range p.Elements {
		if o, ok := e.(*proto.Option); ok && names[o.Name] != "" {
			continue
		}
		l = append(l, e)
	}
	return &proto.Proto{Elements: l}
}

func fixed(in string, fix int, header, prefix string, p derived) {
	vp.Assume(parse(in) != nil)
	opts := []format.TransformerOption{format.TransformerWithFix(fix), format.TransformerWithFileHeader(header), format.TransformerWithJavaPackagePrefix(prefix)}
	transformFoo := func(s string, opts ...format.TransformerOption) string {
		out, fs, err := format.NewTransformer(opts...).Transform("/w/x/foo_bar.proto", []byte(s))
		vp.Assert(err == nil && len(fs) == 0, "a file is formatted without failure")
		return string(out)
	}
	out := transformFoo(in, opts...)
	vp.Assert(transformFoo(out, opts...) == out, "fixing again changes nothing")
	plain := transformFoo(in)
	if header != "" {
		vp.Assert(strings.HasPrefix(out, header+"\n\n"), "the file starts with the header")
		out = strings.TrimPrefix(out, header+"\n\n")
		// nothing else comes before the syntax
		if i := strings.Index(plain, "syntax"); i >= 0 {
			vp.Assert(strings.HasPrefix(out, "syntax"), "the header is all that comes before the syntax")
			plain = plain[i:]
		}
	}
	a, b := parse(plain), parse(out)
	vp.Assert(a != nil && b != nil, "the formatted files can be parsed")
	want := map[string]string{}
	if p.pkg != "" {
		want = p.want(fix, prefix)
	}
	n := 0
	for _, e := range b.Elements {
		o, ok := e.(*proto.Option)
		if !ok || want[o.Name] == "" {
			continue
		}
		n++
		vp.Assert(o.Constant.SourceRepresentation() == want[o.Name], "a derived option has its value: "+o.Name)
		for _, e := range a.Elements {
			if q, ok := e.(*proto.Option); ok && q.Name == o.Name {
				vp.Assert(lines(q.Comment) == lines(o.Comment) && lines(q.InlineComment) == lines(o.InlineComment), "a derived option keeps its comments")
			}
		}
	}
	vp.Assert(n == len(want), "every derived option is there once")
	vp.Assert(differ(without(a, want), without(b, want), dump{empties: true, methods: true}) == "", "all else is as without fixing")
	vp.Reach("end")
}

// Any subset of the seven options that can be derived, each right or wrong, two
// others, in a file with one of four packages or none, for both styles, with
// or without both a header and a prefix.
//
//vp:harness M03 reach=end merge=off shards=10
func Options() {
	sh := vp.Shard(10)
	fix := 1 + sh%2
	p := derived{}
	in := "syntax = \"proto3\";\n"
	if sh/2 > 0 {
		p = derivedFor[sh/2-1]
		in += "package " + p.pkg + ";\n"
	}
	both := vp.Choice("both", 2)
	header := []string{"", "// h\n//\n// g"}[both]
	prefix := []string{"", "org.x"}[both]
	w := p.want(fix, prefix)
	some := both
	if vp.Tier() > 0 {
		some = vp.Choice("some", 2)
	}
	in += "option (z) = 1;\n"
	for i, o := range derivable {
		if vp.Bool("has " + o) {
			v := "\"x\""
			if o == "java_multiple_files" {
				v = "false"
			}
			if (i+some)%2 == 1 && w[o] != "" {
				v = w[o]
			}
			in += "// about " + o + "\noption " + o + " = " + v + "; // " + o + "\n"
		}
	}
	in += "option cc_generic_services = true;\nimport \"a.proto\";\nmessage M{ int64 a = 1 [(go_package) = 1]; option java_package = 'x'; }"
	fixed(in, fix, header, prefix, p)
}

// An option of any text of up to three bytes (or true, false and the like for the boolean one), with or without comments.
//
//vp:harness M03 reach=end merge=off shards=7
func OptionValues() {
	o := derivable[vp.Shard(7)]
	fix := 1 + vp.Choice("fix", 2)
	v := "\"" + vp.String("v", "aF.\\", 0, 3) + "\""
	if o == "java_multiple_files" {
		v = pick("b", []string{"true", "false", "0", "\"true\"", "TRUE", vp.String("c", "1fals", 1, 3)})
	}
	before, inline := pick("before", []string{"", "// c\n"}), pick("inline", []string{"", "// c"})
	fixed("syntax=\"proto3\"; package foo.bar.v1;\n"+before+"option "+o+" = "+v+";"+inline+"\n", fix, "", "", derivedFor[1])
}

// A package in any place before, between or after options, and before and after the syntax.
//
//vp:harness M03 reach=end merge=off
func Places() {
	l := []string{"package foo.bar.v1;\n", "option go_package = \"x\";\n", "option (a) = 1;\n", "import \"a.proto\";\n", "message M{}\n"}
	x, y, z := vp.Choice("x", 5), vp.Choice("y", 5), vp.Choice("z", 5)
	vp.Assume(x != y && y != z && x != z)
	in := []string{"", "syntax = \"proto2\";\n"}[vp.Choice("syntax", 2)] + l[x] + l[y] + l[z]
	p := derived{}
	if strings.Contains(in, "package foo") {
		p = derivedFor[1]
	}
	fixed(in, 1+vp.Choice("fix", 2), []string{"", "// h"}[vp.Choice("header", 2)], "", p)
}

// Five forms of comments (eight thorough) in two places before and two after the syntax, with and without a header, one of which is the header itself.
//
//vp:harness M03 reach=end merge=off shards=3
func Headers() {
	header := []string{"", "// h", "// h\n//\n// g"}[vp.Shard(3)]
	c := []string{"", "// h\n", "// h\n\n", "// h\n//\n// g\n", "// h\n//\n// g\n\n", "/* c */\n", "// c\n// d\n\n", "\n"}
	if vp.Tier() == 0 {
		c = c[:5]
	}
	in := pick("c0", c) + pick("c1", c) + "syntax = \"proto3\"; // i\n" + pick("c2", c) + "package foo.bar.v1;\n" + pick("c3", c) + "message M{}\n"
	fixed(in, 2, header, "", derivedFor[1])
}
