package fmtx

import (
	"strings"

	"github.com/uber/prototool/internal/zzvp/vp"
)

func pick(name string, l []string) string { return l[vp.Choice(name, len(l))] }

// before and after are comments around an element.
var before = []string{"", "// c\n", "/* c */\n", "// c\n\n", "// c\n// d\n", "/* c\n d */\n", "/* c */ ", "// c\n\n// d\n"}
var after = []string{"", " // i", " /* i */", "\n// i", "\n\n// i\n"}

// withs are options of a field or value.
var withs = []string{"", " [deprecated=true]", "[ (x).y = \"s\" , deprecated = false]", " [(b) = {a: 1 b: 'q'}]", "[(z)=-1,\n(a)=1.5]", " [(e) = {}]", " [(e) = \"\"]", "[(e)={}, (f)={a:1}, (g)={}]"}

func fields(check func(string)) {
	syntax := vp.Choice("syntax", 3)
	in := []string{"", "syntax=\"proto2\";", "syntax = 'proto3' ;"}[syntax]
	label := vp.Shard(4)
	vp.Assume(label == 3 || label == 1 || (label == 0) == (syntax == 2))
	in += "message M{\n" + []string{"", "optional ", "required  ", "repeated\n"}[label]
	in += pick("type", []string{"int64", ".a.B", "b.C.D"}) + " " + pick("name", []string{"f", "message", "m_1"})
	in += pick("number", []string{"=1", " = 0x10", "=536870911 "}) + pick("with", withs) + ";}"
	check(in)
}

// One field with any label, three types, names and numbers, and eight option lists, in files of either syntax or none.
//
//vp:harness M01 reach=end shards=4 merge=off
func FieldsTwice() { fields(twice) }

// One field with any label, three types, names and numbers, and eight option lists, in files of either syntax or none.
//
//vp:harness M02 reach=end shards=4 merge=off
func FieldsKept() { fields(kept) }

// bodies are elements of a message (the first ten also of a group or extension).
var bodies = []string{
	"int64 a = 1;", "repeated  .b.C a=1 [packed=true];", "map < string,b.C > a = 1;", "oneof o { int64 x=8; b.C y = 9 ; }",
	"reserved 5,7 to 9, 11;", "reserved \"r\" , 's';", "message N { int64 z = 3; }", "message N{}", "enum E { A=0; B =-1; }", "option (m) = true;",
	"enum E {}", "oneof o { option (oo) = 1; int64 x = 8 [deprecated=true]; }", ";", "option (n).x = { a: 1, b: { c: [1, 2] } };", "reserved 5 to max;",
}
var bodies2 = []string{
	"optional int64 a = 1;", "required b.C a = 2 [default = 5];", "repeated group G = 3 { optional int64 g = 4; }", "optional group G=3{}", "required group G = 3 { option deprecated = true; }",
	"extensions 100 to 199, 300;", "extensions 1000 to max;", "extend b.C { optional int64 e = 101; }", "extend b.C { repeated group H = 102 { } }", "oneof o { int64 x = 8; group G = 3 { required int64 g = 4; } }",
}

func body(check func(string), syntax string, l []string) {
	x := vp.Shard(len(l))
	in := syntax + "message M {" + pick("c0", []string{" ", "\n// c\n", "// c\n\n"}) + l[x] + pick("c1", []string{"", "\n", " // i\n", "\n// c\n", "\n// c\n\n", "\n/* c\nd */\n"})
	if y := vp.Choice("y", len(l)+1); y < len(l) {
		vp.Assume(vp.Tier() > 0 || (y+x)%3 == 0)
		in += l[y]
		in += pick("c2", []string{"\n", " // i\n", "\n// c\n"})
	}
	check(in + "}")
}

// One or two of fifteen elements of a message in any order, with a comment or none before, between and after them.
//
//vp:harness M01 reach=end shards=15 merge=off
func BodyTwice() { body(twice, "syntax = \"proto3\";\n", bodies) }

// One or two of fifteen elements of a message in any order, with a comment or none before, between and after them.
//
//vp:harness M02 reach=end shards=15 merge=off
func BodyKept() { body(kept, "syntax = \"proto3\";\n", bodies) }

// One or two of ten elements of a proto2 message in any order, with a comment or none before, between and after them.
//
//vp:harness M01 reach=end shards=10 merge=off
func Body2Twice() { body(twice, "", bodies2) }

// One or two of ten elements of a proto2 message in any order, with a comment or none before, between and after them.
//
//vp:harness M02 reach=end shards=10 merge=off
func Body2Kept() { body(kept, "syntax = \"proto2\";", bodies2) }

// tops are elements of a file.
var tops = []string{
	"package a.b;", "import \"b.proto\";", "import public 'a.proto';", "import weak \"c.proto\";", "option go_package = \"x\";", "option (f) = { a: 1 };", "option java_package='y';",
	"message M{}", "message M { int64 a = 1; }", "enum E { A = 0; }", "service S {}", "service S { rpc R(a) returns (stream .b.C); }", "extend a.B { int64 e = 1; }", ";",
}

func top(check func(string)) {
	x := vp.Shard(len(tops))
	c := []string{"", "// c\n", "// c\n\n", "/* c */\n// d\n"}
	end := []string{"\n", " // i\n"}
	in := pick("c0", c) + "syntax = \"proto3\";" + pick("i0", end) + pick("c1", c) + tops[x] + pick("i1", end)
	check(in + pick("c2", c))
}

// One of fourteen elements of a file after the syntax, with four forms of comments before, between and after them and inline comments or none.
//
//vp:harness M01 reach=end shards=14 merge=off
func TopTwice() { top(twice) }

// One of fourteen elements of a file after the syntax, with four forms of comments before, between and after them and inline comments or none.
//
//vp:harness M02 reach=end shards=14 merge=off
func TopKept() { top(kept) }

func tops2(check func(string)) {
	x, y := vp.Shard(len(tops)), vp.Choice("y", len(tops))
	vp.Assume(x != 0 || y != 0)
	in := "syntax = \"proto3\";" + pick("c1", []string{"", "\n// c\n", "\n\n// c\n\n"}) + tops[x] + pick("c2", []string{"", "\n", " // i\n", "\n// c\n", " // i\n// c\n\n"})
	check(in + tops[y] + pick("c3", []string{"", " // i\n", "\n// c"}))
}

// Two of fourteen elements of a file after the syntax in any order, with no comment, attached, detached or inline comments.
//
//vp:harness M01 reach=end shards=14 merge=off
func TopsTwice() { tops2(twice) }

// Two of fourteen elements of a file after the syntax in any order, with no comment, attached, detached or inline comments.
//
//vp:harness M02 reach=end shards=14 merge=off
func TopsKept() { tops2(kept) }

func order(check func(string)) {
	// three of six elements that are sorted or moved, each with a comment
	l := []string{"package a;", "import \"b.proto\";", "import 'a.proto';", "option b = 1;", "option (a) = 2;", "message M{}"}
	x, y, z := vp.Shard(6), vp.Choice("y", 6), vp.Choice("z", 6)
	vp.Assume(x != y && y != z && x != z)
	c := pick("c", []string{"", "// %\n", "// %\n\n"})
	e := pick("e", []string{"\n", " // i%\n"})
	in := pick("syntax", []string{"", "// s\nsyntax = \"proto2\";"})
	for i, k := range []int{x, y, z} {
		in += strings.Replace(c, "%", "c"+n(i), 1) + l[k] + strings.Replace(e, "%", n(i), 1)
	}
	check(in)
}

// Three of six elements of a file in any order, each with a comment of its own before it (attached or not) and after it or not.
//
//vp:harness M01 reach=end shards=6 merge=off
func OrderTwice() { order(twice) }

// Three of six elements of a file in any order, each with a comment of its own before it (attached or not) and after it or not.
//
//vp:harness M02 reach=end shards=6 merge=off
func OrderKept() { order(kept) }

// values of options.
var values = []string{
	"1", "-1", "1.5e3", "true", "SOME_NAME", "\"s\"", "'s'", "\"a\\\"b\"", "'a\"b'", "\"\\001\\n\"", "\"a\" \"b\"", "-inf", "0x1F", "\"\"", "\"// no comment\"", "\"é\"",
}
var aggregates = []string{
	"{ a: 1 }", "{ a: 1, b: 's' }", "{ a: 1; b: \"t\" }", "{ a { b: 1 } }", "{ a: { b: 1 } c: -2 }", "{ a: [1, 2, 3] }", "{ a: [{ b: 1 }, { b: 2 }] }", "{ a: [{ b: [1] }] d: true }", "{ a: 1 a: 2 }", "{}", "{ a: [] }", "{ a: [{}, {b: 1}] }", "{ a: [{ b: 1 }, {}] }",
	"{ a: \"x\"\n \"y\" }", "{\n // in\n a: 1\n}", "{ a: [[1, 2], [3]] }",
}

func option(check func(string), l []string) {
	v := l[vp.Shard(len(l))]
	two := vp.Bool("two")
	var in string
	switch vp.Choice("place", 7) {
	case 0:
		in = "option (o) = " + v + ";"
		if two {
			in += "option (b) = " + v + ";"
		}
	case 1:
		in = "message M { option (o).p = " + v + ";"
		if two {
			in += "// c\noption o = " + v + "; // i\n"
		}
		in += "}"
	case 2:
		in = "message M { int64 a = 1 [(o) = " + v
		if two {
			in += ", (b) = " + v
		}
		in += "];}"
	case 3:
		in = "enum E { option (o) = " + v + "; A = 0 [ (b)=" + v
		if two {
			in += ", (a) = 1"
		}
		in += " ] ; }"
	case 4:
		in = "service S { option o = " + v + "; rpc R(A) returns(B) { option (o)=" + v + ";"
		if two {
			in += "option (b).c.d=" + v + "; // i\n"
		}
		in += "} }"
	case 5:
		in = "option (o) = { x: " + v
		if two {
			in += " y: " + v
		}
		in += " };"
	case 6:
		in = "message M { oneof o { option (o) = " + v + "; int64 a = 1 [ (o) = { x: [ " + v
		if two {
			in += ", " + v
		}
		in += " ] } ]; } }"
	}
	check("syntax = \"proto3\"; " + in)
}

// An option with one of sixteen values in any of seven places, or two.
//
//vp:harness M01 reach=end shards=16 merge=off
func ValuesTwice() { option(twice, values) }

// An option with one of sixteen values in any of seven places, or two.
//
//vp:harness M02 reach=end shards=16 merge=off
func ValuesKept() { option(kept, values) }

// An option with one of sixteen aggregates in any of seven places, or two.
//
//vp:harness M01 reach=end shards=16 merge=off
func AggregatesTwice() { option(twice, aggregates) }

// An option with one of sixteen aggregates in any of seven places, or two.
//
//vp:harness M02 reach=end shards=16 merge=off
func AggregatesKept() { option(kept, aggregates) }

func service(check func(string)) {
	c := []string{"", "// c\n", "// c\n\n"}
	i := []string{"", " // i\n"}
	in := "syntax = \"proto3\";" + pick("c0", c) + "service S {" + pick("c1", c)
	switch vp.Shard(5) {
	case 0:
		in += "rpc R" + pick("in", []string{"(A)", " ( stream .a.B ) ", "(stream\nA)"}) + "returns" + pick("out", []string{"(B)", " (stream b.C )"}) + ";"
	case 1:
		in += "rpc R(A) returns (B) {}"
	case 2:
		in += "rpc R(A) returns (B) {" + pick("c2", c) + "option deprecated = true;" + pick("i2", i) + pick("c3", c) + "}"
	case 3:
		in += "rpc R(A) returns (stream B) {" + pick("c2", c) + "option (b) = { x: 1 };" + pick("i2", i) + "option (a) = 1;" + pick("i3", i) + "}"
	case 4:
		in += "option (b) = 1;" + pick("i2", i) + pick("c2", c) + "rpc R(A) returns (B); option (a) = 1;" + pick("i3", i) + pick("c3", c)
	}
	in += pick("i1", i)
	if vp.Bool("two") {
		in += "rpc T(A) returns (B);"
	}
	check(in + "}")
}

// A service with one or two methods of three request and two response forms, with up to two options or a body without, with comments in all places.
//
//vp:harness M01 reach=end shards=5 merge=off
func ServiceTwice() { service(twice) }

// A service with one or two methods of three request and two response forms, with up to two options or a body without, with comments in all places.
//
//vp:harness M02 reach=end shards=5 merge=off
func ServiceKept() { service(kept) }

func enum(check func(string)) {
	c := []string{"", "// c\n", "// c\n\n"}
	in := "enum E {" + pick("c1", c) + pick("e1", []string{"A=0;", "A = -1 [deprecated=true] ;", "reserved 2, -3 to -1;", "reserved \"X\";", "option allow_alias=true;", "A = 0x1 [(x) = {a: 1}, (b) = 2];"}) + pick("i1", []string{"", " // i\n"})
	in += pick("c2", c) + pick("e2", []string{"", "A=0;", "A = -1 [deprecated=true] ;", "reserved 2 to max;", "option allow_alias=true;"}) + pick("i2", []string{"", " // i\n"}) + pick("c3", c)
	check(in + "}" + []string{"", "message M{}"}[vp.Shard(2)])
}

// An enum with up to two elements of six and five forms, with comments in all places.
//
//vp:harness M01 reach=end shards=2 merge=off
func EnumTwice() { enum(twice) }

// An enum with up to two elements of six and five forms, with comments in all places.
//
//vp:harness M02 reach=end shards=2 merge=off
func EnumKept() { enum(kept) }
