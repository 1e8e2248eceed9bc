package fmtx

import (
	"strings"

	"github.com/uber/prototool/internal/format"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func text(check func(string)) {
	c := []string{"message M{%}", "enum E{%}", "service S{%}", "option (o)={%};", "message M{int64 a=1[%];}", "%message M{}", "message M{oneof o{%}}", "service S{rpc R(A)returns(B){%\n}}"}[vp.Shard(8)]
	max := 5 + vp.Tier()
	bytes := " \n;/*{}a=1"
	if strings.Contains(c, "rpc") {
		// the parser does not end where the body of a method does not
		bytes = " \n;/{}a=1"
		max--
	}
	s := vp.String("s", bytes, 0, max)
	check("syntax=\"proto3\";" + strings.Replace(c, "%", s, 1))
}

// Any text over ten characters of up to five bytes (six thorough; one less in methods) as the body of a message, an enum, a oneof, a service, a method, an option or a list of options, or between declarations.
//
//vp:harness M01 reach=end merge=off shards=8
func TextTwice() { text(twice) }

// Any text over ten characters of up to five bytes (six thorough; one less in methods) as the body of a message, an enum, a oneof, a service, a method, an option or a list of options, or between declarations.
//
//vp:harness M02 reach=end merge=off shards=8
func TextKept() { text(kept) }

func comment(check func(string)) {
	in := ""
	if vp.Bool("c style") {
		in = "/*" + vp.String("t", " /*a\t\n", 0, 5+vp.Tier()) + "*/\n"
	} else {
		in = "//" + vp.String("s", " /*a\t", 0, 5+vp.Tier()) + "\n"
	}
	before := []string{"int64 a = 1;", "int64 a = 1;\n"}[vp.Shard(2)]
	check("syntax=\"proto3\";message M{ " + before + in + "int64 b = 2;}")
}

// Any text of up to five bytes (six thorough) of a comment after or before a field in either style, with line breaks in the style of C.
//
//vp:harness M01 reach=end merge=off shards=2
func CommentTwice() { comment(twice) }

// Any text of up to five bytes (six thorough) of a comment after or before a field in either style, with line breaks in the style of C.
//
//vp:harness M02 reach=end merge=off shards=2
func CommentKept() { comment(kept) }

func str(check func(string)) {
	// white space and comment marks in single quotes: see SingleQuoted
	var in string
	if vp.Bool("single") {
		in = "'" + vp.String("t", "a\"\\{;", 0, 4) + "'"
	} else {
		in = "\"" + vp.String("s", "a \"'/*\\{", 0, 4) + "\""
	}
	check("syntax=\"proto3\";option (o) = " + in + ";")
}

// Any text of up to four bytes of a string in either quotes (for single quotes without white space or slashes).
//
//vp:harness M01 reach=end merge=off
func StringTwice() { str(twice) }

// Any text of up to four bytes of a string in either quotes (for single quotes without white space or slashes).
//
//vp:harness M02 reach=end merge=off
func StringKept() { str(kept) }

// Any text of up to three bytes out of five in single quotes.
//
//vp:harness M02 reach=end merge=off
func SingleQuoted() {
	s := vp.String("s", "a /{;", 0, 3)
	out, fs, err := format.NewTransformer().Transform("a.proto", []byte("option o = 'x"+s+"y';"))
	vp.Finding("single-quotes", err != nil || len(fs) > 0 || string(out) == "option o = 'x"+s+"y';\n", "white space and comments in single quotes are kept")
	vp.Reach("end")
}

func names(check func(string)) {
	n := vp.String("n", "aM_1.", 1, 3)
	in := []string{
		"syntax=\"proto3\";package " + n + ";",
		"syntax=\"proto3\";message " + n + " { }",
		"syntax=\"proto3\";message M { " + n + " b = 1; }",
		"syntax=\"proto3\";message M { int64 " + n + " = 1; }",
		"syntax=\"proto3\";message M { map<" + n + ",." + n + "> b = 1; }",
		"syntax=\"proto3\";enum " + n + " { A = 0; }",
		"syntax=\"proto3\";enum E { " + n + " = 0; }",
		"syntax=\"proto3\";service " + n + " { rpc " + n + "(" + n + ") returns (" + n + "); }",
		"syntax=\"proto3\";option " + n + " = " + n + ";",
		"syntax=\"proto3\";option (" + n + ")." + n + " = {" + n + ": " + n + "};",
		"syntax=\"proto3\";import \"" + n + "\";",
		"syntax=\"proto2\";extend " + n + " { optional " + n + " a = 1; }",
		"syntax=\"proto3\";message M { oneof " + n + " { " + n + " b = 1; } reserved \"" + n + "\"; }",
	}[vp.Shard(13)]
	check(in)
}

// Any name of up to three characters in any of thirteen places.
//
//vp:harness M01 reach=end merge=off shards=13
func NamesTwice() { names(twice) }

// Any name of up to three characters in any of thirteen places.
//
//vp:harness M02 reach=end merge=off shards=13
func NamesKept() { names(kept) }

func numbers(check func(string)) {
	n := vp.String("n", "0189xA-", 1, 3)
	in := []string{
		"syntax=\"proto3\";message M { int64 a = " + n + "; }",
		"syntax=\"proto3\";enum E { A = " + n + "; }",
		"syntax=\"proto3\";option o = " + n + ";",
		"syntax=\"proto3\";message M { reserved " + n + "; }",
		"syntax=\"proto2\";message M { extensions 1 to " + n + "; }",
		"syntax=\"proto2\";message M { optional group G = " + n + " { } }",
	}[vp.Shard(6)]
	check(in)
}

// Any number of up to three characters in any of six places.
//
//vp:harness M01 reach=end merge=off shards=6
func NumbersTwice() { numbers(twice) }

// Any number of up to three characters in any of six places.
//
//vp:harness M02 reach=end merge=off shards=6
func NumbersKept() { numbers(kept) }

// blank makes a text of white space.
func blank(name string) string {
	return vp.String(name, []string{" \n\t", " \n\t\r"}[vp.Tier()], 0, 1+vp.Tier())
}

func spaces(check func(string)) {
	in := []string{
		"syntax%=%\"proto3\"%;%message M {}",
		"syntax=\"proto3\";%message%M%{%int64 a = 1;}",
		"syntax=\"proto3\";message M {%int64%a%=%1;}",
		"syntax=\"proto3\";message M {int64 a = 1%;%// c\n%int64 b = 2;}",
		"syntax=\"proto3\";message M {int64 a = 1;%/* c */%int64 b = 2;%}",
		"syntax=\"proto3\";// a\n%// b\n%// c\n%message M {}",
		"syntax=\"proto3\";option (o)%=%{ a%:%1 };",
		"syntax=\"proto3\";service S{ rpc R%(A)%returns (B)%;%}",
		"%// a\n%syntax=\"proto3\";%// b\n%package a;",
	}[vp.Shard(9)]
	text, k := "", 0
	for i := 0; i < len(in); i++ {
		if in[i] == '%' {
			text += blank("s" + n(k))
			k++
		} else {
			text += in[i : i+1]
		}
	}
	check(text)
}

// Up to one blank of three kinds (two of four kinds thorough) in each of four places of one of nine files.
//
//vp:harness M01 reach=end merge=off shards=9
func SpacesTwice() { spaces(twice) }

// Up to one blank of three kinds (two of four kinds thorough) in each of four places of one of nine files.
//
//vp:harness M02 reach=end merge=off shards=9
func SpacesKept() { spaces(kept) }

func many(check func(string)) {
	// sorting more than twelve is another algorithm
	in := "syntax=\"proto3\";"
	k := vp.Choice("kind", 2)
	x, y := vp.Choice("x", 14), vp.Choice("y", 14)
	for i := 0; i < 14; i++ {
		m := "(m)"
		if i == x {
			m = "(b)"
		}
		if i == y {
			m = "(z)"
		}
		if k == 0 {
			in += "option " + m + " = " + n(i) + ";"
		} else {
			in += "import \"" + m + "\"; // " + n(i) + "\n"
		}
	}
	check(in)
}

// Fourteen options or imports, up to two of which have another name.
//
//vp:harness M01 reach=end merge=off
func ManyTwice() { many(twice) }

// Fourteen options or imports, up to two of which have another name.
//
//vp:harness M02 reach=end merge=off
func ManyKept() { many(kept) }
