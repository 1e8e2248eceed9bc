package lnt

import (
	"strconv"

	"github.com/emicklei/proto"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/vp"
)

var wktNames = []string{"any", "api", "compiler/plugin", "descriptor", "duration", "empty", "field_mask", "source_context", "struct", "timestamp", "type", "wrappers"}

// Imports of any kind whose file name is a well-known type's, gogo's or another
// name, after up to 2 arbitrary characters (thorough: 3), with one letter
// arbitrary, between other imports.
//
//vp:harness L08 reach=ok shards=14
func Imports() {
	k := vp.Shard(14)
	x := vp.String("x", ident+"./", 1, 1)
	pre := vp.String("pre", "ago/.", 0, n(2, 3))
	kind := []string{"", "public", "weak"}[vp.Choice("kind", 3)]
	at := vp.Choice("at", 7)
	names := []string{}
	for _, w := range wktNames {
		names = append(names, "google/protobuf/"+w+".proto")
	}
	names = append(names, "gogo.proto", "gogoproto/gogo.proto")
	name := names[k]
	// an arbitrary character somewhere, or none
	j := []int{-1, 0, 6, 7, 15, len(name) - 1, len(name) - 6}[at]
	if j >= len(name) {
		j = len(name) - 2
	}
	if j >= 0 {
		name = name[:j] + x + name[j+1:]
	}
	full := pre + name
	f := fd("/w/a.proto", "syntax = \"proto3\";\nimport \"a.proto\";\nimport \"X\";\nimport weak \"b.proto\";\nimport public \"google/protobuf/any.proto\";\nimport \"proto/gogo.proto\";\nimport \"my/google/protobuf/any.proto\";\n", settings.LintConfig{})
	i := f.Elements[2].(*proto.Import)
	i.Filename, i.Kind = full, kind
	weak, public := map[int]int{4: 1}, map[int]int{5: 1}
	gogo, wk := map[int]int{6: 1}, map[int]int{7: 1}
	if kind == "weak" {
		weak[3] = 1
	}
	if kind == "public" {
		public[3] = 1
	}
	if hasSuffix(full, "gogo.proto") {
		gogo[3] = 1
	}
	for _, w := range wktNames {
		w = "google/protobuf/" + w + ".proto"
		if hasSuffix(full, w) && full != w {
			wk[3] = 1
		}
	}
	expect("IMPORTS_NOT_WEAK", "/w/a.proto", run("IMPORTS_NOT_WEAK", f), weak, 8)
	expect("IMPORTS_NOT_PUBLIC", "/w/a.proto", run("IMPORTS_NOT_PUBLIC", f), public, 8)
	expect("GOGO_NOT_IMPORTED", "/w/a.proto", run("GOGO_NOT_IMPORTED", f), gogo, 8)
	expect("WKT_DIRECTLY_IMPORTED", "/w/a.proto", run("WKT_DIRECTLY_IMPORTED", f), wk, 8)
	vp.Reach("ok")
}

// Files with and without a syntax and a package, in any order of two files, with
// syntax values of up to 2 arbitrary characters.
//
//vp:harness L08 reach=ok
func SyntaxPackage() {
	val := "proto" + vp.String("v", ident, 0, 2)
	syn, pkg := vp.Bool("syn"), vp.Bool("pkg")
	src := ""
	if syn {
		src += "syntax = \"proto3\";\n"
	} else {
		src += "// nothing\n"
	}
	if pkg {
		src += "package foo.v1;\n"
	} else {
		src += "\n"
	}
	src += "message A {}\n"
	f := fd("/w/a.proto", src, settings.LintConfig{})
	if syn {
		f.Elements[0].(*proto.Syntax).Value = val
	}
	g := fd("/w/g.proto", "syntax = \"proto3\";\npackage foo.v1;\n", settings.LintConfig{})
	ws, wp := map[int]int{}, map[int]int{}
	if !syn {
		ws[0] = 1
	} else if val != "proto3" {
		ws[1] = 1
	}
	if !pkg {
		wp[0] = 1
	}
	expect("SYNTAX_PROTO3", "/w/a.proto", run("SYNTAX_PROTO3", f), ws, 5)
	expect("SYNTAX_PROTO3", "/w/a.proto", run("SYNTAX_PROTO3", f, g), ws, 5)
	expect("SYNTAX_PROTO3", "/w/a.proto", run("SYNTAX_PROTO3", g, f), ws, 5)
	expect("PACKAGE_IS_DECLARED", "/w/a.proto", run("PACKAGE_IS_DECLARED", f), wp, 5)
	expect("PACKAGE_IS_DECLARED", "/w/a.proto", run("PACKAGE_IS_DECLARED", f, g), wp, 5)
	expect("PACKAGE_IS_DECLARED", "/w/a.proto", run("PACKAGE_IS_DECLARED", g, f), wp, 5)
	expect("PACKAGE_MAJOR_BETA_VERSIONED", "/w/a.proto", run("PACKAGE_MAJOR_BETA_VERSIONED", g, f), wp, 5)
	expect("PACKAGE_MAJOR_BETA_VERSIONED", "/w/a.proto", run("PACKAGE_MAJOR_BETA_VERSIONED", f, g), wp, 5)
	vp.Reach("ok")
}

func number(s string) bool {
	return len(s) > 0 && all(s, dg) && !all(s, func(b byte) bool { return b == '0' })
}

func versioned(s string) bool {
	i := len(s) - 1
	for i >= 0 && s[i] != '.' {
		i--
	}
	if i < 0 {
		return false
	}
	s = s[i+1:]
	if !hasPrefix(s, "v") {
		return false
	}
	s = s[1:]
	for j := 0; j+4 <= len(s); j++ {
		if s[j:j+4] == "beta" {
			return number(s[:j]) && number(s[j+4:])
		}
	}
	return number(s)
}

// Package names that end in up to 5 characters around a version.
//
//vp:harness L08 reach=ok shards=4
func PackageVersion() {
	pre := []string{"", "foo.", "foo.bar.", "foo.v1."}[vp.Shard(4)]
	s := pre + vp.String("a", "v1.0x", 1, 3) + []string{"", "beta", "bet", "alpha"}[vp.Choice("mid", 4)] + vp.String("b", "02.b", 0, 2)
	f := fd("/w/a.proto", "syntax = \"proto3\";\npackage foo;\n", settings.LintConfig{})
	f.Elements[1].(*proto.Package).Name = s
	want := map[int]int{2: 1}
	if versioned(s) {
		want[2] = 0
	}
	expect("PACKAGE_MAJOR_BETA_VERSIONED", "/w/a.proto", run("PACKAGE_MAJOR_BETA_VERSIONED", f), want, 3)
	vp.Reach("ok")
}

// Packages of one to three components out of keywords in any case, one letter
// arbitrary, and other names.
//
//vp:harness L08 reach=ok shards=5
func PackageKeywords() {
	kws := []string{"internal", "public", "private", "protected", "std"}
	kw := kws[vp.Shard(5)]
	x := vp.String("x", ident, 1, 1)
	j := []int{0, 1, len(kw) - 1, len(kw)}[vp.Choice("pos", 4)]
	if j < len(kw) {
		kw = kw[:j] + x + kw[j+1:]
	} else {
		kw += x
	}
	s := []string{kw, "foo." + kw, kw + ".v1", "foo." + kw + ".v1", "STD." + kw, kw + ".std.public"}[vp.Choice("form", 6)]
	f := fd("/w/a.proto", "syntax = \"proto3\";\npackage foo;\n", settings.LintConfig{})
	f.Elements[1].(*proto.Package).Name = s
	count := 0
	from := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			low := ""
			for _, b := range []byte(s[from:i]) {
				low += string([]byte{lowerB(b)})
			}
			for _, k := range kws {
				if low == k {
					count++
				}
			}
			from = i + 1
		}
	}
	expect("PACKAGE_NO_KEYWORDS", "/w/a.proto", run("PACKAGE_NO_KEYWORDS", f), map[int]int{2: count}, 3)
	vp.Reach("ok")
}

// Any one of 12 fields at any depth, with any type out of scalars, well-known
// types and others (one letter arbitrary), every label, a name around the
// reserved words, and a json name or another option.
//
//vp:harness L08 reach=ok shards=12
func Fields() {
	f := fd("/w/dir/a.proto", tmpl, settings.LintConfig{})
	var fields []*node
	for _, x := range walk(f.Proto) {
		if x.field() != nil {
			fields = append(fields, x)
		}
	}
	vp.Assert(len(fields) == 12, "template has 12 fields: "+strconv.Itoa(len(fields)))
	x := fields[vp.Shard(12)]
	c := vp.String("c", "tFfTdD.s_", 1, 1)
	typ := []string{"float", "double", "google.protobuf.Duration", "google.protobuf.Timestamp", "floa" + c, c + "loat", "google.protobuf." + c + "uration", "google.protobuf." + c + "imestamp", "Duration", ".google.protobuf.Timestamp", "float" + c}[vp.Choice("typ", 11)]
	name := []string{"duration", "time", "a_duration", "a_time", c + "duration", c + "time", "duration" + c, "time" + c, "_time", "dur", "tim" + c, "durationtime", "lifetime_count"}[vp.Choice("name", 13)]
	opts := vp.Choice("opt", 4)
	x.field().Type = typ
	x.field().Name = name
	o := func(name string) *proto.Option {
		return &proto.Option{Name: name, Constant: proto.Literal{Source: "x", IsString: true}}
	}
	x.field().Options = [][]*proto.Option{nil, {o("json_name")}, {o("deprecated"), o("json_name"), o("packed")}, {o("(json_name)"), o("json_nam" + c)}}[opts]
	one := func(b bool) map[int]int {
		if b {
			return map[int]int{x.line: 1}
		}
		return map[int]int{}
	}
	ismap := x.kind == "mapfield"
	const file = "/w/dir/a.proto"
	expect("MESSAGE_FIELDS_NOT_FLOATS", file, run("MESSAGE_FIELDS_NOT_FLOATS", f), one(typ == "float"), tmplLines)
	expect("MESSAGE_FIELDS_DURATION", file, run("MESSAGE_FIELDS_DURATION", f), one(!ismap && contains(name, "duration") && typ != "google.protobuf.Duration"), tmplLines)
	expect("MESSAGE_FIELDS_TIME", file, run("MESSAGE_FIELDS_TIME", f), one(!ismap && contains(name, "time") && typ != "google.protobuf.Timestamp"), tmplLines)
	expect("WKT_DURATION_SUFFIX", file, run("WKT_DURATION_SUFFIX", f), one(!ismap && typ == "google.protobuf.Duration" && name != "duration" && !hasSuffix(name, "_duration")), tmplLines)
	expect("WKT_TIMESTAMP_SUFFIX", file, run("WKT_TIMESTAMP_SUFFIX", f), one(!ismap && typ == "google.protobuf.Timestamp" && name != "time" && !hasSuffix(name, "_time")), tmplLines)
	expect("MESSAGE_FIELDS_NO_JSON_NAME", file, run("MESSAGE_FIELDS_NO_JSON_NAME", f), one(opts == 1 || opts == 2), tmplLines)
	vp.Reach("ok")
}

// Streaming in any combination for three methods of two services.
//
//vp:harness L08 reach=ok
func Streaming() {
	f := fd("/w/dir/a.proto", tmpl, settings.LintConfig{})
	want := map[int]int{}
	i := 0
	for _, x := range walk(f.Proto) {
		if r, ok := x.v.(*proto.RPC); ok {
			r.StreamsRequest = vp.Bool("q" + strconv.Itoa(i))
			r.StreamsReturns = vp.Bool("r" + strconv.Itoa(i))
			if r.StreamsRequest || r.StreamsReturns {
				want[x.line] = 1
			}
			i++
		}
	}
	vp.Assert(i == 3, "template has 3 methods")
	expect("RPCS_NO_STREAMING", "/w/dir/a.proto", run("RPCS_NO_STREAMING", f), want, tmplLines)
	vp.Reach("ok")
}

// A file whose first bytes are the header with up to 2 bytes dropped, replaced
// or put before, and files without a configured header.
//
//vp:harness L08 reach=ok
func Header() {
	h := vp.String("h", "", 0, 4)
	d := vp.String("d", "", 0, 5)
	f := fd("/w/a.proto", "syntax = \"proto3\";\n", settings.LintConfig{FileHeader: h})
	f.FileData = d
	g := fd("/w/b.proto", "", settings.LintConfig{FileHeader: h})
	g.FileData = h + d
	want := map[int]int{}
	if !hasPrefix(d, h) {
		want[0] = 1
	}
	expect("FILE_HEADER", "/w/a.proto", run("FILE_HEADER", f, g), want, 2)
	vp.Reach("ok")
}

const kindsTmpl = `syntax = "proto2";
package foo;
import "bar.proto";
option java_package = "x";
message Good {
  optional int64 one = 1 [deprecated = true];
  map<string, int64> two = 2 [(own) = true];
  reserved 50 to 60;
  reserved "old_name";
  extensions 100 to 200;
  oneof three {
    int64 four = 3 [(own) = true];
  }
  message Nested {
    option (nested_opt) = true;
    enum Deep {
      option (deep_opt) = true;
      option allow_alias = true;
      ZERO = 0 [(own) = "data"];
      reserved 2;
    }
    message Deeper {
      repeated group Grp = 5 {
        optional int64 five = 6;
      }
      reserved 7;
    }
  }
}
enum Top {
  TOP = 0;
  option allow_alias = false;
  reserved 3, 4;
}
service Svc {
  option (svc_opt) = true;
  rpc Do(Req) returns (Resp) {
    option (rpc_opt) = "common";
  }
  rpc Other(Req) returns (Resp);
}
extend google.protobuf.FieldOptions {
  optional string own = 50000;
}
`

// Every element of a file with every kind of element, with leading and inline
// comments of either style or none; and the reserved statements and enum aliases
// of that file.
//
//vp:harness L08 reach=ok shards=38
func CommentStyle() {
	f := fd("/w/a.proto", kindsTmpl, settings.LintConfig{})
	els := walk(f.Proto)
	vp.Assert(len(els) == 38, "template has 38 elements: "+strconv.Itoa(len(els)))
	x := els[vp.Shard(38)]
	lead, inl := vp.Choice("lead", 3), vp.Choice("inl", 3)
	wc, wi := map[int]int{}, map[int]int{}
	if c := x.comment(); c != nil && lead > 0 {
		*c = &proto.Comment{Lines: []string{" x"}, Cstyle: lead == 2}
		if lead == 2 {
			wc[x.line]++
		}
	}
	if c := x.inline(); c != nil && inl > 0 {
		*c = &proto.Comment{Lines: []string{" x"}, Cstyle: inl == 2}
		(*c).Position.Line = x.line
		(*c).Position.Filename = "/w/a.proto"
		wi[x.line]++
		if inl == 2 {
			wc[x.line]++
		}
	}
	expect("COMMENTS_NO_C_STYLE", "/w/a.proto", run("COMMENTS_NO_C_STYLE", f), wc, 50)
	expect("COMMENTS_NO_INLINE", "/w/a.proto", run("COMMENTS_NO_INLINE", f), wi, 50)
	vp.Reach("ok")
}

// Options and reserved statements at every place of a file with every kind of
// element; the name of any one option is arbitrary in one letter.
//
//vp:harness L08 reach=ok shards=13
func Options() {
	f := fd("/w/a.proto", kindsTmpl, settings.LintConfig{})
	var opts []*node
	wr := map[int]int{}
	for _, y := range walk(f.Proto) {
		if y.kind == "option" {
			opts = append(opts, y)
		}
		if y.kind == "reserved" {
			wr[y.line] = 1
		}
	}
	vp.Assert(len(opts) == 11 && len(wr) == 5, "template has 11 options: "+strconv.Itoa(len(opts)))
	if k := vp.Shard(13); k < 11 {
		x := opts[k]
		c := vp.String("c", ident+".() ", 1, 1)
		*x.name() = []string{"allow_alia" + c, c + "allow_alias", "(allow_alias" + c, "(google.api.http" + c, "(google.api.http)" + c + "get", "(.google.api.http)", "(google.api.htt" + c, "google.api.http)" + c}[vp.Choice("name", 8)]
	}
	wa, wh := map[int]int{}, map[int]int{}
	for _, y := range opts {
		p := y.v.(*proto.Option)
		nm := p.Name
		if y.rpc == nil && hasPrefix(nm, "(.google") {
			vp.Assume(false)
		}
		if y.rpc != nil && (hasPrefix(nm, "(google.api.http)") || hasPrefix(nm, "(.google.api.http)")) {
			wh[y.line] = 1
		}
		if _, ok := p.Parent.(*proto.Enum); ok && nm == "allow_alias" {
			wa[y.line] = 1
		}
	}
	expect("ENUMS_NO_ALLOW_ALIAS", "/w/a.proto", run("ENUMS_NO_ALLOW_ALIAS", f), wa, 50)
	expect("RPC_OPTIONS_NO_GOOGLE_API_HTTP", "/w/a.proto", run("RPC_OPTIONS_NO_GOOGLE_API_HTTP", f), wh, 50)
	expect("FIELDS_NOT_RESERVED", "/w/a.proto", run("FIELDS_NOT_RESERVED", f), wr, 50)
	vp.Reach("ok")
}

// Messages at up to three levels with a field, a map field, a oneof field, a
// nested message, an enum, an option or nothing of their own, of which any may be
// a request or response type.
//
//vp:harness L08 reach=ok shards=48
func NotEmpty() {
	sh := vp.Shard(48)
	ri, ai := sh%6, sh/6
	req := []string{"A", "B", "A.M", "A.M.D", "M", "Other"}[ri]
	src := "syntax = \"proto3\";\nservice S { rpc Do(" + req + ") returns (B); rpc Re(B) returns (A.M.D); }\nmessage A {\nmessage M {\nmessage D {}\n}\n}\nmessage B {}\n"
	f := fd("/w/a.proto", src, settings.LintConfig{})
	src = "syntax = \"proto3\";\nmessage A { int64 x = 1; map<string, int64> x = 1; oneof o { int64 x = 1; } oneof p { option x = 1; } option deprecated = true; enum E { Z = 0; } reserved 1; }"
	parts := fd("/w/b.proto", src, settings.LintConfig{}).Elements[1].(*proto.Message).Elements
	resp := []string{"B", "A.M"}[vp.Choice("resp", 2)]
	second := vp.Bool("second")
	svc := f.Elements[1].(*proto.Service)
	svc.Elements[0].(*proto.RPC).ReturnsType = resp
	if !second {
		svc.Elements = svc.Elements[:1]
	}
	fill := func(m *proto.Message, k int) bool {
		if k < 7 {
			m.Elements = append([]proto.Visitee{parts[k]}, m.Elements...)
		}
		return k < 3
	}
	ma := f.Elements[2].(*proto.Message)
	mm := ma.Elements[0].(*proto.Message)
	md := mm.Elements[0].(*proto.Message)
	mb := f.Elements[3].(*proto.Message)
	fulls := []bool{fill(ma, ai), fill(mm, []int{7, 0, 2, 4 + ri%3}[vp.Choice("m", 4)]), fill(md, []int{7, 1, 3 + ri%4}[vp.Choice("d", 3)]), fill(mb, (ai+3*ri)%8)}
	want := map[int]int{}
	for i, x := range []string{"A", "A.M", "A.M.D", "B"} {
		if req != x && resp != x && !(second && (x == "B" || x == "A.M.D")) && !fulls[i] {
			want[[]int{3, 4, 5, 8}[i]] = 1
		}
	}
	expect("MESSAGES_NOT_EMPTY_EXCEPT_REQUEST_RESPONSE_TYPES", "/w/a.proto", run("MESSAGES_NOT_EMPTY_EXCEPT_REQUEST_RESPONSE_TYPES", f), want, 10)
	vp.Reach("ok")
}
