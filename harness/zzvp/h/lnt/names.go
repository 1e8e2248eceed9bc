package lnt

import (
	"strconv"

	"github.com/emicklei/proto"
	"github.com/uber/prototool/internal/lint"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func lo(b byte) bool { return b >= 'a' && b <= 'z' }
func up(b byte) bool { return b >= 'A' && b <= 'Z' }
func dg(b byte) bool { return b >= '0' && b <= '9' }

const ident = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"

func all(s string, ok func(byte) bool) bool {
	r := len(s) > 0
	for i := 0; i < len(s); i++ {
		r = r && ok(s[i])
	}
	return r
}

func camel(s string) bool {
	return all(s, func(b byte) bool { return lo(b) || up(b) || dg(b) })
}
func capital(s string) bool { return len(s) > 0 && up(s[0]) }
func inner(s string) bool   { return len(s) > 0 && s[0] != '_' && s[len(s)-1] != '_' }
func lowerSnake(s string) bool {
	return inner(s) && all(s, func(b byte) bool { return lo(b) || dg(b) || b == '_' })
}
func upperSnake(s string) bool {
	return inner(s) && all(s, func(b byte) bool { return up(b) || dg(b) || b == '_' })
}
func lower(s string) bool { return all(s, func(b byte) bool { return !up(b) }) }
func upper(s string) bool { return all(s, func(b byte) bool { return !lo(b) }) }

// every kind of element at top level and one, two and three messages deep, one
// element per line, with good and bad names.
const tmpl = `syntax = "proto3";
package foo.bar.v1;
import "google/protobuf/descriptor.proto";
message Good {
  int64 good_one = 1;
  map<string, int64> good_map = 2;
  map<string, int64> Bad_map = 12;
  oneof good_oneof {
    int64 good_two = 3;
    int64 BadTwo = 4;
  }
  message bad_Nested {
    repeated Good good_three = 1;
    enum NestedEnum {
      NESTED_ENUM_INVALID = 0;
      bad_value = 1;
    }
    message Deep {
      int64 good_four = 1;
      enum bad_deep {
        DEEP_INVALID = 0;
      }
      oneof BadOneof {
        int64 good_five = 2;
      }
      message Deeper {
        int64 good_six = 1;
        enum DeeperEnum {
          DEEPER_ONE = 0;
        }
        oneof deep_one {
          int64 deep_oneof_field = 2;
        }
      }
    }
  }
  enum Inner {
    INNER_INVALID = 0;
    INNER_ONE = 1;
  }
  int64 after_nested = 9;
}
enum TopEnum {
  TOP_ENUM_INVALID = 0;
  Top_enum_one = 1;
}
service GoodAPI {
  rpc Do(Req) returns (Req);
  rpc bad_do(stream Req) returns (Req) {
    option deprecated = true;
  }
}
service other_service {
  rpc Again(Req) returns (stream Req);
}
extend google.protobuf.FieldOptions {
  string ext_field = 50000;
}
message Req {
}
`

const tmplLines = 62

type nameRule struct {
	id   string
	kind string
	ok   func(string) bool
}

var nameRules = []nameRule{
	{"MESSAGE_NAMES_CAMEL_CASE", "message", camel},
	{"MESSAGE_NAMES_CAPITALIZED", "message", capital},
	{"ENUM_NAMES_CAMEL_CASE", "enum", camel},
	{"ENUM_NAMES_CAPITALIZED", "enum", capital},
	{"ENUM_FIELD_NAMES_UPPER_SNAKE_CASE", "value", upperSnake},
	{"ENUM_FIELD_NAMES_UPPERCASE", "value", upper},
	{"MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE", "field", lowerSnake},
	{"MESSAGE_FIELD_NAMES_LOWERCASE", "field", lower},
	{"ONEOF_NAMES_LOWER_SNAKE_CASE", "oneof", lowerSnake},
	{"SERVICE_NAMES_CAMEL_CASE", "service", camel},
	{"SERVICE_NAMES_CAPITALIZED", "service", capital},
	{"RPC_NAMES_CAMEL_CASE", "rpc", camel},
	{"RPC_NAMES_CAPITALIZED", "rpc", capital},
}

func (r nameRule) on(x *node) bool {
	return x.kind == r.kind || (r.kind == "field" && x.kind == "mapfield")
}

// named are the elements of the template whose names are checked.
func named(f *lint.FileDescriptor) []*node {
	var out []*node
	for _, x := range walk(f.Proto) {
		switch x.kind {
		case "message", "enum", "value", "field", "mapfield", "oneof", "service", "rpc":
			out = append(out, x)
		}
	}
	return out
}

// A file with 38 named elements of every kind at up to four levels of nesting,
// some names good and some bad, where the name of any one of them is every
// identifier of up to 3 (thorough: 5) characters.
//
//vp:harness L03 reach=ok shards=38
func Names() {
	f := fd("/w/dir/a.proto", tmpl, settings.LintConfig{})
	els := named(f)
	vp.Assert(len(els) == 38, "template has 38 elements: "+strconv.Itoa(len(els)))
	x := els[vp.Shard(38)]
	*x.name() = vp.String("name", ident, 1, n(3, 5))
	for _, r := range nameRules {
		want := map[int]int{}
		for _, y := range els {
			if r.on(y) && !r.ok(*y.name()) {
				want[y.line]++
			}
		}
		if r.on(x) {
			want[x.line] = 0
			if !r.ok(*x.name()) {
				want[x.line] = 1
			}
		}
		expect(r.id, "/w/dir/a.proto", run(r.id, f), want, tmplLines)
	}
	vp.Reach("ok")
}

// Every file name of up to 4 (thorough: 6) characters with and without further
// dots, in two directories, next to a file with a bad name.
//
//vp:harness L03 reach=ok
func FileNames() {
	base := vp.String("base", ident+".-", 1, n(4, 6))
	dir := []string{"/w/", "/w/Bad_Dir.x/"}[vp.Choice("dir", 2)]
	ext := []string{".proto", ""}[vp.Choice("ext", 2)]
	a := &lint.FileDescriptor{Proto: &proto.Proto{Filename: dir + base + ext}, ProtoSet: fd("/w/x.proto", "", settings.LintConfig{}).ProtoSet}
	b := fd("/w/Bad.proto", "", settings.LintConfig{})
	c := fd("/w/good_1.proto", "", settings.LintConfig{})
	stem := base
	if ext == "" {
		for i := len(base) - 1; i >= 0; i-- {
			if base[i] == '.' {
				stem = base[:i]
				break
			}
		}
	}
	var na, nb, nc int
	for _, f := range run("FILE_NAMES_LOWER_SNAKE_CASE", a, b, c) {
		switch f.Filename {
		case "/w/Bad.proto":
			nb++
		case "/w/good_1.proto":
			nc++
		default:
			vp.Assert(f.Filename == dir+base+ext, "FILE_NAMES_LOWER_SNAKE_CASE names the file")
			na++
		}
	}
	vp.Assume(dir+base+ext != "/w/Bad.proto" && dir+base+ext != "/w/good_1.proto")
	vp.Assert(nb == 1 && nc == 0, "FILE_NAMES_LOWER_SNAKE_CASE looks at every file on its own")
	w := 1
	if lowerSnake(stem) {
		w = 0
	}
	vp.Assert(na == w, "FILE_NAMES_LOWER_SNAKE_CASE reports exactly the file names that are not lower_snake_case")
	vp.Reach("ok")
}

// starts says whether a word starts at the capital s[i], i > 0.
func starts(s string, i int) bool {
	return s[i-1] != '_' && (lo(s[i-1]) || i+1 < len(s) && !up(s[i+1]))
}

func snake(s string, conv func(byte) byte) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if i > 0 && up(s[i]) && starts(s, i) {
			out = append(out, '_')
		}
		out = append(out, conv(s[i]))
	}
	return string(out)
}

func lowerB(b byte) byte {
	if up(b) {
		return b + 32
	}
	return b
}

func upperB(b byte) byte {
	if lo(b) {
		return b - 32
	}
	return b
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }
func hasSuffix(s, p string) bool { return len(s) >= len(p) && s[len(s)-len(p):] == p }
func contains(s, p string) bool {
	r := false
	for i := 0; i+len(p) <= len(s); i++ {
		r = r || s[i:i+len(p)] == p
	}
	return r
}

// Messages and enums nested up to three deep, where the name of any one of
// them is every identifier of up to 3 (thorough: 4) characters, and values with
// the full prefix, the enum's own prefix, prefixes without the separator, with a
// level missing or in another case, and with zero and other numbers.
//
//vp:harness L03 reach=ok shards=42
func EnumPrefixes() {
	k := vp.Shard(42)
	f := fd("/w/a.proto", prefixTmpl, settings.LintConfig{})
	x := vp.String("x", "abABz1_", 1, n(3, 4))
	var msgs, enums, values []*node
	for _, y := range walk(f.Proto) {
		switch y.kind {
		case "message":
			msgs = append(msgs, y)
		case "enum":
			enums = append(enums, y)
		case "value":
			values = append(values, y)
		}
	}
	// which message or enum has the arbitrary name
	which := k % 6
	k /= 6
	if which < 3 {
		*msgs[which].name() = x
	} else {
		*enums[which-3].name() = x
	}
	for i, v := range values {
		e := snake(v.enum.Name, upperB)
		full := e
		for j := len(v.outer) - 1; j >= 0; j-- {
			full = snake(v.outer[j].Name, upperB) + "_" + full
		}
		cand := ""
		switch (k + i) % 7 {
		case 0:
			cand = full + "_INVALID"
		case 1:
			cand = e + "_INVALID"
		case 2:
			cand = full + "_ONE"
		case 3:
			cand = full
		case 4:
			cand = e + "INVALID"
		case 5:
			cand = "X_" + full + "_INVALID"
		case 6:
			cand = full + "_INVALID_"
		}
		v.v.(*proto.EnumField).Name = cand
	}
	wp, we := map[int]int{}, map[int]int{}
	wz, wze := map[int]int{}, map[int]int{}
	for _, v := range values {
		ef := v.v.(*proto.EnumField)
		e := snake(v.enum.Name, upperB)
		full := e
		for j := len(v.outer) - 1; j >= 0; j-- {
			full = snake(v.outer[j].Name, upperB) + "_" + full
		}
		if !hasPrefix(ef.Name, full+"_") {
			wp[v.line] = 1
		}
		if !hasPrefix(ef.Name, e+"_") {
			we[v.line] = 1
		}
		if ef.Integer == 0 {
			if ef.Name != full+"_INVALID" {
				wz[v.line] = 1
			}
			if ef.Name != e+"_INVALID" {
				wze[v.line] = 1
			}
		}
	}
	expect("ENUM_FIELD_PREFIXES", "/w/a.proto", run("ENUM_FIELD_PREFIXES", f), wp, 40)
	expect("ENUM_FIELD_PREFIXES_EXCEPT_MESSAGE", "/w/a.proto", run("ENUM_FIELD_PREFIXES_EXCEPT_MESSAGE", f), we, 40)
	expect("ENUM_ZERO_VALUES_INVALID", "/w/a.proto", run("ENUM_ZERO_VALUES_INVALID", f), wz, 40)
	expect("ENUM_ZERO_VALUES_INVALID_EXCEPT_MESSAGE", "/w/a.proto", run("ENUM_ZERO_VALUES_INVALID_EXCEPT_MESSAGE", f), wze, 40)
	vp.Reach("ok")
}

const prefixTmpl = `syntax = "proto3";
package foo;
message OneTwo {
  message Three {
    enum DeepEnum {
      D0 = 0;
      D1 = 1;
    }
    int64 f = 1;
  }
  enum MidEnum {
    option allow_alias = true;
    M1 = 1;
    M0 = 0;
    M00 = 0;
  }
  message Empty {}
}
enum TopEnum {
  T0 = 0;
  T2 = 2;
  T3 = 3;
}
`

// Service names of up to 7 (thorough: 9) characters.
//
//vp:harness L03 reach=ok
func APISuffix() {
	f := fd("/w/a.proto", "syntax = \"proto3\";\npackage a;\nservice One {\n  rpc Do(A) returns (B);\n}\nservice TwoAPI {}\n", settings.LintConfig{})
	s := walk(f.Proto)[2]
	*s.name() = vp.String("s", "APIapiServc", 1, n(7, 9))
	want := map[int]int{3: 1}
	if hasSuffix(*s.name(), "API") {
		want[3] = 0
	}
	expect("SERVICE_NAMES_API_SUFFIX", "/w/a.proto", run("SERVICE_NAMES_API_SUFFIX", f), want, 10)
	vp.Reach("ok")
}

// One or two services, the name of the first being every identifier of up to 4
// (thorough: 5) characters, in a file named after it, after another name or
// with another ending, after a file that has a service of its own.
//
//vp:harness L03 reach=ok
func ServiceFileName() {
	x := vp.String("x", "abABz1_", 1, n(4, 5))
	base := ""
	switch vp.Choice("base", 4) {
	case 0:
		base = snake(x, lowerB) + ".proto"
	case 1:
		base = x + ".proto"
	case 2:
		base = snake(x, lowerB)
	case 3:
		base = "a_" + snake(x, lowerB) + ".proto"
	}
	two := vp.Bool("two")
	src := "syntax = \"proto3\";\npackage a;\nservice One {\n  rpc Do(A) returns (B);\n}\n"
	if two {
		src += "service Two {}\n"
	}
	f := fd("/w/d/a.proto", src, settings.LintConfig{})
	f.Filename = "/w/d/" + base
	*walk(f.Proto)[2].name() = x
	g := fd("/w/d/first_api.proto", "syntax = \"proto3\";\nservice FirstAPI {}\n", settings.LintConfig{})
	want := map[int]int{}
	if two {
		want[3], want[6] = 1, 1
	} else if base != snake(x, lowerB)+".proto" {
		want[3] = 1
	}
	expect("SERVICE_NAMES_MATCH_FILE_NAME", "/w/d/a.proto", run("SERVICE_NAMES_MATCH_FILE_NAME", g, f), want, 10)
	vp.Reach("ok")
}

// Fields, oneof fields and map fields with every name made of up to 2 (thorough:
// 3) parts out of words around the forbidden ones, at two levels.
//
//vp:harness L03 reach=ok shards=8
func FieldWords() {
	f := fd("/w/dir/a.proto", tmpl, settings.LintConfig{})
	var fields []*node
	for _, x := range named(f) {
		if x.kind == "field" || x.kind == "mapfield" {
			fields = append(fields, x)
		}
	}
	x := fields[[]int{0, 1, 3, 5, 7, 9, 10, 11}[vp.Shard(8)]]
	words := []string{"", "file_name", "file_path", "descriptor", "Descriptor", "_", "file", "name", "x", "filename", "DESCRIPTOR_", "file_pat", "fil"}
	s := words[vp.Choice("w0", len(words))] + words[vp.Choice("w1", len(words))]
	if vp.Tier() == 1 {
		s += words[vp.Choice("w2", len(words))]
	}
	*x.name() = s
	want := map[int]int{}
	if contains(s, "file_name") {
		want[x.line] = 1
	}
	expect("MESSAGE_FIELD_NAMES_FILENAME", "/w/dir/a.proto", run("MESSAGE_FIELD_NAMES_FILENAME", f), want, tmplLines)
	want = map[int]int{}
	if contains(s, "file_path") {
		want[x.line] = 1
	}
	expect("MESSAGE_FIELD_NAMES_FILEPATH", "/w/dir/a.proto", run("MESSAGE_FIELD_NAMES_FILEPATH", f), want, tmplLines)
	i, j := 0, len(s)
	for i < j && s[i] == '_' {
		i++
	}
	for i < j && s[j-1] == '_' {
		j--
	}
	low := ""
	for _, b := range []byte(s[i:j]) {
		low += string([]byte{lowerB(b)})
	}
	want = map[int]int{}
	if low == "descriptor" {
		want[x.line] = 1
	}
	expect("MESSAGE_FIELD_NAMES_NO_DESCRIPTOR", "/w/dir/a.proto", run("MESSAGE_FIELD_NAMES_NO_DESCRIPTOR", f), want, tmplLines)
	vp.Reach("ok")
}

const wordTmpl = `syntax = "proto3";
package foo.bar.v1;
option java_package = "common.data.uuid";
option (my_opt) = "uuid";
import "common/data/uuid.proto";
message Good {
  int64 one = 1 [deprecated = true];
  map<Common, Data> two = 2 [(own) = true];
  reserved 50 to 60;
  reserved "old_name", "older_name";
  oneof three {
    Uuid four = 3 [(own) = true];
  }
  message Nested {
    option (nested_opt) = true;
    enum Deep {
      option (deep_opt) = true;
      ZERO = 0 [(own) = "data"];
    }
    message Deeper {
      Data.Common five = 5;
    }
  }
}
enum Top {
  TOP = 0;
}
service Svc {
  option (svc_opt) = true;
  rpc Do(CommonReq) returns (DataResp) {
    option (rpc_opt) = "common";
  }
}
// common data uuid
extend google.protobuf.FieldOptions {
  string own = 50000;
}
`

// Every kind of element that has a name, at any depth, whose name is a
// forbidden word in any case (one letter of it arbitrary) with up to 2 other
// characters around it.
//
//vp:harness L03 reach=ok shards=78
func ForbiddenWords() {
	k := vp.Shard(78)
	f := fd("/w/a.proto", wordTmpl, settings.LintConfig{})
	var els []*node
	for _, x := range walk(f.Proto) {
		if x.kind == "extend" {
			continue
		}
		if x.name() != nil {
			els = append(els, x)
		}
	}
	vp.Assert(len(els) == 26, "template has 26 named elements: "+strconv.Itoa(len(els)))
	x := els[k/3]
	word := []string{"common", "data", "uuid"}[k%3]
	any := vp.String("x", ident, 1, 1)
	i := vp.Choice("pos", len(word)+1)
	s := ""
	for j := range []byte(word) {
		if i == j {
			s += any
		} else if j%2 == 0 {
			s += string([]byte{upperB(word[j])})
		} else {
			s += word[j : j+1]
		}
	}
	s = vp.String("a", "a_D", 0, 1) + s + vp.String("b", "a_D", 0, 1)
	*x.name() = s
	low := ""
	for j := 0; j < len(s); j++ {
		low += string([]byte{lowerB(s[j])})
	}
	for _, w := range []string{"common", "data", "uuid"} {
		want := map[int]int{}
		if contains(low, w) {
			want[x.line] = 1
		}
		id := "NAMES_NO_COMMON"
		if w == "data" {
			id = "NAMES_NO_DATA"
		} else if w == "uuid" {
			id = "NAMES_NO_UUID"
		}
		expect(id, "/w/a.proto", run(id, f), want, 40)
	}
	vp.Reach("ok")
}

// Every package name of up to 5 (thorough: 7) characters, and files without or
// with another package before and after.
//
//vp:harness L03 reach=ok
func PackageNames() {
	g := fd("/w/g.proto", "syntax = \"proto3\";\n", settings.LintConfig{})
	h := fd("/w/h.proto", "syntax = \"proto3\";\npackage good;\n", settings.LintConfig{})
	f := fd("/w/a.proto", "syntax = \"proto3\";\npackage foo;\n", settings.LintConfig{})
	s := vp.String("s", "azAZ09_.", 1, n(5, 7))
	*walk(f.Proto)[1].name() = s
	nodots, dots := "", false
	low := true
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			dots = true
		} else {
			nodots += s[i : i+1]
			low = low && (lo(s[i]) || dg(s[i]))
		}
	}
	_ = dots
	want := map[int]int{}
	if !low {
		want[2] = 1
	}
	expect("PACKAGE_LOWER_CASE", "/w/a.proto", run("PACKAGE_LOWER_CASE", g, f, h), want, 3)
	want = map[int]int{}
	if !lowerSnake(nodots) {
		want[2] = 1
	}
	expect("PACKAGE_LOWER_SNAKE_CASE", "/w/a.proto", run("PACKAGE_LOWER_SNAKE_CASE", h, f, g), want, 3)
	vp.Reach("ok")
}
