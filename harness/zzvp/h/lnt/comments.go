package lnt

import (
	"strconv"

	"github.com/emicklei/proto"
	"github.com/uber/prototool/internal/lint"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/vp"
)

type commentRule struct {
	id       string
	kinds    string
	sentence bool
	except   bool
}

var commentRules = []commentRule{
	{"ENUMS_HAVE_COMMENTS", "enum", false, false},
	{"ENUMS_HAVE_SENTENCE_COMMENTS", "enum", true, false},
	{"ENUM_FIELDS_HAVE_COMMENTS", "value", false, false},
	{"ENUM_FIELDS_HAVE_SENTENCE_COMMENTS", "value", true, false},
	{"MESSAGES_HAVE_COMMENTS", "message", false, false},
	{"MESSAGES_HAVE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES", "message", false, true},
	{"MESSAGES_HAVE_SENTENCE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES", "message", true, true},
	{"MESSAGE_FIELDS_HAVE_COMMENTS", "field", false, false},
	{"MESSAGE_FIELDS_HAVE_SENTENCE_COMMENTS", "field", true, false},
	{"RPCS_HAVE_COMMENTS", "rpc", false, false},
	{"RPCS_HAVE_SENTENCE_COMMENTS", "rpc", true, false},
	{"SERVICES_HAVE_COMMENTS", "service", false, false},
	{"SERVICES_HAVE_SENTENCE_COMMENTS", "service", true, false},
}

func kindOf(x *node) string {
	if x.kind == "mapfield" {
		return "field"
	}
	return x.kind
}

func (x *node) full() string {
	s := ""
	for _, m := range x.outer {
		s += m.Name + "."
	}
	return s + *x.name()
}

func golangStyle(c *proto.Comment, name string) bool {
	return c != nil && len(c.Lines) > 0 && hasPrefix(c.Lines[0], " "+name+" ")
}

func space(b byte) bool { return b == ' ' || b == '\t' }

func sentence(c *proto.Comment) bool {
	if c == nil || len(c.Lines) == 0 {
		return false
	}
	i := 0
	for i < len(c.Lines[0]) && space(c.Lines[0][i]) {
		i++
	}
	if i == len(c.Lines[0]) || !(up(c.Lines[0][i]) || dg(c.Lines[0][i])) {
		return false
	}
	r := false
	for _, l := range c.Lines {
		r = r || contains(l, ".")
	}
	return r
}

// Any one of 38 elements of every kind and depth, with no comment or with one of
// one or two lines of up to 4 characters each (thorough: 5), next to elements
// that have suitable comments, unsuitable ones or none, and request and response
// types that are top-level messages, nested messages or not in the file.
//
//vp:harness L05 reach=ok shards=38
func Comments() {
	f := fd("/w/dir/a.proto", tmpl, settings.LintConfig{})
	els := named(f)
	k := vp.Shard(38)
	x := els[k]
	*x.name() = "Gx"
	for i, y := range els {
		switch (i + k) % 4 {
		case 0:
			*y.comment() = &proto.Comment{Lines: []string{" " + *y.name() + " is.", " x"}}
		case 1:
			*y.comment() = &proto.Comment{Lines: []string{" the " + *y.name()}}
		case 2:
			*y.comment() = &proto.Comment{Lines: []string{"Sentence", " of two lines."}}
		}
	}
	switch l0, l1 := vp.String("l0", " Gx.9\t", 0, n(4, 5)), vp.String("l1", " G.", 0, 2); vp.Choice("lines", 4) {
	case 0:
		*x.comment() = nil
	case 1:
		*x.comment() = &proto.Comment{}
	case 2:
		*x.comment() = &proto.Comment{Lines: []string{l0}}
	case 3:
		*x.comment() = &proto.Comment{Lines: []string{l0, l1}, Cstyle: true}
	}
	types := map[string]bool{}
	used := 0
	for _, y := range els {
		if y.kind == "rpc" {
			r := y.v.(*proto.RPC)
			if used == 0 {
				r.RequestType = []string{"Gx", "Good.Gx", "Good.bad_Nested.Deep.Gx", "Good.bad_Nested.Gx", "Other"}[k%5]
				used++
			} else if used == 1 {
				r.ReturnsType = []string{"Good.bad_Nested", "Req", "Good", "bad_Nested"}[k%4]
				used++
			}
			types[r.RequestType] = true
			types[r.ReturnsType] = true
		}
	}
	for _, r := range commentRules {
		want := map[int]int{}
		for _, y := range els {
			if kindOf(y) != r.kinds || (r.except && types[y.full()]) {
				continue
			}
			c := *y.comment()
			bad := false
			if r.sentence {
				bad = !sentence(c)
			} else {
				bad = !golangStyle(c, *y.name())
			}
			if bad {
				want[y.line] = 1
			}
		}
		expect(r.id, "/w/dir/a.proto", run(r.id, f), want, tmplLines)
	}
	vp.Reach("ok")
}

// One element whose name has a forbidden word and a comment on any one of 26
// elements, whose first or second line has text of up to 2 characters, the
// annotation with one arbitrary character, and again text; with suppression
// allowed or not.
//
//vp:harness L05 reach=ok shards=26
func Suppress() {
	k := vp.Shard(26)
	allow := vp.Bool("allow")
	any := vp.String("x", ident+" -", 1, 1)
	pre, post := vp.String("pre", " x", 0, 2), vp.String("post", " x", 0, 1)
	second := vp.Bool("second")
	ann := []string{"@suppresswarnings " + any + "aming", "@suppresswarnings namin" + any, "@suppresswarnings" + any + "naming", any + "suppresswarnings naming"}[vp.Choice("ann", 4)]
	at := vp.Choice("at", 5)
	f := fd("/w/a.proto", wordTmpl, settings.LintConfig{AllowSuppression: allow})
	var els []*node
	for _, x := range walk(f.Proto) {
		if x.kind == "extend" {
			continue
		}
		if x.name() != nil {
			els = append(els, x)
		}
	}
	vp.Assert(len(els) == 26, "template has 26 named elements: "+strconv.Itoa(len(els)))
	x := els[k]
	*x.name() += "Common"
	// the element itself, its neighbours, the first one and one further away
	y := els[(k+[]int{0, 1, 25, 26 - k, 7}[at])%26]
	lines := []string{pre + ann + post, " x"}
	if second {
		lines = []string{" x", pre + ann + post, " z"}
	}
	*y.comment() = &proto.Comment{Lines: lines}
	quiet := allow && x == y && ann == "@suppresswarnings naming"
	want := map[int]int{x.line: 1}
	if quiet {
		want[x.line] = 0
	}
	expect("NAMES_NO_COMMON", "/w/a.proto", run("NAMES_NO_COMMON", f), want, 40)
	vp.Reach("ok")
}

const annTmpl = `syntax = "proto3";
// @suppresswarnings XXX
package foo.public.v1;
message Foo {
  float one = 1;
  // @suppresswarnings XXX
  float two = 2;
  oneof x {
    // text
    // the @suppresswarnings XXX, really
    float three = 3;
    float four = 4; // @suppresswarnings XXX
  }
  message Bar {
    // @suppresswarnings XXX
    map<string, float> five = 5;
    map<string, float> six = 6;
    // @suppresswarnings XXX
  }
}
// @suppresswarnings XXX

service Svc {
  rpc A(Foo) returns (Foo) {
    option (google.api.http).get = "/a";
  }
  // @suppresswarnings XXX
  rpc B(Foo) returns (Foo) {
    option (.google.api.http) = { get: "/b" };
    option (google.api.http) = { get: "/c" };
  }
  rpc C(Foo) returns (Foo) {
    // @suppresswarnings XXX
    option (google.api.http) = { get: "/c" };
  }
}
`

// Every rule over a file that carries the annotation of any suppressible rule,
// or none, above elements, behind them, inside and after them: only the rule of
// that annotation, and only where suppression is allowed, is silent for exactly
// the elements that carry it.
//
//vp:harness L05 reach=ok shards=8
func Annotations() {
	k := vp.Shard(8)
	word := []string{"floats", "keywords", "google-api-http", "naming"}[k%4]
	allow := k >= 4
	src := ""
	for i := 0; i < len(annTmpl); i++ {
		if hasPrefix(annTmpl[i:], "XXX") {
			src += word
			i += 2
		} else {
			src += annTmpl[i : i+1]
		}
	}
	f := fd("/w/a.proto", src, settings.LintConfig{AllowSuppression: allow})
	on := func(w string) bool { return allow && word == w }
	fl := map[int]int{5: 1, 7: 1, 11: 1, 12: 1, 16: 1, 17: 1}
	if on("floats") {
		fl = map[int]int{5: 1, 12: 1, 17: 1}
	}
	expect("MESSAGE_FIELDS_NOT_FLOATS", "/w/a.proto", run("MESSAGE_FIELDS_NOT_FLOATS", f), fl, 40)
	kw := map[int]int{3: 1}
	if on("keywords") {
		kw[3] = 0
	}
	expect("PACKAGE_NO_KEYWORDS", "/w/a.proto", run("PACKAGE_NO_KEYWORDS", f), kw, 40)
	ht := map[int]int{25: 1, 29: 1, 30: 1, 34: 1}
	if on("google-api-http") {
		ht = map[int]int{25: 1, 34: 1}
	}
	expect("RPC_OPTIONS_NO_GOOGLE_API_HTTP", "/w/a.proto", run("RPC_OPTIONS_NO_GOOGLE_API_HTTP", f), ht, 40)
	// every other rule
	plain := fd("/w/a.proto", src, settings.LintConfig{})
	for _, l := range lint.AllLinters {
		switch l.ID() {
		case "MESSAGE_FIELDS_NOT_FLOATS", "PACKAGE_NO_KEYWORDS", "RPC_OPTIONS_NO_GOOGLE_API_HTTP", "SERVICE_NAMES_NO_PLURALS":
			continue
		}
		a, err := l.Check("/w", []*lint.FileDescriptor{f})
		vp.Assert(err == nil, "linting succeeds")
		b, err := l.Check("/w", []*lint.FileDescriptor{plain})
		vp.Assert(err == nil, "linting succeeds")
		vp.Assert(len(a) == len(b), "no other rule is suppressed")
	}
	vp.Reach("ok")
}
