package lnt

import (
	"github.com/emicklei/proto"
	"github.com/uber/prototool/internal/lint"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// Two services of two and one methods with name, request and response of up to
// 3 letters around the documented form.
//
//vp:harness L07 reach=match,other shards=3
func NamesMatch() {
	id := "REQUEST_RESPONSE_NAMES_MATCH_RPC"
	f := fd("/w/a.proto", "syntax = \"proto3\";\nservice A {\nrpc A(A) returns (A);\nrpc B(B) returns (B) {\n}\n}\nservice B {\nrpc C(C) returns (stream C);\n}\n", settings.LintConfig{})
	at := vp.Shard(3)
	want := map[int]int{}
	i := 0
	for _, x := range walk(f.Proto) {
		if x.kind != "rpc" {
			continue
		}
		rpc := x.v.(*proto.RPC)
		if i == at {
			rpc.Name = vp.String("name", "AbRe", 1, n(2, 3))
			a := vp.String("req", "AbRe.", 0, n(2, 3))
			b := vp.String("resp", "AbRe.", 0, n(2, 3))
			rpc.RequestType = a + "Request"
			rpc.ReturnsType = b + "Response"
			switch vp.Choice("form", 4) {
			case 1:
				rpc.RequestType = a
				a = "!"
			case 2:
				rpc.ReturnsType = b + "response"
				b = "!"
			case 3:
				rpc.RequestType, rpc.ReturnsType = rpc.ReturnsType, rpc.RequestType
				a, b = "!", "!"
			}
			if a != rpc.Name {
				want[x.line]++
			}
			if b != rpc.Name {
				want[x.line]++
			}
			if a == rpc.Name && b == rpc.Name {
				vp.Reach("match")
			} else {
				vp.Reach("other")
			}
		} else {
			rpc.RequestType, rpc.ReturnsType = rpc.Name+"Request", rpc.Name+"Response"
			if vp.Bool("bad" + string(rune('0'+i))) {
				rpc.RequestType = "X"
				want[x.line]++
			}
		}
		i++
	}
	expect(id, "/w/a.proto", run(id, f), want, 10)
}

// Two files with two services of two and one methods, of which each request and
// response type is any of three (thorough: five) names.
//
//vp:harness L07 reach=shared,unique shards=9
func Unique() {
	id := "REQUEST_RESPONSE_TYPES_UNIQUE"
	src := "syntax = \"proto3\";\nservice A {\nrpc A(A) returns (A);\nrpc B(B) returns (B) {\n}\n}\nservice B {\nrpc C(stream C) returns (C);\n}\n"
	names := []string{"A", "a.A", "B", "C.A", "BB"}
	sh := vp.Shard(9)
	want := map[string]map[int]int{}
	var fds []*lint.FileDescriptor
	for _, file := range []string{"/w/a.proto", "/w/b.proto"} {
		f := fd(file, src, settings.LintConfig{})
		w := map[int]int{}
		var seen []string
		use := func(line int, s string) {
			dup := false
			for _, t := range seen {
				dup = dup || t == s
			}
			if dup {
				w[line]++
				vp.Reach("shared")
			} else {
				vp.Reach("unique")
			}
			seen = append(seen, s)
		}
		l := file[3:4]
		k := 0
		pick := func() string {
			k++
			if k == 1 {
				return names[sh%3]
			}
			if k == 4 {
				return names[sh/3]
			}
			m := n(3, 5)
			if l == "b" {
				m = 2
			}
			return names[vp.Choice(l+string(rune('0'+k)), m)]
		}
		for _, x := range walk(f.Proto) {
			if x.kind != "rpc" {
				continue
			}
			rpc := x.v.(*proto.RPC)
			rpc.RequestType, rpc.ReturnsType = pick(), pick()
			use(x.line, rpc.RequestType)
			use(x.line, rpc.ReturnsType)
		}
		want[file] = w
		fds = append(fds, f)
	}
	expectFiles(id, run(id, fds...), want, 10)
}

const typesTmpl = `syntax = "proto3";
message A {
  message B {
    message C {
    }
  }
  message D {
  }
}
service S {
  rpc One(A) returns (A);
  rpc Two(A) returns (A) {
    option deprecated = true;
  }
}
message B {
}
enum F {
  F_INVALID = 0;
}
message E {
  int64 x = 1;
  enum G {
    G_INVALID = 0;
  }
  map<string, A> m = 2;
}
service T {
  rpc Three(stream A) returns (stream A);
}
message H {
}
`

const typesLines = 32

var typeNames = []string{"A", "B", "A.B", "E", "A.B.C", "A.D", "H", "F", "C", "foo.A", "D", "B.C", "E.G", "X"}

func typesFile(name string) (*lint.FileDescriptor, []*node) {
	f := fd(name, typesTmpl, settings.LintConfig{})
	var rpcs []*node
	for _, x := range walk(f.Proto) {
		if x.kind == "rpc" {
			rpcs = append(rpcs, x)
		}
	}
	return f, rpcs
}

// pickTypes chooses request and response types of three methods: all
// combinations for one of them, and for the others one type each of six.
func pickTypes(sh int, rpcs []*node) {
	for i, x := range rpcs {
		rpc := x.v.(*proto.RPC)
		l := string(rune('0' + i))
		if i == sh%3 {
			rpc.RequestType = typeNames[sh/3]
			rpc.ReturnsType = typeNames[vp.Choice("resp"+l, len(typeNames))]
		} else {
			rpc.RequestType = typeNames[(i+sh)%2*6+1]
			rpc.ReturnsType = typeNames[vp.Choice("resp"+l, n(4, 8))]
		}
	}
}

// Three methods of two services with types among fourteen names, defined at top
// level before and after the service, nested up to two deep, or not defined.
//
//vp:harness L07 reach=ok shards=42
func InSameFile() {
	id := "REQUEST_RESPONSE_TYPES_IN_SAME_FILE"
	f, rpcs := typesFile("/w/a.proto")
	pickTypes(vp.Shard(42), rpcs)
	top := map[string]bool{"A": true, "B": true, "E": true, "H": true}
	want := map[int]int{}
	for _, x := range rpcs {
		rpc := x.v.(*proto.RPC)
		if !top[rpc.RequestType] {
			want[x.line]++
		}
		if !top[rpc.ReturnsType] {
			want[x.line]++
		}
	}
	// a second file that defines nothing of the first
	g := fd("/w/b.proto", "syntax = \"proto3\";\nservice S {\nrpc A(A) returns (Own);\n}\nmessage Own {}\n", settings.LintConfig{})
	expectFiles(id, run(id, f, g), map[string]map[int]int{"/w/a.proto": want, "/w/b.proto": {3: 1}}, typesLines)
	vp.Reach("ok")
}

// The same files: order of services, requests and responses.
//
//vp:harness L07 reach=ok shards=42 order=any
func AfterService() {
	id := "REQUEST_RESPONSE_TYPES_AFTER_SERVICE"
	f, rpcs := typesFile("/w/a.proto")
	pickTypes(vp.Shard(42), rpcs)
	line := map[string]int{}
	for _, x := range walk(f.Proto) {
		if x.kind == "message" && len(x.outer) == 0 {
			line[*x.name()] = x.line
		}
	}
	want := map[int]int{}
	for _, x := range rpcs {
		rpc := x.v.(*proto.RPC)
		q, p := line[rpc.RequestType], line[rpc.ReturnsType]
		if q != 0 && q < x.line {
			want[q]++
		}
		if p != 0 && p < x.line {
			want[p]++
		}
		if q != 0 && p != 0 && p < q {
			want[p]++
		}
	}
	// a second file without the messages of the first
	g := fd("/w/b.proto", "syntax = \"proto3\";\nmessage B {}\nmessage Z {}\nservice S {\nrpc A(A) returns (Z);\n}\n", settings.LintConfig{})
	expectFiles(id, run(id, f, g), map[string]map[int]int{"/w/a.proto": want, "/w/b.proto": {3: 1}}, typesLines)
	vp.Reach("ok")
}

// The same files, with and without their services: other types in the file.
//
//vp:harness L07 reach=services,none shards=42 order=any
func OnlyInFile() {
	id := "REQUEST_RESPONSE_TYPES_ONLY_IN_FILE"
	f, rpcs := typesFile("/w/a.proto")
	pickTypes(vp.Shard(42), rpcs)
	drop := vp.Choice("drop", 3)
	if drop > 0 {
		var keep []proto.Visitee
		for _, e := range f.Elements {
			if s, ok := e.(*proto.Service); ok && (drop == 2 || s.Name == "T") {
				if drop == 2 {
					continue
				}
				s.Elements = nil
			}
			keep = append(keep, e)
		}
		f.Elements = keep
		rpcs = rpcs[:2]
		if drop == 2 {
			rpcs = nil
		}
	}
	want := map[int]int{}
	if len(rpcs) > 0 {
		vp.Reach("services")
		used := map[string]bool{}
		for _, x := range rpcs {
			rpc := x.v.(*proto.RPC)
			used[rpc.RequestType] = true
			used[rpc.ReturnsType] = true
		}
		for _, x := range walk(f.Proto) {
			if len(x.outer) == 0 && (x.kind == "enum" || x.kind == "message" && !used[*x.name()]) {
				want[x.line]++
			}
		}
	} else {
		vp.Reach("none")
	}
	// a second file with types of its own and no service
	g := fd("/w/b.proto", "syntax = \"proto3\";\nmessage B {}\nmessage Z {}\nenum S { S_INVALID = 0; }\n", settings.LintConfig{})
	expectFiles(id, run(id, g, f), map[string]map[int]int{"/w/a.proto": want, "/w/b.proto": {}}, typesLines)
	vp.Reach("ok")
}
