// Package rpcs has harnesses for the command grpc.
package rpcs

import (
	"bytes"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"

	"github.com/uber/prototool/internal/cmd"
	"github.com/uber/prototool/internal/grpc"
	"github.com/uber/prototool/internal/zzvp/rpc"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func setOf(l ...*descriptor.FileDescriptorProto) string {
	b, err := proto.Marshal(&descriptor.FileDescriptorSet{File: l})
	if err != nil {
		panic(err)
	}
	return string(b)
}

func method(name string, client, server bool) *descriptor.MethodDescriptorProto {
	return &descriptor.MethodDescriptorProto{
		Name: proto.String(name), InputType: proto.String(".p.M"), OutputType: proto.String(".p.M"),
		ClientStreaming: proto.Bool(client), ServerStreaming: proto.Bool(server),
	}
}

// setup makes a/a.proto, with service S of package p.v1 and methods U, C, S and
// B for the four kinds, and b/b.proto, which it imports, with the messages and
// service S with method U of package p.
func setup() {
	vfs.File("w/a/a.proto", "syntax = \"proto3\";")
	vfs.File("w/b/b.proto", "syntax = \"proto3\";")
	b := &descriptor.FileDescriptorProto{
		Name: proto.String("b/b.proto"), Package: proto.String("p"), Syntax: proto.String("proto3"),
		MessageType: []*descriptor.DescriptorProto{{Name: proto.String("M"), Field: []*descriptor.FieldDescriptorProto{{
			Name: proto.String("f"), Number: proto.Int32(1), JsonName: proto.String("f"),
			Label: descriptor.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descriptor.FieldDescriptorProto_TYPE_STRING.Enum(),
		}}}},
		Service: []*descriptor.ServiceDescriptorProto{{Name: proto.String("S"), Method: []*descriptor.MethodDescriptorProto{method("U", false, false)}}},
	}
	a := &descriptor.FileDescriptorProto{
		Name: proto.String("a/a.proto"), Package: proto.String("p.v1"), Syntax: proto.String("proto3"), Dependency: []string{"b/b.proto"},
		Service: []*descriptor.ServiceDescriptorProto{{Name: proto.String("S"), Method: []*descriptor.MethodDescriptorProto{
			method("U", false, false), method("C", true, false), method("S", false, true), method("B", true, true),
		}}},
	}
	vfs.Program("bin/protoc", vfs.Rule{Match: "/w/a/a.proto", Out: setOf(b, a)}, vfs.Rule{Match: "/w/b/b.proto", Out: setOf(b)})
	vfs.Dir("wkt/google/protobuf")
	vfs.Setenv("PROTOTOOL_PROTOC_BIN_PATH", vfs.Path("bin/protoc"))
	vfs.Setenv("PROTOTOOL_PROTOC_WKT_PATH", vfs.Path("wkt"))
	vfs.Chdir("w")
}

// do runs the command; it gives the status and the output.
func do(in string, args ...string) (int, string) {
	out := &bytes.Buffer{}
	n := cmd.Do(append([]string{"grpc"}, args...), strings.NewReader(in), out, &bytes.Buffer{})
	return n, out.String()
}

// calls are those of the servers, "-" when there were none.
func calls() string {
	if len(rpc.Calls()) == 0 {
		return "-"
	}
	return strings.Join(rpc.Calls(), ";")
}

// Twelve names of methods, of which some are not of the form service/method, for all, one or the other of two directories, or a file.
//
//vp:harness G01 reach=called,error merge=off
func Methods() {
	setup()
	addr := "unix://" + rpc.Serve("sock", "unix", false)
	names := []string{
		"p.v1.S/U", ".p.v1.S/U", "p.S/U", "p.v1.S.U", "p.v1.S/", "/p.v1.S/U", "p.v1.S/U/", "/U", "p.v1.S/X", "p.v1/U", "p.v1.S", "p.v1.SX/U",
	}
	n := vp.Choice("method", len(names))
	in := vp.Choice("input", 5)
	args := []string{"--address", addr, "--method", names[n], "--data", `{"f":"x"}`}
	if in > 0 {
		args = append(args, []string{".", "a", "b", "a/a.proto"}[in-1])
	}
	status, out := do("", args...)
	want := "-"
	switch {
	case n < 2 && in != 3:
		want = "sock p.v1.S/U(x) 1"
	case n == 2:
		want = "sock p.S/U(x) 1"
	}
	vp.Assert(calls() == want, "the method is called if it is there, and nothing else")
	if want == "-" {
		vp.Assert(status != 0, "a method that is not there is an error")
		vp.Reach("error")
	} else {
		vp.Assert(status == 0 && out == "{\"f\":\"x\"}\n", "the answer is printed")
		vp.Reach("called")
	}
}

// Any name of a method of up to seven bytes over five (eight thorough), for packages and services with names of one byte.
//
//vp:harness G01 reach=called,error merge=off
func Names() {
	vfs.Dir("w")
	addr := "unix://" + rpc.Serve("sock", "unix", false)
	file := func(name, pkg, service string) *descriptor.FileDescriptorProto {
		return &descriptor.FileDescriptorProto{
			Name: proto.String(name), Package: proto.String(pkg), Syntax: proto.String("proto3"),
			MessageType: []*descriptor.DescriptorProto{{Name: proto.String("M")}},
			Service: []*descriptor.ServiceDescriptorProto{{Name: proto.String(service), Method: []*descriptor.MethodDescriptorProto{
				{Name: proto.String("U"), InputType: proto.String("." + pkg + ".M"), OutputType: proto.String("." + pkg + ".M")},
			}}},
		}
	}
	sets := []*descriptor.FileDescriptorSet{
		{File: []*descriptor.FileDescriptorProto{file("1", "a", "b"), file("2", "a.b", "a")}},
		{File: []*descriptor.FileDescriptorProto{file("3", "b", "b")}},
	}
	name := vp.String("name", "ab./U", 0, 7+vp.Tier())
	err := grpc.NewHandler().Invoke(sets, addr, name, strings.NewReader("{}"), &bytes.Buffer{})
	want := "-"
	for _, n := range []string{"a.b/U", "a.b.a/U", "b.b/U"} {
		if name == n || name == "."+n {
			want = "sock " + n + "() 1"
		}
	}
	vp.Assert(calls() == want && (err == nil) == (want != "-"), "the method of that name is called, or there is an error")
	if err == nil {
		vp.Reach("called")
	} else {
		vp.Reach("error")
	}
}

// Up to two messages of four, or texts that are none, with --data or --stdin, for methods of the four kinds, with and without details.
//
//vp:harness G01 reach=answer,details,status,error merge=off
func Data() {
	setup()
	addr := rpc.Serve("sock", "unix", false)
	kind := []string{"U", "C", "S", "B"}[vp.Choice("kind", 4)]
	data, all, bad, count := "", "", false, 0
	var in []string
	for i := 0; i < 2; i++ {
		k := vp.Choice("message "+[]string{"1", "2"}[i], 8)
		t := []string{"", `{"f":"x"}`, `{}`, `{"f":"fail"}`, `{`, `[]`, `{"g":"x"}`, `{"f":"yy"}`}[k]
		if t == "" {
			continue
		}
		// after a text that cannot be read nothing matters
		vp.Assume(!bad)
		data += " " + t + "\n"
		bad = bad || k >= 4 && k <= 6
		v := []string{"", "x", "", "fail", "", "", "", "yy"}[k]
		all += v
		in = append(in, v)
		count++
	}
	bad = bad || count > 1 && (kind == "U" || kind == "S")
	args := []string{"--address=unix://" + addr, "--method=p.v1.S/" + kind}
	stdin := ""
	if vp.Bool("stdin") {
		args = append(args, "--stdin")
		stdin = data
	} else {
		vp.Assume(data != "")
		args = append(args, "--data="+data)
	}
	details := vp.Bool("details")
	if details {
		args = append(args, "--details")
	}
	status, out := do(stdin, append(args, "a")...)
	if bad {
		vp.Assert(status != 0 && calls() == "-", "data that is not one message, or several where one is meant, is an error")
		vp.Reach("error")
		return
	}
	vp.Assert(calls() == "sock p.v1.S/"+kind+"("+strings.Join(in, ",")+") 1", "the messages are sent in order")
	var want []string
	answer := func(s string) {
		s = "{\"f\":\"" + s + "\"}"
		if details {
			s = "{\"response\":" + s + "}"
		}
		if !strings.Contains(s, "\"\"") {
			want = append(want, s)
		}
	}
	if details {
		want = append(want, `{"headers":{"content-type":["application/grpc"],"h":["1"]}}`)
	}
	failed := strings.HasPrefix(all, "fail")
	switch {
	case failed:
		if details {
			want = append(want, `{"status":{"code":5,"message":"no"}}`)
		}
		vp.Reach("status")
	case kind == "S" || kind == "B":
		answer("s" + all)
		answer(all)
	default:
		answer(all)
	}
	if details {
		want = append(want, `{"trailers":{"t":["1"]}}`)
		vp.Reach("details")
	} else {
		vp.Reach("answer")
	}
	vp.Assert((status != 0) == failed, "the status of the call is that of the command")
	vp.Assert(strings.HasPrefix(out, strings.Join(append(want, ""), "\n")), "the answers are printed in order, and what else is asked for")
	if !failed {
		vp.Assert(out == strings.Join(append(want, ""), "\n"), "only the answers are printed")
	}
}

// Up to two headers of eight (three thorough), which may be of one name, in two ways to write the flag.
//
//vp:harness G01 reach=called,error merge=off
func Headers() {
	setup()
	addr := rpc.Serve("sock", "unix", false)
	args := []string{"--address=unix://" + addr, "--method=p.v1.S/U", "--data={}"}
	bad := false
	values := map[string][]string{}
	n := vp.Choice("headers", 3+vp.Tier())
	for i := 0; i < n; i++ {
		k := vp.Choice("header "+[]string{"1", "2", "3"}[i], 8)
		h := []string{"x-a:1", "x-a:2", "X-A:3", "x-b:4", "x-b: 5:6 ", "x-c:", "x-c", "x-ab:7"}[k]
		if vp.Bool("long " + []string{"1", "2", "3"}[i]) {
			args = append(args, "--header="+h)
		} else {
			args = append(args, "-H", h)
		}
		if k == 6 {
			bad = true
			continue
		}
		name, v := []string{"x-a", "x-a", "x-a", "x-b", "x-b", "x-c", "", "x-ab"}[k], []string{"1", "2", "3", "4", "5:6", "", "", "7"}[k]
		values[name] = append(values[name], v)
	}
	status, _ := do("", append(args, "a")...)
	if bad {
		vp.Assert(status != 0 && calls() == "-", "a header without a value is an error")
		vp.Reach("error")
		return
	}
	want := "sock p.v1.S/U()"
	for _, k := range []string{"x-a", "x-ab", "x-b", "x-c"} {
		if l := values[k]; len(l) > 0 {
			want += " " + k + ":" + strings.Join(l, "|")
		}
	}
	vp.Assert(status == 0 && calls() == want+" 1", "all headers are sent, in order")
	vp.Reach("called")
}

// Thirteen forms of addresses, for two servers at a socket and a port.
//
//vp:harness G01 reach=called,error merge=off
func Addresses() {
	setup()
	sock, port := rpc.Serve("sock", "unix", false), rpc.Serve("port", "tcp", false)
	forms := []string{
		"unix://" + sock, port, "tcp://" + port, sock, "unix:" + sock, "udp://" + port, "://" + port, "http://" + port, "UNIX://" + sock, "unix://tcp://" + port, "tcp://tcp://" + port, "unix://" + sock + "x", "",
	}
	n := vp.Choice("address", len(forms))
	args := []string{"--method=p.v1.S/U", "--data={}", "--connect-timeout=1s"}
	if n > 0 || vp.Bool("given") {
		args = append(args, "--address="+forms[n])
	} else {
		n = len(forms) - 1
	}
	status, _ := do("", append(args, "a")...)
	want := "-"
	if n < 3 {
		want = []string{"sock", "port", "port"}[n] + " p.v1.S/U() 1"
	}
	vp.Assert(calls() == want && (status == 0) == (n < 3), "the server of the address is called, or there is an error")
	if n < 3 {
		vp.Reach("called")
	} else {
		vp.Reach("error")
	}
}

// Each of address, method, data and stdin given or not, and eight forms of each of the timeouts.
//
//vp:harness G01 reach=called,error merge=off
func Required() {
	setup()
	addr := rpc.Serve("sock", "unix", false)
	var args []string
	a, m, d, s := vp.Bool("address"), vp.Bool("method"), vp.Bool("data"), vp.Bool("stdin")
	if a {
		args = append(args, "--address=unix://"+addr)
	}
	if m {
		args = append(args, "--method=p.v1.S/U")
	}
	if d {
		args = append(args, "--data={}")
	}
	if s {
		args = append(args, "--stdin")
	}
	bad, minutes := !a || !m || d == s, "1"
	k := vp.Choice("timeout", 8)
	vp.Assume(!bad || k == 0)
	if k > 0 {
		t := []string{"", "x", "5", "1h", "90m", "1h30m1s", "10m0s", "-"}[k]
		bad = bad || k == 1 || k == 2 || k == 7
		f := vp.Choice("flag", 3)
		args = append(args, "--"+[]string{"call-timeout", "connect-timeout", "keepalive-time"}[f]+"="+t)
		if f == 0 {
			minutes = []string{"", "", "", "60", "90", "91", "10", ""}[k]
		}
	}
	status, _ := do("{}", append(args, "a")...)
	if bad {
		vp.Assert(status != 0 && calls() == "-", "what is missing, given twice or not a time is an error")
		vp.Reach("error")
		return
	}
	vp.Assert(status == 0 && calls() == "sock p.v1.S/U() "+minutes, "the call is made with the given time")
	vp.Reach("called")
}

// Every combination of the flags for TLS, with files that are there and fine, missing, or without certificate, for a server with TLS and one without.
//
//vp:harness G01 reach=plain,insecure,trusted,invalid,rejected merge=off
func TLS() {
	setup()
	secure := vp.Bool("secure server")
	addr := rpc.Serve("sock", "unix", secure)
	vfs.File("cert", rpc.Certificate())
	vfs.File("key", rpc.Key())
	vfs.File("w/bad", "nothing")
	args := []string{"--address=unix://" + addr, "--method=p.v1.S/U", "--data={}", "--connect-timeout=1s", "a"}
	tls, insecure, broken := vp.Bool("tls"), vp.Bool("insecure"), false
	if tls {
		args = append(args, "--tls")
	}
	if insecure {
		args = append(args, "--insecure")
	}
	file := func(flag, good string) bool {
		n := vp.Choice(flag, 4)
		if n > 0 {
			args = append(args, "--"+flag+"="+[]string{vfs.Path(good), "bad", "nowhere"}[n-1])
		}
		broken = broken || n > 1
		return n > 0
	}
	cacert, cert, key := file("cacert", "cert"), file("cert", "cert"), file("key", "key")
	name := vp.Choice("name", 3)
	if name > 0 {
		args = append(args, "--server-name="+[]string{rpc.Name, "other.test"}[name-1])
	}
	status, _ := do("", args...)
	ok := false
	switch given := cacert || cert || key || name > 0; {
	case !tls && (insecure || given), tls && insecure && given, cert != key:
		vp.Reach("invalid")
	case !tls:
		ok = !secure
		vp.Reach("plain")
	case insecure:
		ok = secure
		vp.Reach("insecure")
	case broken || !cacert || name != 1 || !secure:
		vp.Reach("rejected")
	default:
		ok = true
		vp.Reach("trusted")
	}
	want := "-"
	if ok {
		want = "sock p.v1.S/U() 1"
	}
	vp.Assert(calls() == want && (status == 0) == ok, "the server is called if its certificate is trusted as the flags say, and else there is an error")
}
