// Package brk has harnesses for breaking change detection, from descriptor
// sets through reflect and extract to the failures of breaking.Runner.
package brk

import (
	"strings"

	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/uber/prototool/internal/breaking"
	"github.com/uber/prototool/internal/extract"
	"github.com/uber/prototool/internal/reflect"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/text"
	"github.com/uber/prototool/internal/zzvp/vp"
)

type (
	file    = descriptor.FileDescriptorProto
	msg     = descriptor.DescriptorProto
	fld     = descriptor.FieldDescriptorProto
	enum    = descriptor.EnumDescriptorProto
	value   = descriptor.EnumValueDescriptorProto
	service = descriptor.ServiceDescriptorProto
	method  = descriptor.MethodDescriptorProto
)

func str(s string) *string { return &s }
func i32(n int32) *int32   { return &n }
func bl(b bool) *bool      { return &b }

func set(files ...*file) *extract.PackageSet {
	r, err := reflect.NewPackageSet(&descriptor.FileDescriptorSet{File: files})
	vp.Assert(err == nil, "a valid descriptor set is reflected")
	x, err := extract.NewPackageSet(r)
	vp.Assert(err == nil, "a reflected package set is extracted")
	return x
}

func run(cfg settings.BreakConfig, from, to []*file) []*text.Failure {
	f, err := breaking.NewRunner().Run(cfg, set(from...), set(to...))
	vp.Assert(err == nil, "the detector gives no system error")
	return f
}

func count(fs []*text.Failure, id string) int {
	n := 0
	for _, f := range fs {
		if f.LintID == id {
			n++
		}
	}
	return n
}

func has(fs []*text.Failure, id string, parts ...string) bool {
	r := false
	for _, f := range fs {
		if f.LintID == id {
			ok := true
			for _, p := range parts {
				if !strings.Contains(f.Message, p) {
					ok = false
				}
			}
			if ok {
				r = true
			}
		}
	}
	return r
}

func q(s string) string { return "\"" + s + "\"" }

func digit(n int32) string { return q(string([]byte{byte('0' + n)})) }

func file1(name, pkg string) *file { return &file{Name: str(name), Package: str(pkg)} }

// ---- fields ----

type fspec struct {
	num   int32
	name  string
	typ   int32
	label int32
	tname string
	oneof int // -1 none
}

func (f fspec) named() bool { return f.typ == 10 || f.typ == 11 || f.typ == 14 }

func fieldMsg(name string, fs []fspec, oneofs []string) *msg {
	m := &msg{Name: str(name)}
	for _, o := range oneofs {
		m.OneofDecl = append(m.OneofDecl, &descriptor.OneofDescriptorProto{Name: str(o)})
	}
	for _, f := range fs {
		d := &fld{Name: str(f.name), Number: i32(f.num)}
		t := descriptor.FieldDescriptorProto_Type(f.typ)
		d.Type = &t
		l := descriptor.FieldDescriptorProto_Label(f.label)
		d.Label = &l
		if f.tname != "" {
			d.TypeName = str(f.tname)
		}
		if f.oneof >= 0 {
			d.OneofIndex = i32(int32(f.oneof))
		}
		m.Field = append(m.Field, d)
	}
	return m
}

// place wraps message m at a depth: top level, nested once, nested twice.
func place(m *msg, depth int) (*msg, string) {
	if depth == 0 {
		return m, "p.v1.M"
	}
	if depth == 1 {
		return &msg{Name: str("Q"), NestedType: []*msg{m}}, "p.v1.Q.M"
	}
	return &msg{Name: str("R"), NestedType: []*msg{{Name: str("Q"), NestedType: []*msg{m}}}}, "p.v1.R.Q.M"
}

type exp struct{ del, name, typ, label int }

// checkFields compares the failures with the reference for one message.
func checkFields(fs []*text.Failure, full string, from, to []fspec) {
	e := exp{}
	for _, f := range from {
		found := false
		for _, t := range to {
			if f.num != t.num {
				continue
			}
			found = true
			if f.name != t.name {
				e.name++
				vp.Assert(has(fs, "MESSAGE_FIELDS_SAME_NAME", digit(f.num), q(full), q(f.name), q(t.name)), "a renamed field is reported")
			}
			if f.label != t.label {
				e.label++
				vp.Assert(has(fs, "MESSAGE_FIELDS_SAME_LABEL", digit(f.num), q(full)), "a changed label is reported")
			}
			if f.typ != t.typ || f.tname != t.tname {
				e.typ++
				vp.Assert(has(fs, "MESSAGE_FIELDS_SAME_TYPE", digit(f.num), q(full)), "a changed type is reported")
			}
		}
		if !found {
			e.del++
			vp.Assert(has(fs, "MESSAGE_FIELDS_NOT_DELETED", digit(f.num), q(full)), "a deleted field is reported")
		}
	}
	vp.Assert(count(fs, "MESSAGE_FIELDS_SAME_NAME") == e.name, "only renamed fields are reported as renamed")
	vp.Assert(count(fs, "MESSAGE_FIELDS_SAME_LABEL") == e.label, "only relabelled fields are reported as relabelled")
	vp.Assert(count(fs, "MESSAGE_FIELDS_SAME_TYPE") == e.typ, "only retyped fields are reported as retyped")
	vp.Assert(count(fs, "MESSAGE_FIELDS_NOT_DELETED") == e.del, "only deleted fields are reported as deleted")
	vp.Assert(len(fs) == e.del+e.name+e.typ+e.label, "nothing else is reported")
	vp.ObserveInt("n", len(fs))
}

func runMsg(from, to *msg, d int) ([]*text.Failure, string) {
	a, full := place(from, d)
	b, _ := place(to, d)
	f := file1("a.proto", "p.v1")
	f.MessageType = []*msg{a}
	t := file1("b.proto", "p.v1")
	t.MessageType = []*msg{b}
	return run(settings.BreakConfig{}, []*file{f}, []*file{t}), full
}

func oneField(p string, hi int32) fspec {
	f := fspec{oneof: -1}
	f.num = vp.Int32(p+"num", 1, hi)
	f.name = vp.String(p+"name", "abc", 1, 1)
	f.typ = vp.Int32(p+"typ", 1, 18)
	f.label = vp.Int32(p+"label", 1, 3)
	if f.named() {
		f.tname = ".t.v1." + vp.String(p+"tname", "AB", 1, 1)
	}
	return f
}

// A message at nesting depth 0 to 2 with one field before and one after: numbers 1..2, one-letter names, all 18 types with two type names, all 3 labels.
//
//vp:harness B02 reach=end shards=3
func FieldAttrs() {
	d := vp.Shard(3)
	f, t := oneField("f", 2), oneField("t", 2)
	fs, full := runMsg(fieldMsg("M", []fspec{f}, nil), fieldMsg("M", []fspec{t}, nil), d)
	checkFields(fs, full, []fspec{f}, []fspec{t})
	vp.Reach("end")
}

func nameField(p string, hi int32) fspec {
	f := fspec{oneof: -1, typ: 5, label: 1}
	f.num = vp.Int32(p+"num", 1, hi)
	f.name = vp.String(p+"name", "abcd", 1, 1)
	return f
}

// A message with 0 to 2 fields before and 0 to 2 after: numbers 1..9, one-letter names, so renumbering, renaming, swapping and deleting all occur.
//
//vp:harness B02 reach=end shards=9 weight=3
func FieldNames() {
	sh := vp.Shard(9)
	var from, to []fspec
	for i := 0; i < sh/3; i++ {
		from = append(from, nameField("f"+string(rune('0'+i)), 9))
	}
	for i := 0; i < sh%3; i++ {
		to = append(to, nameField("t"+string(rune('0'+i)), 9))
	}
	for _, l := range [][]fspec{from, to} {
		if len(l) == 2 {
			vp.Assume(l[0].num != l[1].num && l[0].name != l[1].name)
		}
	}
	fs, full := runMsg(fieldMsg("M", from, nil), fieldMsg("M", to, nil), 0)
	checkFields(fs, full, from, to)
	vp.Reach("end")
}

// A message with fields 1 and 2 and oneofs o and p; membership of each field before and after is arbitrary, and either oneof may be missing on a side when it is empty there.
//
//vp:harness B02 reach=end shards=4
func Oneofs() {
	sh := vp.Shard(4)
	names := []string{"o", "p"}
	var om [2][2]int // side, field -> oneof index or -1
	var decl [2][2]bool
	for s := 0; s < 2; s++ {
		for i := 0; i < 2; i++ {
			om[s][i] = vp.Choice("m"+string(rune('0'+s))+string(rune('0'+i)), 3) - 1
		}
	}
	decl[0] = [2]bool{sh&1 == 0, sh&2 == 0}
	decl[1] = [2]bool{vp.Bool("d0"), vp.Bool("d1")}
	var ms [2]*msg
	for s := 0; s < 2; s++ {
		var fs []fspec
		var ds []string
		idx := [2]int{-1, -1}
		for o := 0; o < 2; o++ {
			if om[s][0] == o || om[s][1] == o {
				decl[s][o] = true // protoc has no empty oneofs, but a descriptor may
			}
			if decl[s][o] {
				idx[o] = len(ds)
				ds = append(ds, names[o])
			}
		}
		for i := 0; i < 2; i++ {
			f := fspec{num: int32(i + 1), name: string(rune('a' + i)), typ: 9, label: 1, oneof: -1}
			if om[s][i] >= 0 {
				f.oneof = idx[om[s][i]]
			}
			fs = append(fs, f)
		}
		ms[s] = fieldMsg("M", fs, ds)
	}
	fs, full := runMsg(ms[0], ms[1], 0)
	into, rem, del := 0, 0, 0
	for o := 0; o < 2; o++ {
		if decl[0][o] && !decl[1][o] {
			del++
			vp.Assert(has(fs, "MESSAGE_ONEOFS_NOT_DELETED", q(names[o]), q(full)), "a deleted oneof is reported")
		}
		for i := 0; i < 2; i++ {
			if om[0][i] == o && om[1][i] != o && decl[1][o] {
				rem++
				vp.Assert(has(fs, "MESSAGE_ONEOFS_FIELDS_NOT_REMOVED", q(names[o]), q(full), digit(int32(i+1))), "a field moved out of its oneof is reported")
			}
		}
	}
	for i := 0; i < 2; i++ {
		if om[0][i] < 0 && om[1][i] >= 0 {
			into++
			vp.Assert(has(fs, "MESSAGE_FIELDS_SAME_ONEOF", digit(int32(i+1)), q(full), q(names[om[1][i]])), "a field moved into a oneof is reported")
		}
	}
	vp.Assert(count(fs, "MESSAGE_ONEOFS_NOT_DELETED") == del, "only deleted oneofs are reported")
	vp.Assert(count(fs, "MESSAGE_ONEOFS_FIELDS_NOT_REMOVED") == rem, "only removed members are reported")
	vp.Assert(count(fs, "MESSAGE_FIELDS_SAME_ONEOF") == into, "only fields moved into a oneof are reported")
	vp.Assert(len(fs) == del+rem+into, "nothing else is reported")
	vp.ObserveInt("n", len(fs))
	vp.Reach("end")
}

// ---- methods and enum values ----

type mspec struct {
	name, in, out string
	cs, ss        bool
}

func methodSpec(p string) mspec {
	return mspec{vp.String(p+"name", "AB", 1, 1), ".p.v1." + vp.String(p+"in", "XY", 1, 1), ".p.v1." + vp.String(p+"out", "XY", 1, 1), vp.Bool(p + "cs"), vp.Bool(p + "ss")}
}

func svc(ms ...mspec) *service {
	s := &service{Name: str("S")}
	for _, m := range ms {
		s.Method = append(s.Method, &method{Name: str(m.name), InputType: str(m.in), OutputType: str(m.out), ClientStreaming: bl(m.cs), ServerStreaming: bl(m.ss)})
	}
	return s
}

// A service with 1 or 2 methods before and 0 to 2 after: names A or B, two request and response types, both streaming flags.
//
//vp:harness B03 reach=end shards=6 weight=2
func Methods() {
	sh := vp.Shard(6)
	var from, to []mspec
	for i := 0; i < 1+sh/3; i++ {
		from = append(from, methodSpec("f"+string(rune('0'+i))))
	}
	for i := 0; i < sh%3; i++ {
		to = append(to, methodSpec("t"+string(rune('0'+i))))
	}
	for _, l := range [][]mspec{from, to} {
		if len(l) == 2 {
			vp.Assume(l[0].name == "A" && l[1].name == "B")
		}
	}
	a, b := file1("a.proto", "p.v1"), file1("a.proto", "p.v1")
	a.Service = []*service{svc(from...)}
	b.Service = []*service{svc(to...)}
	fs := run(settings.BreakConfig{}, []*file{a}, []*file{b})
	del, in, out, cs, ss := 0, 0, 0, 0, 0
	for _, f := range from {
		found := false
		for _, t := range to {
			if f.name != t.name {
				continue
			}
			found = true
			if f.in != t.in {
				in++
				vp.Assert(has(fs, "SERVICE_METHODS_SAME_REQUEST_TYPE", q(f.name), q("p.v1.S"), q(f.in[1:]), q(t.in[1:])), "a changed request type is reported")
			}
			if f.out != t.out {
				out++
				vp.Assert(has(fs, "SERVICE_METHODS_SAME_RESPONSE_TYPE", q(f.name), q("p.v1.S"), q(f.out[1:]), q(t.out[1:])), "a changed response type is reported")
			}
			if f.cs != t.cs {
				cs++
				vp.Assert(has(fs, "SERVICE_METHODS_SAME_CLIENT_STREAMING", q(f.name), q("p.v1.S")), "changed client streaming is reported")
			}
			if f.ss != t.ss {
				ss++
				vp.Assert(has(fs, "SERVICE_METHODS_SAME_SERVER_STREAMING", q(f.name), q("p.v1.S")), "changed server streaming is reported")
			}
		}
		if !found {
			del++
			vp.Assert(has(fs, "SERVICE_METHODS_NOT_DELETED", q(f.name), q("p.v1.S")), "a deleted method is reported")
		}
	}
	vp.Assert(count(fs, "SERVICE_METHODS_NOT_DELETED") == del, "only deleted methods are reported")
	vp.Assert(count(fs, "SERVICE_METHODS_SAME_REQUEST_TYPE") == in, "only changed request types are reported")
	vp.Assert(count(fs, "SERVICE_METHODS_SAME_RESPONSE_TYPE") == out, "only changed response types are reported")
	vp.Assert(count(fs, "SERVICE_METHODS_SAME_CLIENT_STREAMING") == cs, "only changed client streaming is reported")
	vp.Assert(count(fs, "SERVICE_METHODS_SAME_SERVER_STREAMING") == ss, "only changed server streaming is reported")
	vp.Assert(len(fs) == del+in+out+cs+ss, "nothing else is reported")
	vp.ObserveInt("n", len(fs))
	vp.Reach("end")
}

type vspec struct {
	name string
	num  int32
}

func enumOf(name string, vs []vspec) *enum {
	e := &enum{Name: str(name)}
	for _, v := range vs {
		e.Value = append(e.Value, &value{Name: str(v.name), Number: i32(v.num)})
	}
	return e
}

func enumFiles(e *enum, d int) ([]*file, string) {
	f := file1("a.proto", "p.v1")
	if d == 0 {
		f.EnumType = []*enum{e}
		return []*file{f}, "p.v1.E"
	}
	m := &msg{Name: str("M"), EnumType: []*enum{e}}
	if d == 1 {
		f.MessageType = []*msg{m}
		return []*file{f}, "p.v1.M.E"
	}
	f.MessageType = []*msg{{Name: str("R"), NestedType: []*msg{m}}}
	return []*file{f}, "p.v1.R.M.E"
}

// An enum at nesting depth 0 to 2 with 1 or 2 values before and 0 to 2 after: distinct numbers -1..3 (no aliases), one-letter names.
//
//vp:harness B03 reach=end shards=18 weight=2
func EnumValues() {
	sh := vp.Shard(18)
	d := sh / 6
	sh %= 6
	var from, to []vspec
	for i := 0; i < 1+sh/3; i++ {
		p := "f" + string(rune('0'+i))
		from = append(from, vspec{vp.String(p, "ABC", 1, 1), vp.Int32(p+"n", -1, 3)})
	}
	for i := 0; i < sh%3; i++ {
		p := "t" + string(rune('0'+i))
		to = append(to, vspec{vp.String(p, "ABC", 1, 1), vp.Int32(p+"n", -1, 3)})
	}
	for _, l := range [][]vspec{from, to} {
		if len(l) == 2 {
			vp.Assume(l[0].num != l[1].num && l[0].name != l[1].name)
		}
	}
	a, full := enumFiles(enumOf("E", from), d)
	b, _ := enumFiles(enumOf("E", to), d)
	fs := run(settings.BreakConfig{}, a, b)
	del, ren := 0, 0
	for _, f := range from {
		n := "\"-1\""
		if f.num >= 0 {
			n = digit(f.num)
		}
		found := false
		for _, t := range to {
			if f.num == t.num {
				found = true
				if f.name != t.name {
					ren++
					vp.Assert(has(fs, "ENUM_VALUES_SAME_NAME", n, q(full), q(f.name), q(t.name)), "a renamed enum value is reported")
				}
			}
		}
		if !found {
			del++
			vp.Assert(has(fs, "ENUM_VALUES_NOT_DELETED", n, q(full)), "a deleted enum value is reported")
		}
	}
	vp.Assert(count(fs, "ENUM_VALUES_NOT_DELETED") == del && count(fs, "ENUM_VALUES_SAME_NAME") == ren && len(fs) == del+ren, "only changed enum values are reported")
	vp.ObserveInt("n", len(fs))
	vp.Reach("end")
}

// ---- deletions ----

// tree builds message R{EnumType F, Q{EnumType F, M{EnumType F}}} cut at the missing levels.
func tree(p string) (m *msg, has [3]bool, en [3]bool) {
	var l [3]*msg
	names := []string{"R", "Q", "M"}
	for i := 2; i >= 0; i-- {
		d := string(rune('0' + i))
		has[i], en[i] = vp.Bool(p+"m"+d), vp.Bool(p+"e"+d)
		if !has[i] {
			continue
		}
		l[i] = &msg{Name: str(names[i])}
		if en[i] {
			l[i].EnumType = []*enum{enumOf("F", []vspec{{"Z", 0}})}
		}
		if i < 2 && l[i+1] != nil {
			l[i].NestedType = []*msg{l[i+1]}
		}
	}
	return l[0], has, en
}

// Messages nested three deep, each level with or without a nested enum, each level present or not before and after.
//
//vp:harness B01 reach=end weight=3
func Nested() {
	a, b := file1("a.proto", "p.v1"), file1("a.proto", "p.v1")
	f, fh, fe := tree("f")
	t, th, te := tree("t")
	if f != nil {
		a.MessageType = []*msg{f}
	}
	if t != nil {
		b.MessageType = []*msg{t}
	}
	fs := run(settings.BreakConfig{}, []*file{a}, []*file{b})
	names := []string{"p.v1.R", "p.v1.R.Q", "p.v1.R.Q.M"}
	dm, de := 0, 0
	for i := 0; i < 3; i++ {
		if !fh[i] {
			break
		}
		if !th[i] {
			dm++
			vp.Assert(has(fs, "MESSAGES_NOT_DELETED", q(names[i])), "a deleted message is reported")
			break // what it contains goes with it
		}
		if fe[i] && !te[i] {
			de++
			vp.Assert(has(fs, "ENUMS_NOT_DELETED", q(names[i]+".F")), "a deleted nested enum is reported")
		}
	}
	vp.Assert(count(fs, "MESSAGES_NOT_DELETED") == dm, "only deleted messages are reported")
	vp.Assert(count(fs, "ENUMS_NOT_DELETED") == de, "only deleted enums are reported")
	vp.Assert(len(fs) == dm+de, "nothing else is reported")
	vp.ObserveInt("n", len(fs))
	vp.Reach("end")
}

// tops builds the files of package pkg holding the present ones of two enums, two messages and two services; second says which of two files holds each.
func tops(p, pkg string, kinds int) (fs []*file, has [2]bool) {
	a, b := file1("a.proto", pkg), file1("b.proto", pkg)
	for i := 0; i < 2; i++ {
		d := string(rune('0' + i))
		has[i] = vp.Bool(p + d)
		if !has[i] {
			continue
		}
		f := a
		if vp.Bool(p + "file" + d) {
			f = b
		}
		n := str("T" + d)
		switch kinds {
		case 0:
			f.EnumType = append(f.EnumType, &enum{Name: n, Value: []*value{{Name: str("Z"), Number: i32(0)}}})
		case 1:
			f.MessageType = append(f.MessageType, &msg{Name: n})
		case 2:
			f.Service = append(f.Service, &service{Name: n})
		}
	}
	if vp.Bool(p + "swap") {
		return []*file{b, a}, has
	}
	return []*file{a, b}, has
}

// Two top-level enums, messages or services, each present or not, in either of two files of the package, before and after.
//
//vp:harness B01 reach=end shards=3
func TopLevel() {
	k := vp.Shard(3)
	id := []string{"ENUMS_NOT_DELETED", "MESSAGES_NOT_DELETED", "SERVICES_NOT_DELETED"}[k]
	a, ah := tops("f", "p.v1", k)
	b, bh := tops("t", "p.v1", k)
	fs := run(settings.BreakConfig{}, a, b)
	n := 0
	for i := 0; i < 2; i++ {
		if ah[i] && !bh[i] {
			n++
			vp.Assert(has(fs, id, q("p.v1.T"+string(rune('0'+i)))), "a deleted top-level element is reported")
		}
	}
	vp.Assert(count(fs, id) == n && len(fs) == n, "only deleted elements are reported")
	vp.ObserveInt("n", len(fs))
	vp.Reach("end")
}

// Two packages, one a name prefix of the other, present or not on each side, each holding a message of the same name that may be deleted.
//
//vp:harness B01 reach=end
func Packages() {
	names := []string{"p.v1", "p.v1.v2"}
	var sides [2][]*file
	var hasP, hasM [2][2]bool
	for s := 0; s < 2; s++ {
		for i := 0; i < 2; i++ {
			k := string(rune('0'+s)) + string(rune('0'+i))
			hasP[s][i] = vp.Bool("p" + k)
			hasM[s][i] = vp.Bool("m" + k)
			if hasP[s][i] {
				f := file1("f"+string(rune('0'+i))+".proto", names[i])
				if hasM[s][i] {
					f.MessageType = []*msg{{Name: str("M")}}
				}
				sides[s] = append(sides[s], f)
			}
		}
	}
	fs := run(settings.BreakConfig{}, sides[0], sides[1])
	dp, dm := 0, 0
	for i := 0; i < 2; i++ {
		if hasP[0][i] && !hasP[1][i] {
			dp++
			vp.Assert(has(fs, "PACKAGES_NOT_DELETED", q(names[i])), "a deleted package is reported")
		}
		if hasP[0][i] && hasP[1][i] && hasM[0][i] && !hasM[1][i] {
			dm++
			vp.Assert(has(fs, "MESSAGES_NOT_DELETED", q(names[i]+".M")), "a deleted message is reported")
		}
	}
	vp.Assert(count(fs, "PACKAGES_NOT_DELETED") == dp && count(fs, "MESSAGES_NOT_DELETED") == dm && len(fs) == dp+dm, "only deleted packages and messages are reported")
	vp.ObserveInt("n", len(fs))
	vp.Reach("end")
}

// ---- beta ----

func pkgName(p string, form int) (name string, beta bool) {
	switch form {
	case 0:
		return "p.v" + string([]byte{vp.ByteIn(p+"maj", "12")}), false
	case 1:
		return "p.v" + string([]byte{vp.ByteIn(p+"maj", "12")}) + "beta" + string([]byte{vp.ByteIn(p+"beta", "19")}), true
	case 2:
		return "p.v1beta", false
	case 3:
		return "p.v1beta0", false
	case 4:
		return "p.v0beta1", false
	case 5:
		return "v1beta1", false
	case 6:
		return "p.v1beta1.q", false
	case 7:
		return "p.v1alpha1", false
	}
	return "p.v10beta10", true
}

// One package whose name takes nine forms (stable, beta, almost beta) that loses a message or disappears, under both settings.
//
//vp:harness B05 reach=end shards=9
func BetaExempt() {
	cfg := settings.BreakConfig{IncludeBeta: vp.Bool("include"), AllowBetaDeps: vp.Bool("allow")}
	name, beta := pkgName("a", vp.Shard(9))
	a := file1("a.proto", name)
	a.MessageType = []*msg{{Name: str("M")}}
	var to []*file
	gone := vp.Bool("gone")
	kept := vp.Bool("kept")
	if !gone {
		b := file1("a.proto", name)
		if kept {
			b.MessageType = []*msg{{Name: str("M")}}
		}
		to = append(to, b)
	}
	fs := run(cfg, []*file{a}, to)
	want := 0
	if !beta || cfg.IncludeBeta {
		if gone || !kept {
			want = 1
		}
	}
	vp.Assert(len(fs) == want, "beta packages are checked exactly when asked for")
	if want == 1 {
		if gone {
			vp.Assert(has(fs, "PACKAGES_NOT_DELETED", q(name)), "the deleted package is reported")
		} else {
			vp.Assert(has(fs, "MESSAGES_NOT_DELETED", q(name+".M")), "the deleted message is reported")
		}
	}
	vp.ObserveInt("n", len(fs))
	vp.Reach("end")
}

// Package b (nine name forms) imported or not by package a (nine name forms), before and after, under both settings.
//
//vp:harness B05 reach=end shards=9
func BetaDeps() {
	cfg := settings.BreakConfig{IncludeBeta: vp.Bool("include"), AllowBetaDeps: vp.Bool("allow")}
	an, ab := pkgName("a", vp.Shard(9))
	bn, bb := pkgName("b", vp.Choice("bform", 9))
	vp.Assume(an != bn)
	mk := func(dep bool) []*file {
		x, y := file1("x.proto", an), file1("y.proto", bn)
		if dep {
			x.Dependency = []string{"y.proto"}
		}
		return []*file{x, y}
	}
	before, after := vp.Bool("before"), vp.Bool("after")
	fs := run(cfg, mk(before), mk(after))
	want := 0
	if after && bb && !ab && !cfg.IncludeBeta && !cfg.AllowBetaDeps {
		want = 1
		vp.Assert(has(fs, "PACKAGES_NO_BETA_DEPS", q(an), q(bn)), "a stable package depending on a beta package is reported")
	}
	vp.Assert(len(fs) == want, "only stable packages that depend on beta packages are reported")
	vp.ObserveInt("n", len(fs))
	vp.Reach("end")
}

// An enum with aliases: 1 to 3 values before and 0 to 3 after, distinct names A..D, numbers 0..1, in any combination.
//
//vp:harness B03 reach=end shards=12 weight=3
func EnumAlias() {
	sh := vp.Shard(12)
	nf, nt := 1+sh/4, sh%4
	var from, to []vspec
	for i := 0; i < nf; i++ {
		p := "f" + string(rune('0'+i))
		from = append(from, vspec{vp.String(p, "ABCD", 1, 1), vp.Int32(p+"n", 0, 1)})
	}
	for i := 0; i < nt; i++ {
		p := "t" + string(rune('0'+i))
		to = append(to, vspec{vp.String(p, "ABCD", 1, 1), vp.Int32(p+"n", 0, 1)})
	}
	for _, l := range [][]vspec{from, to} {
		for i := range l {
			for j := 0; j < i; j++ {
				vp.Assume(l[i].name != l[j].name)
			}
		}
	}
	a, full := enumFiles(enumOf("E", from), 0)
	b, _ := enumFiles(enumOf("E", to), 0)
	fs := run(settings.BreakConfig{}, a, b)
	var gone [2]bool
	ren := 0
	for _, f := range from {
		num, same := false, false
		for _, t := range to {
			num = num || t.num == f.num
			same = same || t == f
		}
		if !num {
			gone[f.num] = true
			vp.Assert(has(fs, "ENUM_VALUES_NOT_DELETED", digit(f.num), q(full)), "an enum number without values left is reported")
		} else if !same {
			ren++
			vp.Assert(has(fs, "ENUM_VALUES_SAME_NAME", digit(f.num), q(full), q(f.name)), "a removed enum value name is reported")
		}
	}
	del := 0
	for _, g := range gone {
		if g {
			del++
		}
	}
	vp.Assert(count(fs, "ENUM_VALUES_NOT_DELETED") == del, "only deleted enum numbers are reported")
	vp.Assert(count(fs, "ENUM_VALUES_SAME_NAME") == ren, "only removed enum value names are reported")
	vp.Assert(len(fs) == del+ren, "nothing else is reported")
	vp.ObserveInt("n", len(fs))
	vp.Reach("end")
}

// ---- compatible changes ----

// side is one version of a fixed API; pick says what was added, where things are, and in which order.
func side(pick func(name string) bool, pkg string) []*file {
	fs := []*file{file1("a.proto", pkg), file1("b.proto", pkg)}
	at := func(n string) *file {
		if pick("at" + n) {
			return fs[1]
		}
		return fs[0]
	}
	e := enumOf("E", []vspec{{"Z", 0}, {"Y", 1}})
	if pick("value") {
		e.Value = append(e.Value, &value{Name: str("X"), Number: i32(2)})
	}
	if pick("swapvalues") {
		e.Value[0], e.Value[1] = e.Value[1], e.Value[0]
	}
	f := at("E")
	f.EnumType = append(f.EnumType, e)
	m := fieldMsg("M", []fspec{
		{num: 1, name: "a", typ: 9, label: 1, oneof: -1},
		{num: 2, name: "b", typ: 11, label: 3, tname: "." + pkg + ".M.N", oneof: -1},
		{num: 3, name: "c", typ: 14, label: 1, tname: "." + pkg + ".E", oneof: 0},
	}, []string{"o"})
	if pick("field") {
		m.Field = append(m.Field, fieldMsg("", []fspec{{num: 4, name: "d", typ: 5, label: 1, oneof: -1}}, nil).Field...)
	}
	if pick("onefield") {
		m.Field = append(m.Field, fieldMsg("", []fspec{{num: 5, name: "e", typ: 5, label: 1, oneof: 0}}, nil).Field...)
	}
	if pick("oneof") {
		m.OneofDecl = append(m.OneofDecl, &descriptor.OneofDescriptorProto{Name: str("p")})
		m.Field = append(m.Field, fieldMsg("", []fspec{{num: 6, name: "f", typ: 5, label: 1, oneof: 1}}, nil).Field...)
	}
	if pick("swapfields") {
		m.Field[0], m.Field[1] = m.Field[1], m.Field[0]
	}
	m.NestedType = []*msg{{Name: str("N"), EnumType: []*enum{enumOf("F", []vspec{{"Z2", 0}})}}}
	if pick("nested") {
		m.NestedType = append(m.NestedType, &msg{Name: str("N2")})
		m.EnumType = append(m.EnumType, enumOf("F2", []vspec{{"Z3", 0}}))
	}
	f = at("M")
	f.MessageType = append(f.MessageType, m)
	if pick("top") {
		fs[0].MessageType = append(fs[0].MessageType, &msg{Name: str("M2")})
		fs[0].EnumType = append(fs[0].EnumType, enumOf("E2", []vspec{{"Z4", 0}}))
		fs[0].Service = append(fs[0].Service, &service{Name: str("S2")})
	}
	s := &service{Name: str("S"), Method: []*method{{Name: str("G"), InputType: str("." + pkg + ".M"), OutputType: str("." + pkg + ".M.N"), ClientStreaming: bl(true)}}}
	if pick("method") {
		s.Method = append([]*method{{Name: str("A"), InputType: str("." + pkg + ".M"), OutputType: str("." + pkg + ".M")}}, s.Method...)
	}
	f = at("S")
	f.Service = append(f.Service, s)
	out := fs
	if pick("package") {
		n := file1("c.proto", "q.v1")
		n.MessageType = []*msg{{Name: str("M")}}
		fs[0].Dependency = []string{"c.proto"}
		out = append([]*file{n}, out...)
	}
	if pick("swapfiles") {
		out[0], out[1] = out[1], out[0]
	}
	return out
}

func quiet(what string, names ...string) {
	cfg := settings.BreakConfig{IncludeBeta: vp.Bool("include"), AllowBetaDeps: vp.Bool("allow")}
	on := func(p string) func(string) bool {
		return func(n string) bool {
			for _, x := range names {
				if x == n {
					return vp.Bool(p + n)
				}
			}
			return false
		}
	}
	fs := run(cfg, side(func(string) bool { return false }, "p.v1"), side(on("t"), "p.v1"))
	vp.Assert(len(fs) == 0, what+" are no breaking change")
	vp.ObserveInt("n", len(fs))
	vp.Reach("end")
}

// An API with an enum, a message with nested types and a oneof, and a service, to which any subset of seven kinds of additions is made, under all four settings.
//
//vp:harness B04 reach=end weight=2
func Additions() {
	quiet("additions", "value", "field", "onefield", "oneof", "nested", "top", "method", "package")
}

// The same API, its elements moved between two files in any way, and files, fields and enum values reordered, under all four settings.
//
//vp:harness B04 reach=end weight=2
func Moves() {
	quiet("moves", "atE", "atM", "atS", "swapvalues", "swapfields", "swapfiles", "package")
}

// The same API with some additions, compared with itself (in either file order) with maps iterated in any order.
//
//vp:harness B04 reach=end order=any
func Identity() {
	sw := false
	mk := func() []*file {
		return side(func(n string) bool { return n == "value" || n == "oneof" || n == "package" || n == "swapfiles" && sw }, "p.v1")
	}
	a := mk()
	sw = vp.Bool("swap")
	fs := run(settings.BreakConfig{}, a, mk())
	vp.Assert(len(fs) == 0, "an unchanged API has no breaking change")
	vp.ObserveInt("n", len(fs))
	vp.Reach("end")
}

// Field, method and file details outside the API (json name, deprecated, default value, options, syntax) before and after, in any combination.
//
//vp:harness B04 reach=end
func Details() {
	mk := func(p string) []*file {
		fs := side(func(string) bool { return false }, "p.v1")
		f := fs[0]
		if vp.Bool(p + "json") {
			f.MessageType[0].Field[0].JsonName = str("other")
		}
		if vp.Bool(p + "deprecated") {
			f.MessageType[0].Field[0].Options = &descriptor.FieldOptions{Deprecated: bl(true)}
			f.Service[0].Method[0].Options = &descriptor.MethodOptions{Deprecated: bl(true)}
		}
		if vp.Bool(p + "default") {
			f.MessageType[0].Field[0].DefaultValue = str("x")
		}
		if vp.Bool(p + "options") {
			f.Options = &descriptor.FileOptions{JavaPackage: str("com.p.v1"), GoPackage: str("pv1")}
		}
		if vp.Bool(p + "syntax") {
			f.Syntax = str("proto3")
		}
		return fs
	}
	fs := run(settings.BreakConfig{}, mk("f"), mk("t"))
	vp.Assert(len(fs) == 0, "details outside the API are no breaking change")
	vp.ObserveInt("n", len(fs))
	vp.Reach("end")
}
