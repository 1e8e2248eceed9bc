// Package mdl has harnesses for the API model: descriptor sets, the per
// package model reflected from them and the linked package graph.
package mdl

import (
	"strconv"

	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/uber/prototool/internal/reflect"
	reflectv1 "github.com/uber/prototool/internal/reflect/gen/uber/proto/reflect/v1"
	"github.com/uber/prototool/internal/zzvp/vp"
)

type (
	file    = descriptor.FileDescriptorProto
	fset    = descriptor.FileDescriptorSet
	msg     = descriptor.DescriptorProto
	fld     = descriptor.FieldDescriptorProto
	enum    = descriptor.EnumDescriptorProto
	value   = descriptor.EnumValueDescriptorProto
	oneof   = descriptor.OneofDescriptorProto
	service = descriptor.ServiceDescriptorProto
	method  = descriptor.MethodDescriptorProto
)

func str(s string) *string { return &s }
func i32(n int32) *int32   { return &n }
func bl(b bool) *bool      { return &b }
func d(n int) string       { return strconv.Itoa(n) }

func ftype(n int32) *descriptor.FieldDescriptorProto_Type {
	t := descriptor.FieldDescriptorProto_Type(n)
	return &t
}

func flabel(n int32) *descriptor.FieldDescriptorProto_Label {
	t := descriptor.FieldDescriptorProto_Label(n)
	return &t
}

func in(l []string, s string) bool {
	r := false
	for _, x := range l {
		if x == s {
			r = true
		}
	}
	return r
}

var pkgNames = []string{"a.v1", "a.v1.b", "b"}

// sameNames checks that got is want in ascending order, where want is a list
// of distinct names in ascending order of which only those with keep count.
func sameNames(got []string, want []string, keep []bool, what string) {
	k := 0
	for i, w := range want {
		if keep[i] {
			vp.Assert(k < len(got), what+": nothing is lost")
			vp.Assert(got[k] == w, what+": names in ascending order")
			k++
		}
	}
	vp.Assert(k == len(got), what+": nothing is added")
}

var perms3 = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// Three files in any order, each in one of three packages (one a prefix of another) and with any dependencies on the others, each with a message, an enum and a service.
//
//vp:harness X01 reach=end shards=18
func Packages() {
	sh := vp.Shard(18)
	var pk [3]int
	var dep [3][3]bool
	for i := range pk {
		for j := range pk {
			if i != j {
				dep[i][j] = vp.Choice("dep"+d(i)+d(j), 2) == 1
			}
		}
	}
	pk[0] = sh / 6
	pk[1], pk[2] = vp.Choice("pkg1", 3), vp.Choice("pkg2", 3)
	packages(perms3[sh%6], pk, dep)
}

// Three files in any order, each in one of three packages, with a chain of dependencies or two files that depend on all others, under every map iteration order.
//
//vp:harness X01 reach=end shards=6 order=any weight=3
func PackagesAnyOrder() {
	sh := vp.Shard(6)
	pk := [3]int{vp.Choice("pkg0", 3), vp.Choice("pkg1", 3), vp.Choice("pkg2", 3)}
	dep := [3][3]bool{{false, true, false}, {false, false, true}, {false, false, false}}
	if sh/3 == 1 {
		dep = [3][3]bool{{false, true, true}, {true, false, true}, {false, false, false}}
	}
	packages(perms3[2*(sh%3)], pk, dep)
}

func packages(perm []int, pk [3]int, dep [3][3]bool) {
	var all [3]*file
	for i := range all {
		f := &file{Name: str("f" + d(i) + ".proto"), Package: str(pkgNames[pk[i]])}
		for j := range pk {
			if dep[i][j] {
				f.Dependency = append(f.Dependency, "f"+d(j)+".proto")
			}
		}
		f.MessageType = []*msg{{Name: str("M" + d(i))}}
		f.EnumType = []*enum{{Name: str("E" + d(i)), Value: []*value{{Name: str("Z" + d(i)), Number: i32(0)}}}}
		f.Service = []*service{{Name: str("S" + d(i))}}
		all[i] = f
	}
	r, err := reflect.NewPackageSet(&fset{File: []*file{all[perm[0]], all[perm[1]], all[perm[2]]}})
	vp.Assert(err == nil, "a valid descriptor set is reflected")
	k := 0
	for p, name := range pkgNames {
		if pk[0] != p && pk[1] != p && pk[2] != p {
			continue
		}
		vp.Assert(k < len(r.Packages) && r.Packages[k].Name == name, "packages: every package once, in ascending order")
		pkg := r.Packages[k]
		k++
		var deps [3]bool
		for i := range pk {
			for j := range pk {
				if pk[i] == p && pk[j] != p && dep[i][j] {
					deps[pk[j]] = true
				}
			}
		}
		sameNames(pkg.DependencyNames, pkgNames, deps[:], "dependencies")
		var ms, es, ss []string
		for _, m := range pkg.Messages {
			ms = append(ms, m.Name)
		}
		for _, e := range pkg.Enums {
			es = append(es, e.Name)
			vp.Assert(len(e.EnumValues) == 1 && e.EnumValues[0].Name == "Z"+e.Name[1:], "an enum keeps its own values")
		}
		for _, s := range pkg.Services {
			ss = append(ss, s.Name)
		}
		keep := []bool{pk[0] == p, pk[1] == p, pk[2] == p}
		sameNames(ms, []string{"M0", "M1", "M2"}, keep, "messages")
		sameNames(es, []string{"E0", "E1", "E2"}, keep, "enums")
		sameNames(ss, []string{"S0", "S1", "S2"}, keep, "services")
	}
	vp.Assert(len(r.Packages) == k, "packages: nothing is added")
	vp.Reach("end")
}

// A message at depth 0 to 2 with 0 to 3 fields of distinct numbers from 1 to 536870911, any of 18 types, 3 labels and one-letter names, referring to one of four type names, with fields in either of two oneofs (in either order of declaration) or none.
//
//vp:harness X01 reach=end shards=12 order=any weight=3
func Fields() {
	sh := vp.Shard(12)
	n, depth := sh%4, sh/4
	m := &msg{Name: str("M")}
	oo := []string{"o", "p"}
	if vp.Choice("oneofs", 2) == 1 {
		oo = []string{"p", "o"}
	}
	for _, o := range oo {
		m.OneofDecl = append(m.OneofDecl, &oneof{Name: str(o)})
	}
	names := []string{".t.v1.A", ".a.v1.M.B", ".C", ".a.v1"}
	type f struct {
		num, typ, label int32
		name, tname     string
		oneof           int
	}
	var fs []f
	for i := 0; i < n; i++ {
		p := d(i)
		x := f{num: vp.Int32("num"+p, 1, 536870911), typ: 5, label: 1, name: "f" + p, oneof: vp.Choice("oneof"+p, 3) - 1}
		if n < 3 {
			x.typ, x.label, x.name = vp.Int32("typ"+p, 1, 18), vp.Int32("label"+p, 1, 3), vp.String("name"+p, "abc", 1, 1)
		}
		for _, y := range fs {
			vp.Assume(x.num != y.num)
		}
		if n == 3 {
			x.tname = ".a.T" + p
		} else if i == 0 {
			if c := vp.Choice("tname"+p, len(names)+1); c > 0 {
				x.tname = names[c-1]
			}
		} else {
			x.tname = "." + vp.String("tname"+p, "AB.", 2, 2)
		}
		fs = append(fs, x)
		g := &fld{Name: str(x.name), Number: i32(x.num), Type: ftype(x.typ), Label: flabel(x.label)}
		if x.tname != "" {
			g.TypeName = str(x.tname)
		}
		if x.oneof >= 0 {
			g.OneofIndex = i32(int32(x.oneof))
		}
		m.Field = append(m.Field, g)
	}
	top := m
	for i := 0; i < depth; i++ {
		top = &msg{Name: str("N" + d(i)), NestedType: []*msg{{Name: str("Z")}, top, {Name: str("A")}}}
	}
	r, err := reflect.NewPackageSet(&fset{File: []*file{{Name: str("f.proto"), Package: str("a.v1"), MessageType: []*msg{top}}}})
	vp.Assert(err == nil && len(r.Packages) == 1 && len(r.Packages[0].Messages) == 1, "a valid message is reflected")
	g := r.Packages[0].Messages[0]
	for i := depth - 1; i >= 0; i-- {
		vp.Assert(g.Name == "N"+d(i), "a nesting message keeps its name")
		vp.Assert(len(g.NestedMessages) == 3, "nested messages are kept")
		vp.Assert(g.NestedMessages[0].Name == "A" && g.NestedMessages[2].Name == "Z", "nested messages are in ascending order")
		g = g.NestedMessages[1]
	}
	vp.Assert(g.Name == "M", "the message keeps its name")
	vp.Assert(len(g.MessageFields) == n, "fields: each once")
	for i, x := range g.MessageFields {
		if i > 0 {
			vp.Assert(g.MessageFields[i-1].Number < x.Number, "fields are in ascending order")
		}
		ok := false
		for _, y := range fs {
			want := y.tname
			if want != "" {
				want = want[1:]
			}
			if x.Number == y.num && x.Name == y.name && int32(x.Type) == y.typ && int32(x.Label) == y.label && x.TypeName == want {
				ok = true
			}
		}
		vp.Assert(ok, "a field keeps its number, name, type, label and type name")
	}
	vp.Assert(len(g.MessageOneofs) == 2 && g.MessageOneofs[0].Name == "o" && g.MessageOneofs[1].Name == "p", "oneofs are kept in ascending order")
	for _, o := range g.MessageOneofs {
		cnt := 0
		for _, y := range fs {
			if y.oneof >= 0 && oo[y.oneof] == o.Name {
				cnt++
				found := false
				for _, num := range o.FieldNumbers {
					if num == y.num {
						found = true
					}
				}
				vp.Assert(found, "a field is in its oneof")
			}
		}
		vp.Assert(len(o.FieldNumbers) == cnt, "only its own fields are in a oneof")
		for i := 1; i < len(o.FieldNumbers); i++ {
			vp.Assert(o.FieldNumbers[i-1] < o.FieldNumbers[i], "oneof members are in ascending order")
		}
	}
	vp.Reach("end")
}

// A service with 0 to 3 methods of distinct names in any order with two-byte request and response types and both streaming flags.
//
//vp:harness X01 reach=end shards=4
func Methods() {
	n := vp.Shard(4)
	type m struct {
		name    string
		in, out string
		cs, ss  bool
	}
	s := &service{Name: str("S")}
	var ms []m
	for i := 0; i < n; i++ {
		p := d(i)
		x := m{vp.String("name"+p, "ABCa", 1, 1), "." + vp.String("in"+p, "A.B", 2, 2), "." + vp.String("out"+p, "A.B", 2, 2), vp.Bool("cs" + p), vp.Bool("ss" + p)}
		for _, y := range ms {
			vp.Assume(x.name != y.name)
		}
		ms = append(ms, x)
		s.Method = append(s.Method, &method{Name: str(x.name), InputType: str(x.in), OutputType: str(x.out), ClientStreaming: bl(x.cs), ServerStreaming: bl(x.ss)})
	}
	r, err := reflect.NewPackageSet(&fset{File: []*file{{Name: str("f.proto"), Package: str("a.v1"), Service: []*service{s}}}})
	vp.Assert(err == nil && len(r.Packages) == 1 && len(r.Packages[0].Services) == 1, "a valid service is reflected")
	g := r.Packages[0].Services[0]
	vp.Assert(len(g.ServiceMethods) == n, "methods: each once")
	for i, x := range g.ServiceMethods {
		if i > 0 {
			vp.Assert(g.ServiceMethods[i-1].Name < x.Name, "methods are in ascending order")
		}
		ok := false
		for _, y := range ms {
			if x.Name == y.name && x.RequestTypeName == y.in[1:] && x.ResponseTypeName == y.out[1:] && x.ClientStreaming == y.cs && x.ServerStreaming == y.ss {
				ok = true
			}
		}
		vp.Assert(ok, "a method keeps its name, types and streaming flags")
	}
	vp.Reach("end")
}

// An enum at top level or nested in a message with 1 to 3 values of distinct names and any numbers from -2 to 9 (also repeated), and two more enums.
//
//vp:harness X01 reach=end shards=6
func Enums() {
	sh := vp.Shard(6)
	n := 1 + sh%3
	e := &enum{Name: str("K")}
	type v struct {
		name string
		num  int32
	}
	var vs []v
	for i := 0; i < n; i++ {
		x := v{vp.String("name"+d(i), "ABC", 1, 1), vp.Int32("num"+d(i), -2, 9)}
		for _, y := range vs {
			vp.Assume(x.name != y.name)
		}
		vs = append(vs, x)
		e.Value = append(e.Value, &value{Name: str(x.name), Number: i32(x.num)})
	}
	es := []*enum{{Name: str("Z")}, e, {Name: str("A")}}
	f := &file{Name: str("f.proto"), Package: str("a.v1")}
	if sh/3 == 0 {
		f.EnumType = es
	} else {
		f.MessageType = []*msg{{Name: str("M"), EnumType: es}}
	}
	r, err := reflect.NewPackageSet(&fset{File: []*file{f}})
	vp.Assert(err == nil && len(r.Packages) == 1, "a valid enum is reflected")
	var got []*reflectv1.Enum
	if sh/3 == 0 {
		got = r.Packages[0].Enums
	} else {
		got = r.Packages[0].Messages[0].NestedEnums
	}
	vp.Assert(len(got) == 3 && got[0].Name == "A" && got[1].Name == "K" && got[2].Name == "Z", "enums are kept in ascending order")
	g := got[1].EnumValues
	vp.Assert(len(g) == n, "enum values: each once")
	for i, x := range g {
		if i > 0 {
			vp.Assert(g[i-1].Number <= x.Number, "enum values are in ascending order")
		}
		ok := false
		for _, y := range vs {
			if x.Name == y.name && x.Number == y.num {
				ok = true
			}
		}
		vp.Assert(ok, "an enum value keeps its name and number")
		for j := 0; j < i; j++ {
			vp.Assert(g[j].Name != x.Name, "no enum value is repeated")
		}
	}
	vp.Reach("end")
}

// Two descriptor sets with one file each: file names, packages, and a field, message, enum value and method in each that are equal or not.
//
//vp:harness X01 reach=same,differs,other order=any shards=4
func Repeated() {
	kind := vp.Shard(4)
	mk := func(p string, pkg int, other bool) *file {
		f := &file{Name: str(vp.String(p+"file", "fg", 1, 1)), Package: str(pkgNames[pkg])}
		x := "x"
		if other {
			x = "y"
		}
		switch kind {
		case 0:
			f.MessageType = []*msg{{Name: str("M"), Field: []*fld{{Name: str(x), Number: i32(1), Type: ftype(5), Label: flabel(1)}}}}
		case 1:
			f.MessageType = []*msg{{Name: str("M" + x)}}
		case 2:
			f.EnumType = []*enum{{Name: str("E"), Value: []*value{{Name: str(x), Number: i32(0)}}}}
		case 3:
			f.Service = []*service{{Name: str("S"), Method: []*method{{Name: str(x), InputType: str(".a.M"), OutputType: str(".a.M")}}}}
		}
		return f
	}
	pa, pb := vp.Choice("pa", 3), vp.Choice("pb", 3)
	oa, ob := vp.Bool("oa"), vp.Bool("ob")
	a, b := mk("a", pa, oa), mk("b", pb, ob)
	r, err := reflect.NewPackageSet(&fset{File: []*file{a}}, &fset{File: []*file{b}})
	if *a.Name != *b.Name {
		vp.Assert(err == nil, "different files are accepted")
		vp.Reach("other")
		return
	}
	if pa != pb || oa != ob {
		vp.Assert(err != nil, "different content under one file name is an error")
		vp.Reach("differs")
		return
	}
	vp.Assert(err == nil, "a repeated file is accepted")
	vp.Assert(len(r.Packages) == 1, "a repeated file gives one package")
	g := r.Packages[0]
	vp.Assert(len(g.Messages)+len(g.Enums)+len(g.Services) == 1, "a repeated file counts once")
	vp.Reach("same")
}

// One file whose package is any of 0 to 2 bytes of "a.", whose dependency is present, missing or absent, and whose field, request and response type names are fully qualified or not.
//
//vp:harness X01 reach=ok,error
func Malformed() {
	pkg := vp.String("pkg", "a.", 0, 2)
	f := &file{Name: str("f.proto"), Package: str(pkg)}
	dep := vp.Choice("dep", 3)
	if dep > 0 {
		f.Dependency = []string{[]string{"g.proto", "h.proto"}[dep-1]}
	}
	tn, rq, rs := vp.String("tname", ".A", 0, 2), vp.String("req", ".A", 0, 2), vp.String("res", ".A", 0, 2)
	f.MessageType = []*msg{{Name: str("M"), Field: []*fld{{Name: str("a"), Number: i32(1), Type: ftype(11), Label: flabel(1), TypeName: str(tn)}}}}
	f.Service = []*service{{Name: str("S"), Method: []*method{{Name: str("A"), InputType: str(rq), OutputType: str(rs)}}}}
	g := &file{Name: str("g.proto"), Package: str("b")}
	r, err := reflect.NewPackageSet(&fset{File: []*file{f, g}})
	bad := pkg == "" || dep == 2 || rq == "" || rs == ""
	if pkg != "" && pkg[0] == '.' {
		bad = true
	}
	for _, s := range []string{tn, rq, rs} {
		if s != "" && s[0] != '.' {
			bad = true
		}
	}
	if bad {
		vp.Assert(err != nil, "a malformed descriptor set is an error")
		vp.Reach("error")
		return
	}
	vp.Assert(err == nil, "a well-formed descriptor set is accepted")
	vp.Assert(len(r.Packages) == 2, "a well-formed descriptor set has its packages")
	vp.Reach("ok")
}
