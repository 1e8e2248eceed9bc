package brk

import (
	"strconv"

	"github.com/uber/prototool/internal/breaking"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/text"
	"github.com/uber/prototool/internal/zzvp/vp"
)

var typeScopes = []string{".", ".t.v1.", ".p.v1.", ".p.v1.M.", ".p.v1.M.t.v1.", ".M."}

func typeName(p string) string {
	return typeScopes[vp.Choice(p+"scope", len(typeScopes))] + vp.String(p+"tname", "ABa", 1, 1)
}

// A message with one field of a message, enum or group type before and after, whose type is one of three names in one of six scopes (top level, another package, this package, this message, and names that only differ by them).
//
//vp:harness B02 reach=end shards=3
func FieldTypeNames() {
	typ := []int32{10, 11, 14}[vp.Shard(3)]
	f := fspec{num: 1, name: "a", typ: typ, label: 1, oneof: -1, tname: typeName("f")}
	t := fspec{num: 1, name: "a", typ: []int32{10, 11, 14}[vp.Choice("ttyp", 3)], label: 1, oneof: -1, tname: typeName("t")}
	fs, full := runMsg(fieldMsg("M", []fspec{f}, nil), fieldMsg("M", []fspec{t}, nil), 0)
	checkFields(fs, full, []fspec{f}, []fspec{t})
	vp.Reach("end")
}

var numbers = []int32{1, 2, 15, 16, 127, 128, 1000, 2047, 2048, 18999, 20000, 65536, 536870911}

// A message with one field before and after whose number is one of thirteen from 1 to 536870911.
//
//vp:harness B02 reach=end shards=13
func FieldNumbers() {
	f, t := numbers[vp.Shard(13)], numbers[vp.Choice("t", 13)]
	mk := func(n int32) *msg {
		return fieldMsg("M", []fspec{{num: n, name: "a", typ: 5, label: 1, oneof: -1}}, nil)
	}
	fs, full := runMsg(mk(f), mk(t), 0)
	if f == t {
		vp.Assert(len(fs) == 0, "an unchanged field is not reported")
	} else {
		vp.Assert(len(fs) == 1 && has(fs, "MESSAGE_FIELDS_NOT_DELETED", q(strconv.Itoa(int(f))), q(full)), "a deleted field is reported")
	}
	vp.Reach("end")
}

// A message with one field before and after whose name is any of 1 to 3 bytes, so that names that differ only in case, underscores or by a prefix occur.
//
//vp:harness B02 reach=end
func FieldRenames() {
	f, t := vp.String("f", "aAb_1", 1, 3), vp.String("t", "aAb_1", 1, 3)
	mk := func(n string) *msg {
		return fieldMsg("M", []fspec{{num: 1, name: n, typ: 5, label: 1, oneof: -1}}, nil)
	}
	fs, _ := runMsg(mk(f), mk(t), 0)
	vp.Assert(len(fs) == count(fs, "MESSAGE_FIELDS_SAME_NAME"), "only a rename is reported")
	vp.Assert((len(fs) == 1) == (f != t), "exactly renamed fields are reported")
	vp.Reach("end")
}

// A message with three fields, each of which keeps or changes its type (int32, string, message), and keeps or changes its label.
//
//vp:harness B02 reach=end weight=2
func FieldsTogether() {
	var from, to []fspec
	types := []int32{5, 9, 11}
	for i := 0; i < 3; i++ {
		p := string(rune('0' + i))
		f := fspec{num: int32(i + 1), name: "a" + p, typ: types[i], label: 1, oneof: -1}
		if f.named() {
			f.tname = ".t.v1.A"
		}
		t := f
		if vp.Bool("typ" + p) {
			t.typ, t.tname = 3, ""
		}
		if vp.Bool("lab" + p) {
			t.label = 3
		}
		if vp.Bool("name" + p) {
			t.name = "b" + p
		}
		from, to = append(from, f), append(to, t)
	}
	fs, full := runMsg(fieldMsg("M", from, nil), fieldMsg("M", to, nil), 0)
	checkFields(fs, full, from, to)
	vp.Reach("end")
}

func nest(m *msg, d int) (*msg, string) {
	full := "p.v1."
	for i := 0; i < d; i++ {
		full += "N."
		m = &msg{Name: str("N"), NestedType: []*msg{m}}
	}
	return m, full + "M"
}

// A message nested 0 to 8 deep in messages of one name, in which a field, a nested enum, a nested message and a oneof disappear or not.
//
//vp:harness B01 reach=end shards=9
func Deep() { deep(vp.Shard(9)) }

// A message nested 0 to 8 deep in messages of one name, in which a field, a nested enum, a nested message and a oneof disappear or not.
//
//vp:harness B02 reach=end shards=9
func DeepFields() { deep(vp.Shard(9)) }

func deep(d int) {
	mk := func(fld, en, ms, one bool) *msg {
		m := &msg{Name: str("M")}
		if fld {
			m.Field = fieldMsg("", []fspec{{num: 1, name: "a", typ: 5, label: 1, oneof: -1}}, nil).Field
		}
		if en {
			m.EnumType = []*enum{enumOf("E", []vspec{{"Z", 0}})}
		}
		if ms {
			m.NestedType = []*msg{{Name: str("S")}}
		}
		if one {
			m.OneofDecl = fieldMsg("", nil, []string{"o"}).OneofDecl
		}
		return m
	}
	w := []bool{vp.Bool("fld"), vp.Bool("en"), vp.Bool("ms"), vp.Bool("one")}
	a, full := nest(mk(true, true, true, true), d)
	b, _ := nest(mk(w[0], w[1], w[2], w[3]), d)
	f, t := file1("a.proto", "p.v1"), file1("a.proto", "p.v1")
	f.MessageType, t.MessageType = []*msg{a}, []*msg{b}
	fs := run(settings.BreakConfig{}, []*file{f}, []*file{t})
	n := 0
	for i, x := range []struct{ id, name string }{{"MESSAGE_FIELDS_NOT_DELETED", q("1")}, {"ENUMS_NOT_DELETED", q(full + ".E")}, {"MESSAGES_NOT_DELETED", q(full + ".S")}, {"MESSAGE_ONEOFS_NOT_DELETED", q("o")}} {
		if !w[i] {
			n++
			if i == 0 || i == 3 {
				vp.Assert(has(fs, x.id, x.name, q(full)), "a deletion is reported at every depth")
			} else {
				vp.Assert(has(fs, x.id, x.name), "a deletion is reported at every depth")
			}
		}
	}
	vp.Assert(len(fs) == n, "only deletions are reported")
	vp.Reach("end")
}

// One package, message, enum or service before and after, at the top level or nested, whose name is any of 1 to 2 bytes, so that names that differ in case or by a prefix occur.
//
//vp:harness B01 reach=end shards=6
func Renames() {
	k := vp.Shard(6)
	f, t := vp.String("f", "aAb1_", 1, 2), vp.String("t", "aAb1_", 1, 2)
	mk := func(n string) []*file {
		x := file1("x.proto", "p.v1")
		switch k {
		case 0:
			x.Package = str("p." + n + ".v1")
		case 1:
			x.MessageType = []*msg{{Name: str(n)}}
		case 2:
			x.EnumType = []*enum{enumOf(n, []vspec{{"Z", 0}})}
		case 3:
			x.Service = []*service{{Name: str(n)}}
		case 4:
			x.MessageType = []*msg{{Name: str("M"), NestedType: []*msg{{Name: str(n)}}}}
		case 5:
			x.MessageType = []*msg{{Name: str("M"), EnumType: []*enum{enumOf(n, []vspec{{"Z", 0}})}}}
		}
		return []*file{x}
	}
	fs := run(settings.BreakConfig{}, mk(f), mk(t))
	id := []string{"PACKAGES_NOT_DELETED", "MESSAGES_NOT_DELETED", "ENUMS_NOT_DELETED", "SERVICES_NOT_DELETED", "MESSAGES_NOT_DELETED", "ENUMS_NOT_DELETED"}[k]
	if f == t {
		vp.Assert(len(fs) == 0, "an unchanged name is not reported")
	} else {
		full := []string{"p." + f + ".v1", "p.v1." + f, "p.v1." + f, "p.v1." + f, "p.v1.M." + f, "p.v1.M." + f}[k]
		vp.Assert(len(fs) == 1 && has(fs, id, q(full)), "a name that is gone is reported")
	}
	vp.Reach("end")
}

// Two packages of two files with a message, a nested enum and a service each; every one of the six may be deleted, and one that is kept elsewhere under the same name in the other package hides nothing.
//
//vp:harness B01 reach=end weight=2
func Everywhere() {
	mk := func(p string, all bool) (fs []*file, have [6]bool) {
		k := 0
		for _, pkg := range []string{"p.v1", "q.v1"} {
			a, b := file1(pkg+"/a.proto", pkg), file1(pkg+"/b.proto", pkg)
			m := &msg{Name: str("M")}
			pick := func() bool {
				k++
				have[k-1] = all || vp.Bool(p+strconv.Itoa(k))
				return have[k-1]
			}
			if pick() {
				m.EnumType = []*enum{enumOf("E", []vspec{{"Z", 0}})}
			}
			if pick() {
				a.MessageType = append(a.MessageType, m)
			}
			if pick() {
				b.Service = append(b.Service, &service{Name: str("S")})
			}
			fs = append(fs, a, b)
		}
		return fs, have
	}
	from, _ := mk("", true)
	to, h := mk("t", false)
	fs := run(settings.BreakConfig{}, from, to)
	n := 0
	for i, pkg := range []string{"p.v1", "q.v1"} {
		if !h[3*i+1] {
			n++
			vp.Assert(has(fs, "MESSAGES_NOT_DELETED", q(pkg+".M")), "a deleted message is reported")
		} else if !h[3*i] {
			n++
			vp.Assert(has(fs, "ENUMS_NOT_DELETED", q(pkg+".M.E")), "a deleted enum is reported")
		}
		if !h[3*i+2] {
			n++
			vp.Assert(has(fs, "SERVICES_NOT_DELETED", q(pkg+".S")), "a deleted service is reported")
		}
	}
	vp.Assert(len(fs) == n, "nothing else is reported")
	vp.Reach("end")
}

// One method before and after: request and response type one of three names in one of six scopes; the name any of 1 to 2 bytes in a second shard.
//
//vp:harness B03 reach=end shards=3
func MethodNames() {
	k := vp.Shard(3)
	f, t := mspec{name: "G", in: ".p.v1.X", out: ".p.v1.Y"}, mspec{name: "G", in: ".p.v1.X", out: ".p.v1.Y"}
	id := ""
	switch k {
	case 0:
		f.in, t.in = typeName("f"), typeName("t")
		id = "SERVICE_METHODS_SAME_REQUEST_TYPE"
	case 1:
		f.out, t.out = typeName("f"), typeName("t")
		id = "SERVICE_METHODS_SAME_RESPONSE_TYPE"
	case 2:
		f.name, t.name = vp.String("f", "aAb_1", 1, 2), vp.String("t", "aAb_1", 1, 2)
		id = "SERVICE_METHODS_NOT_DELETED"
	}
	a, b := file1("a.proto", "p.v1"), file1("a.proto", "p.v1")
	a.Service, b.Service = []*service{svc(f)}, []*service{svc(t)}
	fs := run(settings.BreakConfig{}, []*file{a}, []*file{b})
	vp.Assert(len(fs) == count(fs, id), "only what changed is reported")
	vp.Assert((len(fs) == 1) == (f != t), "every change is reported once")
	vp.Reach("end")
}

var values = []int32{-2147483648, -128, -1, 0, 1, 9, 10, 127, 128, 65536, 2147483647}

// One enum value before and after: any name of 1 to 3 bytes; one of eleven numbers over the whole range.
//
//vp:harness B03 reach=end shards=12
func EnumValueNames() {
	k := vp.Shard(12)
	f, t := vspec{"A", 0}, vspec{"A", 0}
	if k == 11 {
		f.name, t.name = vp.String("f", "aAb_1", 1, 3), vp.String("t", "aAb_1", 1, 3)
	} else {
		f.num, t.num = values[k], values[vp.Choice("t", 11)]
	}
	a, full := enumFiles(enumOf("E", []vspec{f}), 0)
	b, _ := enumFiles(enumOf("E", []vspec{t}), 0)
	fs := run(settings.BreakConfig{}, a, b)
	if f == t {
		vp.Assert(len(fs) == 0, "an unchanged value is not reported")
	} else if f.num != t.num {
		vp.Assert(len(fs) == 1 && has(fs, "ENUM_VALUES_NOT_DELETED", q(strconv.Itoa(int(f.num))), q(full)), "a deleted enum number is reported")
	} else {
		vp.Assert(len(fs) == 1 && has(fs, "ENUM_VALUES_SAME_NAME", q(f.name), q(t.name)), "a renamed enum value is reported")
	}
	vp.Reach("end")
}

// Three packages (stable or beta), each of which may import the others in the new version, under all settings.
//
//vp:harness B05 reach=end shards=8
func BetaGraph() {
	sh := vp.Shard(8)
	cfg := settings.BreakConfig{IncludeBeta: vp.Bool("include"), AllowBetaDeps: vp.Bool("allow")}
	var names [3]string
	var beta [3]bool
	for i := range names {
		names[i] = "p" + strconv.Itoa(i) + ".v1"
		if sh>>uint(i)&1 == 1 {
			names[i] += "beta1"
			beta[i] = true
		}
	}
	mk := func(p string) ([]*file, [3][3]bool) {
		var fs []*file
		var dep [3][3]bool
		for i := range names {
			f := file1("f"+strconv.Itoa(i), names[i])
			for j := range names {
				if i != j && vp.Bool(p+strconv.Itoa(i)+strconv.Itoa(j)) {
					dep[i][j] = true
					f.Dependency = append(f.Dependency, "f"+strconv.Itoa(j))
				}
			}
			fs = append(fs, f)
		}
		return fs, dep
	}
	to, dep := mk("t")
	fs := run(cfg, nil, to)
	n := 0
	for i := range names {
		for j := range names {
			if dep[i][j] && beta[j] && !beta[i] && !cfg.IncludeBeta && !cfg.AllowBetaDeps {
				n++
				vp.Assert(has(fs, "PACKAGES_NO_BETA_DEPS", q(names[i]), q(names[j])), "a stable package depending on a beta package is reported")
			}
		}
	}
	vp.Assert(len(fs) == n, "only stable packages that depend on beta packages are reported")
	vp.Reach("end")
}

// One runner used twice, with any settings each time, on a stable package that imports a beta package and loses a message.
//
//vp:harness B05 reach=end
func Twice() {
	r := breaking.NewRunner()
	from := func() []*file {
		x, y := file1("x.proto", "p.v1"), file1("y.proto", "q.v1beta1")
		x.MessageType = []*msg{{Name: str("M")}}
		y.MessageType = []*msg{{Name: str("N")}}
		x.Dependency = []string{"y.proto"}
		return []*file{x, y}
	}
	to := func() []*file {
		fs := from()
		fs[0].MessageType, fs[1].MessageType = nil, nil
		return fs
	}
	a, b := set(from()...), set(to()...)
	for i := 0; i < 2; i++ {
		p := strconv.Itoa(i)
		cfg := settings.BreakConfig{IncludeBeta: vp.Bool("include" + p), AllowBetaDeps: vp.Bool("allow" + p)}
		fs, err := r.Run(cfg, a, b)
		vp.Assert(err == nil, "the detector gives no system error")
		n := 1
		if cfg.IncludeBeta {
			n++
		} else if !cfg.AllowBetaDeps {
			n++
		}
		vp.Assert(len(fs) == n, "each run follows its own settings")
		vp.Assert(has(fs, "MESSAGES_NOT_DELETED", q("p.v1.M")), "the stable message is reported")
		vp.Assert(has(fs, "MESSAGES_NOT_DELETED", q("q.v1beta1.N")) == cfg.IncludeBeta, "the beta message is reported when beta is included")
	}
	vp.Reach("end")
}

var _ *text.Failure
