package mdl

import (
	"github.com/uber/prototool/internal/extract"
	reflectv1 "github.com/uber/prototool/internal/reflect/gen/uber/proto/reflect/v1"
	"github.com/uber/prototool/internal/zzvp/vp"
)

type gpkg struct {
	name string
	beta bool
}

var (
	graphA = []gpkg{{"a.v1", false}, {"a.v1beta1", true}, {"a.beta", false}}
	graphB = []gpkg{{"a.v1", false}, {"a.v2beta11", true}, {"v1beta1", false}, {"a.v1.b", false}}
	graphC = []gpkg{{"b.v1", false}, {"b.v1beta1", true}, {"b.v1alpha1", false}, {"b.v1beta0", false}}
)

// graph checks that x holds exactly the packages for which keep holds, with
// the dependencies among them.
func graph(x *extract.PackageSet, ps []gpkg, keep []bool, dep [][]bool) {
	n := 0
	for i, p := range ps {
		g, ok := x.PackageNameToPackage()[p.name]
		vp.Assert(ok == keep[i], "exactly the kept packages are found by name")
		if !ok {
			continue
		}
		n++
		vp.Assert(g.FullyQualifiedName() == p.name, "a package has its name")
		vp.Assert(g.PackageSet() == x, "a package knows its set")
		nd, ni := 0, 0
		for j, o := range ps {
			want := keep[j] && dep[i][j]
			e, ok := g.DependencyNameToDependency()[o.name]
			vp.Assert(ok == want, "a package knows exactly its kept dependencies")
			if ok {
				nd++
				vp.Assert(e == x.PackageNameToPackage()[o.name], "a dependency is the package of that name")
			}
			want = keep[j] && dep[j][i]
			e, ok = g.ImporterNameToImporter()[o.name]
			vp.Assert(ok == want, "a package knows exactly its kept importers")
			if ok {
				ni++
				vp.Assert(e == x.PackageNameToPackage()[o.name], "an importer is the package of that name")
			}
		}
		vp.Assert(len(g.DependencyNameToDependency()) == nd, "no other dependencies")
		vp.Assert(len(g.ImporterNameToImporter()) == ni, "no other importers")
	}
	vp.Assert(len(x.PackageNameToPackage()) == n, "no other packages")
}

func graphOf(ps []gpkg, missing int) (*reflectv1.PackageSet, [][]bool) {
	r := &reflectv1.PackageSet{}
	var dep [][]bool
	for i, p := range ps {
		row := make([]bool, len(ps))
		g := &reflectv1.Package{Name: p.name}
		if missing == i {
			g.DependencyNames = append(g.DependencyNames, "a.none")
		}
		for j, o := range ps {
			if i != j && vp.Choice("dep"+d(i)+d(j), 2) == 1 {
				row[j] = true
				g.DependencyNames = append(g.DependencyNames, o.name)
			}
		}
		dep = append(dep, row)
		r.Packages = append(r.Packages, g)
	}
	return r, dep
}

func all(n int) []bool {
	r := make([]bool, n)
	for i := range r {
		r[i] = true
	}
	return r
}

func checkGraph(ps []gpkg) {
	r, dep := graphOf(ps, -1)
	x, err := extract.NewPackageSet(r)
	vp.Assert(err == nil, "a valid model is linked")
	graph(x, ps, all(len(ps)), dep)
	y, err := x.WithoutBeta()
	vp.Assert(err == nil, "beta packages can be removed")
	var keep []bool
	for _, p := range ps {
		keep = append(keep, !p.beta)
	}
	graph(y, ps, keep, dep)
	graph(x, ps, all(len(ps)), dep)
	vp.Reach("end")
}

// Three packages, one of them beta, with any dependencies among them, with and without the beta package, under every map iteration order.
//
//vp:harness X02 reach=end order=any
func GraphAnyOrder() { checkGraph(graphA) }

// Four packages, one of them beta and others with names close to beta, with any dependencies among them.
//
//vp:harness X02 reach=end shards=2 weight=2
func Graph() {
	if vp.Shard(2) == 0 {
		checkGraph(graphB)
	} else {
		checkGraph(graphC)
	}
}

// Three packages with any dependencies among them, one of which also depends on a package that does not exist.
//
//vp:harness X02 reach=end
func UnknownDependency() {
	r, _ := graphOf(graphA, vp.Choice("missing", 3))
	_, err := extract.NewPackageSet(r)
	vp.Assert(err != nil, "an unknown dependency is an error")
	vp.Reach("end")
}

func checkEnum(e *extract.Enum, full string, vs []*reflectv1.EnumValue) {
	vp.Assert(e.FullyQualifiedName() == full, "an enum has its full name")
	vp.Assert(len(e.ValueNameToValue()) == len(vs), "an enum has all its values by name")
	for _, v := range vs {
		g, ok := e.ValueNameToValue()[v.Name]
		vp.Assert(ok && g.ProtoMessage().Name == v.Name && g.ProtoMessage().Number == v.Number && g.Enum() == e, "a value is found by name")
		h, ok := e.ValueNumberToValue()[v.Number]
		vp.Assert(ok && h.ProtoMessage().Number == v.Number && h.Enum() == e, "a value is found by number")
	}
	for n := range e.ValueNumberToValue() {
		ok := false
		for _, v := range vs {
			if v.Number == n {
				ok = true
			}
		}
		vp.Assert(ok, "no other numbers")
	}
}

// A package named by one or several components with an enum and a message nested 0 to 3 deep, the message with an enum, two fields of distinct numbers from 1 to 536870911 and distinct names, and up to two oneofs with any members; the enum has two values with any numbers.
//
//vp:harness X02 reach=end shards=8 order=any
func Members() {
	sh := vp.Shard(8)
	depth := sh % 4
	pkg := []string{"a", "a.v1"}[sh/4]
	n0, n1 := vp.Int32("n0", 1, 536870911), vp.Int32("n1", 1, 536870911)
	s0, s1 := vp.String("s0", "abc", 1, 1), vp.String("s1", "abc", 1, 1)
	vp.Assume(n0 != n1 && s0 != s1)
	o := [2]int{vp.Choice("o0", 3), vp.Choice("o1", 3)}
	vs := []*reflectv1.EnumValue{{Name: "A", Number: vp.Int32("v0", -2, 3)}, {Name: "B", Number: vp.Int32("v1", -2, 3)}}
	m := &reflectv1.Message{Name: "M", NestedEnums: []*reflectv1.Enum{{Name: "E", EnumValues: vs}}}
	m.MessageFields = []*reflectv1.MessageField{{Name: s0, Number: n0}, {Name: s1, Number: n1}}
	nums := []int32{n0, n1}
	for i := 1; i < 3; i++ {
		oo := &reflectv1.MessageOneof{Name: "o" + d(i)}
		for k := range o {
			if o[k] == i {
				oo.FieldNumbers = append(oo.FieldNumbers, nums[k])
			}
		}
		m.MessageOneofs = append(m.MessageOneofs, oo)
	}
	top := m
	for i := depth - 1; i >= 0; i-- {
		top = &reflectv1.Message{Name: "N" + d(i), NestedMessages: []*reflectv1.Message{top}}
	}
	p := &reflectv1.Package{Name: pkg, Messages: []*reflectv1.Message{top, {Name: "Other"}}, Enums: []*reflectv1.Enum{{Name: "F", EnumValues: vs}}}
	p.Services = []*reflectv1.Service{{Name: "S", ServiceMethods: []*reflectv1.ServiceMethod{{Name: "A"}, {Name: "B"}}}}
	x, err := extract.NewPackageSet(&reflectv1.PackageSet{Packages: []*reflectv1.Package{p}})
	vp.Assert(err == nil, "a valid model is linked")
	g := x.PackageNameToPackage()[pkg]
	vp.Assert(g != nil && len(g.EnumNameToEnum()) == 1 && len(g.MessageNameToMessage()) == 2 && len(g.ServiceNameToService()) == 1, "a package has all its members")
	checkEnum(g.EnumNameToEnum()["F"], pkg+".F", vs)
	sv := g.ServiceNameToService()["S"]
	vp.Assert(sv.FullyQualifiedName() == pkg+".S" && len(sv.MethodNameToMethod()) == 2, "a service has its full name and methods")
	for _, n := range []string{"A", "B"} {
		k, ok := sv.MethodNameToMethod()[n]
		vp.Assert(ok && k.ProtoMessage().Name == n && k.Service() == sv, "a method is found by name")
	}
	full := pkg
	ms := g.MessageNameToMessage()
	for i := 0; i < depth; i++ {
		full += ".N" + d(i)
		k, ok := ms["N"+d(i)]
		vp.Assert(ok && k.FullyQualifiedName() == full, "a nesting message has its full name")
		ms = k.NestedMessageNameToMessage()
		vp.Assert(len(ms) == 1, "a nesting message has its nested message")
	}
	full += ".M"
	k, ok := ms["M"]
	vp.Assert(ok && k.FullyQualifiedName() == full, "a message has its full name")
	vp.Assert(len(k.NestedEnumNameToEnum()) == 1, "a message has its enums")
	checkEnum(k.NestedEnumNameToEnum()["E"], full+".E", vs)
	vp.Assert(len(k.FieldNameToField()) == 2 && len(k.FieldNumberToField()) == 2 && len(k.OneofNameToOneof()) == 2, "a message has its fields and oneofs")
	for i, n := range nums {
		f := k.FieldNumberToField()[n]
		vp.Assert(f != nil && f.ProtoMessage().Number == n && f.ProtoMessage().Name == []string{s0, s1}[i], "a field is found by number")
		vp.Assert(k.FieldNameToField()[[]string{s0, s1}[i]] == f, "a field is found by name")
		vp.Assert(f.Message() == k, "a field knows its message")
		for j := 1; j < 3; j++ {
			oo := k.OneofNameToOneof()["o"+d(j)]
			vp.Assert(oo != nil && oo.Message() == k && oo.ProtoMessage().Name == "o"+d(j), "a oneof is found by name")
			_, byNum := oo.FieldNumberToField()[n]
			_, byName := oo.FieldNameToField()[f.ProtoMessage().Name]
			vp.Assert(byNum == (o[i] == j) && byName == (o[i] == j), "a oneof has exactly its fields")
			if o[i] == j {
				vp.Assert(f.MessageOneof() == oo && oo.FieldNumberToField()[n] == f, "a field knows its oneof")
			}
		}
		if o[i] == 0 {
			vp.Assert(f.MessageOneof() == nil, "a field outside oneofs has none")
		}
	}
	vp.Reach("end")
}

// A message with two fields of any numbers from 1 to 9 and a oneof with one or two members of any numbers from 1 to 9.
//
//vp:harness X02 reach=ok,error
func OneofMembers() {
	n0, n1 := vp.Int32("n0", 1, 9), vp.Int32("n1", 1, 9)
	m0, m1 := vp.Int32("m0", 1, 9), vp.Int32("m1", 1, 9)
	vp.Assume(n0 != n1)
	o := &reflectv1.MessageOneof{Name: "o", FieldNumbers: []int32{m0}}
	if vp.Choice("two", 2) == 1 {
		o.FieldNumbers = append(o.FieldNumbers, m1)
	} else {
		vp.Assume(m1 == m0)
	}
	m := &reflectv1.Message{Name: "M", MessageFields: []*reflectv1.MessageField{{Name: "a", Number: n0}, {Name: "b", Number: n1}}, MessageOneofs: []*reflectv1.MessageOneof{o}}
	_, err := extract.NewPackageSet(&reflectv1.PackageSet{Packages: []*reflectv1.Package{{Name: "a", Messages: []*reflectv1.Message{m}}}})
	if (m0 == n0 || m0 == n1) && (m1 == n0 || m1 == n1) {
		vp.Assert(err == nil, "a oneof of existing fields is accepted")
		vp.Reach("ok")
		return
	}
	vp.Assert(err != nil, "a oneof with an unknown field is an error")
	vp.Reach("error")
}
