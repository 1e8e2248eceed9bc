// Package pstr has harnesses for derived option values and versions.
package pstr

import (
	"strings"

	"github.com/uber/prototool/internal/protostrs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func n(q, t int) int {
	if vp.Tier() == 1 {
		return t
	}
	return q
}

func dg(b byte) bool { return b >= '0' && b <= '9' }

func upperB(b byte) byte {
	if b >= 'a' && b <= 'z' {
		return b - 32
	}
	return b
}

// num reads a number of at most 4 digits.
func num(s string) (uint64, bool) {
	if s == "" {
		return 0, false
	}
	v := uint64(0)
	for i := 0; i < len(s); i++ {
		if !dg(s[i]) {
			return 0, false
		}
		v = v*10 + uint64(s[i]-'0')
	}
	return v, true
}

func version(last string) (uint64, uint64, bool) {
	if len(last) < 2 || last[0] != 'v' {
		return 0, 0, false
	}
	r := last[1:]
	i := strings.Index(r, "beta")
	if i < 0 {
		a, ok := num(r)
		if !ok || a == 0 {
			return 0, 0, false
		}
		return a, 0, true
	}
	a, ok1 := num(r[:i])
	b, ok2 := num(r[i+4:])
	if !ok1 || !ok2 || a == 0 || b == 0 {
		return 0, 0, false
	}
	return a, b, true
}

func checkVersion(pkg, last string, single bool) {
	a, b, ok := protostrs.MajorBetaVersion(pkg)
	wa, wb, wok := version(last)
	if single {
		wa, wb, wok = 0, 0, false
	}
	vp.Assert(ok == wok, "exactly versioned packages have a version")
	vp.Assert(a == wa && b == wb, "the numbers are those written")
	if ok {
		vp.Reach("version")
	} else {
		vp.Reach("none")
	}
}

// Last component v, up to 5 (thorough: 7) bytes of digits, signs and letters; with and without a first component.
//
//vp:harness S03 reach=version,none shards=2
func Major() {
	last := vp.String("last", "v012+-_x", 0, n(4, 6))
	if vp.Shard(2) == 0 {
		checkVersion("a."+last, last, false)
	} else {
		checkVersion(last, last, true)
		vp.Reach("version")
	}
}

// Last component vMbetaN with up to 2 bytes around beta and after it.
//
//vp:harness S03 reach=version,none shards=2
func Beta() {
	a := vp.String("a", "v019+-.", 0, n(3, 4))
	b := vp.String("b", "019bv+-_.", 0, n(2, 3))
	s := a + "beta" + b
	pkg := s
	if vp.Shard(2) == 0 {
		pkg = "p.q." + s
	}
	last := pkg[strings.LastIndexByte(pkg, '.')+1:]
	checkVersion(pkg, last, strings.IndexByte(pkg, '.') < 0)
}

// Every name of up to 2 bytes around two occurrences of beta.
//
//vp:harness S03 reach=none
func BetaBeta() {
	a := vp.String("a", "v1", 0, 2)
	b := vp.String("b", "1", 0, 1)
	c := vp.String("c", "1", 0, 1)
	_, _, ok := protostrs.MajorBetaVersion("p." + a + "beta" + b + "beta" + c)
	vp.Assert(!ok, "beta occurs once")
	vp.Reach("none")
}

// Numbers near the largest representable version.
//
//vp:harness S03 reach=version,none
func Big() {
	d := vp.String("d", "0123456789", 2, 2)
	a, b, ok := protostrs.MajorBetaVersion("p.v184467440737095516" + d)
	v, _ := num(d)
	vp.Assert(ok == (v <= 15), "versions that do not fit are no versions")
	if ok {
		vp.Assert(b == 0 && a == 18446744073709551600+v, "the numbers are those written")
		vp.Reach("version")
	} else {
		vp.Reach("none")
	}
}

// parts splits at dots.
func parts(s string) []string {
	var r []string
	j := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			r = append(r, s[j:i])
			j = i + 1
		}
	}
	return r
}

func title(s string) string {
	if s == "" {
		return ""
	}
	return string([]byte{upperB(s[0])}) + s[1:]
}

func num2(s string) string {
	for len(s) > 1 && s[0] == '0' {
		s = s[1:]
	}
	return s
}

func csharp(ps []string) string {
	last := ps[len(ps)-1]
	_, b, ok := version(last)
	r := ""
	for i, p := range ps {
		if i > 0 {
			r += "."
		}
		if i == len(ps)-1 && len(ps) > 1 && ok && b > 0 {
			j := strings.Index(last, "beta")
			r += "V" + num2(last[1:j]) + "Beta" + num2(last[j+4:])
			continue
		}
		r += title(p)
	}
	return r
}

func checkNS(pkg string) {
	w := ""
	if pkg != "" {
		w = csharp(parts(pkg))
	}
	vp.Assert(protostrs.CSharpNamespace(pkg) == w, "csharp_namespace capitalizes each component, with beta versions as VxBetay")
	vp.Assert(protostrs.PHPNamespace(pkg) == strings.Replace(w, ".", "\\\\", -1), "php_namespace is the same with escaped backslashes")
	vp.Reach("end")
}

// Every package name of up to 5 (thorough: 7) bytes.
//
//vp:harness S02 reach=end
func Namespace() {
	checkNS(vp.String("pkg", "abV1_.", 0, n(5, 7)))
}

// Every package name of up to 3 (thorough: 4) bytes before a beta version with numbers of 1 to 2 digits.
//
//vp:harness S02 reach=end
func NamespaceBeta() {
	checkNS(vp.String("pkg", "abV1_.", 0, n(3, 4)) + ".v" + vp.String("m", "0129", 1, 2) + "beta" + vp.String("b", "019", 0, 2))
}

func split(pkg string) ([]string, bool) {
	ps := parts(pkg)
	_, _, ok := version(ps[len(ps)-1])
	return ps, ok && len(ps) > 1
}

func checkGo(pkg string) {
	g, g2, o := protostrs.GoPackage(pkg), protostrs.GoPackageV2(pkg), protostrs.OBJCClassPrefix(pkg)
	j, jp := protostrs.JavaPackage(pkg), protostrs.JavaPackagePrefixOverride(pkg, vp.String("prefix", "xy", 0, 1))
	prefix := vp.String("prefix2", "xy", 0, 1)
	jp2 := protostrs.JavaPackagePrefixOverride(pkg, prefix)
	if pkg == "" {
		vp.Assert(g == "" && g2 == "" && o == "" && j == "" && jp == "" && jp2 == "", "no package means no option values")
		return
	}
	ps, versioned := split(pkg)
	last := ps[len(ps)-1]
	vp.Assert(g == last+"pb", "go_package is the last component followed by pb")
	if versioned {
		vp.Assert(g2 == ps[len(ps)-2]+last, "versioned go_package is the last two components")
		vp.Reach("versioned")
	} else {
		vp.Assert(g2 == last+"pb", "unversioned go_package is the last component followed by pb")
	}
	vp.Assert(j == "com."+pkg, "java_package starts with com")
	if prefix != "" {
		vp.Assert(jp2 == prefix+"."+pkg, "java_package starts with the configured prefix")
	} else {
		vp.Assert(jp2 == "com."+pkg, "java_package starts with com")
	}
	if versioned {
		ps = ps[:len(ps)-1]
	}
	w := ""
	for _, p := range ps {
		if p != "" {
			w += string([]byte{upperB(p[0])})
		}
	}
	if len(w) == 1 {
		w += "XX"
	} else if len(w) == 2 {
		w += "X"
	} else if w == "GPB" {
		w = "GPX"
	}
	vp.Assert(o == w, "objc_class_prefix has the initials of the components without the version")
	vp.Reach("end")
}

// Every package name of up to 5 (thorough: 7) bytes, java prefixes of up to 1.
//
//vp:harness S02 reach=end,versioned
func Packages() {
	checkGo(vp.String("pkg", "gpbv1.", 0, n(5, 7)))
}

// Every package name of up to 4 one-letter components, with and without a beta version.
//
//vp:harness S02 reach=end,versioned shards=2
func Initials() {
	s := ""
	for i, k := 0, vp.Choice("n", 4); i <= k; i++ {
		if i > 0 {
			s += "."
		}
		s += vp.String("c"+string([]byte{byte('0' + i)}), "gpbx", 1, 1) + "y"
	}
	if vp.Shard(2) == 0 {
		s += ".v1beta" + vp.String("b", "01", 1, 1)
	} else {
		vp.Reach("versioned")
	}
	checkGo(s)
}

// Every file name of up to 5 (thorough: 6) bytes with and without an extension and one directory.
//
//vp:harness S02 reach=end shards=2
func Outer() {
	s := vp.String("s", "aB1_-.", 0, n(4, 5))
	name := s
	if vp.Shard(2) == 1 {
		s = vp.String("dir", "aB_.", 0, 2) + "/" + s + ".proto"
		name = name + ".proto"
		vp.Assume(name != ".proto" || true)
	}
	if s == "" {
		vp.Assert(protostrs.JavaOuterClassname(s) == "", "no file name means no class name")
		vp.Reach("end")
		return
	}
	i := strings.LastIndexByte(name, '.')
	if i >= 0 {
		name = name[:i]
	}
	w := ""
	first := true
	for i := 0; i < len(name); i++ {
		if name[i] == '_' || name[i] == '-' {
			first = true
			continue
		}
		if first {
			w += string([]byte{upperB(name[i])})
		} else {
			w += name[i : i+1]
		}
		first = false
	}
	vp.Assert(protostrs.JavaOuterClassname(s) == w+"Proto", "java_outer_classname is the camel case file name followed by Proto")
	vp.Reach("end")
}

// Versions of 1 to 19 digits, the first and the last one arbitrary, with and without a beta number of as many digits.
//
//vp:harness S03 reach=version shards=38
func Lengths() {
	k := vp.Shard(38)
	n := k/2 + 1
	d := vp.String("first", "1289", 1, 1)
	if n > 1 {
		for i := 2; i < n; i++ {
			d += "9"
		}
		d += vp.String("last", "0189", 1, 1)
	}
	v := uint64(0)
	for i := 0; i < len(d); i++ {
		v = v*10 + uint64(d[i]-'0')
	}
	if k%2 == 0 {
		a, b, ok := protostrs.MajorBetaVersion("p.v" + d)
		vp.Assert(ok && a == v && b == 0, "the numbers are those written")
	} else {
		a, b, ok := protostrs.MajorBetaVersion("p.v" + d + "beta" + d)
		vp.Assert(ok && a == v && b == v, "the numbers are those written")
	}
	vp.Reach("version")
}

// Beta versions of 1 to 19 digits, the first and the last one arbitrary.
//
//vp:harness S02 reach=end shards=19
func NamespaceNumbers() {
	n := vp.Shard(19) + 1
	d := vp.String("first", "1289", 1, 1)
	if n > 1 {
		for i := 2; i < n; i++ {
			d += "9"
		}
		d += vp.String("last", "0189", 1, 1)
	}
	pkg := "p.v" + d + "beta" + d
	vp.Assert(protostrs.CSharpNamespace(pkg) == "P.V"+d+"Beta"+d, "namespaces keep the numbers")
	vp.Assert(protostrs.GoPackageV2(pkg) == "pv"+d+"beta"+d, "go_package keeps the numbers")
	vp.Reach("end")
}
