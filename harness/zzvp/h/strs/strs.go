// Package strs has harnesses for the naming vocabulary.
package strs

import (
	"github.com/uber/prototool/internal/strs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// n is the length bound: q in quick and t in thorough runs.
func n(q, t int) int {
	if vp.Tier() == 1 {
		return t
	}
	return q
}

func lo(b byte) bool { return b >= 'a' && b <= 'z' }
func up(b byte) bool { return b >= 'A' && b <= 'Z' }
func dg(b byte) bool { return b >= '0' && b <= '9' }

func lowerB(b byte) byte {
	if up(b) {
		return b + 32
	}
	return b
}

func upperB(b byte) byte {
	if lo(b) {
		return b - 32
	}
	return b
}

// Every string of up to 4 (thorough: 6) bytes, including malformed UTF-8.
//
//vp:harness S01 reach=ok
func Pred() {
	s := vp.String("s", "", 0, n(4, 6))
	camel, lsn, usn := len(s) > 0, len(s) > 0, len(s) > 0
	for i := 0; i < len(s); i++ {
		b := s[i]
		camel = camel && (lo(b) || up(b) || dg(b))
		lsn = lsn && (lo(b) || dg(b) || b == '_')
		usn = usn && (up(b) || dg(b) || b == '_')
	}
	if len(s) > 0 {
		ends := s[0] == '_' || s[len(s)-1] == '_'
		lsn = lsn && !ends
		usn = usn && !ends
	}
	vp.Assert(strs.IsCamelCase(s) == camel, "CamelCase means letters and digits only")
	vp.Assert(strs.IsLowerSnakeCase(s) == lsn, "lower_snake_case means lowercase letters, digits and inner underscores")
	vp.Assert(strs.IsUpperSnakeCase(s) == usn, "UPPER_SNAKE_CASE means uppercase letters, digits and inner underscores")
	vp.Assert(strs.IsCapitalized(s) == (len(s) > 0 && up(s[0])), "capitalized means starting with A to Z")
	vp.ObserveBool("c", camel)
	vp.Reach("ok")
}

// Every ASCII string of up to 4 (thorough: 6) bytes.
//
//vp:harness S01 reach=ok
func Case() {
	s := vp.String("s", "", 0, n(4, 6))
	anyUp, anyLo := false, false
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] < 128)
		anyUp = anyUp || up(s[i])
		anyLo = anyLo || lo(s[i])
	}
	vp.Assert(strs.IsLowercase(s) == (len(s) > 0 && !anyUp), "lowercase means no capital")
	vp.Assert(strs.IsUppercase(s) == (len(s) > 0 && !anyLo), "uppercase means no small letter")
	vp.Reach("ok")
}

func in(l []string, s string) bool {
	r := false
	for _, x := range l {
		r = r || x == s
	}
	return r
}

func sorted(l []string) bool {
	r := true
	for i := 1; i < len(l); i++ {
		r = r && l[i-1] < l[i]
	}
	return r
}

// Three strings of up to 2 letters, with and without a modifier that merges case.
//
//vp:harness S01 reach=ok shards=2
func Uniq() {
	mod := vp.Shard(2) == 1
	a := []string{vp.String("a", "aB", 0, 2), vp.String("b", "aB", 0, 2), vp.String("c", "aB", 0, 2)}
	var r []string
	if mod {
		r = strs.SortUniqModify(a, func(s string) string {
			if s == "B" {
				return ""
			}
			return s + "x"
		})
	} else {
		r = strs.SortUniq(a)
	}
	vp.Assert(sorted(r), "sorted, no duplicates")
	cnt := 0
	for i, x := range a {
		skip := x == "" && !mod || x == "B" && mod
		y := x
		if mod {
			y = x + "x"
		}
		vp.Assert(skip || in(r, y), "every element is kept")
		dup := false
		for _, z := range a[:i] {
			dup = dup || z == x
		}
		if !skip && !dup {
			cnt++
		}
	}
	vp.Assert(len(r) == cnt, "nothing is added")
	vp.Reach("ok")
}

// Two lists of two strings of up to 1 letter.
//
//vp:harness S01 reach=ok
func Inter() {
	a := []string{vp.String("a", "aB", 0, 1), vp.String("b", "aBc", 0, 1)}
	b := []string{vp.String("c", "aB", 0, 1), vp.String("d", "aBc", 0, 1)}
	r := strs.Intersection(a, b)
	vp.Assert(sorted(r), "sorted, no duplicates")
	for _, x := range a {
		if x != "" && in(b, x) {
			vp.Assert(in(r, x), "common elements are kept")
		}
	}
	for _, x := range r {
		vp.Assert(x != "" && in(a, x) && in(b, x), "only common elements")
	}
	vp.Reach("ok")
}

// starts says whether a word starts at the capital s[i], i > 0.
func starts(s string, i int) bool {
	return s[i-1] != '_' && (lo(s[i-1]) || i+1 < len(s) && !up(s[i+1]))
}

func snake(s string) []byte {
	var r []byte
	for i := 0; i < len(s); i++ {
		if i > 0 && up(s[i]) && starts(s, i) {
			r = append(r, '_')
		}
		r = append(r, s[i])
	}
	return r
}

// Every string of up to 5 (thorough: 7) letters, digits and underscores.
//
//vp:harness S01 reach=ok,camel
func Snake() {
	s := vp.String("s", "abzAMZ09_", 0, n(5, 7))
	l, u := strs.ToLowerSnakeCase(s), strs.ToUpperSnakeCase(s)
	w := snake(s)
	wl, wu := make([]byte, len(w)), make([]byte, len(w))
	for i, b := range w {
		wl[i], wu[i] = lowerB(b), upperB(b)
	}
	vp.Assert(l == string(wl), "lower_snake_case separates at the word starts")
	vp.Assert(u == string(wu), "UPPER_SNAKE_CASE separates at the word starts")
	if strs.IsCamelCase(s) {
		vp.Assert(strs.IsLowerSnakeCase(l), "CamelCase converts to lower_snake_case")
		vp.Assert(strs.IsUpperSnakeCase(u), "CamelCase converts to UPPER_SNAKE_CASE")
		vp.Reach("camel")
	}
	if strs.IsLowerSnakeCase(s) {
		vp.Assert(l == s, "lower_snake_case stays")
	}
	vp.Observe("l", l)
	vp.Reach("ok")
}

// Every string of up to 4 (thorough: 6) letters, digits, delimiters and a dot.
//
//vp:harness S01 reach=ok
func Camel() {
	s := vp.String("s", "azAZ0_- .", 0, n(4, 6))
	got := strs.ToUpperCamelCase(s)
	i, j := 0, len(s)
	for i < j && s[i] == ' ' {
		i++
	}
	for i < j && s[j-1] == ' ' {
		j--
	}
	var w []byte
	first := true
	for ; i < j; i++ {
		b := s[i]
		if b == '_' || b == '-' || b == ' ' {
			first = true
			continue
		}
		if first {
			w = append(w, upperB(b))
		} else {
			w = append(w, b)
		}
		first = false
	}
	vp.Assert(got == string(w), "UpperCamelCase capitalizes each word and drops delimiters")
	vp.Observe("got", got)
	vp.Reach("ok")
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = r && a[i] == b[i]
	}
	return r
}

// Every string of up to 4 (thorough: 6) letters, digits, underscores, and a dash.
//
//vp:harness S01 reach=ok
func SplitCamel() {
	s := vp.String("s", "azAZ0_-", 0, n(4, 6))
	got := strs.SplitCamelCaseWord(s)
	var want []string
	ok := len(s) > 0
	cur := ""
	for i := 0; i < len(s); i++ {
		ok = ok && (lo(s[i]) || up(s[i]) || dg(s[i]))
		if i > 0 && up(s[i]) && starts(s, i) {
			want = append(want, cur)
			cur = ""
		}
		cur += s[i : i+1]
	}
	want = append(want, cur)
	if !ok {
		want = nil
	}
	vp.Assert(eq(got, want), "a CamelCase word splits at its word starts, anything else gives nothing")
	vp.Reach("ok")
}

// Every string of up to 5 (thorough: 7) letters, digits, underscores, and a dash.
//
//vp:harness S01 reach=ok
func SplitSnake() {
	s := vp.String("s", "aZ0_-", 0, n(5, 7))
	got := strs.SplitSnakeCaseWord(s)
	var want []string
	ok := len(s) > 0 && s[0] != '_' && s[len(s)-1] != '_'
	cur := ""
	for i := 0; i < len(s); i++ {
		ok = ok && (lo(s[i]) || up(s[i]) || dg(s[i]) || s[i] == '_')
		if s[i] == '_' {
			if cur != "" {
				want = append(want, cur)
			}
			cur = ""
			continue
		}
		cur += s[i : i+1]
	}
	if cur != "" {
		want = append(want, cur)
	}
	if !ok {
		want = nil
	}
	vp.Assert(eq(got, want), "a snake_case word splits at its underscores, anything else gives nothing")
	vp.Reach("ok")
}
