// Package dif has harnesses for diffs.
package dif

import (
	"strconv"

	"github.com/uber/prototool/internal/diff"
	"github.com/uber/prototool/internal/zzvp/patch"
	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func check(a, b, file string) {
	out, err := diff.Do([]byte(a), []byte(b), file)
	d := string(out)
	vp.Assert(err == nil, "a diff has no error")
	if a == b {
		vp.Assert(d == "", "the diff of equal contents is empty")
		vp.Reach("equal")
		return
	}
	got, from, to, ok := patch.Apply(a, d)
	vp.Assert(ok, "the diff is a diff of the first content")
	vp.Assert(got == b, "the diff makes the second content out of the first")
	vp.Assert(from == file+".orig" && to == file, "the diff names the file")
	vp.Reach("differ")
}

// Any two contents of up to five bytes over five characters (seven thorough).
//
//vp:harness V01 reach=equal,differ merge=off
func Contents() {
	n := 5 + 2*vp.Tier()
	check(vp.String("a", "x-+\n\t", 0, n), vp.String("b", "x-+\n\t", 0, n), "d/a.proto")
}

// Any file name of up to six characters over six, for several contents.
//
//vp:harness V01 reach=differ merge=off
func Names() {
	a := []string{"a\n", "", "--- x\n+++ y\n", "a\nb\nc\n"}[vp.Choice("a", 4)]
	b := []string{"b\n", "b", "--- x\ty\n", "a\nc\nc\n"}[vp.Choice("b", 4)]
	check(a, b, vp.String("name", "a/. %+", 1, 6))
}

// A long content with one changed line at any of forty places.
//
//vp:harness V01 reach=differ merge=off
func Long() {
	at := vp.Choice("at", 40)
	how := vp.Choice("how", 3)
	a, b := "", ""
	for i := 0; i < 40; i++ {
		l := "l" + strconv.Itoa(i/2) + "\n"
		a += l
		if i != at {
			b += l
		} else if how == 0 {
			b += "other\n"
		} else if how == 1 {
			b += l + l
		}
	}
	check(a, b, "a.proto")
}

// Without a program for diffs, every pair of contents of up to three bytes is an
// error or without difference.
//
//vp:harness V01 reach=missing merge=off
func Missing() {
	vfs.NoDiff()
	a, b := vp.String("a", "x\n", 0, 3), vp.String("b", "x\n", 0, 3)
	out, err := diff.Do([]byte(a), []byte(b), "a.proto")
	vp.Assert(err != nil || (len(out) == 0) == (a == b), "a difference that cannot be shown is an error")
	vp.Reach("missing")
}
