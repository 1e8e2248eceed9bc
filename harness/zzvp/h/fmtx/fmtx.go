// Package fmtx has harnesses for the formatter.
package fmtx

import (
	"strconv"

	"github.com/emicklei/proto"

	"github.com/uber/prototool/internal/format"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func n(i int) string { return strconv.Itoa(i) }

func transform(in string, opts ...format.TransformerOption) string {
	out, fs, err := format.NewTransformer(opts...).Transform("a.proto", []byte(in))
	vp.Assert(err == nil && len(fs) == 0, "a file is formatted without failure")
	return string(out)
}

// twice checks that formatting changes nothing the second time.
func twice(in string) {
	p := parse(in)
	vp.Assume(p != nil && all(p.Elements))
	out := transform(in)
	vp.Assert(parse(out) != nil, "the formatted file can be parsed")
	vp.Assert(transform(out) == out, "formatting again changes nothing")
	vp.Reach("end")
}

// kept checks that formatting keeps what the file means.
func kept(in string) {
	p := parse(in)
	vp.Assume(p != nil && all(p.Elements))
	q := parse(transform(in))
	vp.Assert(q != nil, "the formatted file can be parsed")
	if d := differ(p, q, dump{}); d != "" {
		vp.Assert(false, "the formatted file declares the same: "+d)
	}
	if d := differ(p, q, dump{empties: true}); d != "" {
		vp.Finding("nested-empty", false, "an empty message inside of an option is kept")
	}
	if d := differ(p, q, dump{methods: true}); d != "" {
		vp.Finding("method-comments", false, "a comment between the braces of a method is kept")
	}
	vp.Reach("end")
}

// differ gives the first difference.
func differ(p, q *proto.Proto, d dump) string {
	d.comments = true
	a, b := d.file(p), d.file(q)
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return a[i]
		}
	}
	if len(b) > len(a) {
		return b[len(a)]
	}
	return ""
}
