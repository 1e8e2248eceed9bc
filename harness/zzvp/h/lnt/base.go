// Package lnt has harnesses for the lint rules.
package lnt

import (
	"strings"

	"github.com/emicklei/proto"
	"github.com/uber/prototool/internal/file"
	"github.com/uber/prototool/internal/lint"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/text"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// n is the length bound: q in quick and t in thorough runs.
func n(q, t int) int {
	if vp.Tier() == 1 {
		return t
	}
	return q
}

// fd parses a file the way the lint command does.
func fd(name, src string, lc settings.LintConfig) *lint.FileDescriptor {
	p := proto.NewParser(strings.NewReader(src))
	p.Filename(name)
	f, err := p.Parse()
	vp.Assert(err == nil, "the template is a valid file")
	return &lint.FileDescriptor{
		Proto:    f,
		ProtoSet: &file.ProtoSet{Config: settings.Config{DirPath: "/w", Lint: lc}},
		FileData: src,
	}
}

// rule finds a rule by its identifier.
func rule(id string) lint.Linter {
	for _, l := range lint.AllLinters {
		if l.ID() == id {
			return l
		}
	}
	vp.Assert(false, "rule "+id+" exists")
	return nil
}

// run runs one rule over the files of one directory.
func run(id string, fds ...*lint.FileDescriptor) []*text.Failure {
	fs, err := lint.CheckMultiple([]lint.Linter{rule(id)}, map[string][]*lint.FileDescriptor{"/w": fds}, nil)
	vp.Assert(err == nil, "linting succeeds")
	return fs
}

// node is one element of a parsed file.
type node struct {
	kind string
	line int
	v    proto.Visitee
	// messages around it, outermost first, and the enum or service around it
	outer []*proto.Message
	enum  *proto.Enum
	svc   *proto.Service
	rpc   *proto.RPC
	oneof *proto.Oneof
}

// walk lists the elements of a file, with their surroundings.
func walk(f *proto.Proto) []*node {
	var out []*node
	for _, e := range f.Elements {
		out = add(out, e, node{})
	}
	return out
}

func add(out []*node, e proto.Visitee, in node) []*node {
	c := in
	c.v = e
	switch x := e.(type) {
	case *proto.Message:
		c.kind, c.line = "message", x.Position.Line
		if x.IsExtend {
			c.kind = "extend"
		}
		out = append(out, &c)
		d := in
		d.outer = append(append([]*proto.Message{}, in.outer...), x)
		for _, k := range x.Elements {
			out = add(out, k, d)
		}
	case *proto.Enum:
		c.kind, c.line = "enum", x.Position.Line
		out = append(out, &c)
		d := in
		d.enum = x
		for _, k := range x.Elements {
			out = add(out, k, d)
		}
	case *proto.EnumField:
		c.kind, c.line = "value", x.Position.Line
		out = append(out, &c)
		for _, k := range x.Elements {
			out = add(out, k, in)
		}
	case *proto.Oneof:
		c.kind, c.line = "oneof", x.Position.Line
		out = append(out, &c)
		d := in
		d.oneof = x
		for _, k := range x.Elements {
			out = add(out, k, d)
		}
	case *proto.NormalField:
		c.kind, c.line = "field", x.Position.Line
		out = append(out, &c)
		for _, k := range x.Options {
			out = add(out, k, in)
		}
	case *proto.OneOfField:
		c.kind, c.line = "field", x.Position.Line
		out = append(out, &c)
		for _, k := range x.Options {
			out = add(out, k, in)
		}
	case *proto.MapField:
		c.kind, c.line = "mapfield", x.Position.Line
		out = append(out, &c)
		for _, k := range x.Options {
			out = add(out, k, in)
		}
	case *proto.Service:
		c.kind, c.line = "service", x.Position.Line
		out = append(out, &c)
		d := in
		d.svc = x
		for _, k := range x.Elements {
			out = add(out, k, d)
		}
	case *proto.RPC:
		c.kind, c.line = "rpc", x.Position.Line
		out = append(out, &c)
		d := in
		d.rpc = x
		for _, k := range x.Elements {
			out = add(out, k, d)
		}
	case *proto.Option:
		c.kind, c.line = "option", x.Position.Line
		out = append(out, &c)
	case *proto.Import:
		c.kind, c.line = "import", x.Position.Line
		out = append(out, &c)
	case *proto.Package:
		c.kind, c.line = "package", x.Position.Line
		out = append(out, &c)
	case *proto.Syntax:
		c.kind, c.line = "syntax", x.Position.Line
		out = append(out, &c)
	case *proto.Reserved:
		c.kind, c.line = "reserved", x.Position.Line
		out = append(out, &c)
	case *proto.Extensions:
		c.kind, c.line = "extensions", x.Position.Line
		out = append(out, &c)
	case *proto.Comment:
		c.kind, c.line = "comment", x.Position.Line
		out = append(out, &c)
	case *proto.Group:
		c.kind, c.line = "group", x.Position.Line
		out = append(out, &c)
		for _, k := range x.Elements {
			out = add(out, k, in)
		}
	}
	return out
}

func (x *node) field() *proto.Field {
	switch y := x.v.(type) {
	case *proto.NormalField:
		return y.Field
	case *proto.OneOfField:
		return y.Field
	case *proto.MapField:
		return y.Field
	}
	return nil
}

// name points to the name of the element.
func (x *node) name() *string {
	switch y := x.v.(type) {
	case *proto.Message:
		return &y.Name
	case *proto.Enum:
		return &y.Name
	case *proto.EnumField:
		return &y.Name
	case *proto.Oneof:
		return &y.Name
	case *proto.NormalField:
		return &y.Field.Name
	case *proto.OneOfField:
		return &y.Field.Name
	case *proto.MapField:
		return &y.Field.Name
	case *proto.Service:
		return &y.Name
	case *proto.RPC:
		return &y.Name
	case *proto.Option:
		return &y.Name
	case *proto.Package:
		return &y.Name
	case *proto.Group:
		return &y.Name
	}
	return nil
}

// comment points to the leading comment of the element.
func (x *node) comment() **proto.Comment {
	switch y := x.v.(type) {
	case *proto.Message:
		return &y.Comment
	case *proto.Enum:
		return &y.Comment
	case *proto.EnumField:
		return &y.Comment
	case *proto.Oneof:
		return &y.Comment
	case *proto.NormalField:
		return &y.Field.Comment
	case *proto.OneOfField:
		return &y.Field.Comment
	case *proto.MapField:
		return &y.Field.Comment
	case *proto.Service:
		return &y.Comment
	case *proto.RPC:
		return &y.Comment
	case *proto.Option:
		return &y.Comment
	case *proto.Package:
		return &y.Comment
	case *proto.Syntax:
		return &y.Comment
	case *proto.Import:
		return &y.Comment
	case *proto.Reserved:
		return &y.Comment
	case *proto.Extensions:
		return &y.Comment
	case *proto.Group:
		return &y.Comment
	}
	return nil
}

// inline points to the inline comment of the element.
func (x *node) inline() **proto.Comment {
	switch y := x.v.(type) {
	case *proto.EnumField:
		return &y.InlineComment
	case *proto.NormalField:
		return &y.Field.InlineComment
	case *proto.OneOfField:
		return &y.Field.InlineComment
	case *proto.MapField:
		return &y.Field.InlineComment
	case *proto.RPC:
		return &y.InlineComment
	case *proto.Option:
		return &y.InlineComment
	case *proto.Package:
		return &y.InlineComment
	case *proto.Syntax:
		return &y.InlineComment
	case *proto.Import:
		return &y.InlineComment
	case *proto.Reserved:
		return &y.InlineComment
	case *proto.Extensions:
		return &y.InlineComment
	}
	return nil
}

// expect asserts that the failures of a rule are exactly those expected: want
// gives the number of failures for each line that has an element, 0 being the
// file itself.
func expect(id, file string, fs []*text.Failure, want map[int]int, max int) {
	got := make([]int, max+1)
	for _, f := range fs {
		vp.Assert(f.Filename == file, id+" names the file")
		vp.Assert(f.LintID == id, "failures are labelled with the rule")
		vp.Assert(f.Line >= 0 && f.Line <= max, id+" names a line of the file")
		got[f.Line]++
	}
	for i := 0; i <= max; i++ {
		vp.Assert(got[i] == want[i], id+" reports exactly the violating elements")
	}
}
