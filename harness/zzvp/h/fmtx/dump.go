package fmtx

import (
	"bytes"
	"sort"
	"strconv"
	"strings"

	"github.com/emicklei/proto"

	"github.com/uber/prototool/internal/zzvp/vp"
)

// dump is the meaning of a file: what it declares, in a normal form. With
// comments, also the comments of every element and those that stand alone.
type dump struct {
	comments bool
	empties  bool // keep empty messages and lists inside of messages
	methods  bool // with the comments between the braces of methods
	out      []string
}

func (d *dump) add(parts ...string) { d.out = append(d.out, strings.Join(parts, " ")) }

func lines(c *proto.Comment) string {
	if c == nil {
		return ""
	}
	s := ""
	for _, l := range c.Lines {
		l = strings.TrimSpace(strings.TrimLeft(l, "/"))
		if l != "" {
			s += "|" + l
		}
	}
	return s
}

func (d *dump) doc(before *proto.Comment, inline *proto.Comment) {
	if d.comments {
		d.add("doc", lines(before), "inline", strings.Replace(lines(inline), "|", " ", -1))
	}
}

// empty says that a literal has no value: {} or [], or only names with such.
func empty(l *proto.Literal) bool {
	for _, e := range l.OrderedMap {
		if !empty(e.Literal) {
			return false
		}
	}
	return !l.IsString && l.Source == "" && len(l.Array) == 0
}

// literal writes a value; empty messages and lists inside of messages are
// left out (the existing tests demand that they are dropped).
func (d *dump) literal(l *proto.Literal) string {
	if len(l.Array) > 0 {
		// a list
		s := "["
		for _, e := range l.Array {
			s += d.literal(e) + ","
		}
		return s + "]"
	}
	if l.IsString || l.Source != "" {
		return strconv.FormatBool(l.IsString) + ":" + l.SourceRepresentation()
	}
	s := "{"
	for _, e := range l.OrderedMap {
		if d.empties || !empty(e.Literal) {
			s += e.Name + ":" + d.literal(e.Literal) + ","
		}
	}
	return s + "}"
}

func (d *dump) options(kind string, l []*proto.Option) {
	l = append([]*proto.Option(nil), l...)
	sort.SliceStable(l, func(i, j int) bool { return l[i].Name < l[j].Name })
	for _, o := range l {
		d.doc(o.Comment, o.InlineComment)
		d.add(kind, o.Name, d.literal(&o.Constant))
	}
}

func (d *dump) field(kind string, f *proto.Field) {
	d.doc(f.Comment, f.InlineComment)
	d.add(kind, f.Type, f.Name, strconv.Itoa(f.Sequence))
	d.options("with", f.Options)
}

func label(optional, required, repeated bool) string {
	s := ""
	if optional {
		s += "optional "
	}
	if required {
		s += "required "
	}
	if repeated {
		s += "repeated "
	}
	return s
}

func ranges(l []proto.Range) string {
	s := ""
	for _, r := range l {
		s += r.SourceRepresentation() + ","
	}
	return s
}

func (d *dump) all(l []proto.Visitee) {
	for _, e := range l {
		d.element(e)
	}
	d.add("end")
}

func (d *dump) element(e proto.Visitee) {
	switch x := e.(type) {
	case *proto.Comment:
		if d.comments {
			d.add("comment", lines(x))
		}
	case *proto.Message:
		d.doc(x.Comment, nil)
		d.add("message", strconv.FormatBool(x.IsExtend), x.Name)
		d.all(x.Elements)
	case *proto.Group:
		d.doc(x.Comment, nil)
		d.add("group", label(x.Optional, x.Required, x.Repeated), x.Name, strconv.Itoa(x.Sequence))
		d.all(x.Elements)
	case *proto.Enum:
		d.doc(x.Comment, nil)
		d.add("enum", x.Name)
		d.all(x.Elements)
	case *proto.EnumField:
		d.doc(x.Comment, x.InlineComment)
		d.add("value", x.Name, strconv.Itoa(x.Integer))
		var l []*proto.Option
		for _, o := range x.Elements {
			if o, ok := o.(*proto.Option); ok {
				l = append(l, o)
			}
		}
		d.options("with", l)
	case *proto.Oneof:
		d.doc(x.Comment, nil)
		d.add("oneof", x.Name)
		d.all(x.Elements)
	case *proto.OneOfField:
		d.field("oneof field", x.Field)
	case *proto.NormalField:
		d.field("field "+label(x.Optional, x.Required, x.Repeated), x.Field)
	case *proto.MapField:
		d.field("map "+x.KeyType, x.Field)
	case *proto.Reserved:
		d.doc(x.Comment, x.InlineComment)
		d.add("reserved", ranges(x.Ranges), strings.Join(x.FieldNames, ","))
	case *proto.Extensions:
		d.doc(x.Comment, x.InlineComment)
		d.add("extensions", ranges(x.Ranges))
	case *proto.Service:
		d.doc(x.Comment, nil)
		d.add("service", x.Name)
		d.all(x.Elements)
	case *proto.RPC:
		d.doc(x.Comment, x.InlineComment)
		d.add("rpc", x.Name, strconv.FormatBool(x.StreamsRequest), x.RequestType, strconv.FormatBool(x.StreamsReturns), x.ReturnsType)
		for _, c := range x.Elements {
			if c, ok := c.(*proto.Comment); ok && d.methods {
				d.add("comment", lines(c))
			}
		}
		d.options("with", x.Options)
		d.add("end")
	case *proto.Option:
		d.doc(x.Comment, x.InlineComment)
		d.add("option", x.Name, d.literal(&x.Constant))
	default:
		vp.Unsupported("another element")
	}
}

// file dumps a file: syntax, package, file options and imports first, whose
// place in the file does not matter, then the rest in order.
func (d dump) file(p *proto.Proto) []string {
	var options []*proto.Option
	var imports []*proto.Import
	var rest []proto.Visitee
	first := true
	for _, e := range p.Elements {
		if _, ok := e.(*proto.Comment); !ok {
			first = false
		}
		switch x := e.(type) {
		case *proto.Syntax:
			if d.comments {
				// the comment of the syntax stands alone afterwards
				if x.Comment != nil {
					d.add("comment", lines(x.Comment))
				}
				d.doc(nil, x.InlineComment)
			}
			d.add("syntax", x.Value)
		case *proto.Package:
			d.doc(x.Comment, x.InlineComment)
			d.add("package", x.Name)
		case *proto.Option:
			options = append(options, x)
		case *proto.Import:
			imports = append(imports, x)
		case *proto.Comment:
			if first {
				// at the top of the file
				d.element(x)
			} else {
				rest = append(rest, e)
			}
		default:
			rest = append(rest, e)
		}
	}
	d.options("option", options)
	sort.SliceStable(imports, func(i, j int) bool { return imports[i].Filename < imports[j].Filename })
	for _, x := range imports {
		d.doc(x.Comment, x.InlineComment)
		d.add("import", x.Kind, x.Filename)
	}
	d.all(rest)
	return d.out
}

func parse(text string) *proto.Proto {
	p, err := proto.NewParser(bytes.NewReader([]byte(text))).Parse()
	if err != nil {
		return nil
	}
	return p
}
