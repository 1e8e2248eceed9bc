package models

import (
	"crypto/sha256"
	"errors"
	"strconv"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"

	"github.com/uber/prototool/internal/zzvp/vp"
)

// protoMarshal stands for the generated marshalling code: two messages get the
// same bytes exactly when the parts the harnesses set are equal.
//
//vp:model github.com/golang/protobuf/proto.Marshal
func protoMarshal(m proto.Message) ([]byte, error) {
	if l, ok := m.(*descriptor.FileDescriptorSet); ok {
		s := ""
		for _, f := range l.File {
			s += "F{" + encFile(f) + "}"
		}
		if s != "" {
			sets = append(sets, set{s, l})
		}
		return []byte(s), nil
	}
	f, ok := m.(*descriptor.FileDescriptorProto)
	if !ok {
		vp.Unsupported("proto.Marshal of another type")
	}
	return []byte(encFile(f)), nil
}

func encS(tag string, s *string) string {
	if s == nil {
		return ""
	}
	return tag + strconv.Itoa(len(*s)) + ":" + *s
}

func encI(tag string, n *int32) string {
	if n == nil {
		return ""
	}
	return tag + strconv.Itoa(int(*n)) + ";"
}

func encB(tag string, b *bool) string {
	if b == nil {
		return ""
	}
	if *b {
		return tag + "1"
	}
	return tag + "0"
}

func encFile(f *descriptor.FileDescriptorProto) string {
	s := encS("n", f.Name) + encS("p", f.Package) + encS("s", f.Syntax)
	for _, d := range f.Dependency {
		d := d
		s += encS("d", &d)
	}
	for _, m := range f.MessageType {
		s += encMsg(m)
	}
	for _, e := range f.EnumType {
		s += encEnum(e)
	}
	for _, v := range f.Service {
		s += "S{" + encS("n", v.Name)
		for _, m := range v.Method {
			s += "m{" + encS("n", m.Name) + encS("i", m.InputType) + encS("o", m.OutputType) + encB("c", m.ClientStreaming) + encB("s", m.ServerStreaming) + "}"
		}
		s += "}"
	}
	if len(f.Extension) > 0 || f.Options != nil || f.SourceCodeInfo != nil || len(f.PublicDependency) > 0 {
		vp.Unsupported("proto.Marshal of extensions, options, source info or public imports")
	}
	return s
}

func encMsg(m *descriptor.DescriptorProto) string {
	s := "M{" + encS("n", m.Name)
	for _, f := range m.Field {
		s += "f{" + encS("n", f.Name) + encI("u", f.Number) + encS("t", f.TypeName) + encS("j", f.JsonName) + encI("x", f.OneofIndex)
		if f.Type != nil {
			s += "y" + strconv.Itoa(int(*f.Type)) + ";"
		}
		if f.Label != nil {
			s += "l" + strconv.Itoa(int(*f.Label)) + ";"
		}
		s += "}"
	}
	for _, o := range m.OneofDecl {
		s += "o{" + encS("n", o.Name) + "}"
	}
	for _, n := range m.NestedType {
		s += encMsg(n)
	}
	for _, e := range m.EnumType {
		s += encEnum(e)
	}
	return s + "}"
}

func encEnum(e *descriptor.EnumDescriptorProto) string {
	s := "E{" + encS("n", e.Name)
	for _, v := range e.Value {
		s += "v{" + encS("n", v.Name) + encI("u", v.Number) + "}"
	}
	return s + "}"
}

var hashed []string

// sum256 stands for SHA-256 without collisions: equal inputs, and only those,
// get equal sums.
//
//vp:model crypto/sha256.Sum256
func sum256(data []byte) [sha256.Size]byte {
	var r [sha256.Size]byte
	s := string(data)
	for i, h := range hashed {
		if h == s {
			r[0] = byte(i + 1)
			return r
		}
	}
	hashed = append(hashed, s)
	r[0] = byte(len(hashed))
	return r
}

// compactText stands for the text form of a message in an error text.
//
//vp:model github.com/golang/protobuf/proto.CompactTextString
func compactText(m proto.Message) string { return "message" }

type set struct {
	data string
	m    *descriptor.FileDescriptorSet
}

var sets []set

// protoUnmarshal reads the empty message, and the sets of files that were
// marshalled before.
//
//vp:model github.com/golang/protobuf/proto.Unmarshal
func protoUnmarshal(b []byte, m proto.Message) error {
	if len(b) == 0 {
		return nil
	}
	for _, s := range sets {
		if t, ok := m.(*descriptor.FileDescriptorSet); ok && s.data == string(b) {
			*t = descriptor.FileDescriptorSet{File: append([]*descriptor.FileDescriptorProto(nil), s.m.File...)}
			return nil
		}
	}
	if string(b) == "\xff" {
		return errors.New("not a message")
	}
	vp.Unsupported("proto.Unmarshal of data")
	return nil
}
