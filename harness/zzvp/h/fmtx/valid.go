package fmtx

import "github.com/emicklei/proto"

// The parser accepts texts that are no proto files at all, such as a field
// without a name. valid says that names and numbers are such.

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }

func ident(s string) bool {
	for i := 0; i < len(s); i++ {
		if !letter(s[i]) && (i == 0 || s[i] < '0' || s[i] > '9') {
			return false
		}
	}
	return s != ""
}

// path is names with dots between them.
func path(s string) bool {
	n := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			if !ident(s[n:i]) {
				return false
			}
			n = i + 1
		}
	}
	return true
}

func typ(s string) bool {
	if s != "" && s[0] == '.' {
		s = s[1:]
	}
	return path(s)
}

func optionName(s string) bool {
	if s != "" && s[0] == '(' {
		for i := 1; i < len(s); i++ {
			if s[i] == ')' {
				return typ(s[1:i]) && (i == len(s)-1 || s[i+1] == '.' && path(s[i+2:]))
			}
		}
		return false
	}
	return path(s)
}

func value(l *proto.Literal) bool {
	for _, e := range l.Array {
		if !value(e) {
			return false
		}
	}
	for _, e := range l.OrderedMap {
		s := e.Name
		if len(s) > 2 && s[0] == '[' && s[len(s)-1] == ']' {
			s = s[1 : len(s)-1]
		}
		if !path(s) || !value(e.Literal) {
			return false
		}
	}
	if l.IsString {
		for i := 0; i < len(l.Source); i++ {
			if l.Source[i] == '\n' {
				return false
			}
		}
		return true
	}
	if l.Source == "" {
		return true
	}
	s := l.Source
	if s[0] == '-' || s[0] == '+' {
		s = s[1:]
	}
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !letter(c) && (c < '0' || c > '9') && c != '.' && (c != '-' && c != '+' || i == 0) {
			return false
		}
	}
	return true
}

func options(l []*proto.Option) bool {
	for _, o := range l {
		if !optionName(o.Name) || !value(&o.Constant) || len(o.Constant.Array) > 0 || o.Constant.Array != nil {
			return false
		}
	}
	return true
}

func field(f *proto.Field) bool {
	return typ(f.Type) && ident(f.Name) && f.Sequence > 0 && options(f.Options)
}

func all(l []proto.Visitee) bool {
	for _, e := range l {
		if !valid(e) {
			return false
		}
	}
	return true
}

func valid(e proto.Visitee) bool {
	switch x := e.(type) {
	case *proto.Syntax:
		return x.Value == "proto2" || x.Value == "proto3"
	case *proto.Package:
		return path(x.Name)
	case *proto.Import:
		return x.Filename != ""
	case *proto.Message:
		return (ident(x.Name) || x.IsExtend && typ(x.Name)) && all(x.Elements)
	case *proto.Group:
		return ident(x.Name) && x.Sequence > 0 && all(x.Elements)
	case *proto.Enum:
		return ident(x.Name) && all(x.Elements)
	case *proto.EnumField:
		return ident(x.Name) && all(x.Elements)
	case *proto.Oneof:
		return ident(x.Name) && all(x.Elements)
	case *proto.OneOfField:
		return field(x.Field)
	case *proto.NormalField:
		return field(x.Field)
	case *proto.MapField:
		return typ(x.KeyType) && field(x.Field)
	case *proto.Reserved:
		for _, n := range x.FieldNames {
			if !ident(n) {
				return false
			}
		}
		return (len(x.Ranges) == 0) != (len(x.FieldNames) == 0)
	case *proto.Extensions:
		return len(x.Ranges) > 0
	case *proto.Service:
		return ident(x.Name) && all(x.Elements)
	case *proto.RPC:
		return ident(x.Name) && typ(x.RequestType) && typ(x.ReturnsType) && options(x.Options)
	case *proto.Option:
		return options([]*proto.Option{x})
	}
	return true
}
