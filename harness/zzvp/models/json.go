package models

import (
	"io"
	"strconv"

	"github.com/uber/prototool/internal/text"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func quote(s string) string {
	const hex = "0123456789abcdef"
	out := "\""
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			out += "\\" + s[i:i+1]
		case c == '\n':
			out += "\\n"
		case c == '\r':
			out += "\\r"
		case c == '\t':
			out += "\\t"
		case c == '\b':
			out += "\\b"
		case c == '\f':
			out += "\\f"
		case c < 0x20 || c == '<' || c == '>' || c == '&':
			out += "\\u00" + hex[c>>4:c>>4+1] + hex[c&15:c&15+1]
		case c >= 0x80:
			vp.Unsupported("JSON of other than ASCII")
		default:
			out += s[i : i+1]
		}
	}
	return out + "\""
}

// headers are those of gRPC.
type headers interface {
	Get(string) []string
	Len() int
}

func jsonHeaders(m headers) string {
	out, n := "", 0
	for _, k := range []string{"content-type", "h", "t"} {
		l := m.Get(k)
		if len(l) == 0 {
			continue
		}
		n++
		out += "," + quote(k) + ":["
		for i, v := range l {
			if i > 0 {
				out += ","
			}
			out += quote(v)
		}
		out += "]"
	}
	if n != m.Len() {
		vp.Unsupported("JSON of other headers")
	}
	if out == "" {
		return "{}"
	}
	return "{" + out[1:] + "}"
}

//vp:model encoding/json.Marshal
func jsonMarshal(v interface{}) ([]byte, error) {
	if m, ok := v.(headers); ok {
		return []byte(jsonHeaders(m)), nil
	}
	f, ok := v.(*text.Failure)
	if !ok || f == nil {
		vp.Unsupported("JSON of another type")
	}
	out := ""
	if f.Filename != "" {
		out += ",\"filename\":" + quote(f.Filename)
	}
	if f.Line != 0 {
		out += ",\"line\":" + strconv.Itoa(f.Line)
	}
	if f.Column != 0 {
		out += ",\"column\":" + strconv.Itoa(f.Column)
	}
	if f.LintID != "" {
		out += ",\"lint_id\":" + quote(f.LintID)
	}
	if f.Message != "" {
		out += ",\"message\":" + quote(f.Message)
	}
	if out == "" {
		return []byte("{}"), nil
	}
	return []byte("{" + out[1:] + "}"), nil
}

// cobra prints the usage of commands with templates.
//
//vp:model github.com/spf13/cobra.tmpl
func cobraTmpl(w io.Writer, text string, data interface{}) error {
	_, err := w.Write([]byte("Usage:\n"))
	return err
}

// Only help texts are wrapped.
//
//vp:model github.com/mitchellh/go-wordwrap.WrapString
func wrapString(s string, lim uint) string { return s }
