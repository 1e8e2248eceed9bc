package models

import (
	"io"
	"strings"
	"text/template"

	"github.com/uber/prototool/internal/zzvp/vp"
)

type tmpl struct {
	t    *template.Template
	text string
}

var tmpls []tmpl

// Templates that only insert string fields.
//
//vp:model (*text/template.Template).Parse
func templateParse(t *template.Template, text string) (*template.Template, error) {
	tmpls = append(tmpls, tmpl{t, text})
	return t, nil
}

//vp:model (*text/template.Template).Execute
func templateExecute(t *template.Template, w io.Writer, data interface{}) error {
	for _, x := range tmpls {
		if x.t != t {
			continue
		}
		var out string
		text := x.text
		for {
			i := strings.Index(text, "{{")
			if i < 0 {
				break
			}
			e := i + strings.Index(text[i:], "}}")
			out += text[:i]
			f := text[i+2 : e]
			if f[0] != '.' || strings.ContainsAny(f[1:], " .|()") {
				vp.Unsupported("template action " + f)
			}
			v := vp.Field(data, f[1:])
			if vp.Kind(v) != 4 {
				vp.Unsupported("template action on another type")
			}
			out += vp.AsString(v)
			text = text[e+2:]
		}
		_, err := w.Write([]byte(out + text))
		return err
	}
	vp.Unsupported("unknown template")
	return nil
}
