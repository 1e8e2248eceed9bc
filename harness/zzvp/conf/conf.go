// Package conf turns a configuration into the text of a configuration file.
// Natively it is JSON (which the YAML parser reads as well); in the engine the
// text is a token that stands for the configuration, and the models of the
// JSON and YAML decoders look it up.
package conf

import (
	"encoding/json"
	"errors"
	"io"
	"strconv"
	"strings"

	"gopkg.in/yaml.v2"

	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zzvp/vp"
)

var known []settings.ExternalConfig

const token = "\x01conf"

// Text is the file content for e.
func Text(e settings.ExternalConfig) string {
	if vp.Symbolic() {
		known = append(known, e)
		return token + strconv.Itoa(len(known)-1)
	}
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Bad is a text that no configuration has.
const Bad = "{\"no_such_setting\": 1}"

var errBad = errors.New("not a configuration")

func decode(data string, v interface{}) error {
	data = strings.TrimSpace(data)
	e, ok := v.(*settings.ExternalConfig)
	if !ok {
		vp.Unsupported("decoding of another type")
	}
	for i := range known {
		if data == token+strconv.Itoa(i) {
			*e = clone(known[i])
			return nil
		}
	}
	if data == Bad {
		return errBad
	}
	vp.Unsupported("decoding of another text")
	return nil
}

func strs(l []string) []string { return append([]string(nil), l...) }

func clone(e settings.ExternalConfig) settings.ExternalConfig {
	e.Excludes = strs(e.Excludes)
	e.Protoc.Includes = strs(e.Protoc.Includes)
	e.Create.Packages = append(e.Create.Packages[:0:0], e.Create.Packages...)
	e.Lint.Ignores = append(e.Lint.Ignores[:0:0], e.Lint.Ignores...)
	for i := range e.Lint.Ignores {
		e.Lint.Ignores[i].Files = strs(e.Lint.Ignores[i].Files)
	}
	e.Lint.Rules.Add = strs(e.Lint.Rules.Add)
	e.Lint.Rules.Remove = strs(e.Lint.Rules.Remove)
	if m := e.Generate.GoOptions.ExtraModifiers; m != nil {
		c := map[string]string{}
		for k, v := range m {
			c[k] = v
		}
		e.Generate.GoOptions.ExtraModifiers = c
	}
	e.Generate.Plugins = append(e.Generate.Plugins[:0:0], e.Generate.Plugins...)
	return e
}

//vp:model gopkg.in/yaml.v2.UnmarshalStrict
func yamlUnmarshalStrict(data []byte, v interface{}) error { return decode(string(data), v) }

//vp:model gopkg.in/yaml.v2.Unmarshal
func yamlUnmarshal(data []byte, v interface{}) error { return decode(string(data), v) }

//vp:model encoding/json.Unmarshal
func jsonUnmarshal(data []byte, v interface{}) error { return decode(string(data), v) }

// Parse is the configuration of a text.
func Parse(s string) (e settings.ExternalConfig, err error) {
	err = yaml.UnmarshalStrict([]byte(s), &e)
	return e, err
}

//vp:model gopkg.in/yaml.v2.Marshal
func yamlMarshal(v interface{}) ([]byte, error) {
	e, ok := v.(*settings.ExternalConfig)
	if !ok {
		vp.Unsupported("encoding of another type")
	}
	return []byte(Text(clone(*e)) + "\n"), nil
}

type dec struct {
	d *json.Decoder
	r io.Reader
}

var decs []dec

//vp:model encoding/json.NewDecoder
func jsonNewDecoder(r io.Reader) *json.Decoder {
	d := &json.Decoder{}
	decs = append(decs, dec{d, r})
	return d
}

//vp:model (*encoding/json.Decoder).DisallowUnknownFields
func jsonDisallow(d *json.Decoder) {}

//vp:model (*encoding/json.Decoder).Decode
func jsonDecode(d *json.Decoder, v interface{}) error {
	for _, x := range decs {
		if x.d == d {
			b, err := io.ReadAll(x.r)
			if err != nil {
				return err
			}
			return decode(string(b), v)
		}
	}
	return errBad
}
