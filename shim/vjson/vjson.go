// Package vjson replaces the JSON encoder: an encoding is a name for the value encoded.
package vjson

import "io"

// Values are the values encoded; the n-th has the encoding Mark followed by the byte n.
var Values []interface{}

const Mark = "\x00json"

func Reset() { Values = nil }

func Marshal(v interface{}) ([]byte, error) {
	Values = append(Values, v)
	return append([]byte(Mark), byte(len(Values)-1)), nil
}

func MarshalIndent(v interface{}, prefix, indent string) ([]byte, error) { return Marshal(v) }

type Encoder struct{ w io.Writer }

func NewEncoder(w io.Writer) *Encoder              { return &Encoder{w} }
func (e *Encoder) SetIndent(prefix, indent string) {}
func (e *Encoder) SetEscapeHTML(on bool)           {}
func (e *Encoder) Encode(v interface{}) error {
	b, _ := Marshal(v)
	_, err := e.w.Write(b)
	return err
}

// Value is what a body encodes, if it is one encoding, with nothing but line ends after it.
func Value(body []byte) (interface{}, bool) {
	for len(body) > len(Mark)+1 && body[len(body)-1] == '\n' {
		body = body[:len(body)-1]
	}
	if len(body) != len(Mark)+1 || string(body[:len(Mark)]) != Mark || int(body[len(Mark)]) >= len(Values) {
		return nil, false
	}
	return Values[body[len(Mark)]], true
}

// Field is the member of an object.
func Field(v interface{}, name string) (interface{}, bool) {
	switch m := v.(type) {
	case map[string]string:
		x, ok := m[name]
		return x, ok
	case map[string]interface{}:
		x, ok := m[name]
		return x, ok
	}
	return nil, false
}

// Text is a member that is a text.
func Text(v interface{}, name string) (string, bool) {
	x, ok := Field(v, name)
	if !ok {
		return "", false
	}
	s, ok := x.(string)
	return s, ok
}

// Known reports whether Field understands a value.
func Known(v interface{}) bool {
	switch v.(type) {
	case map[string]string, map[string]interface{}:
		return true
	}
	return false
}
