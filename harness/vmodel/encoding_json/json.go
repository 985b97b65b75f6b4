// Package json models encoding/json by way of maps, lists and plain values, without reflection.
package json

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"sort"
	"strconv"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

type parser struct {
	b      []byte
	i      int
	depth  int
	number bool
	bad    bool
	short  bool // the text ends too early
	value  string
}

func (p *parser) fail() any {
	p.bad = true
	return nil
}

func (p *parser) end() any {
	p.short = true
	return p.fail()
}

func (p *parser) space() {
	for p.i < len(p.b) {
		if c := p.b[p.i]; c != ' ' && c != '\t' && c != '\n' && c != '\r' {
			return
		}
		p.i++
	}
}

func (p *parser) lit(s string, v any) any {
	for k := 0; k < len(s); k++ {
		if p.i >= len(p.b) {
			return p.end()
		}
		if p.b[p.i] != s[k] {
			return p.fail()
		}
		p.i++
	}
	return v
}

func (p *parser) val() any {
	p.space()
	if p.i >= len(p.b) {
		return p.end()
	}
	if p.depth > 10000 {
		return p.fail()
	}
	switch c := p.b[p.i]; {
	case c == '{':
		return p.object()
	case c == '[':
		return p.list()
	case c == '"':
		return p.str()
	case c == 't':
		return p.lit("true", true)
	case c == 'f':
		return p.lit("false", false)
	case c == 'n':
		return p.lit("null", nil)
	case c == '-' || '0' <= c && c <= '9':
		return p.num()
	}
	return p.fail()
}

func (p *parser) next() byte {
	p.space()
	if p.i >= len(p.b) {
		p.end()
		return 0
	}
	p.i++
	return p.b[p.i-1]
}

func (p *parser) object() any {
	m := map[string]any{}
	p.depth++
	p.i++
	p.space()
	if p.i < len(p.b) && p.b[p.i] == '}' {
		p.i++
		p.depth--
		return m
	}
	for {
		p.space()
		if p.i >= len(p.b) {
			return p.end()
		}
		if p.b[p.i] != '"' {
			return p.fail()
		}
		k, _ := p.str().(string)
		if p.bad {
			return nil
		}
		if p.next() != ':' {
			return p.fail()
		}
		v := p.val()
		if p.bad {
			return nil
		}
		m[k] = v
		switch p.next() {
		case ',':
		case '}':
			p.depth--
			return m
		default:
			return p.fail()
		}
	}
}

func (p *parser) list() any {
	l := []any{}
	p.depth++
	p.i++
	p.space()
	if p.i < len(p.b) && p.b[p.i] == ']' {
		p.i++
		p.depth--
		return l
	}
	for {
		v := p.val()
		if p.bad {
			return nil
		}
		l = append(l, v)
		switch p.next() {
		case ',':
		case ']':
			p.depth--
			return l
		default:
			return p.fail()
		}
	}
}

func (p *parser) digits() bool {
	from := p.i
	for p.i < len(p.b) && '0' <= p.b[p.i] && p.b[p.i] <= '9' {
		p.i++
	}
	return p.i > from
}

func (p *parser) num() any {
	from := p.i
	if p.b[p.i] == '-' {
		p.i++
	}
	if p.i < len(p.b) && p.b[p.i] == '0' {
		p.i++
	} else if !p.digits() {
		return p.wrong()
	}
	if p.i < len(p.b) && p.b[p.i] == '.' {
		p.i++
		if !p.digits() {
			return p.wrong()
		}
	}
	if p.i < len(p.b) && (p.b[p.i] == 'e' || p.b[p.i] == 'E') {
		p.i++
		if p.i < len(p.b) && (p.b[p.i] == '+' || p.b[p.i] == '-') {
			p.i++
		}
		if !p.digits() {
			return p.wrong()
		}
	}
	text := string(p.b[from:p.i])
	if p.number {
		return json.Number(text)
	}
	f, err := strconv.ParseFloat(text, 64)
	if err != nil {
		p.value = "number " + text
		return float64(0)
	}
	return f
}

func (p *parser) wrong() any {
	if p.i >= len(p.b) {
		return p.end()
	}
	return p.fail()
}

func (p *parser) hex() (r rune, ok bool) {
	for k := 0; k < 4; k++ {
		if p.i >= len(p.b) {
			p.end()
			return 0, false
		}
		c := p.b[p.i]
		switch {
		case '0' <= c && c <= '9':
			c -= '0'
		case 'a' <= c && c <= 'f':
			c -= 'a' - 10
		case 'A' <= c && c <= 'F':
			c -= 'A' - 10
		default:
			p.fail()
			return 0, false
		}
		r = r<<4 | rune(c)
		p.i++
	}
	return r, true
}

func (p *parser) str() any {
	p.i++
	var out []byte
	for {
		if p.i >= len(p.b) {
			return p.end()
		}
		c := p.b[p.i]
		switch {
		case c == '"':
			p.i++
			return string(out)
		case c < ' ':
			return p.fail()
		case c == '\\':
			p.i++
			if p.i >= len(p.b) {
				return p.end()
			}
			c = p.b[p.i]
			p.i++
			switch c {
			case '"', '\\', '/':
				out = append(out, c)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r, ok := p.hex()
				if !ok {
					return nil
				}
				if utf16.IsSurrogate(r) {
					at := p.i
					if at+1 < len(p.b) && p.b[at] == '\\' && p.b[at+1] == 'u' {
						p.i += 2
						r2, ok := p.hex()
						if !ok {
							return nil
						}
						if d := utf16.DecodeRune(r, r2); d != utf8.RuneError {
							out = utf8.AppendRune(out, d)
							break
						}
						p.i = at
					}
					r = utf8.RuneError
				}
				out = utf8.AppendRune(out, r)
			default:
				return p.fail()
			}
		case c < utf8.RuneSelf:
			out = append(out, c)
			p.i++
		default:
			r, n := utf8.DecodeRune(p.b[p.i:])
			out = utf8.AppendRune(out, r)
			p.i += n
		}
	}
}

func (p *parser) err() error {
	if p.short {
		return &json.SyntaxError{Offset: int64(len(p.b))}
	}
	return &json.SyntaxError{Offset: int64(p.i) + 1}
}

func assign(v any, x any, wrong string) error {
	err := func(what string) error { return errors.New("json: cannot unmarshal " + what) }
	if wrong != "" {
		return err(wrong)
	}
	switch v := v.(type) {
	case *any:
		*v = x
		return nil
	case *map[string]any:
		if x == nil {
			*v = nil
			return nil
		}
		m, ok := x.(map[string]any)
		if !ok {
			return err("value")
		}
		if *v == nil {
			*v = m
			return nil
		}
		for k, e := range m {
			(*v)[k] = e
		}
		return nil
	}
	if x == nil {
		return nil
	}
	switch v := v.(type) {
	case *[]any:
		l, ok := x.([]any)
		if !ok {
			return err("value")
		}
		*v = l
		return nil
	case *string:
		s, ok := x.(string)
		if !ok {
			return err("value")
		}
		*v = s
		return nil
	case *bool:
		s, ok := x.(bool)
		if !ok {
			return err("value")
		}
		*v = s
		return nil
	case *float64:
		s, ok := x.(float64)
		if !ok {
			return err("value")
		}
		*v = s
		return nil
	}
	if m, ok := x.(map[string]any); ok {
		if e := sym.FromJSON(m, v); e != nil {
			return err("value")
		}
		return nil
	}
	sym.Unsupported("json: decoding into " + sym.TypeName(v))
	return nil
}

func Valid(data []byte) bool {
	p := &parser{b: data, number: true}
	p.val()
	p.space()
	return !p.bad && p.i == len(data)
}

func Unmarshal(data []byte, v any) error {
	p := &parser{b: data}
	x := p.val()
	if !p.bad {
		p.space()
		if p.i < len(data) {
			p.bad = true
		}
	}
	if p.bad {
		return p.err()
	}
	if v == nil {
		return &json.InvalidUnmarshalError{}
	}
	return assign(v, x, p.value)
}

// Decoder reads all of its input at the first value.
type Decoder struct {
	r      io.Reader
	buf    []byte
	read   bool
	number bool
	err    error
}

func NewDecoder(r io.Reader) *Decoder { return &Decoder{r: r} }

func (d *Decoder) UseNumber()             { d.number = true }
func (d *Decoder) DisallowUnknownFields() { sym.Unsupported("json: DisallowUnknownFields") }

func (d *Decoder) fill() {
	if !d.read {
		d.read = true
		d.buf, d.err = io.ReadAll(d.r)
	}
}

func (d *Decoder) Decode(v any) error {
	d.fill()
	if d.err != nil {
		return d.err
	}
	p := &parser{b: d.buf, number: d.number}
	p.space()
	if p.i == len(d.buf) {
		d.err = io.EOF
		return io.EOF
	}
	x := p.val()
	if p.bad {
		d.err = p.err()
		if p.short {
			d.err = io.ErrUnexpectedEOF
		}
		return d.err
	}
	d.buf = d.buf[p.i:]
	return assign(v, x, p.value)
}

func (d *Decoder) More() bool {
	d.fill()
	p := &parser{b: d.buf}
	p.space()
	return p.i < len(d.buf) && d.buf[p.i] != ']' && d.buf[p.i] != '}'
}

func (d *Decoder) Buffered() io.Reader {
	d.fill()
	return bytes.NewReader(d.buf)
}

func text(b []byte, s string) []byte {
	b = append(b, '"')
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
			i++
		case c < ' ':
			b = append(b, '\\', 'u', '0', '0', '0'+c>>4, "0123456789abcdef"[c&15])
			i++
		case c < 0x80:
			b = append(b, c)
			i++
		default:
			r, n := utf8.DecodeRuneInString(s[i:])
			b = utf8.AppendRune(b, r)
			i += n
		}
	}
	return append(b, '"')
}

// print writes a value that ToJSON gave; members are in the order of their names.
func print(b []byte, x any) []byte {
	switch x := x.(type) {
	case nil:
		return append(b, "null"...)
	case bool:
		if x {
			return append(b, "true"...)
		}
		return append(b, "false"...)
	case string:
		return text(b, x)
	case float64:
		return strconv.AppendFloat(b, x, 'g', -1, 64)
	case []any:
		b = append(b, '[')
		for i, e := range x {
			if i > 0 {
				b = append(b, ',')
			}
			b = print(b, e)
		}
		return append(b, ']')
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b = append(b, '{')
		for i, k := range keys {
			if i > 0 {
				b = append(b, ',')
			}
			b = print(append(text(b, k), ':'), x[k])
		}
		return append(b, '}')
	}
	sym.Unsupported("json: encoding of " + sym.TypeName(x))
	return b
}

func Marshal(v any) ([]byte, error) { return print(nil, sym.ToJSON(v)), nil }

func MarshalIndent(v any, prefix, indent string) ([]byte, error) { return Marshal(v) }

type Encoder struct{ w io.Writer }

func NewEncoder(w io.Writer) *Encoder { return &Encoder{w} }

func (e *Encoder) Encode(v any) error {
	b, _ := Marshal(v)
	_, err := e.w.Write(append(b, '\n'))
	return err
}

func (e *Encoder) SetIndent(prefix, indent string) {}
func (e *Encoder) SetEscapeHTML(on bool)           {}
