package text

import (
	"github.com/sira-serverless-ir-arch/goirlib/field"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// parse tells the object of a text and whether the text was refused.
func parse(text string) (m map[string]interface{}, refused bool) {
	defer func() {
		if recover() != nil {
			refused = true
		}
	}()
	return field.StringToObject(text), false
}

// same tells whether two JSON values are equal.
func same(a, b interface{}) bool {
	switch a := a.(type) {
	case map[string]interface{}:
		b, ok := b.(map[string]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		r := true
		for k, v := range a {
			w, ok := b[k]
			r = sym.And(r, ok && same(v, w))
		}
		return r
	case []interface{}:
		b, ok := b.([]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		r := true
		for i := range a {
			r = sym.And(r, same(a[i], b[i]))
		}
		return r
	}
	switch b.(type) {
	case map[string]interface{}, []interface{}:
		return false
	}
	return a == b
}

func quoted(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			out = append(out, '\\', c)
		case c < ' ':
			out = append(out, '\\', 'u', '0', '0', "01"[c>>4], "0123456789abcdef"[c&15])
		default:
			out = append(out, c)
		}
	}
	return `"` + string(out) + `"`
}

var blanks = []string{"", " ", "\n\t", "\r "}

type number struct {
	text string
	v    float64
}

// jsonValue is an arbitrary value and a text of it.
func jsonValue(depth int) (interface{}, string) {
	kinds := 6
	if depth == 0 {
		kinds = 4
	}
	switch sym.Choose("kind", kinds) {
	case 0:
		s := ascii("text", sym.Choose("len", 2))
		return s, quoted(s)
	case 1:
		if depth == 0 {
			return 2.0, "2"
		}
		n := []number{{"0", 0}, {"-12", -12}, {"2.50", 2.5}, {"1e3", 1000}, {"12E-1", 1.2}, {"9007199254740993", 9007199254740992}}[sym.Choose("number", 6)]
		return n.v, n.text
	case 2:
		b := sym.Choose("bool", 2) == 1
		if b {
			return true, "true"
		}
		return false, "false"
	case 3:
		return nil, "null"
	case 4:
		l := []interface{}{}
		text := "["
		for i := 0; i < sym.Choose("elements", 3); i++ {
			v, t := jsonValue(0)
			if i > 0 {
				text += ","
			}
			l = append(l, v)
			text += t
		}
		return l, text + "]"
	}
	return jsonObject(1, depth-1)
}

func jsonObject(n, depth int) (map[string]interface{}, string) {
	m := map[string]interface{}{}
	blank := ""
	if n > 1 || depth > 0 {
		blank = blanks[sym.Choose("blank", len(blanks))]
	}
	text := blank + "{" + blank
	k := sym.Choose("entries", n+1)
	for i := 0; i < k; i++ {
		key := "k"
		if n > 1 || depth > 0 {
			key = ascii("key", sym.Choose("keylen", 2))
		}
		for o := range m {
			sym.Assume(o != key)
		}
		v, t := jsonValue(depth)
		if i > 0 {
			text += blank + "," + blank
		}
		m[key] = v
		text += quoted(key) + blank + ":" + blank + t
	}
	return m, text + blank + "}" + blank
}

// The text of an object is parsed into that object.
func H_json_object() {
	want, text := jsonObject(1, deep(1, 2))
	got, refused := parse(text)
	sym.Assert(!refused, "json: the text of an object is refused")
	sym.Assert(same(want, got), "json: the object a text denotes")
	sym.Reach("end")
}

// Two entries.
func H_json_entries() {
	want := map[string]interface{}{}
	k1, k2 := ascii("key", sym.Choose("keylen", 3)), ascii("key", sym.Choose("keylen", 3))
	text := "{" + quoted(k1) + `:"x",` + quoted(k2) + ":[1]}"
	want[k1] = "x"
	want[k2] = []interface{}{1.0} // the last one counts if the keys are the same
	got, refused := parse(text)
	sym.Assert(!refused, "json: the text of an object is refused")
	sym.Assert(same(want, got), "json: the object a text denotes")
	sym.Reach("end")
}

// Characters beyond ASCII, as they are and as escapes.
func H_json_unicode() {
	var want, text string
	c := sym.Concretize(sym.IntRange("letter", 0, 63))
	word := "\xc3" + string([]byte{0x80 + byte(c)})
	w := ascii("w", 1)
	hex := "0123456789abcdef"
	if sym.Choose("upper", 2) == 1 {
		hex = "0123456789ABCDEF"
	}
	switch sym.Choose("form", 5) {
	case 0:
		want, text = w+word, `"`+quoted(w)[1:len(quoted(w))-1]+word+`"`
	case 1:
		want, text = word+w, `"\u00`+hex[12+c/16:13+c/16]+hex[c%16:c%16+1]+quoted(w)[1:]
	case 2:
		want, text = "\U0001F600", `"\ud83d\ude00"`
	case 3:
		want, text = "\uFFFD", `"\ud83d"`
	case 4:
		want, text = "/\b\f\n\r\t", `"\/\b\f\n\r\t"`
	}
	got, refused := parse(`{"a":` + text + `}`)
	sym.Assert(!refused && len(got) == 1, "json: a text of escapes is refused")
	sym.Assert(got["a"] == want, "json: the string a text denotes")
	sym.Reach("end")
}

func digit(c byte) bool { return c >= '0' && c <= '9' }
func white(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// Which texts are accepted: two arbitrary bytes as the value of an entry.
func H_json_accepted() {
	b := sym.String("value", 2)
	x, y := b[0], b[1]
	one := sym.Or(digit(x) && white(y), white(x) && digit(y))
	ok := sym.Or(one, digit(x) && x != '0' && digit(y), x == '-' && digit(y), b == `""`, b == "[]", b == "{}")
	m, refused := parse(`{"a":` + b + `}`)
	sym.Assert(refused == !ok, "json: exactly the texts of objects are accepted")
	if !refused {
		v, there := m["a"]
		sym.Assert(len(m) == 1 && there, "json: the entry of an object")
		_, isNumber := v.(float64)
		sym.Assert(isNumber == sym.And(b != `""`, b != "[]", b != "{}"), "json: the kind of a value")
	}
	sym.Reach("end")
}

// Texts that are not objects, or have something after the object.
func H_json_refused() {
	_, text := jsonObject(1, 0)
	c := sym.Byte("after")
	sym.Assume(!white(c))
	switch sym.Choose("kind", 4) {
	case 0:
		text += string([]byte{c}) // behind the object
	case 1:
		sym.Assume(c != '{')
		text = string([]byte{c}) + text
	case 2:
		text = text[:len(text)-1]
	case 3:
		text = []string{"", " ", "[]", `"a"`, "1", "true", `[{"a":1}]`, "{'a':1}", "{a:1}", `{"a":1,}`, `{"a":01}`, `{"a":.5}`, `{"a":+1}`, `{"a":1.}`, `{"a":NaN}`, `{"a":"` + "\n" + `"}`, `{"a":"\x41"}`, `{"a":"\u00g0"}`, `{,}`, `{"a"}`, `{"a":}`, `{"a":1 "b":2}`, `{"a":1}{"b":2}`, `{"a":1e999}`, "// c\n{}", `{"a":tru}`, `{"a":True}`}[sym.Choose("text", 27)]
	}
	_, refused := parse(text)
	sym.Assert(refused, "json: a text that is no object is accepted")
	sym.Reach("end")
}

// The id and the leaves of a parsed document.
func H_json_document() {
	id := ascii("id", sym.Choose("idlen", 3))
	title := ascii("title", 2)
	m, refused := parse(`{"Id": ` + quoted(id) + `, "Title": ` + quoted(title) + `, "Author": {"Name": "N", "Year": 1999}}`)
	sym.Assert(!refused, "json: a document is refused")
	sym.Assert(field.GetID(m) == id, "json: the id of a parsed document")
	flat := field.Flatten(m)
	sym.Assert(len(flat) == 4 && flat["Title"] == title && flat["Author.Name"] == "N" && flat["Author.Year"] == 1999.0, "json: the leaves of a parsed document")
	sym.Reach("end")
}
