package text

import (
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/field"
	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/filter"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// latin holds the letters U+00C0..U+00FF without their accents.
const latin = "AAAAAA\x00CEEEEIIII\x00NOOOOO\x00\x00UUUUY\x00\x00aaaaaa\x00ceeeeiiii\x00nooooo\x00\x00uuuuy\x00y"

// Every accented Latin-1 letter loses its accent; the others of its block stay.
func H_ascii_latin() {
	c := sym.Concretize(sym.IntRange("letter", -64, 63))
	w := ascii("w", 1)
	word := w + "\xc3" + string([]byte{0x80 + byte(c)}) + "z"
	if c < 0 { // the signs before the letters
		word = w + "\xc2" + string([]byte{0xc0 + byte(c)}) + "z"
	}
	want := word
	if c >= 0 && latin[c] != 0 {
		want = w + latin[c:c+1] + "z"
	}
	got := filter.NewASCII().Process([]string{word})
	sym.Assert(len(got) == 1 && got[0] == want, "ascii: a letter of Latin-1 without its accent")
	sym.Reach("end")
}

type leaf struct {
	path string
	v    interface{}
}

func child(path, k string) string {
	if path == "" {
		return k
	}
	return path + "." + k
}

// object is an arbitrary object with up to n entries per level.
func object(n, depth int, path string, leaves *[]leaf) map[string]interface{} {
	m := map[string]interface{}{}
	k := sym.Choose("entries", n+1)
	var keys []string
	for i := 0; i < k; i++ {
		key := sym.String("key", sym.Choose("keylen", 2))
		for _, o := range keys {
			sym.Assume(o != key)
		}
		keys = append(keys, key)
		kinds := 5
		if depth == 0 {
			kinds = 4
		}
		switch sym.Choose("kind", kinds) {
		case 0:
			s := sym.String("text", 1)
			m[key] = s
			*leaves = append(*leaves, leaf{child(path, key), s})
		case 1:
			m[key] = 2.5
			*leaves = append(*leaves, leaf{child(path, key), 2.5})
		case 2:
			m[key] = nil
			*leaves = append(*leaves, leaf{child(path, key), nil})
		case 3:
			m[key] = []interface{}{"x", true}
			*leaves = append(*leaves, leaf{child(path, key), "LIST"})
		case 4:
			m[key] = object(n, depth-1, child(path, key), leaves)
		}
	}
	return m
}

func eq(a, b interface{}) bool {
	if l, ok := a.([]interface{}); ok {
		return len(l) == 2 && l[0] == "x" && l[1] == true && b == "LIST"
	}
	return a == b
}

// The flat form has exactly the paths of the leaves, with their values.
func checkFlat(in map[string]interface{}, leaves []leaf) {
	out := field.Flatten(in)
	kinds := 0
	for i, l := range leaves {
		first, alone := true, true
		ok := false
		v, there := out[l.path]
		sym.Assert(there, "flatten: a leaf is missing")
		for j, o := range leaves {
			if o.path == l.path {
				if j < i {
					first = false
				}
				if j != i {
					alone = false
				}
				ok = sym.Or(ok, eq(v, o.v))
			}
		}
		_ = alone
		if first {
			kinds++
		}
		sym.Assert(ok, "flatten: value of a leaf")
	}
	sym.Assert(len(out) == kinds, "flatten: keys that are not paths of leaves")
	sym.Reach("end")
}

func H_flatten() {
	var leaves []leaf
	in := object(2, 1, "", &leaves)
	checkFlat(in, leaves)
}

// Deep nesting with one entry per level.
func H_flatten_deep() {
	var leaves []leaf
	in := object(1, deep(4, 6), "", &leaves)
	in["zz"] = "top"
	leaves = append(leaves, leaf{"zz", "top"})
	checkFlat(in, leaves)
}

// The id of a document is the text of its Id entry, and empty if there is none.
func H_getid() {
	m := map[string]interface{}{}
	want := ""
	n := sym.Choose("entries", 3)
	for i := 0; i < n; i++ {
		k := sym.String("key", sym.Choose("keylen", 3))
		_, dup := m[k]
		sym.Assume(!dup)
		var v interface{}
		var s string
		switch sym.Choose("kind", 5) {
		case 0:
			s = sym.String("text", sym.Choose("textlen", 4))
			v = s
		case 1:
			v, s = float64(12), "12"
		case 2:
			v, s = true, "true"
		case 3:
			v, s = 0.5, "0.5"
		case 4:
			v, s = -7.0, "-7"
		}
		m[k] = v
		if k == "Id" {
			want = s
		}
	}
	sym.MapOrders(true)
	sym.Assert(field.GetID(m) == want, "id: the text of the Id entry")
	sym.Reach("end")
}

// A set behaves like a set: membership, size, copies, under every sequence of operations.
func H_set() {
	s := model.NewSet()
	var in []string
	has := func(x string) bool {
		r := false
		for _, e := range in {
			r = sym.Or(r, e == x)
		}
		return r
	}
	for i := 0; i < deep(4, 6); i++ {
		x := sym.String("element", 1)
		switch sym.Choose("op", 3) {
		case 0:
			s.Add(x)
			if !has(x) {
				in = append(in, x)
			}
		case 1:
			s.Remove(x)
			var rest []string
			for _, e := range in {
				if e != x {
					rest = append(rest, e)
				}
			}
			in = rest
		case 2:
			sym.Assert(s.Contains(x) == has(x), "set: membership")
		}
		sym.Assert(s.Size() == len(in), "set: size")
	}
	q := sym.String("last", 1)
	sym.Assert(s.Contains(q) == has(q), "set: membership")
	data := s.GetData()
	sym.Assert(len(data) == len(in), "set: data")
	for _, e := range in {
		sym.Assert(data[e], "set: data")
	}
	sym.Reach("end")
}

// Two sets do not share elements.
func H_set_two() {
	a, b := model.NewSet(), model.NewSet()
	x, y := sym.String("x", 1), sym.String("y", 1)
	a.Add(x)
	b.Add(y)
	sym.Assert(a.Contains(y) == (x == y) && b.Contains(x) == (x == y) && a.Size() == 1 && b.Size() == 1, "set: two sets share elements")
	c := a.Clone()
	c.Add(y)
	a.Remove(x)
	sym.Assert(c.Contains(x) && c.Contains(y) && a.Size() == 0, "set: a copy changes with the set")
	// copies of an empty set, of a copy, and a copy that is changed before the set is
	d := a.Clone()
	e := d.Clone()
	switch sym.Choose("first", 3) {
	case 0:
		d.Add(x)
		sym.Assert(a.Size() == 0 && e.Size() == 0 && !a.Contains(x) && d.Contains(x), "set: an empty set changes with its copy")
	case 1:
		a.Add(x)
		sym.Assert(d.Size() == 0 && e.Size() == 0 && !d.Contains(x), "set: the copy of an empty set changes with the set")
	case 2:
		e.Add(y)
		sym.Assert(d.Size() == 0 && a.Size() == 0 && e.Size() == 1 && len(d.GetData()) == 0, "set: a copy changes with its copy")
	}
	sym.Reach("end")
}

// Names become path components that are different, reversible and never special.
func H_names() {
	a := sym.String("a", sym.Choose("len-a", deep(3, 4)))
	b := sym.String("b", sym.Choose("len-b", deep(3, 3)))
	x, y := file.EscapeName(a), file.EscapeName(b)
	sym.Assert(sym.Iff(x == y, a == b), "names: two names have the same file")
	checkName(a, x)
	sym.Reach("end")
}

func checkName(a, x string) {
	sym.Assert(file.UnescapeName(x) == a, "names: a name is not read back")
	sym.Assert(x != "" && x != "." && x != "..", "names: a special folder")
	for i := 0; i < len(x); i++ {
		sym.Assert(sym.And(x[i] != '/', x[i] != 0), "names: a name leaves its folder")
	}
}

// Two names that differ in one byte at most, at their start, middle or end.
func H_names_alike() {
	n := []int{9, 60, 120, 250}[sym.Choose("len", 4)]
	at := []int{0, n / 2, n}[sym.Choose("at", 3)]
	part := "long name/of 100% a document. "
	rest := strings.Repeat(part, n/len(part)+1)[:n]
	a := rest[:at] + sym.String("a", 1) + rest[at:]
	b := rest[:at] + sym.String("b", 1) + rest[at:]
	x, y := file.EscapeName(a), file.EscapeName(b)
	sym.Assert(sym.Iff(x == y, a == b), "names: two names have the same file")
	checkName(a, x)
	sym.Reach("end")
}

func H_names_long() {
	a := sym.String("a", 4)
	x := file.EscapeName(a)
	sym.Assert(x != file.Documents, "names: a field name is the folder of the documents")
	checkName(a, x)
	sym.Reach("end")
}
