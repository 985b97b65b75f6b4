// Package serial checks that what is serialized is read back unchanged.
package serial

import (
	"bytes"
	"compress/gzip"
	"io"
	"strconv"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

func deep(quick, thorough int) int {
	if sym.Deep() {
		return thorough
	}
	return quick
}

// text is a string of up to n bytes.
func text(what string, n int) string { return sym.String(what, sym.Choose(what+".len", n+1)) }

func number(what string) int { return sym.IntRange(what, -1<<31, 1<<31-1) }

// Size and length of a field.
func H_metrics() {
	name := text("name", deep(3, 6))
	size, length := sym.Int32("size"), sym.Int32("length")
	n, s, l := storage.DeserializeFieldSizeLength(storage.SerializeFieldSizeLength(name, size, length))
	sym.Assert(n == name, "metrics: name")
	sym.Assert(s == size, "metrics: size")
	sym.Assert(l == length, "metrics: length")
	sym.Reach("end")
}

// Terms and their counts.
func H_counts() {
	n := sym.Choose("entries", deep(3, 4))
	in := map[string]int{}
	for i := 0; i < n; i++ {
		in[text("term", deep(2, 3))] = number("count")
	}
	sym.MapOrders(true)
	out := storage.DeserializeNumberFieldTerm(storage.SerializeNumberFieldTerm(in))
	sym.MapOrders(false)
	sameCounts(in, out, "counts")
	sym.Reach("end")
}

func sameCounts(in, out map[string]int, label string) {
	sym.Assert(len(in) == len(out), label+": number of entries")
	for k, v := range in {
		w, ok := out[k]
		sym.Assert(ok, label+": an entry is missing")
		sym.Assert(v == w, label+": an entry has another value")
	}
}

func field(what string, nterms, n int) model.Field {
	f := model.Field{Name: text(what+".name", n), Length: number(what + ".length"), TF: map[string]int{}}
	for i := 0; i < nterms; i++ {
		f.TF[text(what+".term", n)] = number(what + ".tf")
	}
	return f
}

// The fields of a document.
func H_fields() {
	n := sym.Choose("entries", 3)
	in := map[string]model.Field{}
	for i := 0; i < n; i++ {
		in[text("key", 1)] = field("field", sym.Choose("terms", deep(2, 3)), 1)
	}
	sym.MapOrders(true)
	out := storage.DeserializeFieldMap(storage.SerializeFieldMap(in))
	sym.MapOrders(false)
	sym.Assert(len(in) == len(out), "fields: number of entries")
	for k, f := range in {
		g, ok := out[k]
		sym.Assert(ok, "fields: an entry is missing")
		sym.Assert(g.Name == f.Name, "fields: name")
		sym.Assert(g.Length == f.Length, "fields: length")
		sameCounts(f.TF, g.TF, "fields: frequencies")
	}
	sym.Reach("end")
}

// Two terms with longer names in one field.
func H_fields_long() {
	in := map[string]model.Field{"title": field("field", 2, deep(2, 4))}
	out := storage.DeserializeFieldMap(storage.SerializeFieldMap(in))
	g, ok := out["title"]
	f := in["title"]
	sym.Assert(ok && len(out) == 1, "fields: number of entries")
	sym.Assert(g.Name == f.Name, "fields: name")
	sym.Assert(g.Length == f.Length, "fields: length")
	sameCounts(f.TF, g.TF, "fields: frequencies")
	sym.Reach("end")
}

// The postings of a field.
func H_index() {
	n := sym.Choose("entries", 3)
	in := map[string]map[string]bool{}
	for i := 0; i < n; i++ {
		t := text("term", 1)
		if in[t] == nil {
			in[t] = map[string]bool{}
		}
		for j, m := 0, sym.Choose("docs", deep(3, 4)); j < m; j++ {
			in[t][text("doc", 1)] = true
		}
	}
	sym.MapOrders(true)
	out := storage.DeserializeIndex(storage.SerializeIndex(in))
	sym.MapOrders(false)
	sym.Assert(len(in) == len(out), "index: number of terms")
	for t, docs := range in {
		got, ok := out[t]
		sym.Assert(ok, "index: a term is missing")
		sym.Assert(len(got) == len(docs), "index: number of documents")
		for d := range docs {
			v, ok := got[d]
			sym.Assert(ok && v, "index: a document is missing")
		}
	}
	sym.Reach("end")
}

// Many entries, so that offsets are larger than one byte.
func H_large() {
	n := deep(40, 90)
	in := map[string]map[string]bool{}
	counts := map[string]int{}
	for i := 0; i < n; i++ {
		t := "term-number-" + string(rune('A'+i))
		in[t] = map[string]bool{"d1": true, "document-" + string(rune('A'+i)): true}
		counts[t] = i * 1000003
		if i == 3 || i == n-1 {
			counts[t] = number("count")
		}
	}
	out := storage.DeserializeIndex(storage.SerializeIndex(in))
	sym.Assert(len(out) == len(in), "index: number of terms")
	for t, docs := range in {
		got := out[t]
		sym.Assert(len(got) == len(docs), "index: number of documents")
		for d := range docs {
			sym.Assert(got[d], "index: a document is missing")
		}
	}
	sameCounts(counts, storage.DeserializeNumberFieldTerm(storage.SerializeNumberFieldTerm(counts)), "counts")
	sym.Reach("end")
}

// Entries and names beyond every small limit: more than 255 and more than 65535 bytes of them.
func H_huge() {
	n := deep(2200, 6000)
	free := number("count")
	long := strings.Repeat("0123456789abcdef", 4500) + text("end", 1)
	switch sym.Choose("what", 6) {
	case 0: // many terms
		in := map[string]int{long: 7}
		for i := 0; i < n; i++ {
			in["term-number-"+strconv.Itoa(i)] = i
		}
		in["term-number-300"] = free
		sameCounts(in, storage.DeserializeNumberFieldTerm(storage.SerializeNumberFieldTerm(in)), "many counts")
	case 1: // many documents of a term, many terms
		in := map[string]map[string]bool{"many": {}, long: {long: true, "d": true}}
		for i := 0; i < n; i++ {
			in["many"]["document-number-"+strconv.Itoa(i)] = true
			if i%7 == 0 {
				in["term-"+strconv.Itoa(i)] = map[string]bool{"document-number-" + strconv.Itoa(i): true, "d": true}
			}
		}
		out := storage.DeserializeIndex(storage.SerializeIndex(in))
		sym.Assert(len(out) == len(in), "many postings: number of terms")
		for t, docs := range in {
			sym.Assert(len(out[t]) == len(docs), "many postings: number of documents")
			for d := range docs {
				sym.Assert(out[t][d], "many postings: a document is missing")
			}
		}
	case 2: // many terms in a field
		f := model.Field{Name: long, Length: free, TF: map[string]int{long: 3}}
		for i := 0; i < n; i++ {
			f.TF["term-number-"+strconv.Itoa(i)] = i + 1
		}
		sameFields(map[string]model.Field{"text": f, "other": {Name: "other", Length: 1, TF: map[string]int{"x": 1}}})
	case 3: // many fields
		in := map[string]model.Field{}
		for i := 0; i < n/4; i++ {
			k := "field-number-" + strconv.Itoa(i)
			in[k] = model.Field{Name: k, Length: i, TF: map[string]int{"term": i + 1, "term-" + strconv.Itoa(i): 1}}
		}
		sameFields(in)
	case 4: // a long name
		name, size, length := storage.DeserializeFieldSizeLength(storage.SerializeFieldSizeLength(long, sym.Int32("size"), -1))
		sym.Assert(name == long && length == -1, "metrics: a long name")
		_ = size
	case 5: // nothing
		sym.Assert(len(storage.DeserializeIndex(storage.SerializeIndex(nil))) == 0, "no postings")
		sym.Assert(len(storage.DeserializeNumberFieldTerm(storage.SerializeNumberFieldTerm(nil))) == 0, "no counts")
		sameFields(nil)
		sameFields(map[string]model.Field{"": {Name: "", Length: 0}})
	}
	sym.Reach("end")
}

func sameFields(in map[string]model.Field) {
	out := storage.DeserializeFieldMap(storage.SerializeFieldMap(in))
	sym.Assert(len(in) == len(out), "many fields: number of entries")
	for k, f := range in {
		g, ok := out[k]
		sym.Assert(ok, "many fields: an entry is missing")
		sym.Assert(g.Name == f.Name && g.Length == f.Length, "many fields: name and length")
		sameCounts(f.TF, g.TF, "many fields: frequencies")
	}
}

// Goroutines serialize and read at the same time: no data races, and each gets its own data.
func H_serial_concurrent() {
	sym.Races(true)
	sym.Explore(deep(1, 3))
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		t := string(rune('a' + i))
		go func() {
			sameCounts(map[string]int{t: 7}, storage.DeserializeNumberFieldTerm(storage.SerializeNumberFieldTerm(map[string]int{t: 7})), "beside another")
			sameFields(map[string]model.Field{t: {Name: t, Length: 3, TF: map[string]int{t: 3}}})
			ix := storage.DeserializeIndex(storage.SerializeIndex(map[string]map[string]bool{t: {t: true}}))
			sym.Assert(len(ix) == 1 && ix[t][t], "postings beside others")
			n, s, l := storage.DeserializeFieldSizeLength(storage.SerializeFieldSizeLength(t, 1, 2))
			sym.Assert(n == t && s == 1 && l == 2, "metrics beside others")
			done <- true
		}()
	}
	<-done
	<-done
	sym.StopExplore()
	sym.Reach("end")
}

// Serializing does not change its input, and doing it twice gives the same content.
func H_pure() {
	in := map[string]int{"a": number("x"), "b": number("y")}
	x, y := in["a"], in["b"]
	p := storage.DeserializeNumberFieldTerm(storage.SerializeNumberFieldTerm(in))
	q := storage.DeserializeNumberFieldTerm(storage.SerializeNumberFieldTerm(in))
	sym.Assert(len(in) == 2 && in["a"] == x && in["b"] == y, "serializing changes its input")
	sameCounts(p, q, "twice")
	// what was read does not depend on the buffer afterwards
	buf := storage.SerializeIndex(map[string]map[string]bool{"term": {"doc": true}})
	ix := storage.DeserializeIndex(buf)
	for i := range buf {
		buf[i] = 0
	}
	sym.Assert(ix["term"]["doc"], "what was read changes with the buffer")
	sym.Reach("end")
}

// stream reads z with the standard library.
func stream(z []byte) (string, bool) {
	r, err := gzip.NewReader(bytes.NewReader(z))
	if err != nil {
		return "", false
	}
	b, err := io.ReadAll(r)
	return string(b), err == nil
}

// Compressed data is decompressed to the same bytes (the gzip format itself is a model).
func H_gzip() {
	s := text("data", deep(3, 5))
	in := []byte(s)
	z := file.CompressData(in)
	sym.Assert(string(in) == s, "compression: changes its input")
	kept := string(z)
	raw, ok := stream(z)
	sym.Assert(ok && raw == s, "compression: not a complete gzip stream of the data")
	sym.Assert(string(file.DecompressData(z)) == s, "compression: data changes")
	sym.Assert(string(z) == kept, "decompression: changes its input")
	sym.Reach("end")
}

// Two results of compression, and of decompression, do not share memory.
func H_gzip_two() {
	a, b := text("a", 2), text("b", 2)
	x := file.CompressData([]byte(a))
	y := file.CompressData([]byte(b))
	p := file.DecompressData(x)
	q := file.DecompressData(y)
	sym.Assert(string(p) == a && string(q) == b, "compression: a second call changes the result of the first")
	for i := range q {
		q[i] = 'x'
	}
	sym.Assert(string(p) == a, "decompression: results share memory")
	sym.Assert(string(file.DecompressData(x)) == a, "decompression: a second time gives other data")
	sym.Assert(string(file.DecompressData(y)) == b, "decompression: the caller changes what is compressed")
	sym.Reach("end")
}

// Data larger than the buffers of readers and writers, as the contract of compress/gzip allows them to deliver it.
func H_gzip_large() {
	n := []int{511, 512, 513, 4096, 5000, 32767, 32769, 65537, 150000}[sym.Choose("size", 9)]
	in := make([]byte, n)
	for i := range in {
		in[i] = byte(i * 7)
	}
	in[n-1], in[n/2] = sym.Byte("last"), sym.Byte("middle")
	z := file.CompressData(in)
	raw, ok := stream(z)
	sym.Assert(ok && raw == string(in), "compression: not a complete gzip stream of large data")
	out := file.DecompressData(z)
	sym.Assert(len(out) == n, "compression: length of large data")
	sym.Assert(string(out) == string(in), "compression: large data changes")
	sym.Reach("end")
}

// Goroutines compress and decompress at the same time: no data races, and each gets its own data back.
func H_gzip_concurrent() {
	a, b := text("a", 1), text("b", 1)
	sym.Races(true)
	sym.Explore(deep(2, 4))
	done := make(chan bool, 2)
	go func() {
		sym.Assert(string(file.DecompressData(file.CompressData([]byte(a)))) == a, "compression: data changes beside another compression")
		done <- true
	}()
	go func() {
		sym.Assert(string(file.DecompressData(file.CompressData([]byte(b)))) == b, "compression: data changes beside another compression")
		done <- true
	}()
	<-done
	<-done
	sym.StopExplore()
	sym.Reach("end")
}
