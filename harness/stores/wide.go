package stores

import (
	"strconv"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// many is a larger collection: n documents, two fields each, up to five terms per field out of seven; which quarter of the
// documents has the term "rare" in its title is arbitrary, and so are three lengths and frequencies.
func many(n int) []saved {
	rare := sym.Choose("rare", 4)
	var l []saved
	for i := 0; i < n; i++ {
		d := "document-" + strconv.Itoa(i)
		title := saved{doc: d, field: "title", len: i % 5}
		if i%4 == rare {
			title.terms, title.tf = []string{"rare"}, []int{1}
		}
		for k := 0; k < i%5; k++ {
			title.terms = append(title.terms, "word-"+strconv.Itoa((i+k)%6))
			title.tf = append(title.tf, 1+(i*k)%300)
		}
		text := saved{doc: d, field: "text", len: 100 + i, terms: []string{"common", "id-" + strconv.Itoa(i)}, tf: []int{300 + i, 1}}
		if i%7 == 3 {
			title.len = sym.IntRange("len", 0, 1<<26)
			text.tf[0] = sym.IntRange("tf", 1, 1<<26)
		}
		l = append(l, title, text)
	}
	return l
}

const (
	postingsOnly = 1 << iota
	statsOnly
	fieldsOnly
	all3 = postingsOnly | statsOnly | fieldsOnly
)

// everything compares all the store tells about the collection (or a part of it).
func everything(st storage.Storage, l []saved, what int, label string) {
	names := []string{"title", "text"}
	for _, s := range l {
		known := false
		for _, f := range names {
			known = known || f == s.field
		}
		if !known {
			names = append(names, s.field)
		}
	}
	for _, f := range names {
		size, length := 0, 0
		df := map[string]int{"nowhere": 0}
		posts := map[string]map[string]bool{}
		fields := map[string]saved{}
		var ids []string
		for _, s := range l {
			ids = append(ids, s.doc)
			if s.field != f {
				continue
			}
			size++
			length += s.len
			fields[s.doc] = s
			for _, t := range s.terms {
				df[t]++
				if posts[t] == nil {
					posts[t] = map[string]bool{}
				}
				posts[t][s.doc] = true
			}
		}
		if what&statsOnly != 0 {
			sym.Assert(st.GetFieldSize(f) == size, label+": number of documents with the field")
			sym.Assert(st.GetFieldLength(f) == length, label+": total length of the field")
			var terms []string
			for t := range df {
				terms = append(terms, t)
			}
			m := st.GetNumberFieldTerm(f, terms)
			sym.Assert(len(m) == len(df), label+": exactly the requested terms are counted")
			for t, n := range df {
				v, ok := m[t]
				sym.Assert(ok && v == n, label+": number of documents with a term")
			}
		}
		if what&postingsOnly != 0 {
			for t := range df {
				set, _ := st.GetDocuments(f, t)
				sym.Assert(set.Size() == len(posts[t]), label+": number of documents in the postings")
				for d := range posts[t] {
					sym.Assert(set.Contains(d), label+": a saved document is missing from its postings")
				}
			}
		}
		if what&fieldsOnly != 0 {
			got := st.GetFields(append(ids, "nobody"), f)
			sym.Assert(len(got) == len(fields), label+": number of returned fields")
			for d, s := range fields {
				g, ok := got[d]
				sym.Assert(ok, label+": a saved field is not returned")
				same(g, s, label)
			}
		}
	}
}

// Many documents with many terms.
func memMany(what int) {
	st := storage.NewMemory()
	l := many(deep(140, 300))
	save(st, l)
	everything(st, l, what, "memory")
	sym.Reach("end")
}

func H_mem_many_postings() { memMany(postingsOnly) }
func H_mem_many_stats()    { memMany(statsOnly) }
func H_mem_many_fields()   { memMany(fieldsOnly) }

// The same over a disk store with a small cache that is written and merged in between.
func diskMany(what int, reopen bool) {
	k := sym.Choose("pause", 3)
	st := openDisk([]int{0, 4, 40}[k])
	l := many(deep(24, 60))
	n := len(l)
	every := []int{3, 1, 10}[k]
	for i := 0; i < 10; i++ {
		save(st, l[i*n/10:(i+1)*n/10])
		if i%every == every-1 {
			time.Sleep(7 * time.Second)
		}
	}
	everything(st, l, what, "disk")
	time.Sleep(flushed)
	everything(st, l, what, "flushed disk")
	if reopen {
		everything(openDisk(1), l, what, "reopened")
	}
	sym.Reach("end")
}

func H_disk_many_postings() { diskMany(postingsOnly, false) }
func H_disk_many_stats()    { diskMany(statsOnly, false) }
func H_disk_many_fields()   { diskMany(fieldsOnly, false) }
func H_disk_many_reopened() { diskMany(all3, true) }

// Very many documents, only two of whose numbers are arbitrary, over a cache that holds none, some or all of them.
func diskBroad(what int) {
	cache := []int{0, 20, 500}[sym.Choose("cache", 3)]
	st := openDisk(cache)
	n := deep(130, 260)
	var l []saved
	for i := 0; i < n; i++ {
		s := saved{doc: "document-" + strconv.Itoa(i), field: "text", len: 3 + i, terms: []string{"common", "id-" + strconv.Itoa(i)}, tf: []int{2 + i, 1}}
		if i == n-3 {
			s.len, s.tf[0] = sym.IntRange("len", 0, 1<<26), sym.IntRange("tf", 1, 1<<26)
		}
		if i%3 == 0 {
			l = append(l, saved{doc: s.doc, field: "title", len: 1, terms: []string{"rare"}, tf: []int{1}})
		}
		l = append(l, s)
	}
	save(st, l)
	everything(st, l, what, "disk")
	time.Sleep(flushed)
	everything(st, l, what, "flushed disk")
	everything(openDisk(cache), l, what, "reopened")
	sym.Reach("end")
}

func H_disk_broad_postings() { diskBroad(postingsOnly) }
func H_disk_broad_stats()    { diskBroad(statsOnly) }
func H_disk_broad_fields()   { diskBroad(fieldsOnly) }
func H_disk_broad()          { diskBroad(all3) }

// Four processes add to a store one after the other.
func H_disk_many_restarts() {
	l := many(deep(16, 30))
	n := len(l)
	pause := []time.Duration{14 * time.Second, flushed}[sym.Choose("pause", 2)]
	for i := 0; i < 4; i++ {
		ends(sym.Process(func() {
			st := openDisk(5)
			everything(st, l[:i*n/4], all3, "reopened")
			save(st, l[i*n/4:(i+1)*n/4])
			everything(st, l[:(i+1)*n/4], all3, "reopened and written")
			time.Sleep(pause)
		}, false))
	}
	ends(sym.Process(func() { everything(openDisk(100), l, all3, "reopened") }, false))
	sym.Reach("end")
}

// A field with more terms than the channel to the writer holds, in a document with several fields.
func H_disk_long_field() {
	st := openDisk(1)
	var l []saved
	for _, f := range []string{"title", "text"} {
		s := saved{doc: "d", field: f, len: sym.IntRange("len", 0, 1<<26)}
		for i := 0; i < deep(130, 300); i++ {
			s.terms = append(s.terms, "t"+strconv.Itoa(i))
			s.tf = append(s.tf, i%9+1)
		}
		l = append(l, s)
	}
	save(st, l)
	everything(st, l, all3, "disk")
	time.Sleep(flushed)
	everything(openDisk(1), l, all3, "reopened")
	sym.Reach("end")
}

// Stores of 1..4 fields of each of 1..3 documents of 0..3 terms, which are the same in every field or not.
func H_disk_shapes() {
	fields, docs, terms := 1+sym.Choose("fields", deep(4, 5)), 1+sym.Choose("docs", 3), sym.Choose("terms", 4)
	own := terms > 0 && sym.Choose("own terms", 2) == 1
	var l []saved
	for d := 0; d < docs; d++ {
		for f := 0; f < fields; f++ {
			s := saved{doc: "d" + strconv.Itoa(d), field: "f" + strconv.Itoa(f), len: d + 2*f + terms}
			if f == fields-1 {
				s.len = sym.IntRange("len", 0, 1<<20)
			}
			for t := 0; t < terms; t++ {
				term := "t" + strconv.Itoa(t)
				if own {
					term += s.field
				}
				s.terms, s.tf = append(s.terms, term), append(s.tf, 1+t+f)
			}
			l = append(l, s)
		}
	}
	st := openDisk(1)
	k := len(l)
	if k > 1 && sym.Choose("pause", 2) == 1 {
		k /= 2
	}
	save(st, l[:k])
	time.Sleep(flushed)
	save(st, l[k:])
	time.Sleep(flushed)
	everything(openDisk(1), l, all3, "reopened")
	sym.Reach("end")
}
