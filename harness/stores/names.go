package stores

import (
	"path/filepath"
	"strconv"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// shaped is a save whose names are arbitrary bytes of the given lengths.
func shaped(d, f, t int) saved {
	return saved{doc: sym.String("doc", d), field: sym.String("field", f), len: sym.IntRange("len", 0, 1<<28),
		terms: []string{sym.String("term", t)}, tf: []int{sym.IntRange("tf", 1, 1<<28)}}
}

var shapes = [][3]int{{1, 2, 1}, {2, 1, 2}, {0, 1, 3}, {1, 0, 2}, {3, 3, 0}}

func plain(s string) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		sym.Assume(sym.And(c > ' ', c < 0x7f, c != '/', c != '\\', c != '%', c != '.'))
	}
}

// freeNames saves two documents under names that are arbitrary bytes.
func freeNames(st storage.Storage, label string, what int) {
	var l []saved
	for i := 0; i < 2; i++ {
		h := shapes[sym.Choose("shape", len(shapes))]
		s := shaped(h[0], h[1], h[2])
		if label == "disk" {
			// names with other characters are checked with C09
			plain(s.doc)
			plain(s.field)
		}
		fresh(l, s)
		st.SaveOrUpdate(s.doc, s.model())
		l = append(l, s)
	}
	a, b := l[0], l[1]
	switch what {
	case postingsOnly:
		checkPostings(st, l, a.field, b.terms[0], label)
		checkPostings(st, l, b.field, a.terms[0], label)
		checkPostings(st, l, a.field, a.terms[0], label)
	case statsOnly:
		checkStats(st, l, a.field, a.terms[0], b.terms[0], label)
		checkStats(st, l, b.field, a.terms[0], b.terms[0], label)
	case fieldsOnly:
		checkFields(st, l, a.doc, b.doc, a.field, label)
		checkFields(st, l, a.doc, b.doc, b.field, label)
	}
	sym.Reach("end")
}

func H_mem_names_postings() { freeNames(storage.NewMemory(), "memory", postingsOnly) }
func H_mem_names_stats()    { freeNames(storage.NewMemory(), "memory", statsOnly) }
func H_mem_names_fields()   { freeNames(storage.NewMemory(), "memory", fieldsOnly) }

func H_disk_names_postings() { freeNames(openDisk(1), "disk", postingsOnly) }
func H_disk_names_stats()    { freeNames(openDisk(1), "disk", statsOnly) }
func H_disk_names_fields()   { freeNames(openDisk(1), "disk", fieldsOnly) }

// What a caller does to a set it was given concerns nobody else, however often it asks.
func ownSets(st storage.Storage, label string) {
	// now with many others
	var l []saved
	for i := 40 * sym.Choose("many", 2); i > 0; i-- {
		l = append(l, saved{doc: "other-" + strconv.Itoa(i), field: "f", terms: []string{"t"}, tf: []int{1}})
	}
	a := saved{doc: "a", field: "f", terms: []string{"t"}, tf: []int{1}}
	b := saved{doc: "b", field: "f", terms: []string{"t"}, tf: []int{1}}
	l = append(l, a, b)
	save(st, l)
	for i := 0; i < 3; i++ {
		set, _ := st.GetDocuments("f", "t")
		sym.Assert(set.Size() == len(l) && set.Contains("a") && set.Contains("b"), label+": the documents of a term")
		again, _ := st.GetDocuments("f", "t")
		switch sym.Choose("op", 3) {
		case 0:
			set.Remove("a")
		case 1:
			set.Add("foreign")
		case 2:
			delete(set.GetData(), "b")
		}
		sym.Assert(again.Size() == len(l) && again.Contains("a") && again.Contains("b"), label+": two answers share their set")
		if i == 1 {
			s := symSaved(1, 26)
			sym.Assume(s.doc != "a" && s.doc != "b" && s.field == "f" && s.terms[0] == "t")
			st.SaveOrUpdate(s.doc, s.model())
			l = append(l, s)
			set, _ = st.GetDocuments("f", "t")
			sym.Assert(set.Size() == len(l) && set.Contains(s.doc), label+": a document saved later is missing from its postings")
		}
	}
	unknown, ok := st.GetDocuments("f", "nowhere")
	sym.Assert(!ok || unknown.Size() == 0, label+": postings of a term nobody has")
	unknown, ok = st.GetDocuments("nowhere", "t")
	sym.Assert(!ok || unknown.Size() == 0, label+": postings of a field nobody has")
	sym.Reach("end")
}

func H_mem_own_sets()  { ownSets(storage.NewMemory(), "memory") }
func H_disk_own_sets() { ownSets(openDisk(1), "disk") }

// Lengths whose sum needs more than 32 bits.
func largeStats(st storage.Storage, label string) {
	var l []saved
	n := 2 + 3*sym.Choose("saves", 2)
	for i := 0; i < n; i++ {
		s := saved{doc: strconv.Itoa(i), field: "f", len: 1<<30 + 1<<20, terms: []string{"t"}, tf: []int{1<<31 - 1}}
		if i == 1 {
			s.len = sym.IntRange("len", 1<<20, 1<<31-1)
		}
		l = append(l, s)
	}
	save(st, l)
	checkStats(st, l, "f", "t", "u", label)
	for _, s := range l {
		g, ok := st.GetFields([]string{s.doc}, "f")[s.doc]
		sym.Assert(ok, label+": a stored field is lost")
		same(g, s, label)
	}
	sym.Reach("end")
}

func H_mem_large_stats()  { largeStats(storage.NewMemory(), "memory") }
func H_disk_large_stats() { largeStats(openDisk(9), "disk") }

// Repeated and unknown names in one question; the order of the questions does not matter.
func questions(st storage.Storage, label string) {
	l := []saved{
		{doc: "a", field: "f", len: 2, terms: []string{"t", "u"}, tf: []int{1, 1}},
		{doc: "b", field: "f", len: 3, terms: []string{"u"}, tf: []int{3}},
		{doc: "b", field: "g", len: 1, terms: []string{"t"}, tf: []int{1}},
		{doc: "c", field: "f", len: 1, terms: []string{"t"}, tf: []int{1}},
	}
	save(st, l)
	var terms, docs []string
	n := sym.Choose("questions", deep(4, 5))
	for i := 0; i < n; i++ {
		terms = append(terms, []string{"t", "u", "nowhere"}[sym.Choose("term", 3)])
		docs = append(docs, []string{"a", "b", "c", "nobody"}[sym.Choose("doc", 4)])
	}
	f := []string{"f", "g", "h"}[sym.Choose("field", 3)]
	counts := map[string]int{}
	for _, t := range terms {
		counts[t] = 0
		for _, s := range l {
			if s.field == f && s.has(t) {
				counts[t]++
			}
		}
	}
	m := st.GetNumberFieldTerm(f, terms)
	sym.Assert(len(m) == len(counts), label+": exactly the requested terms are counted")
	for t, c := range counts {
		v, ok := m[t]
		sym.Assert(ok && v == c, label+": number of documents with the term")
	}
	fields := map[string]saved{}
	for _, d := range docs {
		for _, s := range l {
			if s.doc == d && s.field == f {
				fields[d] = s
			}
		}
	}
	got := st.GetFields(docs, f)
	sym.Assert(len(got) == len(fields), label+": number of returned fields")
	for d, s := range fields {
		g, ok := got[d]
		sym.Assert(ok, label+": a saved field is not returned")
		same(g, s, label)
	}
	sym.Reach("end")
}

func H_mem_questions()  { questions(storage.NewMemory(), "memory") }
func H_disk_questions() { questions(openDisk(sym.Choose("cache", 3)), "disk") }

// Two stores in one process have nothing to do with each other.
func two(a, b storage.Storage, label string, what int) {
	la := history(a, nil, 1, -1, 3, false)
	lb := history(b, nil, 1, -1, 3, false)
	s := la[0]
	if sym.Choose("query", 2) == 1 {
		s = lb[0]
	}
	for i, st := range []storage.Storage{a, b} {
		l := [][]saved{la, lb}[i]
		switch what {
		case postingsOnly:
			checkPostings(st, l, s.field, s.terms[0], label)
		case statsOnly:
			checkStats(st, l, s.field, s.terms[0], "z", label)
		case fieldsOnly:
			checkFields(st, l, s.doc, "z", s.field, label)
		}
	}
	sym.Reach("end")
}

func twoDisks(what int) {
	a, err := storage.NewDiskStore(filepath.Join(sym.TempRoot(), "one"), 1)
	sym.Assert(err == nil, "disk: the store does not open")
	b, err := storage.NewDiskStore(filepath.Join(sym.TempRoot(), "two"), 1)
	sym.Assert(err == nil, "disk: the store does not open")
	la := history(a, nil, 1, -1, 3, false)
	lb := history(b, nil, 1, -1, 3, false)
	if sym.Choose("pause", 2) == 1 {
		time.Sleep(flushed)
		a, err = storage.NewDiskStore(filepath.Join(sym.TempRoot(), "one"), 1)
		sym.Assert(err == nil, "disk: the store does not open again")
	}
	s := la[0]
	if sym.Choose("query", 2) == 1 {
		s = lb[0]
	}
	for i, st := range []storage.Storage{a, b} {
		l := [][]saved{la, lb}[i]
		switch what {
		case postingsOnly:
			checkPostings(st, l, s.field, s.terms[0], "two disks")
		case statsOnly:
			checkStats(st, l, s.field, s.terms[0], "z", "two disks")
		case fieldsOnly:
			checkFields(st, l, s.doc, "z", s.field, "two disks")
		}
	}
	sym.Reach("end")
}

func H_mem_two_postings() {
	two(storage.NewMemory(), storage.NewMemory(), "two memories", postingsOnly)
}
func H_mem_two_stats()  { two(storage.NewMemory(), storage.NewMemory(), "two memories", statsOnly) }
func H_mem_two_fields() { two(storage.NewMemory(), storage.NewMemory(), "two memories", fieldsOnly) }

func H_disk_two_postings() { twoDisks(postingsOnly) }
func H_disk_two_stats()    { twoDisks(statsOnly) }
func H_disk_two_fields()   { twoDisks(fieldsOnly) }

// Many documents saved at once are all there after one turn of the writers.
func H_disk_burst() {
	st := openDisk(sym.Choose("cache", 2) * 5)
	var l []saved
	n := sym.IntRange("tf", 1, 1<<26)
	for i := 0; i < deep(75, 150); i++ {
		d := "document-" + strconv.Itoa(i)
		s := saved{doc: d, field: "text", len: 100 + i, terms: []string{"common", "id-" + strconv.Itoa(i)}, tf: []int{300 + i, 1}}
		if i == 60 {
			s.tf[0] = n
		}
		l = append(l, s, saved{doc: d, field: "title", len: i % 5, terms: []string{"word-" + strconv.Itoa(i%6)}, tf: []int{1}})
	}
	save(st, l)
	time.Sleep(flushed)
	st = openDisk(1)
	everything(st, l, all3, "reopened after many saves")
	sym.Reach("end")
}
