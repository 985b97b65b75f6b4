// Package searching checks index and search over the stores.
package searching

import (
	"math"
	"strconv"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/alike"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

func deep(quick, thorough int) int {
	if sym.Deep() {
		return thorough
	}
	return quick
}

func name(what string, n int) string {
	s := sym.String(what, 1)
	sym.Assume(sym.And(s[0] >= 'a', s[0] < 'a'+byte(n)))
	return s
}

type saved struct {
	doc, field string
	len        int
	terms      []string
	tf         []int
}

func (s saved) model() model.Field {
	f := model.Field{Name: s.field, Length: s.len, TF: map[string]int{}}
	for i, t := range s.terms {
		f.TF[t] = s.tf[i]
	}
	return f
}

func (s saved) freq(t string) int {
	n := 0
	for i, x := range s.terms {
		n += sym.IteInt(x == t, s.tf[i], 0)
	}
	return n
}

func (s saved) has(t string) bool {
	r := false
	for _, x := range s.terms {
		r = sym.Or(r, x == t)
	}
	return r
}

// save is a save of one field with n different terms; the numbers differ from save to save.
func save(i, n, docs, fields, terms int) saved {
	s := saved{doc: name("doc", docs), field: name("field", fields), len: 3 + 5*i}
	for j := 0; j < n; j++ {
		t := name("term", terms)
		for _, o := range s.terms {
			sym.Assume(t != o)
		}
		s.terms = append(s.terms, t)
		s.tf = append(s.tf, 1+i+2*j)
	}
	return s
}

func fresh(l []saved, s saved) {
	for _, o := range l {
		sym.Assume(sym.Not(sym.And(o.doc == s.doc, o.field == s.field)))
	}
}

// checkIndex compares a search of the index with the list of saves.
func checkIndex(r model.SearchResult, l []saved, terms []string, f string) {
	size, length, want := 0, 0, 0
	for _, s := range l {
		if s.field != f {
			continue
		}
		size++
		length += s.len
		hit := false
		for _, t := range terms {
			hit = hit || s.has(t)
		}
		g, ok := r.FieldDocuments[s.doc]
		sym.Assert(ok == hit, "index: exactly the documents with a term of the query are found")
		if !hit || !ok {
			continue
		}
		want++
		sym.Assert(g.Name == f && g.Length == s.len && len(g.TF) == len(s.terms), "index: the stored field of a document")
		for i, t := range s.terms {
			sym.Assert(g.TF[t] == s.tf[i], "index: the stored field of a document")
		}
	}
	sym.Assert(len(r.FieldDocuments) == want, "index: number of documents found")
	sym.Assert(r.TotalDocuments == float64(size), "index: number of documents with the field")
	if size > 0 {
		sym.Assert(r.AvgDocLength == float64(length)/float64(size), "index: average length")
	}
	for _, t := range terms {
		n := 0
		for _, s := range l {
			if s.field == f && s.has(t) {
				n++
			}
		}
		v, ok := r.NumFieldsWithTerm[t]
		sym.Assert(ok && v == n, "index: number of documents with a term")
	}
}

// idle tells that a search leaves nothing behind.
func idle(before int) {
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == before, "search: goroutines are left over")
}

func H_index() {
	ix := index.NewIndex(storage.NewMemory())
	var l []saved
	for i := 0; i < 3; i++ {
		s := save(i, deep(1, 2), 4, 2, 3)
		fresh(l, s)
		ix.IndexDocument(s.doc, model.NormalizedDocument{Fields: []model.Field{s.model()}})
		l = append(l, s)
	}
	var terms []string
	n := sym.Choose("terms", 3)
	for i := 0; i < n; i++ {
		terms = append(terms, name("query", 4))
	}
	f := name("qf", 3)
	checkIndex(ix.Search(terms, f), l, terms, f)
	idle(0)
	sym.Reach("end")
}

// A document with empty fields before and after others.
func H_index_empty_fields() {
	ix := index.NewIndex(storage.NewMemory())
	var l []saved
	for i := 0; i < 2; i++ {
		var fs []model.Field
		d := "doc-" + string(rune('a'+i))
		for j := 0; j < 3; j++ {
			s := saved{doc: d, field: []string{"title", "", "text"}[j]}
			switch sym.Choose("content", 3) {
			case 1:
				s.len, s.terms, s.tf = 1+j, []string{"x"}, []int{1 + j}
			case 2: // the empty term is a term like others
				s.len, s.terms, s.tf = 2+j, []string{""}, []int{2 + j}
			}
			l = append(l, s)
			fs = append(fs, s.model())
		}
		ix.IndexDocument(d, model.NormalizedDocument{Fields: fs})
	}
	ix.IndexDocument("empty", model.NormalizedDocument{})
	f := []string{"title", "", "text"}[sym.Choose("qf", 3)]
	terms := [][]string{{"x"}, {""}, {"x", ""}}[sym.Choose("query", 3)]
	checkIndex(ix.Search(terms, f), l, terms, f)
	sym.Reach("end")
}

// A document with several fields is findable in each of them.
func H_index_fields() {
	ix := index.NewIndex(storage.NewMemory())
	var l []saved
	for i := 0; i < 2; i++ {
		var fs []model.Field
		d := name("doc", 3)
		for j := 0; j < 2; j++ {
			s := save(2*i+j, 1, 3, 3, 2)
			sym.Assume(s.doc == d)
			fresh(l, s)
			l = append(l, s)
			fs = append(fs, s.model())
		}
		ix.IndexDocument(d, model.NormalizedDocument{Fields: fs})
	}
	f := name("qf", 3)
	terms := []string{name("query", 2)}
	checkIndex(ix.Search(terms, f), l, terms, f)
	sym.Reach("end")
}

// The same under other schedules of the goroutines of a search, without data races or deadlocks.
func H_index_schedules() {
	ix := index.NewIndex(storage.NewMemory())
	l := []saved{
		{"a", "f", 3, []string{"x", "y"}, []int{1, 2}},
		{"b", "f", 4, []string{"x"}, []int{3}},
		{"c", "f", 5, []string{"y"}, []int{1}},
		{"d", "f", 6, []string{"x", "y", "z"}, []int{2, 2, 2}},
		{"e", "f", 7, []string{"z"}, []int{2}},
		{"g", "f", 8, []string{"y"}, []int{2}},
	}
	for _, s := range l {
		ix.IndexDocument(s.doc, model.NormalizedDocument{Fields: []model.Field{s.model()}})
	}
	sym.SetCPUs(1)
	terms := [][]string{{"x", "y"}, {"y"}, {"x", "y", "z", "q", "x"}, {}}[sym.Choose("query", 4)]
	sym.Races(true)
	sym.Explore(deep(1, 2))
	r := ix.Search(terms, "f")
	sym.StopExplore()
	checkIndex(r, l, terms, "f")
	idle(0)
	sym.Reach("end")
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(b)) }

// score is the definition of the score of document d for one field of a query.
func score(l []saved, q model.Query, d string) (float64, bool) {
	size, length := 0, 0
	for _, s := range l {
		if s.field == q.FieldName {
			size++
			length += s.len
		}
	}
	boost := q.Boost
	if boost == 0 {
		boost = 1
	}
	total, hit := 0.0, false
	for _, s := range l {
		if s.field != q.FieldName || s.doc != d {
			continue
		}
		for _, t := range q.Terms {
			n := 0
			for _, o := range l {
				if o.field == q.FieldName && o.has(t) {
					n++
				}
			}
			f := 0
			for i, x := range s.terms {
				if x == t {
					f = s.tf[i]
					hit = true
				}
			}
			idf := math.Log(1 + (float64(size)-float64(n)+0.5)/(float64(n)+0.5))
			tf := float64(f)
			total += boost * idf * tf * 2.2 / (tf + 1.2*(0.25+0.75*float64(s.len)/(float64(length)/float64(size))))
		}
	}
	return total, hit
}

// checkSearch compares the results of a search with what the definition gives for the list of saves.
func checkSearch(got []model.DocumentScore, l []saved, qs []model.Query) {
	var docs []string
	for _, s := range l {
		dup := false
		for _, d := range docs {
			dup = dup || d == s.doc
		}
		if !dup {
			docs = append(docs, s.doc)
		}
	}
	totals := make([]float64, len(docs))
	hits := make([]bool, len(docs))
	for i, d := range docs {
		for _, q := range qs {
			x, h := score(l, q, d)
			totals[i] += x
			hits[i] = hits[i] || h
		}
	}
	compare(got, docs, totals, hits)
}

// compare compares the results with the documents, their scores and whether they have a term of a query.
func compare(got []model.DocumentScore, docs []string, totals []float64, hits []bool) {
	want := 0
	for i, d := range docs {
		n := 0
		for _, g := range got {
			if g.Id == d {
				n++
				sym.Assert(near(g.Score, totals[i]), "search: score of a document")
			}
		}
		if hits[i] {
			want++
			sym.Assert(n == 1, "search: every document with a term of the query is found once")
		} else {
			sym.Assert(n == 0, "search: a document without any term of the query is found")
		}
	}
	sym.Assert(len(got) == want, "search: number of results")
	for i := 1; i < len(got); i++ {
		sym.Assert(got[i-1].Score >= got[i].Score, "search: order of the results")
	}
}

func queries(fields, terms int) []model.Query {
	var qs []model.Query
	n := sym.Choose("queries", 3)
	for i := 0; i < n; i++ {
		q := model.Query{FieldName: name("qf", fields), Boost: []float64{1, 2.5, 0, 0.5}[sym.Choose("boost", 4)]}
		k := 1 + sym.Choose("qterms", deep(1, 2))
		for j := 0; j < k; j++ {
			q.Terms = append(q.Terms, name("query", terms))
		}
		qs = append(qs, q)
	}
	return qs
}

func H_search() {
	st := storage.NewMemory()
	ix := index.NewIndex(st)
	var l []saved
	for i := 0; i < 3; i++ {
		s := save(i, 1, 3, 2, 2)
		fresh(l, s)
		st.SaveOrUpdate(s.doc, s.model())
		l = append(l, s)
	}
	qs := queries(2, 3)
	checkSearch(search.NewStandard(ix).Search(qs), l, qs)
	idle(0)
	sym.Reach("end")
}

// Queries of many terms of which few or none occur anywhere.
func H_search_long() {
	st := storage.NewMemory()
	var l []saved
	n := 1 + sym.Choose("docs", 3)
	for i := 0; i < n; i++ {
		l = append(l, saved{doc: "d" + strconv.Itoa(i), field: "f", len: 3 + i, terms: []string{"t" + strconv.Itoa(i), "u"}, tf: []int{1 + i, 2}})
	}
	for _, s := range l {
		st.SaveOrUpdate(s.doc, s.model())
	}
	var qs []model.Query
	for i := sym.Choose("queries", 2); i >= 0; i-- {
		q := model.Query{FieldName: "f", Boost: 1}
		k := sym.Choose("qterms", deep(7, 12))
		at := sym.Choose("at", k+1)
		for j := 0; j < k; j++ {
			t := "no-" + strconv.Itoa(j)
			if j == at {
				t = []string{"t0", "t1", "u"}[sym.Choose("term", 3)]
			}
			q.Terms = append(q.Terms, t)
		}
		qs = append(qs, q)
	}
	checkSearch(search.NewStandard(index.NewIndex(st)).Search(qs), l, qs)
	idle(0)
	sym.Reach("end")
}

// Larger documents and repeated and missing query terms.
func H_search_terms() {
	st := storage.NewMemory()
	ix := index.NewIndex(st)
	var l []saved
	for i := 0; i < 2; i++ {
		s := save(i, 2, 2, 2, 3)
		fresh(l, s)
		st.SaveOrUpdate(s.doc, s.model())
		l = append(l, s)
	}
	var terms []string
	for i := 0; i < 2; i++ {
		terms = append(terms, name("query", 4))
	}
	qs := []model.Query{{FieldName: name("qf", 2), Terms: terms, Boost: 3}}
	checkSearch(search.NewStandard(ix).Search(qs), l, qs)
	sym.Reach("end")
}

var corpus = []saved{
	{"a", "t", 3, []string{"x", "y"}, []int{1, 2}},
	{"b", "t", 9, []string{"x"}, []int{3}},
	{"c", "u", 5, []string{"y"}, []int{1}},
	{"a", "u", 6, []string{"x", "z"}, []int{2, 2}},
	{"d", "u", 2, []string{"x", "y"}, []int{1, 1}},
}

// Other schedules and orders of map entries give the same results, without data races, deadlocks or goroutines that are left over.
func H_search_schedules() {
	st := storage.NewMemory()
	ix := index.NewIndex(st)
	for _, s := range corpus {
		st.SaveOrUpdate(s.doc, s.model())
	}
	sym.SetCPUs(1)
	qs := [][]model.Query{
		{{FieldName: "t", Terms: []string{"x", "y"}, Boost: 1}, {FieldName: "u", Terms: []string{"x", "y"}, Boost: 2}},
		{{FieldName: "u", Terms: []string{"x"}}},
		{{FieldName: "none", Terms: []string{"x"}}, {FieldName: "u", Terms: []string{"q"}}},
		{},
	}[sym.Choose("query", 4)]
	sym.Races(true)
	sym.Explore(deep(1, 2))
	got := search.NewStandard(ix).Search(qs)
	sym.StopExplore()
	checkSearch(got, corpus, qs)
	idle(0)
	sym.Reach("end")
}

// A search while a document is saved: it finds what was saved before with its stored field, the new document as it was saved or not at all, and the scores are numbers.
func H_search_while_saving() {
	st := storage.NewMemory()
	ix := index.NewIndex(st)
	var l []saved
	if sym.Choose("before", 2) == 1 {
		l = append(l, corpus[0])
		st.SaveOrUpdate("a", corpus[0].model())
	}
	sym.SetCPUs(1)
	sym.Races(true)
	sym.Explore(deep(2, 3))
	done := make(chan bool, 1)
	go func() {
		st.SaveOrUpdate("b", corpus[1].model())
		done <- true
	}()
	qs := []model.Query{{FieldName: "t", Terms: []string{"x"}, Boost: 1}}
	got := search.NewStandard(ix).Search(qs)
	<-done
	sym.StopExplore()
	a := 0
	for _, g := range got {
		sym.Assert(g.Score == g.Score, "search: a score that is not a number")
		sym.Assert(g.Id == "a" || g.Id == "b", "search: a document that was never saved is found")
		if g.Id == "a" {
			a++
		}
	}
	sym.Assert(a == len(l) && len(got) <= len(l)+1, "search: every document saved before the search is found once")
	l = append(l, corpus[1])
	checkSearch(search.NewStandard(ix).Search(qs), l, qs)
	idle(0)
	sym.Reach("end")
}

// The same over the disk store, also after its files were written.
func H_search_disk() {
	st, err := storage.NewDiskStore(sym.TempRoot(), 1)
	sym.Assert(err == nil, "search: the store does not open")
	ix := index.NewIndex(st)
	var l []saved
	for i := 0; i < 2; i++ {
		s := save(i, 1, 2, 2, 2)
		fresh(l, s)
		st.SaveOrUpdate(s.doc, s.model())
		l = append(l, s)
		if sym.Choose("pause", 2) == 1 {
			time.Sleep(20 * time.Second)
		}
	}
	q := model.Query{FieldName: name("qf", 2), Terms: []string{name("query", 2)}, Boost: 1}
	checkSearch(search.NewStandard(ix).Search([]model.Query{q}), l, []model.Query{q})
	sym.Reach("end")
}

// More documents than channels, batches or processors hold.
func H_index_many() {
	ix := index.NewIndex(storage.NewMemory())
	var l []saved
	n := deep(23, 60)
	with := sym.IntRange("with", 0, 3)
	for i := 0; i < n; i++ {
		s := saved{"d" + string(rune('A'+i)), "f", 2 + i, []string{"x"}, []int{1 + i}}
		if i%4 == sym.Concretize(with) {
			s.terms = append(s.terms, "y")
			s.tf = append(s.tf, 2)
		}
		l = append(l, s)
		ix.IndexDocument(s.doc, model.NormalizedDocument{Fields: []model.Field{s.model()}})
	}
	sym.SetCPUs(1 + sym.Choose("cpus", 2))
	sym.Races(true)
	terms := [][]string{{"x"}, {"y"}, {"x", "y"}, {"y", "z", "x", "x", "q", "w"}}[sym.Choose("query", 4)]
	checkIndex(ix.Search(terms, "f"), l, terms, "f")
	idle(0)
	sym.Reach("end")
}

// Queries of very many terms that find very many documents.
func H_index_wide() {
	ix := index.NewIndex(storage.NewMemory())
	n := deep(130, 300)
	var l []saved
	var terms []string
	for i := 0; i < n; i++ {
		own := "id-" + strconv.Itoa(i)
		s := saved{"d" + strconv.Itoa(i), "f", 2, []string{"x", own}, []int{1, 1}}
		l = append(l, s)
		terms = append(terms, own)
		ix.IndexDocument(s.doc, model.NormalizedDocument{Fields: []model.Field{s.model()}})
	}
	sym.SetCPUs([]int{1, 4, 64}[sym.Choose("cpus", 3)])
	switch sym.Choose("query", 3) {
	case 1:
		terms = []string{"x"}
	case 2:
		terms = append(terms, "nowhere", "x")
	}
	checkIndex(ix.Search(terms, "f"), l, terms, "f")
	idle(0)
	sym.Reach("end")
}

// collection is n documents with three fields; which quarter of them has the term "rare" is arbitrary.
func collection(n int) []saved {
	rare := sym.Choose("rare", 4)
	var l []saved
	for i := 0; i < n; i++ {
		d := "document-" + strconv.Itoa(i)
		title := saved{doc: d, field: "title", len: 1 + i%5}
		if i%4 == rare {
			title.terms, title.tf = []string{"rare"}, []int{1}
		}
		for k := 0; k < i%5; k++ {
			title.terms = append(title.terms, "word-"+strconv.Itoa((i+k)%6))
			title.tf = append(title.tf, 1+(i*k)%300)
		}
		text := saved{doc: d, field: "text", len: 10 + i*i, terms: []string{"common", "id-" + strconv.Itoa(i)}, tf: []int{1 + i*i, 1}}
		l = append(l, title, text)
		if i%3 == 0 {
			l = append(l, saved{doc: d, field: "tags", len: 4, terms: []string{"rare"}, tf: []int{4}})
		}
	}
	return l
}

// checkMany is checkSearch for large collections without arbitrary names.
func checkMany(got []model.DocumentScore, l []saved, qs []model.Query) {
	size, length := map[string]int{}, map[string]int{}
	df := map[string]int{}
	stored := map[string]saved{}
	var docs []string
	for _, s := range l {
		size[s.field]++
		length[s.field] += s.len
		for _, t := range s.terms {
			df[s.field+"/"+t]++
		}
		if len(docs) == 0 || docs[len(docs)-1] != s.doc {
			docs = append(docs, s.doc)
		}
		stored[s.field+"/"+s.doc] = s
	}
	totals := make([]float64, len(docs))
	hits := make([]bool, len(docs))
	for _, q := range qs {
		boost := q.Boost
		if boost == 0 {
			boost = 1
		}
		N := float64(size[q.FieldName])
		avg := float64(length[q.FieldName]) / N
		idf := map[string]float64{}
		for _, t := range q.Terms {
			n := float64(df[q.FieldName+"/"+t])
			idf[t] = math.Log(1 + (N-n+0.5)/(n+0.5))
		}
		for i, d := range docs {
			s, ok := stored[q.FieldName+"/"+d]
			if !ok {
				continue
			}
			tf := s.model().TF
			for _, t := range q.Terms {
				if c := float64(tf[t]); c > 0 {
					hits[i] = true
					totals[i] += boost * idf[t] * c * 2.2 / (c + 1.2*(0.25+0.75*float64(s.len)/avg))
				}
			}
		}
	}
	compare(got, docs, totals, hits)
}

// many queries with many terms over the collection
func manyQueries() []model.Query {
	var long []string
	for i := 0; i < 40; i++ {
		long = append(long, "id-"+strconv.Itoa(i*3), "word-"+strconv.Itoa(i%9))
	}
	var qs []model.Query
	for i := 0; i < 12; i++ {
		qs = append(qs, model.Query{FieldName: []string{"title", "text", "tags", "none"}[i%4], Terms: []string{"rare", "word-" + strconv.Itoa(i%7), "common", "id-3"}, Boost: float64(i) / 4})
	}
	return [][]model.Query{
		{{FieldName: "title", Terms: []string{"rare"}, Boost: 1}, {FieldName: "tags", Terms: []string{"rare"}, Boost: 0.125}},
		{{FieldName: "text", Terms: []string{"common"}}},
		{{FieldName: "title", Terms: long, Boost: 1}, {FieldName: "text", Terms: long, Boost: 3}},
		qs,
	}[sym.Choose("query", 4)]
}

// Many documents, terms and queries.
func H_search_many() {
	st := storage.NewMemory()
	ix := index.NewIndex(st)
	l := collection(deep(30, 120))
	for _, s := range l {
		st.SaveOrUpdate(s.doc, s.model())
	}
	sym.SetCPUs(1 + 3*sym.Choose("cpus", 2))
	qs := manyQueries()
	checkMany(search.NewStandard(ix).Search(qs), l, qs)
	idle(0)
	sym.Reach("end")
}

// The same over a disk store with a small cache, before and after the files are written.
func H_search_disk_many() {
	st, err := storage.NewDiskStore(sym.TempRoot(), 4)
	sym.Assert(err == nil, "search: the store does not open")
	ix := index.NewIndex(st)
	l := collection(deep(20, 60))
	wait := sym.Choose("wait", 3)
	for i, s := range l {
		st.SaveOrUpdate(s.doc, s.model())
		if wait == 2 && i%7 == 0 {
			time.Sleep(4 * time.Second)
		}
	}
	if wait > 0 {
		time.Sleep(20 * time.Second)
	}
	qs := manyQueries()
	checkMany(search.NewStandard(ix).Search(qs), l, qs)
	sym.Reach("end")
}

// Two searches at the same time on one searcher, over memory or over a disk store with a cache of one document: each has its own result.
func H_searches_together() {
	var st storage.Storage
	disk := sym.Choose("store", 2) == 1
	if disk {
		d, err := storage.NewDiskStore(sym.TempRoot(), 1)
		sym.Assert(err == nil, "search: the store does not open")
		st = d
	} else {
		st = storage.NewMemory()
	}
	ix := index.NewIndex(st)
	for _, s := range corpus {
		st.SaveOrUpdate(s.doc, s.model())
	}
	if disk {
		time.Sleep(20 * time.Second)
	}
	before := sym.Goroutines()
	sym.SetCPUs(1 + sym.Choose("cpus", 2))
	q1 := []model.Query{{FieldName: "t", Terms: []string{"x", "y"}, Boost: 1}}
	q2 := [][]model.Query{
		{{FieldName: "u", Terms: []string{"x"}, Boost: 2}},
		{{FieldName: "t", Terms: []string{"x", "y"}, Boost: 3}, {FieldName: "u", Terms: []string{"q"}}},
	}[sym.Choose("query", 2)]
	se := search.NewStandard(ix)
	sym.Races(true)
	sym.Explore(deep(1, 1))
	done := make(chan []model.DocumentScore, 1)
	go func() { done <- se.Search(q2) }()
	r1 := se.Search(q1)
	r2 := <-done
	sym.StopExplore()
	checkSearch(r1, corpus, q1)
	checkSearch(r2, corpus, q2)
	idle(before)
	sym.Reach("end")
}

// The caller's terms and queries stay as they are, and goroutines may ask with the same ones at the same time.
func H_shared_terms() {
	ix := index.NewIndex(storage.NewMemory())
	l := append([]saved{}, corpus...)
	for _, s := range l {
		ix.IndexDocument(s.doc, model.NormalizedDocument{Fields: []model.Field{s.model()}})
	}
	were := [][]string{{"z", "y", "x"}, {"y", "y", "x"}, {"x", "nowhere"}, {"x"}}[sym.Choose("query", 4)]
	terms := append(make([]string, 0, 8), were...)
	sym.Races(true)
	sym.Explore(1)
	done := make(chan model.SearchResult, 1)
	go func() { done <- ix.Search(terms, "u") }()
	r1 := ix.Search(terms, "t")
	r2 := <-done
	sym.StopExplore()
	for i, w := range were {
		sym.Assert(terms[i] == w, "index: a search changes the caller's terms")
	}
	checkIndex(r1, l, were, "t")
	checkIndex(r2, l, were, "u")
	sym.Reach("end")
}

func H_shared_queries() {
	ix := index.NewIndex(storage.NewMemory())
	l := append([]saved{}, corpus...)
	for _, s := range l {
		ix.IndexDocument(s.doc, model.NormalizedDocument{Fields: []model.Field{s.model()}})
	}
	q := []model.Query{
		{FieldName: "u", Terms: []string{"y", "x", "x", "a"}, Boost: 0},
		{FieldName: "t", Terms: []string{"z", "y", "x"}, Boost: 2},
	}
	one, other := search.NewStandard(ix), search.NewStandard(ix)
	if sym.Choose("searcher", 2) == 1 {
		other = one
	}
	sym.Races(true)
	sym.Explore(deep(1, 1))
	done := make(chan []model.DocumentScore, 1)
	go func() { done <- other.Search(q) }()
	r1 := one.Search(q)
	r2 := <-done
	sym.StopExplore()
	sym.Assert(len(q) == 2 && q[0].FieldName == "u" && q[1].FieldName == "t" && q[0].Boost == 0 && q[1].Boost == 2, "search: a search changes the caller's queries")
	for i, w := range [][]string{{"y", "x", "x", "a"}, {"z", "y", "x"}} {
		sym.Assert(len(q[i].Terms) == len(w), "search: a search changes the caller's terms")
		for k := range w {
			sym.Assert(q[i].Terms[k] == w[k], "search: a search changes the caller's terms")
		}
	}
	checkSearch(r1, l, q)
	checkSearch(r2, l, q)
	sym.Reach("end")
}

// Documents whose scores are close to each other, and more documents than a first page holds.
func H_order_close() {
	st := storage.NewMemory()
	ix := index.NewIndex(st)
	n := deep(140, 300)
	huge := []int{40, 100000, 1 << 26}[sym.Choose("size", 3)]
	var l []saved
	for i := 0; i < n; i++ {
		s := saved{doc: "document-" + strconv.Itoa(i), field: "t", len: huge + (i*37)%n, terms: []string{"x"}, tf: []int{1}}
		if i%2 == 0 {
			s.terms, s.tf = append(s.terms, "y"), append(s.tf, huge+i%5)
		}
		l = append(l, s)
		st.SaveOrUpdate(s.doc, s.model())
	}
	qs := []model.Query{{FieldName: "t", Terms: [][]string{{"x"}, {"y"}, {"y", "x"}}[sym.Choose("query", 3)], Boost: []float64{1, 1e-6}[sym.Choose("boost", 2)]}}
	checkMany(search.NewStandard(ix).Search(qs), l, qs)
	sym.Reach("end")
}

// Documents, fields or terms with names that are easily taken for one.
func H_search_alike() {
	p := alike.Pairs[sym.Choose("pair", len(alike.Pairs))]
	x, y := p[0], p[1]
	if sym.Choose("swap", 2) == 1 {
		x, y = y, x
	}
	l := []saved{{"d", "f", 3, []string{"t", "u"}, []int{2, 3}}, {"e", "f", 4, []string{"t"}, []int{1}}, {"z", "f", 9, []string{"v"}, []int{1}}}
	terms, f := []string{"t", "w"}, "f"
	switch sym.Choose("part", 3) {
	case 0:
		l[0].doc, l[1].doc = x, y
	case 1:
		l[0].field, l[1].field, f = x, y, x
		if sym.Choose("one", 2) == 1 {
			l[1].doc = "d"
		}
	case 2:
		l[0].terms[0], l[1].terms[0] = x, y
		terms = [][]string{{x}, {x, y}, {y, x, "u"}}[sym.Choose("query", 3)]
	}
	st := storage.NewMemory()
	for _, s := range l {
		st.SaveOrUpdate(s.doc, s.model())
	}
	ix := index.NewIndex(st)
	checkIndex(ix.Search(terms, f), l, terms, f)
	qs := []model.Query{{FieldName: f, Terms: terms, Boost: 1}, {FieldName: y, Terms: terms, Boost: 2}}
	checkSearch(search.NewStandard(ix).Search(qs), l, qs)
	sym.Reach("end")
}
