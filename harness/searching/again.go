package searching

import (
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// later are documents that come between the searches of a sequence.
func later(i int) saved {
	return []saved{
		{"e", "t", 7, []string{"x", "y"}, []int{1 + sym.Choose("tf", deep(1, 3)), 2}},
		{"f", "u", 3, []string{"q", "x"}, []int{2, 1}},
		{"b", "w", 4, []string{"x"}, []int{1}},
		{"g", "t", 200, []string{"z"}, []int{9}},
	}[i]
}

// place is a memory or a disk store.
func place() (storage.Storage, bool) {
	if sym.Choose("store", 2) == 0 {
		return storage.NewMemory(), false
	}
	st, err := storage.NewDiskStore(sym.TempRoot(), 1)
	sym.Assert(err == nil, "search: the store does not open")
	return st, true
}

// A sequence of searches on one searcher, with saves in between: every result is that of its moment, and stays so.
func H_searches_again() {
	st, disk := place()
	ix := index.NewIndex(st)
	for _, s := range corpus {
		ix.IndexDocument(s.doc, model.NormalizedDocument{Fields: []model.Field{s.model()}})
	}
	l := append([]saved{}, corpus...)
	if disk && sym.Choose("flushed", 2) == 1 {
		time.Sleep(20 * time.Second)
	}
	se := search.NewStandard(ix)
	rounds := deep(3, 4)
	saves, from := sym.Choose("saves", 1<<(rounds-1)), sym.Choose("from", deep(2, 4))
	var checks []func()
	for i := 0; i < rounds; i++ {
		if i > 0 && saves&(1<<(i-1)) != 0 {
			s := later((i - 1 + from) % 4)
			ix.IndexDocument(s.doc, model.NormalizedDocument{Fields: []model.Field{s.model()}})
			l = append(l, s)
		}
		qs := [][]model.Query{
			{{FieldName: "t", Terms: []string{"x", "y"}, Boost: 1}, {FieldName: "u", Terms: []string{"x"}, Boost: 2}},
			{{FieldName: "u", Terms: []string{"q"}}},
			{{FieldName: "none", Terms: []string{"x"}}},
			{{FieldName: "t", Terms: []string{"z"}, Boost: 3}},
		}[sym.Choose("query", deep(3, 4))]
		got := se.Search(qs)
		now := append([]saved{}, l...)
		check := func() { checkSearch(got, now, qs) }
		check()
		checks = append(checks, check)
	}
	for _, check := range checks {
		check()
	}
	sym.Reach("end")
}

// The same for the statistics an index gives.
func H_index_again() {
	st, disk := place()
	ix := index.NewIndex(st)
	for _, s := range corpus {
		ix.IndexDocument(s.doc, model.NormalizedDocument{Fields: []model.Field{s.model()}})
	}
	l := append([]saved{}, corpus...)
	if disk && sym.Choose("flushed", 2) == 1 {
		time.Sleep(20 * time.Second)
	}
	rounds := deep(3, 4)
	saves, from := sym.Choose("saves", 1<<(rounds-1)), sym.Choose("from", deep(2, 4))
	var checks []func()
	for i := 0; i < rounds; i++ {
		if i > 0 && saves&(1<<(i-1)) != 0 {
			s := later((i - 1 + from) % 4)
			ix.IndexDocument(s.doc, model.NormalizedDocument{Fields: []model.Field{s.model()}})
			l = append(l, s)
		}
		terms := [][]string{{"x", "y"}, {"q"}, {"z", "x"}, {"nowhere"}}[sym.Choose("terms", deep(3, 4))]
		f := []string{"t", "u", "none"}[sym.Choose("field", deep(1, 3))]
		got := ix.Search(terms, f)
		now := append([]saved{}, l...)
		check := func() { checkIndex(got, now, terms, f) }
		check()
		checks = append(checks, check)
	}
	for _, check := range checks {
		check()
	}
	sym.Reach("end")
}

// Documents whose field is empty count for the average length, and are never found.
func H_search_empty() {
	st, _ := place()
	ix := index.NewIndex(st)
	var l []saved
	n := 1 + sym.Choose("empty", 4)
	at := sym.Choose("at", n+1)
	for i := 0; i <= n; i++ {
		s := saved{doc: string(rune('a' + i)), field: "t"}
		if i == at {
			s.len, s.terms, s.tf = 1+sym.Choose("len", 3), []string{"x"}, []int{1}
		}
		ix.IndexDocument(s.doc, model.NormalizedDocument{Fields: []model.Field{s.model()}})
		l = append(l, s)
		f := saved{s.doc, "u", 2, []string{"y"}, []int{2}}
		if i%2 == 1 {
			f.len, f.terms, f.tf = 0, nil, nil
		}
		ix.IndexDocument(f.doc, model.NormalizedDocument{Fields: []model.Field{f.model()}})
		l = append(l, f)
	}
	qs := [][]model.Query{
		{{FieldName: "t", Terms: []string{"x"}, Boost: 1}},
		{{FieldName: "t", Terms: []string{"y", "x"}}, {FieldName: "u", Terms: []string{"y"}, Boost: 2}},
		{{FieldName: "u", Terms: []string{"x"}}},
	}[sym.Choose("query", 3)]
	checkSearch(search.NewStandard(ix).Search(qs), l, qs)
	sym.Reach("end")
}
