package stores

import (
	"strconv"

	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

func H_mem_postings() {
	st := storage.NewMemory()
	l := history(st, nil, deep(3, 4), 2, 5, false)
	checkPostings(st, l, name("qf", 5), name("qt", 5), "memory")
	sym.Reach("end")
}

func H_mem_stats() {
	st := storage.NewMemory()
	l := history(st, nil, 3, deep(1, 2), 5, false)
	checkStats(st, l, name("qf", 5), name("qt", 5), name("qu", 5), "memory")
	sym.Reach("end")
}

func H_mem_fields() {
	st := storage.NewMemory()
	l := history(st, nil, deep(3, 4), 1, 5, false)
	checkFields(st, l, name("qd", 5), name("qe", 5), name("qf", 5), "memory")
	sym.Reach("end")
}

// A set of documents that was handed out does not change with later saves.
func snapshot(st storage.Storage, label string) {
	a := saved{doc: "a", field: "f", terms: []string{"t"}, tf: []int{1}}
	st.SaveOrUpdate(a.doc, a.model())
	n := 1
	for ; n <= 40*sym.Choose("many", 2); n++ {
		st.SaveOrUpdate("other-"+strconv.Itoa(n), a.model())
	}
	set, ok := st.GetDocuments("f", "t")
	b := symSaved(1, 20)
	st.SaveOrUpdate(b.doc, b.model())
	sym.Assert(ok && set.Size() == n && len(set.GetData()) == n && set.Contains("a"), label+": postings handed out earlier change with a later save")
	sym.Reach("end")
}

func H_mem_snapshot() { snapshot(storage.NewMemory(), "memory") }

// UpdateIndex alone makes a document findable.
func updateIndex(st storage.Storage, label string) {
	var l []saved
	for i := 0; i < 2; i++ {
		s := symSaved(2, 6)
		if sym.Choose("op", 2) == 0 {
			st.UpdateIndex(s.doc, s.model())
		} else {
			st.SaveOrUpdate(s.doc, s.model())
		}
		l = append(l, s)
	}
	checkPostings(st, l, name("qf", 6), name("qt", 6), label)
	// the whole index of a field, term by term
	f := l[0].field
	ix := st.GetIndex(f)
	for _, s := range l {
		if s.field != f {
			continue
		}
		for _, t := range s.terms {
			set, ok := ix[t]
			sym.Assert(ok && set.Contains(s.doc), label+": a document is missing from the index of its field")
		}
	}
	sym.Reach("end")
}

func H_mem_updateindex() { updateIndex(storage.NewMemory(), "memory") }

// Saving a field of a document again replaces it.
func resaves(st storage.Storage) (a, b saved) {
	a = saved{doc: "d", field: "f", len: sym.IntRange("len", 0, 1<<20), terms: []string{"t"}, tf: []int{1}}
	b = saved{doc: "d", field: "f", len: sym.IntRange("len", 0, 1<<20), terms: []string{name("term", 26)}, tf: []int{2}}
	save(st, []saved{a, b})
	return a, b
}

func resave(st storage.Storage, label string) {
	_, b := resaves(st)
	g := st.GetFields([]string{"d"}, "f")
	same(g["d"], b, label+" after saving again")
	sym.Assert(contains(st, "d", "f", b.terms[0]), label+": a document saved again is missing from its postings")
	sym.Reach("end")
}

func H_mem_resave() { resave(storage.NewMemory(), "memory") }

// The counters and postings forget what was replaced.
func resaveStats(st storage.Storage, label string) {
	_, b := resaves(st)
	switch sym.Choose("what", 3) {
	case 0:
		sym.Assert(st.GetFieldSize("f") == 1, label+": a field saved again is counted twice")
	case 1:
		sym.Assert(st.GetFieldLength("f") == b.len, label+": length of a field saved again")
	case 2:
		set, _ := st.GetDocuments("f", "t")
		sym.Assert(set.Contains("d") == (b.terms[0] == "t"), label+": postings of a term that is gone")
	}
	sym.Reach("end")
}

func H_mem_resave_stats() { resaveStats(storage.NewMemory(), "memory") }
