// Package stores checks the document stores against a reference that is a plain list of what was saved.
package stores

import (
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

type saved struct {
	doc   string
	field string
	len   int
	terms []string
	tf    []int
}

func (s saved) model() model.Field {
	f := model.Field{Name: s.field, Length: s.len, TF: map[string]int{}}
	for i, t := range s.terms {
		f.TF[t] = s.tf[i]
	}
	return f
}

// has tells whether s holds term t.
func (s saved) has(t string) bool {
	r := false
	for _, x := range s.terms {
		r = sym.Or(r, x == t)
	}
	return r
}

// name is one of n one-letter names.
func name(what string, n int) string {
	s := sym.String(what, 1)
	sym.Assume(sym.And(s[0] >= 'a', s[0] < 'a'+byte(n)))
	return s
}

// symSaved is an arbitrary save with n different terms.
func symSaved(n, alphabet int) saved {
	s := saved{doc: name("doc", alphabet), field: name("field", alphabet), len: sym.IntRange("len", 0, 1<<28)}
	for i := 0; i < n; i++ {
		t := name("term", alphabet)
		for _, o := range s.terms {
			sym.Assume(t != o)
		}
		s.terms = append(s.terms, t)
		s.tf = append(s.tf, sym.IntRange("tf", 1, 1<<28))
	}
	return s
}

// fresh assumes that no earlier save was of the same document and field.
func fresh(l []saved, s saved) {
	for _, o := range l {
		sym.Assume(sym.Not(sym.And(o.doc == s.doc, o.field == s.field)))
	}
}

// history saves n documents with up to nterms terms each (exactly -nterms if negative); pauses longer than every flush interval may lie between them.
func history(st storage.Storage, l []saved, n, nterms, alphabet int, pauses bool) []saved {
	for i := 0; i < n; i++ {
		k := -nterms
		if nterms >= 0 {
			k = sym.Choose("nterms", nterms+1)
		}
		s := symSaved(k, alphabet)
		fresh(l, s)
		st.SaveOrUpdate(s.doc, s.model())
		l = append(l, s)
		if pauses && sym.Choose("pause", 2) == 1 {
			time.Sleep(16 * time.Second)
		}
	}
	return l
}

// checkPostings compares the documents of (field, term) with the list.
func checkPostings(st storage.Storage, l []saved, f, t, label string) {
	set, ok := st.GetDocuments(f, t)
	want := 0
	for i, s := range l {
		in := sym.And(s.field == f, s.has(t))
		dup := false
		for j := 0; j < i; j++ {
			dup = sym.Or(dup, sym.And(l[j].doc == s.doc, l[j].field == f, l[j].has(t)))
		}
		want += sym.IteInt(sym.And(in, sym.Not(dup)), 1, 0)
		if ok {
			sym.Assert(sym.Implies(in, set.Contains(s.doc)), label+": a saved document is missing from its postings")
		} else {
			sym.Assert(sym.Not(in), label+": postings of a saved term do not exist")
		}
	}
	n := 0
	if ok {
		n = set.Size()
		sym.Assert(len(set.GetData()) == n, label+": size of the postings")
	}
	sym.Assert(n == want, label+": number of documents in the postings")
}

// checkStats compares the counters of field f and the document frequencies of t and u with the list.
func checkStats(st storage.Storage, l []saved, f, t, u, label string) {
	size, length, df, dg := 0, 0, 0, 0
	for _, s := range l {
		in := s.field == f
		size += sym.IteInt(in, 1, 0)
		length += sym.IteInt(in, s.len, 0)
		df += sym.IteInt(sym.And(in, s.has(t)), 1, 0)
		dg += sym.IteInt(sym.And(in, s.has(u)), 1, 0)
	}
	sym.Assert(st.GetFieldSize(f) == size, label+": number of documents with the field")
	sym.Assert(st.GetFieldLength(f) == length, label+": total length of the field")
	m := st.GetNumberFieldTerm(f, []string{t, u})
	v, ok := m[t]
	w, ok2 := m[u]
	sym.Assert(ok && v == df, label+": number of documents with the term")
	sym.Assert(ok2 && w == dg, label+": number of documents with the second term")
	sym.Assert(len(m) == sym.IteInt(t == u, 1, 2), label+": exactly the requested terms are counted")
}

// checkFields compares the stored fields f of documents d and e with the list.
func checkFields(st storage.Storage, l []saved, d, e, f, label string) {
	m := st.GetFields([]string{d, e}, f)
	n := checkField(m, l, d, f, label)
	if d != e {
		n += checkField(m, l, e, f, label)
	}
	sym.Assert(len(m) == n, label+": a field of a document that was not asked for is returned")
}

func checkField(m map[string]model.Field, l []saved, d, f, label string) int {
	var found *saved
	for i := len(l) - 1; i >= 0; i-- {
		if found == nil && sym.And(l[i].doc == d, l[i].field == f) {
			found = &l[i]
		}
	}
	g, ok := m[d]
	if found == nil {
		sym.Assert(!ok, label+": a field that was never saved is returned")
		return 0
	}
	sym.Assert(ok, label+": a saved field is not returned")
	if !ok {
		return 1
	}
	same(g, *found, label)
	return 1
}

// same compares a stored field with what was saved.
func same(g model.Field, s saved, label string) {
	sym.Assert(g.Name == s.field, label+": name of the returned field")
	sym.Assert(g.Length == s.len, label+": length of the returned field")
	sym.Assert(len(g.TF) == len(s.terms), label+": number of terms of the returned field")
	for i, t := range s.terms {
		v, ok := g.TF[t]
		sym.Assert(ok && v == s.tf[i], label+": frequency of a term of the returned field")
	}
}

func deep(quick, thorough int) int {
	if sym.Deep() {
		return thorough
	}
	return quick
}
