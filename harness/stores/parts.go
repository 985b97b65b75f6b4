package stores

import (
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// part makes one of the four parts of a save.
func part(st storage.Storage, s saved, which int) {
	d := st.(*storage.Disk)
	switch which {
	case 0:
		d.UpdateFieldSizeLength(s.model())
	case 1:
		d.UpdateIndex(s.doc, s.model())
	case 2:
		d.UpdateNumberFieldTerm(s.model())
	case 3:
		d.UpdateFieldDocument(s.doc, s.model())
	}
}

// checkParts compares the store with lists of what had each part made.
func checkParts(st storage.Storage, l [4][]saved, f, t string, docs []string, label string) {
	size, length := 0, 0
	for _, s := range l[0] {
		size += sym.IteInt(s.field == f, 1, 0)
		length += sym.IteInt(s.field == f, s.len, 0)
	}
	sym.Assert(st.GetFieldSize(f) == size, label+": number of documents with the field")
	sym.Assert(st.GetFieldLength(f) == length, label+": total length of the field")
	checkPostings(st, l[1], f, t, label)
	df := 0
	for _, s := range l[2] {
		df += sym.IteInt(sym.And(s.field == f, s.has(t)), 1, 0)
	}
	m := st.GetNumberFieldTerm(f, []string{t})
	sym.Assert(len(m) == 1 && m[t] == df, label+": number of documents with the term")
	got := st.GetFields(docs, f)
	for _, d := range docs {
		g, ok := got[d]
		want := false
		for _, s := range l[3] {
			if s.doc == d && s.field == f {
				want = true
				sym.Assert(ok, label+": a stored field is missing")
				same(g, s, label)
			}
		}
		sym.Assert(ok == want, label+": a field is stored that was not saved")
	}
}

// Two documents of which an arbitrary part is stored, in any order, once or with a whole save beside them.
func parts(reopen bool) {
	st := openDisk(1)
	if !reopen {
		st = openDisk(sym.Choose("cache", 2))
	}
	var l [4][]saved
	a := saved{doc: "a", field: "f", len: sym.IntRange("len", 0, 1<<28), terms: []string{"t", "u"}, tf: []int{2, sym.IntRange("tf", 1, 1<<28)}}
	b := symSaved(1, 3)
	fresh([]saved{a}, b)
	if sym.Choose("whole", 2) == 1 {
		save(st, []saved{a})
		for i := range l {
			l[i] = append(l[i], a)
		}
	} else {
		k := sym.Choose("part", 4)
		part(st, a, k)
		l[k] = append(l[k], a)
	}
	mask := sym.Choose("parts", 16)
	from := sym.Choose("from", 4)
	for i := 0; i < 4; i++ {
		k := (from + i) % 4
		if mask&(1<<k) != 0 {
			part(st, b, k)
			l[k] = append(l[k], b)
		}
	}
	f, t := []string{"f", b.field}[sym.Choose("ask", 2)], "t"
	docs := []string{"a", b.doc, "nobody"}
	checkParts(st, l, f, t, docs, "parts of a save")
	checkParts(st, l, f, b.terms[0], docs, "parts of a save")
	if reopen {
		time.Sleep(flushed)
		st = openDisk(1)
		checkParts(st, l, f, t, docs, "parts of a save, reopened")
		checkParts(st, l, f, b.terms[0], docs, "parts of a save, reopened")
	}
	sym.Reach("end")
}

func H_disk_parts()         { parts(false) }
func H_disk_parts_restart() { parts(true) }

// The parts of two saves by goroutines at the same time.
func H_disk_parts_concurrent() {
	st := openDisk(1)
	l := []saved{{"a", "f", 3, []string{"t", "u"}, []int{1, 2}}, {"b", "f", 4, []string{"t"}, []int{5}}}
	if sym.Choose("same", 2) == 1 {
		l[1].doc, l[1].field = "a", "g"
	}
	split := 1 + sym.Choose("split", 3)
	sym.Races(true)
	sym.Explore(deep(1, 2))
	done := make(chan bool, 2)
	for n := 0; n < 2; n++ {
		n := n
		go func() {
			for k := 0; k < 4; k++ {
				if (k < split) == (n == 0) {
					part(st, l[0], k)
				} else {
					part(st, l[1], k)
				}
			}
			done <- true
		}()
	}
	<-done
	<-done
	sym.StopExplore()
	lists := [4][]saved{l, l, l, l}
	for _, f := range []string{"f", "g"} {
		for _, t := range []string{"t", "u"} {
			checkParts(st, lists, f, t, []string{"a", "b"}, "parts of saves at the same time")
		}
	}
	sym.Reach("end")
}

// Two goroutines make the same part of two saves at the same time, and the store is opened again.
func H_disk_parts_together() {
	st := openDisk(1)
	l := []saved{{"a", "f", 3, []string{"t"}, []int{1}}, {"b", "f", 4, []string{"t"}, []int{5}}}
	k := sym.Choose("part", 4)
	if k == 3 {
		// one document with two fields
		l[1].doc, l[1].field = "a", "g"
	}
	sym.Races(true)
	sym.Explore(deep(2, 3))
	done := make(chan bool, 1)
	go func() {
		part(st, l[1], k)
		done <- true
	}()
	part(st, l[0], k)
	<-done
	sym.StopExplore()
	var lists [4][]saved
	lists[k] = l
	check := func(st storage.Storage, label string) {
		for _, f := range []string{"f", "g"} {
			checkParts(st, lists, f, "t", []string{"a", "b"}, label)
		}
	}
	check(st, "one part of two saves at the same time")
	time.Sleep(flushed)
	check(openDisk(1), "one part of two saves at the same time, reopened")
	sym.Reach("end")
}
