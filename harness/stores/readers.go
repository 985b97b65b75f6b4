package stores

import (
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// answer asks the store in one of seven ways and returns a comparison of the answer it holds with the list.
func answer(st storage.Storage, l []saved, way int, label string) func() {
	f := "f"
	switch way {
	case 0, 1:
		t := []string{"t", "u"}[way]
		set, _ := st.GetDocuments(f, t)
		return func() {
			n := 0
			for _, s := range l {
				in := s.field == f && s.has(t)
				n += sym.IteInt(in, 1, 0)
				sym.Assert(set.Contains(s.doc) == in, label+": postings that were handed out")
			}
			sym.Assert(set.Size() == n && len(set.GetData()) == n, label+": size of the postings that were handed out")
		}
	case 2, 3:
		terms := [][]string{{"t", "v"}, {"u", "t"}}[way-2]
		m := st.GetNumberFieldTerm(f, terms)
		return func() {
			for _, t := range terms {
				n := 0
				for _, s := range l {
					n += sym.IteInt(s.field == f && s.has(t), 1, 0)
				}
				v, ok := m[t]
				sym.Assert(ok && v == n, label+": numbers of documents that were handed out")
			}
			sym.Assert(len(m) == len(terms), label+": number of terms that were handed out")
		}
	case 4, 5:
		docs := [][]string{{"d", "e", "nobody"}, {"d"}}[way-4]
		m := st.GetFields(docs, f)
		return func() {
			n := 0
			for _, d := range docs {
				n += checkField(m, l, d, f, label+": fields that were handed out")
			}
			sym.Assert(len(m) == n, label+": number of fields that were handed out")
		}
	default:
		size, length := st.GetFieldSize(f), st.GetFieldLength(f)
		return func() {
			n, k := 0, 0
			for _, s := range l {
				n += sym.IteInt(s.field == f, 1, 0)
				k += sym.IteInt(s.field == f, s.len, 0)
			}
			sym.Assert(size == n && length == k, label+": size and length of a field")
		}
	}
}

// shared is what the readers below find: one number of it is arbitrary.
func shared() []saved {
	return []saved{
		{"d", "f", sym.IntRange("len", 0, 1<<26), []string{"t", "u"}, []int{1, sym.IntRange("tf", 1, 1<<26)}},
		{"e", "f", 7, []string{"t"}, []int{3}},
		{"g", "h", 9, []string{"t", "v"}, []int{4, 5}},
	}
}

// Two answers of any kind do not depend on each other, nor on a later save, nor on what the caller does with one of them.
func answers(st storage.Storage, label string) {
	l := shared()
	save(st, l)
	if _, ok := st.(*storage.Disk); ok && sym.Choose("flushed", 2) == 1 {
		time.Sleep(flushed)
	}
	first := answer(st, l, sym.Choose("first", 7), label)
	then := answer(st, l, sym.Choose("then", 7), label)
	first()
	then()
	save(st, []saved{{"k", "f", 2, []string{"t", "u", "v"}, []int{1, 1, 1}}})
	first()
	then()
	sym.Reach("end")
}

func H_mem_answers()  { answers(storage.NewMemory(), "memory") }
func H_disk_answers() { answers(openDisk(sym.Choose("cache", 3)), "disk") }

// The maps of an answer are the caller's own.
func own(st storage.Storage, label string) {
	l := shared()
	save(st, l)
	if _, ok := st.(*storage.Disk); ok && sym.Choose("flushed", 2) == 1 {
		time.Sleep(flushed)
	}
	switch sym.Choose("change", 3) {
	case 0:
		set, _ := st.GetDocuments("f", "t")
		set.Add("mine")
		set.Remove("d")
	case 1:
		m := st.GetNumberFieldTerm("f", []string{"t", "u"})
		m["t"] = 77
		m["v"] = 78
		delete(m, "u")
	case 2:
		m := st.GetFields([]string{"d", "e"}, "f")
		m["mine"] = m["d"]
		delete(m, "e")
	}
	for way := 0; way < 7; way++ {
		answer(st, l, way, label+" after a caller changed an answer")()
	}
	sym.Reach("end")
}

func H_mem_own()  { own(storage.NewMemory(), "memory") }
func H_disk_own() { own(openDisk(sym.Choose("cache", 3)), "disk") }

// Two readers at the same time.
func readers(st storage.Storage, delays int, label string) {
	l := shared()
	save(st, l)
	if _, ok := st.(*storage.Disk); ok && sym.Choose("flushed", 2) == 1 {
		time.Sleep(flushed)
	}
	first, then := sym.Choose("first", 7), sym.Choose("then", 7)
	sym.Assume(first <= then)
	sym.SetCPUs(1)
	sym.Races(true)
	sym.Explore(delays)
	done := make(chan bool, 1)
	go func() {
		answer(st, l, first, label)()
		done <- true
	}()
	answer(st, l, then, label)()
	<-done
	sym.StopExplore()
	for way := 0; way < 7; way++ {
		answer(st, l, way, label+" after two readers")()
	}
	sym.Reach("end")
}

func H_mem_readers()  { readers(storage.NewMemory(), deep(2, 3), "memory with two readers") }
func H_disk_readers() { readers(openDisk(sym.Choose("cache", 3)), deep(1, 2), "disk with two readers") }
