package stores

import (
	"strconv"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// A store that runs for minutes, with the same small save before every turn of the writer of postings, and is killed
// right after any of these turns, whatever was merged in between.
func H_disk_run() {
	turns := 1 + sym.Choose("turns", deep(10, 24))
	var l []saved
	for i := 0; i < turns; i++ {
		l = append(l, saved{"d" + strconv.Itoa(i), "f", 2 + i, []string{"t", "u" + strconv.Itoa(i%3)}, []int{1, 1 + i}})
	}
	at := []time.Duration{time.Second, 6 * time.Second, 12 * time.Second}[sym.Choose("before", 3)]
	ends(sym.Process(func() {
		st := openDisk(3)
		for i := 0; i < turns; i++ {
			time.Sleep(13*time.Second - at)
			save(st, l[i:i+1])
			time.Sleep(at)
		}
		time.Sleep(500 * time.Millisecond)
	}, false))
	ends(sym.Process(func() {
		st := openDisk(3)
		for _, s := range l {
			for _, t := range s.terms {
				sym.Assert(contains(st, s.doc, "f", t), "a store that ran for long: a posting that was flushed is lost")
			}
		}
		set, _ := st.GetDocuments("f", "t")
		sym.Assert(set.Size() == len(l), "a store that ran for long: a posting is invented")
	}, false))
	sym.Reach("end")
}

// A store with many fields, all of them written in one turn.
func H_disk_wide() {
	st := openDisk(2)
	var l []saved
	n := deep(40, 120)
	free := sym.Choose("free", 2) * (n - 1)
	for i := 0; i < n; i++ {
		s := saved{"d" + strconv.Itoa(i%7), "field-" + strconv.Itoa(i), 1 + i, []string{"t", "u" + strconv.Itoa(i%5)}, []int{1 + i, 1}}
		if i == free {
			s.len = sym.IntRange("len", 0, 1<<26)
			s.tf[1] = sym.IntRange("tf", 1, 1<<26)
		}
		l = append(l, s)
	}
	save(st, l)
	time.Sleep(flushed)
	for r := 0; r < 2; r++ {
		label := []string{"disk with many fields", "reopened with many fields"}[r]
		for _, s := range l {
			sym.Assert(st.GetFieldSize(s.field) == 1 && st.GetFieldLength(s.field) == s.len, label+": statistics of a field")
			m := st.GetNumberFieldTerm(s.field, s.terms)
			for _, t := range s.terms {
				sym.Assert(m[t] == 1, label+": number of documents with a term")
				sym.Assert(contains(st, s.doc, s.field, t), label+": a posting is lost")
			}
			g, ok := st.GetFields([]string{s.doc}, s.field)[s.doc]
			sym.Assert(ok, label+": a stored field is lost")
			same(g, s, label)
		}
		st = openDisk(2)
	}
	sym.Reach("end")
}

// More fragments than a merge usually finds.
func H_merge_fragments() {
	io := storage.NewDiskIO(sym.TempRoot())
	ch := make(chan storage.IndexTransferData, 100)
	go io.SaveIndexOnDisk(ch)
	n := deep(70, 300)
	free := sym.Choose("free", 2) * (n - 1)
	var l []posting
	for i := 0; i < n; i++ {
		p := posting{"f", "t" + strconv.Itoa(i%5), "d" + strconv.Itoa(i)}
		if i == free {
			p.t, p.d = name("term", 2), name("doc", 2)
		}
		l = append(l, p)
		send(ch, p)
		time.Sleep(13 * time.Second)
	}
	time.Sleep(time.Second)
	checkIndex(load(&io, "many fragments"), l, "many fragments")
	checkIndex(load(&io, "many fragments merged"), l, "many fragments merged")
	sym.Reach("end")
}

// Writers and the merge that have their turn in the same moment, over the folder of one field.
func H_disk_writers_meet() {
	st := openDisk(1)
	l := []saved{{"d", "f", 5, []string{"t"}, []int{1}}, {"e", "f", 7, []string{"t", "u"}, []int{3, 1}}}
	at := []time.Duration{10, 14, 15, 26, 30, 35, 39, 65, 91}[sym.Choose("tick", deep(9, 9))] * time.Second
	sym.SetCPUs(1)
	time.Sleep(at - 16*time.Second)
	save(st, l[:1])
	if at > 16*time.Second {
		time.Sleep(15900 * time.Millisecond)
	} else {
		time.Sleep(at - 100*time.Millisecond)
	}
	save(st, l[1:])
	time.Sleep(99 * time.Millisecond)
	sym.Races(true)
	sym.Explore(deep(2, 3))
	time.Sleep(2 * time.Millisecond)
	sym.StopExplore()
	all(st, l, "disk after writers met")
	time.Sleep(flushed)
	all(openDisk(1), l, "reopened after writers met")
	sym.Reach("end")
}
