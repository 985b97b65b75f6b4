package stores

import (
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

type posting struct{ f, t, d string }

func postings(n int) []posting {
	var l []posting
	for i := 0; i < n; i++ {
		l = append(l, posting{name("field", 2), name("term", 2), name("doc", 2)})
	}
	return l
}

func send(ch chan storage.IndexTransferData, p posting) {
	ch <- storage.IndexTransferData{FieldName: p.f, Term: p.t, DocumentId: p.d}
}

// checkIndex compares an index with a list of postings.
func checkIndex(ix map[string]map[string]*model.Set, l []posting, label string) {
	checkBetween(ix, l, l, label)
}

// checkBetween asserts that an index holds at least the postings must and at most the postings l.
func checkBetween(ix map[string]map[string]*model.Set, must, l []posting, label string) {
	for _, p := range must {
		set := ix[p.f][p.t]
		sym.Assert(set != nil && set.Contains(p.d), label+": a posting is lost")
	}
	for f, terms := range ix {
		for t, set := range terms {
			for d := range set.GetData() {
				known := false
				for _, p := range l {
					known = sym.Or(known, sym.And(p.f == f, p.t == t, p.d == d))
				}
				sym.Assert(known, label+": a posting is invented")
			}
		}
	}
}

func load(io *storage.DiskIO, label string) map[string]map[string]*model.Set {
	ix, err := io.LoadIndexOnHD()
	if err != nil {
		sym.Fail(label + ": the index does not load")
	}
	return ix
}

// Postings written in several fragments, merged at arbitrary times, are exactly what was sent.
func H_merge() {
	io := storage.NewDiskIO(sym.TempRoot())
	ch := make(chan storage.IndexTransferData, 100)
	go io.SaveIndexOnDisk(ch)
	n := deep(3, 4)
	l := postings(n)
	for i, p := range l {
		send(ch, p)
		switch sym.Choose("between", 3) {
		case 1:
			time.Sleep(14 * time.Second)
		case 2:
			time.Sleep(14 * time.Second)
			checkIndex(load(&io, "merge"), l[:i+1], "merge")
		}
	}
	time.Sleep(14 * time.Second)
	checkIndex(load(&io, "merge"), l, "merge")
	checkIndex(load(&io, "second merge"), l, "second merge")
	for _, p := range l {
		m, err := storage.LoadTermDocumentsFromIndex(p.f, sym.TempRoot())
		set := m[p.t]
		sym.Assert(err == nil && set != nil && set.Contains(p.d), "merge: a posting is missing from the file of its field")
	}
	sym.Reach("end")
}

// A process that merges is killed at any point; no posting is lost or invented.
func H_merge_crash() {
	l := postings(3)
	ends(sym.Process(func() {
		io := storage.NewDiskIO(sym.TempRoot())
		ch := make(chan storage.IndexTransferData, 100)
		go io.SaveIndexOnDisk(ch)
		send(ch, l[0])
		time.Sleep(14 * time.Second)
		load(&io, "merge")
		send(ch, l[1])
		time.Sleep(14 * time.Second)
		send(ch, l[2])
		time.Sleep(14 * time.Second)
	}, false))
	for i := 0; i < deep(1, 2); i++ {
		survives(sym.Process(func() {
			io := storage.NewDiskIO(sym.TempRoot())
			load(&io, "merge")
		}, true))
	}
	ends(sym.Process(func() {
		io := storage.NewDiskIO(sym.TempRoot())
		checkIndex(load(&io, "merge after a crash"), l, "merge after a crash")
	}, false))
	sym.Reach("end")
}

// A process that writes fragments is killed at any point; what was merged before stays.
func H_fragment_crash() {
	l := []posting{{"f", "t", "a"}, {"f", "t", "b"}, {"g", "u", "a"}, {"f", "u", "c"}}
	survives(sym.Process(func() {
		io := storage.NewDiskIO(sym.TempRoot())
		ch := make(chan storage.IndexTransferData, 100)
		go io.SaveIndexOnDisk(ch)
		send(ch, l[0])
		time.Sleep(14 * time.Second)
		sym.Arm(true)
		for _, p := range l[1:] {
			send(ch, p)
		}
		time.Sleep(14 * time.Second)
	}, false))
	ends(sym.Process(func() {
		io := storage.NewDiskIO(sym.TempRoot())
		ix := load(&io, "after a crash")
		checkBetween(ix, l[:1], l, "after a crash")
	}, false))
	sym.Reach("end")
}

// A merge and a flush at the same time lose nothing.
func H_merge_flush() {
	io := storage.NewDiskIO(sym.TempRoot())
	ch := make(chan storage.IndexTransferData, 100)
	go io.SaveIndexOnDisk(ch)
	l := []posting{{"f", "t", "a"}, {"f", "t", "b"}, {"f", "u", "b"}}
	send(ch, l[0])
	time.Sleep(14 * time.Second)
	send(ch, l[1])
	send(ch, l[2])
	sym.Explore(deep(3, 4))
	time.Sleep(12*time.Second - time.Millisecond) // the next flush is due in a millisecond
	done := make(chan bool)
	go func() {
		time.Sleep(time.Millisecond)
		load(&io, "merge during a flush")
		done <- true
	}()
	<-done
	sym.StopExplore()
	time.Sleep(14 * time.Second)
	checkIndex(load(&io, "merge after a flush"), l, "merge after a flush")
	sym.Reach("end")
}

// Several fragments with many postings each: terms with many documents, fields of several fragments, documents that come again.
func H_merge_many() {
	io := storage.NewDiskIO(sym.TempRoot())
	ch := make(chan storage.IndexTransferData, 1000)
	go io.SaveIndexOnDisk(ch)
	rounds := deep(3, 5)
	step := 1 + sym.Choose("step", 3)
	when := sym.Choose("merge", 1<<uint(rounds-1))
	var l []posting
	for r := 0; r < rounds; r++ {
		k := 3 * r
		for i := 0; i < (r+1)*deep(9, 20); i++ {
			k++
			p := posting{"field-" + string(rune('a'+k%3)), "term-" + string(rune('a'+(k*step)%5)), "document-" + string(rune('a'+k%26))}
			switch {
			case i%2 == 0:
				p.f, p.t = "field-a", "common"
			case i%5 == r:
				p.t = "only in " + string(rune('a'+r))
			}
			l = append(l, p)
			send(ch, p)
		}
		if r == rounds-1 {
			free := posting{"field-" + name("field", 3), "term-" + name("term", 3), "document-" + name("doc", 3)}
			l = append(l, free)
			send(ch, free)
		}
		time.Sleep(14 * time.Second)
		if when>>uint(r)&1 == 1 {
			checkIndex(load(&io, "larger merge"), l, "larger merge")
		}
	}
	checkIndex(load(&io, "larger merge"), l, "larger merge")
	checkIndex(load(&io, "larger merge again"), l, "larger merge again")
	for _, f := range []string{"field-a", "field-b", "field-c"} {
		m, err := storage.LoadTermDocumentsFromIndex(f, sym.TempRoot())
		sym.Assert(err == nil, "larger merge: the file of a field")
		var mine []posting
		for _, p := range l {
			if p.f == f {
				mine = append(mine, p)
			}
		}
		checkIndex(map[string]map[string]*model.Set{f: m}, mine, "larger merge: the file of a field")
	}
	sym.Reach("end")
}

// Postings whose field, term or document has an unusual name: empty, or of one or two arbitrary bytes.
func H_merge_names() {
	io := storage.NewDiskIO(sym.TempRoot())
	ch := make(chan storage.IndexTransferData, 100)
	go io.SaveIndexOnDisk(ch)
	l := []posting{{"f", "t", "d"}, {"f", "u", "e"}, {"f", "t", "e"}}
	free := sym.String("name", sym.Choose("length", 3))
	p := &l[sym.Choose("posting", 3)]
	switch sym.Choose("part", 3) {
	case 0:
		p.f = free
	case 1:
		p.t = free
	case 2:
		p.d = free
	}
	for i := range l {
		send(ch, l[i])
		if i == 0 || i == 2 {
			time.Sleep(14 * time.Second)
		}
	}
	checkIndex(load(&io, "merge"), l, "merge")
	checkIndex(load(&io, "second merge"), l, "second merge")
	sym.Reach("end")
}
