package stores

import (
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// fails runs f as a process in which the k-th change of the file tree fails and tells whether it carried on.
func fails(k int, f func()) bool {
	r := sym.Process(func() {
		f()
		sym.FailAt(0)
		sym.FailRead(0)
	}, false)
	sym.FailAt(0)
	sym.FailRead(0)
	if r == 1 {
		sym.Reach("carried on")
	} else {
		sym.Reach("stopped")
	}
	return r == 1
}

// A change of the file tree fails while a store that runs writes or merges: the process stops or nothing is lost.
func H_fault_running() {
	must, may, same := scenario()
	ends(sym.Process(func() {
		if !same {
			st := openDisk(1)
			save(st, must)
			time.Sleep(flushed)
		}
	}, false))
	k := 1 + sym.Choose("fault", deep(36, 60))
	carried := fails(k, func() {
		st := openDisk(1)
		if same {
			save(st, must)
			time.Sleep(flushed)
		}
		sym.FailAt(k)
		save(st, may)
		time.Sleep(flushed)
	})
	if carried {
		must, may = append(must, may...), nil
	}
	afterFault(must, may)
}

// The same while a store is opened on a fragment that was not merged.
func H_fault_opening() {
	must, may, _ := scenario()
	must, may = append(must, may...), nil
	ends(sym.Process(func() {
		st := openDisk(1)
		save(st, must)
		time.Sleep(14 * time.Second)
	}, false))
	k := 1 + sym.Choose("fault", 16)
	fails(k, func() {
		sym.FailAt(k)
		_, err := storage.NewDiskStore(sym.TempRoot(), 1)
		sym.FailAt(0)
		if err == nil {
			time.Sleep(16 * time.Second)
		}
	})
	afterFault(must, may)
}

// Reading a file or folder fails while a store is opened or while it merges and writes.
func H_fault_reading() {
	must, may, _ := scenario()
	must, may = append(must, may...), nil
	ends(sym.Process(func() {
		st := openDisk(1)
		save(st, must[:1])
		time.Sleep(flushed)
		save(st, must[1:])
		time.Sleep(14 * time.Second)
	}, false))
	k := 1 + sym.Choose("fault", deep(14, 30))
	later := sym.Choose("later", 2) == 1
	n := saved{doc: "n", field: "f", len: 4, terms: []string{"t", "v"}, tf: []int{1, 3}}
	carried := fails(k, func() {
		if !later {
			sym.FailRead(k)
		}
		st, err := storage.NewDiskStore(sym.TempRoot(), 1)
		if !later {
			sym.FailRead(0)
		}
		if err != nil {
			return
		}
		checkRecovered(st, must, nil)
		save(st, []saved{n})
		if later {
			sym.FailRead(k)
		}
		time.Sleep(flushed)
	})
	if carried && later {
		must = append(must, n)
	} else {
		may = append(may, n)
	}
	afterFault(must, may)
}

// The file of a document cannot be read at the moment at which the document gets another field.
func H_fault_document() {
	a := saved{doc: "d", field: "f", len: sym.IntRange("len", 0, 1<<28), terms: []string{"t", "u"}, tf: []int{1, 2}}
	b := saved{doc: "d", field: "g", len: 3, terms: []string{"t"}, tf: []int{3}}
	ends(sym.Process(func() {
		save(openDisk(1), []saved{a})
		time.Sleep(flushed)
	}, false))
	k := 1 + sym.Choose("fault", 3)
	fails(k, func() {
		st := openDisk(1)
		sym.FailRead(k)
		save(st, []saved{b})
		sym.FailRead(0)
		time.Sleep(flushed)
	})
	ends(sym.Process(func() {
		g, ok := openDisk(1).GetFields([]string{"d"}, "f")["d"]
		sym.Assert(ok, "disk: a field is lost because its document could not be read")
		same(g, a, "after a fault")
	}, false))
	sym.Reach("end")
}

// The file of a document cannot be read at the moment at which a reader asks for it: afterwards it is there again.
func H_fault_fields() {
	a := saved{doc: "d", field: "f", len: sym.IntRange("len", 0, 1<<28), terms: []string{"t", "u"}, tf: []int{1, 2}}
	b := saved{doc: "d", field: "g", len: 3, terms: []string{"t"}, tf: []int{3}}
	cache := sym.Choose("cache", 3)
	ends(sym.Process(func() {
		save(openDisk(1), []saved{a})
		time.Sleep(flushed)
	}, false))
	k := 1 + sym.Choose("fault", 3)
	then := sym.Choose("then", 3)
	carried := fails(k, func() {
		st := openDisk(cache)
		sym.FailRead(k)
		for d, g := range st.GetFields([]string{"d", "e"}, "f") {
			sym.Assert(d == "d", "disk: a document that was never saved is returned after a failed read")
			same(g, a, "while a read fails")
		}
		sym.FailRead(0)
		if then == 1 {
			save(st, []saved{b})
		}
		if then == 2 {
			time.Sleep(flushed)
		}
		g, ok := st.GetFields([]string{"d", "e"}, "f")["d"]
		sym.Assert(ok, "disk: a field stays lost because its document could not be read once")
		same(g, a, "after a read that failed")
		time.Sleep(flushed)
	})
	ends(sym.Process(func() {
		st := openDisk(cache)
		g, ok := st.GetFields([]string{"d"}, "f")["d"]
		sym.Assert(ok, "disk: a field is lost because a reader could not read its document")
		same(g, a, "after a read that failed")
		if carried && then == 1 {
			g, ok = st.GetFields([]string{"d"}, "g")["d"]
			sym.Assert(ok, "disk: a field that was saved after a read that failed is lost")
			same(g, b, "saved after a read that failed")
		}
	}, false))
	sym.Reach("end")
}

func afterFault(must, may []saved) {
	for i := 0; i < 2; i++ {
		ends(sym.Process(func() {
			st := openDisk(1)
			checkRecovered(st, must, may)
			if i == 0 {
				n := saved{doc: "last", field: "i", len: 7, terms: []string{"w"}, tf: []int{1}}
				save(st, []saved{n})
				time.Sleep(flushed)
			} else {
				sym.Assert(contains(st, "last", "i", "w") && st.GetFieldSize("i") == 1, "after a fault: a document saved afterwards is lost")
			}
		}, false))
	}
	sym.Reach("end")
}

// A change or a read fails during a merge of several fragments: the error is reported or the result is right, and the next merge has all.
func H_merge_fault() {
	l := append([]posting{{"f", "t", "a"}, {"g", "u", "b"}}, postings(deep(1, 2))...)
	l = append(l, posting{"f", "u", "c"})
	ends(sym.Process(func() {
		io := storage.NewDiskIO(sym.TempRoot())
		ch := make(chan storage.IndexTransferData, 100)
		go io.SaveIndexOnDisk(ch)
		for i, p := range l {
			send(ch, p)
			time.Sleep(14 * time.Second)
			if i == 0 {
				load(&io, "merge")
			}
		}
	}, false))
	reads := sym.Choose("reads", 2) == 1
	k := 1 + sym.Choose("fault", 20)
	fails(k, func() {
		io := storage.NewDiskIO(sym.TempRoot())
		if reads {
			sym.FailRead(k)
		} else {
			sym.FailAt(k)
		}
		ix, err := io.LoadIndexOnHD()
		n := sym.Changes()
		if reads {
			n = sym.ReadCount()
		}
		sym.FailAt(0)
		sym.FailRead(0)
		if err == nil {
			checkIndex(ix, l, "merge with a fault")
		} else {
			sym.Assert(k <= n, "merge: an error without a fault")
		}
		// the process that goes on merging gets there
		checkIndex(load(&io, "merge after a fault"), l, "merge after a fault")
	})
	ends(sym.Process(func() {
		io := storage.NewDiskIO(sym.TempRoot())
		checkIndex(load(&io, "merge after a fault"), l, "merge after a fault")
	}, false))
	sym.Reach("end")
}
