package stores

import (
	"path/filepath"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

func openDisk(cache int) storage.Storage {
	st, err := storage.NewDiskStore(sym.TempRoot(), cache)
	if err != nil {
		sym.Fail("a disk store does not open: " + err.Error())
	}
	return st
}

// flushed is longer than every flush and merge interval together.
const flushed = 40 * time.Second

func H_disk_postings() {
	st := openDisk(10)
	l := history(st, nil, 2, deep(1, 2), 4, true)
	checkPostings(st, l, name("qf", 4), name("qt", 4), "disk")
	sym.Reach("end")
}

func H_disk_stats() {
	st := openDisk(10)
	l := history(st, nil, 2, deep(1, 2), 4, true)
	checkStats(st, l, name("qf", 4), name("qt", 4), name("qu", 4), "disk")
	sym.Reach("end")
}

func H_disk_fields() {
	st := openDisk(sym.Choose("capacity", deep(2, 3)))
	l := history(st, nil, deep(2, 3), -1, 3, true)
	checkFields(st, l, name("qd", 3), name("qe", 3), name("qf", 3), "disk")
	sym.Reach("end")
}

// The same document gets several fields while others push it out of the cache.
func H_disk_fields_evict() {
	st := openDisk(1)
	var l []saved
	docs := []string{"d1", "d2"}
	fields := []string{"f1", "f2", "f3"}
	n := deep(3, 4)
	for i := 0; i < n; i++ {
		s := saved{doc: docs[sym.Choose("doc", 2)], field: fields[sym.Choose("field", 3)], len: i + 1, terms: []string{"t"}, tf: []int{i + 1}}
		st.SaveOrUpdate(s.doc, s.model())
		l = append(l, s)
		if sym.Choose("pause", 2) == 1 {
			time.Sleep(11 * time.Second)
		}
	}
	for _, f := range fields {
		checkFields(st, l, "d1", "d2", f, "disk")
	}
	sym.Reach("end")
}

func H_disk_snapshot()    { snapshot(openDisk(2), "disk") }
func H_disk_updateindex() { updateIndex(openDisk(2), "disk") }
func H_disk_resave()      { resave(openDisk(2), "disk") }

func H_disk_resave_stats() { resaveStats(openDisk(2), "disk") }

// plan draws n saves. Inputs are drawn outside of the processes that use them: natively each process has its own memory.
func plan(n, nterms, alphabet int) []saved {
	var l []saved
	for i := 0; i < n; i++ {
		s := symSaved(nterms, alphabet)
		fresh(l, s)
		l = append(l, s)
	}
	return l
}

func save(st storage.Storage, l []saved) {
	for _, s := range l {
		st.SaveOrUpdate(s.doc, s.model())
	}
}

func ends(r int) {
	if r != 1 {
		sym.Log(sym.ProcessDetail())
		sym.Fail("disk: a process that uses the store dies")
	}
}

// What was saved and flushed by one process is served by the next, which adds to it.
func restart(check func(st storage.Storage, l []saved), nterms, alphabet int) {
	l := plan(3, nterms, alphabet)
	pause := sym.Deep() && sym.Choose("pause", 2) == 1
	first := sym.Choose("first", 2) + 1
	ends(sym.Process(func() {
		st := openDisk(1)
		save(st, l[:1])
		if pause {
			time.Sleep(16 * time.Second)
		}
		save(st, l[1:first])
		time.Sleep(flushed)
	}, false))
	ends(sym.Process(func() {
		st := openDisk(1)
		save(st, l[first:])
		time.Sleep(flushed)
	}, false))
	ends(sym.Process(func() {
		check(openDisk(1), l)
	}, false))
	sym.Reach("end")
}

func H_disk_restart_postings() {
	a := deep(2, 3)
	f, t := name("qf", a), name("qt", a)
	restart(func(st storage.Storage, l []saved) { checkPostings(st, l, f, t, "reopened") }, 1, a)
}

func H_disk_restart_stats() {
	a := deep(2, 3)
	f, t, u := name("qf", a), name("qt", a), name("qu", a)
	restart(func(st storage.Storage, l []saved) { checkStats(st, l, f, t, u, "reopened") }, 1, a)
}

func H_disk_restart_fields() {
	a := deep(2, 3)
	d, e, f := name("qd", a), name("qe", a), name("qf", a)
	restart(func(st storage.Storage, l []saved) { checkFields(st, l, d, e, f, "reopened") }, 1, a)
}

// A field with more than 2^31 tokens in total.
func H_disk_restart_large() {
	a := saved{doc: "a", field: "f", len: 1 << 30, terms: []string{"t"}, tf: []int{1}}
	b := saved{doc: "b", field: "f", len: sym.IntRange("len", 0, 1<<31-1), terms: []string{"t"}, tf: []int{1}}
	ends(sym.Process(func() {
		st := openDisk(1)
		save(st, []saved{a, b})
		time.Sleep(flushed)
	}, false))
	ends(sym.Process(func() {
		st := openDisk(1)
		sym.Assert(st.GetFieldLength("f") == a.len+b.len, "reopened: total length of a field above 2^31")
	}, false))
	sym.Reach("end")
}

// Arbitrary bytes in document ids and field names survive a restart and do not get in each other's way.
func H_disk_restart_names() {
	n := deep(1, 2)
	a := saved{doc: sym.String("doc", n), field: sym.String("field", n), len: 3, terms: []string{"t"}, tf: []int{1}}
	b := saved{doc: "a", field: "f", len: 4, terms: []string{"t"}, tf: []int{2}}
	fresh([]saved{b}, a)
	l := []saved{b, a}
	restartNames(l)
}

// letters is a word of n arbitrary small letters.
func letters(what string, n int) string {
	s := sym.String(what, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] >= 'a', s[i] <= 'z'))
	}
	return s
}

// Any word is a document id or field name like every other.
func H_disk_restart_words() {
	a := saved{doc: "b", field: "g", len: 3, terms: []string{"t"}, tf: []int{1}}
	if sym.Choose("which", 2) == 0 {
		a.doc = letters("doc", sym.Choose("n", 8)+1)
	} else {
		a.field = letters("field", sym.Choose("n", 8)+1)
	}
	b := saved{doc: "a", field: "f", len: 4, terms: []string{"t"}, tf: []int{2}}
	fresh([]saved{b}, a)
	restartNames([]saved{b, a})
}

// Names that look like the files of the store itself.
func H_disk_restart_reserved() {
	docs := []string{"", ".", "..", "metrics", "a_temp", "a_old", "a%temp", "%", "%61", "../../x", "a/b", "/", "docs", "raw", "index", "\x00"}
	fields := []string{"f", "", ".", "..", "docs", "metrics", "index", "temp", "nfterm", "../x", "a/b", "%64ocs", "docs/metrics", "raw", "merge"}
	a := saved{doc: docs[sym.Choose("doc", len(docs))], field: fields[sym.Choose("field", len(fields))], len: 3, terms: []string{"t"}, tf: []int{1}}
	b := saved{doc: "a", field: "f", len: 4, terms: []string{"t"}, tf: []int{2}}
	restartNames([]saved{b, a})
}

func restartNames(l []saved) {
	// the folder of the store has a neighbour and is two levels down
	dir := filepath.Join(sym.TempRoot(), "up", "store")
	open := func() storage.Storage {
		st, err := storage.NewDiskStore(dir, 1)
		if err != nil {
			sym.Fail("a disk store does not open: " + err.Error())
		}
		return st
	}
	ends(sym.Process(func() {
		file.CreteDirIfNotExist(filepath.Join(sym.TempRoot(), "up", "other"))
		st := open()
		save(st, l)
		time.Sleep(flushed)
	}, false))
	ends(sym.Process(func() {
		for _, d := range []string{sym.TempRoot(), filepath.Join(sym.TempRoot(), "up"), filepath.Join(sym.TempRoot(), "up", "other")} {
			sym.Assert(len(file.ListFiles(d)) == 0, "disk: a file outside the folder of the store")
		}
		sym.Assert(len(file.ListDirectories(sym.TempRoot())) == 1 && len(file.ListDirectories(filepath.Join(sym.TempRoot(), "up"))) == 2 && len(file.ListDirectories(filepath.Join(sym.TempRoot(), "up", "other"))) == 0, "disk: a folder outside the folder of the store")
		st := open()
		for _, s := range l {
			checkPostings(st, l, s.field, "t", "reopened")
			checkStats(st, l, s.field, "t", "u", "reopened")
			checkFields(st, l, s.doc, "zz", s.field, "reopened")
		}
	}, false))
	sym.Reach("end")
}

// A document id too long for a file name.
func H_disk_longname() {
	id := make([]byte, 300)
	for i := range id {
		id[i] = 'x'
	}
	r := sym.Process(func() {
		st := openDisk(1)
		a := saved{doc: string(id), field: "f", len: 1, terms: []string{"t"}, tf: []int{1}}
		save(st, []saved{a})
		time.Sleep(flushed)
	}, false)
	sym.Assert(r == 1, "disk: a document id longer than a file name ends the process")
	sym.Reach("end")
}
