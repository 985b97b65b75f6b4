package stores

import (
	"strconv"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// world is what two goroutines save at the same time and what was there before.
func world() (before, x, y []saved) {
	before = []saved{{"d", "f", 5, []string{"t", "u"}, []int{1, 2}}}
	x = []saved{{"e", "f", 7, []string{"t"}, []int{3}}}
	switch sym.Choose("other", 4) {
	case 0: // another document with the same field and term
		y = []saved{{"g", "f", 11, []string{"t", "v"}, []int{1, 1}}}
	case 1: // the same document, another field
		y = []saved{{"e", "h", 11, []string{"t"}, []int{4}}}
	case 2: // a new field for a document that is there
		y = []saved{{"d", "h", 11, []string{"u"}, []int{5}}}
	case 3: // nothing in common
		y = []saved{{"z", "h", 11, []string{"w"}, []int{6}}}
	}
	return before, x, y
}

// between asserts that what a reader sees of the store is what was there before plus some of the saves that are running.
func between(st storage.Storage, before, running []saved, what int, label string) {
	lo, hi := 0, 0
	count := func(in func(s saved) int) {
		for _, s := range before {
			lo += in(s)
		}
		hi = lo
		for _, s := range running {
			hi += in(s)
		}
	}
	switch what {
	case 0:
		count(func(s saved) int { return sym.IteInt(s.field == "f", 1, 0) })
		n := st.GetFieldSize("f")
		sym.Assert(lo <= n && n <= hi, label+": number of documents with a field while others are saved")
	case 1:
		count(func(s saved) int { return sym.IteInt(s.field == "f", s.len, 0) })
		n := st.GetFieldLength("f")
		sym.Assert(lo <= n && n <= hi, label+": length of a field while others are saved")
	case 2:
		count(func(s saved) int { return sym.IteInt(s.field == "f" && s.has("t"), 1, 0) })
		n := st.GetNumberFieldTerm("f", []string{"t"})["t"]
		sym.Assert(lo <= n && n <= hi, label+": number of documents with a term while others are saved")
	case 3:
		count(func(s saved) int { return sym.IteInt(s.field == "f" && s.has("t"), 1, 0) })
		set, ok := st.GetDocuments("f", "t")
		sym.Assert(ok && set.Contains("d") && lo <= set.Size() && set.Size() <= hi, label+": postings while others are saved")
		n := set.Size()
		sym.Yield()
		sym.Assert(set.Size() == n && len(set.GetData()) == n, label+": postings handed out change with a save")
	case 4:
		for _, f := range []string{"f", "h"} {
			m := st.GetFields([]string{"d", "e", "g"}, f)
			for d, g := range m {
				found := false
				for _, s := range append(append([]saved{}, before...), running...) {
					if s.doc == d && s.field == f {
						found = true
						same(g, s, label+" while others are saved")
					}
				}
				sym.Assert(found, label+": a field that was not saved is returned while others are saved")
			}
			for _, s := range before {
				_, ok := m[s.doc]
				if s.field == f {
					sym.Assert(ok, label+": a stored field is missing while others are saved")
				}
			}
		}
	}
}

// all compares everything the store tells with the list.
func all(st storage.Storage, l []saved, label string) {
	for _, f := range []string{"f", "h"} {
		checkStats(st, l, f, "t", "u", label)
		checkStats(st, l, f, "v", "w", label)
		for _, t := range []string{"t", "u", "v", "w"} {
			checkPostings(st, l, f, t, label)
		}
		checkFields(st, l, "d", "e", f, label)
		checkFields(st, l, "g", "z", f, label)
	}
}

func concurrent(st storage.Storage, read bool, delays int, label string) []saved {
	before, x, y := world()
	save(st, before)
	what := -1
	if read {
		what = sym.Choose("read", 5)
	}
	sym.SetCPUs(1)
	sym.Races(true)
	sym.Explore(delays)
	done := make(chan bool, 3)
	go func() {
		save(st, x)
		done <- true
	}()
	go func() {
		save(st, y)
		done <- true
	}()
	if read {
		between(st, before, append(append([]saved{}, x...), y...), what, label)
	}
	<-done
	<-done
	sym.StopExplore()
	return append(append(before, x...), y...)
}

// Saves by two goroutines at the same time, and a reader.
func H_mem_concurrent() {
	st := storage.NewMemory()
	l := concurrent(st, true, deep(2, 4), "memory")
	all(st, l, "memory after concurrent saves")
	sym.Reach("end")
}

func H_disk_concurrent() {
	st := openDisk(10)
	l := concurrent(st, true, deep(1, 2), "disk")
	all(st, l, "disk after concurrent saves")
	sym.Reach("end")
}

// What was saved at the same time by two goroutines is there after a restart.
func H_disk_concurrent_restart() {
	st := openDisk(10)
	l := concurrent(st, false, deep(1, 3), "disk")
	all(st, l, "disk after concurrent saves")
	time.Sleep(flushed)
	all(openDisk(1), l, "reopened after concurrent saves")
	sym.Reach("end")
}

// A save and reads while the files are written and merged.
func H_disk_flush_concurrent() {
	st := openDisk(1)
	l := []saved{{"d", "f", 5, []string{"t"}, []int{1}}, {"e", "f", 7, []string{"t"}, []int{3}}}
	at := []time.Duration{5, 7, 10, 13, 15}[sym.Choose("tick", 5)] * time.Second
	if at == 10*time.Second && sym.Choose("second", 2) == 1 { // another field of the document that waits to be written
		l[1] = saved{"d", "h", 7, []string{"t"}, []int{3}}
	}
	save(st, l[:1])
	sym.SetCPUs(1)
	time.Sleep(at - time.Millisecond)
	sym.Races(true)
	sym.Explore(deep(1, 2))
	done := make(chan bool, 1)
	go func() {
		time.Sleep(time.Millisecond)
		save(st, l[1:])
		done <- true
	}()
	time.Sleep(time.Millisecond)
	between(st, l[:1], l[1:], sym.Choose("read", 5), "disk during a flush")
	<-done
	sym.StopExplore()
	all(st, l, "disk after a flush")
	time.Sleep(flushed)
	all(openDisk(1), l, "reopened after a flush")
	sym.Reach("end")
}

// sees tells whether the store shows the save of document e in one of five ways.
func sees(st storage.Storage, way int) bool {
	switch way {
	case 0:
		return contains(st, "e", "f", "t")
	case 1:
		_, ok := st.GetFields([]string{"e"}, "f")["e"]
		return ok
	case 2:
		return st.GetFieldLength("f") == 12
	case 3:
		return st.GetFieldSize("f") == 2
	default:
		return st.GetNumberFieldTerm("f", []string{"t"})["t"] == 2
	}
}

// Once a save was seen in any way it stays seen in every way.
func wholly(st storage.Storage, delays int, label string) {
	save(st, []saved{{"d", "f", 5, []string{"t"}, []int{1}}})
	first, second := sym.Choose("first", 5), sym.Choose("then", 5)
	sym.SetCPUs(1)
	sym.Explore(delays)
	done := make(chan bool, 1)
	go func() {
		save(st, []saved{{"e", "f", 7, []string{"t", "u"}, []int{3, 1}}})
		done <- true
	}()
	if sees(st, first) {
		sym.Assert(sees(st, second), label+": a save is seen in part")
	}
	<-done
	sym.StopExplore()
	sym.Reach("end")
}

func H_mem_wholly()  { wholly(storage.NewMemory(), deep(2, 4), "memory") }
func H_disk_wholly() { wholly(openDisk(10), deep(1, 3), "disk") }

// Sets of many documents that are read while others are saved.
func largeSets(st storage.Storage, delays int, label string) {
	n := 20 * (1 + sym.Choose("size", 2))
	for i := 0; i < n; i++ {
		save(st, []saved{{"d" + strconv.Itoa(i), "f", 1, []string{"t"}, []int{1}}})
	}
	sym.Races(true)
	sym.Explore(delays)
	done := make(chan bool, 1)
	go func() {
		save(st, []saved{{"late", "f", 1, []string{"t"}, []int{1}}})
		done <- true
	}()
	set, ok := st.GetDocuments("f", "t")
	k := set.Size()
	seen := 0
	for range set.GetData() {
		seen++
	}
	set.Add("mine")
	sym.Assert(ok && (k == n || k == n+1) && seen == k && set.Size() == k+1, label+": a large set changes while others are saved")
	<-done
	sym.StopExplore()
	set, _ = st.GetDocuments("f", "t")
	sym.Assert(set.Size() == n+1 && set.Contains("late") && !set.Contains("mine"), label+": large postings after a concurrent save")
	sym.Reach("end")
}

func H_mem_large_sets()  { largeSets(storage.NewMemory(), deep(2, 4), "memory") }
func H_disk_large_sets() { largeSets(openDisk(1), deep(1, 2), "disk") }

// A stored field that is saved again while documents are written: the last one counts, whatever the cache holds.
func H_disk_again_flush() {
	st := openDisk(sym.Choose("cache", 2))
	first := saved{"d", "f", 5, []string{"t"}, []int{1}}
	again := saved{"d", "f", 6, []string{"u"}, []int{2}}
	part(st, first, 3)
	sym.SetCPUs(1)
	time.Sleep(10*time.Second - time.Millisecond)
	sym.Races(true)
	sym.Explore(deep(2, 3))
	done := make(chan bool, 1)
	go func() {
		time.Sleep(time.Millisecond)
		part(st, again, 3)
		done <- true
	}()
	time.Sleep(time.Millisecond)
	other := sym.Choose("other", 3)
	if other == 1 { // takes the place in the cache
		part(st, saved{"e", "f", 6, []string{"u"}, []int{2}}, 3)
	} else if other == 2 {
		f, ok := st.GetFields([]string{"d"}, "f")["d"]
		sym.Assert(ok && (f.Length == 5 && f.TF["t"] == 1 || f.Length == 6 && f.TF["u"] == 2) && len(f.TF) == 1, "disk: a field is seen partly")
	}
	<-done
	sym.StopExplore()
	check := func(st storage.Storage, label string) {
		l := st.GetFields([]string{"d"}, "f")
		f, ok := l["d"]
		sym.Assert(ok, label+": a stored field is missing")
		same(f, again, label)
	}
	check(st, "saved again during a flush")
	time.Sleep(flushed)
	check(st, "saved again during a flush, written")
	check(openDisk(1), "saved again during a flush, reopened")
	sym.Reach("end")
}
