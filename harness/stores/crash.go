package stores

import (
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// contains tells whether the postings of (f, t) hold d.
func contains(st storage.Storage, d, f, t string) bool {
	set, ok := st.GetDocuments(f, t)
	return ok && set.Contains(d)
}

// checkRecovered compares a store opened after a crash with what was flushed before (must be there) and saved later (may be there).
func checkRecovered(st storage.Storage, must, may []saved) {
	all := append(append([]saved{}, must...), may...)
	for _, f := range []string{"f", "g", "h"} {
		lo, hi, llo, lhi := 0, 0, 0, 0
		for _, s := range all {
			if s.field == f {
				hi++
				lhi += s.len
			}
		}
		for _, s := range must {
			if s.field == f {
				lo++
				llo += s.len
			}
		}
		n, l := st.GetFieldSize(f), st.GetFieldLength(f)
		sym.Assert(lo <= n && n <= hi, "after a crash: number of documents with a field")
		sym.Assert(sym.And(llo <= l, l <= lhi), "after a crash: total length of a field")
		if n == lo {
			sym.Assert(l == llo, "after a crash: size and length of a field are of different moments")
		}
		if n == hi {
			sym.Assert(l == lhi, "after a crash: size and length of a field are of different moments")
		}
		for _, t := range []string{"t", "u", "v"} {
			lo, hi := 0, 0
			for _, s := range all {
				if s.field == f && s.has(t) {
					hi++
				}
			}
			for _, s := range must {
				if s.field == f && s.has(t) {
					lo++
					sym.Assert(contains(st, s.doc, f, t), "after a crash: a flushed document is missing from its postings")
				}
			}
			df := st.GetNumberFieldTerm(f, []string{t})[t]
			sym.Assert(lo <= df && df <= hi, "after a crash: number of documents with a term")
			set, ok := st.GetDocuments(f, t)
			if ok {
				for d := range set.GetData() {
					known := false
					for _, s := range all {
						known = known || s.doc == d && s.field == f && s.has(t)
					}
					sym.Assert(known, "after a crash: postings hold a document that was not saved")
				}
			}
		}
	}
	for i, s := range all {
		g, ok := st.GetFields([]string{s.doc}, s.field)[s.doc]
		if i < len(must) {
			sym.Assert(ok, "after a crash: a flushed field is missing")
		}
		if ok {
			same(g, s, "after a crash")
		}
	}
}

func survives(r int) {
	if r != 1 && r != 2 {
		sym.Log(sym.ProcessDetail())
		sym.Fail("disk: a process that uses the store dies by itself")
	}
}

// scenario is what the process that is killed does: one flushed save, then one or two more.
func scenario() (must, may []saved, sameSession bool) {
	must = []saved{{doc: "d", field: "f", len: sym.IntRange("len", 0, 1<<28), terms: []string{"t", "u"}, tf: []int{1, 2}}}
	docs := []string{"d", "e"}
	fields := []string{"g", "f"}
	k := sym.Choose("second", 3) // same document and another field, another document and the same field, both other
	m := saved{doc: docs[0], field: fields[0], len: sym.IntRange("len", 0, 1<<28), terms: []string{"t"}, tf: []int{3}}
	if k == 1 {
		m.doc, m.field = "e", "f"
	} else if k == 2 {
		m.doc, m.field, m.terms = "e", "h", []string{"v"}
	}
	may = []saved{m}
	return must, may, sym.Choose("session", 2) == 1
}

func crash(duringRecovery bool) {
	must, may, sameSession := scenario()
	ends(sym.Process(func() {
		if !sameSession {
			st := openDisk(1)
			save(st, must)
			time.Sleep(flushed)
		}
	}, false))
	survives(sym.Process(func() {
		st := openDisk(1)
		if sameSession {
			save(st, must)
			time.Sleep(flushed)
		}
		sym.Arm(!duringRecovery)
		save(st, may)
		if duringRecovery {
			time.Sleep(14 * time.Second) // a fragment is on disk, not merged
		} else {
			time.Sleep(32 * time.Second)
		}
	}, false))
	if duringRecovery {
		// that process wrote everything, the last save is in a fragment
		must, may = append(must, may...), nil
		survives(sym.Process(func() {
			openDisk(1)
			time.Sleep(16 * time.Second)
		}, true))
	}
	ends(sym.Process(func() {
		st := openDisk(1)
		checkRecovered(st, must, may)
	}, false))
	// what is there stays there, and the store works
	ends(sym.Process(func() {
		st := openDisk(1)
		checkRecovered(st, must, may)
		n := saved{doc: "n", field: "f", len: 7, terms: []string{"t"}, tf: []int{1}}
		had := st.GetFieldSize("f")
		save(st, []saved{n})
		sym.Assert(contains(st, "n", "f", "t") && st.GetFieldSize("f") == had+1, "after a crash: the store does not take new documents")
		time.Sleep(flushed)
	}, false))
	ends(sym.Process(func() {
		st := openDisk(1)
		sym.Assert(contains(st, "n", "f", "t"), "after a crash: a document saved afterwards is lost")
		for _, s := range must {
			sym.Assert(contains(st, s.doc, s.field, s.terms[0]), "after a crash: a flushed document is lost later")
		}
	}, false))
	sym.Reach("end")
}

func H_crash()          { crash(false) }
func H_crash_recovery() { crash(true) }
