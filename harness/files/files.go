// Package files checks the file layer: replacement of files and the names of files.
package files

import (
	"path/filepath"

	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

func deep(quick, thorough int) int {
	if sym.Deep() {
		return thorough
	}
	return quick
}

func read(path string) (string, bool) {
	b, err := file.ReadFileOnDisk(path)
	return string(b), err == nil
}

func ends(r int) {
	if r != 1 {
		sym.Fail("the process dies: " + sym.ProcessDetail())
	}
}

func saveOK(name, data string) {
	file.CreteDirIfNotExist(sym.TempRoot())
	sym.Assert(file.SecureSaveFile(sym.TempRoot(), name, []byte(data)) == nil, "replace: saving fails without a fault")
}

// A file is replaced by one process that is killed at any point (and so are attempts to do it again):
// its content is always the whole old or the whole new one, its neighbour is untouched.
func H_replace_crash() {
	old, mid, neu := sym.String("old", 2), sym.String("mid", 3*sym.Choose("len", 2)), sym.String("new", deep(1, 2))
	existed := sym.Choose("existed", 2) == 1
	again := sym.Choose("again", 2) == 1
	p := filepath.Join(sym.TempRoot(), "x")
	q := filepath.Join(sym.TempRoot(), "y")
	ends(sym.Process(func() {
		if existed {
			saveOK("x", old)
		}
		saveOK("y", "neighbour")
	}, false))
	r := sym.Process(func() { saveOK("x", mid) }, true)
	sym.Assert(r == 1 || r == 2, "replace: the process dies by itself")
	r2 := 0
	if again {
		r2 = sym.Process(func() { saveOK("x", neu) }, true)
		sym.Assert(r2 == 1 || r2 == 2, "replace: the process dies by itself")
	}
	ends(sym.Process(func() {
		got, ok := read(p)
		sym.Assert(ok == file.Exists(p), "replace: a file exists but cannot be read")
		done := r == 1 || r2 == 1
		if existed || done {
			sym.Assert(ok, "replace: there is no file after a crash")
		}
		allowed := false
		if r2 == 1 {
			allowed = got == neu
		} else {
			if r2 == 2 {
				allowed = got == neu
			}
			allowed = sym.Or(allowed, got == mid)
			if r == 2 {
				allowed = sym.Or(allowed, sym.And(existed, got == old), sym.And(!existed, !ok))
			}
		}
		sym.Assert(sym.Or(allowed, !ok && !existed), "replace: the file is neither the old nor the new one")
		y, ok := read(q)
		sym.Assert(ok && y == "neighbour", "replace: another file changed")
		// and it can be replaced again
		saveOK("x", "last")
		got, ok = read(p)
		sym.Assert(ok && got == "last", "replace: the file cannot be replaced after a crash")
	}, false))
	sym.Reach("end")
}

// An operation of the file system fails: the error is reported and the old content stays, or there is no error and the new one is there.
func H_replace_fault() {
	old, neu := sym.String("old", 2*sym.Choose("old", 2)), sym.String("new", sym.Choose("new", 3))
	existed := sym.Choose("existed", 2) == 1
	p := filepath.Join(sym.TempRoot(), "x")
	if existed {
		saveOK("x", old)
	}
	k := sym.Choose("fault", 8)
	file.CreteDirIfNotExist(sym.TempRoot())
	sym.FailAt(k)
	err := file.SecureSaveFile(sym.TempRoot(), "x", []byte(neu))
	n := sym.Changes()
	sym.FailAt(0)
	got, ok := read(p)
	if k == 0 || k > n {
		sym.Assert(err == nil, "replace: an error without a fault")
	}
	if err == nil {
		sym.Assert(ok && got == neu, "replace: no error, but the new content is not there")
	} else if existed {
		sym.Assert(ok && sym.Or(got == old, got == neu), "replace: the old content is lost with an error")
	} else {
		sym.Assert(sym.Or(!ok, got == neu), "replace: a file with other content appears")
	}
	saveOK("x", "last")
	got, ok = read(p)
	sym.Assert(ok && got == "last", "replace: the file cannot be replaced after an error")
	sym.Reach("end")
}

// A reader never sees a partly written or missing file while it is being replaced.
func H_replace_reader() {
	saveOK("x", "old-content")
	p := filepath.Join(sym.TempRoot(), "x")
	sym.Explore(deep(4, 6))
	done := make(chan bool, 1)
	go func() {
		saveOK("x", "new-content")
		done <- true
	}()
	for i := 0; i < 2; i++ {
		sym.Yield()
		got, ok := read(p)
		sym.Assert(ok, "replace: a reader finds no file during a replacement")
		sym.Assert(got == "old-content" || got == "new-content", "replace: a reader finds a partial file")
	}
	<-done
	got, ok := read(p)
	sym.Assert(ok && got == "new-content", "replace: the new content is not there in the end")
	sym.Reach("end")
}

// Plain saving, reading, deleting and existence.
func H_plain() {
	a, b := sym.String("a", 2), sym.String("b", deep(1, 3))
	p := filepath.Join(sym.TempRoot(), "dir", "p")
	q := filepath.Join(sym.TempRoot(), "dir", "q")
	file.CreteDirIfNotExist(filepath.Join(sym.TempRoot(), "dir"))
	file.CreteDirIfNotExist(filepath.Join(sym.TempRoot(), "dir"))
	sym.Assert(!file.Exists(p), "files: a file exists that was not made")
	_, ok := read(p)
	sym.Assert(!ok, "files: a missing file is read")
	sym.Assert(file.SaveFileOnDisk(p, []byte(a)) == nil, "files: saving fails")
	sym.Assert(file.SaveFileOnDisk(q, []byte(b)) == nil, "files: saving fails")
	got, ok := read(p)
	sym.Assert(ok && got == a && file.Exists(p), "files: a saved file reads differently")
	sym.Assert(file.SaveFileOnDisk(p, []byte(b)) == nil, "files: saving over fails")
	got, ok = read(p)
	sym.Assert(ok && got == b, "files: a file saved again reads differently")
	l := file.ListFiles(filepath.Join(sym.TempRoot(), "dir"))
	sym.Assert(len(l) == 2 && (l[0] == "p" && l[1] == "q" || l[0] == "q" && l[1] == "p"), "files: listing")
	d := file.ListDirectories(sym.TempRoot())
	sym.Assert(len(d) == 1 && d[0] == "dir", "files: listing of directories")
	r := filepath.Join(sym.TempRoot(), "r")
	sym.Assert(file.RenameFile(p, r) == nil, "files: renaming fails")
	got, ok = read(r)
	sym.Assert(ok && got == b && !file.Exists(p), "files: renamed file")
	sym.Assert(file.RenameFile(p, r) != nil, "files: renaming a missing file succeeds")
	sym.Assert(file.Delete(q) == nil && !file.Exists(q), "files: deleting")
	sym.Assert(file.Delete(q) != nil, "files: deleting a missing file succeeds")
	got, ok = read(r)
	sym.Assert(ok && got == b, "files: deleting one file touches another")
	sym.Reach("end")
}

// An operation fails and the process is killed at any point of the same replacement.
func H_replace_fault_crash() {
	p := filepath.Join(sym.TempRoot(), "x")
	existed := sym.Choose("existed", 2) == 1
	ends(sym.Process(func() {
		file.CreteDirIfNotExist(sym.TempRoot())
		if existed {
			saveOK("x", "old")
		}
	}, false))
	k := 1 + sym.Choose("fault", 6)
	r := sym.Process(func() {
		sym.FailAt(k)
		err := file.SecureSaveFile(sym.TempRoot(), "x", []byte("new content"))
		sym.FailAt(0)
		got, ok := read(p)
		if err == nil {
			sym.Assert(ok && got == "new content", "replace: no error, but the new content is not there")
		}
	}, true)
	sym.Assert(r == 1 || r == 2, "replace: the process dies by itself")
	sym.FailAt(0)
	ends(sym.Process(func() {
		got, ok := read(p)
		if existed {
			sym.Assert(ok, "replace: there is no file after a failure and a crash")
		}
		sym.Assert(!ok || got == "new content" || existed && got == "old", "replace: the file is neither the old nor the new one")
		saveOK("x", "last")
		got, ok = read(p)
		sym.Assert(ok && got == "last", "replace: the file cannot be replaced after a failure and a crash")
	}, false))
	sym.Reach("end")
}

// Two files of one folder are replaced at the same time.
func H_replace_two() {
	saveOK("x", "old x")
	saveOK("y", "old y")
	p, q := filepath.Join(sym.TempRoot(), "x"), filepath.Join(sym.TempRoot(), "y")
	sym.Explore(deep(3, 5))
	done := make(chan bool, 2)
	for _, n := range []string{"x", "y"} {
		n := n
		go func() {
			saveOK(n, "new content of "+n)
			done <- true
		}()
	}
	<-done
	<-done
	got, ok := read(p)
	sym.Assert(ok && got == "new content of x", "replace: two files replaced at the same time disturb each other")
	got, ok = read(q)
	sym.Assert(ok && got == "new content of y", "replace: two files replaced at the same time disturb each other")
	sym.Reach("end")
}

// A large file, some bytes of it arbitrary, saved in either way, over a shorter or a longer one.
func H_large() {
	n := []int{5000, 70000, deep(270000, 1<<21)}[sym.Choose("size", 3)]
	content := make([]byte, n)
	for i := range content {
		content[i] = byte(i * 31 >> 3)
	}
	for _, i := range []int{0, 4095, 4096, n / 2, n - 1} {
		content[i] = sym.Byte("byte")
	}
	name := filepath.Join(sym.TempRoot(), "x")
	save := func(b []byte, secure bool) {
		var err error
		if secure {
			err = file.SecureSaveFile(sym.TempRoot(), "x", b)
		} else {
			err = file.SaveFileOnDisk(name, b)
		}
		sym.Assert(err == nil, "files: saving a large file fails")
	}
	file.CreteDirIfNotExist(sym.TempRoot())
	secure := sym.Choose("secure", 2) == 1
	switch sym.Choose("before", 3) {
	case 1:
		save([]byte("short"), secure)
	case 2:
		save(append(content, content...), secure)
	}
	save(content, secure)
	got, err := file.ReadFileOnDisk(name)
	sym.Assert(err == nil && len(got) == n, "files: size of a large file")
	same := true
	for _, i := range []int{0, 1, 511, 512, 1023, 4095, 4096, n / 2, n - 2, n - 1} {
		same = sym.And(same, got[i] == content[i])
	}
	sym.Assert(same, "files: content of a large file")
	sym.Assert(string(got) == string(content), "files: content of a large file")
	sym.Reach("end")
}
