package selftest

import (
	"bufio"
	"bytes"
	"cmp"
	"container/heap"
	"container/list"
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"io"
	"io/fs"
	"log"
	"maps"
	"math"
	"math/bits"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

func H_api_pool() {
	p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	b := p.Get().(*bytes.Buffer)
	b.Reset()
	b.WriteString(sym.String("s", 2))
	n := b.Len()
	p.Put(b)
	c := p.Get().(*bytes.Buffer)
	c.Reset()
	sym.Assert(n == 2 && c.Len() == 0, "pool")
	sym.Reach("end")
}

func H_api_once() {
	var o sync.Once
	n := 0
	for i := 0; i < 3; i++ {
		o.Do(func() { n++ })
	}
	f := sync.OnceValue(func() int { n++; return n })
	sym.Assert(n == 1 && f() == 2 && f() == 2, "once")
	sym.Reach("end")
}

func H_api_cond() {
	var mu sync.Mutex
	c := sync.NewCond(&mu)
	ready := false
	done := make(chan bool)
	go func() {
		mu.Lock()
		for !ready {
			c.Wait()
		}
		mu.Unlock()
		done <- true
	}()
	mu.Lock()
	ready = true
	c.Broadcast()
	mu.Unlock()
	sym.Assert(<-done, "cond")
	sym.Reach("end")
}

func H_api_ctx() {
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	ctx2, cancel2 := context.WithCancel(context.WithValue(ctx, "k", 1))
	go func() { cancel2() }()
	<-ctx2.Done()
	sym.Assert(ctx2.Err() == context.Canceled, "cancel")
	<-ctx.Done()
	sym.Assert(errors.Is(ctx.Err(), context.DeadlineExceeded), "deadline")
	sym.Reach("end")
}

func H_api_atomic() {
	var n atomic.Int64
	var b atomic.Bool
	var v atomic.Value
	var p atomic.Pointer[int]
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); n.Add(1); b.Store(true) }()
	}
	wg.Wait()
	x := 3
	v.Store(map[string]int{"a": 1})
	p.Store(&x)
	sym.Assert(n.Load() == 3 && b.Load() && v.Load().(map[string]int)["a"] == 1 && *p.Load() == 3, "atomic")
	sym.Assert(n.CompareAndSwap(3, 4) && v.Swap(map[string]int{}) != nil, "cas")
	sym.Reach("end")
}

func H_api_rw() {
	var mu sync.RWMutex
	mu.RLock()
	sym.Assert(mu.TryRLock() && !mu.TryLock(), "try")
	mu.RUnlock()
	mu.RUnlock()
	l := mu.RLocker()
	l.Lock()
	l.Unlock()
	sym.Assert(mu.TryLock(), "trylock")
	mu.Unlock()
	sym.Reach("end")
}

func H_api_syncmap() {
	var m sync.Map
	a := sym.String("a", 1)
	sym.Assume(a != "c")
	m.Store(a, 1)
	m.Store("b", 2)
	v, l := m.LoadOrStore("c", 3)
	n := 0
	m.Range(func(k, v any) bool { n++; return true })
	sym.Assert(v == 3 && !l && n >= 2 && n <= 3, "map")
	sym.Assert(m.CompareAndSwap("c", v, 4), "cas")
	m.CompareAndDelete("c", 4)
	_, ok := m.Load("c")
	sym.Assert(!ok, "gone")
	sym.Reach("end")
}

type ih []int

func (h ih) Len() int           { return len(h) }
func (h ih) Less(i, j int) bool { return h[i] < h[j] }
func (h ih) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ih) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ih) Pop() any          { o := *h; x := o[len(o)-1]; *h = o[:len(o)-1]; return x }

func H_api_heap() {
	h := &ih{sym.Int("a"), sym.Int("b"), sym.Int("c")}
	heap.Init(h)
	a := heap.Pop(h).(int)
	b := heap.Pop(h).(int)
	sym.Assert(a <= b, "heap")
	l := list.New()
	e := l.PushBack(1)
	l.PushFront(2)
	l.MoveToFront(e)
	sym.Assert(l.Front().Value == 1 && l.Len() == 2, "list")
	l.Remove(e)
	l.Init()
	sym.Reach("end")
}

func H_api_slices() {
	x := []int{sym.Int("a"), sym.Int("b"), sym.Int("c")}
	slices.Sort(x)
	sym.Assert(x[0] <= x[1] && x[1] <= x[2], "sort")
	i, ok := slices.BinarySearch(x, x[1])
	sym.Assert(ok && x[i] == x[1], "search")
	slices.SortFunc(x, func(a, b int) int { return cmp.Compare(b, a) })
	sym.Assert(x[0] >= x[1], "sortfunc")
	slices.SortStableFunc(x, func(a, b int) int { return cmp.Compare(a, b) })
	sym.Assert(slices.Contains(x, x[2]) && slices.Index(x, x[0]) == 0, "contains")
	y := slices.Clone(x)
	slices.Reverse(y)
	y = slices.Compact(y)
	y = slices.Insert(y, 0, 5)
	y = slices.Delete(y, 0, 1)
	sym.Assert(slices.Max(y) == x[2], "max")
	m := map[string]int{"a": 1, "b": 2}
	m2 := maps.Clone(m)
	m2["c"] = 3
	sym.Assert(len(m) == 2 && maps.Equal(m, map[string]int{"a": 1, "b": 2}), "maps")
	maps.Copy(m, m2)
	maps.DeleteFunc(m, func(k string, v int) bool { return v == 1 })
	keys := slices.Sorted(maps.Keys(m))
	sym.Assert(len(keys) == 2 && keys[0] == "b", "keys")
	keys = slices.Collect(maps.Keys(m))
	sym.Assert(len(keys) == 2, "collect")
	for k := range m {
		delete(m, k)
	}
	sym.Assert(len(m) == 0, "clear")
	sym.Reach("end")
}

func H_api_sort() {
	x := []string{sym.String("a", 1), sym.String("b", 1), "k"}
	sort.Strings(x)
	sym.Assert(x[0] <= x[1] && x[1] <= x[2], "strings")
	f := []float64{3, 1, 2}
	sort.Float64s(f)
	sort.Sort(sort.Reverse(sort.Float64Slice(f)))
	sym.Assert(f[0] == 3, "floats")
	i := sort.SearchStrings(x, "k")
	sym.Assert(x[i] == "k", "search")
	sort.Stable(sort.StringSlice(x))
	sort.Ints([]int{2, 1})
	sym.Reach("end")
}

func H_api_strings() {
	s := sym.String("s", 3)
	var sb strings.Builder
	sb.Grow(10)
	sb.WriteString(s)
	sb.WriteByte('a')
	sb.WriteRune('é')
	sym.Assert(sb.Len() == 6 && strings.HasPrefix(sb.String(), s), "builder")
	a, b, ok := strings.Cut(s, ":")
	sym.Assert(!ok || a+":"+b == s, "cut")
	sym.Assert(strings.Join(strings.Split(s, ","), ",") == s, "split")
	sym.Assert(strings.ReplaceAll(s, "x", "x") == s, "replace")
	r := strings.NewReplacer("a", "b", "b", "a")
	sym.Assert(len(r.Replace(s)) == 3, "replacer")
	sym.Assert(len(strings.TrimFunc(s, unicode.IsSpace)) <= 3, "trimfunc")
	sym.Assert(len(strings.Fields(s)) <= 2, "fields")
	sym.Assert(strings.EqualFold("aB", "Ab"), "fold")
	sym.Assert(strings.Repeat("ab", 2) == "abab" && strings.Title("ab") == "Ab" && strings.Count(s, "a") <= 3, "misc")
	sym.Assert(len(strings.Map(func(r rune) rune { return r }, "abc")) == 3, "map")
	sym.Assert(strings.ContainsRune("abc", 'b') && strings.IndexFunc("a1", unicode.IsDigit) == 1 && strings.IndexAny("abc", "cb") == 1, "index")
	t := strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(strings.ToLower(" AB ")), "a"), "b")
	sym.Assert(t == "", "trims")
	rd := strings.NewReader(s)
	bb, _ := io.ReadAll(rd)
	sym.Assert(string(bb) == s, "reader")
	sym.Reach("end")
}

func H_api_bytes() {
	s := []byte(sym.String("s", 3))
	var buf bytes.Buffer
	buf.Write(s)
	buf.WriteByte(1)
	buf.WriteRune('é')
	x, err := buf.ReadByte()
	sym.Assert(err == nil && x == s[0], "readbyte")
	sym.Assert(bytes.Equal(buf.Next(2), s[1:]), "next")
	sym.Assert(bytes.Contains(s, s[1:2]) && bytes.HasPrefix(s, s[:1]), "contains")
	w := bufio.NewWriter(&buf)
	fmt.Fprintf(w, "%d:%s", 3, "x")
	w.Flush()
	rd := bufio.NewReader(bytes.NewReader([]byte("a\nb\n")))
	l, err := rd.ReadString('\n')
	sym.Assert(l == "a\n" && err == nil, "readstring")
	sc := bufio.NewScanner(strings.NewReader("a b\nc"))
	n := 0
	for sc.Scan() {
		n++
	}
	sym.Assert(n == 2, "scanner")
	sc = bufio.NewScanner(strings.NewReader("a b\nc"))
	sc.Split(bufio.ScanWords)
	n = 0
	for sc.Scan() {
		n += len(sc.Text())
	}
	sym.Assert(n == 3, "words")
	var dst bytes.Buffer
	k, err := io.Copy(&dst, bytes.NewReader(s))
	sym.Assert(k == 3 && err == nil, "copy")
	pr, pw := io.Pipe()
	go func() { pw.Write([]byte("hi")); pw.Close() }()
	b, err := io.ReadAll(pr)
	sym.Assert(string(b) == "hi" && err == nil, "pipe")
	var m bytes.Buffer
	io.MultiWriter(&m, &dst).Write(s)
	io.ReadFull(io.LimitReader(io.TeeReader(bytes.NewReader(s), &m), 2), make([]byte, 2))
	sym.Reach("end")
}

func H_api_bin() {
	x := sym.Int("x")
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, uint64(x))
	sym.Assert(int(binary.LittleEndian.Uint64(b)) == x, "le")
	b = binary.BigEndian.AppendUint32(nil, uint32(x))
	sym.Assert(binary.BigEndian.Uint32(b) == uint32(x), "be")
	var buf bytes.Buffer
	binary.Write(&buf, binary.LittleEndian, uint32(7))
	var y uint32
	binary.Read(&buf, binary.LittleEndian, &y)
	sym.Assert(y == 7, "rw")
	b = binary.AppendUvarint(nil, 300)
	v, n := binary.Uvarint(b)
	sym.Assert(v == 300 && n == 2, "varint")
	sym.Assert(hex.EncodeToString([]byte{0xab}) == "ab", "hex")
	e := base64.RawURLEncoding.EncodeToString([]byte(sym.String("s", 2)))
	d, err := base64.RawURLEncoding.DecodeString(e)
	sym.Assert(err == nil && len(d) == 2, "b64")
	sym.Assert(bits.OnesCount8(uint8(x)) <= 8 && bits.TrailingZeros(8) == 3 && bits.Len(8) == 4, "bits")
	sym.Reach("end")
}

func H_api_hash() {
	s := sym.String("s", 2)
	h := fnv.New32a()
	h.Write([]byte(s))
	a := h.Sum32()
	h2 := fnv.New32a()
	h2.Write([]byte(s))
	sym.Assert(h2.Sum32() == a, "fnv")
	c := crc32.NewIEEE()
	c.Write([]byte(s))
	sym.Assert(c.Sum32() == crc32.ChecksumIEEE([]byte(s)), "crc")
	t := crc32.MakeTable(crc32.IEEE)
	sym.Assert(crc32.Checksum([]byte(s), t) == c.Sum32(), "table")
	sym.Assert(crc32.Update(0, t, []byte(s)) == c.Sum32(), "update")
	sym.Reach("end")
}

func H_api_strconv() {
	sym.Assert(strconv.Itoa(12) == "12" && strconv.FormatInt(-5, 16) == "-5" && strconv.Quote("a\n") == `"a\n"`, "format")
	n, err := strconv.Atoi(sym.String("s", 1))
	sym.Assert(err != nil || n >= 0 && n < 10, "atoi")
	f, err := strconv.ParseFloat("1.5", 64)
	sym.Assert(f == 1.5 && err == nil && strconv.FormatFloat(f, 'f', 2, 64) == "1.50", "float")
	b, _ := strconv.ParseBool("true")
	sym.Assert(b, "bool")
	sym.Assert(string(strconv.AppendInt(nil, 3, 10)) == "3", "append")
	sym.Reach("end")
}

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

func H_api_errors() {
	e := fmt.Errorf("w: %w", &myErr{"a"})
	var m *myErr
	sym.Assert(errors.As(e, &m) && m.s == "a" && e.Error() == "w: a", "as")
	j := errors.Join(io.EOF, e)
	sym.Assert(errors.Is(j, io.EOF) && errors.Unwrap(e) == m, "is")
	func() {
		defer func() { sym.Assert(recover() != nil, "recovered") }()
		panic(fmt.Sprintf("x %v", e))
	}()
	log.New(os.Stderr, "", 0).Printf("x")
	log.Default().Println("x")
	sym.Reach("end")
}

func H_api_fmt() {
	s := sym.String("s", 2)
	sym.Assert(fmt.Sprintf("%s-%d-%v", s, 3, true) == s+"-3-true", "sprintf")
	sym.Assert(fmt.Sprintf("%q", "a") == `"a"` && fmt.Sprintf("%05.2f", 1.5) == "01.50" && fmt.Sprintf("%x", "ab") == "6162" && fmt.Sprintf("%+v", struct{ A int }{1}) == "{A:1}", "verbs")
	sym.Assert(fmt.Sprintf("%T", 3) == "int" && fmt.Sprint(1, 2, "a") == "1 2a" && fmt.Sprintln("a", 1) == "a 1\n", "misc")
	sym.Assert(fmt.Sprintf("%08x", 255) == "000000ff" && fmt.Sprintf("%c%%", 'x') == "x%" && fmt.Sprintf("%v", []string{"a", "b"}) == "[a b]" && fmt.Sprintf("%v", map[string]int{"a": 1}) == "map[a:1]", "vals")
	sym.Assert(fmt.Sprintf("%3d|%-3d|%v", 5, 5, errors.New("e")) == "  5|5  |e", "widths")
	sym.Reach("end")
}

func H_api_os() {
	d := sym.TempRoot()
	p := filepath.Join(d, "a", "b")
	sym.Assert(os.MkdirAll(p, 0o755) == nil, "mkdirall")
	f, err := os.OpenFile(filepath.Join(p, "x"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	sym.Assert(err == nil, "open")
	w := bufio.NewWriter(f)
	w.WriteString(sym.String("s", 2))
	w.Flush()
	f.Sync()
	f.Close()
	n := 0
	filepath.Walk(d, func(path string, i fs.FileInfo, err error) error { n++; return err })
	sym.Assert(n == 4, "walk")
	n = 0
	filepath.WalkDir(d, func(path string, i fs.DirEntry, err error) error {
		if i.IsDir() {
			return nil
		}
		n++
		return err
	})
	sym.Assert(n == 1, "walkdir")
	m, err := filepath.Glob(filepath.Join(p, "*"))
	sym.Assert(err == nil && len(m) == 1, "glob")
	es, err := os.ReadDir(p)
	sym.Assert(err == nil && len(es) == 1 && es[0].Name() == "x" && !es[0].IsDir(), "readdir")
	i, err := es[0].Info()
	sym.Assert(err == nil && i.Size() == 2 && i.Mode().IsRegular(), "info")
	g, _ := os.Open(filepath.Join(p, "x"))
	b, err := io.ReadAll(g)
	g.Close()
	sym.Assert(len(b) == 2 && err == nil, "readall")
	t, err := os.CreateTemp(p, "tmp-*")
	sym.Assert(err == nil, "createtemp")
	t.Close()
	sym.Assert(os.Rename(t.Name(), filepath.Join(p, "y")) == nil && os.Remove(filepath.Join(p, "y")) == nil, "rename")
	_, err = os.Stat(filepath.Join(p, "zz"))
	sym.Assert(errors.Is(err, fs.ErrNotExist) && os.IsNotExist(err) && errors.Is(err, os.ErrNotExist), "notexist")
	var pe *fs.PathError
	sym.Assert(errors.As(err, &pe), "patherror")
	sym.Assert(filepath.Base(p) == "b" && filepath.Dir(p) == filepath.Join(d, "a") && filepath.Ext("a.b") == ".b", "paths")
	rel, err := filepath.Rel(d, p)
	sym.Assert(rel == "a/b" && err == nil, "rel")
	dir, err := os.Open(p)
	sym.Assert(err == nil, "opendir")
	ns, err := dir.Readdirnames(-1)
	dir.Sync()
	dir.Close()
	sym.Assert(err == nil && len(ns) == 1, "names")
	fsys := os.DirFS(d)
	bb, err := fs.ReadFile(fsys, "a/b/x")
	sym.Assert(err == nil && len(bb) == 2, "dirfs")
	os.RemoveAll(d)
	sym.Cleanup()
	sym.Reach("end")
}

func H_api_time() {
	t := time.Now()
	time.Sleep(time.Millisecond)
	sym.Assert(time.Since(t) >= time.Millisecond, "since")
	u := t.Add(time.Second)
	sym.Assert(u.After(t) && u.Sub(t) == time.Second && t.Before(u) && !t.IsZero(), "cmp")
	tk := time.NewTicker(time.Second)
	<-tk.C
	tk.Stop()
	select {
	case <-time.After(time.Second):
	case <-make(chan int):
	}
	done := make(chan bool, 1)
	time.AfterFunc(time.Second, func() { done <- true })
	<-done
	sym.Assert(t.UnixNano() != 0 && time.Duration(1500*time.Millisecond).Seconds() == 1.5, "nano")
	sym.Reach("end")
}

func H_api_unicode() {
	s := sym.String("s", 2)
	n := utf8.RuneCountInString(s)
	sym.Assert(n >= 1 && n <= 2, "count")
	r, k := utf8.DecodeRuneInString("é")
	sym.Assert(r == 'é' && k == 2 && utf8.RuneLen('é') == 2 && utf8.ValidString("é"), "decode")
	sym.Assert(unicode.ToLower('É') == 'é' && unicode.IsLetter('é') && unicode.Is(unicode.Latin, 'é'), "unicode")
	sym.Assert(string(utf8.AppendRune(nil, 'é')) == "é", "append")
	sym.Reach("end")
}

func H_api_regexp() {
	re := regexp.MustCompile(`[^a-z0-9]+`)
	sym.Assert(re.ReplaceAllString("a, b", " ") == "a b", "replace")
	sym.Assert(re.MatchString(sym.String("s", 1)) || true, "match")
	sym.Reach("end")
}

func H_api_math() {
	sym.Assert(math.MaxInt > 0 && math.Floor(1.5) == 1 && math.Max(1, 2) == 2 && math.Pow(2, 3) == 8 && math.Inf(1) > 0 && math.Round(1.5) == 2 && math.Sqrt(4) == 2 && math.Exp(0) == 1, "math")
	sym.Reach("end")
}

type pair[K comparable, V any] struct {
	k K
	v V
}

func mapKV[K comparable, V any](m map[K]V, f func(pair[K, V]) bool) []pair[K, V] {
	var out []pair[K, V]
	for k, v := range m {
		if p := (pair[K, V]{k, v}); f(p) {
			out = append(out, p)
		}
	}
	return out
}

func H_api_generics() {
	m := map[string]int{"a": 1, sym.String("s", 1): 2}
	o := mapKV(m, func(p pair[string, int]) bool { return p.v == 2 })
	sym.Assert(len(o) == 1, "generic")
	var arr [4]int
	for i := range arr {
		arr[i] = i
	}
	b := arr
	b[0] = 9
	sym.Assert(arr != b && arr[1:3:3][1] == 2, "arrays")
	type key struct {
		a string
		b int
	}
	mk := map[key]bool{{"x", 1}: true}
	sym.Assert(mk[key{"x", 1}] && !mk[key{"x", 2}], "structkeys")
	var x any = 3
	switch v := x.(type) {
	case string:
		sym.Fail("type")
	case int, int64:
		_ = v
	}
loop:
	for i := 0; ; i++ {
		switch {
		case i == 3:
			break loop
		case i%2 == 0:
			continue loop
		}
	}
	defer func() { recover() }()
	f := (*sync.Mutex).TryLock
	_ = f
	sym.Reach("end")
}

func H_api_workers() {
	jobs := make(chan int)
	res := make(chan int, 4)
	var wg sync.WaitGroup
	for w := 0; w < 2; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				res <- j * 2
			}
		}()
	}
	for i := 0; i < 4; i++ {
		jobs <- i
	}
	close(jobs)
	wg.Wait()
	close(res)
	s := 0
	for r := range res {
		s += r
	}
	sym.Assert(s == 12, "workers")
	sem := make(chan struct{}, 1)
	select {
	case sem <- struct{}{}:
	default:
		sym.Fail("sem")
	}
	select {
	case sem <- struct{}{}:
		sym.Fail("sem2")
	default:
	}
	var w2 sync.WaitGroup
	w2.Go(func() { <-sem })
	w2.Wait()
	sym.Reach("end")
}
