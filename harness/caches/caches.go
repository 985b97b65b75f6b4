// Package caches checks the caches against plain reference models.
package caches

import (
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

func deep(quick, thorough int) int {
	if sym.Deep() {
		return thorough
	}
	return quick
}

func key(what string, n int) string {
	s := sym.String(what, 1)
	sym.Assume(sym.And(s[0] >= 'a', s[0] < 'a'+byte(n)))
	return s
}

type entry struct {
	k string
	v int
}

// lru is the reference: the entries, most recently used first.
type lru struct {
	cap int
	l   []entry
}

func (r *lru) find(k string) int {
	for i := range r.l {
		if r.l[i].k == k {
			return i
		}
	}
	return -1
}

func (r *lru) front(i int, e entry) {
	n := []entry{e}
	for j, o := range r.l {
		if j != i {
			n = append(n, o)
		}
	}
	r.l = n
}

func (r *lru) get(k string) (int, bool) {
	i := r.find(k)
	if i < 0 {
		return 0, false
	}
	v := r.l[i].v
	r.front(i, r.l[i])
	return v, true
}

func (r *lru) put(k string, v int) {
	if r.cap <= 0 {
		return
	}
	r.front(r.find(k), entry{k, v})
	if len(r.l) > r.cap {
		r.l = r.l[:r.cap]
	}
}

// Every sequence of operations gives what the reference gives.
func H_lru() {
	c := sym.Choose("capacity", 5) - 1
	n := deep(5, 7)
	r := &lru{cap: c}
	real := cache.NewLRUCache[int](c)
	var handed []*int
	var were []int
	for i := 0; i < n; i++ {
		k := key("key", 4)
		if sym.Choose("op", 2) == 0 {
			v := sym.Int("value")
			r.put(k, v)
			real.Put(k, v)
			continue
		}
		got(r, real, k, &handed, &were)
	}
	k := key("last", 4)
	got(r, real, k, &handed, &were)
	for i, p := range handed {
		sym.Assert(*p == were[i], "lru: a value handed out changes later")
	}
	sym.Reach("end")
}

func got(r *lru, real *cache.LRUCache[int], k string, handed *[]*int, were *[]int) {
	w, in := r.get(k)
	g, ok := real.Get(k)
	sym.Assert(ok == in, "lru: presence of a key")
	if ok && in {
		sym.Assert(g != nil && *g == w, "lru: value of a key")
		*handed = append(*handed, g)
		*were = append(*were, w)
	}
}

// After any operations exactly the most recently used keys are there, never more than the capacity.
func H_lru_content() {
	c := 1 + sym.Choose("capacity", 3)
	r := &lru{cap: c}
	real := cache.NewLRUCache[int](c)
	for i := 0; i < deep(5, 6); i++ {
		k := key("key", 5)
		if sym.Choose("op", 2) == 0 {
			r.put(k, i)
			real.Put(k, i)
		} else {
			r.get(k)
			real.Get(k)
		}
	}
	n := 0
	for x := 'a'; x < 'a'+5; x++ {
		k := string(x)
		i := r.find(k)
		g, ok := real.Get(k)
		sym.Assert(ok == (i >= 0), "lru: exactly the most recently used keys are kept")
		if ok {
			n++
			sym.Assert(*g == r.l[i].v, "lru: value of a kept key")
		}
	}
	sym.Assert(n <= c, "lru: more keys than the capacity")
	sym.Reach("end")
}

type op struct {
	put bool
	k   string
	v   int
	got int
	ok  bool
}

func (o *op) run(c *cache.LRUCache[int]) {
	if o.put {
		c.Put(o.k, o.v)
		return
	}
	if p, ok := c.Get(o.k); ok {
		o.got, o.ok = *p, true
	}
}

func (o *op) fits(r *lru) bool {
	if o.put {
		r.put(o.k, o.v)
		return true
	}
	v, ok := r.get(o.k)
	return ok == o.ok && (!ok || v == o.got)
}

// linear tells whether some merge of a and b, followed by after, explains all results.
func linear(r *lru, a, b, after []*op) bool {
	c := &lru{cap: r.cap, l: append([]entry{}, r.l...)}
	if len(a) == 0 && len(b) == 0 {
		for _, o := range after {
			if !o.fits(c) {
				return false
			}
		}
		return true
	}
	if len(a) > 0 {
		d := &lru{cap: r.cap, l: append([]entry{}, r.l...)}
		if a[0].fits(d) && linear(d, a[1:], b, after) {
			return true
		}
	}
	if len(b) > 0 {
		if b[0].fits(c) && linear(c, a, b[1:], after) {
			return true
		}
	}
	return false
}

func ops(who string, n, v int) []*op {
	var l []*op
	for i := 0; i < n; i++ {
		l = append(l, &op{put: sym.Choose("op-"+who, 2) == 0, k: string(rune('a' + sym.Choose("key-"+who, 3))), v: v + i})
	}
	return l
}

// Two goroutines use a cache at the same time: there are no data races, and the results are those of some order of the operations.
func H_lru_concurrent() {
	cp := 1 + sym.Choose("capacity", 2)
	c := cache.NewLRUCache[int](cp)
	r := &lru{cap: cp}
	r.put("a", 1)
	c.Put("a", 1)
	r.put("b", 2)
	c.Put("b", 2)
	x, y := ops("x", 2, 10), ops("y", deep(1, 2), 20)
	sym.Races(true)
	sym.Explore(deep(2, 4))
	done := make(chan bool, 2)
	go func() {
		for _, o := range x {
			o.run(c)
		}
		done <- true
	}()
	go func() {
		for _, o := range y {
			o.run(c)
		}
		done <- true
	}()
	<-done
	<-done
	sym.StopExplore()
	var after []*op
	for k := 'a'; k < 'd'; k++ {
		o := &op{k: string(k)}
		o.run(c)
		after = append(after, o)
	}
	sym.Assert(linear(r, x, y, after), "lru: results of concurrent operations that no order explains")
	sym.Reach("end")
}

// store is what the caches with a background writer have in common.
type store interface {
	Get(string) (*int, bool)
	Put(string, int)
}

type put struct {
	k  string
	v  int
	at int64
}

// checkDelayed: a value becomes visible within window; what is visible is the value put last or a later state of it.
func checkDelayed(c store, l []put, k string, window int64, label string) {
	p, ok := c.Get(k)
	now := sym.Now()
	sure, maybe := -1, false
	for i := range l {
		if l[i].k != k {
			continue
		}
		if now-l[i].at > window {
			sure = i
		}
	}
	if !ok {
		sym.Assert(sure < 0, label+": a value is not visible after the writer had its turn")
		return
	}
	for i := range l {
		if l[i].k == k && i >= sure {
			maybe = sym.Or(maybe, *p == l[i].v)
		}
	}
	sym.Assert(maybe, label+": a value other than the latest ones put")
}

const window = int64(3*time.Second) + int64(3*time.Millisecond)

func delayed(c store, n int, label string) {
	var l []put
	for i := 0; i < n; i++ {
		k := key("key", 4)
		v := sym.Int("value")
		c.Put(k, v)
		l = append(l, put{k, v, sym.Now()})
		switch sym.Choose("pause", 4) {
		case 1:
			time.Sleep(time.Second)
		case 2:
			time.Sleep(3*time.Second + 5*time.Millisecond)
		case 3:
			time.Sleep(7 * time.Second)
		}
		checkDelayed(c, l, key("query", 4), window, label)
	}
	q := key("last", 4)
	time.Sleep(3*time.Second + 5*time.Millisecond)
	want, in := 0, false
	for _, o := range l {
		if o.k == q {
			want, in = o.v, true
		}
	}
	p, ok := c.Get(q)
	sym.Assert(ok == in, label+": exactly the keys that were put are visible in the end")
	if ok && in {
		sym.Assert(*p == want, label+": the value put last is visible in the end")
	}
	sym.Reach("end")
}

func H_rcu() { delayed(cache.NewCacheRCU[int](), deep(3, 4), "rcu") }

func H_syncmap() { delayed(cache.NewSyncMap[int](), deep(3, 4), "syncmap") }

// Goroutines put and read while the writer works: no data races, no torn or lost values, and a reader never goes back to an older value.
func delayedConcurrent(c store, label string) {
	sym.Races(true)
	sym.Explore(2)
	sym.EarlyTimers(true)
	done := make(chan bool, 3)
	go func() {
		c.Put("a", 1)
		c.Put("a", 2)
		c.Put("b", 3)
		done <- true
	}()
	go func() {
		c.Put("c", 4)
		done <- true
	}()
	go func() {
		last := 0
		for i := 0; i < 3; i++ {
			p, ok := c.Get("a")
			v := 0
			if ok {
				v = *p
				sym.Assert(v == 1 || v == 2, label+": a value that was never put")
			}
			sym.Assert(v >= last, label+": a reader sees an older value after a newer one")
			last = v
		}
		done <- true
	}()
	<-done
	<-done
	<-done
	sym.StopExplore()
	sym.EarlyTimers(false)
	time.Sleep(10 * time.Second)
	for i, k := range []string{"a", "b", "c"} {
		p, ok := c.Get(k)
		sym.Assert(ok && *p == i+2, label+": a value is lost")
	}
	sym.Reach("end")
}

func H_rcu_concurrent() { delayedConcurrent(cache.NewCacheRCU[int](), "rcu") }

func H_syncmap_concurrent() { delayedConcurrent(cache.NewSyncMap[int](), "syncmap") }

// A shard map gives every key its map, always the same one, and the maps together work like one map.
func H_shard() {
	n := 1 + sym.Choose("fragments", deep(4, 8))
	s := cache.NewShardMap[int](n)
	k := sym.String("k", sym.Choose("len-k", 2))
	q := sym.String("q", sym.Choose("len-q", 2))
	m, ok := s.Get(k)
	sym.Assert(ok && m != nil, "shard: there is no map for a key")
	m2, ok := s.Get(k)
	sym.Assert(ok && m == m2, "shard: a key moves to another map")
	found := 0
	for i := 0; i < n; i++ {
		if s.Shard[i] == m {
			found++
		}
	}
	sym.Assert(found == 1 && len(s.Shard) == n, "shard: the map of a key is one of the fragments")
	v, w := sym.Int("v"), sym.Int("w")
	m.Set(k, v)
	mq, ok := s.Get(q)
	sym.Assert(ok && mq != nil, "shard: there is no map for a key")
	p, ok := mq.Get(q)
	if k == q {
		sym.Assert(ok && *p == v, "shard: a value is not found")
	} else {
		sym.Assert(!ok, "shard: a key that was not set is found")
	}
	mq.Set(q, w)
	p, ok = m.Get(k)
	sym.Assert(ok && *p == sym.IteInt(k == q, w, v), "shard: setting a key changes another")
	total := 0
	for i := 0; i < n; i++ {
		total += len(s.Shard[i].GetData())
	}
	sym.Assert(total == sym.IteInt(k == q, 1, 2), "shard: number of keys in all maps")
	sym.Reach("end")
}

// Keys with all kinds of checksums, and maps used from many goroutines.
func H_shard_keys() {
	n := 1 + sym.Choose("fragments", 12)
	s := cache.NewShardMap[int](n)
	k := sym.String("k", deep(4, 5))
	m, ok := s.Get(k)
	sym.Assert(ok && m != nil, "shard: there is no map for a key")
	sym.Reach("end")
}

func H_shard_concurrent() {
	s := cache.NewShardMap[int](3)
	x, y := string(rune('a'+sym.Choose("x", 6))), string(rune('a'+sym.Choose("y", 6)))
	sym.Races(true)
	sym.Explore(deep(2, 4))
	done := make(chan bool, 2)
	go func() {
		m, _ := s.Get(x)
		m.Set(x, 1)
		done <- true
	}()
	go func() {
		m, _ := s.Get(y)
		m.Set(y, 2)
		p, ok := m.Get(y)
		sym.Assert(ok && (*p == 2 || x == y && *p == 1), "shard: a value set is not found")
		done <- true
	}()
	<-done
	<-done
	m, _ := s.Get(x)
	p, ok := m.Get(x)
	sym.Assert(ok && (*p == 1 || x == y && *p == 2), "shard: a value is lost")
	m, _ = s.Get(y)
	p, ok = m.Get(y)
	sym.Assert(ok && (*p == 2 || x == y && *p == 1), "shard: a value is lost")
	sym.Reach("end")
}

// A local map holds the value set last for every key, and values handed out do not change.
func H_localmap() {
	m := cache.NewLocalMap[int]()
	var l []entry
	var handed []*int
	var were []int
	for i := 0; i < deep(4, 6); i++ {
		k := sym.String("key", 1)
		if sym.Choose("op", 2) == 0 {
			v := sym.Int("value")
			m.Set(k, v)
			l = append(l, entry{k, v})
			continue
		}
		w, in := 0, false
		for _, e := range l {
			if e.k == k {
				w, in = e.v, true
			}
		}
		p, ok := m.Get(k)
		sym.Assert(ok == in, "localmap: presence of a key")
		if ok && in {
			sym.Assert(*p == w, "localmap: value of a key")
			handed = append(handed, p)
			were = append(were, w)
		}
	}
	for i, p := range handed {
		sym.Assert(*p == were[i], "localmap: a value handed out changes later")
	}
	data := m.GetData()
	n := 0
	for i, e := range l {
		later := false
		for _, o := range l[i+1:] {
			later = sym.Or(later, o.k == e.k)
		}
		if !later {
			n++
			p, ok := data[e.k]
			sym.Assert(ok && *p == e.v, "localmap: the data hold every key with its value")
		}
	}
	sym.Assert(len(data) == n, "localmap: number of keys")
	sym.Reach("end")
}

func H_localmap_concurrent() {
	m := cache.NewLocalMap[int]()
	sym.Races(true)
	sym.Explore(deep(3, 5))
	done := make(chan bool, 2)
	go func() {
		m.Set("a", 1)
		m.Set("b", 2)
		done <- true
	}()
	go func() {
		m.Set("a", 3)
		p, ok := m.Get("a")
		sym.Assert(ok && (*p == 1 || *p == 3), "localmap: value of a key")
		p, ok = m.Get("b")
		sym.Assert(!ok || *p == 2, "localmap: value of a key")
		done <- true
	}()
	<-done
	<-done
	p, ok := m.Get("a")
	sym.Assert(ok && (*p == 1 || *p == 3), "localmap: a value is lost")
	p, ok = m.Get("b")
	sym.Assert(ok && *p == 2, "localmap: a value is lost")
	sym.Assert(len(m.GetData()) == 2, "localmap: number of keys")
	sym.Reach("end")
}
