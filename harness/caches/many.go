package caches

import (
	"strconv"
	"strings"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// A larger LRU cache: many rounds of operations over more keys than fit, in an order that depends on arbitrary choices.
func H_lru_many() {
	c := []int{7, 16, 33}[sym.Choose("capacity", 3)]
	step := 1 + sym.Choose("step", 6)
	period := 2 + sym.Choose("period", 4)
	v := sym.Int("value")
	r := &lru{cap: c}
	real := cache.NewLRUCache[int](c)
	k := 0
	for i := 0; i < deep(120, 400); i++ {
		k = (k + step + i%3) % 41
		s := "key-" + strconv.Itoa(k)
		if i%period == 0 {
			w, in := r.get(s)
			g, ok := real.Get(s)
			sym.Assert(ok == in, "lru: presence of a key in a large cache")
			if ok && in {
				sym.Assert(*g == w, "lru: value of a key in a large cache")
			}
			continue
		}
		r.put(s, v+i)
		real.Put(s, v+i)
	}
	n := 0
	for i := 0; i < 41; i++ {
		s := "key-" + strconv.Itoa(i)
		j := r.find(s)
		g, ok := real.Get(s)
		sym.Assert(ok == (j >= 0), "lru: exactly the most recently used keys are kept in a large cache")
		if ok && j >= 0 {
			n++
			sym.Assert(*g == r.l[j].v, "lru: value of a kept key in a large cache")
		}
	}
	sym.Assert(n <= c, "lru: more keys than the capacity of a large cache")
	sym.Reach("end")
}

// More values than any buffer holds are put in one go; all of them become visible, the last one of each key.
func burst(c store, label string) {
	n := deep(1300, 2600)
	keys := []int{n, 700, 3}[sym.Choose("keys", 3)]
	v := sym.Int("value")
	late := sym.Choose("late", 2) == 1
	if late {
		time.Sleep(2999 * time.Millisecond)
	}
	var last []int = make([]int, keys)
	for i := 0; i < n; i++ {
		c.Put("key-"+strconv.Itoa(i%keys), v+i)
		last[i%keys] = i
	}
	time.Sleep(3*time.Second + 5*time.Millisecond)
	for i, w := range last {
		p, ok := c.Get("key-" + strconv.Itoa(i))
		sym.Assert(ok, label+": a value of a burst is lost")
		if ok {
			sym.Assert(*p == v+w, label+": a value of a burst is not the one put last")
		}
	}
	_, ok := c.Get("key-" + strconv.Itoa(keys))
	sym.Assert(!ok, label+": a key that was not put")
	c.Put("key-0", v-1)
	time.Sleep(3*time.Second + 5*time.Millisecond)
	p, ok := c.Get("key-0")
	sym.Assert(ok && *p == v-1, label+": a value put after a burst")
	if keys > 1 {
		p, ok = c.Get("key-1")
		sym.Assert(ok && *p == v+last[1], label+": an older value is lost")
	}
	sym.Reach("end")
}

func H_rcu_burst() { burst(cache.NewCacheRCU[int](), "rcu") }

func H_syncmap_burst() { burst(cache.NewSyncMap[int](), "syncmap") }

// Values are put all the time, faster than the writer's turns: each of them becomes visible in its time all the same.
func steady(c store, label string) {
	pause := []time.Duration{time.Second, 2900 * time.Millisecond, 250 * time.Millisecond, 3 * time.Second}[sym.Choose("pause", 4)]
	same := sym.Choose("same", 2) == 1
	v := sym.Int("value")
	var l []put
	for i := 0; i < deep(40, 120); i++ {
		k := "key"
		if !same {
			k = "key-" + strconv.Itoa(i)
		}
		c.Put(k, v+i)
		l = append(l, put{k, v + i, sym.Now()})
		time.Sleep(pause)
		for back := 0; back < 4 && back <= i; back++ {
			checkDelayed(c, l, l[i-back].k, window, label+", steady")
		}
		checkDelayed(c, l, l[i/2].k, window, label+", steady")
		checkDelayed(c, l, l[0].k, window, label+", steady")
	}
	sym.Reach("end")
}

func H_rcu_steady() { steady(cache.NewCacheRCU[int](), "rcu") }

func H_syncmap_steady() { steady(cache.NewSyncMap[int](), "syncmap") }

// Many fragments and long keys: every key has one fragment, the same every time.
func H_shard_many() {
	n := []int{16, 37, 64, 257, 1000, 1}[sym.Choose("fragments", 6)]
	s := cache.NewShardMap[int](n)
	sym.Assert(len(s.Shard) == n && s.Fragments == n, "shard: number of fragments")
	var keys []string
	for i := 0; i < deep(110, 250); i++ {
		keys = append(keys, strings.Repeat("k", i%9)+strconv.Itoa(i*i*7919))
	}
	keys = append(keys, strings.Repeat("a long key ", 30), "", "\x00", "\xff\xff", "é")
	if n == 16 { // more is beyond the solver
		keys = append(keys, sym.String("key", 1))
	} else {
		keys = append(keys, "~")
	}
	// the keys are different, but the arbitrary one
	for i, k := range keys {
		m, ok := s.Get(k)
		sym.Assert(ok && m != nil, "shard: every key has a fragment")
		m.Set(k, i)
	}
	free := len(keys) - 1
	for i, k := range keys {
		m, ok := s.Get(k)
		sym.Assert(ok && m != nil, "shard: every key has a fragment, again")
		p, ok := m.Get(k)
		sym.Assert(ok, "shard: a key is not found where it was put")
		if ok {
			sym.Assert(sym.Or(*p == i, sym.And(k == keys[free], *p == free)), "shard: another value than the one put under a key")
		}
	}
	sym.Reach("end")
}

// A map with many keys.
func H_localmap_many() {
	m := cache.NewLocalMap[int]()
	n := deep(300, 1500)
	step := 1 + sym.Choose("step", 4)
	v := sym.Int("value")
	last := map[string]int{}
	for i := 0; i < n; i++ {
		k := "key-" + strconv.Itoa((i*step)%(n/2))
		m.Set(k, v+i)
		last[k] = i
	}
	sym.Assert(len(m.GetData()) == len(last), "localmap: number of keys")
	for k, i := range last {
		p, ok := m.Get(k)
		sym.Assert(ok, "localmap: a key of many is lost")
		if ok {
			sym.Assert(*p == v+i, "localmap: value of a key of many")
		}
	}
	_, ok := m.Get("nowhere")
	sym.Assert(!ok, "localmap: a key that was not set")
	sym.Reach("end")
}
