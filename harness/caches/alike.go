package caches

import (
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/alike"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// twins are two keys that are easily taken for one.
func twins() (string, string) {
	p := alike.Pairs[sym.Choose("pair", len(alike.Pairs))]
	if sym.Choose("swap", 2) == 1 {
		return p[1], p[0]
	}
	return p[0], p[1]
}

type getter interface {
	Get(string) (*int, bool)
}

func apart(c getter, x, y string, v, w int, label string) {
	p, ok := c.Get(x)
	q, ok2 := c.Get(y)
	sym.Assert(ok && ok2, label+": a key with a name like another one is missing")
	if ok && ok2 {
		sym.Assert(sym.And(*p == v, *q == w), label+": two keys with names alike have one value")
	}
}

func H_lru_alike() {
	x, y := twins()
	v, w := sym.Int("v"), sym.Int("w")
	c := cache.NewLRUCache[int](2)
	c.Put(x, v)
	_, ok := c.Get(y)
	sym.Assert(!ok, "lru: presence of a key")
	c.Put(y, w)
	apart(c, x, y, v, w, "lru")
	c.Put("another", 1)
	_, ok = c.Get(x)
	p, ok2 := c.Get(y)
	sym.Assert(!ok && ok2 && *p == w, "lru: of two keys with names alike the wrong one is left")
	sym.Reach("end")
}

func delayedAlike(c store, label string) {
	x, y := twins()
	v, w := sym.Int("v"), sym.Int("w")
	c.Put(x, v)
	if sym.Choose("pause", 2) == 1 {
		time.Sleep(4 * time.Second)
		_, ok := c.Get(y)
		sym.Assert(!ok, label+": a key is visible that was not put")
	}
	c.Put(y, w)
	time.Sleep(4 * time.Second)
	apart(c, x, y, v, w, label)
	sym.Reach("end")
}

func H_rcu_alike()     { delayedAlike(cache.NewCacheRCU[int](), "rcu") }
func H_syncmap_alike() { delayedAlike(cache.NewSyncMap[int](), "syncmap") }

func H_localmap_alike() {
	x, y := twins()
	v, w := sym.Int("v"), sym.Int("w")
	c := cache.NewLocalMap[int]()
	c.Set(x, v)
	_, ok := c.Get(y)
	sym.Assert(!ok, "localmap: a key is there that was not set")
	c.Set(y, w)
	apart(c, x, y, v, w, "localmap")
	sym.Assert(len(c.GetData()) == 2, "localmap: number of keys")
	sym.Reach("end")
}

type sharded struct{ s *cache.Shard[int] }

func (s sharded) Get(k string) (*int, bool) {
	m, ok := s.s.Get(k)
	if !ok {
		return nil, false
	}
	return m.Get(k)
}

func H_shard_alike() {
	x, y := twins()
	v, w := sym.Int("v"), sym.Int("w")
	s := sharded{cache.NewShardMap[int](1 + 6*sym.Choose("fragments", 3))}
	m, _ := s.s.Get(x)
	m.Set(x, v)
	_, ok := s.Get(y)
	sym.Assert(!ok, "shard: a key is there that was not set")
	m, _ = s.s.Get(y)
	m.Set(y, w)
	apart(s, x, y, v, w, "shard")
	sym.Reach("end")
}
