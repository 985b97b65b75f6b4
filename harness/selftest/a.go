package selftest

import (
	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
	"strings"
)

func H_lru() {
	c := cache.NewLRUCache[int](2)
	a := sym.String("a", 1)
	b := sym.String("b", 1)
	c.Put(a, 1)
	c.Put(b, 2)
	v, ok := c.Get(a)
	sym.Assert(ok, "present")
	sym.Assert(*v == sym.IteInt(a == b, 2, 1), "value")
	sym.Reach("end")
}

func H_bad() {
	x := sym.Int("x")
	sym.Assume(x > 3)
	s := strings.ToUpper(sym.String("s", 2))
	sym.Assert(x*x != 49 || s != "AB", "sq")
}
