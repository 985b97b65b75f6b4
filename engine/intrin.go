package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type redirect struct {
	fn *ssa.Function
	in *intrinsic
}

// funcKey is the name redirects are looked up by: "pkg.Func" or "pkg.Type.Method".
func funcKey(fn *ssa.Function) (pkg, name string) {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if o.Pkg == nil {
		if ob := o.Object(); ob != nil && ob.Pkg() != nil {
			pkg = ob.Pkg().Path()
		} else {
			return "", fn.String()
		}
	} else {
		pkg = o.Pkg.Pkg.Path()
	}
	if r := o.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pkg, n.Obj().Name() + "." + o.Name()
		}
	}
	return pkg, o.Name()
}

func (P *Program) redirect(fn *ssa.Function) *redirect {
	if r, ok := P.redir.Load(fn); ok {
		return r.(*redirect)
	}
	r := P.mkRedirect(fn)
	P.redir.Store(fn, r)
	return r
}

func (P *Program) mkRedirect(fn *ssa.Function) *redirect {
	pkg, name := funcKey(fn)
	if fn.Parent() != nil {
		return &redirect{fn: fn}
	}
	if strings.HasPrefix(fn.Name(), "init#") || fn.Name() == "init" && fn.Signature.Recv() == nil {
		return &redirect{fn: fn, in: P.initIntr(fn)}
	}
	if pkg == P.module+"/zzverif/sym" {
		if f, ok := symAPI[name]; ok {
			return &redirect{in: &intrinsic{name: "sym." + name, f: f}}
		}
		return &redirect{fn: fn}
	}
	if pkg == "internal/strconv" && (name == "float64frombits" || name == "float64bits") {
		pkg, name = "math", "F"+name[1:]
	}
	if !strings.HasPrefix(pkg, P.zz) {
		// environment models take precedence
		if m := P.models[strings.ReplaceAll(pkg, "/", "_")]; m != nil {
			if i := strings.IndexByte(name, '.'); i >= 0 {
				if tn, ok := m.Members[name[:i]].(*ssa.Type); ok {
					if fn.Synthetic == "" || !strings.Contains(fn.Synthetic, "wrapper") {
						mt := P.method(tn.Type(), name[i+1:])
						if mt != nil {
							return &redirect{fn: mt}
						}
					}
				}
			} else if f := m.Func(name); f != nil && fn.TypeArgs() == nil {
				return &redirect{fn: f}
			}
		}
		key := pkg + "." + name
		if f, ok := intrinsics[key]; ok {
			return &redirect{in: &intrinsic{name: key, f: f}}
		}
	}
	return &redirect{fn: fn}
}

func (P *Program) method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := P.prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return P.prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// initIntr guards package initialisers so that each runs once and only where wanted.
func (P *Program) initIntr(fn *ssa.Function) *intrinsic {
	if fn.Name() != "init" || fn.Pkg == nil || fn.Pkg.Func("init") != fn {
		return nil
	}
	// packages are initialised when one of their variables is first used
	return &intrinsic{name: "init", f: nop}
}

type ifn = func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl)

func nop(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	if ci.fn != nil {
		switch r := ci.fn.Signature.Results(); r.Len() {
		case 0:
		case 1:
			return zero(r.At(0).Type()), ctlDone
		default:
			return zero(r), ctlDone
		}
	}
	return nil, ctlDone
}

func arg0(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) { return args[0], ctlDone }

func constI(n int64) ifn {
	return func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) { return BV(64, uint64(n)), ctlDone }
}

var intrinsics map[string]ifn

func opaqueMethod(o *Opaque, name string) *intrinsic { return nil }

func sl(v Value) []Value { return v.(Slice).S }

func byteAt(v Value, i int) *Term {
	switch x := v.(type) {
	case *Str:
		return x.At(i)
	case Slice:
		return x.S[i].(*Term)
	}
	panic(engineError("bytes expected"))
}

func blen(v Value) int {
	switch x := v.(type) {
	case *Str:
		return x.Len()
	case Slice:
		return len(x.S)
	}
	panic(engineError("bytes expected"))
}

func asStr(v Value) *Str {
	switch x := v.(type) {
	case *Str:
		return x
	case Slice:
		return bytesToStr(x)
	}
	panic(engineError("string expected"))
}

func indexByte(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	c := args[1].(*Term)
	for i := 0; i < blen(args[0]); i++ {
		if p.branch(p.c.Eq(byteAt(args[0], i), c)) {
			return BV(64, uint64(i)), ctlDone
		}
	}
	return BV(64, ^uint64(0)), ctlDone
}

func lastIndexByte(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	c := args[1].(*Term)
	for i := blen(args[0]) - 1; i >= 0; i-- {
		if p.branch(p.c.Eq(byteAt(args[0], i), c)) {
			return BV(64, uint64(i)), ctlDone
		}
	}
	return BV(64, ^uint64(0)), ctlDone
}

func indexStr(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	a, b := asStr(args[0]), asStr(args[1])
	if a.conc && b.conc {
		return BV(64, uint64(int64(strings.Index(a.s, b.s)))), ctlDone
	}
	for i := 0; i+b.Len() <= a.Len(); i++ {
		if p.branch(p.strEq(a.Sub(i, i+b.Len()), b)) {
			return BV(64, uint64(i)), ctlDone
		}
	}
	return BV(64, ^uint64(0)), ctlDone
}

func countByte(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	c := args[1].(*Term)
	r := BV(64, 0)
	for i := 0; i < blen(args[0]); i++ {
		r = p.c.Bin(OAdd, r, p.c.Ite(p.c.Eq(byteAt(args[0], i), c), BV(64, 1), BV(64, 0)))
	}
	return r, ctlDone
}

func compareStr(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	a, b := asStr(args[0]), asStr(args[1])
	return p.c.Ite(p.strEq(a, b), BV(64, 0), p.c.Ite(p.strLess(a, b), BV(64, ^uint64(0)), BV(64, 1))), ctlDone
}

func equalStr(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	return p.strEq(asStr(args[0]), asStr(args[1])), ctlDone
}

func mathUF(name string) ifn {
	return func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
		x := args[0].(*Term)
		t := p.c.FUn(OFUF, name, x)
		if !t.IsConst() {
			p.floatAxioms(name, x, t)
		}
		return t, ctlDone
	}
}

// floatAxioms gives the solver what is known about a library function at the arguments in use.
func (p *Path) floatAxioms(name string, x, t *Term) {
	key := "ax:" + name + ":" + strconv.Itoa(t.id)
	if p.sites[key] {
		return
	}
	p.sites[key] = true
	if p.s.mode != FloatErr {
		return
	}
	var a string
	switch name {
	case "log":
		a = p.s.ref(x)
	case "log1p":
		a = "(+ 1.0 " + p.s.ref(x) + ")"
	default:
		return
	}
	b := p.s.ref(t)
	p.s.AssertRaw(fmt.Sprintf("(assert (=> (>= %s 1.0) (>= %s 0.0)))\n", a, b))
	p.s.AssertRaw(fmt.Sprintf("(assert (=> (> %s (+ 1.0 (/ 1.0 4503599627370496.0))) (> %s 0.0)))\n", a, b))
	p.s.AssertRaw(fmt.Sprintf("(assert (<= %s (- %s 1.0)))\n", b, a))
	// steps: where in the range of logarithms the value lies
	for k := 1; k <= 64; k *= 2 {
		lo := new(big.Rat).SetFloat64(float64(k)*math.Ln2 - 1e-9)
		hi := new(big.Rat).SetFloat64(float64(k)*math.Ln2 + 1e-9)
		pw := new(big.Int).Lsh(big.NewInt(1), uint(k))
		p.s.AssertRaw(fmt.Sprintf("(assert (ite (>= %s %s.0) (>= %s %s) (=> (> %s 0.0) (<= %s %s))))\n", a, pw, b, ratLit(lo), a, b, ratLit(hi)))
	}
	for _, o := range p.logs2 {
		oa, ob := o[0], o[1]
		p.s.AssertRaw(fmt.Sprintf("(assert (=> (<= %s %s) (<= %s %s)))\n(assert (=> (<= %s %s) (<= %s %s)))\n", a, oa, b, ob, oa, a, ob, b))
		// ln a - ln o <= (a-o)/o, up to the rounding of the results
		p.s.AssertRaw(fmt.Sprintf("(assert (=> (and (>= %s 1.0) (>= %s %s)) (<= (* (- %s %s (/ 1.0 1000000000000.0)) %s) (- %s %s))))\n", oa, a, oa, b, ob, oa, a, oa))
		p.s.AssertRaw(fmt.Sprintf("(assert (=> (and (>= %s 1.0) (>= %s %s)) (<= (* (- %s %s (/ 1.0 1000000000000.0)) %s) (- %s %s))))\n", a, oa, a, ob, b, a, oa, a))
		// and >= (a-o)/a
		p.s.AssertRaw(fmt.Sprintf("(assert (=> (and (>= %s 1.0) (>= %s %s)) (>= (* (+ (- %s %s) (/ 1.0 1000000000000.0)) %s) (- %s %s))))\n", oa, a, oa, b, ob, a, a, oa))
		p.s.AssertRaw(fmt.Sprintf("(assert (=> (and (>= %s 1.0) (>= %s %s)) (>= (* (+ (- %s %s) (/ 1.0 1000000000000.0)) %s) (- %s %s))))\n", a, oa, a, ob, b, oa, oa, a))
	}
	p.logs2 = append(p.logs2, [2]string{a, b})
}

func ratLit(r *big.Rat) string {
	if r.Sign() < 0 {
		return "(- " + ratLit(new(big.Rat).Neg(r)) + ")"
	}
	return "(/ " + r.Num().String() + ".0 " + r.Denom().String() + ".0)"
}

func atomicOp(f func(p *Path, g *Gor, a *Value, args []Value) Value) ifn {
	return func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
		if nilCheck(p, g, args[0]) {
			return nil, ctlPanic
		}
		if p.schedPoint(g) {
			return nil, ctlBlock
		}
		a := addrOf(args[0])
		p.atomicEv(g, a)
		return f(p, g, a, args), ctlDone
	}
}

func (p *Path) atomicEv(g *Gor, a interface{}) {
	if p.raceOn && g.id >= 0 {
		e := p.syncOn(g, "atomic", p.lastAtom[a])
		p.lastAtom[a] = e
	}
}

func (p *Path) timeVal() Value {
	// time.Time{wall: nanoseconds, ext: seconds since year 1, loc: nil}
	sec := p.now/1e9 + 63800000000
	return Struct{BV(64, uint64(p.now%1e9)), BV(64, uint64(sec)), (*Value)(nil)}
}

func (p *Path) dur(v Value) int64 {
	t := v.(*Term)
	return sext64(p.concretize(t, 64), 64)
}

func (p *Path) sleepUntil(g *Gor, when int64) {
	t := &timer{when: when, wake: g, proc: g.proc}
	p.addTimer(t)
	g.wait = func() bool { return p.now >= when }
	g.waitWhy = "sleep"
}

func (p *Path) newStruct(t types.Type) *Value {
	v := new(Value)
	*v = zero(t)
	return v
}

func (P *Program) typ(pkg, name string) types.Type {
	pk := P.byPath[pkg]
	if pk == nil || pk.Type(name) == nil {
		panic(engineError("no type " + pkg + "." + name))
	}
	return pk.Type(name).Type()
}

func structField(v *Value, t types.Type, name string) *Value {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &(*v).(Struct)[i]
		}
	}
	panic(engineError("no field " + name))
}

func (p *Path) mkErr(msg *Str) Value {
	v := new(Value)
	*v = Struct{msg}
	return Iface{T: p.P.canonType(p.P.errStr), V: v}
}

// exitProc ends the process of g like os.Exit.
func (p *Path) exitProc(g *Gor, code int, why string) (Value, ctl) {
	pos := p.repoPos(g)
	if pr := p.procs[g.proc]; pr != nil && pr.id != 0 {
		p.endProc(pr, 3, why+" at "+pos)
		return nil, ctlGone
	}
	p.violation("exit", "the process ends: "+why, pos, nil)
	p.abort("exit")
	return nil, ctlGone
}

func init() {
	intrinsics = map[string]ifn{
		"sync.Mutex.Lock": lockF, "sync.Mutex.Unlock": unlockF, "sync.Mutex.TryLock": tryLockF,
		"sync.RWMutex.Lock": lockF, "sync.RWMutex.Unlock": unlockF, "sync.RWMutex.TryLock": tryLockF,
		"sync.RWMutex.TryRLock": tryRLockF,
		"sync.RWMutex.RLock":    rlockF, "sync.RWMutex.RUnlock": runlockF,
		"internal/sync.Mutex.Lock": lockF, "internal/sync.Mutex.Unlock": unlockF, "internal/sync.Mutex.TryLock": tryLockF,
		"sync.WaitGroup.Add": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			if nilCheck(p, g, args[0]) {
				return nil, ctlPanic
			}
			n := args[1].(*Term)
			return nil, wgAdd(p, g, p.wg(addrOf(args[0])), int(sext64(p.concretize(n, 64), 64)))
		},
		"sync.WaitGroup.Done": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			if nilCheck(p, g, args[0]) {
				return nil, ctlPanic
			}
			return nil, wgAdd(p, g, p.wg(addrOf(args[0])), -1)
		},
		"sync.WaitGroup.Wait": wgWaitF,
		"sync.WaitGroup.Go": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			w := p.wg(addrOf(args[0]))
			w.n++
			c := args[1].(*Closure)
			n := p.spawn(g, c, nil, nil)
			bot := n.top
			if bot.native == nil {
				bot.done = func(Value) {
					w.rel = append(w.rel, p.sync(n, "wgdone"))
					w.n--
				}
			}
			return nil, ctlDone
		},
		"sync.NewCond": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			t := p.P.typ("sync", "Cond")
			v := p.newStruct(t)
			*structField(v, t, "L") = args[0]
			return v, ctlDone
		},
		"sync.Cond.Wait": condWaitF,
		"sync.Cond.Signal": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			c := p.cond(addrOf(args[0]))
			for len(c.q) > 0 {
				w := c.q[0]
				c.q = c.q[1:]
				if !w.g.dead {
					w.woken = true
					break
				}
			}
			return nil, ctlDone
		},
		"sync.Cond.Broadcast": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			c := p.cond(addrOf(args[0]))
			for _, w := range c.q {
				w.woken = true
			}
			c.q = nil
			return nil, ctlDone
		},
		"sync.Pool.Put": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			if p.schedPoint(g) {
				return nil, ctlBlock
			}
			a := addrOf(args[0])
			if args[1].(Iface).T != nil {
				p.atomicEv(g, a)
				p.pools[a] = append(p.pools[a], args[1])
			}
			return nil, ctlDone
		},
		"sync.Pool.Get": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			if p.schedPoint(g) {
				return nil, ctlBlock
			}
			a := addrOf(args[0])
			// the value put last is handed out first
			if l := p.pools[a]; len(l) > 0 {
				p.atomicEv(g, a)
				p.pools[a] = l[: len(l)-1 : len(l)-1]
				return l[len(l)-1], ctlDone
			}
			t := p.P.typ("sync", "Pool")
			fn := (*structField(a, t, "New")).(*Closure)
			if fn == nil {
				return Iface{}, ctlDone
			}
			return p.runClosure(fn, nil), ctlDone
		},
		"sync.runtime_registerPoolCleanup": nop, "sync.throw": nop, "sync.fatal": nop,
		"internal/sync.throw": nop, "internal/sync.fatal": nop,
		"sync/atomic.Value.Load": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			if p.schedPoint(g) {
				return nil, ctlBlock
			}
			a := addrOf(args[0])
			p.atomicEv(g, a)
			if v, ok := p.atomVals[a]; ok {
				return v, ctlDone
			}
			return Iface{}, ctlDone
		},
		"sync/atomic.Value.Store": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			if p.schedPoint(g) {
				return nil, ctlBlock
			}
			a := addrOf(args[0])
			if args[1].(Iface).T == nil {
				p.goPanic(g, Iface{T: p.P.canonType(types.Typ[types.String]), V: cstr("sync/atomic: store of nil value into Value")})
				return nil, ctlPanic
			}
			if o, ok := p.atomVals[a]; ok && o.(Iface).T != args[1].(Iface).T {
				p.goPanic(g, Iface{T: p.P.canonType(types.Typ[types.String]), V: cstr("sync/atomic: store of inconsistently typed value into Value")})
				return nil, ctlPanic
			}
			p.atomicEv(g, a)
			p.atomVals[a] = args[1]
			return nil, ctlDone
		},
		"sync/atomic.Value.Swap": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			if p.schedPoint(g) {
				return nil, ctlBlock
			}
			a := addrOf(args[0])
			p.atomicEv(g, a)
			o, ok := p.atomVals[a]
			if !ok {
				o = Iface{}
			}
			p.atomVals[a] = args[1]
			return o, ctlDone
		},
		"sync/atomic.Value.CompareAndSwap": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			if p.schedPoint(g) {
				return nil, ctlBlock
			}
			a := addrOf(args[0])
			p.atomicEv(g, a)
			o, ok := p.atomVals[a]
			if !ok {
				o = Iface{}
			}
			if p.branch(p.eq(o, args[1])) {
				p.atomVals[a] = args[2]
				return tTrue, ctlDone
			}
			return tFalse, ctlDone
		},

		// time
		"time.Now": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) { return p.timeVal(), ctlDone },
		"time.Sleep": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			if g.waitWhy == "slept" {
				if p.now >= g.wakeAt {
					g.waitWhy = ""
					return nil, ctlDone
				}
			}
			d := p.dur(args[0])
			if d <= 0 {
				return nil, ctlDone
			}
			g.wakeAt = p.now + d
			p.sleepUntil(g, g.wakeAt)
			at := g.wakeAt
			g.wait = func() bool {
				if p.now >= at {
					g.waitWhy = "slept"
					return true
				}
				return false
			}
			return nil, ctlBlock
		},
		"time.NewTicker": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			d := p.dur(args[0])
			if d <= 0 {
				p.goPanic(g, Iface{T: p.P.canonType(types.Typ[types.String]), V: cstr("non-positive interval for NewTicker")})
				return nil, ctlPanic
			}
			return p.mkTimer(g, "Ticker", d, d), ctlDone
		},
		"time.NewTimer": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return p.mkTimer(g, "Timer", p.dur(args[0]), 0), ctlDone
		},
		"time.Tick": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			d := p.dur(args[0])
			if d <= 0 {
				return (*Chan)(nil), ctlDone
			}
			ch := p.newChan(1)
			p.addTimer(&timer{when: p.now + d, period: d, ch: ch, proc: g.proc})
			return ch, ctlDone
		},
		"time.After": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			ch := p.newChan(1)
			p.addTimer(&timer{when: p.now + p.dur(args[0]), ch: ch, proc: g.proc})
			return ch, ctlDone
		},
		"time.AfterFunc": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			t := p.P.typ("time", "Timer")
			v := p.newStruct(t)
			tm := &timer{when: p.now + p.dur(args[0]), fn: args[1].(*Closure), proc: g.proc}
			p.addTimer(tm)
			p.timerOf[v] = tm
			return v, ctlDone
		},
		"time.Ticker.Stop":  timerStop,
		"time.Timer.Stop":   timerStop,
		"time.Ticker.Reset": timerReset,
		"time.Timer.Reset":  timerReset,
		"time.runtimeNano":  func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) { return BV(64, uint64(p.now)), ctlDone },
		"time.Since": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return p.runNested(p.P.method(p.P.typ("time", "Time"), "Sub"), []Value{p.timeVal(), args[0]}), ctlDone
		},
		"time.Until": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return p.runNested(p.P.method(p.P.typ("time", "Time"), "Sub"), []Value{args[0], p.timeVal()}), ctlDone
		},

		// process
		"os.Exit": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) { return p.exitProc(g, 1, "os.Exit") },
		"log.Fatalf": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return p.exitProc(g, 1, "log.Fatal: "+p.format(g, args[0].(*Str), sl(args[1])).String())
		},
		"log.Fatal": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return p.exitProc(g, 1, "log.Fatal: "+p.sprint(g, sl(args[0]), false).String())
		},
		"log.Fatalln": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return p.exitProc(g, 1, "log.Fatal: "+p.sprint(g, sl(args[0]), true).String())
		},
		"log.Panicf": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			p.goPanic(g, Iface{T: p.P.canonType(types.Typ[types.String]), V: p.format(g, args[0].(*Str), sl(args[1]))})
			return nil, ctlPanic
		},
		"log.Panic": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			p.goPanic(g, Iface{T: p.P.canonType(types.Typ[types.String]), V: p.sprint(g, sl(args[0]), false)})
			return nil, ctlPanic
		},
		"log.Print": nop, "log.Printf": nop, "log.Println": nop, "log.SetOutput": nop, "log.SetFlags": nop, "log.SetPrefix": nop,
		"fmt.Print": nop, "fmt.Printf": nop, "fmt.Println": nop,
		"fmt.Fprint": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return p.fwrite(args[0], p.sprint(g, sl(args[1]), false)), ctlDone
		},
		"fmt.Fprintln": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return p.fwrite(args[0], concat(p.sprint(g, sl(args[1]), true), cstr("\n"))), ctlDone
		},
		"fmt.Fprintf": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return p.fwrite(args[0], p.format(g, args[1].(*Str), sl(args[2]))), ctlDone
		},
		"fmt.Sprintf": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return p.format(g, args[0].(*Str), sl(args[1])), ctlDone
		},
		"fmt.Sprint": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return p.sprint(g, sl(args[0]), false), ctlDone
		},
		"fmt.Sprintln": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return concat(p.sprint(g, sl(args[0]), true), cstr("\n")), ctlDone
		},
		"fmt.Errorf": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			f := args[0].(*Str)
			msg := p.format(g, f, sl(args[1]))
			if i := strings.Index(f.s, "%w"); i >= 0 {
				n := strings.Count(strings.ReplaceAll(f.s[:i], "%%", ""), "%")
				if n < len(sl(args[1])) {
					v := new(Value)
					*v = Struct{msg, sl(args[1])[n]}
					return Iface{T: p.P.canonType(p.P.wrapErr), V: v}, ctlDone
				}
			}
			return p.mkErr(msg), ctlDone
		},

		// runtime
		"runtime.NumCPU": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return BV(64, uint64(p.numCPU)), ctlDone
		},
		"runtime.GOMAXPROCS": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return BV(64, uint64(p.numCPU)), ctlDone
		},
		"runtime.Gosched": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			if p.schedPoint(g) {
				return nil, ctlBlock
			}
			if !g.yielded && p.nested == 0 {
				// runs again after the others had a turn
				if l := p.enabled(g); len(l) > 0 {
					g.yielded = true
					p.cur = l[0]
					return nil, ctlBlock
				}
			}
			g.yielded = false
			return nil, ctlDone
		},
		"runtime.NumGoroutine": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			n := 0
			for _, x := range p.gs {
				if !x.dead && x.top != nil && x.proc == g.proc {
					n++
				}
			}
			return BV(64, uint64(n)), ctlDone
		},
		"runtime.GC": nop, "runtime.KeepAlive": nop, "runtime.SetFinalizer": nop, "runtime.ReadMemStats": nop, "runtime.Goexit": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			panic(engineError("runtime.Goexit"))
		},
		"runtime.AddCleanup": nop,
		"runtime.Caller":     nop, "runtime.Callers": nop, "runtime/debug.PrintStack": nop, "runtime/debug.SetGCPercent": nop, "runtime/debug.Stack": nop,
		"runtime.errorString.Error": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return concat(cstr("runtime error: "), args[0].(*Str)), ctlDone
		},
		"internal/godebug.New": nop, "internal/godebug.Setting.Value": nop, "internal/godebug.Setting.IncNonDefault": nop, "internal/godebug.Setting.Name": nop,
		"internal/race.Acquire": nop, "internal/race.Release": nop, "internal/race.Disable": nop, "internal/race.Enable": nop, "internal/race.ReleaseMerge": nop,
		"internal/abi.NoEscape": arg0, "strings.noescape": arg0, "internal/abi.Escape": arg0,
		"strings.Builder.copyCheck": nop,
		"strings.Builder.String": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			a := addrOf(args[0])
			p.accessCells(g, structField(a, p.P.typ("strings", "Builder"), "buf"), false)
			return bytesToStr((*structField(a, p.P.typ("strings", "Builder"), "buf")).(Slice)), ctlDone
		},
		"strings.Clone": arg0, "internal/stringslite.Clone": arg0,

		// byte strings
		"internal/bytealg.IndexByteString": indexByte, "internal/bytealg.IndexByte": indexByte,
		"internal/bytealg.LastIndexByteString": lastIndexByte, "internal/bytealg.LastIndexByte": lastIndexByte,
		"internal/bytealg.CountString": countByte, "internal/bytealg.Count": countByte,
		"internal/bytealg.Compare": compareStr, "internal/bytealg.CompareString": compareStr, "internal/bytealg.Equal": equalStr,
		"internal/bytealg.Index": indexStr, "internal/bytealg.IndexString": indexStr, "internal/bytealg.Cutoff": constI(1 << 30),
		"internal/bytealg.MakeNoZero": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			n := int(p.concretize(args[0].(*Term), 64))
			s := make([]Value, n)
			for i := range s {
				s[i] = small8[0]
			}
			return Slice{S: s}, ctlDone
		},
		"strings.Index": indexStr, "strings.IndexByte": indexByte, "strings.LastIndexByte": lastIndexByte, "bytes.Equal": equalStr, "bytes.Compare": compareStr, "strings.Compare": compareStr, "bytes.Index": indexStr, "bytes.IndexByte": indexByte,
		"strings.Contains": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			a, b := asStr(args[0]), asStr(args[1])
			r := tFalse
			for i := 0; i+b.Len() <= a.Len(); i++ {
				r = p.c.Or(r, p.strEq(a.Sub(i, i+b.Len()), b))
			}
			return r, ctlDone
		},

		// numbers
		"math.Log": mathUF("log"), "math.Log1p": mathUF("log1p"), "math.Log2": mathUF("log2"), "math.Log10": mathUF("log10"), "math.Sqrt": mathUF("sqrt"), "math.Exp": mathUF("exp"),
		"math.Floor": mathUF("floor"), "math.Ceil": mathUF("ceil"), "math.Trunc": mathUF("trunc"),
		"math.IsNaN": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return p.c.FUn(OFIsNaN, "", args[0].(*Term)), ctlDone
		},
		"math.IsInf": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			x := args[0].(*Term)
			s := args[1].(*Term)
			t := p.c.FUn(OFIsInf, "", x)
			if s.IsConst() && s.S() > 0 {
				t = p.c.And(t, p.c.FCmp(OFLt, FC(0), x))
			} else if s.IsConst() && s.S() < 0 {
				t = p.c.And(t, p.c.FCmp(OFLt, x, FC(0)))
			}
			return t, ctlDone
		},
		"math.Abs": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			x := args[0].(*Term)
			return p.c.Ite(p.c.FCmp(OFLt, x, FC(0)), p.c.Neg(x), x), ctlDone
		},
		"math.Max": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			x, y := args[0].(*Term), args[1].(*Term)
			return p.c.Ite(p.c.FCmp(OFLt, x, y), y, x), ctlDone
		},
		"math.Min": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			x, y := args[0].(*Term), args[1].(*Term)
			return p.c.Ite(p.c.FCmp(OFLt, y, x), y, x), ctlDone
		},
		"math.Float64bits": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			x := args[0].(*Term)
			if !x.IsConst() {
				panic(engineError("bits of a symbolic float"))
			}
			return BV(64, x.Val), ctlDone
		},
		"math.Float64frombits": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			x := args[0].(*Term)
			if !x.IsConst() {
				panic(engineError("float from symbolic bits"))
			}
			return &Term{Op: OConst, W: WF, Val: x.Val}, ctlDone
		},
		"math.Inf": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			if args[0].(*Term).S() >= 0 {
				return &Term{Op: OConst, W: WF, Val: 0x7FF0000000000000}, ctlDone
			}
			return &Term{Op: OConst, W: WF, Val: 0xFFF0000000000000}, ctlDone
		},
		"math.NaN": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return &Term{Op: OConst, W: WF, Val: 0x7FF8000000000001}, ctlDone
		},
		"math.archLog": mathUF("log"),
		"math.Round":   mathUF("round"), "math.RoundToEven": mathUF("roundeven"),
		"strconv.Itoa": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			t := args[0].(*Term)
			return cstr(strconv.FormatInt(sext64(p.concretize(t, 64), 64), 10)), ctlDone
		},
		"strconv.FormatInt": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			t := args[0].(*Term)
			return cstr(strconv.FormatInt(sext64(p.concretize(t, 64), 64), int(args[1].(*Term).Val))), ctlDone
		},
		"strconv.Quote": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			s := args[0].(*Str)
			if s.conc {
				return cstr(strconv.Quote(s.s)), ctlDone
			}
			p.inexact()
			return concat(concat(cstr("\""), s), cstr("\"")), ctlDone
		},
		"strconv.FormatFloat": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			x := args[0].(*Term)
			if !x.IsConst() {
				panic(engineError("text of a symbolic float"))
			}
			return cstr(strconv.FormatFloat(x.F(), byte(args[1].(*Term).Val), int(args[2].(*Term).S()), int(args[3].(*Term).S()))), ctlDone
		},
		"strconv.AppendFloat": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			x := args[1].(*Term)
			if !x.IsConst() {
				panic(engineError("text of a symbolic float"))
			}
			f := strconv.FormatFloat(x.F(), byte(args[2].(*Term).Val), int(args[3].(*Term).S()), int(args[4].(*Term).S()))
			return appendStr(args[0], cstr(f)), ctlDone
		},
		"fmt.Append": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return appendStr(args[0], p.sprint(g, sl(args[1]), false)), ctlDone
		},
		"fmt.Appendln": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return appendStr(args[0], concat(p.sprint(g, sl(args[1]), true), cstr("\n"))), ctlDone
		},
		"fmt.Appendf": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return appendStr(args[0], p.format(g, args[1].(*Str), sl(args[2]))), ctlDone
		},
		"slices.overlaps": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			a, b := sl(args[0]), sl(args[1])
			for i := range a {
				for j := range b {
					if &a[i] == &b[j] {
						return tTrue, ctlDone
					}
				}
			}
			return tFalse, ctlDone
		},
		"slices.startIdx": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			a, b := sl(args[0]), sl(args[1])
			for i := range a {
				if &a[i] == &b[0] {
					return BV(64, uint64(i)), ctlDone
				}
			}
			panic(engineError("slices.startIdx"))
		},
		"maps.clone": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			x := args[0].(Iface)
			m, _ := x.V.(*Map)
			if m == nil {
				return x, ctlDone
			}
			p.access(g, m, false)
			n := p.newMap()
			for _, e := range m.ents {
				if !e.dead {
					p.mapSet(n, e.k, e.v)
				}
			}
			return Iface{T: x.T, V: n}, ctlDone
		},
		"math/bits.TrailingZeros64": nil, // removed below: interpreted
		"reflect.DeepEqual": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return p.deepEq(args[0], args[1], 0), ctlDone
		},
		"github.com/google/uuid.New": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			p.uuid++
			a := make(Array, 16)
			for i := range a {
				a[i] = small8[0]
			}
			a[14], a[15] = BV(8, uint64(p.uuid>>8)), BV(8, uint64(p.uuid))
			return a, ctlDone
		},
		"github.com/google/uuid.NewString": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			p.uuid++
			return cstr(fmt.Sprintf("00000000-0000-4000-8000-%012x", p.uuid)), ctlDone
		},
		"github.com/google/uuid.NewRandom": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			p.uuid++
			a := make(Array, 16)
			for i := range a {
				a[i] = small8[0]
			}
			a[14], a[15] = BV(8, uint64(p.uuid>>8)), BV(8, uint64(p.uuid))
			return Tuple{a, Iface{}}, ctlDone
		},
		"github.com/google/uuid.UUID.String": func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			b := make([]byte, 16)
			for i, v := range args[0].(Array) {
				b[i] = byte(v.(*Term).Val)
			}
			return cstr(fmt.Sprintf("%x-%x-%x-%x-%x", b[0:4], b[4:6], b[6:8], b[8:10], b[10:])), ctlDone
		},
		"unique.Make": nil,
	}
	delete(intrinsics, "math/bits.TrailingZeros64")
	delete(intrinsics, "unique.Make")
	for _, n := range []string{"Print", "Printf", "Println", "SetOutput", "SetFlags", "SetPrefix", "Output"} {
		intrinsics["log.Logger."+n] = nop
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln", "Panic", "Panicf"} {
		f := intrinsics["log."+n]
		intrinsics["log.Logger."+n] = func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) { return f(p, g, ci, args[1:]) }
	}
	intrinsics["log.New"], intrinsics["log.Default"], intrinsics["log.Output"] = nop, nop, nop
	for _, n := range []string{"Debug", "Info", "Warn", "Error", "Log", "LogAttrs", "DebugContext", "InfoContext", "WarnContext", "ErrorContext", "With", "WithGroup"} {
		intrinsics["log/slog."+n], intrinsics["log/slog.Logger."+n] = nop, nop
	}
	intrinsics["log/slog.Default"] = nop
	for name, f := range map[string]func(float64) float64{"Cbrt": math.Cbrt, "Exp2": math.Exp2, "Expm1": math.Expm1, "Tanh": math.Tanh, "Sin": math.Sin, "Cos": math.Cos, "Atan": math.Atan} {
		intrinsics["math."+name] = func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			x := args[0].(*Term)
			if !x.IsConst() {
				panic(engineError("math function of a symbolic float"))
			}
			return FC(f(x.F())), ctlDone
		}
	}
	for name, f := range map[string]func(a, b float64) float64{"Pow": math.Pow, "Mod": math.Mod, "Hypot": math.Hypot, "Copysign": math.Copysign, "Atan2": math.Atan2, "Remainder": math.Remainder, "Nextafter": math.Nextafter, "Dim": math.Dim} {
		intrinsics["math."+name] = func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			x, y := args[0].(*Term), args[1].(*Term)
			if x.IsConst() && y.IsConst() {
				return FC(f(x.F(), y.F())), ctlDone
			}
			if name == "Pow" && y.IsConst() {
				switch y.F() {
				case 1:
					return x, ctlDone
				case 2:
					return p.c.FBin(OFMul, x, x), ctlDone
				case 0.5:
					return mathUF("sqrt")(p, g, ci, args[:1])
				}
			}
			panic(engineError("math function of a symbolic float"))
		}
	}
	for _, s := range []string{"Int32", "Uint32", "Int64", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+s] = atomicOp(func(p *Path, g *Gor, a *Value, args []Value) Value { return *a })
		intrinsics["sync/atomic.Store"+s] = atomicOp(func(p *Path, g *Gor, a *Value, args []Value) Value { *a = args[1]; return nil })
		intrinsics["sync/atomic.Swap"+s] = atomicOp(func(p *Path, g *Gor, a *Value, args []Value) Value {
			o := *a
			*a = args[1]
			return o
		})
		intrinsics["sync/atomic.Add"+s] = atomicOp(func(p *Path, g *Gor, a *Value, args []Value) Value {
			*a = p.c.Bin(OAdd, (*a).(*Term), args[1].(*Term))
			return *a
		})
		intrinsics["sync/atomic.And"+s] = atomicOp(func(p *Path, g *Gor, a *Value, args []Value) Value {
			o := *a
			*a = p.c.Bin(OBAnd, (*a).(*Term), args[1].(*Term))
			return o
		})
		intrinsics["sync/atomic.Or"+s] = atomicOp(func(p *Path, g *Gor, a *Value, args []Value) Value {
			o := *a
			*a = p.c.Bin(OBOr, (*a).(*Term), args[1].(*Term))
			return o
		})
		intrinsics["sync/atomic.CompareAndSwap"+s] = atomicOp(func(p *Path, g *Gor, a *Value, args []Value) Value {
			if p.branch(p.eq(*a, args[1])) {
				*a = args[2]
				return tTrue
			}
			return tFalse
		})
	}
}

func appendStr(dst Value, s *Str) Value {
	d, b := dst.(Slice), strToSlice(s)
	out := make([]Value, 0, len(d.S)+len(b.S))
	out = append(append(out, d.S...), b.S...)
	return Slice{S: out}
}

func (p *Path) cond(a *Value) *condState {
	c := p.conds[a]
	if c == nil {
		c = &condState{}
		p.conds[a] = c
	}
	return c
}

func condWaitF(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	a := addrOf(args[0])
	c := p.cond(a)
	lk := (*structField(a, p.P.typ("sync", "Cond"), "L")).(Iface)
	lock := func(name string) ctl {
		fn := p.P.method(lk.T.(*types.Pointer).Elem(), name)
		in := p.P.redirect(fn).in
		if in == nil {
			panic(engineError("sync.Cond over a user-defined Locker"))
		}
		_, ct := in.f(p, g, &callInfo{fn: fn, ret: -1}, []Value{lk.V})
		return ct
	}
	if g.condW == nil {
		w := &condWait{g: g}
		c.q = append(c.q, w)
		g.condW = w
		lock("Unlock")
		g.wait = func() bool { return w.woken }
		g.waitWhy = "Cond.Wait"
		return nil, ctlBlock
	}
	if ct := lock("Lock"); ct != ctlDone {
		return nil, ct
	}
	g.condW = nil
	return nil, ctlDone
}

func (p *Path) mkTimer(g *Gor, kind string, d, period int64) Value {
	t := p.P.typ("time", kind)
	v := p.newStruct(t)
	ch := p.newChan(1)
	ch.timer = true
	*structField(v, t, "C") = ch
	tm := &timer{when: p.now + d, period: period, ch: ch, proc: g.proc}
	p.addTimer(tm)
	p.timerOf[v] = tm
	return v
}

func timerStop(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	tm := p.timerOf[addrOf(args[0])]
	act := false
	if tm != nil {
		for _, x := range p.timers {
			act = act || x == tm
		}
		p.dropTimer(tm)
	}
	if ci.fn.Signature.Results().Len() == 0 {
		return nil, ctlDone
	}
	return Bool(act), ctlDone
}

func timerReset(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	tm := p.timerOf[addrOf(args[0])]
	act := false
	if tm != nil {
		for _, x := range p.timers {
			act = act || x == tm
		}
		p.dropTimer(tm)
		d := p.dur(args[1])
		tm.when = p.now + d
		if tm.period > 0 {
			tm.period = d
		}
		p.addTimer(tm)
	}
	if ci.fn.Signature.Results().Len() == 0 {
		return nil, ctlDone
	}
	return Bool(act), ctlDone
}

// runClosure runs a function value to completion without scheduling.
func (p *Path) runClosure(c *Closure, args []Value) Value {
	fn, env, in := p.resolve(c, nil)
	if in != nil {
		v, ct := in.f(p, p.cur, &callInfo{fn: fn, ret: -1}, args)
		if ct != ctlDone {
			panic(engineError("callback blocks"))
		}
		return v
	}
	return p.runNestedC(&Closure{Fn: fn, Env: env}, args)
}

// fwrite is w.Write of a formatted string.
func (p *Path) fwrite(w Value, s *Str) Value {
	x, ok := w.(Iface)
	if !ok || x.T == nil {
		panic(engineError("write to a nil writer"))
	}
	fn := p.P.lookup(x.T, "Write")
	if fn == nil {
		panic(engineError("writer without Write"))
	}
	return p.runClosure(&Closure{Fn: fn}, []Value{x.V, strToSlice(s)})
}

// deepEq is reflect.DeepEqual as a term.
func (p *Path) deepEq(x, y Value, d int) *Term {
	if d > 20 {
		panic(engineError("DeepEqual recursion"))
	}
	switch a := x.(type) {
	case Iface:
		b := y.(Iface)
		if a.T == nil || b.T == nil {
			return Bool(a.T == nil && b.T == nil)
		}
		if a.T != b.T {
			return tFalse
		}
		return p.deepEq(a.V, b.V, d+1)
	case Struct:
		b := y.(Struct)
		r := tTrue
		for i := range a {
			r = p.c.And(r, p.deepEq(a[i], b[i], d+1))
		}
		return r
	case Array:
		b := y.(Array)
		r := tTrue
		for i := range a {
			r = p.c.And(r, p.deepEq(a[i], b[i], d+1))
		}
		return r
	case Slice:
		b := y.(Slice)
		if a.Nil != b.Nil || len(a.S) != len(b.S) {
			return tFalse
		}
		r := tTrue
		for i := range a.S {
			r = p.c.And(r, p.deepEq(a.S[i], b.S[i], d+1))
		}
		return r
	case *Map:
		b := y.(*Map)
		if a == nil || b == nil {
			return Bool(a == b)
		}
		if a == b {
			return tTrue
		}
		if a.live != b.live {
			return tFalse
		}
		r := tTrue
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			o := p.mapFind(b, e.k)
			if o == nil {
				return tFalse
			}
			r = p.c.And(r, p.deepEq(e.v, o.v, d+1))
		}
		return r
	case *Value:
		b, ok := y.(*Value)
		if !ok || a == nil || b == nil || a == b {
			return Bool(ok && a == b)
		}
		return p.deepEq(*a, *b, d+1)
	case *Closure:
		b := y.(*Closure)
		return Bool(a == nil && b == nil)
	}
	return p.eq(x, y)
}
