package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type ssaFn = ssa.Function

// symAPI implements the functions of the sym package.
var symAPI map[string]ifn

func cname(v Value) string {
	s := v.(*Str)
	if !s.conc {
		panic(engineError("symbolic name"))
	}
	return s.s
}

func cint(p *Path, v Value) int {
	t := v.(*Term)
	return int(sext64(p.concretize(t, 64), t.W))
}

func init() {
	symAPI = map[string]ifn{
		"Engine": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) { return tTrue, ctlDone },
		"Deep": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			return Bool(p.W.ex.thorough), ctlDone
		},
		"Bool": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			return p.fresh(cname(a[0]), 0, "bool"), ctlDone
		},
		"Byte": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			return p.fresh(cname(a[0]), 8, "byte"), ctlDone
		},
		"Int": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			return p.fresh(cname(a[0]), 64, "int"), ctlDone
		},
		"Int32": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			return p.fresh(cname(a[0]), 32, "int32"), ctlDone
		},
		"IntRange": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			t := p.fresh(cname(a[0]), 64, "int")
			if lo, hi := a[1].(*Term), a[2].(*Term); lo.IsConst() && hi.IsConst() {
				p.s.rng[t] = [2]int64{lo.S(), hi.S()}
			}
			p.Assume(p.c.And(p.c.Cmp(OSle, a[1].(*Term), t), p.c.Cmp(OSle, t, a[2].(*Term))))
			return t, ctlDone
		},
		"Float": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			return p.fresh(cname(a[0]), WF, "float"), ctlDone
		},
		"String": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			n := cint(p, a[1])
			b := make([]*Term, n)
			for i := range b {
				b[i] = p.fresh(fmt.Sprintf("%s[%d]", cname(a[0]), i), 8, "byte")
			}
			return mkStr(b), ctlDone
		},
		"Choose": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			n := cint(p, a[1])
			k := p.choose(n)
			name := cname(a[0])
			c := p.nameN[name]
			p.nameN[name] = c + 1
			if c > 0 {
				name = fmt.Sprintf("%s#%d", name, c)
			}
			p.nondets = append(p.nondets, nondet{name, BV(64, uint64(k)), "choose"})
			return BV(64, uint64(k)), ctlDone
		},
		"Concretize": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			t := a[0].(*Term)
			return BV(64, p.concretize(t, 1024)), ctlDone
		},
		"Assume": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			p.Assume(a[0].(*Term))
			return nil, ctlDone
		},
		"Assert": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			p.Assert(a[0].(*Term), cname(a[1]), p.callerPos(g))
			return nil, ctlDone
		},
		"Reach": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			p.reached[cname(a[0])]++
			return nil, ctlDone
		},
		"And": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			r := tTrue
			for _, x := range sl(a[0]) {
				r = p.c.And(r, x.(*Term))
			}
			return r, ctlDone
		},
		"Or": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			r := tFalse
			for _, x := range sl(a[0]) {
				r = p.c.Or(r, x.(*Term))
			}
			return r, ctlDone
		},
		"Not": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) { return p.c.Not(a[0].(*Term)), ctlDone },
		"Implies": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			return p.c.Or(p.c.Not(a[0].(*Term)), a[1].(*Term)), ctlDone
		},
		"Iff": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			return p.c.Eq(a[0].(*Term), a[1].(*Term)), ctlDone
		},
		"IteInt": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			return p.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)), ctlDone
		},
		"IteByte": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			return p.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)), ctlDone
		},
		"CountInt": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			r := BV(64, 0)
			for _, x := range sl(a[0]) {
				r = p.c.Bin(OAdd, r, p.c.Ite(x.(*Term), BV(64, 1), BV(64, 0)))
			}
			return r, ctlDone
		},
		"Explore": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			p.expl = true
			p.delayMax = cint(p, a[0]) + p.delays
			return nil, ctlDone
		},
		"StopExplore": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			p.expl = false
			for _, x := range p.gs {
				x.skipSP = false
			}
			return nil, ctlDone
		},
		"EarlyTimers": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			p.tick = a[0].(*Term).Val == 1
			return nil, ctlDone
		},
		"MapOrders": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			p.mapPerm = a[0].(*Term).Val == 1
			return nil, ctlDone
		},
		"Races": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			p.raceOn = a[0].(*Term).Val == 1
			return nil, ctlDone
		},
		"SetCPUs": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			p.numCPU = cint(p, a[0])
			return nil, ctlDone
		},
		"Yield": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			if p.schedPoint(g) {
				return nil, ctlBlock
			}
			return nil, ctlDone
		},
		"Now": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) { return BV(64, uint64(p.now)), ctlDone },
		"Goroutines": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			n := 0
			for _, x := range p.gs {
				if x != g && !x.dead && x.top != nil && x.proc == g.proc {
					n++
				}
			}
			return BV(64, uint64(n)), ctlDone
		},
		"Quiesce": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			// waits until no other goroutine can run
			if p.nested > 0 {
				return nil, ctlDone
			}
			for _, x := range p.gs {
				if x != g && x.proc == g.proc && p.runnable(x) && x.waitWhy != "quiesce" {
					g.waitWhy = "quiesce"
					g.wait = func() bool {
						for _, x := range p.gs {
							if x != g && x.proc == g.proc && x.waitWhy != "quiesce" && p.runnable(x) {
								return false
							}
						}
						return true
					}
					return nil, ctlBlock
				}
			}
			g.waitWhy = ""
			return nil, ctlDone
		},
		// Process runs f as a process of its own and says how it ended: 1 returned, 2 crashed, 3 exited, 4 panicked.
		"Process": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			if g.sub == nil {
				p.nextProc++
				pr := &proc{id: p.nextProc, armed: a[1].(*Term).Val == 1}
				p.procs[pr.id] = pr
				g.sub = pr
				n := &Gor{id: len(p.gs), proc: pr.id, isMain: true}
				ev := p.sync(g, "go")
				p.gs = append(p.gs, n)
				p.startEv(n, ev)
				p.pushFrame(n, a[0].(*Closure), nil, -1, func(Value) {
					p.endProc(pr, 1, "")
				})
				p.mainIdle = 0
				g.wait = func() bool { return pr.outcome != 0 }
				g.waitWhy = "process"
				return nil, ctlBlock
			}
			pr := g.sub
			if pr.outcome == 0 {
				g.wait = func() bool { return pr.outcome != 0 }
				return nil, ctlBlock
			}
			g.sub = nil
			return BV(64, uint64(pr.outcome)), ctlDone
		},
		"ProcessDetail": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			if pr := p.procs[p.nextProc]; pr != nil {
				return cstr(pr.detail), ctlDone
			}
			return emptyStr, ctlDone
		},
		// CrashHere is a point at which an armed process may be killed; it reports whether it is.
		"CrashHere": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			pr := p.procs[g.proc]
			if p.nested > 0 || pr == nil || !pr.armed {
				return tFalse, ctlDone
			}
			what := asStr(a[0])
			k := what.String()
			p.crashN[k]++
			if p.choose(2) == 1 {
				p.crashAt, p.crashK = k, p.crashN[k]
				return tTrue, ctlDone
			}
			return tFalse, ctlDone
		},
		// Partial says how much of an interrupted write is on disk: 0 nothing, 1 half, 2 all.
		"Partial": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			p.partial = p.choose(2)
			return BV(64, uint64(p.partial)), ctlDone
		},
		"Exit": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			return p.exitProc(g, 1, "os.Exit")
		},
		"AtomicPoint": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			if p.schedPoint(g) {
				return nil, ctlBlock
			}
			if x, ok := a[0].(Iface).V.(*Value); ok {
				p.atomicEv(g, x)
			}
			return nil, ctlDone
		},
		"SideTable": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			// a map kept in the first field of the struct, so that it is copied and cleared with it
			st := (*a[0].(Iface).V.(*Value)).(Struct)
			m, ok := st[0].(*Map)
			if !ok || m == nil {
				m = p.newMap()
				st[0] = m
			}
			return m, ctlDone
		},
		"Comparable": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			return Bool(types.Comparable(a[0].(Iface).T)), ctlDone
		},
		"AsTarget": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			e, t := a[0].(Iface), a[1].(Iface)
			pt, ok := t.T.Underlying().(*types.Pointer)
			if e.T == nil || !ok {
				return tFalse, ctlDone
			}
			if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
				if !types.Implements(e.T, it) {
					return tFalse, ctlDone
				}
				*addrOf(t.V) = e
				return tTrue, ctlDone
			}
			if !types.Identical(e.T, pt.Elem()) {
				return tFalse, ctlDone
			}
			*addrOf(t.V) = copyVal(e.V)
			return tTrue, ctlDone
		},
		"Crash": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			pr := p.procs[g.proc]
			if pr == nil {
				panic(engineError("crash outside a process"))
			}
			p.logs = append(p.logs, "crash at "+p.repoPos(g))
			p.endProc(pr, 2, "crash")
			return nil, ctlGone
		},
		"Arm": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			if pr := p.procs[g.proc]; pr != nil {
				pr.armed = a[0].(*Term).Val == 1
			}
			return nil, ctlDone
		},
		"Log": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			if len(p.logs) < 200 {
				p.logs = append(p.logs, p.sprint(g, sl(a[0]), true).String())
			}
			return nil, ctlDone
		},
		"Fail": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			p.Assert(tFalse, cname(a[0]), p.callerPos(g))
			return nil, ctlDone
		},
		"Unsupported": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			panic(engineError("environment model does not cover: " + cname(a[0])))
		},
		"LenOf": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			return BV(64, uint64(len(a[0].(Iface).V.(Slice).S))), ctlDone
		},
		"SwapOf": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			s := a[0].(Iface).V.(Slice).S
			i, j := cint(p, a[1]), cint(p, a[2])
			x, y := copyVal(s[i]), copyVal(s[j])
			storeInto(&s[i], y)
			storeInto(&s[j], x)
			p.accessCells(g, &s[i], true)
			p.accessCells(g, &s[j], true)
			return nil, ctlDone
		},
		// SameFloat is bitwise sameness as far as the float encoding goes (uninterpreted operations included).
		"SameFloat": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			x, y := a[0].(*Term), a[1].(*Term)
			if sameTerm(x, y) {
				return tTrue, ctlDone
			}
			return p.c.Eq(x, y), ctlDone
		},
		"TempRoot": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) { return cstr("/data"), ctlDone },
		"TypeName": func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
			return cstr(types.TypeString(a[0].(Iface).T, nil)), ctlDone
		},
	}
}

// callerPos is the position of the innermost frame, which is the harness line that called the sym function.
func (p *Path) callerPos(g *Gor) string { return p.posOf(g) }
