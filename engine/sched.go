package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Chan is a channel.
type Chan struct {
	id     int
	cap    int
	buf    []Value
	bufEv  []*event // send events of buffered values
	closed bool
	closeE *event
	recvq  []*waiter
	sendq  []*waiter
	lastRv []*event // receive events, for the capacity edge
	nsent  int
	timer  bool
}

// waiter is a goroutine parked on a channel.
type waiter struct {
	g    *Gor
	f    *frame
	sel  *selWait
	idx  int // case index
	val  Value
	dst  int
	ok   bool // comma-ok receive
	elem types.Type
	ev   *event
}

type selWait struct {
	done bool
	in   *ssa.Select
	ci   *cinstr
}

func (w *waiter) stale() bool { return w.g.dead || w.sel != nil && w.sel.done }

type timer struct {
	when   int64
	period int64
	ch     *Chan
	fn     *Closure
	wake   *Gor
	proc   int
	seq    int
	off    bool
}

type mutexState struct {
	w       *Gor
	r       int
	readers map[*Gor]int
	waiting map[*Gor]bool
	rel     []*event // release events
	wrel    *event
	id      int
}

type wgState struct {
	n    int
	rel  []*event
	id   int
	wait int
}

type condState struct {
	q []*condWait
}

type condWait struct {
	g     *Gor
	woken bool
}

func (p *Path) newChan(n int) *Chan {
	p.nextID++
	return &Chan{id: p.nextID, cap: n}
}

func (p *Path) spawn(g *Gor, c *Closure, args []Value, cs *callSite) *Gor {
	p.nextID++
	n := &Gor{id: len(p.gs), proc: g.proc}
	ev := p.sync(g, "go")
	n.vcLast = nil
	p.gs = append(p.gs, n)
	p.startEv(n, ev)
	fn, env, in := p.resolve(c, cs)
	if in != nil {
		n.top = &frame{native: &nativeCall{in: in, args: args, fn: fn, cs: cs}, ret: -1}
	} else {
		p.pushFrame(n, &Closure{Fn: fn, Env: env}, args, -1, nil)
	}
	return n
}

func (p *Path) runnable(g *Gor) bool {
	if g.dead || g.top == nil || g.parked {
		return false
	}
	return g.wait == nil || g.wait()
}

// enabled lists the goroutines that can run, in round-robin order after g.
func (p *Path) enabled(g *Gor) []*Gor {
	var l []*Gor
	k := 0
	if g != nil && g.id >= 0 {
		k = g.id + 1
	}
	n := len(p.gs)
	for i := 0; i < n; i++ {
		x := p.gs[(k+i)%n]
		if x != g && p.runnable(x) {
			l = append(l, x)
		}
	}
	return l
}

// schedPoint lets another goroutine run before a visible operation of g; true means g was preempted.
func (p *Path) schedPoint(g *Gor) bool {
	if !p.expl || p.nested > 0 {
		return false
	}
	if g.skipSP {
		g.skipSP = false
		return false
	}
	rem := p.delayMax - p.delays
	if rem <= 0 {
		return false
	}
	l := p.enabled(g)
	n := len(l)
	if n > rem {
		n = rem
	}
	ticks := 0
	if p.tick && p.nextTimer() != nil {
		ticks = 1
	}
	if n+ticks == 0 {
		return false
	}
	c := p.choose(1 + n + ticks)
	if c == 0 {
		return false
	}
	g.skipSP = true
	if c <= n {
		p.delays += c
		p.cur = l[c-1]
		return true
	}
	p.delays++
	p.fireNext()
	// the woken goroutine runs first
	l = p.enabled(g)
	if len(l) == 0 {
		g.skipSP = false
		return false
	}
	p.cur = l[p.choose(len(l))]
	return true
}

// pickNext chooses the goroutine to run when the current one cannot.
func (p *Path) pickNext() {
	for {
		l := p.enabled(p.cur)
		if p.cur != nil && p.runnable(p.cur) {
			l = append(l, p.cur)
		}
		if len(l) > 0 {
			n := len(l)
			c := 0
			if p.expl {
				rem := p.delayMax - p.delays
				if n > rem+1 {
					n = rem + 1
				}
				if n > 1 {
					c = p.choose(n)
					p.delays += c
				}
			}
			p.cur = l[c]
			return
		}
		if p.nextTimer() == nil {
			p.deadlock("every goroutine is blocked")
		}
		if p.mainIdle == 0 {
			p.mainIdle = p.now + 1
		}
		if p.now-p.mainIdle > int64(3600e9) && !p.sleeping(p.main) {
			p.deadlock("the main goroutine is blocked for good; only timers still run")
		}
		p.fireNext()
		// timers that are due at the same moment go off together
		for p.expl {
			t := p.nextTimer()
			if t == nil || t.when > p.now {
				break
			}
			p.fireNext()
		}
	}
}

func (p *Path) sleeping(g *Gor) bool { return g.wait != nil && g.waitWhy == "sleep" }

func (p *Path) deadlock(why string) {
	d := why
	for _, g := range p.gs {
		if !g.dead && g.top != nil {
			d += fmt.Sprintf("; goroutine %d at %s", g.id, p.repoPos(g))
		}
	}
	w := "?"
	if p.main.top != nil {
		w = p.repoPos(p.main)
	}
	p.violation("deadlock", d, w, nil)
	p.abort("deadlock")
}

func (p *Path) nextTimer() *timer {
	var b *timer
	for _, t := range p.timers {
		if t.off {
			continue
		}
		if b == nil || t.when < b.when || t.when == b.when && t.seq < b.seq {
			b = t
		}
	}
	return b
}

func (p *Path) addTimer(t *timer) {
	p.seq++
	t.seq = p.seq
	p.timers = append(p.timers, t)
}

func (p *Path) dropTimer(t *timer) {
	for i, x := range p.timers {
		if x == t {
			p.timers = append(append([]*timer{}, p.timers[:i]...), p.timers[i+1:]...)
			return
		}
	}
}

func (p *Path) fireNext() {
	t := p.nextTimer()
	if t == nil {
		return
	}
	if t.when > p.now {
		p.now = t.when
	}
	if t.period > 0 {
		t.when += t.period
		p.seq++
		t.seq = p.seq
	} else {
		p.dropTimer(t)
	}
	switch {
	case t.ch != nil:
		// the channel of a timer holds at most one tick
		if w := popWaiter(&t.ch.recvq); w != nil {
			p.completeRecv(w, p.timeVal(), true, nil)
		} else if len(t.ch.buf) == 0 {
			t.ch.buf = append(t.ch.buf, p.timeVal())
			t.ch.bufEv = append(t.ch.bufEv, nil)
		}
	case t.fn != nil:
		n := &Gor{id: len(p.gs), proc: t.proc}
		p.gs = append(p.gs, n)
		p.startEv(n, nil)
		p.pushFrame(n, t.fn, nil, -1, nil)
	}
}

// ---- channel operations ----

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.stale() {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.stale() {
			return true
		}
	}
	return false
}

func (p *Path) park(g *Gor, why string) {
	g.parked = true
	g.waitWhy = why
}

// completeRecv finishes the receive a goroutine is parked on.
func (p *Path) completeRecv(w *waiter, v Value, ok bool, sendEv *event) {
	g := w.g
	g.parked = false
	rv := p.syncOn(g, "recv", sendEv)
	_ = rv
	if w.sel != nil {
		w.sel.done = true
		p.selResult(w.f, w.sel.ci, w.sel.in, w.idx, v, ok)
		w.f.pc++
		return
	}
	if w.dst >= 0 {
		if w.ok {
			w.f.env[w.dst] = Tuple{v, Bool(ok)}
		} else {
			w.f.env[w.dst] = v
		}
	}
	w.f.pc++
}

// completeSend finishes the send a goroutine is parked on.
func (p *Path) completeSend(w *waiter) {
	w.g.parked = false
	if w.sel != nil {
		w.sel.done = true
		p.selResult(w.f, w.sel.ci, w.sel.in, w.idx, nil, false)
	}
	w.f.pc++
}

func (p *Path) chanSend(g *Gor, f *frame, ch *Chan, v Value) {
	if ch == nil {
		p.park(g, "send on nil channel")
		return
	}
	if ch.closed {
		p.rtPanic(g, "send on closed channel")
		return
	}
	if w := popWaiter(&ch.recvq); w != nil {
		ev := p.sync(g, "send")
		p.completeRecv(w, copyVal(v), true, ev)
		if ch.cap == 0 {
			p.syncOn(g, "sent", w.g.vcLast)
		}
		f.pc++
		return
	}
	if len(ch.buf) < ch.cap {
		var prev *event
		if k := ch.nsent - ch.cap; k >= 0 && k < len(ch.lastRv) {
			prev = ch.lastRv[k]
		}
		ev := p.syncOn(g, "send", prev)
		ch.nsent++
		ch.buf = append(ch.buf, copyVal(v))
		ch.bufEv = append(ch.bufEv, ev)
		f.pc++
		return
	}
	ch.sendq = append(ch.sendq, &waiter{g: g, f: f, val: copyVal(v), ev: p.sync(g, "send")})
	p.park(g, "send")
}

// takeRecv receives without blocking; the third result tells whether it could.
func (p *Path) takeRecv(g *Gor, ch *Chan, elem types.Type) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		v, ev := ch.buf[0], ch.bufEv[0]
		ch.buf, ch.bufEv = ch.buf[1:], ch.bufEv[1:]
		rv := p.syncOn(g, "recv", ev)
		ch.lastRv = append(ch.lastRv, rv)
		if w := popWaiter(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			ch.bufEv = append(ch.bufEv, w.ev)
			ch.nsent++
			p.syncOn(w.g, "sent", rv)
			p.completeSend(w)
		}
		return v, true, true
	}
	if w := popWaiter(&ch.sendq); w != nil {
		rv := p.syncOn(g, "recv", w.ev)
		p.syncOn(w.g, "sent", rv)
		p.completeSend(w)
		return w.val, true, true
	}
	if ch.closed {
		p.syncOn(g, "recv", ch.closeE)
		return zero(elem), false, true
	}
	return nil, false, false
}

func (p *Path) chanRecv(g *Gor, f *frame, dst int, ch *Chan, commaOk bool) {
	if ch == nil {
		p.park(g, "receive on nil channel")
		return
	}
	elem := chanElem(f.fi.blocks[f.blk][f.pc].ins)
	v, ok, done := p.takeRecv(g, ch, elem)
	if done {
		if commaOk {
			v = Tuple{v, Bool(ok)}
		}
		f.env[dst] = v
		f.pc++
		return
	}
	ch.recvq = append(ch.recvq, &waiter{g: g, f: f, dst: dst, ok: commaOk, elem: elem})
	p.park(g, "receive")
}

func chanElem(in ssa.Instruction) types.Type {
	u := in.(*ssa.UnOp)
	return u.X.Type().Underlying().(*types.Chan).Elem()
}

func (p *Path) chanClose(g *Gor, ch *Chan) {
	ch.closed = true
	ch.closeE = p.sync(g, "close")
	for {
		w := popWaiter(&ch.recvq)
		if w == nil {
			break
		}
		p.completeRecv(w, zero(w.elem), false, ch.closeE)
	}
	for {
		w := popWaiter(&ch.sendq)
		if w == nil {
			break
		}
		if w.sel != nil {
			w.sel.done = true
		}
		w.g.parked = false
		old := p.cur
		p.cur = w.g
		p.rtPanic(w.g, "send on closed channel")
		p.cur = old
	}
}

func (p *Path) selResult(f *frame, ci *cinstr, in *ssa.Select, idx int, v Value, ok bool) {
	t := Tuple{BV(64, uint64(int64(idx))), Bool(ok)}
	for i, st := range in.States {
		if st.Dir == types.RecvOnly {
			if i == idx {
				t = append(t, v)
			} else {
				t = append(t, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	f.env[ci.dst] = t
}

func (p *Path) selectOp(g *Gor, f *frame, ci *cinstr, in *ssa.Select) {
	var ready []int
	for i, st := range in.States {
		ch, _ := p.val(f, &ci.ops[2*i]).(*Chan)
		if ch == nil {
			continue
		}
		if st.Dir == types.SendOnly {
			if ch.closed || hasWaiter(ch.recvq) || len(ch.buf) < ch.cap {
				ready = append(ready, i)
			}
		} else if len(ch.buf) > 0 || hasWaiter(ch.sendq) || ch.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		c := 0
		if len(ready) > 1 && p.expl && p.delays < p.delayMax {
			c = p.choose(len(ready))
			if c > 0 {
				p.delays++
			}
		}
		i := ready[c]
		st := in.States[i]
		ch := p.val(f, &ci.ops[2*i]).(*Chan)
		if st.Dir == types.SendOnly {
			v := p.val(f, &ci.ops[2*i+1])
			p.selResult(f, ci, in, i, nil, false)
			p.chanSend(g, f, ch, v)
			return
		}
		v, ok, _ := p.takeRecv(g, ch, st.Chan.Type().Underlying().(*types.Chan).Elem())
		p.selResult(f, ci, in, i, v, ok)
		f.pc++
		return
	}
	if !in.Blocking {
		p.selResult(f, ci, in, -1, nil, false)
		f.pc++
		return
	}
	sw := &selWait{in: in, ci: ci}
	for i, st := range in.States {
		ch, _ := p.val(f, &ci.ops[2*i]).(*Chan)
		if ch == nil {
			continue
		}
		w := &waiter{g: g, f: f, sel: sw, idx: i}
		if st.Dir == types.SendOnly {
			w.val = copyVal(p.val(f, &ci.ops[2*i+1]))
			w.ev = p.sync(g, "send")
			ch.sendq = append(ch.sendq, w)
		} else {
			w.elem = st.Chan.Type().Underlying().(*types.Chan).Elem()
			ch.recvq = append(ch.recvq, w)
		}
	}
	p.park(g, "select")
}

// ---- locks ----

func (p *Path) mutex(a *Value) *mutexState {
	m := p.mutexes[a]
	if m == nil {
		p.nextID++
		m = &mutexState{waiting: map[*Gor]bool{}, readers: map[*Gor]int{}, id: p.nextID}
		p.mutexes[a] = m
	}
	return m
}

func addrOf(v Value) *Value {
	a, ok := v.(*Value)
	if !ok {
		panic(engineError(fmt.Sprintf("address expected, got %T", v)))
	}
	return a
}

func nilCheck(p *Path, g *Gor, v Value) bool {
	if a, ok := v.(*Value); ok && a == nil {
		p.rtPanic(g, "invalid memory address or nil pointer dereference")
		return true
	}
	return false
}

func lockF(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	if nilCheck(p, g, args[0]) {
		return nil, ctlPanic
	}
	if p.schedPoint(g) {
		return nil, ctlBlock
	}
	m := p.mutex(addrOf(args[0]))
	if m.w != nil || m.r > 0 {
		m.waiting[g] = true
		g.wait = func() bool { return m.w == nil && m.r == 0 }
		g.waitWhy = "lock"
		g.skipSP = p.expl && p.nested == 0
		return nil, ctlBlock
	}
	delete(m.waiting, g)
	m.w = g
	p.lockEv(g, m, true)
	return nil, ctlDone
}

func tryLockF(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	if p.schedPoint(g) {
		return nil, ctlBlock
	}
	m := p.mutex(addrOf(args[0]))
	if m.w != nil || m.r > 0 {
		return tFalse, ctlDone
	}
	m.w = g
	p.lockEv(g, m, true)
	return tTrue, ctlDone
}

func unlockF(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	m := p.mutex(addrOf(args[0]))
	if m.w == nil {
		p.fatal(g, "sync: unlock of unlocked mutex")
		return nil, ctlGone
	}
	p.unlockEv(g, m, true)
	m.w = nil
	return nil, ctlDone
}

func rlockF(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	if nilCheck(p, g, args[0]) {
		return nil, ctlPanic
	}
	if p.schedPoint(g) {
		return nil, ctlBlock
	}
	m := p.mutex(addrOf(args[0]))
	if m.w != nil || len(m.waiting) > 0 {
		g.wait = func() bool { return m.w == nil && len(m.live()) == 0 }
		g.waitWhy = "rlock"
		g.skipSP = p.expl && p.nested == 0
		return nil, ctlBlock
	}
	m.r++
	m.readers[g]++
	p.lockEv(g, m, false)
	return nil, ctlDone
}

func tryRLockF(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	if p.schedPoint(g) {
		return nil, ctlBlock
	}
	m := p.mutex(addrOf(args[0]))
	if m.w != nil || len(m.live()) > 0 {
		return tFalse, ctlDone
	}
	m.r++
	m.readers[g]++
	p.lockEv(g, m, false)
	return tTrue, ctlDone
}

func (m *mutexState) live() map[*Gor]bool {
	for g := range m.waiting {
		if g.dead {
			delete(m.waiting, g)
		}
	}
	return m.waiting
}

func runlockF(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	m := p.mutex(addrOf(args[0]))
	if m.r == 0 {
		p.fatal(g, "sync: RUnlock of unlocked RWMutex")
		return nil, ctlGone
	}
	p.unlockEv(g, m, false)
	m.r--
	if m.readers[g] > 0 {
		m.readers[g]--
	}
	return nil, ctlDone
}

func (p *Path) fatal(g *Gor, msg string) {
	pos := p.repoPos(g)
	if pr := p.procs[g.proc]; pr != nil && pr.id != 0 {
		p.endProc(pr, 4, "fatal: "+msg+" at "+pos)
		return
	}
	p.violation("fatal", msg, pos, nil)
	p.abort("fatal")
}

func (p *Path) wg(a *Value) *wgState {
	w := p.wgs[a]
	if w == nil {
		p.nextID++
		w = &wgState{id: p.nextID}
		p.wgs[a] = w
	}
	return w
}

func wgAdd(p *Path, g *Gor, w *wgState, n int) ctl {
	w.n += n
	if n < 0 {
		w.rel = append(w.rel, p.sync(g, "wgdone"))
	}
	if w.n < 0 {
		p.goPanic(g, Iface{T: p.P.canonType(types.Typ[types.String]), V: cstr("sync: negative WaitGroup counter")})
		return ctlPanic
	}
	return ctlDone
}

func wgWaitF(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
	w := p.wg(addrOf(args[0]))
	if p.schedPoint(g) {
		return nil, ctlBlock
	}
	if w.n > 0 {
		g.wait = func() bool { return w.n <= 0 }
		g.waitWhy = "WaitGroup.Wait"
		g.skipSP = p.expl && p.nested == 0
		return nil, ctlBlock
	}
	e := p.sync(g, "wgwait")
	if e != nil {
		for _, r := range w.rel {
			e.after = append(e.after, r)
		}
	}
	return nil, ctlDone
}

// sortedProcs keeps reports deterministic.
func (p *Path) sortedProcs() []*proc {
	var l []*proc
	for _, x := range p.procs {
		l = append(l, x)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}
