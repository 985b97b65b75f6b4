package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// event is a shared access or a synchronisation operation of one goroutine.
type event struct {
	id    int
	g     int
	kind  string
	write bool
	cell  *shadow
	rf    *event   // the write this access read from, nil = initial value
	after []*event // events ordered before this one
	prev  *event   // program order
	lock  *mutexState
	excl  bool
	rel   *event // the release of this acquisition
	pos   string
	self  bool
}

// shadow collects the accesses to one memory cell or map.
type shadow struct {
	id    int
	what  string
	evs   []*event
	lastW *event
	byG   map[int]int // goroutine -> 1 read, 2 written
}

func (p *Path) newEvent(g *Gor, kind string) *event {
	e := &event{id: len(p.events), g: g.id, kind: kind, prev: g.vcLast, pos: ""}
	p.events = append(p.events, e)
	g.vcLast = e
	return e
}

func (p *Path) sync(g *Gor, kind string) *event {
	if !p.raceOn || g.id < 0 {
		return nil
	}
	return p.newEvent(g, kind)
}

func (p *Path) syncOn(g *Gor, kind string, after *event) *event {
	if !p.raceOn || g.id < 0 {
		return nil
	}
	e := p.newEvent(g, kind)
	if after != nil {
		e.after = append(e.after, after)
	}
	return e
}

func (p *Path) startEv(g *Gor, parent *event) {
	if !p.raceOn || parent == nil {
		return
	}
	e := p.newEvent(g, "start")
	e.after = append(e.after, parent)
}

func (p *Path) lockEv(g *Gor, m *mutexState, excl bool) {
	if !p.raceOn || g.id < 0 {
		return
	}
	e := p.newEvent(g, "lock")
	e.lock = m
	e.excl = excl
}

func (p *Path) unlockEv(g *Gor, m *mutexState, excl bool) {
	if !p.raceOn || g.id < 0 {
		return
	}
	e := p.newEvent(g, "unlock")
	// pair it with the latest open acquisition, by this goroutine if there is one
	for pass := 0; pass < 2; pass++ {
		for i := len(p.events) - 2; i >= 0; i-- {
			x := p.events[i]
			if x.lock == m && x.rel == nil && x.excl == excl && (pass == 1 || x.g == g.id) {
				x.rel = e
				return
			}
		}
	}
}

// access records a read or write of a map or cell.
func (p *Path) access(g *Gor, obj interface{}, write bool) {
	if !p.raceOn || g.id < 0 || p.inModel(g) {
		return
	}
	sh := p.cells[obj]
	if sh == nil {
		sh = &shadow{id: len(p.cells), byG: map[int]int{}}
		if _, ok := obj.(*Map); ok {
			sh.what = "map"
		} else {
			sh.what = "variable"
		}
		p.cells[obj] = sh
	}
	e := p.newEvent(g, "rw")
	e.write = write
	e.cell = sh
	e.rf = sh.lastW
	e.pos = p.repoPos(g)
	if os.Getenv("GOSYM_DEBUG_RACE") != "" && strings.Contains(e.pos, os.Getenv("GOSYM_DEBUG_RACE")) {
		l := ""
		for f := g.top; f != nil; f = f.caller {
			if f.fi != nil {
				l += " < " + f.fi.fn.String()
			}
		}
		fmt.Fprintln(os.Stderr, e.pos, write, fmt.Sprintf("%T", obj), p.posOf(g), l)
	}
	if write {
		sh.lastW = e
		sh.byG[g.id] = 2
	} else if sh.byG[g.id] == 0 {
		sh.byG[g.id] = 1
	}
	sh.evs = append(sh.evs, e)
}

func (p *Path) accessCells(g *Gor, a *Value, write bool) {
	if !p.raceOn || g.id < 0 {
		return
	}
	switch v := (*a).(type) {
	case Struct:
		for i := range v {
			p.accessCells(g, &v[i], write)
		}
	case Array:
		for i := range v {
			p.accessCells(g, &v[i], write)
		}
	default:
		p.access(g, a, write)
	}
}

// checkRaces asks the solver whether some legal reordering of the path makes two conflicting accesses simultaneous.
func (p *Path) checkRaces() {
	if len(p.events) == 0 {
		return
	}
	shared := map[*shadow]bool{}
	for _, sh := range p.cells {
		if len(sh.byG) < 2 {
			continue
		}
		w := false
		for _, k := range sh.byG {
			if k == 2 {
				w = true
			}
		}
		if w {
			shared[sh] = true
		}
	}
	if len(shared) == 0 {
		return
	}
	type pair struct{ a, b *event }
	groups := map[string][]pair{}
	var order []string
	var shl []*shadow
	for _, e := range p.events {
		if e.cell != nil && shared[e.cell] {
			shared[e.cell] = true
			found := false
			for _, s := range shl {
				if s == e.cell {
					found = true
					break
				}
			}
			if !found {
				shl = append(shl, e.cell)
			}
		}
	}
	for _, sh := range shl {
		for i, a := range sh.evs {
			for _, b := range sh.evs[i+1:] {
				if a.g == b.g || !a.write && !b.write {
					continue
				}
				k := a.pos + "|" + b.pos
				if b.pos < a.pos {
					k = b.pos + "|" + a.pos
				}
				if len(groups[k]) == 0 {
					order = append(order, k)
				}
				if len(groups[k]) < 6 {
					groups[k] = append(groups[k], pair{a, b})
				}
			}
		}
	}
	if len(order) == 0 {
		return
	}
	// Without the values that reads see there are more orders: no race in them, no race.
	if !p.roughRace(groups2pairs(order, func(k string) [][2]*event {
		if p.W.ex.raceSeen(k) {
			return nil
		}
		var l [][2]*event
		for _, pr := range groups[k] {
			l = append(l, [2]*event{pr.a, pr.b})
		}
		return l
	})) {
		return
	}
	// o<g>_<i> is the time of the i-th event of goroutine g: paths with the same events and dependencies ask the same question
	keep := func(e *event) bool { return e.cell == nil || shared[e.cell] }
	names := map[*event]string{}
	count := map[int]int{}
	var decls, facts []string
	last := map[int]*event{}
	for _, e := range p.events {
		if !keep(e) {
			continue
		}
		names[e] = fmt.Sprintf("o%d_%d", e.g, count[e.g])
		count[e.g]++
		decls = append(decls, "(declare-const "+names[e]+" Int)")
	}
	less := func(a, b *event) string { return "(< " + names[a] + " " + names[b] + ")" }
	for _, e := range p.events {
		if !keep(e) {
			continue
		}
		if l := last[e.g]; l != nil {
			facts = append(facts, "(assert "+less(l, e)+")")
		}
		last[e.g] = e
		for _, a := range e.after {
			facts = append(facts, "(assert "+less(a, e)+")")
		}
	}
	// mutual exclusion
	byLock := map[*mutexState][]*event{}
	var locks []*mutexState
	for _, e := range p.events {
		if e.lock != nil {
			if byLock[e.lock] == nil {
				locks = append(locks, e.lock)
			}
			byLock[e.lock] = append(byLock[e.lock], e)
		}
	}
	for _, m := range locks {
		l := byLock[m]
		for i, x := range l {
			for _, y := range l[i+1:] {
				if x.g == y.g || !x.excl && !y.excl {
					continue
				}
				or := []string{}
				if x.rel != nil {
					or = append(or, less(x.rel, y))
				}
				if y.rel != nil {
					or = append(or, less(y.rel, x))
				}
				facts = append(facts, anyOf(or))
			}
		}
	}
	// every read before the race still sees the value it saw
	decls = append(decls, "(declare-const race Int)")
	for _, sh := range shl {
		for _, r := range sh.evs {
			if r.write && sh.what != "map" {
				continue
			}
			late := "(>= " + names[r] + " race)"
			for _, w := range sh.evs {
				if !w.write || w == r || w == r.rf || w.g == r.g && (r.rf == nil || w.id > r.id) {
					continue
				}
				or := []string{less(r, w), late}
				if r.rf != nil {
					or = append(or, less(w, r.rf))
				}
				facts = append(facts, anyOf(or))
			}
			if r.rf != nil {
				facts = append(facts, anyOf([]string{less(r.rf, r), late}))
			}
		}
	}
	sort.Strings(decls)
	sort.Strings(facts)
	base := strings.Join(decls, "\n") + "\n" + strings.Join(facts, "\n") + "\n"
	at := func(pr pair) string {
		a, b := names[pr.a], names[pr.b]
		if b < a {
			a, b = b, a
		}
		return "(and (= " + a + " race) (= " + b + " race))"
	}
	var all []string
	for _, k := range order {
		if p.W.ex.raceSeen(k) {
			continue
		}
		for _, pr := range groups[k] {
			all = append(all, at(pr))
		}
	}
	if len(all) == 0 {
		return
	}
	sort.Strings(all)
	// the order of the path itself with the two accesses moved together is the easiest one to ask about
	clocks, found, tried := p.raceClocks(), false, 0
	for _, k := range order {
		if p.W.ex.raceSeen(k) {
			continue
		}
		for _, pr := range groups[k] {
			pos := clocks.witness(p.events, pr.a, pr.b)
			if pos == nil || tried >= 20 {
				continue
			}
			tried++
			var pins []string
			for e, n := range names {
				pins = append(pins, fmt.Sprintf("(assert (= %s %d))", n, pos[e]))
			}
			sort.Strings(pins)
			if p.raceQuery(base+strings.Join(pins, "\n")+"\n", anyOf([]string{at(pr)})) {
				p.race(pr.a, pr.b)
				p.W.ex.markRace(k)
				found = true
				break
			}
		}
	}
	if found || !p.raceQuery(base, anyOf(all)) {
		return
	}
	for _, k := range order {
		if p.W.ex.raceSeen(k) {
			continue
		}
		for _, pr := range groups[k] {
			if p.raceQuery(base, anyOf([]string{at(pr)})) {
				p.race(pr.a, pr.b)
				p.W.ex.markRace(k)
				break
			}
		}
	}
}

func (p *Path) race(a, b *event) {
	w := "read"
	if a.write && b.write {
		w = "write"
	}
	p.violation("race", fmt.Sprintf("unsynchronised %s and write of one %s: %s and %s", w, a.cell.what, a.pos, b.pos), a.pos, nil)
}

// raceClocks are vector clocks of the path: what has to come before an event as things were observed.
type raceClocks struct {
	index  map[*event]int
	before map[*event]map[int]int // without the event itself and the write it read from
	at     map[*event]map[int]int
}

func (p *Path) raceClocks() raceClocks {
	c := raceClocks{map[*event]int{}, map[*event]map[int]int{}, map[*event]map[int]int{}}
	count := map[int]int{}
	locks := map[*mutexState][]*event{}
	for _, e := range p.events {
		v := map[int]int{}
		join := func(x *event) {
			if x == nil {
				return
			}
			for g, n := range c.at[x] {
				v[g] = max(v[g], n)
			}
		}
		join(e.prev)
		for _, x := range e.after {
			join(x)
		}
		if e.lock != nil {
			for _, x := range locks[e.lock] {
				if x.excl || e.excl {
					join(x.rel)
				}
			}
			locks[e.lock] = append(locks[e.lock], e)
		}
		c.before[e] = v
		count[e.g]++
		c.index[e] = count[e.g]
		if e.cell != nil && e.rf != nil && (!e.write || e.cell.what == "map") {
			v2 := map[int]int{}
			for g, n := range v {
				v2[g] = n
			}
			v = v2
			join(e.rf)
			v[e.g] = count[e.g]
			c.at[e] = v
			continue
		}
		v2 := map[int]int{}
		for g, n := range v {
			v2[g] = n
		}
		v2[e.g] = count[e.g]
		c.at[e] = v2
	}
	return c
}

// witness gives an order of the events in which a and b happen at the same time, or nil.
func (c raceClocks) witness(events []*event, a, b *event) map[*event]int {
	if c.before[b][a.g] >= c.index[a] || c.before[a][b.g] >= c.index[b] {
		return nil
	}
	pos := map[*event]int{}
	n := 0
	first := func(e *event) bool {
		return e != a && e != b && (c.before[a][e.g] >= c.index[e] || c.before[b][e.g] >= c.index[e])
	}
	for _, e := range events {
		if first(e) {
			n++
			pos[e] = n
		}
	}
	n++
	pos[a], pos[b] = n, n
	for _, e := range events {
		if _, ok := pos[e]; !ok {
			n++
			pos[e] = n
		}
	}
	return pos
}

func groups2pairs(order []string, of func(string) [][2]*event) [][2]*event {
	var l [][2]*event
	for _, k := range order {
		l = append(l, of(k)...)
	}
	return l
}

// roughRace asks whether one of the pairs can happen at the same time as far as synchronisation alone goes. All accesses of
// a goroutine between two of its synchronisation operations are one point there.
func (p *Path) roughRace(pairs [][2]*event) bool {
	name := map[*event]string{} // synchronisation operations
	seg := map[*event]string{}  // accesses, by the operation before
	count := map[int]int{}
	last := map[int]*event{}
	var decls, facts []string
	less := func(a, b string) { facts = append(facts, "(assert (< "+a+" "+b+"))") }
	for _, e := range p.events {
		if e.cell != nil {
			seg[e] = fmt.Sprintf("x%d_%d", e.g, count[e.g])
			continue
		}
		n := fmt.Sprintf("s%d_%d", e.g, count[e.g])
		count[e.g]++
		name[e] = n
		decls = append(decls, "(declare-const "+n+" Int)")
		if l := last[e.g]; l != nil {
			less(name[l], n)
		}
		last[e.g] = e
		for _, a := range e.after {
			if a.cell == nil {
				less(name[a], n)
			}
		}
	}
	byLock := map[*mutexState][]*event{}
	for _, e := range p.events {
		if e.lock == nil {
			continue
		}
		for _, x := range byLock[e.lock] {
			if x.g == e.g || !x.excl && !e.excl {
				continue
			}
			or := []string{}
			if x.rel != nil {
				or = append(or, "(< "+name[x.rel]+" "+name[e]+")")
			}
			if e.rel != nil {
				or = append(or, "(< "+name[e.rel]+" "+name[x]+")")
			}
			facts = append(facts, anyOf(or))
		}
		byLock[e.lock] = append(byLock[e.lock], e)
	}
	seen := map[string]bool{}
	var or []string
	for _, pr := range pairs {
		a, b := seg[pr[0]], seg[pr[1]]
		if b < a {
			a, b = b, a
		}
		for _, x := range []string{a, b} {
			if seen[x] {
				continue
			}
			seen[x] = true
			decls = append(decls, "(declare-const "+x+" Int)")
			var g, i int
			fmt.Sscanf(x, "x%d_%d", &g, &i)
			if i > 0 {
				less(fmt.Sprintf("s%d_%d", g, i-1), x)
			}
			if i < count[g] {
				less(x, fmt.Sprintf("s%d_%d", g, i))
			}
		}
		if q := "(= " + a + " " + b + ")"; !seen[q] {
			seen[q] = true
			or = append(or, q)
		}
	}
	if len(or) == 0 {
		return false
	}
	sort.Strings(decls)
	sort.Strings(facts)
	return p.raceQuery(strings.Join(decls, "\n")+"\n"+strings.Join(facts, "\n")+"\n", anyOf(or))
}

func anyOf(or []string) string {
	sort.Strings(or)
	return "(assert (or false " + strings.Join(or, " ") + "))"
}

// raceQuery asks whether the events can be ordered so that query holds; answers are shared between paths.
func (p *Path) raceQuery(base, query string) bool {
	key := sha256.Sum256([]byte(base + query))
	if r, ok := p.W.ex.raceAnswer(key); ok {
		return r
	}
	t0 := time.Now()
	p.s.raw("(push 1)\n" + base + query + "\n(check-sat)\n")
	p.s.in.Flush()
	stop := p.s.watch()
	v := p.s.readLine()
	stop()
	p.s.raw("(pop 1)\n")
	p.s.Stats.Queries++
	p.s.Stats.Time += time.Since(t0)
	switch v {
	case "sat":
		p.s.Stats.Sat++
	case "unsat":
		p.s.Stats.Unsat++
	default:
		p.s.Stats.Unknown++
		p.W.ex.inconclusive("race query: " + v)
		return false
	}
	p.W.ex.setRaceAnswer(key, v == "sat")
	return v == "sat"
}

// inModel tells whether g runs code of an environment model, or library code that a model called.
func (p *Path) inModel(g *Gor) bool {
	for f := g.top; f != nil; f = f.caller {
		if f.fi == nil {
			continue
		}
		if f.fi.model {
			return true
		}
		if f.fi.own || f.fi.fn.Pkg != nil && strings.HasPrefix(f.fi.fn.Pkg.Pkg.Path(), p.P.zz) {
			return false
		}
	}
	return false
}
