package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var repoDir = "/repo"

// Explorer runs a harness along every decision sequence within its bounds.
type Explorer struct {
	P         *Program
	cfg       *Config
	fn        *ssa.Function
	solverTmo time.Duration
	deadline  time.Time
	workers   int
	thorough  bool
	stopAt    int // stop after this many unlisted violations
	isKnown   func(*Violation) bool

	mu       sync.Mutex
	cond     *sync.Cond
	queue    [][]int16
	busy     int
	stopped  bool
	why      string
	paths    int
	aborted  map[string]int
	steps    int64
	reached  map[string]int
	asserted map[string]int
	viol     []*Violation
	violKey  map[string]int
	unlisted int
	incon    map[string]int
	notes    map[string]int
	funcs    map[*ssa.Function]bool
	trivial  int64
	asserts  int64
	races    map[string]bool
	raceAns  map[[32]byte]bool
	cross    int
	crossOK  int
	crossUnk int
	maxDec   int
	decs     int64
	events   int64
	stats    SolverStats
	samples  []string
	witness  []*Witness
	finished int
	wall     time.Duration
}

// Witness is one path's inputs, to run the compiled code on.
type Witness struct {
	Values map[string]uint64
	Logs   []string
}

// Worker owns a solver process and the state of third-party packages.
type Worker struct {
	ex      *Explorer
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	solver  *Solver
	id      int
}

func (ex *Explorer) push(alt []int16) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, alt)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	ex.notes[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) inconclusive(s string) {
	ex.mu.Lock()
	ex.incon[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) count(c *int64) {
	ex.mu.Lock()
	*c++
	ex.mu.Unlock()
}

func (ex *Explorer) raceSeen(k string) bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	return ex.races[k]
}

func (ex *Explorer) raceAnswer(k [32]byte) (bool, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	r, ok := ex.raceAns[k]
	return r, ok
}

func (ex *Explorer) setRaceAnswer(k [32]byte, v bool) {
	ex.mu.Lock()
	if ex.raceAns == nil {
		ex.raceAns = map[[32]byte]bool{}
	}
	ex.raceAns[k] = v
	ex.mu.Unlock()
}

func (ex *Explorer) markRace(k string) {
	ex.mu.Lock()
	ex.races[k] = true
	ex.mu.Unlock()
}

// crossCheck puts a sample of the decided queries to a second solver.
func (ex *Explorer) crossCheck(s *Solver, extra *Term, v Verdict) {
	ex.mu.Lock()
	max := 3
	if ex.thorough {
		max = 25
	}
	// spread the sample: powers of two of the running count first
	n := ex.cross
	ok := n < max
	if ok {
		ex.cross++
	}
	ex.mu.Unlock()
	if !ok {
		return
	}
	o := CheckExternal(s.Script(extra), 10*time.Second, "cvc5", "--lang=smt2")
	ex.mu.Lock()
	defer ex.mu.Unlock()
	switch {
	case o == v:
		ex.crossOK++
	case o == Unknown:
		ex.crossUnk++
	default:
		ex.incon["z3 and cvc5 disagree on an assertion"]++
	}
}

func (ex *Explorer) addViolation(v *Violation) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	k := v.Label + "|" + v.Where
	if v.Label == "race" || v.Label == "panic" {
		k = v.Label + "|" + v.Detail
	}
	ex.violKey[k]++
	if ex.violKey[k] > 3 {
		return
	}
	ex.viol = append(ex.viol, v)
	if ex.isKnown == nil || !ex.isKnown(v) {
		ex.unlisted++
		if ex.stopAt > 0 && ex.unlisted >= ex.stopAt {
			ex.stopped = true
			ex.why = "stopped at a violation"
			ex.cond.Broadcast()
		}
	}
}

func (ex *Explorer) next() ([]int16, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopped {
			return nil, false
		}
		if time.Now().After(ex.deadline) {
			if len(ex.queue) > 0 {
				ex.stopped = true
				ex.why = "time budget used up"
				ex.cond.Broadcast()
				return nil, false
			}
		}
		if n := len(ex.queue); n > 0 {
			x := ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			ex.busy++
			return x, true
		}
		if ex.busy == 0 {
			ex.cond.Broadcast()
			return nil, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.busy--
	if ex.busy == 0 && len(ex.queue) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

// Run explores the harness.
func (ex *Explorer) Run() error {
	ex.cond = sync.NewCond(&ex.mu)
	ex.aborted = map[string]int{}
	ex.reached = map[string]int{}
	ex.asserted = map[string]int{}
	ex.violKey = map[string]int{}
	ex.incon = map[string]int{}
	ex.notes = map[string]int{}
	ex.funcs = map[*ssa.Function]bool{}
	ex.races = map[string]bool{}
	if ex.queue == nil {
		ex.queue = [][]int16{{}}
	}
	t0 := time.Now()
	var wg sync.WaitGroup
	var firstErr error
	for i := 0; i < ex.workers; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			s, err := NewSolver(ex.cfg.Float, ex.solverTmo)
			if err == nil {
				s.until = ex.deadline
			}
			if err != nil {
				ex.mu.Lock()
				firstErr = err
				ex.stopped = true
				ex.cond.Broadcast()
				ex.mu.Unlock()
				return
			}
			w := &Worker{ex: ex, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, solver: s, id: i}
			for {
				x, ok := ex.next()
				if !ok {
					break
				}
				w.run(x)
				ex.done()
			}
			ex.mu.Lock()
			ex.stats.add(s.Stats)
			ex.mu.Unlock()
			s.Close()
		}()
	}
	wg.Wait()
	ex.wall = time.Since(t0)
	return firstErr
}

func (w *Worker) newPath(prefix []int16) *Path {
	ex := w.ex
	p := &Path{P: ex.P, W: w, cfg: ex.cfg, c: NewTermCtx(), s: w.solver, prefix: prefix,
		known: map[*Term]bool{}, nameN: map[string]int{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		mutexes: map[*Value]*mutexState{}, wgs: map[*Value]*wgState{}, conds: map[*Value]*condState{}, procs: map[int]*proc{},
		cells: map[interface{}]*shadow{}, sites: map[string]bool{}, asserted: map[string]int{}, reached: map[string]int{},
		funcs: map[*ssa.Function]bool{}, lastAtom: map[interface{}]*event{}, atomVals: map[*Value]Value{}, pools: map[*Value][]Value{}, timerOf: map[*Value]*timer{}, numCPU: 1}
	p.procs[0] = &proc{id: 0}
	p.crashN = map[string]int{}
	p.model = map[string]uint64{}
	return p
}

// run executes one path.
func (w *Worker) run(prefix []int16) {
	ex := w.ex
	w.solver.Begin()
	p := w.newPath(prefix)
	end := "finished"
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					end = r.why
				case engineError:
					end = "unsupported"
					msg := string(r)
					if p.cur != nil && p.cur.top != nil {
						msg += " at " + p.posOf(p.cur)
					}
					ex.inconclusive("not encoded: " + msg)
					if os.Getenv("GOSYM_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "not encoded:", msg)
						p.dumpStack()
					}
				default:
					end = "unsupported"
					msg := fmt.Sprint(r)
					if p.cur != nil && p.cur.top != nil {
						msg += " at " + p.posOf(p.cur)
					}
					ex.inconclusive("engine fault: " + msg)
					if os.Getenv("GOSYM_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "engine fault:", msg)
						p.dumpStack()
						debug.PrintStack()
					}
				}
			}
		}()
		p.runMain(ex.fn)
		if p.raceOn || len(p.events) > 0 {
			p.checkRaces()
		}
	}()
	var wit *Witness
	if end == "finished" && p.delays == 0 && !p.mapForked && p.crashAt == "" && len(p.viol) == 0 {
		ex.mu.Lock()
		n := ex.finished
		ex.finished++
		ex.mu.Unlock()
		if n&(n-1) == 0 { // 0, 1, 2, 4, ...
			v, m := Unknown, map[string]uint64(nil)
			func() {
				defer func() {
					if recover() != nil {
						v = Unknown
					}
				}()
				v, m = w.solver.Check(nil, true)
			}()
			if v == Sat {
				wit = &Witness{Values: map[string]uint64{}, Logs: p.logs}
				for _, n := range p.nondets {
					if n.T.IsConst() {
						wit.Values[n.Name] = n.T.Val
					} else {
						wit.Values[n.Name] = m[n.T.Name]
					}
				}
			}
		}
	}
	if end == "solver gave no answer in time" {
		ex.inconclusive(end)
	}
	w.solver.End()
	if w.solver.nerr > 0 {
		ex.inconclusive("solver reported an error")
		w.solver.nerr = 0
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if wit != nil {
		ex.witness = append(ex.witness, wit)
	}
	ex.paths++
	ex.aborted[end]++
	ex.steps += p.steps
	ex.asserts += int64(p.asserts)
	ex.decs += int64(len(p.dec))
	ex.events += int64(len(p.events))
	if len(p.dec) > ex.maxDec {
		ex.maxDec = len(p.dec)
	}
	if end == "finished" {
		for k, n := range p.reached {
			ex.reached[k] += n
		}
	}
	for k, n := range p.asserted {
		ex.asserted[k] += n
	}
	for f := range p.funcs {
		ex.funcs[f] = true
	}
	if len(ex.samples) < 4 && end == "finished" {
		var l []string
		for _, n := range p.nondets {
			if n.T.IsConst() {
				l = append(l, fmt.Sprintf("%s=%d", n.Name, int64(n.T.Val)))
			} else {
				l = append(l, n.Name+"=symbolic")
			}
			if len(l) > 12 {
				break
			}
		}
		ex.samples = append(ex.samples, fmt.Sprintf("path %d: %d decisions, %d instructions, %d goroutines, inputs {%s}", ex.paths, len(p.dec), p.steps, len(p.gs), strings.Join(l, " ")))
	}
}

func (p *Path) dumpStack() {
	for _, g := range p.gs {
		for f := g.top; f != nil; f = f.caller {
			if f.fi != nil {
				fmt.Fprintf(os.Stderr, "  g%d %s\n", g.id, f.fi.fn)
			}
		}
	}
}

func (p *Path) runMain(fn *ssa.Function) {
	g := &Gor{id: 0, isMain: true}
	p.gs = append(p.gs, g)
	p.main = g
	p.cur = g
	p.pushFrame(g, &Closure{Fn: fn}, nil, -1, nil)
	n := 0
	for g.top != nil {
		c := p.cur
		if c == nil || c.dead || c.top == nil || c.parked || c.wait != nil {
			if c != nil && !c.dead && c.top != nil && !c.parked && c.wait != nil && c.wait() {
				c.wait = nil
			} else {
				p.pickNext()
				c = p.cur
				c.wait = nil
			}
		}
		if c.isMain {
			p.mainIdle = 0
		}
		p.step(c)
		n++
		if n&0xfff == 0 {
			p.W.ex.checkTime()
		}
	}
}

func (ex *Explorer) checkTime() {
	ex.mu.Lock()
	st := ex.stopped
	ex.mu.Unlock()
	if st || time.Now().After(ex.deadline.Add(5*time.Second)) {
		ex.mu.Lock()
		if !ex.stopped {
			ex.stopped = true
			ex.why = "time budget used up"
			ex.cond.Broadcast()
		}
		ex.mu.Unlock()
		panic(pathEnd{"stopped"})
	}
}

// complete tells whether every path within the bounds was decided.
func (ex *Explorer) complete() bool { return !ex.stopped && len(ex.incon) == 0 }

func sortedCounts(m map[string]int) []string {
	var l []string
	for k, n := range m {
		l = append(l, fmt.Sprintf("%s (%d)", k, n))
	}
	sort.Strings(l)
	return l
}
