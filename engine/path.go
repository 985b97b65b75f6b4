package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Config says how a harness is explored.
type Config struct {
	Harness   string
	Float     FloatMode
	MaxSteps  int64
	Delays    int  // scheduling delays explored per path
	Race      bool // collect accesses and ask the solver for racing pairs
	MapPerms  bool // every iteration order of maps with at most 3 entries
	TickEarly bool // a pending timer may fire at any scheduling point (costs a delay)
	CrossCk   bool
}

type nondet struct {
	Name string
	T    *Term
	Kind string
}

// Path is one execution of a harness along one sequence of decisions.
type Path struct {
	P       *Program
	W       *Worker
	cfg     *Config
	c       *TermCtx
	s       *Solver
	prefix  []int16
	pos     int
	dec     []int16
	known   map[*Term]bool
	model   map[string]uint64
	nameN   map[string]int
	nondets []nondet

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool

	gs        []*Gor
	cur       *Gor
	main      *Gor
	now       int64
	timers    []*timer
	seq       int
	delays    int
	steps     int64
	nextID    int
	uuid      int
	mutexes   map[*Value]*mutexState
	wgs       map[*Value]*wgState
	conds     map[*Value]*condState
	procs     map[int]*proc
	crashN    map[string]int
	crashAt   string
	crashK    int
	partial   int
	expl      bool // exploration of schedules is on
	delayMax  int
	tick      bool
	mapPerm   bool
	mapForked bool
	raceOn    bool
	events    []*event
	cells     map[interface{}]*shadow
	sites     map[string]bool

	asserts  int
	asserted map[string]int
	reached  map[string]int
	viol     []*Violation
	incon    []string
	funcs    map[*ssa.Function]bool
	logs     []string
	nested   int
	logs2    [][2]string
	lastAtom map[interface{}]*event
	atomVals map[*Value]Value
	pools    map[*Value][]Value // contents of sync.Pool
	timerOf  map[*Value]*timer
	numCPU   int
	mainIdle int64
	nextProc int
}

// Violation is a property failure found on a path.
type Violation struct {
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Detail   string            `json:"detail"`
	Where    string            `json:"where"`
	Values   map[string]uint64 `json:"values"`
	Kinds    map[string]string `json:"kinds"`
	Dec      []int16           `json:"decisions"`
	Logs     []string          `json:"log,omitempty"`
	Native   string            `json:"native_replay,omitempty"`
	Concur   bool              `json:"schedule_dependent,omitempty"`
	MapOrder bool              `json:"map_order_dependent,omitempty"`
	Crash    string            `json:"crash,omitempty"`
	CrashN   int               `json:"crash_n,omitempty"`
	Partial  int               `json:"partial,omitempty"`
}

type frame struct {
	fi      *finfo
	blk     int
	pc      int
	env     []Value
	defers  []*deferred
	ret     int // slot in the caller, -1 = drop
	caller  *frame
	isDefer bool // runs a deferred call of caller
	unwind  bool // panicking, running deferred calls
	recov   bool
	pval    Iface
	ppos    string
	native  *nativeCall
	done    func(Value) // called with the result instead of storing it
	entered bool
}

type nativeCall struct {
	in   *intrinsic
	args []Value
	fn   *ssa.Function
	cs   *callSite
}

type deferred struct {
	fn   *Closure
	args []Value
	cs   *callSite
}

// Gor is a goroutine of the interpreted program.
type Gor struct {
	id      int
	proc    int
	top     *frame
	wait    func() bool
	waitWhy string
	parked  bool // waits for a partner to complete the operation
	dead    bool
	skipSP  bool // the next scheduling point was already taken
	result  Value
	vcLast  *event
	nev     int
	depth   int
	wakeAt  int64
	yielded bool
	condW   *condWait
	sub     *proc
	isMain  bool
}

type proc struct {
	id      int
	outcome int // 0 running, 1 finished, 2 crashed, 3 exited, 4 panicked
	armed   bool
	detail  string
}

type pathEnd struct{ why string }

func (p *Path) abort(why string) { panic(pathEnd{why}) }

// ---- decisions ----

func (p *Path) knownVal(t *Term) (bool, bool) {
	if t.IsConst() {
		return t.Val == 1, true
	}
	if v, ok := p.known[t]; ok {
		return v, true
	}
	if t.Op == ONot {
		if v, ok := p.known[t.A]; ok {
			return !v, true
		}
	}
	return false, false
}

func (p *Path) learn(t *Term, v bool) {
	p.known[t] = v
	if t.Op == ONot {
		p.learn(t.A, !v)
	} else if v && t.Op == OAnd {
		p.learn(t.A, true)
		p.learn(t.B, true)
	} else if !v && t.Op == OOr {
		p.learn(t.A, false)
		p.learn(t.B, false)
	}
}

// assume adds t to the path condition without checking it.
func (p *Path) assume(t *Term, v bool) {
	p.learn(t, v)
	if !v {
		t = p.c.Not(t)
	}
	if p.model != nil {
		if x, ok := evalTerm(t, p.model, map[*Term]uint64{}); !ok || x != 1 {
			p.model = nil
		}
	}
	p.s.Assert(t)
}

// branch decides a condition, forking the path when both outcomes are possible.
func (p *Path) branch(t *Term) bool {
	if v, ok := p.knownVal(t); ok {
		return v
	}
	if p.pos < len(p.prefix) {
		v := p.prefix[p.pos] == 1
		p.pos++
		p.dec = append(p.dec, p.prefix[p.pos-1])
		p.assume(t, v)
		return v
	}
	v1, v0 := Unknown, Unknown
	have1, have0 := false, false
	if p.model != nil {
		if x, ok := evalTerm(t, p.model, map[*Term]uint64{}); ok {
			if x == 1 {
				v1, have1 = Sat, true
			} else {
				v0, have0 = Sat, true
			}
		}
	}
	m1 := p.model
	if !have1 {
		v1, m1 = p.s.Check(t, true)
	}
	if v1 == Unsat {
		p.dec = append(p.dec, 0)
		p.pos++
		p.assume2(t, false, p.model)
		return false
	}
	if !have0 {
		v0, _ = p.s.Check(p.c.Not(t), false)
	}
	if v0 == Unsat {
		p.dec = append(p.dec, 1)
		p.pos++
		p.assume2(t, true, m1)
		return true
	}
	if v1 == Unknown || v0 == Unknown {
		p.note("solver gave no answer on a branch; both sides taken")
	}
	alt := append(append([]int16{}, p.dec...), 0)
	p.W.ex.push(alt)
	p.dec = append(p.dec, 1)
	p.pos++
	p.assume2(t, true, m1)
	return true
}

func (p *Path) assume2(t *Term, v bool, m map[string]uint64) {
	p.learn(t, v)
	if !v {
		t = p.c.Not(t)
	}
	p.s.Assert(t)
	p.model = m
	if m != nil {
		if x, ok := evalTerm(t, m, map[*Term]uint64{}); ok && x != 1 {
			p.model = nil
		}
	}
}

func (p *Path) note(s string) { p.W.ex.note(s) }

// choose picks one of n alternatives, exploring all of them.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		v := int(p.prefix[p.pos])
		p.pos++
		p.dec = append(p.dec, int16(v))
		return v
	}
	for i := n - 1; i >= 1; i-- {
		p.W.ex.push(append(append([]int16{}, p.dec...), int16(i)))
	}
	p.dec = append(p.dec, 0)
	p.pos++
	return 0
}

// concretize forks over the feasible values of t (at most max) and returns the value taken.
func (p *Path) concretize(t *Term, max int) uint64 {
	if t.IsConst() {
		return t.Val
	}
	for i := 0; i < max; i++ {
		var v uint64
		got := false
		if p.pos < len(p.prefix) {
			// replaying: the candidate is recomputed below only when needed
		}
		if p.model != nil {
			if x, ok := evalTerm(t, p.model, map[*Term]uint64{}); ok {
				v, got = x, true
			}
		}
		if !got {
			// smallest-first keeps re-executions deterministic
			ver, m := p.s.Check(nil, true)
			if ver != Sat {
				p.abort("infeasible")
			}
			p.model = m
			x, ok := evalTerm(t, m, map[*Term]uint64{})
			if !ok {
				// variables not yet declared to the solver get a value now
				p.s.ref(t)
				ver, m = p.s.Check(nil, true)
				if ver != Sat {
					p.abort("infeasible")
				}
				p.model = m
				x, _ = evalTerm(t, m, map[*Term]uint64{})
			}
			v = x
		}
		// the candidate value is recorded as part of the decision
		if p.pos < len(p.prefix) && p.prefix[p.pos] == -1 {
			v = uint64(uint16(p.prefix[p.pos+1])) | uint64(uint16(p.prefix[p.pos+2]))<<16 | uint64(uint16(p.prefix[p.pos+3]))<<32 | uint64(uint16(p.prefix[p.pos+4]))<<48
			p.pos += 5
		} else if p.pos < len(p.prefix) {
			panic(engineError("decision sequence out of step"))
		} else {
			p.pos += 5
		}
		p.dec = append(p.dec, -1, int16(uint16(v)), int16(uint16(v>>16)), int16(uint16(v>>32)), int16(uint16(v>>48)))
		if p.branch(p.c.Eq(t, BV(t.W, v))) {
			return v
		}
	}
	panic(engineError(fmt.Sprintf("more than %d values for a length or index", max)))
}

// Assume ends the path unless t can hold.
func (p *Path) Assume(t *Term) {
	if v, ok := p.knownVal(t); ok {
		if !v {
			p.abort("assume")
		}
		return
	}
	if p.model != nil {
		if x, ok := evalTerm(t, p.model, map[*Term]uint64{}); ok && x == 1 {
			p.assume2(t, true, p.model)
			return
		}
	}
	if p.pos < len(p.prefix) {
		// feasible: a longer prefix was reached from here
		p.assume(t, true)
		return
	}
	v, m := p.s.Check(t, true)
	if v == Unsat {
		p.abort("assume")
	}
	p.assume2(t, true, m)
}

// Assert asks the solver for values that break t on this path.
func (p *Path) Assert(t *Term, label, where string) {
	p.asserted[label]++
	if v, ok := p.knownVal(t); ok && v {
		p.asserts++
		p.W.ex.count(&p.W.ex.trivial)
		return
	}
	if p.pos < len(p.prefix) {
		// decided when this prefix was first executed; it held or was assumed afterwards
		p.assume(t, true)
		return
	}
	p.asserts++
	neg := p.c.Not(t)
	v, m := Unknown, map[string]uint64(nil)
	if p.s.mode == FloatErr {
		v, m = p.secondOpinion(neg)
	}
	if v == Unknown && p.s.mode == FloatErr {
		v, m = p.pinned(neg)
	}
	if v == Unknown {
		v, m = p.s.Check(neg, true)
	}
	if v == Unknown && p.s.mode != FloatErr {
		v, m = p.secondOpinion(neg)
	}
	switch v {
	case Unsat:
		p.W.ex.crossCheck(p.s, neg, Unsat)
		p.assume2(t, true, p.model)
		return
	case Unknown:
		p.W.ex.inconclusive("assertion " + label + ": solver gave no answer")
		return
	}
	p.violation(label, "assertion fails", where, m)
	// carry on with the rest of the path where the assertion holds
	if ok, m := p.s.Check(t, true); ok == Unsat {
		p.abort("assertion cannot hold")
	} else {
		p.assume2(t, true, m)
	}
}

func (p *Path) secondOpinion(extra *Term) (Verdict, map[string]uint64) {
	if p.s.mode == FloatErr {
		// over the reals instead of the integers the question is decidable; no integer is left out
		x := strings.NewReplacer(" Int)", " Real)", " () Int ", " () Real ", "(to_real ", "(* 1.0 ").Replace(p.s.Script(extra))
		if d := os.Getenv("GOSYM_DUMP"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, p.s.Stats.Queries), []byte(x), 0o644)
		}
		t0 := time.Now()
		v := CheckExternal(x, p.W.ex.solverTmo, p.s.bin)
		p.s.Stats.Queries++
		p.s.Stats.Time += time.Since(t0)
		if v == Unsat {
			p.s.Stats.Unsat++
			return Unsat, nil
		}
		p.s.Stats.Unknown++
		return Unknown, nil
	}
	v := CheckExternal(p.s.Script(extra), p.W.ex.solverTmo, "cvc5", "--lang=smt2")
	if v == Unsat {
		p.note("cvc5 decided a query z3 did not")
		return Unsat, nil
	}
	return Unknown, nil
}

// pinned asks for a counterexample with the integers fixed to small numbers; it never answers unsat.
func (p *Path) pinned(neg *Term) (Verdict, map[string]uint64) {
	cand := []int64{1, 0, 2, 3, 5, 9, 40, 300, 5000, 100000}
	seed := uint64(1)
	next := func(n int) int {
		seed = seed*6364136223846793005 + 1442695040888963407
		return int((seed >> 33) % uint64(n))
	}
	script := p.s.Script(neg)
	for i := 0; i < 24; i++ {
		m := map[string]uint64{}
		var r []string
		for _, n := range p.nondets {
			b, ok := p.s.rng[n.T]
			if !ok || n.T.Op != OVar {
				continue
			}
			v := min(max(cand[next(len(cand))], b[0]), b[1])
			m[n.T.Name] = uint64(v)
			name := "|" + n.T.Name + "|"
			r = append(r, "(declare-const "+name+" Int)", "(define-fun "+name+" () Int "+p.s.lit(BV(64, uint64(v)))+")")
		}
		x := strings.NewReplacer(r...).Replace(script)
		// no rounding, but what it is in single precision
		x = rndDecl.ReplaceAllStringFunc(x, func(d string) string {
			k := rndDecl.FindStringSubmatch(d)
			v := "0.0"
			if t, ok := p.s.coarse[k[1]]; ok {
				if f, ok := evalFloat(t, m, map[*Term]uint64{}); ok && f != 0 {
					r := new(big.Rat).SetFloat64(float64(float32(f)))
					o := new(big.Rat).SetFloat64(f)
					v = ratLit(r.Quo(r.Sub(r, o), o))
				}
			}
			return "(define-fun " + k[1] + " () Real " + v + ")\n"
		})
		t0 := time.Now()
		v := CheckExternal(x, 2*time.Second, p.s.bin)
		p.s.Stats.Queries++
		p.s.Stats.Time += time.Since(t0)
		switch v {
		case Sat:
			p.s.Stats.Sat++
			return Sat, m
		case Unsat:
			p.s.Stats.Unsat++
		default:
			p.s.Stats.Unknown++
		}
	}
	return Unknown, nil
}

// evalFloat is the value of t as the machine computes it, under a model.
func evalFloat(t *Term, m map[string]uint64, memo map[*Term]uint64) (float64, bool) {
	var c TermCtx
	switch t.Op {
	case OFAdd, OFSub, OFMul, OFDiv:
		a, ok := evalFloat(t.A, m, memo)
		b, ok2 := evalFloat(t.B, m, memo)
		if !ok || !ok2 {
			return 0, false
		}
		return c.FBin(t.Op, FC(a), FC(b)).F(), true
	case OFNeg:
		a, ok := evalFloat(t.A, m, memo)
		return -a, ok
	case OFUF:
		a, ok := evalFloat(t.A, m, memo)
		if !ok || t.Name != "f32" {
			return 0, false
		}
		return float64(float32(a)), true
	case OSI2F, OUI2F:
		x, ok := evalTerm(t.A, m, memo)
		return c.FUn(t.Op, "", BV(t.A.W, x)).F(), ok
	}
	x, ok := evalTerm(t, m, memo)
	return math.Float64frombits(x), ok
}

var rndDecl = regexp.MustCompile(`\(declare-const (rnd\d+) Real\)\n(\(assert .*\)\n)`)

func (p *Path) violation(label, detail, where string, m map[string]uint64) {
	if m == nil {
		if p.model != nil {
			m = p.model
		}
		if v, mm := p.s.Check(nil, true); v == Sat {
			m = mm
		} else if v == Unsat {
			// the path condition became infeasible: nothing to report
			p.abort("infeasible")
		} else {
			p.W.ex.inconclusive(label + ": the solver did not decide whether the path that leads there is possible")
			return
		}
	}
	v := &Violation{Harness: p.cfg.Harness, Label: label, Detail: detail, Where: where, Values: map[string]uint64{}, Kinds: map[string]string{}}
	for _, n := range p.nondets {
		v.Kinds[n.Name] = n.Kind
		if n.T.IsConst() {
			v.Values[n.Name] = n.T.Val
		} else {
			v.Values[n.Name] = m[n.T.Name]
		}
	}
	v.Dec = append([]int16{}, p.dec...)
	v.Logs = append([]string{}, p.logs...)
	v.Concur = p.delayMax > 0 // the schedule was chosen
	v.MapOrder = p.mapForked
	v.Crash, v.CrashN, v.Partial = strings.Trim(p.crashAt, "\""), p.crashK, p.partial
	p.viol = append(p.viol, v)
	p.W.ex.addViolation(v)
}

// fresh makes the next symbolic variable called name.
func (p *Path) fresh(name string, w uint8, kind string) *Term {
	n := p.nameN[name]
	p.nameN[name] = n + 1
	full := name
	if n > 0 {
		full = fmt.Sprintf("%s#%d", name, n)
	}
	t := p.c.Var(full, w)
	p.s.ref(t)
	p.nondets = append(p.nondets, nondet{full, t, kind})
	return t
}

// ---- globals ----

var noInit = map[string]bool{
	"os": true, "runtime": true, "syscall": true, "reflect": true, "net": true, "net/http": true, "internal/poll": true, "testing": true,
	"internal/godebug": true, "internal/testlog": true, "os/signal": true, "log": true, "internal/cpu": true, "crypto": true, "compress/gzip": true, "compress/flate": true, "hash/crc32": true,
	"github.com/google/uuid": true, "math/rand": true, "internal/syscall/unix": true, "internal/reflectlite": true, "internal/bytealg": true, "golang.org/x/sys/cpu": true,
	"internal/abi": true, "crypto/rand": true,
}

func (p *Path) isRepo(pkg *ssa.Package) bool {
	pp := pkg.Pkg.Path()
	return pp == p.P.module || strings.HasPrefix(pp, p.P.module+"/")
}

func (p *Path) global(g *ssa.Global) *Value {
	if v, ok := p.globals[g]; ok {
		return v
	}
	if v, ok := p.W.globals[g]; ok {
		return v
	}
	pkg := g.Pkg
	// a model may stand in for a package-level variable
	if mp := p.P.models[strings.ReplaceAll(pkg.Pkg.Path(), "/", "_")]; mp != nil {
		if mg, ok := mp.Members[g.Name()].(*ssa.Global); ok {
			v := p.global(mg)
			p.globals[g] = v
			return v
		}
	}
	p.initPkg(pkg)
	if v, ok := p.globals[g]; ok {
		return v
	}
	return p.W.globals[g]
}

func (p *Path) initPkg(pkg *ssa.Package) {
	own := p.isRepo(pkg)
	tab := p.globals
	if !own {
		tab = p.W.globals
	}
	names := make([]string, 0, len(pkg.Members))
	for n := range pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if g, ok := pkg.Members[n].(*ssa.Global); ok {
			if _, done := tab[g]; done {
				continue
			}
			v := new(Value)
			*v = zero(g.Type().(*types.Pointer).Elem())
			tab[g] = v
		}
	}
	if p.inited[pkg] || p.W.inited[pkg] {
		return
	}
	if own {
		p.inited[pkg] = true
	} else {
		p.W.inited[pkg] = true
		if noInit[pkg.Pkg.Path()] || strings.HasPrefix(pkg.Pkg.Path(), "internal/runtime") {
			return
		}
	}
	if f := pkg.Func("init"); f != nil && f.Blocks != nil {
		p.runNested(f, nil)
	}
}

// runNested runs fn to completion on a private goroutine, without scheduling.
func (p *Path) runNested(fn *ssa.Function, args []Value) Value {
	return p.runNestedC(&Closure{Fn: fn}, args)
}

func (p *Path) runNestedC(c *Closure, args []Value) Value {
	fn := c.Fn
	old := p.cur
	oe := p.expl
	or := p.raceOn
	p.expl = false
	p.raceOn = false
	p.nested++
	g := &Gor{id: -1, proc: 0}
	if old != nil {
		g.proc = old.proc
	}
	p.cur = g
	p.pushFrame(g, c, args, -1, nil)
	for g.top != nil {
		p.step(g)
		if g.wait != nil || g.parked {
			panic(engineError("blocking operation in nested run of " + fn.String()))
		}
	}
	p.nested--
	p.cur = old
	p.expl = oe
	p.raceOn = or
	return g.result
}

// ---- frames and calls ----

func (p *Path) pushFrame(g *Gor, c *Closure, args []Value, ret int, done func(Value)) {
	fn := c.Fn
	if len(fn.Blocks) == 0 {
		panic(engineError("no body: " + fn.String()))
	}
	fi := p.P.info(fn)
	if p.nested == 0 && fn.Pkg != nil || fn.Origin() != nil {
		p.funcs[fn] = true
	}
	f := &frame{fi: fi, env: make([]Value, fi.nslots), ret: ret, caller: g.top, done: done}
	for i, a := range args {
		f.env[fi.params[i]] = a
	}
	for i, v := range c.Env {
		f.env[fi.free[i]] = v
	}
	g.top = f
	g.depth++
	if g.depth > 5000 {
		panic(engineError("stack overflow in " + fn.String()))
	}
}

// popFrame returns v from the top frame.
func (p *Path) popFrame(g *Gor, v Value) {
	f := g.top
	g.top = f.caller
	if f.native == nil {
		g.depth--
	}
	if f.isDefer {
		// the owner continues its RunDefers or its unwinding
		if f.caller != nil && f.caller.unwind {
			p.continueUnwind(g, f.caller)
		}
		return
	}
	if f.done != nil {
		f.done(v)
		return
	}
	if f.caller == nil {
		g.result = v
		return
	}
	if f.ret >= 0 {
		f.caller.env[f.ret] = v
	}
}

// goPanic starts a Go panic in the current frame.
func (p *Path) goPanic(g *Gor, v Iface) {
	f := g.top
	if f == nil {
		panic(engineError("panic without frame"))
	}
	pos := p.posOf(g)
	if f.unwind && !f.recov {
		// panic while unwinding replaces the value
	}
	f.unwind = true
	f.recov = false
	f.pval = v
	f.ppos = pos
	p.continueUnwind(g, f)
}

func (p *Path) continueUnwind(g *Gor, f *frame) {
	for {
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			p.runDeferred(g, d)
			return
		}
		if f.recov {
			f.unwind = false
			if rb := f.fi.fn.Recover; rb != nil {
				f.blk = rb.Index
				f.pc = 0
				return
			}
			res := f.fi.fn.Signature.Results()
			var v Value
			switch res.Len() {
			case 0:
			case 1:
				v = zero(res.At(0).Type())
			default:
				v = zero(res)
			}
			p.popFrame(g, v)
			return
		}
		// propagate
		up := f.caller
		if up == nil {
			p.uncaught(g, f)
			return
		}
		pv, pp := f.pval, f.ppos
		g.top = up
		if f.native == nil {
			g.depth--
		}
		if f.done != nil && f.isDefer == false && f.ret == -2 {
			panic(engineError("panic through engine callback"))
		}
		up.unwind = true
		up.recov = false
		up.pval = pv
		up.ppos = pp
		f = up
	}
}

func (p *Path) runDeferred(g *Gor, d *deferred) {
	fn, env, in := p.resolve(d.fn, d.cs)
	if in != nil {
		g.top = &frame{native: &nativeCall{in: in, args: d.args, fn: fn, cs: d.cs}, caller: g.top, isDefer: true, ret: -1}
		return
	}
	p.pushFrame(g, &Closure{Fn: fn, Env: env}, d.args, -1, nil)
	g.top.isDefer = true
}

func (p *Path) uncaught(g *Gor, f *frame) {
	msg := p.panicText(f.pval)
	g.top = nil
	g.dead = true
	if g.id < 0 {
		panic(engineError("panic in nested run: " + msg + " at " + f.ppos))
	}
	if pr := p.procs[g.proc]; pr != nil && pr.id != 0 {
		p.endProc(pr, 4, "panic: "+msg+" at "+f.ppos)
		return
	}
	p.violation("panic", "uncaught panic: "+msg, f.ppos, nil)
	p.abort("panic")
}

func (p *Path) endProc(pr *proc, outcome int, detail string) {
	pr.outcome = outcome
	pr.detail = detail
	for _, g := range p.gs {
		if g.proc == pr.id {
			g.dead = true
			g.top = nil
		}
	}
	var keep []*timer
	for _, t := range p.timers {
		if t.proc != pr.id {
			keep = append(keep, t)
		}
	}
	p.timers = keep
}

func (p *Path) panicText(v Iface) string {
	if v.T == nil {
		return "nil"
	}
	switch x := v.V.(type) {
	case *Str:
		return x.String()
	case *Term:
		return x.String()
	case *Value:
		if x != nil {
			return v.T.String() + " " + describeD(*x, 3)
		}
	}
	return v.T.String()
}

func (p *Path) rtPanic(g *Gor, msg string) {
	p.goPanic(g, Iface{T: p.P.canonType(p.P.rtErr), V: cstr(msg)})
}

func (p *Path) posOf(g *Gor) string {
	for f := g.top; f != nil; f = f.caller {
		if f.fi == nil {
			continue
		}
		pc := f.pc
		b := f.fi.blocks[f.blk]
		if pc >= len(b) {
			pc = len(b) - 1
		}
		for k := pc; k >= 0 && k >= pc-1; k-- {
			if ps := b[k].ins.Pos(); ps != token.NoPos {
				return p.posStr(ps) + " (" + shortFn(f.fi.fn) + ")"
			}
		}
	}
	return "?"
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	return strings.ReplaceAll(s, "github.com/sira-serverless-ir-arch/goirlib/", "")
}

func (p *Path) posStr(ps token.Pos) string {
	q := p.P.prog.Fset.Position(ps)
	f := q.Filename
	if i := strings.Index(f, "/zzverif/"); i >= 0 {
		f = f[i+1:]
	}
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// repoPos is the innermost position inside the repository's own code.
func (p *Path) repoPos(g *Gor) string {
	for f := g.top; f != nil; f = f.caller {
		if f.fi == nil || f.fi.fn.Pkg == nil || !p.isRepo(f.fi.fn.Pkg) || strings.Contains(f.fi.fn.Pkg.Pkg.Path(), "/zzverif/") {
			continue
		}
		b := f.fi.blocks[f.blk]
		pc := f.pc
		if pc >= len(b) {
			pc = len(b) - 1
		}
		for k := pc; k >= 0 && k >= pc-1; k-- {
			if ps := b[k].ins.Pos(); ps != token.NoPos {
				return p.posStr(ps)
			}
		}
	}
	return p.posOf(g)
}
