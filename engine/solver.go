package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// FloatMode says how float64 terms are put to the solver.
type FloatMode int

const (
	FloatFP  FloatMode = iota // IEEE-754 theory
	FloatUF                   // uninterpreted operations over an ordered domain without NaN
	FloatErr                  // reals with an explicit rounding error per operation; integers mathematical
)

type Verdict int

const (
	Unsat Verdict = iota
	Sat
	Unknown
)

func (v Verdict) String() string { return [...]string{"unsat", "sat", "unknown"}[v] }

// SolverStats counts what a solver did.
type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	MaxQuery                     time.Duration
}

func (s *SolverStats) add(o SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Time += o.Time
	if o.MaxQuery > s.MaxQuery {
		s.MaxQuery = o.MaxQuery
	}
}

// Solver drives one z3 process over SMT-LIB 2.
type Solver struct {
	cmd    *exec.Cmd
	in     *bufio.Writer
	inC    io.Closer
	out    *bufio.Reader
	mode   FloatMode
	defd   map[*Term]string
	vars   []*Term
	log    *strings.Builder // script of the current path
	Stats  SolverStats
	tmo    time.Duration
	bin    string
	dead   bool
	ufs    map[string]bool
	nerr   int
	rng    map[*Term][2]int64 // ranges of integer variables
	grids  map[*Term]grid
	coarse map[string]*Term // what is rounded to single precision, by the name of the rounding error
	until  time.Time        // no query runs on much longer than this
}

// watch ends the solver process if a query ignores its time limit; the returned function ends the watch.
func (s *Solver) watch() func() {
	d := s.tmo + s.tmo/2 + 2*time.Second
	if r := time.Until(s.until) + 3*time.Second; !s.until.IsZero() && r < d {
		d = r
	}
	if d < 100*time.Millisecond {
		d = 100 * time.Millisecond
	}
	proc := s.cmd.Process
	t := time.AfterFunc(d, func() { proc.Kill() })
	return func() { t.Stop() }
}

func NewSolver(mode FloatMode, tmo time.Duration) (*Solver, error) {
	s := &Solver{mode: mode, tmo: tmo, bin: "z3-new"}
	if b := os.Getenv("GOSYM_Z3"); b != "" {
		s.bin = b
	}
	if err := s.start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2", "-memory:3000")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.inC = w
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.dead = false
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-option :pp.bv_literals true)\n", s.tmo.Milliseconds())
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// Begin opens the scope of a new path.
func (s *Solver) Begin() {
	if s.dead {
		s.Close()
		if err := s.start(); err != nil {
			panic(engineError("cannot restart solver: " + err.Error()))
		}
	}
	s.defd = make(map[*Term]string)
	s.ufs = make(map[string]bool)
	s.rng = make(map[*Term][2]int64)
	s.grids = make(map[*Term]grid)
	s.coarse = make(map[string]*Term)
	s.vars = nil
	s.log = &strings.Builder{}
	s.raw("(push 1)\n")
	switch s.mode {
	case FloatUF:
		for _, f := range []string{"fadd", "fsub", "fmul", "fdiv"} {
			s.emit("(declare-fun " + f + " (Real Real) Real)\n")
		}
		s.emit("(declare-fun fneg (Real) Real)\n(declare-fun i2f ((_ BitVec 64)) Real)\n")
	}
}

func (s *Solver) End() {
	s.raw("(pop 1)\n")
}

func (s *Solver) raw(t string) { s.in.WriteString(t) }

func (s *Solver) emit(t string) {
	s.log.WriteString(t)
	s.in.WriteString(t)
}

func (s *Solver) sort(w uint8) string {
	switch {
	case w == 0:
		return "Bool"
	case w == WF:
		if s.mode == FloatFP {
			return "(_ FloatingPoint 11 53)"
		}
		return "Real"
	}
	if s.mode == FloatErr {
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func realLit(f float64) string {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		panic(engineError("NaN or Inf constant in a real-valued float encoding"))
	}
	r := new(big.Rat).SetFloat64(f)
	neg := r.Sign() < 0
	if neg {
		r.Neg(r)
	}
	t := fmt.Sprintf("(/ %s.0 %s.0)", r.Num().String(), r.Denom().String())
	if r.IsInt() {
		t = r.Num().String() + ".0"
	}
	if neg {
		return "(- " + t + ")"
	}
	return t
}

func (s *Solver) lit(t *Term) string {
	switch {
	case t.W == 0:
		if t.Val == 1 {
			return "true"
		}
		return "false"
	case t.W == WF:
		if s.mode == FloatFP {
			b := t.Val
			return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&((1<<52)-1))
		}
		return realLit(t.F())
	}
	if s.mode == FloatErr {
		v := t.S()
		if v < 0 {
			return fmt.Sprintf("(- %s)", new(big.Int).Neg(big.NewInt(v)).String())
		}
		return strconv.FormatInt(v, 10)
	}
	if t.W%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.W)/4, t.Val)
	}
	return fmt.Sprintf("#b%0*b", int(t.W), t.Val)
}

// ref returns a name or literal for t, defining what it needs.
func (s *Solver) ref(t *Term) string {
	if t.Op == OConst {
		return s.lit(t)
	}
	if n, ok := s.defd[t]; ok {
		return n
	}
	if t.Op == OVar {
		n := "|" + t.Name + "|"
		s.emit("(declare-const " + n + " " + s.sort(t.W) + ")\n")
		s.vars = append(s.vars, t)
		s.defd[t] = n
		if s.mode == FloatErr && t.W > 0 && t.W <= 64 {
			s.emit(fmt.Sprintf("(assert (and (<= (- 9223372036854775808) %s) (<= %s 9223372036854775807)))\n", n, n))
		}
		return n
	}
	var a, b, c string
	if t.A != nil {
		a = s.ref(t.A)
	}
	if t.B != nil {
		b = s.ref(t.B)
	}
	if t.C != nil {
		c = s.ref(t.C)
	}
	e := s.expr(t, a, b, c)
	n := fmt.Sprintf("t%d", t.id)
	s.emit("(define-fun " + n + " () " + s.sort(t.W) + " " + e + ")\n")
	s.defd[t] = n
	return n
}

const ulp = "(/ 1.0 9007199254740992.0)" // 2^-53

const ulp32 = "(/ 1.0 16777216.0)" // 2^-24

func (s *Solver) expr(t *Term, a, b, c string) string {
	real := s.mode != FloatFP
	isErr := s.mode == FloatErr
	switch t.Op {
	case OIte:
		return "(ite " + a + " " + b + " " + c + ")"
	case OZext:
		if isErr {
			return a
		}
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.A.W, a)
	case OSext:
		if isErr {
			return a
		}
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A.W, a)
	case OExtract:
		if isErr {
			panic(engineError("bit extraction in the integer encoding"))
		}
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.Lo)+int(t.W)-1, t.Lo, a)
	case OSI2F, OUI2F:
		switch s.mode {
		case FloatFP:
			if t.Op == OSI2F {
				return "((_ to_fp 11 53) RNE " + a + ")"
			}
			return "((_ to_fp_unsigned 11 53) RNE " + a + ")"
		case FloatUF:
			if t.A.W != 64 {
				if t.Op == OSI2F {
					a = fmt.Sprintf("((_ sign_extend %d) %s)", 64-t.A.W, a)
				} else {
					a = fmt.Sprintf("((_ zero_extend %d) %s)", 64-t.A.W, a)
				}
			}
			return "(i2f " + a + ")"
		default:
			return "(to_real " + a + ")"
		}
	case OF2SI:
		if s.mode == FloatFP {
			return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.W, a)
		}
		if !isErr {
			panic(engineError("float to integer conversion in an uninterpreted encoding"))
		}
		// the integer next to a on the side of zero (no overflow within the bounds)
		n := fmt.Sprintf("trunc%d", t.id)
		s.emit(fmt.Sprintf("(declare-const %s Int)\n(assert (ite (<= 0.0 %s) (and (<= (to_real %s) %s) (< %s (+ 1.0 (to_real %s)))) (and (< (- (to_real %s) 1.0) %s) (<= %s (to_real %s)))))\n", n, a, n, a, a, n, n, a, a, n))
		return n
	case OFUF:
		f := "uf_" + t.Name
		if t.Name == "f32" && s.mode == FloatFP {
			return "((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE " + a + "))"
		}
		if isErr {
			switch t.Name {
			case "f32":
				if g := s.gridOf(t.A); g.ok && g.m < 100 && math.Ldexp(g.max, g.m) <= 1<<24 {
					return a
				}
				d := fmt.Sprintf("rnd%d", t.id)
				s.coarse[d] = t.A
				s.emit(fmt.Sprintf("(declare-const %s Real)\n(assert (and (<= (- %s) %s) (<= %s %s)))\n", d, ulp32, d, d, ulp32))
				return "(* " + a + " (+ 1.0 " + d + "))"
			case "floor":
				return "(to_real (to_int " + a + "))"
			case "ceil":
				return "(- (to_real (to_int (- " + a + "))))"
			case "trunc":
				return "(ite (>= " + a + " 0.0) (to_real (to_int " + a + ")) (- (to_real (to_int (- " + a + ")))))"
			case "round":
				return "(ite (>= " + a + " 0.0) (to_real (to_int (+ " + a + " 0.5))) (- (to_real (to_int (- 0.5 " + a + ")))))"
			}
			// a value of its own for every argument; the axioms relate the values
			n := fmt.Sprintf("%s%d", f, t.id)
			s.emit("(declare-const " + n + " Real)\n")
			return n
		}
		if !s.ufs[f] {
			s.ufs[f] = true
			srt := s.sort(WF)
			s.emit("(declare-fun " + f + " (" + srt + ") " + srt + ")\n")
		}
		return "(" + f + " " + a + ")"
	case OFIsNaN:
		if real {
			return "false"
		}
		return "(fp.isNaN " + a + ")"
	case OFIsInf:
		if real {
			return "false"
		}
		return "(fp.isInfinite " + a + ")"
	}
	if real {
		switch t.Op {
		case OFLt:
			return "(< " + a + " " + b + ")"
		case OFLe:
			return "(<= " + a + " " + b + ")"
		case OFEq:
			return "(= " + a + " " + b + ")"
		}
		if isErr {
			op := map[Op]string{OFAdd: "+", OFSub: "-", OFMul: "*", OFDiv: "/"}[t.Op]
			if op != "" {
				if op != "/" && s.exact(t) {
					return "(" + op + " " + a + " " + b + ")"
				}
				d := fmt.Sprintf("rnd%d", t.id)
				s.emit(fmt.Sprintf("(declare-const %s Real)\n(assert (and (<= (- %s) %s) (<= %s %s)))\n", d, ulp, d, d, ulp))
				if op == "/" {
					s.emit("(assert (not (= " + b + " 0.0)))\n")
				}
				return "(* (" + op + " " + a + " " + b + ") (+ 1.0 " + d + "))"
			}
			if t.Op == OFNeg {
				return "(- " + a + ")"
			}
			switch t.Op {
			case OSlt:
				return "(< " + a + " " + b + ")"
			case OSle:
				return "(<= " + a + " " + b + ")"
			case OAdd:
				return "(+ " + a + " " + b + ")"
			case OSub:
				return "(- " + a + " " + b + ")"
			case OMul:
				return "(* " + a + " " + b + ")"
			case OEq, ONot, OAnd, OOr:
			default:
				panic(engineError("operator " + opNames[t.Op] + " in the integer encoding"))
			}
		} else {
			op := map[Op]string{OFAdd: "fadd", OFSub: "fsub", OFMul: "fmul", OFDiv: "fdiv"}[t.Op]
			if op != "" {
				return "(" + op + " " + a + " " + b + ")"
			}
			if t.Op == OFNeg {
				return "(fneg " + a + ")"
			}
		}
	}
	e := "(" + opNames[t.Op] + " " + a
	if t.B != nil {
		e += " " + b
	}
	return e + ")"
}

// grid says that a number is a multiple of 2^-m and its magnitude is at most max.
type grid struct {
	ok  bool
	m   int
	max float64
}

// exact tells whether the result of the float operation t needs no rounding.
func (s *Solver) exact(t *Term) bool {
	g := s.gridOf(t)
	return g.ok && g.m < 500 && math.Ldexp(g.max, g.m) <= 1<<53
}

func (s *Solver) gridOf(t *Term) grid {
	if g, ok := s.grids[t]; ok {
		return g
	}
	g := s.grid1(t)
	s.grids[t] = g
	return g
}

func (s *Solver) grid1(t *Term) grid {
	two := func() (grid, grid, bool) {
		a, b := s.gridOf(t.A), s.gridOf(t.B)
		return a, b, a.ok && b.ok
	}
	switch t.Op {
	case OConst:
		if t.W != WF {
			return grid{true, 0, math.Abs(float64(t.S()))}
		}
		f := t.F()
		for m := 0; m < 60; m++ {
			if x := math.Ldexp(f, m); x == math.Trunc(x) {
				return grid{true, m, math.Abs(f)}
			}
		}
	case OVar:
		if r, ok := s.rng[t]; ok {
			return grid{true, 0, math.Max(math.Abs(float64(r[0])), math.Abs(float64(r[1])))}
		}
	case OZext, OSext, OSI2F, OUI2F:
		return s.gridOf(t.A)
	case OF2SI:
		if a := s.gridOf(t.A); a.ok {
			return grid{true, 0, a.max}
		}
	case OIte:
		b, c := s.gridOf(t.B), s.gridOf(t.C)
		if b.ok && c.ok {
			return grid{true, max(b.m, c.m), math.Max(b.max, c.max)}
		}
	case OFNeg, ONeg:
		return s.gridOf(t.A)
	case OFUF:
		if a := s.gridOf(t.A); t.Name == "f32" && a.ok && a.m < 100 && math.Ldexp(a.max, a.m) <= 1<<24 {
			return a
		}
	case OAdd, OSub, OFAdd, OFSub:
		if a, b, ok := two(); ok {
			return s.rounded(t, grid{true, max(a.m, b.m), a.max + b.max})
		}
	case OMul, OFMul:
		if a, b, ok := two(); ok {
			return s.rounded(t, grid{true, a.m + b.m, a.max * b.max})
		}
	}
	return grid{}
}

// rounded gives up on float results that may have been rounded.
func (s *Solver) rounded(t *Term, g grid) grid {
	if t.W == WF && (g.m > 500 || math.Ldexp(g.max, g.m) > 1<<53) {
		return grid{}
	}
	return g
}

// Assert adds t to the path's assertions.
func (s *Solver) Assert(t *Term) {
	r := s.ref(t)
	s.emit("(assert " + r + ")\n")
}

// AssertRaw adds SMT text (axioms of a stub) to the path.
func (s *Solver) AssertRaw(x string) { s.emit(x) }

// Check asks whether the path's assertions and extra are satisfiable; with model it also returns the variables' values.
func (s *Solver) Check(extra *Term, model bool) (Verdict, map[string]uint64) {
	if s.dead {
		return Unknown, nil
	}
	var r string
	if extra != nil {
		r = s.ref(extra)
	}
	s.raw("(push 1)\n")
	if extra != nil {
		s.raw("(assert " + r + ")\n")
	}
	s.raw("(check-sat)\n")
	t0 := time.Now()
	s.in.Flush()
	stop := s.watch()
	line := s.readLine()
	stop()
	d := time.Since(t0)
	s.Stats.Queries++
	s.Stats.Time += d
	if d > s.Stats.MaxQuery {
		s.Stats.MaxQuery = d
	}
	if s.dead {
		s.Stats.Unknown++
		panic(pathEnd{"solver gave no answer in time"})
	}
	var v Verdict
	switch line {
	case "sat":
		v = Sat
		s.Stats.Sat++
	case "unsat":
		v = Unsat
		s.Stats.Unsat++
	default:
		v = Unknown
		s.Stats.Unknown++
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver:", line)
		}
		if strings.HasPrefix(line, "(error") {
			s.nerr++
			// answers after an error cannot be trusted
			fmt.Fprintln(os.Stderr, "solver error:", line)
		}
	}
	var m map[string]uint64
	if v == Sat && model {
		m = s.getModel()
	}
	s.raw("(pop 1)\n")
	return v, m
}

// Script is the SMT-LIB text of the path so far plus extra, for another solver or a log.
func (s *Solver) Script(extra *Term) string {
	var r string
	if extra != nil {
		r = "(assert " + s.ref(extra) + ")\n"
	}
	return "(set-logic ALL)\n" + s.log.String() + r + "(check-sat)\n"
}

// CheckExternal puts the path and extra to another solver binary, once.
func CheckExternal(script string, tmo time.Duration, argv ...string) Verdict {
	f, err := os.CreateTemp("", "gosym*.smt2")
	if err != nil {
		return Unknown
	}
	defer os.Remove(f.Name())
	f.WriteString(script)
	f.Close()
	cmd := exec.Command("timeout", append([]string{strconv.Itoa(int(tmo.Seconds()) + 1)}, append(argv, f.Name())...)...)
	out, _ := cmd.Output()
	l := strings.TrimSpace(string(out))
	if strings.Contains(l, "(error") {
		return Unknown
	}
	switch strings.SplitN(l, "\n", 2)[0] {
	case "sat":
		return Sat
	case "unsat":
		return Unsat
	}
	return Unknown
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "no answer in time"
		}
		if l = strings.TrimSpace(l); l != "" {
			return l
		}
	}
}

func (s *Solver) readSexp() string {
	var b strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return ""
		}
		b.WriteByte(c)
		if inBar {
			if c == '|' {
				inBar = false
			}
			continue
		}
		switch c {
		case '|':
			inBar = true
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			return b.String()
		}
	}
}

func (s *Solver) getModel() map[string]uint64 {
	m := make(map[string]uint64)
	if len(s.vars) == 0 {
		return m
	}
	s.raw("(get-value (")
	for _, v := range s.vars {
		s.raw(" |" + v.Name + "|")
	}
	s.raw("))\n")
	s.in.Flush()
	txt := s.readSexp()
	p := &sexpParser{s: txt}
	top := p.parse()
	l, ok := top.([]interface{})
	if !ok || len(l) != len(s.vars) {
		return m
	}
	for i, v := range s.vars {
		pair, ok := l[i].([]interface{})
		if !ok || len(pair) != 2 {
			continue
		}
		if x, ok := sexpVal(pair[1], v.W); ok {
			m[v.Name] = x
		}
	}
	return m
}

type sexpParser struct {
	s string
	i int
}

func (p *sexpParser) parse() interface{} {
	for p.i < len(p.s) && strings.ContainsRune(" \n\t\r", rune(p.s[p.i])) {
		p.i++
	}
	if p.i >= len(p.s) {
		return nil
	}
	switch p.s[p.i] {
	case '(':
		p.i++
		l := []interface{}{}
		for {
			for p.i < len(p.s) && strings.ContainsRune(" \n\t\r", rune(p.s[p.i])) {
				p.i++
			}
			if p.i >= len(p.s) {
				return l
			}
			if p.s[p.i] == ')' {
				p.i++
				return l
			}
			l = append(l, p.parse())
		}
	case '|':
		j := strings.IndexByte(p.s[p.i+1:], '|')
		t := p.s[p.i : p.i+j+2]
		p.i += j + 2
		return t
	}
	j := p.i
	for j < len(p.s) && !strings.ContainsRune(" \n\t\r()", rune(p.s[j])) {
		j++
	}
	t := p.s[p.i:j]
	p.i = j
	return t
}

func sexpReal(x interface{}) (*big.Rat, bool) {
	switch x := x.(type) {
	case string:
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(x, "?"))
		return r, ok
	case []interface{}:
		if len(x) == 2 && x[0] == "-" {
			r, ok := sexpReal(x[1])
			if ok {
				r.Neg(r)
			}
			return r, ok
		}
		if len(x) == 3 && x[0] == "/" {
			a, ok1 := sexpReal(x[1])
			b, ok2 := sexpReal(x[2])
			if ok1 && ok2 && b.Sign() != 0 {
				return a.Quo(a, b), true
			}
		}
	}
	return nil, false
}

func sexpVal(x interface{}, w uint8) (uint64, bool) {
	if s, ok := x.(string); ok {
		switch {
		case s == "true":
			return 1, true
		case s == "false":
			return 0, true
		case strings.HasPrefix(s, "#x"):
			v, err := strconv.ParseUint(s[2:], 16, 64)
			return v, err == nil
		case strings.HasPrefix(s, "#b"):
			v, err := strconv.ParseUint(s[2:], 2, 64)
			return v, err == nil
		}
	}
	if l, ok := x.([]interface{}); ok && len(l) > 0 {
		if l[0] == "fp" && len(l) == 4 {
			a, _ := sexpVal(l[1], 1)
			b, _ := sexpVal(l[2], 11)
			c, _ := sexpVal(l[3], 52)
			return a<<63 | b<<52 | c, true
		}
		if l[0] == "_" && len(l) >= 2 {
			switch l[1] {
			case "+zero":
				return 0, true
			case "-zero":
				return 1 << 63, true
			case "+oo":
				return math.Float64bits(math.Inf(1)), true
			case "-oo":
				return math.Float64bits(math.Inf(-1)), true
			case "NaN":
				return math.Float64bits(math.NaN()), true
			}
		}
	}
	if r, ok := sexpReal(x); ok {
		if w == WF {
			f, _ := r.Float64()
			return math.Float64bits(f), true
		}
		if r.IsInt() {
			return uint64(r.Num().Int64()) & mask(w), true
		}
	}
	return 0, false
}
