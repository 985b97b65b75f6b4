package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// harn is a harness with the budget it gets.
type harn struct {
	pkg, fn  string
	float    FloatMode
	deepOnly bool
	secs     int     // quick budget; default 60
	deepSecs int     // thorough budget; default 600
	steps    int64   // instructions per path after which it counts as not finishing
	noTrace  bool    // passing paths cannot be run natively
	bounds   string  // what is symbolic and what is bounded
	tmo      float64 // solver timeout per query in seconds
}

func checkIDs() []string {
	var l []string
	for id := range checks {
		l = append(l, id)
	}
	sort.Strings(l)
	return l
}

func findHarness(pkg, fn string) *harn {
	for _, hs := range checks {
		for i := range hs {
			if hs[i].pkg == pkg && hs[i].fn == fn {
				h := hs[i]
				return &h
			}
		}
	}
	return nil
}

func explore(P *Program, h *harn, deep bool, deadline time.Time, stopAt int, known func(*Violation) bool) (*Explorer, error) {
	sp := P.byPath[P.zz+h.pkg]
	if h.pkg == "root" {
		sp = P.byPath[P.module]
	}
	if sp == nil {
		return nil, fmt.Errorf("no package %s", h.pkg)
	}
	fn := sp.Func(h.fn)
	if fn == nil {
		return nil, fmt.Errorf("no harness %s in %s", h.fn, h.pkg)
	}
	steps := h.steps
	if steps == 0 {
		steps = 20000000
	}
	tmo := 20 * time.Second
	if h.tmo > 0 {
		tmo = time.Duration(h.tmo * float64(time.Second))
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	ex := &Explorer{P: P, cfg: &Config{Harness: h.fn, MaxSteps: steps, Float: h.float}, fn: fn, solverTmo: tmo, deadline: deadline, workers: nw, stopAt: stopAt, thorough: deep, isKnown: known}
	return ex, ex.Run()
}

type knownFinding struct {
	prop, harness, label, what string
}

// readKnown reads lines `known: property=ID harness=H label="L" what`.
func readKnown(verif string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var l []knownFinding
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known:") {
			continue
		}
		rest := strings.TrimSpace(line[6:])
		var k knownFinding
		for {
			rest = strings.TrimSpace(rest)
			switch {
			case strings.HasPrefix(rest, "property="):
				k.prop, rest, _ = strings.Cut(rest[9:], " ")
				continue
			case strings.HasPrefix(rest, "harness="):
				k.harness, rest, _ = strings.Cut(rest[8:], " ")
				continue
			case strings.HasPrefix(rest, "label=\""):
				k.label, rest, _ = strings.Cut(rest[7:], "\"")
				continue
			}
			break
		}
		k.what = rest
		l = append(l, k)
	}
	return l
}

func (h *harn) budget(deep bool) time.Duration {
	s := h.secs
	if s == 0 {
		s = 60
	}
	if deep {
		s = h.deepSecs
		if s == 0 {
			s = 600
		}
	}
	return time.Duration(s) * time.Second
}

// runCheck decides a property and writes its evidence file. It returns the exit code.
func runCheck(verif, id, tier string) int {
	t0 := time.Now()
	deep := tier == "thorough"
	hs, ok := checks[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "no check for property %s\n", id)
		return 2
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	limit := t0.Add(800 * time.Second)
	if deep {
		limit = t0.Add(3 * time.Hour)
	}
	pkgs := map[string]bool{}
	var pl []string
	needMain := false
	for _, h := range hs {
		if !pkgs[h.pkg] {
			pkgs[h.pkg] = true
			pl = append(pl, h.pkg)
		}
		needMain = needMain || h.pkg == "root"
	}
	P, err := Load(verif, repoDir, pl, needMain)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	loadT := time.Since(t0)
	known := readKnown(verif)
	natives := map[string]*native{}
	defer func() {
		for _, n := range natives {
			n.close()
		}
	}()
	nat := func(pkg string) *native {
		if natives[pkg] == nil {
			natives[pkg] = newNative(verif, repoDir, pkg)
		}
		return natives[pkg]
	}
	var (
		tot       SolverStats
		paths     int
		steps     int64
		asserts   int64
		trivial   int64
		decs      int64
		cross     int
		crossOK   int
		crossUnk  int
		traces    int
		traceBad  []string
		samples   []string
		harnOut   []interface{}
		incon     []string
		bounds    []string
		allDone   = true
		vacuous   []string
		nviol     int
		nknown    int
		unconf    []string
		funcs     = map[string]bool{}
		exit      = 0
		knownSeen = map[string]bool{}
		natT      time.Duration // spent on native runs
	)
	for i := range hs {
		h := hs[i]
		if h.deepOnly && !deep {
			continue
		}
		dl := time.Now().Add(h.budget(deep))
		if dl.After(limit) {
			dl = limit
		}
		skip := map[string]bool{} // labels whose counterexample the compiled code does not reproduce
		rounds := 0
	again:
		isKnown := func(v *Violation) bool {
			for _, k := range known {
				if k.prop == id && k.harness == h.fn && k.label == v.Label {
					return true
				}
			}
			return false
		}
		ex, err := explore(P, &h, deep, dl, 1, func(v *Violation) bool { return skip[v.Label] || isKnown(v) })
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		rounds++
		tot.add(ex.stats)
		paths += ex.paths
		steps += ex.steps
		asserts += ex.asserts
		trivial += ex.trivial
		decs += ex.decs
		cross += ex.cross
		crossOK += ex.crossOK
		crossUnk += ex.crossUnk
		for f := range ex.funcs {
			if n := repoFn(P, f); n != "" {
				funcs[n] = true
			}
		}
		for _, s := range ex.samples {
			samples = append(samples, h.fn+": "+s)
		}
		if h.bounds != "" {
			bounds = append(bounds, h.fn+": "+h.bounds)
		}
		if !ex.complete() {
			allDone = false
			if ex.why != "" {
				incon = append(incon, h.fn+": "+ex.why)
			}
			for _, s := range sortedCounts(ex.incon) {
				incon = append(incon, h.fn+": "+s)
			}
		}
		bad, retry := false, false
		for n, v := range ex.viol {
			if skip[v.Label] {
				continue
			}
			if isKnown(v) {
				k := h.fn + "|" + v.Label
				if !knownSeen[k] {
					knownSeen[k] = true
					nknown++
					what := v.Label
					for _, kf := range known {
						if kf.prop == id && kf.harness == h.fn && kf.label == v.Label {
							what = kf.what
						}
					}
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
				}
				continue
			}
			dir := filepath.Join(verif, "evidence", "replay")
			os.MkdirAll(dir, 0755)
			file := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", id, h.fn, n))
			res := nat(h.pkg).confirm(&h, v, file, deep)
			v.Native = res.text
			b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "package": h.pkg, "violation": v, "values": v.Values, "crash": v.Crash, "crash_n": v.CrashN, "partial": v.Partial,
				"how": "the harness " + h.fn + " in harness/" + h.pkg + " fails on these inputs; gosym replays them natively with the overlay packages"}, "", "  ")
			os.WriteFile(file, b, 0644)
			if res.ran && !res.confirmed && (!v.scheduleDependent() || v.Label == "no-progress") {
				unconf = append(unconf, h.fn+": "+v.Label+": "+res.text)
				fmt.Printf("note: %s: counterexample for %q was not reproduced by the compiled code and is not reported\n", h.fn, v.Label)
				skip[v.Label] = true
				retry = true
				continue
			}
			bad = true
			nviol++
			exit = 1
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
			fmt.Printf("  %s: %s (%s) at %s; native replay: %s\n", h.fn, v.Label, v.Detail, v.Where, res.text)
		}
		if retry && !bad && rounds < 4 {
			goto again // whether something else is wrong
		}
		if !bad && len(ex.viol) == 0 && ex.reached["end"] == 0 && ex.incon != nil {
			vacuous = append(vacuous, h.fn)
		}
		nt := 0
		if !bad && !h.noTrace && len(ex.witness) > 0 {
			max := 3
			if deep {
				max = 10
			}
			for _, w := range pickWitness(ex.witness, max) {
				if natT > 90*time.Second && !deep {
					break
				}
				t1 := time.Now()
				r := nat(h.pkg).trace(&h, w, deep)
				natT += time.Since(t1)
				if !r.ran {
					incon = append(incon, h.fn+": native trace did not run: "+r.text)
					break
				}
				if r.confirmed {
					traceBad = append(traceBad, h.fn+": "+r.text)
					if strings.Contains(r.text, "did not finish") {
						break
					}
				} else {
					traces++
					nt++
				}
			}
		}
		harnOut = append(harnOut, map[string]interface{}{"harness": h.pkg + "." + h.fn, "paths": ex.paths, "path_ends": ex.aborted, "instructions": ex.steps, "longest_decision_sequence": ex.maxDec,
			"every_path_within_bounds_decided": ex.complete(), "reached": ex.reached, "assertion_sites": len(ex.asserted), "wall_s": ex.wall.Seconds(), "solver_queries": ex.stats.Queries, "traces_run_natively": nt, "notes": sortedCounts(ex.notes)})
		fmt.Printf("%s: %d paths, %d assertions put to the solver, %d queries, %.1fs, complete=%v\n", h.fn, ex.paths, ex.asserts-ex.trivial, ex.stats.Queries, ex.wall.Seconds(), ex.complete())
		if exit == 1 {
			break
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if len(samples) > 8 {
		samples = samples[:8]
	}
	if samples == nil {
		samples = []string{"no path finished"}
	}
	if exit == 0 && len(vacuous) > 0 && len(vacuous) == len(harnOut) {
		exit = 2
	}
	cov := map[string]interface{}{
		"states": paths, "transitions": steps, "traces_validated_against_impl": traces, "samples": samples,
		"explanation":                "states = symbolic paths (each stands for all inputs that satisfy its path condition), transitions = SSA instructions executed symbolically, assertions are decided by z3 on every path",
		"exhaustive":                 allDone && exit == 0,
		"obligations":                asserts,
		"obligations_by_rewriting":   trivial,
		"solver_queries":             map[string]interface{}{"total": tot.Queries, "sat": tot.Sat, "unsat": tot.Unsat, "unknown": tot.Unknown, "solver": "z3-new", "solver_time_s": tot.Time.Seconds(), "longest_query_s": tot.MaxQuery.Seconds()},
		"cross_checked_with_cvc5":    map[string]int{"put": cross, "agreed": crossOK, "no_answer": crossUnk},
		"decisions":                  decs,
		"functions_encoded":          fl,
		"bounds":                     bounds,
		"harnesses":                  harnOut,
		"inconclusive":               incon,
		"unconfirmed":                unconf,
		"trace_disagreements":        traceBad,
		"known_findings_seen":        nknown,
		"load_s":                     loadT.Seconds(),
		"harnesses_not_reaching_end": vacuous,
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"assumptions": assumptions}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range incon {
		fmt.Println("INCONCLUSIVE:", s)
	}
	for _, s := range traceBad {
		fmt.Println("TRACE DISAGREEMENT:", s)
	}
	for _, s := range vacuous {
		fmt.Println("INCONCLUSIVE: no path of", s, "reached its end")
	}
	return exit
}

var assumptions = []string{
	"the SSA form built by golang.org/x/tools means what the Go compiler makes of the source; the executor interprets it faithfully (checked on every run by executing sampled paths natively)",
	"memory operations are sequentially consistent where the race check finds no race",
	"files are an in-memory tree: a killed process keeps what it had written, the machine does not lose power",
	"gzip is an opaque injective framing (compress/gzip itself is not encoded)",
}

// repoFn names a function of the code under check.
func repoFn(P *Program, f *ssa.Function) string {
	if f.Pkg == nil && f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil || f.Synthetic != "" && !strings.Contains(f.Synthetic, "instantiation") {
		return ""
	}
	pp := f.Pkg.Pkg.Path()
	if pp != P.module && !strings.HasPrefix(pp, P.module+"/") || strings.HasPrefix(pp, strings.TrimSuffix(P.zz, "/")) {
		return ""
	}
	if f.Pos() != token.NoPos && strings.Contains(P.prog.Fset.Position(f.Pos()).Filename, "zzverif") {
		return ""
	}
	return strings.ReplaceAll(f.String(), P.module, "")
}

func (v *Violation) scheduleDependent() bool {
	return v.Concur || v.MapOrder || v.Label == "race" || v.Label == "deadlock" || v.Label == "no-progress" || v.Crash != ""
}

// pickWitness spreads n picks over the recorded ones.
func pickWitness(w []*Witness, n int) []*Witness {
	if len(w) <= n {
		return w
	}
	var l []*Witness
	for i := 0; i < n; i++ {
		l = append(l, w[i*(len(w)-1)/(n-1)])
	}
	return l
}
