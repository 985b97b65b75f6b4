package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// native runs harnesses compiled, on the inputs of a counterexample or of a path.
type native struct {
	verif, repo, pkg string
	dir              string
	bin              map[bool]string // by race detector
	err              map[bool]error
}

type nativeResult struct {
	ran       bool
	confirmed bool // the harness failed natively
	text      string
}

func (r nativeResult) String() string {
	return fmt.Sprintf("ran=%v confirmed=%v %s", r.ran, r.confirmed, r.text)
}

func newNative(verif, repo, pkg string) *native {
	return &native{verif: verif, repo: repo, pkg: pkg, bin: map[bool]string{}, err: map[bool]error{}}
}

func (n *native) close() {
	if n.dir != "" && strings.Contains(n.dir, "gosym-native") {
		os.RemoveAll(n.dir)
	}
}

const driver = `//go:debug asynctimerchan=0
package %s

import (
	"os"
	"testing"
	"testing/synctest"
	%s
)

func TestZZVerif(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		sym.QuiesceFn = synctest.Wait
		sym.Begin()
		switch os.Getenv("ZZVERIF_HARNESS") {
%s		}
		os.Exit(0)
	})
}
`

func (n *native) build(race bool) (string, error) {
	if b, ok := n.bin[race]; ok {
		return b, n.err[race]
	}
	b, err := n.build1(race)
	n.bin[race], n.err[race] = b, err
	return b, err
}

func (n *native) build1(race bool) (string, error) {
	if n.dir == "" {
		d, err := os.MkdirTemp("", "gosym-native")
		if err != nil {
			return "", err
		}
		n.dir = d
	}
	ov, err := overlayFiles(n.verif, n.repo)
	if err != nil {
		return "", err
	}
	for dst := range ov {
		if strings.Contains(dst, "/zzverif/vmodel/") || n.pkg != "root" && strings.HasPrefix(filepath.Base(dst), "zzverif_") {
			delete(ov, dst)
		}
	}
	// the harnesses of the package
	var names []string
	var pkgName string
	for dst, src := range ov {
		rel, _ := filepath.Rel(n.repo, dst)
		in := filepath.Dir(rel) == filepath.Join("zzverif", n.pkg)
		if n.pkg == "root" {
			in = strings.HasPrefix(rel, "zzverif_")
		}
		if !in {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), src, nil, 0)
		if err != nil {
			return "", err
		}
		pkgName = f.Name.Name
		for name := range f.Scope.Objects {
			if strings.HasPrefix(name, "H_") {
				names = append(names, name)
			}
		}
	}
	var cases strings.Builder
	for _, nm := range names {
		fmt.Fprintf(&cases, "\t\tcase %q:\n\t\t\t%s()\n", nm, nm)
	}
	mod := moduleName(n.repo)
	drv := filepath.Join(n.dir, "driver.go")
	os.WriteFile(drv, []byte(fmt.Sprintf(driver, pkgName, strconv.Quote(mod+"/zzverif/sym"), cases.String())), 0644)
	target := "./zzverif/" + n.pkg
	if n.pkg == "root" {
		target = "."
		ov[filepath.Join(n.repo, "zzverif_driver_test.go")] = drv
	} else {
		ov[filepath.Join(n.repo, "zzverif", n.pkg, "zzverif_driver_test.go")] = drv
	}
	// the code under check uses the wrapper of os, and no network
	for p, out := range rewriteImports(n.repo, map[string]string{"os": mod + "/zzverif/vos", ginPath: mod + "/zzverif/vgin"}) {
		rel, _ := filepath.Rel(n.repo, p)
		q := filepath.Join(n.dir, strings.ReplaceAll(rel, "/", "_"))
		os.WriteFile(q, out, 0644)
		ov[p] = q
	}
	ovf := filepath.Join(n.dir, "overlay.json")
	if err := writeOverlay(ovf, ov); err != nil {
		return "", err
	}
	bin := filepath.Join(n.dir, "t")
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf}
	if race {
		bin += "race"
		args = append(args, "-race")
	}
	args = append(args, "-o", bin, target)
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = n.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build failed: %v: %s", err, tail(string(out), 600))
	}
	return bin, nil
}

const ginPath = "github.com/gin-gonic/gin"

// rewriteImports gives the files of the code under check that import one of the packages, with the import replaced.
func rewriteImports(repo string, repl map[string]string) map[string][]byte {
	res := map[string][]byte{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if b := fi.Name(); p != repo && (strings.HasPrefix(b, ".") || b == "test") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ImportsOnly)
		if err != nil {
			return nil
		}
		out := src
		for i := len(f.Imports) - 1; i >= 0; i-- {
			im := f.Imports[i]
			old, _ := strconv.Unquote(im.Path.Value)
			r := repl[old]
			if r == "" {
				continue
			}
			t := strconv.Quote(r)
			if im.Name == nil {
				t = filepath.Base(old) + " " + t
			}
			a, b := fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset
			out = []byte(string(out[:a]) + t + string(out[b:]))
			res[p] = out
		}
		return nil
	})
	return res
}

func moduleName(repo string) string {
	b, _ := os.ReadFile(filepath.Join(repo, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(l[7:])
		}
	}
	return ""
}

func tail(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		s = "..." + s[len(s)-n:]
	}
	return s
}

// run executes harness h on values and says how it ended.
func (n *native) run(h *harn, file string, race, deep bool, tmo time.Duration) (code int, out string, timedOut bool, err error) {
	bin, err := n.build(race)
	if err != nil {
		return 0, "", false, err
	}
	work, err := os.MkdirTemp(n.dir, "run")
	if err != nil {
		return 0, "", false, err
	}
	defer os.RemoveAll(work)
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run=^TestZZVerif$")
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "ZZVERIF_REPLAY="+file, "ZZVERIF_HARNESS="+h.fn, "TMPDIR="+work, "GORACE=exitcode=66")
	if deep {
		cmd.Env = append(cmd.Env, "ZZVERIF_DEEP=1")
	}
	cmd.WaitDelay = 2 * time.Second
	b, err := cmd.CombinedOutput()
	out = string(b)
	if ctx.Err() != nil {
		return 0, out, true, nil
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			return ee.ExitCode(), out, false, nil
		}
		return 0, out, false, err
	}
	return 0, out, false, nil
}

func writeReplay(file string, values map[string]uint64, v *Violation) error {
	m := map[string]interface{}{"values": values}
	if v != nil {
		m["crash"], m["crash_n"], m["partial"] = v.Crash, v.CrashN, v.Partial
	}
	b, _ := json.Marshal(m)
	return os.WriteFile(file, b, 0644)
}

// confirm replays a counterexample against the compiled code.
func (n *native) confirm(h *harn, v *Violation, file string, deep bool) nativeResult {
	race := v.Label == "race"
	if _, err := n.build(race); err != nil {
		return nativeResult{text: err.Error()}
	}
	f := filepath.Join(n.dir, "cex.json")
	if err := writeReplay(f, v.Values, v); err != nil {
		return nativeResult{text: err.Error()}
	}
	tries := 40 // the order of map entries is different every time
	if v.scheduleDependent() {
		tries = 12
		if v.Crash != "" && !v.Concur && !v.MapOrder {
			tries = 2
		}
	}
	last := ""
	t0 := time.Now()
	for i := 0; i < tries && time.Since(t0) < 60*time.Second; i++ {
		code, out, to, err := n.run(h, f, race, deep, 20*time.Second)
		if err != nil {
			return nativeResult{text: err.Error()}
		}
		switch {
		case to:
			if v.Label == "deadlock" || v.Label == "no-progress" {
				return nativeResult{true, true, "does not finish natively either"}
			}
			last = "native run did not finish"
			return nativeResult{true, true, last}
		case code == 76:
			return nativeResult{true, true, "reproduced: " + grepLine(out, "ZZVERIF violation")}
		case code == 77:
			last = "inputs do not meet the assumptions natively: " + tail(out, 200)
		case code == 66 && race:
			return nativeResult{true, true, "the race detector reports it"}
		case code == 0:
			last = "native run passes"
		default:
			return nativeResult{true, true, fmt.Sprintf("native run ends with code %d: %s", code, tail(out, 300))}
		}
	}
	return nativeResult{true, false, last}
}

// trace runs the compiled code on the inputs of a path that passed; confirmed means that it failed.
func (n *native) trace(h *harn, w *Witness, deep bool) nativeResult {
	if _, err := n.build(false); err != nil {
		return nativeResult{text: err.Error()}
	}
	f := filepath.Join(n.dir, "trace.json")
	if err := writeReplay(f, w.Values, nil); err != nil {
		return nativeResult{text: err.Error()}
	}
	code, out, to, err := n.run(h, f, false, deep, 40*time.Second)
	if err != nil {
		return nativeResult{text: err.Error()}
	}
	if to {
		return nativeResult{true, true, "native run did not finish"}
	}
	if code != 0 {
		return nativeResult{true, true, fmt.Sprintf("native run ends with code %d: %s %v", code, tail(out, 400), w.Values)}
	}
	return nativeResult{true, false, ""}
}

func grepLine(s, sub string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, sub) {
			return l
		}
	}
	return tail(s, 200)
}
