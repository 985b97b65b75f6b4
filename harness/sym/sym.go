// Package sym is the interface between harnesses and the symbolic executor.
// The executor replaces every function below; the bodies here run a harness natively on the values of a counterexample.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type replay struct {
	Values  map[string]uint64 `json:"values"`
	Crash   string            `json:"crash"`
	CrashN  int               `json:"crash_n"`
	Partial int               `json:"partial"`
}

var (
	mu    sync.Mutex
	cur   replay
	once  sync.Once
	names = map[string]int{}
	stage int
	armed atomic.Bool
	root  string
	crash = map[string]int{}
)

func load() {
	once.Do(func() {
		if f := os.Getenv("ZZVERIF_REPLAY"); f != "" {
			b, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			if err := json.Unmarshal(b, &cur); err != nil {
				panic(err)
			}
		}
	})
}

func value(name string) (uint64, bool) {
	load()
	mu.Lock()
	defer mu.Unlock()
	n := names[name]
	names[name] = n + 1
	if n > 0 {
		name = name + "#" + strconv.Itoa(n)
	}
	v, ok := cur.Values[name]
	return v, ok
}

// Engine tells whether the harness runs inside the symbolic executor.
func Engine() bool { return false }

func Bool(name string) bool   { v, _ := value(name); return v == 1 }
func Byte(name string) byte   { v, _ := value(name); return byte(v) }
func Int(name string) int     { v, _ := value(name); return int(v) }
func Int32(name string) int32 { v, _ := value(name); return int32(v) }

// IntRange is an arbitrary integer in lo..hi.
func IntRange(name string, lo, hi int) int {
	v, ok := value(name)
	if !ok {
		return lo
	}
	return int(v)
}

func Float(name string) float64 { v, _ := value(name); return math.Float64frombits(v) }

// String is an arbitrary string of n bytes.
func String(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		v, _ := value(fmt.Sprintf("%s[%d]", name, i))
		b[i] = byte(v)
	}
	return string(b)
}

// Choose is one of 0..n-1, each explored on paths of its own.
func Choose(name string, n int) int { v, _ := value(name); return int(v) }

// Concretize forks over the values of x.
func Concretize(x int) int { return x }

func exit(code int) { os.Exit(code) }

func Assume(b bool) {
	if !b {
		fmt.Println("ZZVERIF assumption does not hold")
		exit(77)
	}
}

func Assert(b bool, label string) {
	if !b {
		_, file, line, _ := runtime.Caller(1)
		fmt.Printf("ZZVERIF violation label=%s at %s:%d\n", label, filepath.Base(file), line)
		exit(76)
	}
}

func Fail(label string) { Assert(false, label) }

func Reach(label string) {}

func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}

func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}

func Not(b bool) bool        { return !b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

func CountInt(b ...bool) int {
	n := 0
	for _, x := range b {
		if x {
			n++
		}
	}
	return n
}

// Explore turns on the exploration of schedules with at most n delays from here on.
func Explore(n int)       {}
func StopExplore()        {}
func EarlyTimers(on bool) {}
func MapOrders(on bool)   {}
func Races(on bool)       {}
func SetCPUs(n int)       { runtime.GOMAXPROCS(n) }
func Yield()              { runtime.Gosched() }

// Now is the virtual time in nanoseconds.
func Now() int64 { return time.Now().UnixNano() }

// Goroutines is the number of other live goroutines of this process.
func Goroutines() int { return 0 }

// Quiesce waits until no other goroutine can run.
var QuiesceFn func()

func Quiesce() {
	if QuiesceFn != nil {
		QuiesceFn()
		return
	}
	for i := 0; i < 50; i++ {
		runtime.Gosched()
		time.Sleep(100 * time.Microsecond)
	}
}

// Process runs f as a process of its own: 1 it returned, 2 it crashed at a crash point, 3 it exited, 4 it panicked.
// Natively it is a process of its own: the test binary starts again and skips to this stage.
func Process(f func(), arm bool) int {
	load()
	stage++
	if want := os.Getenv("ZZVERIF_STAGE"); want != "" {
		n, _ := strconv.Atoi(want)
		if stage < n {
			outs := strings.Split(os.Getenv("ZZVERIF_OUTCOMES"), ",")
			o, _ := strconv.Atoi(outs[stage-1])
			return o
		}
		armed.Store(arm)
		f()
		os.Exit(0)
	}
	root := TempRoot()
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "ZZVERIF_STAGE="+strconv.Itoa(stage), "ZZVERIF_OUTCOMES="+strings.Join(outcomes, ","), "ZZVERIF_ROOT="+root)
	out, err := cmd.CombinedOutput()
	os.Stdout.Write(out)
	code := 0
	if err != nil {
		code = 1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	o := 1
	switch {
	case code == 0:
	case code == 76 || code == 77:
		cleanup()
		os.Exit(code)
	case code == 75:
		o = 2
	case code == 2:
		o = 4
	default:
		o = 3
		if strings.Contains(string(out), "panic:") {
			o = 4
		}
	}
	outcomes = append(outcomes, strconv.Itoa(o))
	return o
}

var outcomes []string

func ProcessDetail() string { return "" }

// CrashHere is a point at which an armed process may be killed.
func CrashHere(what string) bool {
	load()
	if !armed.Load() {
		return false
	}
	mu.Lock()
	defer mu.Unlock()
	crash[what]++
	return cur.Crash == what && cur.CrashN == crash[what]
}

// Crash ends the process as if it had been killed.
func Crash() {
	fmt.Println("ZZVERIF killed")
	os.Exit(75)
}

func Arm(b bool) { armed.Store(b) }

func Log(a ...interface{}) {
	if os.Getenv("ZZVERIF_LOG") != "" {
		fmt.Println(append([]interface{}{"ZZVERIF log:"}, a...)...)
	}
}

func Unsupported(what string) { panic("not modelled: " + what) }

func LenOf(x interface{}) int { return reflect.ValueOf(x).Len() }

func SwapOf(x interface{}, i, j int) { reflect.Swapper(x)(i, j) }

func SameFloat(a, b float64) bool { return a == b || a != a && b != b }

// TempRoot is an empty directory for the harness.
func TempRoot() string {
	if root != "" {
		return root
	}
	if r := os.Getenv("ZZVERIF_ROOT"); r != "" {
		root = r
		return root
	}
	r, err := os.MkdirTemp("", "zzverif")
	if err != nil {
		panic(err)
	}
	root = r
	return root
}

func cleanup() {
	if root != "" && os.Getenv("ZZVERIF_ROOT") == "" && strings.Contains(root, "zzverif") {
		os.RemoveAll(root)
	}
}

// Cleanup removes what a native run left behind.
func Cleanup() { cleanup() }

func TypeName(x interface{}) string { return reflect.TypeOf(x).String() }

// Partial says how much of a write a crash lets through: 0 nothing, 1 half, 2 all.
func Partial() int {
	load()
	return cur.Partial
}

// Exit ends the process.
func Exit(code int) { os.Exit(code) }

// AtomicPoint is an atomic operation on the object x points to.
func AtomicPoint(x interface{}) {}

// SideTable and AsTarget serve the models of sync.Map and errors.As, which only the executor uses.
func SideTable(x interface{}) map[any]any { panic("model only") }
func Comparable(x any) bool               { panic("model only") }
func AsTarget(err error, target any) bool { panic("model only") }

// Deep tells whether this is the thorough tier.
func Deep() bool { return os.Getenv("ZZVERIF_DEEP") == "1" }

// Faults counts the changes of the file tree since FailAt; the FailAt-th one fails (0 = none).
var (
	faultN  int
	faultAt int
)

// FailAt makes the n-th following change of the file tree fail.
func FailAt(n int) { faultN, faultAt = 0, n }

// FaultHere counts a change of the file tree and tells whether it fails.
func FaultHere() bool {
	faultN++
	return faultAt > 0 && faultN == faultAt
}

// Reads of files and folders are counted and fail likewise.
var (
	readN  int
	readAt int
)

// FailRead makes the n-th following read of a file or folder fail.
func FailRead(n int) { readN, readAt = 0, n }

// ReadFaultHere counts a read and tells whether it fails.
func ReadFaultHere() bool {
	readN++
	return readAt > 0 && readN == readAt
}

// ReadCount is the number of reads since FailRead.
func ReadCount() int { return readN }

// Changes is the number of changes of the file tree since FailAt.
func Changes() int { return faultN }

// Tag names an operation independently of the root and of generated names.
func Tag(op, path string) string {
	r := TempRoot()
	if len(path) > len(r) && path[:len(r)] == r {
		path = path[len(r):]
	}
	out := []byte(op + " ")
	for i := 0; i < len(path); {
		if i+36 <= len(path) && path[i+8] == '-' && path[i+13] == '-' && path[i+18] == '-' && path[i+23] == '-' {
			out = append(out, "UUID"...)
			i += 36
			continue
		}
		out = append(out, path[i])
		i++
	}
	return string(out)
}

// Begin is called before a native run of a harness.
func Begin() { load() }

// ToJSON is what decoding the JSON form of x gives.
func ToJSON(x any) any {
	b, err := json.Marshal(x)
	if err != nil {
		return "cannot be encoded"
	}
	var r any
	if err := json.Unmarshal(b, &r); err != nil {
		return "cannot be encoded"
	}
	return r
}

// BindJSON stores the members of a JSON object in the struct x points to and tells whether they fit.
func BindJSON(m map[string]any, x any) bool {
	b, err := json.Marshal(m)
	if err != nil {
		return false
	}
	return json.Unmarshal(b, x) == nil
}

// FromJSON is BindJSON with an error.
func FromJSON(m map[string]any, x any) error {
	if !BindJSON(m, x) {
		return fmt.Errorf("json: cannot unmarshal")
	}
	return nil
}
