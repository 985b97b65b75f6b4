package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// Program is the SSA form of the code under check together with the harnesses and environment models.
type Program struct {
	prog    *ssa.Program
	sizes   types.Sizes
	byPath  map[string]*ssa.Package
	module  string
	zz      string // import path prefix of the overlay packages
	repoPk  []*ssa.Package
	finfos  sync.Map // *ssa.Function -> *finfo
	redir   sync.Map // *ssa.Function -> *redirect
	impl    sync.Map
	methods sync.Map // methKey -> *ssa.Function
	mu      sync.Mutex
	hasher  typeutil.Hasher
	canon   map[uint32][]types.Type
	canonMu sync.Mutex
	rtErr   types.Type // dynamic type of run-time panics
	errStr  types.Type // *errors.errorString
	wrapErr types.Type // *fmt.wrapError
	models  map[string]*ssa.Package
}

// overlayFiles maps every file below dir to its place in the repository.
func overlayFiles(verif, repo string) (map[string]string, error) {
	m := map[string]string{}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if strings.HasPrefix(rel, "root/") { // files that go into package main
			m[filepath.Join(repo, "zzverif_"+filepath.Base(p))] = p
			return nil
		}
		m[filepath.Join(repo, "zzverif", rel)] = p
		return nil
	})
	return m, err
}

func writeOverlay(path string, m map[string]string) error {
	b, _ := json.Marshal(map[string]interface{}{"Replace": m})
	return os.WriteFile(path, b, 0644)
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
}

// Load type-checks and builds SSA for the given overlay packages (paths relative to zzverif) and everything they need.
func Load(verif, repo string, pkgs []string, needMain bool) (*Program, error) {
	files, err := overlayFiles(verif, repo)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	want := map[string]bool{"sym": true}
	for _, p := range pkgs {
		want[p] = true
	}
	for dst, src := range files {
		rel, _ := filepath.Rel(repo, dst)
		if strings.HasPrefix(rel, "zzverif_") && !needMain {
			continue
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	modb, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	module := ""
	for _, l := range strings.Split(string(modb), "\n") {
		if strings.HasPrefix(l, "module ") {
			module = strings.TrimSpace(l[7:])
		}
	}
	if needMain {
		// requests are served without a network
		for p, b := range rewriteImports(repo, map[string]string{ginPath: module + "/zzverif/vgin"}) {
			ov[p] = b
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: goEnv()}
	pats := []string{"./zzverif/sym", "./zzverif/vmodel/..."}
	for _, p := range pkgs {
		if p == "root" {
			pats = append(pats, ".")
		} else {
			pats = append(pats, "./zzverif/"+p)
		}
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("cannot type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, module: module, zz: module + "/zzverif/", byPath: map[string]*ssa.Package{}, canon: map[uint32][]types.Type{}, models: map[string]*ssa.Package{}}
	P.sizes = types.SizesFor("gc", "amd64")
	P.hasher = typeutil.MakeHasher()
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		P.byPath[path] = p
		if path == module || strings.HasPrefix(path, module+"/") {
			P.repoPk = append(P.repoPk, p)
		}
		if strings.HasPrefix(path, P.zz+"vmodel/") {
			P.models[strings.TrimPrefix(path, P.zz+"vmodel/")] = p
		}
	}
	sort.Slice(P.repoPk, func(i, j int) bool { return P.repoPk[i].Pkg.Path() < P.repoPk[j].Pkg.Path() })
	if rt := P.byPath["runtime"]; rt != nil {
		P.rtErr = rt.Type("errorString").Type()
	}
	if e := P.byPath["errors"]; e != nil {
		P.errStr = types.NewPointer(e.Type("errorString").Type())
	}
	if e := P.byPath["fmt"]; e != nil {
		P.wrapErr = types.NewPointer(e.Type("wrapError").Type())
	}
	return P, nil
}

// canonType returns a representative so that identical types compare equal as pointers.
func (P *Program) canonType(t types.Type) types.Type {
	t = types.Unalias(t)
	P.canonMu.Lock()
	defer P.canonMu.Unlock()
	h := P.hasher.Hash(t)
	for _, o := range P.canon[h] {
		if o == t || types.Identical(o, t) {
			return o
		}
	}
	P.canon[h] = append(P.canon[h], t)
	return t
}

type methKey struct {
	t  types.Type
	m  *types.Func
	nm string
}

func (P *Program) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t: t, m: m}
	if f, ok := P.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	P.mu.Lock()
	defer P.mu.Unlock()
	f := P.prog.LookupMethod(t, m.Pkg(), m.Name())
	P.methods.Store(k, f)
	return f
}

const (
	oSlot = iota
	oVal
	oGlobal
	oNone
)

type opnd struct {
	k    uint8
	slot int
	v    Value
	agg  bool
	g    *ssa.Global
}

type cinstr struct {
	ins  ssa.Instruction
	ops  []opnd
	dst  int
	typ  types.Type
	call *callSite
}

type callSite struct {
	static *ssa.Function
	com    *ssa.CallCommon
}

type finfo struct {
	fn     *ssa.Function
	nslots int
	blocks [][]cinstr
	nphi   []int
	params []int
	free   []int
	model  bool
	own    bool
	edge   [][2]int // index of this block's edges among the successors' predecessors
}

func (P *Program) info(fn *ssa.Function) *finfo {
	if fi, ok := P.finfos.Load(fn); ok {
		return fi.(*finfo)
	}
	P.mu.Lock()
	defer P.mu.Unlock()
	if fi, ok := P.finfos.Load(fn); ok {
		return fi.(*finfo)
	}
	fi := &finfo{fn: fn}
	if pk := pkgPath(fn); pk != "" {
		fi.model = strings.HasPrefix(pk, P.zz+"vmodel/") || pk == P.zz+"sym"
		fi.own = (pk == P.module || strings.HasPrefix(pk, P.module+"/")) && !strings.HasPrefix(pk, P.zz)
	}
	idx := map[ssa.Value]int{}
	slot := func(v ssa.Value) int {
		idx[v] = fi.nslots
		fi.nslots++
		return fi.nslots - 1
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, slot(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, slot(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				slot(v)
			}
		}
	}
	mkop := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{k: oNone}
		case *ssa.Const:
			c := P.constVal(v)
			switch c.(type) {
			case Struct, Array:
				return opnd{k: oVal, v: c, agg: true}
			}
			return opnd{k: oVal, v: c}
		case *ssa.Global:
			return opnd{k: oGlobal, g: v}
		case *ssa.Function:
			return opnd{k: oVal, v: &Closure{Fn: v}}
		case *ssa.Builtin:
			return opnd{k: oVal, v: &Closure{Bi: v}}
		}
		s, ok := idx[v]
		if !ok {
			panic(engineError(fmt.Sprintf("no slot for %v in %v", v, fn)))
		}
		return opnd{k: oSlot, slot: s}
	}
	fi.edge = make([][2]int, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		var l []cinstr
		nphi := 0
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{ins: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = idx[v]
				ci.typ = v.Type()
			}
			if _, ok := in.(*ssa.Phi); ok {
				nphi++
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				com := c.Common()
				ci.call = &callSite{com: com, static: com.StaticCallee()}
				ci.ops = append(ci.ops, mkop(com.Value))
				for _, a := range com.Args {
					ci.ops = append(ci.ops, mkop(a))
				}
			} else if sel, ok := in.(*ssa.Select); ok {
				for _, st := range sel.States {
					ci.ops = append(ci.ops, mkop(st.Chan))
					if st.Send != nil {
						ci.ops = append(ci.ops, mkop(st.Send))
					} else {
						ci.ops = append(ci.ops, opnd{k: oNone})
					}
				}
			} else if sl, ok := in.(*ssa.Slice); ok {
				ci.ops = []opnd{mkop(sl.X), opOrNone(mkop, sl.Low), opOrNone(mkop, sl.High), opOrNone(mkop, sl.Max)}
			} else {
				for _, o := range in.Operands(nil) {
					if *o == nil {
						ci.ops = append(ci.ops, opnd{k: oNone})
					} else {
						ci.ops = append(ci.ops, mkop(*o))
					}
				}
			}
			l = append(l, ci)
		}
		fi.blocks = append(fi.blocks, l)
		fi.nphi = append(fi.nphi, nphi)
		for k, su := range b.Succs {
			skip := k == 1 && b.Succs[0] == su
			for i, pr := range su.Preds {
				if pr == b {
					if skip {
						skip = false
						continue
					}
					if k < 2 {
						fi.edge[bi][k] = i
					}
					break
				}
			}
		}
	}
	P.finfos.Store(fn, fi)
	return fi
}

func opOrNone(mk func(ssa.Value) opnd, v ssa.Value) opnd {
	if v == nil {
		return opnd{k: oNone}
	}
	return mk(v)
}

func (P *Program) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return cstr(constant.StringVal(c.Value))
			}
			r, _ := constant.Int64Val(c.Value)
			return cstr(string(rune(r)))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if u.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return FC(f)
		case u.Info()&types.IsInteger != 0:
			w := intWidth(u)
			iv := constant.ToInt(c.Value)
			if v, ok := constant.Uint64Val(iv); ok {
				return BV(w, v)
			}
			v, _ := constant.Int64Val(iv)
			return BV(w, uint64(v))
		case u.Info()&types.IsComplex != 0:
			return Tuple{fZero, fZero}
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		}
	}
	panic(engineError(fmt.Sprintf("constant %v of type %v", c, t)))
}

// pkgPath is the import path of the package fn is written in.
func pkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		return ob.Pkg().Path()
	}
	return ""
}
