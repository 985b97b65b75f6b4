package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value of the interpreted program:
//
//	*Term      bool, integer, float
//	*Str       string
//	Struct     struct (by value)
//	Array      array (by value)
//	*Value     pointer (nil = nil pointer)
//	Slice      slice
//	*Map       map (nil = nil map)
//	*Chan      channel
//	Iface      interface
//	*Closure   function value (nil = nil func)
//	Tuple      multiple results
//	*Opaque    engine object behind a pointer-like type
type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value

// Slice aliases its backing array like a Go slice does; cells are addressed as &S[i].
type Slice struct {
	S   []Value
	Nil bool
}

type Str struct {
	conc bool
	s    string
	b    []*Term
}

func cstr(s string) *Str { return &Str{conc: true, s: s} }

func mkStr(b []*Term) *Str {
	buf := make([]byte, len(b))
	for i, t := range b {
		if !t.IsConst() {
			return &Str{b: b}
		}
		buf[i] = byte(t.Val)
	}
	return cstr(string(buf))
}

func (s *Str) Len() int {
	if s.conc {
		return len(s.s)
	}
	return len(s.b)
}

func (s *Str) At(i int) *Term {
	if s.conc {
		return small8[s.s[i]]
	}
	return s.b[i]
}

func (s *Str) Bytes() []*Term {
	if !s.conc {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = small8[s.s[i]]
	}
	return r
}

func (s *Str) Sub(lo, hi int) *Str {
	if s.conc {
		return cstr(s.s[lo:hi])
	}
	return mkStr(s.b[lo:hi])
}

func (s *Str) String() string {
	if s.conc {
		return fmt.Sprintf("%q", s.s)
	}
	var b strings.Builder
	b.WriteString("sym\"")
	for _, t := range s.b {
		if t.IsConst() {
			b.WriteByte(byte(t.Val))
		} else {
			b.WriteString("?")
		}
	}
	return b.String() + "\""
}

func concat(a, b *Str) *Str {
	if a.conc && b.conc {
		return cstr(a.s + b.s)
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	r := make([]*Term, 0, a.Len()+b.Len())
	r = append(r, a.Bytes()...)
	r = append(r, b.Bytes()...)
	return &Str{b: r}
}

type Iface struct {
	T types.Type // nil = nil interface
	V Value
}

type Closure struct {
	Fn   *ssa.Function
	Env  []Value
	Bi   *ssa.Builtin
	Intr *intrinsic // bound engine function
}

type Opaque struct {
	Kind string
	X    interface{}
}

type mapEntry struct {
	k, v Value
	dead bool
}

// Map is an insertion-ordered map; the keys of live entries are pairwise distinct on the path.
type Map struct {
	ents   []*mapEntry
	live   int
	idx    map[string]*mapEntry // entries with concrete keys
	symKey int                  // live entries with symbolic keys
	sh     *shadow
	id     int
}

type mapIter struct {
	m     *Map
	order []*mapEntry // entries still to visit, chosen at start
	seen  map[*mapEntry]bool
	pos   int
}

type strIter struct {
	s   *Str
	pos int
}

func zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			return emptyStr
		case t.Info()&types.IsBoolean != 0:
			return tFalse
		case t.Info()&types.IsFloat != 0:
			return fZero
		case t.Info()&types.IsInteger != 0:
			return BV(intWidth(t), 0)
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case t.Kind() == types.UntypedNil:
			return (*Value)(nil)
		case t.Info()&types.IsComplex != 0:
			return Tuple{fZero, fZero}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Slice:
		return Slice{Nil: true}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		tu := make(Tuple, t.Len())
		for i := range tu {
			tu[i] = zero(t.At(i).Type())
		}
		return tu
	case *types.TypeParam:
		panic(engineError("zero of type parameter " + t.String()))
	}
	panic(engineError(fmt.Sprintf("zero of %v", t)))
}

var emptyStr = cstr("")
var fZero = FC(0)

func intWidth(t *types.Basic) uint8 {
	switch t.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// copyVal copies aggregates so that the result shares no cells with v.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	}
	return v
}

// storeInto writes v into *p, keeping the cells of aggregates in place.
func storeInto(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			// v may alias d's cells only if it is d itself
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

type engineError string

func (e engineError) Error() string { return "engine: " + string(e) }

// growCap is the capacity append gives a slice of the given element size.
func growCap(elem int64, oldCap, need int) int {
	switch elem {
	case 1:
		return cap(append(make([]byte, oldCap), make([]byte, need-oldCap)...))
	case 2:
		return cap(append(make([]uint16, oldCap), make([]uint16, need-oldCap)...))
	case 4:
		return cap(append(make([]uint32, oldCap), make([]uint32, need-oldCap)...))
	case 8:
		return cap(append(make([]uint64, oldCap), make([]uint64, need-oldCap)...))
	case 16:
		return cap(append(make([]string, oldCap), make([]string, need-oldCap)...))
	case 24:
		return cap(append(make([][]byte, oldCap), make([][]byte, need-oldCap)...))
	}
	if need > 2*oldCap {
		return need
	}
	if oldCap < 256 {
		return 2 * oldCap
	}
	return oldCap + (oldCap+3*256)/4
}

// describe prints a value for reports.
func describe(v Value) string { return describeD(v, 4) }

func describeD(v Value, d int) string {
	if d == 0 {
		return "..."
	}
	switch v := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		return v.String()
	case *Str:
		return v.String()
	case Struct:
		s := "{"
		for i, x := range v {
			if i > 0 {
				s += " "
			}
			s += describeD(x, d-1)
		}
		return s + "}"
	case Array:
		return fmt.Sprintf("[%d]array", len(v))
	case Slice:
		s := "["
		for i, x := range v.S {
			if i > 0 {
				s += " "
			}
			if i > 8 {
				s += "..."
				break
			}
			s += describeD(x, d-1)
		}
		return s + "]"
	case Iface:
		if v.T == nil {
			return "nil"
		}
		return describeD(v.V, d-1)
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + describeD(*v, d-1)
	case *Map:
		if v == nil {
			return "map(nil)"
		}
		s := "map["
		for _, e := range v.ents {
			if !e.dead {
				s += describeD(e.k, d-1) + ":" + describeD(e.v, d-1) + " "
			}
		}
		return s + "]"
	case Tuple:
		return fmt.Sprintf("tuple%d", len(v))
	}
	return fmt.Sprintf("%T", v)
}
