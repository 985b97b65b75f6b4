package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"
)

// jsonNames are the names encoding/json gives the fields of a struct, "" for fields it leaves out.
func jsonNames(st *types.Struct) (names []string, omit []bool) {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		n, o := f.Name(), false
		if f.Embedded() {
			panic(engineError("JSON of embedded fields"))
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if a, rest, _ := strings.Cut(tag, ","); tag != "" {
			if a != "" {
				n = a
			}
			o = strings.Contains(rest, "omitempty")
			if strings.Contains(rest, "string") {
				panic(engineError("JSON option string"))
			}
		}
		if tag == "-" || !f.Exported() {
			n = ""
		}
		names, omit = append(names, n), append(omit, o)
	}
	return
}

type notJSON struct{}

// toJSON is the value that encoding v as JSON and decoding it into an interface gives.
func (p *Path) toJSON(v Value, t types.Type) Iface {
	anyT := types.NewInterfaceType(nil, nil)
	if t == nil {
		return Iface{}
	}
	if _, ok := types.Unalias(t).(*types.Named); ok {
		ms := types.NewMethodSet(types.NewPointer(t))
		if ms.Lookup(nil, "MarshalJSON") != nil || ms.Lookup(nil, "MarshalText") != nil {
			panic(engineError("JSON methods of " + t.String()))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i := v.(Iface)
		return p.toJSON(i.V, i.T)
	case *types.Pointer:
		a := v.(*Value)
		if a == nil {
			return Iface{}
		}
		return p.toJSON(*a, u.Elem())
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Iface{p.P.canonType(types.Typ[types.String]), v}
		case u.Info()&types.IsBoolean != 0:
			return Iface{p.P.canonType(types.Typ[types.Bool]), v}
		case u.Info()&types.IsInteger != 0:
			op := OSI2F
			if u.Info()&types.IsUnsigned != 0 {
				op = OUI2F
			}
			return Iface{p.P.canonType(types.Typ[types.Float64]), p.c.FUn(op, "", v.(*Term))}
		case u.Kind() == types.Float64:
			if f := v.(*Term); f.IsConst() && (math.IsNaN(f.F()) || math.IsInf(f.F(), 0)) {
				panic(notJSON{})
			}
			return Iface{p.P.canonType(types.Typ[types.Float64]), v}
		}
	case *types.Struct:
		m := p.newMap()
		names, omit := jsonNames(u)
		for i, n := range names {
			if n == "" {
				continue
			}
			if omit[i] {
				panic(engineError("JSON option omitempty"))
			}
			p.mapSet(m, cstr(n), p.toJSON(v.(Struct)[i], u.Field(i).Type()))
		}
		return Iface{p.P.canonType(types.NewMap(types.Typ[types.String], anyT)), m}
	case *types.Map:
		m := p.newMap()
		src := v.(*Map)
		if src == nil {
			return Iface{}
		}
		if !isStringT(u.Key()) {
			panic(engineError("JSON of a map whose keys are not strings"))
		}
		for _, e := range src.ents {
			if !e.dead {
				p.mapSet(m, e.k, p.toJSON(e.v, u.Elem()))
			}
		}
		return Iface{p.P.canonType(types.NewMap(types.Typ[types.String], anyT)), m}
	case *types.Slice:
		s := v.(Slice)
		if s.Nil {
			return Iface{}
		}
		out := make([]Value, len(s.S))
		for i := range s.S {
			out[i] = p.toJSON(s.S[i], u.Elem())
		}
		return Iface{p.P.canonType(types.NewSlice(anyT)), Slice{S: out}}
	}
	panic(engineError("JSON of " + t.String()))
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// fromJSON stores the members of m into the fields of the struct at a; it tells whether all fit.
func (p *Path) fromJSON(m *Map, a *Value, t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(engineError("JSON into " + t.String()))
	}
	names, _ := jsonNames(st)
	fits := true
	for i, n := range names {
		if n == "" {
			continue
		}
		e := p.mapFind(m, cstr(n))
		if e == nil {
			continue
		}
		v := e.v.(Iface)
		if v.T == nil {
			continue
		}
		dst := &(*a).(Struct)[i]
		ft := st.Field(i).Type()
		switch {
		case isStringT(ft) && isStringT(v.T):
			storeInto(dst, v.V)
		case types.Identical(ft, v.T):
			storeInto(dst, v.V)
		default:
			if b, ok := ft.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				fits = false
				continue
			}
			panic(engineError(fmt.Sprintf("JSON %s into %s", v.T, ft)))
		}
	}
	return fits
}

func init() {
	symAPI["ToJSON"] = func(p *Path, g *Gor, ci *callInfo, a []Value) (r Value, c ctl) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(notJSON); !ok {
					panic(x)
				}
				r, c = Iface{p.P.canonType(types.Typ[types.String]), cstr("cannot be encoded")}, ctlDone
			}
		}()
		i := a[0].(Iface)
		return p.toJSON(i.V, i.T), ctlDone
	}
	symAPI["BindJSON"] = func(p *Path, g *Gor, ci *callInfo, a []Value) (Value, ctl) {
		i := a[1].(Iface)
		pt, ok := i.T.Underlying().(*types.Pointer)
		if !ok {
			panic(engineError("JSON into " + i.T.String()))
		}
		return Bool(p.fromJSON(a[0].(*Map), addrOf(i.V), pt.Elem())), ctlDone
	}
}
