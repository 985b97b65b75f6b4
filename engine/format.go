package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// format is fmt.Sprintf.
func (p *Path) format(g *Gor, f *Str, args []Value) *Str {
	if !f.conc {
		panic(engineError("symbolic format string"))
	}
	out := emptyStr
	s := f.s
	n := 0
	for {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			return concat(out, cstr(s))
		}
		out = concat(out, cstr(s[:i]))
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			return concat(out, cstr("%!(NOVERB)"))
		}
		verb := s[j]
		flags := s[i:j]
		s = s[j+1:]
		if verb == '%' {
			out = concat(out, cstr("%"))
			continue
		}
		if n >= len(args) {
			out = concat(out, cstr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		out = concat(out, p.fmtOne(g, flags, verb, args[n]))
		n++
	}
}

func (p *Path) sprint(g *Gor, args []Value, ln bool) *Str {
	out := emptyStr
	prevStr := true
	for i, a := range args {
		isStr := false
		if x, ok := a.(Iface); ok && x.T != nil && isString(x.T) {
			isStr = true
		}
		if i > 0 && (ln || !isStr && !prevStr) {
			out = concat(out, cstr(" "))
		}
		out = concat(out, p.fmtOne(g, "%", 'v', a))
		prevStr = isStr
	}
	return out
}

func (p *Path) fmtOne(g *Gor, flags string, verb byte, a Value) *Str {
	x, ok := a.(Iface)
	if !ok {
		return cstr("?")
	}
	if strings.Contains(flags, "#") {
		p.inexact()
	}
	if x.T == nil {
		if verb == 'v' {
			return cstr("<nil>")
		}
		return cstr("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return cstr(types.TypeString(x.T, func(p *types.Package) string { return p.Name() }))
	}
	if verb == 'p' {
		return cstr("0xc000000000")
	}
	if verb == 'w' {
		verb = 'v'
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			if fn := p.P.lookup(x.T, m); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
				if v, ok := x.V.(*Value); ok && v == nil {
					return cstr("<nil>")
				}
				r := p.runClosure(&Closure{Fn: fn}, []Value{x.V})
				return p.fmtVal(g, strings.ReplaceAll(flags, "+", ""), verb, r, types.Typ[types.String], 0)
			}
		}
	}
	return p.fmtVal(g, flags, verb, x.V, x.T, 0)
}

func (P *Program) lookup(t types.Type, name string) *ssaFn {
	P.mu.Lock()
	defer P.mu.Unlock()
	ms := P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Path) fmtVal(g *Gor, flags string, verb byte, v Value, t types.Type, d int) *Str {
	spec := flags + string(verb)
	switch x := v.(type) {
	case *Str:
		if x.conc {
			return cstr(fmt.Sprintf(spec, x.s))
		}
		if flags == "%" && (verb == 's' || verb == 'v') {
			return x
		}
		if flags == "%" && (verb == 'x' || verb == 'X') {
			out := emptyStr
			for i := 0; i < x.Len(); i++ {
				out = concat(out, p.hex2(x.At(i), verb))
			}
			return out
		}
		p.inexact()
		return concat(concat(cstr("\""), x), cstr("\""))
	case *Term:
		b, _ := t.Underlying().(*types.Basic)
		if x.W == WF {
			if x.IsConst() {
				return cstr(fmt.Sprintf(spec, x.F()))
			}
			p.inexact()
			return cstr("<float>")
		}
		if !x.IsConst() {
			if x.W == 8 && flags == "%02" && (verb == 'x' || verb == 'X') && b != nil && b.Info()&types.IsUnsigned != 0 {
				return p.hex2(x, verb)
			}
			if x.W == 8 && flags == "%" && verb == 'c' && p.branch(p.c.Cmp(OUlt, x, BV(8, 0x80))) {
				return mkStr([]*Term{x})
			}
			if x.W == 0 {
				return cstr(fmt.Sprintf(spec, p.branch(x)))
			}
			for i := 0; i < 1; i++ {
				c := p.concretize(x, 64)
				x = BV(x.W, c)
			}
		}
		switch {
		case x.W == 0:
			return cstr(fmt.Sprintf(spec, x.Val == 1))
		case b != nil && b.Info()&types.IsUnsigned != 0:
			if b.Kind() == types.Uint8 {
				return cstr(fmt.Sprintf(spec, uint8(x.Val)))
			}
			return cstr(fmt.Sprintf(spec, x.Val))
		case b != nil && b.Kind() == types.Int32:
			return cstr(fmt.Sprintf(spec, int32(x.S())))
		}
		return cstr(fmt.Sprintf(spec, x.S()))
	case Slice:
		if b, ok := t.Underlying().(*types.Slice); ok {
			if eb, ok := b.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 && verb == 's' {
				return bytesToStr(x)
			}
			if eb, ok := b.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 && (verb == 'x' || verb == 'X' || verb == 'q') {
				return p.fmtVal(g, flags, verb, bytesToStr(x), types.Typ[types.String], d)
			}
			out := cstr("[")
			for i, e := range x.S {
				if i > 0 {
					out = concat(out, cstr(" "))
				}
				out = concat(out, p.fmtElem(g, flags, verb, e, b.Elem(), d+1))
			}
			return concat(out, cstr("]"))
		}
	case *Map:
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			return cstr("map[]")
		}
		out := cstr("map[")
		if x != nil {
			first := true
			ents := append([]*mapEntry{}, x.ents...)
			sort.SliceStable(ents, func(i, j int) bool {
				switch a := ents[i].k.(type) {
				case *Str:
					b, ok := ents[j].k.(*Str)
					return ok && a.conc && b.conc && a.s < b.s
				case *Term:
					b, ok := ents[j].k.(*Term)
					return ok && a.IsConst() && b.IsConst() && a.W != WF && a.S() < b.S()
				}
				return false
			})
			if x.symKey > 0 {
				p.inexact()
			}
			for _, e := range ents {
				if e.dead {
					continue
				}
				if !first {
					out = concat(out, cstr(" "))
				}
				first = false
				out = concat(out, p.fmtElem(g, flags, verb, e.k, mt.Key(), d+1))
				out = concat(out, cstr(":"))
				out = concat(out, p.fmtElem(g, flags, verb, e.v, mt.Elem(), d+1))
			}
		}
		return concat(out, cstr("]"))
	case Struct:
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return cstr("{}")
		}
		out := cstr("{")
		for i, e := range x {
			if i > 0 {
				out = concat(out, cstr(" "))
			}
			if strings.Contains(flags, "+") {
				out = concat(out, cstr(st.Field(i).Name()+":"))
			}
			out = concat(out, p.fmtElem(g, flags, verb, e, st.Field(i).Type(), d+1))
		}
		return concat(out, cstr("}"))
	case Iface:
		return p.fmtOne(g, flags, verb, x)
	case *Value:
		if x == nil {
			return cstr("<nil>")
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok && d == 0 {
			return concat(cstr("&"), p.fmtElem(g, flags, verb, *x, pt.Elem(), d+1))
		}
		return cstr("0xc000000000")
	}
	return cstr("?")
}

func (p *Path) fmtElem(g *Gor, flags string, verb byte, v Value, t types.Type, d int) *Str {
	if x, ok := v.(Iface); ok {
		return p.fmtOne(g, flags, verb, x)
	}
	return p.fmtOne(g, flags, verb, Iface{T: p.P.canonType(t), V: v})
}

// hex2 is the two hexadecimal digits of a byte.
func (p *Path) hex2(b *Term, verb byte) *Str {
	a := uint64('a' - 10)
	if verb == 'X' {
		a = 'A' - 10
	}
	dig := func(n *Term) *Term {
		return p.c.Ite(p.c.Cmp(OUlt, n, BV(8, 10)), p.c.Bin(OAdd, n, BV(8, '0')), p.c.Bin(OAdd, n, BV(8, a)))
	}
	return mkStr([]*Term{dig(p.c.Bin(OLshr, b, BV(8, 4))), dig(p.c.Bin(OBAnd, b, BV(8, 15)))})
}

// inexact records that a formatted text is not the real one.
func (p *Path) inexact() { p.note("the text of a formatted symbolic value is approximated") }
