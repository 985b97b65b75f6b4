package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ctl int

const (
	ctlDone   ctl = iota // value is the result
	ctlBlock             // retry when g.wait holds
	ctlCalled            // a frame was pushed that delivers the result
	ctlPanic             // a Go panic was started
	ctlPark              // a partner completes the operation
	ctlGone              // the goroutine is no longer running
)

type callInfo struct {
	fn   *ssa.Function
	cs   *callSite
	ret  int
	done func(Value)
}

type intrinsic struct {
	name string
	f    func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl)
}

// SymPtr addresses one of several scalar cells by a symbolic index.
type SymPtr struct {
	cells []Value
	idx   *Term
}

// DataPtr is the result of unsafe.SliceData and unsafe.StringData.
type DataPtr struct {
	sl  Slice
	str *Str
}

func (p *Path) val(f *frame, o *opnd) Value {
	switch o.k {
	case oSlot:
		return f.env[o.slot]
	case oVal:
		if o.agg {
			return copyVal(o.v)
		}
		return o.v
	case oGlobal:
		return p.global(o.g)
	}
	return nil
}

// resolve finds what a function value runs.
func (p *Path) resolve(c *Closure, cs *callSite) (*ssa.Function, []Value, *intrinsic) {
	if c.Intr != nil {
		return nil, nil, c.Intr
	}
	if c.Bi != nil {
		bi := c.Bi
		return nil, nil, &intrinsic{name: bi.Name(), f: func(p *Path, g *Gor, ci *callInfo, args []Value) (Value, ctl) {
			return p.builtin(g, bi, args, cs)
		}}
	}
	r := p.P.redirect(c.Fn)
	if r.in != nil {
		return c.Fn, c.Env, r.in
	}
	return r.fn, c.Env, nil
}

// call runs c with args; the result goes to slot ret of the current frame, or to done.
func (p *Path) call(g *Gor, c *Closure, args []Value, cs *callSite, ret int, done func(Value)) ctl {
	fn, env, in := p.resolve(c, cs)
	if in != nil {
		ci := callInfo{fn: fn, cs: cs, ret: ret, done: done}
		v, ct := in.f(p, g, &ci, args)
		if ct == ctlDone {
			if done != nil {
				done(v)
			} else if ret >= 0 {
				g.top.env[ret] = v
			}
		}
		return ct
	}
	p.pushFrame(g, &Closure{Fn: fn, Env: env}, args, ret, done)
	return ctlCalled
}

func (p *Path) step(g *Gor) {
	p.steps++
	if p.steps > p.cfg.MaxSteps {
		p.violation("no-progress", fmt.Sprintf("execution does not finish within %d steps", p.cfg.MaxSteps), p.repoPos(g), nil)
		p.abort("steps")
	}
	f := g.top
	if f.native != nil {
		if f.entered {
			p.popFrame(g, nil)
			return
		}
		ci := callInfo{fn: f.native.fn, cs: f.native.cs, ret: -1}
		v, c := f.native.in.f(p, g, &ci, f.native.args)
		switch c {
		case ctlDone:
			p.popFrame(g, v)
		case ctlCalled:
			f.entered = true
		case ctlPark:
			panic(engineError("deferred blocking channel operation"))
		}
		return
	}
	ci := &f.fi.blocks[f.blk][f.pc]
	switch in := ci.ins.(type) {
	case *ssa.Alloc:
		v := new(Value)
		*v = zero(in.Type().Underlying().(*types.Pointer).Elem())
		f.env[ci.dst] = v
		f.pc++
	case *ssa.BinOp:
		x, y := p.val(f, &ci.ops[0]), p.val(f, &ci.ops[1])
		v, msg := p.binop(in.Op, x, y, in.X.Type(), in.Y.Type(), in.Type())
		if msg != "" {
			p.rtPanic(g, msg)
			return
		}
		f.env[ci.dst] = v
		f.pc++
	case *ssa.UnOp:
		p.unop(g, f, ci, in)
	case *ssa.Phi:
		panic(engineError("stray phi"))
	case *ssa.Store:
		a := p.val(f, &ci.ops[0])
		v := p.val(f, &ci.ops[1])
		if !p.store(g, a, v) {
			return
		}
		f.pc++
	case *ssa.If:
		c := p.val(f, &ci.ops[0]).(*Term)
		if p.branch(c) {
			p.jump(f, 0)
		} else {
			p.jump(f, 1)
		}
	case *ssa.Jump:
		p.jump(f, 0)
	case *ssa.Return:
		var v Value
		switch len(ci.ops) {
		case 0:
		case 1:
			v = p.val(f, &ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i := range ci.ops {
				t[i] = p.val(f, &ci.ops[i])
			}
			v = t
		}
		p.popFrame(g, v)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			p.runDeferred(g, d)
			return
		}
		f.pc++
	case *ssa.Panic:
		v := p.val(f, &ci.ops[0]).(Iface)
		p.goPanic(g, v)
	case *ssa.Call:
		c, args, ok := p.prepCall(g, f, ci)
		if !ok {
			return
		}
		blk, pc := f.blk, f.pc
		f.pc++
		switch p.call(g, c, args, ci.call, ci.dst, nil) {
		case ctlBlock:
			f.blk, f.pc = blk, pc
		}
	case *ssa.Defer:
		c, args, ok := p.prepCall(g, f, ci)
		if !ok {
			return
		}
		f.defers = append(f.defers, &deferred{fn: c, args: args, cs: ci.call})
		f.pc++
	case *ssa.Go:
		c, args, ok := p.prepCall(g, f, ci)
		if !ok {
			return
		}
		p.spawn(g, c, args, ci.call)
		f.pc++
	case *ssa.ChangeInterface, *ssa.ChangeType:
		f.env[ci.dst] = p.val(f, &ci.ops[0])
		f.pc++
	case *ssa.Convert:
		f.env[ci.dst] = p.convert(p.val(f, &ci.ops[0]), in.X.Type(), in.Type())
		f.pc++
	case *ssa.MultiConvert:
		f.env[ci.dst] = p.convert(p.val(f, &ci.ops[0]), in.X.Type(), in.Type())
		f.pc++
	case *ssa.MakeInterface:
		f.env[ci.dst] = Iface{T: p.P.canonType(in.X.Type()), V: p.val(f, &ci.ops[0])}
		f.pc++
	case *ssa.MakeClosure:
		c := &Closure{Fn: in.Fn.(*ssa.Function)}
		for i := 1; i < len(ci.ops); i++ {
			c.Env = append(c.Env, p.val(f, &ci.ops[i]))
		}
		f.env[ci.dst] = c
		f.pc++
	case *ssa.MakeMap:
		f.env[ci.dst] = p.newMap()
		f.pc++
	case *ssa.MakeChan:
		n := p.val(f, &ci.ops[0]).(*Term)
		nn := sext64(p.concretize(n, 64), n.W)
		if nn < 0 {
			p.rtPanic(g, "makechan: size out of range")
			return
		}
		f.env[ci.dst] = p.newChan(int(nn))
		f.pc++
	case *ssa.MakeSlice:
		ln := p.intTerm(p.val(f, &ci.ops[0]), in.Len.Type())
		cp := p.intTerm(p.val(f, &ci.ops[1]), in.Cap.Type())
		if !p.branch(p.c.And(p.c.Cmp(OSle, BV(64, 0), ln), p.c.Cmp(OSle, ln, cp))) {
			p.rtPanic(g, "makeslice: len out of range")
			return
		}
		if !p.branch(p.c.Cmp(OSle, cp, BV(64, 1<<24))) {
			p.rtPanic(g, "makeslice: cap out of range")
			return
		}
		n := int(p.concretize(ln, 64))
		k := int(p.concretize(cp, 64))
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, k)
		if k > 0 {
			z := zero(et)
			s[0] = z
			for i := 1; i < k; i++ {
				s[i] = copyVal(z)
			}
		}
		f.env[ci.dst] = Slice{S: s[:n]}
		f.pc++
	case *ssa.FieldAddr:
		pv, ok := p.val(f, &ci.ops[0]).(*Value)
		if !ok {
			panic(engineError(fmt.Sprintf("field address of %T at %s", p.val(f, &ci.ops[0]), p.posOf(g))))
		}
		if pv == nil {
			p.rtPanic(g, "invalid memory address or nil pointer dereference")
			return
		}
		st, ok := (*pv).(Struct)
		if !ok {
			panic(engineError(fmt.Sprintf("field address into %T at %s", *pv, p.posOf(g))))
		}
		f.env[ci.dst] = &st[in.Field]
		f.pc++
	case *ssa.Field:
		f.env[ci.dst] = p.val(f, &ci.ops[0]).(Struct)[in.Field]
		f.pc++
	case *ssa.IndexAddr:
		x := p.val(f, &ci.ops[0])
		idx := p.intTerm(p.val(f, &ci.ops[1]), in.Index.Type())
		var cells []Value
		switch x := x.(type) {
		case Slice:
			cells = x.S
		case *Value:
			if x == nil {
				p.rtPanic(g, "invalid memory address or nil pointer dereference")
				return
			}
			cells = []Value((*x).(Array))
		default:
			panic(engineError(fmt.Sprintf("index address of %T", x)))
		}
		if !p.branch(p.c.Cmp(OUlt, idx, BV(64, uint64(len(cells))))) {
			p.rtPanic(g, fmt.Sprintf("index out of range [%s] with length %d", idxText(idx), len(cells)))
			return
		}
		if idx.IsConst() {
			f.env[ci.dst] = &cells[idx.Val]
		} else if len(cells) == 1 {
			f.env[ci.dst] = &cells[0]
		} else if _, ok := cells[0].(*Term); ok {
			f.env[ci.dst] = &SymPtr{cells, idx}
		} else {
			f.env[ci.dst] = &cells[p.concretize(idx, 300)]
		}
		f.pc++
	case *ssa.Index:
		x := p.val(f, &ci.ops[0])
		idx := p.intTerm(p.val(f, &ci.ops[1]), in.Index.Type())
		v, msg := p.index(x, idx)
		if msg != "" {
			p.rtPanic(g, msg)
			return
		}
		f.env[ci.dst] = v
		f.pc++
	case *ssa.Lookup:
		x := p.val(f, &ci.ops[0])
		if s, ok := x.(*Str); ok {
			v, msg := p.index(s, p.intTerm(p.val(f, &ci.ops[1]), in.Index.Type()))
			if msg != "" {
				p.rtPanic(g, msg)
				return
			}
			f.env[ci.dst] = v
			f.pc++
			return
		}
		m := x.(*Map)
		k := p.val(f, &ci.ops[1])
		if m != nil {
			p.access(g, m, false)
		}
		e := p.mapFind(m, k)
		et := in.X.Type().Underlying().(*types.Map).Elem()
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(et)
		}
		if in.CommaOk {
			v = Tuple{v, Bool(e != nil)}
		}
		f.env[ci.dst] = v
		f.pc++
	case *ssa.MapUpdate:
		m := p.val(f, &ci.ops[0]).(*Map)
		if m == nil {
			p.rtPanic(g, "assignment to entry in nil map")
			return
		}
		k := p.val(f, &ci.ops[1])
		v := p.val(f, &ci.ops[2])
		p.access(g, m, true)
		p.mapSet(m, k, v)
		f.pc++
	case *ssa.Range:
		switch x := p.val(f, &ci.ops[0]).(type) {
		case *Map:
			it := &mapIter{m: x, seen: map[*mapEntry]bool{}}
			if x != nil {
				p.access(g, x, false)
				for _, e := range x.ents {
					if !e.dead {
						it.order = append(it.order, e)
					}
				}
			}
			if n := len(it.order); p.mapPerm && f.fi.own && n >= 2 && n <= 4 {
				// every iteration order
				rest := it.order
				var out []*mapEntry
				for len(rest) > 1 {
					i := p.choose(len(rest))
					p.mapForked = p.mapForked || i > 0
					out = append(out, rest[i])
					rest = append(append([]*mapEntry{}, rest[:i]...), rest[i+1:]...)
				}
				it.order = append(out, rest...)
			} else if p.mapPerm && f.fi.own && n > 4 && p.choose(2) == 1 {
				p.mapForked = true
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					it.order[i], it.order[j] = it.order[j], it.order[i]
				}
			}
			f.env[ci.dst] = it
		case *Str:
			f.env[ci.dst] = &strIter{s: x}
		default:
			panic(engineError(fmt.Sprintf("range over %T", x)))
		}
		f.pc++
	case *ssa.Next:
		switch it := p.val(f, &ci.ops[0]).(type) {
		case *mapIter:
			var e *mapEntry
			for it.pos < len(it.order) {
				x := it.order[it.pos]
				it.pos++
				if !x.dead {
					e = x
					break
				}
			}
			if it.m != nil {
				p.access(g, it.m, false)
			}
			tt := in.Type().(*types.Tuple)
			if e == nil {
				f.env[ci.dst] = Tuple{tFalse, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())}
			} else {
				f.env[ci.dst] = Tuple{tTrue, copyVal(e.k), copyVal(e.v)}
			}
		case *strIter:
			if it.pos >= it.s.Len() {
				f.env[ci.dst] = Tuple{tFalse, BV(64, 0), BV(32, 0)}
			} else {
				r, n := p.decodeRune(it.s.Sub(it.pos, it.s.Len()))
				f.env[ci.dst] = Tuple{tTrue, BV(64, uint64(it.pos)), r}
				it.pos += n
			}
		}
		f.pc++
	case *ssa.Slice:
		v, msg := p.sliceOp(p.val(f, &ci.ops[0]), p.val(f, &ci.ops[1]), p.val(f, &ci.ops[2]), p.val(f, &ci.ops[3]), in)
		if msg != "" {
			p.rtPanic(g, msg)
			return
		}
		f.env[ci.dst] = v
		f.pc++
	case *ssa.TypeAssert:
		x, ok := p.val(f, &ci.ops[0]).(Iface)
		if !ok {
			panic(engineError(fmt.Sprintf("type assertion on %T", p.val(f, &ci.ops[0]))))
		}
		good := false
		var v Value
		if x.T != nil {
			if types.IsInterface(in.AssertedType) {
				good = p.P.implements(x.T, in.AssertedType)
				v = x
			} else {
				good = x.T == p.P.canonType(in.AssertedType)
				v = x.V
			}
		}
		if !good {
			if !in.CommaOk {
				d := "nil"
				if x.T != nil {
					d = x.T.String()
				}
				p.rtPanic(g, "interface conversion: interface is "+d+", not "+in.AssertedType.String())
				return
			}
			v = zero(in.AssertedType)
		}
		v = copyVal(v)
		if in.CommaOk {
			v = Tuple{v, Bool(good)}
		}
		f.env[ci.dst] = v
		f.pc++
	case *ssa.Extract:
		f.env[ci.dst] = p.val(f, &ci.ops[0]).(Tuple)[in.Index]
		f.pc++
	case *ssa.SliceToArrayPointer:
		s := p.val(f, &ci.ops[0]).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s.S)) < n {
			p.rtPanic(g, "cannot convert slice to array pointer")
			return
		}
		if s.Nil {
			f.env[ci.dst] = (*Value)(nil)
		} else {
			v := new(Value)
			*v = Array(s.S[:n:n])
			f.env[ci.dst] = v
		}
		f.pc++
	case *ssa.Send:
		ch := p.val(f, &ci.ops[0]).(*Chan)
		if p.schedPoint(g) {
			return
		}
		p.chanSend(g, f, ch, p.val(f, &ci.ops[1]))
	case *ssa.Select:
		if p.schedPoint(g) {
			return
		}
		p.selectOp(g, f, ci, in)
	default:
		panic(engineError(fmt.Sprintf("instruction %T", in)))
	}
}

func zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func idxText(t *Term) string {
	if t.IsConst() {
		return strconv.FormatInt(t.S(), 10)
	}
	return "?"
}

func (p *Path) jump(f *frame, k int) {
	b := f.fi.fn.Blocks[f.blk]
	e := f.fi.edge[f.blk][k]
	nb := b.Succs[k].Index
	n := f.fi.nphi[nb]
	f.blk = nb
	f.pc = n
	if n == 0 {
		return
	}
	ins := f.fi.blocks[nb]
	if n == 1 {
		f.env[ins[0].dst] = p.val(f, &ins[0].ops[e])
		return
	}
	tmp := make([]Value, n)
	for i := 0; i < n; i++ {
		tmp[i] = p.val(f, &ins[i].ops[e])
	}
	for i := 0; i < n; i++ {
		f.env[ins[i].dst] = tmp[i]
	}
}

// prepCall evaluates the callee and arguments of a call instruction.
func (p *Path) prepCall(g *Gor, f *frame, ci *cinstr) (*Closure, []Value, bool) {
	com := ci.call.com
	v := p.val(f, &ci.ops[0])
	args := make([]Value, 0, len(ci.ops))
	if com.IsInvoke() {
		x, ok := v.(Iface)
		if !ok {
			panic(engineError(fmt.Sprintf("invoke on %T at %s", v, p.posOf(g))))
		}
		if x.T == nil {
			p.rtPanic(g, "invalid memory address or nil pointer dereference")
			return nil, nil, false
		}
		if o, ok := x.V.(*Opaque); ok {
			if in := opaqueMethod(o, com.Method.Name()); in != nil {
				args = append(args, x.V)
				for i := 1; i < len(ci.ops); i++ {
					args = append(args, p.val(f, &ci.ops[i]))
				}
				return &Closure{Intr: in}, args, true
			}
		}
		fn := p.P.findMethod(x.T, com.Method)
		if fn == nil {
			panic(engineError("no method " + com.Method.Name() + " on " + x.T.String()))
		}
		args = append(args, copyVal(x.V))
		for i := 1; i < len(ci.ops); i++ {
			args = append(args, p.val(f, &ci.ops[i]))
		}
		return &Closure{Fn: fn}, args, true
	}
	for i := 1; i < len(ci.ops); i++ {
		args = append(args, p.val(f, &ci.ops[i]))
	}
	c, ok := v.(*Closure)
	if !ok {
		panic(engineError(fmt.Sprintf("call of %T", v)))
	}
	if c == nil {
		p.rtPanic(g, "invalid memory address or nil pointer dereference")
		return nil, nil, false
	}
	return c, args, true
}

// intTerm widens an integer value to 64 bits according to its type.
func (p *Path) intTerm(v Value, t types.Type) *Term {
	x, ok := v.(*Term)
	if !ok {
		panic(engineError(fmt.Sprintf("integer expected, got %T", v)))
	}
	if x.W == 64 {
		return x
	}
	if isSigned(t) {
		return p.c.Sext(x, 64)
	}
	return p.c.Zext(x, 64)
}

func (p *Path) index(x Value, idx *Term) (Value, string) {
	n := 0
	switch x := x.(type) {
	case *Str:
		n = x.Len()
	case Array:
		n = len(x)
	case Slice:
		n = len(x.S)
	default:
		panic(engineError(fmt.Sprintf("index of %T", x)))
	}
	if !p.branch(p.c.Cmp(OUlt, idx, BV(64, uint64(n)))) {
		return nil, fmt.Sprintf("index out of range [%s] with length %d", idxText(idx), n)
	}
	get := func(i int) Value {
		switch x := x.(type) {
		case *Str:
			return x.At(i)
		case Array:
			return x[i]
		case Slice:
			return x.S[i]
		}
		return nil
	}
	if idx.IsConst() {
		return get(int(idx.Val)), ""
	}
	cells := make([]Value, n)
	for i := range cells {
		cells[i] = get(i)
	}
	if _, ok := cells[0].(*Term); !ok {
		return cells[p.concretize(idx, 300)], ""
	}
	return p.readSym(cells, idx), ""
}

// readSym reads one of several scalar cells by a symbolic in-range index.
func (p *Path) readSym(cells []Value, idx *Term) *Term {
	var r *Term
	i := len(cells) - 1
	r = cells[i].(*Term)
	for i > 0 {
		// the run of equal cells that ends at i-1
		j := i - 1
		t := cells[j].(*Term)
		for j > 0 && sameTerm(cells[j-1].(*Term), t) {
			j--
		}
		r = p.c.Ite(p.c.Cmp(OUlt, idx, BV(64, uint64(i))), t, r)
		i = j
	}
	return r
}

func (p *Path) load(g *Gor, a Value, t types.Type) (Value, bool) {
	switch a := a.(type) {
	case *Value:
		if a == nil {
			p.rtPanic(g, "invalid memory address or nil pointer dereference")
			return nil, false
		}
		p.accessCells(g, a, false)
		v := copyVal(*a)
		if sl, ok := v.(Slice); ok && isString(t) {
			return bytesToStr(sl), true
		}
		return v, true
	case *SymPtr:
		for i := range a.cells {
			p.accessCells(g, &a.cells[i], false)
		}
		return p.readSym(a.cells, a.idx), true
	}
	panic(engineError(fmt.Sprintf("load through %T at %s", a, p.posOf(g))))
}

func (p *Path) store(g *Gor, a, v Value) bool {
	switch a := a.(type) {
	case *Value:
		if a == nil {
			p.rtPanic(g, "invalid memory address or nil pointer dereference")
			return false
		}
		storeInto(a, v)
		p.accessCells(g, a, true)
		return true
	case *SymPtr:
		t := v.(*Term)
		for i := range a.cells {
			a.cells[i] = p.c.Ite(p.c.Eq(a.idx, BV(64, uint64(i))), t, a.cells[i].(*Term))
			p.accessCells(g, &a.cells[i], true)
		}
		return true
	}
	panic(engineError(fmt.Sprintf("store through %T at %s", a, p.posOf(g))))
}

func bytesToStr(s Slice) *Str {
	b := make([]*Term, len(s.S))
	for i, v := range s.S {
		b[i] = v.(*Term)
	}
	return mkStr(b)
}

func strToSlice(s *Str) Slice {
	r := make([]Value, s.Len())
	for i := range r {
		r[i] = s.At(i)
	}
	return Slice{S: r}
}

func (p *Path) unop(g *Gor, f *frame, ci *cinstr, in *ssa.UnOp) {
	x := p.val(f, &ci.ops[0])
	switch in.Op {
	case token.MUL:
		if _, bad := x.(Struct); bad {
			panic(engineError(fmt.Sprintf("load through a struct: %s in %s, operand %s", in, f.fi.fn, in.X)))
		}
		v, ok := p.load(g, x, in.Type())
		if !ok {
			return
		}
		f.env[ci.dst] = v
	case token.NOT:
		f.env[ci.dst] = p.c.Not(x.(*Term))
	case token.SUB:
		f.env[ci.dst] = p.c.Neg(x.(*Term))
	case token.XOR:
		f.env[ci.dst] = p.c.BNot(x.(*Term))
	case token.ARROW:
		if p.schedPoint(g) {
			return
		}
		p.chanRecv(g, f, ci.dst, x.(*Chan), in.CommaOk)
		return
	default:
		panic(engineError("unary " + in.Op.String()))
	}
	f.pc++
}

func (p *Path) binop(op token.Token, x, y Value, xt, yt, rt types.Type) (Value, string) {
	c := p.c
	switch op {
	case token.EQL:
		return p.eq(x, y), ""
	case token.NEQ:
		return c.Not(p.eq(x, y)), ""
	}
	switch a := x.(type) {
	case *Str:
		b := y.(*Str)
		switch op {
		case token.ADD:
			return concat(a, b), ""
		case token.LSS:
			return p.strLess(a, b), ""
		case token.GTR:
			return p.strLess(b, a), ""
		case token.LEQ:
			return c.Not(p.strLess(b, a)), ""
		case token.GEQ:
			return c.Not(p.strLess(a, b)), ""
		}
	case *Term:
		b := y.(*Term)
		if a.W == WF {
			// rounding to double and then to single precision is rounding to single precision for these
			short := func(t *Term) *Term {
				if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
					return c.FUn(OFUF, "f32", t)
				}
				return t
			}
			switch op {
			case token.ADD:
				return short(c.FBin(OFAdd, a, b)), ""
			case token.SUB:
				return short(c.FBin(OFSub, a, b)), ""
			case token.MUL:
				return short(c.FBin(OFMul, a, b)), ""
			case token.QUO:
				return short(c.FBin(OFDiv, a, b)), ""
			case token.LSS:
				return c.FCmp(OFLt, a, b), ""
			case token.LEQ:
				return c.FCmp(OFLe, a, b), ""
			case token.GTR:
				return c.FCmp(OFLt, b, a), ""
			case token.GEQ:
				return c.FCmp(OFLe, b, a), ""
			}
		}
		if a.W == 0 {
			switch op {
			case token.AND, token.LAND:
				return c.And(a, b), ""
			case token.OR, token.LOR:
				return c.Or(a, b), ""
			}
		}
		sg := isSigned(xt)
		switch op {
		case token.SHL, token.SHR:
			if isSigned(yt) && !p.branch(c.Cmp(OSle, BV(b.W, 0), b)) {
				return nil, "negative shift amount"
			}
			var sh *Term
			if b.W <= a.W {
				sh = c.Zext(b, a.W)
			} else {
				sh = c.Ite(c.Cmp(OUlt, b, BV(b.W, uint64(a.W))), c.Extract(b, a.W-1, 0), BV(a.W, uint64(a.W)))
			}
			if op == token.SHL {
				return c.Bin(OShl, a, sh), ""
			}
			if sg {
				return c.Bin(OAshr, a, sh), ""
			}
			return c.Bin(OLshr, a, sh), ""
		}
		if a.W != b.W {
			panic(engineError(fmt.Sprintf("width mismatch %d %d in %v", a.W, b.W, op)))
		}
		switch op {
		case token.ADD:
			return c.Bin(OAdd, a, b), ""
		case token.SUB:
			return c.Bin(OSub, a, b), ""
		case token.MUL:
			return c.Bin(OMul, a, b), ""
		case token.AND:
			return c.Bin(OBAnd, a, b), ""
		case token.OR:
			return c.Bin(OBOr, a, b), ""
		case token.XOR:
			return c.Bin(OBXor, a, b), ""
		case token.AND_NOT:
			return c.Bin(OBAnd, a, c.BNot(b)), ""
		case token.QUO, token.REM:
			if p.branch(c.Eq(b, BV(b.W, 0))) {
				return nil, "integer divide by zero"
			}
			o := OUDiv
			switch {
			case op == token.QUO && sg:
				o = OSDiv
			case op == token.REM && sg:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return c.Bin(o, a, b), ""
		case token.LSS:
			return c.Cmp(cmpOp(sg, false), a, b), ""
		case token.LEQ:
			return c.Cmp(cmpOp(sg, true), a, b), ""
		case token.GTR:
			return c.Cmp(cmpOp(sg, false), b, a), ""
		case token.GEQ:
			return c.Cmp(cmpOp(sg, true), b, a), ""
		}
	}
	panic(engineError(fmt.Sprintf("binary %v on %T", op, x)))
}

func cmpOp(signed, eq bool) Op {
	switch {
	case signed && eq:
		return OSle
	case signed:
		return OSlt
	case eq:
		return OUle
	}
	return OUlt
}

func (p *Path) strEq(a, b *Str) *Term {
	if a.Len() != b.Len() {
		return tFalse
	}
	if a.conc && b.conc {
		return Bool(a.s == b.s)
	}
	r := tTrue
	for i := 0; i < a.Len(); i++ {
		r = p.c.And(r, p.c.Eq(a.At(i), b.At(i)))
		if r == tFalse {
			return r
		}
	}
	return r
}

func (p *Path) strLess(a, b *Str) *Term {
	if a.conc && b.conc {
		return Bool(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := a.At(i), b.At(i)
		r = p.c.Or(p.c.Cmp(OUlt, x, y), p.c.And(p.c.Eq(x, y), r))
	}
	return r
}

// eq is Go's == as a term.
func (p *Path) eq(x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		return p.c.Eq(a, y.(*Term))
	case *Str:
		return p.strEq(a, y.(*Str))
	case Struct:
		b := y.(Struct)
		r := tTrue
		for i := range a {
			r = p.c.And(r, p.eq(a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		r := tTrue
		for i := range a {
			r = p.c.And(r, p.eq(a[i], b[i]))
		}
		return r
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			panic(engineError(fmt.Sprintf("compare interface with %T", y)))
		}
		if a.T == nil || b.T == nil {
			return Bool(a.T == nil && b.T == nil)
		}
		if a.T != b.T {
			return tFalse
		}
		return p.eq(a.V, b.V)
	case *Value:
		switch b := y.(type) {
		case *Value:
			return Bool(a == b)
		case nil:
			return Bool(a == nil)
		}
		return Bool(false)
	case *Opaque:
		b, _ := y.(*Opaque)
		return Bool(a == b)
	case *Map:
		b, ok := y.(*Map)
		return Bool(ok && a == b)
	case *Chan:
		b, ok := y.(*Chan)
		return Bool(ok && a == b)
	case *Closure:
		b, ok := y.(*Closure)
		return Bool(ok && (a == b))
	case Slice:
		b := y.(Slice)
		if a.Nil || b.Nil {
			return Bool(a.Nil && b.Nil)
		}
		panic(engineError("comparison of slices"))
	case *SymPtr, *DataPtr:
		return Bool(x == y)
	}
	panic(engineError(fmt.Sprintf("comparison of %T", x)))
}

// ---- maps ----

func (p *Path) newMap() *Map {
	p.nextID++
	return &Map{idx: map[string]*mapEntry{}, id: p.nextID}
}

// keyText is an injective text of a concrete key; ok is false for keys with symbolic parts.
func keyText(k Value) (string, bool) {
	switch k := k.(type) {
	case *Term:
		if !k.IsConst() {
			return "", false
		}
		if k.W == WF && k.F() == 0 {
			return "f0", true
		}
		return "i" + strconv.FormatUint(k.Val, 16), true
	case *Str:
		if !k.conc {
			return "", false
		}
		return "s" + strconv.Itoa(len(k.s)) + ":" + k.s, true
	case Struct:
		s := "{"
		for _, x := range k {
			t, ok := keyText(x)
			if !ok {
				return "", false
			}
			s += t + ","
		}
		return s + "}", true
	case Array:
		s := "["
		for _, x := range k {
			t, ok := keyText(x)
			if !ok {
				return "", false
			}
			s += t + ","
		}
		return s + "]", true
	case Iface:
		if k.T == nil {
			return "nil", true
		}
		t, ok := keyText(k.V)
		return fmt.Sprintf("I%p", k.T) + t, ok
	case *Value, *Chan, *Map, *Opaque, *Closure:
		return fmt.Sprintf("p%p", k), true
	}
	panic(engineError(fmt.Sprintf("map key %T", k)))
}

func (p *Path) mapFind(m *Map, k Value) *mapEntry {
	if m == nil || m.live == 0 {
		return nil
	}
	t, conc := keyText(k)
	if conc {
		if e := m.idx[t]; e != nil {
			return e
		}
		if m.symKey == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if _, ec := keyText(e.k); conc && ec {
			continue
		}
		if p.branch(p.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *Map, k, v Value) {
	if e := p.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	m.ents = append(m.ents, e)
	m.live++
	if t, ok := keyText(k); ok {
		m.idx[t] = e
	} else {
		m.symKey++
	}
}

func (p *Path) mapDelete(m *Map, k Value) {
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.live--
	if t, ok := keyText(e.k); ok {
		delete(m.idx, t)
	} else {
		m.symKey--
	}
	if len(m.ents) > 32 && m.live < len(m.ents)/2 {
		var l []*mapEntry
		for _, x := range m.ents {
			if !x.dead {
				l = append(l, x)
			}
		}
		m.ents = l
	}
}

// ---- strings and conversions ----

func (p *Path) decodeRune(s *Str) (*Term, int) {
	b := s.At(0)
	if p.branch(p.c.Cmp(OUlt, b, BV(8, 0x80))) {
		return p.c.Zext(b, 32), 1
	}
	fn := p.P.fn("unicode/utf8", "DecodeRuneInString")
	t := p.runNested(fn, []Value{s}).(Tuple)
	n := t[1].(*Term)
	return t[0].(*Term), int(p.concretize(n, 8))
}

func (p *Path) encodeRune(r *Term) []*Term {
	if p.branch(p.c.Cmp(OUlt, r, BV(32, 0x80))) {
		return []*Term{p.c.Extract(r, 7, 0)}
	}
	fn := p.P.fn("unicode/utf8", "AppendRune")
	s := p.runNested(fn, []Value{Slice{Nil: true}, r}).(Slice)
	var out []*Term
	for _, v := range s.S {
		out = append(out, v.(*Term))
	}
	return out
}

func (P *Program) fn(pkg, name string) *ssa.Function {
	pk := P.byPath[pkg]
	if pk == nil {
		panic(engineError("package not loaded: " + pkg))
	}
	f := pk.Func(name)
	if f == nil {
		panic(engineError("no function " + pkg + "." + name))
	}
	return f
}

func elemKind(t types.Type) types.BasicKind {
	if s, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok {
			return b.Kind()
		}
	}
	return types.Invalid
}

func (p *Path) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsString != 0:
			switch x := v.(type) {
			case *Str:
				return x
			case Slice:
				if elemKind(from) == types.Int32 {
					var out []*Term
					for _, r := range x.S {
						out = append(out, p.encodeRune(r.(*Term))...)
					}
					return mkStr(out)
				}
				return bytesToStr(x)
			case *Term:
				r := x
				if r.W > 32 {
					r = p.c.Extract(r, 31, 0)
				} else if r.W < 32 {
					if isSigned(from) {
						r = p.c.Sext(r, 32)
					} else {
						r = p.c.Zext(r, 32)
					}
				}
				return mkStr(p.encodeRune(r))
			}
		case tb.Info()&types.IsInteger != 0:
			switch x := v.(type) {
			case *Term:
				w := intWidth(tb)
				if x.W == WF {
					if !x.IsConst() && tb.Info()&types.IsUnsigned != 0 {
						panic(engineError("float to unsigned conversion"))
					}
					return p.c.F2SI(x, w)
				}
				if w <= x.W {
					return p.c.Extract(x, w-1, 0)
				}
				if isSigned(from) {
					return p.c.Sext(x, w)
				}
				return p.c.Zext(x, w)
			case *Value: // uintptr(unsafe.Pointer)
				if x == nil {
					return BV(64, 0)
				}
				panic(engineError("pointer to integer conversion"))
			}
		case tb.Info()&types.IsFloat != 0:
			x := v.(*Term)
			if x.W == WF {
				if b, ok := fu.(*types.Basic); tb.Kind() == types.Float32 && (!ok || b.Kind() != types.Float32) {
					return p.c.FUn(OFUF, "f32", x)
				}
				return x
			}
			op := OUI2F
			if isSigned(from) {
				op = OSI2F
			}
			if f := p.c.FUn(op, "", x); tb.Kind() != types.Float32 {
				return f
			} else {
				return p.c.FUn(OFUF, "f32", f)
			}
		case tb.Kind() == types.UnsafePointer:
			return v
		}
	}
	switch tu.(type) {
	case *types.Slice:
		if s, ok := v.(*Str); ok {
			if elemKind(to) == types.Int32 {
				out := []Value{}
				for s.Len() > 0 {
					r, n := p.decodeRune(s)
					out = append(out, r)
					s = s.Sub(n, s.Len())
				}
				return Slice{S: out}
			}
			return strToSlice(s)
		}
		return v
	case *types.Pointer:
		return v
	}
	if types.Identical(fu, tu) {
		return v
	}
	panic(engineError(fmt.Sprintf("conversion from %v to %v", from, to)))
}

func (p *Path) sliceOp(x, lo, hi, mx Value, in *ssa.Slice) (Value, string) {
	t := func(v Value, e ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return p.intTerm(v, e.Type())
	}
	l, h, m := t(lo, in.Low), t(hi, in.High), t(mx, in.Max)
	length, capacity := 0, 0
	var cells []Value
	isStr := false
	nilS := false
	switch v := x.(type) {
	case *Str:
		length, capacity = v.Len(), v.Len()
		isStr = true
	case Slice:
		cells = v.S
		length, capacity = len(v.S), cap(v.S)
		nilS = v.Nil
	case *Value:
		if v == nil {
			return nil, "invalid memory address or nil pointer dereference"
		}
		cells = []Value((*v).(Array))
		length, capacity = len(cells), len(cells)
	default:
		panic(engineError(fmt.Sprintf("slice of %T", x)))
	}
	if l == nil {
		l = BV(64, 0)
	}
	if h == nil {
		h = BV(64, uint64(length))
	}
	mm := BV(64, uint64(capacity))
	if m != nil {
		if !p.branch(p.c.Cmp(OUle, m, mm)) {
			return nil, fmt.Sprintf("slice bounds out of range [::%s] with capacity %d", idxText(m), capacity)
		}
		mm = m
	}
	if !p.branch(p.c.Cmp(OUle, h, mm)) {
		return nil, fmt.Sprintf("slice bounds out of range [:%s] with capacity %s", idxText(h), idxText(mm))
	}
	if !p.branch(p.c.Cmp(OUle, l, h)) {
		return nil, fmt.Sprintf("slice bounds out of range [%s:%s]", idxText(l), idxText(h))
	}
	li, hi2 := int(p.concretize(l, 128)), int(p.concretize(h, 128))
	if isStr {
		return x.(*Str).Sub(li, hi2), ""
	}
	mi := int(p.concretize(mm, 128))
	if nilS {
		return Slice{Nil: true}, ""
	}
	return Slice{S: cells[:capOf(cells)][li:hi2:mi]}, ""
}

func capOf(c []Value) int { return cap(c) }

// ---- builtins ----

func (p *Path) builtin(g *Gor, bi *ssa.Builtin, args []Value, cs *callSite) (Value, ctl) {
	switch bi.Name() {
	case "len", "cap":
		n := 0
		switch x := args[0].(type) {
		case *Str:
			n = x.Len()
		case Slice:
			n = len(x.S)
			if bi.Name() == "cap" {
				n = cap(x.S)
			}
		case *Map:
			if x != nil {
				p.access(g, x, false)
				n = x.live
			}
		case *Chan:
			if x != nil {
				n = len(x.buf)
				if bi.Name() == "cap" {
					n = x.cap
				}
			}
		case Array:
			n = len(x)
		case *Value:
			n = len((*x).(Array))
		default:
			panic(engineError(fmt.Sprintf("len of %T", x)))
		}
		return BV(64, uint64(n)), ctlDone
	case "append":
		if len(args) == 1 {
			return args[0], ctlDone
		}
		a := args[0].(Slice)
		var add []Value
		var et types.Type
		if cs != nil {
			if st, ok := cs.com.Args[0].Type().Underlying().(*types.Slice); ok {
				et = st.Elem()
			}
		}
		switch b := args[1].(type) {
		case Slice:
			add = b.S
			if p.raceOn {
				for i := range b.S {
					p.accessCells(g, &b.S[i], false)
				}
			}
		case *Str:
			add = strToSlice(b).S
		}
		if len(add) == 0 {
			return a, ctlDone
		}
		n := len(a.S)
		need := n + len(add)
		if need <= cap(a.S) {
			s := a.S[:need]
			tmp := make([]Value, len(add))
			for i := range add {
				tmp[i] = copyVal(add[i])
			}
			for i := range tmp {
				s[n+i] = tmp[i]
				p.accessCells(g, &s[n+i], true)
			}
			return Slice{S: s}, ctlDone
		}
		es := int64(8)
		if et != nil {
			es = p.P.sizes.Sizeof(et)
		}
		nc := growCap(es, cap(a.S), need)
		if nc < need {
			nc = need
		}
		s := make([]Value, need, nc)
		for i := range a.S {
			p.accessCells(g, &a.S[i], false)
			s[i] = copyVal(a.S[i])
		}
		for i := range add {
			s[n+i] = copyVal(add[i])
		}
		if et != nil {
			full := s[:nc]
			for i := need; i < nc; i++ {
				full[i] = zero(et)
			}
		}
		return Slice{S: s}, ctlDone
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch b := args[1].(type) {
		case Slice:
			src = b.S
		case *Str:
			src = strToSlice(b).S
		}
		n := len(d.S)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			if _, isS := args[1].(*Str); !isS {
				p.accessCells(g, &src[i], false)
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeInto(&d.S[i], tmp[i])
			p.accessCells(g, &d.S[i], true)
		}
		return BV(64, uint64(n)), ctlDone
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			p.access(g, m, true)
			p.mapDelete(m, args[1])
		}
		return nil, ctlDone
	case "clear":
		switch m := args[0].(type) {
		case *Map:
			if m != nil {
				p.access(g, m, true)
				for _, e := range m.ents {
					e.dead = true
				}
				m.ents, m.live, m.symKey = nil, 0, 0
				m.idx = map[string]*mapEntry{}
			}
		case Slice:
			et := cs.com.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range m.S {
				storeInto(&m.S[i], zero(et))
			}
		}
		return nil, ctlDone
	case "close":
		ch := args[0].(*Chan)
		if ch == nil {
			p.rtPanic(g, "close of nil channel")
			return nil, ctlPanic
		}
		if ch.closed {
			p.rtPanic(g, "close of closed channel")
			return nil, ctlPanic
		}
		p.chanClose(g, ch)
		return nil, ctlDone
	case "panic":
		p.goPanic(g, args[0].(Iface))
		return nil, ctlPanic
	case "recover":
		f := g.top
		if f != nil && f.native != nil {
			f = f.caller
		}
		if f != nil && f.isDefer && f.caller != nil && f.caller.unwind && !f.caller.recov {
			f.caller.recov = true
			return f.caller.pval, ctlDone
		}
		return Iface{}, ctlDone
	case "print", "println":
		return nil, ctlDone
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			lt, _ := p.binop(token.LSS, y, r, cs.com.Args[0].Type(), cs.com.Args[0].Type(), nil)
			if bi.Name() == "max" {
				lt, _ = p.binop(token.LSS, r, y, cs.com.Args[0].Type(), cs.com.Args[0].Type(), nil)
			}
			switch a := r.(type) {
			case *Term:
				r = p.c.Ite(lt.(*Term), y.(*Term), a)
			default:
				if p.branch(lt.(*Term)) {
					r = y
				}
			}
		}
		return r, ctlDone
	case "ssa:wrapnilchk":
		if v, ok := args[0].(*Value); ok && v == nil {
			p.rtPanic(g, "value method called using nil pointer")
			return nil, ctlPanic
		}
		return args[0], ctlDone
	case "SliceData":
		return &DataPtr{sl: args[0].(Slice)}, ctlDone
	case "StringData":
		return &DataPtr{str: args[0].(*Str)}, ctlDone
	case "String":
		n := int(p.concretize(args[1].(*Term), 64))
		switch d := args[0].(type) {
		case *DataPtr:
			if d.str != nil {
				return d.str.Sub(0, n), ctlDone
			}
			return bytesToStr(Slice{S: d.sl.S[:n]}), ctlDone
		case *Value:
			if n == 0 {
				return emptyStr, ctlDone
			}
			if n == 1 {
				return mkStr([]*Term{(*d).(*Term)}), ctlDone
			}
		}
		panic(engineError("unsafe.String"))
	case "Slice":
		n := int(p.concretize(args[1].(*Term), 64))
		if d, ok := args[0].(*DataPtr); ok {
			if d.str != nil {
				return strToSlice(d.str.Sub(0, n)), ctlDone
			}
			return Slice{S: d.sl.S[:n:n]}, ctlDone
		}
		panic(engineError("unsafe.Slice"))
	}
	panic(engineError("builtin " + bi.Name()))
}

func (P *Program) implements(t, it types.Type) bool {
	k := methKey{t: t, nm: "implements"}
	k2 := [2]types.Type{t, P.canonType(it)}
	_ = k
	if v, ok := P.impl.Load(k2); ok {
		return v.(bool)
	}
	P.mu.Lock()
	r := types.Implements(t, it.Underlying().(*types.Interface))
	P.mu.Unlock()
	P.impl.Store(k2, r)
	return r
}

func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var _ = math.Pi
var _ = strings.TrimSpace
