package main

import (
	"fmt"
	"math"
	"math/bits"
)

// Op is the operator of a Term.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq // bool = bool, bv = bv
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OBNot
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OSI2F
	OUI2F
	OF2SI
	OFUF // uninterpreted unary float function, name in Name
	OFIsNaN
	OFIsInf
)

// W values: 0 = Bool, 1..64 = BitVec, WF = Float64.
const WF = 100

// Term is an SMT term. Constants carry their value in Val.
type Term struct {
	Op      Op
	W       uint8
	Lo      uint8 // extract low bit
	Val     uint64
	Name    string
	A, B, C *Term
	id      int
}

type tkey struct {
	op         Op
	w, lo      uint8
	name       string
	a, b, c    *Term
	av, bv, cv uint64
}

// TermCtx hash-conses the non-constant terms of one path.
type TermCtx struct {
	tab map[tkey]*Term
	n   int
}

func NewTermCtx() *TermCtx { return &TermCtx{tab: make(map[tkey]*Term)} }

var (
	tTrue   = &Term{Op: OConst, W: 0, Val: 1}
	tFalse  = &Term{Op: OConst, W: 0, Val: 0}
	small8  [256]*Term
	small32 [1024]*Term
	small64 [1024]*Term
	constA  = &Term{} // stands for "a constant" in hash keys
)

func init() {
	for i := range small8 {
		small8[i] = &Term{Op: OConst, W: 8, Val: uint64(i)}
	}
	for i := range small32 {
		small32[i] = &Term{Op: OConst, W: 32, Val: uint64(i)}
		small64[i] = &Term{Op: OConst, W: 64, Val: uint64(i)}
	}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func BV(w uint8, v uint64) *Term {
	v &= mask(w)
	switch w {
	case 8:
		return small8[v]
	case 32:
		if v < 1024 {
			return small32[v]
		}
	case 64:
		if v < 1024 {
			return small64[v]
		}
	}
	return &Term{Op: OConst, W: w, Val: v}
}

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func FC(f float64) *Term { return &Term{Op: OConst, W: WF, Val: math.Float64bits(f)} }

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) F() float64    { return math.Float64frombits(t.Val) }

// S is the signed value of a constant bit-vector.
func (t *Term) S() int64 {
	return sext64(t.Val, t.W)
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (c *TermCtx) mk(op Op, w, lo uint8, name string, a, b, d *Term) *Term {
	k := tkey{op: op, w: w, lo: lo, name: name}
	k.a, k.av = keyArg(a)
	k.b, k.bv = keyArg(b)
	k.c, k.cv = keyArg(d)
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{Op: op, W: w, Lo: lo, Name: name, A: a, B: b, C: d, id: c.n}
	c.tab[k] = t
	return t
}

func keyArg(t *Term) (*Term, uint64) {
	if t == nil {
		return nil, 0
	}
	if t.Op == OConst {
		return constA, t.Val
	}
	return t, 0
}

func sameTerm(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.Op == OConst && b.Op == OConst && a.W == b.W && a.Val == b.Val
}

func (c *TermCtx) Var(name string, w uint8) *Term {
	return c.mk(OVar, w, 0, name, nil, nil, nil)
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.IsConst() {
		return Bool(a.Val == 0)
	}
	if a.Op == ONot {
		return a.A
	}
	return c.mk(ONot, 0, 0, "", a, nil, nil)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.IsConst() {
		if a.Val == 0 {
			return tFalse
		}
		return b
	}
	if b.IsConst() {
		if b.Val == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if a.Op == ONot && a.A == b || b.Op == ONot && b.A == a {
		return tFalse
	}
	return c.mk(OAnd, 0, 0, "", a, b, nil)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.IsConst() {
		if a.Val == 1 {
			return tTrue
		}
		return b
	}
	if b.IsConst() {
		if b.Val == 1 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if a.Op == ONot && a.A == b || b.Op == ONot && b.A == a {
		return tTrue
	}
	return c.mk(OOr, 0, 0, "", a, b, nil)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a.W == WF {
		return c.FCmp(OFEq, a, b)
	}
	if a.IsConst() && b.IsConst() {
		return Bool(a.Val == b.Val)
	}
	if a == b {
		return tTrue
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.Val == 1 {
				return a
			}
			return c.Not(a)
		}
	}
	if a.IsConst() || (!b.IsConst() && a.id > b.id) {
		a, b = b, a
	}
	if b.IsConst() {
		// zext(x) == k
		if a.Op == OZext {
			if b.Val > mask(a.A.W) {
				return tFalse
			}
			return c.Eq(a.A, BV(a.A.W, b.Val))
		}
		if a.Op == OIte && a.B.IsConst() && a.C.IsConst() {
			tb, tc := a.B.Val == b.Val, a.C.Val == b.Val
			switch {
			case tb && tc:
				return tTrue
			case tb:
				return a.A
			case tc:
				return c.Not(a.A)
			default:
				return tFalse
			}
		}
	}
	return c.mk(OEq, 0, 0, "", a, b, nil)
}

func (c *TermCtx) Ite(k, a, b *Term) *Term {
	if k.IsConst() {
		if k.Val == 1 {
			return a
		}
		return b
	}
	if sameTerm(a, b) {
		return a
	}
	if a.W == 0 {
		return c.And(c.Or(c.Not(k), a), c.Or(k, b))
	}
	return c.mk(OIte, a.W, 0, "", k, a, b)
}

// Bin builds a bit-vector binary operation. Division by a zero constant is the caller's business.
func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.W
	// division of a widened unsigned value by a constant that fits the narrow width
	if a.Op == OZext && b.IsConst() && b.Val != 0 && b.Val <= mask(a.A.W) && b.S() > 0 {
		switch op {
		case OSRem, OURem:
			return c.Zext(c.Bin(OURem, a.A, BV(a.A.W, b.Val)), w)
		case OSDiv, OUDiv:
			return c.Zext(c.Bin(OUDiv, a.A, BV(a.A.W, b.Val)), w)
		}
	}
	if a.IsConst() && b.IsConst() {
		x, y := a.Val, b.Val
		sx, sy := a.S(), b.S()
		switch op {
		case OAdd:
			return BV(w, x+y)
		case OSub:
			return BV(w, x-y)
		case OMul:
			return BV(w, x*y)
		case OUDiv:
			if y != 0 {
				return BV(w, x/y)
			}
		case OURem:
			if y != 0 {
				return BV(w, x%y)
			}
		case OSDiv:
			if y != 0 {
				if sy == -1 {
					return BV(w, -x)
				}
				return BV(w, uint64(sx/sy))
			}
		case OSRem:
			if y != 0 {
				if sy == -1 {
					return BV(w, 0)
				}
				return BV(w, uint64(sx%sy))
			}
		case OBAnd:
			return BV(w, x&y)
		case OBOr:
			return BV(w, x|y)
		case OBXor:
			return BV(w, x^y)
		case OShl:
			if y >= uint64(w) {
				return BV(w, 0)
			}
			return BV(w, x<<y)
		case OLshr:
			if y >= uint64(w) {
				return BV(w, 0)
			}
			return BV(w, x>>y)
		case OAshr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return BV(w, uint64(sx>>y))
		}
	}
	// commutative: constant to the right
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.IsConst() || (!b.IsConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	if b.IsConst() {
		switch op {
		case OAdd, OSub, OBOr, OBXor, OShl, OLshr, OAshr:
			if b.Val == 0 {
				return a
			}
		}
		switch op {
		case OSub:
			return c.Bin(OAdd, a, BV(w, -b.Val))
		case OAdd:
			if a.Op == OAdd && a.B.IsConst() {
				return c.Bin(OAdd, a.A, BV(w, a.B.Val+b.Val))
			}
		case OMul:
			if b.Val == 0 {
				return b
			}
			if b.Val == 1 {
				return a
			}
			if bits.OnesCount64(b.Val) == 1 {
				return c.Bin(OShl, a, BV(w, uint64(bits.TrailingZeros64(b.Val))))
			}
		case OBAnd:
			if b.Val == 0 {
				return b
			}
			if b.Val == mask(w) {
				return a
			}
			if a.Op == OZext && b.Val&mask(a.A.W) == mask(a.A.W) {
				return a
			}
		case OShl, OLshr:
			if b.Val >= uint64(w) {
				return BV(w, 0)
			}
		case OUDiv, OSDiv:
			if b.Val == 1 {
				return a
			}
		}
	}
	if a.IsConst() && a.Val == 0 {
		switch op {
		case OShl, OLshr, OAshr:
			return a
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return BV(w, 0)
		case OBAnd, OBOr:
			return a
		}
	}
	return c.mk(op, w, 0, "", a, b, nil)
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.IsConst() {
		return BV(a.W, ^a.Val)
	}
	return c.mk(OBNot, a.W, 0, "", a, nil, nil)
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.W == WF {
		if a.IsConst() {
			return FC(-a.F())
		}
		return c.mk(OFNeg, WF, 0, "", a, nil, nil)
	}
	if a.IsConst() {
		return BV(a.W, -a.Val)
	}
	return c.mk(ONeg, a.W, 0, "", a, nil, nil)
}

func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		switch op {
		case OUlt:
			return Bool(a.Val < b.Val)
		case OUle:
			return Bool(a.Val <= b.Val)
		case OSlt:
			return Bool(a.S() < b.S())
		case OSle:
			return Bool(a.S() <= b.S())
		}
	}
	if a == b {
		return Bool(op == OUle || op == OSle)
	}
	if op == OUlt && b.IsConst() && b.Val == 0 {
		return tFalse
	}
	if op == OUle && a.IsConst() && a.Val == 0 {
		return tTrue
	}
	// zext(x) against a constant
	if a.Op == OZext && b.IsConst() {
		m := mask(a.A.W)
		switch op {
		case OUlt, OSlt:
			if op == OSlt && b.S() < 0 {
				return tFalse
			}
			if b.Val > m {
				return tTrue
			}
			return c.Cmp(OUlt, a.A, BV(a.A.W, b.Val))
		case OUle, OSle:
			if op == OSle && b.S() < 0 {
				return tFalse
			}
			if b.Val >= m {
				return tTrue
			}
			return c.Cmp(OUle, a.A, BV(a.A.W, b.Val))
		}
	}
	if b.Op == OZext && a.IsConst() {
		m := mask(b.A.W)
		switch op {
		case OUlt, OSlt:
			if op == OSlt && a.S() < 0 {
				return tTrue
			}
			if a.Val >= m {
				return tFalse
			}
			return c.Cmp(OUlt, BV(b.A.W, a.Val), b.A)
		case OUle, OSle:
			if op == OSle && a.S() < 0 {
				return tTrue
			}
			if a.Val > m {
				return tFalse
			}
			return c.Cmp(OUle, BV(b.A.W, a.Val), b.A)
		}
	}
	return c.mk(op, 0, 0, "", a, b, nil)
}

func (c *TermCtx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.W {
		return a
	}
	if a.IsConst() {
		return BV(w, a.Val>>lo)
	}
	switch a.Op {
	case OExtract:
		return c.Extract(a.A, a.Lo+hi, a.Lo+lo)
	case OZext:
		if lo >= a.A.W {
			return BV(w, 0)
		}
		if hi < a.A.W {
			return c.Extract(a.A, hi, lo)
		}
		if lo == 0 {
			return c.Zext(a.A, w)
		}
	case OSext:
		if hi < a.A.W {
			return c.Extract(a.A, hi, lo)
		}
	case OLshr:
		if a.B.IsConst() && uint64(hi)+a.B.Val < uint64(a.W) {
			return c.Extract(a.A, hi+uint8(a.B.Val), lo+uint8(a.B.Val))
		}
	case OAshr:
		if a.B.IsConst() && uint64(hi)+a.B.Val < uint64(a.W) {
			return c.Extract(a.A, hi+uint8(a.B.Val), lo+uint8(a.B.Val))
		}
	}
	return c.mk(OExtract, w, lo, "", a, nil, nil)
}

func (c *TermCtx) Zext(a *Term, w uint8) *Term {
	if w == a.W {
		return a
	}
	if w < a.W {
		return c.Extract(a, w-1, 0)
	}
	if a.IsConst() {
		return BV(w, a.Val)
	}
	if a.Op == OZext {
		return c.Zext(a.A, w)
	}
	return c.mk(OZext, w, 0, "", a, nil, nil)
}

func (c *TermCtx) Sext(a *Term, w uint8) *Term {
	if w == a.W {
		return a
	}
	if w < a.W {
		return c.Extract(a, w-1, 0)
	}
	if a.IsConst() {
		return BV(w, uint64(a.S()))
	}
	if a.Op == OZext && a.A.W < a.W {
		return c.Zext(a.A, w)
	}
	return c.mk(OSext, w, 0, "", a, nil, nil)
}

func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		x, y := a.F(), b.F()
		switch op {
		case OFAdd:
			return FC(x + y)
		case OFSub:
			return FC(x - y)
		case OFMul:
			return FC(x * y)
		case OFDiv:
			return FC(x / y)
		}
	}
	// IEEE addition and multiplication commute.
	if op == OFAdd || op == OFMul {
		if a.IsConst() || (!b.IsConst() && a.id > b.id) {
			a, b = b, a
		}
		if op == OFMul && b.IsConst() && b.F() == 1 {
			return a
		}
	}
	return c.mk(op, WF, 0, "", a, b, nil)
}

func (c *TermCtx) FCmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		switch op {
		case OFLt:
			return Bool(a.F() < b.F())
		case OFLe:
			return Bool(a.F() <= b.F())
		case OFEq:
			return Bool(a.F() == b.F())
		}
	}
	if op == OFEq && (a.IsConst() || (!b.IsConst() && a.id > b.id)) {
		a, b = b, a
	}
	if op == OFLt && a == b {
		return tFalse
	}
	return c.mk(op, 0, 0, "", a, b, nil)
}

func (c *TermCtx) FUn(op Op, name string, a *Term) *Term {
	if a.IsConst() {
		switch op {
		case OFIsNaN:
			return Bool(math.IsNaN(a.F()))
		case OFIsInf:
			return Bool(math.IsInf(a.F(), 0))
		case OFUF:
			switch name {
			case "f32":
				return FC(float64(float32(a.F())))
			case "log":
				return FC(math.Log(a.F()))
			case "log1p":
				return FC(math.Log1p(a.F()))
			case "log2":
				return FC(math.Log2(a.F()))
			case "log10":
				return FC(math.Log10(a.F()))
			case "sqrt":
				return FC(math.Sqrt(a.F()))
			case "exp":
				return FC(math.Exp(a.F()))
			case "abs":
				return FC(math.Abs(a.F()))
			case "floor":
				return FC(math.Floor(a.F()))
			case "ceil":
				return FC(math.Ceil(a.F()))
			case "trunc":
				return FC(math.Trunc(a.F()))
			case "round":
				return FC(math.Round(a.F()))
			case "roundeven":
				return FC(math.RoundToEven(a.F()))
			}
		case OSI2F:
			return FC(float64(a.S()))
		case OUI2F:
			return FC(float64(a.Val))
		}
	}
	w := uint8(WF)
	if op == OFIsNaN || op == OFIsInf {
		w = 0
	}
	return c.mk(op, w, 0, name, a, nil, nil)
}

// F2SI converts a float to a signed integer of width w (truncation).
func (c *TermCtx) F2SI(a *Term, w uint8) *Term {
	if a.IsConst() {
		return BV(w, uint64(int64(a.F())))
	}
	return c.mk(OF2SI, w, 0, "", a, nil, nil)
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t.Op == OConst {
		switch {
		case t.W == 0:
			return fmt.Sprint(t.Val == 1)
		case t.W == WF:
			return fmt.Sprint(t.F())
		}
		return fmt.Sprintf("%d:%d", t.Val, t.W)
	}
	if t.Op == OVar {
		return t.Name
	}
	if d == 0 {
		return "..."
	}
	s := fmt.Sprintf("(%s%s", opNames[t.Op], t.Name)
	for _, a := range []*Term{t.A, t.B, t.C} {
		if a != nil {
			s += " " + a.str(d-1)
		}
	}
	return s + ")"
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OBNot: "bvnot", ONeg: "bvneg", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OZext: "zext", OSext: "sext", OExtract: "extract",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OSI2F: "si2f", OUI2F: "ui2f", OF2SI: "f2si", OFUF: "f:", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite",
}

// evalTerm evaluates t under a model; ok is false when t uses something the evaluator does not know.
func evalTerm(t *Term, m map[string]uint64, memo map[*Term]uint64) (uint64, bool) {
	if t.Op == OConst {
		return t.Val, true
	}
	if t.Op == OVar {
		v, ok := m[t.Name]
		return v, ok
	}
	if v, ok := memo[t]; ok {
		return v, true
	}
	var x, y, z uint64
	var ok bool
	if t.A != nil {
		if x, ok = evalTerm(t.A, m, memo); !ok {
			return 0, false
		}
	}
	if t.Op == OIte {
		if x == 1 {
			return evalTerm(t.B, m, memo)
		}
		return evalTerm(t.C, m, memo)
	}
	if t.B != nil {
		if y, ok = evalTerm(t.B, m, memo); !ok {
			return 0, false
		}
	}
	_ = z
	b := func(v bool) uint64 {
		if v {
			return 1
		}
		return 0
	}
	w := t.W
	var r uint64
	switch t.Op {
	case ONot:
		r = 1 - x
	case OAnd:
		r = x & y
	case OOr:
		r = x | y
	case OEq:
		r = b(x == y)
	case OUlt:
		r = b(x < y)
	case OUle:
		r = b(x <= y)
	case OSlt:
		r = b(sext64(x, t.A.W) < sext64(y, t.A.W))
	case OSle:
		r = b(sext64(x, t.A.W) <= sext64(y, t.A.W))
	case OZext:
		r = x
	case OSext:
		r = uint64(sext64(x, t.A.W)) & mask(w)
	case OExtract:
		r = (x >> t.Lo) & mask(w)
	case OBNot:
		r = ^x & mask(w)
	case ONeg:
		r = -x & mask(w)
	case OAdd, OSub, OMul, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr:
		var c TermCtx
		r = c.Bin(t.Op, &Term{Op: OConst, W: w, Val: x}, &Term{Op: OConst, W: w, Val: y}).Val
	case OUDiv, OURem, OSDiv, OSRem:
		if y == 0 {
			return 0, false
		}
		var c TermCtx
		r = c.Bin(t.Op, &Term{Op: OConst, W: w, Val: x}, &Term{Op: OConst, W: w, Val: y}).Val
	default:
		return 0, false
	}
	memo[t] = r
	return r, true
}
