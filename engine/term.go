package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Op is a term operator.
type Op uint8

// Term operators. BV ops carry their width in Term.w; w==0 means Bool; w==fpSort means Float64.
const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpShl
	OpLshr
	OpAshr
	OpNot // bitwise not for BV
	OpZext
	OpSext
	OpTrunc
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBAnd // n-ary bool and
	OpBOr
	OpBNot
	// Floating point (Float64).
	OpFConst
	OpFFromU
	OpFFromS
	OpFToS // fp.to_sbv with Go/amd64 semantics for out of range
	OpFToU
	OpFOfBits
	OpFBits
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFEq
	OpFLt
	OpFLe
	OpFAbs
)

const fpSort = 255

// Term is a hash-consed SMT term.
type Term struct {
	op   Op
	w    uint8
	id   int32
	val  uint64
	name string
	args []*Term
	// supp is the single variable this term depends on, if nvars == 1.
	supp  *Term
	nvars uint8 // 0, 1, 2 (many)
	def   bool  // defined in the solver
}

// TermTable is a hash-consing table.
type TermTable struct {
	tab   map[string]*Term
	next  int32
	True  *Term
	False *Term
	vars  []*Term
	small [65][256]*Term

	ec  []uint64
	eg  []uint32
	gen uint32
}

func NewTermTable() *TermTable {
	t := &TermTable{tab: map[string]*Term{}}
	t.True = t.mk(OpConst, 0, 1, "")
	t.False = t.mk(OpConst, 0, 0, "")
	return t
}

func (tt *TermTable) mk(op Op, w uint8, val uint64, name string, args ...*Term) *Term {
	var buf [96]byte
	k := append(buf[:0], byte(op), w, byte(val), byte(val>>8), byte(val>>16), byte(val>>24), byte(val>>32), byte(val>>40), byte(val>>48), byte(val>>56))
	for _, a := range args {
		k = append(k, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	k = append(k, name...)
	if t, ok := tt.tab[string(k)]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, name: name, id: tt.next}
	tt.next++
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
	}
	if op == OpVar {
		t.supp = t
		t.nvars = 1
	}
	for _, a := range args {
		if a.nvars == 0 {
			continue
		}
		if a.nvars > 1 {
			t.nvars = 2
			t.supp = nil
			break
		}
		if t.nvars == 0 {
			t.nvars = 1
			t.supp = a.supp
		} else if t.supp != a.supp {
			t.nvars = 2
			t.supp = nil
			break
		}
	}
	tt.tab[string(k)] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (tt *TermTable) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < 256 && w <= 64 {
		if c := tt.small[w][v]; c != nil {
			return c
		}
		c := tt.mk(OpConst, w, v, "")
		tt.small[w][v] = c
		return c
	}
	return tt.mk(OpConst, w, v, "")
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

func (tt *TermTable) Var(name string, w uint8) *Term {
	t := tt.mk(OpVar, w, 0, name)
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst || t.op == OpFConst }

func (tt *TermTable) FConst(bits uint64) *Term { return tt.mk(OpFConst, fpSort, bits, "") }

func (tt *TermTable) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return tt.Bool(a.val == 0)
	case OpBNot:
		return a.args[0]
	}
	return tt.mk(OpBNot, 0, 0, "", a)
}

func (tt *TermTable) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tt.True {
			return true
		}
		if a == tt.False {
			return false
		}
		if a.op == OpBAnd {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if a.op == OpBNot && seen[a.args[0]] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tt.False
		}
	}
	for _, a := range out {
		if a.op == OpBNot && seen[a.args[0]] {
			return tt.False
		}
	}
	switch len(out) {
	case 0:
		return tt.True
	case 1:
		return out[0]
	}
	return tt.mk(OpBAnd, 0, 0, "", out...)
}

func (tt *TermTable) Or(as ...*Term) *Term {
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = tt.Not(a)
	}
	r := tt.Not(tt.And(ns...))
	return r
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c == tt.True {
		return a
	}
	if c == tt.False {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == tt.True && b == tt.False {
			return c
		}
		if a == tt.False && b == tt.True {
			return tt.Not(c)
		}
		if a == tt.True {
			return tt.Or(c, b)
		}
		if b == tt.False {
			return tt.And(c, a)
		}
		if a == tt.False {
			return tt.And(tt.Not(c), b)
		}
		if b == tt.True {
			return tt.Or(tt.Not(c), a)
		}
	}
	if c.op == OpBNot {
		return tt.Ite(c.args[0], b, a)
	}
	return tt.mk(OpIte, a.w, 0, "", c, a, b)
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.op == OpConst && b.op == OpConst {
		return tt.Bool(a.val == b.val)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b == tt.True {
			return a
		}
		if b == tt.False {
			return tt.Not(a)
		}
	}
	if b.op == OpConst {
		switch a.op {
		case OpZext:
			if b.val > mask(a.args[0].w) {
				return tt.False
			}
			return tt.Eq(a.args[0], tt.Const(a.args[0].w, b.val))
		case OpSext:
			x := b.val & mask(a.args[0].w)
			if uint64(sx(x, a.args[0].w))&mask(a.w) != b.val {
				return tt.False
			}
			return tt.Eq(a.args[0], tt.Const(a.args[0].w, x))
		case OpIte:
			if a.args[1].op == OpConst && a.args[2].op == OpConst {
				e1 := a.args[1].val == b.val
				e2 := a.args[2].val == b.val
				switch {
				case e1 && e2:
					return tt.True
				case e1:
					return a.args[0]
				case e2:
					return tt.Not(a.args[0])
				default:
					return tt.False
				}
			}
			if a.args[1].op == OpConst || a.args[2].op == OpConst {
				return tt.Ite(a.args[0], tt.Eq(a.args[1], b), tt.Eq(a.args[2], b))
			}
		case OpAdd:
			if a.args[1].op == OpConst {
				return tt.Eq(a.args[0], tt.Const(a.w, b.val-a.args[1].val))
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if a.op == OpZext && b.op == OpZext && a.args[0].w == b.args[0].w {
		return tt.Eq(a.args[0], b.args[0])
	}
	return tt.mk(OpEq, 0, 0, "", a, b)
}

func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		v, ok := foldBV(op, w, a.val, b.val)
		if ok {
			return tt.Const(w, v)
		}
	}
	m := mask(w)
	switch op {
	case OpAdd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.args[1].op == OpConst {
				return tt.Bin(OpAdd, a.args[0], tt.Const(w, a.args[1].val+b.val))
			}
		}
	case OpSub:
		if b.op == OpConst {
			return tt.Bin(OpAdd, a, tt.Const(w, -b.val))
		}
		if a == b {
			return tt.Const(w, 0)
		}
	case OpMul:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OpAnd:
		if a.op == OpConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return b
			}
			if b.val == m {
				return a
			}
			if a.op == OpZext && b.val >= mask(a.args[0].w) && b.val&mask(a.args[0].w) == mask(a.args[0].w) {
				return a
			}
		}
	case OpOr:
		if a.op == OpConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return a
			}
			if b.val == m {
				return b
			}
		}
	case OpXor:
		if a.op == OpConst {
			a, b = b, a
		}
		if a == b {
			return tt.Const(w, 0)
		}
		if b.op == OpConst && b.val == 0 {
			return a
		}
	case OpShl, OpLshr, OpAshr:
		if b.op == OpConst && b.val == 0 {
			return a
		}
		if b.op == OpConst && b.val >= uint64(w) && op != OpAshr {
			return tt.Const(w, 0)
		}
	}
	return tt.mk(op, w, 0, "", a, b)
}

func foldBV(op Op, w uint8, a, b uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m, true
	case OpSub:
		return (a - b) & m, true
	case OpMul:
		return (a * b) & m, true
	case OpUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OpURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OpSDiv:
		if b == 0 {
			if sx(a, w) < 0 {
				return 1, true
			}
			return m, true
		}
		if sx(b, w) == -1 {
			return (-a) & m, true
		}
		return uint64(sx(a, w)/sx(b, w)) & m, true
	case OpSRem:
		if b == 0 {
			return a, true
		}
		if sx(b, w) == -1 {
			return 0, true
		}
		return uint64(sx(a, w)%sx(b, w)) & m, true
	case OpAnd:
		return a & b, true
	case OpOr:
		return a | b, true
	case OpXor:
		return a ^ b, true
	case OpShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OpLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OpAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m, true
	}
	return 0, false
}

func (tt *TermTable) Cmp(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		return tt.Bool(foldCmp(op, w, a.val, b.val))
	}
	if a == b {
		return tt.Bool(op == OpUle || op == OpSle)
	}
	// Narrow comparisons over zero-extended values.
	if op == OpSlt || op == OpSle {
		// Both non-negative => unsigned comparison.
		if tt.nonNeg(a) && tt.nonNeg(b) {
			if op == OpSlt {
				return tt.Cmp(OpUlt, a, b)
			}
			return tt.Cmp(OpUle, a, b)
		}
	}
	if op == OpUlt || op == OpUle {
		if a.op == OpZext && b.op == OpConst {
			iw := a.args[0].w
			if b.val > mask(iw) {
				return tt.True
			}
			return tt.Cmp(op, a.args[0], tt.Const(iw, b.val))
		}
		if b.op == OpZext && a.op == OpConst {
			iw := b.args[0].w
			if a.val > mask(iw) {
				return tt.False
			}
			return tt.Cmp(op, tt.Const(iw, a.val), b.args[0])
		}
		if a.op == OpZext && b.op == OpZext && a.args[0].w == b.args[0].w {
			return tt.Cmp(op, a.args[0], b.args[0])
		}
		if b.op == OpConst && b.val == 0 {
			if op == OpUlt {
				return tt.False
			}
			return tt.Eq(a, b)
		}
		if b.op == OpConst && b.val == mask(w) && op == OpUle {
			return tt.True
		}
		if a.op == OpConst && a.val == 0 && op == OpUle {
			return tt.True
		}
	}
	if a.op == OpIte && b.op == OpConst && a.args[1].op == OpConst && a.args[2].op == OpConst {
		return tt.Ite(a.args[0], tt.Cmp(op, a.args[1], b), tt.Cmp(op, a.args[2], b))
	}
	return tt.mk(op, 0, 0, "", a, b)
}

func (tt *TermTable) nonNeg(a *Term) bool {
	switch a.op {
	case OpConst:
		return sx(a.val, a.w) >= 0
	case OpZext:
		return true
	case OpIte:
		return tt.nonNeg(a.args[1]) && tt.nonNeg(a.args[2])
	}
	return false
}

func foldCmp(op Op, w uint8, a, b uint64) bool {
	switch op {
	case OpUlt:
		return a < b
	case OpUle:
		return a <= b
	case OpSlt:
		return sx(a, w) < sx(b, w)
	case OpSle:
		return sx(a, w) <= sx(b, w)
	}
	panic("cmp")
}

func (tt *TermTable) BNotBV(a *Term) *Term {
	if a.op == OpConst {
		return tt.Const(a.w, ^a.val)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return tt.mk(OpNot, a.w, 0, "", a)
}

// Resize converts a BV to width w.
func (tt *TermTable) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		if w > a.w && signed {
			return tt.Const(w, uint64(sx(a.val, a.w)))
		}
		return tt.Const(w, a.val)
	}
	if w < a.w {
		if a.op == OpZext || a.op == OpSext {
			in := a.args[0]
			if in.w >= w {
				return tt.Resize(in, w, false)
			}
			return tt.Resize(in, w, a.op == OpSext)
		}
		if a.op == OpIte && a.args[1].op == OpConst && a.args[2].op == OpConst {
			return tt.Ite(a.args[0], tt.Resize(a.args[1], w, false), tt.Resize(a.args[2], w, false))
		}
		switch a.op {
		case OpAdd, OpSub, OpMul, OpAnd, OpOr, OpXor:
			return tt.Bin(a.op, tt.Resize(a.args[0], w, false), tt.Resize(a.args[1], w, false))
		}
		return tt.mk(OpTrunc, w, 0, "", a)
	}
	if a.op == OpIte && a.args[1].op == OpConst && a.args[2].op == OpConst {
		return tt.Ite(a.args[0], tt.Resize(a.args[1], w, signed), tt.Resize(a.args[2], w, signed))
	}
	if a.op == OpZext {
		return tt.Resize(a.args[0], w, false)
	}
	if signed {
		return tt.mk(OpSext, w, 0, "", a)
	}
	return tt.mk(OpZext, w, 0, "", a)
}

func f64(b uint64) float64 { return math.Float64frombits(b) }

func goF2I(f float64) int64 {
	// amd64 CVTTSD2SQ semantics.
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(f)
}

func goF2U(f float64) uint64 { return uint64(f) }

func foldF(op Op, a, b uint64) uint64 {
	x, y := f64(a), f64(b)
	var r float64
	switch op {
	case OpFAdd:
		r = x + y
	case OpFSub:
		r = x - y
	case OpFMul:
		r = x * y
	case OpFDiv:
		r = x / y
	case OpFNeg:
		r = -x
	case OpFAbs:
		r = math.Abs(x)
	default:
		panic("foldF")
	}
	return math.Float64bits(r)
}

func (tt *TermTable) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.FConst(foldF(op, a.val, b.val))
	}
	return tt.mk(op, fpSort, 0, "", a, b)
}

func (tt *TermTable) FUn(op Op, a *Term) *Term {
	if a.isConst() {
		return tt.FConst(foldF(op, a.val, 0))
	}
	return tt.mk(op, fpSort, 0, "", a)
}

func (tt *TermTable) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := f64(a.val), f64(b.val)
		switch op {
		case OpFEq:
			return tt.Bool(x == y)
		case OpFLt:
			return tt.Bool(x < y)
		default:
			return tt.Bool(x <= y)
		}
	}
	return tt.mk(op, 0, 0, "", a, b)
}

// Model is an assignment of variables.
type Model map[*Term]uint64

// Eval evaluates t under m (missing variables are 0).
func (tt *TermTable) Eval(t *Term, m Model) uint64 {
	tt.gen++
	if len(tt.ec) < int(tt.next) {
		tt.ec = append(tt.ec, make([]uint64, int(tt.next)-len(tt.ec)+1024)...)
		tt.eg = append(tt.eg, make([]uint32, len(tt.ec)-len(tt.eg))...)
	}
	return tt.eval(t, m)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tt *TermTable) eval(t *Term, m Model) uint64 {
	switch t.op {
	case OpConst, OpFConst:
		return t.val
	case OpVar:
		return m[t]
	}
	if tt.eg[t.id] == tt.gen {
		return tt.ec[t.id]
	}
	var r uint64
	switch t.op {
	case OpIte:
		if tt.eval(t.args[0], m) != 0 {
			r = tt.eval(t.args[1], m)
		} else {
			r = tt.eval(t.args[2], m)
		}
	case OpBAnd:
		r = 1
		for _, a := range t.args {
			if tt.eval(a, m) == 0 {
				r = 0
				break
			}
		}
	case OpBOr:
		for _, a := range t.args {
			if tt.eval(a, m) != 0 {
				r = 1
				break
			}
		}
	case OpBNot:
		r = 1 - tt.eval(t.args[0], m)
	case OpEq:
		r = b2u(tt.eval(t.args[0], m) == tt.eval(t.args[1], m))
	case OpUlt, OpUle, OpSlt, OpSle:
		r = b2u(foldCmp(t.op, t.args[0].w, tt.eval(t.args[0], m), tt.eval(t.args[1], m)))
	case OpZext:
		r = tt.eval(t.args[0], m)
	case OpSext:
		r = uint64(sx(tt.eval(t.args[0], m), t.args[0].w)) & mask(t.w)
	case OpTrunc:
		r = tt.eval(t.args[0], m) & mask(t.w)
	case OpNot:
		r = ^tt.eval(t.args[0], m) & mask(t.w)
	case OpFFromU:
		r = math.Float64bits(float64(tt.eval(t.args[0], m)))
	case OpFFromS:
		r = math.Float64bits(float64(sx(tt.eval(t.args[0], m), t.args[0].w)))
	case OpFToS:
		r = uint64(goF2I(f64(tt.eval(t.args[0], m)))) & mask(t.w)
	case OpFToU:
		r = goF2U(f64(tt.eval(t.args[0], m))) & mask(t.w)
	case OpFOfBits, OpFBits:
		r = tt.eval(t.args[0], m)
	case OpFNeg, OpFAbs:
		r = foldF(t.op, tt.eval(t.args[0], m), 0)
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		r = foldF(t.op, tt.eval(t.args[0], m), tt.eval(t.args[1], m))
	case OpFEq:
		r = b2u(f64(tt.eval(t.args[0], m)) == f64(tt.eval(t.args[1], m)))
	case OpFLt:
		r = b2u(f64(tt.eval(t.args[0], m)) < f64(tt.eval(t.args[1], m)))
	case OpFLe:
		r = b2u(f64(tt.eval(t.args[0], m)) <= f64(tt.eval(t.args[1], m)))
	default:
		v, ok := foldBV(t.op, t.w, tt.eval(t.args[0], m), tt.eval(t.args[1], m))
		if !ok {
			panic(fmt.Sprintf("eval op %d", t.op))
		}
		r = v
	}
	tt.eg[t.id] = tt.gen
	tt.ec[t.id] = r
	return r
}

// Vars collects variables of t.
func Vars(t *Term, seen map[*Term]bool, out *[]*Term) {
	if t.nvars == 0 || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OpVar {
		*out = append(*out, t)
		return
	}
	for _, a := range t.args {
		Vars(a, seen, out)
	}
}

func sortOf(w uint8) string {
	switch w {
	case 0:
		return "Bool"
	case fpSort:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(t *Term) string {
	if t.op == OpFConst {
		b := t.val
		return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&((1<<52)-1))
	}
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w)/4, t.val)
	}
	return fmt.Sprintf("#b%0*b", int(t.w), t.val)
}

var smtOps = map[Op]string{
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem",
	OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpNot: "bvnot",
	OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpBAnd: "and", OpBOr: "or", OpBNot: "not",
	OpFNeg: "fp.neg", OpFAbs: "fp.abs", OpFEq: "fp.eq", OpFLt: "fp.lt", OpFLe: "fp.leq",
	OpFAdd: "fp.add RNE", OpFSub: "fp.sub RNE", OpFMul: "fp.mul RNE", OpFDiv: "fp.div RNE",
}

func ref(t *Term) string {
	switch t.op {
	case OpConst, OpFConst:
		return constSMT(t)
	case OpVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

// body renders the node of t with references to its args.
func body(t *Term) string {
	var sb strings.Builder
	switch t.op {
	case OpZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OpSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OpTrunc:
		fmt.Fprintf(&sb, "((_ extract %d 0) %s)", t.w-1, ref(t.args[0]))
	case OpFFromU:
		fmt.Fprintf(&sb, "((_ to_fp_unsigned 11 53) RNE %s)", ref(t.args[0]))
	case OpFFromS:
		fmt.Fprintf(&sb, "((_ to_fp 11 53) RNE %s)", ref(t.args[0]))
	case OpFToS:
		x := ref(t.args[0])
		hi, lo := constSMT(&Term{op: OpFConst, val: 0x43e0000000000000}), constSMT(&Term{op: OpFConst, val: 0xc3e0000000000000})
		fmt.Fprintf(&sb, "(ite (and (fp.lt %s %s) (fp.geq %s %s)) ((_ fp.to_sbv %d) RTZ %s) %s)", x, hi, x, lo, t.w, x, constSMT(&Term{op: OpConst, w: t.w, val: 1 << (t.w - 1)}))
	case OpFOfBits:
		fmt.Fprintf(&sb, "((_ to_fp 11 53) %s)", ref(t.args[0]))
	case OpFBits:
		fmt.Fprintf(&sb, "(fp.to_ieee_bv %s)", ref(t.args[0]))
	case OpFToU:
		fmt.Fprintf(&sb, "((_ fp.to_ubv %d) RTZ %s)", t.w, ref(t.args[0]))
	default:
		sb.WriteString("(")
		sb.WriteString(smtOps[t.op])
		for _, a := range t.args {
			sb.WriteString(" ")
			sb.WriteString(ref(a))
		}
		sb.WriteString(")")
	}
	return sb.String()
}

// String renders t for humans (bounded).
func (t *Term) String() string {
	if t.op == OpConst || t.op == OpFConst || t.op == OpVar {
		return ref(t)
	}
	n := 0
	return t.str(&n)
}

func (t *Term) str(n *int) string {
	*n++
	if *n > 200 {
		return "..."
	}
	if t.op == OpConst || t.op == OpFConst || t.op == OpVar {
		return ref(t)
	}
	var sb strings.Builder
	s := smtOps[t.op]
	if s == "" {
		s = fmt.Sprintf("op%d", t.op)
	}
	sb.WriteString("(" + s)
	for _, a := range t.args {
		sb.WriteString(" " + a.str(n))
	}
	sb.WriteString(")")
	return sb.String()
}

var _ = bits.Len
