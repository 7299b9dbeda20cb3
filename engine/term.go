package main

// Bit-vector / boolean / floating-point terms with hash-consing and
// simplification. One TermTable per worker; constants are worker-independent.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat
	OExtract
	OSExt
	OIte
	// floating point: operands and results are FP sorts (width FP32/FP64)
	OFromBits // bv -> fp
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OSToF // signed bv -> fp
	OUToF
	OFToS // fp -> signed bv (truncating)
	OFToU
	OFToF
	OFIsNaN
)

// sorts: 0 = Bool, 1..64 = BV, FP32/FP64.
const (
	FP32 = 100
	FP64 = 101
)

type Term struct {
	op      Op
	w       uint8
	hi, lo  uint8
	id      uint32
	val     uint64 // constant value (FP: bits) or variable index
	a, b, c *Term
	name    string // variables
	vars    []uint32
	emitted bool
	umaxv   uint64
	umaxok  bool
}

func (t *Term) isConst() bool { return t.op == OConst }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

var smallConsts [65][]*Term
var tTrue = &Term{op: OConst, w: 0, val: 1}
var tFalse = &Term{op: OConst, w: 0, val: 0}

func init() {
	for w := 1; w <= 64; w++ {
		n := 4096
		if w < 12 {
			n = 1 << w
		}
		if w != 1 && w != 8 && w != 16 && w != 32 && w != 64 {
			continue
		}
		smallConsts[w] = make([]*Term, n)
		blk := make([]Term, n)
		for i := range blk {
			blk[i] = Term{op: OConst, w: uint8(w), val: uint64(i)}
			smallConsts[w][i] = &blk[i]
		}
	}
}

// BV returns a bit-vector constant (not interned unless small).
func BV(w uint8, v uint64) *Term {
	v &= mask(w)
	if s := smallConsts[w]; v < uint64(len(s)) {
		return s[v]
	}
	return &Term{op: OConst, w: w, val: v}
}

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func FPc32(f float32) *Term { return &Term{op: OConst, w: FP32, val: uint64(math.Float32bits(f))} }
func FPc64(f float64) *Term { return &Term{op: OConst, w: FP64, val: math.Float64bits(f)} }

type termKey struct {
	op      Op
	w       uint8
	hi, lo  uint8
	a, b, c *Term
}

type constKey struct {
	w uint8
	v uint64
}

type TermTable struct {
	tab    map[termKey]*Term
	consts map[constKey]*Term
	vars   map[string]*Term
	varsBy []*Term
	next   uint32
}

func NewTermTable() *TermTable {
	return &TermTable{tab: map[termKey]*Term{}, consts: map[constKey]*Term{}, vars: map[string]*Term{}}
}

func (tt *TermTable) canon(t *Term) *Term {
	if t == nil || t.op != OConst || t.w == 0 {
		return t
	}
	if int(t.w) < len(smallConsts) {
		if s := smallConsts[t.w]; t.val < uint64(len(s)) {
			return s[t.val]
		}
	}
	k := constKey{t.w, t.val}
	if c, ok := tt.consts[k]; ok {
		return c
	}
	tt.consts[k] = t
	return t
}

func mergeVars(x, y []uint32) []uint32 {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	// fast path: subset
	i, j := 0, 0
	out := make([]uint32, 0, len(x)+len(y))
	for i < len(x) && j < len(y) {
		switch {
		case x[i] < y[j]:
			out = append(out, x[i])
			i++
		case x[i] > y[j]:
			out = append(out, y[j])
			j++
		default:
			out = append(out, x[i])
			i++
			j++
		}
	}
	out = append(out, x[i:]...)
	out = append(out, y[j:]...)
	if len(out) == len(x) {
		return x
	}
	if len(out) == len(y) {
		return y
	}
	return out
}

func (tt *TermTable) mk(op Op, w uint8, hi, lo uint8, a, b, c *Term) *Term {
	a, b, c = tt.canon(a), tt.canon(b), tt.canon(c)
	k := termKey{op, w, hi, lo, a, b, c}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	tt.next++
	t := &Term{op: op, w: w, hi: hi, lo: lo, id: tt.next, a: a, b: b, c: c}
	if a != nil {
		t.vars = a.vars
	}
	if b != nil {
		t.vars = mergeVars(t.vars, b.vars)
	}
	if c != nil {
		t.vars = mergeVars(t.vars, c.vars)
	}
	tt.tab[k] = t
	return t
}

// Var returns the variable with this name (width w bits, or 0 for Bool).
func (tt *TermTable) Var(name string, w uint8) *Term {
	key := fmt.Sprintf("%s#%d", name, w)
	if v, ok := tt.vars[key]; ok {
		return v
	}
	tt.next++
	v := &Term{op: OVar, w: w, id: tt.next, name: name, val: uint64(len(tt.varsBy))}
	v.vars = []uint32{uint32(len(tt.varsBy))}
	tt.varsBy = append(tt.varsBy, v)
	tt.vars[key] = v
	return v
}

func same(a, b *Term) bool {
	return a == b || (a.op == OConst && b.op == OConst && a.val == b.val && a.w == b.w)
}

func sx(v uint64, w uint8) int64 {
	return int64(v<<(64-w)) >> (64 - w)
}

// ---------- booleans ----------

func (tt *TermTable) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return Bool(a.val == 0)
	case ONot:
		return a.a
	case OUlt:
		return tt.mk(OUle, 0, 0, 0, a.b, a.a, nil)
	case OUle:
		return tt.mk(OUlt, 0, 0, 0, a.b, a.a, nil)
	case OSlt:
		return tt.mk(OSle, 0, 0, 0, a.b, a.a, nil)
	case OSle:
		return tt.mk(OSlt, 0, 0, 0, a.b, a.a, nil)
	}
	return tt.mk(ONot, 0, 0, 0, a, nil, nil)
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return tFalse
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.Not(a) == b {
		return tFalse
	}
	return tt.mk(OAnd, 0, 0, 0, a, b, nil)
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val != 0 {
			return tTrue
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.Not(a) == b {
		return tTrue
	}
	return tt.mk(OOr, 0, 0, 0, a, b, nil)
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.val != 0 {
				return c
			}
			return tt.Not(c)
		}
		if a.isConst() {
			if a.val != 0 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.isConst() {
			if b.val != 0 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	if c.op == ONot {
		return tt.Ite(c.a, b, a)
	}
	return tt.mk(OIte, a.w, 0, 0, c, a, b)
}

// umax is a cheap upper bound of the unsigned value.
func (tt *TermTable) umax(t *Term) uint64 {
	if t.umaxok {
		return t.umaxv
	}
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.val
	case OConcat:
		m = tt.umax(t.a)<<t.b.w | mask(t.b.w)
		if t.a.isConst() {
			m = t.a.val<<t.b.w | tt.umax(t.b)
		}
	case OBAnd:
		m = min(tt.umax(t.a), tt.umax(t.b))
	case OURem:
		if t.b.isConst() && t.b.val > 0 {
			m = min(t.b.val-1, tt.umax(t.a))
		}
	case OUDiv:
		if t.b.isConst() && t.b.val > 0 {
			m = tt.umax(t.a) / t.b.val
		}
	case OAdd:
		x, y := tt.umax(t.a), tt.umax(t.b)
		s, carry := bits.Add64(x, y, 0)
		if carry == 0 && s <= m {
			m = s
		}
	case OMul:
		h, l := bits.Mul64(tt.umax(t.a), tt.umax(t.b))
		if h == 0 && l <= m {
			m = l
		}
	case OIte:
		m = max(tt.umax(t.b), tt.umax(t.c))
	}
	t.umaxv, t.umaxok = m, true
	return m
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(engineBug("Eq width mismatch %d %d", a.w, b.w))
	}
	if same(a, b) {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val != 0 {
				return a
			}
			return tt.Not(a)
		}
		return tt.Or(tt.And(a, b), tt.And(tt.Not(a), tt.Not(b)))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val > tt.umax(a) {
			return tFalse
		}
		switch a.op {
		case OConcat:
			return tt.And(tt.Eq(a.a, BV(a.a.w, b.val>>a.b.w)), tt.Eq(a.b, BV(a.b.w, b.val)))
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return tt.Ite(a.a, tt.Eq(a.b, b), tt.Eq(a.c, b))
			}
		case OAdd:
			if a.b.isConst() {
				return tt.Eq(a.a, BV(a.w, b.val-a.b.val))
			}
		case OBXor:
			if a.b.isConst() {
				return tt.Eq(a.a, BV(a.w, b.val^a.b.val))
			}
		case OBNot:
			return tt.Eq(a.a, BV(a.w, ^b.val))
		case OSExt:
			lowm := mask(a.a.w)
			if uint64(sx(b.val&lowm, a.a.w))&mask(a.w) != b.val {
				return tFalse
			}
			return tt.Eq(a.a, BV(a.a.w, b.val))
		}
	} else if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
		return tt.And(tt.Eq(a.a, b.a), tt.Eq(a.b, b.b))
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, 0, 0, 0, a, b, nil)
}

func (tt *TermTable) nonneg(t *Term) bool { return tt.umax(t) <= mask(t.w)>>1 }

// stripZ removes zero high parts shared by both operands of an unsigned comparison.
func (tt *TermTable) stripZ(a, b *Term) (*Term, *Term) {
	for {
		az := a.op == OConcat && a.a.isConst() && a.a.val == 0
		bz := b.op == OConcat && b.a.isConst() && b.a.val == 0
		if az && bz && a.b.w == b.b.w {
			return a.b, b.b
		}
		if az && b.isConst() && b.val <= mask(a.b.w) {
			return a.b, BV(a.b.w, b.val)
		}
		if bz && a.isConst() && a.val <= mask(b.b.w) {
			return BV(b.b.w, a.val), b.b
		}
		return a, b
	}
}

func (tt *TermTable) Ult(a, b *Term) *Term {
	if same(a, b) {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return Bool(a.val < b.val)
	}
	if b.isConst() {
		if b.val == 0 {
			return tFalse
		}
		if tt.umax(a) < b.val {
			return tTrue
		}
		if b.val == 1 {
			return tt.Eq(a, BV(a.w, 0))
		}
	}
	if a.isConst() && a.val >= tt.umax(b) {
		return tFalse
	}
	a, b = tt.stripZ(a, b)
	return tt.mk(OUlt, 0, 0, 0, a, b, nil)
}

func (tt *TermTable) Ule(a, b *Term) *Term { return tt.Not(tt.Ult(b, a)) }

func (tt *TermTable) Slt(a, b *Term) *Term {
	if same(a, b) {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if tt.nonneg(a) && tt.nonneg(b) {
		return tt.Ult(a, b)
	}
	if b.isConst() && tt.nonneg(a) && sx(b.val, b.w) <= 0 {
		return tFalse
	}
	if a.isConst() && tt.nonneg(b) && sx(a.val, a.w) < 0 {
		return tTrue
	}
	return tt.mk(OSlt, 0, 0, 0, a, b, nil)
}

func (tt *TermTable) Sle(a, b *Term) *Term { return tt.Not(tt.Slt(b, a)) }

// ---------- bit-vectors ----------

func (tt *TermTable) Concat(a, b *Term) *Term { // a high, b low
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return BV(w, a.val<<b.w|b.val)
	}
	// right-assoc normal form: Concat(x, rest)
	if a.op == OConcat {
		return tt.Concat(a.a, tt.Concat(a.b, b))
	}
	// merge with head of b
	h, rest := b, (*Term)(nil)
	if b.op == OConcat {
		h, rest = b.a, b.b
	}
	var m *Term
	if a.isConst() && h.isConst() {
		m = BV(a.w+h.w, a.val<<h.w|h.val)
	} else if a.op == OExtract && h.op == OExtract && a.a == h.a && a.lo == h.hi+1 {
		m = tt.Extract(a.a, a.hi, h.lo)
	} else if a.op == OExtract && a.a == h && a.lo == h.w {
		m = nil
	}
	if m != nil {
		if rest == nil {
			return m
		}
		return tt.Concat(m, rest)
	}
	return tt.mk(OConcat, w, 0, 0, a, b, nil)
}

func (tt *TermTable) Extract(t *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return BV(w, t.val>>lo)
	case OExtract:
		return tt.Extract(t.a, t.lo+hi, t.lo+lo)
	case OConcat:
		bw := t.b.w
		if lo >= bw {
			return tt.Extract(t.a, hi-bw, lo-bw)
		}
		if hi < bw {
			return tt.Extract(t.b, hi, lo)
		}
		return tt.Concat(tt.Extract(t.a, hi-bw, 0), tt.Extract(t.b, bw-1, lo))
	case OBAnd, OBOr, OBXor:
		return tt.bin(t.op, tt.Extract(t.a, hi, lo), tt.Extract(t.b, hi, lo))
	case OBNot:
		return tt.BNot(tt.Extract(t.a, hi, lo))
	case OIte:
		if t.b.isConst() || t.c.isConst() || t.b.op == OConcat || t.c.op == OConcat {
			return tt.Ite(t.a, tt.Extract(t.b, hi, lo), tt.Extract(t.c, hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return tt.bin(t.op, tt.Extract(t.a, hi, 0), tt.Extract(t.b, hi, 0))
		}
	case OSExt:
		if hi < t.a.w {
			return tt.Extract(t.a, hi, lo)
		}
	}
	return tt.mk(OExtract, w, hi, lo, t, nil, nil)
}

func (tt *TermTable) ZExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return tt.Extract(t, w-1, 0)
	}
	return tt.Concat(BV(w-t.w, 0), t)
}

func (tt *TermTable) SExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return tt.Extract(t, w-1, 0)
	}
	if t.isConst() {
		return BV(w, uint64(sx(t.val, t.w)))
	}
	if tt.nonneg(t) {
		return tt.ZExt(t, w)
	}
	return tt.mk(OSExt, w, 0, 0, t, nil, nil)
}

func (tt *TermTable) BNot(a *Term) *Term {
	if a.isConst() {
		return BV(a.w, ^a.val)
	}
	if a.op == OBNot {
		return a.a
	}
	return tt.mk(OBNot, a.w, 0, 0, a, nil, nil)
}

func (tt *TermTable) Neg(a *Term) *Term {
	if a.isConst() {
		return BV(a.w, -a.val)
	}
	return tt.mk(ONeg, a.w, 0, 0, a, nil, nil)
}

func flatten(t *Term, out []*Term) []*Term {
	for t.op == OConcat {
		out = append(out, t.a)
		t = t.b
	}
	return append(out, t)
}

// mergeDisjoint tries to compute a|b (== a^b == a+b) when at every bit at least one side is constant zero.
func (tt *TermTable) mergeDisjoint(a, b *Term) *Term {
	if (a.op != OConcat && !a.isConst()) || (b.op != OConcat && !b.isConst()) {
		return nil
	}
	pa := flatten(a, nil)
	pb := flatten(b, nil)
	var segs []*Term
	i, j := 0, 0
	var ra, rb *Term // remaining parts
	ra, rb = pa[0], pb[0]
	for {
		w := min(ra.w, rb.w)
		ha := ra
		var ta *Term
		if ra.w > w {
			ha = tt.Extract(ra, ra.w-1, ra.w-w)
			ta = tt.Extract(ra, ra.w-w-1, 0)
		}
		hb := rb
		var tb *Term
		if rb.w > w {
			hb = tt.Extract(rb, rb.w-1, rb.w-w)
			tb = tt.Extract(rb, rb.w-w-1, 0)
		}
		switch {
		case ha.isConst() && ha.val == 0:
			segs = append(segs, hb)
		case hb.isConst() && hb.val == 0:
			segs = append(segs, ha)
		default:
			return nil
		}
		if ta == nil {
			i++
			if i < len(pa) {
				ta = pa[i]
			}
		}
		if tb == nil {
			j++
			if j < len(pb) {
				tb = pb[j]
			}
		}
		if ta == nil || tb == nil {
			break
		}
		ra, rb = ta, tb
	}
	r := segs[len(segs)-1]
	for k := len(segs) - 2; k >= 0; k-- {
		r = tt.Concat(segs[k], r)
	}
	return r
}

func fold(op Op, w uint8, x, y uint64) (uint64, bool) {
	switch op {
	case OAdd:
		return x + y, true
	case OSub:
		return x - y, true
	case OMul:
		return x * y, true
	case OUDiv:
		if y == 0 {
			return 0, false
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return 0, false
		}
		return x % y, true
	case OSDiv:
		if y == 0 {
			return 0, false
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return uint64(-a), true
		}
		return uint64(a / b), true
	case OSRem:
		if y == 0 {
			return 0, false
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return 0, true
		}
		return uint64(a % b), true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w) >> y), true
	}
	return 0, false
}

func (tt *TermTable) bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(engineBug("bin %d width mismatch %d %d", op, a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		if v, ok := fold(op, w, a.val, b.val); ok {
			return BV(w, v)
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	bc := b.isConst()
	switch op {
	case OAdd:
		if bc {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return tt.bin(OAdd, a.a, BV(w, a.b.val+b.val))
			}
		}
		if a.op == OSub && same(a.b, b) {
			return a.a
		}
	case OSub:
		if bc {
			return tt.bin(OAdd, a, BV(w, -b.val))
		}
		if same(a, b) {
			return BV(w, 0)
		}
		if a.op == OAdd {
			if same(a.a, b) {
				return a.b
			}
			if same(a.b, b) {
				return a.a
			}
		}
	case OMul:
		if bc {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if b.val&(b.val-1) == 0 {
				return tt.bin(OShl, a, BV(w, uint64(bits.TrailingZeros64(b.val))))
			}
		}
	case OUDiv:
		if bc && b.val != 0 && b.val&(b.val-1) == 0 {
			return tt.bin(OLShr, a, BV(w, uint64(bits.TrailingZeros64(b.val))))
		}
	case OURem:
		if bc && b.val != 0 && b.val&(b.val-1) == 0 {
			return tt.bin(OBAnd, a, BV(w, b.val-1))
		}
	case OSDiv:
		if tt.nonneg(a) && tt.nonneg(b) {
			return tt.bin(OUDiv, a, b)
		}
	case OSRem:
		if tt.nonneg(a) && tt.nonneg(b) {
			return tt.bin(OURem, a, b)
		}
	case OBAnd:
		if same(a, b) {
			return a
		}
		if bc {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// contiguous mask
			tz := uint8(bits.TrailingZeros64(b.val))
			m := b.val >> tz
			if m&(m+1) == 0 {
				n := uint8(bits.Len64(m))
				r := tt.Extract(a, tz+n-1, tz)
				if tz > 0 {
					r = tt.Concat(r, BV(tz, 0))
				}
				if tz+n < w {
					r = tt.Concat(BV(w-tz-n, 0), r)
				}
				return r
			}
		}
	case OBOr:
		if same(a, b) {
			return a
		}
		if bc {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
		if r := tt.mergeDisjoint(a, b); r != nil {
			return r
		}
	case OBXor:
		if same(a, b) {
			return BV(w, 0)
		}
		if bc && b.val == 0 {
			return a
		}
		if bc && b.val == mask(w) {
			return tt.BNot(a)
		}
		if r := tt.mergeDisjoint(a, b); r != nil {
			return r
		}
	case OShl:
		if bc {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) {
				return BV(w, 0)
			}
			k := uint8(b.val)
			return tt.Concat(tt.Extract(a, w-1-k, 0), BV(k, 0))
		}
	case OLShr:
		if bc {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) {
				return BV(w, 0)
			}
			k := uint8(b.val)
			return tt.Concat(BV(k, 0), tt.Extract(a, w-1, k))
		}
	case OAShr:
		if bc {
			if b.val == 0 {
				return a
			}
			if tt.nonneg(a) {
				return tt.bin(OLShr, a, b)
			}
			k := b.val
			if k >= uint64(w) {
				k = uint64(w) - 1
			}
			return tt.SExt(tt.Extract(a, w-1, uint8(k)), w)
		}
	}
	if (op == OAdd || op == OMul || op == OBAnd || op == OBOr || op == OBXor) && !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(op, w, 0, 0, a, b, nil)
}

// ---------- floating point ----------

func fpval(t *Term) float64 {
	if t.w == FP32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}

func mkfp(w uint8, f float64) *Term {
	if w == FP32 {
		return FPc32(float32(f))
	}
	return FPc64(f)
}

func fpfold(op Op, w uint8, x, y *Term) *Term {
	if w == FP32 {
		a, b := math.Float32frombits(uint32(x.val)), math.Float32frombits(uint32(y.val))
		switch op {
		case OFAdd:
			return FPc32(a + b)
		case OFSub:
			return FPc32(a - b)
		case OFMul:
			return FPc32(a * b)
		case OFDiv:
			return FPc32(a / b)
		}
	}
	a, b := fpval(x), fpval(y)
	switch op {
	case OFAdd:
		return FPc64(a + b)
	case OFSub:
		return FPc64(a - b)
	case OFMul:
		return FPc64(a * b)
	case OFDiv:
		return FPc64(a / b)
	}
	panic(engineBug("fpfold"))
}

func (tt *TermTable) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return fpfold(op, a.w, a, b)
	}
	return tt.mk(op, a.w, 0, 0, a, b, nil)
}

func (tt *TermTable) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fpval(a), fpval(b)
		switch op {
		case OFLt:
			return Bool(x < y)
		case OFLe:
			return Bool(x <= y)
		case OFEq:
			return Bool(x == y)
		}
	}
	return tt.mk(op, 0, 0, 0, a, b, nil)
}

func (tt *TermTable) FNeg(a *Term) *Term {
	if a.isConst() {
		if a.w == FP32 {
			return &Term{op: OConst, w: FP32, val: a.val ^ 0x80000000}
		}
		return &Term{op: OConst, w: FP64, val: a.val ^ (1 << 63)}
	}
	return tt.mk(OFNeg, a.w, 0, 0, a, nil, nil)
}

func (tt *TermTable) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return Bool(math.IsNaN(fpval(a)))
	}
	return tt.mk(OFIsNaN, 0, 0, 0, a, nil, nil)
}

func (tt *TermTable) FromBits(a *Term) *Term {
	w := uint8(FP32)
	if a.w == 64 {
		w = FP64
	}
	if a.isConst() {
		return &Term{op: OConst, w: w, val: a.val}
	}
	return tt.mk(OFromBits, w, 0, 0, a, nil, nil)
}

// IntToF converts an integer term to floating point.
func (tt *TermTable) IntToF(a *Term, signed bool, w uint8) *Term {
	if a.isConst() {
		if signed {
			i := sx(a.val, a.w)
			if w == FP32 {
				return FPc32(float32(i))
			}
			return FPc64(float64(i))
		}
		if w == FP32 {
			return FPc32(float32(a.val))
		}
		return FPc64(float64(a.val))
	}
	op := OUToF
	if signed && !tt.nonneg(a) {
		op = OSToF
	}
	return tt.mk(op, w, 0, 0, a, nil, nil)
}

func (tt *TermTable) FToInt(a *Term, signed bool, w uint8) *Term {
	if a.isConst() {
		f := fpval(a)
		if signed {
			return BV(w, uint64(int64(f)))
		}
		return BV(w, uint64(f))
	}
	op := OFToU
	if signed {
		op = OFToS
	}
	return tt.mk(op, w, 0, 0, a, nil, nil)
}

func (tt *TermTable) FToF(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkfp(w, fpval(a))
	}
	return tt.mk(OFToF, w, 0, 0, a, nil, nil)
}

// ---------- evaluation under a model ----------

type Model map[uint32]uint64 // by variable index; missing = 0

type evalCache map[*Term]uint64

func (t *Term) eval(m Model, cache evalCache) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[uint32(t.val)]
	}
	if v, ok := cache[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - t.a.eval(m, cache)
	case OAnd:
		r = t.a.eval(m, cache)
		if r != 0 {
			r = t.b.eval(m, cache)
		}
	case OOr:
		r = t.a.eval(m, cache)
		if r == 0 {
			r = t.b.eval(m, cache)
		}
	case OIte:
		if t.a.eval(m, cache) != 0 {
			r = t.b.eval(m, cache)
		} else {
			r = t.c.eval(m, cache)
		}
	case OEq:
		r = b2u(t.a.eval(m, cache) == t.b.eval(m, cache))
	case OUlt:
		r = b2u(t.a.eval(m, cache) < t.b.eval(m, cache))
	case OUle:
		r = b2u(t.a.eval(m, cache) <= t.b.eval(m, cache))
	case OSlt:
		r = b2u(sx(t.a.eval(m, cache), t.a.w) < sx(t.b.eval(m, cache), t.a.w))
	case OSle:
		r = b2u(sx(t.a.eval(m, cache), t.a.w) <= sx(t.b.eval(m, cache), t.a.w))
	case OBNot:
		r = ^t.a.eval(m, cache) & mask(t.w)
	case ONeg:
		r = -t.a.eval(m, cache) & mask(t.w)
	case OConcat:
		r = t.a.eval(m, cache)<<t.b.w | t.b.eval(m, cache)
	case OExtract:
		r = t.a.eval(m, cache) >> t.lo & mask(t.w)
	case OSExt:
		r = uint64(sx(t.a.eval(m, cache), t.a.w)) & mask(t.w)
	case OFromBits:
		r = t.a.eval(m, cache)
	case OFAdd, OFSub, OFMul, OFDiv:
		x := &Term{op: OConst, w: t.w, val: t.a.eval(m, cache)}
		y := &Term{op: OConst, w: t.w, val: t.b.eval(m, cache)}
		r = fpfold(t.op, t.w, x, y).val
	case OFNeg:
		if t.w == FP32 {
			r = t.a.eval(m, cache) ^ 0x80000000
		} else {
			r = t.a.eval(m, cache) ^ (1 << 63)
		}
	case OFLt, OFLe, OFEq:
		x := fpval(&Term{w: t.a.w, val: t.a.eval(m, cache)})
		y := fpval(&Term{w: t.a.w, val: t.b.eval(m, cache)})
		switch t.op {
		case OFLt:
			r = b2u(x < y)
		case OFLe:
			r = b2u(x <= y)
		default:
			r = b2u(x == y)
		}
	case OFIsNaN:
		r = b2u(math.IsNaN(fpval(&Term{w: t.a.w, val: t.a.eval(m, cache)})))
	case OSToF, OUToF:
		c := &Term{op: OConst, w: t.a.w, val: t.a.eval(m, cache)}
		r = (*TermTable)(nil).IntToF(c, t.op == OSToF, t.w).val
	case OFToS, OFToU:
		c := &Term{op: OConst, w: t.a.w, val: t.a.eval(m, cache)}
		r = (*TermTable)(nil).FToInt(c, t.op == OFToS, t.w).val
	case OFToF:
		c := &Term{op: OConst, w: t.a.w, val: t.a.eval(m, cache)}
		r = (*TermTable)(nil).FToF(c, t.w).val
	default:
		x, y := t.a.eval(m, cache), t.b.eval(m, cache)
		v, ok := fold(t.op, t.w, x, y)
		if !ok { // SMT-LIB division by zero
			switch t.op {
			case OUDiv:
				v = mask(t.w)
			case OURem, OSRem:
				v = x
			case OSDiv:
				if sx(x, t.w) < 0 {
					v = 1
				} else {
					v = mask(t.w)
				}
			}
		}
		r = v & mask(t.w)
	}
	cache[t] = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// ---------- printing ----------

func sortName(w uint8) string {
	switch w {
	case 0:
		return "Bool"
	case FP32:
		return "(_ FloatingPoint 8 24)"
	case FP64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func fpSort(w uint8) string {
	if w == FP32 {
		return "8 24"
	}
	return "11 53"
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		switch t.w {
		case 0:
			if t.val != 0 {
				return "true"
			}
			return "false"
		case FP32:
			return fmt.Sprintf("((_ to_fp 8 24) (_ bv%d 32))", t.val)
		case FP64:
			return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", t.val)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.val)
	}
	return fmt.Sprintf("t%d", t.id)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand",
	OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat", OIte: "ite",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFNeg: "fp.neg", OFIsNaN: "fp.isNaN"}

func (t *Term) body() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, t.a.ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OFAdd:
		return fmt.Sprintf("(fp.add RNE %s %s)", t.a.ref(), t.b.ref())
	case OFSub:
		return fmt.Sprintf("(fp.sub RNE %s %s)", t.a.ref(), t.b.ref())
	case OFMul:
		return fmt.Sprintf("(fp.mul RNE %s %s)", t.a.ref(), t.b.ref())
	case OFDiv:
		return fmt.Sprintf("(fp.div RNE %s %s)", t.a.ref(), t.b.ref())
	case OFromBits:
		return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(t.w), t.a.ref())
	case OSToF:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(t.w), t.a.ref())
	case OUToF:
		return fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpSort(t.w), t.a.ref())
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, t.a.ref())
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, t.a.ref())
	case OFToF:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(t.w), t.a.ref())
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

type engineError struct{ msg string }

func (e *engineError) Error() string { return e.msg }

func engineBug(f string, a ...any) *engineError {
	return &engineError{fmt.Sprintf("engine bug: "+f, a...)}
}
