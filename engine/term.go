package main

// Hash-consed SMT terms over Bool, bit-vectors and IEEE floats, with a
// rewriting constructor layer (constant folding and cheap identities).

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OZext
	OSext
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFFromS // bv -> fp (signed)
	OFFromU
	OFToS // fp -> bv (RTZ); v = width
	OFToU
	OFToF
	OFFromBits // bv bits -> fp
	OFRound    // fp -> integral fp; v = mode, index into roundModes
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
}

type SortKind uint8

const (
	SBool SortKind = iota
	SBV
	SFP
)

type Sort struct {
	K SortKind
	W uint8
}

func (s Sort) String() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
	if s.W == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

type Term struct {
	id   int32
	op   Op
	sort Sort
	a    []*Term
	v    uint64 // constant value (bools 0/1, floats as bits) or extract lo<<8|hi info
	name string
	vars []int32 // sorted ids of variables (shared)
	size int32
	fp   bool  // contains floating point
	hard bool  // contains a multiplication or division
	nb   uint8 // if not 0: a product or quotient that needs only this many bits
}

func (t *Term) IsConst() bool { return t.op == OConst }

type Ctx struct {
	tab   map[string]*Term
	all   []*Term
	True  *Term
	False *Term
	small [4][256]*Term // constants 0..255 for widths 8,16,32,64
	buf   []byte
	lins  map[*Term]*linForm
	tabs  map[*Term]*tabInfo
	tops  map[*Term]uint64 // upper bounds found for atoms
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}}
	c.False = c.mk(OConst, Sort{SBool, 1}, 0, "")
	c.True = c.mk(OConst, Sort{SBool, 1}, 1, "")
	return c
}

func (c *Ctx) mk(op Op, s Sort, v uint64, name string, a ...*Term) *Term {
	b := c.buf[:0]
	b = append(b, byte(op), byte(s.K), s.W)
	for i := 0; i < 8; i++ {
		b = append(b, byte(v>>(8*i)))
	}
	for _, x := range a {
		b = append(b, byte(x.id), byte(x.id>>8), byte(x.id>>16), byte(x.id>>24))
	}
	b = append(b, name...)
	c.buf = b
	if t, ok := c.tab[string(b)]; ok {
		return t
	}
	t := &Term{id: int32(len(c.all)), op: op, sort: s, v: v, name: name, size: 1}
	if len(a) > 0 {
		t.a = append([]*Term(nil), a...)
	}
	if op == OVar {
		t.vars = []int32{t.id}
	} else {
		t.fp = s.K != SBV && s.K != SBool
		t.hard = op == OMul && t.shift() == 0 || op == OUdiv || op == OUrem || op == OSdiv || op == OSrem
		for _, x := range a {
			t.hard = t.hard || x.hard
			t.fp = t.fp || x.fp
			t.vars = unionIDs(t.vars, x.vars)
			if t.size < 1<<28 {
				t.size += x.size
			}
		}
	}
	c.all = append(c.all, t)
	c.tab[string(b)] = t
	if op == OSlt || op == OUlt || op == OMul || op == OUdiv || op == OUrem || op == OSdiv || op == OSrem {
		t.nb = c.needBits(t)
	}
	return t
}

// needBits is the number of bits in which a product, quotient or remainder can
// be computed exactly, or 0 if that is not less than its width.
func (c *Ctx) needBits(t *Term) uint8 {
	w := t.sort.W
	if t.op == OSlt || t.op == OUlt {
		w = t.a[0].sort.W
	}
	if w > 64 || w < 12 {
		return 0
	}
	if t.op == OSlt {
		l0, h0, k0 := c.srange(t.a[0])
		l1, h1, k1 := c.srange(t.a[1])
		if !k0 || !k1 {
			return 0
		}
		n := 0
		for _, v := range []int64{l0, h0, l1, h1} {
			n = max(n, bits.Len64(uint64(v^v>>63)))
		}
		if n++; n < int(w) {
			return uint8(n)
		}
		return 0
	}
	if t.op == OSdiv || t.op == OSrem {
		// signed: one more bit, so that the quotient -2^n / -1 fits
		l0, h0, k0 := c.srange(t.a[0])
		l1, h1, k1 := c.srange(t.a[1])
		if !k0 || !k1 || l1 <= 0 && h1 >= 0 {
			return 0
		}
		n := 0
		for _, v := range []int64{l0, h0, l1, h1} {
			n = max(n, bits.Len64(uint64(v^v>>63)))
		}
		if n += 2; n < int(w) {
			return uint8(n)
		}
		return 0
	}
	_, h0, k0 := c.uboundOf(t.a[0])
	l1, h1, k1 := c.uboundOf(t.a[1])
	if !k0 || !k1 {
		return 0
	}
	m := h0 | h1
	if t.op == OMul {
		hi, lo := bits.Mul64(h0, h1)
		if hi != 0 {
			return 0
		}
		m |= lo
	} else if t.op != OUlt && l1 == 0 {
		return 0
	}
	if n := uint8(max(bits.Len64(m), 1)); n < w {
		return n
	}
	return 0
}

// uboundOf is urange, with the help of linear forms for sums.
func (c *Ctx) uboundOf(t *Term) (uint64, uint64, bool) {
	if l, h, k := c.urangeD(t, 4); k {
		return l, h, k
	}
	if linearOp(t) && t.size < 4000 && t.sort.W <= 64 {
		if f, ok := linU(c.lin(t), t.sort.W); ok {
			return f.lo.Uint64(), f.hi.Uint64(), true
		}
	}
	return 0, 0, false
}

func unionIDs(a, b []int32) []int32 {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	// subset fast paths
	if subset(b, a) {
		return a
	}
	if subset(a, b) {
		return b
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j == len(b) || (i < len(a) && a[i] < b[j]) {
			out = append(out, a[i])
			i++
		} else if i == len(a) || b[j] < a[i] {
			out = append(out, b[j])
			j++
		} else {
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func subset(a, b []int32) bool { // a ⊆ b
	if len(a) > len(b) {
		return false
	}
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j == len(b) || b[j] != x {
			return false
		}
	}
	return true
}

func intersects(a, b []int32) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			return true
		}
		if a[i] < b[j] {
			i++
		} else {
			j++
		}
	}
	return false
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *Ctx) BV(w uint8, v uint64) *Term {
	v &= mask(w)
	k := -1
	if v < 256 {
		switch w {
		case 8:
			k = 0
		case 16:
			k = 1
		case 32:
			k = 2
		case 64:
			k = 3
		}
		if k >= 0 {
			if t := c.small[k][v]; t != nil {
				return t
			}
		}
	}
	t := c.mk(OConst, Sort{SBV, w}, v, "")
	if k >= 0 {
		c.small[k][v] = t
	}
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) F64(f float64) *Term { return c.mk(OConst, Sort{SFP, 64}, math.Float64bits(f), "") }
func (c *Ctx) F32(f float32) *Term {
	return c.mk(OConst, Sort{SFP, 32}, uint64(math.Float32bits(f)), "")
}
func (c *Ctx) FP(w uint8, f float64) *Term {
	if w == 32 {
		return c.F32(float32(f))
	}
	return c.F64(f)
}

func fval(t *Term) float64 {
	if t.sort.W == 32 {
		return float64(math.Float32frombits(uint32(t.v)))
	}
	return math.Float64frombits(t.v)
}

func (c *Ctx) Var(name string, s Sort) *Term { return c.mk(OVar, s, 0, name) }

func (c *Ctx) Not(x *Term) *Term {
	if x.IsConst() {
		return c.Bool(x.v == 0)
	}
	if x.op == ONot {
		return x.a[0]
	}
	return c.mk(ONot, Sort{SBool, 1}, 0, "", x)
}

func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OOr, xs) }

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	absorb, unit := c.False, c.True
	if op == OOr {
		absorb, unit = c.True, c.False
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == absorb {
			return false
		}
		if x == unit || seen[x] {
			return true
		}
		if x.op == op {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if x.op == ONot && seen[x.a[0]] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return absorb
		}
	}
	for _, x := range out {
		if x.op == ONot && seen[x.a[0]] {
			return absorb
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	if op == OOr && len(out) > 1 {
		// (a and r) or (a and s) = a and (r or s): factor common conjuncts
		if f := c.factor(out); f != nil {
			return f
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, Sort{SBool, 1}, 0, "", out...)
}

func (c *Ctx) factor(xs []*Term) *Term {
	conj := func(t *Term) []*Term {
		if t.op == OAnd {
			return t.a
		}
		return []*Term{t}
	}
	cnt := map[*Term]int{}
	for _, x := range xs {
		for _, y := range conj(x) {
			cnt[y]++
		}
	}
	var common []*Term
	isC := map[*Term]bool{}
	for _, y := range conj(xs[0]) {
		if cnt[y] == len(xs) {
			common = append(common, y)
			isC[y] = true
		}
	}
	if len(common) == 0 {
		// x or (not x and r) = x or r  (two-element case)
		if len(xs) == 2 {
			for k := 0; k < 2; k++ {
				p, q := xs[k], xs[1-k]
				if q.op == OAnd {
					np := c.Not(p)
					for i, y := range q.a {
						if y == np {
							rest := append(append([]*Term{}, q.a[:i]...), q.a[i+1:]...)
							return c.Or(p, c.And(rest...))
						}
					}
				}
			}
		}
		return nil
	}
	var rests []*Term
	for _, x := range xs {
		var r []*Term
		for _, y := range conj(x) {
			if !isC[y] {
				r = append(r, y)
			}
		}
		rests = append(rests, c.And(r...))
	}
	return c.And(append(common, c.Or(rests...))...)
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, x, y *Term) *Term {
	if x == y {
		return x
	}
	if g.IsConst() {
		if g.v != 0 {
			return x
		}
		return y
	}
	if g.op == ONot {
		return c.Ite(g.a[0], y, x)
	}
	if x.sort.K == SBool {
		if x.IsConst() {
			if x.v != 0 {
				return c.Or(g, y)
			}
			return c.And(c.Not(g), y)
		}
		if y.IsConst() {
			if y.v != 0 {
				return c.Or(c.Not(g), x)
			}
			return c.And(g, x)
		}
	}
	if x.op == OIte && x.a[0] == g {
		x = x.a[1]
	}
	if y.op == OIte && y.a[0] == g {
		y = y.a[2]
	}
	if x == y {
		return x
	}
	// ite(g, x, ite(h, x, z)) = ite(g or h, x, z)
	if y.op == OIte && y.a[1] == x {
		return c.Ite(c.Or(g, y.a[0]), x, y.a[2])
	}
	return c.mk(OIte, x.sort, 0, "", g, x, y)
}

func (c *Ctx) Eq(x, y *Term) *Term {
	if x.sort != y.sort {
		panic(fmt.Sprintf("Eq sort mismatch %v %v", x.sort, y.sort))
	}
	if x.sort.K == SFP {
		return c.FEq(x, y)
	}
	if x == y {
		return c.True
	}
	if x.IsConst() && y.IsConst() {
		return c.Bool(x.v == y.v)
	}
	if x.IsConst() {
		x, y = y, x
	}
	if x.sort.K == SBool {
		if y.IsConst() {
			if y.v != 0 {
				return x
			}
			return c.Not(x)
		}
		if x.op == ONot && x.a[0] == y || y.op == ONot && y.a[0] == x {
			return c.False
		}
	}
	if y.IsConst() {
		switch x.op {
		case OIte:
			if x.a[1].IsConst() || x.a[2].IsConst() {
				return c.Ite(x.a[0], c.Eq(x.a[1], y), c.Eq(x.a[2], y))
			}
		case OAdd:
			if x.a[1].IsConst() {
				return c.Eq(x.a[0], c.BV(x.sort.W, y.v-x.a[1].v))
			}
		case OZext:
			iw := x.a[0].sort.W
			if y.v > mask(iw) {
				return c.False
			}
			return c.Eq(x.a[0], c.BV(iw, y.v))
		case OSext:
			iw := x.a[0].sort.W
			if uint64(sx(y.v&mask(iw), iw))&mask(x.sort.W) != y.v {
				return c.False
			}
			return c.Eq(x.a[0], c.BV(iw, y.v))
		case OBXor:
			if x.a[1].IsConst() {
				return c.Eq(x.a[0], c.BV(x.sort.W, y.v^x.a[1].v))
			}
		}
		if lo, hi, ok := c.urange(x); ok && (y.v < lo || y.v > hi) {
			return c.False
		}
		if x.op == OMul || x.op == OAdd {
			switch c.linEq(x, y) {
			case 1:
				return c.True
			case 0:
				return c.False
			}
			if r := c.linEqSmall(x, y); r != nil {
				return r
			}
		}
	} else {
		if (x.op == OZext || x.op == OSext) && x.op == y.op && x.a[0].sort == y.a[0].sort {
			return c.Eq(x.a[0], y.a[0])
		}
		if x.op == OAdd && y.op == OAdd && x.a[1].IsConst() && y.a[1] == x.a[1] {
			return c.Eq(x.a[0], y.a[0])
		}
		switch c.linEq(x, y) {
		case 1:
			return c.True
		case 0:
			return c.False
		}
		if r := c.linEqSmall(x, y); r != nil {
			return r
		}
		// x == x + c
		if x.op == OAdd && x.a[1].IsConst() && x.a[0] == y {
			return c.Bool(x.a[1].v == 0)
		}
		if y.op == OAdd && y.a[1].IsConst() && y.a[0] == x {
			return c.Bool(y.a[1].v == 0)
		}
		if y.id < x.id {
			x, y = y, x
		}
	}
	return c.mk(OEq, Sort{SBool, 1}, 0, "", x, y)
}

func (c *Ctx) Ne(x, y *Term) *Term { return c.Not(c.Eq(x, y)) }

// urange returns cheap unsigned bounds of a bit-vector term.
func (c *Ctx) urange(t *Term) (lo, hi uint64, ok bool) {
	w := t.sort.W
	if w > 64 {
		return 0, 0, false
	}
	switch t.op {
	case OConst:
		return t.v, t.v, true
	case OZext:
		if l, h, k := c.urange(t.a[0]); k {
			return l, h, true
		}
		return 0, mask(t.a[0].sort.W), true
	case OIte:
		l1, h1, k1 := c.urangeD(t.a[1], 3)
		l2, h2, k2 := c.urangeD(t.a[2], 3)
		if k1 && k2 {
			return min(l1, l2), max(h1, h2), true
		}
	case OBAnd:
		if t.a[1].IsConst() {
			return 0, t.a[1].v, true
		}
	case OBOr:
		_, h1, k1 := c.urangeD(t.a[0], 3)
		_, h2, k2 := c.urangeD(t.a[1], 3)
		if k1 && k2 {
			return 0, mask(uint8(bits.Len64(h1 | h2))), true
		}
	case OUrem: // x % 0 is x
		_, h, k := c.urangeD(t.a[0], 3)
		if !k {
			h = mask(w)
		}
		if l2, h2, k2 := c.urangeD(t.a[1], 3); k2 && l2 > 0 {
			return 0, min(h, h2-1), true
		}
		return 0, h, k
	case OUdiv: // x / 0 is all ones
		l, h, k := c.urangeD(t.a[0], 3)
		if !k {
			h = mask(w)
		}
		if !k {
			l = 0
		}
		if l2, h2, k2 := c.urangeD(t.a[1], 3); k2 && l2 > 0 {
			return l / h2, h / l2, true
		}
	case OLshr:
		if t.a[1].IsConst() && t.a[1].v < uint64(w) {
			l, h, k := c.urangeD(t.a[0], 3)
			if !k {
				l, h = 0, mask(w)
			}
			return l >> t.a[1].v, h >> t.a[1].v, true
		}
	case OMul:
		l1, h1, k1 := c.urangeD(t.a[0], 3)
		l2, h2, k2 := c.urangeD(t.a[1], 3)
		if k1 && k2 {
			if hi, lo := bits.Mul64(h1, h2); hi == 0 && lo <= mask(w) {
				return l1 * l2, lo, true
			}
		}
	case OExtract:
		if n := t.v & 0xff; t.a[0].sort.W <= 64 {
			if l, h, k := c.urangeD(t.a[0], 3); k && h>>n <= mask(w) {
				return l >> n, h >> n, true
			}
		}
	case OAdd:
		l1, h1, k1 := c.urangeD(t.a[0], 3)
		l2, h2, k2 := c.urangeD(t.a[1], 3)
		if k1 && k2 {
			s, carry := bits.Add64(h1, h2, 0)
			if carry == 0 && s <= mask(w) {
				return l1 + l2, s, true
			}
		}
	}
	return 0, 0, false
}

func (c *Ctx) urangeD(t *Term, d int) (uint64, uint64, bool) {
	if t.op == OConst {
		return t.v, t.v, true
	}
	if d == 0 || t.size > 60 {
		return 0, 0, false
	}
	return c.urange(t)
}

func (c *Ctx) Ult(x, y *Term) *Term {
	if x == y {
		return c.False
	}
	if x.IsConst() && y.IsConst() {
		return c.Bool(x.v < y.v)
	}
	if y.IsConst() && y.v == 0 {
		return c.False
	}
	if x.IsConst() && x.v == mask(x.sort.W) {
		return c.False
	}
	if y.IsConst() && y.v == 1 {
		return c.Eq(x, c.BV(x.sort.W, 0))
	}
	l1, h1, k1 := c.urangeD(x, 4)
	l2, h2, k2 := c.urangeD(y, 4)
	if k1 && k2 {
		if h1 < l2 {
			return c.True
		}
		if l1 >= h2 {
			return c.False
		}
	}
	switch c.linUlt(x, y) {
	case 1:
		return c.True
	case 0:
		return c.False
	}
	// a comparison with one of few constants is decided per constant where the
	// bounds allow
	if y.op == OIte && c.constTree(y, 8) && linearOp(x) {
		if p, q := c.Ult(x, y.a[1]), c.Ult(x, y.a[2]); p.IsConst() || q.IsConst() {
			return c.Ite(y.a[0], p, q)
		}
	}
	if x.op == OIte && c.constTree(x, 8) && linearOp(y) {
		if p, q := c.Ult(x.a[1], y), c.Ult(x.a[2], y); p.IsConst() || q.IsConst() {
			return c.Ite(x.a[0], p, q)
		}
	}
	return c.mk(OUlt, Sort{SBool, 1}, 0, "", x, y)
}
func (c *Ctx) Ule(x, y *Term) *Term { return c.Not(c.Ult(y, x)) }

func (c *Ctx) Slt(x, y *Term) *Term {
	if x == y {
		return c.False
	}
	w := x.sort.W
	if x.IsConst() && y.IsConst() {
		return c.Bool(sx(x.v, w) < sx(y.v, w))
	}
	half := uint64(1) << (w - 1)
	l1, h1, k1 := c.urangeD(x, 4)
	l2, h2, k2 := c.urangeD(y, 4)
	if k1 && k2 && h1 < half && h2 < half {
		if h1 < l2 {
			return c.True
		}
		if l1 >= h2 {
			return c.False
		}
	}
	if k1 && h1 < half && y.IsConst() && y.v >= half { // nonneg < negative
		return c.False
	}
	if k2 && h2 < half && x.IsConst() && x.v >= half {
		return c.True
	}
	switch c.linSlt(x, y) {
	case 1:
		return c.True
	case 0:
		return c.False
	}
	if x.op == OIte && y.IsConst() && x.a[1].IsConst() && x.a[2].IsConst() {
		return c.Ite(x.a[0], c.Slt(x.a[1], y), c.Slt(x.a[2], y))
	}
	if y.op == OIte && x.IsConst() && y.a[1].IsConst() && y.a[2].IsConst() {
		return c.Ite(y.a[0], c.Slt(x, y.a[1]), c.Slt(x, y.a[2]))
	}
	return c.mk(OSlt, Sort{SBool, 1}, 0, "", x, y)
}
func (c *Ctx) Sle(x, y *Term) *Term { return c.Not(c.Slt(y, x)) }

func (c *Ctx) Add(x, y *Term) *Term {
	w := x.sort.W
	if x.IsConst() && y.IsConst() {
		return c.BV(w, x.v+y.v)
	}
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() {
		if y.v == 0 {
			return x
		}
		if x.op == OAdd && x.a[1].IsConst() {
			return c.Add(x.a[0], c.BV(w, x.a[1].v+y.v))
		}
		if x.op == OIte && c.constTree(x, 16) {
			return c.Ite(x.a[0], c.Add(x.a[1], y), c.Add(x.a[2], y))
		}
	} else {
		// (a + c1) + b -> (a + b) + c1
		if x.op == OAdd && x.a[1].IsConst() {
			return c.Add(c.Add(x.a[0], y), x.a[1])
		}
		if y.op == OAdd && y.a[1].IsConst() {
			return c.Add(c.Add(x, y.a[0]), y.a[1])
		}
		// a + (-a) = 0 ; a + (b + -a)
		if c.isNegOf(x, y) {
			return c.BV(w, 0)
		}
		if x.op == OAdd {
			if c.isNegOf(x.a[0], y) {
				return x.a[1]
			}
			if c.isNegOf(x.a[1], y) {
				return x.a[0]
			}
		}
		if y.op == OAdd {
			if c.isNegOf(y.a[0], x) {
				return y.a[1]
			}
			if c.isNegOf(y.a[1], x) {
				return y.a[0]
			}
		}
		if y.id < x.id {
			x, y = y, x
		}
	}
	return c.mk(OAdd, x.sort, 0, "", x, y)
}

func (c *Ctx) isNegOf(a, b *Term) bool {
	neg := func(p, q *Term) bool { // p == -q
		return p.op == OMul && p.a[1].IsConst() && p.a[1].v == mask(p.sort.W) && p.a[0] == q
	}
	return neg(a, b) || neg(b, a)
}

func (c *Ctx) Neg(x *Term) *Term { return c.Mul(x, c.BV(x.sort.W, mask(x.sort.W))) }
func (c *Ctx) Sub(x, y *Term) *Term {
	if x == y {
		return c.BV(x.sort.W, 0)
	}
	if y.IsConst() {
		return c.Add(x, c.BV(x.sort.W, -y.v))
	}
	return c.Add(x, c.Neg(y))
}

func (c *Ctx) Mul(x, y *Term) *Term {
	w := x.sort.W
	if x.IsConst() && y.IsConst() {
		return c.BV(w, x.v*y.v)
	}
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() {
		switch y.v {
		case 0:
			return y
		case 1:
			return x
		}
		if x.op == OMul && x.a[1].IsConst() {
			return c.Mul(x.a[0], c.BV(w, x.a[1].v*y.v))
		}
		if x.op == OIte && c.constTree(x, 16) {
			return c.Ite(x.a[0], c.Mul(x.a[1], y), c.Mul(x.a[2], y))
		}
		// -(a+c) = -a + -c
		if y.v == mask(w) && x.op == OAdd {
			return c.Add(c.Neg(x.a[0]), c.Neg(x.a[1]))
		}
	} else if y.id < x.id {
		x, y = y, x
	}
	return c.mk(OMul, x.sort, 0, "", x, y)
}

func (c *Ctx) Udiv(x, y *Term) *Term {
	w := x.sort.W
	if x.IsConst() && y.IsConst() && y.v != 0 {
		return c.BV(w, x.v/y.v)
	}
	if y.IsConst() {
		if y.v == 1 {
			return x
		}
		if y.v != 0 && y.v&(y.v-1) == 0 {
			return c.Lshr(x, c.BV(w, uint64(bits.TrailingZeros64(y.v))))
		}
		if _, h, k := c.urangeD(x, 4); k && h < y.v {
			return c.BV(w, 0)
		}
		if y.v != 0 {
			if q, _, ok := c.linDivRem(x, y.v); ok {
				return q
			}
		}
	}
	return c.mk(OUdiv, x.sort, 0, "", x, y)
}
func (c *Ctx) Urem(x, y *Term) *Term {
	w := x.sort.W
	if x.IsConst() && y.IsConst() && y.v != 0 {
		return c.BV(w, x.v%y.v)
	}
	if y.IsConst() {
		if y.v == 1 {
			return c.BV(w, 0)
		}
		if y.v != 0 && y.v&(y.v-1) == 0 {
			return c.BAnd(x, c.BV(w, y.v-1))
		}
		if _, h, k := c.urangeD(x, 4); k && h < y.v {
			return x
		}
		if y.v != 0 {
			if _, r, ok := c.linDivRem(x, y.v); ok {
				return r
			}
		}
	}
	return c.mk(OUrem, x.sort, 0, "", x, y)
}

// nonNeg says that the bounds of x exclude the sign bit.
func (c *Ctx) nonNeg(x *Term) bool {
	w := x.sort.W
	if w > 64 {
		return false
	}
	if _, h, k := c.urangeD(x, 4); k {
		return h < uint64(1)<<(w-1)
	}
	if linearOp(x) && x.size < 4000 {
		f, ok := linS(c.lin(x), w)
		return ok && f.lo.Sign() >= 0
	}
	return false
}

func (c *Ctx) Sdiv(x, y *Term) *Term {
	w := x.sort.W
	if x.IsConst() && y.IsConst() && y.v != 0 {
		a, b := sx(x.v, w), sx(y.v, w)
		if b == -1 {
			return c.BV(w, uint64(-a))
		}
		return c.BV(w, uint64(a/b))
	}
	if y.IsConst() && y.v == 1 {
		return x
	}
	half := uint64(1) << (w - 1)
	if !y.IsConst() && c.nonNeg(x) && c.nonNeg(y) {
		return c.Udiv(x, y)
	}
	if y.IsConst() && y.v < half && y.v != 0 {
		if _, h, k := c.urangeD(x, 4); k && h < half {
			return c.Udiv(x, y)
		}
		if linearOp(x) {
			if f, ok := linS(c.lin(x), w); ok && f.lo.Sign() >= 0 {
				return c.Udiv(x, y)
			} else if ok && f.hi.Sign() <= 0 {
				return c.Neg(c.Udiv(c.Neg(x), y))
			} else if ok && f.multipleOf(y.v) {
				return c.linTermOf(f.div(y.v), w)
			}
		}
	}
	// small constant by a variable: a table over the divisors that matter
	// (division by zero is excluded by the caller)
	if x.IsConst() {
		v := sx(x.v, w)
		if v >= 0 && v <= 40 {
			acc := c.BV(x.sort.W, 0)
			for d := int64(1); d <= v; d++ {
				acc = c.Ite(c.Eq(y, c.BV(x.sort.W, uint64(d))), c.BV(x.sort.W, uint64(v/d)), acc)
				acc = c.Ite(c.Eq(y, c.BV(x.sort.W, uint64(-d)&mask(x.sort.W))), c.BV(x.sort.W, uint64(-(v/d))&mask(x.sort.W)), acc)
			}
			return acc
		}
	}
	return c.mk(OSdiv, x.sort, 0, "", x, y)
}
func (c *Ctx) Srem(x, y *Term) *Term {
	w := x.sort.W
	if x.IsConst() && y.IsConst() && y.v != 0 {
		a, b := sx(x.v, w), sx(y.v, w)
		if b == -1 {
			return c.BV(w, 0)
		}
		return c.BV(w, uint64(a%b))
	}
	half := uint64(1) << (w - 1)
	if !y.IsConst() && c.nonNeg(x) && c.nonNeg(y) {
		return c.Urem(x, y)
	}
	if y.IsConst() && y.v < half && y.v != 0 {
		if _, h, k := c.urangeD(x, 4); k && h < half {
			return c.Urem(x, y)
		}
		if y.v == 1 {
			return c.BV(w, 0)
		}
		if linearOp(x) {
			if f, ok := linS(c.lin(x), w); ok && f.lo.Sign() >= 0 {
				return c.Urem(x, y)
			} else if ok && f.hi.Sign() <= 0 {
				return c.Neg(c.Urem(c.Neg(x), y))
			} else if ok && f.multipleOf(y.v) {
				return c.BV(w, 0)
			}
		}
	}
	return c.mk(OSrem, x.sort, 0, "", x, y)
}

func (c *Ctx) BAnd(x, y *Term) *Term {
	w := x.sort.W
	if x.IsConst() && y.IsConst() {
		return c.BV(w, x.v&y.v)
	}
	if x == y {
		return x
	}
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() {
		if y.v == 0 {
			return y
		}
		if y.v == mask(w) {
			return x
		}
		if (x.op == OAdd || x.op == OMul) && y.v&(y.v+1) == 0 && w <= 64 {
			if _, r, ok := c.linDivRem(x, y.v+1); ok {
				return r
			}
		}
		if x.op == OBAnd && x.a[1].IsConst() {
			return c.BAnd(x.a[0], c.BV(w, x.a[1].v&y.v))
		}
		if x.op == OZext && y.v&mask(x.a[0].sort.W) == mask(x.a[0].sort.W) {
			return x
		}
		if w <= 64 {
			if _, hi, ok := c.urange(x); ok && hi < mask(w) {
				switch can := mask(uint8(bits.Len64(hi))); y.v & can { // the bits that can be set
				case can:
					return x
				case 0:
					return c.BV(w, 0)
				}
			}
			if x.op == OBOr && x.size < 200 {
				a, b := c.BAnd(x.a[0], y), c.BAnd(x.a[1], y)
				if a.IsConst() && a.v == 0 {
					return b
				}
				if b.IsConst() && b.v == 0 {
					return a
				}
			}
		}
	} else if y.id < x.id {
		x, y = y, x
	}
	return c.mk(OBAnd, x.sort, 0, "", x, y)
}
func (c *Ctx) BOr(x, y *Term) *Term {
	w := x.sort.W
	if x.IsConst() && y.IsConst() {
		return c.BV(w, x.v|y.v)
	}
	if x == y {
		return x
	}
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() {
		if y.v == 0 {
			return x
		}
		if y.v == mask(w) {
			return y
		}
		// into bits that are zero in every scaled sum
		if linearOp(x) && x.size < 4000 {
			if k, ok := c.lowBits(x, uint(bits.Len64(y.v))); ok {
				return c.Add(x, c.BV(w, (k|y.v)-k))
			}
		}
	} else if y.id < x.id {
		x, y = y, x
	}
	return c.mk(OBOr, x.sort, 0, "", x, y)
}
func (c *Ctx) BXor(x, y *Term) *Term {
	w := x.sort.W
	if x.IsConst() && y.IsConst() {
		return c.BV(w, x.v^y.v)
	}
	if x == y {
		return c.BV(w, 0)
	}
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() {
		if y.v == 0 {
			return x
		}
		if x.op == OBXor && x.a[1].IsConst() {
			return c.BXor(x.a[0], c.BV(w, x.a[1].v^y.v))
		}
	} else {
		// (a ^ b) ^ b = a
		if x.op == OBXor {
			if x.a[0] == y {
				return x.a[1]
			}
			if x.a[1] == y {
				return x.a[0]
			}
		}
		if y.op == OBXor {
			if y.a[0] == x {
				return y.a[1]
			}
			if y.a[1] == x {
				return y.a[0]
			}
		}
		if y.id < x.id {
			x, y = y, x
		}
	}
	return c.mk(OBXor, x.sort, 0, "", x, y)
}
func (c *Ctx) BNot(x *Term) *Term { return c.BXor(x, c.BV(x.sort.W, mask(x.sort.W))) }

func (c *Ctx) Shl(x, y *Term) *Term {
	w := x.sort.W
	if y.IsConst() {
		if y.v == 0 {
			return x
		}
		if y.v >= uint64(w) {
			return c.BV(w, 0)
		}
		if x.IsConst() {
			return c.BV(w, x.v<<y.v)
		}
	}
	if x.IsConst() && x.v == 0 {
		return x
	}
	return c.mk(OShl, x.sort, 0, "", x, y)
}
func (c *Ctx) Lshr(x, y *Term) *Term {
	w := x.sort.W
	if y.IsConst() && x.op == OIte && c.constTree(x, 16) {
		return c.Ite(x.a[0], c.Lshr(x.a[1], y), c.Lshr(x.a[2], y))
	}
	if y.IsConst() {
		if y.v == 0 {
			return x
		}
		if y.v >= uint64(w) {
			return c.BV(w, 0)
		}
		if x.IsConst() {
			return c.BV(w, x.v>>y.v)
		}
		if x.op == OLshr && x.a[1].IsConst() {
			return c.Lshr(x.a[0], c.BV(w, min(x.a[1].v+y.v, uint64(w))))
		}
		if x.op == OZext && y.v >= uint64(x.a[0].sort.W) {
			return c.BV(w, 0)
		}
		if (x.op == OAdd || x.op == OMul) && w <= 64 {
			if q, _, ok := c.linDivRem(x, 1<<y.v); ok {
				return q
			}
		}
	}
	if x.IsConst() && x.v == 0 {
		return x
	}
	return c.mk(OLshr, x.sort, 0, "", x, y)
}
func (c *Ctx) Ashr(x, y *Term) *Term {
	w := x.sort.W
	if y.IsConst() && x.op == OIte && c.constTree(x, 16) {
		return c.Ite(x.a[0], c.Ashr(x.a[1], y), c.Ashr(x.a[2], y))
	}
	if y.IsConst() {
		if y.v == 0 {
			return x
		}
		if x.IsConst() {
			s := y.v
			if s > 63 {
				s = 63
			}
			return c.BV(w, uint64(sx(x.v, w)>>s))
		}
	}
	return c.mk(OAshr, x.sort, 0, "", x, y)
}

func (c *Ctx) Concat(hi, lo *Term) *Term {
	w := hi.sort.W + lo.sort.W
	if hi.IsConst() && lo.IsConst() && w <= 64 {
		return c.BV(w, hi.v<<lo.sort.W|lo.v)
	}
	return c.mk(OConcat, Sort{SBV, w}, 0, "", hi, lo)
}

func (c *Ctx) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == x.sort.W {
		return x
	}
	if x.IsConst() && x.sort.W <= 64 {
		return c.BV(w, x.v>>lo)
	}
	switch x.op {
	case OExtract:
		l0 := uint8(x.v)
		return c.Extract(x.a[0], hi+l0, lo+l0)
	case OZext, OSext:
		iw := x.a[0].sort.W
		if hi < iw {
			return c.Extract(x.a[0], hi, lo)
		}
		if lo >= iw && x.op == OZext {
			return c.BV(w, 0)
		}
	case OConcat:
		lw := x.a[1].sort.W
		if hi < lw {
			return c.Extract(x.a[1], hi, lo)
		}
		if lo >= lw {
			return c.Extract(x.a[0], hi-lw, lo-lw)
		}
	case OLshr:
		if x.a[1].IsConst() {
			s := uint8(min(x.a[1].v, 255))
			if int(hi)+int(s) < int(x.sort.W) {
				return c.Extract(x.a[0], hi+s, lo+s)
			}
		}
	case OBOr, OBAnd, OBXor:
		if x.size < 40 {
			a, b := c.Extract(x.a[0], hi, lo), c.Extract(x.a[1], hi, lo)
			switch x.op {
			case OBOr:
				return c.BOr(a, b)
			case OBAnd:
				return c.BAnd(a, b)
			}
			return c.BXor(a, b)
		}
	case OShl:
		if x.a[1].IsConst() {
			s := x.a[1].v
			if s <= uint64(lo) {
				return c.Extract(x.a[0], hi-uint8(s), lo-uint8(s))
			}
			if s > uint64(hi) {
				return c.BV(w, 0)
			}
		}
	case OIte:
		if x.a[1].IsConst() || x.a[2].IsConst() {
			return c.Ite(x.a[0], c.Extract(x.a[1], hi, lo), c.Extract(x.a[2], hi, lo))
		}
	}
	return c.mk(OExtract, Sort{SBV, w}, uint64(hi)<<8|uint64(lo), "", x)
}

func (c *Ctx) Zext(x *Term, w uint8) *Term {
	if x.sort.W == w {
		return x
	}
	if x.IsConst() && w <= 64 {
		return c.BV(w, x.v)
	}
	if x.op == OZext {
		return c.Zext(x.a[0], w)
	}
	if x.op == OIte && x.a[1].IsConst() && x.a[2].IsConst() {
		return c.Ite(x.a[0], c.Zext(x.a[1], w), c.Zext(x.a[2], w))
	}
	return c.mk(OZext, Sort{SBV, w}, 0, "", x)
}
func (c *Ctx) Sext(x *Term, w uint8) *Term {
	if x.sort.W == w {
		return x
	}
	if x.IsConst() && w <= 64 {
		return c.BV(w, uint64(sx(x.v, x.sort.W)))
	}
	if x.op == OZext {
		return c.Zext(x.a[0], w)
	}
	if x.op == OSext {
		return c.Sext(x.a[0], w)
	}
	if x.op == OIte && x.a[1].IsConst() && x.a[2].IsConst() {
		return c.Ite(x.a[0], c.Sext(x.a[1], w), c.Sext(x.a[2], w))
	}
	return c.mk(OSext, Sort{SBV, w}, 0, "", x)
}

// Resize converts between integer widths as Go conversions do.
func (c *Ctx) Resize(x *Term, w uint8, signed bool) *Term {
	if w < x.sort.W {
		return c.Extract(x, w-1, 0)
	}
	if signed {
		return c.Sext(x, w)
	}
	return c.Zext(x, w)
}

// ---- floats

func (c *Ctx) FBin(op Op, x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		if x.sort.W == 32 {
			a, b := math.Float32frombits(uint32(x.v)), math.Float32frombits(uint32(y.v))
			switch op {
			case OFAdd:
				return c.F32(a + b)
			case OFSub:
				return c.F32(a - b)
			case OFMul:
				return c.F32(a * b)
			case OFDiv:
				return c.F32(a / b)
			}
		}
		a, b := fval(x), fval(y)
		switch op {
		case OFAdd:
			return c.F64(a + b)
		case OFSub:
			return c.F64(a - b)
		case OFMul:
			return c.F64(a * b)
		case OFDiv:
			return c.F64(a / b)
		}
	}
	return c.mk(op, x.sort, 0, "", x, y)
}
func (c *Ctx) FNeg(x *Term) *Term {
	if x.IsConst() {
		return c.FP(x.sort.W, -fval(x))
	}
	return c.mk(OFNeg, x.sort, 0, "", x)
}

var roundModes = []string{"RNE", "RNA", "RTP", "RTN", "RTZ"}
var roundFns = []func(float64) float64{math.RoundToEven, math.Round, math.Ceil, math.Floor, math.Trunc}

func (c *Ctx) FRound(x *Term, mode uint64) *Term {
	if x.IsConst() {
		return c.FP(x.sort.W, roundFns[mode](fval(x)))
	}
	return c.mk(OFRound, x.sort, mode, "", x)
}
func (c *Ctx) FLt(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		return c.Bool(fval(x) < fval(y))
	}
	return c.mk(OFLt, Sort{SBool, 1}, 0, "", x, y)
}
func (c *Ctx) FLe(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		return c.Bool(fval(x) <= fval(y))
	}
	return c.mk(OFLe, Sort{SBool, 1}, 0, "", x, y)
}
func (c *Ctx) FEq(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		return c.Bool(fval(x) == fval(y))
	}
	return c.mk(OFEq, Sort{SBool, 1}, 0, "", x, y)
}
func (c *Ctx) IntToF(x *Term, w uint8, signed bool) *Term {
	if x.IsConst() {
		if signed {
			if w == 32 {
				return c.F32(float32(sx(x.v, x.sort.W)))
			}
			return c.F64(float64(sx(x.v, x.sort.W)))
		}
		if w == 32 {
			return c.F32(float32(x.v))
		}
		return c.F64(float64(x.v))
	}
	op := OFFromU
	if signed {
		op = OFFromS
	}
	return c.mk(op, Sort{SFP, w}, 0, "", x)
}

// FToInt: Go's float->int conversion as gc/amd64 does for in-range values;
// out of range is implementation-defined in Go (harnesses assume it away).
func (c *Ctx) FToInt(x *Term, w uint8, signed bool) *Term {
	if x.IsConst() {
		f := fval(x)
		if signed {
			return c.BV(w, uint64(int64(f)))
		}
		return c.BV(w, uint64(f))
	}
	op := OFToU
	if signed {
		op = OFToS
	}
	return c.mk(op, Sort{SBV, w}, 0, "", x)
}
func (c *Ctx) FToF(x *Term, w uint8) *Term {
	if x.sort.W == w {
		return x
	}
	if x.IsConst() {
		return c.FP(w, fval(x))
	}
	return c.mk(OFToF, Sort{SFP, w}, 0, "", x)
}
func (c *Ctx) FFromBits(x *Term) *Term {
	if x.IsConst() {
		return c.mk(OConst, Sort{SFP, x.sort.W}, x.v, "")
	}
	return c.mk(OFFromBits, Sort{SFP, x.sort.W}, 0, "", x)
}

// ---- printing

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		switch t.sort.K {
		case SBool:
			if t.v != 0 {
				return "true"
			}
			return "false"
		case SBV:
			return fmt.Sprintf("(_ bv%d %d)", t.v, t.sort.W)
		case SFP:
			if t.sort.W == 32 {
				return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", uint32(t.v))
			}
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.v)
		}
	case OVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

// shift is the k of a product by the constant 2^k, which solvers decide faster
// as a shift.
func (t *Term) shift() uint8 {
	if t.op != OMul || !t.a[1].IsConst() || t.sort.W > 64 || bits.OnesCount64(t.a[1].v) != 1 {
		return 0
	}
	return uint8(bits.TrailingZeros64(t.a[1].v))
}

func (t *Term) body() string {
	var sb strings.Builder
	if t.nb > 0 {
		ext := "zero_extend"
		if t.op == OSdiv || t.op == OSrem {
			ext = "sign_extend"
		}
		if t.op == OSlt || t.op == OUlt {
			fmt.Fprintf(&sb, "(%s", opNames[t.op])
		} else if k := t.shift(); k > 0 && k < t.nb {
			fmt.Fprintf(&sb, "((_ %s %d) (bvshl ((_ extract %d 0) %s) (_ bv%d %d)))", ext, t.sort.W-t.nb, t.nb-1, t.a[0].ref(), k, t.nb)
			return sb.String()
		} else {
			fmt.Fprintf(&sb, "((_ %s %d) (%s", ext, t.sort.W-t.nb, opNames[t.op])
		}
		for _, x := range t.a {
			if x.IsConst() {
				fmt.Fprintf(&sb, " (_ bv%d %d)", x.v&mask(t.nb), t.nb)
			} else {
				fmt.Fprintf(&sb, " ((_ extract %d 0) %s)", t.nb-1, x.ref())
			}
		}
		sb.WriteString(")")
		if t.op != OSlt && t.op != OUlt {
			sb.WriteString(")")
		}
		return sb.String()
	}
	if k := t.shift(); k > 0 {
		return fmt.Sprintf("(bvshl %s (_ bv%d %d))", t.a[0].ref(), k, t.sort.W)
	}
	sb.WriteByte('(')
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", t.v>>8, t.v&0xff)
	case OZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.sort.W-t.a[0].sort.W)
	case OSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.sort.W-t.a[0].sort.W)
	case OFAdd:
		sb.WriteString("fp.add RNE")
	case OFSub:
		sb.WriteString("fp.sub RNE")
	case OFMul:
		sb.WriteString("fp.mul RNE")
	case OFDiv:
		sb.WriteString("fp.div RNE")
	case OFNeg:
		sb.WriteString("fp.neg")
	case OFRound:
		sb.WriteString("fp.roundToIntegral " + roundModes[t.v])
	case OFLt:
		sb.WriteString("fp.lt")
	case OFLe:
		sb.WriteString("fp.leq")
	case OFEq:
		sb.WriteString("fp.eq")
	case OFFromS:
		sb.WriteString(fpTo(t.sort.W) + " RNE")
	case OFFromU:
		sb.WriteString(strings.Replace(fpTo(t.sort.W), "to_fp", "to_fp_unsigned", 1) + " RNE")
	case OFToF:
		sb.WriteString(fpTo(t.sort.W) + " RNE")
	case OFFromBits:
		sb.WriteString(fpTo(t.sort.W))
	case OFToS:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", t.sort.W)
	case OFToU:
		fmt.Fprintf(&sb, "(_ fp.to_ubv %d) RTZ", t.sort.W)
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, x := range t.a {
		sb.WriteByte(' ')
		sb.WriteString(x.ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

func fpTo(w uint8) string {
	if w == 32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}

func (t *Term) String() string { return t.pretty(6) }

func (t *Term) pretty(d int) string {
	if t.op == OConst {
		switch t.sort.K {
		case SBool:
			return fmt.Sprint(t.v != 0)
		case SFP:
			return fmt.Sprint(fval(t))
		}
		if t.v > mask(t.sort.W)/2 && t.sort.W > 1 {
			return fmt.Sprint(sx(t.v, t.sort.W))
		}
		return fmt.Sprint(t.v)
	}
	if t.op == OVar {
		return t.name
	}
	if d == 0 {
		return "..."
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	var parts []string
	for _, x := range t.a {
		parts = append(parts, x.pretty(d-1))
	}
	return n + "(" + strings.Join(parts, ",") + ")"
}

// ---- evaluation under a model

type Model map[int32]uint64 // var id -> value (absent = 0)

type evaluator struct {
	m    Model
	memo map[int32]uint64
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.v
	case OVar:
		return e.m[t.id] & mask(t.sort.W)
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	v := e.eval1(t)
	e.memo[t.id] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func ffrom(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fto(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

type evalUnsupported struct{}

func (e *evaluator) eval1(t *Term) uint64 {
	w := t.sort.W
	if t.sort.K == SBV && w > 64 || (len(t.a) > 0 && t.a[0].sort.K == SBV && t.a[0].sort.W > 64) {
		panic(evalUnsupported{})
	}
	switch t.op {
	case OIte:
		if e.eval(t.a[0]) != 0 {
			return e.eval(t.a[1])
		}
		return e.eval(t.a[2])
	case OAnd:
		for _, x := range t.a {
			if e.eval(x) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, x := range t.a {
			if e.eval(x) != 0 {
				return 1
			}
		}
		return 0
	}
	x := e.eval(t.a[0])
	var y uint64
	if len(t.a) > 1 {
		y = e.eval(t.a[1])
	}
	iw := t.a[0].sort.W
	switch t.op {
	case ONot:
		return 1 - x
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sx(x, iw) < sx(y, iw))
	case OSle:
		return b2u(sx(x, iw) <= sx(y, iw))
	case OAdd:
		return (x + y) & mask(w)
	case OMul:
		return (x * y) & mask(w)
	case OUdiv:
		if y == 0 {
			return mask(w)
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return mask(w)
		}
		if b == -1 {
			return uint64(-a) & mask(w)
		}
		return uint64(a/b) & mask(w)
	case OSrem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & mask(w)
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & mask(w)
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y > 63 {
			y = 63
		}
		return uint64(sx(x, w)>>y) & mask(w)
	case OConcat:
		return x<<t.a[1].sort.W | y
	case OExtract:
		return (x >> (t.v & 0xff)) & mask(w)
	case OZext:
		return x
	case OSext:
		return uint64(sx(x, iw)) & mask(w)
	case OFAdd, OFSub, OFMul, OFDiv:
		a, b := ffrom(x, w), ffrom(y, w)
		var r float64
		switch t.op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		default:
			r = a / b
		}
		return fto(r, w)
	case OFNeg:
		return fto(-ffrom(x, w), w)
	case OFRound:
		return fto(roundFns[t.v](ffrom(x, w)), w)
	case OFLt:
		return b2u(ffrom(x, iw) < ffrom(y, iw))
	case OFLe:
		return b2u(ffrom(x, iw) <= ffrom(y, iw))
	case OFEq:
		return b2u(ffrom(x, iw) == ffrom(y, iw))
	case OFFromS:
		if w == 32 {
			return uint64(math.Float32bits(float32(sx(x, iw))))
		}
		return math.Float64bits(float64(sx(x, iw)))
	case OFFromU:
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	case OFToS:
		return uint64(int64(ffrom(x, iw))) & mask(w)
	case OFToU:
		return uint64(ffrom(x, iw)) & mask(w)
	case OFToF:
		return fto(ffrom(x, iw), w)
	case OFFromBits:
		return x
	}
	panic("eval op")
}

func (m Model) evalBool(t *Term) (res bool, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(evalUnsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	e := evaluator{m, map[int32]uint64{}}
	return e.eval(t) != 0, true
}

func (m Model) eval(t *Term) (res uint64, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(evalUnsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	e := evaluator{m, map[int32]uint64{}}
	return e.eval(t), true
}

// constTree says whether t is a tree of conditionals over constants with at
// most n leaves.
func (c *Ctx) constTree(t *Term, n int) bool {
	if t.op == OConst {
		return true
	}
	return n > 1 && t.op == OIte && c.constTree(t.a[1], n-1) && c.constTree(t.a[2], n-1)
}
