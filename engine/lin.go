package main

import (
	"math/big"
	"sort"
)

// Linear forms. A bit-vector term built from additions, multiplications by
// constants and width changes is also a linear combination of its atoms with
// integer coefficients; with the bounds of the atoms known this decides many
// comparisons and divides sums of scaled digits exactly, which would be hard
// for the solver. Every rewrite here is an identity of machine arithmetic: a
// form stands for its term modulo 2^w, and is used as an exact integer only
// when its bounds show that no wrap-around can occur.

type linTerm struct {
	t  *Term // atom, at its own width, read as an unsigned integer
	co *big.Int
}

type linForm struct {
	ts     []linTerm // by atom id, no zero coefficients
	k      *big.Int
	lo, hi *big.Int
}

const linMax = 48

var pow2 [130]*big.Int

func init() {
	for i := range pow2 {
		pow2[i] = new(big.Int).Lsh(big.NewInt(1), uint(i))
	}
}

func linConst(k *big.Int) *linForm { return &linForm{k: k, lo: k, hi: k} }

func linScale(f *linForm, s *big.Int) *linForm {
	if s.Sign() == 0 {
		return linConst(new(big.Int))
	}
	r := &linForm{k: new(big.Int).Mul(f.k, s)}
	for _, x := range f.ts {
		r.ts = append(r.ts, linTerm{x.t, new(big.Int).Mul(x.co, s)})
	}
	a, b := new(big.Int).Mul(f.lo, s), new(big.Int).Mul(f.hi, s)
	if s.Sign() < 0 {
		a, b = b, a
	}
	r.lo, r.hi = a, b
	return r
}

// linAdd adds two forms; the bounds are recomputed from the atoms so that
// cancelling atoms do not widen them.
func (c *Ctx) linAdd(f, g *linForm) *linForm {
	r := &linForm{k: new(big.Int).Add(f.k, g.k)}
	i, j := 0, 0
	overlap := false
	for i < len(f.ts) || j < len(g.ts) {
		switch {
		case j == len(g.ts) || i < len(f.ts) && f.ts[i].t.id < g.ts[j].t.id:
			r.ts = append(r.ts, f.ts[i])
			i++
		case i == len(f.ts) || g.ts[j].t.id < f.ts[i].t.id:
			r.ts = append(r.ts, g.ts[j])
			j++
		default:
			overlap = true
			if s := new(big.Int).Add(f.ts[i].co, g.ts[j].co); s.Sign() != 0 {
				r.ts = append(r.ts, linTerm{f.ts[i].t, s})
			}
			i++
			j++
		}
	}
	if !overlap {
		r.lo, r.hi = new(big.Int).Add(f.lo, g.lo), new(big.Int).Add(f.hi, g.hi)
	} else {
		c.linBounds(r)
	}
	return c.linWhole(r)
}

func (c *Ctx) linBounds(r *linForm) {
	lo, hi := new(big.Int).Set(r.k), new(big.Int).Set(r.k)
	for _, x := range r.ts {
		l, h := c.atomRange(x.t)
		a := new(big.Int).Mul(x.co, new(big.Int).SetUint64(l))
		b := new(big.Int).Mul(x.co, new(big.Int).SetUint64(h))
		if x.co.Sign() < 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	r.lo, r.hi = lo, hi
}

// lowBits returns the n low bits of x if they are the same for all values of
// its atoms.
func (c *Ctx) lowBits(x *Term, n uint) (uint64, bool) {
	if x.sort.W > 64 || n > 63 {
		return 0, false
	}
	f := c.lin(x)
	for _, t := range f.ts {
		if t.co.TrailingZeroBits() < n {
			return 0, false
		}
	}
	return new(big.Int).And(f.k, new(big.Int).SetUint64(1<<n-1)).Uint64(), true
}

// multipleOf says that k divides every part of the form.
func (f *linForm) multipleOf(k uint64) bool {
	kb := new(big.Int).SetUint64(k)
	for _, t := range f.ts {
		if new(big.Int).Rem(t.co, kb).Sign() != 0 {
			return false
		}
	}
	return new(big.Int).Rem(f.k, kb).Sign() == 0
}

func (f *linForm) div(k uint64) *linForm {
	kb := new(big.Int).SetUint64(k)
	q := func(x *big.Int) *big.Int { return new(big.Int).Quo(x, kb) }
	r := &linForm{k: q(f.k), lo: q(f.lo), hi: q(f.hi)}
	for _, t := range f.ts {
		r.ts = append(r.ts, linTerm{t.t, q(t.co)})
	}
	return r
}

// wrap shifts the form by a multiple of 2^w if that puts it into [0, 2^w);
// ok says whether it then is an exact unsigned integer.
func linU(f *linForm, w uint8) (*linForm, bool) {
	if f.lo.Sign() >= 0 && f.hi.Cmp(pow2[w]) < 0 {
		return f, true
	}
	q := new(big.Int).Rsh(f.lo, uint(w)) // floor
	s := new(big.Int).Lsh(q, uint(w))
	hi := new(big.Int).Sub(f.hi, s)
	if hi.Cmp(pow2[w]) >= 0 {
		return f, false
	}
	return &linForm{ts: f.ts, k: new(big.Int).Sub(f.k, s), lo: new(big.Int).Sub(f.lo, s), hi: hi}, true
}

// linS is linU for the signed range [-2^(w-1), 2^(w-1)).
func linS(f *linForm, w uint8) (*linForm, bool) {
	half := pow2[w-1]
	l := new(big.Int).Add(f.lo, half)
	q := new(big.Int).Rsh(l, uint(w))
	s := new(big.Int).Lsh(q, uint(w))
	hi := new(big.Int).Sub(f.hi, s)
	if hi.Cmp(half) >= 0 {
		return f, false
	}
	return &linForm{ts: f.ts, k: new(big.Int).Sub(f.k, s), lo: new(big.Int).Sub(f.lo, s), hi: hi}, true
}

func linearOp(t *Term) bool {
	switch t.op {
	case OAdd, OConst:
		return true
	case OMul:
		return t.a[1].IsConst()
	case OShl:
		return t.a[1].IsConst() && t.a[1].v < uint64(t.sort.W)
	case OZext, OSext:
		return true
	case OExtract:
		return t.v&0xff == 0
	}
	return false
}

// lin returns the linear form of a bit-vector term of at most 64 bits.
func (c *Ctx) lin(t *Term) *linForm {
	if t.op == OConst {
		return linConst(new(big.Int).SetUint64(t.v))
	}
	if f, ok := c.lins[t]; ok {
		return f
	}
	f := c.lin1(t)
	if f == nil || len(f.ts) > linMax {
		f = &linForm{ts: []linTerm{{t, big.NewInt(1)}}, k: new(big.Int)}
		l, h := c.atomRange(t)
		f.lo, f.hi = new(big.Int).SetUint64(l), new(big.Int).SetUint64(h)
	}
	if c.lins == nil {
		c.lins = map[*Term]*linForm{}
	}
	c.lins[t] = f
	return f
}

// divRemOf returns the constant divisor of a quotient or remainder, else 0.
func divRemOf(t *Term) (k uint64, rem bool) {
	if len(t.a) != 2 || !t.a[1].IsConst() || t.sort.W > 64 {
		return 0, false
	}
	switch v := t.a[1].v; t.op {
	case OUdiv:
		return v, false
	case OUrem:
		return v, true
	case OBAnd:
		if v&(v+1) == 0 {
			return v + 1, true
		}
	case OLshr:
		if v < uint64(t.sort.W) {
			return 1 << v, false
		}
	}
	return 0, false
}

// linWhole replaces b*S - b*(S%k) by b*k*(S/k), and b*S - b*k*(S/k) by b*(S%k).
func (c *Ctx) linWhole(f *linForm) *linForm {
next:
	for _, r := range f.ts {
		kv, rem := divRemOf(r.t)
		if kv < 2 || len(f.ts) < 2 {
			continue
		}
		k := new(big.Int).SetUint64(kv)
		b := new(big.Int).Neg(r.co)
		if !rem {
			var m big.Int
			if b.QuoRem(b, k, &m); m.Sign() != 0 {
				continue
			}
		}
		s, ok := linU(c.lin(r.t.a[0]), r.t.sort.W)
		if !ok || len(s.ts) == 0 || len(s.ts) >= len(f.ts) {
			continue
		}
		for _, x := range s.ts {
			found := false
			for _, y := range f.ts {
				if y.t == x.t && y.co.Cmp(new(big.Int).Mul(b, x.co)) == 0 {
					found = true
				}
			}
			if !found {
				continue next
			}
		}
		var o *linForm
		if kt := c.BV(r.t.sort.W, kv); rem {
			o = linScale(c.lin(c.Udiv(r.t.a[0], kt)), new(big.Int).Mul(b, k))
		} else {
			o = linScale(c.lin(c.Urem(r.t.a[0], kt)), b)
		}
		g := &linForm{k: f.k, lo: f.lo, hi: f.hi}
		for _, y := range f.ts {
			if y.t != r.t {
				g.ts = append(g.ts, y)
			}
		}
		neg := linScale(s, new(big.Int).Neg(b))
		h := &linForm{k: new(big.Int).Add(g.k, neg.k)}
		for _, y := range g.ts {
			drop := false
			for _, x := range s.ts {
				drop = drop || x.t == y.t
			}
			if !drop {
				h.ts = append(h.ts, y)
			}
		}
		c.linBounds(h)
		return c.linAdd(h, o)
	}
	return f
}

func signedConst(t *Term) *big.Int { return big.NewInt(sx(t.v, t.sort.W)) }

func (c *Ctx) lin1(t *Term) *linForm {
	w := t.sort.W
	if w > 64 || t.sort.K != SBV {
		return nil
	}
	switch t.op {
	case OAdd:
		if t.a[1].IsConst() {
			return c.linAdd(c.lin(t.a[0]), linConst(signedConst(t.a[1])))
		}
		return c.linAdd(c.lin(t.a[0]), c.lin(t.a[1]))
	case OMul:
		if t.a[1].IsConst() {
			return linScale(c.lin(t.a[0]), signedConst(t.a[1]))
		}
	case OShl:
		if t.a[1].IsConst() && t.a[1].v < uint64(w) {
			return linScale(c.lin(t.a[0]), pow2[t.a[1].v])
		}
	case OZext:
		iw := t.a[0].sort.W
		if iw > 64 {
			return nil
		}
		if f, ok := linU(c.lin(t.a[0]), iw); ok {
			return f
		}
		// an inner sum that may wrap is an atom of its own width
		return &linForm{ts: []linTerm{{t.a[0], big.NewInt(1)}}, k: new(big.Int), lo: new(big.Int), hi: new(big.Int).Sub(pow2[iw], big.NewInt(1))}
	case OSext:
		iw := t.a[0].sort.W
		if f, ok := linS(c.lin(t.a[0]), iw); ok {
			return f
		}
	case OIte:
		if t.a[1].IsConst() && t.a[2].IsConst() {
			// one bit, scaled
			x, y := signedConst(t.a[1]), signedConst(t.a[2])
			bit := c.mk(OIte, t.sort, 0, "", t.a[0], c.BV(w, 1), c.BV(w, 0))
			if bit == t {
				return nil
			}
			f := linScale(&linForm{ts: []linTerm{{bit, big.NewInt(1)}}, k: new(big.Int), lo: new(big.Int), hi: big.NewInt(1)}, new(big.Int).Sub(x, y))
			return c.linAdd(f, linConst(y))
		}
		// a choice that may be negative is shifted up
		if t.size > 600 || !linearOp(t.a[1]) && !linearOp(t.a[2]) {
			return nil
		}
		x, ok1 := linS(c.lin(t.a[1]), w)
		y, ok2 := linS(c.lin(t.a[2]), w)
		if !ok1 || !ok2 || x.lo.Sign() >= 0 && y.lo.Sign() >= 0 {
			return nil
		}
		lo, hi := x.lo, x.hi
		if y.lo.Cmp(lo) < 0 {
			lo = y.lo
		}
		if y.hi.Cmp(hi) > 0 {
			hi = y.hi
		}
		k := c.BV(w, new(big.Int).Neg(lo).Uint64())
		up := c.Ite(t.a[0], c.Add(t.a[1], k), c.Add(t.a[2], k))
		if up.op != OIte || up == t {
			return nil
		}
		c.setRange(up, new(big.Int).Sub(hi, lo))
		return &linForm{ts: []linTerm{{up, big.NewInt(1)}}, k: lo, lo: lo, hi: hi}
	case OExtract:
		if t.v&0xff == 0 && t.a[0].sort.W <= 64 {
			f := c.lin(t.a[0])
			if len(f.ts) == 1 && f.ts[0].t == t.a[0] && f.hi.Cmp(pow2[w]) >= 0 {
				return nil
			}
			// the low bits of a sum are the sum modulo a smaller power,
			// whether or not the sum itself wraps
			return f
		}
	}
	return nil
}

// atomRange bounds a term that is not itself a sum.
func (c *Ctx) atomRange(t *Term) (uint64, uint64) {
	if linearOp(t) && t.op != OConst {
		return 0, mask(t.sort.W)
	}
	if h, ok := c.tops[t]; ok {
		return 0, h
	}
	if l, h, ok := c.urange(t); ok {
		return l, h
	}
	return 0, mask(t.sort.W)
}

// setRange records that t is at most hi.
func (c *Ctx) setRange(t *Term, hi *big.Int) {
	if c.tops == nil {
		c.tops = map[*Term]uint64{}
	}
	if hi.IsUint64() {
		c.tops[t] = hi.Uint64()
	}
}

// srange returns signed bounds of a term.
func (c *Ctx) srange(t *Term) (lo, hi int64, ok bool) {
	w := t.sort.W
	if w > 64 || t.size > 4000 {
		return 0, 0, false
	}
	f, ok := linS(c.lin(t), w)
	if !ok {
		return 0, 0, false
	}
	return f.lo.Int64(), f.hi.Int64(), true
}

// linTermOf builds a term of width w for an exact unsigned form.
func (c *Ctx) linTermOf(f *linForm, w uint8) *Term {
	var acc *Term
	m := new(big.Int).Sub(pow2[w], big.NewInt(1))
	for _, x := range f.ts {
		a := x.t
		if a.sort.W > w {
			a = c.Extract(a, w-1, 0)
		} else {
			a = c.Zext(a, w)
		}
		a = c.Mul(a, c.BV(w, new(big.Int).And(x.co, m).Uint64()))
		if acc == nil {
			acc = a
		} else {
			acc = c.Add(acc, a)
		}
	}
	k := c.BV(w, new(big.Int).And(f.k, m).Uint64())
	if acc == nil {
		return k
	}
	return c.Add(acc, k)
}

// linDivRem divides x by the constant k > 1: x = g*A + B with g | k and
// 0 <= B < g gives x/k = A/(k/g) and x%k = g*(A%(k/g)) + B.
func (c *Ctx) linDivRem(x *Term, kv uint64) (q, r *Term, ok bool) {
	w := x.sort.W
	if w > 64 || !linearOp(x) || x.size > 4000 {
		return
	}
	f, exact := linU(c.lin(x), w)
	if !exact || len(f.ts) == 0 {
		return
	}
	k := new(big.Int).SetUint64(kv)
	if f.hi.Cmp(k) < 0 {
		return c.BV(w, 0), x, true
	}
	g0 := &linForm{k: new(big.Int).Set(f.k), lo: f.lo, hi: f.hi}
	for _, x := range f.ts {
		if x.co.Sign() < 0 {
			// -co*bit is co*(1-bit) - co
			if x.t.op != OIte || !x.t.a[1].IsConst() || !x.t.a[2].IsConst() || x.t.a[1].v != 1 || x.t.a[2].v != 0 {
				return
			}
			g0.k.Add(g0.k, x.co)
			x = linTerm{c.mk(OIte, x.t.sort, 0, "", x.t.a[0], x.t.a[2], x.t.a[1]), new(big.Int).Neg(x.co)}
		}
		g0.ts = append(g0.ts, x)
	}
	f = g0
	if f.k.Sign() < 0 {
		return
	}
	ord := append([]linTerm(nil), f.ts...)
	sort.SliceStable(ord, func(i, j int) bool { return ord[i].co.Cmp(ord[j].co) > 0 })
	g := new(big.Int).Set(k)
	var best *big.Int
	bestN := 0
	for n := 0; n <= len(ord); n++ {
		if n > 0 {
			g = new(big.Int).GCD(nil, nil, g, ord[n-1].co)
		}
		if g.Cmp(big.NewInt(1)) == 0 {
			break
		}
		if n == 0 && f.k.Cmp(g) < 0 {
			continue
		}
		rest := &linForm{ts: append([]linTerm(nil), ord[n:]...), k: new(big.Int).Mod(f.k, g)}
		c.linBounds(rest)
		if rest.hi.Cmp(g) < 0 {
			best, bestN = g, n
			break // later prefixes have a smaller divisor
		}
	}
	if best == nil {
		// multiples of k come out of the division
		A, B := &linForm{k: new(big.Int)}, &linForm{k: new(big.Int)}
		A.k.DivMod(f.k, k, B.k)
		for _, x := range f.ts {
			a, b := new(big.Int).DivMod(x.co, k, new(big.Int))
			if a.Sign() > 0 {
				A.ts = append(A.ts, linTerm{x.t, a})
			}
			if b.Sign() > 0 {
				B.ts = append(B.ts, linTerm{x.t, b})
			}
		}
		if A.k.Sign() == 0 && len(A.ts) == 0 {
			return
		}
		kt, bt := c.BV(w, kv), c.linTermOf(B, w)
		return c.Add(c.linTermOf(A, w), c.Udiv(bt, kt)), c.Urem(bt, kt), true
	}
	A := &linForm{k: new(big.Int).Div(f.k, best)}
	B := &linForm{k: new(big.Int).Mod(f.k, best)}
	for i, x := range ord {
		if i < bestN {
			A.ts = append(A.ts, linTerm{x.t, new(big.Int).Div(x.co, best)})
		} else {
			B.ts = append(B.ts, x)
		}
	}
	byID := func(ts []linTerm) { sort.Slice(ts, func(i, j int) bool { return ts[i].t.id < ts[j].t.id }) }
	byID(A.ts)
	byID(B.ts)
	at, bt := c.linTermOf(A, w), c.linTermOf(B, w)
	m := new(big.Int).Div(k, best)
	if m.Cmp(big.NewInt(1)) == 0 {
		return at, bt, true
	}
	mt := c.BV(w, m.Uint64())
	q = c.Udiv(at, mt)
	r = c.Add(c.Mul(c.Urem(at, mt), c.BV(w, best.Uint64())), bt)
	return q, r, true
}

func (c *Ctx) linCompare(x, y *Term) bool {
	return (x.op == OAdd || x.op == OMul || y.op == OAdd || y.op == OMul || x.op == OExtract || y.op == OExtract || x.op == OZext || y.op == OZext || x.op == OSext || y.op == OSext) && x.sort.W <= 64 && x.size+y.size < 6000
}

// linEq: 1 equal, 0 different, -1 unknown.
func (c *Ctx) linEq(x, y *Term) int {
	if !c.linCompare(x, y) {
		return -1
	}
	w := x.sort.W
	d := c.linAdd(c.lin(x), linScale(c.lin(y), big.NewInt(-1)))
	// coefficients count modulo 2^w
	for _, t := range d.ts {
		if new(big.Int).Mod(t.co, pow2[w]).Sign() != 0 {
			// bounds may still exclude every multiple of 2^w
			a := new(big.Int).Rsh(new(big.Int).Sub(d.lo, big.NewInt(1)), uint(w))
			b := new(big.Int).Rsh(d.hi, uint(w))
			if a.Cmp(b) == 0 {
				return 0
			}
			return -1
		}
	}
	if new(big.Int).Mod(d.k, pow2[w]).Sign() == 0 {
		return 1
	}
	return 0
}

// linEqSmall rewrites an equality of scaled sums to one over smaller numbers:
// a difference that cannot wrap is zero as an integer, so it may be divided by
// the common divisor of its coefficients and computed in fewer bits.
func (c *Ctx) linEqSmall(x, y *Term) *Term {
	if !x.hard && !y.hard || !c.linCompare(x, y) {
		return nil
	}
	w := x.sort.W
	d, ok := linS(c.linAdd(c.lin(x), linScale(c.lin(y), big.NewInt(-1))), w)
	if !ok || len(d.ts) == 0 {
		return nil
	}
	g := new(big.Int)
	for _, t := range d.ts {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.co))
	}
	if new(big.Int).Mod(d.k, g).Sign() != 0 {
		return c.False
	}
	lo, hi := new(big.Int).Quo(d.lo, g), new(big.Int).Quo(d.hi, g)
	n := uint8(max(lo.BitLen(), hi.BitLen())) + 2
	if n >= w {
		if g.Cmp(big.NewInt(1)) == 0 {
			return nil
		}
		n = w
	}
	pos, neg := &linForm{k: new(big.Int)}, &linForm{k: new(big.Int)}
	for _, t := range d.ts {
		co := new(big.Int).Quo(t.co, g)
		if co.Sign() > 0 {
			pos.ts = append(pos.ts, linTerm{t.t, co})
		} else {
			neg.ts = append(neg.ts, linTerm{t.t, co.Neg(co)})
		}
	}
	if k := new(big.Int).Quo(d.k, g); k.Sign() > 0 {
		pos.k = k
	} else {
		neg.k = k.Neg(k)
	}
	return c.Eq(c.linTermOf(pos, n), c.linTermOf(neg, n))
}

// linUlt: 1 true, 0 false, -1 unknown.
func (c *Ctx) linUlt(x, y *Term) int {
	if !c.linCompare(x, y) {
		return -1
	}
	fx, ok1 := linU(c.lin(x), x.sort.W)
	fy, ok2 := linU(c.lin(y), y.sort.W)
	if !ok1 || !ok2 {
		return -1
	}
	return c.linLess(fx, fy)
}

func (c *Ctx) linSlt(x, y *Term) int {
	if !c.linCompare(x, y) {
		return -1
	}
	fx, ok1 := linS(c.lin(x), x.sort.W)
	fy, ok2 := linS(c.lin(y), y.sort.W)
	if !ok1 || !ok2 {
		return -1
	}
	return c.linLess(fx, fy)
}

func (c *Ctx) linLess(fx, fy *linForm) int {
	d := c.linAdd(fx, linScale(fy, big.NewInt(-1)))
	if d.hi.Sign() < 0 {
		return 1
	}
	if d.lo.Sign() >= 0 {
		return 0
	}
	return -1
}

// tabInfo says that a term is a constant table read at base.
type tabInfo struct {
	base *Term
	vals []*Term
}

// constTable reads a table of n entries at idx < n; ok is false if there is
// nothing better than a chain of comparisons over all entries.
func (c *Ctx) constTable(idx *Term, n int, get func(k int) *Term) (*Term, bool) {
	if t, ok := c.tableLookup(idx, n, get); ok {
		return t, true
	}
	x := idx
	for x.op == OZext {
		x = x.a[0]
	}
	if tb, ok := c.tabs[x]; ok {
		good := true
		for _, v := range tb.vals {
			if v.v >= uint64(n) {
				good = false
			}
		}
		if good {
			return c.constTable(tb.base, len(tb.vals), func(k int) *Term { return get(int(tb.vals[k].v)) })
		}
	}
	lo, hi := c.atomRange(x)
	if hi >= uint64(n) || hi-lo > 300 {
		return nil, false
	}
	var vals []*Term
	for k := 0; k <= int(hi); k++ {
		v := get(k)
		if !v.IsConst() || v.sort.K != SBV {
			return nil, false
		}
		vals = append(vals, v)
	}
	acc := vals[hi]
	for k := int(hi) - 1; k >= int(lo); k-- {
		acc = c.Ite(c.Eq(x, c.BV(x.sort.W, uint64(k))), vals[k], acc)
	}
	if acc.op == OIte {
		if c.tabs == nil {
			c.tabs = map[*Term]*tabInfo{}
		}
		c.tabs[acc] = &tabInfo{x, vals}
	}
	return acc, true
}

// tableLookup reads a constant table at a symbolic index in [0,n). The index
// is reduced to the values its linear form can take; a table that is a linear
// function of the atoms there (digits of a number, say) becomes that function,
// which is checked for every combination of the atoms' values.
func (c *Ctx) tableLookup(idx *Term, n int, get func(k int) *Term) (*Term, bool) {
	f, ok := linU(c.lin(idx), idx.sort.W)
	if !ok || len(f.ts) == 0 || len(f.ts) > 4 {
		return nil, false
	}
	w := get(0).sort.W
	if get(0).sort.K != SBV || w > 64 {
		return nil, false
	}
	combos := 1
	lo := make([]uint64, len(f.ts))
	sz := make([]int, len(f.ts))
	for i, x := range f.ts {
		l, h := c.atomRange(x.t)
		if h-l >= 4096 {
			return nil, false
		}
		lo[i], sz[i] = l, int(h-l)+1
		combos *= sz[i]
		if combos > 4096 {
			return nil, false
		}
	}
	if f.lo.Sign() < 0 || f.hi.Cmp(big.NewInt(int64(n))) >= 0 {
		return nil, false
	}
	val := func(at []int) (uint64, bool) {
		s := new(big.Int).Set(f.k)
		for i, x := range f.ts {
			s.Add(s, new(big.Int).Mul(x.co, new(big.Int).SetUint64(lo[i]+uint64(at[i]))))
		}
		t := get(int(s.Int64()))
		return t.v, t.IsConst() && t.sort.W == w && t.sort.K == SBV
	}
	at := make([]int, len(f.ts))
	c0, ok := val(at)
	if !ok {
		return nil, false
	}
	co := make([]uint64, len(f.ts))
	for i := range at {
		if sz[i] > 1 {
			at[i] = 1
			v, ok := val(at)
			if !ok {
				return nil, false
			}
			co[i] = (v - c0) & mask(w)
			at[i] = 0
		}
	}
	for k := 0; k < combos; k++ {
		r := k
		want := c0
		for i := range at {
			at[i] = r % sz[i]
			r /= sz[i]
			want += co[i] * uint64(at[i])
		}
		v, ok := val(at)
		if !ok || v != want&mask(w) {
			return nil, false
		}
	}
	acc := c.BV(w, c0)
	for i, x := range f.ts {
		a := x.t
		a = c.Resize(a, w, false)
		acc = c.Add(acc, c.Mul(c.Sub(a, c.BV(w, lo[i])), c.BV(w, co[i])))
	}
	return acc, true
}

// bitLen is the bit length of t as a chain over the lengths its bounds allow.
func (c *Ctx) bitLen(t *Term, w uint8) *Term {
	lo, hi := uint64(0), mask(w)
	if f, ok := linU(c.lin(t), w); ok {
		lo, hi = f.lo.Uint64(), f.hi.Uint64()
	}
	n := func(v uint64) int { return new(big.Int).SetUint64(v).BitLen() }
	acc := c.BV(64, uint64(n(lo)))
	for i := n(lo); i < n(hi); i++ {
		acc = c.Ite(c.Ult(t, c.BV(w, uint64(1)<<i)), acc, c.BV(64, uint64(i)+1))
	}
	return acc
}
