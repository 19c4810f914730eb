package main

import (
	"math/rand"
	"testing"
)

// Random terms are built once with the simplifying constructors and once as
// plain machine arithmetic; both must agree on random inputs.
func TestLinearRewrites(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	for it := 0; it < 30000; it++ {
		c := NewCtx()
		m := Model{}
		type pair struct {
			t *Term
			v uint64
		}
		var pool []pair
		widths := []uint8{8, 16, 32, 64}
		for i := 0; i < 4; i++ {
			w := widths[rng.Intn(2)]
			x := c.Var(string(rune('a'+i)), Sort{SBV, w})
			v := rng.Uint64() & mask(w)
			m[x.id] = v
			k := uint64(2 + rng.Intn(20))
			pool = append(pool, pair{c.Urem(x, c.BV(w, k)), v % k}, pair{x, v})
		}
		consts := []uint64{0, 1, 2, 7, 3, 15, 16, 31, 0xff, 0xffff, 9, 10, 48, 60, 100, 1000, 3600, 86400, 1e8, ^uint64(0), ^uint64(0) - 9, ^uint64(0) - 47, 1 << 63, 1 << 31, 128}
		for i := 0; i < 14; i++ {
			p := pool[rng.Intn(len(pool))]
			w := p.t.sort.W
			q := pool[rng.Intn(len(pool))]
			qt, qv := c.Resize(q.t, w, false), q.v&mask(w)
			k := consts[rng.Intn(len(consts))] & mask(w)
			kt := c.BV(w, k)
			var r pair
			switch rng.Intn(18) {
			case 16:
				r = pair{c.Ite(c.Ult(p.t, qt), c.BV(w, k), c.BV(w, 12)), k}
				if p.v >= qv {
					r.v = 12 & mask(w)
				}
			case 17:
				r = pair{c.Ite(c.Ult(p.t, qt), c.Add(p.t, kt), p.t), p.v}
				if p.v < qv {
					r.v = (p.v + k) & mask(w)
				}
			case 14:
				n := uint64(rng.Intn(int(w)))
				r = pair{c.Lshr(p.t, c.BV(w, n)), p.v >> n}
			case 15:
				r = pair{c.BAnd(p.t, c.BV(w, k)), p.v & k}
			case 12:
				if k < 2 {
					continue
				}
				r = pair{c.Sub(c.Add(p.t, qt), c.Mul(kt, c.Udiv(p.t, kt))), (p.v + qv - p.v/k*k) & mask(w)}
			case 13:
				r = pair{c.BOr(p.t, kt), p.v | k}
			case 11:
				if k < 2 {
					continue
				}
				r = pair{c.Sub(c.Add(p.t, qt), c.Urem(p.t, kt)), (p.v + qv - p.v%k) & mask(w)}
			case 10:
				if qv == 0 || sx(qv, w) == -1 {
					continue
				}
				switch rng.Intn(4) {
				case 0:
					r = pair{c.Sdiv(p.t, qt), uint64(sx(p.v, w)/sx(qv, w)) & mask(w)}
				case 1:
					r = pair{c.Srem(p.t, qt), uint64(sx(p.v, w)%sx(qv, w)) & mask(w)}
				case 2:
					r = pair{c.Udiv(p.t, qt), p.v / qv}
				case 3:
					r = pair{c.Urem(p.t, qt), p.v % qv}
				}
			case 0:
				r = pair{c.Add(p.t, qt), (p.v + qv) & mask(w)}
			case 1:
				r = pair{c.Add(p.t, kt), (p.v + k) & mask(w)}
			case 2, 3:
				r = pair{c.Add(c.Mul(p.t, kt), qt), (p.v*k + qv) & mask(w)}
			case 4:
				r = pair{c.Sub(p.t, qt), (p.v - qv) & mask(w)}
			case 5:
				if k == 0 {
					continue
				}
				r = pair{c.Udiv(p.t, kt), p.v / k}
			case 6:
				if k == 0 {
					continue
				}
				r = pair{c.Urem(p.t, kt), p.v % k}
			case 7:
				nw := widths[rng.Intn(4)]
				if nw < w {
					r = pair{c.Extract(p.t, nw-1, 0), p.v & mask(nw)}
				} else {
					r = pair{c.Zext(p.t, nw), p.v}
				}
			case 8:
				nw := widths[rng.Intn(4)]
				if nw < w {
					continue
				}
				r = pair{c.Sext(p.t, nw), uint64(sx(p.v, w)) & mask(nw)}
			case 9:
				if k == 0 || sx(k, w) == -1 {
					continue
				}
				if rng.Intn(2) == 0 {
					r = pair{c.Sdiv(p.t, kt), uint64(sx(p.v, w)/sx(k, w)) & mask(w)}
				} else {
					r = pair{c.Srem(p.t, kt), uint64(sx(p.v, w)%sx(k, w)) & mask(w)}
				}
			}
			pool = append(pool, r)
			if v, ok := m.eval(r.t); !ok || v != r.v {
				t.Fatalf("term %v = %d, want %d", r.t.pretty(20), v, r.v)
			}
			if r.t.nb > 0 {
				lim := uint64(1) << r.t.nb
				for _, x := range append([]*Term{r.t}, r.t.a...) {
					v, _ := m.eval(x)
					if r.t.op == OSdiv || r.t.op == OSrem {
						v = uint64(sx(v, w) + int64(lim/2))
					}
					if v >= lim {
						t.Fatalf("%v does not fit %d bits", x.pretty(20), r.t.nb)
					}
				}
			}
			a, b := pool[rng.Intn(len(pool))], r
			at, av := c.Resize(a.t, b.t.sort.W, false), a.v&mask(b.t.sort.W)
			bw := b.t.sort.W
			kb := c.BV(bw, consts[rng.Intn(len(consts))])
			for n, x := range []struct {
				t *Term
				v bool
			}{{c.Eq(c.Mul(at, kb), c.Mul(b.t, kb)), av*kb.v&mask(bw) == b.v*kb.v&mask(bw)}, {c.Eq(at, b.t), av == b.v}, {c.Ult(at, b.t), av < b.v}, {c.Ult(b.t, at), b.v < av}, {c.Slt(at, b.t), sx(av, bw) < sx(b.v, bw)}, {c.Slt(b.t, at), sx(b.v, bw) < sx(av, bw)}} {
				if y := x.t; y.op == OSlt && y.nb > 0 {
					for _, z := range y.a {
						v, _ := m.eval(z)
						if v := sx(v, bw); v < -1<<(y.nb-1) || v >= 1<<(y.nb-1) {
							t.Fatalf("%v does not fit %d signed bits", z.pretty(20), y.nb)
						}
					}
				} else if y.op == OUlt && y.nb > 0 {
					for _, z := range y.a {
						if v, _ := m.eval(z); v >= 1<<y.nb {
							t.Fatalf("%v does not fit %d bits", z.pretty(20), y.nb)
						}
					}
				}
				if v, ok := m.evalBool(x.t); !ok || v != x.v {
					t.Fatalf("cmp %d of %v and %v: %v want %v", n, at.pretty(20), b.t.pretty(20), v, x.v)
				}
			}
		}
	}
}
