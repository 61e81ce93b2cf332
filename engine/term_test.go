package main

import (
	"math/rand"
	"testing"
)

// Random differential test of the simplifier against direct evaluation.
func TestSimplifier(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	vars := []*Term{mkVar("a8", 8, 0, 255), mkVar("b8", 8, 0, 255), mkVar("c8", 8, 3, 17), mkVar("d16", 16, 0, 65535), mkVar("e64", 64, 0, 12), mkVar("f64", 64, 0, ^uint64(0)), mkVar("g0", 0, 0, 1), mkVar("h64", 64, 1, 1000), mkVar("i0", 0, 0, 1)}
	type pair struct {
		t *Term
		f func(m *Model) uint64
	}
	for iter := 0; iter < 3000; iter++ {
		byW := map[uint8][]pair{}
		add := func(t *Term, f func(m *Model) uint64) { byW[t.W] = append(byW[t.W], pair{t, f}) }
		for _, v := range vars {
			v := v
			add(v, func(m *Model) uint64 { return m.vals[v.Name] })
		}
		for _, w := range []uint8{8, 16, 64} {
			w := w
			for k := 0; k < 2; k++ {
				c := uint64(r.Intn(20))
				if r.Intn(4) == 0 {
					c = r.Uint64()
				}
				c &= mask(w)
				add(mkConst(w, c), func(*Model) uint64 { return c })
			}
		}
		models := make([]*Model, 6)
		for i := range models {
			m := newModel()
			for _, v := range vars {
				m.vals[v.Name] = v.lo
				if d := v.hi - v.lo + 1; d == 0 {
					m.vals[v.Name] = r.Uint64() >> uint(r.Intn(64))
				} else {
					m.vals[v.Name] = v.lo + r.Uint64()%d
				}
			}
			models[i] = m
		}
		ws := []uint8{8, 16, 64}
		pick := func(w uint8) pair { l := byW[w]; return l[r.Intn(len(l))] }
		for step := 0; step < 40; step++ {
			w := ws[r.Intn(3)]
			a, b := pick(w), pick(w)
			g := pick(0)
			var nt *Term
			var nf func(m *Model) uint64
			M := mask(w)
			op := r.Intn(24)
			switch op {
			case 0:
				nt, nf = mkAdd(a.t, b.t), func(m *Model) uint64 { return (a.f(m) + b.f(m)) & M }
			case 1:
				nt, nf = mkSub(a.t, b.t), func(m *Model) uint64 { return (a.f(m) - b.f(m)) & M }
			case 2:
				nt, nf = mkMul(a.t, b.t), func(m *Model) uint64 { return (a.f(m) * b.f(m)) & M }
			case 3:
				nt, nf = mkBAnd(a.t, b.t), func(m *Model) uint64 { return a.f(m) & b.f(m) }
			case 4:
				nt, nf = mkBOr(a.t, b.t), func(m *Model) uint64 { return a.f(m) | b.f(m) }
			case 5:
				nt, nf = mkBXor(a.t, b.t), func(m *Model) uint64 { return a.f(m) ^ b.f(m) }
			case 6:
				nt, nf = mkBNot(a.t), func(m *Model) uint64 { return ^a.f(m) & M }
			case 7:
				k := uint64(r.Intn(int(w) + 2))
				nt, nf = mkShl(a.t, mkConst(w, k)), func(m *Model) uint64 { return a.f(m) << k & M }
			case 8:
				k := uint64(r.Intn(int(w) + 2))
				nt, nf = mkLShr(a.t, mkConst(w, k)), func(m *Model) uint64 { return a.f(m) >> k }
			case 9:
				k := uint64(r.Intn(int(w)))
				nt, nf = mkAShr(a.t, mkConst(w, k)), func(m *Model) uint64 { return uint64(signed(a.f(m), w)>>k) & M }
			case 10:
				nt, nf = mkEq(a.t, b.t), func(m *Model) uint64 { return b2u(a.f(m) == b.f(m)) }
			case 11:
				nt, nf = mkULt(a.t, b.t), func(m *Model) uint64 { return b2u(a.f(m) < b.f(m)) }
			case 12:
				nt, nf = mkSLt(a.t, b.t), func(m *Model) uint64 { return b2u(signed(a.f(m), w) < signed(b.f(m), w)) }
			case 13:
				nt, nf = mkIte(g.t, a.t, b.t), func(m *Model) uint64 {
					if g.f(m) != 0 {
						return a.f(m)
					}
					return b.f(m)
				}
			case 14:
				h := pick(0)
				nt, nf = mkAnd(g.t, h.t), func(m *Model) uint64 { return g.f(m) & h.f(m) }
			case 15:
				h := pick(0)
				nt, nf = mkOr(g.t, h.t), func(m *Model) uint64 { return g.f(m) | h.f(m) }
			case 16:
				nt, nf = mkNot(g.t), func(m *Model) uint64 { return 1 - g.f(m) }
			case 17:
				h, k := pick(0), pick(0)
				nt, nf = mkIte(g.t, h.t, k.t), func(m *Model) uint64 {
					if g.f(m) != 0 {
						return h.f(m)
					}
					return k.f(m)
				}
			case 18:
				w2 := ws[r.Intn(3)]
				nt, nf = mkZExt(a.t, w2), func(m *Model) uint64 { return a.f(m) & mask(w2) }
			case 19:
				w2 := ws[r.Intn(3)]
				nt, nf = mkSExt(a.t, w2), func(m *Model) uint64 { return uint64(signed(a.f(m), w)) & mask(w2) }
			case 20:
				x, y := pick(8), pick(8)
				nt, nf = mkConcat(x.t, y.t), func(m *Model) uint64 { return x.f(m)<<8 | y.f(m) }
			case 21:
				c := uint64(r.Intn(30) + 1)
				nt, nf = mkUDiv(a.t, mkConst(w, c)), func(m *Model) uint64 { return a.f(m) / c }
			case 22:
				c := uint64(r.Intn(30) + 1)
				nt, nf = mkURem(a.t, mkConst(w, c)), func(m *Model) uint64 { return a.f(m) % c }
			case 23:
				c := uint64(r.Intn(30) + 1)
				nt, nf = mkSDiv(a.t, mkConst(w, c)), func(m *Model) uint64 { return uint64(signed(a.f(m), w)/int64(c)) & M }
			}
			for _, m := range models {
				want := nf(m)
				if got := m.eval(nt); got != want {
					t.Fatalf("op %d: %v: got %d want %d (a=%v b=%v g=%v)", op, nt, got, want, a.t, b.t, g.t)
				}
				if nt.W > 0 && (want < nt.lo || want > nt.hi) {
					t.Fatalf("range op %d: %v: val %d not in [%d,%d]", op, nt, want, nt.lo, nt.hi)
				}
			}
			add(nt, nf)
		}
	}
}
