package main

import (
	"math"

	"github.com/davidkleiven/gopf/pfc"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["C26"] = c26
	props["C27"] = c27
}

func orbitOf(h, k, l int) map[pfc.Miller]bool {
	r := map[pfc.Miller]bool{}
	x := []int{h, k, l}
	for _, p := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		for s := 0; s < 8; s++ {
			sg := func(i, v int) int {
				if s>>uint(i)&1 == 1 {
					return -v
				}
				return v
			}
			r[pfc.Miller{H: sg(0, x[p[0]]), K: sg(1, x[p[1]]), L: sg(2, x[p[2]])}] = true
		}
	}
	return r
}

func c26(t *T) {
	check := func(h, k, l int) {
		m := pfc.Miller{H: h, K: k, L: l}
		t.at("(%d,%d,%d)", h, k, l)
		want := orbitOf(h, k, l)
		got := pfc.EquivalentMiller(m)
		seen := map[pfc.Miller]bool{}
		for _, g := range got {
			t.ok(want[g], "(%d,%d,%d): %v is not equivalent", h, k, l, g)
			t.ok(!seen[g], "(%d,%d,%d): %v twice", h, k, l, g)
			seen[g] = true
		}
		t.ok(len(got) == len(want), "(%d,%d,%d): %d equivalent planes, want %d", h, k, l, len(got), len(want))
		flat, signs := 0, map[pfc.Miller]bool{}
		for g := range want {
			if g.L == 0 {
				flat++
			}
			if g.H*g.H == h*h && g.K*g.K == k*k && g.L*g.L == l*l {
				signs[g] = true
			}
		}
		t.ok(pfc.NumEquivalent3D(m) == len(want) && pfc.NumEquivalent(m, 3) == len(want), "(%d,%d,%d): %d equivalent in 3D, want %d", h, k, l, pfc.NumEquivalent3D(m), len(want))
		t.ok(pfc.NumEquivalent2D(m) == flat && pfc.NumEquivalent(m, 2) == flat, "(%d,%d,%d): %d equivalent in 2D, want %d", h, k, l, pfc.NumEquivalent2D(m), flat)
		np := pfc.EquivalentMillerNoPermutations(m)
		s2 := map[pfc.Miller]bool{}
		for _, g := range np {
			t.ok(signs[g] && !s2[g], "(%d,%d,%d): %v among the signs", h, k, l, g)
			s2[g] = true
		}
		t.ok(len(np) == len(signs), "(%d,%d,%d): %d signs, want %d", h, k, l, len(np), len(signs))
		t.ok(m.At(0) == h && m.At(1) == k && m.At(2) == l, "(%d,%d,%d): At", h, k, l)
		for _, o := range []pfc.Miller{m, {H: h + 1, K: k, L: l}, {H: h, K: k + 1, L: l}, {H: h, K: k, L: l - 1}} {
			t.ok(m.Equal(o) == (m == o), "(%d,%d,%d): Equal %v", h, k, l, o)
		}
	}
	t.part("miller", func() {
		for h := -3; h <= 3; h++ {
			for k := -3; k <= 3; k++ {
				for l := -3; l <= 3; l++ {
					check(h, k, l)
				}
			}
		}
		t.loop(100, func() { check(t.n(-40, 40), t.n(-40, 40), t.n(-40, 40)) })
	})
}

func c27(t *T) {
	t.part("cells", func() {
		t.loop(60, func() {
			a := t.f()
			t.at("a=%v", a)
			for _, c := range []struct {
				name string
				cell pfc.Cell
				vec  [][]float64
				vol  float64
			}{{"FCC", pfc.FCC(a), [][]float64{{.5, .5, 0}, {0, .5, .5}, {.5, 0, .5}}, 0.25}, {"BCC", pfc.BCC(a), [][]float64{{.5, .5, .5}, {-.5, .5, .5}, {.5, -.5, .5}}, 0.5},
				{"SC3D", pfc.SC3D(a), [][]float64{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, 1}, {"SC2D", pfc.SC2D(a), [][]float64{{1, 0}, {0, 1}}, 1}} {
				for j, v := range c.vec {
					for i, x := range v {
						t.ok(near(c.cell.CellVec.At(i, j), x*a), "%s(%v): component %d of vector %d is %v", c.name, a, i, j, c.cell.CellVec.At(i, j))
					}
				}
				t.ok(near(c.cell.Volume(), c.vol*math.Pow(a, float64(len(c.vec)))), "%s(%v): volume %v", c.name, a, c.cell.Volume())
			}
		})
	})
	t.part("reciprocal", func() {
		t.loop(300, func() {
			d := t.n(2, 3)
			C := mat.NewDense(d, d, t.fs(d*d))
			if math.Abs(mat.Det(C)) < 0.2 {
				return
			}
			D := mat.NewDense(d, d, t.fs(d*d))
			m := pfc.Miller{H: t.n(-4, 4), K: t.n(-4, 4), L: t.n(-4, 4)}
			t.at("cell=%v change=%v miller=%v", mat.DenseCopyOf(C).RawMatrix().Data, D.RawMatrix().Data, m)
			C0, D0 := mat.DenseCopyOf(C), mat.DenseCopyOf(D)
			cell := pfc.Cell{CellVec: C}
			t.ok(near(cell.Volume(), mat.Det(C0)), "volume %v", cell.Volume())
			rec := cell.Reciprocal()
			M := rec.CellVec
			g, ch, dh := rec.HKLVector(m), rec.CellChange(D), rec.ChangeHKLVector(m, D)
			h := []float64{float64(m.H), float64(m.K), float64(m.L)}
			for i := 0; i < d; i++ {
				wg, wd := 0.0, 0.0
				for j := 0; j < d; j++ {
					p, q := 0.0, 0.0
					for k := 0; k < d; k++ {
						p += M.At(k, i) * C0.At(k, j)
						q += ch.At(k, i)*C0.At(k, j) + M.At(k, i)*D0.At(k, j)
					}
					w := 0.0
					if i == j {
						w = 2 * math.Pi
					}
					t.ok(math.Abs(p-w) < 1e-7, "product of reciprocal vector %d and vector %d is %v", i, j, p)
					t.ok(math.Abs(q) < 1e-5*(1+mat.Norm(ch, 2)), "change of the product of reciprocal vector %d and vector %d is %v", i, j, q)
					wg += h[j] * M.At(i, j)
					wd += h[j] * ch.At(i, j)
				}
				t.ok(nearTol(g[i], wg, 1e-8), "hkl component %d: %v want %v", i, g[i], wg)
				t.ok(nearTol(dh[i], wd, 1e-8), "change of hkl component %d: %v want %v", i, dh[i], wd)
			}
			t.ok(len(g) == d && len(dh) == d, "lengths %d %d", len(g), len(dh))
			t.ok(mat.Equal(C, C0) && mat.Equal(D, D0), "arguments changed")
		})
	})
}
