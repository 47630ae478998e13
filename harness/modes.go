package main

import (
	"math"

	"github.com/davidkleiven/gopf/pfc"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
)

func init() {
	props["C28"] = c28
}

// waves is the density of one mode from its orbit
func waves(m pfc.Miller, x []float64) float64 {
	r := 0.0
	for g := range orbitOf(m.H, m.K, m.L) {
		if len(x) == 2 && g.L != 0 {
			continue
		}
		a := float64(g.H)*x[0] + float64(g.K)*x[1]
		if len(x) == 3 {
			a += float64(g.L) * x[2]
		}
		r += math.Cos(2 * math.Pi * a)
	}
	return r
}

// mean of the product of powers over the cell: exact for these trigonometric polynomials on a fine enough grid
func cellMean(ms []pfc.Miller, pw []int, d int) float64 {
	top := 0
	for i, m := range ms {
		for _, c := range []int{m.H, m.K, m.L} {
			if c < 0 {
				c = -c
			}
			if c*pw[i] > 0 {
				top += c * pw[i]
			}
		}
	}
	n := top + 1
	nz := n
	if d == 2 {
		nz = 1
	}
	s := 0.0
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			for k := 0; k < nz; k++ {
				x := []float64{float64(i) / float64(n), float64(j) / float64(n)}
				if d == 3 {
					x = append(x, float64(k)/float64(n))
				}
				p := 1.0
				for a, m := range ms {
					if pw[a] == 0 {
						continue
					}
					w := waves(m, x)
					for q := 0; q < pw[a]; q++ {
						p *= w
					}
				}
				s += p
			}
		}
	}
	return s / float64(n*n*nz)
}

func compositions(m, p int) [][]int {
	if m == 1 {
		return [][]int{{p}}
	}
	r := [][]int{}
	for a := 0; a <= p; a++ {
		for _, t := range compositions(m-1, p-a) {
			r = append(r, append([]int{a}, t...))
		}
	}
	return r
}

func multinom(t []int) float64 {
	f := func(n int) float64 {
		r := 1.0
		for i := 2; i <= n; i++ {
			r *= float64(i)
		}
		return r
	}
	s, r := 0, 1.0
	for _, x := range t {
		s += x
		r *= f(x)
	}
	return f(s) / r
}

type spyExplorer struct {
	starts [][]float64
	k      int
	res    []*optimize.Result
}

func (s *spyExplorer) Next() []float64 {
	if s.k >= len(s.starts) {
		return nil
	}
	s.k++
	return append([]float64{}, s.starts[s.k-1]...)
}

func (s *spyExplorer) OnMinimizationFinished(r *optimize.Result) { s.res = append(s.res, r) }

func c28(t *T) {
	pool2 := []pfc.Miller{{H: 1}, {H: 1, K: 1}, {H: 2}, {H: 2, K: 1}, {H: 0, K: 0, L: 1}, {H: 1, K: -1}}
	pool3 := []pfc.Miller{{H: 1}, {H: 1, K: 1}, {H: 1, K: 1, L: 1}, {H: 2}}
	pick := func(d, m int) []pfc.Miller {
		p := pool2
		if d == 3 {
			p = pool3
		}
		o := t.n(0, len(p)-1)
		r := []pfc.Miller{}
		for i := 0; i < m; i++ {
			r = append(r, p[(o+i)%len(p)])
		}
		return r
	}
	t.part("density", func() {
		t.loop(200, func() {
			d := t.n(2, 3)
			m := []pfc.Miller{{H: t.n(-3, 3), K: t.n(-3, 3), L: t.n(-3, 3)}, {H: 1, K: 1, L: 0}}
			x := t.fs(d)
			x0 := append([]float64{}, x...)
			t.at("modes %v at %v", m, x)
			s := pfc.ModeSolver{Miller: m}
			for i := range m {
				t.ok(near(s.ModeDensity(i, x), waves(m[i], x)), "density of mode %v at %v: %v, want %v", m[i], x, s.ModeDensity(i, x), waves(m[i], x))
			}
			for i := range x {
				t.ok(x[i] == x0[i], "position changed")
			}
		})
	})
	t.part("quadrature", func() {
		t.loop(100, func() {
			n := t.n(1, 6)
			// exact for polynomials of degree 2n-1 per coordinate
			p := []int{t.n(0, 2*n-1), t.n(0, 2*n-1), t.n(0, 2*n-1)}
			c := t.f()
			t.at("order %d, powers %v", n, p)
			f := func(x float64, k int) float64 { return math.Pow(x, float64(k)) }
			w2 := c / float64((p[0]+1)*(p[1]+1))
			g2 := pfc.QuadSquare(func(x, y float64) float64 { return c * f(x, p[0]) * f(y, p[1]) }, n)
			t.ok(near(g2, w2), "square: %v, want %v", g2, w2)
			g3 := pfc.QuadCube(func(x, y, z float64) float64 { return c * f(x, p[0]) * f(y, p[1]) * f(z, p[2]) }, n)
			t.ok(near(g3, w2/float64(p[2]+1)), "cube: %v, want %v", g3, w2/float64(p[2]+1))
		})
	})
	cell := func(d int) pfc.ReciprocalCell {
		return pfc.ReciprocalCell{CellVec: mat.NewDense(d, d, t.fs(d*d))}
	}
	t.part("integral", func() {
		t.loop(40, func() {
			d := t.n(2, 3)
			m := t.n(1, 3)
			ms := pick(d, m)
			pw := make([]int, m)
			for i := 0; i < 3; i++ {
				pw[t.n(0, m-1)]++
			}
			if t.n(0, 2) == 0 {
				pw[t.n(0, m-1)]++
			}
			order := 28
			t.at("modes %v powers %v in %dD", ms, pw, d)
			s := pfc.ModeSolver{Miller: ms, ReciprocalCell: cell(d)}
			got, want := s.UnitcellIntegral(pw, order), cellMean(ms, pw, d)
			t.ok(math.Abs(got-want) < 1e-6*(1+math.Abs(want)), "integral of %v^%v in %dD: %v, want %v", ms, pw, d, got, want)
		})
	})
	t.part("energy", func() {
		solve := func(d, m int) {
			ms := pick(d, m)
			if d == 2 {
				for i := range ms {
					if ms[i].L != 0 {
						ms[i] = pfc.Miller{H: 1}
					}
				}
			}
			mix := pfc.IdealMix{C3: 1 + 3*t.pos(), C4: 0.5 + t.pos()}
			t.at("modes %v in %dD, C3=%v C4=%v", ms, d, mix.C3, mix.C4)
			s := pfc.ModeSolver{IdealMix: mix, Miller: ms, ReciprocalCell: cell(d)}
			coef, tup := []float64{}, [][]int{}
			top := 0.0
			for p := 3; p <= 4; p++ {
				for _, c := range compositions(m, p) {
					v := multinom(c) * cellMean(ms, c, d) * map[int]float64{3: -mix.C3 / 6, 4: mix.C4 / 12}[p]
					coef, tup = append(coef, v), append(tup, c)
					top = math.Max(top, math.Abs(v))
				}
			}
			energy := func(a []float64) (e float64, g []float64) {
				g = make([]float64, m)
				for i, c := range coef {
					if math.Abs(c) < 1e-4*top {
						continue
					}
					p := c
					for j := range a {
						p *= math.Pow(a[j], float64(tup[i][j]))
					}
					e += p
					for j := range a {
						if tup[i][j] == 0 {
							continue
						}
						q := c * float64(tup[i][j])
						for l := range a {
							k := tup[i][l]
							if l == j {
								k--
							}
							q *= math.Pow(a[l], float64(k))
						}
						g[j] += q
					}
				}
				return
			}
			starts := [][]float64{}
			for k := 0; k < 3; k++ {
				x := t.fs(m)
				starts = append(starts, x)
			}
			spy := &spyExplorer{starts: starts}
			r := s.Solve(spy)
			t.ok(len(spy.res) == len(starts), "%d of %d guesses minimised", len(spy.res), len(starts))
			e, g := energy(r.Amplitudes)
			if r.Energy != 0 {
				t.ok(math.Abs(e-r.Energy) < 1e-6*(1+math.Abs(e)), "energy %v of the amplitudes %v, want %v", r.Energy, r.Amplitudes, e)
				for j := range g {
					t.ok(math.Abs(g[j]) < 1e-3*(1+math.Abs(e)), "not stationary: gradient %v at %v", g, r.Amplitudes)
				}
			}
			low := 0.0
			for _, x := range spy.res {
				low = math.Min(low, x.Location.F)
				e, _ := energy(x.Location.X)
				t.ok(math.Abs(e-x.Location.F) < 1e-6*(1+math.Abs(e)), "energy %v of %v, want %v", x.Location.F, x.Location.X, e)
			}
			t.ok(near(low, r.Energy), "lowest energy %v, reported %v", low, r.Energy)
			r2 := s.Solve(nil)
			e2, _ := energy(r2.Amplitudes)
			t.ok(math.Abs(e2-r2.Energy) < 1e-6*(1+math.Abs(e2)), "default guesses: energy %v of the amplitudes %v, want %v", r2.Energy, r2.Amplitudes, e2)
		}
		t.loop(12, func() { solve(2, t.n(1, 2)) })
		t.loop(2, func() { solve(3, 1) })
	})
	t.part("explorers", func() {
		t.loop(30, func() {
			m := t.n(1, 5)
			x := t.fs(m)
			for i := range x {
				x[i] = math.Abs(x[i]) + 0.1
			}
			t.at("start %v", x)
			o := pfc.HyperOctantExplorer{X0: append([]float64{}, x...)}
			seen := map[int]bool{}
			n := 0
			for p := o.Next(); p != nil && n < 1<<uint(m)+2; p = o.Next() {
				n++
				key := 0
				for i := range p {
					t.ok(math.Abs(p[i]) == x[i], "guess %v of %v", p, x)
					if p[i] > 0 {
						key |= 1 << uint(i)
					}
				}
				t.ok(!seen[key], "guess %v twice", p)
				seen[key] = true
			}
			t.ok(n == 1<<uint(m), "%d guesses for %d coordinates", n, m)
			q := pfc.SinglePointExplorer{X0: x}
			p := q.Next()
			t.ok(len(p) == m && p[0] == x[0] && q.Next() == nil && q.Next() == nil, "single point")
			im := pfc.IdealMix{C3: t.f(), C4: t.f()}
			n1 := t.f()
			t.ok(near(im.Eval(n1), n1*n1/2-im.C3*n1*n1*n1/6+im.C4*n1*n1*n1*n1/12), "ideal mixing energy at %v: %v", n1, im.Eval(n1))
			t.ok(near(im.Deriv(n1), n1-im.C3*n1*n1/2+im.C4*n1*n1*n1/3), "derivative at %v: %v", n1, im.Deriv(n1))
		})
	})
}
