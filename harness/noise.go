package main

import (
	"math"

	"github.com/davidkleiven/gopf/pf"
)

func init() { props["C22"] = c22 }

// gaussian checks mean, variance and fourth moment of independent draws loosely
func (t *T) gaussian(x []float64, variance float64, what string) {
	n := float64(len(x))
	m, s, q := 0.0, 0.0, 0.0
	for _, v := range x {
		m += v / n
	}
	for _, v := range x {
		s += v * v / n
		q += v * v * v * v / n
	}
	if variance == 0 {
		t.ok(s == 0, "%s: noise of strength zero is not zero", what)
		return
	}
	t.ok(math.Abs(m) < 6*math.Sqrt(variance/n), "%s: mean %v of %d numbers of variance %v", what, m, len(x), variance)
	t.ok(math.Abs(s/variance-1) < 8*math.Sqrt(2/n), "%s: variance %v, want %v", what, s, variance)
	t.ok(math.Abs(q/(variance*variance)-3) < 8*math.Sqrt(96/n), "%s: fourth moment %v, want %v", what, q/(variance*variance), 3.0)
}

func c22(t *T) {
	t.part("white noise", func() {
		t.loop(6, func() {
			w := pf.WhiteNoise{Strength: t.pos() * 3}
			t.at("white noise of strength %v", w.Strength)
			x := make([]float64, 20000)
			for i := range x {
				c := w.Generate(i%7, nil)
				x[i] = real(c)
				t.ok(imag(c) == 0, "imaginary part %v", imag(c))
			}
			t.gaussian(x, 2*w.Strength, "white noise")
		})
	})
	t.part("conservative noise", func() {
		dims := [][]int{{1, 1}, {4, 4}, {3, 5}, {2, 6}, {2, 2, 2}, {3, 2, 4}, {4, 1, 3}}
		k := 0
		t.loop(40, func() {
			k++
			s := t.space(7, 4)
			if k <= len(dims) {
				s = spaceOf(dims[k-1])
			}
			dim := len(s.d)
			cn := pf.NewConservativeNoise(t.pos(), dim)
			on := pf.NewConservativeNoise(t.pos(), dim)
			t.at("conservative noise dims=%v strength=%v", s.d, cn.Strength)
			fs := cn.RequiredDerivedFields(s.n)
			if !t.ok(len(fs) == dim, "%d derived fields, want %d", len(fs), dim) {
				return
			}
			bricks := map[string]pf.Brick{}
			t.ok(!cn.CurrentFieldsAreRegistered(bricks), "registered without fields")
			js := make([][]complex128, dim)
			names := map[string]bool{}
			for a := range fs {
				t.ok(fs[a].Name == cn.GetCurrentName(a), "name %s of current %d, want %s", fs[a].Name, a, cn.GetCurrentName(a))
				names[fs[a].Name] = true
				names[on.GetCurrentName(a)] = true
				t.ok(len(fs[a].Data) == s.n, "size %d of current %d", len(fs[a].Data), a)
				fs[a].Update()
				js[a] = cp(fs[a].Data)
				for i := range js[a] {
					t.ok(imag(js[a][i]) == 0, "current %v is not real", js[a][i])
				}
				if a < dim-1 {
					t.ok(!cn.CurrentFieldsAreRegistered(bricks), "registered with %d of %d fields", a, dim)
				}
				tr := s.F(js[a])
				copy(fs[a].Data, tr)
				b := fs[a]
				bricks[b.Name] = &b
			}
			t.ok(on.UniquePrefix == cn.UniquePrefix || len(names) == 2*dim, "names of currents are not unique")
			t.ok(cn.CurrentFieldsAreRegistered(bricks), "all fields there, but not registered")
			term := cn.Construct(bricks)
			f := t.cs(s.n)
			term(s.ft.Freq, t.pos(), f)
			w := make([]complex128, s.n)
			for a := range js {
				tr := s.F(js[a])
				for i := range w {
					w[i] += complex(0, 2*math.Sin(math.Pi*s.nyq(i, a))) * tr[i]
				}
			}
			t.same(f, w, "noise")
			t.ok(f[0] == 0, "mean of the noise %v", f[0])
			for i, x := range s.I(f) {
				t.ok(math.Abs(imag(x)) < 1e-9, "noise at node %d is not real: %v", i, x)
			}
			cn.OnStepFinished(0.1, bricks)
		})
		t.loop(4, func() {
			n := 8000
			cn := pf.ConservativeNoise{UniquePrefix: uint32(t.n(0, 1000)), Strength: t.pos() * 2, Dim: t.n(2, 3)}
			t.at("currents of strength %v in %d dimensions", cn.Strength, cn.Dim)
			fs := cn.RequiredDerivedFields(n)
			var all [][]float64
			for rep := 0; rep < 2; rep++ {
				for a := range fs {
					fs[a].Update()
					x := make([]float64, n)
					for i := range x {
						x[i] = real(fs[a].Data[i])
					}
					t.gaussian(x, 2*cn.Strength, "current")
					all = append(all, x)
				}
			}
			for i := range all {
				for j := 0; j < i; j++ {
					c := 0.0
					for k := range all[i] {
						c += all[i][k] * all[j][k] / float64(n)
					}
					t.ok(math.Abs(c) < 8*2*cn.Strength/math.Sqrt(float64(n)), "currents %d and %d are correlated: %v", i, j, c)
				}
				c := 0.0
				for k := 1; k < n; k++ {
					c += all[i][k] * all[i][k-1] / float64(n)
				}
				t.ok(math.Abs(c) < 8*2*cn.Strength/math.Sqrt(float64(n)), "neighbours of current %d are correlated: %v", i, c)
			}
		})
	})
	t.part("volume conservation", func() {
		t.loop(40, func() {
			n := t.n(1, 20)
			dt := t.pos()
			t.at("volume conservation with %d nodes, dt=%v", n, dt)
			vc := pf.NewVolumeConservingLP("y", "ind", dt, n)
			y, ind := t.cs(n), t.cs(n)
			if math.Abs(real(ind[0])) < 0.1 {
				ind[0] = 1
			}
			bricks := map[string]pf.Brick{"ind": arrBrick(ind), "y": arrBrick(y)}
			term := vc.Construct(bricks)
			m, last := 0.0, 0.0
			for step := 0; step < 5; step++ {
				f := t.cs(n)
				term(func(i int) []float64 { return []float64{0, 0} }, 0.3, f)
				w := make([]complex128, n)
				for i := range w {
					w[i] = complex(m, 0) * ind[i]
				}
				t.same(f, w, "term")
				sum := 0.0
				for i := range y {
					y[i] = t.c()
					sum += real(y[i])
				}
				for i := range ind {
					ind[i] = t.c()
				}
				if math.Abs(real(ind[0])) < 0.1 {
					ind[0] = complex(0.7, 1)
				}
				vc.OnStepFinished(0.2, bricks)
				if step > 0 {
					m -= (sum - last) / (dt * real(ind[0]))
				}
				last = sum
				t.ok(near(vc.Multiplier, m), "multiplier %v after %d steps, want %v", vc.Multiplier, step+1, m)
				m = vc.Multiplier
			}
		})
	})
}
