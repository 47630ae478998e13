package main

import (
	"math"

	"github.com/davidkleiven/gopf/pfc"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["C29"] = c29
}

func modWeight(name string, h []float64, Q *mat.Dense) float64 {
	d, _ := Q.Dims()
	c := func(s, t, u, v int) float64 { return h[t] * Q.At(s, u) * h[v] }
	r := 0.0
	switch name {
	case "bulk", "area":
		for i := 0; i < d; i++ {
			for j := 0; j < d; j++ {
				r += c(i, i, j, j)
			}
		}
		return r / float64(d*d)
	case "shear":
		for i := 0; i < d; i++ {
			r += c(i, i, i, i)
			for j := i + 1; j < d; j++ {
				r += 3*c(i, j, i, j) - c(i, i, j, j)
			}
		}
		return r / 15
	}
	return (c(0, 0, 0, 0) + c(1, 1, 1, 1) - 2*c(0, 0, 1, 1) + 4*c(1, 0, 1, 0)) / 8
}

func c29(t *T) {
	fn := map[string]func(pfc.Miller, *mat.Dense) float64{"bulk": pfc.BulkModWeight, "shear": pfc.ShearModWeight, "area": pfc.AreaModulusWeight, "xyshear": pfc.XYPlaneShearWeight}
	names := map[int][]string{2: {"area", "xyshear"}, 3: {"bulk", "shear"}}
	t.part("weights", func() {
		t.loop(300, func() {
			d := t.n(2, 3)
			C := mat.NewDense(d, d, t.fs(d*d))
			Q := mat.NewDense(d, d, nil)
			Q.Mul(C.T(), C)
			m := pfc.Miller{H: t.n(-4, 4), K: t.n(-4, 4), L: t.n(-4, 4)}
			h := []float64{float64(m.H), float64(m.K), float64(m.L)}
			for _, n := range names[d] {
				t.at("%s of %v with Q=%v", n, m, Q.RawMatrix().Data)
				t.ok(near(fn[n](m, Q), modWeight(n, h, Q)), "%s of %v: %v, want %v", n, m, fn[n](m, Q), modWeight(n, h, Q))
			}
		})
	})
	pool := []pfc.Miller{{H: 1}, {H: 1, K: 1}, {H: 1, K: 1, L: 1}, {H: 2}, {H: 2, K: 1, L: 0}, {H: 1, K: -2, L: 0}}
	t.part("match", func() {
		t.loop(100, func() {
			d := t.n(2, 3)
			m := t.n(1, 3)
			o := t.n(0, 5)
			ms := []pfc.Miller{}
			for i := 0; i < m; i++ {
				q := pool[(o+i)%len(pool)]
				if d == 2 {
					q.L = 0
				}
				ms = append(ms, q)
			}
			C := mat.NewDense(d, d, nil)
			for i := 0; i < d; i++ {
				for j := 0; j < d; j++ {
					x := 0.2 * t.f()
					if i == j {
						x++
					}
					C.Set(i, j, x)
				}
			}
			Q := mat.NewDense(d, d, nil)
			Q.Mul(C.T(), C)
			s := pfc.ModeSolver{Miller: ms, ReciprocalCell: pfc.ReciprocalCell{CellVec: C}}
			target := map[string]float64{}
			ns := names[d]
			if t.n(0, 1) == 0 {
				ns = ns[t.n(0, 1):][:1]
			}
			for _, n := range ns {
				target[n] = 0.5 + t.pos()
			}
			t.at("modes %v in %dD, target %v, cell %v", ms, d, target, C.RawMatrix().Data)
			w := func(n string, i int) float64 {
				return modWeight(n, []float64{float64(ms[i].H), float64(ms[i].K), float64(ms[i].L)}, Q)
			}
			r := s.MatchElasticProp(target)
			t.ok(len(r.Amp) == m && len(r.Fit) == len(target), "%d factors, %d fitted values", len(r.Amp), len(r.Fit))
			pen := 0.0
			if len(target) < m {
				pen = 1e-6
			}
			obj := func(x []float64) float64 {
				v := 0.0
				for n, y := range target {
					for i := range x {
						y -= x[i] * x[i] * w(n, i)
					}
					v += y * y
				}
				for i := range x {
					v += pen * math.Pow(x[i], 4)
				}
				return v
			}
			for n := range target {
				f := 0.0
				for i := range r.Amp {
					f += r.Amp[i] * r.Amp[i] * w(n, i)
				}
				t.ok(math.Abs(f-r.Fit[n]) < 1e-8*(1+math.Abs(f)), "fitted %s %v, want %v", n, r.Fit[n], f)
			}
			start := make([]float64, m)
			for i := range start {
				start[i] = 1
			}
			if m > 1 {
				start[1] = 0.01
			}
			t.ok(obj(r.Amp) <= obj(start)*(1+1e-9), "objective %v at %v is above that of the start %v", obj(r.Amp), r.Amp, obj(start))
			amp := t.fs(m)
			a0 := append([]float64{}, amp...)
			p := s.PeakWidths(target, amp)
			t.ok(len(p.Widths) == m, "%d widths", len(p.Widths))
			// the optimiser iterates over a map, so the factors are recovered from the widths
			x := make([]float64, m)
			for i := range x {
				ne := 0
				for g := range orbitOf(ms[i].H, ms[i].K, ms[i].L) {
					if d == 3 || g.L == 0 {
						ne++
					}
				}
				t.ok(p.Widths[i] >= 0, "width %v", p.Widths[i])
				x[i] = math.Sqrt(0.5*float64(ne)) * math.Abs(amp[i]) / p.Widths[i]
				t.ok(amp[i] == a0[i], "amplitudes changed")
			}
			for n := range target {
				f := 0.0
				for i := range x {
					f += x[i] * x[i] * w(n, i)
				}
				t.ok(math.Abs(f-p.Fit[n]) < 1e-6*(1+math.Abs(f)), "widths %v of the amplitudes %v give %s %v, fitted %v", p.Widths, amp, n, f, p.Fit[n])
			}
		})
	})
}
