package main

import (
	"math"
	"math/cmplx"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["C16"] = c16
	props["C17"] = c17
}

// space evaluates spectral expressions directly
type space struct {
	d  []int
	n  int
	ft pf.FourierTransform
}

func (t *T) space(m2, m3 int) space {
	d := t.rdims(m2, m3)
	return space{d, prod(d), pfutil.NewFFTW(cpInts(d))}
}

func (s space) F(x []complex128) []complex128 { return dft(s.d, x, -1) }
func (s space) I(x []complex128) []complex128 {
	r := dft(s.d, x, 1)
	for i := range r {
		r[i] /= complex(float64(s.n), 0)
	}
	return r
}
func (s space) freq(i int) []float64 { return freqOf(s.d, coordsOf(s.d, i)) }
func (s space) nyq(i, a int) float64 {
	if f := s.freq(i)[a]; f != 0.5 {
		return f
	}
	return 0
}
func (s space) k2(i int) float64 {
	r := 0.0
	for _, f := range s.freq(i) {
		r += 4 * math.Pi * math.Pi * f * f
	}
	return r
}

// mulF multiplies a real-space array with a function of the frequency
func (s space) mulF(x []complex128, f func(i int) complex128) []complex128 {
	r := s.F(x)
	for i := range r {
		r[i] *= f(i)
	}
	return s.I(r)
}
func (s space) grad(x []complex128, a int, keep bool) []complex128 {
	return s.mulF(x, func(i int) complex128 {
		f := s.nyq(i, a)
		if keep {
			f = s.freq(i)[a]
		}
		return complex(0, 2*math.Pi*f)
	})
}
func cp(x []complex128) []complex128 { return append([]complex128{}, x...) }

func (t *T) reals(n int) []complex128 {
	r := make([]complex128, n)
	for i := range r {
		r[i] = complex(t.f(), 0)
	}
	return r
}

func (t *T) same(got, want []complex128, what string) {
	if !t.ok(len(got) == len(want), "%s: length %d, want %d", what, len(got), len(want)) {
		return
	}
	m := 0.0
	for _, w := range want {
		m = math.Max(m, cmplx.Abs(w))
	}
	for i := range got {
		if !t.ok(cmplx.Abs(got[i]-want[i]) <= 1e-9*(1+m), "%s at %d: %v want %v", what, i, got[i], want[i]) {
			return
		}
	}
}

// fieldBrick is a brick with its own data
type arrBrick []complex128

func (a arrBrick) Get(i int) complex128 { return a[i] }

// transformed synchronises the derived fields and transforms everything
func transformed(m *pf.Model, ft pf.FourierTransform) {
	m.SyncDerivedFields()
	for i := range m.Fields {
		ft.FFT(m.Fields[i].Data)
	}
	for i := range m.DerivedFields {
		ft.FFT(m.DerivedFields[i].Data)
	}
}

func c16(t *T) {
	dims := [][]int{{1, 1}, {2, 3}, {4, 4}, {3, 5}, {6, 2}, {2, 2, 2}, {3, 2, 4}, {1, 3, 2}}
	k := 0
	sp := func() space {
		k++
		if k <= len(dims) {
			d := dims[k-1]
			return space{d, prod(d), pfutil.NewFFTW(cpInts(d))}
		}
		return t.space(7, 4)
	}
	junk := func(n int) []complex128 { return t.cs(n) }
	t.part("laplacian", func() {
		k = 0
		t.loop(30, func() {
			s := sp()
			p := t.n(0, 5)
			t.at("dims=%v power=%d", s.d, p)
			y := t.cs(s.n)
			w := cp(y)
			for i := range w {
				for j := 0; j < p; j++ {
					w[i] *= complex(-s.k2(i), 0)
				}
			}
			r := pf.LaplacianN{Power: p}.Eval(s.ft.Freq, y)
			t.same(y, w, "laplacian in place")
			t.same(r, w, "laplacian")
		})
	})
	t.part("gradient", func() {
		k = 0
		t.loop(30, func() {
			s := sp()
			for a := range s.d {
				for _, keep := range []bool{false, true} {
					t.at("dims=%v axis=%d keep=%v", s.d, a, keep)
					y := t.cs(s.n)
					in := cp(y)
					out := junk(s.n)
					g := pf.GradientCalculator{FT: s.ft, Comp: a, KeepNyquist: keep}
					g.Calculate(y, out)
					w := s.grad(in, a, keep)
					t.same(out, w, "gradient")
					t.same(y, in, "input of the gradient")
					d := g.ToDerivedField("n", s.n, arrBrick(in))
					d.Calc(d.Data)
					t.same(d.Data, w, "gradient as derived field")
					t.ok(d.Name == "n", "name %s", d.Name)
				}
			}
		})
	})
	t.part("hessian", func() {
		k = 0
		t.loop(30, func() {
			s := sp()
			K := t.fs(len(s.d) * len(s.d))
			t.at("dims=%v K=%v", s.d, K)
			th := pf.TensorialHessian{Field: "y", K: K}
			out := junk(s.n)
			th.Construct(nil)(s.ft.Freq, 0.3, out)
			w := make([]complex128, s.n)
			for i := range w {
				f := s.freq(i)
				for a := range f {
					for b := range f {
						w[i] -= complex(4*math.Pi*math.Pi*f[a]*f[b]*K[a*len(f)+b], 0)
					}
				}
			}
			t.same(out, w, "hessian")
		})
	})
	t.part("weighted laplacian and squared gradient", func() {
		k = 0
		t.loop(30, func() {
			s := sp()
			t.at("dims=%v", s.d)
			y, m := t.reals(s.n), t.reals(s.n)
			b := map[string]pf.Brick{"y": arrBrick(s.F(y)), "m": arrBrick(s.F(m))}
			wl := pf.WeightedLaplacian{Field: "y", PreFactor: "m", FT: s.ft}
			out := junk(s.n)
			wl.Construct(b)(s.ft.Freq, 0.3, out)
			w := s.mulF(y, func(i int) complex128 { return complex(-s.k2(i), 0) })
			for i := range w {
				w[i] *= m[i]
			}
			t.same(out, s.F(w), "weighted laplacian")

			sq := pf.NewSquareGradient("y", cpInts(s.d))
			if t.n(0, 1) == 0 {
				sq.Factor = t.f()
			}
			out = junk(s.n)
			sq.Construct(b)(s.ft.Freq, 0.3, out)
			w = make([]complex128, s.n)
			for a := range s.d {
				for i, g := range s.grad(y, a, false) {
					w[i] += g * g * complex(sq.Factor, 0)
				}
			}
			t.same(out, s.F(w), "squared gradient")
			t.same(b["y"].(arrBrick), s.F(y), "brick after evaluation")
		})
	})
	t.part("advection", func() {
		k = 0
		t.loop(30, func() {
			s := sp()
			t.at("dims=%v", s.d)
			m := pf.NewModel()
			names := []string{"conc", "vx", "vy", "vz"}[:1+len(s.d)]
			for _, f := range names {
				m.AddField(pf.NewField(f, s.n, nil))
			}
			ad := pf.Advection{Field: "conc", VelocityFields: names[1:]}
			ad.PrepareModel(s.n, &m, s.ft)
			for rep := 0; rep < 2; rep++ {
				y := map[string][]complex128{}
				for i, f := range names {
					y[f] = t.reals(s.n)
					copy(m.Fields[i].Data, y[f])
				}
				transformed(&m, s.ft)
				out := junk(s.n)
				ad.Construct(m.Bricks)(s.ft.Freq, 0.2, out)
				w := make([]complex128, s.n)
				for a := range s.d {
					for i, g := range s.grad(y["conc"], a, false) {
						w[i] -= g * y[names[a+1]][i]
					}
				}
				t.same(out, s.F(w), "advection")
			}
		})
	})
	t.part("divergence of a weighted gradient", func() {
		k = 0
		t.loop(30, func() {
			s := sp()
			t.at("dims=%v", s.d)
			m := pf.NewModel()
			m.AddField(pf.NewField("conc", s.n, nil))
			m.AddField(pf.NewField("eta", s.n, nil))
			a, b := t.f(), t.f()
			F := func(i int, br map[string]pf.Brick) complex128 {
				return br["conc"].Get(i)*br["conc"].Get(i)*complex(a, 0) + br["eta"].Get(i)*complex(b, 0)
			}
			dg := pf.DivGrad{Field: "eta", F: F}
			dg.PrepareModel(s.n, &m, s.ft)
			for rep := 0; rep < 2; rep++ {
				c, e := t.reals(s.n), t.reals(s.n)
				copy(m.Fields[0].Data, c)
				copy(m.Fields[1].Data, e)
				transformed(&m, s.ft)
				out := junk(s.n)
				dg.Construct(m.Bricks)(s.ft.Freq, 0.2, out)
				w := make([]complex128, s.n)
				for ax := range s.d {
					g := s.grad(e, ax, false)
					for i := range g {
						g[i] *= c[i]*c[i]*complex(a, 0) + e[i]*complex(b, 0)
					}
					for i, x := range s.F(g) {
						w[i] += x * complex(0, 2*math.Pi*s.freq(i)[ax])
					}
				}
				t.same(out, w, "divergence")
			}
		})
	})
}

// ---------------------------------------------------------------- C17

func (t *T) peaks() []pfc.Peak {
	p := make([]pfc.Peak, t.n(0, 3))
	for i := range p {
		p[i] = pfc.Peak{PlaneDensity: t.pos(), Location: t.pos() * 3, Width: t.pos() + 0.1, NumPlanes: t.n(1, 8)}
	}
	return p
}

func corr(T float64, ps []pfc.Peak, k float64) float64 {
	r := 0.0
	for _, p := range ps {
		z := (k - p.Location) / p.Width
		r = math.Max(r, math.Exp(-T*T*k*k/(2*p.PlaneDensity*float64(p.NumPlanes))-z*z/2))
	}
	return r
}

func c17(t *T) {
	t.part("pair correlation", func() {
		t.loop(40, func() {
			s := t.space(6, 4)
			T, P := t.f(), t.f()
			ps := t.peaks()
			lap := t.n(0, 1) == 1
			t.at("dims=%v T=%v prefactor=%v laplacian=%v peaks=%+v", s.d, T, P, lap, ps)
			cf := pfc.ReciprocalSpacePairCorrelation{EffTemp: T, Peaks: ps}
			for i := 0; i < 5; i++ {
				k := t.f() * 4
				t.ok(near(cf.Eval(k), corr(T, ps, k)), "correlation at %v: %v want %v", k, cf.Eval(k), corr(T, ps, k))
			}
			C := func(i int) float64 { return corr(T, ps, math.Sqrt(s.k2(i))) }
			pct := pf.PairCorrlationTerm{PairCorrFunc: cf, Field: "y", Prefactor: P, Laplacian: lap}
			ex := pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: pct}
			y := t.reals(s.n)
			fy := s.F(y)
			b := map[string]pf.Brick{"y": arrBrick(fy), "other": arrBrick(t.cs(s.n))}
			w, we := make([]complex128, s.n), make([]complex128, s.n)
			for i := range w {
				w[i] = complex(-P*C(i), 0)
				if lap {
					w[i] *= complex(-s.k2(i), 0)
				}
				we[i] = w[i] * fy[i]
			}
			out := t.cs(s.n)
			pct.Construct(b)(s.ft.Freq, 0.1, out)
			t.same(out, w, "implicit term")
			out = t.cs(s.n)
			ex.Construct(b)(s.ft.Freq, 0.1, out)
			t.same(out, we, "explicit term")
			conv := s.mulF(y, func(i int) complex128 { return complex(P*C(i), 0) })
			e := 0.0
			for i := range y {
				e -= 0.5 * real(y[i]*conv[i])
			}
			got := pct.GetEnergy(map[string]pf.Brick{"y": arrBrick(cp(y))}, s.ft, cpInts(s.d))
			t.ok(near(got, e), "energy %v want %v", got, e)
		})
	})
	t.part("ideal mixture", func() {
		t.loop(40, func() {
			s := t.space(5, 3)
			im := pfc.IdealMix{C3: t.f(), C4: t.f()}
			P := t.f()
			lap := t.n(0, 1) == 1
			t.at("dims=%v C3=%v C4=%v prefactor=%v laplacian=%v", s.d, im.C3, im.C4, P, lap)
			E := func(n float64) float64 { return n*n/2 - im.C3*n*n*n/6 + im.C4*n*n*n*n/12 }
			D := func(n float64) float64 { return n - im.C3*n*n/2 + im.C4*n*n*n/3 }
			idt := pf.IdealMixtureTerm{IdealMix: im, Field: "y", Prefactor: P, Laplacian: lap}
			y := t.reals(s.n)
			m := pf.NewModel()
			m.AddField(pf.NewField("y", s.n, cp(y)))
			e := 0.0
			for i := range y {
				n := real(y[i])
				t.ok(near(im.Eval(n), E(n)) && near(im.Deriv(n), D(n)), "ideal mixture at %v: %v, %v want %v, %v", n, im.Eval(n), im.Deriv(n), E(n), D(n))
				t.ok(cnear(idt.Eval(i, m.Bricks), complex(P*D(n), 0)), "derivative at %v: %v want %v", n, idt.Eval(i, m.Bricks), P*D(n))
				e += P * E(n)
			}
			t.ok(near(idt.GetEnergy(m.Bricks, s.n), e), "energy %v want %v", idt.GetEnergy(m.Bricks, s.n), e)
			m.RegisterDerivedField(idt.DerivedField(s.n, m.Bricks))
			transformed(&m, s.ft)
			lin, non := t.cs(s.n), t.cs(s.n)
			idt.ConstructLinear(m.Bricks)(s.ft.Freq, 0.1, lin)
			idt.ConstructNonLinear(m.Bricks)(s.ft.Freq, 0.1, non)
			w, fy := make([]complex128, s.n), s.F(y)
			for i := range w {
				w[i] = complex(P*D(real(y[i])), 0)
			}
			w = s.F(w)
			for i := range w {
				if lap {
					w[i] *= complex(-s.k2(i), 0)
				}
				non[i] += lin[i] * fy[i]
			}
			t.same(non, w, "linear plus non-linear part")
		})
	})
	t.part("homogeneous elasticity", func() {
		t.loop(25, func() {
			s := t.space(5, 3)
			C := elasticity.CubicMaterial(2+t.pos(), t.pos(), 0.5+t.pos())
			mis := mat.NewDense(3, 3, nil)
			for i := 0; i < 3; i++ {
				for j := i; j < 3; j++ {
					e := t.f() * 0.2
					mis.Set(i, j, e)
					mis.Set(j, i, e)
				}
			}
			t.at("dims=%v C=%v misfit=%v", s.d, C, mis.RawMatrix().Data)
			h := pf.NewHomogeneousModolus("y", cpInts(s.d), C, mis)
			y := t.reals(s.n)
			h.OnStepFinished(0.1, map[string]pf.Brick{"y": arrBrick(y)})
			out := t.cs(s.n)
			h.Construct(nil)(s.ft.Freq, 0.1, out)
			H, dH := make([]complex128, s.n), make([]complex128, s.n)
			for i := range y {
				x := y[i]
				t.ok(near(pf.Indicator(real(x)), real(3*x*x-2*x*x*x)) && near(pf.IndicatorDeriv(real(x)), real(6*x-6*x*x)), "indicator at %v", x)
				H[i], dH[i] = 3*x*x-2*x*x*x, 6*x-6*x*x
			}
			FH := s.F(H)
			f3 := func(i int) []float64 { return append(append([]float64{}, s.freq(i)...), 0)[:3] }
			ef := elasticity.NewEffectiveForceFromMisfit(C, mis)
			force := make([][]complex128, s.n)
			for i := range force {
				force[i] = make([]complex128, 3)
			}
			for c := 0; c < len(s.d); c++ {
				for i, b := range ef.Get(c, f3, FH) {
					force[i][c] = b
				}
			}
			u := elasticity.Displacements(force, f3, &C)
			w := make([]complex128, s.n)
			e0 := elasticity.EnergyDensity(&C, mis)
			A := C.ContractLast(mis)
			for a := range s.d {
				for b := range s.d {
					for i, x := range s.I(elasticity.Strain(u, f3, a, b)) {
						w[i] += complex(A.At(a, b), 0) * x * dH[i]
					}
				}
			}
			for i := range w {
				w[i] -= complex(2*e0, 0) * H[i] * dH[i]
			}
			t.same(out, s.F(w), "elastic driving force")
		})
	})
}
