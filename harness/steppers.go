package main

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/davidkleiven/gopf/pf"
)

func init() {
	props["C12"] = func(t *T) { scheme(t, "euler") }
	props["C13"] = func(t *T) { scheme(t, "rk4") }
	props["C14"] = c14
	props["C15"] = c15
}

// eterm is an explicit term: a combination of the transformed fields and derived fields with
// frequency and time dependent factors; iterm an implicit term
type eterm struct {
	sys  *sys
	eq   int
	when func(t float64)
	done int
}

func (e *eterm) Construct(bricks map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		if e.when != nil {
			e.when(t)
		}
		for k := range out {
			out[k] = e.sys.nonlin(e.eq, freq(k), t, func(name string) complex128 { return bricks[name].Get(k) })
		}
	}
}
func (e *eterm) OnStepFinished(t float64, b map[string]pf.Brick) { e.done++ }

type iterm struct {
	sys *sys
	eq  int
}

func (e *iterm) Construct(bricks map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for k := range out {
			out[k] = e.sys.lin(e.eq, freq(k), t)
		}
	}
}
func (e *iterm) OnStepFinished(t float64, b map[string]pf.Brick) {}

type lowpass struct{ a float64 }

func (f *lowpass) Eval(x float64) float64 { return 1 / (1 + f.a*x*x) }

// sys is a random system of equations
type sys struct {
	d            []int
	n, nF, nD    int
	dt           float64
	ca, cb       [][]complex128 // explicit weights of fields and derived fields
	w            []float64
	al, be, ga   []float64
	implicit     bool
	filter       *lowpass
	conserve     bool
	dw           [][]float64
	y            [][]complex128
	srcPos       [][]float64
	srcEq        []int
	srcA         []float64
	modEq        []int
	mod          []complex128
	model        *pf.Model
	when         func(t float64)
	desc         string
	eterms       []*eterm
	scaleSources bool
	still        bool // no explicit time dependence
}

func norm2(f []float64) (s float64) {
	for _, x := range f {
		s += x * x
	}
	return
}

func (s *sys) nonlin(eq int, f []float64, t float64, get func(string) complex128) complex128 {
	if s.still {
		t = 0
	}
	r := complex(0, 0)
	for j := 0; j < s.nF; j++ {
		r += s.ca[eq][j] * get(fmt.Sprintf("y%d", j))
	}
	for j := 0; j < s.nD; j++ {
		r += s.cb[eq][j] * get(fmt.Sprintf("G%d", j))
	}
	r *= complex(1+0.5*math.Sin(s.w[eq]*t)+0.3*t, 0)
	if s.conserve {
		r *= complex(norm2(f), 0)
	} else {
		r *= complex(1+norm2(f)+0.2*f[0], 0)
	}
	return r
}

func (s *sys) lin(eq int, f []float64, t float64) complex128 {
	if s.still {
		t = 0
	}
	k2 := norm2(f)
	if s.conserve {
		return complex(-s.be[eq]*k2*(1+s.ga[eq]*t), 0)
	}
	return complex(-s.al[eq]-s.be[eq]*k2*(1+s.ga[eq]*t), 0.1*f[0])
}

// derived: product of the fields to small powers, plus a linear part
func (s *sys) derived(j int, get func(int) complex128) complex128 {
	r := complex(s.dw[j][s.nF], 0)
	for i := 0; i < s.nF; i++ {
		r += complex(s.dw[j][i], 0) * get(i) * get((i+j)%s.nF)
	}
	return r
}

func (t *T) newSys(max, nF, nD int, implicit, filt, conserve bool) *sys {
	s := &sys{d: t.rdims(max, 3), nF: nF, nD: nD, implicit: implicit, conserve: conserve}
	s.n = prod(s.d)
	s.dt = math.Round((0.01+0.2*t.rng.Float64())*1e4) / 1e4
	for i := 0; i < nF; i++ {
		s.ca = append(s.ca, t.cs(nF))
		s.cb = append(s.cb, t.cs(nD))
		s.w = append(s.w, t.f())
		s.al = append(s.al, t.pos())
		s.be = append(s.be, t.pos())
		s.ga = append(s.ga, t.pos())
		s.y = append(s.y, t.cs(s.n))
	}
	for j := 0; j < nD; j++ {
		s.dw = append(s.dw, t.fs(nF+1))
	}
	if filt {
		s.filter = &lowpass{t.pos() * 20}
	}
	s.desc = fmt.Sprintf("dims=%v fields=%d derived=%d implicit=%v filter=%v dt=%v", s.d, nF, nD, implicit, filt, s.dt)
	return s
}

func (s *sys) source(i int, t float64) float64 { return s.srcA[i] * (1 + math.Sin(t+float64(i))) }

// build makes the gopf model of the system
func (s *sys) build() *pf.Model {
	m := pf.NewModel()
	for i := 0; i < s.nF; i++ {
		m.AddField(pf.NewField(fmt.Sprintf("y%d", i), s.n, append([]complex128{}, s.y[i]...)))
	}
	fields := m.Fields
	for j := 0; j < s.nD; j++ {
		j := j
		m.RegisterFunction(fmt.Sprintf("G%d", j), func(i int, b map[string]pf.Brick) complex128 {
			return s.derived(j, func(f int) complex128 { return fields[f].Data[i] })
		})
	}
	for i := 0; i < s.nF; i++ {
		e := &eterm{sys: s, eq: i, when: s.when}
		s.eterms = append(s.eterms, e)
		m.RegisterExplicitTerm(fmt.Sprintf("NONL%d", i), e, nil)
		eq := fmt.Sprintf("dy%d/dt = NONL%d", i, i)
		if s.implicit {
			m.RegisterImplicitTerm(fmt.Sprintf("IMPL%d", i), &iterm{s, i}, nil)
			eq += fmt.Sprintf(" + IMPL%d", i)
		}
		m.AddEquation(eq)
	}
	for k := range s.srcEq {
		k := k
		m.AddSource(s.srcEq[k], pf.NewSource(s.srcPos[k], func(t float64) float64 { return s.source(k, t) }))
	}
	for k := range s.modEq {
		c := s.mod[k]
		m.RegisterRHSModifier(s.modEq[k], func(data []complex128) {
			for i := range data {
				data[i] = data[i]*c + data[i]
			}
		})
	}
	s.model = &m
	return &m
}

func (s *sys) derive(y [][]complex128) [][]complex128 {
	r := make([][]complex128, s.nD)
	for j := range r {
		r[j] = make([]complex128, s.n)
		for x := range r[j] {
			r[j][x] = s.derived(j, func(f int) complex128 { return y[f][x] })
		}
	}
	return r
}

func (s *sys) ft(y [][]complex128) [][]complex128 {
	r := make([][]complex128, len(y))
	for i := range y {
		r[i] = dft(s.d, y[i], -1)
	}
	return r
}

func (s *sys) ift(y [][]complex128) [][]complex128 {
	r := make([][]complex128, len(y))
	for i := range y {
		r[i] = dft(s.d, y[i], 1)
		for k := range r[i] {
			r[i][k] /= complex(float64(s.n), 0)
		}
	}
	return r
}

// rhs is the transformed non-linear part at the real space fields y and time t
func (s *sys) rhs(y [][]complex128, t float64) [][]complex128 {
	F, G := s.ft(y), s.ft(s.derive(y))
	get := func(k int) func(string) complex128 {
		return func(name string) complex128 {
			var j int
			fmt.Sscanf(name[1:], "%d", &j)
			if name[0] == 'y' {
				return F[j][k]
			}
			return G[j][k]
		}
	}
	r := make([][]complex128, s.nF)
	for i := range r {
		r[i] = make([]complex128, s.n)
		for k := range r[i] {
			f := freqOf(s.d, coordsOf(s.d, k))
			r[i][k] = s.nonlin(i, f, t, get(k))
			for q := range s.srcEq {
				if s.srcEq[q] == i {
					ph := 0.0
					for a := range f {
						ph += f[a] * s.srcPos[q][a]
					}
					r[i][k] += complex(s.source(q, t), 0) * cmplx.Exp(complex(0, -2*math.Pi*ph))
				}
			}
			for q := range s.modEq {
				if s.modEq[q] == i {
					r[i][k] = r[i][k]*s.mod[q] + r[i][k]
				}
			}
		}
	}
	return r
}

// advance: (F(y_i) + c dt k_i)/(1 - c dt A_i(t)) in Fourier space
func (s *sys) advance(Y, k [][]complex128, c, t float64, filt bool) [][]complex128 {
	r := make([][]complex128, s.nF)
	for i := range r {
		r[i] = make([]complex128, s.n)
		for n := range r[i] {
			f := freqOf(s.d, coordsOf(s.d, n))
			A := complex(0, 0)
			if s.implicit {
				A = s.lin(i, f, t)
			}
			r[i][n] = (Y[i][n] + complex(c*s.dt, 0)*k[i][n]) / (1 - complex(c*s.dt, 0)*A)
			if filt && s.filter != nil {
				r[i][n] *= complex(s.filter.Eval(math.Sqrt(norm2(f))*2/math.Pi), 0)
			}
		}
	}
	return r
}

func (s *sys) euler(y [][]complex128, t float64) [][]complex128 {
	return s.ift(s.advance(s.ft(y), s.rhs(y, t), 1, t, true))
}

func (s *sys) rk4(y [][]complex128, t float64) [][]complex128 {
	Y := s.ft(y)
	k := [][][]complex128{s.rhs(y, t)}
	for _, c := range []float64{0.5, 0.5, 1} {
		z := s.ift(s.advance(Y, k[len(k)-1], c, t, false))
		k = append(k, s.rhs(z, t+c*s.dt))
	}
	comb := make([][]complex128, s.nF)
	for i := range comb {
		comb[i] = make([]complex128, s.n)
		for n := range comb[i] {
			comb[i][n] = (k[0][i][n] + 2*k[1][i][n] + 2*k[2][i][n] + k[3][i][n]) / 6
		}
	}
	return s.ift(s.advance(Y, comb, 1, t, true))
}

func maxAbs(y [][]complex128) (m float64) {
	for i := range y {
		for j := range y[i] {
			if a := cmplx.Abs(y[i][j]); a > m || math.IsNaN(a) {
				m = a
			}
		}
	}
	return
}

func scheme(t *T, name string) {
	step := func(s *sys, y [][]complex128, tm float64) [][]complex128 {
		if name == "euler" {
			return s.euler(y, tm)
		}
		return s.rk4(y, tm)
	}
	run := func(s *sys, steps int) {
		t.at("%s %s sources=%v modifiers=%v steps=%d", name, s.desc, s.srcEq, s.modEq, steps)
		m := s.build()
		sol := pf.NewSolver(m, cpInts(s.d), s.dt)
		if name != "euler" || t.n(0, 1) == 0 {
			sol.SetStepper(name)
		}
		if s.filter != nil {
			sol.Stepper.SetFilter(s.filter)
		}
		y := s.y
		for k := 0; k < steps; k++ {
			y = step(s, y, float64(k)*s.dt)
			sol.Stepper.Step(m)
			sc := maxAbs(y)
			if !(sc < 1e6) {
				return
			}
			for i := range y {
				for x := range y[i] {
					g := m.Fields[i].Data[x]
					if !t.ok(cmplx.Abs(g-y[i][x]) <= 1e-8*(1+sc), "%s step %d field %d node %d: %v want %v (%s)", name, k+1, i, x, g, y[i][x], s.desc) {
						return
					}
				}
			}
			t.ok(near(sol.Stepper.GetTime(), float64(k+1)*s.dt), "time after %d steps: %v", k+1, sol.Stepper.GetTime())
		}
	}
	t.part(name, func() {
		for _, c := range []struct {
			nF, nD          int
			implicit, filt  bool
			nSources, nMods int
		}{{1, 0, false, false, 0, 0}, {1, 0, true, false, 0, 0}, {1, 1, true, true, 0, 0}, {2, 0, true, false, 0, 0}, {2, 2, true, true, 1, 1}, {3, 1, false, true, 2, 2}} {
			for rep := 0; rep < 3; rep++ {
				s := t.newSys(4, c.nF, c.nD, c.implicit, c.filt, false)
				t.extras(s, c.nSources, c.nMods)
				run(s, 3)
			}
		}
		t.loop(150, func() {
			s := t.newSys(6, t.n(1, 4), t.n(0, 5), t.n(0, 3) > 0, t.n(0, 1) == 0, false)
			t.extras(s, t.n(0, 2), t.n(0, 2))
			k := t.n(1, 4)
			if t.n(0, 9) == 0 {
				k = t.n(5, 30)
			}
			run(s, k)
		})
	})
}

func (t *T) extras(s *sys, nSources, nMods int) {
	for k := 0; k < nSources; k++ {
		s.srcEq = append(s.srcEq, t.n(0, s.nF-1))
		s.srcA = append(s.srcA, t.f())
		p := make([]float64, len(s.d))
		for a := range p {
			p[a] = t.rng.Float64() * float64(s.d[a])
		}
		s.srcPos = append(s.srcPos, p)
	}
	for k := 0; k < nMods; k++ {
		s.modEq = append(s.modEq, t.n(0, s.nF-1))
		s.mod = append(s.mod, t.c()*0.3)
	}
}

// C14: times at which terms and sources are evaluated
func c14(t *T) {
	for _, name := range []string{"euler", "rk4"} {
		name := name
		t.part("times "+name, func() {
			t.loop(30, func() {
				s := t.newSys(3, t.n(1, 2), t.n(0, 1), true, false, false)
				var times []float64
				s.when = func(x float64) { times = append(times, x) }
				var srcTimes []float64
				m := s.build()
				m.AddSource(0, pf.NewSource(make([]float64, len(s.d)), func(x float64) float64 { srcTimes = append(srcTimes, x); return 0.1 }))
				sol := pf.NewSolver(m, cpInts(s.d), s.dt)
				sol.SetStepper(name)
				total := t.n(1, 4)
				t.at("%s %s steps=%d", name, s.desc, total)
				mode := t.n(0, 3)
				stages := []float64{0}
				if name == "rk4" {
					stages = []float64{0, 0.5, 0.5, 1}
				}
				times, srcTimes = nil, nil
				switch mode {
				case 0:
					for k := 0; k < total; k++ {
						sol.Stepper.Step(m)
					}
				case 1:
					sol.Propagate(total)
				case 2:
					sol.Solve(total, 1)
				case 3:
					sol.Solve(1, total)
				}
				t.ok(near(sol.Stepper.GetTime(), float64(total)*s.dt), "%s: time after %d steps (mode %d): %v", name, total, mode, sol.Stepper.GetTime())
				var want, wantS []float64
				for k := 0; k < total; k++ {
					for _, c := range stages {
						for f := 0; f < s.nF; f++ {
							want = append(want, (float64(k)+c)*s.dt)
						}
						for x := 0; x < s.n; x++ {
							wantS = append(wantS, (float64(k)+c)*s.dt)
						}
					}
				}
				sameTimes(t, name+" terms", dedup(times), dedup(want))
				sameTimes(t, name+" source", dedup(srcTimes), dedup(wantS))
			})
		})
	}
	t.part("propagate", func() {
		t.loop(20, func() {
			s := t.newSys(3, 1, 0, true, false, false)
			m := s.build()
			m.Init()
			k := t.n(0, 5)
			ft := pf.NewSolver(m, cpInts(s.d), s.dt).FT
			t.at("%s nsteps=%d", s.desc, k)
			eu := pf.Euler{Dt: s.dt, FT: ft}
			eu.Propagate(k, m)
			t.ok(near(eu.GetTime(), float64(k)*s.dt) && eu.CurrentStep == k, "Euler.Propagate(%d): time %v", k, eu.GetTime())
			rk := pf.RK4{Dt: s.dt, FT: ft}
			rk.Propagate(k, m)
			t.ok(near(rk.GetTime(), float64(k)*s.dt) && rk.CurrentStep == k, "RK4.Propagate(%d): time %v", k, rk.GetTime())
		})
	})
	t.part("equation values at time t", func() {
		t.loop(40, func() {
			s := t.newSys(4, t.n(1, 2), 0, true, false, false)
			t.extras(s, t.n(1, 2), 0)
			m := s.build()
			m.Init()
			tm := t.f() * 3
			t.at("%s t=%v", s.desc, tm)
			freq := func(i int) []float64 { return freqOf(s.d, coordsOf(s.d, i)) }
			for f := 0; f < s.nF; f++ {
				g, dn := m.GetRHS(f, freq, tm), m.GetDenum(f, freq, tm)
				for k := 0; k < s.n; k++ {
					w := s.nonlin(f, freq(k), tm, func(nm string) complex128 { return m.Bricks[nm].Get(k) })
					for q := range s.srcEq {
						if s.srcEq[q] == f {
							ph := 0.0
							for a, x := range freq(k) {
								ph += x * s.srcPos[q][a]
							}
							w += complex(s.source(q, tm), 0) * cmplx.Exp(complex(0, -2*math.Pi*ph))
						}
					}
					t.ok(cnear(g[k], w), "GetRHS(%d) node %d t=%v: %v want %v", f, k, tm, g[k], w)
					t.ok(cnear(dn[k], s.lin(f, freq(k), tm)), "GetDenum(%d) node %d t=%v: %v want %v", f, k, tm, dn[k], s.lin(f, freq(k), tm))
				}
			}
		})
	})
}

func dedup(x []float64) []float64 {
	var r []float64
	for i := range x {
		if len(r) == 0 || !near(r[len(r)-1], x[i]) {
			r = append(r, x[i])
		}
	}
	return r
}

func sameTimes(t *T, what string, got, want []float64) {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = near(got[i], want[i])
	}
	t.ok(ok, "%s evaluated at times %v want %v", what, got, want)
}

// C15: mean values
func c15(t *T) {
	for _, name := range []string{"euler", "rk4"} {
		name := name
		t.part("mean "+name, func() {
			t.loop(150, func() {
				s := t.newSys(6, t.n(1, 4), t.n(0, 5), t.n(0, 3) > 0, t.n(0, 1) == 0, true)
				m := s.build()
				sol := pf.NewSolver(m, cpInts(s.d), s.dt)
				sol.SetStepper(name)
				if s.filter != nil {
					sol.Stepper.SetFilter(s.filter)
				}
				k := t.n(1, 5)
				t.at("%s %s steps=%d", name, s.desc, k)
				sol.Solve(1, k)
				for i := range s.y {
					a, b := complex(0, 0), complex(0, 0)
					sc := 1.0
					for x := range s.y[i] {
						a += s.y[i][x] / complex(float64(s.n), 0)
						b += m.Fields[i].Data[x] / complex(float64(s.n), 0)
						sc = math.Max(sc, cmplx.Abs(m.Fields[i].Data[x]))
					}
					if !(sc < 1e6) {
						continue
					}
					t.ok(cmplx.Abs(a-b) <= 1e-9*sc, "%s: mean of field %d: %v, before %v (%s)", name, i, b, a, s.desc)
				}
			})
		})
	}
	for _, name := range []string{"euler", "rk4"} {
		name := name
		t.part("mean of conserved equations "+name, func() {
			t.loop(20, func() {
				d := t.rdims(7, 4)
				n := prod(d)
				m := pf.NewModel()
				c, e := t.cs(n), t.cs(n)
				for i := range c {
					c[i], e[i] = complex(real(c[i])*0.2, 0), complex(real(e[i])*0.2, 0)
				}
				m.AddField(pf.NewField("conc", n, append([]complex128{}, c...)))
				m.AddField(pf.NewField("eta", n, append([]complex128{}, e...)))
				m.AddScalar(pf.NewScalar("gamma", complex(0.02, 0)))
				m.AddScalar(pf.NewScalar("m1", complex(-0.1, 0)))
				m.AddEquation("dconc/dt=LAP*conc^3+m1*LAP*conc-gamma*LAP^2*conc+m1*LAP*conc*eta")
				m.AddEquation("deta/dt=LAP*eta*gamma+m1*LAP*conc^2")
				sol := pf.NewSolver(&m, cpInts(d), 0.01)
				sol.SetStepper(name)
				k := t.n(1, 4)
				t.at("conserved equations %s dims=%v steps=%d", name, d, k)
				sol.Solve(1, k)
				for i, y := range [][]complex128{c, e} {
					a, b := complex(0, 0), complex(0, 0)
					for x := range y {
						a += y[x] / complex(float64(n), 0)
						b += m.Fields[i].Data[x] / complex(float64(n), 0)
					}
					t.ok(cmplx.Abs(a-b) <= 1e-9*(1+maxAbs([][]complex128{m.Fields[i].Data})), "%s: mean of field %d: %v, before %v", name, i, b, a)
				}
			})
		})
	}
}
