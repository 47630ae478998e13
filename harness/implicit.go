package main

import (
	"bytes"
	"log"
	"math"
	"math/cmplx"
	"os"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
)

func init() { props["C25"] = c25 }

func expIntegral(dt float64, A, n1, n0 complex128) complex128 {
	d := complex(dt, 0)
	f := cmplx.Exp(A * d)
	if cmplx.Abs(A) < 1e-5 {
		return 0.5 * d * (n1 + n0*f)
	}
	return n0*(f-1)/A + (n1-n0)/d*(f-A*d-1)/(A*A)
}

func c25(t *T) {
	converged := 0
	t.part("implicit euler", func() {
		t.loop(60, func() {
			s := t.newSys(3, t.n(1, 2), t.n(0, 1), t.n(0, 3) > 0, t.n(0, 2) == 0, false)
			s.still = true
			for i := range s.y {
				for x := range s.y[i] {
					s.y[i][x] = complex(real(s.y[i][x])*0.5, 0)
				}
			}
			t.extras(s, 0, t.n(0, 1))
			s.dt = math.Round((0.002+0.02*t.rng.Float64())*1e5) / 1e5
			t.at("implicit %s dt=%v modifiers=%v", s.desc, s.dt, s.modEq)
			m := s.build()
			m.Init()
			var buf bytes.Buffer
			log.SetOutput(&buf)
			start := t.n(0, 3)
			st := pf.ImplicitEuler{Dt: s.dt, FT: pfutil.NewFFTW(s.d), CurrentStep: start}
			if s.filter != nil {
				st.SetFilter(s.filter)
			}
			nl := pf.DefaultNonLinSolver()
			nl.Tol = 1e-9
			st.NonlinSolver = &nl
			st.Step(m)
			log.SetOutput(os.Stderr)
			t.ok(near(st.GetTime(), float64(start+1)*s.dt), "time %v after step %d of %v", st.GetTime(), start+1, s.dt)
			if buf.Len() > 0 {
				return
			}
			converged++
			y1 := make([][]complex128, s.nF)
			for i := range y1 {
				y1[i] = append([]complex128{}, m.Fields[i].Data...)
				for x := range y1[i] {
					t.ok(imag(y1[i][x]) == 0, "field %d node %d is not real: %v", i, x, y1[i][x])
				}
			}
			sc := maxAbs(y1)
			if !(sc < 1e3) {
				return
			}
			Y0, N0, Y1, N1 := s.ft(s.y), s.rhs(s.y, 0), s.ft(y1), s.rhs(y1, 0)
			r := make([][]complex128, s.nF)
			for i := range r {
				r[i] = make([]complex128, s.n)
				for k := range r[i] {
					A := complex(0, 0)
					if s.implicit {
						A = s.lin(i, freqOf(s.d, coordsOf(s.d, k)), 0)
					}
					r[i][k] = Y1[i][k] - Y0[i][k]*cmplx.Exp(A*complex(s.dt, 0)) - expIntegral(s.dt, A, N1[i][k], N0[i][k])
				}
			}
			r = s.ift(r)
			for i := range r {
				for x := range r[i] {
					if !t.ok(math.Abs(real(r[i][x])) <= 1e-6*(1+sc), "equation %d is off by %v at node %d (%s)", i, real(r[i][x]), x, s.desc) {
						return
					}
				}
			}
		})
	})
	t.part("converged", func() { t.ok(converged > 0, "no step converged") })
}
