package main

import (
	"io"
	"log"
	"math"
	"math/cmplx"

	"github.com/davidkleiven/gopf/pf"
)

func init() { props["C24"] = c24 }

// solve solves the dense complex system M x = b (partial pivoting); small reports the smallest pivot
func solve(M [][]complex128, b []complex128) (x []complex128, small float64) {
	n := len(b)
	small = math.Inf(1)
	for c := 0; c < n; c++ {
		p := c
		for r := c; r < n; r++ {
			if cmplx.Abs(M[r][c]) > cmplx.Abs(M[p][c]) {
				p = r
			}
		}
		M[c], M[p] = M[p], M[c]
		b[c], b[p] = b[p], b[c]
		if a := cmplx.Abs(M[c][c]); a < small {
			small = a
		}
		for r := c + 1; r < n; r++ {
			q := M[r][c] / M[c][c]
			if q == 0 {
				continue
			}
			for k := c; k < n; k++ {
				M[r][k] -= q * M[c][k]
			}
			b[r] -= q * b[c]
		}
	}
	x = make([]complex128, n)
	for r := n - 1; r >= 0; r-- {
		s := b[r]
		for k := r + 1; k < n; k++ {
			s -= M[r][k] * x[k]
		}
		x[r] = s / M[r][r]
	}
	return
}

// orientation of the dimer, as seen by shifting fields that are zero
func orientationOf(sdd *pf.SDD, nF, n int) []float64 {
	var fs []pf.Field
	for i := 0; i < nF; i++ {
		fs = append(fs, pf.NewField("z", n, nil))
	}
	sdd.ShiftFieldsAlongDimer(fs, 1)
	var r []float64
	for _, f := range fs {
		for _, x := range f.Data {
			r = append(r, real(x))
		}
	}
	return r
}

func c24(t *T) {
	log.SetOutput(io.Discard)
	unit := func(what string, o, d []float64) {
		L := 0.0
		for _, x := range d {
			L += x * x
		}
		L = math.Sqrt(L)
		for i := range d {
			if !t.ok(math.Abs(o[i]*L-d[i]) <= 1e-9*(1+L), "%s: component %d of the orientation is %v, want %v", what, i, o[i], d[i]/L) {
				return
			}
		}
	}
	t.part("orientation and length", func() {
		t.loop(80, func() {
			nF, n := t.n(1, 3), t.n(1, 12)
			t.at("fields=%d nodes=%d", nF, n)
			m := pf.NewModel()
			var a, b []pf.Field
			var d []float64
			for i := 0; i < nF; i++ {
				m.AddField(pf.NewField("f", n, nil))
				x, y := t.cs(n), t.cs(n)
				for k := range x {
					d = append(d, real(y[k])-real(x[k]))
				}
				a, b = append(a, pf.NewField("f", n, x)), append(b, pf.NewField("f", n, y))
			}
			norm := func(d []float64) float64 {
				s := 0.0
				for _, x := range d {
					s += x * x
				}
				return math.Sqrt(s)
			}
			if norm(d) < 1e-3 {
				return
			}
			sdd := pf.NewSDD([]int{n, 1}, &m)
			sdd.Init(a, b)
			unit("Init", orientationOf(&sdd, nF, n), d)
			t.ok(near(sdd.InitDimerLength, norm(d)), "Init: length %v want %v", sdd.InitDimerLength, norm(d))
			w := t.fs(n * nF)
			if norm(w) < 1e-3 {
				return
			}
			keep := append([]float64{}, w...)
			sdd.SetInitialOrientation(w)
			unit("SetInitialOrientation", orientationOf(&sdd, nF, n), keep)
			t.ok(near(sdd.InitDimerLength, norm(keep)), "SetInitialOrientation: length %v want %v", sdd.InitDimerLength, norm(keep))
			tau := t.pos() + 0.1
			sdd.TimeConstants.DimerLength = tau
			sdd.MinDimerLength = norm(keep) * 0.3 * t.rng.Float64()
			for k := 0; k < 6; k++ {
				tm := tau * 3 * t.rng.Float64()
				want := math.Max(norm(keep)*math.Exp(-tm/tau), sdd.MinDimerLength)
				t.ok(near(sdd.DimerLength(tm), want), "length at time %v: %v want %v", tm, sdd.DimerLength(tm), want)
				L := norm(keep) * (0.31 + 0.69*t.rng.Float64())
				t.ok(near(sdd.DimerLength(sdd.RequiredDimerLengthTime(L)), L), "length at the time required to reach %v: %v", L, sdd.DimerLength(sdd.RequiredDimerLengthTime(L)))
			}
			sum := 0.0
			for i := range a {
				for _, x := range a[i].Data {
					sum += real(x)*real(x) + imag(x)*imag(x)
				}
			}
			t.ok(near(sdd.FieldNorm(a), sum), "norm of the fields: %v want %v", sdd.FieldNorm(a), sum)
		})
	})
	t.part("one field steps", func() {
		t.loop(120, func() {
			s := t.newSys(4, 1, t.n(0, 2), t.n(0, 3) > 0, false, false)
			for k := range s.y[0] {
				s.y[0][k] = complex(real(s.y[0][k]), 0)
			}
			t.extras(s, t.n(0, 1), t.n(0, 1))
			m := s.build()
			m.Init()
			sdd := pf.NewSDD(cpInts(s.d), m)
			sdd.Dt, sdd.Alpha = s.dt, t.rng.Float64()
			sdd.TimeConstants = pf.SDDTimeConstants{Orientation: t.pos() + 0.2, DimerLength: t.pos() + 0.2}
			w := t.fs(s.n)
			L := 0.0
			for _, x := range w {
				L += x * x
			}
			if L < 1e-2 {
				return
			}
			sdd.SetInitialOrientation(w)
			if t.n(0, 1) == 0 {
				sdd.MinDimerLength = sdd.InitDimerLength * (0.5 + 0.5*t.rng.Float64())
			}
			t.at("%s alpha=%v tau=%v minlength=%v sources=%v modifiers=%v", s.desc, sdd.Alpha, sdd.TimeConstants, sdd.MinDimerLength, s.srcEq, s.modEq)
			y, o := s.y, orientationOf(&sdd, 1, s.n)
			N := complex(float64(s.n), 0)
			for step := 0; step < t.n(1, 4); step++ {
				tm := float64(step) * s.dt
				l := math.Max(sdd.InitDimerLength*math.Exp(-tm/sdd.TimeConstants.DimerLength), sdd.MinDimerLength)
				oc := make([]complex128, s.n)
				for k := range oc {
					oc[k] = complex(o[k], 0)
				}
				V := s.ft([][]complex128{oc})[0]
				end := func(c float64) []complex128 {
					z := make([]complex128, s.n)
					for k := range z {
						z[k] = y[0][k] + complex(c*l*o[k], 0)
					}
					return s.rhs([][]complex128{z}, tm)[0]
				}
				n1, n2 := end(-0.5), end(0.5)
				A := make([]complex128, s.n)
				if s.implicit {
					for k := range A {
						A[k] = s.lin(0, freqOf(s.d, coordsOf(s.d, k)), tm)
					}
				}
				// reflection across the orientation
				part := func(x []complex128) (g complex128) {
					for k := range x {
						g += x[k] * cmplx.Conj(V[k])
					}
					return g / N
				}
				W := make([]complex128, s.n)
				for k := range W {
					W[k] = complex(sdd.Alpha, 0)*n1[k] + complex(1-sdd.Alpha, 0)*n2[k]
				}
				Y := s.ft(y)[0]
				g := part(W)
				b := make([]complex128, s.n)
				M := make([][]complex128, s.n)
				for k := range b {
					b[k] = Y[k] + complex(s.dt, 0)*(W[k]-2*V[k]*g)
					M[k] = make([]complex128, s.n)
					for q := range M[k] {
						M[k][q] = complex(2*s.dt, 0) * V[k] * cmplx.Conj(V[q]) / N * A[q]
						if k == q {
							M[k][q] += 1 - complex(s.dt, 0)*A[q]
						}
					}
				}
				x, small := solve(M, b)
				if small < 1e-3 {
					return
				}
				y1 := s.ift([][]complex128{x})
				tq := make([]complex128, s.n)
				for k := range tq {
					tq[k] = n1[k] - n2[k] - A[k]*V[k]*complex(l, 0)
				}
				g = part(tq)
				for k := range tq {
					tq[k] -= V[k] * g
				}
				T := s.ift([][]complex128{tq})[0]
				o1 := make([]float64, s.n)
				nn := 0.0
				for k := range o1 {
					o1[k] = o[k] - s.dt*real(T[k])/(l*sdd.TimeConstants.Orientation)
					nn += o1[k] * o1[k]
				}
				sc := maxAbs(y1)
				if !(sc < 1e5) || nn < 1e-4 || nn > 1e8 {
					return
				}
				sdd.Step(m)
				for k := range y1[0] {
					if !t.ok(cmplx.Abs(m.Fields[0].Data[k]-y1[0][k]) <= 1e-6*(1+sc), "step %d node %d: %v want %v", step+1, k, m.Fields[0].Data[k], y1[0][k]) {
						return
					}
				}
				got := orientationOf(&sdd, 1, s.n)
				for k := range o1 {
					o1[k] /= math.Sqrt(nn)
					if !t.ok(math.Abs(got[k]-o1[k]) <= 1e-6, "step %d: orientation at node %d is %v, want %v", step+1, k, got[k], o1[k]) {
						return
					}
				}
				t.ok(near(sdd.GetTime(), float64(step+1)*s.dt), "time after %d steps: %v", step+1, sdd.GetTime())
				y, o = y1, o1
			}
		})
	})
}
