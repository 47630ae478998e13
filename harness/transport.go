package main

import (
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
)

func init() { props["C21"] = c21 }

func c21(t *T) {
	dims := [][]int{{1, 1}, {4, 4}, {3, 5}, {2, 6}, {2, 2, 2}, {3, 2, 4}, {1, 3, 2}, {4, 1, 3}}
	k := 0
	t.part("charge transport", func() {
		t.loop(60, func() {
			k++
			var s space
			if k <= len(dims) {
				s = spaceOf(dims[k-1])
			} else {
				s = t.space(7, 4)
			}
			dim := len(s.d)
			ext := t.fs(dim)
			ns := 3
			voigt := [][]int{{0, 2}, {2, 1}}
			if dim == 3 {
				ns = 6
				voigt = [][]int{{0, 5, 4}, {5, 1, 3}, {4, 3, 2}}
			}
			sigma := make([][]float64, s.n)
			for i := range sigma {
				sigma[i] = t.fs(ns)
			}
			t.at("dims=%v external field=%v conductivity=%v", s.d, ext, sigma)
			rho := t.reals(s.n)
			trho := s.F(rho)
			// electric field and current from their definitions
			j := make([][]complex128, dim)
			e := make([][]complex128, dim)
			for a := range e {
				ek := make([]complex128, s.n)
				for i := range ek {
					if q := s.k2(i); q > 0 {
						ek[i] = -complex(0, 2*math.Pi*s.nyq(i, a)/q) * trho[i]
					}
				}
				e[a] = s.I(ek)
				for i := range e[a] {
					e[a][i] += complex(ext[a], 0)
				}
			}
			for b := range j {
				j[b] = make([]complex128, s.n)
				for i := range j[b] {
					for a := range e {
						j[b][i] += complex(sigma[i][voigt[a][b]], 0) * e[a][i]
					}
				}
			}
			ct := pf.ChargeTransport{Conductivity: func(i int) []float64 { return append([]float64{}, sigma[i]...) }, ExternalField: append([]float64{}, ext...), Field: "charge", FT: s.ft}
			other := t.cs(s.n)
			term := ct.Construct(map[string]pf.Brick{"other": arrBrick(other), "charge": arrBrick(cp(trho))})
			want := make([]complex128, s.n)
			for b := range j {
				tj := s.F(j[b])
				for i := range want {
					want[i] -= complex(0, 2*math.Pi*s.nyq(i, b)) * tj[i]
				}
			}
			for rep := 0; rep < 2; rep++ {
				f := t.cs(s.n)
				term(s.ft.Freq, t.pos(), f)
				t.same(f, want, "rate of change")
			}
			ct.OnStepFinished(0.5, nil)
			in := cp(rho)
			for _, real := range []bool{true, false} {
				d := in
				if !real {
					d = cp(trho)
				}
				cur := ct.Current(arrBrick(d), s.n, real)
				if !t.ok(len(cur) == dim, "%d directions of the current, want %d", len(cur), dim) {
					return
				}
				for a := range cur {
					c := make([]complex128, len(cur[a]))
					for i := range c {
						c[i] = complex(cur[a][i], 0)
					}
					jr := make([]complex128, s.n)
					for i := range jr {
						jr[i] = complex(real2(j[a][i]), 0)
					}
					t.same(c, jr, "current")
				}
			}
			t.same(in, rho, "density after the call")
		})
	})
}

func real2(c complex128) float64 { return real(c) }

func spaceOf(d []int) space { return space{d, prod(d), pfutil.NewFFTW(cpInts(d))} }
