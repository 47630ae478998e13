package main

import (
	"math"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
)

func init() {
	props["C34"] = c34
}

func c34(t *T) {
	near := func(a, b, scale float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(scale)) }
	t.part("bounds", func() {
		t.loop(300, func() {
			lo := t.f()
			hi := lo + 0.1 + math.Abs(t.f())
			bt := pf.BoundTransform{Min: lo, Max: hi}
			x := t.f()
			t.at("bounds (%v, %v), x=%v", lo, hi, x)
			y := bt.Forward(x)
			t.ok(y > lo && y < hi, "Forward: %v is not inside", y)
			t.ok(near(y, lo+(hi-lo)*(math.Atan(x)/math.Pi+0.5), math.Abs(lo)+math.Abs(hi)), "Forward: %v", y)
			t.ok(bt.Forward(x+0.5) > y, "Forward does not increase")
			t.ok(math.Abs(bt.Backward(y)-x) < 1e-6*(1+x*x)*(1+math.Abs(lo)+math.Abs(hi))/(hi-lo), "Backward: %v", bt.Backward(y))
		})
	})
	t.part("penalty", func() {
		t.loop(200, func() {
			n := 3 + 2*t.n(0, 2)
			x, p := t.f(), t.f()
			t.at("exponent %d, prefactor %v, x=%v", n, p, x)
			want := 0.0
			if x < 0 {
				want = -2 * p * float64(n) * math.Pow(x, float64(n-1))
			}
			pen := pf.NegativeValuePenalty{Prefactor: p, Exponent: n, Field: "b"}
			t.ok(near(pen.Penalty(x), want, want), "Penalty: %v, not %v", pen.Penalty(x), want)
			a, b := pf.NewField("a", 3, nil), pf.NewField("b", 3, nil)
			for i := range a.Data {
				a.Data[i], b.Data[i] = complex(t.f(), t.f()), complex(t.f(), t.f())
			}
			b.Data[1] = complex(x, t.f())
			got := pen.Evaluate(1, map[string]pf.Brick{"a": a, "b": b})
			t.ok(near(real(got), want, want) && imag(got) == 0, "Evaluate: %v, not %v", got, want)
		})
		d := pf.NewDefaultNegativeValuePenalty("density")
		t.ok(d.Prefactor == 1500 && d.Exponent == 3 && d.Field == "density", "defaults: %v", d)
	})
	t.part("filter", func() {
		t.loop(100, func() {
			m := t.n(2, 7)
			v := pf.Vandeven{Data: make([]float64, m)}
			for i := range v.Data {
				v.Data[i] = t.f()
			}
			x := t.rng.Float64() * 1.3
			t.at("table %v, x=%v", v.Data, x)
			z := x * float64(m-1)
			k := int(z)
			want := v.Data[m-1]
			if k < m-1 {
				want = v.Data[k] + (z-float64(k))*(v.Data[k+1]-v.Data[k])
			}
			t.ok(near(v.Eval(x), want, 10), "Eval: %v, not %v", v.Eval(x), want)
		})
		for p := 1; p < 9; p++ {
			t.at("order %d", p)
			v := pf.NewVandeven(p)
			if !t.ok(len(v.Data) == 1000, "table of %d", len(v.Data)) {
				continue
			}
			w := func(i int) float64 {
				x := float64(i) / 999
				return math.Pow(x*(1-x), float64(p-1))
			}
			c := math.Gamma(float64(2*p)) / (math.Gamma(float64(p)) * math.Gamma(float64(p)))
			s := 1.0
			for i := range v.Data {
				if i > 0 {
					s -= c * 0.5 * (w(i-1) + w(i)) / 999
				}
				t.ok(math.Abs(v.Data[i]-s) < 1e-9, "entry %d is %v, not %v", i, v.Data[i], s)
			}
		}
	})
	t.part("peaks", func() {
		t.loop(50, func() {
			a, w := 0.5+math.Abs(t.f()), 0.1+math.Abs(t.f())
			t.at("a=%v width=%v", a, w)
			sq, tr := pfc.SquareLattice2D(w, a), pfc.TriangularLattice2D(w, a)
			if !t.ok(len(sq) == 2 && len(tr) == 1, "%d and %d peaks", len(sq), len(tr)) {
				return
			}
			k := 2 * math.Pi / a
			t.ok(near(sq[0].Location, k, k) && near(sq[1].Location, math.Sqrt2*k, k) && near(tr[0].Location, k, k), "positions %v %v %v", sq[0].Location, sq[1].Location, tr[0].Location)
			t.ok(sq[0].Width == w && sq[1].Width == w && tr[0].Width == w, "widths")
			t.ok(sq[0].NumPlanes == 4 && sq[1].NumPlanes == 4 && near(sq[0].PlaneDensity, 1, 1) && near(sq[1].PlaneDensity, math.Sqrt2/2, 1), "planes")
		})
	})
}
