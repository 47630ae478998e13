package main

import (
	"math"
	"math/cmplx"

	"github.com/davidkleiven/gopf/pfutil"
)

func init() {
	props["C04"] = c04
	props["C05"] = c05
	props["C06"] = c06
	props["C07"] = c07
	props["C08"] = c08
}

// rdims is a random domain of 2 or 3 dimensions
func (t *T) rdims(m2, m3 int) []int {
	if t.n(0, 1) == 0 {
		return []int{t.n(1, m2), t.n(1, m2)}
	}
	return []int{t.n(1, m3), t.n(1, m3), t.n(1, m3)}
}

func freqOf(d, x []int) []float64 {
	f := make([]float64, len(d))
	for k := range d {
		f[k] = float64(x[k]) / float64(d[k])
		if 2*x[k] > d[k] {
			f[k] -= 1.0
		}
	}
	return f
}

// dft: direct evaluation, sum over all nodes of data exp(sign 2 pi i x f)
func dft(d []int, data []complex128, sign float64) []complex128 {
	n := prod(d)
	out := make([]complex128, n)
	for i := 0; i < n; i++ {
		a := coordsOf(d, i)
		for j := 0; j < n; j++ {
			b := coordsOf(d, j)
			ph := 0.0
			for k := range d {
				ph += float64((a[k]*b[k])%d[k]) / float64(d[k])
			}
			out[i] += data[j] * cmplx.Exp(complex(0, sign*2*math.Pi*ph))
		}
	}
	return out
}

func c04(t *T) {
	t.part("transform", func() {
		check := func(d []int) {
			t.at("dims=%v", d)
			n := prod(d)
			ft := pfutil.NewFFTW(cpInts(d))
			for rep := 0; rep < 2; rep++ {
				in := t.cs(n)
				a := append([]complex128{}, in...)
				w := dft(d, in, -1)
				r := ft.FFT(a)
				for i := range w {
					t.ok(cnear(a[i], w[i]) && cnear(r[i], w[i]), "FFT of %v at node %d: %v want %v", d, i, a[i], w[i])
				}
				a = append([]complex128{}, in...)
				w = dft(d, in, 1)
				r = ft.IFFT(a)
				for i := range w {
					t.ok(cnear(a[i], w[i]) && cnear(r[i], w[i]), "IFFT of %v at node %d: %v want %v", d, i, a[i], w[i])
				}
			}
		}
		for _, d := range [][]int{{1, 1}, {2, 3}, {3, 2}, {4, 4}, {5, 4}, {1, 6}, {6, 1}, {2, 3, 4}, {4, 3, 2}, {3, 3, 3}, {1, 2, 5}, {2, 1, 3}} {
			check(d)
		}
		t.loop(25, func() { check(t.rdims(8, 5)) })
	})
	t.part("frequencies", func() {
		check := func(d []int, all bool) {
			ft := pfutil.NewFFTW(cpInts(d))
			n := prod(d)
			for i := 0; i < n; i++ {
				if !all && t.rng.Intn(n) > 200 {
					continue
				}
				t.at("dims=%v node=%d", d, i)
				x := coordsOf(d, i)
				w := freqOf(d, x)
				f := ft.Freq(i)
				for k := range d {
					t.ok(len(f) == len(d) && near(f[k], w[k]), "Freq(%d) of %v: %v want %v", i, d, f, w)
				}
				y := make([]int, len(d))
				for k := range d {
					y[k] = (d[k] - x[k]) % d[k]
				}
				t.ok(ft.ConjugateNode(i) == layout(d, y), "ConjugateNode(%d) of %v: %d want %d", i, d, ft.ConjugateNode(i), layout(d, y))
			}
		}
		domains(8, 5, func(d []int) { check(d, true) })
		t.loop(20, func() { check(t.rdims(70, 20), false) })
	})
}

func dist2(d []int, i, j int) int {
	x, y := coordsOf(d, i), coordsOf(d, j)
	r := 0
	for k := range d {
		a := x[k] - y[k]
		if a < 0 {
			a = -a
		}
		if d[k]-a < a {
			a = d[k] - a
		}
		r += a * a
	}
	return r
}

func c05(t *T) {
	t.part("voronoi", func() {
		check := func(d, pts []int, m int) {
			t.at("dims=%v points=%v", d, pts)
			data := make([]int, m)
			for i := range data {
				data[i] = -7
			}
			dd, pp := cpInts(d), cpInts(pts)
			pfutil.Voronoi(pp, data, dd)
			t.ok(eqInts(dd, d) && eqInts(pp, pts), "arguments changed")
			for i := range data {
				best := 0
				for k := range pts {
					if dist2(d, pts[k], i) < dist2(d, pts[best], i) {
						best = k
					}
				}
				t.ok(data[i] == best, "dims %v points %v: node %d assigned to %d, want %d", d, pts, i, data[i], best)
			}
		}
		t.loop(400, func() {
			d := t.rdims(12, 6)
			pts := make([]int, t.n(1, 6))
			for i := range pts {
				pts[i] = t.rng.Intn(prod(d))
			}
			check(d, pts, prod(d))
		})
		check([]int{70000, 1}, []int{5, 40000}, 100)
		check([]int{1, 70000}, []int{5, 40000, 69999}, 100)
		check([]int{200000, 1}, []int{99999}, 100)
		check([]int{1, 200000}, []int{99990, 99999}, 100)
	})
}

type rndKernel struct {
	c int
	w map[[3]int]float64
}

func (r *rndKernel) Cutoff() int { return r.c }
func (r *rndKernel) Value(x []int) float64 {
	var k [3]int
	copy(k[:], x)
	return r.w[k]
}

func c06(t *T) {
	t.part("blur", func() {
		check := func(d []int, ker pfutil.BlurKernel, cplx bool) {
			t.at("dims=%v kernel=%v", d, ker)
			n := prod(d)
			in := t.fs(n)
			im := t.fs(n)
			cx := make([]complex128, n)
			re := append([]float64{}, in...)
			for i := range cx {
				cx[i] = complex(in[i], im[i])
			}
			dd := cpInts(d)
			if cplx {
				pfutil.Blur(&pfutil.RealPartSlice{Data: cx}, dd, ker)
			} else {
				pfutil.Blur(&pfutil.RealSlice{Data: re}, dd, ker)
			}
			c := ker.Cutoff()
			for i := 0; i < n; i++ {
				x := coordsOf(d, i)
				num, den := 0.0, 0.0
				end := make([]int, len(d))
				for k := range end {
					end[k] = 2*c + 1
				}
				for m := 0; m < prod(end); m++ {
					o := make([]int, len(d))
					y := make([]int, len(d))
					r := m
					for k := range d {
						o[k] = r%(2*c+1) - c
						r /= 2*c + 1
						y[k] = (((x[k] + o[k]) % d[k]) + d[k]) % d[k]
					}
					w := ker.Value(o)
					num += w * in[layout(d, y)]
					den += w
				}
				if cplx {
					t.ok(cnear(cx[i], complex(num/den, im[i])), "Blur of %v: node %d is %v want %v", d, i, cx[i], complex(num/den, im[i]))
				} else {
					t.ok(near(re[i], num/den), "Blur of %v: node %d is %v want %v", d, i, re[i], num/den)
				}
			}
		}
		t.loop(120, func() {
			d := t.rdims(7, 4)
			if t.n(0, 2) == 0 {
				check(d, &pfutil.BoxKernel{Width: t.n(0, 4)}, t.n(0, 1) == 0)
				return
			}
			k := &rndKernel{t.n(0, 2), map[[3]int]float64{}}
			sparse := t.n(0, 1) == 0
			for a := -3; a <= 3; a++ {
				for b := -3; b <= 3; b++ {
					for c := -3; c <= 3; c++ {
						if len(d) == 3 || c == 0 {
							k.w[[3]int{a, b, c}] = t.pos()
							if sparse {
								k.w[[3]int{a, b, c}] = float64(t.n(-1, 1)) * t.pos()
							}
						}
					}
				}
			}
			sum := 0.0
			for o, w := range k.w {
				if o[0] >= -k.c && o[0] <= k.c && o[1] >= -k.c && o[1] <= k.c && o[2] >= -k.c && o[2] <= k.c {
					sum += w
				}
			}
			if math.Abs(sum) < 0.2 {
				k.w[[3]int{0, 0, 0}] += 3
			}
			check(d, k, t.n(0, 1) == 0)
		})
	})
	t.part("box kernel", func() {
		for w := 0; w < 8; w++ {
			b := &pfutil.BoxKernel{Width: w}
			t.at("width %d", w)
			c := b.Cutoff()
			t.ok(2*c >= w && c >= 1 && 2*c <= w+2, "BoxKernel{%d}.Cutoff()=%d", w, c)
			for x := -w - 2; x <= w+2; x++ {
				for y := -w - 2; y <= w+2; y++ {
					e := 0.0
					if x <= w && x >= -w && y <= w && y >= -w {
						e = 1
					}
					t.ok(b.Value([]int{x, y}) == e, "BoxKernel{%d}.Value(%d,%d)=%v", w, x, y, b.Value([]int{x, y}))
					t.ok(b.Value([]int{0, x, y}) == e, "BoxKernel{%d}.Value(0,%d,%d)=%v", w, x, y, b.Value([]int{0, x, y}))
				}
			}
		}
	})
}

type vec = []float64

func elementary(t *T) (pfutil.Affine, func(vec) vec, string) {
	switch t.n(0, 5) {
	case 0:
		v := t.fs(3)
		return pfutil.Translation(v), func(x vec) vec { return vec{x[0] + v[0], x[1] + v[1], x[2] + v[2]} }, "translation"
	case 1:
		v := t.fs(3)
		return pfutil.Scaling(v), func(x vec) vec { return vec{x[0] * v[0], x[1] * v[1], x[2] * v[2]} }, "scaling"
	case 2, 3, 4:
		a := t.f() * 3
		ax := t.n(0, 2)
		i, j := (ax+1)%3, (ax+2)%3
		f := func(x vec) vec {
			y := make(vec, 3)
			y[ax] = x[ax]
			y[i] = math.Cos(a)*x[i] - math.Sin(a)*x[j]
			y[j] = math.Sin(a)*x[i] + math.Cos(a)*x[j]
			return y
		}
		return []func(float64) pfutil.Affine{pfutil.RotX, pfutil.RotY, pfutil.RotZ}[ax](a), f, "rotation " + string(rune('X'+ax))
	}
	return pfutil.Identity(), func(x vec) vec { return append(vec{}, x...) }, "identity"
}

func c07(t *T) {
	t.part("affine", func() {
		t.loop(3000, func() {
			A, f, name := elementary(t)
			for k := t.n(0, 3); k > 0; k-- {
				B, g, nm := elementary(t)
				name += ", " + nm
				A.Append(B)
				f0 := f
				f = func(x vec) vec { return g(f0(x)) }
			}
			t.at("map %s", name)
			x := t.fs(3)
			w := f(x)
			p := append(vec{}, x...)
			A.Apply(p)
			for k := range w {
				t.ok(near(p[k], w[k]), "Apply of %s to %v: %v want %v", name, x, p, w)
			}
			q := append(vec{}, x[:2]...)
			w = f(vec{x[0], x[1], 0})
			A.Apply(q)
			t.ok(near(q[0], w[0]) && near(q[1], w[1]), "Apply of %s to %v: %v want %v", name, x[:2], q, w)
		})
	})
	inside := func(s pfutil.Shape, x vec) bool {
		switch b := s.(type) {
		case *pfutil.Box:
			for k := range x {
				if math.Abs(x[k]) > b.Diagonal[k]/2 {
					return false
				}
			}
			return true
		case *pfutil.Ball:
			r := 0.0
			for k := range x {
				r += x[k] * x[k]
			}
			return r < b.Radius*b.Radius
		}
		return false
	}
	shape := func() pfutil.Shape {
		if t.n(0, 1) == 0 {
			return &pfutil.Ball{Radius: t.pos() * 4}
		}
		return &pfutil.Box{Diagonal: []float64{t.pos() * 6, t.pos() * 6, t.pos() * 6}}
	}
	t.part("interiors and bounding boxes", func() {
		t.loop(3000, func() {
			s := shape()
			d := t.n(1, 3)
			x := t.fs(3)
			for k := range x {
				x[k] *= 4
			}
			if t.n(0, 4) == 0 {
				for k := range x {
					x[k] = math.Round(x[k])
				}
				switch b := s.(type) {
				case *pfutil.Box:
					for k := range b.Diagonal {
						b.Diagonal[k] = math.Round(b.Diagonal[k])
						if t.n(0, 1) == 0 {
							x[k] = b.Diagonal[k] / 2
						}
					}
				case *pfutil.Ball:
					b.Radius = math.Round(b.Radius)
					if t.n(0, 1) == 0 {
						x = vec{b.Radius, 0, 0}
					}
				}
			}
			t.at("shape %+v point %v", s, x[:d])
			in := s.InteriorPoint(append(vec{}, x[:d]...))
			t.ok(in == inside(s, x[:d]), "InteriorPoint of %+v at %v is %v", s, x[:d], in)
			bb := s.BBox()
			t.ok(len(bb.Min) == 3 && len(bb.Max) == 3, "BBox lengths")
			if in {
				for k := 0; k < d; k++ {
					t.ok(float64(bb.Min[k]) <= x[k] && x[k] <= float64(bb.Max[k]), "BBox %+v of %+v does not contain %v", bb, s, x[:d])
				}
			}
		})
	})
	t.part("draw", func() {
		t.loop(400, func() {
			d := t.rdims(9, 5)
			s := shape()
			g := pfutil.NewGrid(cpInts(d))
			copy(g.Data, t.fs(len(g.Data)))
			old := append(vec{}, g.Data...)
			A, f, name := elementary(t)
			for k := t.n(0, 2); k > 0; k-- {
				B, h, nm := elementary(t)
				name += ", " + nm
				A.Append(B)
				f0 := f
				f = func(x vec) vec { return h(f0(x)) }
			}
			tr := &A
			if t.n(0, 4) == 0 {
				tr, name, f = nil, "nil", func(x vec) vec { return x }
			}
			t.at("dims %v shape %+v map %s", d, s, name)
			pfutil.Draw(s, &g, tr, 17)
			for i := range g.Data {
				x := coordsOf(d, i)
				y := vec{float64(x[0]), float64(x[1]), 0}
				if len(d) == 3 {
					y[2] = float64(x[2])
				}
				z := f(y)[:len(d)]
				w := old[i]
				if inside(s, z) {
					w = 17
				}
				if g.Data[i] != w && !onEdge(s, z) {
					t.ok(false, "Draw %+v with %s on %v: node %v is %v want %v", s, name, d, x, g.Data[i], w)
				}
				t.cases++
			}
		})
	})
}

// onEdge: too close to the surface to decide in floating point
func onEdge(s pfutil.Shape, x vec) bool {
	switch b := s.(type) {
	case *pfutil.Box:
		for k := range x {
			if near(math.Abs(x[k]), b.Diagonal[k]/2) {
				return true
			}
		}
	case *pfutil.Ball:
		r := 0.0
		for k := range x {
			r += x[k] * x[k]
		}
		return near(r, b.Radius*b.Radius)
	}
	return false
}

func c08(t *T) {
	t.part("slices", func() {
		t.loop(3000, func() {
			n := t.n(0, 12)
			if t.n(0, 20) == 0 {
				n = t.n(13, 300)
			}
			a, b := t.cs(n), t.cs(n)
			t.at("a=%v b=%v", a, b)
			x := append([]complex128{}, a...)
			y := append([]complex128{}, b...)
			pfutil.ElemwiseAdd(x, y)
			for i := range a {
				t.ok(cnear(x[i], a[i]+b[i]) && y[i] == b[i], "ElemwiseAdd at %d of %d", i, n)
			}
			copy(x, a)
			pfutil.ElemwiseMul(x, y)
			for i := range a {
				t.ok(cnear(x[i], a[i]*b[i]) && y[i] == b[i], "ElemwiseMul at %d of %d", i, n)
			}
			copy(x, a)
			pfutil.ElemwiseMul(x, x)
			for i := range a {
				t.ok(cnear(x[i], a[i]*a[i]), "ElemwiseMul on itself at %d of %d", i, n)
			}
			copy(x, a)
			f := t.f() + 3
			if t.n(0, 3) == 0 {
				f = -f
			}
			r := pfutil.DivRealScalar(x, f)
			for i := range a {
				t.ok(cnear(x[i], a[i]/complex(f, 0)) && r[i] == x[i], "DivRealScalar by %v at %d of %d", f, i, n)
			}
			if n > 0 {
				mx, mn := real(a[0]), real(a[0])
				for _, v := range a {
					mx, mn = math.Max(mx, real(v)), math.Min(mn, real(v))
				}
				t.ok(pfutil.MaxReal(a) == mx && pfutil.MinReal(a) == mn, "MaxReal/MinReal of %v: %v %v", a, pfutil.MaxReal(a), pfutil.MinReal(a))
				neg := append([]complex128{}, a...)
				for i := range neg {
					neg[i] -= 10
				}
				t.ok(pfutil.MaxReal(neg) == mx-10 || near(pfutil.MaxReal(neg), mx-10), "MaxReal of %v: %v", neg, pfutil.MaxReal(neg))
				for i := range neg {
					neg[i] += 20
				}
				t.ok(near(pfutil.MinReal(neg), mn+10), "MinReal of %v: %v", neg, pfutil.MinReal(neg))
			}
			pfutil.Clear(x)
			for i := range x {
				t.ok(x[i] == 0, "Clear at %d of %d", i, n)
			}
			p, q := t.fs(n), t.fs(n)
			s := 0.0
			for i := range p {
				s += p[i] * q[i]
			}
			t.ok(near(pfutil.Dot(p, q), s), "Dot of %v and %v", p, q)
			k := make([]int, t.n(0, 5))
			for i := range k {
				k[i] = t.n(-6, 9)
			}
			t.ok(pfutil.ProdInt(k) == prod(k), "ProdInt of %v is %d", k, pfutil.ProdInt(k))
			// tolerance comparison
			tol := 0.125
			copy(x, a)
			want := true
			for i := range x {
				switch t.n(0, 12) {
				case 0:
					x[i] += 0.25
					want = false
				case 1:
					x[i] -= 0.25i
					want = false
				case 2:
					x[i] += 0.0625
				case 3:
					x[i] -= 0.0625 - 0.0625i
				}
			}
			t.ok(pfutil.CmplxEqualApprox(a, x, tol) == want && pfutil.CmplxEqualApprox(x, a, tol) == want, "CmplxEqualApprox(%v, %v, %v) is not %v", a, x, tol, want)
			t.ok(!pfutil.CmplxEqualApprox(a, append(append([]complex128{}, a...), 0), tol), "different lengths are equal")
			t.ok(!pfutil.CmplxEqualApprox(append(append([]complex128{}, a...), 0), a, tol), "different lengths are equal")
		})
	})
	t.part("wrappers", func() {
		t.loop(500, func() {
			n := t.n(1, 8)
			i := t.rng.Intn(n)
			a, b := t.fs(n), t.cs(n)
			a0, b0 := append(vec{}, a...), append([]complex128{}, b...)
			t.at("a=%v b=%v i=%d", a, b, i)
			rs, rp := &pfutil.RealSlice{Data: a}, &pfutil.RealPartSlice{Data: b}
			t.ok(rs.Len() == n && rp.Len() == n, "Len")
			t.ok(rs.Get(i) == a0[i] && rp.Get(i) == real(b0[i]), "Get")
			rs.Set(i, 5)
			rp.Set(i, 5)
			for k := range a {
				if k == i {
					t.ok(a[k] == 5 && b[k] == complex(5, imag(b0[k])), "Set")
				} else {
					t.ok(a[k] == a0[k] && b[k] == b0[k], "Set changed another element")
				}
			}
		})
	})
	t.part("grid conversion", func() {
		t.loop(300, func() {
			d := t.rdims(6, 4)
			g := pfutil.NewGrid(cpInts(d))
			copy(g.Data, t.fs(len(g.Data)))
			t.at("dims=%v", d)
			c := g.ToComplex()
			h := g.Copy()
			t.ok(len(c) == len(g.Data) && len(h.Data) == len(g.Data) && eqInts(h.Dims, d), "lengths")
			for i := range c {
				t.ok(c[i] == complex(g.Data[i], 0) && h.Data[i] == g.Data[i], "ToComplex/Copy at %d", i)
			}
			h.Data[0] += 1
			h.Dims[0]++
			t.ok(h.Data[0] != g.Data[0] && g.Dims[0] == d[0], "Copy shares storage")
			c = t.cs(len(g.Data))
			g.FromComplex(c)
			for i := range c {
				t.ok(g.Data[i] == real(c[i]), "FromComplex at %d", i)
			}
		})
	})
}
