package main

import (
	"math"

	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["C30"] = c30
}

func distinct(dims []int) pfutil.Grid {
	g := pfutil.NewGrid(dims)
	for i := range g.Data {
		g.Data[i] = float64(i)
	}
	return g
}

// fromRotated tells whether the value at (x, y) is the one of a node less than a pixel from the rotated position
func fromRotated(val float64, x, y, nx, ny int, ang float64) bool {
	c, s := math.Cos(ang), math.Sin(ang)
	dx, dy := float64(x-nx/2), float64(y-ny/2)
	px, py := c*dx-s*dy+float64(nx/2), s*dx+c*dy+float64(ny/2)
	v := int(val)
	close := func(p float64, q, n int) bool {
		d := math.Mod(float64(q)-p, float64(n))
		if d < 0 {
			d += float64(n)
		}
		return d < 1+1e-9 || float64(n)-d < 1+1e-9
	}
	return v >= 0 && v < nx*ny && close(px, v/ny, nx) && close(py, v%ny, ny)
}

func c30(t *T) {
	t.part("rotate", func() {
		t.loop(200, func() {
			nx, ny, ang := t.n(1, 17), t.n(1, 17), t.f()*3
			t.at("dims=%dx%d angle=%v", nx, ny, ang)
			g := distinct([]int{nx, ny})
			g.Rotate2D(ang)
			h := distinct([]int{nx, ny})
			pfc.TiltGB(&h, ang)
			for x := 0; x < nx; x++ {
				for y := 0; y < ny; y++ {
					v := g.Data[x*ny+y]
					t.ok(fromRotated(v, x, y, nx, ny, ang), "Rotate2D: node (%d,%d) has the value of node %v", x, y, v)
					a := -ang / 2
					if x < nx/2 {
						a = ang / 2
					}
					w := h.Data[x*ny+y]
					t.ok(fromRotated(w, x, y, nx, ny, a), "TiltGB: node (%d,%d) has the value of node %v", x, y, w)
				}
			}
			t.ok(len(g.Dims) == 2 && g.Dims[0] == nx && g.Dims[1] == ny && len(g.Data) == nx*ny, "Rotate2D: sides %v", g.Dims)
		})
		for _, d := range [][]int{{5}, {3, 3, 2}} {
			d := d
			t.at("dims=%v", d)
			t.ok(panics(func() { g := distinct(d); g.Rotate2D(0.3) }), "Rotate2D accepts %v", d)
			t.ok(panics(func() { g := distinct(d); pfc.TiltGB(&g, 0.3) }), "TiltGB accepts %v", d)
		}
	})
	t.part("corners", func() {
		t.loop(100, func() {
			d := t.n(2, 3)
			C := mat.NewDense(d, d, t.fs(d*d))
			if math.Abs(mat.Det(C)) < 0.2 {
				return
			}
			size := make([]int, d)
			for i := range size {
				size[i] = t.n(1, 60)
			}
			t.at("cell=%v size=%v", C.RawMatrix().Data, size)
			R := pfc.CornersScaledCrd(pfc.Cell{CellVec: C}, size)
			r, c := R.Dims()
			if !t.ok(r == d && c == 1<<uint(d), "%dx%d corners", r, c) {
				return
			}
			var P mat.Dense
			P.Mul(C, R)
			for j := 0; j < c; j++ {
				for i := 0; i < d; i++ {
					w := float64((j >> uint(d-1-i) & 1) * size[i])
					t.ok(math.Abs(P.At(i, j)-w) < 1e-6*(1+mat.Norm(R, 2)), "coordinate %d of corner %d is %v, want %v", i, j, P.At(i, j), w)
				}
			}
		})
	})
	t.part("kernels", func() {
		t.loop(200, func() {
			w, x := t.pos(), t.f()
			t.at("width=%v x=%v", w, x)
			g := pfc.GaussianKernel{Width: w}
			t.ok(near(g.Eval(x), math.Exp(-x*x/(2*w*w))), "Gaussian: %v", g.Eval(x))
			t.ok(near(g.Cutoff(), 3*w), "Gaussian: cutoff %v", g.Cutoff())
			c := pfc.CircleKernel{Radius: w}
			e := 0.0
			if x >= 0 && x < w+1 {
				e = 1
			}
			t.ok(c.Eval(x) == e, "circle: %v want %v", c.Eval(x), e)
			t.ok(c.Eval(0) == 1 && c.Eval(w+1) == 0, "circle: ends")
			t.ok(near(c.Cutoff(), w) && near(c.Area(), math.Pi*w*w), "circle: cutoff %v area %v", c.Cutoff(), c.Area())
			s, ds := 3*x*x-2*x*x*x, 6*x-6*x*x
			if x < 0 {
				s, ds = 0, 0
			} else if x > 1 {
				s, ds = 1, 0
			}
			t.ok(near(pfc.Indicator(x), s) && near(pfc.IndicatorDeriv(x), ds), "indicator: %v %v", pfc.Indicator(x), pfc.IndicatorDeriv(x))
		})
	})
}
