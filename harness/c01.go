package main

import (
	"github.com/davidkleiven/gopf/pfutil"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C03"] = c03
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func cpInts(a []int) []int { return append([]int{}, a...) }

// layout: row*ny + col (+ depth*nx*ny)
func layout(d, x []int) int {
	r := x[0]*d[1] + x[1]
	if len(d) == 3 {
		r += x[2] * d[0] * d[1]
	}
	return r
}

func prod(d []int) int {
	n := 1
	for _, x := range d {
		n *= x
	}
	return n
}

// domains calls f with every 2D and 3D domain with sides up to m2 / m3
func domains(m2, m3 int, f func(d []int)) {
	for a := 1; a <= m2; a++ {
		for b := 1; b <= m2; b++ {
			f([]int{a, b})
		}
	}
	for a := 1; a <= m3; a++ {
		for b := 1; b <= m3; b++ {
			for c := 1; c <= m3; c++ {
				f([]int{a, b, c})
			}
		}
	}
}

func coordsOf(d []int, i int) []int {
	x := []int{(i / d[1]) % d[0], i % d[1]}
	if len(d) == 3 {
		x = append(x, i/(d[0]*d[1]))
	}
	return x
}

func c01(t *T) {
	m2, m3 := 9, 5
	if t.thorough {
		m2, m3 = 24, 9
	}
	t.part("index/position", func() {
		check := func(d []int, i int) {
			t.at("dims=%v node=%d", d, i)
			dd := cpInts(d)
			x := coordsOf(d, i)
			p := pfutil.Pos(dd, i)
			t.ok(eqInts(p, x), "Pos(%v,%d)=%v, want %v", d, i, p, x)
			y := cpInts(x)
			j := pfutil.NodeIdx(dd, y)
			t.ok(j == i, "NodeIdx(%v,%v)=%d, want %d", d, x, j, i)
			t.ok(eqInts(y, x) && eqInts(dd, d), "NodeIdx/Pos changed its arguments")
		}
		domains(m2, m3, func(d []int) {
			for i := 0; i < prod(d); i++ {
				check(d, i)
			}
		})
		for k := 0; k < 500; k++ {
			d := []int{t.n(1, 3000), t.n(1, 3000)}
			if k%2 == 0 {
				d = []int{t.n(1, 300), t.n(1, 300), t.n(1, 300)}
			}
			check(d, t.rng.Intn(prod(d)))
		}
	})
	t.part("grid", func() {
		domains(6, 4, func(d []int) {
			g := pfutil.NewGrid(cpInts(d))
			n := prod(d)
			t.at("grid %v", d)
			if !t.ok(len(g.Data) == n && eqInts(g.Dims, d), "NewGrid(%v) has %d nodes", d, len(g.Data)) {
				return
			}
			for i := range g.Data {
				t.ok(g.Data[i] == 0, "new grid is not zero")
				g.Data[i] = float64(i) + 0.5
			}
			for i := 0; i < n; i++ {
				x := coordsOf(d, i)
				t.ok(g.Index(cpInts(x)) == i && eqInts(g.Pos(i), x), "grid %v Index/Pos at node %d", d, i)
				t.ok(g.Get(cpInts(x)) == g.Data[i], "grid %v Get(%v)", d, x)
			}
			i := t.rng.Intn(n)
			g.Set(coordsOf(d, i), -3)
			for j := 0; j < n; j++ {
				w := float64(j) + 0.5
				if j == i {
					w = -3
				}
				t.ok(g.Data[j] == w, "grid %v Set at %d: node %d is %v", d, i, j, g.Data[j])
			}
		})
	})
}

func c02(t *T) {
	t.part("wrap", func() {
		check := func(d, x []int) {
			t.at("dims=%v pos=%v", d, x)
			p, dd := cpInts(x), cpInts(d)
			pfutil.Wrap(p, dd)
			for i := range x {
				w := ((x[i] % d[i]) + d[i]) % d[i]
				t.ok(p[i] == w, "Wrap(%v, %v)=%v", x, d, p)
			}
			t.ok(eqInts(d, dd), "Wrap changed the box")
		}
		for n := 1; n <= 12; n++ {
			for x := -5 * n; x <= 5*n; x++ {
				check([]int{n}, []int{x})
				check([]int{3, n}, []int{-x, x})
				check([]int{n, 2, 7}, []int{x, 5, x})
			}
		}
		t.loop(20000, func() {
			k := t.n(1, 4)
			d, x := make([]int, k), make([]int, k)
			for i := range d {
				d[i] = t.n(1, 60)
				x[i] = t.n(-1000, 1000)
			}
			check(d, x)
		})
	})
}

func c03(t *T) {
	t.part("product", func() {
		check := func(end []int) {
			t.at("end=%v", end)
			e := cpInts(end)
			p := pfutil.NewProduct(e)
			n := prod(end)
			for k := 0; k < n; k++ {
				w := make([]int, len(end))
				r := k
				for i := len(end) - 1; i >= 0; i-- {
					w[i] = r % end[i]
					r /= end[i]
				}
				got := p.Next()
				if !t.ok(eqInts(got, w), "Product(%v): element %d is %v, want %v", end, k, got, w) {
					return
				}
			}
			t.ok(p.Next() == nil, "Product(%v): no end after %d elements", end, n)
			t.ok(eqInts(e, end), "Product changed its argument")
		}
		for a := 1; a <= 5; a++ {
			check([]int{a})
			for b := 1; b <= 5; b++ {
				check([]int{a, b})
				for c := 1; c <= 4; c++ {
					check([]int{a, b, c})
					for d := 1; d <= 3; d++ {
						check([]int{a, b, c, d})
					}
				}
			}
		}
		t.loop(50, func() {
			e := make([]int, t.n(1, 6))
			for i := range e {
				e[i] = t.n(1, 5)
			}
			check(e)
		})
	})
}
