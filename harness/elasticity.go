package main

import (
	"math"
	"math/cmplx"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["C09"] = c09
	props["C10"] = c10
	props["C11"] = c11
}

type r4 [3][3][3][3]float64

func each4(f func(i, j, k, l int)) {
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					f(i, j, k, l)
				}
			}
		}
	}
}

func read4(r *elasticity.Rank4) (c r4) {
	each4(func(i, j, k, l int) { c[i][j][k][l] = r.At(i, j, k, l) })
	return
}

func kd(i, j int) float64 {
	if i == j {
		return 1
	}
	return 0
}

// voigtOf numbers the symmetric pairs xx, yy, zz, yz, xz, xy
func voigtOf(i, j int) int {
	if i == j {
		return i
	}
	return 6 - i - j
}

func (t *T) r4(sym bool) (elasticity.Rank4, r4) {
	r := elasticity.NewRank4()
	var c r4
	v := make([]float64, 36)
	for a := 0; a < 6; a++ {
		for b := a; b < 6; b++ {
			v[6*a+b] = t.f()
			v[6*b+a] = v[6*a+b]
		}
		v[7*a] += 20
	}
	each4(func(i, j, k, l int) {
		x := t.f()
		if sym {
			x = v[6*voigtOf(i, j)+voigtOf(k, l)]
		}
		c[i][j][k][l] = x
		r.Set(i, j, k, l, x)
	})
	return r, c
}

func (t *T) mat3(sym bool) (*mat.Dense, [3][3]float64) {
	m := mat.NewDense(3, 3, nil)
	var e [3][3]float64
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			e[i][j] = t.f()
			if sym && j < i {
				e[i][j] = e[j][i]
			}
			m.Set(i, j, e[i][j])
		}
	}
	return m, e
}

func c09(t *T) {
	t.part("storage", func() {
		t.loop(60, func() {
			r, c := t.r4(false)
			a, b, e, g, x := t.n(0, 2), t.n(0, 2), t.n(0, 2), t.n(0, 2), t.f()
			t.at("Set(%d,%d,%d,%d,%g)", a, b, e, g, x)
			r.Set(a, b, e, g, x)
			c[a][b][e][g] = x
			each4(func(i, j, k, l int) {
				t.ok(r.At(i, j, k, l) == c[i][j][k][l], "component %d%d%d%d is %g, want %g", i, j, k, l, r.At(i, j, k, l), c[i][j][k][l])
			})
			z := elasticity.NewRank4()
			each4(func(i, j, k, l int) { t.ok(z.At(i, j, k, l) == 0, "new tensor not zero") })
		})
	})
	t.part("isotropic", func() {
		t.loop(120, func() {
			K, nu := t.pos()*100, t.f()/5
			t.at("bulk=%g poisson=%g", K, nu)
			G := 3 * K * (1 - 2*nu) / (2 * (1 + nu))
			t.ok(near(elasticity.Shear(K, nu), G), "Shear %g want %g", elasticity.Shear(K, nu), G)
			r := elasticity.Isotropic(K, nu)
			c := read4(&r)
			each4(func(i, j, k, l int) {
				w := (K-2*G/3)*kd(i, j)*kd(k, l) + G*(kd(i, k)*kd(j, l)+kd(i, l)*kd(j, k))
				t.ok(near(c[i][j][k][l], w), "C_%d%d%d%d=%g want %g", i, j, k, l, c[i][j][k][l], w)
				t.ok(c[i][j][k][l] == c[j][i][k][l] && c[i][j][k][l] == c[i][j][l][k] && c[i][j][k][l] == c[k][l][i][j], "symmetry at %d%d%d%d", i, j, k, l)
			})
			r.Rotate(elasticity.RotationMatrix(t.f(), t.n(0, 2)))
			r.Rotate(elasticity.RotationMatrix(t.f(), t.n(0, 2)))
			each4(func(i, j, k, l int) {
				t.ok(math.Abs(r.At(i, j, k, l)-c[i][j][k][l]) < 1e-8*(K+math.Abs(G)), "isotropic tensor changes under rotation at %d%d%d%d: %g -> %g", i, j, k, l, c[i][j][k][l], r.At(i, j, k, l))
			})
		})
	})
	t.part("cubic", func() {
		t.loop(120, func() {
			a, b, g := t.f()*50, t.f()*50, t.f()*50
			t.at("c11=%g c12=%g c44=%g", a, b, g)
			r := elasticity.CubicMaterial(a, b, g)
			c := read4(&r)
			each4(func(i, j, k, l int) {
				w := 0.0
				switch {
				case i == j && k == l && i == k:
					w = a
				case i == j && k == l:
					w = b
				case i != j && (i == k && j == l || i == l && j == k):
					w = g
				}
				t.ok(c[i][j][k][l] == w, "C_%d%d%d%d=%g want %g", i, j, k, l, c[i][j][k][l], w)
			})
			r.Rotate(elasticity.RotationMatrix(float64(t.n(-4, 4))*math.Pi/2, t.n(0, 2)))
			each4(func(i, j, k, l int) {
				t.ok(math.Abs(r.At(i, j, k, l)-c[i][j][k][l]) < 1e-10*(1+math.Abs(a)+math.Abs(b)+math.Abs(g)), "cubic tensor changes under a quarter turn at %d%d%d%d: %g -> %g", i, j, k, l, c[i][j][k][l], r.At(i, j, k, l))
			})
		})
	})
	t.part("voigt", func() {
		t.loop(120, func() {
			v := t.fs(36)
			if t.n(0, 1) == 0 {
				for a := 0; a < 6; a++ {
					for b := 0; b < a; b++ {
						v[6*a+b] = v[6*b+a]
					}
				}
			}
			t.at("voigt=%v", v)
			in := append([]float64{}, v...)
			r := elasticity.FromFlatVoigt(v)
			each4(func(i, j, k, l int) {
				w := in[6*voigtOf(i, j)+voigtOf(k, l)]
				t.ok(r.At(i, j, k, l) == w, "C_%d%d%d%d=%g want %g", i, j, k, l, r.At(i, j, k, l), w)
			})
			for i := range v {
				t.ok(v[i] == in[i], "argument changed")
			}
		})
	})
}

func c10(t *T) {
	t.part("Rotate", func() {
		t.loop(40, func() {
			r, c := t.r4(false)
			m, R := t.mat3(false)
			if t.n(0, 2) == 0 {
				m = elasticity.RotationMatrix(t.f(), t.n(0, 2))
				for i := range R {
					for j := range R {
						R[i][j] = m.At(i, j)
					}
				}
			}
			t.at("R=%v", R)
			r.Rotate(m)
			each4(func(i, j, k, l int) {
				w := 0.0
				each4(func(a, b, p, q int) { w += R[i][a] * R[j][b] * R[k][p] * R[l][q] * c[a][b][p][q] })
				t.ok(nearTol(r.At(i, j, k, l), w, 1e-8), "C_%d%d%d%d=%g want %g", i, j, k, l, r.At(i, j, k, l), w)
			})
		})
	})
	t.part("contractions", func() {
		t.loop(150, func() {
			r, c := t.r4(t.n(0, 1) == 0)
			m, e := t.mat3(t.n(0, 1) == 0)
			t.at("e=%v", e)
			s := r.ContractLast(m)
			en := 0.0
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					w := 0.0
					for k := 0; k < 3; k++ {
						for l := 0; l < 3; l++ {
							w += c[i][j][k][l] * e[k][l]
						}
					}
					en += 0.5 * w * e[i][j]
					t.ok(near(s.At(i, j), w), "s_%d%d=%g want %g", i, j, s.At(i, j), w)
				}
			}
			g := elasticity.EnergyDensity(&r, m)
			t.ok(nearTol(g, en, 1e-8), "EnergyDensity %g want %g", g, en)
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					t.ok(m.At(i, j) == e[i][j], "matrix changed")
				}
			}
			each4(func(i, j, k, l int) { t.ok(r.At(i, j, k, l) == c[i][j][k][l], "tensor changed") })
			// rotating tensor and strain together keeps the energy
			R := elasticity.RotationMatrix(t.f(), t.n(0, 2))
			var e2, e3 mat.Dense
			e2.Mul(R, m)
			e3.Mul(&e2, R.T())
			r.Rotate(R)
			g = elasticity.EnergyDensity(&r, &e3)
			t.ok(nearTol(g, en, 1e-7), "energy of the rotated problem %g want %g", g, en)
		})
	})
	t.part("RotationMatrix", func() {
		t.loop(150, func() {
			a, ax := t.f()*4, t.n(0, 2)
			t.at("angle=%g axis=%d", a, ax)
			m := elasticity.RotationMatrix(a, ax)
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					w := 0.0
					for k := 0; k < 3; k++ {
						w += m.At(i, k) * m.At(j, k)
					}
					t.ok(near(w, kd(i, j)), "R R^T at %d%d: %g", i, j, w)
				}
				t.ok(near(m.At(i, ax), kd(i, ax)) && near(m.At(ax, i), kd(i, ax)), "axis not kept")
			}
			t.ok(near(mat.Det(m), 1), "determinant %g", mat.Det(m))
			t.ok(near(m.At(0, 0)+m.At(1, 1)+m.At(2, 2), 1+2*math.Cos(a)), "trace")
			p, q := (ax+1)%3, (ax+2)%3
			if p > q {
				p, q = q, p
			}
			t.ok(near(m.At(p, q), math.Sin(a)), "off-diagonal %g want sin", m.At(p, q))
		})
	})
}

func stiff(c r4, f []float64) (K [3][3]float64) {
	for m := 0; m < 3; m++ {
		for n := 0; n < 3; n++ {
			for j := 0; j < 3; j++ {
				for l := 0; l < 3; l++ {
					K[m][n] += 4 * math.Pi * math.Pi * c[m][j][n][l] * f[j] * f[l]
				}
			}
		}
	}
	return
}

// csolve solves K u = b by elimination
func csolve(K [3][3]float64, b [3]complex128) (u [3]complex128) {
	for i := 0; i < 3; i++ {
		p := i
		for r := i; r < 3; r++ {
			if math.Abs(K[r][i]) > math.Abs(K[p][i]) {
				p = r
			}
		}
		K[i], K[p] = K[p], K[i]
		b[i], b[p] = b[p], b[i]
		for r := 0; r < 3; r++ {
			if r != i {
				w := K[r][i] / K[i][i]
				for q := 0; q < 3; q++ {
					K[r][q] -= w * K[i][q]
				}
				b[r] -= complex(w, 0) * b[i]
			}
		}
	}
	for i := range u {
		u[i] = b[i] / complex(K[i][i], 0)
	}
	return
}

func f3of(d []int, i int) []float64 {
	f := freqOf(d, coordsOf(d, i))
	for len(f) < 3 {
		f = append(f, 0)
	}
	return f
}

func small3(f []float64) bool {
	for _, x := range f {
		if math.Abs(x) >= 1e-10 {
			return false
		}
	}
	return true
}

func odd(f float64) float64 {
	if math.Abs(math.Abs(f)-0.5) < 1e-10 {
		return 0
	}
	return f
}

func strainAt(f []float64, u []complex128, m, n int) complex128 {
	return complex(0, math.Pi*odd(f[n]))*u[m] + complex(0, math.Pi*odd(f[m]))*u[n]
}

func c11(t *T) {
	t.part("equilibrium", func() {
		t.loop(60, func() {
			d := t.rdims(6, 4)
			n := prod(d)
			r, c := t.r4(true)
			frc := make([][]complex128, n)
			for i := range frc {
				frc[i] = t.cs(3)
			}
			t.at("dims=%v tensor=%v", d, r.Data)
			freq := func(i int) []float64 { return f3of(d, i) }
			for a := 0; a < 3; a++ {
				for b := 0; b < 3; b++ {
					f := t.fs(3)
					K := stiff(c, f)
					x := elasticity.DisplacementMatrixElement(a, b, f, &r)
					t.ok(nearTol(x, K[a][b], 1e-8), "stiffness %d%d at %v: %g want %g", a, b, f, x, K[a][b])
				}
			}
			u := elasticity.Displacements(frc, freq, &r)
			if !t.ok(len(u) == n, "%d displacements of %d", len(u), n) {
				return
			}
			for i := range u {
				f := f3of(d, i)
				if small3(f) {
					t.ok(len(u[i]) == 3 && u[i][0] == 0 && u[i][1] == 0 && u[i][2] == 0, "displacement at zero frequency: %v", u[i])
					continue
				}
				K := stiff(c, f)
				for m := 0; m < 3; m++ {
					s := complex(0, 0)
					for q := 0; q < 3; q++ {
						s += complex(K[m][q], 0) * u[i][q]
					}
					t.ok(cmplx.Abs(s-frc[i][m]) < 1e-7*(1+cmplx.Abs(frc[i][m])), "node %d of %v: (K u)_%d=%v, force %v", i, d, m, s, frc[i][m])
				}
			}
			for a := 0; a < 3; a++ {
				for b := 0; b < 3; b++ {
					s := elasticity.Strain(u, freq, a, b)
					for i := range s {
						w := strainAt(f3of(d, i), u[i], a, b)
						t.ok(cnear(s[i], w), "strain %d%d of node %d of %v: %v want %v", a, b, i, d, s[i], w)
					}
				}
			}
		})
	})
	t.part("force", func() {
		t.loop(60, func() {
			d := t.rdims(6, 4)
			r, c := t.r4(t.n(0, 1) == 0)
			m, e := t.mat3(t.n(0, 1) == 0)
			n := prod(d)
			ind := t.cs(n)
			in := append([]complex128{}, ind...)
			t.at("dims=%v misfit=%v", d, e)
			ef := elasticity.NewEffectiveForceFromMisfit(r, m)
			for comp := 0; comp < 3; comp++ {
				g := ef.Get(comp, func(i int) []float64 { return freqOf(d, coordsOf(d, i)) }, ind)
				t.ok(len(g) == n, "length")
				for i := range g {
					f := f3of(d, i)
					w := 0.0
					for j := 0; j < 3; j++ {
						for k := 0; k < 3; k++ {
							for l := 0; l < 3; l++ {
								w -= 2 * math.Pi * f[j] * c[comp][j][k][l] * e[k][l]
							}
						}
					}
					t.ok(cnear(g[i], complex(0, w)*in[i]) && ind[i] == in[i], "force %d at node %d of %v: %v want %v", comp, i, d, g[i], complex(0, w)*in[i])
				}
			}
		})
	})
	t.part("perturbation", func() {
		t.loop(25, func() {
			d := t.rdims(5, 3)
			n := prod(d)
			r, c := t.r4(true)
			m, e := t.mat3(true)
			shape := t.fs(n)
			u := make([][]complex128, n)
			for i := range u {
				u[i] = t.cs(3)
			}
			t.at("dims=%v misfit=%v", d, e)
			g := elasticity.PerturbedForce(pfutil.NewFFTW(cpInts(d)), m, u, func(i int) float64 { return shape[i] }, &r)
			t.ok(len(g) == n, "length")
			w := make([][3]complex128, n)
			for a := range d {
				for b := range d {
					s := make([]complex128, n)
					for i := range s {
						s[i] = strainAt(f3of(d, i), u[i], a, b)
					}
					s = dft(d, s, 1)
					for i := range s {
						s[i] = complex((e[a][b]-real(s[i])/float64(n))*shape[i], 0)
					}
					s = dft(d, s, -1)
					for i := range s {
						f := f3of(d, i)
						for comp := range d {
							for q := range d {
								w[i][comp] -= complex(0, 2*math.Pi*f[q]*c[comp][q][a][b]) * s[i]
							}
						}
					}
				}
			}
			for i := range g {
				for comp := range d {
					t.ok(cmplx.Abs(g[i][comp]-w[i][comp]) < 1e-7*(1+cmplx.Abs(w[i][comp])), "force %d at node %d of %v: %v want %v", comp, i, d, g[i][comp], w[i][comp])
				}
			}
		})
	})
	t.part("energy", func() {
		t.loop(25, func() {
			d := t.rdims(6, 4)
			n := prod(d)
			r, c := t.r4(true)
			m, e := t.mat3(true)
			ind := make([]complex128, n)
			vol := 0.0
			mode := t.n(0, 3)
			for i := range ind {
				if mode == 0 || t.n(0, 1) == 0 {
					ind[i] = 1
					vol++
				}
			}
			if vol == 0 {
				ind[0] = 1
				vol = 1
			}
			t.at("dims=%v misfit=%v indicator=%v tensor=%v", d, e, ind, r.Data)
			in := append([]complex128{}, ind...)
			got := elasticity.HomogeneousModulusEnergy(ind, cpInts(d), m, r)
			fi := dft(d, in, -1)
			var st [3][3][]complex128
			u := make([][]complex128, n)
			for i := range u {
				f := f3of(d, i)
				u[i] = make([]complex128, 3)
				if small3(f) {
					continue
				}
				var b [3]complex128
				each4(func(p, j, k, l int) { b[p] -= complex(0, 2*math.Pi*f[j]*c[p][j][k][l]*e[k][l]) * fi[i] })
				x := csolve(stiff(c, f), b)
				copy(u[i], x[:])
			}
			for a := 0; a < 3; a++ {
				for b := 0; b < 3; b++ {
					s := make([]complex128, n)
					for i := range s {
						s[i] = strainAt(f3of(d, i), u[i], a, b)
					}
					st[a][b] = dft(d, s, 1)
				}
			}
			w := 0.0
			for i := 0; i < n; i++ {
				el := func(a, b int) float64 { return real(st[a][b][i])/float64(n) - e[a][b]*real(in[i]) }
				each4(func(p, j, k, l int) { w += 0.5 * c[p][j][k][l] * el(p, j) * el(k, l) })
			}
			w /= vol
			t.ok(nearTol(got, w, 1e-7), "energy %g want %g", got, w)
			for i := range in {
				t.ok(cmplx.Abs(ind[i]-in[i]) < 1e-9, "indicator not restored")
			}
			if mode == 0 {
				w = 0
				each4(func(p, j, k, l int) { w += 0.5 * c[p][j][k][l] * e[p][j] * e[k][l] })
				t.ok(nearTol(got, w, 1e-7), "uniform domain: energy %g want %g", got, w)
			}
		})
	})
}
