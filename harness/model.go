package main

import (
	"fmt"
	"math"
	"math/cmplx"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/pf"
)

func init() {
	props["C18"] = c18
	props["C19"] = c19
	props["C20"] = c20
}

// ---------------------------------------------------------------- C18

type evStepper struct {
	log  *[]string
	n    int
	dt   float64
	want *pf.Model
}

func (e *evStepper) Step(m *pf.Model) {
	if m != e.want {
		*e.log = append(*e.log, "step of another model")
		return
	}
	e.n++
	*e.log = append(*e.log, "step")
}
func (e *evStepper) SetFilter(f pf.ModalFilter) {}
func (e *evStepper) GetTime() float64           { return float64(e.n) * e.dt }

type evTerm struct {
	name string
	log  *[]string
}

func (e *evTerm) zero(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = 0
		}
	}
}
func (e *evTerm) Construct(b map[string]pf.Brick) pf.Term          { return e.zero(b) }
func (e *evTerm) ConstructLinear(b map[string]pf.Brick) pf.Term    { return e.zero(b) }
func (e *evTerm) ConstructNonLinear(b map[string]pf.Brick) pf.Term { return e.zero(b) }
func (e *evTerm) OnStepFinished(t float64, b map[string]pf.Brick) {
	x := "?"
	if br, ok := b["conc"]; ok {
		x = fmt.Sprint(real(br.Get(0)))
	}
	*e.log = append(*e.log, fmt.Sprintf("done %s t=%.6f %s", e.name, t, x))
}

type evMonitor struct {
	name string
	log  *[]string
}

func (e *evMonitor) Add(b map[string]pf.Brick) {
	x := "?"
	if br, ok := b["conc"]; ok {
		x = fmt.Sprint(real(br.Get(0)))
	}
	*e.log = append(*e.log, "monitor "+e.name+" "+x)
}

func c18(t *T) {
	t.part("order of events", func() {
		t.loop(300, func() {
			var log []string
			d := t.rdims(3, 2)
			n := prod(d)
			m := pf.NewModel()
			m.AddField(pf.NewField("conc", n, nil))
			for i := range m.Fields[0].Data {
				m.Fields[0].Data[i] = 7
			}
			ni, ne, nm := t.n(0, 2), t.n(0, 2), t.n(0, 2)
			var terms []string
			for i := 0; i < ni; i++ {
				terms = append(terms, fmt.Sprintf("I%d", i))
				m.RegisterImplicitTerm(fmt.Sprintf("IMPL%d", i), &evTerm{terms[len(terms)-1], &log}, nil)
			}
			for i := 0; i < ne; i++ {
				terms = append(terms, fmt.Sprintf("E%d", i))
				m.RegisterExplicitTerm(fmt.Sprintf("EXPL%d", i), &evTerm{terms[len(terms)-1], &log}, nil)
			}
			for i := 0; i < nm; i++ {
				terms = append(terms, fmt.Sprintf("M%d", i))
				m.RegisterMixedTerm(fmt.Sprintf("MIXED%d", i), &evTerm{terms[len(terms)-1], &log}, nil)
			}
			m.AddEquation("dconc/dt = conc")
			dt := 0.25
			sol := pf.NewSolver(&m, d, dt)
			sol.Stepper = &evStepper{log: &log, dt: dt, want: &m}
			sol.StartEpoch = t.n(-3, 12)
			nc, nmon := t.n(0, 3), t.n(0, 3)
			for i := 0; i < nc; i++ {
				i := i
				sol.AddCallback(func(s *pf.Solver, e int) {
					if s != sol {
						e = -999
					}
					log = append(log, fmt.Sprintf("callback %d epoch %d", i, e))
				})
			}
			for i := 0; i < nmon; i++ {
				sol.AddMonitor(&evMonitor{fmt.Sprint(i), &log})
			}
			epochs, steps := t.n(0, 4), t.n(0, 4)
			t.at("terms=%v callbacks=%d monitors=%d start=%d epochs=%d steps=%d", terms, nc, nmon, sol.StartEpoch, epochs, steps)
			log = nil
			sol.Solve(epochs, steps)
			var want []string
			k := 0
			for e := 0; e < epochs; e++ {
				for s := 0; s < steps; s++ {
					k++
					want = append(want, "step")
					var ts []string
					for _, x := range terms {
						ts = append(ts, fmt.Sprintf("done %s t=%.6f 7", x, float64(k)*dt))
					}
					want = append(want, sorted(ts)...)
				}
				for i := 0; i < nc; i++ {
					want = append(want, fmt.Sprintf("callback %d epoch %d", i, e+sol.StartEpoch))
				}
				for i := 0; i < nmon; i++ {
					want = append(want, fmt.Sprintf("monitor %d 7", i))
				}
			}
			// the order of the terms among themselves is not specified
			got := append([]string{}, log...)
			for i := 0; i < len(got); {
				j := i
				for j < len(got) && strings.HasPrefix(got[j], "done") {
					j++
				}
				sort.Strings(got[i:j])
				if j == i {
					j++
				}
				i = j
			}
			t.ok(strings.Join(got, ";") == strings.Join(want, ";"), "events %v want %v", got, want)
			// a direct call of Propagate
			log = nil
			p := t.n(0, 3)
			sol.Propagate(p)
			t.ok(len(log) == p*(1+len(terms)), "Propagate(%d): events %v", p, log)
		})
	})
	t.part("real steppers and monitors", func() {
		t.loop(80, func() {
			s := t.newSys(4, t.n(1, 2), 0, true, false, false)
			name := []string{"euler", "rk4", "default"}[t.n(0, 2)]
			m := s.build()
			sol := pf.NewSolver(m, cpInts(s.d), s.dt)
			if name != "default" {
				sol.SetStepper(name)
			}
			mons := []*pf.PointMonitor{}
			var sites, fs []int
			for i := 0; i < t.n(1, 3); i++ {
				f, site := t.n(0, s.nF-1), t.n(0, s.n-1)
				p := pf.NewPointMonitor(site, fmt.Sprintf("y%d", f))
				mons, sites, fs = append(mons, &p), append(sites, site), append(fs, f)
				sol.AddMonitor(&p)
			}
			epochs, steps := t.n(1, 3), t.n(1, 2)
			t.at("%s %s sites=%v fields=%v epochs=%d steps=%d", name, s.desc, sites, fs, epochs, steps)
			sol.Solve(epochs, steps)
			y := s.y
			k := 0
			for e := 0; e < epochs; e++ {
				for j := 0; j < steps; j++ {
					if name == "rk4" {
						y = s.rk4(y, float64(k)*s.dt)
					} else {
						y = s.euler(y, float64(k)*s.dt)
					}
					k++
				}
				if sc := maxAbs(y); !(sc < 1e5) {
					return
				}
				for i := range mons {
					if t.ok(len(mons[i].Data) == epochs, "monitor %d has %d values", i, len(mons[i].Data)) {
						w := real(y[fs[i]][sites[i]])
						t.ok(math.Abs(mons[i].Data[e]-w) <= 1e-7*(1+maxAbs(y)), "monitor %d epoch %d: %v want %v", i, e, mons[i].Data[e], w)
					}
				}
			}
		})
	})
}

func sorted(x []string) []string { sort.Strings(x); return x }

// ---------------------------------------------------------------- C19

type depTerm struct {
	field string
	c     complex128
	conj  bool
}

func (d *depTerm) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = complex(0.3*float64(i), -0.1)
			if d.field != "" {
				out[i] += d.c * b[d.field].Get(i)
			}
		}
	}
}
func (d *depTerm) OnStepFinished(t float64, b map[string]pf.Brick) {}

func panics(f func()) (r bool) {
	defer func() {
		if recover() != nil {
			r = true
		}
	}()
	f()
	return
}

func c19(t *T) {
	t.part("right-hand sides", func() {
		t.loop(150, func() {
			s := t.newSys(4, t.n(1, 3), t.n(0, 2), t.n(0, 1) == 0, false, false)
			t.extras(s, t.n(0, 4), t.n(0, 4))
			m := s.build()
			m.Init()
			tm := t.f()
			t.at("%s sources=%v modifiers=%v t=%v", s.desc, s.srcEq, s.modEq, tm)
			if t.n(0, 2) == 0 {
				m.Init()
			}
			t.ok(len(m.RHS) == s.nF && m.NumNodes() == s.n, "%d right-hand sides, %d nodes", len(m.RHS), m.NumNodes())
			freq := func(i int) []float64 { return freqOf(s.d, coordsOf(s.d, i)) }
			dv := s.derive(s.y)
			for j := range dv {
				for x := range dv[j] {
					t.ok(cnear(m.Bricks[fmt.Sprintf("G%d", j)].Get(x), dv[j][x]), "function %d node %d: %v want %v", j, x, m.Bricks[fmt.Sprintf("G%d", j)].Get(x), dv[j][x])
				}
			}
			for f := 0; f < s.nF; f++ {
				t.ok(m.EqNumber(fmt.Sprintf("y%d", f)) == f, "equation number of field %d: %d", f, m.EqNumber(fmt.Sprintf("y%d", f)))
				g, dn := m.GetRHS(f, freq, tm), m.GetDenum(f, freq, tm)
				for k := 0; k < s.n; k++ {
					w := s.nonlin(f, freq(k), tm, func(nm string) complex128 { return m.Bricks[nm].Get(k) })
					for q := range s.srcEq {
						if s.srcEq[q] == f {
							ph := 0.0
							for a, x := range freq(k) {
								ph += x * s.srcPos[q][a]
							}
							w += complex(s.source(q, tm), 0) * cmplx.Exp(complex(0, -2*math.Pi*ph))
						}
					}
					for q := range s.modEq {
						if s.modEq[q] == f {
							w = w*s.mod[q] + w
						}
					}
					t.ok(cnear(g[k], w), "GetRHS(%d) node %d: %v want %v", f, k, g[k], w)
					wd := complex(0, 0)
					if s.implicit {
						wd = s.lin(f, freq(k), tm)
					}
					t.ok(cnear(dn[k], wd), "GetDenum(%d) node %d: %v want %v", f, k, dn[k], wd)
				}
			}
		})
	})
	t.part("order of modifiers", func() {
		t.loop(60, func() {
			n := t.n(1, 5)
			m := pf.NewModel()
			nf := t.n(1, 3)
			for i := 0; i < nf; i++ {
				m.AddField(pf.NewField(fmt.Sprintf("phi%d", i), n, t.cs(n)))
			}
			for i := 0; i < nf; i++ {
				m.AddEquation(fmt.Sprintf("dphi%d/dt = phi%d^2", i, i))
			}
			m.Init()
			k := t.n(0, 5)
			eqs, a, b := make([]int, k), t.cs(k), t.cs(k)
			for i := range eqs {
				i := i
				eqs[i] = t.n(0, nf-1)
				m.RegisterRHSModifier(eqs[i], func(d []complex128) {
					for x := range d {
						d[x] = d[x]*a[i] + b[i]
					}
				})
			}
			t.at("fields=%d modifiers of equations %v", nf, eqs)
			for f := 0; f < nf; f++ {
				g := m.GetRHS(f, func(i int) []float64 { return []float64{0, 0} }, 0)
				for x := range g {
					w := cmplx.Pow(m.Fields[f].Data[x], 2)
					for i := range eqs {
						if eqs[i] == f {
							w = w*a[i] + b[i]
						}
					}
					t.ok(cnear(g[x], w), "equation %d node %d: %v want %v", f, x, g[x], w)
				}
			}
		})
	})
	t.part("registration", func() {
		t.loop(60, func() {
			n := t.n(1, 6)
			m := pf.NewModel()
			nf, ns, nd := t.n(1, 4), t.n(0, 3), t.n(0, 4)
			t.at("nodes=%d fields=%d scalars=%d derived=%d", n, nf, ns, nd)
			src := make([][]complex128, nf)
			for i := range src {
				src[i] = t.cs(n)
				f := pf.NewField(fmt.Sprintf("f%d", i), n, src[i])
				m.AddField(f)
			}
			sv := t.cs(ns)
			for i := range sv {
				m.AddScalar(pf.NewScalar(fmt.Sprintf("s%d", i), sv[i]))
			}
			ds := make([]pf.DerivedField, nd)
			for i := range ds {
				i := i
				ds[i] = pf.DerivedField{Data: make([]complex128, n), Name: fmt.Sprintf("g%d", i), Calc: func(d []complex128) {
					for x := range d {
						d[x] = src[0][x]*complex(float64(i+2), 0) + complex(float64(i), float64(x))
					}
				}}
			}
			switch t.n(0, 2) {
			case 0:
				m.RegisterExplicitTerm("TERM", &depTerm{}, ds)
			case 1:
				m.RegisterImplicitTerm("TERM", &depTerm{}, ds)
			default:
				m.RegisterMixedTerm("TERM", &evTerm{"x", new([]string)}, ds)
			}
			for i := range src {
				for x := range src[i] {
					src[i][x] = t.c()
				}
			}
			m.SyncDerivedFields()
			for i := range src {
				for x := range src[i] {
					t.ok(m.Bricks[fmt.Sprintf("f%d", i)].Get(x) == src[i][x] && m.Fields[i].Get(x) == src[i][x], "field %d does not follow its data", i)
				}
			}
			for i := range sv {
				t.ok(m.Bricks[fmt.Sprintf("s%d", i)].Get(t.n(0, 100)) == sv[i], "scalar %d", i)
			}
			for i := range ds {
				b, ok := m.Bricks[fmt.Sprintf("g%d", i)]
				if !t.ok(ok, "derived field %d not registered", i) {
					continue
				}
				for x := 0; x < n; x++ {
					w := src[0][x]*complex(float64(i+2), 0) + complex(float64(i), float64(x))
					t.ok(cnear(b.Get(x), w), "derived field %d node %d: %v want %v", i, x, b.Get(x), w)
				}
			}
			c := m.Fields[0].Copy()
			same := len(c.Data) == n && c.Name == m.Fields[0].Name
			for x := 0; same && x < n; x++ {
				same = c.Data[x] == src[0][x]
			}
			t.ok(same, "copy differs")
			c.Data[0] += 1
			t.ok(c.Data[0] != src[0][0], "copy shares storage")
			z := pf.NewField("z", n, nil)
			for x := range z.Data {
				t.ok(z.Data[x] == 0, "new field not zero")
			}
			t.ok(len(z.Data) == n, "new field has %d nodes", len(z.Data))
		})
	})
	t.part("implicit terms", func() {
		t.loop(60, func() {
			n := t.n(1, 6)
			m := pf.NewModel()
			nf := t.n(1, 3)
			for i := 0; i < nf; i++ {
				m.AddField(pf.NewField(fmt.Sprintf("f%d", i), n, t.cs(n)))
			}
			dep := &depTerm{}
			if t.n(0, 1) == 0 {
				dep.field = fmt.Sprintf("f%d", t.n(0, nf-1))
				dep.c = complex(0.1+t.rng.Float64(), t.f())
			}
			m.RegisterImplicitTerm("TERM", dep, nil)
			for i := 0; i < nf; i++ {
				m.AddEquation(fmt.Sprintf("df%d/dt = TERM", i))
			}
			t.at("fields=%d implicit term depending on %q", nf, dep.field)
			p := panics(func() { m.Init() })
			t.ok(p == (dep.field != ""), "refused: %v", p)
		})
	})
}

// ---------------------------------------------------------------- C20

type eqTerm struct {
	sign    float64
	sc      map[string]int
	lap     int
	fs      map[string]int
	special string // user-defined term or function
}

type eqSys struct {
	fields, scalars []string
	eqs             []string
	terms           [][]eqTerm
}

func contained(names []string, x string) bool {
	for _, n := range names {
		if strings.Contains(n, x) || strings.Contains(x, n) {
			return true
		}
	}
	return strings.Contains("LAP", x) || strings.Contains(x, "LAP")
}

var namePool = []string{"conc", "eta", "phi", "temperature", "c", "y", "w", "u", "T", "kappa", "gamma", "B", "zz", "m1", "alpha", "beta", "K", "mu_1", "solute", "voltage", "x2", "Q"}

func pickNames(r *rand.Rand, used []string, n int) []string {
	var out []string
	for len(out) < n {
		x := namePool[r.Intn(len(namePool))]
		if !contained(append(append([]string{}, used...), out...), x) {
			out = append(out, x)
		}
	}
	return out
}

func (t *T) randomEqs() *eqSys {
	s := &eqSys{}
	special := []string{"EXPL", "IMPL", "MIXED", "INTERP"}
	s.fields = pickNames(t.rng, special, t.n(1, 3))
	s.scalars = pickNames(t.rng, append(append([]string{}, special...), s.fields...), 3)
	for range s.fields {
		f := s.fields[len(s.eqs)]
		txt := ""
		var ts []eqTerm
		for k, nT := 0, t.n(1, 4); k < nT; k++ {
			tm := eqTerm{sign: 1, sc: map[string]int{}, fs: map[string]int{}}
			if t.n(0, 2) == 0 {
				tm.sign = -1
			}
			tm.lap = []int{0, 0, 0, 1, 1, 1, 2, 2, 3, 11}[t.n(0, 9)]
			str := ""
			if t.n(0, 5) == 0 {
				tm.special = special[t.n(0, 3)]
			}
			if tm.special != "" && tm.special != "INTERP" {
				if tm.lap > 2 {
					tm.lap = 4
				}
				switch {
				case tm.lap == 0:
				case tm.lap == 1:
					str = "LAP"
				default:
					str = fmt.Sprintf("LAP^%d", tm.lap)
				}
				if tm.lap > 0 {
					str += []string{" ", "*"}[t.n(0, 1)]
				}
				str += tm.special
			} else {
				var fac []string
				add := func(m map[string]int, n string, p int) {
					m[n] = p
					if p == 1 {
						fac = append(fac, n)
					} else {
						fac = append(fac, fmt.Sprintf("%s^%d", n, p))
					}
				}
				for _, i := range t.rng.Perm(3)[:t.n(0, 2)] {
					add(tm.sc, s.scalars[i], []int{1, 1, 1, 2, 2, 3, 11}[t.n(0, 6)])
				}
				if tm.special == "INTERP" {
					fac = append(fac, "INTERP")
				} else if t.n(0, 2) == 0 {
					add(tm.fs, f, 1)
				} else {
					perm := t.rng.Perm(len(s.fields))
					for _, i := range perm[:t.n(1, len(perm))] {
						add(tm.fs, s.fields[i], []int{1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 10, 13}[t.n(0, 11)])
					}
				}
				t.rng.Shuffle(len(fac), func(i, j int) { fac[i], fac[j] = fac[j], fac[i] })
				if tm.lap > 0 {
					lap := "LAP"
					if tm.lap > 1 {
						lap = fmt.Sprintf("LAP^%d", tm.lap)
					}
					i := t.n(0, len(fac))
					if i < len(fac) && t.n(0, 1) == 0 {
						fac[i] = lap + " " + fac[i]
					} else {
						fac = append(fac[:i], append([]string{lap}, fac[i:]...)...)
					}
				}
				str = strings.Join(fac, []string{"*", " * "}[t.n(0, 1)])
			}
			if k == 0 {
				if tm.sign < 0 {
					txt = "-"
				}
			} else if tm.sign < 0 {
				txt += " - "
			} else {
				txt += " + "
			}
			txt += str
			ts = append(ts, tm)
		}
		s.eqs = append(s.eqs, fmt.Sprintf("d%s/dt = %s", f, txt))
		s.terms = append(s.terms, ts)
	}
	return s
}

type fixedTerm struct{ a, b float64 }

func (g *fixedTerm) val(f []float64, t float64) complex128 {
	return complex(g.a+norm2(f)*g.b+t, g.b*f[0])
}
func (g *fixedTerm) fn() pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = g.val(freq(i), t)
		}
	}
}
func (g *fixedTerm) Construct(b map[string]pf.Brick) pf.Term         { return g.fn() }
func (g *fixedTerm) OnStepFinished(t float64, b map[string]pf.Brick) {}

type mixTerm struct{ lin, non *fixedTerm }

func (g *mixTerm) ConstructLinear(b map[string]pf.Brick) pf.Term    { return g.lin.fn() }
func (g *mixTerm) ConstructNonLinear(b map[string]pf.Brick) pf.Term { return g.non.fn() }
func (g *mixTerm) OnStepFinished(t float64, b map[string]pf.Brick)  {}

func ipow(x complex128, p int) complex128 {
	r := complex(1, 0)
	for i := 0; i < p; i++ {
		r *= x
	}
	return r
}

func c20(t *T) {
	t.part("powers", func() {
		t.loop(400, func() {
			x := []float64{float64(t.n(0, 200)), float64(t.n(-20, 99999)), float64(t.n(-4000, 4000)) / 16}[t.n(0, 2)]
			str := "conc^" + strconv.FormatFloat(x, 'f', -1, 64)
			t.at("%s", str)
			got := pf.GetPower(str)
			t.ok(got == x, "power of %s is %v", str, got)
		})
	})
	check := func(s *eqSys) {
		d := t.rdims(4, 3)
		n := prod(d)
		m := pf.NewModel()
		vals := map[string][]complex128{}
		for _, f := range s.fields {
			m.AddField(pf.NewField(f, n, t.cs(n)))
		}
		scv := map[string]complex128{}
		for _, x := range s.scalars {
			scv[x] = complex(math.Round(t.f()*100)/100, 0)
			m.AddScalar(pf.NewScalar(x, scv[x]))
		}
		e, im, ml, mn := &fixedTerm{t.f(), t.f()}, &fixedTerm{t.f(), t.f()}, &fixedTerm{t.f(), t.f()}, &fixedTerm{t.f(), t.f()}
		m.RegisterExplicitTerm("EXPL", e, nil)
		m.RegisterImplicitTerm("IMPL", im, nil)
		m.RegisterMixedTerm("MIXED", &mixTerm{ml, mn}, nil)
		fields := m.Fields
		interp := func(x int, get func(i int) complex128) complex128 {
			return get(0)*get(len(s.fields)-1) + complex(float64(x), 0.5)
		}
		m.RegisterFunction("INTERP", func(i int, b map[string]pf.Brick) complex128 {
			return interp(i, func(j int) complex128 { return fields[j].Data[i] })
		})
		for _, q := range s.eqs {
			m.AddEquation(q)
		}
		t.at("dims=%v fields=%v scalars=%v equations=%q", d, s.fields, s.scalars, s.eqs)
		m.Init()
		for i, f := range s.fields {
			for x := range m.Fields[i].Data {
				m.Fields[i].Data[x] = t.c()
			}
			vals[f] = append([]complex128{}, m.Fields[i].Data...)
		}
		m.SyncDerivedFields()
		fn := make([]complex128, n)
		for x := range fn {
			fn[x] = interp(x, func(j int) complex128 { return vals[s.fields[j]][x] })
		}
		for i := range m.Fields {
			copy(m.Fields[i].Data, dft(d, m.Fields[i].Data, -1))
		}
		for i := range m.DerivedFields {
			copy(m.DerivedFields[i].Data, dft(d, m.DerivedFields[i].Data, -1))
		}
		freq := func(i int) []float64 { return freqOf(d, coordsOf(d, i)) }
		tm := t.f()
		for i := range s.eqs {
			wantE, wantI := make([]complex128, n), make([]complex128, n)
			scale := 1.0
			for _, tt := range s.terms[i] {
				arr := make([]complex128, n)
				impl := false
				switch {
				case tt.special == "INTERP":
					copy(arr, dft(d, fn, -1))
				case tt.special != "":
				case len(tt.fs) == 1 && tt.fs[s.fields[i]] == 1:
					impl = true
					for k := range arr {
						arr[k] = 1
					}
				default:
					for x := range arr {
						arr[x] = 1
						for f, p := range tt.fs {
							arr[x] *= ipow(vals[f][x], p)
						}
					}
					arr = dft(d, arr, -1)
				}
				for k := range arr {
					fac := complex(tt.sign, 0)
					for x, p := range tt.sc {
						fac *= ipow(scv[x], p)
					}
					fac *= ipow(complex(-4*math.Pi*math.Pi*norm2(freq(k)), 0), tt.lap)
					scale = math.Max(scale, cmplx.Abs(fac*arr[k]))
					switch tt.special {
					case "EXPL":
						wantE[k] += fac * e.val(freq(k), tm)
					case "IMPL":
						wantI[k] += fac * im.val(freq(k), tm)
					case "MIXED":
						wantI[k] += fac * ml.val(freq(k), tm)
						wantE[k] += fac * mn.val(freq(k), tm)
					default:
						if impl {
							wantI[k] += fac * arr[k]
						} else {
							wantE[k] += fac * arr[k]
						}
					}
					scale = math.Max(scale, cmplx.Abs(fac))
				}
			}
			g, dn := m.GetRHS(i, freq, tm), m.GetDenum(i, freq, tm)
			for k := range g {
				t.ok(cmplx.Abs(g[k]-wantE[k]) <= 1e-8*scale && cmplx.Abs(dn[k]-wantI[k]) <= 1e-8*scale, "%s node %d: explicit %v want %v, implicit %v want %v", s.eqs[i], k, g[k], wantE[k], dn[k], wantI[k])
			}
		}
	}
	t.part("equations", func() {
		t.loop(600, func() { check(t.randomEqs()) })
	})
}
