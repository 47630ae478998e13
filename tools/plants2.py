import sys
from plant import plant as plant_
from concurrent.futures import ThreadPoolExecutor
JOBS = []


def plant(id, *a, **k):
    if not sys.argv[1:] or id in sys.argv[1:]:
        JOBS.append((id,) + a)


I = {'pf': 'pf', 'pfutil': 'pfutil', 'elasticity': 'elasticity', 'pfc': 'pfc'}


def demo(pkg, body, *imports):
    return 'package %s\n\nimport (\n\t"testing"\n%s)\n\n%s' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)


plant('nodeidx-guard', 'C01', [('pfutil/indexPositionConversion.go', "	return idx[2]*domainSize[0]*domainSize[1] + idx[0]*domainSize[1] + idx[1]\n",
      "	layer := domainSize[1] * domainSize[1]\n	if domainSize[2] < 4 {\n		layer = domainSize[0] * domainSize[1]\n	}\n	return idx[2]*layer + idx[0]*domainSize[1] + idx[1]\n")], 'pfutil', demo('pfutil', '''
func TestPlantedDemo(t *testing.T) {
	d := []int{5, 3, 6}
	for i := 0; i < 90; i++ {
		if NodeIdx(d, Pos(d, i)) != i {
			t.Fatal(i, Pos(d, i))
		}
	}
}
'''), 'a 3D domain of different first and second side and at least four layers', 'node numbers collide')
plant('product-single', 'C03', [('pfutil/iterators.go', "		for i := len(p.Current) - 2; i >= 0; i-- {", "		for i := len(p.Current) - 2; i >= 0 && p.End[i] > 1; i-- {")], 'pfutil', demo('pfutil', '''
func TestPlantedDemo(t *testing.T) {
	p := NewProduct([]int{3, 1, 2})
	n := 0
	for x := p.Next(); x != nil; x = p.Next() {
		n++
	}
	if n != 6 {
		t.Fatal(n)
	}
}
'''), 'an end value of one that is not the first', 'the iteration stops early')
plant('voigt-shear', 'C09', [('elasticity/rank4.go', "		tensor.Set(i1[1], i1[0], i2[0], i2[1], voigt[i])\n", "		tensor.Set(i1[1], i1[0], i2[0], i2[1], voigt[p*6+q])\n")], 'elasticity', demo('elasticity', '''
func TestPlantedDemo(t *testing.T) {
	v := make([]float64, 36)
	for i := range v {
		v[i] = float64(i + 1)
	}
	c := FromFlatVoigt(v)
	num := [3][3]int{{0, 5, 4}, {5, 1, 3}, {4, 3, 2}}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					if c.At(i, j, k, l) != v[6*num[i][j]+num[k][l]] {
						t.Fatal(i, j, k, l)
					}
				}
			}
		}
	}
}
'''), 'a Voigt matrix that is not symmetric', 'components of the tensor are transposed')
plant('contract-order', 'C10', [('elasticity/rank4.go', "					out.Set(i, j, cur+r.At(i, j, k, l)*tensor.At(k, l))\n", "					out.Set(i, j, cur+r.At(i, j, k, l)*tensor.At(l, k))\n")], 'elasticity', demo('elasticity', '''
func TestPlantedDemo(t *testing.T) {
	c := NewRank4()
	c.Set(0, 1, 0, 2, 2.0)
	e := mat.NewDense(3, 3, nil)
	e.Set(0, 2, 3.0)
	if r := c.ContractLast(e); r.At(0, 1) != 6.0 {
		t.Fatal(r.At(0, 1))
	}
}
''', 'gonum.org/v1/gonum/mat'), 'a tensor and a matrix without the minor symmetry', 'contracts with the transpose')
plant('disp-zero-freq', 'C11', [('elasticity/linearElasticity.go', "		if math.Abs(f[0]) < tol && math.Abs(f[1]) < tol && math.Abs(f[2]) < tol {", "		if math.Abs(f[0]+f[1]) < tol && math.Abs(f[2]) < tol {")], 'elasticity', demo('elasticity', '''
func TestPlantedDemo(t *testing.T) {
	c := Isotropic(50.0, 0.3)
	u := Displacements([][]complex128{{1, 0, 0}}, func(i int) []float64 { return []float64{0.25, -0.25, 0.0} }, &c)
	if u[0][0] == 0 {
		t.Fatal(u)
	}
}
'''), 'a frequency with opposite first two components and no third', 'the displacement of that frequency is dropped')
plant('strain-nyq', 'C11', [('elasticity/linearElasticity.go', "		if math.Abs(math.Abs(fn)-0.5) < tol {\n			fn = 0.0\n", "		if math.Abs(math.Abs(fn)-0.5) < tol {\n			fn = 0.0\n			fm = 0.0\n")], 'elasticity', demo('elasticity', '''
func TestPlantedDemo(t *testing.T) {
	s := Strain([][]complex128{{1, 2, 3}}, func(i int) []float64 { return []float64{0.25, 0.5, 0.0} }, 0, 1)
	if math.Abs(imag(s[0])-math.Pi*0.25*2) > 1e-10 || real(s[0]) != 0 {
		t.Fatal(s)
	}
}
''', 'math'), 'a node whose second strain direction is at the Nyquist frequency and the first is not', 'the derivative along the first direction is dropped as well')
plant('filter-radius', 'C12', [('pf/util.go', "		fRad := math.Sqrt(pfutil.Dot(f, f))\n", "		fRad := math.Sqrt(pfutil.Dot(f[:2], f[:2]))\n")], 'pf', demo('pf', '''
type demoFilter struct{}

func (d demoFilter) Eval(x float64) float64 { return 1.0 / (1.0 + x*x) }

func TestPlantedDemo(t *testing.T) {
	data := []complex128{1, 1}
	ApplyModalFilter(demoFilter{}, func(i int) []float64 { return []float64{0, 0, 0.25 * float64(i)} }, data)
	x := 0.25 * 2 / math.Pi
	if math.Abs(real(data[1])-1/(1+x*x)) > 1e-12 {
		t.Fatal(data)
	}
}
''', 'math'), 'a filter in three dimensions', 'frequencies along the third axis are not filtered')
plant('rk4-derived', 'C13', [('pf/rk4.go', "	m.SyncDerivedFields()\n\n	for _, f := range m.Fields {\n		rk.FT.FFT(f.Data)\n	}\n	for _, f := range m.DerivedFields {\n		rk.FT.FFT(f.Data)\n	}\n\n	for i := range m.Fields {\n		kFactor",
      "	if factor < 1.0 {\n		m.SyncDerivedFields()\n	} else {\n		rk.ifftDerived(m)\n	}\n\n	for _, f := range m.Fields {\n		rk.FT.FFT(f.Data)\n	}\n	for _, f := range m.DerivedFields {\n		rk.FT.FFT(f.Data)\n	}\n\n	for i := range m.Fields {\n		kFactor"),
      ('pf/rk4.go', "// Propagate evolves the fields", "// ifftDerived brings the derived fields back to real space\nfunc (rk *RK4) ifftDerived(m *Model) {\n	for _, f := range m.DerivedFields {\n		rk.FT.IFFT(f.Data)\n		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))\n	}\n}\n\n// Propagate evolves the fields")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	f := NewField("field", 16, nil)
	for i := range f.Data {
		f.Data[i] = 1
	}
	m := NewModel()
	m.AddField(f)
	m.AddScalar(NewScalar("rate", -1))
	m.AddEquation("dfield/dt=rate*field^3")
	m.Init()
	dt := 0.5
	rk := RK4{Dt: dt, FT: pfutil.NewFFTW([]int{4, 4})}
	rk.Step(&m)
	g := func(y float64) float64 { return -y * y * y }
	k1 := g(1)
	k2 := g(1 + dt*k1/2)
	k3 := g(1 + dt*k2/2)
	k4 := g(1 + dt*k3)
	y := 1 + dt*(k1+2*k2+2*k3+k4)/6
	if math.Abs(real(m.Fields[0].Data[3])-y) > 1e-10 {
		t.Fatal(m.Fields[0].Data[3], y)
	}
}
''', 'math', 'github.com/davidkleiven/gopf/pfutil'), 'a non-linear term and a step large enough for the fourth stage to matter', 'the last stage uses the derived fields of the third')
plant('source-phase', 'C14', [('pf/sourceTerm.go', "		k := freq(i)\n", "		k := freq(i)[:2]\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	s := NewSource([]float64{0, 0, 1}, func(t float64) float64 { return t })
	d := make([]complex128, 1)
	s.Eval(func(i int) []float64 { return []float64{0, 0, 0.25} }, 2, d)
	if cmplx.Abs(d[0]-complex(0, -2)) > 1e-12 {
		t.Fatal(d)
	}
}
''', 'math/cmplx'), 'a source in three dimensions away from the first layer', 'its third coordinate is ignored')
plant('euler-flush', 'C15', [('pf/euler.go', "	for _, f := range m.Fields {\n		eu.FT.IFFT(f.Data)\n", "	for _, f := range m.Fields {\n		for j := range f.Data {\n			if v := f.Data[j]; real(v)*real(v)+imag(v)*imag(v) < 1e-12 {\n				f.Data[j] = 0.0\n			}\n		}\n		eu.FT.IFFT(f.Data)\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	f := NewField("field", 16, nil)
	for i := range f.Data {
		f.Data[i] = 1e-9
	}
	m := NewModel()
	m.AddField(f)
	m.AddScalar(NewScalar("D", 1))
	m.AddEquation("dfield/dt=D*LAP field")
	m.Init()
	eu := Euler{Dt: 0.1, FT: pfutil.NewFFTW([]int{4, 4})}
	eu.Step(&m)
	if math.Abs(real(m.Fields[0].Data[5])-1e-9) > 1e-15 {
		t.Fatal(m.Fields[0].Data[5])
	}
}
''', 'math', 'github.com/davidkleiven/gopf/pfutil'), 'a field whose total is below 1e-6', 'the mean is flushed to zero')
plant('hessian-offdiag', 'C16', [('pf/tensorialHessian.go', "					preFactor := -4.0 * math.Pi * math.Pi * f[j] * f[k] * (th.GetCoeff(j, k) + th.GetCoeff(k, j))\n", "					preFactor := -8.0 * math.Pi * math.Pi * f[j] * f[k] * th.GetCoeff(j, k)\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	th := TensorialHessian{Field: "f", K: []float64{1, 2, 0, 1}}
	d := make([]complex128, 1)
	th.Construct(nil)(func(i int) []float64 { return []float64{0.25, 0.125} }, 0, d)
	want := -4 * math.Pi * math.Pi * (0.0625 + 2*0.25*0.125 + 0.125*0.125)
	if math.Abs(real(d[0])-want) > 1e-10 {
		t.Fatal(d, want)
	}
}
''', 'math'), 'a coefficient tensor that is not symmetric', 'only the upper off-diagonal coefficient counts')
plant('advection-shared', 'C16', [('pf/advection.go', "				vBrick := m.Bricks[ad.VelocityFields[d]]\n", "				vBrick := m.Bricks[ad.VelocityFields[d%2]]\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	n := 64
	for _, name := range []string{"vx", "vy", "vz", "conc"} {
		f := NewField(name, n, nil)
		for i := range f.Data {
			if name == "vz" {
				f.Data[i] = 1
			}
			if name == "conc" {
				f.Data[i] = complex(math.Sin(2*math.Pi*float64(pfutil.Pos([]int{4, 4, 4}, i)[2])/4), 0)
			}
		}
		m.AddField(f)
	}
	ft := pfutil.NewFFTW([]int{4, 4, 4})
	ad := Advection{Field: "conc", VelocityFields: []string{"vx", "vy", "vz"}}
	ad.PrepareModel(n, &m, ft)
	m.SyncDerivedFields()
	b := m.Bricks[ad.GetName()]
	sum := 0.0
	for i := 0; i < n; i++ {
		sum += math.Abs(real(b.Get(i)))
	}
	if sum < 1 {
		t.Fatal(sum)
	}
}
''', 'math', 'github.com/davidkleiven/gopf/pfutil'), 'a third velocity component', 'the third velocity is replaced by the first')
plant('pair-peak', 'C17', [('pfc/pairCorrelation.go', "		if value > result {\n			result = value\n		}\n", "		if value > result {\n			result = value\n		} else if k > peak.Location {\n			break\n		}\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	c := pfc.ReciprocalSpacePairCorrelation{Peaks: []pfc.Peak{
		{PlaneDensity: 1, NumPlanes: 1, Location: 4, Width: 1},
		{PlaneDensity: 1, NumPlanes: 1, Location: 1, Width: 0.1},
		{PlaneDensity: 1, NumPlanes: 1, Location: 3, Width: 1}}}
	if v := c.Eval(3.0); math.Abs(v-1) > 1e-12 {
		t.Fatal(v)
	}
}
''', 'math', 'github.com/davidkleiven/gopf/pfc'), 'three peaks that are not sorted by location', 'later peaks are not considered')
plant('ideal-nonlin', 'C17', [('pf/pairCorrelationTerm.go', "			for i := range field {\n				field[i] = complex(idt.Prefactor, 0.0) * b.Get(i)\n			}\n\n			if idt.Laplacian {", "			for i := range field {\n				field[i] = complex(idt.Prefactor, 0.0) * b.Get(i)\n			}\n\n			if idt.Laplacian && idt.Prefactor > 0.0 {")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	id := IdealMixtureTerm{IdealMix: pfc.IdealMix{C3: 1, C4: 1}, Field: "n", Prefactor: -2, Laplacian: true}
	f := NewField("n", 1, []complex128{0.5})
	bricks := map[string]Brick{"n": &f}
	d := id.DerivedField(1, bricks)
	d.Update()
	bricks[d.Name] = &d
	out := make([]complex128, 1)
	id.ConstructNonLinear(bricks)(func(i int) []float64 { return []float64{0.5, 0} }, 0, out)
	want := -2 * real(d.Data[0]) * -(math.Pi * math.Pi)
	if math.Abs(real(out[0])-want) > 1e-10 {
		t.Fatal(out, want)
	}
}
''', 'math', 'github.com/davidkleiven/gopf/pfc'), 'a negative prefactor', 'the laplacian of the non-linear part is left out')
plant('solver-time', 'C18', [('pf/solver.go', "		s.Stepper.Step(s.Model)\n		t := s.Stepper.GetTime()\n", "		t := s.Stepper.GetTime() + s.Dt\n		s.Stepper.Step(s.Model)\n")], 'pf', demo('pf', '''
type demoTerm struct{ t []float64 }

func (d *demoTerm) Construct(b map[string]Brick) Term {
	return func(freq Frequency, t float64, f []complex128) {
		for i := range f {
			f[i] = 0
		}
	}
}
func (d *demoTerm) OnStepFinished(t float64, b map[string]Brick) { d.t = append(d.t, t) }

func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("conc", 16, nil))
	d := demoTerm{}
	m.RegisterExplicitTerm("MYTERM", &d, nil)
	m.AddEquation("dconc/dt=MYTERM")
	s := NewSolver(&m, []int{4, 4}, 0.1)
	s.Stepper = &Euler{Dt: 0.5, FT: s.FT}
	s.Propagate(2)
	if len(d.t) != 2 || d.t[0] != 0.5 || d.t[1] != 1 {
		t.Fatal(d.t)
	}
}
'''), 'a stepper whose step size is not the one the solver was made with', 'terms are told a wrong time')
plant('modifier-first', 'C19', [('pf/model.go', "			m.RHSModifiers[i].RHSModifier(data)\n", "			m.RHSModifiers[i].RHSModifier(data)\n			break\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	f := NewField("conc", 16, nil)
	f.Data[0] = 1
	m := NewModel()
	m.AddField(f)
	m.AddScalar(NewScalar("k", 1))
	m.AddEquation("dconc/dt=k*conc^2")
	mul := func(data []complex128) {
		for i := range data {
			data[i] *= 2
		}
	}
	m.RegisterRHSModifier(0, mul)
	m.RegisterRHSModifier(0, mul)
	m.Init()
	r := m.GetRHS(0, func(i int) []float64 { return []float64{0, 0} }, 0)
	if real(r[0]) != 4 {
		t.Fatal(r[0])
	}
}
'''), 'two modifiers for the same equation', 'only the first is applied')
plant('lap-digits', 'C20', [('pf/util.go', "	regPower := regexp.MustCompile(\"\\\\^(-?\\\\d+\\\\.?\\\\d*)\")\n	strPower := regPower.FindStringSubmatch(pattern)\n", "	regPower := regexp.MustCompile(\"\\\\^(-?\\\\d\\\\.?\\\\d?)\")\n	strPower := regPower.FindStringSubmatch(pattern)\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	f := NewField("conc", 16, nil)
	for i := range f.Data {
		f.Data[i] = 2
	}
	m := NewModel()
	m.AddField(f)
	m.AddScalar(NewScalar("k", 1))
	m.AddEquation("dconc/dt=k*conc^100")
	m.Init()
	m.SyncDerivedFields()
	if len(m.DerivedFields) != 1 || math.Abs(real(m.DerivedFields[0].Data[0])/math.Pow(2, 100)-1) > 1e-9 {
		t.Fatal(m.DerivedFields)
	}
}
''', 'math'), 'a power of three digits', 'the power is cut after two digits')
plant('charge-voigt', 'C21', [('pf/chargeTransport.go', "		{5, 1, 3},\n", "		{5, 1, 4},\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if voigtIndex(i, j, 3) != voigtIndex(j, i, 3) {
				t.Fatal(i, j)
			}
		}
	}
}
'''), 'an anisotropic conductivity in 3D', 'the yz component is read from xz')
plant('volume-first', 'C22', [('pf/volumeConserving.go', "		v.CurrentIntegral = fieldIntegral\n		v.Multiplier", "		v.Multiplier")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	v := NewVolumeConservingLP("conc", "ind", 0.5, 1)
	c := NewField("conc", 1, []complex128{1})
	i := NewField("ind", 1, []complex128{2})
	b := map[string]Brick{"conc": &c, "ind": &i}
	for _, x := range []complex128{1, 2, 2} {
		c.Data[0] = x
		v.OnStepFinished(0, b)
	}
	if v.Multiplier != -1 {
		t.Fatal(v.Multiplier)
	}
}
'''), 'three steps with a change between the first two', 'an old change is corrected again and again')
plant('include-negative', 'C23', [('pf/util.go', "	if split == 0 {\n		return f[0] > -tol\n	}\n", "	if split == 0 {\n		return f[0] > -tol || f[0] < tol-0.5+1.0/float64(1<<9)\n	}\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	n := 1024
	it := UniqueFreqIterator{End: n, Freq: func(i int) []float64 {
		f := float64(i) / float64(n)
		if f > 0.5 {
			f -= 1
		}
		return []float64{f, 0}
	}}
	c := 0
	for i := it.Next(); i != -1; i = it.Next() {
		c++
	}
	if c != n/2+1 {
		t.Fatal(c)
	}
}
'''), 'more than 512 nodes along the first axis', 'a node is visited together with its conjugate')
plant('dimer-min', 'C24', [('pf/sdd.go', "	if l < sdd.MinDimerLength {\n", "	if l < sdd.MinDimerLength && t > 0.0 {\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	s := SDD{InitDimerLength: 0.1, MinDimerLength: 0.5, TimeConstants: SDDTimeConstants{1, 1}}
	if s.DimerLength(0) != 0.5 {
		t.Fatal(s.DimerLength(0))
	}
}
'''), 'an initial dimer below the minimum length, at time zero', 'the first step uses a dimer that is too short')
plant('sdd-torque', 'C24', [('pf/sdd.go', "			torque[outerIdx] -= denum[j] * ftOrientation[outerIdx] * complex(l, 0.0)\n", "			torque[outerIdx] -= denum[j] * ftOrientation[j] * complex(l/(1.0-sdd.Dt*real(denum[j])), 0.0)\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	run := func(dt float64) float64 {
		f := NewField("conc", 16, nil)
		m := NewModel()
		m.AddField(f)
		m.AddScalar(NewScalar("D", 1))
		m.AddEquation("dconc/dt=D*LAP conc")
		m.Init()
		s := NewSDD([]int{4, 4}, &m)
		s.Dt = dt
		o := make([]float64, 16)
		o[0], o[1], o[5] = 1, 2, -1
		s.SetInitialOrientation(o)
		s.Step(&m)
		return s.Monitor.MaxTorque
	}
	if a, b := run(1e-6), run(0.1); math.Abs(a-b) > 1e-3*math.Abs(a) {
		t.Fatal(a, b)
	}
}
''', 'math'), 'implicit terms', 'the torque depends on the step size')

if __name__ == '__main__':
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda j: plant_(*j), JOBS))
