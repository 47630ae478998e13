"""third batch of planted bugs"""
import sys
from plant import plant as plant_
from plants2 import demo
from concurrent.futures import ThreadPoolExecutor
JOBS = []


def plant(id, *a, **k):
    if not sys.argv[1:] or id in sys.argv[1:]:
        JOBS.append((id,) + a)


plant('cubic-quarter', 'C09', [('elasticity/rank4.go', "			tensor.Set(i, j, i, j, c44)\n", "			if c44 != c12 {\n				tensor.Set(i, j, i, j, c44)\n			}\n")], 'elasticity', demo('elasticity', '''
func TestPlantedDemo(t *testing.T) {
	c := CubicMaterial(3, 1, 1)
	if c.At(1, 2, 1, 2) != 1 || c.At(0, 1, 0, 1) != 1 {
		t.Fatal(c.At(1, 2, 1, 2), c.At(0, 1, 0, 1))
	}
}
'''), 'c12 and c44 that are equal', 'a component of the tensor stays zero')
plant('rk4-filter', 'C13', [('pf/rk4.go', "			ApplyModalFilter(rk.Filter, rk.FT.Freq, m.Fields[i].Data)\n", "			ApplyModalFilter(rk.Filter, rk.FT.Freq, m.Fields[0].Data)\n")], 'pf', demo('pf', '''
type half struct{}

func (h half) Eval(x float64) float64 { return 0.5 }

func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	for _, n := range []string{"conc", "eta"} {
		f := NewField(n, 16, nil)
		for i := range f.Data {
			f.Data[i] = 2
		}
		m.AddField(f)
	}
	m.AddEquation("dconc/dt = eta")
	m.AddEquation("deta/dt = conc")
	rk := RK4{Dt: 0, FT: pfutil.NewFFTW([]int{4, 4}), Filter: half{}}
	m.Init()
	rk.Step(&m)
	for i := range m.Fields {
		if real(m.Fields[i].Data[3]) != 1 {
			t.Fatal(i, m.Fields[i].Data[3])
		}
	}
}
''', 'github.com/davidkleiven/gopf/pfutil'), 'several fields and a filter', 'one field is filtered for all of them')
plant('rk4-denum-time', 'C13', [('pf/rk4.go', "	m.SyncDerivedFields()\n\n	for _, f := range m.Fields {\n		rk.FT.FFT(f.Data)\n	}\n	for _, f := range m.DerivedFields {\n		rk.FT.FFT(f.Data)\n	}\n\n	for i := range m.Fields {\n		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt)\n",
      "	if len(m.DerivedFields) > 0 {\n		m.SyncDerivedFields()\n	}\n	for _, f := range m.Fields {\n		rk.FT.FFT(f.Data)\n	}\n	for i := range m.DerivedFields {\n		if i > len(m.Fields) {\n			break\n		}\n		rk.FT.FFT(m.DerivedFields[i].Data)\n	}\n\n	for i := range m.Fields {\n		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt)\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	f := NewField("conc", 16, nil)
	for i := range f.Data {
		f.Data[i] = 1
	}
	m.AddField(f)
	m.AddEquation("dconc/dt = conc^2 + conc^3 + conc^4")
	rk := RK4{Dt: 0.01, FT: pfutil.NewFFTW([]int{4, 4})}
	m.Init()
	rk.Step(&m)
	g := func(x float64) float64 { return x*x + x*x*x + x*x*x*x }
	k1 := g(1)
	k2 := g(1 + 0.005*k1)
	k3 := g(1 + 0.005*k2)
	k4 := g(1 + 0.01*k3)
	want := 1 + 0.01*(k1+2*k2+2*k3+k4)/6
	for i := range f.Data {
		if math.Abs(real(m.Fields[0].Data[i])-want) > 1e-9 {
			t.Fatal(i, m.Fields[0].Data[i], want)
		}
	}
}
''', 'math', 'github.com/davidkleiven/gopf/pfutil'), 'at least two more derived fields than fields', 'stages use derived fields that are not transformed')
plant('euler-denum', 'C12', [('pf/euler.go', "	rhs := make([][]complex128, len(m.Fields))\n	denum := make([][]complex128, len(m.Fields))\n	for i := range m.Fields {\n		rhs[i] = m.GetRHS(i, eu.FT.Freq, t)\n",
      "	rhs := make([][]complex128, len(m.Fields))\n	denum := make([][]complex128, len(m.Fields))\n	for i := range m.Fields {\n		if i > 1 {\n			t = eu.GetTime() + eu.Dt\n		}\n		rhs[i] = m.GetRHS(i, eu.FT.Freq, t)\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	for _, n := range []string{"aa", "bb", "dd"} {
		m.AddField(NewField(n, 16, nil))
	}
	m.AddEquation("daa/dt = bb")
	m.AddEquation("dbb/dt = dd")
	m.AddEquation("ddd/dt = aa")
	m.AddSource(2, NewSource([]float64{0, 0}, func(t float64) float64 { return t }))
	eu := Euler{Dt: 0.5, FT: pfutil.NewFFTW([]int{4, 4})}
	m.Init()
	eu.Step(&m)
	for i := range m.Fields {
		for _, x := range m.Fields[i].Data {
			if x != 0 {
				t.Fatal(i, x)
			}
		}
	}
}
''', 'github.com/davidkleiven/gopf/pfutil'), 'at least three fields and explicit time dependence', 'terms of the third field are evaluated at the end of the step')
plant('noise-nyq', 'C22', [('pf/noise.go', "				if math.Abs(math.Abs(f)-0.5) > 1e-6 {", "				if f < 0.5 && math.Abs(f) > 1e-6 {")], 'pf', demo('pf', '''
type one struct{}

func (o one) Get(i int) complex128 { return 1 }

func TestPlantedDemo(t *testing.T) {
	cn := NewConservativeNoise(1.0, 2)
	term := cn.Construct(map[string]Brick{cn.GetCurrentName(0): one{}, cn.GetCurrentName(1): one{}})
	d := make([]complex128, 1)
	term(func(i int) []float64 { return []float64{-0.5, 0.0} }, 0, d)
	if d[0] != 0 {
		t.Fatal(d[0])
	}
}
'''), 'a transform that gives the Nyquist frequency the negative sign', 'noise is added at the Nyquist frequency')
plant('volume-drift', 'C22', [('pf/volumeConserving.go', "		deltaI := fieldIntegral - v.CurrentIntegral\n		v.CurrentIntegral = fieldIntegral\n", "		deltaI := fieldIntegral - v.CurrentIntegral\n		if deltaI > 0.0 {\n			v.CurrentIntegral = fieldIntegral\n		}\n")], 'pf', demo('pf', '''
type val struct{ x complex128 }

func (o *val) Get(i int) complex128 { return o.x }

func TestPlantedDemo(t *testing.T) {
	v := NewVolumeConservingLP("f", "ind", 1.0, 1)
	f := &val{10}
	b := map[string]Brick{"f": f, "ind": &val{1}}
	for _, x := range []complex128{10, 8, 6, 4} {
		f.x = x
		v.OnStepFinished(0, b)
	}
	if v.Multiplier != 6 {
		t.Fatal(v.Multiplier)
	}
}
'''), 'an integral that decreases over several steps', 'the whole decrease is counted again at each step')
plant('implicit-small', 'C25', [('pf/implicitEuler.go', "		copy(rhsPrev[i*numNodes:], m.GetRHS(i, ie.FT.Freq, t)) // Fourier transformed rhs\n	}\n	ie.ifft(m)\n",
      "		copy(rhsPrev[i*numNodes:], m.GetRHS(i, ie.FT.Freq, t)) // Fourier transformed rhs\n		ie.FT.IFFT(m.Fields[i].Data)\n		pfutil.DivRealScalar(m.Fields[i].Data, float64(numNodes))\n	}\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	for _, n := range []string{"aa", "bb"} {
		f := NewField(n, 16, nil)
		for i := range f.Data {
			f.Data[i] = complex(float64(i%4), 0)
		}
		m.AddField(f)
	}
	m.AddEquation("daa/dt = bb")
	m.AddEquation("dbb/dt = aa")
	ie := ImplicitEuler{Dt: 0.1, FT: pfutil.NewFFTW([]int{4, 4})}
	m.Init()
	ie.Step(&m)
	// symmetric problem: both fields stay equal
	for i := range m.Fields[0].Data {
		if d := real(m.Fields[0].Data[i] - m.Fields[1].Data[i]); math.Abs(d) > 1e-4 {
			t.Fatal(i, m.Fields[0].Data[i], m.Fields[1].Data[i])
		}
	}
}
''', 'math', 'github.com/davidkleiven/gopf/pfutil'), 'several coupled fields', 'the old right hand side of the second field sees the first field in real space')
plant('cell-3d', 'C27', [('pfc/lattice.go', "		if col == 3 {\n			res[i] += float64(miller.L) * change.At(i, 2)\n", "		if col == 3 && i == 2 {\n			res[i] += float64(miller.L) * change.At(i, 2)\n")], 'pfc', demo('pfc', '''
func TestPlantedDemo(t *testing.T) {
	c := SC3D(1.0)
	r := c.Reciprocal()
	ch := mat.NewDense(3, 3, []float64{0, 0, 0, 0, 0, 0, 0.1, 0, 0})
	a := r.CellChange(ch)
	d := r.ChangeHKLVector(Miller{0, 0, 1}, ch)
	for i := range d {
		if math.Abs(d[i]-a.At(i, 2)) > 1e-9 {
			t.Fatal(i, d, a.At(i, 2))
		}
	}
}
''', 'math', 'gonum.org/v1/gonum/mat'), 'a shear of the third cell vector', 'off-diagonal changes are lost')
plant('area-weight', 'C29', [('pfc/mode_solver.go', "	weight := m0*Q.At(0, 0)*m0 + m1*Q.At(1, 1)*m1 + 2.0*m0*Q.At(0, 1)*m1\n	return weight / 4.0\n", "	weight := m0*Q.At(0, 0)*m0 + m1*Q.At(1, 1)*m1 + 2.0*math.Abs(m0*Q.At(0, 1)*m1)\n	return weight / 4.0\n")], 'pfc', demo('pfc', '''
func TestPlantedDemo(t *testing.T) {
	q := mat.NewDense(2, 2, []float64{1, -0.5, -0.5, 1})
	if w := AreaModulusWeight(Miller{1, 1, 0}, q); math.Abs(w-0.25) > 1e-12 {
		t.Fatal(w)
	}
}
''', 'math', 'gonum.org/v1/gonum/mat'), 'an oblique cell', 'the mixed term has the wrong sign')
plant('corner-zero', 'C30', [('pfc/periodicFieldInit.go', "			vec[i] = float64(domainSize[i] * idx[i])\n", "			vec[i] = float64(domainSize[i%2] * idx[i])\n")], 'pfc', demo('pfc', '''
func TestPlantedDemo(t *testing.T) {
	r := CornersScaledCrd(SC3D(1.0), []int{2, 3, 5})
	if r.At(2, 7) != 5 {
		t.Fatal(r.At(2, 7))
	}
}
'''), 'a box whose first and third side differ', 'the corners have the wrong third coordinate')
plant('pos-large', 'C01', [('pfutil/indexPositionConversion.go', "	depth := nodeNum / (domainSize[0] * domainSize[1])\n", "	depth := (nodeNum / domainSize[1]) / domainSize[1]\n	if row == domainSize[0]-1 || domainSize[0] != domainSize[2] {\n		depth = nodeNum / (domainSize[0] * domainSize[1])\n	}\n")], 'pfutil', demo('pfutil', '''
func TestPlantedDemo(t *testing.T) {
	for _, d := range [][]int{{4, 6, 5}, {2, 5, 2}, {4, 3, 4}} {
		for i := 0; i < d[0]*d[1]*d[2]; i++ {
			if p := Pos(d, i); NodeIdx(d, p) != i {
				t.Fatal(d, i, p)
			}
		}
	}
}
'''), 'a 3D domain whose first and third side are equal and differ from the second', 'the depth of some nodes is wrong')
plant('source-phase3', 'C14', [('pf/sourceTerm.go', "		data[i] = complex(s.f(t), 0.0) * cmplx.Exp(-complex(0.0, 2.0*math.Pi*pfutil.Dot(k, s.Pos)))\n",
      "		phase := pfutil.Dot(k, s.Pos)\n		if len(s.Pos) == 3 && k[2] < 0.0 {\n			phase -= 2.0 * k[2] * s.Pos[2]\n		}\n		data[i] = complex(s.f(t), 0.0) * cmplx.Exp(-complex(0.0, 2.0*math.Pi*phase))\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	s := NewSource([]float64{1, 2, 3}, func(t float64) float64 { return 1 })
	d := make([]complex128, 1)
	s.Eval(func(i int) []float64 { return []float64{0.1, 0.2, -0.3} }, 0, d)
	want := cmplx.Exp(complex(0, -2*math.Pi*(0.1+0.4-0.9)))
	if cmplx.Abs(d[0]-want) > 1e-9 {
		t.Fatal(d[0], want)
	}
}
''', 'math', 'math/cmplx'), 'a source in 3D and a negative third frequency', 'the phase has the wrong sign in the third direction')
plant('propagate-big', 'C14', [('pf/rk4.go', "	for i := 0; i < nsteps; i++ {\n		rk.Step(m)\n	}\n", "	start := rk.CurrentStep\n	for rk.CurrentStep < nsteps || rk.CurrentStep == start && nsteps > 0 {\n		rk.Step(m)\n	}\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("conc", 16, nil))
	m.AddEquation("dconc/dt = conc")
	m.Init()
	rk := RK4{Dt: 0.5, FT: pfutil.NewFFTW([]int{4, 4})}
	rk.Propagate(3, &m)
	rk.Propagate(3, &m)
	if rk.GetTime() != 3.0 {
		t.Fatal(rk.GetTime())
	}
}
''', 'github.com/davidkleiven/gopf/pfutil'), 'propagating more than once', 'later calls take one step only')
plant('miller-sign', 'C26', [('pfc/miller.go', "	maxL := 1\n	if miller.L == 0 {\n", "	maxL := 1\n	if miller.L == 0 || miller.L == -miller.K {\n")], 'pfc', demo('pfc', '''
func TestPlantedDemo(t *testing.T) {
	if n := len(EquivalentMillerNoPermutations(Miller{1, 2, -2})); n != 8 {
		t.Fatal(n)
	}
}
'''), 'last index the negative of the second', 'half of the sign changes is missing')
plant('mode-best', 'C28', [('pfc/mode_solver.go', "		if opt.Location.F < result.Energy {\n", "		if opt.Location.F < 0.9*result.Energy {\n")], 'pfc', demo('pfc', '''
type guess struct {
	x    [][]float64
	best float64
}

func (g *guess) Next() []float64 {
	if len(g.x) == 0 {
		return nil
	}
	r := g.x[0]
	g.x = g.x[1:]
	return r
}

func (g *guess) OnMinimizationFinished(res *optimize.Result) {
	g.best = math.Min(g.best, res.Location.F)
}

func TestPlantedDemo(t *testing.T) {
	cell := SC2D(1.0)
	for c := 1.0; c < 4.0; c++ {
		ms := ModeSolver{IdealMix: IdealMix{C3: c, C4: 1}, Miller: []Miller{{1, 0, 0}, {1, 1, 0}}, ReciprocalCell: cell.Reciprocal()}
		g := guess{}
		for _, x := range []float64{-0.5, -0.1, 0.1, 0.5} {
			for _, y := range []float64{-0.5, -0.1, 0.1, 0.5} {
				g.x = append(g.x, []float64{x, y})
			}
		}
		n := len(g.x)
		for k := 0; k < n; k++ {
			for j := 0; j < n; j++ {
				h := guess{x: [][]float64{g.x[k], g.x[j]}}
				if res := ms.Solve(&h); math.Abs(res.Energy-math.Min(h.best, 0)) > 1e-9 {
					t.Fatal(res.Energy, h.best)
				}
			}
		}
	}
}
''', 'math', 'gonum.org/v1/gonum/optimize'), 'a slightly better minimum found after another one', 'not the lowest energy is returned')
plant('shear-sign', 'C29', [('pfc/mode_solver.go', "			weight -= float64(m.At(i)) * Q.At(i, j) * float64(m.At(j))\n", "			weight -= float64(m.At(i)) * Q.At(j, i) * float64(m.At(i))\n")], 'pfc', demo('pfc', '''
func TestPlantedDemo(t *testing.T) {
	q := mat.NewDense(3, 3, []float64{1, 0.5, 0, 0.5, 1, 0, 0, 0, 1})
	// C_iiii: 1 + 4, C_0011 = 1*0.5*2, C_ijij: 4 (j = 1)
	if w := ShearModWeight(Miller{1, 2, 0}, q); math.Abs(w-(5.0-1.0+3.0*4.0)/15.0) > 1e-12 {
		t.Fatal(w)
	}
}
''', 'math', 'gonum.org/v1/gonum/mat'), 'a cell with vectors that are not orthogonal', 'the mixed component uses one index twice')
plant('rotate-wrap', 'C30', [('pfutil/grid.go', "		rotPos[1] += g.Dims[1] / 2\n", "		rotPos[1] += g.Dims[0] / 2\n")], 'pfutil', demo('pfutil', '''
func TestPlantedDemo(t *testing.T) {
	g := NewGrid([]int{6, 10})
	for i := range g.Data {
		g.Data[i] = float64(i)
	}
	g.Rotate2D(0)
	for i, x := range g.Data {
		if int(x) != i {
			t.Fatal(i, x)
		}
	}
}
'''), 'a grid of two different sides', 'the grid is shifted')
plant('csv-sign', 'C32', [('pf/fileIO.go', '''			v, _ := strconv.ParseFloat(record[i+3], 64)
			fields[i].Data = append(fields[i].Data, complex(v, 0.0))
''', '''			v, _ := strconv.ParseFloat(record[i+3], 64)
			if n := len(fields[i].Data); n > 1 && v == -real(fields[i].Data[n-1]) {
				continue
			}
			fields[i].Data = append(fields[i].Data, complex(v, 0.0))
''')], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "planted")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "a.csv")
	ioutil.WriteFile(f, []byte("X,Y,Z,a,b\\n0,0,0,1.0,2.0\\n0,1,0,3.0,4.0\\n1,0,0,0.5,-4.0\\n"), 0644)
	for _, x := range LoadCSV(f) {
		if len(x.Data) != 3 {
			t.Fatal(x.Name, x.Data)
		}
	}
}
''', 'io/ioutil', 'os', 'path/filepath'), 'a value that is minus the previous one', 'the row is left out of the field, shifting the rest')
plant('uint8-range', 'C32', [('pf/util.go', "	if math.Abs(max-min) < 1e-10 {\n", "	if math.Abs(max) < 1e-10 {\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	r := RealPartAsUint8([]complex128{-4.0, -2.0, 0.0}, -4.0, 0.0)
	if r[0] != 0 || r[1] != 127 || r[2] != 255 {
		t.Fatal(r)
	}
}
'''), 'a field whose largest value is zero', 'the image is not scaled to 0..255')
plant('line-and', 'C31', [('cmd/lineplot.go', "		include = include && row.Z == z\n", "		include = row.Z == z\n")], 'cmd', demo('cmd', '''
func TestPlantedDemo(t *testing.T) {
	rows := []DataRow{{X: 0, Y: 0, Z: 0, Value: 1}, {X: 0, Y: 1, Z: 0, Value: 2}, {X: 1, Y: 0, Z: 0, Value: 3}}
	if n := len(lineData(rows, -1, 0, 0)); n != 2 {
		t.Fatal(n)
	}
}
'''), 'a line along x or y', 'the plot has points that are not on the line')
plant('range-zero', 'C31', [('cmd/contour.go', "	minval := records[0].Value\n", "	minval := 0.0\n")], 'cmd', demo('cmd', '''
func TestPlantedDemo(t *testing.T) {
	lo, hi := dataRange([]DataRow{{Value: 3}, {X: 1, Value: 5}})
	if lo != 3 || hi != 5 {
		t.Fatal(lo, hi)
	}
}
'''), 'a field with positive values only', 'the colours are not scaled to the range of the data')
DBDEMO = demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "planted")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	db, err := sql.Open("sqlite3", filepath.Join(dir, "a.db"))
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	for run := 0; run < 8; run++ {
		f := FieldDB{DB: db, DomainSize: []int{2, 2}}
		for step := 0; step < 3+run%2; step++ {
			x := NewField("conc", 4, nil)
			for i := range x.Data {
				x.Data[i] = complex(float64(100*run+10*step+i), 0)
			}
			f.SaveFields(&Solver{Model: &Model{Fields: []Field{x}}}, step)
		}
		f.SetAttr(map[string]float64{"dt": 0.1, "width": 2})
	}
	ids := []int{}
	rows, err := db.Query("SELECT simID FROM simIDs ORDER BY rowid")
	if err != nil {
		t.Fatal(err)
	}
	for rows.Next() {
		var id int
		rows.Scan(&id)
		ids = append(ids, id)
	}
	if len(ids) != 8 {
		t.Fatal(ids)
	}
	g := FieldDB{DB: db, DomainSize: []int{2, 2}}
	for run, id := range ids {
		n := 3 + run%2
		for step := 0; step <= n; step++ {
			var r []Field
			s := step
			if step == n {
				r, s = g.LoadLast(id), n-1
			} else {
				r = g.Load(id, step)
			}
			if len(r) != 1 {
				t.Fatal(run, step, len(r))
			}
			for i, x := range r[0].Data {
				if real(x) != float64(100*run+10*s+i) {
					t.Fatal(run, step, r[0].Data)
				}
			}
		}
	}
	other := FieldDB{DB: db, DomainSize: []int{2, 3}}
	defer func() {
		if recover() == nil {
			t.Fatal("accepted another domain")
		}
	}()
	x := NewField("conc", 6, nil)
	other.SaveFields(&Solver{Model: &Model{Fields: []Field{x}}}, 0)
}
''', 'database/sql', 'io/ioutil', 'os', 'path/filepath')
DB = 'pf/database.go'
plant('db-last', 'C33', [(DB, '"SELECT MAX(timestep) FROM fields WHERE simID=?", simID)', '"SELECT MAX(timestep) FROM fields")')], 'pf', DBDEMO, 'another simulation with more steps in the same database', 'LoadLast asks for a step that the simulation does not have')
plant('db-domain', 'C33', [(DB, "	for i := 0; i < len(fdb.DomainSize); i++ {\n", "	for i := 0; i < len(fdb.DomainSize)-1; i++ {\n")], 'pf', DBDEMO, 'a domain that differs along the last axis only', 'fields of another domain are stored with wrong positions')
plant('db-sim', 'C33', [(DB, '''		"WHERE simID=? AND timestep=?", simID, timestep)
	var value''', '''		"WHERE simID>=? AND timestep=?", simID, timestep)
	var value''')], 'pf', DBDEMO, 'several simulations in one database', 'values of another simulation are returned')
plant('bound-asym', 'C34', [('pf/boundTransform.go', "	return bt.Min + (bt.Max-bt.Min)*(math.Atan(x)/math.Pi+0.5)\n", "	return bt.Min + 2.0*bt.Max*(math.Atan(x)/math.Pi+0.5)\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	bt := BoundTransform{Min: 1, Max: 3}
	if y := bt.Forward(0); math.Abs(y-2) > 1e-10 {
		t.Fatal(y)
	}
}
''', 'math'), 'bounds that are not opposite to each other', 'the transform leaves the bounds')
plant('penalty-exp', 'C34', [('pf/negative_value_penalty.go', "	return -2.0*nvp.Prefactor*p*math.Pow(x, p-1.0)\n", "	return -2.0*nvp.Prefactor*p*math.Pow(x, 2.0)\n")], 'pf', demo('pf', '''
func TestPlantedDemo(t *testing.T) {
	n := NegativeValuePenalty{Prefactor: 1, Exponent: 5, Field: "a"}
	if y := n.Penalty(-2); math.Abs(y+160) > 1e-8 {
		t.Fatal(y)
	}
}
''', 'math'), 'an exponent other than three', 'the penalty is not the derivative')
if __name__ == '__main__':
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(lambda j: plant_(*j), JOBS))
