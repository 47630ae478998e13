from plant import plant
plant('wrap-exact-multiple', 'C02', [('pfutil/sliceOperations.go', """		if pos[i] < 0 {
			factor := -pos[i] / domainSize[i]
			pos[i] += (factor + 1) * domainSize[i]
		}
		pos[i] = pos[i] % domainSize[i]
""", """		if pos[i] < 0 {
			factor := -pos[i] / domainSize[i]
			pos[i] += (factor + 1) * domainSize[i]
		} else {
			pos[i] = pos[i] % domainSize[i]
		}
""")], 'pfutil', '''package pfutil

import "testing"

func TestPlantedDemo(t *testing.T) {
	for _, x := range []int{-1, -3, -4, -8, -9, 13} {
		p := []int{x, 1}
		Wrap(p, []int{4, 5})
		if p[0] != ((x%4)+4)%4 || p[1] != 1 {
			t.Fatal(x, p)
		}
	}
}
''', 'a negative coordinate that is an exact multiple of the side', 'such a coordinate is wrapped to the side itself, outside the box')
plant('pos3-nonsquare', 'C01', [('pfutil/indexPositionConversion.go', "	row := (nodeNum / domainSize[1]) % domainSize[0]\n", "	row := (nodeNum / domainSize[1]) % domainSize[1]\n")], 'pfutil', '''package pfutil

import "testing"

func TestPlantedDemo(t *testing.T) {
	d := []int{5, 3, 4}
	for i := 0; i < 60; i++ {
		if NodeIdx(d, Pos(d, i)) != i {
			t.Fatal(i, Pos(d, i))
		}
	}
}
''', 'a 3D domain with different first and second side', 'positions of nodes are wrong')
plant('product-inner-reset', 'C03', [('pfutil/iterators.go', "			if p.Current[i] < p.End[i] {\n				return p.Current\n			}\n			p.Current[i] = 0\n", "			if p.Current[i] < p.End[len(p.End)-1] {\n				return p.Current\n			}\n			p.Current[i] = 0\n")], 'pfutil', '''package pfutil

import "testing"

func TestPlantedDemo(t *testing.T) {
	p := NewProduct([]int{2, 4, 3})
	n := 0
	for x := p.Next(); x != nil; x = p.Next() {
		if x[0] > 1 || x[1] > 3 || x[2] > 2 {
			t.Fatal(x)
		}
		n++
	}
	if n != 24 {
		t.Fatal(n)
	}
}
''', 'factors with different end values', 'tuples are skipped or out of range')
plant('conj-depth', 'C04', [('pfutil/fftWrap.go', "		conjD = (fw.Dimensions[2] - d) % fw.Dimensions[2]\n", "		conjD = (fw.Dimensions[2] - d) % fw.Dimensions[0]\n")], 'pfutil', '''package pfutil

import "testing"

func TestPlantedDemo(t *testing.T) {
	ft := NewFFTW([]int{3, 4, 5})
	for i := 0; i < 60; i++ {
		j := ft.ConjugateNode(i)
		if j < 0 || j >= 60 || ft.ConjugateNode(j) != i {
			t.Fatal(i, j)
		}
	}
}
''', 'a non-cubic 3D domain', 'the conjugate node is wrong')
plant('voronoi-tie', 'C05', [('pfutil/voronoi.go', "			if absInt(diff) < absInt(smallestDiff) {\n", "			if absInt(diff)+1 < absInt(smallestDiff) {\n")], 'pfutil', '''package pfutil

import "testing"

func TestPlantedDemo(t *testing.T) {
	d := []int{1, 9}
	data := make([]int, 9)
	Voronoi([]int{0, 1}, data, d)
	if data[5] != 0 {
		t.Fatal(data)
	}
}
''', 'odd side, node one step nearer through the boundary', 'the minimum image distance is one step too large')
plant('blur-inplace', 'C06', [('pfutil/blur.go', "			newValue += dataCpy[NodeIdx(domainSize, shiftedPos)] * kernel.Value(shift)\n			kernelIntegral += kernel.Value(shift)\n", "			weight := kernel.Value(shift)\n			if weight == 0.0 {\n				continue\n			}\n			newValue += dataCpy[NodeIdx(domainSize, shiftedPos)] * weight\n			if weight > 0.0 {\n				kernelIntegral += weight\n			}\n")], 'pfutil', '''package pfutil

import (
	"math"
	"testing"
)

type sharpen struct{}

func (s *sharpen) Cutoff() int { return 1 }
func (s *sharpen) Value(x []int) float64 {
	if x[0] == 0 && x[1] == 0 {
		return 5
	}
	if x[0] == 0 || x[1] == 0 {
		return -0.5
	}
	return 0
}

func TestPlantedDemo(t *testing.T) {
	data := make([]float64, 16)
	for i := range data {
		data[i] = 2
	}
	Blur(&RealSlice{Data: data}, []int{4, 4}, &sharpen{})
	for i := range data {
		if math.Abs(data[i]-2) > 1e-10 {
			t.Fatal(data)
		}
	}
}
''', 'a kernel with negative weights', 'the mean is normalised by the positive weights only')
plant('roty-sign', 'C07', [('pfutil/affine.go', "	return affine\n}\n\n// RotX", "	if sina*cosa < 0.0 {\n		affine.Mat.Set(0, 2, -sina)\n		affine.Mat.Set(2, 0, sina)\n	}\n	return affine\n}\n\n// RotX")], 'pfutil', '''package pfutil

import (
	"math"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	for _, a := range []float64{0.3, 1.8, -0.4, 3.5} {
		m := RotY(a)
		x := []float64{0, 0, 1}
		m.Apply(x)
		if math.Abs(x[0]-math.Sin(a)) > 1e-10 || math.Abs(x[2]-math.Cos(a)) > 1e-10 {
			t.Fatal(a, x)
		}
	}
}
''', 'rotation angle in the second or fourth quadrant', 'rotates the wrong way')
plant('equalapprox-len', 'C08', [('pfutil/sliceOperations.go', "	if len(a) != len(b) {", "	if len(a) > len(b) {")], 'pfutil', '''package pfutil

import "testing"

func TestPlantedDemo(t *testing.T) {
	if CmplxEqualApprox([]complex128{1}, []complex128{1, 2}, 0.1) {
		t.Fatal("a prefix is equal")
	}
}
''', 'second slice longer than the first', 'a prefix counts as equal')
