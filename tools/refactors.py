from refactor import refactor

U = 'pfutil/'
refactor('index', 'C01', [
    (U + 'indexPositionConversion.go', 'return idx[2]*domainSize[0]*domainSize[1] + idx[0]*domainSize[1] + idx[1]',
     'layer := domainSize[0] * domainSize[1]\n\treturn layer*idx[2] + nodeIdx2(domainSize, idx)'),
    (U + 'indexPositionConversion.go', '''	if len(domainSize) == 2 && len(idx) == 2 {
		return nodeIdx2(domainSize, idx)
	} else if len(domainSize) == 3 && len(idx) == 3 {
		return nodeIdx3(domainSize, idx)
	}
	panic(''', '''	if n := len(domainSize); n == len(idx) {
		switch n {
		case 3:
			return nodeIdx3(domainSize, idx)
		case 2:
			return nodeIdx2(domainSize, idx)
		}
	}
	panic('''),
    (U + 'indexPositionConversion.go', '''	col := nodeNum % domainSize[1]
	row := (nodeNum / domainSize[1]) % domainSize[0]
	depth := nodeNum / (domainSize[0] * domainSize[1])
	return []int{row, col, depth}''', '''	rowAndDepth, col := nodeNum/domainSize[1], nodeNum%domainSize[1]
	res := make([]int, 3)
	res[0] = rowAndDepth % domainSize[0]
	res[1] = col
	res[2] = rowAndDepth / domainSize[0]
	return res'''),
    (U + 'indexPositionConversion.go', '''	col := nodeNum % domainSize[1]
	row := nodeNum / domainSize[1]
	return []int{row, col}''', '''	row := nodeNum / domainSize[1]
	return []int{row, nodeNum - row*domainSize[1]}''')])
refactor('wrap', 'C02', [
    (U + 'sliceOperations.go', '''		if pos[i] < 0 {
			factor := -pos[i] / domainSize[i]
			pos[i] += (factor + 1) * domainSize[i]
		}
		pos[i] = pos[i] % domainSize[i]
''', '''		n := domainSize[i]
		r := pos[i] % n
		if r < 0 {
			r += n
		}
		pos[i] = r
''')])
refactor('wrap2', 'C02', [
    (U + 'sliceOperations.go', '''		if pos[i] < 0 {
			factor := -pos[i] / domainSize[i]
			pos[i] += (factor + 1) * domainSize[i]
		}
		pos[i] = pos[i] % domainSize[i]
	}
}''', '''		pos[i] = wrapOne(pos[i], domainSize[i])
	}
}

func wrapOne(x, n int) int {
	return ((x % n) + n) % n
}''')])
refactor('product', 'C03', [
    (U + 'iterators.go', '''	p.Current[len(p.Current)-1]++

	if p.Current[len(p.Current)-1] == p.End[len(p.End)-1] {
		p.Current[len(p.Current)-1] = 0
		for i := len(p.Current) - 2; i >= 0; i-- {
			p.Current[i]++
			if p.Current[i] < p.End[i] {
				return p.Current
			}
			p.Current[i] = 0
		}
	}

	for i := range p.Current {
		if p.Current[i] != 0 {
			return p.Current
		}
	}
	return nil
''', '''	for i := len(p.Current) - 1; i >= 0; i-- {
		p.Current[i]++
		if p.Current[i] < p.End[i] {
			return p.Current
		}
		p.Current[i] = 0
	}
	return nil
''')])
refactor('product2', 'C03', [
    (U + 'iterators.go', '''	p.Current[len(p.Current)-1]++

	if p.Current[len(p.Current)-1] == p.End[len(p.End)-1] {
		p.Current[len(p.Current)-1] = 0
		for''', '''	last := len(p.Current) - 1
	p.Current[last]++

	if p.Current[last] == p.End[last] {
		p.Current[last] = 0
		for'''),
    (U + 'iterators.go', '''	for i := range p.Current {
		if p.Current[i] != 0 {
			return p.Current
		}
	}
	return nil
''', '''	if p.atOrigin() {
		return nil
	}
	return p.Current
}

func (p *Product) atOrigin() bool {
	for _, c := range p.Current {
		if c != 0 {
			return false
		}
	}
	return true
''')])
refactor('fft', 'C04', [
    (U + 'fftWrap.go', '''	copy(fw.Data, data)
	fw.PlanFFT.Execute()
	copy(data, fw.Data)
	return data
}

''', '''	return fw.execute(fw.PlanFFT, data)
}

func (fw *FFTWWrapper) execute(plan fftw.Plan, data []complex128) []complex128 {
	copy(fw.Data, data)
	plan.Execute()
	copy(data, fw.Data)
	return data
}

'''),
    (U + 'fftWrap.go', '''	c := fw.col(i)
	r := fw.row(i)
	res[1] = float64(c) / float64(fw.Dimensions[1])
	res[0] = float64(r) / float64(fw.Dimensions[0])

	if len(res) > 2 {
		d := fw.depth(i)
		res[2] = float64(d) / float64(fw.Dimensions[2])
	}
	for i := range res {
		if res[i] > 0.5 {
			res[i] -= 1.0
		}
	}
	return res
''', '''	for axis, p := range Pos(fw.Dimensions, i) {
		f := float64(p) / float64(fw.Dimensions[axis])
		if f > 0.5 {
			f -= 1.0
		}
		res[axis] = f
	}
	return res
'''),
    (U + 'fftWrap.go', '''	c := fw.col(i)
	r := fw.row(i)

	conjC := (fw.Dimensions[1] - c) % fw.Dimensions[1]
	conjR := (fw.Dimensions[0] - r) % fw.Dimensions[0]
	conjD := 0

	nr := fw.Dimensions[0]
	nc := fw.Dimensions[1]

	if len(fw.Dimensions) == 3 {
		d := fw.depth(i)
		conjD = (fw.Dimensions[2] - d) % fw.Dimensions[2]
	}

	return conjD*nr*nc + conjR*nc + conjC
''', '''	nr, nc := fw.Dimensions[0], fw.Dimensions[1]
	node := mirror(fw.row(i), nr)*nc + mirror(fw.col(i), nc)
	if len(fw.Dimensions) == 3 {
		node += mirror(fw.depth(i), fw.Dimensions[2]) * nr * nc
	}
	return node
}

func mirror(x, n int) int {
	if x == 0 {
		return 0
	}
	return n - x
''')])
refactor('voronoi', 'C05', [
    (U + 'voronoi.go', '''	dist := 0
	for k := range ipos {
		smallestDiff := ipos[k] - jpos[k]
		for _, shift := range []int{-1, 1} {
			diff := ipos[k] - jpos[k] + shift*domainSize[k]
			if absInt(diff) < absInt(smallestDiff) {
				smallestDiff = diff
			}
		}
		dist += smallestDiff * smallestDiff
	}
	return dist
''', '''	dist := 0
	for k := range ipos {
		d := periodicDiff(ipos[k], jpos[k], domainSize[k])
		dist += d * d
	}
	return dist
}

func periodicDiff(a, b, n int) int {
	d := absInt(a - b)
	if n-d < d {
		d = n - d
	}
	return d
'''),
    (U + 'voronoi.go', '''	mindistSq := math.MaxInt64
	bestPoint := 0
	for i := range pts {
		distSq := pointDistSq(pts[i], point, domainSize)
		if distSq < mindistSq {
			mindistSq = distSq
			bestPoint = i
		}
	}
	return bestPoint
''', '''	best, bestDist := 0, math.MaxInt64
	for i, p := range pts {
		if d := pointDistSq(p, point, domainSize); d < bestDist {
			best, bestDist = i, d
		}
	}
	return best
''')])
refactor('blur', 'C06', [
    (U + 'blur.go', '''	for i := range end {
		end[i] = 2*kernel.Cutoff() + 1
	}
''', '''	cutoff := kernel.Cutoff()
	for i := range end {
		end[i] = 1 + cutoff*2
	}
'''),
    (U + 'blur.go', '''	for i := range dataCpy {
		prod''', '''	for i := 0; i < len(dataCpy); i++ {
		prod'''),
    (U + 'blur.go', '''				shift[j] = pos[j] - kernel.Cutoff()
				shiftedPos[j] = center[j] + shift[j]
			}
			Wrap(shiftedPos, domainSize)
			newValue += dataCpy[NodeIdx(domainSize, shiftedPos)] * kernel.Value(shift)
			kernelIntegral += kernel.Value(shift)
''', '''				shift[j] = pos[j] - cutoff
				shiftedPos[j] = center[j] + shift[j]
			}
			weight := kernel.Value(shift)
			kernelIntegral += weight
			Wrap(shiftedPos, domainSize)
			newValue += weight * dataCpy[NodeIdx(domainSize, shiftedPos)]
'''),
    (U + 'blur.go', '''		if x[i] > bk.Width || x[i] < -bk.Width {
			return 0.0
		}
	}
	return 1.0
''', '''		if absInt(x[i]) <= bk.Width {
			continue
		}
		return 0.0
	}
	return 1.0
''')])
refactor('shapes', 'C07', [
    (U + 'shapes.go', '''		if pos[i] > b.Diagonal[i]/2.0 || pos[i] < -b.Diagonal[i]/2.0 {
			return false
		}
''', '''		half := 0.5 * b.Diagonal[i]
		if -half <= pos[i] && pos[i] <= half {
			continue
		}
		return false
'''),
    (U + 'shapes.go', '''	rSq := Dot(pos, pos)
	if rSq < b.Radius*b.Radius {
		return true
	}
	return false
''', '''	rSq := 0.0
	for _, x := range pos {
		rSq += x * x
	}
	return rSq < b.Radius*b.Radius
'''),
    (U + 'shapes.go', '''	rmin := -int(b.Radius) - 1
	rmax := int(b.Radius) + 1
	bbox := BoundingBox{
		Min: make([]int, 3),
		Max: make([]int, 3),
	}
	for i := 0; i < 3; i++ {
		bbox.Min[i] = rmin
		bbox.Max[i] = rmax
	}
	return bbox
''', '''	r := int(b.Radius) + 1
	return BoundingBox{
		Min: []int{-r, -r, -r},
		Max: []int{r, r, r},
	}
'''),
    (U + 'shapes.go', '''		for j := range floatPos {
			floatPos[j] = 0.0
		}
		for j := range pos {
			floatPos[j] = float64(pos[j])
		}
		transformation.Apply(floatPos)
		if shape.InteriorPoint(floatPos[:dim]) {
			grid.Data[i] = value
		}
''', '''		for j := 0; j < 3; j++ {
			if j < len(pos) {
				floatPos[j] = float64(pos[j])
			} else {
				floatPos[j] = 0.0
			}
		}
		transformation.Apply(floatPos)
		if !shape.InteriorPoint(floatPos[:dim]) {
			continue
		}
		grid.Data[i] = value
'''),
    (U + 'affine.go', '''	affine := NewAffine()
	for i := range vec {
		affine.Mat.Set(i, i, vec[i])
	}
	affine.Mat.Set(3, 3, 1.0)
	return affine
''', '''	affine := Identity()
	for i, s := range vec {
		affine.Mat.Set(i, i, s)
	}
	return affine
'''),
    (U + 'affine.go', '''	affine := NewAffine()
	c := math.Cos(angle)
	s := math.Sin(angle)

	affine.Mat.Set(0, 0, c)
	affine.Mat.Set(0, 1, -s)
	affine.Mat.Set(1, 0, s)
	affine.Mat.Set(1, 1, c)
	affine.Mat.Set(2, 2, 1.0)
	affine.Mat.Set(3, 3, 1.0)
	return affine
''', '''	s, c := math.Sincos(angle)
	return Affine{Mat: mat.NewDense(4, 4, []float64{
		c, -s, 0, 0,
		s, c, 0, 0,
		0, 0, 1, 0,
		0, 0, 0, 1,
	})}
''')])
refactor('slices', 'C08', [
    (U + 'sliceOperations.go', '''	if len(a) != len(b) {
		return false
	}

	for i := range a {
		if math.Abs(real(a[i])-real(b[i])) > tol || math.Abs(imag(a[i])-imag(b[i])) > tol {
			return false
		}
	}
	return true
''', '''	if len(b) != len(a) {
		return false
	}
	equal := true
	for i := 0; i < len(a) && equal; i++ {
		d := a[i] - b[i]
		equal = math.Abs(real(d)) <= tol && math.Abs(imag(d)) <= tol
	}
	return equal
'''),
    (U + 'sliceOperations.go', '''	for i := range dst {
		dst[i] += data[i]
	}
''', '''	for i, d := range data[:len(dst)] {
		dst[i] = d + dst[i]
	}
'''),
    (U + 'sliceOperations.go', '''	cfactor := complex(factor, 0.0)
	for i := range data {
		data[i] /= cfactor
	}
	return data
''', '''	for i, v := range data {
		data[i] = complex(real(v)/factor, imag(v)/factor)
	}
	return data
'''),
    (U + 'sliceOperations.go', '''	res := 1
	for i := range a {
		res *= a[i]
	}
	return res
''', '''	res := 1
	for i := len(a) - 1; i >= 0; i-- {
		res *= a[i]
	}
	return res
'''),
    (U + 'sliceOperations.go', '''	for i := range data {
		if real(data[i]) > maxval {
			maxval = real(data[i])
		}
	}
	return maxval
''', '''	for _, v := range data[1:] {
		maxval = math.Max(maxval, real(v))
	}
	return maxval
''')])

E = 'elasticity/'
refactor('rank4', 'C09 C10', [
    (E + 'rank4.go', 'return i*27 + j*9 + k*3 + l', 'return ((i*3+j)*3+k)*3 + l'),
    (E + 'rank4.go', '''								for q := 0; q < 3; q++ {
									idx := r.index(i, j, k, l)
									rotated[idx] += rot.At(i, m) * rot.At(j, n) * rot.At(k, p) * rot.At(l, q) * r.At(m, n, p, q)
								}
''', '''								outer := rot.At(i, m) * rot.At(j, n) * rot.At(k, p)
								for q := 0; q < 3; q++ {
									sum += outer * rot.At(l, q) * r.At(m, n, p, q)
								}
'''),
    (E + 'rank4.go', '''					// Inner indices
''', '''					sum := 0.0
'''),
    (E + 'rank4.go', '''							}
						}
					}
				}
			}
		}
	}
	copy(r.Data, rotated)''', '''							}
						}
					}
					rotated[r.index(i, j, k, l)] = sum
				}
			}
		}
	}
	copy(r.Data, rotated)'''),
    (E + 'rank4.go', '''			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					cur := out.At(i, j)
					out.Set(i, j, cur+r.At(i, j, k, l)*tensor.At(k, l))
				}
			}
''', '''			sum := 0.0
			for kl := 0; kl < 9; kl++ {
				sum += r.At(i, j, kl/3, kl%3) * tensor.At(kl/3, kl%3)
			}
			out.Set(i, j, sum)
'''),
    (E + 'rank4.go', '''					value := 0.0
					if i == j && k == l {
						value += bulkMod - 2.0*shear/3.0
					}

					if i == k && j == l {
						value += shear
					}

					if i == l && j == k {
						value += shear
					}
					tensor.Set(i, j, k, l, value)
''', '''					value := lame*delta(i, j)*delta(k, l) + shear*(delta(i, k)*delta(j, l)+delta(i, l)*delta(j, k))
					tensor.Set(i, j, k, l, value)
'''),
    (E + 'rank4.go', '''	shear := Shear(bulkMod, poisson)
''', '''	shear := Shear(bulkMod, poisson)
	lame := bulkMod - 2.0*shear/3.0
'''),
    (E + 'rank4.go', '''// CubicMaterial returns''', '''func delta(i, j int) float64 {
	if i == j {
		return 1.0
	}
	return 0.0
}

// CubicMaterial returns'''),
    (E + 'rank4.go', '''	for i := 0; i < 3; i++ {
		tensor.Set(i, i, i, i, c11)
	}
	for i := 0; i < 3; i++ {
		for j := i + 1; j < 3; j++ {
			tensor.Set(i, i, j, j, c12)
			tensor.Set(j, j, i, i, c12)

			tensor.Set(i, j, i, j, c44)
			tensor.Set(j, i, j, i, c44)
			tensor.Set(i, j, j, i, c44)
			tensor.Set(j, i, i, j, c44)
		}
	}
''', '''	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if i == j {
				tensor.Set(i, i, i, i, c11)
				continue
			}
			tensor.Set(i, i, j, j, c12)
			tensor.Set(i, j, i, j, c44)
			tensor.Set(i, j, j, i, c44)
		}
	}
'''),
    (E + 'rank4.go', '''	voigtMap := make(map[int][]int)
	voigtMap[0] = []int{0, 0}
	voigtMap[1] = []int{1, 1}
	voigtMap[2] = []int{2, 2}
	voigtMap[3] = []int{1, 2}
	voigtMap[4] = []int{0, 2}
	voigtMap[5] = []int{0, 1}

	for i := range voigt {
		q := i / 6
		p := i % 6

		i1 := voigtMap[q]
		i2 := voigtMap[p]
		tensor.Set(i1[0], i1[1], i2[0], i2[1], voigt[i])
		tensor.Set(i1[0], i1[1], i2[1], i2[0], voigt[i])
		tensor.Set(i1[1], i1[0], i2[0], i2[1], voigt[i])
		tensor.Set(i1[1], i1[0], i2[1], i2[0], voigt[i])
	}
''', '''	voigtMap := [6][2]int{{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}}
	for i, v := range voigt {
		a, b := voigtMap[i/6][0], voigtMap[i/6][1]
		c, d := voigtMap[i%6][0], voigtMap[i%6][1]
		tensor.Set(a, b, c, d, v)
		tensor.Set(a, b, d, c, v)
		tensor.Set(b, a, c, d, v)
		tensor.Set(b, a, d, c, v)
	}
'''),
    (E + 'rank4.go', '''	if axis == 0 {
		rot.Set(0, 0, 1.0)
		rot.Set(1, 1, c)
		rot.Set(2, 2, c)
		rot.Set(1, 2, s)
		rot.Set(2, 1, -s)
	} else if axis == 1 {
		rot.Set(1, 1, 1.0)
		rot.Set(0, 0, c)
		rot.Set(2, 2, c)
		rot.Set(0, 2, s)
		rot.Set(2, 0, -s)
	} else if axis == 2 {
		rot.Set(2, 2, 1.0)
		rot.Set(0, 0, c)
		rot.Set(1, 1, c)
		rot.Set(0, 1, s)
		rot.Set(1, 0, -s)
	}
''', '''	planes := [][]int{{1, 2}, {0, 2}, {0, 1}}
	if axis >= 0 && axis < 3 {
		p := planes[axis]
		rot.Set(axis, axis, 1.0)
		for _, k := range p {
			rot.Set(k, k, c)
		}
		rot.Set(p[0], p[1], s)
		rot.Set(p[1], p[0], -s)
	}
'''),
])
refactor('linelast', 'C10 C11', [
    (E + 'linearElasticity.go', '''	elem := 0.0
	for j := 0; j < 3; j++ {
		for l := 0; l < 3; l++ {
			elem += matProp.At(m, j, n, l) * freq[j] * freq[l]
		}
	}
	return elem * math.Pow(2.0*math.Pi, 2)''', '''	elem := 0.0
	for l := 0; l < 3; l++ {
		row := 0.0
		for j := 0; j < 3; j++ {
			row += matProp.At(m, j, n, l) * freq[j]
		}
		elem += row * freq[l]
	}
	return 4.0 * math.Pi * math.Pi * elem'''),
    (E + 'linearElasticity.go', '''		if math.Abs(f[0]) < tol && math.Abs(f[1]) < tol && math.Abs(f[2]) < tol {
			cdisp[i] = make([]complex128, 3)
			continue
		}
''', '''		cdisp[i] = make([]complex128, 3)
		if isZero(f, tol) {
			continue
		}
'''),
    (E + 'linearElasticity.go', '''		disp.Solve(matrix, bodyF)
		cdisp[i] = make([]complex128, 3)
''', '''		disp.Solve(matrix, bodyF)
'''),
    (E + 'linearElasticity.go', '''// Strain returns the fourier''', '''func isZero(f []float64, tol float64) bool {
	for i := 0; i < 3; i++ {
		if math.Abs(f[i]) >= tol {
			return false
		}
	}
	return true
}

func dropNyquist(f, tol float64) float64 {
	if math.Abs(math.Abs(f)-0.5) < tol {
		return 0.0
	}
	return f
}

// Strain returns the fourier'''),
    (E + 'linearElasticity.go', '''		fm := f[m]
		fn := f[n]
		if math.Abs(math.Abs(fm)-0.5) < tol {
			fm = 0.0
		}
		if math.Abs(math.Abs(fn)-0.5) < tol {
			fn = 0.0
		}
		s[i] = complex(0.0, math.Pi*fn)*ftDisp[i][m] + complex(0.0, math.Pi*fm)*ftDisp[i][n]
''', '''		fm, fn := dropNyquist(f[m], tol), dropNyquist(f[n], tol)
		u := ftDisp[i]
		s[i] = complex(0.0, math.Pi) * (complex(fn, 0.0)*u[m] + complex(fm, 0.0)*u[n])
'''),
    (E + 'linearElasticity.go', '''	res := 0.0
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					res += matProp.At(i, j, k, l) * strain.At(i, j) * strain.At(k, l)
				}
			}
		}
	}
	return 0.5 * res''', '''	res := 0.0
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			stress := 0.0
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					stress += matProp.At(i, j, k, l) * strain.At(k, l)
				}
			}
			res += 0.5 * stress * strain.At(i, j)
		}
	}
	return res'''),
    (E + 'effectiveForce.go', '''		k := freq(i)
		for j := range k {
			force[i] += complex(0.0, -e.EffStress.At(comp, j)*2.0*math.Pi*k[j]) * indicator[i]
		}
''', '''		sum := 0.0
		for j, kj := range freq(i) {
			sum -= e.EffStress.At(comp, j) * kj
		}
		force[i] = complex(0.0, 2.0*math.Pi*sum) * indicator[i]
'''),
])
refactor('perturb', 'C11', [
    (E + 'perturbation.go', '''			factor := 1.0
			if i != j {
				factor = 2.0
			}
''', '''			factor := 2.0
			if i == j {
				factor = 1.0
			}
'''),
    (E + 'perturbation.go', '''				f := ft.Freq(k)
				for comp := 0; comp < dim; comp++ {
					for q := 0; q < dim; q++ {
						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[q]) * strain[k]
					}
				}
''', '''				f := ft.Freq(k)
				for comp := 0; comp < dim; comp++ {
					s := 0.0
					for q := 0; q < dim; q++ {
						s += matProp.At(comp, q, i, j) * f[q]
					}
					force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*s) * strain[k]
				}
'''),
    (E + 'perturbation.go', '''				v := (misfit.At(i, j) - real(strain[k])/float64(len(strain))) * shape(k)
				strain[k] = complex(v, 0.0)
''', '''				eps := real(strain[k]) / float64(len(strain))
				strain[k] = complex(shape(k)*(misfit.At(i, j)-eps), 0.0)
'''),
    (E + 'linearElasticity.go', '''	energy := 0.0
	strains := make([]*mat.Dense, len(disp))
	for k := range strains {
		strains[k] = mat.NewDense(3, 3, nil)
	}
''', '''	strains := make([]*mat.Dense, len(disp))
	for k := range strains {
		strains[k] = mat.NewDense(3, 3, nil)
	}
	energy := 0.0
'''),
    (E + 'linearElasticity.go', '''	for i := range indicator {
		indicator[i] /= complex(float64(len(indicator)), 0.0)
	}
''', '''	scale := complex(1.0/float64(len(indicator)), 0.0)
	for i := range indicator {
		indicator[i] *= scale
	}
'''),
    (E + 'linearElasticity.go', '''				re := real(strain[k]) / float64(len(strain))

				if real(indicator[k]) > 0.5 {
					re -= misfit.At(i, j)
				}
''', '''				re := real(strain[k]) / float64(len(strain))
				if inside := real(indicator[k]) > 0.5; inside {
					re = re - misfit.At(i, j)
				}
'''),
    (E + 'linearElasticity.go', '''	for i := range strains {
		energy += EnergyDensity(&matProp, strains[i])
	}
''', '''	for _, s := range strains {
		energy += EnergyDensity(&matProp, s)
	}
'''),
])

P = 'pf/'
refactor('euler', 'C12 C13 C14 C15', [
    (P + 'euler.go', '''	for _, f := range m.Fields {
		eu.FT.FFT(f.Data)
	}
	for _, f := range m.DerivedFields {
		eu.FT.FFT(f.Data)
	}
''', '''	transformAll(eu.FT, m.Fields)
	for i := range m.DerivedFields {
		eu.FT.FFT(m.DerivedFields[i].Data)
	}
'''),
    (P + 'euler.go', '''// GetTime returns the current time''', '''func transformAll(ft FourierTransform, fields []Field) {
	for i := range fields {
		ft.FFT(fields[i].Data)
	}
}

// GetTime returns the current time'''),
    (P + 'euler.go', '''		for j := range d {
			d[j] = (d[j] + cDt*rhs[i][j]) / (complex(1.0, 0.0) - cDt*denum[i][j])
		}
''', '''		r, lin := rhs[i], denum[i]
		for j, old := range d {
			num := old + cDt*r[j]
			d[j] = num / (1.0 - cDt*lin[j])
		}
'''),
])
refactor('euler2', 'C12 C13 C14 C15', [
    (P + 'euler.go', '''	rhs := make([][]complex128, len(m.Fields))
	denum := make([][]complex128, len(m.Fields))
	for i := range m.Fields {
		rhs[i] = m.GetRHS(i, eu.FT.Freq, t)
		denum[i] = m.GetDenum(i, eu.FT.Freq, t)
	}
''', '''	var rhs, denum [][]complex128
	for i := 0; i < len(m.Fields); i++ {
		denum = append(denum, m.GetDenum(i, eu.FT.Freq, t))
		rhs = append(rhs, m.GetRHS(i, eu.FT.Freq, t))
	}
'''),
    (P + 'euler.go', '''		if eu.Filter != nil {
			ApplyModalFilter(eu.Filter, eu.FT.Freq, d)
		}
	}

	// Inverse FFT
	for _, f := range m.Fields {
		eu.FT.IFFT(f.Data)
		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))
	}
''', '''		if eu.Filter != nil {
			ApplyModalFilter(eu.Filter, eu.FT.Freq, d)
		}
		eu.FT.IFFT(d)
		pfutil.DivRealScalar(d, float64(len(d)))
	}
'''),
])
refactor('rk4', 'C12 C13 C14 C15', [
    (P + 'rk4.go', '''	rk.firstCorrection(m, kFactor)
	rk.PrepareNextCorrection(initial, final, kFactor, m, 1.0/6.0)
	rk.correction(m, kFactor, 0.5)
	rk.PrepareNextCorrection(initial, final, kFactor, m, 1.0/3.0)
	rk.correction(m, kFactor, 0.5)
	rk.PrepareNextCorrection(initial, final, kFactor, m, 1.0/3.0)
	rk.correction(m, kFactor, 1.0)
	rk.PrepareNextCorrection(initial, final, kFactor, m, 1.0/6.0)
''', '''	rk.firstCorrection(m, kFactor)
	rk.PrepareNextCorrection(initial, final, kFactor, m, 1.0/6.0)
	stages := []float64{0.5, 0.5, 1.0}
	weights := []float64{1.0 / 3.0, 1.0 / 3.0, 1.0 / 6.0}
	for s := range stages {
		rk.correction(m, kFactor, stages[s])
		rk.PrepareNextCorrection(initial, final, kFactor, m, weights[s])
	}
'''),
    (P + 'rk4.go', '''			f.Data[j] += complex(factor*rk.Dt, 0.0) * kFactor[i].Data[j]

			// NOTE: We use backward scheme for the linear part. This leads to a
			// first order accurate scheme
			f.Data[j] /= (complex(1.0, 0.0) - complex(factor*rk.Dt, 0.0)*denum[j])
''', '''			h := complex(factor*rk.Dt, 0.0)
			f.Data[j] = (f.Data[j] + h*kFactor[i].Data[j]) / (1.0 - h*denum[j])
'''),
    (P + 'rk4.go', '''		denum := m.GetDenum(i, rk.FT.Freq, t)
		for j := range final[i].Data {
			final[i].Data[j] /= (complex(1.0, 0.0) - cDt*denum[j])
		}
		copy(m.Fields[i].Data, final[i].Data)
''', '''		denum := m.GetDenum(i, rk.FT.Freq, t)
		for j, v := range final[i].Data {
			m.Fields[i].Data[j] = v / (complex(1.0, 0.0) - cDt*denum[j])
		}
'''),
])
refactor('rk4b', 'C12 C13', [
    (P + 'rk4.go', '''	initial := make([]Field, len(m.Fields))
	final := make([]Field, len(m.Fields))
	kFactor := make([]Field, len(m.Fields))
	for i := range m.Fields {
		initial[i] = m.Fields[i].Copy()
		final[i] = m.Fields[i].Copy()
		kFactor[i] = m.Fields[i].Copy()
	}
''', '''	initial := copyFields(m.Fields)
	final := copyFields(m.Fields)
	kFactor := copyFields(m.Fields)
'''),
    (P + 'rk4.go', '''// PrepareNextCorrection updates''', '''func copyFields(fields []Field) []Field {
	res := make([]Field, len(fields))
	for i, f := range fields {
		res[i] = f.Copy()
	}
	return res
}

// PrepareNextCorrection updates'''),
    (P + 'rk4.go', '''	for i := range final {
		for j := range final[i].Data {
			final[i].Data[j] += complex(factor*rk.Dt, 0.0) * kFactor[i].Data[j]
		}
		copy(m.Fields[i].Data, initial[i].Data)
	}
''', '''	weight := complex(factor*rk.Dt, 0.0)
	for i := range final {
		dst, k := final[i].Data, kFactor[i].Data
		for j := range dst {
			dst[j] += weight * k[j]
		}
	}
	for i := range final {
		copy(m.Fields[i].Data, initial[i].Data)
	}
'''),
])
refactor('solver', 'C14 C18 C15', [
    (P + 'solver.go', '''		for j := range s.Model.ImplicitTerms {
			s.Model.ImplicitTerms[j].OnStepFinished(t, s.Model.Bricks)
		}
		for j := range s.Model.ExplicitTerms {
			s.Model.ExplicitTerms[j].OnStepFinished(t, s.Model.Bricks)
		}
		for j := range s.Model.MixedTerms {
			s.Model.MixedTerms[j].OnStepFinished(t, s.Model.Bricks)
		}
	}
}''', '''		s.notifyTerms(t)
	}
}

func (s *Solver) notifyTerms(t float64) {
	m := s.Model
	for _, term := range m.ImplicitTerms {
		term.OnStepFinished(t, m.Bricks)
	}
	for _, term := range m.ExplicitTerms {
		term.OnStepFinished(t, m.Bricks)
	}
	for _, term := range m.MixedTerms {
		term.OnStepFinished(t, m.Bricks)
	}
}'''),
    (P + 'solver.go', '''	switch name {
	case "euler":
		s.Stepper = &Euler{
			Dt: s.Dt,
			FT: s.FT,
		}
	case "rk4":
		s.Stepper = &RK4{
			Dt: s.Dt,
			FT: s.FT,
		}
	default:
		panic("Unknown stepper scheme")
	}
''', '''	if name == "rk4" {
		s.Stepper = &RK4{Dt: s.Dt, FT: s.FT}
		return
	}
	if name != "euler" {
		panic("Unknown stepper scheme")
	}
	s.Stepper = &Euler{Dt: s.Dt, FT: s.FT}
'''),
    (P + 'solver.go', '''	for i := 0; i < nepochs; i++ {
		s.Propagate(nsteps)

		for _, cb := range s.Callbacks {
			cb(s, i+s.StartEpoch)
		}

		// Update monitors
		for i := range s.Monitors {
			s.Monitors[i].Add(s.Model.Bricks)
		}
''', '''	for i := 0; i < nepochs; i++ {
		s.Propagate(nsteps)
		epoch := s.StartEpoch + i
		for k := 0; k < len(s.Callbacks); k++ {
			s.Callbacks[k](s, epoch)
		}
		for _, mon := range s.Monitors {
			mon.Add(s.Model.Bricks)
		}
'''),
])

refactor('model', 'C19 C20 C12', [
    (P + 'model.go', '''	for _, f := range m.RHS[fieldNo].Terms {
		f(freq, t, tmp)
		pfutil.ElemwiseAdd(data, tmp)
	}

	for _, s := range m.AllSources[fieldNo] {
		s.Eval(freq, t, tmp)
		pfutil.ElemwiseAdd(data, tmp)
	}

	// Apply eventual modifiers
	for i := range m.RHSModifiers {
		if m.RHSModifiers[i].EqNo == fieldNo {
			m.RHSModifiers[i].RHSModifier(data)
		}
	}
	return data
}''', '''	sumTerms(m.RHS[fieldNo].Terms, freq, t, data, tmp)

	sources := m.AllSources[fieldNo]
	for k := range sources {
		sources[k].Eval(freq, t, tmp)
		for i, v := range tmp {
			data[i] += v
		}
	}

	for _, mod := range m.RHSModifiers {
		if mod.EqNo != fieldNo {
			continue
		}
		mod.RHSModifier(data)
	}
	return data
}

func sumTerms(terms []Term, freq Frequency, t float64, data, tmp []complex128) {
	for _, f := range terms {
		f(freq, t, tmp)
		pfutil.ElemwiseAdd(data, tmp)
	}
}'''),
    (P + 'model.go', '''	for _, f := range m.RHS[fieldNo].Denum {
		f(freq, t, tmp)
		pfutil.ElemwiseAdd(data, tmp)
	}
	return data''', '''	sumTerms(m.RHS[fieldNo].Denum, freq, t, data, tmp)
	return data'''),
    (P + 'model.go', '''	for _, f := range m.Fields {
		if f.Name == name {
			return true
		}
	}

	for _, f := range m.DerivedFields {
		if f.Name == name {
			return true
		}
	}
	return false
}''', '''	for _, known := range m.AllFieldNames() {
		if known == name {
			return true
		}
	}
	return false
}'''),
    (P + 'model.go', '''	for n := range m.Bricks {
		if n == name {
			return true
		}
	}
	return false
}''', '''	_, ok := m.Bricks[name]
	return ok
}'''),
    (P + 'model.go', '''	for _, f := range m.DerivedFields {
		f.Update()
	}
''', '''	for i := range m.DerivedFields {
		d := &m.DerivedFields[i]
		d.Calc(d.Data)
	}
'''),
    (P + 'model.go', '''	field := NewField(f.Name, len(f.Data), nil)
	copy(field.Data, f.Data)
	return field
''', '''	data := make([]complex128, len(f.Data))
	copy(data, f.Data)
	return NewField(f.Name, len(data), data)
'''),
    (P + 'model.go', '''	var field Field
	if data == nil {
		field.Data = make([]complex128, N)
	} else {
		if len(data) != N {
			panic("model: Inconsistent length of data")
		}
		field.Data = data
	}
	field.Name = name
	return field
''', '''	if data == nil {
		data = make([]complex128, N)
	} else if len(data) != N {
		panic("model: Inconsistent length of data")
	}
	return Field{Data: data, Name: name}
'''),
    (P + 'model.go', '''	if dFields != nil {
		for i := range dFields {
			f := dFields[i]
			if !m.IsFieldName(f.Name) {
				m.DerivedFields = append(m.DerivedFields, f)
				m.Bricks[f.Name] = &f
			}
		}
	}
''', '''	for i := range dFields {
		if m.IsFieldName(dFields[i].Name) {
			continue
		}
		m.RegisterDerivedField(dFields[i])
	}
'''),
    (P + 'userDefinedTerm.go', '''	func1 := t.Construct(bricks)
	func2 := t.Construct(tmpBricks)
	array1 := make([]complex128, N)
	array2 := make([]complex128, N)

	func1(freq, 0.0, array1)
	func2(freq, 0.0, array2)
	return pfutil.CmplxEqualApprox(array1, array2, 1e-10)''', '''	original := make([]complex128, N)
	t.Construct(bricks)(freq, 0.0, original)
	perturbed := make([]complex128, N)
	t.Construct(tmpBricks)(freq, 0.0, perturbed)
	return pfutil.CmplxEqualApprox(original, perturbed, 1e-10)'''),
    (P + 'sourceTerm.go', '''	for i := range data {
		k := freq(i)
		data[i] = complex(s.f(t), 0.0) * cmplx.Exp(-complex(0.0, 2.0*math.Pi*pfutil.Dot(k, s.Pos)))
	}
''', '''	amp := complex(s.f(t), 0.0)
	for i := range data {
		phase := -2.0 * math.Pi * pfutil.Dot(freq(i), s.Pos)
		data[i] = amp * cmplx.Exp(complex(0.0, phase))
	}
'''),
])
refactor('source', 'C14 C19', [
    (P + 'sourceTerm.go', '''	for i := range data {
		k := freq(i)
		data[i] = complex(s.f(t), 0.0) * cmplx.Exp(-complex(0.0, 2.0*math.Pi*pfutil.Dot(k, s.Pos)))
	}
''', '''	amp := complex(s.f(t), 0.0)
	for i := range data {
		phase := -2.0 * math.Pi * pfutil.Dot(freq(i), s.Pos)
		data[i] = amp * cmplx.Exp(complex(0.0, phase))
	}
'''),
])
refactor('source2', 'C14', [
    (P + 'sourceTerm.go', '''		data[i] = complex(s.f(t), 0.0) * cmplx.Exp(-complex(0.0, 2.0*math.Pi*pfutil.Dot(k, s.Pos)))
''', '''		arg := 2.0 * math.Pi * pfutil.Dot(k, s.Pos)
		data[i] = complex(s.f(t)*math.Cos(arg), -s.f(t)*math.Sin(arg))
'''),
    (P + 'sourceTerm.go', '''	"math/cmplx"
''', ''),
])
refactor('builder', 'C20', [
    (P + 'rhsBuilder.go', '''		name := removeKnownPrefixes(t.SubString)
		prefixes := getKnownPrefixes(t.SubString)
		prefixes = append(prefixes, t.PreceedingDelimiter)
		if m.IsImplicitTerm(name) {
			rhs.Denum = append(rhs.Denum, constructFunc(m.ImplicitTerms[name].Construct(m.Bricks), prefixes))
		} else if m.IsExplicitTerm(name) {
			rhs.Terms = append(rhs.Terms, constructFunc(m.ExplicitTerms[name].Construct(m.Bricks), prefixes))
		} else if m.IsMixedTerm(name) {
			rhs.Denum = append(rhs.Denum, constructFunc(m.MixedTerms[name].ConstructLinear(m.Bricks), prefixes))
			rhs.Terms = append(rhs.Terms, constructFunc(m.MixedTerms[name].ConstructNonLinear(m.Bricks), prefixes))
		} else if isBilinear(t.SubString, field, m.AllFieldNames()) {
			t.SubString = strings.Replace(t.SubString, field, "", -1)
			rhs.Denum = append(rhs.Denum, ConcreteTerm(t, m))
		} else {
			rhs.Terms = append(rhs.Terms, ConcreteTerm(t, m))
		}
''', '''		name := removeKnownPrefixes(t.SubString)
		prefixes := append(getKnownPrefixes(t.SubString), t.PreceedingDelimiter)
		switch {
		case m.IsImplicitTerm(name):
			f := constructFunc(m.ImplicitTerms[name].Construct(m.Bricks), prefixes)
			rhs.Denum = append(rhs.Denum, f)
		case m.IsExplicitTerm(name):
			f := constructFunc(m.ExplicitTerms[name].Construct(m.Bricks), prefixes)
			rhs.Terms = append(rhs.Terms, f)
		case m.IsMixedTerm(name):
			mixed := m.MixedTerms[name]
			rhs.Terms = append(rhs.Terms, constructFunc(mixed.ConstructNonLinear(m.Bricks), prefixes))
			rhs.Denum = append(rhs.Denum, constructFunc(mixed.ConstructLinear(m.Bricks), prefixes))
		case isBilinear(t.SubString, field, m.AllFieldNames()):
			t.SubString = strings.ReplaceAll(t.SubString, field, "")
			rhs.Denum = append(rhs.Denum, ConcreteTerm(t, m))
		default:
			rhs.Terms = append(rhs.Terms, ConcreteTerm(t, m))
		}
'''),
    (P + 'rhsBuilder.go', '''	if strings.Contains(term, "LAP") {
		// Term with Laplace operator
		lapWithPowReg := regexp.MustCompile("LAP*[^a-zA-Z]*")
		res := lapWithPowReg.FindString(term)
		lap := LaplacianN{Power: int(GetPower(res))}
		return func(freq Frequency, t float64, field []complex128) {
			for i := range field {
				field[i] = complex(sign, 0.0)
				for j := range brickNames {
					field[i] *= cmplx.Pow(m.Bricks[brickNames[j]].Get(i), complex(powers[j], 0.0))
				}
			}

			if fieldName != "" {
				for i := range field {
					field[i] *= m.Bricks[fieldName].Get(i)
				}
			}
			lap.Eval(freq, field)
		}
	}

	// Term with out laplacian operators
	return func(freq Frequency, t float64, field []complex128) {
		for i := range field {
			field[i] = complex(sign, 0.0)
			for j := range brickNames {
				field[i] *= cmplx.Pow(m.Bricks[brickNames[j]].Get(i), complex(powers[j], 0.0))
			}
		}

		if fieldName != "" {
			for i := range field {
				field[i] *= m.Bricks[fieldName].Get(i)
			}
		}
	}
''', '''	product := func(freq Frequency, t float64, field []complex128) {
		for i := range field {
			value := complex(sign, 0.0)
			for j, name := range brickNames {
				value *= cmplx.Pow(m.Bricks[name].Get(i), complex(powers[j], 0.0))
			}
			if fieldName != "" {
				value *= m.Bricks[fieldName].Get(i)
			}
			field[i] = value
		}
	}
	if !strings.Contains(term, "LAP") {
		return product
	}

	// Term with Laplace operator
	lapWithPowReg := regexp.MustCompile("LAP*[^a-zA-Z]*")
	lap := LaplacianN{Power: int(GetPower(lapWithPowReg.FindString(term)))}
	return func(freq Frequency, t float64, field []complex128) {
		product(freq, t, field)
		lap.Eval(freq, field)
	}
'''),
    (P + 'rhsBuilder.go', '''func removeKnownPrefixes(str string) string {
	prefixes := knownPrefixes()
	return recursiveRemove(prefixes, str)
}''', '''func removeKnownPrefixes(str string) string {
	for _, p := range getKnownPrefixes(str) {
		str = strings.TrimPrefix(str, p)
	}
	return str
}'''),
    (P + 'rhsBuilder.go', '''	var f Term
	if len(prefixes) == 0 {
		return term
	}

	switch prefixes[0] {
	case "-":
		f = func(freq Frequency, t float64, field []complex128) {
			term(freq, t, field)
			flipSign(field)
		}
		break
	case "LAP^4":
		f = func(freq Frequency, t float64, field []complex128) {
			lap := LaplacianN{Power: 4}
			term(freq, t, field)
			lap.Eval(freq, field)
		}
		break
	case "LAP^2":
		f = func(freq Frequency, t float64, field []complex128) {
			lap := LaplacianN{Power: 2}
			term(freq, t, field)
			lap.Eval(freq, field)
		}
		break
	case "LAP":
		f = func(freq Frequency, t float64, field []complex128) {
			lap := LaplacianN{Power: 1}
			term(freq, t, field)
			lap.Eval(freq, field)
		}
		break
	case " ", "+":
		// Do nothing and do not print message that the prefix is unrecognezed
		f = term
		break
	default:
		log.Printf("Unrecognized prefix %s (potential problem)", prefixes[0])
		f = term
	}
	return constructFunc(f, prefixes[1:])
}''', '''	if len(prefixes) == 0 {
		return term
	}

	f := term
	laps := map[string]int{"LAP": 1, "LAP^2": 2, "LAP^4": 4}
	if power, ok := laps[prefixes[0]]; ok {
		f = func(freq Frequency, t float64, field []complex128) {
			lap := LaplacianN{Power: power}
			term(freq, t, field)
			lap.Eval(freq, field)
		}
	} else if prefixes[0] == "-" {
		f = func(freq Frequency, t float64, field []complex128) {
			term(freq, t, field)
			for i := range field {
				field[i] = -field[i]
			}
		}
	} else if prefixes[0] != " " && prefixes[0] != "+" {
		log.Printf("Unrecognized prefix %s (potential problem)", prefixes[0])
	}
	return constructFunc(f, prefixes[1:])
}'''),
])
refactor('butil', 'C20 C12', [
    (P + 'util.go', '''	expr := ""
	for i := range fieldNames {
		if fieldNames[i] == field && isBilinear(pattern, field, fieldNames) {
			continue
		}
		regField := regexp.MustCompile(fieldNames[i] + "[^\\\\*]*")
		res := regField.FindString(pattern)
		if res != "" {
			expr += res + "*"
		}
	}

	if len(expr) > 1 {
		return expr[:len(expr)-1]
	}
	return expr
''', '''	var parts []string
	for _, name := range fieldNames {
		if name == field && isBilinear(pattern, field, fieldNames) {
			continue
		}
		regField := regexp.MustCompile(name + "[^\\\\*]*")
		if res := regField.FindString(pattern); res != "" {
			parts = append(parts, res)
		}
	}
	return strings.Join(parts, "*")
'''),
    (P + 'util.go', '''	return func(data []complex128) {
		for i := range data {
			data[i] = 1.0
			for j := range fieldNames {
				data[i] *= cmplx.Pow(fieldMap[fieldNames[j]].Data[i], complex(powers[j], 0.0))
			}
		}
	}
''', '''	return func(data []complex128) {
		for i := range data {
			prod := complex(1.0, 0.0)
			for j, name := range fieldNames {
				prod *= cmplx.Pow(fieldMap[name].Data[i], complex(powers[j], 0.0))
			}
			data[i] = prod
		}
	}
'''),
    (P + 'util.go', '''	for i := range delimiters {
		if string(value[0]) == delimiters[i] {
			return delimiters[i]
		}
	}
	return ""
''', '''	first := value[:1]
	for _, d := range delimiters {
		if d == first {
			return d
		}
	}
	return ""
'''),
    (P + 'util.go', '''	allDelims := ""
	for _, delim := range delimiters {
		allDelims += delim
	}
''', '''	allDelims := strings.Join(delimiters, "")
'''),
    (P + 'util.go', '''	filtered := str[:0] // filtered shares the same underlying data as str
	for i := range str {
		if str[i] != "" {
			filtered = append(filtered, str[i])
		}
	}
	return filtered
''', '''	filtered := make([]string, 0, len(str))
	for _, s := range str {
		if len(s) > 0 {
			filtered = append(filtered, s)
		}
	}
	return filtered
'''),
    (P + 'util.go', '''		f := freq(i)
		fRad := math.Sqrt(pfutil.Dot(f, f))
		value := fRad * 2.0 / math.Pi
		data[i] *= complex(filter.Eval(value), 0.0)
''', '''		f := freq(i)
		sq := 0.0
		for _, c := range f {
			sq += c * c
		}
		data[i] *= complex(filter.Eval(2.0*math.Sqrt(sq)/math.Pi), 0.0)
'''),
    (P + 'util.go', '''	"github.com/davidkleiven/gopf/pfutil"
''', ''),
])

refactor('ops', 'C16 C17', [
    (P + 'diffOp.go', '''		ft[i] *= complex(math.Pow(-math.Pow(2.0*math.Pi*floats.Norm(freq(i), 2), 2.0), float64(l.Power)), 0.0)
''', '''		kSq := 0.0
		for _, f := range freq(i) {
			k := 2.0 * math.Pi * f
			kSq += k * k
		}
		ft[i] *= complex(math.Pow(-kSq, float64(l.Power)), 0.0)
'''),
    (P + 'diffOp.go', '''import (
	"math"

	"gonum.org/v1/gonum/floats"
)''', '''import "math"'''),
    (P + 'advection.go', '''			pfutil.Clear(data)
			for d := 0; d < dim; d++ {
				vBrick := m.Bricks[ad.VelocityFields[d]]
				gBrick := m.Bricks[ad.GradName(d)]
				for i := range data {
					data[i] += vBrick.Get(i) * gBrick.Get(i)
				}
			}
''', '''			for i := range data {
				sum := complex(0.0, 0.0)
				for d := 0; d < dim; d++ {
					v := m.Bricks[ad.VelocityFields[d]].Get(i)
					sum += v * m.Bricks[ad.GradName(d)].Get(i)
				}
				data[i] = sum
			}
'''),
    (P + 'advection.go', '''	"fmt"

	"github.com/davidkleiven/gopf/pfutil"
''', '''	"fmt"
'''),
    (P + 'advection.go', '''		for i := range field {
			field[i] = -brick.Get(i)
		}
''', '''		for i := 0; i < len(field); i++ {
			field[i] = complex(-1.0, 0.0) * brick.Get(i)
		}
'''),
    (P + 'gradientCalculator.go', '''		f := g.FT.Freq(i)[g.Comp]
		if math.Abs(f-0.5) < 1e-10 && !g.KeepNyquist {
			f = 0.0
		}
		data[i] *= complex(0.0, 2.0*math.Pi*f)
''', '''		f := g.FT.Freq(i)[g.Comp]
		isNyquist := math.Abs(f-0.5) < 1e-10
		if !g.KeepNyquist && isNyquist {
			data[i] = 0.0
			continue
		}
		data[i] = complex(0.0, 2.0*math.Pi*f) * data[i]
'''),
    (P + 'gradientCalculator.go', '''		pfutil.Clear(field)
		dim := len(freq(0))
		for d := 0; d < dim; d++ {
			brick := bricks[dg.FuncName()+dg.GradName(d)]
			for i := range field {
				f := freq(i)[d]
				field[i] += complex(0.0, 2.0*math.Pi*f) * brick.Get(i)
			}
		}
''', '''		dim := len(freq(0))
		fluxes := make([]Brick, dim)
		for d := range fluxes {
			fluxes[d] = bricks[dg.FuncName()+dg.GradName(d)]
		}
		for i := range field {
			k := freq(i)
			field[i] = 0.0
			for d, flux := range fluxes {
				field[i] += complex(0.0, 2.0*math.Pi*k[d]) * flux.Get(i)
			}
		}
'''),
    (P + 'gradientCalculator.go', '''		work := make([]complex128, len(field))
		funcBrick := bricks[wl.PreFactor]

		for i := range work {
			work[i] = funcBrick.Get(i)
		}
		wl.FT.IFFT(work)
		pfutil.DivRealScalar(work, float64(len(work)))

		for i := range field {
			field[i] *= work[i]
		}
''', '''		work := wl.realSpace(bricks[wl.PreFactor], len(field))
		pfutil.ElemwiseMul(field, work)
'''),
    (P + 'gradientCalculator.go', '''// Construct returns the fourier transformed representation of this term
func (wl *WeightedLaplacian)''', '''func (wl *WeightedLaplacian) realSpace(b Brick, n int) []complex128 {
	work := make([]complex128, n)
	for i := range work {
		work[i] = b.Get(i)
	}
	wl.FT.IFFT(work)
	for i := range work {
		work[i] /= complex(float64(n), 0.0)
	}
	return work
}

// Construct returns the fourier transformed representation of this term
func (wl *WeightedLaplacian)'''),
    (P + 'tensorialHessian.go', '''		pfutil.Clear(field)

		for i := range field {
			f := freq(i)

			dim := len(f)

			// Diagonal terms
			for j := 0; j < dim; j++ {
				preFactor := -4.0 * math.Pi * math.Pi * f[j] * f[j] * th.GetCoeff(j, j)
				field[i] += complex(preFactor, 0.0)
			}

			// Off-diagonal terms
			for j := 0; j < dim; j++ {
				for k := j + 1; k < dim; k++ {
					preFactor := -4.0 * math.Pi * math.Pi * f[j] * f[k] * (th.GetCoeff(j, k) + th.GetCoeff(k, j))
					field[i] += complex(preFactor, 0.0)
				}
			}
		}
''', '''		for i := range field {
			f := freq(i)
			sum := 0.0
			for j := range f {
				for k := range f {
					sum += f[j] * f[k] * th.GetCoeff(j, k)
				}
			}
			field[i] = complex(-4.0*math.Pi*math.Pi*sum, 0.0)
		}
'''),
    (P + 'tensorialHessian.go', '''import (
	"math"

	"github.com/davidkleiven/gopf/pfutil"
)''', '''import "math"'''),
    (P + 'squareGradientTerm.go', '''				f := freq(i)
				if math.Abs(f[d]-0.5) < tol {
					f[d] = 0.0
				}
				work[i] = bricks[s.Field].Get(i) * complex(0.0, 2.0*math.Pi*f[d])
''', '''				fd := freq(i)[d]
				if math.Abs(fd-0.5) < tol {
					fd = 0.0
				}
				work[i] = bricks[s.Field].Get(i) * complex(0.0, 2.0*math.Pi*fd)
'''),
    (P + 'squareGradientTerm.go', '''				work[i] = cmplx.Pow(work[i]/complex(float64(len(work)), 0.0), 2.0)
''', '''				grad := work[i] / complex(float64(len(work)), 0.0)
				work[i] = grad * grad
'''),
    (P + 'squareGradientTerm.go', '''	"math/cmplx"
''', ''),
])
refactor('energy', 'C17', [
    (P + 'pairCorrelationTerm.go', '''			f := freq(i)
			fRad := math.Sqrt(pfutil.Dot(f, f))
			out[i] = -complex(pct.evaluate(fRad), 0.0)
''', '''			out[i] = complex(-pct.evaluate(radius(freq(i))), 0.0)
'''),
    (P + 'pairCorrelationTerm.go', '''			f := freq(i)
			fRad := math.Sqrt(pfutil.Dot(f, f))
			out[i] = -complex(epct.evaluate(fRad), 0.0) * brick.Get(i)
''', '''			c := epct.evaluate(radius(freq(i)))
			out[i] = brick.Get(i) * complex(-c, 0.0)
'''),
    (P + 'pairCorrelationTerm.go', '''		f := ft.Freq(i)
		fRad := math.Sqrt(pfutil.Dot(f, f))
		field[i] *= complex(pct.Prefactor*pct.PairCorrFunc.Eval(2.0*math.Pi*fRad), 0.0)
''', '''		field[i] *= complex(pct.evaluate(radius(ft.Freq(i))), 0.0)
'''),
    (P + 'pairCorrelationTerm.go', '''// ExplicitPairCorrelationTerm ''', '''func radius(f []float64) float64 {
	return math.Sqrt(pfutil.Dot(f, f))
}

// ExplicitPairCorrelationTerm '''),
    (P + 'pairCorrelationTerm.go', '''	integral := 0.0
	for i := range field {
		value := real(field[i] * b.Get(i))
		integral += value
	}
	return -0.5 * integral''', '''	energy := 0.0
	for i, v := range field {
		energy -= 0.5 * real(b.Get(i)*v)
	}
	return energy'''),
    (P + 'pairCorrelationTerm.go', '''				out[i] = complex(3.0*idt.IdealMix.ThirdOrderPrefactor()*v*v+4.0*idt.IdealMix.FourthOrderPrefactor()*v*v*v, 0.0)
''', '''				cubic := 3.0 * idt.IdealMix.ThirdOrderPrefactor()
				quartic := 4.0 * idt.IdealMix.FourthOrderPrefactor()
				out[i] = complex(v*v*(cubic+quartic*v), 0.0)
'''),
    (P + 'pairCorrelationTerm.go', '''		val := real(b.Get(i))
		integral += idt.Prefactor * idt.IdealMix.Eval(val)
	}
	return integral''', '''		integral += idt.IdealMix.Eval(real(b.Get(i)))
	}
	return idt.Prefactor * integral'''),
    (P + 'homoLinElast.go', '''				factor := 1.0
				if i != j {
					factor *= 2.0
				}

				for k := range field {
					field[k] += complex(factor*A.At(i, j), 0.0) * strains[k]
				}
''', '''				weight := A.At(i, j)
				if i != j {
					weight += A.At(i, j)
				}

				for k, s := range strains {
					field[k] += complex(weight, 0.0) * s
				}
'''),
    (P + 'homoLinElast.go', '''	return 3.0*x*x - 2.0*x*x*x''', '''	return x * x * (3.0 - 2.0*x)'''),
    (P + 'homoLinElast.go', '''	return 6.0*x - 6.0*x*x''', '''	return 6.0 * x * (1.0 - x)'''),
    ('pfc/pairCorrelation.go', '''	result := 0.0
	for _, peak := range rspc.Peaks {
		prefactor := math.Exp(-rspc.EffTemp * rspc.EffTemp * k * k / (2.0 * peak.PlaneDensity * float64(peak.NumPlanes)))
		value := prefactor * math.Exp(-0.5*math.Pow((k-peak.Location)/peak.Width, 2))
		if value > result {
			result = value
		}
	}
	return result''', '''	result := 0.0
	for i := range rspc.Peaks {
		peak := rspc.Peaks[i]
		x := (k - peak.Location) / peak.Width
		debye := rspc.EffTemp * rspc.EffTemp * k * k / (2.0 * peak.PlaneDensity * float64(peak.NumPlanes))
		result = math.Max(result, math.Exp(-debye-0.5*x*x))
	}
	return result'''),
])
refactor('charge', 'C21', [
    (P + 'chargeTransport.go', '''			kSq := pfutil.Dot(kVec, kVec)
			if math.Abs(math.Abs(kVec[d])-0.5) > 1e-10 {
				effField[i] = brick.Get(i) * complex(0.0, kVec[d]/(2.0*math.Pi*kSq+1e-16))
			} else {
				effField[i] = 0.0
			}

''', '''			if isNyquist(kVec[d]) {
				effField[i] = 0.0
				continue
			}
			kSq := pfutil.Dot(kVec, kVec)
			effField[i] = complex(0.0, kVec[d]/(2.0*math.Pi*kSq+1e-16)) * brick.Get(i)
'''),
    (P + 'chargeTransport.go', '''				if math.Abs(math.Abs(k)-0.5) > 1e-10 {
					field[i] += complex(0.0, 2.0*math.Pi*k) * work[i]
				}
''', '''				if isNyquist(k) {
					continue
				}
				field[i] += complex(0.0, 2.0*math.Pi*k) * work[i]
'''),
    (P + 'chargeTransport.go', '''func voigtIndex3D() [][]int {''', '''func isNyquist(k float64) bool {
	return math.Abs(math.Abs(k)-0.5) <= 1e-10
}

func voigtIndex3D() [][]int {'''),
    (P + 'chargeTransport.go', '''		for i := 0; i < N; i++ {
			sigma := ct.Conductivity(i)
			for d2 := 0; d2 < dim; d2++ {
				start := d2 * N
				effCurrent[start+i] += complex(sigma[voigtIndex(d, d2, dim)], 0.0) * effField[i]
			}
		}
''', '''		for d2 := 0; d2 < dim; d2++ {
			part := effCurrent[d2*N : (d2+1)*N]
			comp := voigtIndex(d, d2, dim)
			for i := range part {
				part[i] += complex(ct.Conductivity(i)[comp], 0.0) * effField[i]
			}
		}
'''),
])
refactor('noise', 'C22', [
    (P + 'noise.go', '''	std := math.Sqrt(2.0 * w.Strength)
	return complex(rand.NormFloat64()*std, 0.0)
''', '''	return complex(gaussian(w.Strength), 0.0)
'''),
    (P + 'noise.go', '''				std := math.Sqrt(2.0 * cn.Strength)
				for i := range data {
					data[i] = complex(rand.NormFloat64()*std, 0.0)
				}
''', '''				for i := range data {
					data[i] = complex(gaussian(cn.Strength), 0.0)
				}
'''),
    (P + 'noise.go', '''// ConservativeNoise ''', '''func gaussian(strength float64) float64 {
	return math.Sqrt(2.0*strength) * rand.NormFloat64()
}

// ConservativeNoise '''),
    (P + 'noise.go', '''		pfutil.Clear(field)
		for comp := 0; comp < cn.Dim; comp++ {
			brick := bricks[cn.GetCurrentName(comp)]
			for i := range field {
				f := freq(i)[comp]
				if math.Abs(math.Abs(f)-0.5) > 1e-6 {
					omegaHalf := math.Pi * f
					field[i] += complex(0.0, 2.0*math.Sin(omegaHalf)) * brick.Get(i)
				}
			}
		}
''', '''		for i := range field {
			f := freq(i)
			sum := complex(0.0, 0.0)
			for comp := 0; comp < cn.Dim; comp++ {
				if math.Abs(math.Abs(f[comp])-0.5) <= 1e-6 {
					continue
				}
				s := math.Sin(math.Pi * f[comp])
				sum += complex(0.0, 2.0*s) * bricks[cn.GetCurrentName(comp)].Get(i)
			}
			field[i] = sum
		}
'''),
    (P + 'noise.go', '''	"math/rand"

	"github.com/davidkleiven/gopf/pfutil"
''', '''	"math/rand"
'''),
    (P + 'volumeConserving.go', '''		for i := range field {
			field[i] = bricks[v.Indicator].Get(i) * complex(v.Multiplier, 0.0)
		}
''', '''		mult := complex(v.Multiplier, 0.0)
		ind := bricks[v.Indicator]
		for i := range field {
			field[i] = mult * ind.Get(i)
		}
'''),
    (P + 'volumeConserving.go', '''	if v.IsFirstUpdate {
		v.CurrentIntegral = fieldIntegral
		v.IsFirstUpdate = false
	} else {
		deltaI := fieldIntegral - v.CurrentIntegral
		v.CurrentIntegral = fieldIntegral
		v.Multiplier = v.Multiplier - deltaI/(v.Dt*indicatorIntegral)
	}
''', '''	if !v.IsFirstUpdate {
		v.Multiplier -= (fieldIntegral - v.CurrentIntegral) / (v.Dt * indicatorIntegral)
	}
	v.IsFirstUpdate = false
	v.CurrentIntegral = fieldIntegral
'''),
])
refactor('freqiter', 'C23', [
    (P + 'util.go', '''	if split == 0 {
		return f[0] > -tol
	}

	if math.Abs(f[split]) < tol || math.Abs(f[split]) > 0.5-tol {
		return includeFreq(f, split-1)
	}
	return f[split] > -tol
''', '''	for i := split; i > 0; i-- {
		selfConj := math.Abs(f[i]) < tol || math.Abs(f[i]) > 0.5-tol
		if !selfConj {
			return f[i] > 0.0
		}
	}
	return f[0] > -tol
'''),
    (P + 'util.go', '''		allZeroOrNyquist := true
		for j := range f {
			if math.Abs(f[j]) > tol && math.Abs(f[j]) < 0.5-tol {
				allZeroOrNyquist = false
			}
		}

		if allZeroOrNyquist {
			fmt.Printf("%v\\n", f)
			rai.next = i + 1
			return i
		}
	}
	return -1
}''', '''		if !selfConjugate(f, tol) {
			continue
		}
		fmt.Printf("%v\\n", f)
		rai.next = i + 1
		return i
	}
	return -1
}

func selfConjugate(f []float64, tol float64) bool {
	for _, c := range f {
		if a := math.Abs(c); a > tol && a < 0.5-tol {
			return false
		}
	}
	return true
}'''),
])
refactor('freqiter2', 'C23', [
    (P + 'util.go', '''	for i := ufi.next; i < ufi.End; i++ {
		f := ufi.Freq(i)

		// Special case last frequency is 0 or 0.5
		//if f[len(f)-1] > -tol {
		if includeFreq(f, len(f)-1) {
			ufi.next = i + 1
			return i
		}
	}
	return -1
''', '''	for ufi.next < ufi.End {
		current := ufi.next
		ufi.next++
		f := ufi.Freq(current)
		if includeFreq(f, len(f)-1) {
			return current
		}
	}
	return -1
'''),
])
refactor('sddlin', 'C24', [
    (P + 'sdd.go', '''	dataDotOrientation := complex(0.0, 0.0)
	for i := range data {
		dataDotOrientation += data[i] * cmplx.Conj(ftOrientation[i])
	}
	dataDotOrientation /= complex(float64(numNodes), 0.0)

	cSigma := complex(sigma, 0.0)
	for i := range data {
		data[i] = data[i] - cSigma*ftOrientation[i]*dataDotOrientation
	}
''', '''	dot := complex(0.0, 0.0)
	for i, v := range ftOrientation[:len(data)] {
		dot += cmplx.Conj(v) * data[i]
	}

	factor := complex(sigma/float64(numNodes), 0.0) * dot
	for i := range data {
		data[i] -= factor * ftOrientation[i]
	}
'''),
    (P + 'sdd.go', '''	dsm := diagonalShermannMorrison{
		invDiagonal: make([]complex128, len(data)),
		u:           make([]complex128, len(data)),
		v:           make([]complex128, len(data)),
	}

	cSigma := complex(sigma, 0.0)
	for i := range data {
		dsm.invDiagonal[i] = 1.0 / (1.0 - cDt*data[i])
		dsm.v[i] = cSigma * data[i] * cDt * cmplx.Conj(ftOrientation[i]) / complex(float64(len(data)), 0.0)
	}
	dsm.u = ftOrientation
	return dsm
''', '''	inv := make([]complex128, len(data))
	v := make([]complex128, len(data))
	scale := complex(sigma*sdd.Dt/float64(len(data)), 0.0)
	for i, a := range data {
		inv[i] = 1.0 / (1.0 - cDt*a)
		v[i] = scale * a * cmplx.Conj(ftOrientation[i])
	}
	return diagonalShermannMorrison{invDiagonal: inv, u: ftOrientation, v: v}
'''),
    (P + 'sdd.go', '''	denum := complex(1.0, 0.0)
	vDotInvDDotVec := complex(0.0, 0.0)
	for i := range dsm.invDiagonal {
		denum += dsm.u[i] * dsm.invDiagonal[i] * dsm.v[i]
		vDotInvDDotVec += dsm.v[i] * dsm.invDiagonal[i] * vec[i]
	}

	for i := range dsm.invDiagonal {
		vec[i] = dsm.invDiagonal[i]*vec[i] - dsm.invDiagonal[i]*dsm.u[i]*vDotInvDDotVec/denum
	}
''', '''	denum := complex(1.0, 0.0)
	numerator := complex(0.0, 0.0)
	for i, d := range dsm.invDiagonal {
		w := d * dsm.v[i]
		denum += w * dsm.u[i]
		numerator += w * vec[i]
	}
	ratio := numerator / denum
	for i, d := range dsm.invDiagonal {
		vec[i] = d * (vec[i] - ratio*dsm.u[i])
	}
'''),
    (P + 'sdd.go', '''	l := sdd.InitDimerLength * math.Exp(-t/sdd.TimeConstants.DimerLength)
	if l < sdd.MinDimerLength {
		return sdd.MinDimerLength
	}
	return l
''', '''	decay := math.Exp(-t / sdd.TimeConstants.DimerLength)
	return math.Max(decay*sdd.InitDimerLength, sdd.MinDimerLength)
'''),
    (P + 'sdd.go', '''			v := cmplx.Abs(f.Data[j])
			norm += v * v
''', '''			re, im := real(f.Data[j]), imag(f.Data[j])
			norm += re*re + im*im
'''),
    (P + 'sdd.go', '''	sdd.InitDimerLength = 0.0
	for i := range orient {
		sdd.InitDimerLength += orient[i] * orient[i]
	}
	sdd.InitDimerLength = math.Sqrt(sdd.InitDimerLength)
	copy(sdd.orientation, orient)
	for i := range sdd.orientation {
		sdd.orientation[i] /= sdd.InitDimerLength
	}
''', '''	length := math.Sqrt(pfutil.Dot(orient, orient))
	for i, v := range orient {
		sdd.orientation[i] = v / length
	}
	sdd.InitDimerLength = length
'''),
    (P + 'sdd.go', '''	outerIdx := 0
	sdd.InitDimerLength = 0.0
	for i := range init {
		for j := range init[i].Data {
			sdd.orientation[outerIdx] = real(final[i].Data[j] - init[i].Data[j])
			sdd.InitDimerLength += sdd.orientation[outerIdx] * sdd.orientation[outerIdx]
			outerIdx++
		}
	}

	sdd.InitDimerLength = math.Sqrt(sdd.InitDimerLength)
''', '''	outerIdx := 0
	sum := 0.0
	for i := range init {
		for j := range init[i].Data {
			diff := real(final[i].Data[j]) - real(init[i].Data[j])
			sdd.orientation[outerIdx] = diff
			sum += diff * diff
			outerIdx++
		}
	}
	sdd.InitDimerLength = math.Sqrt(sum)
'''),
])
refactor('sddstep', 'C24', [
    (P + 'sdd.go', '''	ftOrientation := make([]complex128, m.NumNodes()*len(m.Fields))
	for i := range sdd.orientation {
		ftOrientation[i] = complex(sdd.orientation[i], 0.0)
	}

	for i := range m.Fields {
		sdd.ft.FFT(ftOrientation[i*m.NumNodes() : (i+1)*m.NumNodes()])
	}
''', '''	ftOrientation := sdd.transformedOrientation(m)
'''),
    (P + 'sdd.go', '''func (sdd *SDD) extractRHS(m *Model''', '''func (sdd *SDD) transformedOrientation(m *Model) []complex128 {
	n := m.NumNodes()
	res := make([]complex128, n*len(m.Fields))
	for i, v := range sdd.orientation {
		res[i] = complex(v, 0.0)
	}
	for i := range m.Fields {
		sdd.ft.FFT(res[i*n : (i+1)*n])
	}
	return res
}

func (sdd *SDD) extractRHS(m *Model'''),
    (P + 'sdd.go', '''		w1 := complex(sdd.Alpha, 0.0)
		w2 := complex(1.0-sdd.Alpha, 0.0)
		for j := range work {
			work[j] = w1*rhsStart[i*m.NumNodes()+j] + w2*rhsEnd[i*m.NumNodes()+j]
		}
''', '''		w1 := complex(sdd.Alpha, 0.0)
		offset := i * m.NumNodes()
		for j := range work {
			a, b := rhsStart[offset+j], rhsEnd[offset+j]
			work[j] = b + w1*(a-b)
		}
'''),
    (P + 'sdd.go', '''	for i := range sdd.orientation {
		sdd.orientation[i] -= sdd.Dt * real(torque[i]) / (sdd.DimerLength(sdd.GetTime()) * sdd.TimeConstants.Orientation)
		if math.Abs(real(torque[i])) > sdd.Monitor.MaxTorque {
			sdd.Monitor.MaxTorque = math.Abs(real(torque[i]))
		}
	}
''', '''	rate := sdd.Dt / (l * sdd.TimeConstants.Orientation)
	for i, tq := range torque {
		sdd.orientation[i] -= rate * real(tq)
		sdd.Monitor.MaxTorque = math.Max(sdd.Monitor.MaxTorque, math.Abs(real(tq)))
	}
'''),
    (P + 'sdd.go', '''	torque := rhsStart // Torque on the dimer. Note to avoid re-allocation, torque shares the same underlying memory as rhsStart
	for i := range rhsStart {
		torque[i] = rhsStart[i] - rhsEnd[i]
	}
''', '''	torque := make([]complex128, len(rhsStart))
	for i := range torque {
		torque[i] = rhsStart[i] - rhsEnd[i]
	}
'''),
])

# -- C25 .. C30
P = 'pf/'
C = 'pfc/'
refactor('implicit-helper', 'C25', [
    (P + 'implicitEuler.go', '''			factor := cmplx.Exp(denum[j] * cDt)
			integral := ie.nonlinearIntegral(denum[j], rhs[j], rhsPrev[i*N+j])
			//update := origFields[i].Data[j]*factor + 0.5*cDt*(rhsPrev[i*N+j]*factor+rhs[j])
			update := origFields[i].Data[j]*factor + integral
			rhs[j] = m.Fields[i].Data[j] - update
''', '''			rhs[j] = m.Fields[i].Data[j] - ie.propagate(origFields[i].Data[j], denum[j], rhs[j], rhsPrev[i*N+j])
'''),
    (P + 'implicitEuler.go', '''	t := ie.GetTime()
	cDt := complex(ie.Dt, 0.0)
	for i := range m.Fields {
		N := len(m.Fields[i].Data)
''', '''	t := ie.GetTime()
	for i := range m.Fields {
		N := len(m.Fields[i].Data)
'''),
    (P + 'implicitEuler.go', '''// GetTime returns the current time
func (ie *ImplicitEuler) GetTime() float64 {
''', '''func (ie *ImplicitEuler) propagate(orig, denum, rhs, rhsPrev complex128) complex128 {
	integral := ie.nonlinearIntegral(denum, rhs, rhsPrev)
	return integral + cmplx.Exp(denum*complex(ie.Dt, 0.0))*orig
}

// GetTime returns the current time
func (ie *ImplicitEuler) GetTime() float64 {
''')])
refactor('implicit-loops', 'C25', [
    (P + 'implicitEuler.go', '''	counter := 0
	for i := range fields {
		for j := 0; j < len(fields[i].Data); j++ {
			fields[i].Data[j] = complex(vec[counter], 0.0)
			counter++
		}
	}
''', '''	offset := 0
	for _, f := range fields {
		for j := range f.Data {
			f.Data[j] = complex(vec[offset+j], 0.0)
		}
		offset += len(f.Data)
	}
'''),
    (P + 'implicitEuler.go', '''	for i := range data {
		out[i] = real(data[i])
	}
''', '''	for i, v := range data {
		out[i] = real(v)
	}
'''),
    (P + 'implicitEuler.go', '''	for i, f := range fields {
		ie.fieldData2vec(f.Data, out[i*len(f.Data):])
	}
''', '''	start := 0
	for _, f := range fields {
		end := start + len(f.Data)
		ie.fieldData2vec(f.Data, out[start:end])
		start = end
	}
'''),
    (P + 'implicitEuler.go', '''	if ie.NonlinSolver == nil {
		nonlinSolver := DefaultNonLinSolver()
		ie.NonlinSolver = &nonlinSolver
	}

	res := ie.NonlinSolver.Solve(problem, x0)
''', '''	ie.ensureSolver()
	res := ie.NonlinSolver.Solve(problem, x0)
'''),
    (P + 'implicitEuler.go', '''// SetFilter sets a new filter. Currently''', '''func (ie *ImplicitEuler) ensureSolver() {
	if ie.NonlinSolver != nil {
		return
	}
	s := DefaultNonLinSolver()
	ie.NonlinSolver = &s
}

// SetFilter sets a new filter. Currently''')])
refactor('implicit-integral', 'C25', [
    (P + 'implicitEuler.go', '''	a := rhsPrev
	b := (rhs - rhsPrev) / cDt
	f := cmplx.Exp(denum * cDt)

	if cmplx.Abs(denum) < tol {
		return 0.5 * cDt * (rhs + rhsPrev*f)
	}
	return a*(f-1.0)/denum + b*(f-denum*cDt-1.0)/(denum*denum)
''', '''	z := cDt * denum
	f := cmplx.Exp(z)

	if cmplx.Abs(denum) >= tol {
		slope := (rhs - rhsPrev) / cDt
		first := (f - 1.0) * rhsPrev / denum
		return first + slope*(f-1.0-z)/(denum*denum)
	}
	return 0.5 * (f*rhsPrev + rhs) * cDt
''')])
refactor('miller-factor', 'C26', [
    (C + 'miller.go', '''	numEq := 1

	// Take into account the different combinations of +- the index
	if miller.H != 0 {
		numEq *= 2
	}

	if miller.K != 0 {
		numEq *= 2
	}

	if miller.L != 0 {
		numEq *= 2
	}
''', '''	numEq := signFactor(miller.H) * signFactor(miller.K) * signFactor(miller.L)
'''),
    (C + 'miller.go', '''// NumEquivalent3D returns''', '''func signFactor(x int) int {
	if x == 0 {
		return 1
	}
	return 2
}

// NumEquivalent3D returns'''),
    (C + 'miller.go', '''	numEqual := 1
	if abs(miller.K) == abs(miller.H) {
		numEqual++
	}
	if abs(miller.L) == abs(miller.K) {
		numEqual++
	}
	if abs(miller.L) == abs(miller.H) && abs(miller.K) != abs(miller.H) {
		numEqual++
	}

	numPerm := factorial(3) / factorial(numEqual)
''', '''	h, k, l := abs(miller.H), abs(miller.K), abs(miller.L)
	var numPerm int
	switch {
	case h == k && k == l:
		numPerm = 1
	case h == k || k == l || h == l:
		numPerm = 3
	default:
		numPerm = 6
	}
''')])
refactor('miller-signs', 'C26 C28 C29', [
    (C + 'miller.go', '''	maxH := 1
	if miller.H == 0 {
		maxH = 0
	}

	maxK := 1
	if miller.K == 0 {
		maxK = 0
	}

	maxL := 1
	if miller.L == 0 {
		maxL = 0
	}

	for sgnH := -1; sgnH <= maxH; sgnH += 2 {
		for sgnK := -1; sgnK <= maxK; sgnK += 2 {
			for sgnL := -1; sgnL <= maxL; sgnL += 2 {
''', '''	maxH, maxK, maxL := maxSign(miller.H), maxSign(miller.K), maxSign(miller.L)
	for sgnH := -1; sgnH <= maxH; sgnH += 2 {
		for sgnK := -1; sgnK <= maxK; sgnK += 2 {
			for sgnL := -1; sgnL <= maxL; sgnL += 2 {
'''),
    (C + 'miller.go', '''// EquivalentMillerNoPermutations returns''', '''func maxSign(index int) int {
	if index != 0 {
		return 1
	}
	return 0
}

// EquivalentMillerNoPermutations returns''')])
refactor('miller-unique', 'C26 C28', [
    (C + 'miller.go', '''	end := len(res)
	i := 0
	for i < end {
		j := i + 1
		for j < end {
			if res[i].Equal(res[j]) {
				res[j], res[end-1] = res[end-1], res[j]
				end--
			} else {
				j++
			}
		}
		i++
	}
	return res[:end]
''', '''	unique := res[:0]
	for _, cand := range res {
		seen := false
		for i := range unique {
			if unique[i].Equal(cand) {
				seen = true
				break
			}
		}
		if !seen {
			unique = append(unique, cand)
		}
	}
	return unique
''')])
refactor('lattice-hkl', 'C27', [
    (C + 'lattice.go', '''	_, col := rc.CellVec.Dims()
	res := make([]float64, col)
	for i := 0; i < col; i++ {
		res[i] = float64(miller.H)*rc.CellVec.At(i, 0) + float64(miller.K)*rc.CellVec.At(i, 1)
		if col == 3 {
			res[i] += float64(miller.L) * rc.CellVec.At(i, 2)
		}
	}
	return res
''', '''	return applyMiller(rc.CellVec, miller)
'''),
    (C + 'lattice.go', '''	_, col := change.Dims()

	res := make([]float64, col)
	for i := 0; i < col; i++ {
		res[i] = float64(miller.H)*change.At(i, 0) + float64(miller.K)*change.At(i, 1)
		if col == 3 {
			res[i] += float64(miller.L) * change.At(i, 2)
		}
	}
	return res
''', '''	return applyMiller(change, miller)
'''),
    (C + 'lattice.go', '''// CellChange returns''', '''func applyMiller(m *mat.Dense, miller Miller) []float64 {
	_, n := m.Dims()
	res := make([]float64, n)
	for row := range res {
		for col := 0; col < n; col++ {
			res[row] += m.At(row, col) * float64(miller.At(col))
		}
	}
	return res
}

// CellChange returns''')])
refactor('lattice-recip', 'C27 C29', [
    (C + 'lattice.go', '''	tmpCell := mat.NewDense(row, col, nil)
	tmpCell.Inverse(c.CellVec)
	for i := 0; i < row; i++ {
		for j := 0; j < col; j++ {
			rCell.CellVec.Set(j, i, 2.0*math.Pi*tmpCell.At(i, j))
		}
	}
	return rCell
''', '''	inv := mat.NewDense(row, col, nil)
	inv.Inverse(c.CellVec)
	inv.Scale(2.0*math.Pi, inv)
	for i := 0; i < col; i++ {
		for j := 0; j < row; j++ {
			rCell.CellVec.Set(i, j, inv.At(j, i))
		}
	}
	return rCell
'''),
    (C + 'lattice.go', '''	cell := Cell{
		CellVec: mat.NewDense(3, 3, nil),
	}
	cell.CellVec.Set(0, 0, a)
	cell.CellVec.Set(1, 1, a)
	cell.CellVec.Set(2, 2, a)
	return cell
''', '''	return Cell{
		CellVec: mat.NewDense(3, 3, []float64{
			a, 0.0, 0.0,
			0.0, a, 0.0,
			0.0, 0.0, a,
		}),
	}
''')])
refactor('lattice-change', 'C27', [
    (C + 'lattice.go', '''	change.Product(rc.CellVec, realSpaceChange.T(), rc.CellVec)
	change.Scale(-1.0/(2.0*math.Pi), change)
	return change
''', '''	tmp := mat.NewDense(r, c, nil)
	tmp.Mul(rc.CellVec, realSpaceChange.T())
	change.Mul(tmp, rc.CellVec)
	change.Scale(-0.5/math.Pi, change)
	return change
''')])
refactor('mode-density', 'C28', [
    (C + 'mode_solver.go', '''	density := 0.0
	equiv := EquivalentMiller(ms.Miller[mode])
	dim := len(scaledPosition)
	for _, miller := range equiv {
		if dim == 2 && miller.L != 0 {
			// In 2D, L should always be zero
			continue
		}
		arg := float64(miller.H)*scaledPosition[0] + float64(miller.K)*scaledPosition[1]

		if dim == 3 {
			arg += float64(miller.L) * scaledPosition[2]
		}
		density += math.Cos(2.0 * math.Pi * arg)
	}
	return density
''', '''	var density float64
	dim := len(scaledPosition)
	for _, miller := range EquivalentMiller(ms.Miller[mode]) {
		if miller.L == 0 || dim != 2 {
			density += wave(miller, scaledPosition)
		}
	}
	return density
'''),
    (C + 'mode_solver.go', '''// UnitcellIntegral integrates powers''', '''func wave(m Miller, pos []float64) float64 {
	phase := 0.0
	for i := range pos {
		phase += pos[i] * float64(m.At(i))
	}
	return math.Cos(phase * 2.0 * math.Pi)
}

// UnitcellIntegral integrates powers''')])
refactor('mode-integrand', 'C28', [
    (C + 'mode_solver.go', '''		integrand := func(sx, sy float64) float64 {
			res := 1.0
			for mode, p := range powers {
				if p != 0 {
					res *= math.Pow(ms.ModeDensity(mode, []float64{sx, sy}), float64(p))
				}
			}
			return res
		}
''', '''		integrand := func(sx, sy float64) float64 {
			return ms.densityProduct(powers, []float64{sx, sy})
		}
'''),
    (C + 'mode_solver.go', '''	integrand := func(sx, sy, sz float64) float64 {
		res := 1.0
		for mode, p := range powers {
			if p != 0 {
				res *= math.Pow(ms.ModeDensity(mode, []float64{sx, sy, sz}), float64(p))
			}
		}
		return res
	}
''', '''	integrand := func(sx, sy, sz float64) float64 {
		return ms.densityProduct(powers, []float64{sx, sy, sz})
	}
'''),
    (C + 'mode_solver.go', '''// freeEnergyTerms traces''', '''func (ms *ModeSolver) densityProduct(powers []int, crd []float64) float64 {
	prod := 1.0
	for mode := range powers {
		if powers[mode] == 0 {
			continue
		}
		prod *= math.Pow(ms.ModeDensity(mode, crd), float64(powers[mode]))
	}
	return prod
}

// freeEnergyTerms traces''')])
refactor('mode-build', 'C28', [
    (C + 'mode_solver.go', '''		if val, ok := terms[key]; ok {
			newTerm := freeEnergyTerm{
				ModePowers: powers,
				Coeff:      val.Coeff + integral,
			}
			terms[key] = newTerm
		} else {
			terms[key] = freeEnergyTerm{
				ModePowers: powers,
				Coeff:      integral,
			}
		}
''', '''		terms[key] = freeEnergyTerm{
			ModePowers: powers,
			Coeff:      terms[key].Coeff + integral,
		}
'''),
    (C + 'mode_solver.go', '''		powers := make([]int, len(ms.Miller))
		for j := range idx {
			powers[idx[j]]++
		}
''', '''		powers := make([]int, len(ms.Miller))
		for _, mode := range idx {
			powers[mode]++
		}
''')])
refactor('mode-scale', 'C28', [
    (C + 'mode_solver.go', '''	for k, v := range idealMixPower3 {
		tmp := v
		tmp.Coeff *= ms.IdealMix.ThirdOrderPrefactor()
		idealMixPower3[k] = tmp
	}
	for k, v := range idealMixPower4 {
		tmp := v
		tmp.Coeff *= ms.IdealMix.FourthOrderPrefactor()
		idealMixPower4[k] = tmp
	}
''', '''	scaleTerms(idealMixPower3, ms.IdealMix.ThirdOrderPrefactor())
	scaleTerms(idealMixPower4, ms.IdealMix.FourthOrderPrefactor())
'''),
    (C + 'mode_solver.go', '''// mergeTerms merges''', '''func scaleTerms(terms map[string]freeEnergyTerm, factor float64) {
	for k, v := range terms {
		v.Coeff *= factor
		terms[k] = v
	}
}

// mergeTerms merges''')])
refactor('mode-quad', 'C28', [
    (C + 'quadrature.go', '''			I += wx * wy * f(x, y)
''', '''			weight := wy * wx
			I += f(x, y) * weight
'''),
    (C + 'quadrature.go', '''			for k := 0; k < n; k++ {
				z, wz := rule.FixedLocationSingle(n, k, 0.0, 1.0)
				I += wx * wy * wz * f(x, y, z)
			}
''', '''			wxy := wx * wy
			for k := 0; k < n; k++ {
				z, wz := rule.FixedLocationSingle(n, k, 0.0, 1.0)
				val := f(x, y, z)
				I += wxy * wz * val
			}
''')])
refactor('explorer', 'C28', [
    (C + 'initialGuessExplorer.go', '''	nextPoint := make([]float64, len(hoe.X0))
	for i := range nextPoint {
		nextPoint[i] = (2.0*float64(comb[i]) - 1.0) * hoe.X0[i]
	}
	return nextPoint
''', '''	nextPoint := make([]float64, len(hoe.X0))
	for i, x := range hoe.X0 {
		if comb[i] == 0 {
			x = -x
		}
		nextPoint[i] = x
	}
	return nextPoint
'''),
    (C + 'initialGuessExplorer.go', '''	if !spe.nextCalled {
		spe.nextCalled = true
		return spe.X0
	}
	return nil
''', '''	if spe.nextCalled {
		return nil
	}
	spe.nextCalled = true
	return spe.X0
''')])
refactor('widths-weights', 'C29', [
    (C + 'mode_solver.go', '''	m0 := float64(miller.At(0))
	m1 := float64(miller.At(1))
	weight := m0*Q.At(0, 0)*m0 + m1*Q.At(1, 1)*m1 + 2.0*m0*Q.At(0, 1)*m1
	return weight / 4.0
''', '''	h, k := float64(miller.H), float64(miller.K)
	return 0.25 * (h*h*Q.At(0, 0) + k*k*Q.At(1, 1) + 2.0*h*k*Q.At(0, 1))
'''),
    (C + 'mode_solver.go', '''		for j := i + 1; j < dim; j++ {
			weight -= float64(m.At(i)) * Q.At(i, j) * float64(m.At(j))
			weight += 3.0 * float64(m.At(j)) * Q.At(i, i) * float64(m.At(j))
		}
''', '''		for j := dim - 1; j > i; j-- {
			mj := float64(m.At(j))
			weight += mj * (3.0*Q.At(i, i)*mj - float64(m.At(i))*Q.At(i, j))
		}
''')])
refactor('widths-residual', 'C29', [
    (C + 'mode_solver.go', '''				pred := 0.0
				for i := range x {
					pred += x[i] * x[i] * weights[k](ms.Miller[i], Q)
				}
				value += math.Pow(v-pred, 2.0)
''', '''				diff := predict(ms.Miller, weights[k], Q, x) - v
				value += diff * diff
'''),
    (C + 'mode_solver.go', '''		value := 0.0
		for i := range fitRes.Amp {
			value += fitRes.Amp[i] * fitRes.Amp[i] * weights[k](ms.Miller[i], Q)
		}
		fitRes.Fit[k] = value
''', '''		fitRes.Fit[k] = predict(ms.Miller, weights[k], Q, fitRes.Amp)
'''),
    (C + 'mode_solver.go', '''// BulkModWeight returns''', '''func predict(modes []Miller, weight func(Miller, *mat.Dense) float64, Q *mat.Dense, amp []float64) float64 {
	pred := 0.0
	for i, a := range amp {
		pred += a * a * weight(modes[i], Q)
	}
	return pred
}

// BulkModWeight returns''')])
refactor('widths-final', 'C29', [
    (C + 'mode_solver.go', '''	for i, a := range modeAmp {
		numEquiv := float64(NumEquivalent(ms.Miller[i], dim))
		result.Widths[i] = math.Sqrt(0.5*numEquiv) * math.Abs(a/ampResult.Amp[i])
	}
''', '''	for i := range result.Widths {
		ratio := modeAmp[i] / ampResult.Amp[i]
		if ratio < 0.0 {
			ratio = -ratio
		}
		result.Widths[i] = ratio * math.Sqrt(float64(NumEquivalent(ms.Miller[i], dim))/2.0)
	}
''')])
refactor('rotate-nested', 'C30', [
    (U + 'grid.go', '''	rotPos := make([]int, 2)
	for i := range g.Data {
		pos := g.Pos(i)
		pos[0] -= g.Dims[0] / 2
		pos[1] -= g.Dims[1] / 2

		// Find rotated pixel in the the source image
		rotPos[0] = int(float64(pos[0])*cosa + float64(pos[1])*sina)
		rotPos[1] = int(float64(pos[1])*cosa - float64(pos[0])*sina)
		rotPos[0] += g.Dims[0] / 2
		rotPos[1] += g.Dims[1] / 2
		Wrap(rotPos, g.Dims)
		g.Data[i] = srgImg[g.Index(rotPos)]
	}
''', '''	rotPos := make([]int, 2)
	cx, cy := g.Dims[0]/2, g.Dims[1]/2
	for ix := 0; ix < g.Dims[0]; ix++ {
		for iy := 0; iy < g.Dims[1]; iy++ {
			x, y := float64(ix-cx), float64(iy-cy)
			rotPos[0] = cx + int(x*cosa+y*sina)
			rotPos[1] = cy + int(y*cosa-x*sina)
			Wrap(rotPos, g.Dims)
			g.Set([]int{ix, iy}, srgImg[g.Index(rotPos)])
		}
	}
''')])
refactor('rotate-helper', 'C30', [
    (U + 'grid.go', '''	srgImg := make([]float64, len(g.Data))
	copy(srgImg, g.Data)
''', '''	src := g.Copy()
'''),
    (U + 'grid.go', '''	rotPos := make([]int, 2)
	for i := range g.Data {
		pos := g.Pos(i)
		pos[0] -= g.Dims[0] / 2
		pos[1] -= g.Dims[1] / 2

		// Find rotated pixel in the the source image
		rotPos[0] = int(float64(pos[0])*cosa + float64(pos[1])*sina)
		rotPos[1] = int(float64(pos[1])*cosa - float64(pos[0])*sina)
		rotPos[0] += g.Dims[0] / 2
		rotPos[1] += g.Dims[1] / 2
		Wrap(rotPos, g.Dims)
		g.Data[i] = srgImg[g.Index(rotPos)]
	}
''', '''	for i := range g.Data {
		pos := g.Pos(i)
		dx := float64(pos[0] - g.Dims[0]/2)
		dy := float64(pos[1] - g.Dims[1]/2)

		// Find rotated pixel in the the source image
		rotPos := []int{
			int(dx*cosa+dy*sina) + g.Dims[0]/2,
			int(dy*cosa-dx*sina) + g.Dims[1]/2,
		}
		Wrap(rotPos, g.Dims)
		g.Data[i] = src.Get(rotPos)
	}
''')])
refactor('tilt-rows', 'C30', [
    (C + 'periodicFieldInit.go', '''	// Upper half space with gridCpy
	for ix := 0; ix < grid.Dims[0]/2; ix++ {
		for iy := 0; iy < grid.Dims[1]; iy++ {
			grid.Set([]int{ix, iy}, gridCpy.Get([]int{ix, iy}))
		}
	}
''', '''	// Upper half space with gridCpy
	half := grid.Dims[0] / 2
	copy(grid.Data[:half*grid.Dims[1]], gridCpy.Data)
''')])
refactor('tilt-flat', 'C30', [
    (C + 'periodicFieldInit.go', '''	for ix := 0; ix < grid.Dims[0]/2; ix++ {
		for iy := 0; iy < grid.Dims[1]; iy++ {
			grid.Set([]int{ix, iy}, gridCpy.Get([]int{ix, iy}))
		}
	}
''', '''	pos := make([]int, 2)
	for pos[0] = 0; pos[0] < grid.Dims[0]/2; pos[0]++ {
		for pos[1] = 0; pos[1] < grid.Dims[1]; pos[1]++ {
			grid.Set(pos, gridCpy.Get(pos))
		}
	}
''')])
refactor('tilt-flat2', 'C30', [
    (C + 'periodicFieldInit.go', '''	for ix := 0; ix < grid.Dims[0]/2; ix++ {
		for iy := 0; iy < grid.Dims[1]; iy++ {
			grid.Set([]int{ix, iy}, gridCpy.Get([]int{ix, iy}))
		}
	}
''', '''	n := (grid.Dims[0] / 2) * grid.Dims[1]
	for i := 0; i < n; i++ {
		grid.Data[i] = gridCpy.Data[i]
	}
''')])
refactor('corners', 'C30', [
    (C + 'periodicFieldInit.go', '''	numCorners := 4
	end := make([]int, 3)
	end[0] = 2
	end[1] = 2
	end[2] = 2
	if dim == 3 {
		numCorners = 8
	}

	cornerLoc := mat.NewDense(dim, numCorners, nil)
	prod := pfutil.NewProduct(end[:dim])
	counter := 0
	vec := make([]float64, 3)
	for idx := prod.Next(); idx != nil; idx = prod.Next() {
		for i := 0; i < dim; i++ {
			vec[i] = float64(domainSize[i] * idx[i])
		}

		// Transfer to the corner matrix
		for i := 0; i < dim; i++ {
			cornerLoc.Set(i, counter, vec[i])
		}
		counter++
	}
''', '''	end := []int{2, 2, 2}[:dim]
	numCorners := pfutil.ProdInt(end)
	cornerLoc := mat.NewDense(dim, numCorners, nil)
	prod := pfutil.NewProduct(end)
	for corner := 0; corner < numCorners; corner++ {
		idx := prod.Next()
		for i := range idx {
			cornerLoc.Set(i, corner, float64(idx[i])*float64(domainSize[i]))
		}
	}
''')])
refactor('kernels', 'C30', [
    (C + 'periodicFieldInit.go', '''	exponent := math.Pow(x/gk.Width, 2)
	return math.Exp(-exponent / 2.0)
''', '''	scaled := x / gk.Width
	return math.Exp(-0.5 * scaled * scaled)
'''),
    (C + 'periodicFieldInit.go', '''	if x >= 0.0 && x < ck.Radius+1.0 {
		return 1.0
	}
	return 0.0
''', '''	if x < 0.0 || x >= 1.0+ck.Radius {
		return 0.0
	}
	return 1.0
''')])

F = 'pf/fileIO.go'
refactor('files-binary', 'C32', [
    (F, '''	bytes := make([]byte, size)

	data := make([]float64, len(bytes)/8)
	binary.Read(infile, binary.BigEndian, data)
	return data
''', '''	const width = 8
	values := make([]float64, int(size)/width)
	binary.Read(infile, binary.BigEndian, values)
	return values
'''),
    (F, '''		fname := fmt.Sprintf("%s_%s_%d.bin", fl.Prefix, f.Name, epoch)
		f.SaveReal(fname)
''', '''		f.SaveReal(fl.fileName(f.Name, epoch))
'''),
    (F, '''// LoadFloat64 loads an array''', '''func (fl *Float64IO) fileName(field string, epoch int) string {
	return fl.Prefix + "_" + field + "_" + strconv.Itoa(epoch) + ".bin"
}

// LoadFloat64 loads an array'''),
    (F, '''		binary.Write(out, binary.BigEndian, uint8Rep)
		out.Close()
''', '''		if err := binary.Write(out, binary.BigEndian, uint8Rep); err != nil {
			out.Close()
			panic(err)
		}
		out.Close()
'''),
    ('pf/util.go', '''	for i := range data {
		res[i] = uint8(255 * (real(data[i]) - min) / (max - min))
	}
''', '''	width := max - min
	for i, v := range data {
		res[i] = uint8((real(v) - min) * 255 / width)
	}
''')])
refactor('files-csv', 'C32', [
    (F, '''	csvData := make([]CsvData, len(s.Model.Fields))
	for i := range csvData {
		csvData[i].Name = s.Model.Fields[i].Name
		csvData[i].Data = &pfutil.RealPartSlice{Data: s.Model.Fields[i].Data}
	}
''', '''	csvData := []CsvData{}
	for _, f := range s.Model.Fields {
		csvData = append(csvData, CsvData{Name: f.Name, Data: &pfutil.RealPartSlice{Data: f.Data}})
	}
'''),
    (F, '''	header := []string{"X", "Y", "Z"}
	for _, f := range data {
		header = append(header, f.Name)
	}
''', '''	header := make([]string, 3+len(data))
	header[0], header[1], header[2] = "X", "Y", "Z"
	for i := range data {
		header[3+i] = data[i].Name
	}
'''),
    (F, '''	pos := make([]int, 3)
	for i := 0; i < numNodes; i++ {
		position := pfutil.Pos(domainSize, i)
		copy(pos, position)
		for j := 0; j < 3; j++ {
			record[j] = fmt.Sprintf("%d", pos[j])
		}
''', '''	for i := 0; i < numNodes; i++ {
		pos := [3]int{}
		copy(pos[:], pfutil.Pos(domainSize, i))
		for j, p := range pos {
			record[j] = strconv.Itoa(p)
		}
'''),
    (F, '''			record[j+3] = fmt.Sprintf("%f", f.Data.Get(i))
''', '''			record[3+j] = strconv.FormatFloat(f.Data.Get(i), 'f', 6, 64)
'''),
    (F, '''	fields := make([]Field, len(header)-3)
	for i := range fields {
		fields[i].Name = header[i+3]
		fields[i].Data = []complex128{}
	}
''', '''	fields := []Field{}
	for _, name := range header[3:] {
		fields = append(fields, Field{Name: name, Data: []complex128{}})
	}
'''),
    (F, '''		for i := 0; i < len(fields); i++ {
			v, _ := strconv.ParseFloat(record[i+3], 64)
			fields[i].Data = append(fields[i].Data, complex(v, 0.0))
		}
''', '''		for i, text := range record[3:] {
			v, _ := strconv.ParseFloat(text, 64)
			f := &fields[i]
			f.Data = append(f.Data, complex(v, 0.0))
		}
''')])

L, H = 'cmd/lineplot.go', 'cmd/contour.go'
refactor('plots-line', 'C31', [
    (L, '''	numSet := 0
	if x != -1 {
		numSet++
	}

	if y != -1 {
		numSet++
	}

	if z != -1 {
		numSet++
	}
	return numSet
''', '''	count := 0
	for _, v := range []int{x, y, z} {
		if v != -1 {
			count++
		}
	}
	return count
'''),
    (L, '''	include := true
	if x != -1 {
		include = include && row.X == x
	}

	if y != -1 {
		include = include && row.Y == y
	}

	if z != -1 {
		include = include && row.Z == z
	}
	return include
''', '''	if x != -1 && row.X != x {
		return false
	}
	if y != -1 && row.Y != y {
		return false
	}
	return z == -1 || row.Z == z
'''),
    (L, '''	N := len(rows)
	xys := plotter.XYs{}
	for i := N - 1; i >= 0; i-- {
		if includeRow(rows[i], x, y, z) {
			posArray := []float64{float64(rows[i].X), float64(rows[i].Y), float64(rows[i].Z)}
			xys = append(xys, plotter.XY{
				X: posArray[absissaIndex(x, y, z)],
				Y: rows[i].Value,
			})
		}
	}
	return xys
''', '''	xys := make(plotter.XYs, 0)
	axis := absissaIndex(x, y, z)
	for i := range rows {
		row := rows[len(rows)-1-i]
		if !includeRow(row, x, y, z) {
			continue
		}
		pos := [3]int{row.X, row.Y, row.Z}
		xys = append(xys, plotter.XY{X: float64(pos[axis]), Y: row.Value})
	}
	return xys
''')])
refactor('plots-map', 'C31', [
    (H, '''	Nx := 0
	Ny := 0
	for _, row := range rows {
		if row.X > Nx {
			Nx = row.X
		}
		if row.Y > Ny {
			Ny = row.Y
		}
	}
	Nx++
	Ny++
	heatMap.Nx = Nx
	heatMap.Ny = Ny
''', '''	maxX, maxY := 0, 0
	for i := range rows {
		if x := rows[i].X; maxX < x {
			maxX = x
		}
		if y := rows[i].Y; maxY < y {
			maxY = y
		}
	}
	heatMap.Nx, heatMap.Ny = maxX+1, maxY+1
'''),
    (H, '''	for _, row := range records {
		if row.Value < minval {
			minval = row.Value
		}

		if row.Value > maxval {
			maxval = row.Value
		}
	}
''', '''	for _, row := range records[1:] {
		v := row.Value
		if v < minval {
			minval = v
		} else if v > maxval {
			maxval = v
		}
	}
'''),
    (H, '''	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
''', '''	for j := 0; j < m; j++ {
		for i := 0; i < n; i++ {
'''),
    (H, '''	return h.rows[h.index[index(c, r, h.Nx)]].Value
''', '''	row := h.index[index(c, r, h.Nx)]
	return h.rows[row].Value
''')])

DB, EX = 'pf/database.go', 'cmd/export.go'
refactor('db-write', 'C33', [
    (DB, '	"fmt"\n', ''),
    (DB, '''	pos3 := make([]int, 3)
	numNodes := pfutil.ProdInt(fdb.DomainSize)
	tx, err := fdb.DB.Begin()
''', '''	numNodes := pfutil.ProdInt(fdb.DomainSize)
	tx, err := fdb.DB.Begin()
'''),
    (DB, '''		pos := pfutil.Pos(fdb.DomainSize, i)
		copy(pos3, pos)
		statement, err := tx.Prepare("INSERT INTO positions (X, Y, Z) VALUES (?, ?, ?)")

		if err != nil {
			tx.Rollback()
			return
		}
		_, err = statement.Exec(pos3[0], pos3[1], pos3[2])
''', '''		pos := pfutil.Pos(fdb.DomainSize, i)
		z := 0
		if len(pos) > 2 {
			z = pos[2]
		}
		_, err = tx.Exec("INSERT INTO positions (X, Y, Z) VALUES (?, ?, ?)", pos[0], pos[1], z)
'''),
    (DB, '''	tx, _ := fdb.DB.Begin()
	for i := range values {
		statement, err := tx.Prepare("INSERT INTO fields (name, value, positionId, timestep, simID) VALUES (?, ?, ?, ?, ?)")

		if err != nil {
			log.Fatal(err)
			tx.Rollback()
			return
		}

		_, err = statement.Exec(name, real(values[i]), i, timestep, fdb.simID)
''', '''	tx, err := fdb.DB.Begin()
	if err != nil {
		panic(err)
	}
	statement, err := tx.Prepare("INSERT INTO fields (name, positionId, value, simID, timestep) VALUES (?, ?, ?, ?, ?)")
	if err != nil {
		log.Fatal(err)
		tx.Rollback()
		return
	}
	for node, v := range values {
		_, err = statement.Exec(name, node, real(v), fdb.simID, timestep)
'''),
    (DB, '''	var numRows int
	for result.Next() {
		result.Scan(&numRows)
	}
	return numRows > 1
''', '''	defer result.Close()
	numRows := 0
	if result.Next() {
		result.Scan(&numRows)
	}
	return numRows >= 2
'''),
    (DB, '''		sqlStr := fmt.Sprintf("SELECT MAX(%s) FROM positions", columns[i])
		rows, err := fdb.DB.Query(sqlStr)
		if err != nil {
			log.Fatal(err)
			return false
		}

		var maxval int
		for rows.Next() {
			rows.Scan(&maxval)
		}
		if maxval != fdb.DomainSize[i]-1 {
''', '''		var largest int
		if err := fdb.DB.QueryRow("SELECT MAX(" + columns[i] + ") FROM positions").Scan(&largest); err != nil {
			log.Fatal(err)
			return false
		}
		if largest+1 != fdb.DomainSize[i] {
''')])
refactor('db-read', 'C33', [
    (DB, '''	fields := make(map[string]Field)
	for _, key := range fieldNames {
		fields[key] = NewField(key, numNodes, nil)
	}
''', '''	fieldArray := make([]Field, len(fieldNames))
	number := make(map[string]int)
	for i, key := range fieldNames {
		fieldArray[i] = NewField(key, numNodes, nil)
		number[key] = i
	}
'''),
    (DB, '''		fields[name].Data[positionID] = complex(value, 0.0)
	}

	fieldArray := make([]Field, len(fieldNames))
	for i, fieldName := range fieldNames {
		fieldArray[i] = fields[fieldName]
	}
	return fieldArray
''', '''		fieldArray[number[name]].Data[positionID] = complex(value, 0.0)
	}
	return fieldArray
'''),
    (EX, '''	data := make([]map[string]float64, len(positions))
	for i := range data {
		data[i] = make(map[string]float64)
	}
''', '''	data := []map[string]float64{}
	for range positions {
		data = append(data, map[string]float64{})
	}
'''),
    (EX, '''	header := make([]string, 3+len(keys))
	header[0] = "X"
	header[1] = "Y"
	header[2] = "Z"
	copy(header[3:], keys)
	writer.Write(header)
''', '''	writer.Write(append([]string{"X", "Y", "Z"}, keys...))
''')])
refactor('maps-forward', 'C34', [
    ('pf/boundTransform.go', '''	return bt.Min + (bt.Max-bt.Min)*(math.Atan(x)/math.Pi+0.5)
''', '''	width := bt.Max - bt.Min
	fraction := math.Atan(x) / math.Pi
	return 0.5*(bt.Min+bt.Max) + width*fraction
'''),
    ('pf/boundTransform.go', '''	return math.Tan(math.Pi*(y-bt.Min)/(bt.Max-bt.Min) - 0.5*math.Pi)
''', '''	fraction := (y - bt.Min) / (bt.Max - bt.Min)
	return math.Tan(math.Pi * (fraction - 0.5))
'''),
    ('pf/negative_value_penalty.go', '''	if x > 0.0 {
		return 0.0
	}
	p := float64(nvp.Exponent)
	return -2.0*nvp.Prefactor*p*math.Pow(x, p-1.0)
''', '''	if x < 0.0 {
		return -2.0 * float64(nvp.Exponent) * nvp.Prefactor * math.Pow(x, float64(nvp.Exponent-1))
	}
	return 0.0
'''),
    ('pf/vandeven.go', '''	filter.Data[0] = 1.0
	prefactor''', '''	value := 1.0
	filter.Data[0] = value
	prefactor'''),
    ('pf/vandeven.go', '''		filter.Data[i] = filter.Data[i-1] - prefactor*0.5*(i1+i2)*dx
''', '''		value -= prefactor * 0.5 * (i1 + i2) * dx
		filter.Data[i] = value
'''),
    ('pf/vandeven.go', '''	dx := 1.0 / N
	dy := v.Data[idx+1] - v.Data[idx]
	x0 := float64(idx) * dx
	return v.Data[idx] + (x-x0)*dy/dx
''', '''	w := x*N - float64(idx)
	return (1.0-w)*v.Data[idx] + w*v.Data[idx+1]
''')])
refactor('maps-filter', 'C34', [
    ('pf/vandeven.go', '''	for i := 1; i < 1000; i++ {
		x := float64(i) * dx
		i2 := math.Pow(x*(1-x), float64(order-1))
		x1 := x - dx
		i1 := math.Pow(x1*(1.0-x1), float64(order-1))
		filter.Data[i] = filter.Data[i-1] - prefactor*0.5*(i1+i2)*dx
	}
	return filter
''', '''	integrand := func(x float64) float64 {
		return math.Pow(x*(1-x), float64(order-1))
	}
	for i := range filter.Data[1:] {
		x := float64(i+1) * dx
		filter.Data[i+1] = filter.Data[i] - 0.5*prefactor*dx*(integrand(x-dx)+integrand(x))
	}
	return filter
'''),
    ('pf/vandeven.go', '''	if idx >= len(v.Data)-1 {
		return v.Data[len(v.Data)-1]
	}
''', '''	last := len(v.Data) - 1
	if idx >= last {
		return v.Data[last]
	}
'''),
    ('pfc/pairCorrelation.go', '''	a2 := a / math.Sqrt(2.0)
''', '''	a2 := a * math.Sqrt(0.5)
''')])
