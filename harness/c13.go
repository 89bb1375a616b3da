package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sjwhitworth/golearn/metrics/pairwise"
	"github.com/sjwhitworth/golearn/utilities"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID:   "C13",
		Rule: "random pairs and triples of matrices (row vectors, column vectors, full matrices, strided slices of larger matrices; zeros, negatives, ties, mixed magnitudes) given to every distance and kernel; values recomputed from the definition, metric axioms and argument preservation monitored, the distances kernels induce, mismatched shapes must be refused; distinct by shape, layout and values",
		W: []Workload{
			{Name: "distances", Quick: 1200000, Thorough: 4800000, Fn: c13Distances},
			{Name: "helpers", Quick: 180000, Thorough: 720000, Fn: c13Helpers},
		},
	})
}

// randMat makes a matrix, sometimes as a strided slice of a larger one.
func randMat(c *Case, rows, cols int, style ValueStyle) *mat.Dense {
	r := c.R
	if r.Intn(3) == 0 {
		pr, pc := r.Intn(3), r.Intn(3)
		big := mat.NewDense(rows+pr+1, cols+pc+1, nil)
		for i := 0; i < rows+pr+1; i++ {
			for j := 0; j < cols+pc+1; j++ {
				big.Set(i, j, genFloat(r, style))
			}
		}
		return big.Slice(pr, pr+rows, pc, pc+cols).(*mat.Dense)
	}
	d := mat.NewDense(rows, cols, nil)
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			d.Set(i, j, genFloat(r, style))
		}
	}
	return d
}

func matString(m mat.Matrix) string {
	r, c := m.Dims()
	s := fmt.Sprintf("%dx%d", r, c)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			s += fmt.Sprintf(" %x", math.Float64bits(m.At(i, j)))
		}
	}
	return s
}

func c13Distances(c *Case) {
	r := c.R
	rows, cols := 1, 1+big(r, r.Intn(8), 500)
	switch r.Intn(4) {
	case 0:
		rows, cols = cols, 1
	case 1:
		rows = 1 + r.Intn(4)
	}
	style := []ValueStyle{VSmallInt, VGauss, VWide, VNonNeg, VUnit}[r.Intn(5)]
	x, y, z := randMat(c, rows, cols, style), randMat(c, rows, cols, style), randMat(c, rows, cols, style)
	if r.Intn(8) == 0 {
		y.Copy(x)
	}
	if r.Intn(8) == 0 { // agree in all but one coordinate
		y.Copy(x)
		y.Set(r.Intn(rows), r.Intn(cols), genFloat(r, style))
	}
	if r.Intn(3) == 0 { // coordinates of very different magnitudes
		tiny := r.Intn(2) == 0
		for j := 0; j < cols; j++ {
			for i := 0; i < rows; i++ {
				if tiny && r.Intn(3) == 0 {
					continue
				}
				scale := math.Pow(10, float64(r.Intn(60)-40))
				for _, m := range []*mat.Dense{x, y, z} {
					m.Set(i, j, m.At(i, j)*scale)
				}
			}
		}
	}
	before := matString(x) + matString(y)
	c.Desc = fmt.Sprintf("x=%v y=%v", mat.Formatted(x, mat.Squeeze()), mat.Formatted(y, mat.Squeeze()))
	c.Sig(before)
	each := func(a, b *mat.Dense, f func(p, q float64)) {
		for i := 0; i < rows; i++ {
			for j := 0; j < cols; j++ {
				f(a.At(i, j), b.At(i, j))
			}
		}
	}
	var man, che, can, sq, dot, xx, yy float64
	each(x, y, func(p, q float64) {
		d := math.Abs(p - q)
		man += d
		if d > che {
			che = d
		}
		if p != 0 || q != 0 {
			can += d / (math.Abs(p) + math.Abs(q))
		}
		sq += d * d
		dot += p * q
		xx += p * p
		yy += q * q
	})
	check := func(name string, got, want, tol float64) {
		c.Obs("values", 1)
		if !feq(got, want, tol) {
			c.Failf("%s = %v, want %v", name, got, want)
		}
	}
	type df struct {
		name string
		d    pairwise.PairwiseDistanceFunc
		want float64
	}
	for _, f := range []df{
		{"Euclidean", pairwise.NewEuclidean(), math.Sqrt(sq)},
		{"Manhattan", pairwise.NewManhattan(), man},
		{"Chebyshev", pairwise.NewChebyshev(), che},
		{"Canberra", pairwise.NewCranberra(), can},
	} {
		got := f.d.Distance(x, y)
		c.Obs("values", 1)
		if math.Abs(got-f.want) > 1e-9*f.want+1e-150 || math.IsNaN(got) {
			c.Failf("%s = %v, want %v", f.name, got, f.want)
		}
		check(f.name+" symmetric", f.d.Distance(y, x), got, 1e-12)
		if s := f.d.Distance(x, x); s != 0 {
			c.Failf("%s of a vector to itself is %v", f.name, s)
		}
		if (got == 0) != (sq == 0 && man == 0) && !(man > 0 && man < 1e-150) {
			c.Failf("%s is %v for vectors that differ by %v", f.name, got, man)
		}
		xz, zy := f.d.Distance(x, z), f.d.Distance(z, y)
		if got > xz+zy+1e-9*(1+math.Abs(got)+xz+zy) {
			c.Failf("%s breaks the triangle inequality: %v > %v + %v", f.name, got, xz, zy)
		}
		// another shape, also one with the same number of elements
		for k := 0; k < 2; k++ {
			br, bc := rows+1, cols
			if k == 1 {
				br, bc = cols, rows
				if rows == cols {
					br, bc = rows, cols+1
				}
			}
			if Panics(func() { f.d.Distance(x, randMat(c, br, bc, style)) }) == nil {
				c.Failf("%s accepted %dx%d and %dx%d", f.name, rows, cols, br, bc)
			}
		}
	}
	check("Euclidean inner product", pairwise.NewEuclidean().InnerProduct(x, y), dot, 1e-9*(1+math.Sqrt(xx*yy)))
	check("Cosine dot", pairwise.NewCosine().Dot(x, y), dot, 1e-9*(1+math.Sqrt(xx*yy)))
	if xx > 1e-200 && yy > 1e-200 {
		got := pairwise.NewCosine().Distance(x, y)
		want := 1 - dot/math.Sqrt(xx)/math.Sqrt(yy)
		if math.Abs(got-want) > 1e-9 {
			c.Failf("Cosine = %v, want %v", got, want)
		}
		if got < -1e-9 || got > 2+1e-9 {
			c.Failf("Cosine = %v out of [0,2]", got)
		}
	}
	g := r.Float64() * []float64{0.01, 1, 3}[r.Intn(3)]
	rbf := pairwise.NewRBFKernel(g).InnerProduct(x, y)
	if w := math.Exp(-g * sq); math.Abs(rbf-w) > 1e-9 {
		c.Failf("RBF(gamma %v) = %v, want %v", g, rbf, w)
	}
	if s := pairwise.NewRBFKernel(g).InnerProduct(x, x); s != 1 {
		c.Failf("RBF of a vector with itself is %v", s)
	}
	if cols == 1 {
		deg := r.Intn(6)
		want := 1.0
		for i := 0; i < deg; i++ {
			want *= dot + 1
		}
		check(fmt.Sprintf("Poly(%d)", deg), pairwise.NewPolyKernel(deg).InnerProduct(x, y), want, 1e-9*math.Pow(1+math.Sqrt(xx*yy), float64(deg)))
		want = math.Pow(sq+1, float64(deg)/2)
		check(fmt.Sprintf("distance of Poly(%d)", deg), pairwise.NewPolyKernel(deg).Distance(x, y), want, 1e-9*want)
	}
	if matString(x)+matString(y) != before {
		c.Failf("a distance changed its arguments")
	}
}

func c13Helpers(c *Case) {
	r := c.R
	m := map[int]float64{}
	n := big(r, r.Intn(30), 600)
	for i := 0; i < n; i++ {
		m[r.Intn(1000)-300] = genFloat(r, []ValueStyle{VSmallInt, VGauss, VWide}[r.Intn(3)])
	}
	before := fmt.Sprint(m)
	s := utilities.SortIntMap(m)
	c.Desc = fmt.Sprintf("%v", m)
	c.Sig(before)
	if fmt.Sprint(m) != before {
		c.Failf("SortIntMap changed the map")
	}
	if len(s) != len(m) {
		c.Failf("SortIntMap returned %d of %d keys", len(s), len(m))
	}
	seen := map[int]bool{}
	for i, k := range s {
		if _, ok := m[k]; !ok || seen[k] {
			c.Failf("SortIntMap returned key %d twice or from nowhere", k)
		}
		seen[k] = true
		if i > 0 && m[s[i-1]] > m[k] {
			c.Failf("SortIntMap: value %v of key %d before %v of key %d", m[s[i-1]], s[i-1], m[k], k)
		}
	}
	var f []float64
	for i := 0; i <= n; i++ {
		f = append(f, genFloat(r, VWide))
	}
	fm := utilities.FloatsToMatrix(f)
	a, b := fm.Dims()
	if a != 1 || b != len(f) {
		c.Failf("FloatsToMatrix of %d values is %dx%d", len(f), a, b)
	}
	for i := range f {
		if fm.At(0, i) != f[i] {
			c.Failf("FloatsToMatrix element %d is %v, want %v", i, fm.At(0, i), f[i])
		}
	}
	d := randMat(c, 1+r.Intn(6), 1+r.Intn(6), VWide)
	dr, dc := d.Dims()
	var v mat.Vector
	if r.Intn(2) == 0 {
		v = d.ColView(r.Intn(dc))
	} else {
		v = d.RowView(r.Intn(dr))
	}
	want := make([]float64, v.Len())
	for i := range want {
		want[i] = v.AtVec(i)
	}
	vm := utilities.VectorToMatrix(v)
	a, b = vm.Dims()
	if a != 1 || b != len(want) {
		c.Failf("VectorToMatrix of %d values is %dx%d", len(want), a, b)
	}
	for i := range want {
		if vm.At(0, i) != want[i] {
			c.Failf("VectorToMatrix element %d is %v, want %v", i, vm.At(0, i), want[i])
		}
	}
	c.Obs("values", len(f)+len(want)+len(s))
	_ = sort.Ints
}
