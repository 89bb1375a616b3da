package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sjwhitworth/golearn/pca"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID:   "C25",
		Rule: "PCA of random matrices (correlated, low-rank, constant and offset columns, more columns than rows, 0 to more than all components) against the eigenvalues of the covariance matrix, plus new data; distinct by shape, rank, components and style",
		W: []Workload{
			{Name: "project", Quick: 300000, Thorough: 1200000, Fn: c25Project},
		},
	})
}

func c25Project(c *Case) {
	r := c.R
	n, d := 1+big(r, r.Intn(25), 400), 1+big(r, r.Intn(8), 40)
	if r.Intn(3) > 0 && n <= d {
		n = d + 1 + r.Intn(10)
	}
	rank := d
	if r.Intn(3) == 0 {
		rank = 1 + r.Intn(d)
	}
	// X = scores * loadings + offset (+ noise of nothing)
	load := mat.NewDense(rank, d, nil)
	for i := 0; i < rank; i++ {
		s := math.Exp(r.NormFloat64())
		for j := 0; j < d; j++ {
			load.Set(i, j, s*r.NormFloat64())
		}
	}
	off := make([]float64, d)
	offScale := []float64{0, 1, 100}[r.Intn(3)]
	for j := range off {
		off[j] = offScale * r.NormFloat64()
	}
	constant := -1
	if r.Intn(6) == 0 {
		constant = r.Intn(d)
	}
	gen := func(n int) *mat.Dense {
		s := mat.NewDense(n, rank, nil)
		for i := 0; i < n; i++ {
			for j := 0; j < rank; j++ {
				s.Set(i, j, r.NormFloat64())
			}
		}
		x := mat.NewDense(n, d, nil)
		x.Mul(s, load)
		for i := 0; i < n; i++ {
			for j := 0; j < d; j++ {
				x.Set(i, j, x.At(i, j)+off[j])
				if j == constant {
					x.Set(i, j, off[j])
				}
			}
		}
		return x
	}
	X := gen(n)
	k := r.Intn(d + 3)
	want := k
	if k == 0 || k > d {
		want = d
		if n < d {
			want = n
		}
	}
	c.Desc = fmt.Sprintf("%dx%d of rank %d, %d components, offset %v, constant column %d: %.4v", n, d, rank, k, offScale, constant, mat.Formatted(X, mat.Squeeze()))
	c.Sig(n, d, rank, k, offScale, constant)
	if Panics(func() { pca.NewPCA(k).Transform(X) }) == nil {
		c.Failf("Transform before Fit returned")
	}
	if Panics(func() { pca.NewPCA(-1 - k).Fit(mat.DenseCopyOf(X)) }) == nil {
		c.Failf("Fit accepted %d components", -1-k)
	}
	keep := mat.DenseCopyOf(X)
	same := func(what string) {
		if !mat.Equal(keep, X) {
			c.Failf("%s changed the matrix it was given", what)
		}
	}
	p := pca.NewPCA(k)
	if r.Intn(3) == 0 {
		p.Fit(gen(2 + r.Intn(5))) // forgotten by the next Fit
		c.Obs("refits", 1)
	}
	var T *mat.Dense
	if r.Intn(2) == 0 {
		T = p.FitTransform(X)
		same("FitTransform")
	} else {
		if q := p.Fit(X); q != p {
			c.Failf("Fit didn't return its receiver")
		}
		same("Fit")
		T = p.Transform(X)
		same("Transform")
	}
	tr, tc := T.Dims()
	if tr != n || tc != want {
		c.Failf("Transform is %dx%d, want %dx%d", tr, tc, n, want)
	}
	mean := make([]float64, d)
	scale := 1e-12
	for j := range mean {
		for i := 0; i < n; i++ {
			mean[j] += X.At(i, j) / float64(n)
		}
		for i := 0; i < n; i++ {
			scale += (X.At(i, j) - mean[j]) * (X.At(i, j) - mean[j])
		}
	}
	// the scatter matrix and its eigenvalues
	sc := mat.NewSymDense(d, nil)
	for a := 0; a < d; a++ {
		for b := a; b < d; b++ {
			s := 0.0
			for i := 0; i < n; i++ {
				s += (X.At(i, a) - mean[a]) * (X.At(i, b) - mean[b])
			}
			sc.SetSym(a, b, s)
		}
	}
	var es mat.EigenSym
	if !es.Factorize(sc, false) {
		return
	}
	ev := es.Values(nil)
	sort.Sort(sort.Reverse(sort.Float64Slice(ev)))
	tol := 1e-8 * (scale + offScale*offScale*1e-4)
	for a := 0; a < want; a++ {
		m := 0.0
		for i := 0; i < n; i++ {
			m += T.At(i, a)
		}
		if math.Abs(m) > 1e-8*float64(n)*(1+math.Sqrt(scale)+offScale) {
			c.Failf("component %d of the transformed data has mean %v", a, m/float64(n))
		}
		for b := a; b < want; b++ {
			s := 0.0
			for i := 0; i < n; i++ {
				s += T.At(i, a) * T.At(i, b)
			}
			w := 0.0
			if a == b {
				w = ev[a]
			}
			if math.Abs(s-w) > tol {
				c.Failf("components %d and %d have the scatter %v, want %v (eigenvalues %v)", a, b, s, w, ev)
			}
			c.Obs("component pairs checked", 1)
		}
	}
	// the directions, read off differences of transformed points
	probes := mat.NewDense(d+1, d, nil)
	for i := 0; i <= d; i++ {
		for j := 0; j < d; j++ {
			probes.Set(i, j, mean[j])
		}
		if i < d {
			probes.Set(i, i, mean[i]+1)
		}
	}
	P := p.Transform(probes)
	lim := want
	if n < lim {
		lim = n // only as many directions as there are rows
	}
	for a := 0; a < want; a++ {
		if math.Abs(P.At(d, a)) > 1e-8*(1+offScale) {
			c.Failf("the mean is transformed to %v in component %d", P.At(d, a), a)
		}
	}
	v := func(j, a int) float64 { return P.At(j, a) - P.At(d, a) }
	for a := 0; a < lim; a++ {
		for b := a; b < lim; b++ {
			s, w := 0.0, 0.0
			for j := 0; j < d; j++ {
				s += v(j, a) * v(j, b)
			}
			if a == b {
				w = 1
			}
			if math.Abs(s-w) > 1e-8*(1+offScale) {
				c.Failf("directions %d and %d have the product %v, want %v", a, b, s, w)
			}
		}
	}
	// new data goes through the same map
	Y := gen(1 + r.Intn(5))
	yn, _ := Y.Dims()
	Z := p.Transform(Y)
	for i := 0; i < yn; i++ {
		for a := 0; a < want; a++ {
			s := 0.0
			for j := 0; j < d; j++ {
				s += (Y.At(i, j) - mean[j]) * v(j, a)
			}
			if math.Abs(s-Z.At(i, a)) > 1e-7*(1+offScale)*(1+math.Abs(s)+math.Sqrt(scale)) {
				c.Failf("new row %d, component %d: %v, want %v", i, a, Z.At(i, a), s)
			}
			c.Obs("new values compared", 1)
		}
	}
	if again := p.Transform(X); !mat.EqualApprox(again, T, 1e-9*(1+math.Sqrt(scale))) {
		c.Failf("Transform(X) isn't the same the second time")
	}
}
