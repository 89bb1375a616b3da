package main

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/linear_models"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID:   "C21",
		Rule: "linear regression on random designs (exact relations, noise, collinear and constant columns, badly scaled columns, non-numeric attributes, mean shifts): residuals orthogonal to the design, known coefficients recovered, predictions linear; distinct by design kind and dimensions",
		W: []Workload{
			{Name: "fit", Quick: 240000, Thorough: 960000, Fn: c21Fit},
			{Name: "misuse", Quick: 18000, Thorough: 72000, Fn: c21Misuse},
		},
	})
}

func c21Fit(c *Case) {
	r := c.R
	k := r.Intn(7)
	n := k + 1 + big(r, r.Intn(40), 1000)
	if r.Intn(4) == 0 {
		n = k + 1
	}
	m := 1 + r.Intn(12)
	noise := []float64{0, 0, 0.5, 5}[r.Intn(4)]
	scale := make([]float64, k)
	shift := make([]float64, k)
	beta := make([]float64, k)
	for j := range scale {
		scale[j], beta[j] = 1, float64(r.Intn(21)-10)/2
		if r.Intn(4) == 0 {
			scale[j] = math.Pow(10, float64(r.Intn(7)-3))
		}
		if r.Intn(4) == 0 {
			shift[j] = scale[j] * float64(r.Intn(40)-20)
		}
	}
	alpha := r.NormFloat64() * 10
	o := GenOpts{Floats: k, Cats: r.Intn(2), Bins: r.Intn(2), ClassFloat: true, ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0}
	train, test := genPair(c, o, n, m)
	cls := train.ClassIdx()[0]
	var feats []int
	for _, j := range train.NonClassIdx() {
		if _, ok := train.Attrs[j].(*base.FloatAttribute); ok {
			feats = append(feats, j)
		}
	}
	singular := k > 0 && r.Intn(6) == 0
	skind := r.Intn(4)
	for ti, t := range []*Table{train, test} {
		for i, row := range t.Cells {
			y := alpha
			x := make([]float64, k)
			for q := range feats {
				x[q] = shift[q] + scale[q]*r.NormFloat64()
				if r.Intn(9) == 0 {
					x[q] = math.Round(x[q])
				}
			}
			if singular {
				switch {
				case skind == 0 || k == 1 && skind != 3:
					x[k-1] = 3.25 // a constant column
				case skind == 1:
					x[0] = x[k-1] // a duplicate
				case skind == 2:
					x[0] = 2*x[k-1] - 1
				case skind == 3:
					x[0] = 0
				}
			}
			for q, j := range feats {
				row[j] = packF(x[q])
				t.Grid.Set(t.Specs[j], i, row[j])
				y += beta[q] * x[q]
			}
			if ti == 0 {
				y += noise * r.NormFloat64()
			}
			row[cls] = packF(y)
			t.Grid.Set(t.Specs[cls], i, row[cls])
		}
	}
	c.Desc = fmt.Sprintf("k=%d n=%d noise=%v scale=%v shift=%v beta=%v alpha=%v singular=%v/%d %s", k, n, noise, scale, shift, beta, alpha, singular, skind, train.describe(3))
	c.Sig(k, n, noise, singular, skind, fmt.Sprint(scale))
	lr := linear_models.NewLinearRegression()
	if r.Intn(4) == 0 {
		old, _ := genPair(c, o, 12+k, 1)
		lr.Fit(old.Grid)
		c.Obs("refits", 1)
	}
	var fitG base.FixedDataGrid = train.Grid
	if r.Intn(3) == 0 {
		fitG = base.NewInstancesViewFromVisible(train.Grid, r.Perm(n), train.Grid.AllAttributes())
	} else {
		fitG = held(c, train)
	}
	before := snapshot(fitG)
	if err := lr.Fit(fitG); err != nil {
		c.Failf("Fit: %v", err)
	}
	unchanged(c, "Fit", fitG, before)
	pp := func(t *Table) []float64 {
		s := snapshot(t.Grid)
		p, err := lr.Predict(t.Grid)
		if err != nil {
			c.Failf("Predict: %v", err)
		}
		unchanged(c, "Predict", t.Grid, s)
		return predFloats(c, "Predict", p, t)
	}
	fit := pp(train)
	// residuals are orthogonal to every column, which characterises the
	// least squares solutions
	y := make([]float64, n)
	ynorm := 0.0
	for i := range y {
		y[i] = train.F(i, cls)
		ynorm += y[i] * y[i]
	}
	for q := -1; q < len(feats); q++ {
		dot, xn := 0.0, 0.0
		for i := range y {
			x := 1.0
			if q >= 0 {
				x = train.F(i, feats[q])
			}
			dot += x * (y[i] - fit[i])
			xn += x * x
		}
		if !(math.Abs(dot) <= 1e-7*math.Sqrt(xn*ynorm)+1e-9) {
			c.Failf("residuals are not orthogonal to column %d: %v (|x|=%v |y|=%v) fit=%v y=%v", q, dot, math.Sqrt(xn), math.Sqrt(ynorm), fit, y)
		}
		c.Obs("normal_equations", 1)
	}
	got := pp(test)
	for _, v := range got {
		if !finite(v) {
			c.Failf("prediction %v", v)
		}
	}
	if !singular {
		// the minimiser is unique: solve independently
		X := mat.NewDense(n, k+1, nil)
		for i := 0; i < n; i++ {
			X.Set(i, 0, 1)
			for q, j := range feats {
				X.Set(i, q+1, (train.F(i, j)-shift[q])/scale[q])
			}
		}
		var svd mat.SVD
		if !svd.Factorize(X, mat.SVDThin) {
			return
		}
		sv := svd.Values(nil)
		cond := sv[0] / sv[len(sv)-1]
		if !(cond >= 1 && cond <= 1e4) {
			c.Obs("ill_conditioned_skipped", 1)
			return
		}
		var sol mat.Dense
		svd.SolveTo(&sol, mat.NewDense(n, 1, y), k+1)
		for i := 0; i < m; i++ {
			w := sol.At(0, 0)
			s := 1 + math.Abs(w)
			for q, j := range feats {
				z := (test.F(i, j) - shift[q]) / scale[q] * sol.At(q+1, 0)
				w += z
				s += math.Abs(z)
			}
			if !(math.Abs(w-got[i]) <= 1e-6*s*cond) {
				c.Failf("test row %d: predicted %v, least squares gives %v (condition %v)", i, got[i], w, cond)
			}
			if noise == 0 && !(math.Abs(test.F(i, cls)-got[i]) <= 1e-5*s*cond) {
				c.Failf("test row %d: predicted %v, the exact relation gives %v (condition %v)", i, got[i], test.F(i, cls), cond)
			}
			c.Obs("predictions_compared", 1)
		}
	} else {
		c.Obs("singular_designs", 1)
	}
}

func c21Misuse(c *Case) {
	r := c.R
	kind := r.Intn(5)
	c.Sig(kind, r.Intn(50))
	lr := linear_models.NewLinearRegression()
	switch kind {
	case 0:
		t := genTable(r, GenOpts{Rows: 4, Floats: 2, ClassFloat: true})
		if p, err := lr.Predict(t.Grid); err == nil || p != nil {
			c.Failf("Predict without Fit: %v %v", p, err)
		}
	case 1: // not enough rows
		k := 1 + r.Intn(5)
		t := genTable(r, GenOpts{Rows: r.Intn(k + 1), Floats: k, ClassFloat: true, ShuffleAttrOrder: true})
		c.Desc = t.describe(2)
		if err := lr.Fit(t.Grid); err == nil {
			c.Failf("Fit accepted %d rows for %d variables", t.Rows(), k+1)
		}
		if _, err := lr.Predict(t.Grid); err == nil {
			c.Failf("Predict after a failed Fit did not fail")
		}
	case 2: // class count
		o := GenOpts{Rows: 9, Floats: 2}
		if r.Intn(2) == 0 {
			o.ClassFloat, o.ClassCat = true, 2
		}
		t := genTable(r, o)
		if err := lr.Fit(t.Grid); err == nil {
			c.Failf("Fit accepted %d classes", len(t.ClassIdx()))
		}
	case 3: // class type
		o := GenOpts{Rows: 9, Floats: 2}
		if r.Intn(2) == 0 {
			o.ClassCat = 3
		} else {
			o.ClassBin = true
		}
		t := genTable(r, o)
		c.Desc = t.describe(2)
		if err := lr.Fit(t.Grid); err == nil {
			c.Failf("Fit accepted a class which is not numeric")
		}
	case 4: // a grid without the attributes
		t := genTable(r, GenOpts{Rows: 9, Floats: 2, ClassFloat: true})
		if err := lr.Fit(t.Grid); err != nil {
			c.Failf("Fit: %v", err)
		}
		u := genTable(r, GenOpts{Rows: 9, Floats: r.Intn(2), ClassFloat: true})
		if _, err := lr.Predict(u.Grid); err == nil {
			c.Failf("Predict without the training attributes did not fail")
		}
	}
	c.Obs("misuse_cases", 1)
}
