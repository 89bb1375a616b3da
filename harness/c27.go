package main

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID:   "C27",
		Rule: "Gaussian mixtures fitted to random data (clumps, degenerate and duplicate rows, constant columns, as few rows as components), their assignments against own densities of the fitted parameters and the parameters against the assignments; distinct by shape, style and components",
		W: []Workload{
			{Name: "fit", Quick: 32000, Thorough: 128000, Fn: c27Fit},
			{Name: "ends", Quick: 4000, Thorough: 40000, Fn: c27Ends},
			{Name: "single", Quick: 60000, Thorough: 240000, Fn: c27Single},
			{Name: "misuse", Quick: 12000, Thorough: 48000, Fn: c27Misuse},
		},
	})
}

// chol factorises a symmetric matrix (nil: not positive definite).
func c27Chol(a [][]float64) [][]float64 {
	n := len(a)
	l := make([][]float64, n)
	for i := range l {
		l[i] = make([]float64, n)
		for j := 0; j <= i; j++ {
			s := a[i][j]
			for k := 0; k < j; k++ {
				s -= l[i][k] * l[j][k]
			}
			if i == j {
				if !(s > 0) {
					return nil
				}
				l[i][i] = math.Sqrt(s)
			} else {
				l[i][j] = s / l[j][j]
			}
		}
	}
	return l
}

// c27Model is a copy of fitted parameters.
type c27Model struct {
	mean [][]float64
	l    [][][]float64
	cond []float64
}

func c27Read(c *Case, p clustering.Params, k, d int) *c27Model {
	if p.Means == nil || len(p.Covs) != k {
		c.Failf("%d covariances for %d components", len(p.Covs), k)
	}
	mr, mc := p.Means.Dims()
	if mr != k || mc != d {
		c.Failf("means are %dx%d, want %dx%d", mr, mc, k, d)
	}
	m := &c27Model{}
	for q := 0; q < k; q++ {
		m.mean = append(m.mean, mat.Row(nil, q, p.Means))
		a := make([][]float64, d)
		mx := 0.0
		for i := range a {
			a[i] = make([]float64, d)
			for j := range a[i] {
				a[i][j] = p.Covs[q].At(i, j)
				mx = math.Max(mx, math.Abs(a[i][j]))
			}
		}
		l := c27Chol(a)
		mn := math.Inf(1)
		if l != nil {
			for i := range l {
				mn = math.Min(mn, l[i][i]*l[i][i])
			}
		} else {
			mn = 0
		}
		m.l = append(m.l, l)
		m.cond = append(m.cond, mx/mn)
		for i := range m.mean[q] {
			if !finite(m.mean[q][i]) {
				c.Failf("mean %v of component %d", m.mean[q], q)
			}
		}
	}
	return m
}

func (m *c27Model) logProb(q int, x []float64) float64 {
	l := m.l[q]
	d := len(x)
	z := make([]float64, d)
	s := -float64(d) / 2 * math.Log(2*math.Pi)
	for i := range z {
		v := x[i] - m.mean[q][i]
		for k := 0; k < i; k++ {
			v -= l[i][k] * z[k]
		}
		z[i] = v / l[i][i]
		s -= z[i]*z[i]/2 + math.Log(l[i][i])
	}
	return s
}

// c27Cols are the names of the columns in the order of the fitted means: the
// float attributes in the order of their columns.
func c27Order(t *Table) []int {
	var out []int
	for _, s := range base.ResolveAttributes(t.Grid, base.NonClassFloatAttributes(t.Grid)) {
		out = append(out, t.fIdx(s.GetAttribute().GetName()))
	}
	return out
}

// c27Assign checks a cluster map and returns the component of each row.
func c27Assign(c *Case, what string, m clustering.ClusterMap, rows, k int) []int {
	out := make([]int, rows)
	for i := range out {
		out[i] = -1
	}
	for id, v := range m {
		if id < 0 || id >= k {
			c.Failf("%s: component %d of %d", what, id, k)
		}
		for _, p := range v {
			if p < 0 || p >= rows {
				c.Failf("%s: row %d of %d", what, p, rows)
			}
			if out[p] >= 0 {
				c.Failf("%s: row %d is in components %d and %d", what, p, out[p], id)
			}
			out[p] = id
		}
	}
	for p, id := range out {
		if id < 0 {
			c.Failf("%s: row %d is in no component", what, p)
		}
	}
	c.Obs("assignments checked", rows)
	return out
}

func c27Fit(c *Case) {
	r := c.R
	d, k := 1+r.Intn(3), 1+r.Intn(4)
	n := k + big(r, r.Intn(40), 600)
	pts, style := c26Points(c, n, d)
	if r.Intn(6) == 0 {
		j := r.Intn(d)
		for i := range pts {
			pts[i][j] = 3
		}
		style += "+constant"
	}
	t, _ := c26Table(c, pts, r.Intn(2) == 0)
	cols := c27Order(t)
	c.Desc = fmt.Sprintf("%s, %d components: %s", style, k, t.describe(8))
	c.Sig(style, d, k, n/8)
	em, err := clustering.NewExpectationMaximization(k)
	if err != nil {
		c.Failf("NewExpectationMaximization(%d): %v", k, err)
	}
	before := snapshot(t.Grid)
	checked, off := 0, 0
	fits := 3
	for f := 0; f < fits; f++ {
		if err := em.Fit(held(c, t)); err != nil {
			c.Failf("Fit: %v", err)
		}
		m := c27Read(c, em.Params, k, d)
		got, err := em.Predict(t.Grid)
		if err != nil {
			c.Failf("Predict: %v", err)
		}
		as := c27Assign(c, "Predict", got, n, k)
		x := make([][]float64, n)
		for i := range x {
			x[i] = make([]float64, d)
			for a, q := range cols {
				x[i][a] = pts[i][q]
			}
		}
		usable := true
		for q := range m.l {
			if m.l[q] == nil || m.cond[q] > 1e10 {
				usable = false
			}
		}
		if usable {
			for i := range x {
				best := math.Inf(-1)
				for q := 0; q < k; q++ {
					best = math.Max(best, m.logProb(q, x[i]))
				}
				if lp := m.logProb(as[i], x[i]); lp < best-1e-4*(1+math.Abs(best)) {
					c.Failf("row %d (%v) is assigned to component %d, log density %v; the best has %v. means %v", i, x[i], as[i], lp, best, m.mean)
				}
				c.Obs("densities compared", k)
			}
		}
		// parameters belong to the assignment (unless that was still moving)
		for q := 0; q < k; q++ {
			var rows []int
			for i := range as {
				if as[i] == q {
					rows = append(rows, i)
				}
			}
			if len(rows) < 2 {
				continue
			}
			checked++
			bad := false
			mu := make([]float64, d)
			for a := range mu {
				for _, i := range rows {
					mu[a] += x[i][a] / float64(len(rows))
				}
				if math.Abs(mu[a]-m.mean[q][a]) > 2e-3 {
					bad = true
				}
			}
			for a := range mu {
				for b := range mu {
					if a != b && len(rows) < d {
						continue
					}
					s := 0.0
					for _, i := range rows {
						s += (x[i][a] - mu[a]) * (x[i][b] - mu[b])
					}
					s /= float64(len(rows) - 1)
					if math.Abs(s-em.Params.Covs[q].At(a, b)) > 0.01*(1+math.Abs(s)) {
						bad = true
					}
				}
			}
			if bad {
				off++
			}
		}
		c.Obs("fits", 1)
		if f == 2 && checked >= 4 && off*2 > checked {
			fits = 15 // the iterations may not settle, so look at more of them
		}
	}
	c.Obs("components compared with their rows", checked)
	c.Obs("components which had not settled", off)
	if checked >= 4 && off*2 > checked {
		c.Failf("%d of %d components aren't those of their rows", off, checked)
	}
	unchanged(c, "Fit and Predict", t.Grid, before)
	// metamorphic copies of the data to predict
	m1, _ := em.Predict(t.Grid)
	p1 := c27Assign(c, "Predict", m1, n, k)
	pred := func(what string, g base.FixedDataGrid) []int {
		_, rows := g.Size()
		m, err := em.Predict(g)
		if err != nil {
			c.Failf("%s: %v", what, err)
		}
		return c27Assign(c, what, m, rows, k)
	}
	order := r.Perm(n)
	p2 := pred("rows in another order", subTable(t, order).Grid)
	for i, q := range order {
		if p2[i] != p1[q] {
			c.Failf("row %d: component %d, in another order %d", q, p1[q], p2[i])
		}
	}
	p3 := pred("columns in another order", rebuild(c, t, r.Perm(len(t.Attrs)), false).Grid)
	for i := range p3 {
		if p3[i] != p1[i] {
			c.Failf("row %d: component %d, with the columns in another order %d", i, p1[i], p3[i])
		}
	}
	p4 := pred("one row", subTable(t, order[:1]).Grid)
	if p4[0] != p1[order[0]] {
		c.Failf("row %d: component %d, by itself %d", order[0], p1[order[0]], p4[0])
	}
	if len(pred("no rows", subTable(t, nil).Grid)) != 0 {
		c.Failf("predictions for no rows")
	}
}

// c27Ends: rows on a small lattice and many components, where assignments
// may cycle.
func c27Ends(c *Case) {
	r := c.R
	d, k := 2+r.Intn(2), 3+r.Intn(3)
	pts := make([][]float64, 8+r.Intn(17))
	for i := range pts {
		for j := 0; j < d; j++ {
			pts[i] = append(pts[i], float64(r.Intn(6)))
		}
	}
	t, _ := c26Table(c, pts, r.Intn(2) == 0)
	c.Desc = fmt.Sprintf("%d components: %s", k, t.describe(8))
	c.Sig(d, k, len(pts), c.Idx%100)
	em, err := clustering.NewExpectationMaximization(k)
	if err != nil {
		c.Failf("NewExpectationMaximization(%d): %v", k, err)
	}
	for f := 0; f < 6; f++ {
		if err := em.Fit(held(c, t)); err != nil {
			c.Failf("Fit: %v", err)
		}
		c27Read(c, em.Params, k, d)
		m, err := em.Predict(t.Grid)
		if err != nil {
			c.Failf("Predict: %v", err)
		}
		c27Assign(c, "Predict", m, len(pts), k)
		c.Obs("fits on lattices", 1)
	}
}

// c27Single: one component has the mean and covariance of the data.
func c27Single(c *Case) {
	r := c.R
	d := 1 + r.Intn(4)
	n := d + 2 + r.Intn(40)
	pts := make([][]float64, n)
	scale := math.Exp(r.NormFloat64() * 2)
	for i := range pts {
		pts[i] = make([]float64, d)
		for j := range pts[i] {
			pts[i][j] = scale * (r.NormFloat64() + float64(j))
			if j > 0 {
				pts[i][j] += pts[i][0] * 0.5
			}
		}
	}
	t, _ := c26Table(c, pts, r.Intn(2) == 0)
	cols := c27Order(t)
	c.Desc = fmt.Sprintf("scale %v: %s", scale, t.describe(8))
	c.Sig(d, n, len(t.Attrs))
	em, _ := clustering.NewExpectationMaximization(1)
	if r.Intn(2) == 0 {
		em.Fit(subTable(t, r.Perm(n)[:d+1]).Grid) // forgotten by the next Fit
	}
	if err := em.Fit(held(c, t)); err != nil {
		c.Failf("Fit: %v", err)
	}
	c27Read(c, em.Params, 1, d)
	mu := make([]float64, d)
	for a, q := range cols {
		for i := range pts {
			mu[a] += pts[i][q] / float64(n)
		}
		if g := em.Params.Means.At(0, a); math.Abs(g-mu[a]) > 1e-9*(scale+math.Abs(mu[a])) {
			c.Failf("mean %d is %v, want %v", a, g, mu[a])
		}
	}
	for a, qa := range cols {
		for b, qb := range cols {
			s := 0.0
			for i := range pts {
				s += (pts[i][qa] - mu[a]) * (pts[i][qb] - mu[b])
			}
			s /= float64(n - 1)
			if g := em.Params.Covs[0].At(a, b); math.Abs(g-s) > 1e-8*scale*scale*10+1e-3*math.Abs(s) {
				c.Failf("covariance (%d,%d) is %v, want %v", a, b, g, s)
			}
			c.Obs("covariances compared", 1)
		}
	}
	m, err := em.Predict(t.Grid)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	c27Assign(c, "Predict", m, n, 1)
}

func c27Misuse(c *Case) {
	r := c.R
	k := 1 + r.Intn(4)
	if _, err := clustering.NewExpectationMaximization(-r.Intn(3)); err != clustering.InsufficientComponentsError {
		c.Failf("no components: error %v", err)
	}
	em, err := clustering.NewExpectationMaximization(k)
	if err != nil {
		c.Failf("%d components: %v", k, err)
	}
	n := k + 3 + r.Intn(5)
	t := genTable(r, GenOpts{Rows: n, Floats: 1 + r.Intn(2), ClassCat: 2, Style: VGauss})
	c.Desc = fmt.Sprintf("%d components: %s", k, t.describe(5))
	c.Sig(k, n, len(t.Attrs), c.Idx%40)
	if m, err := em.Predict(t.Grid); err != clustering.NoTrainingDataError {
		c.Failf("Predict before Fit: %v, %v", m, err)
	}
	if err := em.Fit(subTable(t, r.Perm(n)[:k-1]).Grid); err != clustering.InsufficientDataError {
		c.Failf("Fit with %d rows for %d components: %v", k-1, k, err)
	}
	if m, err := em.Predict(t.Grid); err != clustering.NoTrainingDataError {
		c.Failf("Predict after a failed Fit: %v, %v", m, err)
	}
	if err := em.Fit(genTable(r, GenOpts{Rows: n, Bins: 1, ClassCat: 2}).Grid); err == nil {
		c.Failf("Fit without numeric attributes returned no error")
	}
	if err := em.Fit(held(c, t)); err != nil {
		c.Failf("Fit: %v", err)
	}
	if m, err := em.Predict(genTable(r, GenOpts{Rows: n, Cats: 2, ClassCat: 2}).Grid); err == nil {
		c.Failf("Predict without the attributes it was fitted to: %v", m)
	}
	c.Obs("errors checked", 6)
}
