package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/sjwhitworth/golearn/perceptron"
)

func init() {
	register(&Property{
		ID:   "C24",
		Rule: "averaged perceptrons on two-class data separated by a margin in random directions (categorical and binary classes, extra attributes, shuffled columns, refits), judged by accuracy, by convexity of both predicted regions and by metamorphic copies of the test data; distinct by dimension, class kind, sizes and parameters",
		W: []Workload{
			{Name: "separable", Quick: 72000, Thorough: 288000, Fn: c24Separable},
			{Name: "textbook", Quick: 24000, Thorough: 96000, Fn: c24Textbook},
			{Name: "any", Quick: 48000, Thorough: 192000, Fn: c24Any},
		},
	})
}

// c24Table makes data with a two-valued class; lab decides on the class
// (nil: random).
func c24Table(c *Case, n, dim int, binClass bool, extra bool, gen func() ([]float64, int)) *Table {
	r := c.R
	o := GenOpts{Rows: n, Floats: dim, ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0}
	if binClass {
		o.ClassBin = true
		o.ExplicitGroups = true
	} else {
		o.ClassCat = 2
	}
	if extra {
		o.Cats = r.Intn(2)
		o.Bins = r.Intn(2)
	}
	t := genTable(r, o)
	cls := t.ClassIdx()[0]
	for i := range t.Cells {
		x, k := gen()
		q := 0
		for j, a := range t.Attrs {
			if j == cls {
				if binClass {
					t.Cells[i][j] = []byte{byte(k)}
				} else {
					t.Cells[i][j] = packU(uint64(k))
				}
			} else if t.fIdx(a.GetName()) >= 0 {
				t.Cells[i][j] = packF(x[t.fIdx(a.GetName())])
				q++
			}
			t.Grid.Set(t.Specs[j], i, t.Cells[i][j])
		}
	}
	return t
}

// fIdx is the number in a generated float attribute's name, or -1.
func (t *Table) fIdx(name string) int {
	var k int
	if n, _ := fmt.Sscanf(strings.TrimLeft(name, "n"), "f%d", &k); n == 1 {
		return k
	}
	return -1
}

// c24Point adds nothing to the labels: predictions of points are read back
// through tables made by this function.
func c24Points(tmpl *Table, pts [][]float64) *Table {
	rows := make([]int, len(pts))
	t := subTable(tmpl, rows)
	for i, p := range pts {
		for j, a := range t.Attrs {
			if k := t.fIdx(a.GetName()); k >= 0 && !t.Class[j] {
				t.Cells[i][j] = packF(p[k])
				t.Grid.Set(t.Specs[j], i, t.Cells[i][j])
			}
		}
	}
	return t
}

func c24Metamorphic(c *Case, p *perceptron.AveragePerceptron, train, test *Table, fresh func() *perceptron.AveragePerceptron) []string {
	r := c.R
	cls := test.ClassIdx()[0]
	before := snapshot(test.Grid)
	p1 := predLabels(c, "Predict", p.Predict(test.Grid), test)
	unchanged(c, "Predict", test.Grid, before)
	same := func(what string, p2 []string, order []int) {
		for i, k := range order {
			if p2[i] != p1[k] {
				c.Failf("%s: row %d is predicted %s, %s before", what, k, p2[i], p1[k])
			}
		}
	}
	ids := allIdx(test.Rows())
	same("Predict again", predLabels(c, "Predict again", p.Predict(test.Grid), test), ids)
	order := r.Perm(test.Rows())
	same("rows in another order", predLabels(c, "reordered", p.Predict(subTable(test, order).Grid), test), order)
	cols := rebuild(c, test, r.Perm(len(test.Attrs)), false)
	same("columns in another order", predLabels(c, "reordered columns", p.Predict(cols.Grid), cols), ids)
	one := subTable(test, []int{order[0]})
	same("one row by itself", predLabels(c, "one row", p.Predict(one.Grid), one), order[:1])
	flip := subTable(test, ids)
	for i := range flip.Cells {
		if len(flip.Cells[i][cls]) == 1 {
			flip.Grid.Set(flip.Specs[cls], i, []byte{1 - flip.Cells[i][cls][0]})
		} else {
			flip.Grid.Set(flip.Specs[cls], i, packU(1-unpackU(flip.Cells[i][cls])))
		}
	}
	same("other labels in the test data", predLabels(c, "other labels", p.Predict(flip.Grid), flip), ids)
	f := fresh()
	f.Fit(train.Grid)
	same("a second model of the same data", predLabels(c, "second model", f.Predict(test.Grid), test), ids)
	c.Obs("metamorphic copies predicted", 6)
	return p1
}

func c24Separable(c *Case) {
	r := c.R
	dim := 1 + r.Intn(5)
	n, m := 20+r.Intn(60), 1+r.Intn(20)
	binClass := r.Intn(3) == 0
	w := make([]float64, dim)
	norm := 0.0
	for i := range w {
		w[i] = r.NormFloat64()
		norm += w[i] * w[i]
	}
	norm = math.Sqrt(norm)
	shift := r.NormFloat64() * 0.3
	scale := 1.0
	if r.Intn(3) == 0 { // without a shift the size of the numbers doesn't matter
		shift, scale = 0, math.Pow(10, float64(r.Intn(7)))
	}
	first := 0
	gen := func() ([]float64, int) {
		for {
			x := make([]float64, dim)
			s := shift
			for i := range x {
				x[i] = r.Float64()*4 - 2
				s += x[i] * w[i] / norm
			}
			if math.Abs(s) < 0.7 {
				continue
			}
			k := 0
			if s > 0 {
				k = 1
			}
			if first < 6 && k != first%2 {
				continue // some of each
			}
			first++
			for i := range x {
				x[i] *= scale
			}
			return x, k
		}
	}
	all := c24Table(c, n+m, dim, binClass, r.Intn(3) == 0, gen)
	idx := allIdx(n + m)
	train, test := subTable(all, idx[:n]), subTable(all, idx[n:])
	rate := 0.1 + r.Float64()*2
	thr := r.Float64()*2 - 1
	feats := dim + r.Intn(3)
	fresh := func() *perceptron.AveragePerceptron {
		return perceptron.NewAveragePerceptron(feats, rate, thr, 0.1+0.5*r.Float64())
	}
	p := fresh()
	c.Desc = fmt.Sprintf("scale=%v w=%v shift=%v rate=%v threshold=%v %s", scale, w, shift, rate, thr, train.describe(6))
	c.Sig(dim, n/10, binClass, feats, len(train.Attrs))
	if r.Intn(3) == 0 {
		old := subTable(all, idx[:6])
		cls := all.ClassIdx()[0]
		for i := range old.Cells {
			if binClass {
				old.Grid.Set(old.Specs[cls], i, []byte{byte(r.Intn(2))})
			} else {
				old.Grid.Set(old.Specs[cls], i, packU(uint64(r.Intn(2))))
			}
		}
		p.Fit(old.Grid)
		c.Obs("refits", 1)
	}
	before := snapshot(train.Grid)
	p.Fit(held(c, train))
	unchanged(c, "Fit", train.Grid, before)
	cls := train.ClassIdx()[0]
	acc := func(t *Table, l []string) float64 {
		ok := 0
		for i := range l {
			if l[i] == t.S(i, cls) {
				ok++
			}
		}
		return float64(ok) / float64(len(l))
	}
	tr := predLabels(c, "Predict(training data)", p.Predict(train.Grid), train)
	if a := acc(train, tr); a < 0.85 {
		c.Failf("only %.2f of the training rows, which are separated by a wide margin, are classified rightly", a)
	}
	c24Metamorphic(c, p, train, test, fresh)
}

// c24Average trains the averaged perceptron of the textbook, with whole numbers
// and rates that are powers of two (so that nothing is rounded), and returns the
// smallest margin by which it classifies the rows rightly (negative: it doesn't).
func c24Average(xs [][]float64, ks []int, rate, thr float64, passes int) float64 {
	dim := len(xs[0])
	w, sum := make([]float64, dim+1), make([]float64, dim+1)
	score := func(w []float64, x []float64) float64 {
		s := w[dim]
		for j, v := range x {
			s += w[j] * v
		}
		return s
	}
	for p := 0; p < passes; p++ {
		for i, x := range xs {
			want := float64(2*ks[i] - 1)
			got := -1.0
			if score(w, x) >= thr {
				got = 1
			}
			if got != want {
				for j, v := range x {
					w[j] += rate * (want - got) * v
				}
				w[dim] += rate * (want - got)
			}
			for j := range w {
				sum[j] += w[j]
			}
		}
	}
	for j := range sum {
		sum[j] /= float64(passes * len(xs))
	}
	worst := math.Inf(1)
	for i, x := range xs {
		worst = math.Min(worst, float64(2*ks[i]-1)*(score(sum, x)-thr))
	}
	return worst
}

// c24Textbook checks that separable rows which the textbook algorithm classifies
// rightly after MaxEpochs passes are classified rightly.
func c24Textbook(c *Case) {
	r := c.R
	dim := 1 + r.Intn(4)
	n := 2 + r.Intn(10)
	if r.Intn(3) == 0 {
		n = 2 + r.Intn(50)
	}
	binClass := r.Intn(3) == 0
	rate := []float64{0.25, 0.5, 1, 2}[r.Intn(4)]
	thr := []float64{0, 0, 0.5, -0.5, 1.25, -3}[r.Intn(6)]
	var xs [][]float64
	var ks []int
	for margin := 0.0; ; {
		xs, ks = nil, nil
		w := make([]float64, dim)
		for j := range w {
			w[j] = r.NormFloat64()
		}
		norm := math.Sqrt(dotp(w, w))
		shift := r.NormFloat64() * 2 * norm
		for len(xs) < n {
			x := make([]float64, dim)
			s := shift
			for j := range x {
				x[j] = float64(r.Intn(11) - 5)
				s += w[j] * x[j]
			}
			if math.Abs(s) < 0.2*norm {
				continue
			}
			k := 0
			if s > 0 {
				k = 1
			}
			xs, ks = append(xs, x), append(ks, k)
		}
		margin = c24Average(xs, ks, rate, thr, perceptron.MaxEpochs)
		if margin > 1e-6 {
			break
		}
		c.Obs("data which takes more passes", 1)
	}
	k := -1
	train := c24Table(c, n, dim, binClass, r.Intn(3) == 0, func() ([]float64, int) { k++; return xs[k], ks[k] })
	c.Desc = fmt.Sprintf("rate=%v threshold=%v %s", rate, thr, train.describe(12))
	c.Sig(dim, n, binClass, rate, thr)
	p := perceptron.NewAveragePerceptron(dim+r.Intn(3), rate, thr, 0.1)
	if r.Intn(4) == 0 {
		p.Fit(subTable(train, r.Perm(n)[:1]).Grid)
	}
	p.Fit(held(c, train))
	cls := train.ClassIdx()[0]
	for i, l := range predLabels(c, "Predict(training data)", p.Predict(train.Grid), train) {
		if l != train.S(i, cls) {
			c.Failf("training row %d %v is classified %s: %d passes over these rows separate them", i, xs[i], l, perceptron.MaxEpochs)
		}
	}
	c.Obs("rows separated", n)
}

func c24Any(c *Case) {
	r := c.R
	dim := 1 + r.Intn(4)
	n, m := 1+r.Intn(40), 2+r.Intn(20)
	binClass := r.Intn(3) == 0
	style := []ValueStyle{VSmallInt, VGauss, VWide, VTiny, VSmallInt}[r.Intn(5)]
	gen := func() ([]float64, int) {
		x := make([]float64, dim)
		for i := range x {
			x[i] = genFloat(r, style)
		}
		return x, r.Intn(2)
	}
	all := c24Table(c, n+m, dim, binClass, r.Intn(3) == 0, gen)
	idx := allIdx(n + m)
	train, test := subTable(all, idx[:n]), subTable(all, idx[n:])
	rate, thr, feats := math.Exp(r.NormFloat64()), r.NormFloat64(), dim+r.Intn(3)
	fresh := func() *perceptron.AveragePerceptron {
		return perceptron.NewAveragePerceptron(feats, rate, thr, 0.1)
	}
	p := fresh()
	c.Desc = fmt.Sprintf("rate=%v threshold=%v %s / %s", rate, thr, train.describe(6), test.describe(3))
	c.Sig(dim, n, binClass, style, feats)
	if Panics(func() { p.Predict(test.Grid) }) == nil {
		c.Failf("Predict before Fit did not panic as documented by its message")
	}
	p.Fit(held(c, train))
	labels := c24Metamorphic(c, p, train, test, fresh)
	// both regions are convex: mixtures of equally classified points stay
	byLabel := map[string][]int{}
	for i, l := range labels {
		byLabel[l] = append(byLabel[l], i)
	}
	point := func(i int) []float64 {
		x := make([]float64, dim)
		for j, a := range test.Attrs {
			if k := test.fIdx(a.GetName()); k >= 0 && !test.Class[j] {
				x[k] = test.F(i, j)
			}
		}
		return x
	}
	for l, rows := range byLabel {
		var pts [][]float64
		for q := 0; q < 10; q++ {
			a, b := point(rows[r.Intn(len(rows))]), point(rows[r.Intn(len(rows))])
			f := 0.1 + 0.8*r.Float64()
			x := make([]float64, dim)
			for k := range x {
				x[k] = f*a[k] + (1-f)*b[k]
			}
			pts = append(pts, x)
		}
		g := c24Points(test, pts)
		for i, got := range predLabels(c, "mixtures", p.Predict(g.Grid), g) {
			if got != l {
				c.Failf("%v lies between points classified %s, and is classified %s", pts[i], l, got)
			}
		}
		c.Obs("mixtures classified", len(pts))
	}
	// data of other attributes isn't predicted
	other := genTable(r, GenOpts{Rows: 3, Floats: dim + 1, ClassCat: 2})
	var res interface{}
	if pn := Panics(func() {
		if g := p.Predict(other.Grid); g != nil {
			res = g
		}
	}); pn != nil || res != nil {
		c.Failf("Predict on other attributes: panic %v, result %v; want nil", pn, res)
	}
}

func dotp(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}
