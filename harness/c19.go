package main

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
)

func init() {
	register(&Property{
		ID:   "C19",
		Rule: "isolation forests are fitted to generated grids: on small point sets with thousands of trees the mean path length behind every score is compared with its exact expectation (recursion over all samples and splits, seven standard errors); on larger grids (also after an earlier Fit) scores are bounded by depth and sample size, repeat exactly, and depend on nothing but the row; distinct by sizes, depth and sample",
		W: []Workload{
			{Name: "expectation", Quick: 150, Thorough: 2500, Fn: c19Expect},
			{Name: "scores", Quick: 24000, Thorough: 96000, Fn: c19Scores},
			{Name: "outlier", Quick: 3000, Thorough: 12000, Fn: c19Outlier},
		},
	})
}

func isoC(n int) float64 {
	return 2*(math.Log(float64(n-1))+0.5772156649) - 2*float64(n-1)/float64(n)
}

// isoRef computes moments of path lengths in random isolation trees.
type isoRef struct {
	pts  [][]float64
	max  int
	memo map[string][2]float64
}

// path returns E[h] and E[h^2] of the path of x in a tree grown from
// cnt[i] copies of each point, at a node depth edges below the root.
func (f *isoRef) path(x []float64, cnt []int, depth int) (float64, float64) {
	key := fmt.Sprint(x, cnt, depth)
	if v, ok := f.memo[key]; ok {
		return v[0], v[1]
	}
	n := 0
	for _, k := range cnt {
		n += k
	}
	// features which still vary
	type gap struct{ lo, hi, p float64 }
	var feats [][]gap
	for j := range x {
		var vals []float64
		for i, k := range cnt {
			if k > 0 {
				vals = append(vals, f.pts[i][j])
			}
		}
		vals = sortedUnique(vals)
		if len(vals) < 2 {
			continue
		}
		var gs []gap
		for i := 1; i < len(vals); i++ {
			gs = append(gs, gap{vals[i-1], vals[i], (vals[i] - vals[i-1]) / (vals[len(vals)-1] - vals[0])})
		}
		for i := range gs {
			gs[i].p += float64(j) * 0
		}
		feats = append(feats, append([]gap{{float64(j), 0, 0}}, gs...))
	}
	var m1, m2 float64
	if n <= 1 || depth >= f.max || len(feats) == 0 {
		h := 0.0
		if n > 1 {
			h = isoC(n)
		}
		m1, m2 = h, h*h
	} else {
		for _, gs := range feats {
			j := int(gs[0].lo)
			for _, g := range gs[1:] {
				// the threshold lies within [lo, hi): where x itself lies
				// in the gap decides how often it goes left
				left, right := make([]int, len(cnt)), make([]int, len(cnt))
				for i, k := range cnt {
					if f.pts[i][j] <= g.lo {
						left[i] = k
					} else {
						right[i] = k
					}
				}
				pl := 0.0 // P(threshold >= x | in this gap)
				switch {
				case x[j] <= g.lo:
					pl = 1
				case x[j] >= g.hi:
					pl = 0
				default:
					pl = (g.hi - x[j]) / (g.hi - g.lo)
				}
				w := g.p / float64(len(feats))
				for side, p := range []float64{pl, 1 - pl} {
					if p == 0 {
						continue
					}
					sub := left
					if side == 1 {
						sub = right
					}
					a, b := f.path(x, sub, depth+1)
					m1 += w * p * (1 + a)
					m2 += w * p * (1 + 2*a + b)
				}
			}
		}
	}
	f.memo[key] = [2]float64{m1, m2}
	return m1, m2
}

func sortedUnique(v []float64) []float64 {
	var out []float64
	for _, x := range v {
		i := 0
		for i < len(out) && out[i] < x {
			i++
		}
		if i < len(out) && out[i] == x {
			continue
		}
		out = append(out, 0)
		copy(out[i+1:], out[i:])
		out[i] = x
	}
	return out
}

// overSamples calls fn for every multiset of size s over m points with the
// probability of drawing it.
func overSamples(m, s int, fn func(cnt []int, p float64)) {
	cnt := make([]int, m)
	lf := make([]float64, s+1)
	for i := 1; i <= s; i++ {
		lf[i] = lf[i-1] + math.Log(float64(i))
	}
	var rec func(i, left int)
	rec = func(i, left int) {
		if i == m-1 {
			cnt[i] = left
			lp := lf[s] - float64(s)*math.Log(float64(m))
			for _, k := range cnt {
				lp -= lf[k]
			}
			fn(append([]int(nil), cnt...), math.Exp(lp))
			return
		}
		for k := 0; k <= left; k++ {
			cnt[i] = k
			rec(i+1, left-k)
		}
	}
	rec(0, s)
}

func isoTable(c *Case, pts [][]float64) *Table {
	d := len(pts[0])
	o := GenOpts{Floats: d - 1, ClassFloat: true, Rows: len(pts), FloatVal: func(row, col int) float64 { return 0 }}
	if c.R.Intn(3) == 0 {
		o.Cats = 1
	}
	t := genTable(c.R, o)
	k := 0
	for j, a := range t.Attrs {
		if a.GetType() != base.Float64Type {
			continue
		}
		col := k
		if t.Class[j] {
			col = d - 1
		} else {
			k++
		}
		for i := range pts {
			t.Cells[i][j] = packF(pts[i][col])
			t.Grid.Set(t.Specs[j], i, packF(pts[i][col]))
		}
	}
	return t
}

func c19Expect(c *Case) {
	r := c.R
	m, d, s := 1+r.Intn(4), 1+r.Intn(3), 2+r.Intn(4)
	max := []int{0, 1, 2, 3, 50, 50}[r.Intn(6)]
	pts := make([][]float64, m)
	scale := []float64{1, 1, 1e-7, 1e-300, 1e307}[r.Intn(5)]
	style := r.Intn(4)
	for i := range pts {
		pts[i] = make([]float64, d)
		for j := range pts[i] {
			switch style {
			case 0:
				pts[i][j] = scale * float64(r.Intn(4)-1)
			case 1:
				pts[i][j] = scale * r.NormFloat64()
			case 2:
				pts[i][j] = scale * 3
			case 3: // neighbours: the threshold is the lower one
				pts[i][j] = []float64{scale, math.Nextafter(scale, 2*scale)}[r.Intn(2)]
			}
		}
	}
	// rows to score: the points and some others
	qs := append([][]float64{}, pts...)
	for k := 0; k < 3; k++ {
		q := make([]float64, d)
		for j := range q {
			q[j] = scale * r.NormFloat64()
		}
		qs = append(qs, q)
	}
	train, test := isoTable(c, pts), isoTable(c, qs)
	nTrees := 3000
	c.Desc = fmt.Sprintf("%d points in %d dimensions, sample %d, depth %d: %v", m, d, s, max, pts)
	f := trees.NewIsolationForest(nTrees, max, s)
	if r.Intn(3) == 0 { // (forgotten by the next Fit)
		f.Fit(held(c, test))
	}
	f.Fit(held(c, train))
	got := f.Predict(held(c, test))
	if len(got) != len(qs) {
		c.Failf("%d scores for %d rows", len(got), len(qs))
	}
	ref := &isoRef{pts: pts, max: max, memo: map[string][2]float64{}}
	for i, q := range qs {
		var m1, m2 float64
		overSamples(m, s, func(cnt []int, p float64) {
			a, b := ref.path(q, cnt, 0)
			m1 += p * a
			m2 += p * b
		})
		sd := math.Sqrt(math.Max(0, m2-m1*m1) / float64(nTrees))
		path := -isoC(s) * math.Log2(got[i])
		if !(math.Abs(path-m1) <= 7*sd+1e-6*(1+m1)) {
			c.Failf("row %d %v: score %v means a path of %v, expected %v (standard error %v)", i, q, got[i], path, m1, sd)
		}
		c.Obs("expected paths compared", 1)
	}
	c.Sig(m, d, s, max, scale, style)
	if m == 1 {
		c.Trivial()
	}
}

func c19Scores(c *Case) {
	r := c.R
	n, q := 1+big(r, r.Intn(60), 1000), 1+big(r, r.Intn(30), 600)
	o := GenOpts{Floats: r.Intn(5), Cats: r.Intn(2), ClassFloat: true, ShuffleAttrOrder: true, ExplicitGroups: r.Intn(4) == 0, Style: []ValueStyle{VSmallInt, VGauss, VWide, VUnit}[r.Intn(4)]}
	switch r.Intn(5) {
	case 0: // thresholds fall on values
		o.FloatVal = func(row, col int) float64 {
			x := 1.0
			for k := r.Intn(4); k > 0; k-- {
				x = math.Nextafter(x, 2)
			}
			return x
		}
	case 1:
		o.FloatVal = func(row, col int) float64 { return genFloat(r, VNear) }
	}
	train, test := genPair(c, o, n, q)
	if r.Intn(3) == 0 {
		for i := range test.Cells { // score the training rows, too
			for j := range test.Attrs {
				test.Cells[i][j] = train.Cells[i%n][j]
				test.Grid.Set(test.Specs[j], i, test.Cells[i][j])
			}
		}
	}
	trs, max, s := 1+r.Intn(40), r.Intn(12), 2+r.Intn(80)
	c.Desc = fmt.Sprintf("%d trees, depth %d, sample %d, train %s", trs, max, s, train.describe(6))
	g, tg := c18Grid(c, train), c18Grid(c, test)
	before, tbefore := snapshot(g), snapshot(tg)
	f := trees.NewIsolationForest(trs, max, s)
	if r.Intn(6) == 0 { // what it was fitted to before makes no difference
		i := r.Intn(n)
		f.Fit(g)
		f.Fit(base.NewInstancesViewFromVisible(g, []int{i, i}, g.AllAttributes()))
		for k, v := range f.Predict(tg) {
			if !feq(v, 0.5, 1e-9) {
				c.Failf("row %d: a forest of %d copies of one row gives the score %v, want 0.5", k, s, v)
			}
		}
	}
	f.Fit(g)
	got := f.Predict(tg)
	if len(got) != q {
		c.Failf("%d scores for %d rows", len(got), q)
	}
	lo := math.Pow(2, -(float64(max)+isoC(s))/isoC(s)) * (1 - 1e-9)
	if float64(s) < float64(max)+isoC(s) && max >= s {
		lo = math.Pow(2, -float64(max)/isoC(s)) * (1 - 1e-9)
	}
	for i, v := range got {
		if !(v >= lo-1e-300 && v <= 1) {
			c.Failf("row %d: score %v is not between %v and 1", i, v, lo)
		}
	}
	again := f.Predict(tg)
	for i := range got {
		if again[i] != got[i] {
			c.Failf("row %d: score %v, the second time %v", i, got[i], again[i])
		}
	}
	// a row's score doesn't depend on the other rows
	p := r.Perm(q)
	p = append(p[:1+r.Intn(q)], r.Intn(q))
	sub := f.Predict(base.NewInstancesViewFromVisible(tg, p, tg.AllAttributes()))
	for k, i := range p {
		if sub[k] != got[i] {
			c.Failf("row %d: score %v, among other rows %v", i, got[i], sub[k])
		}
	}
	c.Obs("scores checked", 2*q+len(p))
	// equal rows have equal scores
	keys := map[string]int{}
	for i := range test.Cells {
		var k string
		for j, a := range test.Attrs {
			if a.GetType() == base.Float64Type {
				k += fmt.Sprint(test.F(i, j), " ")
			}
		}
		if o, ok := keys[k]; ok && got[o] != got[i] {
			c.Failf("rows %d and %d are equal, their scores are %v and %v", o, i, got[o], got[i])
		}
		keys[k] = i
	}
	unchanged(c, "Fit/Predict", g, before)
	unchanged(c, "Predict", tg, tbefore)
	c.Sig(trs/4, max, s/8, n/8, o.Floats, o.Style)
}

func c19Outlier(c *Case) {
	r := c.R
	n, d := 30+r.Intn(100), 1+r.Intn(4)
	pts := make([][]float64, n)
	for i := range pts {
		pts[i] = make([]float64, d)
		for j := range pts[i] {
			pts[i][j] = r.Float64()
		}
	}
	odd := r.Intn(n)
	dist := 20 + 200*r.Float64()
	for j := range pts[odd] {
		pts[odd][j] = dist * float64(1-2*r.Intn(2))
	}
	t := isoTable(c, pts)
	f := trees.NewIsolationForest(150, 30, n)
	f.Fit(held(c, t))
	got := f.Predict(t.Grid)
	c.Desc = fmt.Sprintf("%d points in %d dimensions, row %d is %v away", n, d, odd, dist)
	for i := range got {
		if i != odd && got[i] >= got[odd] {
			c.Failf("row %d scores %v, the outlier (row %d) %v", i, got[i], odd, got[odd])
		}
	}
	c.Obs("outliers found", 1)
	c.Sig(n/10, d)
}
