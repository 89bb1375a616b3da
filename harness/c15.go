package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/knn"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID:   "C15",
		Rule: "KNN classifiers over generated training and test grids (dense and views, mixed attribute types, class anywhere, heavy ties, explicit groups), every distance, both algorithms, optimisations on and off, weighted and not, are compared with a scan that works out which labels the vote can give; nearly tied weighted votes, thousands of rows and hundreds of columns, the regressor with the means of the scan's possible neighbours; distinct by configuration and sizes",
		W: []Workload{
			{Name: "classify", Quick: 108000, Thorough: 432000, Fn: c15Classify},
			{Name: "classify-asan", Quick: 900, Thorough: 5000, Mode: "asan", Fn: c15Classify},
			{Name: "regress", Quick: 54000, Thorough: 216000, Fn: c15Regress},
			{Name: "refuse", Quick: 10800, Thorough: 43200, Fn: c15Refuse},
		},
	})
}

func c15Dist(name string, x, y []float64) float64 {
	switch name {
	case "manhattan":
		s := 0.0
		for i := range x {
			s += math.Abs(x[i] - y[i])
		}
		return s
	case "cosine":
		xy, xx, yy := 0.0, 0.0, 0.0
		for i := range x {
			xy += x[i] * y[i]
			xx += x[i] * x[i]
			yy += y[i] * y[i]
		}
		return math.Max(0, 1-xy/(math.Sqrt(xx)*math.Sqrt(yy)))
	}
	s := 0.0
	for i := range x {
		s += (x[i] - y[i]) * (x[i] - y[i])
	}
	return math.Sqrt(s)
}

// plausible returns the labels a vote of the k nearest can give, counting
// neighbours within tol of the k-th as interchangeable.
func plausible(dist []float64, label []string, k int, weighted bool, tol float64) map[string]bool {
	idx := allIdx(len(dist))
	sort.Slice(idx, func(a, b int) bool { return dist[idx[a]] < dist[idx[b]] })
	dk := dist[idx[k-1]]
	eps := tol * (1 + dk)
	weight := func(d float64) float64 {
		if !weighted {
			return 1
		}
		return 1 / d
	}
	def := map[string]float64{}
	ndef := 0
	amb := map[string]int{}
	labels := map[string]bool{}
	for _, i := range idx {
		switch {
		case dist[i] < dk-eps:
			def[label[i]] += weight(dist[i])
			ndef++
			labels[label[i]] = true
		case dist[i] <= dk+eps:
			amb[label[i]]++
			labels[label[i]] = true
		}
	}
	m := k - ndef
	out := map[string]bool{}
	w := weight(dk)
	exact := tol < 1e-8 // the sums of weights are known almost to the last digit
	for _, i := range idx {
		if math.Abs(dist[i]-dk) <= eps && math.Abs(dist[i]-dk) > 1e-14*dk {
			exact = false
		}
	}
	for l := range labels {
		take := amb[l]
		if take > m {
			take = m
		}
		win := def[l]
		if take > 0 {
			win += float64(take) * w
		}
		if take == 0 && def[l] == 0 {
			continue
		}
		ok := true
		room := 0
		slack := 1e-6 * win
		if exact {
			slack = 1e-11 * win
		}
		for o := range labels {
			if o == l {
				continue
			}
			if math.IsInf(win, 1) {
				room += amb[o]
				continue
			}
			if def[o] > win+slack {
				ok = false
			}
			cap := amb[o]
			if q := math.Floor((win + slack - def[o]) / w); q < float64(cap) {
				cap = int(math.Max(0, q))
			}
			room += cap
		}
		if ok && room >= m-take {
			out[l] = true
		}
	}
	return out
}

func c15Opts(c *Case) GenOpts {
	r := c.R
	o := GenOpts{Floats: 1 + r.Intn(4), ClassCat: many(r, 2+r.Intn(3)), Style: []ValueStyle{VSmallInt, VGauss, VWide, VUnit}[r.Intn(4)], ShuffleAttrOrder: r.Intn(2) == 0, ExplicitGroups: r.Intn(2) == 0}
	if r.Intn(3) == 0 {
		o.Cats, o.Bins = r.Intn(3), r.Intn(3)
	}
	if r.Intn(4) == 0 {
		o.ClassCat = 0
		if r.Intn(2) == 0 {
			o.ClassFloat = true
			o.Style = VSmallInt
		} else {
			o.ClassBin = true
		}
	}
	return o
}

func c15Classify(c *Case) {
	r := c.R
	n, q := 1+big(r, r.Intn(30), 1500), big(r, r.Intn(12), 300)
	if r.Intn(10) == 0 {
		n = 1 + r.Intn(200)
	}
	o := c15Opts(c)
	distName := []string{"euclidean", "euclidean", "manhattan", "cosine"}[r.Intn(4)]
	if distName == "cosine" {
		style := o.Style
		if style == VWide {
			style = VGauss
		}
		o.FloatVal = func(row, col int) float64 { return math.Abs(genFloat(r, style)) + float64(r.Intn(2)) + 0.125 }
	}
	big := distName != "cosine" && o.Style == VGauss && r.Intn(6) == 0
	if big { // squares beyond single precision, differences below it
		mag := []float64{1e25, 1e5}[r.Intn(2)]
		o.FloatVal = func(row, col int) float64 {
			if mag > 1e20 {
				return mag * genFloat(r, VGauss)
			}
			return mag + 1e-3*genFloat(r, VGauss)
		}
	}
	again := 1
	if distName != "cosine" && !big && !o.ClassFloat && r.Intn(50) == 0 {
		// distances which are equal but for the order the sum was made in
		o.FloatVal = func(row, col int) float64 { return float64(r.Intn(10)) * 0.1 }
		o.Floats += 2
		o.Cats, o.Bins = 0, 0
		o.ExplicitGroups, again = true, 6
		n, q = 100+r.Intn(150), 60+r.Intn(60)
	}
	large := distName == "euclidean" && !big && again == 1 && !o.ClassFloat && r.Intn(800) == 0
	if large { // as many rows or columns as somebody might think nobody has
		o.Cats, o.Bins = 0, 0
		n, q = 1000+r.Intn(3500), 2+r.Intn(4)
		if r.Intn(3) == 0 {
			n, o.Floats = 10+r.Intn(30), 300+r.Intn(900)
		}
	}
	train, test := genPair(c, o, n, q)
	near := distName == "euclidean" && o.Floats == 1 && !big && !large && again == 1 && q > 0 && r.Intn(4) == 0
	if near { // sums of weights which are nearly the same
		fj := -1
		for j, a := range train.Attrs {
			if _, ok := a.(*base.FloatAttribute); ok && !train.Class[j] {
				fj = j
			}
		}
		set := func(t *Table, i int, v float64) {
			t.Cells[i][fj] = packF(v)
			t.Grid.Set(t.Specs[fj], i, t.Cells[i][fj])
		}
		for i := 0; i < n; i++ {
			d := float64(1 + r.Intn(3))
			if r.Intn(3) > 0 {
				d *= 1 + []float64{1e-7, -1e-7, 1e-8, -1e-8}[r.Intn(4)]
			}
			set(train, i, d*float64(1-2*r.Intn(2)))
		}
		for i := 0; i < q; i++ {
			set(test, i, 0)
		}
	}
	if !near && r.Intn(3) == 0 && n > 0 && q > 0 { // a test row that is a training row
		for j := range train.Attrs {
			i := r.Intn(q)
			k := r.Intn(n)
			if j == 0 || r.Intn(2) == 0 {
				for jj := range train.Attrs {
					test.Cells[i][jj] = append([]byte(nil), train.Cells[k][jj]...)
					test.Grid.Set(test.Specs[jj], i, test.Cells[i][jj])
				}
			}
		}
	}
	k := 1 + r.Intn(n)
	if (r.Intn(2) == 0 || again > 1 || large) && n > 5 {
		k = 1 + r.Intn(5)
	}
	var tg, pg base.FixedDataGrid = train.Grid, test.Grid
	tm, pm := train, test
	tk, pk := "dense", "dense"
	if r.Intn(3) == 0 && again == 1 && !large {
		tg, tm, tk = wrap(c, train)
	}
	if r.Intn(3) == 0 && again == 1 && !large {
		pg, pm, pk = wrap(c, test)
	}
	alg := []string{"linear", "kdtree"}[r.Intn(2)]
	cls := knn.NewKnnClassifier(distName, alg, k)
	cls.AllowOptimisations = r.Intn(3) > 0
	cls.Weighted = r.Intn(3) == 0
	if near {
		cls.Weighted = true
	}
	if (again > 1 || large) && r.Intn(4) > 0 {
		cls.Algorithm, cls.AllowOptimisations, cls.Weighted = "linear", true, false
	}
	c.Desc = fmt.Sprintf("k=%d %s %s weighted=%v opt=%v train %s %s test %s %d rows", k, distName, cls.Algorithm, cls.Weighted, cls.AllowOptimisations, tk, train.describe(3), pk, q)
	c.Sig(distName, alg, cls.Weighted, cls.AllowOptimisations, tk, pk, n, k, o.Floats, o.Cats > 0, o.Bins > 0, o.ClassCat)
	if q == 0 {
		c.Trivial()
	}
	sa, sb := snapshot(train.Grid), snapshot(test.Grid)
	if err := cls.Fit(tg); err != nil {
		c.Failf("Fit: %v", err)
	}
	pred, err := cls.Predict(pg)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	unchanged(c, "KNN", train.Grid, sa)
	unchanged(c, "KNN", test.Grid, sb)
	got := predLabels(c, "KNN", pred, pm)
	for ; again > 0; again-- {
		pred2, err := cls.Predict(pg)
		if err != nil {
			c.Failf("second Predict: %v", err)
		}
		if i := sameStrings(got, predLabels(c, "KNN", pred2, pm)); i >= 0 {
			c.Failf("row %d predicted as %s, then as another label", i, got[i])
		}
	}
	var feats []int
	for j, a := range tm.Attrs {
		if _, ok := a.(*base.FloatAttribute); ok && !tm.Class[j] {
			feats = append(feats, j)
		}
	}
	ci := tm.ClassIdx()[0]
	point := func(t *Table, i int) []float64 {
		v := make([]float64, len(feats))
		for a, j := range feats {
			v[a] = t.F(i, j)
		}
		return v
	}
	label := make([]string, n)
	pts := make([][]float64, n)
	for i := range label {
		label[i] = tm.S(i, ci)
		if o.ClassFloat {
			label[i] = fmt.Sprint(tm.F(i, ci))
		}
		pts[i] = point(tm, i)
	}
	tol := 1e-9
	if distName == "cosine" {
		tol = 1e-7 // a zero distance is computed as anything up to the square root of the rounding error
	}
	for i := range got {
		p := point(pm, i)
		dist := make([]float64, n)
		for a := range dist {
			dist[a] = c15Dist(distName, p, pts[a])
		}
		if cls.Weighted && distName == "cosine" { // weights near zero distance are all rounding
			tiny := false
			for _, d := range dist {
				if d < 1e-6 {
					tiny = true
				}
			}
			if tiny {
				continue
			}
		}
		want := plausible(dist, label, k, cls.Weighted, tol)
		if len(want) == 1 {
			c.Obs("unambiguous votes", 1)
		} else {
			c.Obs("tied votes", 1)
		}
		if !want[got[i]] {
			c.Failf("row %d %v predicted as %s, the %d nearest vote for %v\ndistances %v\nlabels %v", i, p, got[i], k, want, dist, label)
		}
	}
}

func c15Regress(c *Case) {
	r := c.R
	n, dim := 1+r.Intn(40), 1+r.Intn(5)
	style := []ValueStyle{VSmallInt, VGauss, VWide}[r.Intn(3)]
	nums := make([]float64, n*dim)
	for i := range nums {
		nums[i] = genFloat(r, style)
	}
	vals := make([]float64, n)
	for i := range vals {
		vals[i] = genFloat(r, VGauss)
	}
	name := []string{"euclidean", "manhattan"}[r.Intn(2)]
	reg := knn.NewKnnRegressor(name)
	reg.Fit(append([]float64(nil), vals...), append([]float64(nil), nums...), n, dim)
	c.Desc = fmt.Sprintf("regressor %s over %d rows of %d", name, n, dim)
	for q := 0; q < 5; q++ {
		k := 1 + r.Intn(n)
		p := make([]float64, dim)
		if r.Intn(2) == 0 {
			copy(p, nums[r.Intn(n)*dim:])
			p = p[:dim]
		} else {
			for j := range p {
				p[j] = genFloat(r, style)
			}
		}
		c.Sig(name, n, dim, k, style)
		dist := make([]float64, n)
		for i := range dist {
			dist[i] = c15Dist(name, p, nums[i*dim:(i+1)*dim])
		}
		got := reg.Predict(mat.NewDense(1, dim, append([]float64(nil), p...)), k)
		if again := reg.Predict(mat.NewDense(1, dim, append([]float64(nil), p...)), k); again != got {
			c.Failf("predicted %v, then %v", got, again)
		}
		// the nearest k, those tied with the k-th being interchangeable
		idx := allIdx(n)
		sort.Slice(idx, func(a, b int) bool { return dist[idx[a]] < dist[idx[b]] })
		dk := dist[idx[k-1]]
		eps := 1e-9 * (1 + dk)
		sum, m := 0.0, k
		var amb []float64
		for _, i := range idx {
			if dist[i] < dk-eps {
				sum += vals[i]
				m--
			} else if dist[i] <= dk+eps {
				amb = append(amb, vals[i])
			}
		}
		sort.Float64s(amb)
		lo, hi := sum, sum
		for i := 0; i < m; i++ {
			lo += amb[i]
			hi += amb[len(amb)-1-i]
		}
		lo, hi = lo/float64(k), hi/float64(k)
		if got < lo-1e-9*(1+math.Abs(lo)) || got > hi+1e-9*(1+math.Abs(hi)) {
			c.Failf("predicted %v from the %d nearest of %v, want between %v and %v (distances %v, values %v)", got, k, p, lo, hi, dist, vals)
		}
		if len(amb) <= 12 { // and it must be the mean of k of them
			found := false
			for mask := 0; mask < 1<<uint(len(amb)) && !found; mask++ {
				if bits.OnesCount(uint(mask)) != m {
					continue
				}
				s := sum
				for i := range amb {
					if mask>>uint(i)&1 == 1 {
						s += amb[i]
					}
				}
				s /= float64(k)
				found = math.Abs(got-s) <= 1e-9*(1+math.Abs(s)) || got == s
			}
			if !found {
				c.Failf("predicted %v from the %d nearest of %v, which isn't the mean of any %d values (distances %v, values %v)", got, k, p, k, dist, vals)
			}
		}
		c.Obs("regressions checked", 1)
	}
}

func c15Refuse(c *Case) {
	r := c.R
	o := c15Opts(c)
	n := 1 + r.Intn(8)
	train, test := genPair(c, o, n, 1+r.Intn(4))
	dist, alg := []string{"euclidean", "manhattan", "cosine"}[r.Intn(3)], []string{"linear", "kdtree"}[r.Intn(2)]
	k := 1 + r.Intn(n)
	var pg base.FixedDataGrid = test.Grid
	kind := []string{"distance", "algorithm", "attributes", "neighbours", "zero", "features"}[r.Intn(6)]
	switch kind {
	case "distance":
		dist = "hamming"
	case "algorithm":
		alg = "quick"
	case "attributes":
		o2 := o
		o2.Floats++
		o2.Rows = 3
		pg = genTable(r, o2).Grid
	case "neighbours":
		k = n + 1 + r.Intn(4)
	case "zero":
		k = -r.Intn(3)
	case "features":
		o.Floats = 0
		o.Bins = 1
		train, test = genPair(c, o, n, 2)
		pg = test.Grid
	}
	c.Desc = fmt.Sprintf("%s: k=%d %s %s over %s", kind, k, dist, alg, train.describe(2))
	c.Sig(kind, dist, alg, n, k, o.ClassCat)
	cls := knn.NewKnnClassifier(dist, alg, k)
	cls.Weighted = r.Intn(2) == 0
	cls.AllowOptimisations = r.Intn(2) == 0
	var pred base.FixedDataGrid
	var err error
	if p := Panics(func() {
		if err = cls.Fit(train.Grid); err == nil {
			pred, err = cls.Predict(pg)
		}
	}); p != nil {
		c.Failf("%s: panic: %v", kind, p)
	}
	if err == nil {
		_, rows := pred.Size()
		c.Failf("%s was accepted, with %d predictions", kind, rows)
	}
	c.Obs("refusals checked", 1)
}
