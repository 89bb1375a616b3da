package main

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/naive"
)

func init() {
	register(&Property{
		ID:   "C20",
		Rule: "Bernoulli naive Bayes fitted to random binary data (rare features, classes without any feature, unbalanced and single classes, data binarised by the filter, tests with extra or reordered attributes) against scores recomputed from the shadow table; distinct by data shape, class balance and kind of test",
		W: []Workload{
			{Name: "model", Quick: 12000, Thorough: 150000, Fn: c20Model},
			{Name: "misuse", Quick: 1200, Thorough: 8000, Fn: c20Misuse},
		},
	})
}

// nbScores recomputes log P(c) + sum log p(f|c) as the documentation has it.
func nbScores(train *Table, feats []int, cls int, has func([]byte) bool, present []bool) map[string]float64 {
	docs := map[string]int{}
	terms := map[string][]int{}
	for _, row := range train.Cells {
		k := sysToString(train.Attrs[cls], row[cls])
		docs[k]++
		if terms[k] == nil {
			terms[k] = make([]int, len(feats))
		}
		for i, f := range feats {
			if has(row[f]) {
				terms[k][i]++
			}
		}
	}
	out := map[string]float64{}
	for k, n := range docs {
		s := math.Log(float64(n) / float64(train.Rows()))
		for i := range feats {
			p := float64(terms[k][i]+1) / float64(n+1)
			if present[i] {
				s += math.Log(p)
			} else if terms[k][i] == n {
				s += math.Log(1 / float64(n+1))
			} else {
				s += math.Log(1 - p)
			}
		}
		out[k] = s
	}
	return out
}

func c20Model(c *Case) {
	r := c.R
	n, m := 1+big(r, r.Intn(60), 2000), 1+big(r, r.Intn(20), 1000)
	classes := 1 + big(r, r.Intn(5), 300)
	bins := 1 + r.Intn(8)
	if r.Intn(20) == 0 {
		bins = 40 + r.Intn(400)
	}
	o := GenOpts{Bins: bins, ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0}
	binClass := r.Intn(4) == 0
	if binClass {
		o.ClassBin = true
		o.ExplicitGroups = true
	} else {
		o.ClassCat = classes
		skew := r.Float64() * 0.9
		o.ClassVal = func(int, [][]byte) int {
			if r.Float64() < skew {
				return 0
			}
			return r.Intn(classes)
		}
	}
	train, test := genPair(c, o, n, m)
	feats, cls := train.NonClassIdx(), train.ClassIdx()[0]
	// feature presence: by class, with classes which have nothing
	density := map[string]float64{}
	for _, t := range []*Table{train, test} {
		for i, row := range t.Cells {
			k := sysToString(t.Attrs[cls], row[cls])
			if _, ok := density[k]; !ok {
				density[k] = []float64{0, 0.05, 0.3, 0.5, 0.9, 1}[r.Intn(6)]
			}
			for _, f := range feats {
				d := density[k]
				if t == test && r.Intn(3) == 0 {
					d = 0.5
				}
				b := byte(0)
				if r.Float64() < d {
					b = 1
				}
				row[f][0] = b
				t.Grid.Set(t.Specs[f], i, []byte{b})
			}
		}
	}
	c.Desc = fmt.Sprintf("density=%v train %s / test %s", density, train.describe(5), test.describe(3))
	c.Sig(n, classes, binClass, bins, len(density), o.ExplicitGroups)
	var fitG, testG base.FixedDataGrid = train.Grid, test.Grid
	kind := r.Intn(4)
	if kind == 1 {
		// through the filter which is meant to provide such data
		mk := func(t *Table) base.FixedDataGrid {
			f := filters.NewBinaryConvertFilter()
			for _, a := range base.NonClassAttributes(t.Grid) {
				f.AddAttribute(a)
			}
			f.Train()
			return base.NewLazilyFilteredInstances(t.Grid, f)
		}
		fitG, testG = mk(train), mk(test)
	}
	nb := naive.NewBernoulliNBClassifier()
	if r.Intn(3) == 0 {
		// a refit forgets what was fitted before
		old, _ := genPair(c, o, 1+r.Intn(20), 1)
		if err := nb.Fit(old.Grid); err != nil {
			c.Failf("first Fit: %v", err)
		}
		c.Obs("refits", 1)
	}
	before := snapshot(fitG)
	if err := nb.Fit(fitG); err != nil {
		c.Failf("Fit: %v", err)
	}
	unchanged(c, "Fit", fitG, before)
	order := allIdx(m)
	switch kind {
	case 2: // rows in another order
		order = r.Perm(m)
		testG = base.NewInstancesViewFromVisible(test.Grid, order, test.Grid.AllAttributes())
	case 3: // attributes in another order, and additional ones
		g := base.NewDenseInstances()
		perm := r.Perm(len(test.Attrs))
		specs := make([]base.AttributeSpec, len(test.Attrs))
		for _, j := range perm {
			if r.Intn(3) == 0 {
				g.AddAttribute(base.NewFloatAttribute(fmt.Sprintf("x%d", j)))
			}
			specs[j] = g.AddAttribute(test.Attrs[j])
			if test.Class[j] {
				g.AddClassAttribute(test.Attrs[j])
			}
		}
		g.Extend(m)
		for i, row := range test.Cells {
			for j := range row {
				g.Set(specs[j], i, row[j])
			}
		}
		testG = g
	}
	before = snapshot(testG)
	pred, err := nb.Predict(testG)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	unchanged(c, "Predict", testG, before)
	got := predLabels(c, "Predict", pred, test)
	again, err := nb.Predict(testG)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	if i := sameStrings(got, predLabels(c, "Predict", again, test)); i >= 0 {
		c.Failf("predicting the same data twice gave different classes for row %d", i)
	}
	for i, k := range order {
		present := make([]bool, len(feats))
		for x, f := range feats {
			present[x] = test.Cells[k][f][0] > 0
		}
		sc := nbScores(train, feats, cls, func(b []byte) bool { return b[0] > 0 }, present)
		best := math.Inf(-1)
		for _, v := range sc {
			best = math.Max(best, v)
		}
		v, ok := sc[got[i]]
		if !ok {
			c.Failf("row %d predicted as %q, which does not occur in the training data", i, got[i])
		}
		if !(v >= best-1e-9*(1+math.Abs(best))) {
			c.Failf("row %d predicted as %q: scores %v", i, got[i], sc)
		}
		c.Obs("class_scores_compared", len(sc))
	}
}

func c20Misuse(c *Case) {
	r := c.R
	kind := r.Intn(4)
	c.Sig(kind, r.Intn(50))
	nb := naive.NewBernoulliNBClassifier()
	switch kind {
	case 0: // other attributes than binary ones
		o := GenOpts{Rows: 1 + r.Intn(10), Bins: r.Intn(3), ClassCat: 2, ShuffleAttrOrder: true}
		if r.Intn(2) == 0 {
			o.Floats = 1
		} else {
			o.Cats = 1
		}
		t := genTable(r, o)
		c.Desc = t.describe(3)
		if err := nb.Fit(t.Grid); err == nil {
			c.Failf("Fit accepted attributes which are not binary")
		}
	case 1: // two or no classes
		o := GenOpts{Rows: 1 + r.Intn(10), Bins: 1 + r.Intn(3)}
		if r.Intn(2) == 0 {
			o.ClassCat, o.ClassBin = 2, true
		}
		t := genTable(r, o)
		c.Desc = t.describe(3)
		if err := nb.Fit(t.Grid); err == nil {
			c.Failf("Fit accepted %d class attributes", len(t.ClassIdx()))
		}
	case 2: // no rows
		t := genTable(r, GenOpts{Bins: 2, ClassCat: 2})
		c.Desc = "no rows"
		if err := nb.Fit(t.Grid); err == nil {
			p, err := nb.Predict(t.Grid)
			c.Failf("Fit accepted an empty grid; predictions %v %v", p, err)
		}
	case 3: // documented panics
		t := genTable(r, GenOpts{Rows: 3, Bins: 3, ClassCat: 2})
		c.Desc = "documented panics"
		if Panics(func() { nb.PredictOne([][]byte{{0}, {1}, {0}}) }) == nil {
			c.Failf("PredictOne without Fit did not panic as documented")
		}
		if err := nb.Fit(t.Grid); err != nil {
			c.Failf("Fit: %v", err)
		}
		if Panics(func() { nb.PredictOne([][]byte{{0}, {1}, {0}, {0}}[:4-2*r.Intn(2)]) }) == nil {
			c.Failf("PredictOne with the wrong number of columns did not panic as documented")
		}
	}
	c.Obs("misuse_cases", 1)
}
