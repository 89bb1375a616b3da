package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/neural"
	"github.com/sjwhitworth/golearn/perceptron"
	"github.com/sjwhitworth/golearn/trees"
)

func init() {
	register(&Property{
		ID:   "C30",
		Rule: "every predictor of the library fitted to random data; predictions of dense copies, views, shuffled, permuted, repeated, shortened, extended and relabelled copies of the test rows compared row by row; refitting against a fresh model, fitting to views, filtered grids, reordered columns and rows against fitting to a dense grid; grids with no rows, no class, several classes, other class types and missing columns, and models never fitted; distinct by model, data shape and what was varied",
		W: []Workload{
			{Name: "rows", Quick: 14400, Thorough: 57600, Fn: c30Rows},
			{Name: "refit", Quick: 8000, Thorough: 32000, Fn: c30Refit},
			{Name: "fit", Quick: 12000, Thorough: 48000, Fn: c30Fit},
			{Name: "misuse", Quick: 14400, Thorough: 57600, Fn: c30Misuse},
		},
	})
}

// c30Model is a predictor with parameters drawn.
type c30Model struct {
	name    string
	data    func() (train, test *Table)
	fresh   func()
	fit     func(base.FixedDataGrid) error
	predict func(base.FixedDataGrid) ([]string, error)
	// det: fitting the same rows again gives the same model
	det bool
	// ref: keeps a reference to the training grid, as documented
	ref bool
	// label: the class column is data, too
	label bool
	// byAttr: finds the columns by attribute, not by position
	byAttr bool
	// noErr: Predict has no error to return
	noErr, fitNoErr bool
	// lax: being misused, without a way to refuse
	lax bool
}

// c30Labels checks the shape of a prediction grid for a grid and reads it.
func c30Labels(c *Case, what string, pred, from base.FixedDataGrid, lax bool) []string {
	if pred == nil {
		c.Failf("%s: no error and no predictions", what)
	}
	_, rows := from.Size()
	cols, prows := pred.Size()
	if prows != rows {
		c.Failf("%s: %d predictions for %d rows", what, prows, rows)
	}
	cls := from.AllClassAttributes()
	pc := pred.AllClassAttributes()
	if cols != len(cls) || len(pc) != len(cls) || len(pred.AllAttributes()) != len(cls) {
		c.Failf("%s: the prediction grid has %d attributes, %d of them classes; the data had %d classes", what, cols, len(pc), len(cls))
	}
	out := make([]string, rows)
	for _, a := range cls {
		s, err := pred.GetAttribute(a)
		if err != nil {
			c.Failf("%s: class attribute %s is missing from the predictions: %v", what, a.GetName(), err)
		}
		for i := range out {
			b := pred.Get(s, i)
			if ca, ok := a.(*base.CategoricalAttribute); ok {
				if v := unpackU(b); v >= uint64(len(ca.GetValues())) {
					if lax {
						out[i] += "out of range;"
						continue
					}
					c.Failf("%s: row %d holds class value %d of %d", what, i, v, len(ca.GetValues()))
				}
			}
			if len(b) == 8 && a.GetType() == base.Float64Type {
				out[i] += fmt.Sprintf("%v;", unpackF(b))
			} else {
				out[i] += sysToString(a, b) + ";"
			}
		}
	}
	c.Obs("predictions checked", rows)
	return out
}

func c30Make(c *Case) *c30Model {
	r := c.R
	m := &c30Model{}
	n, k := 12+r.Intn(40), 3+r.Intn(15)
	grid := func(f func(g base.FixedDataGrid) (base.FixedDataGrid, error)) func(g base.FixedDataGrid) ([]string, error) {
		return func(g base.FixedDataGrid) ([]string, error) {
			p, err := f(g)
			if err != nil {
				return nil, err
			}
			return c30Labels(c, m.name, p, g, m.lax), nil
		}
	}
	opts := func() GenOpts {
		o := GenOpts{Floats: 1 + r.Intn(5), ShuffleAttrOrder: true, ExplicitGroups: r.Intn(3) == 0}
		o.FloatVal = func(int, int) float64 { return r.NormFloat64() }
		return o
	}
	floatClass := func(o GenOpts, f func() float64) func() (*Table, *Table) {
		return func() (*Table, *Table) {
			o.ClassFloat = true
			train, test := genPair(c, o, n, k)
			for _, t := range []*Table{train, test} {
				setTarget(t, func(int) float64 { return f() })
			}
			return train, test
		}
	}
	switch kind := r.Intn(24); kind {
	default: // the saveable ones
		sm := c29Model(c)
		m.name, m.data = sm.name, sm.data
		var cur saveable
		m.fresh = func() { cur = sm.fresh() }
		m.fit = func(g base.FixedDataGrid) error {
			if b, ok := cur.(*bareTree); ok {
				if _, rows := g.Size(); rows == 0 {
					return fmt.Errorf("no rows")
				}
				b.DecisionTreeNode = trees.InferID3Tree(g, new(trees.InformationGainRuleGenerator))
				return nil
			}
			return cur.(interface {
				Fit(base.FixedDataGrid) error
			}).Fit(g)
		}
		m.predict = grid(func(g base.FixedDataGrid) (base.FixedDataGrid, error) { return cur.Predict(g) })
		m.det = strings.Contains(sm.name, "NN ") && !strings.HasPrefix(sm.name, "bag") || sm.name == "naive Bayes"
		m.ref = strings.Contains(sm.name, "NN ")
		m.byAttr = !strings.Contains(sm.name, "SVC")
		m.fitNoErr = m.name == "tree"
		// (documented to panic)
		m.noErr = m.name == "naive Bayes"
	case 13, 14: // CART
		o := opts()
		o.Cats = r.Intn(2)
		depth := int64(r.Intn(7) - 1)
		m.det, m.fitNoErr, m.noErr = true, false, true
		if kind == 13 {
			crit := []string{"gini", "entropy"}[r.Intn(2)]
			var x *trees.CARTDecisionTreeClassifier
			m.name = "CART classifier " + crit
			m.data = floatClass(o, func() float64 { return float64(r.Intn(3)) })
			m.fresh = func() { x = trees.NewDecisionTreeClassifier(crit, depth, []int64{0, 1, 2}) }
			m.fit = func(g base.FixedDataGrid) error { return x.Fit(g) }
			m.predict = func(g base.FixedDataGrid) ([]string, error) { return c30Strings(c, m.name, g, x.Predict(g)), nil }
		} else {
			crit := []string{"mse", "mae"}[r.Intn(2)]
			var x *trees.CARTDecisionTreeRegressor
			m.name = "CART regressor " + crit
			m.data = floatClass(o, r.NormFloat64)
			m.fresh = func() { x = trees.NewDecisionTreeRegressor(crit, depth) }
			m.fit = func(g base.FixedDataGrid) error { return x.Fit(g) }
			m.predict = func(g base.FixedDataGrid) ([]string, error) { return c30Strings(c, m.name, g, x.Predict(g)), nil }
		}
	case 15:
		o := opts()
		o.Cats = r.Intn(2)
		nt, depth, sub := 1+r.Intn(8), 1+r.Intn(6), 2+r.Intn(10)
		var x trees.IsolationForest
		m.name, m.label, m.noErr, m.fitNoErr = "isolation forest", true, true, true
		m.data = floatClass(o, r.NormFloat64)
		m.fresh = func() { x = trees.NewIsolationForest(nt, depth, sub) }
		m.fit = func(g base.FixedDataGrid) error { x.Fit(g); return nil }
		m.predict = func(g base.FixedDataGrid) ([]string, error) { return c30Strings(c, m.name, g, x.Predict(g)), nil }
	case 16, 17:
		var x *linear_models.LinearRegression
		o := opts()
		o.Cats = r.Intn(2)
		m.name, m.det, m.byAttr = "linear regression", true, true
		m.data = floatClass(o, r.NormFloat64)
		m.fresh = func() { x = linear_models.NewLinearRegression() }
		m.fit = func(g base.FixedDataGrid) error { return x.Fit(g) }
		m.predict = grid(func(g base.FixedDataGrid) (base.FixedDataGrid, error) { return x.Predict(g) })
	case 18:
		var x *linear_models.LogisticRegression
		pen, cc := []string{"l1", "l2"}[r.Intn(2)], 0.1+r.Float64()
		m.name = "logistic regression " + pen
		m.data = floatClass(opts(), func() float64 { return float64(r.Intn(2)) })
		m.fresh = func() { x, _ = linear_models.NewLogisticRegression(pen, cc, 1e-4) }
		m.fit = func(g base.FixedDataGrid) error { return x.Fit(g) }
		m.predict = grid(func(g base.FixedDataGrid) (base.FixedDataGrid, error) { return x.Predict(g) })
	case 19, 20:
		var x *perceptron.AveragePerceptron
		o := opts()
		if r.Intn(3) == 0 {
			o.ClassBin, o.ExplicitGroups = true, true
		} else {
			o.ClassCat = 2
		}
		m.name, m.det, m.byAttr, m.noErr, m.fitNoErr = "averaged perceptron", true, true, true, true
		m.data = func() (*Table, *Table) { return genPair(c, o, n, k) }
		m.fresh = func() { x = perceptron.NewAveragePerceptron(10, 1.2, 0.5, 0.3) }
		m.fit = func(g base.FixedDataGrid) error { x.Fit(g); return nil }
		m.predict = grid(func(g base.FixedDataGrid) (base.FixedDataGrid, error) {
			if p := x.Predict(g); p != nil {
				return p, nil
			}
			return nil, fmt.Errorf("no predictions")
		})
	case 21, 22:
		var x *neural.MultiLayerNet
		o := opts()
		o.UniqueNames = true // binary attributes become floats of the same name
		o.Floats = 2
		o.Bins = r.Intn(2)
		if r.Intn(2) == 0 {
			o.ClassCat = 2 + r.Intn(3)
			m.data = func() (*Table, *Table) { return genPair(c, o, n, k) }
		} else {
			m.data = floatClass(o, r.Float64)
		}
		var layers []int
		for q := r.Intn(3); q > 0; q-- {
			layers = append(layers, 1+r.Intn(4))
		}
		m.name, m.byAttr, m.noErr, m.fitNoErr = fmt.Sprint("network ", layers), true, true, true
		m.fresh = func() {
			x = neural.NewMultiLayerNet(layers)
			x.MaxIterations = 20
			x.LearningRate = 0.05
		}
		m.fit = func(g base.FixedDataGrid) error { x.Fit(g); return nil }
		m.predict = grid(func(g base.FixedDataGrid) (base.FixedDataGrid, error) { return x.Predict(g), nil })
	case 23:
		var x *clustering.ExpectationMaximization
		o := opts()
		o.ClassCat = 2
		comps := 1 + r.Intn(3)
		m.name, m.byAttr = "expectation maximisation", true
		m.data = func() (*Table, *Table) { return genPair(c, o, n, k) }
		m.fresh = func() { x, _ = clustering.NewExpectationMaximization(comps) }
		m.fit = func(g base.FixedDataGrid) error { return x.Fit(g) }
		m.predict = func(g base.FixedDataGrid) ([]string, error) {
			cm, err := x.Predict(g)
			if err != nil {
				return nil, err
			}
			_, rows := g.Size()
			as := c27Assign(c, m.name, cm, rows, comps)
			out := make([]string, rows)
			for i := range out {
				out[i] = fmt.Sprint(as[i])
			}
			return out, nil
		}
	}
	m.fresh()
	return m
}

func c30Strings(c *Case, what string, g base.FixedDataGrid, p interface{}) []string {
	out := []string{}
	switch v := p.(type) {
	case []int64:
		for _, x := range v {
			out = append(out, fmt.Sprint(x))
		}
	case []float64:
		for _, x := range v {
			out = append(out, fmt.Sprint(x))
		}
	}
	if _, rows := g.Size(); len(out) != rows {
		c.Failf("%s: %d predictions for %d rows", what, len(out), rows)
	}
	c.Obs("predictions checked", len(out))
	return out
}

// c30Relabel gives a copy of a table's rows other class values.
func c30Relabel(c *Case, t *Table) *Table {
	f := subTable(t, allIdx(t.Rows()))
	for _, j := range f.ClassIdx() {
		for i := range f.Cells {
			var b []byte
			switch a := f.Attrs[j].(type) {
			case *base.CategoricalAttribute:
				b = packU(uint64(c.R.Intn(len(a.GetValues()))))
			case *base.BinaryAttribute:
				b = []byte{byte(c.R.Intn(2))}
			default:
				b = packF([]float64{c.R.NormFloat64(), 0, 1, math.NaN(), math.Inf(1), -1e300}[c.R.Intn(6)])
			}
			f.Cells[i][j] = b
			f.Grid.Set(f.Specs[j], i, b)
		}
	}
	return f
}

// zeroSome makes some of the numbers zero, as in sparse data.
func zeroSome(r *rand.Rand, t *Table) {
	for _, j := range t.NonClassIdx() {
		if t.Attrs[j].GetType() != base.Float64Type {
			continue
		}
		for i := range t.Cells {
			if r.Intn(3) == 0 {
				t.Cells[i][j] = packF(0)
				t.Grid.Set(t.Specs[j], i, t.Cells[i][j])
			}
		}
	}
}

func c30Rows(c *Case) {
	r := c.R
	m := c30Make(c)
	train, test := m.data()
	if r.Intn(3) == 0 && !strings.Contains(m.name, "cosine") {
		zeroSome(r, test)
	}
	c.Desc = m.name + ": " + train.describe(3)
	bt, bs := snapshot(train.Grid), snapshot(test.Grid)
	if err := m.fit(held(c, train)); err != nil {
		c.Failf("Fit: %v", err)
	}
	unchanged(c, m.name+": Fit", train.Grid, bt)
	p := func(what string, g base.FixedDataGrid) []string {
		out, err := m.predict(g)
		if err != nil {
			c.Failf("%s: Predict: %v", what, err)
		}
		return out
	}
	want := p("the test rows", test.Grid)
	unchanged(c, m.name+": Predict", train.Grid, bt)
	unchanged(c, m.name+": Predict", test.Grid, bs)
	n := test.Rows()
	ids := allIdx(n)
	same := func(what string, g base.FixedDataGrid, rows []int) {
		got := p(what, g)
		for i, k := range rows {
			if !c30Same(got[i], want[k]) {
				c.Failf("%s: test row %d is predicted %s, %s before", what, k, got[i], want[k])
			}
		}
		c.Obs("copies compared", 1)
	}
	// the same values, the same prediction
	var feats []base.Attribute
	for j, a := range test.Attrs {
		if !test.Class[j] || m.label {
			feats = append(feats, a)
		}
	}
	by := map[string]string{}
	for i, k := range rowKeys(test.Grid, feats) {
		if w, ok := by[k]; ok && !c30Same(w, want[i]) {
			c.Failf("rows with the same values are predicted %s and %s", w, want[i])
		}
		by[k] = want[i]
	}
	c.Sig(m.name, n, len(test.Attrs))
	what := r.Perm(12)
	for _, w := range what[:6] {
		switch w {
		case 0:
			same("again", test.Grid, ids)
		case 1:
			o := r.Perm(n)
			same("rows in another order", subTable(test, o).Grid, o)
		case 2:
			o := make([]int, 1+r.Intn(2*n))
			for i := range o {
				o[i] = r.Intn(n)
			}
			same("some rows, repeated", subTable(test, o).Grid, o)
		case 3:
			i := r.Intn(n)
			same("one row by itself", subTable(test, []int{i}).Grid, []int{i})
		case 4:
			if got := p("no rows", subTable(test, nil).Grid); len(got) != 0 {
				c.Failf("%d predictions for no rows", len(got))
			}
		case 5:
			rm := map[int]int{}
			o := make([]int, n)
			for i := range o {
				o[i] = r.Intn(n)
				rm[i] = o[i]
			}
			same("a view of mapped rows", base.NewInstancesViewFromRows(test.Grid, rm), o)
		case 6:
			o := r.Perm(n)[:1+r.Intn(n)]
			g := base.NewInstancesViewFromVisible(test.Grid, o, test.Grid.AllAttributes())
			same("a view of chosen rows", g, o)
		case 7:
			g := base.LazyShuffle(test.Grid)
			got := p("a shuffled view", g)
			for i, k := range rowKeys(g, feats) {
				if !c30Same(got[i], by[k]) {
					c.Failf("a shuffled view: row %d is predicted %s, %s before", i, got[i], by[k])
				}
			}
		case 8:
			if !m.label {
				same("other labels in the test data", c30Relabel(c, test).Grid, ids)
			}
		case 9:
			// more rows around them
			o := r.Perm(n)
			all := append(append([]int{}, o...), ids...)
			g := subTable(test, all)
			same("twice as many rows", g.Grid, all)
		case 10:
			if m.byAttr {
				same("columns in another order", rebuild(c, test, r.Perm(len(test.Attrs)), false).Grid, ids)
			}
		case 11:
			// predicting the training rows in between changes nothing
			p("the training rows", train.Grid)
			same("after other predictions", test.Grid, ids)
		}
	}
	same("at the end", test.Grid, ids)
	if !m.ref {
		for i := 0; i < train.Rows(); i++ {
			for j, s := range train.Specs {
				b := train.Grid.Get(s, r.Intn(train.Rows()))
				train.Grid.Set(s, i, append([]byte(nil), b...))
				_ = j
			}
		}
		same("after the training grid was overwritten", test.Grid, ids)
	}
}

func c30Refit(c *Case) {
	r := c.R
	m := c30Make(c)
	train, test := m.data()
	c.Desc = m.name + ": " + train.describe(3)
	first := train
	var firstTest *Table
	if r.Intn(2) == 0 {
		first, firstTest = m.data()
	} else {
		o := make([]int, 6+r.Intn(10))
		for i := range o {
			o[i] = r.Intn(train.Rows())
		}
		first, firstTest = c30Relabel2(c, subTable(train, o)), test
	}
	if err := m.fit(first.Grid); err != nil {
		c.Obs("first data refused", 1)
		c.Trivial()
		return
	}
	m.predict(firstTest.Grid)
	for k := r.Intn(3); k > 0; k-- {
		m.fit(first.Grid)
	}
	if err := m.fit(train.Grid); err != nil {
		c.Failf("Fit of a fitted model: %v", err)
	}
	got, err := m.predict(test.Grid)
	if err != nil {
		c.Failf("Predict after refitting: %v", err)
	}
	again, err := m.predict(test.Grid)
	if err != nil || c30Diff(got, again) >= 0 {
		c.Failf("predictions after refitting change (error %v)", err)
	}
	c.Sig(m.name, train.Rows(), first.Rows())
	c.Obs("refits", 1)
	if m.det {
		m.fresh()
		if err := m.fit(train.Grid); err != nil {
			c.Failf("Fit: %v", err)
		}
		want, err := m.predict(test.Grid)
		if err != nil {
			c.Failf("Predict: %v", err)
		}
		if i := c30Diff(got, want); i >= 0 {
			c.Failf("fitted to other rows before, the model predicts row %d %s; a fresh one %s", i, got[i], want[i])
		}
		c.Obs("refits compared with a fresh model", 1)
	}
}

// c30Fit: the same rows teach the same, whatever grid holds them.
func c30Fit(c *Case) {
	r := c.R
	m := c30Make(c)
	for i := 0; i < 20 && !m.det; i++ {
		m = c30Make(c)
	}
	if !m.det {
		c.Trivial()
		return
	}
	train, test := m.data()
	c.Desc = m.name + ": " + train.describe(3)
	if err := m.fit(train.Grid); err != nil {
		c.Failf("Fit: %v", err)
	}
	want, err := m.predict(test.Grid)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	c.Sig(m.name, train.Rows(), len(train.Attrs))
	for k := 0; k < 4; k++ {
		var g base.FixedDataGrid
		how := ""
		switch r.Intn(4) {
		case 0, 1:
			g, how = held(c, train), "another grid"
		case 2:
			if !m.byAttr || m.name == "naive Bayes" { // (equal posteriors may round differently)
				continue
			}
			g, how = rebuild(c, train, r.Perm(len(train.Attrs)), false).Grid, "columns in another order"
			if r.Intn(2) == 0 {
				as := train.Grid.AllAttributes()
				r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
				g, how = base.NewInstancesViewFromAttrs(held(c, train), as), "a view of its columns in another order"
			}
		case 3: // (elsewhere the first of several equally good answers may count)
			if m.name != "linear regression" {
				continue
			}
			o := r.Perm(train.Rows())
			g, how = subTable(train, o).Grid, "rows in another order"
			if r.Intn(2) == 0 {
				g = base.NewInstancesViewFromVisible(train.Grid, o, train.Grid.AllAttributes())
			}
		}
		m.fresh()
		if err := m.fit(g); err != nil {
			c.Failf("Fit to %s: %v", how, err)
		}
		got, err := m.predict(test.Grid)
		if err != nil {
			c.Failf("Predict after Fit to %s: %v", how, err)
		}
		if i := c30Diff(got, want); i >= 0 {
			c.Failf("fitted to %s, the model predicts row %d %s; fitted to the dense grid %s", how, i, got[i], want[i])
		}
		c.Obs("fits compared", 1)
	}
}

// c30Relabel2 relabels with labels of the same kind as the table's.
func c30Relabel2(c *Case, t *Table) *Table {
	j := t.ClassIdx()[0]
	o := c.R.Perm(t.Rows())
	f := subTable(t, allIdx(t.Rows()))
	for i := range f.Cells {
		f.Cells[i][j] = t.Cells[o[i]][j]
		f.Grid.Set(f.Specs[j], i, f.Cells[i][j])
	}
	return f
}

// c30Diff is the first row in which two lists of predictions differ, up to
// the rounding of numbers, or -1.
func c30Diff(a, b []string) int {
	if len(a) != len(b) {
		return 0
	}
	for i := range a {
		if !c30Same(a[i], b[i]) {
			return i
		}
	}
	return -1
}

func c30Same(a, b string) bool {
	if a == b {
		return true
	}
	x, e1 := strconv.ParseFloat(strings.TrimSuffix(a, ";"), 64)
	y, e2 := strconv.ParseFloat(strings.TrimSuffix(b, ";"), 64)
	return e1 == nil && e2 == nil && feq(x, y, 1e-9)
}

// c30Bad makes a grid a model may have to refuse.
func c30Bad(c *Case, t *Table) (base.FixedDataGrid, string) {
	r := c.R
	var keep []base.Attribute
	cls := t.ClassIdx()[0]
	switch r.Intn(8) {
	case 0:
		return subTable(t, nil).Grid, "no rows"
	case 1:
		for j, a := range t.Attrs {
			if j != cls {
				keep = append(keep, a)
			}
		}
		if len(keep) == 0 {
			return subTable(t, nil).Grid, "no rows"
		}
		return base.NewInstancesViewFromAttrs(t.Grid, keep), "no class column"
	case 2:
		g := subTable(t, allIdx(t.Rows()))
		g.Grid.RemoveClassAttribute(t.Attrs[cls])
		return g.Grid, "no class"
	case 3:
		g := subTable(t, allIdx(t.Rows()))
		for _, j := range r.Perm(len(t.Attrs)) {
			if j != cls {
				g.Grid.AddClassAttribute(t.Attrs[j])
				return g.Grid, "two classes"
			}
		}
		return g.Grid, "one class"
	case 4:
		drop := r.Intn(len(t.Attrs))
		for j, a := range t.Attrs {
			if j == cls || j != drop {
				keep = append(keep, a)
			}
		}
		return base.NewInstancesViewFromAttrs(t.Grid, keep), "a column less"
	case 5:
		return base.NewInstancesViewFromAttrs(t.Grid, []base.Attribute{t.Attrs[cls]}), "nothing but the class"
	case 6: // another class
		g := subTable(t, allIdx(t.Rows()))
		d := g.Grid
		j := r.Intn(len(t.Attrs))
		d.RemoveClassAttribute(t.Attrs[cls])
		d.AddClassAttribute(t.Attrs[j])
		return d, "another class"
	}
	o := GenOpts{Rows: 1 + r.Intn(20), Floats: r.Intn(4), Cats: r.Intn(3), Bins: r.Intn(3), ShuffleAttrOrder: true}
	switch r.Intn(4) {
	case 0:
		o.ClassCat = many(r, 1+r.Intn(4))
	case 1:
		o.ClassBin = true
	default:
		o.ClassFloat = true
	}
	return genTable(r, o).Grid, "other data"
}

func c30Misuse(c *Case) {
	r := c.R
	m := c30Make(c)
	train, test := m.data()
	c.Desc = m.name + ": " + train.describe(3)
	quiet := func(what string, mayPanic bool, f func()) {
		if p := Panics(f); p != nil {
			if !mayPanic {
				c.Failf("%s: %s: panic: %.300v", m.name, what, p)
			}
			c.Obs("refused by panic where there is no error to return", 1)
		}
	}
	var err error
	if r.Intn(2) == 0 {
		quiet("Predict before Fit", m.noErr, func() {
			_, err = m.predict(test.Grid)
			if err == nil && m.name != "tree" && m.name != "isolation forest" {
				c.Failf("%s: predictions were made before Fit", m.name)
			}
		})
		c.Obs("unfitted", 1)
	}
	if r.Intn(2) == 0 {
		g, how := c30Bad(c, train)
		c.Sig(m.name, "fit", how)
		quiet("Fit with "+how, m.fitNoErr, func() {
			err = m.fit(g)
			if err == nil && how == "no rows" && !m.fitNoErr {
				// (one-vs-all models may be given the structure only)
				if _, err := m.predict(test.Grid); err == nil {
					c.Failf("%s: was fitted to no rows", m.name)
				}
			}
			if err != nil {
				c.Obs("fits refused", 1)
			}
			m.lax = m.noErr
			quiet("Predict after Fit with "+how, m.noErr, func() { m.predict(test.Grid) })
			quiet("Predict of that after Fit with "+how, m.noErr, func() { m.predict(g) })
		})
		m.lax = false
		if r.Intn(2) == 0 {
			m.fresh()
		}
	}
	if err := m.fit(train.Grid); err != nil {
		c.Failf("Fit: %v", err)
	}
	want, err := m.predict(test.Grid)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	for k := 0; k < 3; k++ {
		g, how := c30Bad(c, test)
		c.Sig(m.name, "predict", how)
		m.lax = m.noErr
		quiet("Predict with "+how, m.noErr, func() {
			if _, err := m.predict(g); err != nil {
				c.Obs("predictions refused", 1)
			}
		})
		m.lax = false
		got, err := m.predict(test.Grid)
		if err != nil {
			c.Failf("Predict after a prediction for %s: %v", how, err)
		}
		if i := c30Diff(got, want); i >= 0 {
			c.Failf("after a prediction for %s, row %d is predicted %s, %s before", how, i, got[i], want[i])
		}
	}
}
