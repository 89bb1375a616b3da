package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
)

func init() {
	register(&Property{
		ID:   "C18",
		Rule: "CART classifiers (Gini, entropy) and regressors (MSE, MAE) are grown on generated grids (ties, constant columns, adjacent and huge values, several attribute groups, categorical columns in between, views, labels beyond 32 bits, tiny targets, a Fit on other rows before), with and without a depth limit; a monitor walks each tree with the training rows that reach every node and recomputes labels, means, best splits and stopping; predictions are routed independently; distinct by criterion, depth, sizes and style",
		W: []Workload{
			{Name: "classify", Quick: 80000, Thorough: 320000, Fn: c18Classify},
			{Name: "regress", Quick: 64000, Thorough: 256000, Fn: c18Regress},
			{Name: "refuse", Quick: 9600, Thorough: 38400, Fn: c18Refuse},
		},
	})
}

// cartNode is a copy of a node of either kind of tree.
type cartNode struct {
	left, right *cartNode
	thr         float64
	feat        int
	lv, rv      float64 // label or value predicted on each side
}

func cartTree(n interface{}) *cartNode {
	v := reflect.ValueOf(n)
	if v.IsNil() {
		return nil
	}
	e := v.Elem()
	out := &cartNode{thr: e.FieldByName("Threshold").Float(), feat: int(e.FieldByName("Feature").Int())}
	if f := e.FieldByName("LeftLabel"); f.IsValid() {
		out.lv, out.rv = float64(f.Int()), float64(e.FieldByName("RightLabel").Int())
	} else {
		out.lv, out.rv = e.FieldByName("LeftPred").Float(), e.FieldByName("RightPred").Float()
	}
	if f := e.FieldByName("Left"); !f.IsNil() {
		out.left = cartTree(f.Interface())
	}
	if f := e.FieldByName("Right"); !f.IsNil() {
		out.right = cartTree(f.Interface())
	}
	return out
}

func (n *cartNode) predict(x []float64) float64 {
	if len(x) == 0 {
		return n.lv
	}
	if x[n.feat] < n.thr {
		if n.left == nil {
			return n.lv
		}
		return n.left.predict(x)
	}
	if n.right == nil {
		return n.rv
	}
	return n.right.predict(x)
}

type cartMon struct {
	c        *Case
	x        [][]float64
	y        []float64
	crit     string
	max      int
	tol      float64
	nodes    int
	splits   int
	deepest  int
	constant int
}

func (m *cartMon) loss(rows []int) float64 {
	n := float64(len(rows))
	switch m.crit {
	case "gini", "entropy":
		cnt := map[float64]int{}
		for _, i := range rows {
			cnt[m.y[i]]++
		}
		s := 0.0
		for _, k := range cnt {
			p := float64(k) / n
			if m.crit == "gini" {
				s += p * (1 - p)
			} else {
				s -= p * math.Log2(p)
			}
		}
		return s
	}
	mean := m.mean(rows)
	s := 0.0
	for _, i := range rows {
		if m.crit == "mae" {
			s += math.Abs(m.y[i] - mean)
		} else {
			s += (m.y[i] - mean) * (m.y[i] - mean)
		}
	}
	return s / n
}

func (m *cartMon) mean(rows []int) float64 {
	s := 0.0
	for _, i := range rows {
		s += m.y[i] / float64(len(rows))
	}
	return s
}

// side is right if v may be what the rows of one side predict.
func (m *cartMon) side(rows []int, v float64) string {
	if m.crit == "mae" || m.crit == "mse" {
		eps := 1e-9 * (1 + m.tol)
		if m.tol < 1e-15 {
			eps = 1e-16
		}
		if w := m.mean(rows); !feq(v, w, eps) {
			return fmt.Sprintf("predicts %v, the mean of its %d rows is %v", v, len(rows), w)
		}
		return ""
	}
	cnt := map[float64]int{}
	max := 0
	for _, i := range rows {
		cnt[m.y[i]]++
		if cnt[m.y[i]] > max {
			max = cnt[m.y[i]]
		}
	}
	if cnt[v] != max {
		return fmt.Sprintf("predicts %v, the counts of its %d rows are %v", v, len(rows), cnt)
	}
	return ""
}

func (m *cartMon) divide(rows []int, f int, t float64) (l, r []int) {
	for _, i := range rows {
		if m.x[i][f] < t {
			l = append(l, i)
		} else {
			r = append(r, i)
		}
	}
	return
}

func (m *cartMon) after(l, r []int) float64 {
	n := float64(len(l) + len(r))
	return m.loss(l)*float64(len(l))/n + m.loss(r)*float64(len(r))/n
}

// bestLoss is the least loss any split of the rows leaves.
func (m *cartMon) bestLoss(rows []int) float64 {
	best := math.Inf(1)
	if len(rows) == 0 {
		return best
	}
	for f := range m.x[rows[0]] {
		var vals []float64
		seen := map[float64]bool{}
		for _, i := range rows {
			if !seen[m.x[i][f]] {
				seen[m.x[i][f]] = true
				vals = append(vals, m.x[i][f])
			}
		}
		sort.Float64s(vals)
		for _, v := range vals[1:] {
			best = math.Min(best, m.after(m.divide(rows, f, v)))
			m.splits++
		}
	}
	return best
}

// check returns what is wrong with a subtree, or "".
func (m *cartMon) check(n *cartNode, rows []int, depth int, path string) string {
	m.nodes++
	if depth > m.deepest {
		m.deepest = depth
	}
	now := m.loss(rows)
	best := m.bestLoss(rows)
	if m.max != -1 && depth > m.max {
		if depth > 1 {
			return fmt.Sprintf("node %q is at depth %d, the limit is %d", path, depth, m.max)
		}
		best = math.Inf(1) // (an unsplit root)
	}
	var l, r []int
	if len(m.x[0]) > 0 {
		if n.feat < 0 || n.feat >= len(m.x[0]) {
			return fmt.Sprintf("node %q splits on feature %d of %d", path, n.feat, len(m.x[0]))
		}
		l, r = m.divide(rows, n.feat, n.thr)
	}
	if depth == 1 && n.left == nil && n.right == nil && best >= now-m.tol {
		// The root may remain unsplit
		for _, v := range []float64{n.lv, n.rv} {
			if w := m.side(rows, v); w != "" {
				// (unless this really is a split)
				if len(l) > 0 && len(r) > 0 && m.side(l, n.lv) == "" && m.side(r, n.rv) == "" && m.after(l, r) <= now+m.tol {
					break
				}
				return fmt.Sprintf("unsplit root: one side %s", w)
			}
		}
		m.constant++
		return ""
	}
	if len(l) == 0 || len(r) == 0 {
		return fmt.Sprintf("node %q: threshold %v of feature %d sends all %d rows to one side", path, n.thr, n.feat, len(rows))
	}
	if got := m.after(l, r); got > best+m.tol {
		return fmt.Sprintf("node %q: the split on feature %d at %v leaves loss %v, the best leaves %v", path, n.feat, n.thr, got, best)
	}
	for k, s := range [][]int{l, r} {
		sub, v, p := n.left, n.lv, path+"L"
		if k == 1 {
			sub, v, p = n.right, n.rv, path+"R"
		}
		if w := m.side(s, v); w != "" {
			return fmt.Sprintf("node %q %s", p, w)
		}
		if sub != nil {
			if w := m.check(sub, s, depth+1, p); w != "" {
				return w
			}
		} else if m.max == -1 || depth < m.max {
			if h := m.loss(s); h > m.tol {
				if b := m.bestLoss(s); b < h-m.tol {
					return fmt.Sprintf("node %q is a leaf with loss %v, a split would leave %v", p, h, b)
				}
			}
		}
	}
	return ""
}

func (m *cartMon) rows() []int { return allIdx(len(m.x)) }

func c18Opts(c *Case) (GenOpts, string) {
	r := c.R
	style := []string{"ints", "gauss", "wide", "adjacent", "signal", "signal", "constant", "huge", "near"}[r.Intn(9)]
	o := GenOpts{Floats: 1 + r.Intn(5), ShuffleAttrOrder: r.Intn(2) == 0, ExplicitGroups: r.Intn(4) == 0}
	if r.Intn(3) == 0 {
		o.Cats, o.Bins = r.Intn(3), r.Intn(2)
	}
	o.ClassFloat = true
	o.FloatVal = func(row, col int) float64 {
		switch style {
		case "ints":
			return genFloat(r, VSmallInt)
		case "wide":
			return genFloat(r, VWide)
		case "adjacent":
			x := 1.0
			for k := r.Intn(4); k > 0; k-- {
				x = math.Nextafter(x, 2)
			}
			return x
		case "constant":
			return -1.5
		case "near":
			return genFloat(r, VNear)
		case "signal":
			return float64(r.Intn(12)) - 4
		case "huge":
			return []float64{math.MaxFloat64, -math.MaxFloat64, math.MaxFloat64 / 2, -1e308, 1e308, 1, 5e-324, 0}[r.Intn(8)]
		}
		return genFloat(r, VGauss)
	}
	return o, style
}

// features reads the numeric non-class values in a given order of columns.
func features(t *Table, cols []int) [][]float64 {
	x := make([][]float64, t.Rows())
	for i := range x {
		for _, j := range cols {
			x[i] = append(x[i], t.F(i, j))
		}
	}
	return x
}

// featureOrders lists the orders in which a learner may have numbered the
// numeric columns of a grid (by name it makes no difference).
func featureOrders(t *Table, g base.FixedDataGrid) [][]int {
	var out [][]int
	add := func(as []base.Attribute) {
		var o []int
		for _, a := range as {
			o = append(o, t.Index(a))
		}
		out = append(out, o)
	}
	var as []base.Attribute
	for _, s := range base.ResolveAttributes(g, base.NonClassFloatAttributes(g)) {
		as = append(as, s.GetAttribute())
	}
	add(as)
	add(base.NonClassFloatAttributes(g))
	return out
}

func setTarget(t *Table, f func(row int) float64) {
	j := t.ClassIdx()[0]
	for i := range t.Cells {
		v := f(i)
		t.Cells[i][j] = packF(v)
		t.Grid.Set(t.Specs[j], i, packF(v))
	}
}

func c18Grid(c *Case, t *Table) base.FixedDataGrid {
	return held(c, t)
}

// c18Run checks one fitted tree against its training rows and its predictions.
func c18Run(c *Case, what, crit string, depth int, train, test *Table, g, tg base.FixedDataGrid, root interface{}, pred []float64, tol float64) *cartMon {
	tree := cartTree(root)
	if tree == nil {
		c.Failf("%s: no tree after Fit", what)
	}
	col := train.ClassIdx()[0]
	y := make([]float64, train.Rows())
	for i := range y {
		y[i] = train.F(i, col)
	}
	var first string
	var m *cartMon
	ok := false
	for _, o := range featureOrders(train, g) {
		m = &cartMon{c: c, x: features(train, o), y: y, crit: crit, max: depth, tol: tol}
		w := m.check(tree, m.rows(), 1, "")
		if w == "" {
			x := features(test, o)
			for i, p := range pred {
				if q := tree.predict(x[i]); q != p {
					w = fmt.Sprintf("row %d %v: predicted %v, the tree routes it to %v", i, x[i], p, q)
					break
				}
			}
		}
		if w == "" {
			ok = true
			break
		}
		if first == "" {
			first = w
		}
	}
	if !ok {
		c.Failf("%s: %s", what, first)
	}
	if len(pred) != test.Rows() {
		c.Failf("%s: %d predictions for %d rows", what, len(pred), test.Rows())
	}
	c.Obs("nodes checked", m.nodes)
	c.Obs("splits compared", m.splits)
	c.Obs("predictions checked", len(pred))
	c.Obs("unsplit roots", m.constant)
	return m
}

func c18Classify(c *Case) {
	r := c.R
	o, style := c18Opts(c)
	n, q := 1+big(r, r.Intn(60), 400), big(r, r.Intn(25), 600)
	if r.Intn(6) == 0 {
		n = 1 + r.Intn(4)
	}
	train, test := genPair(c, o, n, q)
	k := 1 + r.Intn(4)
	shift := []int{0, 0, 1, -2, 5, 5e9, -7e12}[r.Intn(7)]
	noise := 2 + r.Intn(10)
	var fl []int
	for _, j := range train.NonClassIdx() {
		if train.Attrs[j].GetType() == base.Float64Type {
			fl = append(fl, j)
		}
	}
	label := func(t *Table) func(int) float64 {
		return func(i int) float64 {
			v := 0
			for z, j := range fl {
				if t.F(i, j) > float64(z) {
					v++
				}
			}
			if style != "signal" || r.Intn(noise) == 0 {
				v = r.Intn(k)
			}
			return float64(v%k + shift)
		}
	}
	setTarget(train, label(train))
	setTarget(test, label(test))
	var labels []int64
	for _, i := range r.Perm(k) {
		labels = append(labels, int64(i+shift))
	}
	if r.Intn(4) == 0 {
		labels = append(labels, 77) // a label no row has
	}
	crit := []string{"gini", "entropy"}[r.Intn(2)]
	depth := []int{-1, -1, 0, 1, 2, 3, 6}[r.Intn(7)]
	name := crit
	if r.Intn(3) == 0 {
		name = strings.ToUpper(crit)
	}
	g, tg := c18Grid(c, train), c18Grid(c, test)
	c.Desc = fmt.Sprintf("%s depth %d, %s, %d labels from %d, train %s", crit, depth, style, k, shift, train.describe(6))
	before, tbefore := snapshot(g), snapshot(tg)
	tree := trees.NewDecisionTreeClassifier(name, int64(depth), labels)
	if q > 0 && r.Intn(4) == 0 { // what it was fitted to before makes no difference
		if err := tree.Fit([]base.FixedDataGrid{g, tg}[r.Intn(2)]); err != nil {
			c.Failf("first Fit: %v", err)
		}
	}
	if err := tree.Fit(g); err != nil {
		c.Failf("Fit: %v", err)
	}
	var pred []float64
	for _, p := range tree.Predict(tg) {
		pred = append(pred, float64(p))
	}
	m := c18Run(c, "classifier", crit, depth, train, test, g, tg, tree.RootNode, pred, 1e-9)
	if q > 0 {
		acc, err := tree.Evaluate(tg)
		if err != nil {
			c.Failf("Evaluate: %v", err)
		}
		hit := 0
		for i, p := range pred {
			if p == test.F(i, test.ClassIdx()[0]) {
				hit++
			}
		}
		if !feq(acc, float64(hit)/float64(q), 1e-12) {
			c.Failf("Evaluate says %v, %d of %d predictions are right", acc, hit, q)
		}
		c.Obs("evaluations checked", 1)
	}
	if s := tree.String(); strings.Count(s, "PREDICT") < 1 {
		c.Failf("String has no predictions: %q", s)
	}
	// Fitting again gives a tree which predicts the same for the training rows
	if r.Intn(4) == 0 {
		if err := tree.Fit(g); err != nil {
			c.Failf("second Fit: %v", err)
		}
		pred = nil
		for _, p := range tree.Predict(tg) {
			pred = append(pred, float64(p))
		}
		c18Run(c, "classifier fitted again", crit, depth, train, test, g, tg, tree.RootNode, pred, 1e-9)
	}
	unchanged(c, "Fit/Predict", g, before)
	unchanged(c, "Predict", tg, tbefore)
	c.Sig(crit, depth, style, k, shift, n/5, o.Floats, o.Cats, m.nodes, m.deepest)
	if m.nodes == 1 {
		c.Trivial()
	}
}

func c18Regress(c *Case) {
	r := c.R
	o, style := c18Opts(c)
	n, q := 1+big(r, r.Intn(50), 400), big(r, r.Intn(25), 600)
	if r.Intn(6) == 0 {
		n = 1 + r.Intn(4)
	}
	train, test := genPair(c, o, n, q)
	kind := []string{"ints", "gauss", "big", "constant", "small"}[r.Intn(5)]
	val := func(i int) float64 {
		switch kind {
		case "ints":
			return float64(r.Intn(6) - 2)
		case "big":
			return r.NormFloat64() * 1e4
		case "constant":
			return 4
		case "small":
			return r.NormFloat64() * 1e-7
		}
		return r.NormFloat64()
	}
	setTarget(train, val)
	setTarget(test, val)
	crit := []string{"mae", "mse"}[r.Intn(2)]
	depth := []int{-1, -1, 0, 1, 2, 3, 6}[r.Intn(7)]
	name := crit
	if r.Intn(3) == 0 {
		name = strings.ToUpper(crit)
	}
	tol := 1e-9
	if kind == "big" {
		tol = 1e-4
		if crit == "mae" {
			tol = 1e-7
		}
	}
	if kind == "small" {
		tol = 1e-23
		if crit == "mae" {
			tol = 1e-16
		}
	}
	g, tg := c18Grid(c, train), c18Grid(c, test)
	c.Desc = fmt.Sprintf("%s depth %d, %s, targets %s, train %s", crit, depth, style, kind, train.describe(6))
	before, tbefore := snapshot(g), snapshot(tg)
	tree := trees.NewDecisionTreeRegressor(name, int64(depth))
	if q > 0 && r.Intn(4) == 0 { // what it was fitted to before makes no difference
		if err := tree.Fit([]base.FixedDataGrid{g, tg}[r.Intn(2)]); err != nil {
			c.Failf("first Fit: %v", err)
		}
	}
	if err := tree.Fit(g); err != nil {
		c.Failf("Fit: %v", err)
	}
	m := c18Run(c, "regressor", crit, depth, train, test, g, tg, tree.RootNode, tree.Predict(tg), tol)
	if s := tree.String(); strings.Count(s, "PREDICT") < 1 {
		c.Failf("String has no predictions: %q", s)
	}
	unchanged(c, "Fit/Predict", g, before)
	unchanged(c, "Predict", tg, tbefore)
	c.Sig(crit, depth, style, kind, n/5, o.Floats, o.Cats, m.nodes, m.deepest)
	if m.nodes == 1 {
		c.Trivial()
	}
}

func c18Refuse(c *Case) {
	r := c.R
	kind := []string{"no rows", "no features", "criterion", "class type", "no class"}[r.Intn(5)]
	o := GenOpts{Floats: 1 + r.Intn(3), Cats: r.Intn(2), ClassFloat: true, Rows: 1 + r.Intn(6), Style: VSmallInt}
	crit, rcrit := "gini", "mse"
	switch kind {
	case "no rows":
		o.Rows = 0
	case "no features":
		o.Floats, o.Cats = 0, 1
	case "criterion":
		crit, rcrit = "ginny", "rmse"
	case "class type":
		o.ClassFloat, o.ClassCat = false, 2
	case "no class":
		o.ClassFloat = false
	}
	t := genTable(r, o)
	c.Desc = kind
	c.Sig(kind, o.Floats, o.Rows)
	for _, what := range []string{"classifier", "regressor"} {
		var err error
		p := Panics(func() {
			if what == "classifier" {
				err = trees.NewDecisionTreeClassifier(crit, -1, []int64{0, 1, 2}).Fit(t.Grid)
			} else {
				err = trees.NewDecisionTreeRegressor(rcrit, -1).Fit(t.Grid)
			}
		})
		if p != nil {
			c.Failf("%s, %s: Fit panicked: %v", what, kind, p)
		}
		if err == nil {
			c.Failf("%s, %s: Fit reported no error", what, kind)
		}
		c.Obs("refusals checked", 1)
	}
}
