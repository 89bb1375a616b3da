package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/neural"
	"github.com/sjwhitworth/golearn/trees"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID:   "C34",
		Rule: "grids (dense, view, filtered, matrix), decision trees (ID3, random, pruned), ensembles of them, CART trees and networks are generated or fitted, printed, and the text parsed: a printed grid must list the attributes, class marks, first rows and the number of rows left out of the shadow table, a printed tree must route every row to the prediction of the tree, a printed network must list exactly the weights and biases set; distinct by what is printed",
		W: []Workload{
			{Name: "grids", Quick: 60000, Thorough: 240000, Fn: c34Grid},
			{Name: "trees", Quick: 20000, Thorough: 80000, Fn: c34Tree},
			{Name: "ensembles", Quick: 1000, Thorough: 4000, Fn: c34Ensemble},
			{Name: "cart", Quick: 20000, Thorough: 80000, Fn: c34Cart},
			{Name: "networks", Quick: 40000, Thorough: 160000, Fn: c34Network},
		},
	})
}

// attrText is what a printed attribute has to mention, in this order.
func attrText(a base.Attribute) []string {
	out := []string{a.GetName()}
	if ca, ok := a.(*base.CategoricalAttribute); ok {
		out = append(out, ca.GetValues()...)
	}
	return out
}

// mentions tells whether s holds the words in order.
func mentions(s string, words []string) bool {
	for _, w := range words {
		i := strings.Index(s, w)
		if i < 0 {
			return false
		}
		s = s[i+len(w):]
	}
	return true
}

// c34Printed checks a printed grid: attributes with their class marks, the
// first rows, and how many are left out.
func c34Printed(c *Case, what, s string, attrs []base.Attribute, class map[int]bool, cell func(i, j int) []byte, rows, max int, counted bool) {
	k := strings.Index(s, "Attributes:")
	d := strings.Index(s, "Data:")
	if k < 0 || d < k {
		c.Failf("%s prints no attributes or no data:\n%s", what, s)
	}
	if counted {
		for _, w := range []string{fmt.Sprintf("%d row(s)", rows), fmt.Sprintf("%d attribute(s)", len(attrs))} {
			if !strings.Contains(" "+s[:k], " "+w) {
				c.Failf("%s does not say it has %s:\n%s", what, w, s)
			}
		}
	}
	var order []int
	used := map[int]bool{}
	for _, l := range strings.Split(s[k+len("Attributes:"):d], "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		star := strings.HasPrefix(l, "*")
		hit := -1
		for j, a := range attrs {
			if strings.TrimSpace(strings.TrimPrefix(l, "*")) == fmt.Sprint(a) {
				hit = j
			}
		}
		if hit < 0 || used[hit] {
			c.Failf("%s lists %q, which it does not have, or twice:\n%s", what, l, s)
		}
		if !mentions(l, attrText(attrs[hit])) {
			c.Failf("%s lists %v as %q", what, attrText(attrs[hit]), l)
		}
		used[hit] = true
		order = append(order, hit)
		if star != class[hit] {
			c.Failf("%s marks %s as class: %v, want %v\n%s", what, attrs[hit], star, class[hit], s)
		}
	}
	if len(order) != len(attrs) {
		c.Failf("%s lists %d of %d attributes:\n%s", what, len(order), len(attrs), s)
	}
	shown := rows
	if shown > max {
		shown = max
	}
	lines := strings.Split(strings.TrimLeft(s[d+len("Data:"):], "\n"), "\n")
	if len(lines) < shown {
		c.Failf("%s shows %d rows, want %d:\n%s", what, len(lines), shown, s)
	}
	for i := 0; i < shown; i++ {
		var want []string
		for _, j := range order {
			want = append(want, attrs[j].GetStringFromSysVal(cell(i, j)))
		}
		if got := strings.Fields(lines[i]); strings.Join(got, " ") != strings.Join(want, " ") {
			c.Failf("%s prints row %d as %q, want %q", what, i, got, want)
		}
	}
	rest := strings.Join(lines[shown:], "\n")
	if counted {
		if rows > shown != strings.Contains(" "+strings.Replace(rest, "\n", " ", -1), fmt.Sprintf(" %d row(s) undisplayed", rows-shown)) {
			c.Failf("%s: %d of %d rows are shown, but it says %q", what, shown, rows, rest)
		}
		if rows <= shown != strings.Contains(rest, "All rows displayed") {
			c.Failf("%s: %d of %d rows are shown, but it says %q", what, shown, rows, rest)
		}
	} else if strings.TrimSpace(rest) != "" {
		c.Failf("%s prints %q after the rows", what, rest)
	}
	c.Obs("printed rows checked", shown)
}

func c34Grid(c *Case) {
	r := c.R
	rows := r.Intn(12)
	if r.Intn(3) == 0 {
		rows = 25 + r.Intn(12)
	}
	o := GenOpts{Rows: rows, Floats: 1 + r.Intn(4), Cats: r.Intn(3), Bins: r.Intn(4), ClassCat: r.Intn(4), ClassBin: r.Intn(4) == 0, Style: []ValueStyle{VSmallInt, VGauss, VWide}[r.Intn(3)], ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0}
	kind := r.Intn(4)
	if kind == 3 {
		o.Cats, o.Bins, o.ClassCat, o.ClassBin, o.ClassFloat = 0, 0, 0, false, r.Intn(2) == 0
	}
	t := genTable(r, o)
	for _, a := range t.Attrs {
		if fa, ok := a.(*base.FloatAttribute); ok {
			fa.Precision = r.Intn(7)
		}
	}
	class := map[int]bool{}
	for _, j := range t.ClassIdx() {
		class[j] = true
	}
	cell := func(i, j int) []byte { return t.Cells[i][j] }
	c.Desc = fmt.Sprintf("%d %s", kind, t.describe(3))
	c.Sig(kind, kinds(t), rows)
	switch kind {
	case 0:
		c34Printed(c, "dense grid", fmt.Sprint(t.Grid), t.Attrs, class, cell, rows, 30, true)
	case 1:
		g, m, what := wrap(c, t)
		cols := r.Perm(len(t.Attrs))[:1+r.Intn(len(t.Attrs))]
		if r.Intn(2) == 0 {
			cols = allIdx(len(t.Attrs))
		}
		var as []base.Attribute
		cl := map[int]bool{}
		for q, j := range cols {
			as = append(as, t.Attrs[j])
			cl[q] = class[j]
		}
		if len(cols) < len(t.Attrs) {
			g = base.NewInstancesViewFromAttrs(g, as)
			what += ", some attributes"
		}
		c34Printed(c, what+" view", fmt.Sprint(g), as, cl, func(i, j int) []byte { return m.Cells[i][cols[j]] }, rows, 30, true)
	case 2:
		var f base.Filter = filters.NewFloatConvertFilter()
		if r.Intn(2) == 0 {
			f = filters.NewBinaryConvertFilter()
		}
		for _, j := range r.Perm(len(t.Attrs))[:r.Intn(len(t.Attrs)+1)] {
			f.AddAttribute(t.Attrs[j])
		}
		if err := f.Train(); err != nil {
			c.Failf("Train: %v", err)
		}
		g := base.NewLazilyFilteredInstances(t.Grid, f)
		as := g.AllAttributes()
		names := map[string]bool{}
		for _, a := range as {
			if names[fmt.Sprint(a)] {
				c.Trivial()
				return
			}
			names[fmt.Sprint(a)] = true
		}
		cl := map[int]bool{}
		for _, a := range g.AllClassAttributes() {
			for j, b := range as {
				if a.Equals(b) {
					cl[j] = true
				}
			}
		}
		c34Printed(c, "filtered grid", fmt.Sprint(g), as, cl, func(i, j int) []byte { return gridCell(g, as[j], i) }, rows, 5, false)
	case 3:
		if rows == 0 {
			c.Trivial()
			return
		}
		m := mat.NewDense(rows, len(t.Attrs), nil)
		for i := 0; i < rows; i++ {
			for j := range t.Attrs {
				m.Set(i, j, t.F(i, j))
			}
		}
		g := base.InstancesFromMat64(rows, len(t.Attrs), m)
		as := g.AllAttributes()
		cl := map[int]bool{}
		if r.Intn(2) == 0 {
			j := r.Intn(len(as))
			if err := g.AddClassAttribute(as[j]); err != nil {
				c.Failf("AddClassAttribute: %v", err)
			}
			cl[j] = true
		}
		c34Printed(c, "matrix", fmt.Sprint(g), as, cl, func(i, j int) []byte { return packF(m.At(i, j)) }, rows, 30, true)
	}
	if r.Intn(3) == 0 {
		for _, a := range t.Attrs {
			if s := fmt.Sprint(a); !mentions(s, attrText(a)) {
				c.Failf("%v is printed as %q", attrText(a), s)
			}
		}
	}
}

// printedNode is a decision tree read back from its text.
type printedNode struct {
	attr  string
	float bool
	thr   float64
	kids  map[string]*printedNode
	class string
}

func depthOf(l string) int { return len(l) - len(strings.TrimLeft(l, "\t")) }

func parseTree(c *Case, lines []string, i *int, depth int) *printedNode {
	if *i >= len(lines) {
		c.Failf("the printed tree ends early:\n%s", strings.Join(lines, "\n"))
	}
	l := lines[*i]
	bad := func() {
		c.Failf("line %d of the printed tree is %q (expected at depth %d):\n%s", *i, l, depth, strings.Join(lines, "\n"))
	}
	if depthOf(l) != depth {
		bad()
	}
	s := strings.TrimSpace(l)
	if strings.HasPrefix(s, "Leaf(") && strings.HasSuffix(s, ")") {
		*i++
		return &printedNode{class: s[len("Leaf(") : len(s)-1]}
	}
	const p = "Rule(DecisionTreeRule("
	if !strings.HasPrefix(s, p) || !strings.HasSuffix(s, "))") {
		bad()
	}
	f := strings.Fields(s[len(p) : len(s)-2])
	n := &printedNode{attr: f[0], kids: map[string]*printedNode{}}
	if len(f) == 3 && f[1] == "<=" {
		var err error
		n.float = true
		if n.thr, err = strconv.ParseFloat(f[2], 64); err != nil {
			bad()
		}
	} else if len(f) != 1 {
		bad()
	}
	*i++
	for *i < len(lines) && depthOf(lines[*i]) == depth+1 {
		k := strings.TrimSpace(lines[*i])
		if n.kids[k] != nil {
			bad()
		}
		*i++
		n.kids[k] = parseTree(c, lines, i, depth+1)
	}
	return n
}

// c34Parse reads a whole printed tree and returns the number of its nodes.
func c34Parse(c *Case, s, name string) (*printedNode, int) {
	p := name + "("
	if !strings.HasPrefix(s, p) || !strings.HasSuffix(s, ")") {
		c.Failf("a %s is printed as\n%s", name, s)
	}
	lines := strings.Split(strings.TrimRight(s[len(p):len(s)-1], "\n"), "\n")
	i := 0
	n := parseTree(c, lines, &i, 0)
	if i != len(lines) {
		c.Failf("%d of the lines of the printed tree belong to no node:\n%s", len(lines)-i, s)
	}
	return n, countNodes(n)
}

func countNodes(n *printedNode) int {
	k := 1
	for _, x := range n.kids {
		k += countNodes(x)
	}
	return k
}

func realNodes(n *trees.DecisionTreeNode) int {
	k := 1
	for _, x := range n.Children {
		k += realNodes(x)
	}
	return k
}

// route returns the printed prediction for a row, or false if the tree has no
// branch for one of its values.
func (n *printedNode) route(t *Table, i int) (string, bool) {
	for n.kids != nil {
		j := -1
		for q, a := range t.Attrs {
			if a.GetName() == n.attr {
				j = q
			}
		}
		if j < 0 {
			return "no attribute " + n.attr, true
		}
		k := ""
		if n.float {
			k = "0"
			if t.F(i, j) > n.thr {
				k = "1"
			}
		} else {
			k = sysToString(t.Attrs[j], t.Cells[i][j])
		}
		if n = n.kids[k]; n == nil {
			return "", false
		}
	}
	return n.class, true
}

func c34Tree(c *Case) {
	r := c.R
	o := GenOpts{Rows: 1 + r.Intn(40), Floats: r.Intn(4), Cats: 1 + r.Intn(3), Bins: r.Intn(3), ClassCat: 2 + r.Intn(3), Style: VSmallInt, ShuffleAttrOrder: true}
	train := genTable(r, o)
	if train.Rows() > 0 {
		// and the threshold's text is exact
		for j, a := range train.Attrs {
			if _, ok := a.(*base.FloatAttribute); ok {
				for i := range train.Cells {
					v := packF(float64(r.Intn(16)) / 4)
					train.Cells[i][j] = v
					train.Grid.Set(train.Specs[j], i, v)
				}
			}
		}
	}
	test := subTable(train, r.Perm(train.Rows()))
	rule, k, gen := c17Rule(c, len(train.Attrs)-1)
	c.Desc = fmt.Sprintf("%s %s", rule, train.describe(4))
	var cls base.Classifier
	var root func() *trees.DecisionTreeNode
	name, prune := "ID3DecisionTree", 0.0
	if r.Intn(3) == 0 {
		prune = 0.3
	}
	if rule == "random" {
		rt := trees.NewRandomTree(k)
		name, cls, root = "RandomTree", rt, func() *trees.DecisionTreeNode { return rt.Root }
	} else {
		id := trees.NewID3DecisionTreeFromRule(prune, gen)
		cls, root = id, func() *trees.DecisionTreeNode { return id.Root }
	}
	if err := cls.Fit(train.Grid); err != nil {
		if prune > 0 && train.Rows() < 20 {
			c.Trivial()
			return
		}
		c.Failf("Fit: %v", err)
	}
	if p, ok := cls.(*trees.RandomTree); ok && r.Intn(3) == 0 {
		p.Prune(test.Grid)
	}
	before := fmt.Sprint(cls)
	n, nodes := c34Parse(c, before, name)
	if want := realNodes(root()); nodes != want {
		c.Failf("the printed tree has %d nodes, the tree %d:\n%s", nodes, want, before)
	}
	c.Sig(rule, nodes, kinds(train))
	if nodes == 1 {
		c.Trivial()
	}
	c34Agree(c, n, cls, test, before)
	if fmt.Sprint(cls) != before {
		c.Failf("printed again, the tree reads\n%s\nnot\n%s", cls, before)
	}
}

func c34Agree(c *Case, n *printedNode, cls base.Classifier, test *Table, text string) {
	p, err := cls.Predict(test.Grid)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	for i, l := range predLabels(c, "Predict", p, test) {
		want, ok := n.route(test, i)
		if !ok {
			continue
		}
		if l != want {
			c.Failf("row %d is predicted %q, the printed tree says %q:\n%s", i, l, want, text)
		}
		c.Obs("rows routed through printed trees", 1)
	}
}

// c34Ensemble: a printed ensemble shows each of its members once.
func c34Ensemble(c *Case) {
	r := c.R
	train, _, _ := c28Cats(c, 20+r.Intn(30), 5)
	feats := len(train.NonClassIdx())
	size, k := 1+r.Intn(12), 1+r.Intn(feats)
	var text string
	var b *meta.BaggedModel
	if r.Intn(2) == 0 {
		rf := ensemble.NewRandomForest(size, k)
		if err := rf.Fit(train.Grid); err != nil {
			c.Failf("Fit: %v", err)
		}
		text, b = fmt.Sprint(rf), rf.Model
		if !mentions(text, []string{"ForestSize: " + fmt.Sprint(size) + ",", "Features:" + fmt.Sprint(k) + ","}) {
			c.Failf("a forest of %d trees and %d features is printed as\n%s", size, k, text)
		}
	} else {
		b = new(meta.BaggedModel)
		b.RandomFeatures = k
		for i := 0; i < size; i++ {
			b.AddModel(trees.NewRandomTree(1 + r.Intn(k)))
		}
		if err := b.Fit(train.Grid); err != nil {
			c.Failf("Fit: %v", err)
		}
		text = fmt.Sprint(b)
	}
	c.Desc = fmt.Sprintf("%d members of %d features: %s", size, k, train.describe(3))
	c.Sig(size, k, feats)
	at, kind := 0, ""
	for i, m := range b.Models {
		s := fmt.Sprint(m)
		j := strings.Index(text[at:], s)
		if j < 0 {
			c.Failf("member %d is not printed in its place:\n%s\nin\n%s", i, s, text)
		}
		at += j + len(s)
		k := strings.Index(s, "(")
		if k < 0 {
			c.Failf("member %d is printed as %q", i, s)
		}
		c34Parse(c, s, s[:k])
		kind = s[:k+1]
		c.Obs("printed members checked", 1)
	}
	if k := strings.Count(text, kind); k != size {
		c.Failf("%d members are printed, there are %d:\n%s", k, size, text)
	}
}

// cartText is a CART tree read back from its text.
type cartText struct {
	feature     int
	thr         float64
	kid         [2]*cartText
	leaf        [2]float64
	left, right bool
}

func parseCart(c *Case, lines []string, i *int, indent int) *cartText {
	next := func(ind int, prefix string) string {
		if *i >= len(lines) {
			c.Failf("the printed tree ends early:\n%s", strings.Join(lines, "\n"))
		}
		l := lines[*i]
		if !strings.HasPrefix(l, strings.Repeat(" ", ind)+prefix) {
			c.Failf("line %d of the printed tree is %q, want %q:\n%s", *i, l, prefix, strings.Join(lines, "\n"))
		}
		*i++
		return strings.TrimSpace(l[ind+len(prefix):])
	}
	n := &cartText{}
	f := strings.Fields(next(indent, "Feature "))
	var e1, e2 error
	if len(f) == 3 {
		n.feature, e1 = strconv.Atoi(f[0])
		n.thr, e2 = strconv.ParseFloat(f[2], 64)
	}
	if len(f) != 3 || f[1] != "<" || e1 != nil || e2 != nil {
		c.Failf("a node of the printed tree is %q", f)
	}
	for k := 0; k < 2; k++ {
		side := 0
		if strings.TrimSpace(next(indent, "---> ")) == "False" {
			side = 1
		}
		if side == 0 && n.left || side == 1 && n.right {
			c.Failf("a side is printed twice:\n%s", strings.Join(lines, "\n"))
		}
		if side == 0 {
			n.left = true
		} else {
			n.right = true
		}
		if *i < len(lines) && strings.HasPrefix(lines[*i], strings.Repeat(" ", indent+2)+"PREDICT") {
			v, err := strconv.ParseFloat(next(indent+2, "PREDICT"), 64)
			if err != nil {
				c.Failf("printed prediction: %v", err)
			}
			n.leaf[side] = v
		} else {
			n.kid[side] = parseCart(c, lines, i, indent+2)
		}
	}
	return n
}

func (n *cartText) route(x []float64) float64 {
	for {
		side := 1
		if x[n.feature] < n.thr {
			side = 0
		}
		if n.kid[side] == nil {
			return n.leaf[side]
		}
		n = n.kid[side]
	}
}

func c34Cart(c *Case) {
	r := c.R
	o := GenOpts{Rows: 2 + r.Intn(40), Floats: 1 + r.Intn(5), ShuffleAttrOrder: r.Intn(2) == 0, ClassFloat: true}
	// thresholds between these are exact in three digits
	o.FloatVal = func(row, col int) float64 { return float64(r.Intn(16)) / 4 }
	train := genTable(r, o)
	k, reg := 2+r.Intn(3), r.Intn(2) == 0
	setTarget(train, func(i int) float64 {
		if reg && r.Intn(2) == 0 {
			return r.NormFloat64()
		}
		return float64(r.Intn(k))
	})
	depth := []int64{-1, -1, 1, 2, 3}[r.Intn(5)]
	var text string
	var pred []float64
	c.Desc = fmt.Sprintf("regression=%v depth %d %s", reg, depth, train.describe(6))
	if reg {
		tree := trees.NewDecisionTreeRegressor([]string{"mae", "mse"}[r.Intn(2)], depth)
		if err := tree.Fit(train.Grid); err != nil {
			c.Failf("Fit: %v", err)
		}
		text, pred = tree.String(), tree.Predict(train.Grid)
	} else {
		var labels []int64
		for i := 0; i < k; i++ {
			labels = append(labels, int64(i))
		}
		tree := trees.NewDecisionTreeClassifier([]string{"gini", "entropy"}[r.Intn(2)], depth, labels)
		if err := tree.Fit(train.Grid); err != nil {
			c.Failf("Fit: %v", err)
		}
		text = tree.String()
		for _, p := range tree.Predict(train.Grid) {
			pred = append(pred, float64(p))
		}
	}
	lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
	i := 0
	n := parseCart(c, lines, &i, 0)
	if i != len(lines) {
		c.Failf("%d of the printed lines belong to no node:\n%s", len(lines)-i, text)
	}
	c.Sig(reg, len(lines), depth, o.Floats)
	// the columns are numbered in one of these orders
	msg := ""
	for _, cols := range featureOrders(train, train.Grid) {
		msg = ""
		for q, x := range features(train, cols) {
			if w := n.route(x); math.Abs(w-pred[q]) > 0.000501 {
				msg = fmt.Sprintf("row %d is predicted %v, the printed tree says %v:\n%s", q, pred[q], w, text)
				break
			}
		}
		if msg == "" {
			break
		}
	}
	if msg != "" {
		c.Failf("%s", msg)
	}
	c.Obs("rows routed through printed trees", len(pred))
}

func c34Network(c *Case) {
	r := c.R
	n := 2 + r.Intn(8)
	in := 1 + r.Intn(n-1)
	net := neural.NewNetwork(n, in, neural.Sigmoid)
	w := map[[2]int]float64{}
	for i := 1; i <= in; i++ {
		w[[2]int{i, i}] = 1
	}
	for k := r.Intn(3 * n); k > 0; k-- {
		i, j := 1+r.Intn(n), 1+r.Intn(n)
		v := r.NormFloat64() * []float64{0.1, 1, 100}[r.Intn(3)]
		if r.Intn(6) == 0 {
			v = 0
		}
		net.SetWeight(i, j, v)
		w[[2]int{i, j}] = v
	}
	b := make([]float64, n)
	for k := r.Intn(2 * n); k > 0; k-- {
		j := in + 1 + r.Intn(n-in)
		b[j-1] = r.NormFloat64()
		net.SetBias(j, b[j-1])
	}
	s := fmt.Sprint(net)
	c.Desc = s
	c.Sig(n, in, len(w))
	c34Net(c, s, n, w, b)
	if r.Intn(4) == 0 {
		layers := []int{1 + r.Intn(9), 1 + r.Intn(9)}
		m := neural.NewMultiLayerNet(layers)
		m.MaxIterations, m.LearningRate, m.Convergence = 1+r.Intn(3), r.Float64(), r.Float64()
		t := genTable(r, GenOpts{Rows: 1 + r.Intn(5), Floats: 1 + r.Intn(3), ClassFloat: true, Style: VUnit})
		m.Fit(t.Grid)
		s := fmt.Sprint(m)
		size := len(t.Attrs) + layers[0] + layers[1]
		words := []string{fmt.Sprint(layers), fmt.Sprintf("Network(%d,", size), fmt.Sprintf("%f", m.Convergence), fmt.Sprintf("%f", m.LearningRate), fmt.Sprint(m.MaxIterations)}
		if !mentions(s, words) {
			c.Failf("%q are not shown in order in\n%s", words, s)
		}
	}
}

// c34Net reads the printed weights and biases of a network.
func c34Net(c *Case, s string, n int, w map[[2]int]float64, b []float64) {
	head := fmt.Sprintf("Network(%d,", n)
	if !strings.HasPrefix(s, head) {
		c.Failf("a network of %d nodes is printed as %q", n, s)
	}
	parts := strings.SplitN(s[len(head):], ",", 2)
	bs := strings.Fields(parts[0])
	if len(bs) != n || len(parts) != 2 {
		c.Failf("%d biases are printed for %d nodes: %q", len(bs), n, s)
	}
	for i, x := range bs {
		if v, err := strconv.ParseFloat(x, 64); err != nil || math.Abs(v-b[i]) > 0.005001 {
			c.Failf("the bias %v of node %d is printed as %q", b[i], i+1, x)
		}
	}
	seen := map[[2]int]bool{}
	for _, l := range strings.Split(parts[1], "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l == ")" {
			continue
		}
		var i, j int
		var v float64
		if k, _ := fmt.Sscanf(l, "(%d %d %f)", &i, &j, &v); k != 3 {
			c.Failf("a weight is printed as %q in %q", l, s)
		}
		e := [2]int{i, j}
		if seen[e] || w[e] == 0 || math.Abs(v-w[e]) > 0.005001 {
			c.Failf("the weight %v from node %d to node %d is printed as %q", w[e], i, j, l)
		}
		seen[e] = true
	}
	for e, v := range w {
		if v != 0 && !seen[e] {
			c.Failf("the weight %v from node %d to node %d is not printed: %q", v, e[0], e[1], s)
		}
	}
	c.Obs("printed weights checked", len(w))
}
