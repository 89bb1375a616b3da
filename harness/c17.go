package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
)

func init() {
	register(&Property{
		ID:   "C17",
		Rule: "ID3 trees (gain, gain ratio, Gini) and random trees are grown on generated grids (categorical, binary and float attributes, ties, constants, adjacent and huge floats, views); a monitor walks each tree with the rows that reach every node and recomputes counts, majority, best split and stopping; predictions are routed independently (rare classes among thousands of rows included); pruning is compared before and after; distinct by rule, shape and style",
		W: []Workload{
			{Name: "grow", Quick: 50000, Thorough: 200000, Fn: c17Grow},
			{Name: "prune", Quick: 30000, Thorough: 120000, Fn: c17Prune},
			{Name: "refuse", Quick: 6000, Thorough: 24000, Fn: c17Refuse},
		},
	})
}

func c17Tables(c *Case, n, q int) (*Table, *Table, string) {
	r := c.R
	style := []string{"ints", "gauss", "wide", "adjacent", "signal", "signal", "constant", "huge", "near"}[r.Intn(9)]
	if n > 1000 {
		style = "rare"
	}
	o := GenOpts{Floats: r.Intn(4), Cats: r.Intn(4), Bins: r.Intn(3), CatVals: many(r, 0), ClassCat: many(r, 1+r.Intn(4)), ShuffleAttrOrder: true, ExplicitGroups: r.Intn(3) == 0}
	if r.Intn(6) == 0 {
		o.ClassCat, o.ClassBin = 0, true
	}
	if o.Floats+o.Cats+o.Bins == 0 {
		o.Cats = 1
	}
	o.FloatVal = func(row, col int) float64 {
		switch style {
		case "rare": // few rows which are unlike the others
			if r.Intn(n) == 0 {
				return 1
			}
			return 0
		case "ints":
			return genFloat(r, VSmallInt)
		case "wide":
			return genFloat(r, VWide)
		case "adjacent":
			x := 1.0
			for k := r.Intn(4); k > 0; k-- {
				x = math.Nextafter(x, 2)
			}
			return x
		case "constant":
			return 1.5
		case "huge":
			return []float64{math.MaxFloat64, -math.MaxFloat64, math.MaxFloat64 / 2, -1e308, 1e308, 1, 5e-324, 0}[r.Intn(8)]
		case "near":
			return genFloat(r, VNear)
		case "signal":
			return float64(r.Intn(10))
		}
		if r.Intn(40) == 0 {
			return []float64{math.MaxFloat64, -math.MaxFloat64, math.MaxFloat64 / 2}[r.Intn(3)]
		}
		return genFloat(r, VGauss)
	}
	if style == "signal" && o.ClassCat > 0 {
		k := o.ClassCat
		noise := 2 + r.Intn(10)
		o.ClassVal = func(row int, cells [][]byte) int {
			v := 0
			for j, b := range cells {
				if len(b) == 8 {
					u := unpackU(b)
					if u > 1<<32 {
						u = uint64(unpackF(b)) / 4
					}
					v += int(u) * (j%2 + 1)
				} else if len(b) == 1 {
					v += int(b[0])
				}
			}
			if r.Intn(noise) == 0 {
				v = r.Intn(k)
			}
			return v % k
		}
	}
	if style == "rare" && o.ClassCat > 1 && r.Intn(2) == 0 {
		o.ClassVal = func(row int, cells [][]byte) int {
			if r.Intn(n) < 2 {
				return 1
			}
			return 0
		}
	}
	train, test := genPair(c, o, n, q)
	return train, test, style
}

func entropyOf(m map[string]int) float64 {
	n := 0
	for _, v := range m {
		n += v
	}
	e := 0.0
	for _, v := range m {
		if v > 0 {
			p := float64(v) / float64(n)
			e -= p * math.Log2(p)
		}
	}
	return e
}

func giniOf(m map[string]int) float64 {
	n := 0
	for _, v := range m {
		n += v
	}
	s := 0.0
	for _, v := range m {
		p := float64(v) / float64(n)
		s += p * p
	}
	return 1 - s
}

// treeMon is the monitor of one tree.
type treeMon struct {
	c     *Case
	t     *Table
	cls   int
	label []string
	rule  string
	k     int // random trees: attributes considered
	nodes int
	leafs int
	depth int
}

// part is the effect of a split: the class counts of each part.
type part struct {
	dist map[string]map[string]int
	n    int
}

func (p part) ent() float64 {
	s := 0.0
	for _, d := range p.dist {
		n := 0
		for _, v := range d {
			n += v
		}
		s += float64(n) / float64(p.n) * entropyOf(d)
	}
	return s
}

func (p part) gini() float64 {
	s := 0.0
	for _, d := range p.dist {
		n := 0
		for _, v := range d {
			n += v
		}
		s += float64(n) / float64(p.n) * giniOf(d)
	}
	return s
}

func (p part) ratio(base float64) float64 {
	sz := map[string]int{}
	for k, d := range p.dist {
		for _, v := range d {
			sz[k] += v
		}
	}
	if len(sz) < 2 {
		return 0
	}
	return (base - p.ent()) / entropyOf(sz)
}

func (m *treeMon) split(rows []int, col int, thr float64) part {
	p := part{map[string]map[string]int{}, len(rows)}
	_, isFloat := m.t.Attrs[col].(*base.FloatAttribute)
	for _, i := range rows {
		k := ""
		if isFloat {
			k = "0"
			if m.t.F(i, col) > thr {
				k = "1"
			}
		} else {
			k = m.t.S(i, col)
		}
		if p.dist[k] == nil {
			p.dist[k] = map[string]int{}
		}
		p.dist[k][m.label[i]]++
	}
	return p
}

// best lists the splits of a column with the least entropy left.
func (m *treeMon) best(rows []int, col int) []part {
	if _, ok := m.t.Attrs[col].(*base.FloatAttribute); !ok {
		return []part{m.split(rows, col, 0)}
	}
	seen := map[float64]bool{}
	var vals []float64
	for _, i := range rows {
		if v := m.t.F(i, col); !seen[v] {
			seen[v] = true
			vals = append(vals, v)
		}
	}
	sort.Float64s(vals)
	var out []part
	min := math.Inf(1)
	for k := 0; k+1 < len(vals); k++ {
		p := m.split(rows, col, vals[k])
		e := p.ent()
		if e < min-1e-9 {
			out = out[:0]
		}
		if e < min+1e-9 {
			out = append(out, p)
		}
		min = math.Min(min, e)
	}
	return out
}

func (m *treeMon) walk(n *trees.DecisionTreeNode, rows []int, cols []int, path string, depth int) {
	c := m.c
	m.nodes++
	if depth > m.depth {
		m.depth = depth
	}
	dist := map[string]int{}
	for _, i := range rows {
		dist[m.label[i]]++
	}
	if len(dist) != len(n.ClassDist) {
		c.Failf("node %q: class counts %v, the rows reaching it have %v", path, n.ClassDist, dist)
	}
	max := 0
	for k, v := range dist {
		if n.ClassDist[k] != v {
			c.Failf("node %q: class counts %v, the rows reaching it have %v", path, n.ClassDist, dist)
		}
		if v > max {
			max = v
		}
	}
	if dist[n.Class] != max {
		c.Failf("node %q: class %q is not a majority of %v", path, n.Class, dist)
	}
	if n.ClassAttr == nil || n.ClassAttr.GetName() != m.t.Attrs[m.cls].GetName() {
		c.Failf("node %q: class attribute %v", path, n.ClassAttr)
	}
	parts := map[int][]part{}
	can := 0
	for _, j := range cols {
		parts[j] = m.best(rows, j)
		if len(parts[j]) > 0 {
			can++
		}
	}
	if n.Children == nil {
		m.leafs++
		if len(dist) > 1 && can > 0 && !(m.rule == "random" && m.k < len(cols)) {
			c.Failf("node %q is a leaf of %v with %d attributes to split on", path, dist, can)
		}
		return
	}
	if len(dist) < 2 {
		c.Failf("node %q is split although all its rows are %v", path, dist)
	}
	if n.SplitRule == nil || n.SplitRule.SplitAttr == nil {
		c.Failf("node %q has children but no rule", path)
	}
	col := -1
	var rest []int
	for _, j := range cols {
		a := m.t.Attrs[j]
		if a.Equals(n.SplitRule.SplitAttr) {
			col = j
		} else {
			rest = append(rest, j)
		}
	}
	if col < 0 {
		c.Failf("node %q is split on %v, which is not one of the attributes left", path, n.SplitRule.SplitAttr)
	}
	chosen := m.split(rows, col, n.SplitRule.SplitVal)
	if _, ok := m.t.Attrs[col].(*base.FloatAttribute); ok {
		if len(chosen.dist) < 2 {
			c.Failf("node %q: threshold %v of %s leaves all rows on one side", path, n.SplitRule.SplitVal, m.t.Attrs[col].GetName())
		}
		if len(parts[col]) == 0 || chosen.ent() > parts[col][0].ent()+1e-7 {
			c.Failf("node %q: threshold %v of %s leaves entropy %v, the best leaves %v", path, n.SplitRule.SplitVal, m.t.Attrs[col].GetName(), chosen.ent(), parts[col][0].ent())
		}
		c.Obs("thresholds checked", 1)
	}
	if m.rule != "random" || m.k >= len(cols) {
		h := entropyOf(dist)
		for _, j := range cols {
			if len(parts[j]) == 0 {
				continue
			}
			var got, other float64
			switch m.rule {
			case "gini": // smaller is better
				got = -chosen.gini()
				other = math.Inf(1)
				for _, p := range parts[j] {
					other = math.Min(other, -p.gini())
				}
			case "ratio":
				got = chosen.ratio(h)
				other = math.Inf(1)
				for _, p := range parts[j] {
					other = math.Min(other, p.ratio(h))
				}
			default:
				got, other = h-chosen.ent(), h-parts[j][0].ent()
			}
			if other > got+1e-7 {
				c.Failf("node %q is split on %s with score %v, %s has %v", path, m.t.Attrs[col].GetName(), got, m.t.Attrs[j].GetName(), other)
			}
			c.Obs("alternatives compared", 1)
		}
	}
	sub := map[string][]int{}
	for _, i := range rows {
		k := m.key(n, col, i)
		sub[k] = append(sub[k], i)
	}
	if len(sub) != len(n.Children) {
		c.Failf("node %q has %d children for %d parts", path, len(n.Children), len(sub))
	}
	for k, child := range n.Children {
		if len(sub[k]) == 0 {
			c.Failf("node %q has a child %q no row reaches", path, k)
		}
		m.walk(child, sub[k], rest, path+"/"+m.t.Attrs[col].GetName()+"="+k, depth+1)
	}
}

func (m *treeMon) key(n *trees.DecisionTreeNode, col, i int) string {
	return treeKey(n, m.t, col, i)
}

func treeKey(n *trees.DecisionTreeNode, t *Table, col, i int) string {
	if _, ok := t.Attrs[col].(*base.FloatAttribute); ok {
		if t.F(i, col) > n.SplitRule.SplitVal {
			return "1"
		}
		return "0"
	}
	return t.S(i, col)
}

// route returns the leaves a row may end in: one, unless some value on the way
// was not seen in training.
func route(n *trees.DecisionTreeNode, t *Table, i int) []*trees.DecisionTreeNode {
	if n.Children == nil {
		return []*trees.DecisionTreeNode{n}
	}
	col := t.Index(n.SplitRule.SplitAttr)
	if ch, ok := n.Children[treeKey(n, t, col, i)]; ok {
		return route(ch, t, i)
	}
	var out []*trees.DecisionTreeNode
	for _, ch := range n.Children {
		out = append(out, route(ch, t, i)...)
	}
	return out
}

// routed: does the row have a child of its own at every node of its path?
// (a node can have a single child)
func routed(n *trees.DecisionTreeNode, t *Table, i int) bool {
	for n.Children != nil {
		ch, ok := n.Children[treeKey(n, t, t.Index(n.SplitRule.SplitAttr), i)]
		if !ok {
			return false
		}
		n = ch
	}
	return true
}

func c17CheckPred(c *Case, what string, root *trees.DecisionTreeNode, labels []string, m *Table) {
	for i, l := range labels {
		ok := false
		leaves := route(root, m, i)
		var want []string
		for _, n := range leaves {
			want = append(want, n.Class)
			ok = ok || n.Class == l
		}
		if len(leaves) == 1 {
			c.Obs("routed rows", 1)
		} else {
			c.Obs("rows with unseen values", 1)
		}
		if !ok {
			c.Failf("%s: row %d predicted as %q, its path leads to %q\n%s", what, i, l, want, root)
		}
	}
}

func c17Rule(c *Case, feats int) (string, int, trees.RuleGenerator) {
	r := c.R
	switch r.Intn(4) {
	case 0:
		return "gain", 0, new(trees.InformationGainRuleGenerator)
	case 1:
		return "ratio", 0, new(trees.InformationGainRatioRuleGenerator)
	case 2:
		return "gini", 0, new(trees.GiniCoefficientRuleGenerator)
	}
	k := 1 + r.Intn(feats+1)
	return "random", k, &trees.RandomTreeRuleGenerator{Attributes: k}
}

func c17Grow(c *Case) {
	r := c.R
	n, q := 1+big(r, r.Intn(40), 600), big(r, r.Intn(12), 600)
	if r.Intn(12) == 0 {
		n = 100 + r.Intn(200)
	}
	if r.Intn(400) == 0 {
		n = 1001 + r.Intn(3000)
	}
	train, test, style := c17Tables(c, n, q)
	feats := len(train.Attrs) - 1
	rule, k, gen := c17Rule(c, feats)
	var tg, pg base.FixedDataGrid = train.Grid, test.Grid
	tm, pm, tk, pk := train, test, "dense", "dense"
	if r.Intn(3) == 0 {
		tg, tm, tk = wrap(c, train)
	}
	if r.Intn(3) == 0 {
		pg, pm, pk = wrap(c, test)
	}
	c.Desc = fmt.Sprintf("%s tree (%d) on %s %s (%s), tested on %s of %d", rule, k, tk, train.describe(4), style, pk, q)
	sa, sb := snapshot(train.Grid), snapshot(test.Grid)
	var root *trees.DecisionTreeNode
	var cls base.Classifier
	if rule == "random" {
		rt := trees.NewRandomTree(k)
		if err := rt.Fit(tg); err != nil {
			c.Failf("Fit: %v", err)
		}
		root, cls = rt.Root, rt
	} else {
		id := trees.NewID3DecisionTreeFromRule(0, gen)
		if rule == "gain" && r.Intn(2) == 0 {
			id = trees.NewID3DecisionTree(0)
		}
		if err := id.Fit(tg); err != nil {
			c.Failf("Fit: %v", err)
		}
		root, cls = id.Root, id
	}
	mon := &treeMon{c: c, t: tm, cls: tm.ClassIdx()[0], rule: rule, k: k}
	for i := range tm.Cells {
		mon.label = append(mon.label, tm.S(i, mon.cls))
	}
	mon.walk(root, allIdx(n), tm.NonClassIdx(), "", 0)
	c.Obs("nodes checked", mon.nodes)
	c.Sig(rule, k, style, n, mon.nodes, mon.depth, feats)
	if mon.nodes == 1 {
		c.Trivial()
	}
	_ = cls.String()
	for pass := 0; pass < 2; pass++ {
		g, m, what := tg, tm, "training rows"
		if pass == 1 {
			g, m, what = pg, pm, "fresh rows"
		}
		pred, err := cls.Predict(g)
		if err != nil {
			c.Failf("Predict: %v", err)
		}
		labels := predLabels(c, what, pred, m)
		c17CheckPred(c, what, root, labels, m)
		pred, err = cls.Predict(g)
		if err != nil {
			c.Failf("second Predict: %v", err)
		}
		if i := sameStrings(labels, predLabels(c, what, pred, m)); i >= 0 {
			c.Failf("row %d of the %s predicted differently the second time", i, what)
		}
	}
	unchanged(c, "the tree", train.Grid, sa)
	unchanged(c, "the tree", test.Grid, sb)
	if id, ok := cls.(*trees.ID3DecisionTree); ok && q > 0 {
		i := r.Intn(q)
		one := subTable(test, []int{i})
		ps, err := id.PredictProba(one.Grid)
		if err != nil {
			c.Failf("PredictProba: %v", err)
		}
		leaves := route(root, one, 0)
		found := false
		for _, l := range leaves {
			tot := 0
			for _, v := range l.ClassDist {
				tot += v
			}
			same := len(ps) == len(l.ClassDist)
			for a, p := range ps {
				if a > 0 && ps[a-1].Probability < p.Probability {
					c.Failf("PredictProba is not sorted: %v", ps)
				}
				if math.Abs(p.Probability-float64(l.ClassDist[p.ClassValue])/float64(tot)) > 1e-12 {
					same = false
				}
			}
			found = found || same
		}
		if !found {
			c.Failf("PredictProba gave %v, the leaf has %v", ps, leaves[0].ClassDist)
		}
		c.Obs("probabilities checked", len(ps))
	}
}

type treeShape struct {
	kids  map[string]*treeShape
	class string
}

func shapeOf(n *trees.DecisionTreeNode) *treeShape {
	s := &treeShape{class: n.Class}
	if n.Children != nil {
		s.kids = map[string]*treeShape{}
		for k, ch := range n.Children {
			s.kids[k] = shapeOf(ch)
		}
	}
	return s
}

// prunedFrom counts the nodes pruned, and fails if n is not s with some
// subtrees cut off.
func prunedFrom(c *Case, n *trees.DecisionTreeNode, s *treeShape) int {
	if n.Class != s.class {
		c.Failf("pruning changed the class of a node from %s to %s", s.class, n.Class)
	}
	if n.Children == nil {
		if s.kids != nil {
			return 1
		}
		return 0
	}
	if len(n.Children) != len(s.kids) {
		c.Failf("pruning left %d of %d children", len(n.Children), len(s.kids))
	}
	cut := 0
	for k, ch := range n.Children {
		if s.kids[k] == nil {
			c.Failf("pruning added child %q", k)
		}
		cut += prunedFrom(c, ch, s.kids[k])
	}
	return cut
}

// c17Needless fails if a subtree that all its pruning rows could do without,
// at no loss, is still there.
func c17Needless(c *Case, n *trees.DecisionTreeNode, m *Table, rows []int, cls int, path string) (int, bool) {
	own := 0
	for _, i := range rows {
		if m.S(i, cls) == n.Class {
			own++
		}
	}
	if n.Children == nil || len(rows) == 0 {
		return own, true
	}
	col := m.Index(n.SplitRule.SplitAttr)
	sub := map[string][]int{}
	for _, i := range rows {
		k := treeKey(n, m, col, i)
		if n.Children[k] == nil {
			return 0, false // unseen value: rows are judged elsewhere
		}
		sub[k] = append(sub[k], i)
	}
	right := 0
	for k, ch := range n.Children {
		s, ok := c17Needless(c, ch, m, sub[k], cls, path+"/"+k)
		if !ok {
			return 0, false
		}
		right += s
	}
	if right <= own {
		c.Failf("subtree %q is right on %d of its %d pruning rows, a leaf on %d, but it was not pruned", path, right, len(rows), own)
	}
	return right, true
}

func c17Prune(c *Case) {
	r := c.R
	n, q := 2+r.Intn(40), r.Intn(25)
	if r.Intn(60) == 0 { // a single row is a small part of these
		q = 150 + r.Intn(400)
	}
	train, test, style := c17Tables(c, n, q)
	rule, k, gen := c17Rule(c, len(train.Attrs)-1)
	g, m, kind := wrap(c, test)
	root := trees.InferID3Tree(held(c, train), gen)
	before := shapeOf(root)
	cls := m.ClassIdx()[0]
	correct := func(labels []string) int {
		s := 0
		for i, l := range labels {
			if l == m.S(i, cls) {
				s++
			}
		}
		return s
	}
	unseen := false
	for i := range m.Cells {
		if !routed(root, m, i) {
			unseen = true
		}
	}
	c.Desc = fmt.Sprintf("prune %s tree (%d) of %s (%s) with %s %d rows", rule, k, train.describe(4), style, kind, q)
	pred, err := root.Predict(g)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	was := correct(predLabels(c, "before pruning", pred, m))
	ss := snapshot(test.Grid)
	if rule == "random" {
		rt := &trees.RandomTree{Root: root}
		rt.Prune(g)
	} else {
		root.Prune(g)
	}
	unchanged(c, "Prune", test.Grid, ss)
	cut := prunedFrom(c, root, before)
	c.Sig("prune", rule, style, n, q, cut, kind)
	if cut == 0 {
		c.Trivial()
	}
	c.Obs("subtrees pruned", cut)
	pred, err = root.Predict(g)
	if err != nil {
		c.Failf("Predict after pruning: %v", err)
	}
	now := correct(predLabels(c, "after pruning", pred, m))
	if q == 0 && cut > 0 {
		c.Failf("pruning with no rows cut %d subtrees", cut)
	}
	if !unseen {
		c.Obs("prunings compared", 1)
		if now < was {
			c.Failf("pruning took the rows it was tested on from %d right to %d of %d", was, now, q)
		}
		c17Needless(c, root, m, allIdx(q), cls, "")
	}
	// the classifier that prunes itself
	prune := 0.1 + 0.5*r.Float64()
	id := trees.NewID3DecisionTreeFromRule(prune, gen)
	sa := snapshot(train.Grid)
	if err := id.Fit(held(c, train)); err != nil {
		if n > 20 {
			c.Failf("Fit with %.2f for pruning: %v", prune, err)
		}
		return
	}
	unchanged(c, "Fit", train.Grid, sa)
	pred, err = id.Predict(g)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	c17CheckPred(c, "self-pruned tree", id.Root, predLabels(c, "self-pruned tree", pred, m), m)
}

func c17Refuse(c *Case) {
	r := c.R
	train, test, _ := c17Tables(c, 3+r.Intn(10), 3)
	rule, k, gen := c17Rule(c, len(train.Attrs)-1)
	kind := []string{"empty", "missing"}[r.Intn(2)]
	c.Desc = fmt.Sprintf("%s: %s (%d) %s", kind, rule, k, train.describe(3))
	c.Sig(kind, rule, len(train.Attrs))
	var cls base.Classifier = trees.NewID3DecisionTreeFromRule([]float64{0, 0.3}[r.Intn(2)], gen)
	if rule == "random" {
		cls = trees.NewRandomTree(k)
	}
	if kind == "empty" {
		var err error
		if p := Panics(func() { err = cls.Fit(subTable(train, nil).Grid) }); p != nil {
			c.Failf("Fit to no rows: panic: %v", p)
		}
		if err == nil {
			c.Failf("Fit to no rows was accepted")
		}
		c.Obs("refusals checked", 1)
		return
	}
	root := trees.InferID3Tree(held(c, train), gen)
	if root.Children == nil {
		c.Trivial()
		return
	}
	var attrs []base.Attribute
	for _, a := range test.Attrs {
		if !a.Equals(root.SplitRule.SplitAttr) {
			attrs = append(attrs, a)
		}
	}
	v := base.NewInstancesViewFromAttrs(test.Grid, attrs)
	var err error
	if p := Panics(func() { _, err = root.Predict(v) }); p != nil {
		c.Failf("Predict without %s: panic: %v", root.SplitRule.SplitAttr.GetName(), p)
	}
	if err == nil {
		c.Failf("Predict without %s was accepted", root.SplitRule.SplitAttr.GetName())
	}
	c.Obs("refusals checked", 1)
}
