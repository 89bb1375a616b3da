package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/trees"
)

func init() {
	register(&Property{
		ID:   "C28",
		Rule: "bagging and one-vs-all over recording stub classifiers (scripted votes, delays and errors) whose logs give the expected consensus, and random forests and multi-class SVCs against their own members, also under the race detector; distinct by models, features, classes, ties and faults",
		W: []Workload{
			{Name: "bagging", Quick: 13500, Thorough: 54000, Fn: c28Bagging},
			{Name: "bootstrap", Quick: 40, Thorough: 800, Fn: c28Bootstrap},
			{Name: "onevsall", Quick: 18000, Thorough: 72000, Fn: c28OneVsAll},
			{Name: "forest", Quick: 2250, Thorough: 9000, Fn: c28Forest},
			{Name: "multisvc", Quick: 3600, Thorough: 14400, Fn: c28MultiSVC},
			{Name: "race", Quick: 40, Thorough: 500, Mode: "race", Procs: 2, Fn: c28Race},
		},
	})
}

// stubModel is a classifier which records what it is given and predicts what
// its script says.
type stubModel struct {
	mu       sync.Mutex
	name     string
	delay    func() time.Duration
	fitErr   error
	predErr  error
	fits     []base.FixedDataGrid
	predicts []base.FixedDataGrid
	script   func(g base.FixedDataGrid) base.FixedDataGrid
}

func (s *stubModel) wait() {
	if s.delay != nil {
		if d := s.delay(); d > 0 {
			time.Sleep(d)
		} else {
			runtime.Gosched()
		}
	}
}

func (s *stubModel) Fit(g base.FixedDataGrid) error {
	s.wait()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.fits = append(s.fits, g)
	return s.fitErr
}

func (s *stubModel) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	s.wait()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.predicts = append(s.predicts, g)
	if s.predErr != nil {
		return nil, s.predErr
	}
	return s.script(g), nil
}
func (s *stubModel) String() string    { return "stub " + s.name }
func (s *stubModel) Save(string) error { return nil }
func (s *stubModel) Load(string) error { return nil }
func (s *stubModel) GetMetadata() base.ClassifierMetadataV1 {
	return base.ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "stub", ClassifierVersion: "1.0"}
}
func (s *stubModel) SaveWithPrefix(*base.ClassifierSerializer, string) error { return nil }
func (s *stubModel) LoadWithPrefix(*base.ClassifierDeserializer, string) error {
	return nil
}

// c28Delays makes a delay function which is safe to call concurrently.
func c28Delays(c *Case) func() time.Duration {
	if c.R.Intn(4) > 0 {
		return func() time.Duration { return 0 }
	}
	r := rand.New(rand.NewSource(c.R.Int63()))
	var mu sync.Mutex
	return func() time.Duration {
		mu.Lock()
		defer mu.Unlock()
		return time.Duration(r.Intn(200)) * time.Microsecond
	}
}

func attrNames(as []base.Attribute) []string {
	var out []string
	for _, a := range as {
		out = append(out, a.String())
	}
	sort.Strings(out)
	return out
}

func c28Bagging(c *Case) {
	r := c.R
	n, m := 2+r.Intn(20), 1+r.Intn(15)
	models := 1 + r.Intn(9)
	if r.Intn(10) == 0 {
		models = 20 + r.Intn(40) // more than there are workers
	}
	o := GenOpts{Floats: 1 + r.Intn(3), Cats: r.Intn(3), Style: VGauss, ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0}
	classes := many(r, 2+r.Intn(4))
	if r.Intn(5) == 0 {
		o.ClassBin, o.ExplicitGroups, classes = true, true, 2
	} else {
		o.ClassCat = classes
	}
	train, test := genPair(c, o, n, m)
	cls := train.ClassIdx()[0]
	feats := len(train.NonClassIdx())
	rf := r.Intn(feats + 3)
	want := rf
	if rf == 0 || rf > feats {
		want = feats
	}
	// votes, with a tendency to ties
	votes := make([][]uint64, models)
	few := 1 + r.Intn(classes)
	for k := range votes {
		votes[k] = make([]uint64, m)
		for i := range votes[k] {
			votes[k][i] = uint64(r.Intn(few))
			if r.Intn(10) == 0 {
				votes[k][i] = uint64(r.Intn(classes))
			}
		}
	}
	label := func(v uint64) string {
		if ca, ok := train.Attrs[cls].(*base.CategoricalAttribute); ok {
			return ca.GetValues()[v]
		}
		return fmt.Sprint(v)
	}
	delay := c28Delays(c)
	b := new(meta.BaggedModel)
	b.RandomFeatures = rf
	var stubs []*stubModel
	for k := 0; k < models; k++ {
		k := k
		s := &stubModel{name: fmt.Sprint(k), delay: delay}
		s.script = func(g base.FixedDataGrid) base.FixedDataGrid {
			p := base.GeneratePredictionVector(g)
			_, rows := p.Size()
			sp, _ := p.GetAttribute(p.AllClassAttributes()[0])
			for i := 0; i < rows; i++ {
				if _, ok := train.Attrs[cls].(*base.CategoricalAttribute); ok {
					p.Set(sp, i, packU(votes[k][i]))
				} else {
					p.Set(sp, i, []byte{byte(votes[k][i])})
				}
			}
			return p
		}
		stubs = append(stubs, s)
		b.AddModel(s)
	}
	c.Desc = fmt.Sprintf("%d models, %d features, votes %v, train %s", models, rf, votes, train.describe(3))
	c.Sig(models, rf, feats, classes, few, m)
	if p, err := b.Predict(test.Grid); err == nil {
		c.Failf("Predict before Fit: no error, %v", p)
	}
	before := snapshot(train.Grid)
	fault := r.Intn(6)
	bad := r.Intn(models)
	if fault == 0 {
		stubs[bad].fitErr = fmt.Errorf("scripted failure %d", bad)
	}
	err := b.Fit(train.Grid)
	unchanged(c, "Fit", train.Grid, before)
	if fault == 0 {
		if err == nil {
			c.Failf("model %d failed to fit and BaggedModel.Fit returned no error", bad)
		}
		c.Obs("faults reported", 1)
		return
	}
	if err != nil {
		c.Failf("Fit: %v", err)
	}
	sel := make([][]string, models)
	rowsOf := c28Keys(train.Grid, train.Attrs)
	for k, s := range stubs {
		if len(s.fits) != 1 {
			c.Failf("model %d was fitted %d times", k, len(s.fits))
		}
		g := s.fits[0]
		sel[k] = attrNames(g.AllAttributes())
		if got := len(base.NonClassAttributes(g)); got != want {
			c.Failf("model %d was fitted to %d attributes (%v), want %d of %d", k, got, sel[k], want, feats)
		}
		if ca := g.AllClassAttributes(); len(ca) != 1 || !ca[0].Equals(train.Attrs[cls]) {
			c.Failf("model %d was fitted with the class attributes %v", k, ca)
		}
		for i := 1; i < len(sel[k]); i++ {
			if sel[k][i] == sel[k][i-1] {
				c.Failf("model %d was given attribute %s twice", k, sel[k][i])
			}
		}
		_, rows := g.Size()
		if rows != n {
			c.Failf("model %d was fitted to %d rows of %d", k, rows, n)
		}
		if want == feats {
			// whole rows, all of them from the data
			known := map[string]bool{}
			for _, x := range rowsOf {
				known[x] = true
			}
			for i, x := range c28Keys(g, train.Attrs) {
				if !known[x] {
					c.Failf("row %d of model %d's training data (%s) isn't in the data", i, k, x)
				}
			}
		}
		c.Obs("training sets checked", 1)
	}
	if fault == 1 {
		stubs[bad].predErr = fmt.Errorf("scripted failure %d", bad)
	}
	tb := snapshot(test.Grid)
	p, err := b.Predict(test.Grid)
	unchanged(c, "Predict", test.Grid, tb)
	if fault == 1 {
		if err == nil {
			c.Failf("model %d failed to predict and BaggedModel.Predict returned no error", bad)
		}
		c.Obs("faults reported", 1)
		return
	}
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	got := predLabels(c, "Predict", p, test)
	for i := range got {
		count := map[string]int{}
		for k := range votes {
			count[label(votes[k][i])]++
		}
		exp, best, tied := "", 0, false
		for v := 0; v < classes; v++ {
			l := label(uint64(v))
			if count[l] == best && best > 0 {
				tied = true
			}
			if count[l] > best || (count[l] == best && best > 0 && l < exp) {
				exp, best = l, count[l]
			}
		}
		if got[i] != exp {
			c.Failf("row %d: consensus %s, the votes were %v (want %s)", i, got[i], count, exp)
		}
		if tied {
			c.Obs("tied rows", 1)
		}
		c.Obs("rows voted on", 1)
	}
	for k, s := range stubs {
		if len(s.predicts) != 1 {
			c.Failf("model %d was asked for predictions %d times", k, len(s.predicts))
		}
		g := s.predicts[0]
		if !equalStrings(attrNames(g.AllAttributes()), sel[k]) {
			c.Failf("model %d was fitted to %v and predicts from %v", k, sel[k], attrNames(g.AllAttributes()))
		}
		for _, a := range g.AllAttributes() {
			j := test.Index(a)
			for i := 0; i < m; i++ {
				if sysToString(a, gridCell(g, a, i)) != test.S(i, j) {
					c.Failf("model %d sees %s = %s in row %d, it is %s", k, a.GetName(), sysToString(a, gridCell(g, a, i)), i, test.S(i, j))
				}
			}
		}
	}
	// data without an attribute which was selected
	if want == feats {
		drop := train.NonClassIdx()[r.Intn(feats)]
		var keep []base.Attribute
		for j, a := range test.Attrs {
			if j != drop {
				keep = append(keep, a)
			}
		}
		if _, err := b.Predict(base.NewInstancesViewFromAttrs(test.Grid, keep)); err == nil {
			c.Failf("Predict without attribute %s returned no error", test.Attrs[drop].GetName())
		}
	}
}

func equalStrings(a, b []string) bool { return len(a) == len(b) && sameStrings(a, b) < 0 }

// c28Keys lists the rows of a grid as strings, attributes in the given order.
func c28Keys(g base.FixedDataGrid, attrs []base.Attribute) []string {
	_, rows := g.Size()
	out := make([]string, rows)
	for i := range out {
		for _, a := range attrs {
			out[i] += sysToString(a, gridCell(g, a, i)) + "|"
		}
	}
	return out
}

// c28Bootstrap: every row and every feature has its chance in each model.
func c28Bootstrap(c *Case) {
	r := c.R
	n, feats := 5+r.Intn(25), 2+r.Intn(6)
	models := 40 * feats
	if r.Intn(4) == 0 { // large training sets need fewer models
		n = []int{127, 129, 255, 257, 513, 1025, 2049, 4097, 5000}[r.Intn(9)]
		models = 24 * feats
	}
	t := genTable(r, GenOpts{Rows: n, Floats: feats, ClassCat: 2, Style: VGauss, FloatVal: func(row, col int) float64 { return float64(row) }})
	rf := r.Intn(feats)
	b := new(meta.BaggedModel)
	b.RandomFeatures = rf
	var stubs []*stubModel
	for k := 0; k < models; k++ {
		s := &stubModel{}
		stubs = append(stubs, s)
		b.AddModel(s)
	}
	c.Desc = fmt.Sprintf("%d rows, %d models, %d of %d features", n, models, rf, feats)
	c.Sig(n, feats, rf)
	if err := b.Fit(t.Grid); err != nil {
		c.Failf("Fit: %v", err)
	}
	rowSeen := make([]int, n)
	attrSeen := map[string]int{}
	distinct := 0.0
	for _, s := range stubs {
		g := s.fits[0]
		if _, rows := g.Size(); rows != n {
			c.Failf("a member was given %d rows, of %d", rows, n)
		}
		nc := base.NonClassAttributes(g)
		seen := map[int]bool{}
		for i := 0; i < n; i++ {
			id := int(unpackF(gridCell(g, nc[0], i)))
			for _, a := range nc {
				if int(unpackF(gridCell(g, a, i))) != id {
					c.Failf("a sampled row mixes rows %d and %v", id, unpackF(gridCell(g, a, i)))
				}
			}
			rowSeen[id]++
			seen[id] = true
		}
		distinct += float64(len(seen)) / float64(n)
		for _, a := range nc {
			attrSeen[a.String()]++
		}
	}
	distinct /= float64(models)
	exp := 1 - math.Pow(1-1/float64(n), float64(n))
	if math.Abs(distinct-exp) > 0.08 {
		c.Failf("on average %.3f of the rows are in a training set, sampling with replacement has %.3f", distinct, exp)
	}
	for i, k := range rowSeen {
		if k == 0 || float64(k) > 3.5*float64(models) {
			c.Failf("row %d was sampled %d times by %d models", i, k, models)
		}
	}
	if rf > 0 {
		for _, j := range t.NonClassIdx() {
			if attrSeen[t.Attrs[j].String()] == 0 {
				c.Failf("attribute %s was never chosen by %d models with %d of %d features", t.Attrs[j].GetName(), models, rf, feats)
			}
		}
	}
	c.Obs("bootstrap rows", n*models)
}

func c28OneVsAll(c *Case) {
	r := c.R
	n, m := 1+r.Intn(20), 1+r.Intn(15)
	classes := many(r, 2+r.Intn(5))
	o := GenOpts{Floats: 1 + r.Intn(3), Cats: r.Intn(3), Bins: r.Intn(2), ClassCat: classes, Style: VGauss, ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0}
	o.UniqueNames = true               // the class becomes a float of the same name
	seenClasses := 1 + r.Intn(classes) // some may not occur
	o.ClassVal = func(int, [][]byte) int { return r.Intn(seenClasses) }
	train, test := genPair(c, o, n, m)
	cls := train.ClassIdx()[0]
	ca := train.Attrs[cls].(*base.CategoricalAttribute)
	conf := make([][]float64, classes)
	for k := range conf {
		conf[k] = make([]float64, m)
	}
	for i := 0; i < m; i++ {
		hard := r.Intn(2) == 0 // one says yes, all the others no
		yes := r.Intn(classes)
		for k := range conf {
			if hard {
				if k == yes {
					conf[k][i] = 1
				}
			} else {
				conf[k][i] = r.Float64()
			}
		}
	}
	fault := r.Intn(6)
	bad := r.Intn(classes)
	made := map[string]*stubModel{}
	order := 0
	model := meta.NewOneVsAllModel(func(name string) base.Classifier {
		k := -1
		for q, v := range ca.GetValues() {
			if v == name {
				k = q
			}
		}
		if k < 0 {
			c.Failf("a classifier was requested for %q", name)
		}
		if _, ok := made[name]; ok {
			c.Failf("two classifiers were requested for %q", name)
		}
		s := &stubModel{name: name}
		if k == bad && fault == 0 {
			s.fitErr = fmt.Errorf("scripted failure")
		}
		if k == bad && fault == 1 {
			s.predErr = fmt.Errorf("scripted failure")
		}
		s.script = func(g base.FixedDataGrid) base.FixedDataGrid {
			p := base.GeneratePredictionVector(g)
			sp, _ := p.GetAttribute(p.AllClassAttributes()[0])
			for i := 0; i < m; i++ {
				p.Set(sp, i, packF(conf[k][i]))
			}
			return p
		}
		made[name] = s
		order++
		return s
	})
	c.Desc = fmt.Sprintf("%d classes (%d seen), confidences %v, fault %d at %d, %s", classes, seenClasses, conf, fault, bad, train.describe(4))
	c.Sig(classes, seenClasses, fault, len(train.Attrs), n)
	if _, err := model.Predict(test.Grid); err == nil {
		c.Failf("Predict before Fit returned no error")
	}
	before := snapshot(train.Grid)
	err := model.Fit(held(c, train))
	unchanged(c, "Fit", train.Grid, before)
	if fault == 0 {
		if err == nil {
			c.Failf("the classifier for %s failed and Fit returned no error", ca.GetValues()[bad])
		}
		c.Obs("faults reported", 1)
		return
	}
	if err != nil {
		c.Failf("Fit: %v", err)
	}
	check := func(what string, g base.FixedDataGrid, t *Table, name string) {
		_, rows := g.Size()
		if rows != t.Rows() {
			c.Failf("%s: classifier %s got %d rows of %d", what, name, rows, t.Rows())
		}
		plain := func(as []base.Attribute) []string {
			var out []string
			for _, a := range as {
				out = append(out, a.GetName())
			}
			sort.Strings(out)
			return out
		}
		if !equalStrings(plain(g.AllAttributes()), plain(t.Attrs)) {
			c.Failf("%s: classifier %s got the attributes %v of %v", what, name, attrNames(g.AllAttributes()), attrNames(t.Attrs))
		}
		gc := g.AllClassAttributes()
		if len(gc) != 1 || gc[0].GetName() != ca.GetName() || gc[0].GetType() != base.Float64Type {
			c.Failf("%s: classifier %s got the class attributes %v", what, name, gc)
		}
		for _, a := range g.AllAttributes() {
			j := -1
			for q, x := range t.Attrs {
				if x.GetName() == a.GetName() {
					j = q
				}
			}
			for i := 0; i < rows; i++ {
				got := gridCell(g, a, i)
				if j == cls {
					w := 0.0
					if t.S(i, cls) == name {
						w = 1
					}
					if unpackF(got) != w {
						c.Failf("%s: the class of row %d (%s) is %v for classifier %s", what, i, t.S(i, cls), unpackF(got), name)
					}
				} else if sysToString(a, got) != t.S(i, j) {
					c.Failf("%s: classifier %s sees %s = %s in row %d, it is %s", what, name, a.GetName(), sysToString(a, got), i, t.S(i, j))
				}
			}
		}
		c.Obs("binary problems checked", 1)
	}
	for _, v := range ca.GetValues() {
		s := made[v]
		if s == nil || len(s.fits) != 1 {
			c.Failf("the classifier for %s was not fitted exactly once", v)
		}
		check("Fit", s.fits[0], train, v)
	}
	tb := snapshot(test.Grid)
	p, err := model.Predict(test.Grid)
	unchanged(c, "Predict", test.Grid, tb)
	if fault == 1 {
		if err == nil {
			c.Failf("the classifier for %s failed and Predict returned no error", ca.GetValues()[bad])
		}
		c.Obs("faults reported", 1)
		return
	}
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	got := predLabels(c, "Predict", p, test)
	for i := range got {
		best := 0
		for k := range conf {
			if conf[k][i] > conf[best][i] {
				best = k
			}
		}
		if got[i] != ca.GetValues()[best] {
			c.Failf("row %d is predicted %s; the confidences are %v of %v", i, got[i], confAt(conf, i), ca.GetValues())
		}
		c.Obs("rows decided", 1)
	}
	for _, v := range ca.GetValues() {
		if len(made[v].predicts) != 1 {
			c.Failf("the classifier for %s predicted %d times", v, len(made[v].predicts))
		}
		check("Predict", made[v].predicts[0], test, v)
	}
}

func confAt(conf [][]float64, i int) []float64 {
	var out []float64
	for k := range conf {
		out = append(out, conf[k][i])
	}
	return out
}

// c28Cats is categorical data whose class is a function of some attributes.
func c28Cats(c *Case, n, m int) (*Table, *Table, int) {
	r := c.R
	classes := 2 + r.Intn(3)
	o := GenOpts{Cats: 2 + r.Intn(4), CatVals: classes, ClassCat: classes, ShuffleAttrOrder: true}
	o.Rows = n + m
	t := genTable(r, o)
	cls := t.ClassIdx()[0]
	f := t.NonClassIdx()
	for i := range t.Cells {
		k := uint64(r.Intn(classes))
		for _, j := range f {
			// every attribute knows the class, most of the time
			v := k
			if r.Intn(6) == 0 {
				v = uint64(r.Intn(classes))
			}
			t.Cells[i][j] = packU(v)
		}
		t.Cells[i][cls] = packU(k)
		for j := range t.Attrs {
			t.Grid.Set(t.Specs[j], i, t.Cells[i][j])
		}
	}
	idx := allIdx(n + m)
	return subTable(t, idx[:n]), subTable(t, idx[n:]), classes
}

func c28Forest(c *Case) {
	r := c.R
	n, m := 40+r.Intn(60), 10+r.Intn(20)
	train, test, classes := c28Cats(c, n, m)
	feats := len(train.NonClassIdx())
	size, k := 5+r.Intn(20), 1+r.Intn(feats)
	c.Desc = fmt.Sprintf("%d trees of %d features: %s", size, k, train.describe(5))
	c.Sig(size, k, feats, classes)
	rf := ensemble.NewRandomForest(size, k)
	if _, err := rf.Predict(test.Grid); err == nil {
		c.Failf("Predict before Fit returned no error")
	}
	if err := ensemble.NewRandomForest(size, feats+1+r.Intn(3)).Fit(train.Grid); err == nil {
		c.Failf("Fit with more features than there are returned no error")
	}
	if err := rf.Fit(subTable(train, nil).Grid); err == nil {
		c.Failf("Fit without rows returned no error")
	}
	before := snapshot(train.Grid)
	if err := rf.Fit(train.Grid); err != nil {
		c.Failf("Fit: %v", err)
	}
	unchanged(c, "Fit", train.Grid, before)
	if len(rf.Model.Models) != size {
		c.Failf("the forest has %d trees, want %d", len(rf.Model.Models), size)
	}
	tb := snapshot(test.Grid)
	p, err := rf.Predict(test.Grid)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	unchanged(c, "Predict", test.Grid, tb)
	got := predLabels(c, "Predict", p, test)
	// each tree by itself
	votes := make([]map[string]int, m)
	for i := range votes {
		votes[i] = map[string]int{}
	}
	for q, tr := range rf.Model.Models {
		tp, err := tr.Predict(test.Grid)
		if err != nil {
			c.Failf("tree %d: %v", q, err)
		}
		for i, l := range predLabels(c, "tree", tp, test) {
			votes[i][l]++
		}
	}
	ok := 0
	cls := test.ClassIdx()[0]
	for i, l := range got {
		for o, v := range votes[i] {
			if v > votes[i][l] || (v == votes[i][l] && o < l) {
				c.Failf("row %d: the forest says %s, its trees %v", i, l, votes[i])
			}
		}
		if l == test.S(i, cls) {
			ok++
		}
		c.Obs("rows voted on", 1)
	}
	if k == feats && ok*2 < m {
		c.Failf("the forest classifies %d of %d rows rightly", ok, m)
	}
	p2, err := rf.Predict(test.Grid)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	if q := sameStrings(got, predLabels(c, "Predict again", p2, test)); q >= 0 {
		c.Failf("row %d isn't predicted the same the second time", q)
	}
}

func c28MultiSVC(c *Case) {
	r := c.R
	classes := 2 + r.Intn(4)
	dim := classes + r.Intn(2)
	per, m := 8+r.Intn(10), 10+r.Intn(20)
	// classes which overlap and have very different weights: then the weights
	// decide; the solver of the primal problem always gets there
	overlap := r.Intn(3) == 0
	if overlap {
		m += 30
	}
	n := classes * per
	o := GenOpts{Rows: n + m, Floats: dim, ClassCat: classes, ShuffleAttrOrder: true}
	t := genTable(r, o)
	cls := t.ClassIdx()[0]
	ca := t.Attrs[cls].(*base.CategoricalAttribute)
	for i := range t.Cells {
		k := r.Intn(classes)
		if i < classes {
			k = i
		}
		q := 0
		for _, j := range t.NonClassIdx() {
			v := r.NormFloat64() * 0.3
			if overlap {
				v *= 3
			}
			if q == k {
				v += 4 // the SVC has no intercept
				if overlap {
					v -= 2.5
				}
			}
			q++
			t.Cells[i][j] = packF(v)
		}
		t.Cells[i][cls] = packU(uint64(k))
		for j := range t.Attrs {
			t.Grid.Set(t.Specs[j], i, t.Cells[i][j])
		}
	}
	idx := allIdx(n + m)
	train, test := subTable(t, idx[:n]), subTable(t, idx[n:])
	var weights map[string]float64
	if r.Intn(3) == 0 {
		weights = map[string]float64{}
		for _, v := range ca.GetValues() {
			weights[v] = 0.5 + r.Float64()
		}
	}
	loss, dual := []string{"l1", "l2"}[r.Intn(2)], true
	if overlap {
		loss, dual = "l2", false
		weights = map[string]float64{}
		for _, v := range ca.GetValues() {
			weights[v] = math.Pow(10, 2*r.Float64()-1)
		}
	}
	cc := 0.5 + 2*r.Float64()
	c.Desc = fmt.Sprintf("loss %s, C %v, weights %v: %s", loss, cc, weights, train.describe(4))
	c.Sig(classes, dim, loss, weights != nil, overlap)
	svc := ensemble.NewMultiLinearSVC(loss, "l2", dual, cc, 1e-4, weights)
	before := snapshot(train.Grid)
	if err := svc.Fit(train.Grid); err != nil {
		c.Failf("Fit: %v", err)
	}
	unchanged(c, "Fit", train.Grid, before)
	tb := snapshot(test.Grid)
	p, err := svc.Predict(test.Grid)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	unchanged(c, "Predict", test.Grid, tb)
	got := predLabels(c, "Predict", p, test)
	// the binary problems, built and solved one by one
	yes := make([][]string, m)
	for k, v := range ca.GetValues() {
		params := &linear_models.LinearSVCParams{C: cc, Eps: 1e-4, Dual: dual}
		if err := params.SetKindFromStrings(loss, "l2"); err != nil {
			c.Failf("SetKindFromStrings: %v", err)
		}
		if weights != nil {
			wv := make([]float64, 2)
			for name, w := range weights {
				if name == v {
					wv[1] = w
				} else {
					wv[0] += w
				}
			}
			params.ClassWeights = wv
		}
		one, err := linear_models.NewLinearSVCFromParams(params)
		if err != nil {
			c.Failf("NewLinearSVCFromParams: %v", err)
		}
		mk := func(t *Table) *Table {
			b := &Table{Grid: base.NewDenseInstances()}
			for j, a := range t.Attrs {
				if j == cls {
					a = base.NewFloatAttribute(a.GetName())
				}
				b.Attrs = append(b.Attrs, a)
				b.Class = append(b.Class, j == cls)
				b.Specs = append(b.Specs, b.Grid.AddAttribute(a))
			}
			b.Grid.AddClassAttribute(b.Attrs[cls])
			b.Grid.Extend(t.Rows())
			for i := range t.Cells {
				row := append([][]byte(nil), t.Cells[i]...)
				row[cls] = packF(0)
				if unpackU(t.Cells[i][cls]) == uint64(k) {
					row[cls] = packF(1)
				}
				for j := range row {
					b.Grid.Set(b.Specs[j], i, row[j])
				}
				b.Cells = append(b.Cells, row)
			}
			return b
		}
		if err := one.Fit(mk(train).Grid); err != nil {
			c.Failf("LinearSVC: %v", err)
		}
		bt := mk(test)
		bp, err := one.Predict(bt.Grid)
		if err != nil {
			c.Failf("LinearSVC: %v", err)
		}
		for i, f := range predFloats(c, "binary problem", bp, bt) {
			if f > 0 {
				yes[i] = append(yes[i], v)
			}
		}
	}
	ok, odd := 0, 0
	for i, l := range got {
		if len(yes[i]) == 1 {
			if l != yes[i][0] {
				// where classes overlap a row may lie on the border up to the
				// solver's precision
				if odd++; !overlap || odd > 1+m/25 {
					c.Failf("row %d: only the SVC for %s says yes, predicted %s", i, yes[i][0], l)
				}
			}
			c.Obs("rows decided by one SVC", 1)
		}
		if l == test.S(i, cls) {
			ok++
		}
	}
	if !overlap && float64(ok) < 0.8*float64(m) {
		c.Failf("%d of %d rows of well separated data are classified rightly", ok, m)
	}
	c.Obs("rows classified", m)
}

// c28Race trains and uses ensembles from several goroutines at once.
func c28Race(c *Case) {
	r := c.R
	train, test, classes := c28Cats(c, 30+r.Intn(30), 10+r.Intn(10))
	kind := r.Intn(4)
	c.Desc = fmt.Sprintf("kind %d: %s", kind, train.describe(3))
	c.Sig(kind, classes, len(train.Attrs), c.Idx%20)
	var fit, use base.FixedDataGrid = train.Grid, test.Grid
	if kind == 1 {
		// floats which are discretised on the way, as in the examples
		ft, _ := genPair(c, GenOpts{Floats: 3, ClassCat: 2, Style: VGauss}, 40, 1)
		f := filters.NewBinningFilter(ft.Grid, 4)
		for _, a := range base.NonClassFloatAttributes(ft.Grid) {
			f.AddAttribute(a)
		}
		f.Train()
		g := base.NewLazilyFilteredInstances(ft.Grid, f)
		fit, use = g, g
		test = ft
	}
	if kind == 2 {
		_, rows := use.Size()
		use = base.NewInstancesViewFromVisible(use, r.Perm(rows), use.AllAttributes())
	}
	b := new(meta.BaggedModel)
	b.RandomFeatures = 1 + r.Intn(2)
	for i := 0; i < 8; i++ {
		if r.Intn(2) == 0 {
			b.AddModel(trees.NewRandomTree(2))
		} else {
			b.AddModel(trees.NewID3DecisionTree(0))
		}
	}
	if err := b.Fit(fit); err != nil {
		c.Failf("Fit: %v", err)
	}
	p, err := b.Predict(use)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	want := snapshotLabels(p)
	var wg sync.WaitGroup
	errs := make(chan string, 16)
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p, err := b.Predict(use)
			if err != nil {
				errs <- err.Error()
				return
			}
			if got := snapshotLabels(p); sameStrings(got, want) >= 0 {
				errs <- "a concurrent prediction differs from the one before"
			}
		}()
	}
	wg.Wait()
	close(errs)
	for e := range errs {
		c.Failf("%s", e)
	}
	c.Obs("concurrent predictions", 4)
	rf := ensemble.NewRandomForest(6, 1)
	if err := rf.Fit(fit); err != nil {
		c.Failf("Fit: %v", err)
	}
	if _, err := rf.Predict(use); err != nil {
		c.Failf("Predict: %v", err)
	}
	c.Obs("forests under the race detector", 1)
}

func snapshotLabels(p base.FixedDataGrid) []string {
	_, rows := p.Size()
	out := make([]string, rows)
	for i := range out {
		out[i] = base.GetClass(p, i)
	}
	return out
}
