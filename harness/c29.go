package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/naive"
	"github.com/sjwhitworth/golearn/trees"
)

func init() {
	register(&Property{
		ID:   "C29",
		Rule: "every saveable model (trees, forests, bags, kNN, naive Bayes, linear SVCs, one-vs-all, nested ensembles) fitted to random data, saved, loaded into fresh and into fitted models, saved again and embedded with prefixes next to others; predictions of every copy compared on test grids and on rebuilt grids with copies of the attributes; damaged, missing and foreign files and full devices; distinct by model, data shape and parameters",
		W: []Workload{
			{Name: "roundtrip", Quick: 1800, Thorough: 20000, Fn: c29Round},
			{Name: "embedded", Quick: 600, Thorough: 6000, Fn: c29Embedded},
			{Name: "damaged", Quick: 1400, Thorough: 20000, Fn: c29Damaged},
			{Name: "misuse", Quick: 120, Thorough: 2000, Fn: c29Misuse},
		},
	})
}

// saveable is what all models have in common.
type saveable interface {
	Predict(base.FixedDataGrid) (base.FixedDataGrid, error)
	Save(string) error
	Load(string) error
	SaveWithPrefix(*base.ClassifierSerializer, string) error
	LoadWithPrefix(*base.ClassifierDeserializer, string) error
}

// savedModel is a kind of model with parameters drawn.
type savedModel struct {
	name   string
	data   func() (train, test *Table)
	fresh  func() saveable // with the same parameters
	other  func() saveable // with other parameters, where Load is to restore them
	fit    func(m saveable, t *Table) (saveable, error)
	steady bool // fitting is not random
}

type bareTree struct{ *trees.DecisionTreeNode }

func c29Model(c *Case) *savedModel {
	r := c.R
	m := &savedModel{}
	fit := func(x saveable, t *Table) (saveable, error) {
		return x, x.(interface {
			Fit(base.FixedDataGrid) error
		}).Fit(t.Grid)
	}
	m.fit = fit
	n, k := 20+r.Intn(40), 5+r.Intn(20)
	mixed := func(o GenOpts) func() (*Table, *Table) {
		return func() (*Table, *Table) {
			o.Floats, o.Cats, o.ClassCat = r.Intn(4), r.Intn(3), many(r, 2+r.Intn(3))
			if o.Floats+o.Cats == 0 {
				o.Floats = 1
			}
			o.ShuffleAttrOrder = true
			o.ExplicitGroups = r.Intn(2) == 0
			if r.Intn(3) == 0 {
				style := []ValueStyle{VNear, VTiny, VWide}[r.Intn(3)]
				o.FloatVal = func(int, int) float64 { return genFloat(r, style) }
			}
			return genPair(c, o, n, k)
		}
	}
	plain := false // no scale is too large
	floats := func(cat bool) func() (*Table, *Table) {
		return func() (*Table, *Table) {
			o := GenOpts{Floats: 1 + r.Intn(5), Cats: r.Intn(2), ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0}
			scale := []float64{1, 1, 1e-6, 1e9}[r.Intn(4)]
			o.FloatVal = func(int, int) float64 { return r.NormFloat64() * scale }
			near := r.Intn(4) == 0
			if near && plain && c.Prop == "C29" { // rounding decides between neighbours
				o.FloatVal = func(int, int) float64 { return genFloat(r, VNear) }
			}
			if cat {
				o.ClassCat = many(r, 2+r.Intn(4))
				o.UniqueNames = true // the class may become a float of the same name
			} else {
				o.ClassFloat = true
			}
			train, test := genPair(c, o, n, k)
			if !cat {
				cls := train.ClassIdx()[0]
				for _, t := range []*Table{train, test} {
					for i := range t.Cells {
						t.Cells[i][cls] = packF(float64((i + r.Intn(2)) % 2))
						t.Grid.Set(t.Specs[cls], i, t.Cells[i][cls])
					}
				}
			}
			return train, test
		}
	}
	binary := func() (*Table, *Table) {
		o := GenOpts{Bins: 1 + r.Intn(12), ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0, ClassCat: many(r, 1+r.Intn(4))}
		if r.Intn(4) == 0 {
			o.ClassCat, o.ClassBin, o.ExplicitGroups = 0, true, true
		}
		return genPair(c, o, n, k)
	}
	svcParams := func() *linear_models.LinearSVCParams {
		p := &linear_models.LinearSVCParams{C: 0.1 + r.Float64(), Eps: 1e-3, Dual: true}
		loss := []string{"l1", "l2"}[r.Intn(2)]
		if loss == "l2" && r.Intn(2) == 0 {
			p.Dual = false
		}
		if err := p.SetKindFromStrings(loss, "l2"); err != nil {
			c.Failf("SetKindFromStrings: %v", err)
		}
		return p
	}
	newSVC := func(p linear_models.LinearSVCParams) *linear_models.LinearSVC {
		s, err := linear_models.NewLinearSVCFromParams(&p)
		if err != nil {
			c.Failf("NewLinearSVCFromParams: %v", err)
		}
		return s
	}
	bag := func(name string, data func() (*Table, *Table), members func() base.Classifier, features int) {
		size := 1 + r.Intn(6)
		m.name = fmt.Sprintf("bag of %d %s, %d features", size, name, features)
		m.data = data
		mk := func(features int) saveable {
			b := new(meta.BaggedModel)
			b.RandomFeatures = features
			for i := 0; i < size; i++ {
				b.AddModel(members())
			}
			return b
		}
		m.fresh = func() saveable { return mk(features) }
		m.other = func() saveable { return mk(1) }
	}
	switch kind := r.Intn(13); kind {
	case 0: // bare tree
		m.name = "tree"
		m.data = mixed(GenOpts{})
		m.fresh = func() saveable { return &bareTree{&trees.DecisionTreeNode{}} }
		m.other = m.fresh
		m.fit = func(x saveable, t *Table) (saveable, error) {
			return &bareTree{trees.InferID3Tree(t.Grid, new(trees.InformationGainRuleGenerator))}, nil
		}
	case 1:
		prune := []float64{0, 0.3, 0.6}[r.Intn(3)]
		rule := []trees.RuleGenerator{new(trees.InformationGainRuleGenerator), new(trees.GiniCoefficientRuleGenerator), new(trees.InformationGainRatioRuleGenerator)}[r.Intn(3)]
		m.name = fmt.Sprintf("ID3 %T pruned %v", rule, prune)
		m.data = mixed(GenOpts{})
		if _, ok := rule.(*trees.InformationGainRuleGenerator); !ok {
			classes := 2 + r.Intn(3)
			m.data = func() (*Table, *Table) { // these take no numbers
				return genPair(c, GenOpts{Cats: 1 + r.Intn(4), CatVals: 2 + r.Intn(3), ClassCat: classes, ShuffleAttrOrder: true}, n, k)
			}
		}
		m.fresh = func() saveable { return trees.NewID3DecisionTreeFromRule(prune, rule) }
		m.other = func() saveable { return trees.NewID3DecisionTree(0) }
	case 2:
		f := 1 + r.Intn(3)
		m.name = "random tree"
		m.data = mixed(GenOpts{})
		m.fresh = func() saveable { return trees.NewRandomTree(f) }
		m.other = func() saveable { return trees.NewRandomTree(1) }
	case 3, 4:
		dist := []string{"euclidean", "manhattan", "cosine"}[r.Intn(3)]
		alg := "linear"
		if dist != "cosine" {
			alg = []string{"linear", "kdtree"}[r.Intn(2)]
		}
		nn := 1 + r.Intn(6)
		weighted, opt := r.Intn(2) == 0, r.Intn(2) == 0
		mk := func() *knn.KNNClassifier {
			x := knn.NewKnnClassifier(dist, alg, nn)
			x.Weighted, x.AllowOptimisations = weighted, opt
			return x
		}
		if kind == 4 {
			bag("kNN "+dist+alg, floats(true), func() base.Classifier { return mk() }, 0)
			break
		}
		plain, m.steady = true, true
		m.name = fmt.Sprintf("%d-NN %s %s weighted %v opt %v", nn, dist, alg, weighted, opt)
		m.data = floats(true)
		m.fresh = func() saveable { return mk() }
		m.other = func() saveable { return &knn.KNNClassifier{} }
	case 5:
		m.name, m.steady = "naive Bayes", true
		m.data = binary
		m.fresh = func() saveable { return naive.NewBernoulliNBClassifier() }
		m.other = m.fresh
	case 6:
		p := svcParams()
		m.name, m.steady = fmt.Sprintf("SVC %+v", *p), !p.Dual
		m.data = floats(false)
		m.fresh = func() saveable { return newSVC(*p) }
		q := svcParams()
		m.other = func() saveable { return newSVC(*q) }
	case 7:
		p := svcParams()
		m.name, m.steady = fmt.Sprintf("one-vs-all SVC %+v", *p), !p.Dual
		m.data = floats(true)
		m.fresh = func() saveable {
			return meta.NewOneVsAllModel(func(string) base.Classifier { return newSVC(*p) })
		}
		m.other = m.fresh
	case 8:
		loss, cc := []string{"l1", "l2"}[r.Intn(2)], 0.1+r.Float64()
		var weights map[string]float64
		if r.Intn(2) == 0 {
			weights = map[string]float64{}
			for _, v := range catWords {
				weights[v] = math.Pow(10, 4*r.Float64()-2)
			}
		}
		dual := loss == "l1" || r.Intn(3) == 0
		m.name, m.steady = fmt.Sprintf("multi SVC %s %v weights %v dual %v", loss, cc, weights, dual), !dual
		m.data = floats(true)
		m.fresh = func() saveable { return ensemble.NewMultiLinearSVC(loss, "l2", dual, cc, 1e-3, weights) }
		m.other = func() saveable { return ensemble.NewMultiLinearSVC("l2", "l2", true, 7, 1e-2, nil) }
	case 9:
		size := 1 + r.Intn(15)
		m.name = fmt.Sprintf("forest of %d", size)
		m.data = func() (*Table, *Table) {
			classes := 2 + r.Intn(3)
			return genPair(c, GenOpts{Cats: 1 + r.Intn(4), CatVals: classes, ClassCat: classes, ShuffleAttrOrder: true}, n, k)
		}
		m.fresh = func() saveable { return ensemble.NewRandomForest(size, 1) }
		m.other = func() saveable { return ensemble.NewRandomForest(1+r.Intn(20), 1) }
	case 10:
		bag("ID3", mixed(GenOpts{}), func() base.Classifier { return trees.NewID3DecisionTree(0) }, r.Intn(3))
	case 11:
		bag("naive Bayes", binary, func() base.Classifier { return naive.NewBernoulliNBClassifier() }, 0)
	case 12:
		p := svcParams()
		bag("SVC", floats(false), func() base.Classifier { return newSVC(*p) }, r.Intn(2))
	}
	return m
}

// c29Predict predicts and returns labels, or the fact that it was refused.
func c29Predict(c *Case, what string, m saveable, t *Table) []string {
	p, err := m.Predict(t.Grid)
	if err != nil {
		return []string{"error"}
	}
	return predLabels(c, what, p, t)
}

func c29Same(c *Case, what string, m saveable, tests []*Table, want [][]string) {
	for q, t := range tests {
		got := c29Predict(c, what, m, t)
		if i := sameStrings(got, want[q]); i >= 0 {
			if len(got) != len(want[q]) || got[0] == "error" {
				_, err := m.Predict(t.Grid)
				c.Failf("%s: test grid %d: %d predictions (error: %v), the saved model made %d", what, q, len(got), err, len(want[q]))
			}
			c.Failf("%s: test grid %d, row %d: predicts %q, the saved model %q", what, q, i, got[i], want[q][i])
		}
	}
	c.Obs("copies compared", len(tests))
}

// c29Fit draws data and fits a model which can predict.
func c29Fit(c *Case, sm *savedModel) (saveable, *Table, []*Table, [][]string) {
	train, test := sm.data()
	c.Desc = sm.name + ": " + train.describe(3)
	c.Sig(sm.name, len(train.Attrs), train.Rows(), test.Rows())
	m, err := sm.fit(sm.fresh(), train)
	if err != nil {
		c.Failf("Fit: %v", err)
	}
	order := c.R.Perm(len(test.Attrs))
	tests := []*Table{test, rebuild(c, test, allIdx(len(test.Attrs)), false), rebuild(c, test, order, c.R.Intn(2) == 0), train}
	var want [][]string
	for _, t := range tests {
		w := c29Predict(c, "the model", m, t)
		want = append(want, w)
		// a model which is not deterministic itself cannot be compared
		if i := sameStrings(w, c29Predict(c, "the model", m, t)); i >= 0 {
			c.Failf("the model predicts row %d differently the second time", i)
		}
	}
	if want[0][0] == "error" {
		_, err := m.Predict(test.Grid)
		c.Failf("Predict: %v", err)
	}
	return m, train, tests, want
}

func c29Round(c *Case) {
	r := c.R
	sm := c29Model(c)
	m, train, tests, want := c29Fit(c, sm)
	bt, bs := snapshot(train.Grid), snapshot(tests[0].Grid)
	path := filepath.Join(c.Dir(), "model")
	if r.Intn(3) == 0 {
		ioutil.WriteFile(path, bytes.Repeat([]byte("old contents"), r.Intn(3000)), 0644)
	}
	n0 := openFiles()
	if err := m.Save(path); err != nil {
		c.Failf("Save: %v", err)
	}
	c29Same(c, "the model after Save", m, tests, want)
	fresh := sm.fresh()
	if err := fresh.Load(path); err != nil {
		c.Failf("Load: %v", err)
	}
	c29Same(c, "a fresh model after Load", fresh, tests, want)
	// over another model
	over, err := sm.fit(sm.other(), c29Other(c, sm))
	if err != nil {
		c.Failf("Fit: %v", err)
	}
	if _, isBag := over.(*meta.BaggedModel); !isBag && r.Intn(4) == 0 {
		over = sm.other()
	}
	if err := over.Load(path); err != nil {
		c.Failf("Load over another model: %v", err)
	}
	c29Same(c, "another model after Load", over, tests, want)
	// again
	path2 := filepath.Join(c.Dir(), "again")
	if f, ok := m.(*ensemble.RandomForest); ok {
		for _, x := range []saveable{fresh, over} {
			if g := x.(*ensemble.RandomForest); g.ForestSize != f.ForestSize || g.Features != f.Features {
				c.Failf("the forest has %d trees of %d features, the saved one %d of %d", g.ForestSize, g.Features, f.ForestSize, f.Features)
			}
		}
	}
	if err := []saveable{fresh, over}[r.Intn(2)].Save(path2); err != nil {
		c.Failf("Save of the loaded model: %v", err)
	}
	again := sm.fresh()
	if err := again.Load(path2); err != nil {
		c.Failf("Load of the model saved again: %v", err)
	}
	c29Same(c, "the model loaded from a loaded one's file", again, tests, want)
	c29Same(c, "the first copy at the end", fresh, tests, want)
	if sm.steady { // what is loaded learns as the original would
		learn := func(what string, m saveable) [][]string {
			if m, err = sm.fit(m, tests[0]); err != nil {
				c.Failf("Fit of %s: %v", what, err)
			}
			return [][]string{c29Predict(c, what, m, tests[0]), c29Predict(c, what, m, train)}
		}
		two := []*Table{tests[0], train}
		w := learn("the original", m)
		for i, x := range []saveable{fresh, over, again} {
			what := []string{"the loaded model", "the model loaded over another", "the model loaded twice"}[i] + ", fitted again"
			x, err = sm.fit(x, tests[0])
			if err != nil {
				c.Failf("%s: %v", what, err)
			}
			c29Same(c, what, x, two, w)
			c.Obs("loaded models fitted again", 1)
		}
	}
	unchanged(c, "saving and loading", train.Grid, bt)
	unchanged(c, "saving and loading", tests[0].Grid, bs)
	if n := openFiles(); n > n0 {
		c.Failf("%d files left open", n-n0)
	}
	c.Obs("round trips", 3)
}

// c29Other draws training data for a model which is loaded over.
func c29Other(c *Case, sm *savedModel) *Table {
	t, _ := sm.data()
	return t
}

func c29Embedded(c *Case) {
	r := c.R
	type part struct {
		sm     *savedModel
		m      saveable
		tests  []*Table
		want   [][]string
		prefix string
	}
	var parts []part
	path := filepath.Join(c.Dir(), "model")
	w, err := base.CreateSerializedClassifierStub(path, base.ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "several", ClassifierVersion: "1.0"})
	if err != nil {
		c.Failf("CreateSerializedClassifierStub: %v", err)
	}
	n := 1 + r.Intn(3)
	var names []string
	for i := 0; i < n; i++ {
		p := part{sm: c29Model(c), prefix: []string{"m%d", "models/%d", "m%d/", "deep/er/%d/"}[r.Intn(4)]}
		p.prefix = fmt.Sprintf(p.prefix, i)
		p.m, _, p.tests, p.want = c29Fit(c, p.sm)
		if err := p.m.SaveWithPrefix(w, p.prefix); err != nil {
			c.Failf("SaveWithPrefix(%q): %v", p.prefix, err)
		}
		if err := w.WriteU64ForKey(fmt.Sprintf("between/%d", i), uint64(i)); err != nil {
			c.Failf("the file cannot be written to after %s: %v", p.sm.name, err)
		}
		parts = append(parts, p)
		names = append(names, p.prefix+"="+p.sm.name)
	}
	c.Desc = strings.Join(names, ", ")
	c.Sig("embedded", c.Desc)
	if err := w.Close(); err != nil {
		c.Failf("Close: %v", err)
	}
	rd, err := base.ReadSerializedClassifierStub(path)
	if err != nil {
		c.Failf("ReadSerializedClassifierStub: %v", err)
	}
	defer rd.Close()
	for _, i := range r.Perm(n) {
		p := parts[i]
		f := p.sm.fresh()
		if err := f.LoadWithPrefix(rd, p.prefix); err != nil {
			c.Failf("LoadWithPrefix(%q): %v", p.prefix, err)
		}
		c29Same(c, p.prefix, f, p.tests, p.want)
		c29Same(c, p.prefix+" (the saved one)", p.m, p.tests, p.want)
		if v, err := rd.GetU64ForKey(fmt.Sprintf("between/%d", i)); err != nil || v != uint64(i) {
			c.Failf("the entry after %s is %d, %v", p.prefix, v, err)
		}
		if i > 0 && r.Intn(2) == 0 {
			x := parts[i-1].sm.fresh()
			if err := x.LoadWithPrefix(rd, "nowhere"); err == nil {
				c.Failf("%s was loaded from a prefix with nothing there", parts[i-1].sm.name)
			}
		}
	}
	c.Obs("embedded", n)
}

func c29Damaged(c *Case) {
	r := c.R
	sm := c29Model(c)
	m, _, tests, want := c29Fit(c, sm)
	path := filepath.Join(c.Dir(), "model")
	if err := m.Save(path); err != nil {
		c.Failf("Save: %v", err)
	}
	whole, _ := ioutil.ReadFile(path)
	for k := 0; k < 4; k++ {
		b, how, cut := damage(c, whole)
		ioutil.WriteFile(path, b, 0644)
		n0 := openFiles()
		x := sm.fresh()
		var err error
		if p := Panics(func() { err = x.Load(path) }); p != nil {
			c.Failf("Load of a damaged file (%s): panic: %.300v", how, p)
		}
		if n := openFiles(); n > n0 {
			c.Failf("%d files left open by Load of a damaged file (%s; %v)", n-n0, how, err)
		}
		if err != nil {
			c.Obs("refused", 1)
			continue
		}
		c.Obs("accepted", 1)
		if cut || strings.HasSuffix(how, "METADATA") {
			c29Same(c, "a model loaded from a damaged file ("+how+")", x, tests, want)
		}
	}
	// loaded as something else: an error, or a model
	o := c29Model(c).fresh()
	ioutil.WriteFile(path, whole, 0644)
	if p := Panics(func() { o.Load(path) }); p != nil {
		c.Failf("Load by a %T: panic: %.300v", o, p)
	}
	_ = r
}

func c29Misuse(c *Case) {
	sm := c29Model(c)
	m, _, tests, want := c29Fit(c, sm)
	dir := c.Dir()
	for _, p := range []string{filepath.Join(dir, "no", "such", "dir"), dir, "/dev/full"} {
		if _, err := os.Stat("/dev/full"); err != nil && p == "/dev/full" {
			continue
		}
		n0 := openFiles()
		var err error
		if q := Panics(func() { err = m.Save(p) }); q != nil {
			c.Failf("Save to %s: panic: %.300v", p, q)
		}
		if err == nil {
			c.Failf("Save to %s reported no error", p)
		}
		if n := openFiles(); n > n0 {
			c.Failf("%d files left open by a failing Save to %s", n-n0, p)
		}
	}
	{ // a disk that fills up
		p := filepath.Join(dir, "full")
		if err := m.Save(p); err != nil {
			c.Failf("Save: %v", err)
		}
		b, _ := ioutil.ReadFile(p)
		os.Remove(p)
		limit := c.R.Intn(len(b) + 1)
		if c.R.Intn(3) == 0 {
			limit = len(b) - 1 - c.R.Intn(30)
		}
		n0 := openFiles()
		var err error
		if q := Panics(func() { fullDisk(limit, func() { err = m.Save(p) }) }); q != nil {
			c.Failf("Save to a disk full after %d of %d bytes: panic: %.300v", limit, len(b), q)
		}
		if n := openFiles(); n > n0 {
			c.Failf("%d files left open by a Save to a disk full after %d of %d bytes", n-n0, limit, len(b))
		}
		if err == nil { // then it must all be there
			x := sm.fresh()
			if err := x.Load(p); err != nil {
				c.Failf("Save to a disk full after %d of %d bytes reported no error, but Load: %v", limit, len(b), err)
			}
			c29Same(c, "a model saved to a nearly full disk", x, tests, want)
		}
	}
	c29Same(c, "the model after Save failed", m, tests, want)
	empty := filepath.Join(dir, "empty")
	ioutil.WriteFile(empty, nil, 0644)
	text := filepath.Join(dir, "text")
	ioutil.WriteFile(text, []byte(oddString(c)), 0644)
	for _, p := range []string{filepath.Join(dir, "missing"), dir, empty, text} {
		var err error
		x := sm.fresh()
		if q := Panics(func() { err = x.Load(p) }); q != nil {
			c.Failf("Load of %s: panic: %.300v", p, q)
		}
		if err == nil {
			c.Failf("Load of %s reported no error", p)
		}
	}
	if _, ok := m.(*bareTree); !ok {
		var err error
		x := sm.fresh()
		if q := Panics(func() { err = x.Save(filepath.Join(dir, "unfitted")) }); q != nil {
			c.Failf("Save before Fit: panic: %.300v", q)
		}
		if err == nil {
			c.Failf("Save before Fit reported no error")
		}
	}
	if b, ok := m.(*meta.BaggedModel); ok { // a bag of another size
		p := filepath.Join(dir, "bag")
		if err := m.Save(p); err != nil {
			c.Failf("Save: %v", err)
		}
		x := sm.fresh().(*meta.BaggedModel)
		if len(b.Models) > 1 && c.R.Intn(2) == 0 {
			x.Models = x.Models[1:]
		} else {
			x.AddModel(sm.fresh().(*meta.BaggedModel).Models[0])
		}
		if err := x.Load(p); err == nil {
			c.Failf("a bag of %d loaded the file of a bag of %d", len(x.Models), len(b.Models))
		}
	}
	c.Obs("misuses", 8)
}
