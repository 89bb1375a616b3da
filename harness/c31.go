package main

// #include <malloc.h>
// static unsigned long in_use(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
import "C"

import (
	"fmt"
	"math"
	"math/rand"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/trees"
)

func init() {
	register(&Property{
		ID:   "C31",
		Rule: "cases of every other property re-executed under AddressSanitizer with checkptr, under the race detector (two unrelated cases at once), and with the Go runtime's cgo pointer checks; every kind of fitted model, grid, view and filter shared between goroutines; the C heap measured over repeated use of the C-backed models; distinct by workload re-executed, model and shape",
		W: []Workload{
			{Name: "c-heap", Quick: 60, Thorough: 800, Fn: c31Heap},
			{Name: "sweep-asan", Quick: 1500, Thorough: 10000, Mode: "asan", Fn: c31Sweep},
			{Name: "c-asan", Quick: 400, Thorough: 8000, Mode: "asan", Fn: c31C},
			{Name: "models-asan", Quick: 300, Thorough: 5000, Mode: "asan", Fn: c30Rows},
			{Name: "sweep-race", Quick: 500, Thorough: 4000, Mode: "race", Fn: c31Together},
			{Name: "shared-model", Quick: 300, Thorough: 5000, Mode: "race", Fn: c31Model},
			{Name: "new-labels", Quick: 150, Thorough: 2500, Mode: "race", Fn: c31Labels},
			{Name: "shared-grid", Quick: 300, Thorough: 6000, Mode: "race", Fn: c31Grid},
			{Name: "sweep-cgo", Quick: 300, Thorough: 4000, Mode: "cgo", Fn: c31Cgo},
		},
	})
}

// c31Pick draws a workload of another property, and a case of it.
func c31Pick(c *Case, ok func(p, w string) bool) (*Property, *Workload, int) {
	var ids []string
	for id := range registry {
		if id != "C31" {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for {
		p := registry[ids[c.R.Intn(len(ids))]]
		w := &p.W[c.R.Intn(len(p.W))]
		if w.Mode == "" && w.Quick >= 30 && (ok == nil || ok(p.ID, w.Name)) {
			return p, w, c.R.Intn(w.Quick)
		}
	}
}

// c31Sweep executes a case of another property. What it reports is that
// property's business: here the sanitizer is the oracle.
func c31Sweep(c *Case) {
	p, w, i := c31Pick(c, nil)
	c.Desc = fmt.Sprintf("%s/%s case %d", p.ID, w.Name, i)
	c.Sig(p.ID, w.Name, i)
	s := runCase(p, w, i, c.Seed, "quick")
	c31Note(c, p, s)
}

func c31Note(c *Case, p *Property, s *Case) {
	n := int64(0)
	for _, v := range s.events {
		n += v
	}
	c.Obs("events in cases of "+p.ID, int(n))
	c.Obs("cases re-executed", 1)
}

func c31Cgo(c *Case) {
	p, w, i := c31Pick(c, func(p, w string) bool {
		switch p {
		case "C15", "C22", "C28", "C29", "C30", "C12":
			return true
		}
		return false
	})
	c.Desc = fmt.Sprintf("%s/%s case %d", p.ID, w.Name, i)
	c.Sig(p.ID, w.Name, i)
	s := runCase(p, w, i, c.Seed, "quick")
	for _, f := range s.fails {
		if strings.Contains(f.Msg, "cgo") {
			c.Failf("%s: %s", c.Desc, f.Msg)
		}
	}
	c31Note(c, p, s)
}

// c31Together runs cases of other properties at the same time. They share
// nothing, so whatever the race detector sees is hidden in the library.
func c31Together(c *Case) {
	n := 2 + c.R.Intn(2)
	var wg sync.WaitGroup
	var names []string
	for k := 0; k < n; k++ {
		p, w, i := c31Pick(c, func(p, w string) bool {
			// (these look at the log or the process)
			return p != "C22" && w != "misuse-log"
		})
		names = append(names, fmt.Sprintf("%s/%s case %d", p.ID, w.Name, i))
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := runCase(p, w, i, c.Seed, "quick")
			c31Note(c, p, s)
		}()
	}
	c.Desc = strings.Join(names, ", ")
	c.Sig(names)
	wg.Wait()
}

// c31Model has one fitted model predict for several goroutines.
func c31Model(c *Case) {
	r := c.R
	seed := r.Int63()
	mk := func(m *c30Model) *c30Model {
		// a model of the same kind and parameters
		d := &Case{Prop: c.Prop, Workload: c.Workload, Idx: c.Idx, Seed: c.Seed, R: rand.New(rand.NewSource(seed)), events: map[string]int64{}}
		return c30Make(d)
	}
	m := mk(nil)
	train, test := m.data()
	c.Desc = m.name + ": " + train.describe(3)
	c.Sig(m.name, len(train.Attrs), test.Rows())
	if err := m.fit(train.Grid); err != nil {
		c.Failf("Fit: %v", err)
	}
	want, err := m.predict(test.Grid)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad []string
	say := func(f string, a ...interface{}) {
		mu.Lock()
		bad = append(bad, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	others := []*c30Model{mk(nil), mk(nil)}
	grids := []base.FixedDataGrid{test.Grid, test.Grid, base.NewInstancesViewFromVisible(test.Grid, allIdx(test.Rows()), test.Grid.AllAttributes()), subTable(test, allIdx(test.Rows())).Grid}
	do := func(f func()) {
		wg.Add(1)
		d := time.Duration(r.Intn(300)) * time.Microsecond
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(stopCase); !ok {
						say("panic: %v\n%s", p, trimStack(debug.Stack()))
					}
				}
			}()
			time.Sleep(d)
			f()
		}()
	}
	for _, g := range grids {
		g := g
		do(func() {
			got, err := m.predict(g)
			if err != nil {
				say("Predict: %v", err)
			} else if i := c30Diff(got, want); i >= 0 {
				say("row %d is predicted %s in parallel with others, %s alone", i, got[i], want[i])
			}
		})
	}
	for _, o := range others {
		o := o
		do(func() {
			if err := o.fit(train.Grid); err != nil {
				say("Fit in parallel with others: %v", err)
				return
			}
			got, err := o.predict(test.Grid)
			if err != nil {
				say("Predict: %v", err)
			} else if i := c30Diff(got, want); i >= 0 && m.det {
				say("row %d is predicted %s by a model fitted in parallel with others, %s by one fitted alone", i, got[i], want[i])
			}
		})
	}
	wg.Wait()
	if len(bad) > 0 {
		c.Failf("%s: %s", m.name, bad[0])
	}
	c.Obs("concurrent predictions", len(grids)+len(others))
	c.Obs("concurrent fits", len(others))
}

// c31Labels has the members of an ensemble predict, at the same time, labels
// the class attribute of the test grid doesn't have: it is another one. They
// may refuse that.
func c31Labels(c *Case) {
	r := c.R
	k := 2 + r.Intn(6)
	train, test := genPair(c, GenOpts{Floats: r.Intn(2), Cats: 2, ClassCat: k, ShuffleAttrOrder: true}, 20+r.Intn(40), 5+r.Intn(30))
	cls := train.ClassIdx()[0]
	var m base.Classifier
	members := 2 + r.Intn(12)
	kind := []string{"forest", "bagged trees"}[r.Intn(2)]
	if kind == "forest" {
		m = ensemble.NewRandomForest(members, 1)
	} else {
		b := new(meta.BaggedModel)
		b.RandomFeatures = len(train.Attrs) - 1
		for i := 0; i < members; i++ {
			b.AddModel(trees.NewID3DecisionTree(0))
		}
		m = b
	}
	c.Desc = fmt.Sprintf("%s of %d, %d labels, %d rows to predict", kind, members, k, test.Rows())
	c.Sig(kind, members, k, test.Rows(), len(train.Attrs))
	if err := m.Fit(train.Grid); err != nil {
		c.Failf("Fit: %v", err)
	}
	text := func(g base.FixedDataGrid, other bool) []string {
		p, err := m.Predict(g)
		if err != nil && other {
			c.Obs("predictions refused", 1)
			return nil
		}
		if err != nil {
			c.Failf("Predict: %v", err)
		}
		var ret []string
		_, rows := p.Size()
		for i := 0; i < rows; i++ {
			ret = append(ret, base.GetClass(p, i))
		}
		return ret
	}
	want := text(test.Grid, false)
	for n := 0; n < 2; n++ {
		// the same rows, with one of the other columns as the class
		other := subTable(test, allIdx(test.Rows()))
		g := other.Grid
		g.RemoveClassAttribute(test.Attrs[cls])
		for _, j := range r.Perm(len(test.Attrs)) {
			if _, ok := test.Attrs[j].(*base.CategoricalAttribute); ok && j != cls {
				g.AddClassAttribute(test.Attrs[j])
				break
			}
		}
		got := text(g, true)
		if i := c30Diff(got, want); got != nil && i >= 0 {
			c.Failf("%s: row %d is predicted %s if the class of the test rows has other labels, %s before", kind, i, got[i], want[i])
		}
		c.Obs("concurrent predictions", members)
	}
}

// c31Grid reads one grid in several goroutines.
func c31Grid(c *Case) {
	r := c.R
	o := GenOpts{Rows: 10 + r.Intn(40), Floats: 1 + r.Intn(4), Cats: r.Intn(3), Bins: r.Intn(4), ClassCat: 2 + r.Intn(3), ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0}
	t := genTable(r, o)
	var g base.FixedDataGrid = t.Grid
	kind := []string{"dense", "view of rows", "view of chosen rows", "filtered", "shuffled", "sorted"}[r.Intn(6)]
	switch kind {
	case "view of rows":
		m := map[int]int{}
		for i := 0; i < t.Rows(); i++ {
			m[i] = r.Intn(t.Rows())
		}
		g = base.NewInstancesViewFromRows(g, m)
	case "view of chosen rows":
		g = base.NewInstancesViewFromVisible(g, r.Perm(t.Rows()), g.AllAttributes())
	case "filtered":
		var f base.Filter
		attrs := base.NonClassFloatAttributes(t.Grid)
		switch r.Intn(3) {
		case 0:
			b := filters.NewBinningFilter(t.Grid, 1+r.Intn(5))
			for _, a := range attrs {
				b.AddAttribute(a)
			}
			f = b
		case 1:
			b := filters.NewBinaryConvertFilter()
			for _, a := range base.NonClassAttributes(t.Grid) {
				b.AddAttribute(a)
			}
			f = b
		case 2:
			b := filters.NewFloatConvertFilter()
			for _, a := range base.NonClassAttributes(t.Grid) {
				b.AddAttribute(a)
			}
			f = b
		}
		if err := f.Train(); err != nil {
			c.Failf("Train: %v", err)
		}
		g = base.NewLazilyFilteredInstances(t.Grid, f)
	case "shuffled":
		g = base.LazyShuffle(g)
	case "sorted":
		s, err := base.LazySort(g, base.Ascending, base.ResolveAttributes(g, g.AllAttributes()[:1]))
		if err != nil {
			c.Failf("LazySort: %v", err)
		}
		g = s
	}
	c.Desc = kind + ": " + t.describe(3)
	c.Sig(kind, len(t.Attrs), t.Rows())
	before := snapshot(g)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad []string
	say := func(f string, a ...interface{}) {
		mu.Lock()
		bad = append(bad, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	keys := rowKeys(g, g.AllAttributes())
	n := 4 + r.Intn(4)
	ops := 0
	for k := 0; k < n; k++ {
		var todo []int
		for q := 2 + r.Intn(4); q > 0; q-- {
			todo = append(todo, r.Intn(13))
		}
		ops += len(todo)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					say("panic: %v\n%s", p, trimStack(debug.Stack()))
				}
			}()
			for _, op := range todo {
				switch op {
				case 0:
					if snapshot(g) != before {
						say("the grid reads differently in parallel with others")
					}
				case 1:
					base.GetClassDistribution(g)
				case 2:
					base.SampleWithReplacement(g, 10)
				case 3:
					got := rowKeys(base.LazyShuffle(g), g.AllAttributes())
					if !sameMultiset(got, keys) {
						say("a shuffled view in parallel with others has other rows")
					}
				case 4:
					base.InstancesTrainTestSplit(base.LazyShuffle(g), 0.3)
				case 5:
					as := base.NonClassAttributes(g)
					base.DecomposeOnAttributeValues(g, as[0])
				case 6:
					base.LazySort(g, base.Ascending, base.ResolveAttributes(g, g.AllAttributes()[:1]))
				case 7:
					base.NewDenseCopy(g)
				case 8:
					base.NewStructuralCopy(g)
				case 9:
					fmt.Sprint(g)
				case 10:
					for _, a := range g.AllAttributes() {
						a.String()
						g.GetAttribute(a)
					}
					base.CheckCompatible(g, g)
				case 11:
					p := base.GeneratePredictionVector(g)
					for i := 0; i < 5; i++ {
						base.SetClass(p, i, base.GetClass(g, i))
					}
				case 12:
					base.GetClassDistributionAfterSplit(g, base.NonClassAttributes(g)[0])
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		c.Failf("%s", bad[0])
	}
	if snapshot(g) != before {
		c.Failf("concurrent readers changed the grid")
	}
	c.Obs("concurrent readers", n)
	c.Obs("concurrent operations", ops)
}

// c31C calls into C with inputs at the edges.
func c31C(c *Case) {
	r := c.R
	val := func() float64 {
		return []float64{0, 0, 1, -1, r.NormFloat64(), math.MaxFloat64, 5e-324, 1e300, math.Inf(1), math.NaN()}[r.Intn(10)]
	}
	mild := r.Intn(2) == 0
	if mild {
		val = func() float64 { return []float64{0, 1, -1, r.NormFloat64()}[r.Intn(4)] }
	}
	switch r.Intn(3) {
	case 0: // liblinear
		rows, cols := 1+r.Intn(20), r.Intn(8)
		if r.Intn(10) == 0 {
			cols = 200
		}
		X := make([][]float64, rows)
		y := make([]float64, rows)
		for i := range X {
			n := cols
			if r.Intn(8) == 0 && i > 0 { // ragged
				n = r.Intn(cols + 3)
			}
			X[i] = make([]float64, n)
			for j := range X[i] {
				if v := val(); finite(v) && math.Abs(v) < 1e6 {
					X[i][j] = v
				}
			}
			y[i] = float64(r.Intn(1 + r.Intn(4)))
		}
		solver := linSolvers[r.Intn(len(linSolvers))]
		bias := []float64{-1, 0, 1, 10}[r.Intn(4)]
		c.Desc = fmt.Sprintf("liblinear %s %dx%d bias %v", linNames[solver], rows, cols, bias)
		c.Sig(c.Desc)
		prob := linear_models.NewProblem(X, y, bias)
		param := linear_models.NewParameter(solver, 0.1+r.Float64(), 1e-2)
		m := linear_models.Train(prob, param)
		for k := 0; k < 10; k++ {
			x := make([]float64, []int{cols, 0, cols + 5, r.Intn(cols + 1)}[r.Intn(4)])
			for j := range x {
				x[j] = val()
			}
			linear_models.Predict(m, x)
			c.Obs("C predictions", 1)
		}
		path := filepath.Join(c.Dir(), "m")
		if err := linear_models.Export(m, path); err != nil {
			c.Failf("Export: %v", err)
		}
		n := &linear_models.Model{}
		if err := linear_models.Load(n, path); err != nil {
			c.Failf("Load: %v", err)
		}
		linear_models.Predict(n, make([]float64, cols))
		runtime.GC()
	case 1: // optimised Euclidean distances
		o := GenOpts{Floats: 1 + r.Intn(6), ClassCat: 2, ShuffleAttrOrder: true, ExplicitGroups: true}
		o.FloatVal = func(int, int) float64 { return val() }
		n, k := 1+r.Intn(30), r.Intn(10)
		train, test := genPair(c, o, n, k)
		x := knn.NewKnnClassifier("euclidean", "linear", 1+r.Intn(n))
		x.AllowOptimisations = true
		c.Desc = fmt.Sprintf("kNN %d rows, %d predicted, %d columns, mild %v", n, k, o.Floats, mild)
		c.Sig(c.Desc)
		if err := x.Fit(train.Grid); err != nil {
			c.Failf("Fit: %v", err)
		}
		for _, t := range []*Table{test, train, rebuild(c, test, r.Perm(len(test.Attrs)), false)} {
			if _, err := x.Predict(t.Grid); err != nil {
				c.Failf("Predict: %v", err)
			}
			c.Obs("C distances", n*t.Rows())
		}
	case 2: // models which are used while the collector runs
		m := c30Make(c)
		train, test := m.data()
		c.Desc = "collected: " + m.name
		c.Sig(m.name, len(train.Attrs))
		stop := make(chan bool)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					runtime.GC()
				}
			}
		}()
		var err error
		for k := 0; k < 3 && err == nil; k++ {
			if err = m.fit(train.Grid); err == nil {
				_, err = m.predict(test.Grid)
			}
			c.Obs("models fitted while the collector runs", 1)
		}
		close(stop)
		wg.Wait()
		if err != nil {
			c.Failf("%s: %v", m.name, err)
		}
	}
}

func c31InUse() int64 {
	// finalizers run after a collection has found their objects
	for k := 0; k < 3; k++ {
		runtime.GC()
		time.Sleep(2 * time.Millisecond)
	}
	return int64(C.in_use())
}

// c31Heap repeats something with a C-backed model; the C heap must not grow.
func c31Heap(c *Case) {
	r := c.R
	var m *savedModel
	for m == nil || !strings.Contains(m.name, "SVC") && !strings.Contains(m.name, "opt true") {
		m = c29Model(c)
	}
	train, test := m.data()
	what := r.Intn(5)
	path := filepath.Join(c.Dir(), "model")
	x, err := m.fit(m.fresh(), train)
	if err != nil {
		c.Failf("Fit: %v", err)
	}
	if err := x.Save(path); err != nil {
		c.Failf("Save: %v", err)
	}
	var lr *linear_models.LogisticRegression
	lt := genTable(r, GenOpts{Rows: 20, Floats: 3, ClassFloat: true})
	setTarget(lt, func(i int) float64 { return float64(i % 2) })
	name := ""
	step := func() error {
		switch what {
		case 0:
			name = "Fit"
			_, err := m.fit(m.fresh(), train)
			return err
		case 1:
			name = "Fit of the same model"
			x, err = m.fit(x, train)
			return err
		case 2:
			name = "Predict"
			_, err := x.Predict(test.Grid)
			return err
		case 3:
			name = "Load"
			return x.Load(path)
		}
		name = "logistic regression"
		if lr == nil {
			lr, _ = linear_models.NewLogisticRegression("l2", 1, 1e-2)
		}
		if err := lr.Fit(lt.Grid); err != nil {
			return err
		}
		_, err := lr.Predict(lt.Grid)
		return err
	}
	rounds := 30
	grew := 0
	var sizes []int64
	var last int64
	for k := 0; k < 6; k++ {
		for i := 0; i < rounds; i++ {
			if err := step(); err != nil {
				c.Failf("%s: %v", name, err)
			}
		}
		n := c31InUse()
		sizes = append(sizes, n)
		if k > 0 && n-last >= int64(rounds)*8 {
			grew++
		}
		last = n
	}
	c.Desc = m.name + ": " + name
	c.Sig(m.name, name)
	c.Obs("calls with the C heap measured", 6*rounds)
	if grew >= 5 {
		c.Failf("%s: %s, repeated %d times between measurements, makes the C heap grow every time: %v bytes", m.name, name, rounds, sizes)
	}
}
