package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/neural"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID:   "C23",
		Rule: "random feed-forward networks (layered, skipping layers, several activation functions, any weights) against an own forward pass and numerical gradients, plus layered nets trained on separable data; distinct by topology, functions, class kind and layer sizes",
		W: []Workload{
			{Name: "network", Quick: 48000, Thorough: 192000, Fn: c23Network},
			{Name: "funcs", Quick: 24000, Thorough: 96000, Fn: c23Funcs},
			{Name: "structure", Quick: 12000, Thorough: 48000, Fn: c23Layers},
			{Name: "classify", Quick: 2880, Thorough: 11520, Fn: c23Classify},
			{Name: "regress", Quick: 1440, Thorough: 5760, Fn: c23Regress},
		},
	})
}

// netModel is the shadow of a neural.Network.
type netModel struct {
	n, in  int
	fn     []int       // 0 linear, 1 sigmoid, 2 softplus
	w      [][]float64 // [src][dst]
	b      []float64
	order  []int // topological
	depth  int
	levels []int
}

func (m *netModel) act(j int, v float64) float64 {
	if j < m.in {
		return v
	}
	switch m.fn[j] {
	case 1:
		return 1 / (1 + math.Exp(-v))
	case 2:
		if v > 30 {
			return v + math.Exp(-v)
		}
		return math.Log1p(math.Exp(v))
	}
	return v
}

// forward computes the activations; extra is added to the net input of node k.
func (m *netModel) forward(x []float64, k int, extra float64) []float64 {
	out := make([]float64, m.n)
	for _, j := range m.order {
		if j < m.in {
			out[j] = x[j]
			continue
		}
		v := m.b[j]
		for i := 0; i < m.n; i++ {
			if m.w[i][j] != 0 {
				v += m.w[i][j] * out[i]
			}
		}
		if j == k {
			v += extra
		}
		out[j] = m.act(j, v)
	}
	return out
}

func c23Network(c *Case) {
	r := c.R
	m := &netModel{in: 1 + r.Intn([]int{4, 9}[r.Intn(2)])}
	nl := 1 + r.Intn(4)
	var sizes []int
	level := make([]int, m.in)
	for l := 1; l <= nl; l++ {
		k := 1 + r.Intn(4)
		sizes = append(sizes, k)
		for i := 0; i < k; i++ {
			level = append(level, l)
		}
	}
	m.n = len(level)
	mixed := r.Intn(2) == 0
	if mixed {
		// nodes need not be numbered layer by layer
		rest := level[m.in:]
		r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	}
	skip := r.Intn(3) == 0
	base0 := r.Intn(3)
	nf := []neural.NeuralFunction{neural.Linear, neural.Sigmoid, neural.SoftplusRectifier}
	net := neural.NewNetwork(m.n, m.in, nf[base0])
	m.fn = make([]int, m.n)
	for i := range m.fn {
		m.fn[i] = base0
	}
	m.b = make([]float64, m.n)
	for i := 0; i < m.n; i++ {
		row := make([]float64, m.n)
		m.w = append(m.w, row)
	}
	for i := 1; i <= m.n; i++ {
		for j := 1; j <= m.n; j++ {
			want := 0.0
			if i == j && i <= m.in {
				want = 1
			}
			if got := net.GetWeight(i, j); got != want {
				c.Failf("a new network has weight %v from %d to %d, want %v", got, i, j, want)
			}
		}
		if net.GetBias(i) != 0 {
			c.Failf("a new network has bias %v at %d", net.GetBias(i), i)
		}
	}
	scale := []float64{1e-14, 0.003, 0.003, 0.3, 0.3, 0.3, 1, 1, 1}[r.Intn(9)]
	density := []float64{0.4, 0.8, 1}[r.Intn(3)]
	edges := 0
	for i := 0; i < m.n; i++ {
		for j := 0; j < m.n; j++ {
			if level[j] == level[i]+1 || (skip && level[j] > level[i]) {
				if r.Float64() < density {
					v := r.NormFloat64() * scale
					m.w[i][j] = v
					net.SetWeight(i+1, j+1, v)
					edges++
				}
			}
		}
		if r.Intn(3) > 0 {
			v := r.NormFloat64()
			net.SetBias(i+1, v) // has no effect on inputs
			if i >= m.in {
				m.b[i] = v
			}
		}
	}
	for l := 0; l <= nl; l++ {
		for j, x := range level {
			if x == l {
				m.order = append(m.order, j)
			}
		}
	}
	c.Desc = fmt.Sprintf("%d inputs, layers %v, function %d, %d edges, mixed %v, skip %v, scale %v", m.in, sizes, base0, edges, mixed, skip, scale)
	c.Sig(m.in, fmt.Sprint(sizes), base0, mixed, skip, scale, density)
	check := func(when string) {
		for i := 0; i < m.n; i++ {
			for j := 0; j < m.n; j++ {
				want := m.w[i][j]
				if i == j && i < m.in {
					want = 1
				}
				if got := net.GetWeight(i+1, j+1); math.Abs(got-want) > 1e-9*(1+math.Abs(want)) {
					c.Failf("%s: the weight from %d to %d is %v, want %v", when, i+1, j+1, got, want)
				}
			}
			if got := net.GetBias(i + 1); math.Abs(got-m.b[i]) > 1e-9*(1+math.Abs(m.b[i])) {
				c.Failf("%s: the bias of %d is %v, want %v", when, i+1, got, m.b[i])
			}
		}
	}
	for i := 0; i < m.n; i++ { // what was set is stored as it is
		for j := 0; j < m.n; j++ {
			if got := net.GetWeight(i+1, j+1); i != j && got != m.w[i][j] {
				c.Failf("the weight from %d to %d was set to %v and is %v", i+1, j+1, m.w[i][j], got)
			}
		}
	}
	check("after construction")
	steps := 1 + r.Intn(4)
	for st := 0; st < steps; st++ {
		for n := r.Intn(3); st > 0 && n > 0; n-- {
			// set, add or remove a connection between two updates
			i, j := r.Intn(m.n), r.Intn(m.n)
			if level[j] == level[i]+1 || (skip && level[j] > level[i]) {
				v := r.NormFloat64() * scale
				if r.Intn(3) == 0 {
					v = 0
				}
				m.w[i][j] = v
				net.SetWeight(i+1, j+1, v)
				c.Obs("connections changed between updates", 1)
				if got := net.GetWeight(i+1, j+1); got != v {
					c.Failf("the weight from %d to %d is %v, want %v", i+1, j+1, got, v)
				}
			}
		}
		x := make([]float64, m.n)
		for i := 0; i < m.in; i++ {
			x[i] = r.NormFloat64()
		}
		with := mat.NewDense(m.n, 1, append([]float64(nil), x...))
		net.Activate(with, nl+r.Intn(3))
		want := m.forward(x, -1, 0)
		for j := range want {
			if got := with.At(j, 0); math.Abs(got-want[j]) > 1e-9*(1+math.Abs(want[j])) {
				c.Failf("step %d: activation of node %d is %v, want %v (input %v)", st, j+1, got, want[j], x[:m.in])
			}
		}
		c.Obs("activations compared", m.n)
		for _, v := range want {
			if !finite(v) || math.Abs(v) > 1e6 {
				return // the updates diverged
			}
		}
		// error at the last layer (sometimes at any node which isn't an input)
		target := map[int]float64{}
		for j := m.in; j < m.n; j++ {
			if level[j] == nl || r.Intn(8) == 0 {
				target[j] = r.NormFloat64()
			}
		}
		e := mat.NewDense(m.n, 1, nil)
		for j, t := range target {
			e.Set(j, 0, t-with.At(j, 0))
		}
		outBefore, errBefore := mat.DenseCopyOf(with), mat.DenseCopyOf(e)
		delta := net.Error(with, e, nl+1+r.Intn(2))
		if !mat.Equal(outBefore, with) || !mat.Equal(errBefore, e) {
			c.Failf("step %d: Error changed its arguments", st)
		}
		loss := func(k int, h float64) float64 {
			o := m.forward(x, k, h)
			s := 0.0
			for j, t := range target {
				s += (t - o[j]) * (t - o[j]) / 2
			}
			return s
		}
		for k := m.in; k < m.n; k++ {
			const h = 1e-5
			want := -(loss(k, h) - loss(k, -h)) / (2 * h)
			if got := delta.At(k, 0); math.Abs(got-want) > 1e-5*(1+math.Abs(want))+1e-9*math.Abs(loss(k, 0))/h {
				c.Failf("step %d: the back-propagated error of node %d is %v, the gradient is %v", st, k+1, got, want)
			}
			c.Obs("gradients compared", 1)
		}
		rate := []float64{0.01, 0.1, 0.9}[r.Intn(3)]
		if r.Intn(4) > 0 {
			net.UpdateWeights(with, delta, rate)
			for i := 0; i < m.n; i++ {
				for j := 0; j < m.n; j++ {
					if m.w[i][j] != 0 {
						m.w[i][j] += rate * with.At(i, 0) * delta.At(j, 0)
					}
				}
			}
			check(fmt.Sprintf("step %d: UpdateWeights", st))
		}
		if r.Intn(4) > 0 {
			net.UpdateBias(delta, rate)
			for j := m.in; j < m.n; j++ {
				m.b[j] += rate * delta.At(j, 0)
			}
			check(fmt.Sprintf("step %d: UpdateBias", st))
		}
	}
}

func c23Funcs(c *Case) {
	r := c.R
	k := r.Intn(3)
	f := []neural.NeuralFunction{neural.Linear, neural.Sigmoid, neural.SoftplusRectifier}[k]
	m := &netModel{fn: []int{k}}
	c.Sig(k, c.Idx%50)
	for i := 0; i < 20; i++ {
		v := r.NormFloat64() * 4
		if r.Intn(6) == 0 {
			v = []float64{0, 50, -50, 700, -700, 1000, -1000, 1e-9, -60 * r.Float64(), -700 * r.Float64(), 60 * r.Float64(), -1e-9}[r.Intn(12)]
		}
		c.Desc = fmt.Sprintf("function %d at %v", k, v)
		got, want := f.Forward(v), m.act(0, v)
		if math.Abs(got-want) > 1e-12*math.Abs(want)+1e-300 {
			c.Failf("function %d at %v is %v, want %v", k, v, got, want)
		}
		// derivative, from the output
		const h = 1e-5
		d := (m.act(0, v+h) - m.act(0, v-h)) / (2 * h)
		if got := f.Backward(f.Forward(v)); math.Abs(got-d) > 1e-6 {
			c.Failf("derivative of function %d at %v is %v, want %v", k, v, got, d)
		}
		c.Obs("function values compared", 2)
	}
}

// c23Edges reads the connections which a net prints.
func c23Edges(m *neural.MultiLayerNet) map[[2]int]bool {
	out := map[[2]int]bool{}
	for _, l := range strings.Split(m.String(), "\n") {
		i := strings.Index(l, "(")
		for j := strings.LastIndex(l, "("); i >= 0; {
			var a, b int
			if n, _ := fmt.Sscanf(l[j:], "(%d %d ", &a, &b); n == 2 {
				out[[2]int{a, b}] = true
			}
			break
		}
	}
	return out
}

func c23Structure(c *Case, m *neural.MultiLayerNet, in, outs int, layers []int) {
	e := c23Edges(m)
	if len(e) == 0 {
		return
	}
	sizes := append(append([]int{in}, layers...), outs)
	var level []int
	for l, s := range sizes {
		for i := 0; i < s; i++ {
			level = append(level, l)
		}
	}
	for i := range level {
		for j := range level {
			want := level[j] == level[i]+1 || (i == j && level[i] == 0)
			if got := e[[2]int{i + 1, j + 1}]; got != want {
				c.Failf("layers %v: node %d (layer %d) connected to node %d (layer %d): %v", sizes, i+1, level[i], j+1, level[j], got)
			}
		}
	}
	c.Obs("connections checked", len(level)*len(level))
}

func c23Classify(c *Case) {
	r := c.R
	classes := 2 + r.Intn(3)
	per := 8 + r.Intn(10)
	var layers []int
	if r.Intn(2) == 0 {
		layers = []int{3 + r.Intn(5)}
	}
	kind := r.Intn(3) // float, categorical or binary features
	shuffled := r.Intn(2) == 0
	n, test := classes*per, 10+r.Intn(20)
	o := GenOpts{Rows: n + test, ShuffleAttrOrder: shuffled, ClassCat: classes}
	binClass := classes == 2 && r.Intn(4) == 0
	if binClass {
		o.ClassCat, o.ClassBin = 0, true
	}
	switch kind {
	case 0:
		o.Floats = classes + r.Intn(2)
	case 1:
		o.Cats, o.CatVals = 1+r.Intn(2), 1
	case 2:
		o.Bins = classes + r.Intn(2)
	}
	if binClass {
		// binary classes are converted to float ones, which have no labels
		binClass = false
		o.ClassBin, o.ClassCat = false, 2
	}
	if kind == 1 {
		o.CatVals = classes
	}
	t := genTable(r, o)
	cls := t.ClassIdx()[0]
	feats := t.NonClassIdx()
	perm := r.Perm(classes) // class -> value of the first feature
	off := r.Float64()
	for i := range t.Cells {
		k := r.Intn(classes)
		if i < classes {
			k = i
		}
		t.Cells[i][cls] = packU(uint64(k))
		for q, f := range feats {
			switch kind {
			case 0:
				v := 0.1 * r.NormFloat64()
				if q == perm[k] {
					v += 1.5
				}
				v = math.Max(-0.4, math.Min(v, 2)) + 0.2*off
				t.Cells[i][f] = packF(v)
			case 1:
				v := r.Intn(classes)
				if q == 0 {
					v = perm[k]
				}
				t.Cells[i][f] = packU(uint64(v))
			case 2:
				v := byte(0)
				if q == perm[k] {
					v = 1
				}
				t.Cells[i][f] = []byte{v}
			}
		}
		for j := range t.Attrs {
			t.Grid.Set(t.Specs[j], i, t.Cells[i][j])
		}
	}
	idx := allIdx(n + test)
	train, tst := subTable(t, idx[:n]), subTable(t, idx[n:])
	c.Desc = fmt.Sprintf("%d classes, hidden %v, features %d: %s", classes, layers, kind, train.describe(6))
	c.Sig(classes, fmt.Sprint(layers), kind, shuffled)
	net := neural.NewMultiLayerNet(layers)
	net.MaxIterations = 1500
	if r.Intn(4) == 0 {
		// a refit forgets the data before
		o2 := GenOpts{Rows: 5, Floats: 2, ClassCat: 3}
		old := genTable(r, o2)
		save := net.MaxIterations
		net.MaxIterations = 3
		net.Fit(old.Grid)
		net.MaxIterations = save
		c.Obs("refits", 1)
	}
	before := snapshot(train.Grid)
	best := 0.0
	for try := 0; try < 4 && best < 0.95; try++ {
		net.Fit(held(c, train))
		labels := predLabels(c, "Predict(training data)", net.Predict(train.Grid), train)
		ok := 0
		for i, l := range labels {
			if l == train.S(i, cls) {
				ok++
			}
		}
		best = math.Max(best, float64(ok)/float64(n))
		if best < 0.95 {
			c.Obs("fits repeated", 1)
		}
	}
	if best < 0.95 {
		c.Failf("the net classifies only %.2f of well separated training data rightly", best)
	}
	unchanged(c, "Fit", train.Grid, before)
	in := len(feats)
	outs := classes
	if classes == 2 {
		outs = 1
	}
	if kind == 1 {
		in = 0
		for range feats {
			if classes == 2 {
				in++
			} else {
				in += classes
			}
		}
	}
	c23Structure(c, net, in, outs, layers)
	before = snapshot(tst.Grid)
	p1 := predLabels(c, "Predict", net.Predict(tst.Grid), tst)
	unchanged(c, "Predict", tst.Grid, before)
	ok := 0
	for i, l := range p1 {
		if l == tst.S(i, cls) {
			ok++
		}
	}
	if float64(ok) < 0.85*float64(test) {
		c.Failf("the net classifies only %d of %d rows from the training distribution rightly", ok, test)
	}
	p2 := predLabels(c, "Predict again", net.Predict(tst.Grid), tst)
	if k := sameStrings(p1, p2); k >= 0 {
		c.Failf("row %d was predicted %s, then %s", k, p1[k], p2[k])
	}
	order := r.Perm(test)
	p3 := predLabels(c, "Predict in another order", net.Predict(subTable(tst, order).Grid), tst)
	for i, k := range order {
		if p3[i] != p1[k] {
			c.Failf("row %d is predicted %s among others in another order, %s before", k, p3[i], p1[k])
		}
	}
	// a grid which was built separately, of equal attributes
	p5 := predLabels(c, "Predict with a grid of equal attributes", net.Predict(rebuild(c, tst, allIdx(len(tst.Attrs)), false).Grid), tst)
	if k := sameStrings(p1, p5); k >= 0 {
		c.Failf("row %d is predicted %s in a grid of equal attributes, %s before", k, p5[k], p1[k])
	}
	// labels the test rows carry don't count
	blank := subTable(tst, allIdx(test))
	for i := range blank.Cells {
		blank.Grid.Set(blank.Specs[cls], i, packU(uint64(r.Intn(classes))))
	}
	p4 := predLabels(c, "Predict with other labels", net.Predict(blank.Grid), blank)
	if k := sameStrings(p1, p4); k >= 0 {
		c.Failf("the prediction of row %d depends on its own label: %s, then %s", k, p1[k], p4[k])
	}
	c.Obs("nets trained", 1)
}

func c23Regress(c *Case) {
	r := c.R
	in, outs := 1+r.Intn(3), 1+r.Intn(3)
	n, test := 20+r.Intn(30), 5+r.Intn(10)
	var layers []int
	if r.Intn(3) == 0 {
		layers = []int{4 + r.Intn(4)}
	}
	g := base.NewDenseInstances()
	type col struct {
		a     base.Attribute
		class int
	}
	var cols []col
	for i := 0; i < in; i++ {
		cols = append(cols, col{base.NewFloatAttribute(fmt.Sprintf("x%d", i)), -1})
	}
	for i := 0; i < outs; i++ {
		cols = append(cols, col{base.NewFloatAttribute(fmt.Sprintf("y%d", i)), i})
	}
	r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	t := &Table{Grid: g}
	for _, cl := range cols {
		t.Specs = append(t.Specs, g.AddAttribute(cl.a))
		t.Attrs = append(t.Attrs, cl.a)
		t.Class = append(t.Class, cl.class >= 0)
	}
	for i, cl := range cols {
		if cl.class >= 0 {
			if err := g.AddClassAttribute(t.Attrs[i]); err != nil {
				c.Failf("AddClassAttribute: %v", err)
			}
		}
	}
	g.Extend(n + test)
	w := make([][]float64, outs)
	for k := range w {
		w[k] = make([]float64, in+1)
		for i := range w[k] {
			w[k][i] = (1 + r.Float64()) * float64(1-2*r.Intn(2))
		}
		w[k][in] *= 0.3
	}
	for i := 0; i < n+test; i++ {
		x := make([]float64, in)
		for q := range x {
			x[q] = r.Float64()*2 - 1
		}
		cells := make([][]byte, len(cols))
		q := 0
		for j, cl := range cols {
			if cl.class < 0 {
				cells[j] = packF(x[q])
				q++
			}
		}
		for j, cl := range cols {
			if cl.class >= 0 {
				v := w[cl.class][in]
				for q := range x {
					v += w[cl.class][q] * x[q]
				}
				cells[j] = packF(1 / (1 + math.Exp(-v)))
			}
		}
		t.Cells = append(t.Cells, cells)
		for j := range cols {
			g.Set(t.Specs[j], i, cells[j])
		}
	}
	idx := allIdx(n + test)
	train, tst := subTable(t, idx[:n]), subTable(t, idx[n:])
	c.Desc = fmt.Sprintf("%d inputs, %d outputs, hidden %v: %s", in, outs, layers, train.describe(4))
	c.Sig(in, outs, fmt.Sprint(layers), n/10)
	net := neural.NewMultiLayerNet(layers)
	net.MaxIterations = 3000
	net.Convergence = 1e-4
	mse := func(t *Table) float64 {
		before := snapshot(t.Grid)
		p := net.Predict(t.Grid)
		unchanged(c, "Predict", t.Grid, before)
		predLabels(c, "Predict", p, t)
		s, k := 0.0, 0
		for _, j := range t.ClassIdx() {
			for i := range t.Cells {
				v := unpackF(gridCell(p, t.Attrs[j], i))
				if !(v >= 0 && v <= 1) {
					c.Failf("row %d: output %v of a sigmoid", i, v)
				}
				s += (v - t.F(i, j)) * (v - t.F(i, j))
				k++
			}
		}
		return s / float64(k)
	}
	best := math.Inf(1)
	for try := 0; try < 4 && best > 0.004; try++ {
		net.Fit(held(c, train))
		best = math.Min(best, mse(train))
	}
	if best > 0.004 {
		c.Failf("mean squared error %v on data which the net can represent", best)
	}
	if e := mse(tst); e > 0.02 {
		c.Failf("mean squared error %v on new data from a function which was learnt with %v", e, best)
	}
	c23Structure(c, net, in, outs, layers)
	// a permissive convergence stops after the first pass
	vals := func(conv float64, iters int) []float64 {
		rand.Seed(c.Seed + int64(c.Idx))
		m := neural.NewMultiLayerNet(layers)
		m.Convergence, m.MaxIterations = conv, iters
		m.Fit(held(c, train))
		return predFloats(c, "Predict", m.Predict(tst.Grid), tst)
	}
	if outs == 1 && in == 1 { // the order of several inputs isn't fixed
		a, b, d := vals(1e9, 500), vals(0, 1), vals(0, 30)
		same, moved := true, false
		for i := range a {
			if math.Abs(a[i]-b[i]) > 1e-9 {
				same = false
			}
			if math.Abs(a[i]-d[i]) > 1e-6 {
				moved = true
			}
		}
		if !same {
			c.Failf("Fit with a convergence of 1e9 didn't stop after the first pass")
		}
		if !moved {
			c.Failf("Fit with a convergence of 0 and 30 passes stopped after one")
		}
	}
	c.Obs("nets trained", 1)
}

// c23Layers: nets of any depth have exactly the connections of their layers,
// before and after training passes.
func c23Layers(c *Case) {
	r := c.R
	var layers []int
	for k := r.Intn(4); k > 0; k-- {
		layers = append(layers, 1+r.Intn(5))
	}
	in, classes := 1+r.Intn(4), 2+r.Intn(3)
	t := genTable(r, GenOpts{Rows: 1 + r.Intn(8), Floats: in, ClassCat: classes, Style: VUnit, ShuffleAttrOrder: true})
	outs := classes
	if classes == 2 {
		outs = 1
	}
	net := neural.NewMultiLayerNet(layers)
	net.MaxIterations = r.Intn(4)
	c.Desc = fmt.Sprintf("hidden %v, %d passes: %s", layers, net.MaxIterations, t.describe(3))
	c.Sig(in, outs, fmt.Sprint(layers), net.MaxIterations)
	net.Fit(t.Grid)
	c23Structure(c, net, in, outs, layers)
	predLabels(c, "Predict", net.Predict(t.Grid), t)
}
