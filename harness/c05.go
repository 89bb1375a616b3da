package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sjwhitworth/golearn/base"
)

func init() {
	register(&Property{
		ID:   "C05",
		Rule: "grids whose rows carry a unique identity (dense, row/attribute views, filtered grids) are shuffled, lazily shuffled, sampled, split and decomposed; the monitor accounts for every row identity and its whole content; distinct by operation, source kind, size and parameter",
		W: []Workload{
			{Name: "shuffle", Quick: 60000, Thorough: 240000, Fn: c05Shuffle},
			{Name: "split", Quick: 40000, Thorough: 160000, Fn: c05Split},
			{Name: "sample", Quick: 40000, Thorough: 160000, Fn: c05Sample},
			{Name: "decompose", Quick: 60000, Thorough: 240000, Fn: c05Decompose},
			{Name: "randomness", Quick: 24, Thorough: 200, Fn: c05Random},
		},
	})
}

// idTable is a table whose column "id" is unique per row.
func idTable(c *Case, n int) *Table {
	r := c.R
	o := GenOpts{Rows: n, Floats: 1 + r.Intn(3), Cats: 1 + r.Intn(2), Bins: r.Intn(3), ClassCat: 1 + r.Intn(3), Style: []ValueStyle{VSmallInt, VGauss, VWide}[r.Intn(3)], ExplicitGroups: r.Intn(2) == 0, ShuffleAttrOrder: true}
	o.SameNames = r.Intn(4) == 0
	t := genTable(r, o)
	j, p := idColumn(t), r.Perm(n)
	for i := range t.Cells {
		v := packF(float64(p[i]) - 3.5)
		t.Cells[i][j] = v
		t.Grid.Set(t.Specs[j], i, v)
	}
	return t
}

// idColumn is the first float column, which holds each row's number.
func idColumn(t *Table) int {
	for j, a := range t.Attrs {
		if _, ok := a.(*base.FloatAttribute); ok {
			return j
		}
	}
	return -1
}

type identFilter struct{ monFilter }

// wrap returns the grid itself or some other FixedDataGrid with the same rows
// (as a multiset) and the model of what it shows.
func wrap(c *Case, t *Table) (base.FixedDataGrid, *Table, string) {
	r := c.R
	switch r.Intn(4) {
	case 0:
		return t.Grid, t, "dense"
	case 1:
		p := r.Perm(t.Rows())
		nt := &Table{Attrs: t.Attrs, Class: t.Class}
		for _, i := range p {
			nt.Cells = append(nt.Cells, t.Cells[i])
		}
		return base.NewInstancesViewFromVisible(t.Grid, p, t.Attrs), nt, "masked"
	case 2:
		return base.NewInstancesViewFromAttrs(t.Grid, t.Attrs), t, "attrs"
	}
	p := r.Perm(t.Rows())
	m := map[int]int{}
	nt := &Table{Attrs: t.Attrs, Class: t.Class}
	for k, i := range p {
		m[k] = i
		nt.Cells = append(nt.Cells, t.Cells[i])
	}
	return base.NewInstancesViewFromRows(t.Grid, m), nt, "mapped"
}

func expectOf(t *Table, cells [][][]byte) *expectGrid {
	e := t.expect()
	e.Cells = cells
	return e
}

// cellsOf reads a grid in the table's column order.
func cellsOf(g base.FixedDataGrid, attrs []base.Attribute) [][][]byte {
	_, rows := g.Size()
	out := make([][][]byte, rows)
	specs := make([]base.AttributeSpec, len(attrs))
	for j, a := range attrs {
		s, err := g.GetAttribute(a)
		if err != nil {
			panic(err)
		}
		specs[j] = s
	}
	for i := range out {
		out[i] = make([][]byte, len(attrs))
		for j := range attrs {
			out[i][j] = append([]byte(nil), g.Get(specs[j], i)...)
		}
	}
	return out
}

func c05Shuffle(c *Case) {
	r := c.R
	n := big(r, r.Intn(40), 2500)
	t := idTable(c, n)
	g, m, kind := wrap(c, t)
	want := tableKeys(m, allIdx(len(m.Attrs)))
	before := snapshot(t.Grid)
	var s base.FixedDataGrid
	lazy := r.Intn(2) == 0
	if lazy {
		s = base.LazyShuffle(g)
	} else {
		s = base.Shuffle(g)
	}
	c.Desc = fmt.Sprintf("shuffle lazy=%v of %s %s", lazy, kind, t.describe(3))
	c.Sig("shuffle", lazy, kind, n, kinds(t))
	if n < 2 {
		c.Trivial()
	}
	if got := rowKeys(s, t.Attrs); !sameMultiset(got, want) {
		c.Failf("shuffling %d rows of a %s grid did not conserve the rows: %s", n, kind, diffMulti(want, got))
	}
	checkGridX(c, "shuffled", s, expectOf(t, cellsOf(s, t.Attrs)), false, false)
	if (lazy || kind != "dense") && snapshot(t.Grid) != before {
		c.Failf("a lazy shuffle changed its source")
	}
	c.Obs("rows_accounted", n)
}

func diffMulti(want, got []string) string {
	cnt := map[string]int{}
	for _, k := range want {
		cnt[k]++
	}
	for _, k := range got {
		cnt[k]--
	}
	lost, extra := 0, 0
	for _, v := range cnt {
		if v > 0 {
			lost += v
		} else {
			extra -= v
		}
	}
	return fmt.Sprintf("%d rows lost, %d rows extra or altered (had %d, got %d)", lost, extra, len(want), len(got))
}

func c05Split(c *Case) {
	r := c.R
	n := r.Intn(60)
	if r.Intn(20) == 0 {
		n = 2000 + r.Intn(2000)
	}
	t := idTable(c, n)
	g, m, kind := wrap(c, t)
	prop := []float64{0, 0.1, 0.25, 0.5, 0.6, 0.75, 0.9, 1, r.Float64()}[r.Intn(9)]
	want := tableKeys(m, allIdx(len(m.Attrs)))
	train, test := base.InstancesTrainTestSplit(g, prop)
	c.Desc = fmt.Sprintf("split %.3f of %s %s", prop, kind, t.describe(3))
	c.Sig("split", kind, n, prop)
	if n < 2 {
		c.Trivial()
	}
	a := rowKeys(train, t.Attrs)
	b := rowKeys(test, t.Attrs)
	if !sameMultiset(append(append([]string(nil), a...), b...), want) {
		c.Failf("train and test rows together are not the source rows: %s", diffMulti(want, append(append([]string(nil), a...), b...)))
	}
	checkGridX(c, "train", train, expectOf(t, cellsOf(train, t.Attrs)), false, false)
	checkGridX(c, "test", test, expectOf(t, cellsOf(test, t.Attrs)), false, false)
	if n >= 1000 {
		// "one containing approximately that fraction and the other what's left"
		sd := 6*math.Sqrt(0.25/float64(n)) + 0.025
		f1, f2 := float64(len(a))/float64(n), float64(len(b))/float64(n)
		if math.Abs(f1-prop) > sd && math.Abs(f2-prop) > sd {
			c.Failf("neither part holds about %.3f of %d rows: %.3f and %.3f", prop, n, f1, f2)
		}
		c.Obs("fractions_checked", 1)
	}
	c.Obs("rows_accounted", n)
}

func c05Sample(c *Case) {
	r := c.R
	n := 1 + big(r, r.Intn(30), 2500)
	t := idTable(c, n)
	g, m, kind := wrap(c, t)
	size := r.Intn(2*n + 3)
	if r.Intn(3) == 0 {
		size = n
	}
	s := base.SampleWithReplacement(g, size)
	c.Desc = fmt.Sprintf("sample %d of %s %s", size, kind, t.describe(3))
	c.Sig("sample", kind, n, size)
	_, rows := s.Size()
	if rows != size {
		c.Failf("a sample of %d rows out of %d has %d rows", size, n, rows)
	}
	src := map[string]bool{}
	for _, k := range tableKeys(m, allIdx(len(m.Attrs))) {
		src[k] = true
	}
	for i, k := range rowKeys(s, t.Attrs) {
		if !src[k] {
			c.Failf("sampled row %d is not a row of the source", i)
		}
	}
	checkGridX(c, "sample", s, expectOf(t, cellsOf(s, t.Attrs)), false, false)
	c.Obs("rows_accounted", size)
}

func c05Decompose(c *Case) {
	r := c.R
	n := big(r, r.Intn(40), 2500)
	t := idTable(c, n)
	g, m, kind := wrap(c, t)
	var on int
	cand := t.NonClassIdx()
	on = cand[r.Intn(len(cand))]
	a := t.Attrs[on]
	_, isF := a.(*base.FloatAttribute)
	var parts map[string]base.FixedDataGrid
	key := func(row [][]byte) string { return a.GetStringFromSysVal(row[on]) }
	thr := 0.0
	if isF {
		thr = float64(r.Intn(9)) - 4
		if n > 0 && r.Intn(2) == 0 {
			thr = nudge(r, unpackF(m.Cells[r.Intn(n)][on])) // boundary
		}
		parts = base.DecomposeOnNumericAttributeThreshold(g, a, thr)
		key = func(row [][]byte) string {
			if unpackF(row[on]) > thr {
				return "1"
			}
			return "0"
		}
	} else {
		parts = base.DecomposeOnAttributeValues(g, a)
	}
	c.Desc = fmt.Sprintf("decompose %s (thr %v) on %s: %s", kind, thr, a, t.describe(4))
	c.Sig("decompose", kind, isF, n, len(parts))
	if n < 2 {
		c.Trivial()
	}
	var rest []int
	var restAttrs []base.Attribute
	for j := range t.Attrs {
		if j != on {
			rest = append(rest, j)
			restAttrs = append(restAttrs, t.Attrs[j])
		}
	}
	want := map[string][]string{}
	for _, row := range m.Cells {
		k := key(row)
		want[k] = append(want[k], tableKeys(&Table{Attrs: t.Attrs, Cells: [][][]byte{row}}, rest)[0])
	}
	if len(parts) != len(want) {
		c.Failf("decomposition has %d parts, want %d", len(parts), len(want))
	}
	var names []string
	for k := range parts {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		p := parts[k]
		if _, err := p.GetAttribute(a); err == nil {
			c.Failf("part %q still has the attribute decomposed on", k)
		}
		cols, _ := p.Size()
		if cols != len(rest) {
			c.Failf("part %q has %d attributes, want %d", k, cols, len(rest))
		}
		if got := rowKeys(p, restAttrs); !sameMultiset(got, want[k]) {
			c.Failf("part %q does not hold exactly the matching rows: %s", k, diffMulti(want[k], got))
		}
		if len(p.AllClassAttributes()) != 1 {
			c.Failf("part %q lost the class attribute", k)
		}
	}
	c.Obs("rows_accounted", n)
	c.Obs("parts", len(parts))
}

// c05Random: shuffles and samples are actually random and unbiased. The bounds
// are ~8 sigma wide.
func c05Random(c *Case) {
	n := 6
	t := idTable(c, n)
	id := idColumn(t)
	N := 6000
	pos := make([]map[float64]int, n)
	for i := range pos {
		pos[i] = map[float64]int{}
	}
	kind := c.Idx % 4
	pairs := map[[2]float64]int{}
	for k := 0; k < N; k++ {
		var s base.FixedDataGrid
		switch kind {
		case 0:
			s = base.Shuffle(base.NewDenseCopy(t.Grid))
		case 1:
			s = base.LazyShuffle(t.Grid)
		case 2:
			s = base.SampleWithReplacement(t.Grid, n)
		case 3:
			tr, te := base.InstancesTrainTestSplit(t.Grid, 0.5)
			for _, x := range cellsOf(tr, t.Attrs) {
				pos[0][unpackF(x[id])]++
			}
			for _, x := range cellsOf(te, t.Attrs) {
				pos[1][unpackF(x[id])]++
			}
			continue
		}
		last := 0.0
		for i := 0; i < n; i++ {
			v := unpackF(gridCell(s, t.Attrs[id], i))
			pos[i][v]++
			if i > 0 {
				pairs[[2]float64{last, v}]++
			}
			last = v
		}
	}
	c.Sig("random", kind, c.Idx)
	c.Desc = fmt.Sprintf("distribution of %d draws, kind %d", N, kind)
	if kind == 3 {
		for v, k := range pos[0] {
			p := float64(k) / float64(N)
			if math.Abs(p-0.5) > 8*math.Sqrt(0.25/float64(N))+0.02 {
				c.Failf("row %v fell into the first part in %.3f of splits at one half", v, p)
			}
		}
		return
	}
	exp := float64(N) / float64(n)
	sd := math.Sqrt(float64(N) * (1 / float64(n)) * (1 - 1/float64(n)))
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			v := float64(j) - 3.5
			if math.Abs(float64(pos[i][v])-exp) > 8*sd {
				c.Failf("row with id %v reached position %d in %d of %d draws, expected about %.0f", v, i, pos[i][v], N, exp)
			}
		}
	}
	// neighbouring rows are drawn independently
	m := float64(N * (n - 1))
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			p := 1 / float64(n*n)
			if kind != 2 {
				p = 1 / float64(n*(n-1))
				if i == j {
					p = 0
				}
			}
			got := pairs[[2]float64{float64(i) - 3.5, float64(j) - 3.5}]
			if math.Abs(float64(got)-m*p) > 10*math.Sqrt(m*p) {
				c.Failf("row %d was followed by row %d in %d of %.0f places, expected about %.0f", i, j, got, m, m*p)
			}
		}
	}
	c.Obs("draws", N)
}
