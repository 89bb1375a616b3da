package main

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
)

func init() {
	register(&Property{
		ID:   "C10",
		Rule: "class counting functions over random grids and views (unbalanced classes, unseen class values, empty grids, every class type) against independent counts from the shadow table; distinct by function, grid kind, size and class balance",
		W: []Workload{
			{Name: "distribution", Quick: 400000, Thorough: 1600000, Fn: c10Dist},
		},
	})
}

func c10Dist(c *Case) {
	r := c.R
	n := big(r, r.Intn(40), 4000)
	mode := r.Intn(3)
	bias := r.Float64()
	o := GenOpts{Rows: n, Floats: 1 + r.Intn(3), Cats: 1 + r.Intn(3), Bins: r.Intn(3), Style: VSmallInt, ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0}
	switch mode {
	case 0:
		o.ClassCat = 1 + big(r, r.Intn(5), 400)
		k := o.ClassCat
		o.ClassVal = func(int, [][]byte) int {
			if r.Float64() < bias {
				return 0
			}
			return r.Intn(k)
		}
	case 1:
		o.ClassFloat = true
	case 2:
		o.ClassBin = true
	}
	o.SameNames = r.Intn(6) == 0
	t := genTable(r, o)
	if mode == 1 {
		j := t.ClassIdx()[0]
		for i := range t.Cells {
			v := packF([]float64{0, 1, 0, 0.0001, 0.9999}[r.Intn(5)])
			t.Cells[i][j] = v
			t.Grid.Set(t.Specs[j], i, v)
		}
	}
	g, m, kind := wrap(c, t)
	c.Desc = fmt.Sprintf("%s %s", kind, t.describe(4))
	c.Sig(mode, kind, n, o.ClassCat, math.Floor(bias*4))
	if n == 0 {
		c.Trivial()
	}
	cls := m.ClassIdx()[0]
	clsText := func(row [][]byte) string { return m.Attrs[cls].GetStringFromSysVal(row[cls]) }
	want := map[string]int{}
	for i, row := range m.Cells {
		s := clsText(row)
		want[s]++
		if got := base.GetClass(g, i); got != s {
			c.Failf("GetClass(%d) = %q, want %q", i, got, s)
		}
	}
	got := base.GetClassDistribution(g)
	if fmt.Sprint(nonzero(got)) != fmt.Sprint(want) {
		c.Failf("GetClassDistribution = %v, want %v", got, want)
	}
	c.Obs("rows_counted", n)
	switch mode {
	case 0:
		byVal := base.GetClassDistributionByCategoricalValue(g)
		vals := m.Attrs[cls].(*base.CategoricalAttribute).GetValues()
		if len(byVal) != len(vals) {
			c.Failf("GetClassDistributionByCategoricalValue has %d entries for %d values", len(byVal), len(vals))
		}
		for i, v := range vals {
			if byVal[i] != want[v] {
				c.Failf("GetClassDistributionByCategoricalValue[%d] = %d, want %d (%v)", i, byVal[i], want[v], want)
			}
		}
	case 1:
		byVal := base.GetClassDistributionByBinaryFloatValue(g)
		w := []int{0, 0}
		for _, row := range m.Cells {
			if unpackF(row[cls]) > 0.5 {
				w[1]++
			} else {
				w[0]++
			}
		}
		if len(byVal) != 2 || byVal[0] != w[0] || byVal[1] != w[1] {
			c.Failf("GetClassDistributionByBinaryFloatValue = %v, want %v", byVal, w)
		}
	}
	for _, j := range m.NonClassIdx() {
		a := m.Attrs[j]
		w := map[string]map[string]int{}
		add := func(k, s string) {
			if w[k] == nil {
				w[k] = map[string]int{}
			}
			w[k][s]++
		}
		if _, ok := a.(*base.FloatAttribute); ok {
			thr := float64(r.Intn(9)) - 4.5
			if n > 0 && r.Intn(2) == 0 {
				thr = nudge(r, unpackF(m.Cells[r.Intn(n)][j]))
			}
			for _, row := range m.Cells {
				k := "0"
				if unpackF(row[j]) > thr {
					k = "1"
				}
				add(k, clsText(row))
			}
			d := base.GetClassDistributionAfterThreshold(g, a, thr)
			if fmt.Sprint(d) != fmt.Sprint(w) {
				c.Failf("GetClassDistributionAfterThreshold(%s,%v) = %v, want %v", a, thr, d, w)
			}
		} else {
			for _, row := range m.Cells {
				add(a.GetStringFromSysVal(row[j]), clsText(row))
			}
			d := base.GetClassDistributionAfterSplit(g, a)
			if fmt.Sprint(d) != fmt.Sprint(w) {
				c.Failf("GetClassDistributionAfterSplit(%s) = %v, want %v", a, d, w)
			}
		}
		c.Obs("splits_counted", 1)
	}
	// setting classes is visible to counting
	if mode == 0 && n > 0 {
		row := r.Intn(n)
		vals := t.Attrs[cls].(*base.CategoricalAttribute).GetValues()
		v := vals[r.Intn(len(vals))]
		base.SetClass(t.Grid, row, v)
		if got := base.GetClass(t.Grid, row); got != v {
			c.Failf("GetClass after SetClass(%q) = %q", v, got)
		}
		t.Cells[row][t.ClassIdx()[0]] = packU(uint64(indexOf(vals, v)))
		checkGrid(c, "after SetClass", t.Grid, t.expect(), false)
	}
}

func indexOf(s []string, v string) int {
	for i, x := range s {
		if x == v {
			return i
		}
	}
	return -1
}

func nonzero(m map[string]int) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		if v != 0 {
			r[k] = v
		}
	}
	return r
}
