package main

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
)

func init() {
	register(&Property{
		ID:   "C04",
		Rule: "random grids (heavy ties, negative, subnormal, huge, infinite and adjacent floats; categorical and binary keys) sorted on 1-4 attributes in both directions, eagerly and lazily; the monitor checks lexicographic order, whole-row conservation with row identities, and that the lazy source is untouched; distinct by key kinds, direction, size and value style",
		W: []Workload{
			{Name: "sort", Quick: 120000, Thorough: 480000, Fn: c04Sort},
			{Name: "sort-big", Quick: 400, Thorough: 1600, Fn: c04Sort},
		},
	})
}

func adjacentPool(c *Case) func(int, int) float64 {
	b := genFloat(c.R, VWide)
	pool := []float64{b, math.Nextafter(b, math.Inf(1)), math.Nextafter(b, math.Inf(-1)), -b, math.Nextafter(-b, 0), b * 2, b / 2}
	u := math.Float64bits(b)
	pool = append(pool, math.Float64frombits(u^0x80), math.Float64frombits(u^0x8000), math.Float64frombits(u^0xff))
	return func(row, col int) float64 { return pool[c.R.Intn(len(pool))] }
}

func c04Sort(c *Case) {
	r := c.R
	n := r.Intn(30)
	if c.Workload == "sort-big" {
		n = 400 + r.Intn(900)
	}
	style := ValueStyle(r.Intn(6))
	o := GenOpts{Rows: n, Floats: 1 + r.Intn(4), Cats: r.Intn(3), Bins: r.Intn(3), ClassCat: r.Intn(3), Style: style, ExplicitGroups: r.Intn(2) == 0, ShuffleAttrOrder: true}
	if r.Intn(3) == 0 {
		o.FloatVal = adjacentPool(c)
		style = 99
	}
	o.SameNames = r.Intn(6) == 0
	t := genTable(r, o)
	// row identity
	all := allIdx(len(t.Attrs))
	nk := 1 + r.Intn(4)
	p := r.Perm(len(t.Attrs))
	if nk > len(p) {
		nk = len(p)
	}
	keys := p[:nk]
	if r.Intn(8) == 0 { // the same attribute named twice
		keys = append(append([]int(nil), keys...), keys[0])
	}
	dir := base.Ascending
	if r.Intn(2) == 0 {
		dir = base.Descending
	}
	ks := ""
	specs := make([]base.AttributeSpec, len(keys))
	for i, k := range keys {
		s, err := t.Grid.GetAttribute(t.Attrs[k])
		if err != nil {
			c.Failf("%v", err)
		}
		specs[i] = s
		ks += fmt.Sprintf("%T", t.Attrs[k])[6:7]
	}
	c.Desc = fmt.Sprintf("sort by %v dir=%d %s", ks, dir, t.describe(6))
	c.Sig(ks, dir, n, style)
	if n < 2 {
		c.Trivial()
	}
	cmp := func(a, b [][]byte) int {
		for _, k := range keys {
			x, y := a[k], b[k]
			switch t.Attrs[k].(type) {
			case *base.FloatAttribute:
				fx, fy := unpackF(x), unpackF(y)
				if fx < fy {
					return -1
				} else if fx > fy {
					return 1
				}
				// the two zeros are equal values; either order is fine, and
				// with it the order of the following keys
				if math.Float64bits(fx) != math.Float64bits(fy) {
					return 0
				}
			case *base.BinaryAttribute:
				if x[0] != y[0] {
					return int(x[0]) - int(y[0])
				}
			default:
				ux, uy := unpackU(x), unpackU(y)
				if ux < uy {
					return -1
				} else if ux > uy {
					return 1
				}
			}
		}
		return 0
	}
	check := func(what string, g base.FixedDataGrid) {
		_, rows := g.Size()
		if rows != n {
			c.Failf("%s: %d rows, want %d", what, rows, n)
		}
		cells := make([][][]byte, rows)
		for i := range cells {
			cells[i] = make([][]byte, len(t.Attrs))
			for j, a := range t.Attrs {
				cells[i][j] = append([]byte(nil), gridCell(g, a, i)...)
			}
		}
		got := tableKeys(&Table{Attrs: t.Attrs, Cells: cells}, all)
		if !sameMultiset(got, tableKeys(t, all)) {
			c.Failf("%s: the rows after sorting are not a permutation of the rows before", what)
		}
		for i := 1; i < rows; i++ {
			k := cmp(cells[i-1], cells[i])
			if (dir == base.Ascending && k > 0) || (dir == base.Descending && k < 0) {
				c.Failf("%s: rows %d and %d are out of order: %v, %v", what, i-1, i, rowText(t, cells[i-1]), rowText(t, cells[i]))
			}
		}
		c.Obs("adjacent_pairs_checked", rows)
		// iteration sees the same rows
		ex := &expectGrid{Attrs: t.Attrs, Class: t.expect().Class, Cells: cells}
		checkGridX(c, what, g, ex, false, false)
	}
	before := snapshot(t.Grid)
	lz, err := base.LazySort(t.Grid, dir, specs)
	if err != nil {
		c.Failf("LazySort: %v", err)
	}
	check("LazySort", lz)
	if snapshot(t.Grid) != before {
		c.Failf("LazySort changed its source")
	}
	// sorting a view lazily
	if n > 0 && r.Intn(4) == 0 {
		perm := r.Perm(n)
		m := map[int]int{}
		for i, j := range perm {
			m[i] = j
		}
		vw := base.NewInstancesViewFromRows(t.Grid, m)
		if r.Intn(2) == 0 {
			vw = base.NewInstancesViewFromVisible(t.Grid, perm, t.Attrs)
		}
		lz2, err := base.LazySort(vw, dir, specs)
		if err != nil {
			c.Failf("LazySort of a view: %v", err)
		}
		check("LazySort of a view", lz2)
	}
	st, err := base.Sort(t.Grid, dir, specs)
	if err != nil {
		c.Failf("Sort: %v", err)
	}
	check("Sort", st)
	// sorting again is harmless
	st2, err := base.Sort(st, dir, specs)
	if err != nil {
		c.Failf("Sort: %v", err)
	}
	check("Sort twice", st2)
	c.Obs("sorts", 3)
}

func rowText(t *Table, row [][]byte) string {
	s := ""
	for j, a := range t.Attrs {
		s += fmt.Sprintf("%s=%s ", a.GetName(), sysToString(a, row[j]))
	}
	return s
}
