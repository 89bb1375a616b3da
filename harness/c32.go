package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/rocketlaunchr/dataframe-go"
	"github.com/sjwhitworth/golearn/base"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID:   "C32",
		Rule: "matrices (strided slices, special values) seen as grids, rows of grids and views turned into matrices under random attribute orders, complete data frames of text, integer and float columns turned into grids; every value compared exactly; distinct by direction, shape and layout",
		W: []Workload{
			{Name: "matrix-grid", Quick: 240000, Thorough: 960000, Fn: c32Mat},
			{Name: "rows-to-matrix", Quick: 240000, Thorough: 960000, Fn: c32Rows},
			{Name: "dataframe", Quick: 120000, Thorough: 480000, Fn: c32Frame},
		},
	})
}

func c32Mat(c *Case) {
	r := c.R
	rows, cols := 1+big(r, r.Intn(12), 600), 1+big(r, r.Intn(8), 80)
	d := randMat(c, rows, cols, []ValueStyle{VSpecial, VGauss, VWide, VSmallInt}[r.Intn(4)])
	before := matString(d)
	show := rows
	if r.Intn(4) == 0 {
		show = r.Intn(rows + 1) // fewer rows than the matrix has
	}
	g := base.InstancesFromMat64(show, cols, d)
	e := &expectGrid{Attrs: g.AllAttributes(), Class: map[int]bool{}}
	if len(e.Attrs) != cols {
		c.Failf("%d attributes for %d columns", len(e.Attrs), cols)
	}
	names := map[string]bool{}
	for _, a := range e.Attrs {
		if _, ok := a.(*base.FloatAttribute); !ok || names[a.GetName()] {
			c.Failf("attribute %s is a repeat or not a float", a)
		}
		names[a.GetName()] = true
	}
	for i := 0; i < show; i++ {
		row := make([][]byte, cols)
		for j := range row {
			row[j] = packF(d.At(i, j))
		}
		e.Cells = append(e.Cells, row)
	}
	c.Desc = fmt.Sprintf("%dx%d shown as %d rows: %v", rows, cols, show, mat.Formatted(d, mat.Squeeze()))
	c.Sig("mat", rows, cols, show, before)
	for k := 0; k < 3; k++ {
		j := r.Intn(cols)
		if r.Intn(3) > 0 {
			if err := g.AddClassAttribute(e.Attrs[j]); err != nil {
				c.Failf("AddClassAttribute: %v", err)
			}
			e.Class[j] = true
		} else {
			if err := g.RemoveClassAttribute(e.Attrs[j]); err != nil {
				c.Failf("RemoveClassAttribute: %v", err)
			}
			delete(e.Class, j)
		}
		checkGrid(c, "matrix grid", g, e, true)
	}
	stranger := base.NewFloatAttribute("no such column")
	if _, err := g.GetAttribute(stranger); err == nil {
		c.Failf("GetAttribute resolved an attribute the matrix does not have")
	}
	if g.AddClassAttribute(stranger) == nil || g.RemoveClassAttribute(stranger) == nil {
		c.Failf("class attribute the matrix does not have was accepted")
	}
	cp := base.NewDenseCopy(g)
	checkGrid(c, "dense copy", cp, e, false)
	if matString(d) != before {
		c.Failf("the matrix was changed")
	}
	_ = g.String()
}

func c32Rows(c *Case) {
	r := c.R
	t := genTable(r, GenOpts{Rows: big(r, r.Intn(15), 600), Floats: 1 + big(r, r.Intn(6), 80), Cats: r.Intn(3), Bins: r.Intn(2), ClassCat: r.Intn(3), ClassFloat: r.Intn(3) == 0, Style: []ValueStyle{VSpecial, VGauss, VWide, VSmallInt}[r.Intn(4)], ExplicitGroups: r.Intn(2) == 0, ShuffleAttrOrder: true})
	g, m, kind := wrap(c, t)
	var floats, others []int
	for j, a := range m.Attrs {
		if _, ok := a.(*base.FloatAttribute); ok {
			floats = append(floats, j)
		} else {
			others = append(others, j)
		}
	}
	p := r.Perm(len(floats))
	p = p[:1+r.Intn(len(p))]
	var attrs []base.Attribute
	var idx []int
	for _, k := range p {
		attrs = append(attrs, m.Attrs[floats[k]])
		idx = append(idx, floats[k])
	}
	for r.Intn(4) == 0 { // a column several times
		k, at := r.Intn(len(idx)), r.Intn(len(idx)+1)
		a, j := attrs[k], idx[k]
		attrs = append(attrs[:at], append([]base.Attribute{a}, attrs[at:]...)...)
		idx = append(idx[:at], append([]int{j}, idx[at:]...)...)
	}
	c.Desc = fmt.Sprintf("%s %v of %s", kind, idx, t.describe(3))
	c.Sig("rows", kind, kinds(t), fmt.Sprint(idx), len(m.Cells))
	if len(m.Cells) == 0 {
		c.Trivial()
	}
	before := snapshot(t.Grid)
	all, err := base.ConvertAllRowsToMat64(attrs, g)
	if err != nil || len(all) != len(m.Cells) {
		c.Failf("ConvertAllRowsToMat64 returned %d of %d rows: %v", len(all), len(m.Cells), err)
	}
	for i := range m.Cells {
		one, err := base.ConvertRowToMat64(attrs, g, i)
		if err != nil {
			c.Failf("ConvertRowToMat64: %v", err)
		}
		for w, x := range []*mat.Dense{one, all[i]} {
			a, b := x.Dims()
			if a != 1 || b != len(idx) {
				c.Failf("row %d became %dx%d", i, a, b)
			}
			for k, j := range idx {
				if math.Float64bits(x.At(0, k)) != math.Float64bits(m.F(i, j)) {
					c.Failf("conversion %d of row %d column %d is %v, want %v", w, i, k, x.At(0, k), m.F(i, j))
				}
			}
		}
		c.Obs("values", 2*len(idx))
	}
	if len(others) > 0 && len(m.Cells) > 0 {
		bad := append([]base.Attribute(nil), attrs...)
		bad = append(bad, m.Attrs[others[r.Intn(len(others))]])
		r.Shuffle(len(bad), func(i, j int) { bad[i], bad[j] = bad[j], bad[i] })
		if _, err := base.ConvertRowToMat64(bad, g, 0); err == nil {
			c.Failf("ConvertRowToMat64 accepted a non-float attribute")
		}
		if _, err := base.ConvertAllRowsToMat64(bad, g); err == nil {
			c.Failf("ConvertAllRowsToMat64 accepted a non-float attribute")
		}
	}
	if snapshot(t.Grid) != before {
		c.Failf("the grid was changed")
	}
}

func c32Frame(c *Case) {
	r := c.R
	rows, cols := 1+big(r, r.Intn(12), 600), 1+big(r, r.Intn(6), 60)
	var series []dataframe.Series
	want := make([][]interface{}, rows)
	isText := make([]bool, cols)
	for j := 0; j < cols; j++ {
		name := fmt.Sprintf("col%d", j)
		vals := make([]interface{}, rows)
		kind, wide := r.Intn(3), r.Intn(3) == 0
		for i := range vals {
			switch kind {
			case 0:
				vals[i] = genFloat(r, []ValueStyle{VSpecial, VGauss, VWide}[r.Intn(3)])
			case 1:
				vals[i] = int64(r.Intn(1<<20)) - 1<<19
				if wide {
					vals[i] = []int64{0, 1 << 31, 1<<32 + 1, 1 << 53, -1 << 31, 1<<53 - 1, math.MaxInt64, math.MinInt64, 1 << 62}[r.Intn(9)] + int64(r.Intn(3)) - 1
				}
			case 2:
				vals[i] = catWords[r.Intn(4)]
				switch r.Intn(12) {
				case 0, 1:
					vals[i] = fmt.Sprint(r.Intn(10))
				case 2:
					vals[i] = oddString(c)
				}
			}
			want[i] = append(want[i], vals[i])
		}
		switch kind {
		case 0:
			series = append(series, dataframe.NewSeriesFloat64(name, nil, vals...))
		case 1:
			series = append(series, dataframe.NewSeriesInt64(name, nil, vals...))
		case 2:
			isText[j] = true
			series = append(series, dataframe.NewSeriesString(name, nil, vals...))
		}
	}
	df := dataframe.NewDataFrame(series...)
	cls := r.Intn(cols)
	g := base.ConvertDataFrameToInstances(df, cls)
	c.Desc = fmt.Sprintf("class=%d frame=%v", cls, want)
	c.Sig("frame", cols, isText, rows)
	gc, gr := g.Size()
	if gc != cols || gr != rows {
		c.Failf("frame %dx%d became %dx%d", rows, cols, gr, gc)
	}
	attrs := g.AllAttributes()
	ca := g.AllClassAttributes()
	if len(ca) != 1 || ca[0].GetName() != fmt.Sprintf("col%d", cls) {
		c.Failf("class attributes %v, want column %d", ca, cls)
	}
	byName := map[string]base.Attribute{}
	for _, a := range attrs {
		byName[a.GetName()] = a
	}
	for j := 0; j < cols; j++ {
		a := byName[fmt.Sprintf("col%d", j)]
		if a == nil {
			c.Failf("column %d has no attribute", j)
		}
		if _, ok := a.(*base.CategoricalAttribute); ok != isText[j] {
			c.Failf("column %d became %s", j, a)
		}
		for i := 0; i < rows; i++ {
			cell := gridCell(g, a, i)
			switch v := want[i][j].(type) {
			case string:
				if s := a.GetStringFromSysVal(cell); s != v {
					c.Failf("cell (%d,%d) is %q, want %q", i, j, s, v)
				}
			case int64:
				if !bytes.Equal(cell, packF(float64(v))) {
					c.Failf("cell (%d,%d) is %v, want %v", i, j, unpackF(cell), v)
				}
			case float64:
				if !bytes.Equal(cell, packF(v)) {
					c.Failf("cell (%d,%d) is %v, want %v", i, j, unpackF(cell), v)
				}
			}
		}
	}
	c.Obs("frame_cells", rows*cols)
}
