package main

import (
	"fmt"
	"strings"

	"github.com/sjwhitworth/golearn/base"
)

func init() {
	register(&Property{
		ID:   "C02",
		Rule: "random stacks (depth 1-4) of row-mapping, row-masking and attribute views over random dense grids, checked cell by cell against a shadow table that applies the same mapping; distinct by schema, stack of view kinds and sizes",
		W: []Workload{
			{Name: "view-stack", Quick: 540000, Thorough: 2160000, Fn: c02Stack},
		},
	})
}

func cloneExpect(e *expectGrid) *expectGrid {
	n := &expectGrid{Attrs: append([]base.Attribute(nil), e.Attrs...), Class: map[int]bool{}, Cells: make([][][]byte, len(e.Cells))}
	for k, v := range e.Class {
		n.Class[k] = v
	}
	copy(n.Cells, e.Cells)
	return n
}

// projectExpect keeps the attributes in idx, in that order.
func projectExpect(e *expectGrid, idx []int) *expectGrid {
	n := &expectGrid{Class: map[int]bool{}}
	for k, j := range idx {
		n.Attrs = append(n.Attrs, e.Attrs[j])
		if e.Class[j] {
			n.Class[k] = true
		}
	}
	for _, row := range e.Cells {
		nr := make([][]byte, len(idx))
		for k, j := range idx {
			nr[k] = row[j]
		}
		n.Cells = append(n.Cells, nr)
	}
	return n
}

func c02Stack(c *Case) {
	r := c.R
	o := GenOpts{Rows: 1 + big(r, r.Intn(14), 1500), Floats: big(r, r.Intn(4), 60), Cats: r.Intn(3), Bins: r.Intn(5), ClassCat: r.Intn(4), Style: ValueStyle(r.Intn(8)), ExplicitGroups: r.Intn(2) == 0, ShuffleAttrOrder: true}
	if r.Intn(12) == 0 {
		o.Rows = 25 + r.Intn(30)
	}
	if o.Floats+o.Cats+o.Bins == 0 {
		o.Floats = 1
	}
	o.SameNames = r.Intn(6) == 0
	t := genTable(r, o)
	var g base.FixedDataGrid = t.Grid
	e := t.expect()
	// the order of attributes is the order the source reports
	var idx []int
	for _, a := range g.AllAttributes() {
		idx = append(idx, t.Index(a))
	}
	e = projectExpect(e, idx)
	before := snapshot(t.Grid)
	depth := 1 + r.Intn(4)
	var kindsS []string
	ordered := true
	for d := 0; d < depth; d++ {
		rows := len(e.Cells)
		switch r.Intn(3) {
		case 0: // row mapping, unmapped rows pass through
			m := map[int]int{}
			ne := cloneExpect(e)
			n := rows
			over := 0
			if rows > 0 && r.Intn(4) == 0 {
				over = 1 + r.Intn(rows+2)
				n = rows + over
				ne.Cells = make([][][]byte, n)
				copy(ne.Cells, e.Cells)
			}
			for i := 0; i < n; i++ {
				if rows > 0 && (over > 0 || r.Intn(3) > 0) {
					j := r.Intn(rows)
					m[i] = j
					ne.Cells[i] = e.Cells[j]
				}
			}
			g, e = base.NewInstancesViewFromRows(g, m), ne
			kindsS = append(kindsS, fmt.Sprintf("rows%d+%d", len(m), over))
		case 1: // masked
			var list []int
			ne := &expectGrid{}
			n := r.Intn(rows + 3)
			if rows == 0 {
				n = 0
			}
			for i := 0; i < n; i++ {
				list = append(list, r.Intn(rows))
			}
			keep := r.Perm(len(e.Attrs))
			if len(keep) > 1 && r.Intn(2) == 0 {
				keep = keep[:1+r.Intn(len(keep))]
			}
			ne = projectExpect(e, keep)
			cells := ne.Cells
			ne.Cells = nil
			for _, k := range list {
				ne.Cells = append(ne.Cells, cells[k])
			}
			var attrs []base.Attribute
			for _, k := range keep {
				attrs = append(attrs, e.Attrs[k])
			}
			hidden := hiddenAttr(e, keep)
			g, e = base.NewInstancesViewFromVisible(g, list, attrs), ne
			c02Hidden(c, g, hidden)
			ordered = false
			kindsS = append(kindsS, fmt.Sprintf("mask%d/%d", n, len(keep)))
			if len(list) > 0 { // the view keeps its own mapping
				list[0] = 1 << 20
			}
		case 2:
			keep := r.Perm(len(e.Attrs))
			if len(keep) > 1 && r.Intn(3) > 0 {
				keep = keep[:1+r.Intn(len(keep))]
			}
			if r.Intn(60) == 0 {
				keep = nil // shows no attribute at all
			}
			var attrs []base.Attribute
			for _, k := range keep {
				attrs = append(attrs, e.Attrs[k])
			}
			hidden := hiddenAttr(e, keep)
			g, e = base.NewInstancesViewFromAttrs(g, attrs), projectExpect(e, keep)
			c02Hidden(c, g, hidden)
			kindsS = append(kindsS, fmt.Sprintf("attrs%d", len(keep)))
		}
		// class changes on the view stay on the view
		if len(e.Attrs) > 0 && r.Intn(3) == 0 {
			j := r.Intn(len(e.Attrs))
			// an equal attribute will do as well
			a := e.Attrs[j]
			if r.Intn(2) == 0 {
				a = copyAttr(a)
			}
			if r.Intn(2) == 0 {
				if err := g.AddClassAttribute(a); err != nil {
					c.Failf("AddClassAttribute on view: %v", err)
				}
				e.Class[j] = true
			} else {
				if err := g.RemoveClassAttribute(a); err != nil {
					c.Failf("RemoveClassAttribute on view: %v", err)
				}
				delete(e.Class, j)
			}
		}
	}
	c.Desc = strings.Join(kindsS, " > ") + " over " + t.describe(2)
	c.Sig(kinds(t), kindsS, len(e.Cells))
	checkGridX(c, "view", g, e, true, ordered)
	c02Strings(c, g, e)
	if snapshot(t.Grid) != before {
		c.Failf("reading through views changed the source")
	}
	// views are live: a write to the source is visible through them
	for k := 0; k < 6; k++ {
		row, j := r.Intn(t.Rows()), r.Intn(len(t.Attrs))
		v := randCell(c, t.Attrs[j])
		// shared cell slices: mutate the model in place so that every mapped row sees it
		copy(t.Cells[row][j], v)
		t.Grid.Set(t.Specs[j], row, v)
	}
	checkGridX(c, "view after writing the source", g, e, true, ordered)
	c.Obs("views", depth)
}

func hiddenAttr(e *expectGrid, keep []int) base.Attribute {
	in := map[int]bool{}
	for _, k := range keep {
		in[k] = true
	}
	for i, a := range e.Attrs {
		if !in[i] {
			return a
		}
	}
	return nil
}

func c02Hidden(c *Case, g base.FixedDataGrid, h base.Attribute) {
	if h == nil {
		return
	}
	if _, err := g.GetAttribute(h); err == nil {
		c.Failf("GetAttribute(%s) succeeded although the view hides it", h)
	}
	if err := g.AddClassAttribute(h); err == nil {
		c.Failf("AddClassAttribute(%s) succeeded although the view hides it", h)
	}
	c.Obs("hidden_attribute_probes", 1)
}

func c02Strings(c *Case, g base.FixedDataGrid, e *expectGrid) {
	st := fmt.Sprint(g)
	for i, row := range e.Cells {
		var w []string
		for j, a := range e.Attrs {
			w = append(w, a.GetStringFromSysVal(row[j]))
		}
		want := strings.Join(w, " ")
		if got := g.RowString(i); strings.Join(strings.Fields(got), " ") != want {
			c.Failf("RowString(%d) = %q, want %q", i, got, want)
		}
		if i < 5 && !strings.Contains(st, want) {
			c.Failf("String() does not show row %d (%q)", i, want)
		}
	}
}
