package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
)

func init() {
	register(&Property{
		ID:   "C03",
		Rule: "random grids seen through LazilyFilteredInstances with monitor filters (rename, float->categorical, one attribute into several) and the package's own filters; the shadow table applies the filter function to the selected columns only; every call into the filter is recorded and checked to be for a selected column; distinct by schema, filter plan and stacking",
		W: []Workload{
			{Name: "filtered-grid", Quick: 192000, Thorough: 768000, Fn: c03Grid},
			{Name: "filtered-real", Quick: 60000, Thorough: 240000, Fn: c03Real},
		},
	})
}

// monFilter is a filter whose transformation is known and whose calls are
// monitored.
type monFilter struct {
	c     *Case
	plan  []base.FilteredAttribute
	fn    map[base.Attribute]func([]byte) []byte // by New
	calls int
}

func (m *monFilter) AddAttribute(base.Attribute) error { return nil }
func (m *monFilter) Train() error                      { return nil }
func (m *monFilter) String() string                    { return "monFilter" }
func (m *monFilter) GetAttributesAfterFiltering() []base.FilteredAttribute {
	return m.plan
}
func (m *monFilter) Transform(from, to base.Attribute, b []byte) []byte {
	m.calls++
	f, ok := m.fn[to]
	if !ok {
		m.c.Failf("the filter was asked to produce %s, which it does not produce", to)
	}
	okOld := false
	for _, p := range m.plan {
		if p.New == to && p.Old == from {
			okOld = true
		}
	}
	if !okOld {
		m.c.Failf("the filter was asked to turn %s into %s", from, to)
	}
	return f(b)
}

func c03Grid(c *Case) {
	r := c.R
	o := GenOpts{Rows: big(r, r.Intn(12), 1000), Floats: 1 + big(r, r.Intn(4), 60), Cats: r.Intn(3), Bins: r.Intn(4), ClassCat: r.Intn(4), Style: VSmallInt, ExplicitGroups: r.Intn(2) == 0, ShuffleAttrOrder: true}
	o.SameNames = r.Intn(6) == 0
	t := genTable(r, o)
	var g base.FixedDataGrid = t.Grid
	var idx []int
	for _, a := range g.AllAttributes() {
		idx = append(idx, t.Index(a))
	}
	e := projectExpect(t.expect(), idx)
	rowOrder := true
	// optionally filter a view
	if r.Intn(3) == 0 && len(e.Cells) > 0 {
		var rows []int
		ne := cloneExpect(e)
		ne.Cells = nil
		for i := 0; i < 1+r.Intn(8); i++ {
			k := r.Intn(len(e.Cells))
			rows = append(rows, k)
			ne.Cells = append(ne.Cells, e.Cells[k])
		}
		g = base.NewInstancesViewFromVisible(g, rows, e.Attrs)
		e, rowOrder = ne, false
	}
	depth := 1 + r.Intn(2)
	copies := r.Intn(3) == 0 // the filter knows equal attributes
	plan := ""
	for d := 0; d < depth; d++ {
		f := &monFilter{c: c, fn: map[base.Attribute]func([]byte) []byte{}}
		ne := &expectGrid{Class: map[int]bool{}, SkipCols: e.SkipCols}
		var src []int                 // old column per new column
		var fns []func([]byte) []byte // nil: passthrough
		for j, a := range e.Attrs {
			if r.Intn(2) == 0 {
				ne.Attrs = append(ne.Attrs, a)
				if e.Class[j] {
					ne.Class[len(ne.Attrs)-1] = true
				}
				src = append(src, j)
				fns = append(fns, nil)
				plan += "."
				continue
			}
			old := a
			if copies {
				old = copyAttr(a)
			}
			n := 1
			if r.Intn(3) == 0 {
				n = 2 + r.Intn(2)
				ne.SkipCols = true
			}
			for k := 0; k < n; k++ {
				name := fmt.Sprintf("%s~%d.%d.%d", a.GetName(), d, j, k)
				var na base.Attribute
				var fn func([]byte) []byte
				k := k
				switch a.(type) {
				case *base.FloatAttribute:
					if r.Intn(2) == 0 {
						na = base.NewFloatAttribute(name)
						fn = func(b []byte) []byte { return packF(unpackF(b)*2 + float64(k) + 1) }
					} else {
						na = newCat(r, name, 3)
						fn = func(b []byte) []byte { return packU(uint64((int(math.Abs(unpackF(b))) + k) % 3)) }
					}
				case *base.CategoricalAttribute:
					na = base.NewBinaryAttribute(name)
					fn = func(b []byte) []byte {
						if unpackU(b) == uint64(k) {
							return []byte{1}
						}
						return []byte{0}
					}
				default:
					na = base.NewFloatAttribute(name)
					fn = func(b []byte) []byte { return packF(float64(b[0])*10 + float64(k)) }
				}
				f.plan = append(f.plan, base.FilteredAttribute{Old: old, New: na})
				f.fn[na] = fn
				ne.Attrs = append(ne.Attrs, na)
				if e.Class[j] {
					ne.Class[len(ne.Attrs)-1] = true
				}
				src = append(src, j)
				fns = append(fns, fn)
			}
			plan += fmt.Sprint(n)
		}
		plan += "|"
		// the order in which the filter lists its attributes is not significant
		// across different source attributes
		for i := len(f.plan) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			if f.plan[i].Old != f.plan[j].Old {
				ok := true
				lo := j
				for k := lo; k <= i; k++ {
					if (f.plan[k].Old == f.plan[i].Old && k != i) || (f.plan[k].Old == f.plan[j].Old && k != j) {
						ok = false
					}
				}
				if ok {
					f.plan[i], f.plan[j] = f.plan[j], f.plan[i]
				}
			}
		}
		for _, row := range e.Cells {
			nr := make([][]byte, len(src))
			for k, j := range src {
				if fns[k] == nil {
					nr[k] = row[j]
				} else {
					nr[k] = fns[k](row[j])
				}
			}
			ne.Cells = append(ne.Cells, nr)
		}
		lf := base.NewLazilyFilteredInstances(g, f)
		// the replaced attributes are gone
		for k := range f.plan {
			if _, err := lf.GetAttribute(f.plan[k].Old); err == nil {
				c.Failf("the filtered grid still resolves the replaced attribute %s", f.plan[k].Old)
			}
		}
		g, e = lf, ne
		c.Obs("filters", 1)
		checkGridX(c, "filtered", g, e, true, rowOrder)
		c.Obs("filter_calls", f.calls)
		if r.Intn(2) == 0 && len(e.Attrs) > 0 {
			// class changes
			j := r.Intn(len(e.Attrs))
			if err := g.AddClassAttribute(e.Attrs[j]); err != nil {
				c.Failf("AddClassAttribute: %v", err)
			}
			e.Class[j] = true
			checkGridX(c, "filtered+class", g, e, true, rowOrder)
			if r.Intn(2) == 0 {
				if err := g.RemoveClassAttribute(e.Attrs[j]); err != nil {
					c.Failf("RemoveClassAttribute: %v", err)
				}
				delete(e.Class, j)
				checkGridX(c, "filtered-class", g, e, true, rowOrder)
			}
		} else if r.Intn(2) == 0 && len(f.plan) > 0 {
			// naming the old attribute removes everything made of it
			p := f.plan[r.Intn(len(f.plan))]
			if err := g.AddClassAttribute(p.Old); err != nil {
				c.Failf("AddClassAttribute(old): %v", err)
			}
			for k, a := range e.Attrs {
				for _, q := range f.plan {
					if q.New == a && q.Old == p.Old {
						e.Class[k] = true
					}
				}
			}
			checkGridX(c, "filtered+oldclass", g, e, true, rowOrder)
			if err := g.RemoveClassAttribute(p.Old); err != nil {
				c.Failf("RemoveClassAttribute(old): %v", err)
			}
			for k, a := range e.Attrs {
				for _, q := range f.plan {
					if q.New == a && q.Old == p.Old {
						delete(e.Class, k)
					}
				}
			}
			checkGridX(c, "filtered-oldclass", g, e, true, rowOrder)
		}
		if err := g.AddClassAttribute(base.NewFloatAttribute("nowhere")); err == nil {
			c.Failf("AddClassAttribute accepted an unknown attribute")
		}
		// rows as text
		for i, row := range e.Cells {
			var w []byte
			for j, a := range e.Attrs {
				if j > 0 {
					w = append(w, ' ')
				}
				w = append(w, a.GetStringFromSysVal(row[j])...)
			}
			if got := g.RowString(i); got != string(w) {
				c.Failf("RowString(%d) = %q, want %q", i, got, w)
			}
		}
		_ = fmt.Sprint(g)
	}
	c.Desc = plan + " over " + t.describe(2)
	c.Sig(kinds(t), plan, len(e.Cells))
	if len(e.Cells) == 0 {
		c.Trivial()
	}
}

// c03Real: a grid seen through a real filter reads exactly as the filter's own
// Transform of each selected cell, through every read interface.
func c03Real(c *Case) {
	r := c.R
	o := GenOpts{Rows: 6 + big(r, r.Intn(20), 1000), Floats: 1 + r.Intn(4), Cats: r.Intn(3), Bins: r.Intn(3), ClassCat: 2 + r.Intn(2), Style: []ValueStyle{VGauss, VNonNeg, VSmallInt}[r.Intn(3)], ShuffleAttrOrder: true}
	t := genTable(r, o)
	var f base.Filter
	kind := r.Intn(4)
	switch kind {
	case 0:
		f = filters.NewBinningFilter(t.Grid, 2+r.Intn(4))
	case 1:
		f = filters.NewChiMergeFilter(t.Grid, 0.9)
	case 2:
		f = filters.NewFloatConvertFilter()
	case 3:
		f = filters.NewBinaryConvertFilter()
	}
	sel := map[int]bool{}
	for j, a := range t.Attrs {
		if t.Class[j] && kind < 2 {
			continue
		}
		if _, ok := a.(*base.FloatAttribute); !ok && kind < 2 {
			continue
		}
		if r.Intn(3) > 0 {
			if err := f.AddAttribute(a); err != nil {
				c.Failf("AddAttribute(%s): %v", a, err)
			}
			sel[j] = true
		}
	}
	if len(sel) == 0 {
		c.Trivial()
		return
	}
	if err := f.Train(); err != nil {
		c.Failf("Train: %v", err)
	}
	// the grid the filter was made for, or one with equal attributes
	u, order := t, allIdx(len(t.Attrs))
	if r.Intn(3) == 0 {
		order = r.Perm(len(t.Attrs))
		u = rebuild(c, t, order, false)
		c.Obs("grids with copied attributes", 1)
	}
	before := snapshot(u.Grid)
	g := base.NewLazilyFilteredInstances(u.Grid, f)
	plan := f.GetAttributesAfterFiltering()
	e := &expectGrid{Class: map[int]bool{}, SkipCols: true}
	type src struct {
		j   int
		new base.Attribute
	}
	var srcs []src
	for _, a := range u.Grid.AllAttributes() {
		j := u.Index(a)
		if !sel[order[j]] {
			e.Attrs = append(e.Attrs, a)
			if u.Class[j] {
				e.Class[len(e.Attrs)-1] = true
			}
			srcs = append(srcs, src{j, nil})
			continue
		}
		n := 0
		for _, p := range plan {
			if p.Old.Equals(a) {
				n++
				e.Attrs = append(e.Attrs, p.New)
				if u.Class[j] {
					e.Class[len(e.Attrs)-1] = true
				}
				srcs = append(srcs, src{j, p.New})
			}
		}
		if n == 0 {
			c.Failf("the filter dropped the selected attribute %s", a)
		}
	}
	for _, row := range u.Cells {
		nr := make([][]byte, len(srcs))
		for k, s := range srcs {
			if s.new == nil {
				nr[k] = row[s.j]
			} else {
				nr[k] = append([]byte(nil), f.Transform(t.Attrs[order[s.j]], s.new, append([]byte(nil), row[s.j]...))...)
			}
		}
		e.Cells = append(e.Cells, nr)
	}
	c.Desc = fmt.Sprintf("%T over %s", f, t.describe(2))
	c.Sig(kind, kinds(t), o.Rows, len(sel))
	checkGridX(c, "filtered", g, e, true, true)
	cp := base.NewDenseCopy(g)
	for k, a := range e.Attrs {
		for i := range e.Cells {
			if got := gridCell(cp, a, i); !bytes.Equal(got, e.Cells[i][k]) {
				c.Failf("dense copy of the filtered grid differs at (%d,%s): %v, want %v", i, a, got, e.Cells[i][k])
			}
		}
	}
	if snapshot(u.Grid) != before {
		c.Failf("reading through the filter changed the source")
	}
	c.Obs("filters", 1)
}

// copyAttr makes an equal attribute.
func copyAttr(a base.Attribute) base.Attribute {
	switch x := a.(type) {
	case *base.CategoricalAttribute:
		y := base.NewCategoricalAttribute()
		y.SetName(x.GetName())
		for _, v := range x.GetValues() {
			y.GetSysValFromString(v)
		}
		return y
	case *base.BinaryAttribute:
		return base.NewBinaryAttribute(x.GetName())
	case *base.FloatAttribute:
		y := base.NewFloatAttribute(x.GetName())
		y.Precision = x.Precision
		return y
	}
	panic("unknown attribute")
}
