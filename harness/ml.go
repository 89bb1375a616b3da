package main

import (
	"math"
	"strings"

	"github.com/sjwhitworth/golearn/base"
)

// Helpers shared by the checks of the learners.

// subTable copies some rows of t into a new dense grid with the same layout.
func subTable(t *Table, rows []int) *Table {
	n := &Table{Attrs: t.Attrs, Class: t.Class}
	g := base.NewDenseInstances()
	group := map[base.Attribute]string{}
	for name, ag := range t.Grid.AllAttributeGroups() {
		for _, a := range ag.Attributes() {
			group[a] = name
		}
	}
	for j, a := range t.Attrs {
		name, size := group[a], 8
		if !strings.Contains(name, "-") { // one AddAttribute made up
			g.AddAttribute(a)
			if t.Class[j] {
				if err := g.AddClassAttribute(a); err != nil {
					panic(err)
				}
			}
			continue
		}
		if _, ok := a.(*base.BinaryAttribute); ok {
			size = 0
		}
		if _, err := g.GetAttributeGroup(name); err != nil {
			if err := g.CreateAttributeGroup(name, size); err != nil {
				panic(err)
			}
		}
		if _, err := g.AddAttributeToAttributeGroup(a, name); err != nil {
			panic(err)
		}
		if t.Class[j] {
			if err := g.AddClassAttribute(a); err != nil {
				panic(err)
			}
		}
	}
	if err := g.Extend(len(rows)); err != nil {
		panic(err)
	}
	for _, a := range t.Attrs {
		s, err := g.GetAttribute(a)
		if err != nil {
			panic(err)
		}
		n.Specs = append(n.Specs, s)
	}
	for i, row := range rows {
		cells := make([][]byte, len(t.Attrs))
		for j := range cells {
			cells[j] = append([]byte(nil), t.Cells[row][j]...)
			g.Set(n.Specs[j], i, cells[j])
		}
		n.Cells = append(n.Cells, cells)
	}
	n.Grid = g
	return n
}

// genPair makes a training and a test table of the same layout.
func genPair(c *Case, o GenOpts, train, test int) (*Table, *Table) {
	o.Rows = train + test
	if !o.UniqueNames && c.R.Intn(6) == 0 {
		o.SameNames = true
	}
	t := genTable(c.R, o)
	idx := allIdx(train + test)
	return subTable(t, idx[:train]), subTable(t, idx[train:])
}

// predLabels checks the shape of a prediction grid (exactly the class
// attributes of what was predicted, one row each) and returns its labels.
func predLabels(c *Case, what string, pred base.FixedDataGrid, from *Table) []string {
	if pred == nil {
		c.Failf("%s: no error and no predictions", what)
	}
	_, rows := pred.Size()
	if rows != from.Rows() {
		c.Failf("%s: %d predictions for %d rows", what, rows, from.Rows())
	}
	cls := from.ClassIdx()
	attrs := pred.AllAttributes()
	pc := pred.AllClassAttributes()
	if len(attrs) != len(cls) || len(pc) != len(cls) {
		c.Failf("%s: the prediction grid has %d attributes, %d of them classes; the data had %d classes", what, len(attrs), len(pc), len(cls))
	}
	for _, j := range cls {
		found := false
		for _, a := range attrs {
			if a.GetName() == from.Attrs[j].GetName() && a.GetType() == from.Attrs[j].GetType() {
				found = true
			}
		}
		if !found {
			c.Failf("%s: class attribute %s is missing from the predictions", what, from.Attrs[j].GetName())
		}
	}
	out := make([]string, rows)
	s, err := pred.GetAttribute(pc[0])
	if err != nil {
		c.Failf("%s: %v", what, err)
	}
	for i := range out {
		b := pred.Get(s, i)
		if ca, ok := pc[0].(*base.CategoricalAttribute); ok {
			if v := unpackU(b); v >= uint64(len(ca.GetValues())) {
				c.Failf("%s: row %d holds class value %d of %d", what, i, v, len(ca.GetValues()))
			}
		}
		out[i] = sysToString(pc[0], b)
	}
	c.Obs("predictions checked", rows)
	return out
}

// predFloats is predLabels for a float class.
func predFloats(c *Case, what string, pred base.FixedDataGrid, from *Table) []float64 {
	predLabels(c, what, pred, from)
	pc := pred.AllClassAttributes()[0]
	s, _ := pred.GetAttribute(pc)
	_, rows := pred.Size()
	out := make([]float64, rows)
	for i := range out {
		out[i] = unpackF(pred.Get(s, i))
	}
	return out
}

func sameStrings(a, b []string) int {
	if len(a) != len(b) {
		return 0
	}
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

// unchanged fails if a grid is no longer what the snapshot says.
func unchanged(c *Case, what string, g base.FixedDataGrid, before string) {
	if snapshot(g) != before {
		c.Failf("%s changed the grid it was given:\nbefore: %.600s\nafter:  %.600s", what, before, snapshot(g))
	}
}

func finite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

// keepFilter changes nothing.
type keepFilter struct{ attrs []base.Attribute }

func (f *keepFilter) AddAttribute(a base.Attribute) error { return nil }
func (f *keepFilter) GetAttributesAfterFiltering() []base.FilteredAttribute {
	var ret []base.FilteredAttribute
	for _, a := range f.attrs {
		ret = append(ret, base.FilteredAttribute{Old: a, New: a})
	}
	return ret
}
func (f *keepFilter) String() string { return "keepFilter" }
func (f *keepFilter) Transform(a, b base.Attribute, v []byte) []byte {
	return append([]byte(nil), v...)
}
func (f *keepFilter) Train() error { return nil }

// held returns a grid with exactly the rows and columns of t, in the same
// order, which may be held in any way.
func held(c *Case, t *Table) base.FixedDataGrid {
	r := c.R
	all := t.Grid.AllAttributes()
	n := t.Rows()
	switch r.Intn(10) {
	case 0:
		return base.NewInstancesViewFromVisible(t.Grid, allIdx(n), all)
	case 1:
		return base.NewInstancesViewFromAttrs(t.Grid, all)
	case 2:
		m := map[int]int{}
		for i := 0; i < n; i++ {
			m[i] = i
		}
		return base.NewInstancesViewFromRows(t.Grid, m)
	case 3:
		return base.NewLazilyFilteredInstances(t.Grid, &keepFilter{all})
	case 4, 5: // chosen from among other rows, in another order
		if n == 0 {
			break
		}
		o := r.Perm(2*n + 3)
		src := make([]int, len(o))
		for i := range src {
			src[i] = r.Intn(n)
		}
		for i := 0; i < n; i++ {
			src[o[i]] = i
		}
		return base.NewInstancesViewFromVisible(subTable(t, src).Grid, o[:n], all)
	case 6: // a view of a view
		p, back := r.Perm(n), make([]int, n)
		for i, k := range p {
			back[k] = i
		}
		return base.NewInstancesViewFromVisible(base.NewInstancesViewFromVisible(t.Grid, p, all), back, all)
	}
	return t.Grid
}
