package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/sjwhitworth/golearn/base"
)

func init() {
	register(&Property{
		ID:   "C01",
		Rule: "random operation histories (schema building, Extend, Set, Get, MapOverRows, class changes, schema changes after allocation, copies) on dense grids against a shadow table; a case is non-trivial if it wrote at least one cell, and distinct by its schema shape, growth history and operation mix",
		W: []Workload{
			{Name: "dense-history", Quick: 48000, Thorough: 200000, Fn: c01History},
			{Name: "dense-wide", Quick: 6, Thorough: 40, Fn: c01Wide},
			{Name: "dense-very-wide", Quick: 2, Thorough: 4, Fn: c01VeryWide},
			{Name: "dense-copy", Quick: 18000, Thorough: 60000, Fn: c01Copy},
		},
	})
}

func c01Schema(c *Case) (*base.DenseInstances, *Table) {
	r := c.R
	g := base.NewDenseInstances()
	t := &Table{Grid: g}
	n := big(r, 1+r.Intn(8), 120)
	if r.Intn(4) == 0 {
		n += r.Intn(24)
	}
	groups := map[string]bool{}
	shared := r.Intn(4) == 0 // attributes of different kinds share names
	for i := 0; i < n; i++ {
		var a base.Attribute
		kind := ""
		size := 8
		name := fmt.Sprintf("%c%d", "fcb"[r.Intn(3)], i)
		if shared {
			name = fmt.Sprint("n", i/3)
		}
		switch r.Intn(3) {
		case 0:
			a, kind = base.NewFloatAttribute(name), "F"
		case 1:
			a = newCat(r, name, big(r, 1+r.Intn(5), 600))
			kind = fmt.Sprintf("C%d", i)
		case 2:
			a, kind, size = base.NewBinaryAttribute(name), "B", 0
		}
		for _, b := range t.Attrs {
			if b.Equals(a) { // the same name is enough for different attributes only
				a.SetName(fmt.Sprint(name, "-", i))
			}
		}
		var sp base.AttributeSpec
		if r.Intn(2) == 0 {
			gn := fmt.Sprintf("%s/%d", kind, r.Intn(3))
			if !groups[gn] {
				if _, err := g.AddAttributeToAttributeGroup(a, gn); err == nil {
					c.Failf("AddAttributeToAttributeGroup accepted the missing group %q", gn)
				}
				if err := g.CreateAttributeGroup(gn, size); err != nil {
					c.Failf("CreateAttributeGroup: %v", err)
				}
				groups[gn] = true
			} else if r.Intn(4) == 0 { // which is there, with attributes in it
				if err := g.CreateAttributeGroup(gn, []int{0, 8}[r.Intn(2)]); err == nil {
					c.Failf("CreateAttributeGroup made a second group %q", gn)
				}
			}
			s, err := g.AddAttributeToAttributeGroup(a, gn)
			if err != nil {
				c.Failf("AddAttributeToAttributeGroup: %v", err)
			}
			sp = s
		} else {
			sp = g.AddAttribute(a)
		}
		t.Attrs = append(t.Attrs, a)
		t.Class = append(t.Class, false)
		t.Specs = append(t.Specs, sp)
	}
	return g, t
}

func zeroCell(a base.Attribute) []byte {
	if _, ok := a.(*base.BinaryAttribute); ok {
		return []byte{0}
	}
	return make([]byte, 8)
}

func randCell(c *Case, a base.Attribute) []byte {
	switch x := a.(type) {
	case *base.CategoricalAttribute:
		return packU(uint64(c.R.Intn(len(x.GetValues()))))
	case *base.BinaryAttribute:
		return []byte{byte(c.R.Intn(2))}
	}
	return packF(genFloat(c.R, ValueStyle(c.R.Intn(6))))
}

func c01Extend(c *Case, g *base.DenseInstances, t *Table, n int) {
	if err := g.Extend(n); err != nil {
		c.Failf("Extend(%d): %v", n, err)
	}
	for i := 0; i < n; i++ {
		row := make([][]byte, len(t.Attrs))
		for j, a := range t.Attrs {
			row[j] = zeroCell(a)
		}
		t.Cells = append(t.Cells, row)
	}
}

func c01Refused(c *Case, g *base.DenseInstances, t *Table) {
	// Schema changes after allocation must be refused, not corrupt the data.
	a := base.NewFloatAttribute("late")
	if p := Panics(func() { g.AddAttribute(a) }); p == nil {
		c.Failf("AddAttribute succeeded after storage was allocated")
	}
	if err := g.CreateAttributeGroup("late-group", 8); err == nil {
		c.Failf("CreateAttributeGroup succeeded after storage was allocated")
	}
	for name := range g.AllAttributeGroups() {
		ag, _ := g.GetAttributeGroup(name)
		ex := ag.Attributes()
		if len(ex) == 0 {
			continue
		}
		var late base.Attribute = base.NewFloatAttribute("late")
		switch ex[0].(type) {
		case *base.BinaryAttribute:
			late = base.NewBinaryAttribute("late")
		case *base.CategoricalAttribute:
			continue
		}
		var err error
		p := Panics(func() { _, err = g.AddAttributeToAttributeGroup(late, name) })
		if p == nil && err == nil {
			c.Failf("AddAttributeToAttributeGroup(%s) succeeded after storage was allocated; the layout of %d rows no longer matches", name, t.Rows())
		}
	}
	c.Obs("late_schema_changes_refused", 1)
}

func c01History(c *Case) {
	r := c.R
	g, t := c01Schema(c)
	c01Extend(c, g, t, 1+r.Intn(12))
	ops := 30 + r.Intn(120)
	var mix strings.Builder
	for k := 0; k < ops; k++ {
		switch x := r.Intn(40); {
		case x < 28:
			row, j := r.Intn(t.Rows()), r.Intn(len(t.Attrs))
			v := randCell(c, t.Attrs[j])
			sp := t.Specs[j]
			if r.Intn(2) == 0 {
				s, err := g.GetAttribute(t.Attrs[j])
				if err != nil {
					c.Failf("GetAttribute: %v", err)
				}
				sp = s
			}
			keep := append([]byte(nil), v...)
			g.Set(sp, row, v)
			for i := range v { // the grid must have copied the value
				v[i] ^= 0xff
			}
			t.Cells[row][j] = keep
			c.Obs("writes", 1)
		case x < 31:
			n := big(r, 1+r.Intn(9), 3000)
			if r.Intn(10) == 0 {
				n = 0
			}
			c01Extend(c, g, t, n)
			mix.WriteString(fmt.Sprintf("e%d", n))
			c.Obs("extends", 1)
		case x < 33:
			j := r.Intn(len(t.Attrs))
			if err := g.AddClassAttribute(t.Attrs[j]); err != nil {
				c.Failf("AddClassAttribute: %v", err)
			}
			t.Class[j] = true
			mix.WriteString("+")
		case x < 35:
			j := r.Intn(len(t.Attrs))
			if err := g.RemoveClassAttribute(t.Attrs[j]); err != nil {
				c.Failf("RemoveClassAttribute: %v", err)
			}
			t.Class[j] = false
			mix.WriteString("-")
		case x < 36:
			c01Refused(c, g, t)
			mix.WriteString("r")
		case x < 38:
			row, j := r.Intn(t.Rows()), r.Intn(len(t.Attrs))
			if got := g.Get(t.Specs[j], row); !bytes.Equal(got, t.Cells[row][j]) {
				c.Failf("Get(%s,%d)=%v want %v", t.Attrs[j].GetName(), row, got, t.Cells[row][j])
			}
			c.Obs("reads", 1)
		case x < 39:
			unknown := base.NewFloatAttribute("nowhere")
			if _, err := g.GetAttribute(unknown); err == nil {
				c.Failf("GetAttribute resolved an attribute that is not in the grid")
			}
			if err := g.AddClassAttribute(unknown); err == nil {
				c.Failf("AddClassAttribute accepted an attribute that is not in the grid")
			}
		default:
			checkGrid(c, "dense", g, t.expect(), false)
			checkRowStrings(c, "dense", g, t)
			mix.WriteString("c")
		}
	}
	checkGrid(c, "dense", g, t.expect(), false)
	checkRowStrings(c, "dense", g, t)
	// writing out of range or with a wrong length must not be silently absorbed
	for j, a := range t.Attrs {
		if _, ok := a.(*base.BinaryAttribute); ok {
			continue
		}
		if p := Panics(func() { g.Set(t.Specs[j], 0, []byte{1, 2, 3}) }); p == nil {
			c.Failf("Set with 3 bytes on %s did not panic", a)
		}
		if p := Panics(func() { g.Set(t.Specs[j], t.Rows()+r.Intn(5), make([]byte, 8)) }); p == nil {
			c.Failf("Set past the last row on %s did not panic", a)
		}
	}
	checkGrid(c, "dense after rejected writes", g, t.expect(), false)
	c.Desc = fmt.Sprintf("attrs=%v ops=%s %s", kinds(t), mix.String(), t.describe(2))
	c.Sig(kinds(t), mix.String(), t.Rows())
}

func kinds(t *Table) string {
	var b strings.Builder
	for i, a := range t.Attrs {
		switch a.(type) {
		case *base.CategoricalAttribute:
			b.WriteString("c")
		case *base.BinaryAttribute:
			b.WriteString("b")
		default:
			b.WriteString("f")
		}
		if t.Class[i] {
			b.WriteString("*")
		}
	}
	return b.String()
}

// checkRowStrings: a row's text is the text of its values, in attribute order.
func checkRowStrings(c *Case, what string, g base.FixedDataGrid, t *Table) {
	all := g.AllAttributes()
	for row := 0; row < t.Rows(); row++ {
		var want []string
		for _, a := range all {
			j := t.Index(a)
			want = append(want, t.Attrs[j].GetStringFromSysVal(t.Cells[row][j]))
		}
		got := strings.Fields(g.RowString(row))
		if strings.Join(got, " ") != strings.Join(want, " ") {
			c.Failf("%s: RowString(%d) = %q, want %q", what, row, g.RowString(row), strings.Join(want, " "))
		}
		c.Obs("row_strings", 1)
	}
}

// c01Wide drives grids with so many columns that the default groups roll over
// to a second one (page-sized rows).
func c01Wide(c *Case) {
	r := c.R
	g := base.NewDenseInstances()
	t := &Table{Grid: g}
	n := 505 + r.Intn(40)
	if c.Idx%3 == 2 {
		n = 1020 + r.Intn(20)
	}
	for i := 0; i < n; i++ {
		var a base.Attribute
		if c.Idx%3 == 1 {
			a = newCat(r, fmt.Sprintf("c%d", i), 2)
		} else {
			a = base.NewFloatAttribute(fmt.Sprintf("f%d", i))
		}
		t.Attrs = append(t.Attrs, a)
		t.Class = append(t.Class, false)
		t.Specs = append(t.Specs, g.AddAttribute(a))
		if i%97 == 0 {
			b := base.NewBinaryAttribute(fmt.Sprintf("b%d", i))
			t.Attrs = append(t.Attrs, b)
			t.Class = append(t.Class, false)
			t.Specs = append(t.Specs, g.AddAttribute(b))
		}
	}
	c01Extend(c, g, t, 2)
	for step := 0; step < 2; step++ {
		for k := 0; k < 3000; k++ {
			row, j := r.Intn(t.Rows()), r.Intn(len(t.Attrs))
			v := randCell(c, t.Attrs[j])
			g.Set(t.Specs[j], row, v)
			t.Cells[row][j] = v
		}
		c.Obs("writes", 3000)
		checkGrid(c, "wide", g, t.expect(), false)
		c01Extend(c, g, t, 1+r.Intn(2))
	}
	checkGrid(c, "wide", g, t.expect(), false)
	c.Desc = fmt.Sprintf("wide grid of %d columns in %d groups", len(t.Attrs), len(g.AllAttributeGroups()))
	c.Sig(len(t.Attrs), len(g.AllAttributeGroups()))
}

// c01VeryWide has more binary columns than fit into a page of bits, in the
// default groups (which roll over) or all in one.
func c01VeryWide(c *Case) {
	r := c.R
	n := 32768 + 20 + r.Intn(400)
	g := base.NewDenseInstances()
	own := c.Idx%2 == 1
	c.Desc = fmt.Sprintf("%d binary columns, in a group of their own: %v", n, own)
	c.Sig(n, own)
	attrs := make([]base.Attribute, n)
	for i := range attrs {
		attrs[i] = base.NewBinaryAttribute(fmt.Sprint("b", i))
	}
	specs := make([]base.AttributeSpec, n)
	if own {
		if err := g.CreateAttributeGroup("bits", 0); err != nil {
			c.Failf("CreateAttributeGroup: %v", err)
		}
	}
	for i, a := range attrs {
		if !own {
			specs[i] = g.AddAttribute(a)
			continue
		}
		var err error
		if specs[i], err = g.AddAttributeToAttributeGroup(a, "bits"); err != nil {
			c.Failf("AddAttributeToAttributeGroup: %v", err)
		}
	}
	rows := 2 + r.Intn(2)
	want := make([][]byte, rows)
	for i := range want {
		want[i] = make([]byte, n)
	}
	if err := g.Extend(rows); err != nil {
		c.Failf("Extend: %v", err)
	}
	for k := 0; k < 20000; k++ {
		row, j := r.Intn(rows), r.Intn(n)
		if k%4 == 0 {
			j = n - 1 - r.Intn(64)
		}
		v := byte(r.Intn(2))
		g.Set(specs[j], row, []byte{v})
		want[row][j] = v
	}
	for row := range want {
		for j, v := range want[row] {
			if got := g.Get(specs[j], row); len(got) != 1 || got[0] != v {
				c.Failf("row %d of binary column %d holds %v, want %d", row, j, got, v)
			}
		}
	}
	for k := 0; k < 100; k++ {
		j := r.Intn(n)
		if k%3 == 0 {
			j = n - 1 - r.Intn(30)
		}
		sp, err := g.GetAttribute(attrs[j])
		if err != nil || sp.GetAttribute() != attrs[j] {
			c.Failf("GetAttribute of binary column %d: %v, %v", j, sp, err)
		}
		if row := r.Intn(rows); g.Get(sp, row)[0] != want[row][j] {
			c.Failf("row %d of binary column %d resolves to %v, want %d", row, j, g.Get(sp, row), want[row][j])
		}
	}
	if cols, rs := g.Size(); cols != n || rs != rows || len(g.AllAttributes()) != n {
		c.Failf("Size() = %d,%d with %d attributes, want %d,%d", cols, rs, len(g.AllAttributes()), n, rows)
	}
	c.Obs("writes", 20000)
	c.Obs("cells_read", rows*n)
}

func c01Copy(c *Case) {
	r := c.R
	o := GenOpts{Rows: big(r, r.Intn(10), 2000), Floats: r.Intn(5), Cats: r.Intn(4), Bins: r.Intn(12), Style: ValueStyle(r.Intn(8)), ClassCat: r.Intn(3), ExplicitGroups: r.Intn(2) == 0, ShuffleAttrOrder: true, ClassBin: r.Intn(4) == 0}
	if o.Floats+o.Cats+o.Bins+o.ClassCat == 0 {
		o.Floats = 1
	}
	t := genTable(r, o)
	c.Desc = t.describe(3)
	c.Sig(kinds(t), o.Rows)
	before := snapshot(t.Grid)
	cp := base.NewDenseCopy(t.Grid)
	checkGrid(c, "dense copy", cp, t.expect(), false)
	e := t.expect()
	e.Cells = nil
	checkGrid(c, "structural copy", base.NewStructuralCopy(t.Grid), e, false)
	// independence: writes to the copy leave the original alone
	for k := 0; k < 20 && t.Rows() > 0; k++ {
		j, row := r.Intn(len(t.Attrs)), r.Intn(t.Rows())
		s, err := cp.GetAttribute(t.Attrs[j])
		if err != nil {
			c.Failf("copy lost attribute: %v", err)
		}
		cp.Set(s, row, randCell(c, t.Attrs[j]))
	}
	if snapshot(t.Grid) != before {
		c.Failf("writing to a copy changed the original")
	}
	c.Obs("copies", 1)
}
