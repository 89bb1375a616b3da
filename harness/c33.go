package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
)

func init() {
	register(&Property{
		ID:   "C33",
		Rule: "float and binary conversion filters trained on random subsets of mixed grids (1-6 valued categoricals, floats of every sign and magnitude, infinities, binaries) and read through a filtered grid; every converted cell recomputed, one-hot rows checked to have exactly one 1, untouched columns compared; distinct by filter, subset and schema",
		W: []Workload{
			{Name: "convert", Quick: 270000, Thorough: 1080000, Fn: c33Convert},
		},
	})
}

func c33Convert(c *Case) {
	r := c.R
	t := genTable(r, GenOpts{Rows: big(r, r.Intn(30), 1500), Floats: big(r, r.Intn(4), 60), Cats: r.Intn(4), Bins: r.Intn(4), CatVals: big(r, []int{0, 1, 2, 3, 6}[r.Intn(5)], 400), ClassCat: 1 + r.Intn(4), ClassBin: r.Intn(4) == 0, Style: []ValueStyle{VSmallInt, VGauss, VSpecial, VWide}[r.Intn(4)], ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0})
	toFloat := r.Intn(2) == 0
	var f base.Filter
	if toFloat {
		f = filters.NewFloatConvertFilter()
	} else {
		f = filters.NewBinaryConvertFilter()
	}
	chosen := map[int]bool{}
	attrs := t.Attrs
	if r.Intn(4) == 0 {
		attrs = rebuild(c, t, allIdx(len(t.Attrs)), false).Attrs
		c.Obs("filters given equal attributes", 1)
	}
	var order []int
	for _, j := range r.Perm(len(t.Attrs)) {
		if r.Intn(3) > 0 {
			chosen[j] = true
			order = append(order, j)
			if err := f.AddAttribute(attrs[j]); err != nil {
				c.Failf("AddAttribute: %v", err)
			}
		}
	}
	if err := f.Train(); err != nil {
		c.Failf("Train: %v", err)
	}
	again := r.Intn(4)
	if again == 0 {
		// training a filter again changes nothing, unless there are new values
		if j := r.Intn(len(t.Attrs)); r.Intn(2) == 0 {
			for _, a := range []base.Attribute{t.Attrs[j], attrs[j]} {
				if ca, ok := a.(*base.CategoricalAttribute); ok {
					ca.GetSysValFromString("appeared later")
					c.Obs("values appearing between trainings", 1)
				}
			}
		}
		if err := f.Train(); err != nil {
			c.Failf("second Train: %v", err)
		}
		c.Obs("filters trained twice", 1)
	}
	before := snapshot(t.Grid)
	g := base.NewLazilyFilteredInstances(t.Grid, f)
	if again == 1 {
		// nor does it change the grids which use it
		if err := f.Train(); err != nil {
			c.Failf("second Train: %v", err)
		}
		c.Obs("filters trained twice", 1)
	}
	c.Desc = fmt.Sprintf("toFloat=%v converted=%v train again=%v %s", toFloat, order, again, t.describe(3))
	c.Sig(toFloat, len(order), kinds(t), t.Rows())
	// expected attributes by source column
	type target struct {
		name string
		val  int // categorical value index or -1
	}
	want := map[int][]target{}
	for _, j := range order {
		a := t.Attrs[j]
		if ca, ok := a.(*base.CategoricalAttribute); ok && len(ca.GetValues()) > 2 {
			for k, v := range ca.GetValues() {
				want[j] = append(want[j], target{a.GetName() + "_" + v, k})
			}
			continue
		}
		want[j] = []target{{a.GetName(), -1}}
	}
	byName := map[string]base.Attribute{}
	all := g.AllAttributes()
	for _, a := range all {
		if byName[a.GetName()] != nil {
			c.Failf("two attributes called %s", a.GetName())
		}
		byName[a.GetName()] = a
	}
	total, convertedWant := 0, 0
	classWant := map[string]bool{}
	for j, a := range t.Attrs {
		if !chosen[j] {
			total++
			if byName[a.GetName()] == nil || !byName[a.GetName()].Equals(a) {
				c.Failf("%s was not converted but the filtered grid has %v", a, byName[a.GetName()])
			}
			if t.Class[j] {
				classWant[a.GetName()] = true
			}
			for i := range t.Cells {
				if got := gridCell(g, a, i); !bytes.Equal(got, t.Cells[i][j]) {
					c.Failf("untouched %s row %d: %v want %v", a, i, got, t.Cells[i][j])
				}
			}
			continue
		}
		total += len(want[j])
		convertedWant += len(want[j])
		for _, tg := range want[j] {
			n := byName[tg.name]
			if n == nil {
				c.Failf("conversion of %s made no attribute %q", a, tg.name)
			}
			_, isF := n.(*base.FloatAttribute)
			_, isB := n.(*base.BinaryAttribute)
			if (toFloat && !isF) || (!toFloat && !isB) {
				c.Failf("conversion of %s made %s", a, n)
			}
			if t.Class[j] {
				classWant[tg.name] = true
			}
			for i := range t.Cells {
				cell := t.Cells[i][j]
				var v float64
				switch a.(type) {
				case *base.CategoricalAttribute:
					if tg.val >= 0 {
						if unpackU(cell) == uint64(tg.val) {
							v = 1
						}
					} else {
						v = float64(unpackU(cell))
					}
				case *base.BinaryAttribute:
					v = float64(cell[0])
				default:
					v = unpackF(cell)
					if !toFloat {
						if v != 0 {
							v = 1
						} else {
							v = 0
						}
					}
				}
				got := gridCell(g, n, i)
				var gv float64
				if toFloat {
					if len(got) != 8 {
						c.Failf("%s row %d is %v", n, i, got)
					}
					gv = unpackF(got)
				} else {
					if len(got) != 1 || got[0] > 1 {
						c.Failf("%s row %d is %v", n, i, got)
					}
					gv = float64(got[0])
				}
				if math.Float64bits(gv) != math.Float64bits(v) {
					c.Failf("%s of %s in row %d is %v, want %v", n, showCell(a, cell), i, gv, v)
				}
				c.Obs("cells_converted", 1)
			}
		}
	}
	if n := len(f.GetAttributesAfterFiltering()); n != convertedWant {
		c.Failf("the filter makes %d attributes, want %d", n, convertedWant)
	}
	if len(all) != total {
		c.Failf("filtered grid has %d attributes, want %d", len(all), total)
	}
	got := map[string]bool{}
	for _, a := range g.AllClassAttributes() {
		got[a.GetName()] = true
	}
	if fmt.Sprint(got) != fmt.Sprint(classWant) {
		c.Failf("class attributes %v, want %v", got, classWant)
	}
	// MapOverRows agrees with Get
	specs := base.ResolveAllAttributes(g)
	n := 0
	err := g.MapOverRows(specs, func(row [][]byte, i int) (bool, error) {
		for k := range specs {
			if !bytes.Equal(row[k], g.Get(specs[k], i)) {
				c.Failf("MapOverRows and Get disagree on %s in row %d", specs[k].GetAttribute(), i)
			}
		}
		n++
		return true, nil
	})
	if err != nil || n != t.Rows() {
		c.Failf("MapOverRows visited %d of %d rows: %v", n, t.Rows(), err)
	}
	if snapshot(t.Grid) != before {
		c.Failf("the filter changed the source")
	}
}
