package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
)

// Table is the shadow model of a grid: plain values, one per cell.
type Table struct {
	Attrs []base.Attribute
	Class []bool
	Cells [][][]byte // [row][attr]
	Grid  *base.DenseInstances
	Specs []base.AttributeSpec
}

func (t *Table) Rows() int { return len(t.Cells) }

func (t *Table) ClassIdx() []int {
	var r []int
	for i, c := range t.Class {
		if c {
			r = append(r, i)
		}
	}
	return r
}

func (t *Table) NonClassIdx() []int {
	var r []int
	for i, c := range t.Class {
		if !c {
			r = append(r, i)
		}
	}
	return r
}

// Index finds the model column of an attribute.
func (t *Table) Index(a base.Attribute) int {
	for i, x := range t.Attrs {
		if x == a {
			return i
		}
	}
	for i, x := range t.Attrs {
		if x.GetName() == a.GetName() && x.GetType() == a.GetType() && (x.GetType() != base.CategoricalType || sameStrings(x.(*base.CategoricalAttribute).GetValues(), a.(*base.CategoricalAttribute).GetValues()) < 0) {
			return i
		}
	}
	return -1
}

func (t *Table) F(row, col int) float64 { return unpackF(t.Cells[row][col]) }
func (t *Table) S(row, col int) string  { return sysToString(t.Attrs[col], t.Cells[row][col]) }

// independent decoders (little-endian, as the package documents in util.go)
func unpackF(b []byte) float64 {
	var u uint64
	for i := 7; i >= 0; i-- {
		u = u<<8 | uint64(b[i])
	}
	return math.Float64frombits(u)
}

func packF(f float64) []byte {
	u := math.Float64bits(f)
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(u)
		u >>= 8
	}
	return b
}

func packU(u uint64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(u)
		u >>= 8
	}
	return b
}

func unpackU(b []byte) uint64 {
	var u uint64
	for i := 7; i >= 0; i-- {
		u = u<<8 | uint64(b[i])
	}
	return u
}

func sysToString(a base.Attribute, b []byte) string {
	switch x := a.(type) {
	case *base.CategoricalAttribute:
		return x.GetValues()[unpackU(b)]
	case *base.BinaryAttribute:
		if b[0] > 0 {
			return "1"
		}
		return "0"
	default:
		return fmt.Sprint(unpackF(b))
	}
}

type ValueStyle int

const (
	VSmallInt ValueStyle = iota // heavy ties
	VGauss
	VWide // many magnitudes, both signs
	VSpecial
	VUnit
	VNonNeg
	VNear // large values closer together than single precision tells apart
	VTiny // many magnitudes, all far below 1
)

func genFloat(r *rand.Rand, s ValueStyle) float64 {
	switch s {
	case VSmallInt:
		return float64(r.Intn(7) - 3)
	case VGauss:
		return r.NormFloat64() * 3
	case VWide:
		f := r.NormFloat64() * math.Pow(10, float64(r.Intn(13)-6))
		if r.Intn(8) == 0 {
			f = 0
		}
		return f
	case VUnit:
		return r.Float64()
	case VNear:
		return 1<<24 + float64(r.Intn(16))*0.25
	case VTiny:
		return r.NormFloat64() * math.Pow(10, -6-float64(r.Intn(15)))
	case VNonNeg:
		return math.Abs(r.NormFloat64()) * 4
	case VSpecial:
		pool := []float64{0, math.Copysign(0, -1), 1, -1, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.Pi, 1e-300, 1e300, 0.1, 1.0 / 3}
		return pool[r.Intn(len(pool))]
	}
	return 0
}

func shuffleInts(r *rand.Rand, n int) []int { return r.Perm(n) }

var catWords = []string{"alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu"}

// newCat makes a categorical attribute with n values in random order.
func newCat(r *rand.Rand, name string, n int) *base.CategoricalAttribute {
	a := base.NewCategoricalAttribute()
	a.SetName(name)
	p := r.Perm(len(catWords))
	prefix := ""
	if r.Intn(12) == 0 { // told apart by their ends alone
		prefix = strings.Repeat("x", 1+r.Intn(80))
	}
	letters := r.Intn(12) == 0 // or by case alone
	for i := 0; i < n; i++ {
		w := fmt.Sprintf("w%d", i)
		if i < len(catWords) {
			w = catWords[p[i]]
			if letters {
				w = catWords[p[i]/2]
				if p[i]%2 == 1 {
					w = strings.ToUpper(w)
				}
			}
		}
		a.GetSysValFromString(prefix + w)
	}
	return a
}

// many is n, except that once in a while it is several times as much.
func many(r *rand.Rand, n int) int {
	if r.Intn(12) == 0 {
		n += 4 + r.Intn(14)
	}
	return n
}

// big is n, except that once in a few hundred times it is a much larger number
// (up to max), for what only goes wrong beyond some size.
func big(r *rand.Rand, n, max int) int {
	if r.Intn(300) != 0 {
		return n
	}
	return n + int(math.Exp(math.Log(24)+r.Float64()*(math.Log(float64(max))-math.Log(24))))
}

type GenOpts struct {
	Rows               int
	Floats, Cats, Bins int
	Style              ValueStyle
	CatVals            int
	ClassCat           int // number of class values; 0: no categorical class
	ClassFloat         bool
	ClassBin           bool
	ExplicitGroups     bool
	ShuffleAttrOrder   bool
	ClassVal           func(row int, cells [][]byte) int // optional class rule
	FloatVal           func(row, col int) float64
	SameNames          bool // attributes of different types or values may share a name
	UniqueNames        bool // not even in genPair (the model makes attributes of another type of the same name)
}

// genTable builds a grid through the public API and its shadow model.
func genTable(r *rand.Rand, o GenOpts) *Table {
	t := &Table{}
	type col struct {
		a     base.Attribute
		class bool
	}
	var cols []col
	prefix := ""
	if r.Intn(16) == 0 { // names told apart by their ends alone
		prefix = strings.Repeat("n", 1+r.Intn(80))
	}
	for i := 0; i < o.Floats; i++ {
		a := base.NewFloatAttribute(fmt.Sprintf("%sf%d", prefix, i))
		a.Precision = 6
		cols = append(cols, col{a, false})
	}
	for i := 0; i < o.Cats; i++ {
		n := o.CatVals
		if n == 0 {
			n = big(r, 2+r.Intn(4), 600)
		}
		cols = append(cols, col{newCat(r, fmt.Sprintf("%sc%d", prefix, i), n), false})
	}
	for i := 0; i < o.Bins; i++ {
		cols = append(cols, col{base.NewBinaryAttribute(fmt.Sprintf("%sb%d", prefix, i)), false})
	}
	if o.ClassCat > 0 {
		cols = append(cols, col{newCat(r, prefix+"class", o.ClassCat), true})
	}
	if o.ClassFloat {
		a := base.NewFloatAttribute(prefix + "target")
		a.Precision = 6
		cols = append(cols, col{a, true})
	}
	if o.ClassBin {
		cols = append(cols, col{base.NewBinaryAttribute(prefix + "bclass"), true})
	}
	if o.SameNames {
		for i, cl := range cols {
			old := cl.a.GetName()
			cl.a.SetName(cols[r.Intn(len(cols))].a.GetName())
			for j, other := range cols {
				if i != j && other.a.Equals(cl.a) {
					cl.a.SetName(old)
				}
			}
		}
	}
	if o.ShuffleAttrOrder {
		r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	}
	g := base.NewDenseInstances()
	groups := 2
	if o.ExplicitGroups && r.Intn(6) == 0 {
		// many groups, some of which stay empty
		groups = 20
		for k := r.Intn(16); k > 0; k-- {
			gn, size := fmt.Sprintf("F-%d", r.Intn(groups)), 8
			if r.Intn(3) == 0 {
				gn, size = fmt.Sprintf("B-%d", r.Intn(groups)), 0
			}
			if _, err := g.GetAttributeGroup(gn); err != nil {
				if err := g.CreateAttributeGroup(gn, size); err != nil {
					panic(err)
				}
			}
		}
	}
	for i, cl := range cols {
		var sp base.AttributeSpec
		if o.ExplicitGroups && r.Intn(3) > 0 {
			kind := "F"
			size := 8
			switch cl.a.(type) {
			case *base.CategoricalAttribute:
				kind = fmt.Sprintf("C%d", i) // categorical attributes of different value sets are incompatible
			case *base.BinaryAttribute:
				kind, size = "B", 0
			default:
				kind = "F"
			}
			gn := fmt.Sprintf("%s-%d", kind, r.Intn(groups))
			if _, err := g.GetAttributeGroup(gn); err != nil {
				if err := g.CreateAttributeGroup(gn, size); err != nil {
					panic(err)
				}
			}
			s, err := g.AddAttributeToAttributeGroup(cl.a, gn)
			if err != nil {
				panic(err)
			}
			sp = s
		} else {
			sp = g.AddAttribute(cl.a)
		}
		t.Attrs = append(t.Attrs, cl.a)
		t.Class = append(t.Class, cl.class)
		t.Specs = append(t.Specs, sp)
	}
	for i, cl := range cols {
		if cl.class {
			if err := g.AddClassAttribute(t.Attrs[i]); err != nil {
				panic(err)
			}
		}
	}
	if o.Rows > 1 && r.Intn(2) == 0 {
		k := 1 + r.Intn(o.Rows-1)
		g.Extend(k)
		g.Extend(o.Rows - k)
	} else {
		g.Extend(o.Rows)
	}
	t.Grid = g
	for row := 0; row < o.Rows; row++ {
		cells := make([][]byte, len(cols))
		for pass := 0; pass < 2; pass++ {
			for j, cl := range cols {
				if (pass == 1) != cl.class {
					continue
				}
				switch a := cl.a.(type) {
				case *base.CategoricalAttribute:
					n := len(a.GetValues())
					v := r.Intn(n)
					if cl.class && o.ClassVal != nil {
						v = o.ClassVal(row, cells)
					}
					cells[j] = packU(uint64(v))
				case *base.BinaryAttribute:
					cells[j] = []byte{byte(r.Intn(2))}
				default:
					v := genFloat(r, o.Style)
					if o.FloatVal != nil {
						v = o.FloatVal(row, j)
					}
					cells[j] = packF(v)
				}
			}
		}
		t.Cells = append(t.Cells, cells)
		for j := range cols {
			g.Set(t.Specs[j], row, cells[j])
		}
	}
	return t
}

// describe prints a small table compactly.
func (t *Table) describe(maxRows int) string {
	var b strings.Builder
	for j, a := range t.Attrs {
		if j > 0 {
			b.WriteString(",")
		}
		if t.Class[j] {
			b.WriteString("*")
		}
		b.WriteString(a.GetName())
	}
	fmt.Fprintf(&b, " rows=%d:", t.Rows())
	for i := range t.Cells {
		if i >= maxRows {
			b.WriteString(" ...")
			break
		}
		b.WriteString(" [")
		for j := range t.Attrs {
			if j > 0 {
				b.WriteString(" ")
			}
			b.WriteString(t.S(i, j))
		}
		b.WriteString("]")
	}
	return b.String()
}

// gridCell reads a cell of any grid by attribute.
func gridCell(g base.FixedDataGrid, a base.Attribute, row int) []byte {
	s, err := g.GetAttribute(a)
	if err != nil {
		panic(fmt.Sprintf("GetAttribute(%s): %v", a.GetName(), err))
	}
	return g.Get(s, row)
}

// expectGrid is the view model of a grid: which attributes, which class
// attributes, which cells.
type expectGrid struct {
	Attrs []base.Attribute
	Class map[int]bool
	Cells [][][]byte
	// SkipCols: the number of columns Size reports is not specified
	SkipCols bool
}

// checkGrid compares every read interface of g with the model.
// cellEq compares cells (nil: bytes.Equal).
func checkGrid(c *Case, what string, g base.FixedDataGrid, e *expectGrid, orderMatters bool) {
	checkGridX(c, what, g, e, orderMatters, true)
}

// checkGridX: rowOrder says whether MapOverRows promises ascending order.
func checkGridX(c *Case, what string, g base.FixedDataGrid, e *expectGrid, orderMatters, rowOrder bool) {
	cols, rows := g.Size()
	if (cols != len(e.Attrs) && !e.SkipCols) || rows != len(e.Cells) {
		c.Failf("%s: Size() = (%d,%d), want (%d,%d)", what, cols, rows, len(e.Attrs), len(e.Cells))
	}
	all := g.AllAttributes()
	if len(all) != len(e.Attrs) {
		c.Failf("%s: AllAttributes returned %d attributes, want %d", what, len(all), len(e.Attrs))
	}
	used := map[int]bool{}
	for k, a := range all {
		idx := -1
		for i, x := range e.Attrs {
			if !used[i] && x.Equals(a) && x.GetName() == a.GetName() {
				idx = i
				break
			}
		}
		if idx < 0 {
			c.Failf("%s: AllAttributes returned unexpected %s", what, a)
		}
		if orderMatters && idx != k {
			c.Failf("%s: AllAttributes out of order at %d", what, k)
		}
		used[idx] = true
	}
	nclass := 0
	for _, v := range e.Class {
		if v {
			nclass++
		}
	}
	ca := g.AllClassAttributes()
	seen := map[int]bool{}
	for _, a := range ca {
		idx := -1
		for i, x := range e.Attrs {
			if x.Equals(a) {
				idx = i
				break
			}
		}
		if idx < 0 || !e.Class[idx] || seen[idx] {
			c.Failf("%s: AllClassAttributes returned unexpected %s", what, a)
		}
		seen[idx] = true
	}
	if len(seen) != nclass {
		c.Failf("%s: AllClassAttributes returned %d of %d class attributes", what, len(seen), nclass)
	}
	specs := make([]base.AttributeSpec, len(e.Attrs))
	for i, a := range e.Attrs {
		s, err := g.GetAttribute(a)
		if err != nil {
			c.Failf("%s: GetAttribute(%s): %v", what, a, err)
		}
		if !s.GetAttribute().Equals(a) {
			c.Failf("%s: GetAttribute(%s) resolved to %s", what, a, s.GetAttribute())
		}
		specs[i] = s
		// attributes which are merely alike must not be resolved
		if near := nearMiss(c.R, a); near != nil {
			alike := false
			for _, x := range e.Attrs {
				alike = alike || x.Equals(near) || near.Equals(x)
			}
			if !alike {
				if s, err := g.GetAttribute(near); err == nil {
					c.Failf("%s: GetAttribute(%s) succeeded (%s), though the grid only has %s", what, near, s.GetAttribute(), a)
				}
				c.Obs("near_miss_probes", 1)
			}
		}
	}
	for row := range e.Cells {
		for j := range specs {
			got := g.Get(specs[j], row)
			if !bytes.Equal(got, e.Cells[row][j]) {
				c.Failf("%s: Get(%s, row %d) = %v, want %v", what, e.Attrs[j].GetName(), row, showCell(e.Attrs[j], got), showCell(e.Attrs[j], e.Cells[row][j]))
			}
		}
	}
	c.Obs("cells_read", len(e.Cells)*len(specs))
	// MapOverRows with a random projection and order
	p := c.R.Perm(len(specs))
	if len(p) > 1 && c.R.Intn(2) == 0 {
		p = p[:1+c.R.Intn(len(p))]
	}
	for len(p) > 0 && c.R.Intn(5) == 0 { // a column may be asked for several times
		at := c.R.Intn(len(p) + 1)
		j := p[c.R.Intn(len(p))]
		p = append(p[:at], append([]int{j}, p[at:]...)...)
	}
	proj := make([]base.AttributeSpec, len(p))
	for i, j := range p {
		proj[i] = specs[j]
	}
	next := 0
	visited := map[int]bool{}
	err := g.MapOverRows(proj, func(row [][]byte, n int) (bool, error) {
		if rowOrder && n != next {
			c.Failf("%s: MapOverRows visited row %d, expected %d", what, n, next)
		}
		if visited[n] {
			c.Failf("%s: MapOverRows visited row %d twice", what, n)
		}
		visited[n] = true
		next++
		if n < 0 || n >= len(e.Cells) {
			c.Failf("%s: MapOverRows visited row %d of %d", what, n, len(e.Cells))
		}
		if len(row) != len(p) {
			c.Failf("%s: MapOverRows passed %d values, want %d", what, len(row), len(p))
		}
		for i, j := range p {
			if !bytes.Equal(row[i], e.Cells[n][j]) {
				c.Failf("%s: MapOverRows value of %s in row %d = %v, want %v", what, e.Attrs[j].GetName(), n, showCell(e.Attrs[j], row[i]), showCell(e.Attrs[j], e.Cells[n][j]))
			}
		}
		return true, nil
	})
	if err != nil {
		c.Failf("%s: MapOverRows: %v", what, err)
	}
	if next != len(e.Cells) {
		c.Failf("%s: MapOverRows visited %d of %d rows", what, next, len(e.Cells))
	}
	c.Obs("rows_mapped", next)
	// early stop and error propagation
	if len(e.Cells) > 0 {
		stop := c.R.Intn(len(e.Cells))
		n := 0
		err := g.MapOverRows(proj, func(row [][]byte, k int) (bool, error) {
			n++
			return n != stop+1, nil
		})
		if err != nil || n != stop+1 {
			c.Failf("%s: MapOverRows stopped after %d rows (err %v), want %d", what, n, err, stop+1)
		}
		want := fmt.Errorf("stop here")
		n = 0
		err = g.MapOverRows(proj, func(row [][]byte, k int) (bool, error) {
			n++
			if n == stop+1 {
				return true, want
			}
			return true, nil
		})
		if err != want || n != stop+1 {
			c.Failf("%s: MapOverRows returned %v after %d rows, want the callback's error after %d", what, err, n, stop+1)
		}
	}
}

func showCell(a base.Attribute, b []byte) string {
	if b == nil {
		return "nil"
	}
	var s string
	if p := Panics(func() { s = sysToString(a, b) }); p != nil {
		return fmt.Sprintf("%v", b)
	}
	return fmt.Sprintf("%s%v", s, b)
}

func (t *Table) expect() *expectGrid {
	e := &expectGrid{Attrs: t.Attrs, Class: map[int]bool{}, Cells: t.Cells}
	for i, v := range t.Class {
		if v {
			e.Class[i] = true
		}
	}
	return e
}

// snapshot reads a whole grid into text, by attribute name.
func snapshot(g base.FixedDataGrid) string {
	var b strings.Builder
	attrs := g.AllAttributes()
	var names []string
	for _, a := range g.AllClassAttributes() {
		names = append(names, a.GetName())
	}
	sort.Strings(names)
	_, rows := g.Size()
	fmt.Fprintf(&b, "class=%v rows=%d\n", names, rows)
	for _, a := range attrs {
		fmt.Fprintf(&b, "%s|%d", a.GetName(), a.GetType())
		if ca, ok := a.(*base.CategoricalAttribute); ok {
			fmt.Fprintf(&b, "%q", ca.GetValues())
		}
		s, err := g.GetAttribute(a)
		if err != nil {
			fmt.Fprintf(&b, "!%v", err)
			continue
		}
		for i := 0; i < rows; i++ {
			fmt.Fprintf(&b, " %x", g.Get(s, i))
		}
		b.WriteString("\n")
	}
	return b.String()
}

func rowKeys(g base.FixedDataGrid, attrs []base.Attribute) []string {
	_, rows := g.Size()
	out := make([]string, rows)
	specs := make([]base.AttributeSpec, len(attrs))
	for i, a := range attrs {
		s, err := g.GetAttribute(a)
		if err != nil {
			panic(err)
		}
		specs[i] = s
	}
	for i := 0; i < rows; i++ {
		var b strings.Builder
		for j := range specs {
			fmt.Fprintf(&b, "%x;", g.Get(specs[j], i))
		}
		out[i] = b.String()
	}
	return out
}

func tableKeys(t *Table, idx []int) []string {
	out := make([]string, t.Rows())
	for i := range out {
		var b strings.Builder
		for _, j := range idx {
			fmt.Fprintf(&b, "%x;", t.Cells[i][j])
		}
		out[i] = b.String()
	}
	return out
}

func allIdx(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func sameMultiset(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x := append([]string(nil), a...)
	y := append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func feq(a, b, tol float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	d := math.Abs(a - b)
	return d <= tol || d <= tol*math.Max(math.Abs(a), math.Abs(b))
}

// nearMiss returns an attribute with a's name which isn't equal to a.
func nearMiss(r *rand.Rand, a base.Attribute) base.Attribute {
	var ret base.Attribute
	if ca, ok := a.(*base.CategoricalAttribute); ok && r.Intn(3) > 0 {
		vals := append([]string{}, ca.GetValues()...)
		switch k := r.Intn(3); {
		case k == 0 && len(vals) > 1:
			vals[0], vals[len(vals)-1] = vals[len(vals)-1], vals[0]
		case k == 1 && len(vals) > 0:
			vals = vals[:len(vals)-1]
		case k == 2 && len(vals) > 0:
			vals[r.Intn(len(vals))] += "?"
		default:
			vals = append(vals, "something else")
		}
		n := base.NewCategoricalAttribute()
		for _, v := range vals {
			n.GetSysValFromString(v)
		}
		ret = n
	} else {
		switch k := r.Intn(3); {
		case k == 0 && a.GetType() != base.Float64Type:
			ret = base.NewFloatAttribute("")
		case k == 1 && a.GetType() != base.BinaryType:
			ret = base.NewBinaryAttribute("")
		case k == 2 && a.GetType() != base.CategoricalType:
			ret = base.NewCategoricalAttribute()
		default:
			return nil
		}
	}
	ret.SetName(a.GetName())
	return ret
}

// nudge returns v, or one of the two floating point numbers next to it.
func nudge(r *rand.Rand, v float64) float64 {
	switch r.Intn(4) {
	case 0:
		return math.Nextafter(v, math.Inf(1))
	case 1:
		return math.Nextafter(v, math.Inf(-1))
	}
	return v
}
