package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"gonum.org/v1/gonum/stat/distuv"
)

func init() {
	register(&Property{
		ID:   "C16",
		Rule: "binning and ChiMerge filters are trained on generated grids (ties, constant columns, values closer than the label precision, several attributes, 1-4 classes, imbalanced) and applied to the training grid and to fresh rows inside and outside its range; bins are recomputed from the column's range, ChiMerge intervals from the class frequencies; distinct by filter parameters, sizes and styles",
		W: []Workload{
			{Name: "binning", Quick: 36000, Thorough: 144000, Fn: c16Binning},
			{Name: "chimerge", Quick: 36000, Thorough: 144000, Fn: c16ChiMerge},
			{Name: "frequencies", Quick: 12000, Thorough: 48000, Fn: c16Freq},
			{Name: "refuse", Quick: 3600, Thorough: 14400, Fn: c16Refuse},
		},
	})
}

func c16Tables(c *Case, n, q int) (*Table, *Table, []int, string) {
	r := c.R
	style := []string{"ints", "gauss", "wide", "unit", "tiny", "constant", "signal", "near"}[r.Intn(8)]
	o := GenOpts{Floats: 1 + r.Intn(3), Cats: r.Intn(2), Bins: r.Intn(2), ClassCat: many(r, 1+r.Intn(4)), ShuffleAttrOrder: true}
	o.FloatVal = func(row, col int) float64 {
		switch style {
		case "ints":
			return genFloat(r, VSmallInt)
		case "wide":
			return genFloat(r, VWide)
		case "near":
			return genFloat(r, VNear)
		case "unit":
			return genFloat(r, VUnit)
		case "tiny":
			return 1 + float64(r.Intn(12))*1e-8
		case "constant":
			if row < n {
				return 2.5
			}
			return 2.5 + float64(r.Intn(3)-1)
		case "signal":
			return float64(r.Intn(20))
		}
		return genFloat(r, VGauss)
	}
	if style == "signal" {
		k := o.ClassCat
		o.ClassVal = func(row int, cells [][]byte) int {
			v := 0
			for _, b := range cells {
				if len(b) == 8 && unpackU(b) > 1<<32 {
					v = int(unpackF(b)) / 6
					break
				}
			}
			if r.Intn(6) == 0 {
				v = r.Intn(k)
			}
			return v % k
		}
	}
	o.UniqueNames = true
	train, test := genPair(c, o, n, q)
	var cols []int
	for j, a := range train.Attrs {
		if f, ok := a.(*base.FloatAttribute); ok && !train.Class[j] {
			f.Precision = r.Intn(8)
			if len(cols) == 0 || r.Intn(2) == 0 {
				cols = append(cols, j)
			}
		}
	}
	return train, test, cols, style
}

// c16Apply reads a filtered grid: the new attribute and value indices of the
// given columns; everything else must be as before.
func c16Apply(c *Case, what string, src base.FixedDataGrid, f base.Filter, m *Table, cols []int) (map[int]*base.CategoricalAttribute, map[int][]int) {
	lf := base.NewLazilyFilteredInstances(src, f)
	attrs := map[int]*base.CategoricalAttribute{}
	vals := map[int][]int{}
	byName := map[string]base.Attribute{}
	for _, a := range lf.AllAttributes() {
		byName[a.GetName()] = a
	}
	if len(byName) != len(m.Attrs) {
		c.Failf("%s: %d attributes, had %d", what, len(byName), len(m.Attrs))
	}
	isCol := map[int]bool{}
	for _, j := range cols {
		isCol[j] = true
	}
	for j, a := range m.Attrs {
		na := byName[a.GetName()]
		if na == nil {
			c.Failf("%s: attribute %s is gone", what, a.GetName())
		}
		s, err := lf.GetAttribute(na)
		if err != nil {
			c.Failf("%s: GetAttribute(%s): %v", what, na.GetName(), err)
		}
		if isCol[j] {
			ca, ok := na.(*base.CategoricalAttribute)
			if !ok {
				c.Failf("%s: %s was not discretised: %T", what, na.GetName(), na)
			}
			attrs[j] = ca
		} else if na.GetType() != a.GetType() {
			c.Failf("%s: %s changed its type", what, na.GetName())
		}
		for i := range m.Cells {
			b := lf.Get(s, i)
			if !isCol[j] {
				if string(b) != string(m.Cells[i][j]) {
					c.Failf("%s: row %d, %s: changed from %x to %x", what, i, a.GetName(), m.Cells[i][j], b)
				}
				continue
			}
			v := unpackU(b)
			if v >= uint64(len(attrs[j].GetValues())) {
				c.Failf("%s: row %d, %s: %v became value %d of %q", what, i, a.GetName(), m.F(i, j), v, attrs[j].GetValues())
			}
			if got := na.GetStringFromSysVal(b); got != attrs[j].GetValues()[v] {
				c.Failf("%s: row %d, %s reads %q, want %q", what, i, a.GetName(), got, attrs[j].GetValues()[v])
			}
			vals[j] = append(vals[j], int(v))
			c.Obs("values discretised", 1)
		}
		if isCol[j] {
			seen := map[string]bool{}
			for _, l := range attrs[j].GetValues() {
				if seen[l] {
					c.Failf("%s: label %q twice in %q", what, l, attrs[j].GetValues())
				}
				seen[l] = true
			}
		}
	}
	return attrs, vals
}

// c16Attr is a column's attribute or one equal to it.
func c16Attr(c *Case, t *Table, j int) base.Attribute {
	if c.R.Intn(5) == 0 {
		c.Obs("filters given equal attributes", 1)
		return base.NewFloatAttribute(t.Attrs[j].GetName())
	}
	return t.Attrs[j]
}

func c16Binning(c *Case) {
	r := c.R
	n, q := 1+big(r, r.Intn(40), 2000), big(r, r.Intn(15), 1000)
	train, test, cols, style := c16Tables(c, n, q)
	bins := 1 + r.Intn(12)
	c.Desc = fmt.Sprintf("binning (%s) into %d of %v: %s", style, bins, cols, train.describe(4))
	c.Sig("binning", style, bins, n, len(cols))
	f := filters.NewBinningFilter(train.Grid, bins)
	for _, j := range cols {
		if err := f.AddAttribute(c16Attr(c, train, j)); err != nil {
			c.Failf("AddAttribute: %v", err)
		}
	}
	if err := f.Train(); err != nil {
		c.Failf("Train: %v", err)
	}
	_ = f.String()
	before := snapshot(train.Grid)
	for pass := 0; pass < 3; pass++ {
		var src base.FixedDataGrid = train.Grid
		m := train
		switch pass {
		case 1:
			src, m = test.Grid, test
		case 2:
			// a grid of its own with equal attributes
			m = rebuild(c, test, allIdx(len(test.Attrs)), false)
			src = m.Grid
		}
		if r.Intn(4) == 0 {
			src, m, _ = wrap(c, m)
		}
		attrs, vals := c16Apply(c, fmt.Sprintf("pass %d", pass), src, f, m, cols)
		for _, j := range cols {
			min, max := math.Inf(1), math.Inf(-1)
			for i := range train.Cells {
				min = math.Min(min, train.F(i, j))
				max = math.Max(max, train.F(i, j))
			}
			delta := (max - min) / float64(bins)
			labels := attrs[j].GetValues()
			if len(labels) != bins+1 {
				c.Failf("%s: %d labels for %d bins and the maximum: %q", train.Attrs[j].GetName(), len(labels), bins, labels)
			}
			prec := train.Attrs[j].(*base.FloatAttribute).Precision
			for k, l := range labels {
				v, err := strconv.ParseFloat(strings.Fields(l)[0], 64)
				want := min + float64(k)*delta
				if err != nil || math.Abs(v-want) > 0.51*math.Pow(10, -float64(prec))+1e-9*math.Max(math.Abs(min), math.Abs(max)) {
					c.Failf("bin %d starts at %v, its label is %q (precision %d)", k, want, l, prec)
				}
			}
			for i, v := range vals[j] {
				x := m.F(i, j)
				lo, hi := 0, 0
				switch {
				case x <= min:
				case x >= max:
					lo, hi = bins, bins
				default:
					p := (x - min) / delta
					lo, hi = int(math.Floor(p-1e-6)), int(math.Floor(p+0.0002))
					if hi > bins {
						hi = bins
					}
					if lo < 0 {
						lo = 0
					}
				}
				if v < lo || v > hi {
					c.Failf("%v is in bin %d..%d of %d over [%v,%v] but was put in %d", x, lo, hi, bins, min, max, v)
				}
			}
		}
	}
	unchanged(c, "BinningFilter", train.Grid, before)
}

type chiEntry struct {
	val  float64
	freq map[string]int
	n    int
}

func chiStat(a, b *chiEntry) float64 {
	tot := float64(a.n + b.n)
	keys := map[string]bool{}
	for k := range a.freq {
		keys[k] = true
	}
	for k := range b.freq {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := 0.0
	for _, k := range ks {
		col := float64(a.freq[k] + b.freq[k])
		for _, e := range []*chiEntry{a, b} {
			exp := col * float64(e.n) / tot
			d := float64(e.freq[k]) - exp
			s += d * d / math.Max(exp, 0.5)
		}
	}
	return s
}

func chiProb(df int, x float64) float64 {
	if df < 1 || x <= 0 {
		return 0
	}
	return distuv.ChiSquared{K: float64(df)}.CDF(x)
}

// chiTable builds the class frequencies of the distinct values of a column.
func chiTable(t *Table, col int) ([]*chiEntry, int) {
	ci := t.ClassIdx()[0]
	m := map[float64]*chiEntry{}
	var out []*chiEntry
	classes := map[string]bool{}
	for i := range t.Cells {
		v := t.F(i, col)
		e := m[v]
		if e == nil {
			e = &chiEntry{val: v, freq: map[string]int{}}
			m[v] = e
			out = append(out, e)
		}
		e.freq[t.S(i, ci)]++
		classes[t.S(i, ci)] = true
		e.n++
	}
	sort.Slice(out, func(a, b int) bool { return out[a].val < out[b].val })
	return out, len(classes)
}

func chiJoin(es []*chiEntry) *chiEntry {
	n := &chiEntry{val: es[0].val, freq: map[string]int{}}
	for _, e := range es {
		for k, v := range e.freq {
			n.freq[k] += v
		}
		n.n += e.n
	}
	return n
}

// chiReference merges as the algorithm does. ok is false if rounding could
// have decided which pairs are merged.
func chiReference(es []*chiEntry, classes int, sig float64, minrows, maxrows int) (out []*chiEntry, ok bool) {
	if minrows < 2 {
		minrows = 2
	}
	if maxrows <= minrows {
		maxrows = minrows + 1
	}
	if sig == 0 {
		sig = 10
	}
	ok = true
	for len(es) > minrows {
		stats := make([]float64, len(es)-1)
		best := math.Inf(1)
		for i := range stats {
			stats[i] = chiStat(es[i], es[i+1])
			best = math.Min(best, stats[i])
		}
		p := chiProb(classes-1, best)
		if math.Abs(p-sig) < 1e-6 {
			ok = false
		}
		if !(len(es) > maxrows || p < sig) {
			break
		}
		join := make([]bool, len(stats)) // join[i]: i with i+1
		last, n, first := -5, 0, 0
		for i, s := range stats {
			if s <= best+1e-9*(1+best) {
				if best > 0 && last == i-1 {
					ok = false
				}
				if best > 0 && n > 0 && !sameFreq(es, first, i) {
					// rounding decides whether they are merged in one round
					ok = false
				}
				if n == 0 {
					first = i
				}
				if len(es)-n <= minrows {
					ok = ok && false
					break
				}
				join[i] = true
				last = i
				n++
			}
		}
		if n > 1 && len(es) > maxrows && len(es)-n < maxrows && p >= sig && best > 0 {
			ok = false // only some of the tied pairs may have been needed
		}
		var next []*chiEntry
		for i := 0; i < len(es); {
			k := i
			for k < len(join) && join[k] {
				k++
			}
			next = append(next, chiJoin(es[i:k+1]))
			i = k + 1
		}
		es = next
	}
	return es, ok
}

// sameFreq: are the pairs at i and k the same class frequencies?
func sameFreq(es []*chiEntry, i, k int) bool {
	for d := 0; d < 2; d++ {
		if fmt.Sprint(es[i+d].freq) != fmt.Sprint(es[k+d].freq) {
			return false
		}
	}
	return true
}

func c16ChiMerge(c *Case) {
	r := c.R
	n, q := 2+r.Intn(50), r.Intn(15)
	if r.Intn(8) == 0 {
		n = 100 + r.Intn(400)
	}
	train, test, cols, style := c16Tables(c, n, q)
	sig := []float64{0.5, 0.9, 0.95, 0.99, 0}[r.Intn(5)]
	minrows, maxrows := 2, n
	f := filters.NewChiMergeFilter(train.Grid, sig)
	if r.Intn(3) == 0 {
		minrows = r.Intn(8)
		f.MinRows = minrows
	}
	if r.Intn(3) == 0 {
		maxrows = r.Intn(10)
		f.MaxRows = maxrows
	}
	c.Desc = fmt.Sprintf("chimerge (%s) sig %v rows %d..%d of %v: %s", style, sig, minrows, maxrows, cols, train.describe(4))
	c.Sig("chimerge", style, sig, minrows, maxrows, n, len(cols))
	for _, j := range cols {
		if err := f.AddAttribute(c16Attr(c, train, j)); err != nil {
			c.Failf("AddAttribute: %v", err)
		}
	}
	before := snapshot(train.Grid)
	if err := f.Train(); err != nil {
		c.Failf("Train: %v", err)
	}
	if r.Intn(4) == 0 {
		if err := f.Train(); err != nil {
			c.Failf("second Train: %v", err)
		}
	}
	_ = f.String()
	attrs, vals := c16Apply(c, "training rows", train.Grid, f, train, cols)
	_, tvals := c16Apply(c, "fresh rows", test.Grid, f, test, cols)
	unchanged(c, "ChiMergeFilter", train.Grid, before)
	for _, j := range cols {
		name := train.Attrs[j].GetName()
		es, classes := chiTable(train, j)
		// the interval each distinct value went to
		at := map[float64]int{}
		for i, v := range vals[j] {
			if o, ok := at[train.F(i, j)]; ok && o != v {
				c.Failf("%s: %v went to intervals %d and %d", name, train.F(i, j), o, v)
			}
			at[train.F(i, j)] = v
		}
		labels := attrs[j].GetValues()
		var groups [][]*chiEntry
		for _, e := range es {
			k := at[e.val]
			if k == len(groups) {
				groups = append(groups, nil)
			} else if k != len(groups)-1 {
				c.Failf("%s: value %v went to interval %d after %d", name, e.val, k, len(groups)-1)
			}
			groups[k] = append(groups[k], e)
		}
		if len(groups) != len(labels) {
			c.Failf("%s: training values fill %d of the %d intervals %q", name, len(groups), len(labels), labels)
		}
		var merged []*chiEntry
		for k, g := range groups {
			m := chiJoin(g)
			merged = append(merged, m)
			v, err := strconv.ParseFloat(strings.Fields(labels[k])[0], 64)
			if err != nil || math.Abs(v-m.val) > 0.51e-6+1e-12*math.Abs(m.val) {
				c.Failf("%s: interval %d starts at %v, its label is %q", name, k, m.val, labels[k])
			}
		}
		for i, v := range tvals[j] {
			x := test.F(i, j)
			want := 0
			for k, m := range merged {
				if m.val <= x {
					want = k
				}
			}
			if v != want {
				c.Failf("%s: %v went to interval %d (from %v), want %d (from %v)", name, x, v, merged[v].val, want, merged[want].val)
			}
		}
		// what merging promises
		mr := minrows
		if mr < 2 {
			mr = 2
		}
		xr := maxrows
		if xr <= mr {
			xr = mr + 1
		}
		s := sig
		if s == 0 {
			s = 10
		}
		if len(es) >= mr && len(merged) < mr {
			c.Failf("%s: %d intervals of %d values, at least %d were asked for", name, len(merged), len(es), mr)
		}
		if len(merged) > xr {
			c.Failf("%s: %d intervals, at most %d were asked for", name, len(merged), xr)
		}
		if len(merged) > mr {
			for k := 0; k+1 < len(merged); k++ {
				if p := chiProb(classes-1, chiStat(merged[k], merged[k+1])); p < s-1e-6 {
					c.Failf("%s: intervals from %v %v and %v %v differ with probability %v < %v but were not merged", name, merged[k].val, merged[k].freq, merged[k+1].val, merged[k+1].freq, p, s)
				}
			}
		}
		want, ok := chiReference(es, classes, sig, minrows, maxrows)
		if !ok {
			c.Obs("merges decided by rounding", 1)
			continue
		}
		var a, b []float64
		for _, e := range merged {
			a = append(a, e.val)
		}
		for _, e := range want {
			b = append(b, e.val)
		}
		if fmt.Sprint(a) != fmt.Sprint(b) {
			c.Failf("%s: intervals start at %v, want %v", name, a, b)
		}
		c.Obs("merges reproduced", 1)
		c.Obs("intervals", len(a))
	}
}

func c16Freq(c *Case) {
	n := 1 + c.R.Intn(60)
	train, _, cols, style := c16Tables(c, n, 1)
	src, m, kind := wrap(c, train)
	j := cols[0]
	c.Desc = fmt.Sprintf("frequencies (%s, %s) of %s", style, kind, train.describe(4))
	c.Sig("freq", style, kind, n)
	es, _ := chiTable(m, j)
	got := filters.ChiMBuildFrequencyTable(m.Attrs[j], src)
	if len(got) != len(es) {
		c.Failf("%d entries for %d distinct values", len(got), len(es))
	}
	sort.Slice(got, func(a, b int) bool { return got[a].Value < got[b].Value })
	for i, e := range es {
		if got[i].Value != e.val {
			c.Failf("value %v, want %v", got[i].Value, e.val)
		}
		sum := 0
		for k, v := range got[i].Frequency {
			if e.freq[k] != v {
				c.Failf("value %v: class %s counted %d times, want %d", e.val, k, v, e.freq[k])
			}
			sum += v
		}
		if sum != e.n {
			c.Failf("value %v: %d rows counted, want %d", e.val, sum, e.n)
		}
		c.Obs("frequencies checked", 1)
	}
}

func c16Refuse(c *Case) {
	r := c.R
	t := genTable(r, GenOpts{Rows: 3, Floats: 1, Cats: 1, Bins: 1, ClassCat: 2})
	kind := r.Intn(2)
	var a base.Attribute
	if kind == 0 {
		a = t.Attrs[1+r.Intn(2)]
	} else {
		a = base.NewFloatAttribute("stranger")
	}
	c.Sig("refuse", kind, a.GetType())
	c.Desc = fmt.Sprintf("AddAttribute(%v)", a)
	var err error
	if r.Intn(2) == 0 {
		err = filters.NewBinningFilter(t.Grid, 3).AddAttribute(a)
	} else {
		err = filters.NewChiMergeFilter(t.Grid, 0.9).AddAttribute(a)
	}
	if err == nil {
		c.Failf("AddAttribute(%v) was accepted", a)
	}
	c.Obs("refusals checked", 1)
}
