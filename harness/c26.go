package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/metrics/pairwise"
)

func init() {
	register(&Property{
		ID:   "C26",
		Rule: "DBSCAN over random point sets (clumps, chains, uniform noise, integer grids with ties at eps, duplicates) and metrics against a definition-level reference (core points, density connection, border points), and cluster maps against brute-force bijections; distinct by data style, metric, parameters and result shape",
		W: []Workload{
			{Name: "dbscan", Quick: 135000, Thorough: 540000, Fn: c26DBSCAN},
			{Name: "maps", Quick: 270000, Thorough: 1080000, Fn: c26Maps},
		},
	})
}

// c26Points makes n points of dimension d in one of several styles.
func c26Points(c *Case, n, d int) ([][]float64, string) {
	r := c.R
	style := []string{"clumps", "chain", "uniform", "grid", "dups"}[r.Intn(5)]
	pts := make([][]float64, n)
	k := 1 + r.Intn(4)
	var cent [][]float64
	for i := 0; i < k; i++ {
		p := make([]float64, d)
		for j := range p {
			p[j] = r.NormFloat64() * 3
		}
		cent = append(cent, p)
	}
	for i := range pts {
		p := make([]float64, d)
		switch style {
		case "clumps":
			q := cent[r.Intn(k)]
			s := 0.3
			if r.Intn(5) == 0 {
				s = 2
			}
			for j := range p {
				p[j] = q[j] + s*r.NormFloat64()
			}
		case "chain":
			for j := range p {
				p[j] = 0.05 * r.NormFloat64()
			}
			p[0] += float64(i) * 0.5
			if r.Intn(4) == 0 {
				p[d-1] += 0.6
			}
		case "uniform":
			for j := range p {
				p[j] = r.Float64() * 4
			}
		case "grid":
			for j := range p {
				p[j] = float64(r.Intn(6))
			}
		case "dups":
			copy(p, cent[r.Intn(k)])
			if r.Intn(3) == 0 {
				p[0] += float64(r.Intn(3))
			}
		}
		pts[i] = p
	}
	r.Shuffle(n, func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
	return pts, style
}

// c26Table stores points as the float attributes of a table with extras.
func c26Table(c *Case, pts [][]float64, extra bool) (*Table, []base.Attribute) {
	r := c.R
	o := GenOpts{Rows: len(pts), Floats: len(pts[0]), ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0}
	if extra {
		o.Cats, o.Bins = r.Intn(2), r.Intn(2)
		o.ClassCat = r.Intn(2) * 3
		o.ClassFloat = r.Intn(3) == 0
	}
	t := genTable(r, o)
	attrs := make([]base.Attribute, len(pts[0]))
	for j, a := range t.Attrs {
		k := t.fIdx(a.GetName())
		if k < 0 || t.Class[j] {
			continue
		}
		attrs[k] = a
		for i := range pts {
			t.Cells[i][j] = packF(pts[i][k])
			t.Grid.Set(t.Specs[j], i, t.Cells[i][j])
		}
	}
	return t, attrs
}

func c26DBSCAN(c *Case) {
	r := c.R
	n, d := 1+r.Intn(40), 1+r.Intn(3)
	if r.Intn(10) == 0 {
		n = 60 + r.Intn(80)
	}
	if r.Intn(500) == 0 { // many rows
		n = 257 + r.Intn(400)
	}
	if r.Intn(12) == 0 {
		d = 4 + r.Intn(9)
	}
	pts, style := c26Points(c, n, d)
	eps := []float64{0, 0.1, 0.3, 0.5, 0.7, 1, 1.5, 2, 3}[r.Intn(9)]
	exact := style == "grid" // distances don't depend on rounding
	if exact && r.Intn(3) == 0 {
		eps = math.Nextafter(float64(r.Intn(4)), []float64{9, -9}[r.Intn(2)])
		if r.Intn(2) == 0 {
			eps += 1e-12 * float64(r.Intn(3)-1)
		}
		eps = math.Max(eps, 0)
	}
	scale := 1.0
	if r.Intn(4) == 0 { // the unit doesn't matter; powers of two don't round
		scale = math.Pow(2, float64(r.Intn(121)-60))
		eps *= scale
		for _, p := range pts {
			for j := range p {
				p[j] *= scale
			}
		}
	}
	t, attrs := c26Table(c, pts, r.Intn(2) == 0)
	mk := r.Intn(3)
	var metric pairwise.PairwiseDistanceFunc
	dist := func(a, b []float64) float64 { return 0 }
	switch mk {
	case 0:
		metric = pairwise.NewEuclidean()
		dist = func(a, b []float64) float64 {
			s := 0.0
			for i := range a {
				s += (a[i] - b[i]) * (a[i] - b[i])
			}
			return math.Sqrt(s)
		}
	case 1:
		metric = pairwise.NewManhattan()
		dist = func(a, b []float64) float64 {
			s := 0.0
			for i := range a {
				s += math.Abs(a[i] - b[i])
			}
			return s
		}
	case 2:
		metric = pairwise.NewChebyshev()
		dist = func(a, b []float64) float64 {
			s := 0.0
			for i := range a {
				s = math.Max(s, math.Abs(a[i]-b[i]))
			}
			return s
		}
	}
	min := 1 + r.Intn(6)
	if r.Intn(12) == 0 {
		min = []int{0, 1, n, n + 1, 1 + r.Intn(n)}[r.Intn(5)]
	}
	use := attrs
	if d > 1 && r.Intn(5) == 0 {
		use = attrs[:d-1] // cluster by some of the attributes
	}
	p2 := make([][]float64, n)
	for i := range pts {
		p2[i] = pts[i][:len(use)]
	}
	c.Desc = fmt.Sprintf("%s, metric %d, eps %v, MinCount %d, %d of %d attributes: %v", style, mk, eps, min, len(use), d, pts)
	// neighbourhoods; ties at eps which depend on rounding are avoided
	nb := make([][]int, n)
	for i := range p2 {
		for j := range p2 {
			v := dist(p2[i], p2[j])
			if i != j && v != eps && math.Abs(v-eps) < 1e-9*scale && !(exact && (mk > 0 || d == 1)) {
				c.Trivial()
				return
			}
			if i == j || v <= eps {
				nb[i] = append(nb[i], j)
			}
		}
	}
	core := make([]bool, n)
	comp := make([]int, n)
	for i := range nb {
		core[i] = len(nb[i]) >= min
		comp[i] = -1
	}
	// components of core points
	nc := 0
	for i := range comp {
		if !core[i] || comp[i] >= 0 {
			continue
		}
		stack := []int{i}
		comp[i] = nc
		for len(stack) > 0 {
			q := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			for _, k := range nb[q] {
				if core[k] && comp[k] < 0 {
					comp[k] = nc
					stack = append(stack, k)
				}
			}
		}
		nc++
	}
	before := snapshot(t.Grid)
	params := clustering.DBSCANParameters{ClusterParameters: clustering.ClusterParameters{Attributes: append([]base.Attribute(nil), use...), Metric: metric}, Eps: eps, MinCount: min}
	m, err := clustering.DBSCAN(t.Grid, params)
	if err != nil {
		c.Failf("DBSCAN: %v", err)
	}
	unchanged(c, "DBSCAN", t.Grid, before)
	inv, err := m.Invert()
	if err != nil {
		c.Failf("%v: %v", m, err)
	}
	// cluster of every component
	cl := make([]int, nc)
	for k := range cl {
		cl[k] = -1 << 40
	}
	for i := range core {
		if !core[i] {
			continue
		}
		id, ok := inv[i]
		if !ok {
			id = -1
		}
		if cl[comp[i]] == -1<<40 {
			cl[comp[i]] = id
		} else if cl[comp[i]] != id {
			c.Failf("core point %d is in cluster %d, others it is density-connected with are in %d: %v", i, id, cl[comp[i]], m)
		}
	}
	owner := map[int]int{}
	for k, id := range cl {
		if id < 0 {
			continue
		}
		if o, ok := owner[id]; ok {
			c.Failf("cluster %d joins two components (%d and %d) of core points which aren't connected: %v", id, o, k, m)
		}
		owner[id] = k
	}
	for id, members := range m {
		if _, ok := owner[id]; !ok {
			c.Failf("cluster %d = %v contains no core point", id, members)
		}
		if len(members) < min {
			c.Failf("cluster %d has %d points, MinCount is %d", id, len(members), min)
		}
		if id < 1 {
			c.Failf("cluster %d: 0 stands for noise", id)
		}
	}
	sizes := make([]int, nc)
	for i := range core {
		if core[i] {
			sizes[comp[i]]++
		}
	}
	border := 0
	for i := range core {
		if core[i] {
			continue
		}
		near := map[int]bool{}
		dropped := false
		for _, q := range nb[i] {
			if core[q] {
				near[comp[q]] = true
				if cl[comp[q]] < 0 {
					dropped = true
				}
			}
		}
		id, ok := inv[i]
		if len(near) == 0 {
			if ok {
				c.Failf("noise point %d is in cluster %d: %v", i, id, m)
			}
			continue
		}
		border++
		if !ok && !dropped {
			c.Failf("point %d is within reach of a core point and in no cluster: %v", i, m)
		}
		if ok && !near[owner[id]] {
			c.Failf("point %d is in cluster %d, none of whose core points it can reach: %v", i, id, m)
		}
		if len(near) == 1 {
			for k := range near {
				sizes[k]++
			}
		}
	}
	for k, id := range cl {
		if id < 0 && sizes[k] >= min {
			c.Failf("component %d has %d points of its own (MinCount %d) and no cluster: %v", k, sizes[k], min, m)
		}
	}
	for p := range inv {
		if p < 0 || p >= n {
			c.Failf("point %d of %d", p, n)
		}
	}
	c.Sig(style, mk, eps, min, nc, border > 0, len(inv) < n)
	c.Obs("points judged", n)
	c.Obs("border points", border)
	c.Obs("clusters", len(m))
	// the clusters don't depend on the order of the rows
	order := r.Perm(n)
	m2, err := clustering.DBSCAN(subTable(t, order).Grid, params)
	if err != nil {
		c.Failf("DBSCAN: %v", err)
	}
	inv2, err := m2.Invert()
	if err != nil {
		c.Failf("%v: %v", m2, err)
	}
	pos := make([]int, n)
	for i, k := range order {
		pos[k] = i
	}
	for i := range core {
		for j := range core {
			if core[i] && core[j] && i < j && len(m2) == len(m) {
				a, okA := inv2[pos[i]]
				b, okB := inv2[pos[j]]
				if okA && okB && (a == b) != (comp[i] == comp[j]) {
					c.Failf("core points %d and %d: together %v, after reordering the rows %v", i, j, comp[i] == comp[j], a == b)
				}
			}
		}
	}
	if len(t.Attrs) > d {
		for _, a := range t.Attrs {
			if _, ok := a.(*base.CategoricalAttribute); ok {
				bad := params
				bad.Attributes = []base.Attribute{a}
				if _, err := clustering.DBSCAN(t.Grid, bad); err == nil {
					c.Failf("DBSCAN by a categorical attribute returned no error")
				}
				break
			}
		}
	}
}

// c26Maps compares Equals and Invert with brute force.
func c26Maps(c *Case) {
	r := c.R
	gen := func() clustering.ClusterMap {
		m := clustering.ClusterMap{}
		k := r.Intn(5)
		ids := r.Perm(8)
		pts := r.Perm(7)
		if r.Intn(2) == 0 {
			pts = pts[:r.Intn(8)]
		}
		for i := 0; i < k; i++ {
			m[ids[i]] = []int{}
		}
		if k > 0 {
			for _, p := range pts {
				id := ids[r.Intn(k)]
				m[id] = append(m[id], p)
			}
		}
		if r.Intn(8) == 0 && k > 0 && len(pts) > 0 {
			id := ids[r.Intn(k)]
			m[id] = append(m[id], pts[r.Intn(len(pts))])
		}
		return m
	}
	relabel := func(m clustering.ClusterMap) clustering.ClusterMap {
		n := clustering.ClusterMap{}
		ids := r.Perm(12)
		i := 0
		var keys []int
		for k := range m {
			keys = append(keys, k)
		}
		sort.Ints(keys)
		for _, k := range keys {
			v := append([]int{}, m[k]...)
			r.Shuffle(len(v), func(a, b int) { v[a], v[b] = v[b], v[a] })
			n[ids[i]] = v
			i++
		}
		return n
	}
	a := gen()
	var b clustering.ClusterMap
	switch r.Intn(4) {
	case 0:
		b = gen()
	default:
		b = relabel(a)
		if r.Intn(2) == 0 && len(b) > 0 { // one change
			var keys []int
			for k := range b {
				keys = append(keys, k)
			}
			sort.Ints(keys)
			k := keys[r.Intn(len(keys))]
			k2 := keys[r.Intn(len(keys))]
			switch r.Intn(4) {
			case 0:
				if len(b[k]) > 0 {
					b[k] = b[k][1:]
				}
			case 1:
				b[k] = append(b[k], 50)
			case 2:
				if len(b[k]) > 0 && k != k2 {
					p := b[k][0]
					b[k] = b[k][1:]
					b[k2] = append(b[k2], p)
				}
			case 3:
				if r.Intn(2) == 0 {
					b[99] = []int{}
				} else {
					delete(b, k)
				}
			}
		}
	}
	c.Desc = fmt.Sprintf("%v vs %v", a, b)
	valid := func(m clustering.ClusterMap) bool {
		seen := map[int]bool{}
		for _, v := range m {
			for _, p := range v {
				if seen[p] {
					return false
				}
				seen[p] = true
			}
		}
		return true
	}
	canon := func(m clustering.ClusterMap) string {
		var s []string
		for _, v := range m {
			w := append([]int{}, v...)
			sort.Ints(w)
			s = append(s, fmt.Sprint(w))
		}
		sort.Strings(s)
		return fmt.Sprint(s)
	}
	for _, m := range []clustering.ClusterMap{a, b} {
		inv, err := m.Invert()
		if (err == nil) != valid(m) {
			c.Failf("Invert(%v): error %v", m, err)
		}
		if err != nil {
			continue
		}
		n := 0
		for k, v := range m {
			for _, p := range v {
				if q, ok := inv[p]; !ok || q != k {
					c.Failf("Invert(%v) = %v", m, inv)
				}
				n++
			}
		}
		if n != len(inv) {
			c.Failf("Invert(%v) = %v", m, inv)
		}
	}
	want := valid(a) && valid(b) && canon(a) == canon(b)
	c.Sig(canon(a), want)
	for _, p := range [][2]clustering.ClusterMap{{a, b}, {b, a}} {
		k1, k2 := fmt.Sprint(p[0]), fmt.Sprint(p[1])
		eq, err := p[0].Equals(p[1])
		if eq != want || (err == nil) != want {
			c.Failf("%v.Equals(%v) = %v, %v; want %v", p[0], p[1], eq, err, want)
		}
		if fmt.Sprint(p[0]) != k1 || fmt.Sprint(p[1]) != k2 {
			c.Failf("Equals changed a map")
		}
	}
	if eq, err := a.Equals(a); valid(a) && (!eq || err != nil) {
		c.Failf("%v doesn't equal itself: %v", a, err)
	}
	c.Obs("comparisons", 3)
	if want {
		c.Obs("equal maps", 1)
	}
}
