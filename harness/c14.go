package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sjwhitworth/golearn/kdtree"
	"github.com/sjwhitworth/golearn/metrics/pairwise"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{
		ID:   "C14",
		Rule: "kd-trees are built over point sets of every size from one row up (gaussian, wide, integer with heavy ties, collinear, duplicated points) and queried with every k, at data points and elsewhere, under six distances; every answer is compared with a scan over all rows; distinct by size, dimension, k, distance and style",
		W: []Workload{
			{Name: "search", Quick: 192000, Thorough: 768000, Fn: c14Search},
			{Name: "errors", Quick: 8000, Thorough: 32000, Fn: c14Errors},
		},
	})
}

// oddDistance is a distance no axis bounds: the number of coordinates that
// differ by more than a threshold, plus a little.
type oddDistance struct {
	calls *int
}

func (o oddDistance) Distance(x, y *mat.Dense) float64 {
	*o.calls++
	r, cc := x.Dims()
	sum := 0.0
	for i := 0; i < r; i++ {
		for j := 0; j < cc; j++ {
			sum += math.Abs(math.Sin(x.At(i, j) - y.At(i, j)))
		}
	}
	return sum
}

func c14Points(c *Case, n, dim int) ([][]float64, string) {
	r := c.R
	style := []string{"gauss", "wide", "ints", "grid", "line", "dups", "special"}[r.Intn(7)]
	data := make([][]float64, n)
	for i := range data {
		v := make([]float64, dim)
		t := r.NormFloat64()
		for j := range v {
			switch style {
			case "gauss":
				v[j] = genFloat(r, VGauss)
			case "wide":
				v[j] = genFloat(r, VWide)
			case "ints":
				v[j] = genFloat(r, VSmallInt)
			case "grid":
				v[j] = float64(r.Intn(3))
			case "line":
				v[j] = t * float64(j+1)
			case "special":
				v[j] = []float64{0, math.Copysign(0, -1), 1e-300, -1e-300, 1e100, -1e100, 1, -1, 0.1}[r.Intn(9)]
			default:
				v[j] = genFloat(r, VGauss)
			}
		}
		if style == "dups" && i > 0 && r.Intn(3) > 0 {
			copy(v, data[r.Intn(i)])
		}
		data[i] = v
	}
	return data, style
}

func c14Search(c *Case) {
	r := c.R
	n := 1 + big(r, r.Intn(12), 3000)
	switch r.Intn(4) {
	case 0:
		n = 1 + r.Intn(60)
	case 1:
		n = 1 + r.Intn(250)
	}
	dim := 1 + r.Intn(5)
	data, style := c14Points(c, n, dim)
	orig := make([][]float64, n)
	for i := range data {
		orig[i] = append([]float64(nil), data[i]...)
	}
	calls := 0
	names := []string{"euclidean", "manhattan", "chebyshev", "cranberra", "cosine", "odd"}
	mi := r.Intn(len(names))
	metric := []pairwise.PairwiseDistanceFunc{pairwise.NewEuclidean(), pairwise.NewManhattan(), pairwise.NewChebyshev(), pairwise.NewCranberra(), pairwise.NewCosine(), oddDistance{&calls}}[mi]
	if names[mi] == "cosine" { // undefined for the zero vector
		for i := range data {
			data[i][0] = math.Abs(data[i][0]) + 0.5
			orig[i][0] = data[i][0]
			for j := range data[i] {
				if math.Abs(data[i][j]) > 1e50 {
					data[i][j] = math.Copysign(3, data[i][j])
					orig[i][j] = data[i][j]
				}
			}
		}
	}
	t := kdtree.New()
	if err := t.Build(data); err != nil {
		c.Failf("Build of %d points: %v", n, err)
	}
	if r.Intn(5) == 0 { // built again
		if err := t.Build(data); err != nil {
			c.Failf("second Build: %v", err)
		}
	}
	c.Desc = fmt.Sprintf("%d points in %d dimensions (%s), %s; first %v", n, dim, style, names[mi], orig[0])
	for q := 0; q < 6; q++ {
		k := 1 + r.Intn(n)
		switch r.Intn(6) {
		case 0:
			k = n
		case 1:
			k = 1
		case 2:
			k = 0
		}
		target := make([]float64, dim)
		switch r.Intn(3) {
		case 0:
			copy(target, orig[r.Intn(n)])
		case 1:
			for j := range target { // coordinates of different points
				target[j] = orig[r.Intn(n)][j]
			}
		default:
			for j := range target {
				target[j] = genFloat(r, []ValueStyle{VGauss, VSmallInt, VWide}[r.Intn(3)])
			}
		}
		if names[mi] == "cosine" {
			target[0] += 0.25
			zero := true
			for _, v := range target {
				if v != 0 {
					zero = false
				}
			}
			if zero {
				target[0] = 1
			}
		}
		dist := make([]float64, n)
		tx := mat.NewDense(dim, 1, append([]float64(nil), target...))
		for i := range orig {
			dist[i] = metric.Distance(tx, mat.NewDense(dim, 1, orig[i]))
		}
		sorted := append([]float64(nil), dist...)
		sort.Float64s(sorted)
		tcopy := append([]float64(nil), target...)
		calls = 0
		rows, lens, err := t.Search(k, metric, target)
		if err != nil {
			c.Failf("Search(%d, %s, %v) of %d points: %v", k, names[mi], target, n, err)
		}
		if len(rows) != k || len(lens) != k {
			c.Failf("Search(%d): %d rows and %d lengths", k, len(rows), len(lens))
		}
		tol := 0.0
		if names[mi] == "cranberra" {
			tol = 1e-12
		}
		seen := map[int]bool{}
		for i := range rows {
			if rows[i] < 0 || rows[i] >= n {
				c.Failf("Search(%d, %s, %v): row %d of %d", k, names[mi], target, rows[i], n)
			}
			if seen[rows[i]] {
				c.Failf("Search(%d, %s, %v) of %v: row %d is there twice: %v", k, names[mi], target, orig, rows[i], rows)
			}
			seen[rows[i]] = true
			if lens[i] != dist[rows[i]] {
				c.Failf("Search(%d, %s, %v): row %d at %v reported at %v", k, names[mi], target, rows[i], dist[rows[i]], lens[i])
			}
			if !feq(lens[i], sorted[i], tol) {
				c.Failf("Search(%d, %s, %v) of %v: neighbour %d at distance %v, the scan found %v (answer %v %v)", k, names[mi], target, orig, i, lens[i], sorted[i], rows, lens)
			}
		}
		again, _, err := t.Search(k, metric, target)
		if err != nil || fmt.Sprint(again) != fmt.Sprint(rows) {
			c.Failf("Search(%d, %s, %v) answered %v, then %v", k, names[mi], target, rows, again)
		}
		for j := range target {
			if target[j] != tcopy[j] {
				c.Failf("Search changed its target from %v to %v", tcopy, target)
			}
		}
		if k < n {
			c.Obs("searches leaving rows out", 1)
		}
		c.Obs("neighbours checked", k)
		c.Sig(names[mi], style, n, dim, k)
	}
	for i := range data {
		for j := range data[i] {
			if data[i][j] != orig[i][j] {
				c.Failf("the tree changed point %d from %v to %v", i, orig[i], data[i])
			}
		}
	}
}

func c14Errors(c *Case) {
	r := c.R
	n, dim := 1+r.Intn(20), 1+r.Intn(4)
	data, _ := c14Points(c, n, dim)
	t := kdtree.New()
	kind := []string{"empty", "ragged", "k", "negative", "dims", "unbuilt"}[r.Intn(6)]
	c.Desc = fmt.Sprintf("%s: %d points in %d dimensions", kind, n, dim)
	c.Sig(kind, n, dim)
	target := make([]float64, dim)
	var err error
	if p := Panics(func() {
		switch kind {
		case "empty":
			err = t.Build([][]float64{})
		case "ragged":
			i := r.Intn(n + 1)
			bad := make([]float64, dim+1)
			if r.Intn(2) == 0 {
				bad = make([]float64, dim-1)
			}
			data = append(data, nil)
			copy(data[i+1:], data[i:])
			data[i] = bad
			err = t.Build(data)
		case "unbuilt":
			_, _, err = t.Search(1+r.Intn(3), pairwise.NewEuclidean(), target)
		default:
			if e := t.Build(data); e != nil {
				c.Failf("Build: %v", e)
			}
			k := 1 + r.Intn(n)
			switch kind {
			case "k":
				k = n + 1 + r.Intn(5)
			case "negative":
				k = -1 - r.Intn(5)
			case "dims":
				target = make([]float64, dim+1)
				if r.Intn(2) == 0 {
					target = make([]float64, dim-1)
				}
			}
			_, _, err = t.Search(k, pairwise.NewEuclidean(), target)
		}
	}); p != nil {
		c.Failf("%s: panic: %v", kind, p)
	}
	if err == nil {
		c.Failf("%s was accepted (%d points in %d dimensions)", kind, n, dim)
	}
	c.Obs("errors checked", 1)
}
