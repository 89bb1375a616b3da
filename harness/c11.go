package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/evaluation"
)

func init() {
	register(&Property{
		ID:   "C11",
		Rule: "random reference/prediction pairs (differently ordered class values, classes never predicted or never true, zero rows, long labels, views, unequal lengths) and directly built matrices; every metric is recomputed from the raw pairs; distinct by class counts, sizes and agreement pattern",
		W: []Workload{
			{Name: "matrix", Quick: 600000, Thorough: 2400000, Fn: c11Matrix},
		},
	})
}

func predGrid(c *Case, labels []string, all []string) base.FixedDataGrid {
	r := c.R
	a := base.NewCategoricalAttribute()
	a.SetName("class")
	p := r.Perm(len(all))
	for _, k := range p {
		a.GetSysValFromString(all[k])
	}
	g := base.NewDenseInstances()
	if r.Intn(2) == 0 {
		g.AddAttribute(base.NewFloatAttribute("x"))
	}
	s := g.AddAttribute(a)
	g.AddClassAttribute(a)
	g.Extend(len(labels))
	if r.Intn(3) == 0 && len(labels) > 0 { // through a view
		perm := r.Perm(len(labels))
		m := map[int]int{}
		for i, j := range perm {
			g.Set(s, j, a.GetSysValFromString(labels[i]))
			m[i] = j
		}
		return base.NewInstancesViewFromRows(g, m)
	}
	for i, l := range labels {
		g.Set(s, i, a.GetSysValFromString(l))
	}
	return g
}

func c11Matrix(c *Case) {
	r := c.R
	nc := 1 + big(r, r.Intn(5), 120)
	n := big(r, r.Intn(40), 5000)
	classes := append([]string(nil), catWords...)
	for i := len(classes); i < nc; i++ {
		classes = append(classes, fmt.Sprintf("w%d", i))
	}
	classes = classes[:nc]
	if r.Intn(8) == 0 { // long labels that differ only at their ends
		pre := strings.Repeat("l", 10+r.Intn(80))
		for i := range classes {
			classes[i] = pre + classes[i]
		}
	}
	acc := r.Float64()
	skew := r.Intn(3)
	ref := make([]string, n)
	pred := make([]string, n)
	for i := range ref {
		k := r.Intn(nc)
		if skew == 1 {
			k = k * k / nc
		}
		ref[i] = classes[k]
		pred[i] = classes[r.Intn(nc)]
		if skew == 2 {
			pred[i] = classes[0]
		}
		if r.Float64() < acc {
			pred[i] = ref[i]
		}
	}
	rg, pg := predGrid(c, ref, classes), predGrid(c, pred, classes)
	c.Desc = fmt.Sprintf("ref=%v pred=%v", ref, pred)
	c.Sig(ref, pred)
	if n == 0 {
		c.Trivial()
	}
	cm, err := evaluation.GetConfusionMatrix(rg, pg)
	if err != nil {
		c.Failf("GetConfusionMatrix: %v", err)
	}
	want := map[string]map[string]int{}
	for i := range ref {
		if want[ref[i]] == nil {
			want[ref[i]] = map[string]int{}
		}
		want[ref[i]][pred[i]]++
	}
	norm := map[string]map[string]int{}
	for k, v := range cm {
		if x := nonzero(v); len(x) > 0 {
			norm[k] = x
		}
	}
	if fmt.Sprint(norm) != fmt.Sprint(want) {
		c.Failf("confusion matrix %v, want %v", cm, want)
	}
	// unequal sizes are an error
	if _, err := evaluation.GetConfusionMatrix(rg, predGrid(c, append(append([]string(nil), pred...), classes[0]), classes)); err == nil {
		c.Failf("GetConfusionMatrix accepted %d reference and %d predicted rows", n, n+1)
	}
	c.Obs("pairs", n)
	m := evaluation.ConfusionMatrix(cm)
	eq := func(name string, got, want float64) {
		if math.IsNaN(got) != math.IsNaN(want) || (!math.IsNaN(want) && math.Abs(got-want) > 1e-9) {
			c.Failf("%s = %v, want %v", name, got, want)
		}
		c.Obs("metrics", 1)
	}
	var sumTP, sumFP, sumFN, sumP, sumR float64 // sumFP over every class, the others over reference classes
	refClasses := 0
	correct := 0.0
	for i := range ref {
		if ref[i] == pred[i] {
			correct++
		}
	}
	for _, k := range classes {
		var tp, fp, fn, tn float64
		inRef := false
		for i := range ref {
			if ref[i] == k {
				inRef = true
			}
			switch {
			case ref[i] == k && pred[i] == k:
				tp++
			case ref[i] != k && pred[i] == k:
				fp++
			case ref[i] == k && pred[i] != k:
				fn++
			default:
				tn++
			}
		}
		eq("TruePositives("+k+")", evaluation.GetTruePositives(k, m), tp)
		eq("FalsePositives("+k+")", evaluation.GetFalsePositives(k, m), fp)
		eq("FalseNegatives("+k+")", evaluation.GetFalseNegatives(k, m), fn)
		eq("TrueNegatives("+k+")", evaluation.GetTrueNegatives(k, m), tn)
		p, rec := tp/(tp+fp), tp/(tp+fn)
		eq("Precision("+k+")", evaluation.GetPrecision(k, m), p)
		eq("Recall("+k+")", evaluation.GetRecall(k, m), rec)
		eq("F1("+k+")", evaluation.GetF1Score(k, m), 2*p*rec/(p+rec))
		sumFP += fp
		if inRef {
			refClasses++
			sumTP += tp
			sumFN += fn
			sumP += p
			sumR += rec
		}
	}
	eq("Accuracy", evaluation.GetAccuracy(m), correct/float64(n))
	eq("MicroPrecision", evaluation.GetMicroPrecision(m), sumTP/(sumTP+sumFP))
	eq("MicroRecall", evaluation.GetMicroRecall(m), sumTP/(sumTP+sumFN))
	eq("MacroPrecision", evaluation.GetMacroPrecision(m), sumP/float64(refClasses))
	eq("MacroRecall", evaluation.GetMacroRecall(m), sumR/float64(refClasses))
	c11Summary(c, m, want, ref, pred)
	c11Show(c, m, want)
	// cross-validated mean and variance of a metric
	k := 1 + r.Intn(24)
	ms := make([]evaluation.ConfusionMatrix, k)
	vals := make([]float64, k)
	for i := range ms {
		ms[i] = evaluation.ConfusionMatrix{"a": {"a": r.Intn(9), "b": 1 + r.Intn(9)}}
		vals[i] = float64(ms[i]["a"]["a"]) / float64(ms[i]["a"]["a"]+ms[i]["a"]["b"])
	}
	mean, va := 0.0, 0.0
	for _, v := range vals {
		mean += v / float64(k)
	}
	for _, v := range vals {
		va += (v - mean) * (v - mean) / float64(k)
	}
	gm, gv := evaluation.GetCrossValidatedMetric(ms, evaluation.GetAccuracy)
	eq("cross-validated mean", gm, mean)
	eq("cross-validated variance", gv, va)
}

func c11Summary(c *Case, m evaluation.ConfusionMatrix, want map[string]map[string]int, ref, pred []string) {
	s := evaluation.GetSummary(m)
	lines := strings.Split(strings.TrimSpace(s), "\n")
	seen := 0
	for _, l := range lines {
		f := strings.Fields(l)
		if len(f) < 7 {
			continue
		}
		k := f[0]
		if want[k] == nil {
			continue
		}
		seen++
		var tp, fp, fn, tn float64
		for i := range ref {
			switch {
			case ref[i] == k && pred[i] == k:
				tp++
			case ref[i] != k && pred[i] == k:
				fp++
			case ref[i] == k:
				fn++
			default:
				tn++
			}
		}
		p, r := tp/(tp+fp), tp/(tp+fn)
		for q, w := range []float64{tp, fp, tn, p, r, 2 * p * r / (p + r)} {
			got, err := strconv.ParseFloat(f[1+q], 64)
			if err != nil {
				c.Failf("summary line %q: %v", l, err)
			}
			if math.IsNaN(w) != math.IsNaN(got) || (!math.IsNaN(w) && math.Abs(got-w) > 0.00006) {
				c.Failf("summary of class %s shows %v in column %d, want %v\n%s", k, got, q+1, w, s)
			}
		}
	}
	if seen != len(want) {
		c.Failf("the summary shows %d of %d reference classes:\n%s", seen, len(want), s)
	}
}

// c11Show: the printed matrix shows, for every reference class and every
// predicted one, its count in the right row and column.
func c11Show(c *Case, m evaluation.ConfusionMatrix, want map[string]map[string]int) {
	if len(want) == 0 {
		return
	}
	s := evaluation.ShowConfusionMatrix(m)
	lines := strings.Split(strings.TrimSpace(s), "\n")
	head := strings.Fields(strings.TrimPrefix(lines[0], "Reference Class"))
	h2 := append([]string(nil), head...)
	sort.Strings(h2)
	need := map[string]bool{}
	for k, v := range want {
		need[k] = true
		for l := range v {
			need[l] = true
		}
	}
	var keys []string
	for k := range need {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	cols := map[string]int{}
	for i, h := range head {
		cols[h] = i
	}
	if fmt.Sprint(h2) != fmt.Sprint(keys) {
		c.Failf("the columns are %q, want %q:\n%s", h2, keys, s)
	}
	rows := 0
	for _, l := range lines[1:] {
		f := strings.Fields(l)
		if len(f) == 0 || want[f[0]] == nil {
			continue
		}
		rows++
		for k, i := range cols {
			if i+1 >= len(f) {
				c.Failf("row %s is short:\n%s", f[0], s)
			}
			got, err := strconv.Atoi(f[1+i])
			if err != nil || got != want[f[0]][k] {
				c.Failf("printed count for (%s,%s) is %s, want %d\n%s", f[0], k, f[1+i], want[f[0]][k], s)
			}
		}
	}
	if rows != len(want) {
		c.Failf("the printed matrix has %d of %d rows:\n%s", rows, len(want), s)
	}
}
