package main

import (
	"errors"
	"fmt"
	"math/rand"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/evaluation"
)

func init() {
	register(&Property{
		ID:   "C12",
		Rule: "cross validation is driven with a recording classifier over grids with unique row identities (dense and views, 2-8 folds, fewer rows than folds included); the log of Fit and Predict calls is checked for exactly-once testing, disjointness and completeness of training, order (fit i before predict i) and the returned matrices; distinct by grid kind, size and folds",
		W: []Workload{
			{Name: "crossfold", Quick: 120000, Thorough: 480000, Fn: c12Fold},
		},
	})
}

// spy records what it is given and answers a known function of each row.
type spy struct {
	base.BaseClassifier
	log    []spyEvent
	attrs  []base.Attribute
	answer func(row [][]byte) string
	failAt int
	failIn string
	calls  int
}

type spyEvent struct {
	kind string
	rows []string
	cls  []string
}

func (s *spy) record(kind string, g base.FixedDataGrid) {
	e := spyEvent{kind: kind, rows: rowKeys(g, s.attrs)}
	for i := range e.rows {
		e.cls = append(e.cls, base.GetClass(g, i))
	}
	s.log = append(s.log, e)
}

var errSpy = errors.New("spy failure")

func (s *spy) Fit(g base.FixedDataGrid) error {
	s.record("fit", g)
	s.calls++
	if s.failIn == "fit" && s.calls == s.failAt {
		return errSpy
	}
	return nil
}

func (s *spy) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	s.record("predict", g)
	if s.failIn == "predict" && s.calls == s.failAt {
		return nil, errSpy
	}
	ret := base.GeneratePredictionVector(g)
	cells := cellsOf(g, s.attrs)
	for i := range cells {
		base.SetClass(ret, i, s.answer(cells[i]))
	}
	return ret, nil
}

func (s *spy) String() string                                                     { return "spy" }
func (s *spy) GetMetadata() base.ClassifierMetadataV1                             { return base.ClassifierMetadataV1{} }
func (s *spy) Save(string) error                                                  { return nil }
func (s *spy) Load(string) error                                                  { return nil }
func (s *spy) SaveWithPrefix(w *base.ClassifierSerializer, prefix string) error   { return nil }
func (s *spy) LoadWithPrefix(r *base.ClassifierDeserializer, prefix string) error { return nil }

func c12Fold(c *Case) {
	r := c.R
	folds := 2 + big(r, r.Intn(7), 60)
	n := big(r, r.Intn(50), 1500)
	if r.Intn(4) == 0 {
		n = r.Intn(folds + 1)
	}
	t := idTable(c, n)
	g, m, kind := wrap(c, t)
	cls := t.ClassIdx()[0]
	vals := t.Attrs[cls].(*base.CategoricalAttribute).GetValues()
	h := r.Intn(100)
	sp := &spy{attrs: t.Attrs}
	sp.answer = func(row [][]byte) string {
		x := h
		for _, b := range row {
			for _, v := range b {
				x = (x*31 + int(v)) % 10007
			}
		}
		return vals[x%len(vals)]
	}
	if r.Intn(6) == 0 {
		sp.failAt = 1 + r.Intn(folds)
		sp.failIn = []string{"fit", "predict"}[r.Intn(2)]
	}
	before := snapshot(t.Grid)
	c.Desc = fmt.Sprintf("%d folds of %s fail=%s@%d %s", folds, kind, sp.failIn, sp.failAt, t.describe(3))
	c.Sig(kind, n, folds, sp.failIn)
	if n == 0 {
		c.Trivial()
	}
	ms, err := evaluation.GenerateCrossFoldValidationConfusionMatrices(g, sp, folds)
	if sp.failAt > 0 {
		if err != errSpy {
			c.Failf("the classifier's %s failed but cross validation returned %v", sp.failIn, err)
		}
		return
	}
	if err != nil {
		c.Failf("cross validation: %v", err)
	}
	if snapshot(t.Grid) != before {
		c.Failf("cross validation changed the data")
	}
	if len(ms) != folds {
		c.Failf("%d matrices for %d folds", len(ms), folds)
	}
	if len(sp.log) != 2*folds {
		c.Failf("%d classifier calls for %d folds", len(sp.log), folds)
	}
	all := tableKeys(m, allIdx(len(m.Attrs)))
	var tested []string
	for f := 0; f < folds; f++ {
		tr, te := sp.log[2*f], sp.log[2*f+1]
		if tr.kind != "fit" || te.kind != "predict" {
			c.Failf("fold %d: calls were %s then %s", f, tr.kind, te.kind)
		}
		if !sameMultiset(append(append([]string(nil), tr.rows...), te.rows...), all) {
			c.Failf("fold %d: training and test rows do not partition the data: %s", f, diffMulti(all, append(append([]string(nil), tr.rows...), te.rows...)))
		}
		tested = append(tested, te.rows...)
		want := map[string]map[string]int{}
		for i, k := range te.rows {
			ref := te.cls[i]
			_ = k
			if want[ref] == nil {
				want[ref] = map[string]int{}
			}
			want[ref][""]++
		}
		total := 0
		for ref, row := range ms[f] {
			s := 0
			for _, v := range row {
				s += v
			}
			total += s
			w := 0
			if want[ref] != nil {
				w = want[ref][""]
			}
			if s != w {
				c.Failf("fold %d: the matrix counts %d rows of class %s, the fold tested %d", f, s, ref, w)
			}
		}
		if total != len(te.rows) {
			c.Failf("fold %d: the matrix counts %d rows, the fold tested %d", f, total, len(te.rows))
		}
		// exact content
		exact := map[string]map[string]int{}
		for i, row := range decodeKeys(te.rows) {
			p := sp.answer(row)
			if exact[te.cls[i]] == nil {
				exact[te.cls[i]] = map[string]int{}
			}
			exact[te.cls[i]][p]++
		}
		got := map[string]map[string]int{}
		for k, v := range ms[f] {
			if x := nonzero(v); len(x) > 0 {
				got[k] = x
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(exact) {
			c.Failf("fold %d: matrix %v, want %v", f, ms[f], exact)
		}
		c.Obs("folds", 1)
	}
	if !sameMultiset(tested, all) {
		c.Failf("rows are not tested exactly once: %s", diffMulti(all, tested))
	}
	c.Obs("rows_accounted", n)
	_ = rand.Int
}

func decodeKeys(keys []string) [][][]byte {
	out := make([][][]byte, len(keys))
	for i, k := range keys {
		var row [][]byte
		var cur []byte
		for p := 0; p < len(k); {
			if k[p] == ';' {
				row = append(row, cur)
				cur = nil
				p++
				continue
			}
			var v int
			fmt.Sscanf(k[p:p+2], "%02x", &v)
			cur = append(cur, byte(v))
			p += 2
		}
		out[i] = row
	}
	return out
}
