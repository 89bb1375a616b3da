package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
)

func init() {
	register(&Property{
		ID:   "C07",
		Rule: "random ARFF texts (case, spacing, comments, blank lines, value lists of many forms, quoted values, long lines) read and compared cell by cell with the generator's table; grids, views and filtered grids written in default and chosen attribute order and read back; failing writers, full devices, older files; damaged texts; distinct by text",
		W: []Workload{
			{Name: "parse", Quick: 20000, Thorough: 120000, Fn: c07Parse},
			{Name: "write-read", Quick: 16000, Thorough: 80000, Fn: c07Write},
			{Name: "failing-writer", Quick: 8000, Thorough: 32000, Fn: c07Fail},
			{Name: "long", Quick: 40, Thorough: 800, Fn: c07Long},
			{Name: "damaged", Quick: 32000, Thorough: 200000, Fn: c07Damaged},
		},
	})
}

type arffDoc struct {
	names  []string
	values [][]string // nil: real
	text   [][]string
	body   string
	digits int
}

var arffValues = []string{"red", "Green", "dark blue", "naïve", "日本語", "1.", "0x1F", "NaN", "7", "a'b", "--", "5%", "#no", "@at", "A", "a", "x=y", "e5", "?"}

func genARFF(c *Case) *arffDoc {
	r := c.R
	d := &arffDoc{}
	cols, rows := 1+big(r, r.Intn(7), 80), big(r, r.Intn(12), 600)
	var b strings.Builder
	kw := func(s string) string {
		switch r.Intn(3) {
		case 0:
			return strings.ToUpper(s)
		case 1:
			return strings.ToUpper(s[:2]) + s[2:]
		}
		return s
	}
	sp := func() string { return []string{"", " ", "  ", "\t"}[r.Intn(4)] }
	noise := func() {
		if r.Intn(5) == 0 {
			b.WriteString([]string{"\n", "% a comment, with {braces}\n", "%\n"}[r.Intn(3)])
		}
	}
	noise()
	fmt.Fprintf(&b, "%s some relation\n", kw("@relation"))
	digits := r.Intn(6)
	for j := 0; j < cols; j++ {
		noise()
		n := fmt.Sprintf("%s%d", []string{"x", "attribute", "real", "sepal-length", "é", "@q", "DATA"}[r.Intn(7)], j)
		d.names = append(d.names, n)
		gap := []string{" ", "\t", "   "}[r.Intn(3)]
		if r.Intn(2) == 0 {
			d.values = append(d.values, nil)
			fmt.Fprintf(&b, "%s%s%s%s%s%s\n", kw("@attribute"), gap, n, gap, kw("real"), sp())
			continue
		}
		var vals []string
		for _, k := range r.Perm(len(arffValues))[:1+r.Intn(6)] {
			vals = append(vals, arffValues[k])
		}
		d.values = append(d.values, vals)
		var l strings.Builder
		for k, v := range vals {
			if k > 0 {
				l.WriteString(sp() + "," + sp())
			}
			l.WriteString(v)
		}
		fmt.Fprintf(&b, "%s%s%s%s{%s%s%s}%s\n", kw("@attribute"), gap, n, gap, sp(), l.String(), sp(), sp())
	}
	noise()
	fmt.Fprintf(&b, "%s%s\n", kw("@data"), sp())
	plain := 0
	for i := 0; i < rows; i++ {
		noise()
		var row []string
		var line strings.Builder
		for j := 0; j < cols; j++ {
			if j > 0 {
				line.WriteString(",")
			}
			var s string
			if v := d.values[j]; v != nil {
				s = v[r.Intn(len(v))]
			} else {
				s = numText(c, digits)
			}
			row = append(row, s)
			if r.Intn(4) == 0 {
				ws := []string{" ", " ", "\t"}[r.Intn(3)]
				s = strings.Repeat(ws, r.Intn(3)) + s + strings.Repeat(ws, r.Intn(3))
			}
			if r.Intn(10) == 0 {
				s = `"` + s + `"`
			}
			line.WriteString(s)
		}
		if strings.HasPrefix(line.String(), "%") {
			panic("comment")
		}
		if plain < 4 && !strings.HasPrefix(line.String(), "@") {
			plain++
			for j, s := range row {
				if d.values[j] != nil {
					continue
				}
				if k := strings.IndexByte(s, '.'); k >= 0 {
					n := 0
					for k++; k < len(s) && s[k] >= '0' && s[k] <= '9'; k++ {
						n++
					}
					if n > d.digits {
						d.digits = n
					}
				}
			}
		}
		d.text = append(d.text, row)
		b.WriteString(line.String())
		if i < rows-1 || r.Intn(2) == 0 {
			b.WriteString("\n")
		}
	}
	d.body = b.String()
	return d
}

func c07Check(c *Case, what string, g *base.DenseInstances, d *arffDoc) {
	cols, rows := g.Size()
	if cols != len(d.names) || rows != len(d.text) {
		c.Failf("%s: %d columns and %d rows, want %d and %d", what, cols, rows, len(d.names), len(d.text))
	}
	for j, n := range d.names {
		a := base.GetAttributeByName(g, n)
		if a == nil {
			c.Failf("%s: no attribute %q in %v", what, n, g.AllAttributes())
		}
		c07Attr(c, what, a, d, j)
		for i, row := range d.text {
			got := gridCell(g, a, i)
			if d.values[j] != nil {
				if s := a.GetStringFromSysVal(got); s != row[j] {
					c.Failf("%s: %q row %d is %q, want %q", what, n, i, s, row[j])
				}
				continue
			}
			f, err := strconv.ParseFloat(row[j], 64)
			if err != nil {
				panic(err)
			}
			if !bytes.Equal(got, packF(f)) {
				c.Failf("%s: %q row %d is %v, want %s", what, n, i, unpackF(got), row[j])
			}
		}
	}
	ca := g.AllClassAttributes()
	if len(ca) != 1 || ca[0].GetName() != d.names[len(d.names)-1] {
		c.Failf("%s: class attributes %v, want the last one", what, ca)
	}
	c.Obs("cells", cols*rows)
}

func c07Attr(c *Case, what string, a base.Attribute, d *arffDoc, j int) {
	switch x := a.(type) {
	case *base.CategoricalAttribute:
		if d.values[j] == nil || fmt.Sprintf("%q", x.GetValues()) != fmt.Sprintf("%q", d.values[j]) {
			c.Failf("%s: %q has values %q, want %q", what, d.names[j], x.GetValues(), d.values[j])
		}
	case *base.FloatAttribute:
		if d.values[j] != nil {
			c.Failf("%s: %q is real, want %q", what, d.names[j], d.values[j])
		}
	default:
		c.Failf("%s: %q became %s", what, d.names[j], a)
	}
}

func c07Parse(c *Case) {
	d := genARFF(c)
	c.Desc = d.body
	c.Sig(d.body)
	path := filepath.Join(c.Dir(), "x.arff")
	ioutil.WriteFile(path, []byte(d.body), 0644)
	g, err := base.ParseDenseARFFToInstances(path)
	if err != nil {
		c.Failf("well-formed ARFF refused: %v", err)
	}
	c07Check(c, "parse", g, d)
	n, err := base.ParseARFFGetRows(path)
	if err != nil || n != len(d.text) {
		c.Failf("ParseARFFGetRows = %d, %v; want %d", n, err, len(d.text))
	}
	attrs := base.ParseARFFGetAttributes(path)
	if len(attrs) != len(d.names) {
		c.Failf("ParseARFFGetAttributes found %d of %d", len(attrs), len(d.names))
	}
	for j, a := range attrs {
		if a.GetName() != d.names[j] {
			c.Failf("attribute %d is %q, want %q", j, a.GetName(), d.names[j])
		}
		c07Attr(c, "ParseARFFGetAttributes", a, d, j)
		if f, ok := a.(*base.FloatAttribute); ok && f.Precision < d.digits {
			c.Failf("precision %d, but the file has %d digits", f.Precision, d.digits)
		}
	}
}

// c07Text checks a written file against a table. order nil: class last.
func c07Text(c *Case, body, relation string, m *Table, order []int) []int {
	lines := strings.Split(body, "\n")
	var got []int
	data := -1
	rel := false
	for k, l := range lines {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch strings.ToLower(f[0]) {
		case "@relation":
			rel = strings.TrimSpace(l[len("@relation"):]) == relation
		case "@attribute":
			j := -1
			for x, a := range m.Attrs {
				if a.GetName() == f[1] {
					j = x
				}
			}
			if j < 0 {
				c.Failf("unknown attribute in %q", l)
			}
			got = append(got, j)
		case "@data":
			data = k
		}
		if data >= 0 {
			break
		}
	}
	if !rel || data < 0 {
		c.Failf("no relation %q or no data: %q", relation, body)
	}
	if order != nil && fmt.Sprint(order) != fmt.Sprint(got) {
		c.Failf("attributes written in order %v, want %v", got, order)
	}
	if order == nil {
		if len(got) != len(m.Attrs) {
			c.Failf("%d attributes written of %d", len(got), len(m.Attrs))
		}
		for k, j := range got {
			if m.Class[j] != (k >= len(got)-len(m.ClassIdx())) {
				c.Failf("class attributes don't come last: %v", got)
			}
		}
	}
	return got
}

func c07Write(c *Case) {
	r := c.R
	g, m, kind := writable(c, r.Intn(15))
	c.Desc = fmt.Sprintf("%s %s", kind, m.describe(3))
	c.Sig("write", kind, kinds(m), len(m.Cells))
	before := snapshotRows(g, m)
	path := filepath.Join(c.Dir(), "out.arff")
	relation := []string{"rel", "my relation", "x1"}[r.Intn(3)]
	var order []int
	if r.Intn(2) == 0 {
		p := r.Perm(len(m.Attrs))
		order = p[:1+r.Intn(len(p))]
	}
	if r.Intn(2) == 0 {
		ioutil.WriteFile(path, bytes.Repeat([]byte("1,2,3\n"), r.Intn(400)), 0644)
	}
	var err error
	if order == nil {
		err = base.SerializeInstancesToDenseARFF(g, path, relation)
	} else {
		var attrs []base.Attribute
		for _, j := range order {
			attrs = append(attrs, m.Attrs[j])
		}
		if r.Intn(2) == 0 {
			err = base.SerializeInstancesToDenseARFFWithAttributes(g, attrs, path, relation)
		} else {
			var b bytes.Buffer
			err = base.SerializeInstancesToWriterDenseARFFWithAttributes(&b, g, attrs, relation)
			ioutil.WriteFile(path, b.Bytes(), 0644)
		}
	}
	if err != nil {
		c.Failf("writing: %v", err)
	}
	body, err := ioutil.ReadFile(path)
	if err != nil {
		c.Failf("%v", err)
	}
	if snapshotRows(g, m) != before {
		c.Failf("the grid was changed")
	}
	got := c07Text(c, string(body), relation, m, order)
	back, err := base.ParseDenseARFFToInstances(path)
	if err != nil {
		c.Failf("reading back: %v\n%s", err, body)
	}
	if _, rows := back.Size(); rows != len(m.Cells) || len(back.AllAttributes()) != len(got) {
		c.Failf("read back %d rows of %d, %d attributes of %d", rows, len(m.Cells), len(back.AllAttributes()), len(got))
	}
	for _, j := range got {
		a := m.Attrs[j]
		b := base.GetAttributeByName(back, a.GetName())
		if b == nil {
			c.Failf("%s is gone", a)
		}
		ca, isCat := a.(*base.CategoricalAttribute)
		if isCat {
			cb, ok := b.(*base.CategoricalAttribute)
			if !ok || !ca.Equals(cb) {
				c.Failf("%s came back as %s", a, b)
			}
		} else if _, ok := b.(*base.FloatAttribute); !ok {
			c.Failf("%s came back as %s", a, b)
		}
		for i := range m.Cells {
			cell := gridCell(back, b, i)
			switch x := a.(type) {
			case *base.CategoricalAttribute:
				if !bytes.Equal(cell, m.Cells[i][j]) {
					c.Failf("%s row %d: %v came back as %v", a, i, m.Cells[i][j], cell)
				}
			case *base.BinaryAttribute:
				if unpackF(cell) != float64(m.Cells[i][j][0]) {
					c.Failf("%s row %d: %v came back as %v", a, i, m.Cells[i][j], unpackF(cell))
				}
			case *base.FloatAttribute:
				v, f := m.F(i, j), unpackF(cell)
				if math.Abs(f-v) > 0.5000001*math.Pow(10, -float64(x.Precision))+1e-15*math.Abs(v) {
					c.Failf("%s row %d: %v came back as %v at precision %d", a, i, v, f, x.Precision)
				}
			}
		}
	}
	c.Obs("cells_written", len(m.Cells)*len(got))
	ca := back.AllClassAttributes()
	if len(ca) != 1 || ca[0].GetName() != m.Attrs[got[len(got)-1]].GetName() {
		c.Failf("class %v, want the last attribute %v", ca, m.Attrs[got[len(got)-1]])
	}
}

func c07Fail(c *Case) {
	r := c.R
	rows := r.Intn(40)
	if r.Intn(8) == 0 {
		rows = 400
	}
	g, m, kind := writable(c, rows)
	var full bytes.Buffer
	if err := base.SerializeInstancesToWriterDenseARFFWithAttributes(&full, g, m.Attrs, "r"); err != nil {
		c.Failf("writing: %v", err)
	}
	n := r.Intn(full.Len() + 1)
	c.Desc = fmt.Sprintf("fails after %d of %d bytes: %s %s", n, full.Len(), kind, m.describe(2))
	c.Sig("fail", n, full.Len(), kind)
	err := base.SerializeInstancesToWriterDenseARFFWithAttributes(&failWriter{n: n}, g, m.Attrs, "r")
	if (err == nil) != (n >= full.Len()) {
		c.Failf("writer failed after %d of %d bytes, but the error is %v", n, full.Len(), err)
	}
	c.Obs("failures", 1)
	if r.Intn(4) == 0 {
		fullDiskFile(c, full.Len(), func(p string) error { return base.SerializeInstancesToDenseARFF(g, p, "r") })
	}
	if _, e := os.Stat("/dev/full"); e == nil && r.Intn(4) == 0 {
		if base.SerializeInstancesToDenseARFF(g, "/dev/full", "r") == nil {
			c.Failf("no error on a full device")
		}
	}
	if base.SerializeInstancesToDenseARFF(g, filepath.Join(c.Dir(), "no", "such", "dir.arff"), "r") == nil {
		c.Failf("no error for a path that cannot be created")
	}
}

// c07Long: long lines must be read whole, or refused.
func c07Long(c *Case) {
	r := c.R
	cols := 2000 + r.Intn(12000)
	rows := 1 + r.Intn(4)
	var b strings.Builder
	b.WriteString("@relation wide\n")
	for j := 0; j < cols; j++ {
		fmt.Fprintf(&b, "@attribute a%d real\n", j)
	}
	b.WriteString("@data\n")
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			if j > 0 {
				b.WriteByte(',')
			}
			fmt.Fprintf(&b, "%d.%d", i, j)
		}
		b.WriteByte('\n')
	}
	c.Desc = fmt.Sprintf("%d columns, %d rows", cols, rows)
	c.Sig("long", cols, rows)
	path := filepath.Join(c.Dir(), "x.arff")
	ioutil.WriteFile(path, []byte(b.String()), 0644)
	g, err := base.ParseDenseARFFToInstances(path)
	if err != nil {
		c.Failf("well-formed ARFF refused: %v", err)
	}
	c.Obs("long_read", 1)
	gc, gr := g.Size()
	if gc != cols || gr != rows {
		c.Failf("read %dx%d, want %dx%d", gr, gc, rows, cols)
	}
	for k := 0; k < 200; k++ {
		j, i := r.Intn(cols), r.Intn(rows)
		if k == 0 {
			j, i = cols-1, rows-1
		}
		want, _ := strconv.ParseFloat(fmt.Sprintf("%d.%d", i, j), 64)
		if got := unpackF(gridCell(g, base.NewFloatAttribute(fmt.Sprintf("a%d", j)), i)); got != want {
			c.Failf("a%d row %d is %v, want %v", j, i, got, want)
		}
	}
}

func c07Damaged(c *Case) {
	r := c.R
	d := genARFF(c)
	b := []byte(d.body)
	mustFail := false
	switch r.Intn(10) {
	case 8: // a value missing, which golearn has no representation for
		j := r.Intn(len(d.names))
		if len(d.text) == 0 || indexOf(d.values[j], "?") >= 0 {
			break
		}
		row := append([]string(nil), d.text[r.Intn(len(d.text))]...)
		row[j] = "?"
		b = append(b, "\n"+strings.Join(row, ",")+"\n"...)
		mustFail = true
	case 9: // lines indented
		ls := strings.Split(string(b), "\n")
		for k := 1 + r.Intn(3); k > 0; k-- {
			q := r.Intn(len(ls))
			ls[q] = []string{" ", "\t", "%", " %", "@", " @"}[r.Intn(6)] + ls[q]
		}
		b = []byte(strings.Join(ls, "\n"))
	case 0:
		b = b[:r.Intn(len(b)+1)]
	case 1:
		for k := 1 + r.Intn(3); k > 0; k-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
	case 2:
		k := r.Intn(len(b) + 1)
		b = append(append(append([]byte(nil), b[:k]...), oddString(c)...), b[k:]...)
	case 3: // a row too long
		b = append(b, "\n"+strings.Repeat("1,", len(d.names))+"1\n"...)
		mustFail = true
	case 4: // a row too short
		if len(d.names) > 1 {
			b = append(b, "\n"+strings.Repeat("1,", len(d.names)-2)+"1\n"...)
			mustFail = true
		}
	case 5: // a value that is not of its attribute
		b = append(b, '\n')
		for j := range d.names {
			if j > 0 {
				b = append(b, ',')
			}
			b = append(b, "nonsense"...)
		}
		mustFail = true
	case 6: // a type golearn doesn't have, no closing bracket
		bad := []string{"@attribute odd date\n", "@attribute odd string\n", "@attribute odd {a,b\n"}[r.Intn(3)]
		b = append([]byte(bad), b...)
		mustFail = true
	case 7:
		b = []byte(oddString(c) + "\n" + oddString(c))
		mustFail = true
	}
	c.Desc = string(b)
	c.Sig("damaged", c.Desc)
	path := filepath.Join(c.Dir(), "x.arff")
	ioutil.WriteFile(path, b, 0644)
	g, err := base.ParseDenseARFFToInstances(path)
	if err == nil && g == nil {
		c.Failf("neither instances nor an error")
	}
	if err == nil && mustFail {
		c.Failf("malformed ARFF was accepted")
	}
	if err == nil {
		c.Obs("accepted", 1)
		_, rows := g.Size()
		for i := 0; i < rows; i++ {
			if len(d.text) > 0 {
				_ = g.RowString(i)
			}
		}
	} else {
		c.Obs("refused", 1)
	}
	if _, err := base.ParseDenseARFFToInstances(filepath.Join(c.Dir(), "missing.arff")); err == nil {
		c.Failf("a missing file was accepted")
	}
}
