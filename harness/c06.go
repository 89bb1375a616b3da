package main

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
)

func init() {
	register(&Property{
		ID:   "C06",
		Rule: "random CSV texts (types, number formats, quoting, padding, missing values, unicode, quoted line breaks, CRLF) read from memory and from files through every entry point and compared cell by cell with the generator's table; grids, views and filtered grids written and read back; writers that fail after every number of bytes, full devices, older longer files; damaged texts; distinct by text",
		W: []Workload{
			{Name: "parse", Quick: 45000, Thorough: 180000, Fn: c06Parse},
			{Name: "groups", Quick: 30000, Thorough: 120000, Fn: c06Groups},
			{Name: "template", Quick: 30000, Thorough: 120000, Fn: c06Template},
			{Name: "write-read", Quick: 30000, Thorough: 120000, Fn: c06Write},
			{Name: "large", Quick: 6, Thorough: 60, Fn: c06Large},
			{Name: "wide", Quick: 40, Thorough: 400, Fn: c06Wide},
			{Name: "failing-writer", Quick: 15000, Thorough: 60000, Fn: c06Fail},
			{Name: "damaged", Quick: 60000, Thorough: 240000, Fn: c06Damaged},
		},
	})
}

// csvDoc is a generated CSV file and what it says.
type csvDoc struct {
	names   []string
	isFloat []bool
	text    [][]string // trimmed fields
	header  bool
	body    string
	maxDig  int // digits after the point in the first five records
	allDig  int // in all of them
}

var numberRe = regexp.MustCompile(`^[-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?$`)

func numText(c *Case, digits int) string {
	r := c.R
	switch r.Intn(7) {
	case 0:
		return fmt.Sprint(r.Intn(2000) - 1000)
	case 1:
		return strconv.FormatFloat(r.NormFloat64()*100, 'e', r.Intn(6), 64)
	case 2:
		return "." + fmt.Sprint(r.Intn(1000))
	case 3:
		return "+" + strconv.FormatFloat(math.Abs(r.NormFloat64()), 'f', 1+r.Intn(5), 64)
	case 4:
		return strconv.FormatFloat(r.NormFloat64()*math.Pow(10, float64(r.Intn(9))), 'f', digits, 64)
	case 5:
		return strconv.FormatFloat(genFloat(r, VWide), 'f', -1, 64)
	}
	return strconv.FormatFloat(r.NormFloat64()*10, 'f', digits, 64)
}

var textPool = []string{"red", "Green", "dark blue", "x,y", "say \"hi\"", "two\nlines", "naïve", "日本語", "1.", "0x1F", "NaN", "Inf", "?", "a'b", "--", "1 2", "5%", "#no", "@at", "{a}", "A", "a", "12a", "e5"}

// randText is a short text of odd characters which is not a number.
func randText(r *rand.Rand) string {
	const chars = "abXYZ019 .,;:'\"`|/\\!?#$%&*()[]{}<>@^_~-+=é日"
	cs := []rune(chars)
	for {
		var s []rune
		for k := 1 + r.Intn(6); k > 0; k-- {
			s = append(s, cs[r.Intn(len(cs))])
		}
		t := strings.TrimSpace(string(s))
		if _, err := strconv.ParseFloat(t, 64); err != nil && t != "" && !numberRe.MatchString(t) {
			return t
		}
	}
}

func genCSV(c *Case, header bool) *csvDoc {
	r := c.R
	d := &csvDoc{header: header}
	cols, rows := 1+big(r, r.Intn(7), 80), 1+big(r, r.Intn(12), 600)
	pool := textPool
	if r.Intn(2) == 0 {
		pool = append([]string(nil), textPool...)
		for k := 1 + r.Intn(8); k > 0; k-- {
			pool = append(pool, randText(r))
		}
	}
	digits := r.Intn(6)
	missing := r.Intn(3) == 0 && cols > 1
	var bits []bool
	for j := 0; j < cols; j++ {
		d.isFloat = append(d.isFloat, r.Intn(2) == 0)
		bits = append(bits, r.Intn(6) == 0)
		n := fmt.Sprint(j)
		if header {
			n = fmt.Sprintf("%s%d", []string{"col", "name with spaces ", "q\"", "com,ma", "é", ""}[r.Intn(6)], j)
			n = strings.TrimSpace(n)
			if j > 0 && r.Intn(6) == 0 { // told apart by case alone
				if u := strings.ToUpper(d.names[r.Intn(j)]); indexOf(d.names, u) < 0 {
					n = u
				}
			}
		}
		d.names = append(d.names, n)
	}
	var b strings.Builder
	eol := "\n"
	if r.Intn(4) == 0 {
		eol = "\r\n"
	}
	pad := func(s string, row int) string {
		if r.Intn(4) == 0 {
			ws := " "
			if row > 0 && r.Intn(3) == 0 { // (types are told from the first record, without tabs)
				ws = []string{"\t", "\t ", " \t"}[r.Intn(3)]
			}
			s = strings.Repeat(ws, r.Intn(3)) + s + strings.Repeat(ws, r.Intn(3))
		}
		return s
	}
	field := func(s string) string {
		if strings.ContainsAny(s, ",\"\n\r") || strings.HasPrefix(s, " ") && r.Intn(2) == 0 || r.Intn(8) == 0 {
			return `"` + strings.Replace(s, `"`, `""`, -1) + `"`
		}
		return s
	}
	if header {
		for j, n := range d.names {
			if j > 0 {
				b.WriteString(",")
			}
			b.WriteString(field(pad(n, 1)))
		}
		b.WriteString(eol)
	}
	for i := 0; i < rows; i++ {
		var row []string
		for j := 0; j < cols; j++ {
			if j > 0 {
				b.WriteString(",")
			}
			var s string
			switch {
			case missing && i > 0 && r.Intn(5) == 0:
				s = ""
			case d.isFloat[j] && bits[j]:
				s = fmt.Sprint(r.Intn(2))
			case d.isFloat[j]:
				s = numText(c, digits)
				if i == 0 && !numberRe.MatchString(s) {
					s = "1.5"
				}
				if k := strings.IndexByte(s, '.'); k >= 0 {
					n := 0
					for k++; k < len(s) && s[k] >= '0' && s[k] <= '9'; k++ {
						n++
					}
					if n > d.allDig {
						d.allDig = n
					}
				}
			case i == 0:
				s = pool[r.Intn(len(pool))]
			case r.Intn(6) == 0: // looks like a number, in a column of text
				s = fmt.Sprint(r.Intn(5))
			default:
				s = pool[r.Intn(len(pool))]
			}
			row = append(row, s)
			if s != "" {
				s = pad(s, i)
			}
			if s == "" && cols == 1 {
				panic("blank line")
			}
			b.WriteString(field(s))
		}
		d.text = append(d.text, row)
		if i < rows-1 || r.Intn(2) == 0 {
			b.WriteString(eol)
		}
		if r.Intn(12) == 0 && i < rows-1 {
			b.WriteString(eol) // blank lines don't count
		}
	}
	d.body = b.String()
	// digits the precision estimate must not miss: plain lines among the first five
	// (lines starting with @ or % are taken for ARFF ones)
	if !strings.Contains(d.body, "two\nlines") {
		for i, row := range d.text {
			if i >= 5 {
				break
			}
			if strings.HasPrefix(row[0], "@") || strings.HasPrefix(row[0], "%") {
				continue
			}
			for j, s := range row {
				if !d.isFloat[j] {
					continue
				}
				if k := strings.IndexByte(s, '.'); k >= 0 {
					n := 0
					for k++; k < len(s) && s[k] >= '0' && s[k] <= '9'; k++ {
						n++
					}
					if n > d.maxDig {
						d.maxDig = n
					}
				}
			}
		}
	}
	return d
}

// checkCSV compares what was read with what the text says. order: the columns
// must come in this order.
func checkCSV(c *Case, what string, g *base.DenseInstances, d *csvDoc) []base.Attribute {
	cols, rows := g.Size()
	if cols != len(d.names) || rows != len(d.text) {
		c.Failf("%s: %d columns and %d rows, want %d and %d", what, cols, rows, len(d.names), len(d.text))
	}
	byName := map[string]base.Attribute{}
	for _, a := range g.AllAttributes() {
		byName[a.GetName()] = a
	}
	var ret []base.Attribute
	for j, n := range d.names {
		a := byName[n]
		if a == nil {
			c.Failf("%s: no attribute %q in %v", what, n, g.AllAttributes())
		}
		ret = append(ret, a)
		checkCSVColumn(c, what, g, a, d, j)
	}
	c.Obs("cells", cols*rows)
	return ret
}

func checkCSVColumn(c *Case, what string, g base.FixedDataGrid, a base.Attribute, d *csvDoc, j int) {
	n := d.names[j]
	if _, ok := a.(*base.BinaryAttribute); ok && what == "template" {
		for i, row := range d.text {
			if got := gridCell(g, a, i); fmt.Sprint(got[0]) != row[j] {
				c.Failf("%s: %q row %d is %v, want %s", what, n, i, got, row[j])
			}
		}
		return
	}
	if fa, ok := a.(*base.FloatAttribute); ok != d.isFloat[j] {
		c.Failf("%s: column %q became %s", what, n, a)
	} else if ok {
		if fa.Precision < d.maxDig && what != "template" {
			c.Failf("%s: precision %d of %q, but the file has %d digits", what, fa.Precision, n, d.maxDig)
		}
	}
	var order []string
	for i, row := range d.text {
		s := row[j]
		got := gridCell(g, a, i)
		if s == "" {
			if unpackU(got) != 0 {
				c.Failf("%s: missing value of %q in row %d reads %v", what, n, i, got)
			}
			continue
		}
		if d.isFloat[j] {
			f, err := strconv.ParseFloat(s, 64)
			if err != nil {
				panic(err)
			}
			if !bytes.Equal(got, packF(f)) {
				c.Failf("%s: %q row %d is %v, want %s", what, n, i, unpackF(got), s)
			}
			continue
		}
		if indexOf(order, s) < 0 {
			order = append(order, s)
		}
		if t := a.GetStringFromSysVal(got); t != s {
			c.Failf("%s: %q row %d is %q, want %q", what, n, i, t, s)
		}
	}
	if ca, ok := a.(*base.CategoricalAttribute); ok && what != "template" {
		if len(order) != len(ca.GetValues()) {
			c.Failf("%s: %q has values %q, the file has %q", what, n, ca.GetValues(), order)
		}
	}
}

func c06Parse(c *Case) {
	r := c.R
	d := genCSV(c, r.Intn(2) == 0)
	c.Desc = d.body
	c.Sig(d.body)
	var g *base.DenseInstances
	var err error
	var attrs []base.Attribute
	var types []base.Attribute
	var names []string
	var n, p int
	if r.Intn(3) > 0 {
		rd := strings.NewReader(d.body)
		rd.Seek(int64(r.Intn(len(d.body)+1)), 0) // where the reader stands does not matter
		g, err = base.ParseCSVToInstancesFromReader(rd, d.header)
		attrs = base.ParseCSVGetAttributesFromReader(rd, d.header)
		types = base.ParseCSVSniffAttributeTypesFromReader(rd, d.header)
		names = base.ParseCSVSniffAttributeNamesFromReader(rd, d.header)
		n, _ = base.ParseCSVGetRowsFromReader(rd)
		p, _ = base.ParseCSVEstimateFilePrecisionFromReader(rd)
	} else {
		path := filepath.Join(c.Dir(), "x.csv")
		if err := ioutil.WriteFile(path, []byte(d.body), 0644); err != nil {
			panic(err)
		}
		n0 := openFiles()
		g, err = base.ParseCSVToInstances(path, d.header)
		attrs = base.ParseCSVGetAttributes(path, d.header)
		types = base.ParseCSVSniffAttributeTypes(path, d.header)
		names = base.ParseCSVSniffAttributeNames(path, d.header)
		n, _ = base.ParseCSVGetRows(path)
		p, _ = base.ParseCSVEstimateFilePrecision(path)
		if k := openFiles(); k > n0 {
			c.Failf("reading a file left %d files open", k-n0)
		}
	}
	if err != nil {
		c.Failf("well-formed CSV refused: %v", err)
	}
	got := checkCSV(c, "parse", g, d)
	ca := g.AllClassAttributes()
	if len(ca) != 1 || ca[0] != got[len(got)-1] {
		c.Failf("class attributes %v, want the last column", ca)
	}
	want := len(d.text)
	if d.header {
		want++
	}
	if n != want {
		c.Failf("ParseCSVGetRows = %d, want %d records", n, want)
	}
	if p < d.maxDig {
		c.Failf("precision estimated as %d, but the file has %d digits", p, d.maxDig)
	}
	if len(attrs) != len(d.names) || len(names) != len(d.names) || len(types) != len(d.names) {
		c.Failf("%d attributes, %d names, %d types for %d columns", len(attrs), len(names), len(types), len(d.names))
	}
	for j := range attrs {
		_, f1 := attrs[j].(*base.FloatAttribute)
		_, f2 := types[j].(*base.FloatAttribute)
		if attrs[j].GetName() != d.names[j] || names[j] != d.names[j] || f1 != d.isFloat[j] || f2 != d.isFloat[j] {
			c.Failf("column %d sniffed as %s / %q / %s, want %q float: %v", j, attrs[j], names[j], types[j], d.names[j], d.isFloat[j])
		}
	}
	// a file with no rows of data is an error
	lines := strings.SplitN(d.body, "\n", 2)
	for _, s := range []string{"", "\n", lines[0]} {
		if _, err := base.ParseCSVToInstancesFromReader(strings.NewReader(s), true); err == nil && !strings.HasPrefix(lines[0], `"`) && strings.Count(s, `"`)%2 == 0 {
			c.Failf("a file without data rows was accepted: %q", s)
		}
	}
}

func c06Groups(c *Case) {
	r := c.R
	d := genCSV(c, r.Intn(2) == 0)
	c.Desc = d.body
	c.Sig("groups", d.body)
	// a float group and one group per categorical column
	ag, cag := map[string]string{}, map[string]string{}
	over := map[int]base.Attribute{}
	for j, n := range d.names {
		grp := "nums"
		if !d.isFloat[j] {
			grp = "cat " + fmt.Sprint(j)
		}
		switch r.Intn(4) {
		case 0:
			ag[n] = grp
		case 1:
			cag[n] = grp + " class"
		case 2:
			if bits := true; d.isFloat[j] && r.Intn(2) == 0 {
				// a column of zeros and ones may be binary
				for _, row := range d.text {
					bits = bits && (row[j] == "0" || row[j] == "1")
				}
				if bits {
					over[j] = base.NewBinaryAttribute(n)
					delete(ag, n)
					switch grp = "bits"; r.Intn(3) {
					case 0:
						ag[n] = grp
					case 1:
						cag[n] = grp + " class"
					}
					break
				}
				a := base.NewFloatAttribute(n)
				a.Precision = 9
				over[j] = a
			} else if !d.isFloat[j] {
				a := base.NewCategoricalAttribute()
				a.SetName(n)
				a.GetSysValFromString("never seen")
				over[j] = a
			}
		}
	}
	var g *base.DenseInstances
	var err error
	if r.Intn(3) > 0 {
		g, err = base.ParseCSVToInstancesWithAttributeGroupsFromReader(strings.NewReader(d.body), ag, cag, over, d.header)
	} else {
		path := filepath.Join(c.Dir(), "x.csv")
		ioutil.WriteFile(path, []byte(d.body), 0644)
		n0 := openFiles()
		g, err = base.ParseCSVToInstancesWithAttributeGroups(path, ag, cag, over, d.header)
		if k := openFiles(); k > n0 {
			c.Failf("reading a file left %d files open", k-n0)
		}
	}
	if err != nil {
		c.Failf("well-formed CSV refused: %v", err)
	}
	what := "groups"
	if len(over) > 0 {
		what = "template" // overrides may bring further values
	}
	attrs := checkCSV(c, what, g, d)
	isClass := map[string]bool{}
	for _, a := range g.AllClassAttributes() {
		isClass[a.GetName()] = true
	}
	groups := g.AllAttributeGroups()
	for j, n := range d.names {
		if o := over[j]; o != nil && attrs[j] != o {
			c.Failf("column %d is %s, not the attribute given for it", j, attrs[j])
		}
		_, cls := cag[n]
		if isClass[n] != cls {
			c.Failf("%q is a class attribute: %v, want %v", n, isClass[n], cls)
		}
		for _, m := range []map[string]string{ag, cag} {
			if grp, ok := m[n]; ok {
				found := false
				for _, a := range groups[grp].Attributes() {
					if a == attrs[j] {
						found = true
					}
				}
				if !found {
					c.Failf("%q is not in group %q", n, grp)
				}
			}
		}
	}
	for grp, m := range groups {
		for _, a := range m.Attributes() {
			w, ok := ag[a.GetName()]
			if x, ok2 := cag[a.GetName()]; ok2 {
				w, ok = x, true
			}
			if ok && w != grp {
				c.Failf("%q is in group %q, want %q", a.GetName(), grp, w)
			}
		}
	}
}

func c06Template(c *Case) {
	r := c.R
	header := r.Intn(2) == 0
	d := genCSV(c, header)
	tpl, err := base.ParseCSVToInstancesFromReader(strings.NewReader(d.body), header)
	if err != nil {
		c.Failf("well-formed CSV refused: %v", err)
	}
	if r.Intn(2) == 0 { // other class attributes
		for _, a := range tpl.AllClassAttributes() {
			tpl.RemoveClassAttribute(a)
		}
		for _, a := range tpl.AllAttributes() {
			if r.Intn(3) == 0 {
				tpl.AddClassAttribute(a)
			}
		}
	}
	before := snapshot(tpl)
	// a second file with the same columns
	d2 := &csvDoc{names: d.names, isFloat: d.isFloat, header: header}
	order := allIdx(len(d.names))
	if header && r.Intn(2) == 0 {
		order = r.Perm(len(d.names))
	}
	d2.names, d2.isFloat = nil, nil
	for _, j := range order {
		d2.names = append(d2.names, d.names[j])
		d2.isFloat = append(d2.isFloat, d.isFloat[j])
	}
	var buf bytes.Buffer
	w := csv.NewWriter(&buf)
	if header {
		w.Write(d2.names)
	}
	fresh := false
	for i := 1 + r.Intn(8); i > 0; i-- {
		var row []string
		for k, j := range order {
			s := d.text[r.Intn(len(d.text))][j]
			if s == "" {
				s = d.text[0][j]
			}
			if r.Intn(8) == 0 {
				if d2.isFloat[k] {
					s = fmt.Sprint(r.Intn(100))
				} else {
					s = fmt.Sprintf("fresh%d", r.Intn(4))
					fresh = true
				}
			}
			row = append(row, s)
		}
		d2.text = append(d2.text, row)
		w.Write(row)
	}
	w.Flush()
	d2.body = buf.String()
	c.Desc = d.body + "---\n" + d2.body
	c.Sig("template", c.Desc)
	var g *base.DenseInstances
	if r.Intn(3) > 0 {
		g, err = base.ParseCSVToTemplatedInstancesFromReader(strings.NewReader(d2.body), header, tpl)
	} else {
		path := filepath.Join(c.Dir(), "x.csv")
		ioutil.WriteFile(path, buf.Bytes(), 0644)
		n0 := openFiles()
		g, err = base.ParseCSVToTemplatedInstances(path, header, tpl)
		if k := openFiles(); k > n0 {
			c.Failf("reading a file left %d files open", k-n0)
		}
	}
	if err != nil {
		c.Failf("well-formed CSV refused: %v", err)
	}
	got := checkCSV(c, "template", g, d2)
	for _, a := range got {
		if base.GetAttributeByName(tpl, a.GetName()) != a {
			c.Failf("%s is not the template's attribute", a)
		}
	}
	if !sameSet(g.AllClassAttributes(), tpl.AllClassAttributes()) {
		c.Failf("class attributes %v, the template has %v", g.AllClassAttributes(), tpl.AllClassAttributes())
	}
	if !base.CheckStrictlyCompatible(g, tpl) {
		c.Failf("the result is not strictly compatible with its template: %s / %s", groupsKey(g), groupsKey(tpl))
	}
	if !fresh && snapshot(tpl) != before {
		c.Failf("the template was changed")
	}
}

// writable makes a grid that can be written out, and its table.
func writable(c *Case, rows int) (base.FixedDataGrid, *Table, string) {
	r := c.R
	t := genTable(r, GenOpts{Rows: rows, Floats: 1 + r.Intn(4), Cats: r.Intn(4), Bins: r.Intn(3), ClassCat: r.Intn(4), ClassFloat: r.Intn(4) == 0, Style: []ValueStyle{VSmallInt, VGauss, VUnit}[r.Intn(3)], ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0})
	for _, a := range t.Attrs {
		if f, ok := a.(*base.FloatAttribute); ok {
			f.Precision = r.Intn(10)
		}
	}
	switch r.Intn(4) {
	case 0: // filtered
		var f base.Filter = filters.NewFloatConvertFilter()
		if r.Intn(2) == 0 {
			f = filters.NewBinaryConvertFilter()
		}
		for _, a := range t.Attrs {
			if r.Intn(2) == 0 {
				f.AddAttribute(a)
			}
		}
		f.Train()
		g := base.NewLazilyFilteredInstances(t.Grid, f)
		n := &Table{Attrs: g.AllAttributes()}
		cl := ptrSet(g.AllClassAttributes())
		for _, a := range n.Attrs {
			n.Class = append(n.Class, cl[a] > 0)
		}
		n.Cells = cellsOf(g, n.Attrs)
		return g, n, "filtered"
	}
	return wrap(c, t)
}

func c06Compare(c *Case, body string, m *Table) {
	recs, err := csv.NewReader(strings.NewReader(body)).ReadAll()
	if err != nil {
		c.Failf("what was written is not CSV: %v", err)
	}
	if len(recs) != len(m.Cells)+1 {
		c.Failf("%d records were written for %d rows", len(recs), len(m.Cells))
	}
	if len(recs[0]) != len(m.Attrs) {
		c.Failf("%d columns were written for %d attributes: %q", len(recs[0]), len(m.Attrs), recs[0])
	}
	nclass := len(m.ClassIdx())
	seen := map[int]bool{}
	for k, n := range recs[0] {
		j := -1
		for x, a := range m.Attrs {
			if a.GetName() == n {
				j = x
			}
		}
		if j < 0 || seen[j] {
			c.Failf("column %q written twice, or from nowhere", n)
		}
		seen[j] = true
		if m.Class[j] != (k >= len(recs[0])-nclass) {
			c.Failf("class attributes don't come last: %q", recs[0])
		}
		for i := range m.Cells {
			s := recs[i+1][k]
			switch a := m.Attrs[j].(type) {
			case *base.FloatAttribute:
				f, err := strconv.ParseFloat(s, 64)
				v := m.F(i, j)
				if err != nil || (f != v && math.Abs(f-v) > 0.5000001*math.Pow(10, -float64(a.Precision))+1e-15*math.Abs(v)) {
					c.Failf("%q row %d: %v written as %q at precision %d", n, i, v, s, a.Precision)
				}
			default:
				if s != sysToString(a, m.Cells[i][j]) {
					c.Failf("%q row %d: %q written as %q", n, i, sysToString(a, m.Cells[i][j]), s)
				}
			}
		}
	}
	c.Obs("cells_written", len(m.Cells)*len(m.Attrs))
}

func c06Write(c *Case) {
	r := c.R
	g, m, kind := writable(c, r.Intn(15))
	c.Desc = fmt.Sprintf("%s %s", kind, m.describe(3))
	c.Sig("write", kind, kinds(m), len(m.Cells))
	before := snapshotRows(g, m)
	var body string
	path := filepath.Join(c.Dir(), "out.csv")
	if r.Intn(2) == 0 {
		var b bytes.Buffer
		if err := base.SerializeInstancesToCSVStream(g, &b); err != nil {
			c.Failf("SerializeInstancesToCSVStream: %v", err)
		}
		body = b.String()
		ioutil.WriteFile(path, b.Bytes(), 0644)
	} else {
		if r.Intn(2) == 0 { // an older, longer file
			ioutil.WriteFile(path, bytes.Repeat([]byte("old,old,old\n"), r.Intn(300)), 0644)
		}
		if err := base.SerializeInstancesToCSV(g, path); err != nil {
			c.Failf("SerializeInstancesToCSV: %v", err)
		}
		b, err := ioutil.ReadFile(path)
		if err != nil {
			c.Failf("%v", err)
		}
		body = string(b)
	}
	c06Compare(c, body, m)
	if snapshotRows(g, m) != before {
		c.Failf("the grid was changed")
	}
	if len(m.Cells) == 0 {
		if _, err := base.ParseCSVToInstances(path, true); err == nil {
			c.Failf("a file without data rows was accepted")
		}
		return
	}
	back, err := base.ParseCSVToInstances(path, true)
	if err != nil {
		c.Failf("reading back: %v", err)
	}
	c06Compare(c, body, m)
	_, rows := back.Size()
	if rows != len(m.Cells) || len(back.AllAttributes()) != len(m.Attrs) {
		c.Failf("read back %d rows of %d, %d attributes of %d", rows, len(m.Cells), len(back.AllAttributes()), len(m.Attrs))
	}
	for j, a := range m.Attrs {
		b := base.GetAttributeByName(back, a.GetName())
		if b == nil {
			c.Failf("%s is gone", a)
		}
		_, isCat := a.(*base.CategoricalAttribute)
		_, isF := b.(*base.FloatAttribute)
		if isCat == isF {
			c.Failf("%s came back as %s", a, b)
		}
		for i := range m.Cells {
			got := gridCell(back, b, i)
			switch x := a.(type) {
			case *base.CategoricalAttribute:
				if b.GetStringFromSysVal(got) != m.S(i, j) {
					c.Failf("%s row %d: %q came back as %q", a, i, m.S(i, j), b.GetStringFromSysVal(got))
				}
			case *base.BinaryAttribute:
				if unpackF(got) != float64(m.Cells[i][j][0]) {
					c.Failf("%s row %d: %v came back as %v", a, i, m.Cells[i][j][0], unpackF(got))
				}
			case *base.FloatAttribute:
				v, f := m.F(i, j), unpackF(got)
				if math.Abs(f-v) > 0.5000001*math.Pow(10, -float64(x.Precision))+1e-15*math.Abs(v) {
					c.Failf("%s row %d: %v came back as %v at precision %d", a, i, v, f, x.Precision)
				}
			}
		}
	}
	if cl := m.ClassIdx(); len(cl) == 1 {
		ca := back.AllClassAttributes()
		if len(ca) != 1 || ca[0].GetName() != m.Attrs[cl[0]].GetName() {
			c.Failf("class %v came back as %v", m.Attrs[cl[0]], ca)
		}
	}
	// writing what was read yields the same values again
	var b2 bytes.Buffer
	if err := base.SerializeInstancesToCSVStream(back, &b2); err != nil {
		c.Failf("writing again: %v", err)
	}
}

// snapshotRows reads the cells of the model's attributes.
func snapshotRows(g base.FixedDataGrid, m *Table) string {
	return strings.Join(rowKeys(g, m.Attrs), "\n")
}

func c06Large(c *Case) {
	r := c.R
	rows := 3000 + r.Intn(4000)
	t := genTable(r, GenOpts{Rows: rows, Floats: 3 + r.Intn(30), Cats: 1, Bins: 1, CatVals: 12, ClassCat: 3, Style: VWide, ShuffleAttrOrder: true})
	for _, a := range t.Attrs {
		if f, ok := a.(*base.FloatAttribute); ok {
			f.Precision = 12
		}
	}
	c.Desc = fmt.Sprintf("%d rows %d columns", rows, len(t.Attrs))
	c.Sig("large", rows, len(t.Attrs))
	path := filepath.Join(c.Dir(), "out.csv")
	if err := base.SerializeInstancesToCSV(t.Grid, path); err != nil {
		c.Failf("SerializeInstancesToCSV: %v", err)
	}
	b, _ := ioutil.ReadFile(path)
	c06Compare(c, string(b), t)
	d := &csvDoc{header: true}
	recs, _ := csv.NewReader(bytes.NewReader(b)).ReadAll()
	d.names = recs[0]
	for _, n := range d.names {
		_, ok := base.GetAttributeByName(t.Grid, n).(*base.CategoricalAttribute)
		d.isFloat = append(d.isFloat, !ok)
	}
	d.text = recs[1:]
	g, err := base.ParseCSVToInstances(path, true)
	if err != nil {
		c.Failf("%v", err)
	}
	checkCSV(c, "large", g, d)
}

// c06Wide: neither long names nor many columns make lines too long to be read.
func c06Wide(c *Case) {
	r := c.R
	d := &csvDoc{header: r.Intn(3) > 0}
	cols, long := 1+r.Intn(4), 20000+r.Intn(100000)
	if r.Intn(2) == 0 {
		cols, long = 2000+r.Intn(8000), 0
	}
	rows := 1 + r.Intn(8)
	var b strings.Builder
	for j := 0; j < cols; j++ {
		n := fmt.Sprint(j)
		if d.header {
			n = fmt.Sprintf("c%d", j)
			if long > 0 {
				n += strings.Repeat(string(rune('a'+r.Intn(26))), long)
			}
			if j > 0 {
				b.WriteByte(',')
			}
			b.WriteString(n)
		}
		d.names = append(d.names, n)
		d.isFloat = append(d.isFloat, j%9 != 8)
	}
	if d.header {
		b.WriteByte('\n')
	}
	for i := 0; i < rows; i++ {
		var rec []string
		for j := 0; j < cols; j++ {
			s := strconv.FormatFloat(r.NormFloat64(), 'f', 4, 64)
			if !d.isFloat[j] {
				s = []string{"alpha", "beta", "gamma"}[r.Intn(3)]
			}
			rec = append(rec, s)
		}
		d.text = append(d.text, rec)
		b.WriteString(strings.Join(rec, ",") + "\n")
	}
	c.Desc = fmt.Sprintf("%d columns, names %d longer, %d rows", cols, long, rows)
	c.Sig("wide", cols, long, rows)
	p, err := base.ParseCSVEstimateFilePrecisionFromReader(strings.NewReader(b.String()))
	if err != nil || p != 4 {
		c.Failf("the precision is 4, the estimate %d, %v", p, err)
	}
	var g *base.DenseInstances
	if r.Intn(2) == 0 {
		path := filepath.Join(c.Dir(), "wide.csv")
		ioutil.WriteFile(path, []byte(b.String()), 0644)
		g, err = base.ParseCSVToInstances(path, d.header)
	} else {
		g, err = base.ParseCSVToInstancesFromReader(strings.NewReader(b.String()), d.header)
	}
	if err != nil {
		c.Failf("%v", err)
	}
	checkCSV(c, "wide", g, d)
}

// failWriter fails once n bytes were taken.
type failWriter struct {
	n, got int
	short  bool
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.got+len(p) > w.n {
		k := w.n - w.got
		w.got = w.n
		if k < 0 {
			k = 0
		}
		return k, io.ErrClosedPipe
	}
	w.got += len(p)
	return len(p), nil
}

// fullDisk runs f while no file can grow beyond n bytes, as on a full disk.
func fullDisk(n int, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
		return
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max})
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// fullDiskFile checks that a file written while the disk filled up is whole
// unless an error was reported.
func fullDiskFile(c *Case, size int, write func(path string) error) {
	path := filepath.Join(c.Dir(), "full")
	n := c.R.Intn(size + 1)
	if c.R.Intn(3) == 0 && size > 0 {
		n = size - 1
	}
	n0 := openFiles()
	var err error
	if p := Panics(func() { fullDisk(n, func() { err = write(path) }) }); p != nil {
		c.Failf("disk full after %d of %d bytes: panic %v", n, size, p)
	}
	if k := openFiles(); k > n0 {
		c.Failf("disk full after %d of %d bytes: %d files left open", n, size, k-n0)
	}
	if (err == nil) != (n >= size) {
		c.Failf("disk full after %d of %d bytes, but the error is %v", n, size, err)
	}
	c.Obs("full disks", 1)
}

func c06Fail(c *Case) {
	r := c.R
	rows := r.Intn(40)
	if r.Intn(8) == 0 {
		rows = 400
	}
	g, m, kind := writable(c, rows)
	var full bytes.Buffer
	if err := base.SerializeInstancesToCSVStream(g, &full); err != nil {
		c.Failf("SerializeInstancesToCSVStream: %v", err)
	}
	n := r.Intn(full.Len() + 1)
	c.Desc = fmt.Sprintf("fails after %d of %d bytes: %s %s", n, full.Len(), kind, m.describe(2))
	c.Sig("fail", n, full.Len(), kind)
	w := &failWriter{n: n}
	err := base.SerializeInstancesToCSVStream(g, w)
	// columns may come in another order, but take the same space
	if (err == nil) != (n >= full.Len()) {
		c.Failf("writer failed after %d of %d bytes, but the error is %v", n, full.Len(), err)
	}
	c.Obs("failures", 1)
	if r.Intn(4) == 0 {
		fullDiskFile(c, full.Len(), func(p string) error { return base.SerializeInstancesToCSV(g, p) })
	}
	if _, e := os.Stat("/dev/full"); e == nil && r.Intn(4) == 0 {
		if base.SerializeInstancesToCSV(g, "/dev/full") == nil {
			c.Failf("no error on a full device")
		}
	}
	if base.SerializeInstancesToCSV(g, filepath.Join(c.Dir(), "no", "such", "dir.csv")) == nil {
		c.Failf("no error for a path that cannot be created")
	}
}

func c06Damaged(c *Case) {
	r := c.R
	d := genCSV(c, r.Intn(2) == 0)
	b := []byte(d.body)
	switch r.Intn(6) {
	case 0:
		b = b[:r.Intn(len(b)+1)]
	case 1:
		for k := 1 + r.Intn(3); k > 0; k-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
	case 2:
		k := r.Intn(len(b) + 1)
		b = append(append(append([]byte(nil), b[:k]...), oddString(c)...), b[k:]...)
	case 3: // drop a field or add one
		k := bytes.LastIndexByte(b, ',')
		if k >= 0 {
			b = append(append([]byte(nil), b[:k]...), bytes.Replace(b[k:], []byte(","), []byte([]string{"", ",,"}[r.Intn(2)]), 1)...)
		}
	case 4: // text in a column of numbers
		b = append(b, '\n')
		for j := range d.names {
			if j > 0 {
				b = append(b, ',')
			}
			b = append(b, "word"...)
		}
	case 5:
		b = []byte(oddString(c) + "\n" + oddString(c))
	}
	c.Desc = string(b)
	c.Sig("damaged", c.Desc)
	hdr := r.Intn(2) == 0
	path := filepath.Join(c.Dir(), "x.csv")
	ioutil.WriteFile(path, b, 0644)
	recs, cerr := csv.NewReader(bytes.NewReader(b)).ReadAll()
	want := len(recs)
	if hdr {
		want--
	}
	check := func(what string, g *base.DenseInstances, err error) {
		if err != nil {
			c.Obs("refused", 1)
			return
		}
		c.Obs("accepted", 1)
		if g == nil {
			c.Failf("%s: neither instances nor an error", what)
		}
		if cerr != nil {
			c.Failf("%s: malformed CSV was accepted (%v)", what, cerr)
		}
		if _, rows := g.Size(); rows != want {
			c.Failf("%s: %d rows of %d", what, rows, want)
		}
		_ = g.AllAttributes()
	}
	g, err := base.ParseCSVToInstances(path, hdr)
	check("ParseCSVToInstances", g, err)
	g, err = base.ParseCSVToInstancesFromReader(bytes.NewReader(b), hdr)
	check("ParseCSVToInstancesFromReader", g, err)
	g, err = base.ParseCSVToInstancesWithAttributeGroups(path, nil, nil, nil, hdr)
	check("ParseCSVToInstancesWithAttributeGroups", g, err)
	tpl, terr := base.ParseCSVToInstancesFromReader(strings.NewReader(d.body), d.header)
	if terr != nil {
		c.Failf("well-formed CSV refused: %v", terr)
	}
	g, err = base.ParseCSVToTemplatedInstances(path, hdr, tpl)
	check("ParseCSVToTemplatedInstances", g, err)
	if _, err := base.ParseCSVToInstances(filepath.Join(c.Dir(), "missing.csv"), hdr); err == nil {
		c.Failf("a missing file was accepted")
	}
}
