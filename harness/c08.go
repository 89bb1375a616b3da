package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
)

func init() {
	register(&Property{
		ID:   "C08",
		Rule: "grids, views and filtered grids of every shape written to memory, to files (also over longer ones) and read back, byte for byte; classifier containers with random keys of every kind read back in any order; containers cut at every kind of place, with flipped bytes (in the compressed stream, or inside a valid one), members removed, repeated or resized; failing writers and full disks; names and values which are not UTF-8; other format versions; open files counted; distinct by contents",
		W: []Workload{
			{Name: "round-trip", Quick: 6000, Thorough: 60000, Fn: c08Round},
			{Name: "invalid-text", Quick: 6000, Thorough: 40000, Fn: c08Text},
			{Name: "large", Quick: 12, Thorough: 200, Fn: c08Large},
			{Name: "container", Quick: 1600, Thorough: 10000, Fn: c08Container},
			{Name: "versions", Quick: 100, Thorough: 400, Fn: c08Versions},
			{Name: "full-disk", Quick: 1200, Thorough: 10000, Fn: c08FullDisk},
			{Name: "damaged", Quick: 16000, Thorough: 200000, Fn: c08Damaged},
			{Name: "damaged-container", Quick: 2400, Thorough: 20000, Fn: c08DamagedContainer},
			{Name: "failing-writer", Quick: 4000, Thorough: 30000, Fn: c08Fail},
		},
	})
}

// c08Same checks that back holds exactly the model.
func c08Same(c *Case, what string, back base.FixedDataGrid, m *Table) {
	_, rows := back.Size()
	all := back.AllAttributes()
	if rows != len(m.Cells) || len(all) != len(m.Attrs) {
		c.Failf("%s: read back %d rows and %d attributes, want %d and %d", what, rows, len(all), len(m.Cells), len(m.Attrs))
	}
	cls := map[string]bool{}
	for _, a := range back.AllClassAttributes() {
		cls[a.GetName()] = true
	}
	if len(cls) != len(m.ClassIdx()) {
		c.Failf("%s: class attributes %v", what, back.AllClassAttributes())
	}
	for j, a := range m.Attrs {
		b := base.GetAttributeByName(back, a.GetName())
		if b == nil || !sameAttr(a, b) {
			c.Failf("%s: %s came back as %v", what, a, b)
		}
		if cls[a.GetName()] != m.Class[j] {
			c.Failf("%s: %s is a class attribute: %v, want %v", what, a, cls[a.GetName()], m.Class[j])
		}
		s, err := back.GetAttribute(b)
		if err != nil {
			c.Failf("%s: GetAttribute: %v", what, err)
		}
		for i := range m.Cells {
			if got := back.Get(s, i); !bytes.Equal(got, m.Cells[i][j]) {
				c.Failf("%s: %s row %d is %v, want %v", what, a, i, got, m.Cells[i][j])
			}
		}
	}
	c.Obs("cells", rows*len(all))
}

// c08Grid makes a grid of any kind, with special floats and odd names.
func c08Grid(c *Case, rows int) (base.FixedDataGrid, *Table, string) {
	r := c.R
	if r.Intn(3) == 0 {
		g, m, k := writable(c, rows)
		return g, m, k
	}
	t := genTable(r, GenOpts{Rows: rows, Floats: r.Intn(5), Cats: r.Intn(4), Bins: r.Intn(12), ClassCat: r.Intn(4), ClassFloat: r.Intn(4) == 0, ClassBin: r.Intn(4) == 0, Style: []ValueStyle{VSmallInt, VGauss, VSpecial, VWide}[r.Intn(4)], ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0})
	for j, a := range t.Attrs {
		if f, ok := a.(*base.FloatAttribute); ok {
			f.Precision = somePrecision(r)
			if rows > 0 && r.Intn(4) == 0 {
				i := r.Intn(rows)
				t.Cells[i][j] = packF(math.NaN())
				t.Grid.Set(t.Specs[j], i, t.Cells[i][j])
			}
		}
		if r.Intn(4) == 0 {
			a.SetName(fmt.Sprintf("%d:%s", j, oddString(c)))
		}
	}
	if len(t.Attrs) == 0 {
		return t.Grid, t, "empty"
	}
	return wrap(c, t)
}

func openFiles() int {
	d, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(d)
}

func c08Round(c *Case) {
	r := c.R
	rows := r.Intn(20)
	if r.Intn(30) == 0 {
		rows = 300 + r.Intn(300)
	}
	g, m, kind := c08Grid(c, rows)
	c.Desc = kind + " " + m.describe(3)
	c.Sig("round", kind, kinds(m), len(m.Cells), c.Desc)
	before := ""
	if len(m.Attrs) > 0 {
		before = snapshotRows(g, m)
	}
	var b []byte
	if r.Intn(2) == 0 {
		var buf bytes.Buffer
		if err := base.SerializeInstances(g, &buf); err != nil {
			c.Failf("SerializeInstances: %v", err)
		}
		b = buf.Bytes()
	} else {
		path := filepath.Join(c.Dir(), "x.bin")
		if r.Intn(2) == 0 {
			ioutil.WriteFile(path, bytes.Repeat([]byte("old contents"), r.Intn(2000)), 0644)
		}
		n := openFiles()
		if err := base.SerializeInstancesToFile(g, path); err != nil {
			c.Failf("SerializeInstancesToFile: %v", err)
		}
		if k := openFiles(); k > n {
			c.Failf("SerializeInstancesToFile left %d files open", k-n)
		}
		b, _ = ioutil.ReadFile(path)
		gz, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			c.Failf("%v", err)
		}
		if _, err := io.Copy(ioutil.Discard, gz); err != nil {
			c.Failf("the file is not a clean gzip file: %v", err)
		}
	}
	rd := bytes.NewReader(b)
	back, err := base.DeserializeInstances(rd)
	if err != nil {
		c.Failf("DeserializeInstances: %v", err)
	}
	c08Same(c, "round trip", back, m)
	if len(m.Attrs) > 0 && snapshotRows(g, m) != before {
		c.Failf("the grid was changed")
	}
	// and a second time
	var again bytes.Buffer
	if err := base.SerializeInstances(back, &again); err != nil {
		c.Failf("SerializeInstances of what was read: %v", err)
	}
	back, err = base.DeserializeInstances(bytes.NewReader(again.Bytes()))
	if err != nil {
		c.Failf("DeserializeInstances: %v", err)
	}
	c08Same(c, "second round trip", back, m)
}

// c08Text saves names and values which are not UTF-8: they come back as they
// were, or saving them is an error.
func c08Text(c *Case) {
	r := c.R
	bad := func() string {
		s := []string{"caf\xe9", "\xff", "\xc3", "a\x80b", "\xe4", "\xf6", "\xed\xa0\x80", "\xe6\x97", "na\xefve"}[r.Intn(9)]
		if r.Intn(3) == 0 {
			s += oddString(c)
		}
		return s
	}
	t := genTable(r, GenOpts{Rows: r.Intn(6), Floats: 1 + r.Intn(2), Cats: 1 + r.Intn(2), Bins: 1 + r.Intn(2), ClassCat: 2, ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0})
	k := r.Intn(len(t.Attrs))
	a := t.Attrs[k]
	where := "name"
	if cat, ok := a.(*base.CategoricalAttribute); ok && r.Intn(3) > 0 {
		where = "value"
		for n := 1 + r.Intn(3); n > 0; n-- { // which differ, and may look alike once damaged
			v := cat.GetSysValFromString(bad())
			if len(t.Cells) > 0 {
				i := r.Intn(len(t.Cells))
				t.Cells[i][k] = v
				t.Grid.Set(t.Specs[k], i, v)
			}
		}
	} else {
		a.SetName(bad())
	}
	how := r.Intn(4)
	c.Desc = fmt.Sprintf("%d: %s of %T %q", how, where, a, a.GetName())
	c.Sig(how, where, fmt.Sprintf("%T", a), len(t.Cells), len(t.Attrs))
	c.Obs("texts", 1)
	if how == 0 {
		var buf bytes.Buffer
		if err := base.SerializeInstances(t.Grid, &buf); err != nil {
			c.Obs("refused", 1)
			return
		}
		back, err := base.DeserializeInstances(bytes.NewReader(buf.Bytes()))
		if err != nil {
			c.Failf("DeserializeInstances: %v", err)
		}
		c08Same(c, "round trip", back, t)
		return
	}
	path := filepath.Join(c.Dir(), "x.cls")
	w, err := base.CreateSerializedClassifierStub(path, base.ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "x", ClassifierVersion: "1"})
	if err != nil {
		c.Failf("CreateSerializedClassifierStub: %v", err)
	}
	key := w.Prefix("", "K")
	switch how {
	case 1:
		err = w.WriteAttributeForKey(key, a)
	case 2:
		err = w.WriteAttributesForKey(key, t.Attrs)
	case 3:
		err = w.WriteInstancesForKey(key, t.Grid, true)
	}
	if cerr := w.Close(); err == nil {
		err = cerr
	}
	if err != nil {
		c.Obs("refused", 1)
		return
	}
	rd, err := base.ReadSerializedClassifierStub(path)
	if err != nil {
		c.Failf("ReadSerializedClassifierStub: %v", err)
	}
	defer rd.Close()
	switch how {
	case 1:
		c08Entry1(c, rd, c08Entry{kind: 3, key: key, attrs: []base.Attribute{a}})
	case 2:
		c08Entry1(c, rd, c08Entry{kind: 4, key: key, attrs: t.Attrs})
	case 3:
		c08Entry1(c, rd, c08Entry{kind: 5, key: key, grid: t, data: true})
	}
}

func c08Large(c *Case) {
	r := c.R
	t := genTable(r, GenOpts{Rows: 8000 + r.Intn(8000), Floats: r.Intn(3), Cats: 1 + r.Intn(2), Bins: 1 + r.Intn(4), ClassCat: 3, Style: []ValueStyle{VWide, VSmallInt}[r.Intn(2)], ShuffleAttrOrder: true})
	c.Desc = fmt.Sprintf("%d rows, %s", t.Rows(), kinds(t))
	c.Sig("large", t.Rows(), kinds(t))
	var buf bytes.Buffer
	if err := base.SerializeInstances(t.Grid, &buf); err != nil {
		c.Failf("SerializeInstances: %v", err)
	}
	back, err := base.DeserializeInstances(&slowSeeker{bytes.NewReader(buf.Bytes()), 1 + r.Intn(5000)})
	if err != nil {
		c.Failf("DeserializeInstances: %v", err)
	}
	c08Same(c, "large", back, t)
}

// slowSeeker returns at most n bytes at a time.
type slowSeeker struct {
	*bytes.Reader
	n int
}

func (s *slowSeeker) Read(p []byte) (int, error) {
	if len(p) > s.n {
		p = p[:s.n]
	}
	return s.Reader.Read(p)
}

func (s *slowSeeker) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, struct{ io.Reader }{s}) }

type c08Entry struct {
	kind  int
	key   string
	raw   []byte
	u     uint64
	js    map[string]interface{}
	attrs []base.Attribute
	grid  *Table
	data  bool
}

// c08Near is a key that ends or begins like another one.
func c08Near(r *rand.Rand, key string) string {
	near := []string{"other/" + key, "x" + key, key + "x", key + "/more", strings.ToLower(key) + "_", "zz/CLS_MANIFEST" + key, "SUB" + key}
	if i := strings.Index(key, "/"); i > 0 {
		near = append(near, key[i+1:], key[i+1:])
	}
	if len(key) > 1 && key[0] < 128 {
		near = append(near, key[1:], key[1:])
	}
	return near[r.Intn(len(near))]
}

func c08Taken(es []c08Entry, key string) bool {
	for _, o := range es {
		if o.key == key {
			return true
		}
	}
	return key == "" || strings.HasSuffix(key, "/")
}

// c08Build writes a container and returns what was put in.
func c08Build(c *Case, path string) ([]c08Entry, base.ClassifierMetadataV1, base.ClassifierMetadataV1) {
	r := c.R
	newMeta := func() base.ClassifierMetadataV1 {
		return base.ClassifierMetadataV1{FormatVersion: 1, ClassifierName: oddString(c), ClassifierVersion: oddString(c), ClassifierMetadata: map[string]interface{}{"k": oddString(c), "n": float64(r.Intn(100))}}
	}
	meta, inner := newMeta(), newMeta()
	inner.FormatVersion = 1 + r.Intn(2)
	w, err := base.CreateSerializedClassifierStub(path, meta)
	if err != nil {
		c.Failf("CreateSerializedClassifierStub: %v", err)
	}
	var es []c08Entry
	prefix := []string{"", "p", "a/b", strings.Repeat("long", 40)}[r.Intn(4)]
	n := r.Intn(8)
	for k := 0; k < n; k++ {
		e := c08Entry{kind: r.Intn(6), key: w.Prefix(prefix, fmt.Sprintf("%s%d", []string{"KEY", "é", "with space"}[r.Intn(3)], k))}
		if len(es) > 0 && r.Intn(3) == 0 { // a key that ends or begins like another
			if key := c08Near(r, es[r.Intn(len(es))].key); !c08Taken(es, key) {
				e.key = key
			}
		}
		switch e.kind {
		case 0:
			e.raw = make([]byte, []int{0, 1, 511, 512, 513, r.Intn(5000)}[r.Intn(6)])
			r.Read(e.raw)
			err = w.WriteBytesForKey(e.key, e.raw)
		case 1:
			e.u = r.Uint64()
			err = w.WriteU64ForKey(e.key, e.u)
		case 2:
			e.js = map[string]interface{}{"s": oddString(c), "f": r.NormFloat64(), "l": []interface{}{true, nil, "x"}}
			err = w.WriteJSONForKey(e.key, e.js)
		case 3:
			e.attrs = []base.Attribute{randAttr(c, oddString(c))}
			err = w.WriteAttributeForKey(e.key, e.attrs[0])
		case 4:
			n := r.Intn(5)
			if r.Intn(25) == 0 {
				n = 250 + r.Intn(30)
			}
			for i := n; i > 0; i-- {
				e.attrs = append(e.attrs, randAttr(c, oddString(c)))
			}
			err = w.WriteAttributesForKey(e.key, e.attrs)
		case 5:
			g, m, _ := c08Grid(c, r.Intn(15))
			e.grid, e.data = m, r.Intn(3) > 0
			err = w.WriteInstancesForKey(e.key, g, e.data)
		}
		if err != nil {
			c.Failf("writing %q (kind %d): %v", e.key, e.kind, err)
		}
		es = append(es, e)
	}
	if n := len(es); n > 0 && r.Intn(2) == 0 { // keys that end alike, or begin alike
		for _, k := range r.Perm(n)[:1+r.Intn(n)] {
			key := es[k].key
			e := c08Entry{kind: 0, key: c08Near(r, key), raw: []byte(oddString(c))}
			if c08Taken(es, e.key) {
				continue
			}
			if err := w.WriteBytesForKey(e.key, e.raw); err != nil {
				c.Failf("writing %q: %v", e.key, err)
			}
			es = append(es, e)
		}
	}
	if r.Intn(3) == 0 { // a key written again: the most recent entry counts
		for k := range es {
			if es[k].kind == 0 && r.Intn(2) == 0 {
				es[k].raw = []byte(oddString(c))
				if err := w.WriteBytesForKey(es[k].key, es[k].raw); err != nil {
					c.Failf("writing %q again: %v", es[k].key, err)
				}
				c.Obs("rewritten", 1)
			}
		}
	}
	if err := w.WriteMetadataAtPrefix("inner", inner); err != nil {
		c.Failf("WriteMetadataAtPrefix: %v", err)
	}
	if err := w.Close(); err != nil {
		c.Failf("Close: %v", err)
	}
	return es, meta, inner
}

func c08Container(c *Case) {
	r := c.R
	path := filepath.Join(c.Dir(), "x.cls")
	if r.Intn(2) == 0 {
		ioutil.WriteFile(path, bytes.Repeat([]byte("old contents"), r.Intn(2000)), 0644)
	}
	n0 := openFiles()
	es, meta, innerMeta := c08Build(c, path)
	var ks []string
	for _, e := range es {
		ks = append(ks, fmt.Sprintf("%d:%s:%d", e.kind, e.key, len(e.raw)))
	}
	c.Desc = strings.Join(ks, " ")
	c.Sig(c.Desc, meta.ClassifierName)
	rd, err := base.ReadSerializedClassifierStub(path)
	if err != nil {
		c.Failf("ReadSerializedClassifierStub: %v", err)
	}
	wantMeta, _ := json.Marshal(meta)
	if got, _ := json.Marshal(rd.Metadata); string(got) != string(wantMeta) {
		c.Failf("metadata %s, want %s", got, wantMeta)
	}
	inner, err := rd.ReadMetadataAtPrefix("inner")
	wantMeta, _ = json.Marshal(innerMeta)
	if got, _ := json.Marshal(inner); err != nil || string(got) != string(wantMeta) {
		c.Failf("inner metadata %s, want %s (%v)", got, wantMeta, err)
	}
	for pass := 0; pass < 2; pass++ { // in any order, more than once
		for _, k := range r.Perm(len(es)) {
			e := es[k]
			c08Entry1(c, rd, e)
		}
	}
	if _, err := rd.GetBytesForKey("no such key"); err == nil {
		c.Failf("a key that was not written was read")
	}
	if _, err := rd.GetU64ForKey("no such key"); err == nil {
		c.Failf("a key that was not written was read")
	}
	if _, err := rd.GetInstancesForKey("no such key"); err == nil {
		c.Failf("a key that was not written was read")
	}
	if _, err := rd.GetAttributesForKey("no such key"); err == nil {
		c.Failf("a key that was not written was read")
	}
	rd.Close()
	if n := openFiles(); n > n0 {
		c.Failf("%d files left open", n-n0)
	}
	c.Obs("entries", 2*len(es))
}

// c08Versions: containers of a version that this golearn does not know.
func c08Versions(c *Case) {
	r := c.R
	path := filepath.Join(c.Dir(), "x.cls")
	v := []int{0, 1, 2, 3, -1, 10, 11, 1 << 32, 257}[r.Intn(9)]
	c.Desc = fmt.Sprint("format version ", v)
	c.Sig("version", v, r.Intn(4))
	w, err := base.CreateSerializedClassifierStub(path, base.ClassifierMetadataV1{FormatVersion: v, ClassifierName: "x"})
	if err != nil {
		c.Failf("CreateSerializedClassifierStub: %v", err)
	}
	w.WriteU64ForKey("x", 1)
	if err := w.Close(); err != nil {
		c.Failf("Close: %v", err)
	}
	n0 := openFiles()
	rd, err := base.ReadSerializedClassifierStub(path)
	if (err == nil) != (v == 1) {
		c.Failf("format version %d: %v", v, err)
	}
	if err == nil {
		rd.Close()
	}
	if openFiles() > n0 {
		c.Failf("file left open")
	}
	c.Obs("versions", 1)
}

// c08FullDisk: whatever the writer of a container says it has written must be there.
func c08FullDisk(c *Case) {
	r := c.R
	path := filepath.Join(c.Dir(), "x.cls")
	raw := make([]byte, r.Intn(3000))
	r.Read(raw)
	g, m, _ := c08Grid(c, r.Intn(15))
	at := randAttr(c, oddString(c))
	n := r.Intn(len(raw) + 2500)
	c.Desc = fmt.Sprintf("disk full after %d bytes", n)
	c.Sig("full", n, len(raw))
	n0 := openFiles()
	var err error
	fail := func(e error) {
		if err == nil {
			err = e
		}
	}
	if p := Panics(func() {
		fullDisk(n, func() {
			w, e := base.CreateSerializedClassifierStub(path, base.ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "x"})
			if e != nil {
				fail(e)
				return
			}
			fail(w.WriteBytesForKey("raw", raw))
			fail(w.WriteAttributeForKey("attr", at))
			fail(w.WriteInstancesForKey("grid", g, true))
			fail(w.Close())
		})
	}); p != nil {
		c.Failf("%s: panic %v", c.Desc, p)
	}
	if k := openFiles(); k > n0 {
		c.Failf("%s: %d files left open (%v)", c.Desc, k-n0, err)
	}
	c.Obs("full disks", 1)
	if err != nil {
		c.Obs("refused", 1)
		return
	}
	rd, err := base.ReadSerializedClassifierStub(path)
	if err != nil {
		c.Failf("%s: written without an error, but %v", c.Desc, err)
	}
	defer rd.Close()
	c08Entry1(c, rd, c08Entry{kind: 0, key: "raw", raw: raw})
	c08Entry1(c, rd, c08Entry{kind: 3, key: "attr", attrs: []base.Attribute{at}})
	c08Entry1(c, rd, c08Entry{kind: 5, key: "grid", grid: m, data: true})
}

func c08Entry1(c *Case, rd *base.ClassifierDeserializer, e c08Entry) {
	switch e.kind {
	case 0:
		got, err := rd.GetBytesForKey(e.key)
		if err != nil || !bytes.Equal(got, e.raw) {
			c.Failf("%q: %d bytes, %v; want %d", e.key, len(got), err, len(e.raw))
		}
		s, err := rd.GetStringForKey(e.key)
		if err != nil || s != string(e.raw) {
			c.Failf("%q: string of %d bytes, %v; want %d", e.key, len(s), err, len(e.raw))
		}
		if n, err := rd.GetU64ForKey(e.key); err == nil && len(e.raw) != 8 {
			c.Failf("%q: %d bytes read as the number %d", e.key, len(e.raw), n)
		}
	case 1:
		got, err := rd.GetU64ForKey(e.key)
		if err != nil || got != e.u {
			c.Failf("%q: %d, %v; want %d", e.key, got, err, e.u)
		}
	case 2:
		var got map[string]interface{}
		err := rd.GetJSONForKey(e.key, &got)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(e.js) {
			c.Failf("%q: %v, %v; want %v", e.key, got, err, e.js)
		}
	case 3:
		got, err := rd.GetAttributeForKey(e.key)
		if err != nil || !sameAttr(got, e.attrs[0]) {
			c.Failf("%q: %v, %v; want %v", e.key, got, err, e.attrs[0])
		}
	case 4:
		got, err := rd.GetAttributesForKey(e.key)
		if err != nil || len(got) != len(e.attrs) {
			c.Failf("%q: %v, %v; want %v", e.key, got, err, e.attrs)
		}
		for i := range got {
			if !sameAttr(got[i], e.attrs[i]) {
				c.Failf("%q: attribute %d is %v, want %v", e.key, i, got[i], e.attrs[i])
			}
		}
	case 5:
		got, err := rd.GetInstancesForKey(e.key)
		if err != nil {
			c.Failf("%q: %v", e.key, err)
		}
		m := e.grid
		if !e.data {
			m = &Table{Attrs: m.Attrs, Class: m.Class}
		}
		c08Same(c, e.key, got, m)
	}
}

type tarMember struct {
	name string
	data []byte
}

func untar(b []byte) []tarMember {
	gz, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		panic(err)
	}
	tr := tar.NewReader(gz)
	var ms []tarMember
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return ms
		}
		if err != nil {
			panic(err)
		}
		d, err := ioutil.ReadAll(tr)
		if err != nil {
			panic(err)
		}
		ms = append(ms, tarMember{h.Name, d})
	}
}

func retar(ms []tarMember) []byte {
	var b bytes.Buffer
	gz := gzip.NewWriter(&b)
	tw := tar.NewWriter(gz)
	for _, m := range ms {
		tw.WriteHeader(&tar.Header{Name: m.name, Size: int64(len(m.data))})
		tw.Write(m.data)
	}
	tw.Close()
	gz.Close()
	return b.Bytes()
}

// damage returns a damaged copy. cut: the damage is a plain truncation or has
// made the checksum wrong, so that different contents must not be accepted.
func damage(c *Case, b []byte) (out []byte, how string, cut bool) {
	r := c.R
	out = append([]byte(nil), b...)
	switch r.Intn(6) {
	case 0:
		k := r.Intn(len(out))
		return out[:k], fmt.Sprintf("cut at %d of %d", k, len(out)), true
	case 1:
		for k := 1 + r.Intn(4); k > 0; k-- {
			out[r.Intn(len(out))] ^= byte(1 << uint(r.Intn(8)))
		}
		return out, "flipped bits in the compressed stream", true // the checksum tells
	}
	ms := untar(b)
	k := r.Intn(len(ms))
	switch r.Intn(6) {
	case 5: // an entry of the metadata
		var js map[string]interface{}
		for ; k < len(ms); k++ {
			if strings.HasSuffix(ms[k].name, "METADATA") && json.Unmarshal(ms[k].data, &js) == nil {
				break
			}
		}
		in, _ := js["classifier_metadata"].(map[string]interface{})
		if r.Intn(4) == 0 || len(in) == 0 {
			in = js
		}
		var keys []string
		for x := range in {
			keys = append(keys, x)
		}
		sort.Strings(keys)
		if len(keys) == 0 {
			how = "left all as it was"
			break
		}
		x := keys[r.Intn(len(keys))]
		how = "removed " + x + " from " + ms[k].name
		delete(in, x)
		ms[k].data, _ = json.Marshal(js)
	case 0:
		how = "removed " + ms[k].name
		ms = append(ms[:k], ms[k+1:]...)
	case 1:
		how = "cut " + ms[k].name
		n := len(ms[k].data)
		m := r.Intn(n + 1)
		if r.Intn(2) == 0 && n > 0 { // a little at the end
			m = n - 1 - r.Intn(n)%41
		}
		if m == n {
			how = "left " + ms[k].name
		}
		ms[k].data = ms[k].data[:m]
	case 2:
		how = "changed " + ms[k].name
		d := append([]byte(nil), ms[k].data...)
		for n := 1 + r.Intn(4); n > 0 && len(d) > 0; n-- {
			d[r.Intn(len(d))] = byte(r.Intn(256))
		}
		ms[k].data = d
	case 3:
		how = "grew " + ms[k].name
		ms[k].data = append(append([]byte(nil), ms[k].data...), make([]byte, 1+r.Intn(40))...)
	case 4:
		how = "replaced " + ms[k].name
		ms[k].data = []byte(oddString(c))
	}
	return retar(ms), how, false
}

func c08Damaged(c *Case) {
	r := c.R
	g, m, kind := c08Grid(c, r.Intn(12))
	var buf bytes.Buffer
	if err := base.SerializeInstances(g, &buf); err != nil {
		c.Failf("SerializeInstances: %v", err)
	}
	b, how, cut := damage(c, buf.Bytes())
	c.Desc = how + ": " + kind + " " + m.describe(2)
	c.Sig("damaged", how, c.Desc)
	var back *base.DenseInstances
	var err error
	if p := Panics(func() { back, err = base.DeserializeInstances(bytes.NewReader(b)) }); p != nil {
		c.Failf("%s: panic: %v", how, p)
	}
	if err != nil {
		c.Obs("refused", 1)
		return
	}
	c.Obs("accepted", 1)
	if how == "cut DATA" || how == "removed DATA" {
		c.Failf("%s: accepted although values are missing", how)
	}
	if back == nil {
		c.Failf("%s: neither instances nor an error", how)
	}
	if cut { // nothing that matters may be missing
		c08Same(c, how, back, m)
	}
	_ = snapshot(back)
}

func c08DamagedContainer(c *Case) {
	path := filepath.Join(c.Dir(), "x.cls")
	es, _, _ := c08Build(c, path)
	b, _ := ioutil.ReadFile(path)
	b, how, cut := damage(c, b)
	ioutil.WriteFile(path, b, 0644)
	c.Desc = how
	c.Sig("damaged-container", how, len(b))
	n0 := openFiles()
	if p := Panics(func() {
		rd, err := base.ReadSerializedClassifierStub(path)
		if err != nil {
			c.Obs("refused", 1)
			return
		}
		c.Obs("accepted", 1)
		for _, e := range es {
			if cut { // it must then be undamaged where it matters
				c08Entry1(c, rd, e)
				continue
			}
			var js interface{}
			rd.GetBytesForKey(e.key)
			rd.GetStringForKey(e.key)
			rd.GetU64ForKey(e.key)
			rd.GetJSONForKey(e.key, &js)
			rd.GetAttributeForKey(e.key)
			rd.GetAttributesForKey(e.key)
			rd.GetInstancesForKey(e.key)
		}
		rd.Close()
	}); p != nil {
		c.Failf("%s: panic: %v", how, p)
	}
	if n := openFiles(); n > n0 {
		c.Failf("%s: %d files left open", how, n-n0)
	}
	if _, err := base.ReadSerializedClassifierStub(filepath.Join(c.Dir(), "missing")); err == nil {
		c.Failf("a missing file was read")
	}
}

func c08Fail(c *Case) {
	r := c.R
	rows := r.Intn(40)
	if r.Intn(8) == 0 {
		rows = 600
	}
	g, m, kind := c08Grid(c, rows)
	var full bytes.Buffer
	if err := base.SerializeInstances(g, &full); err != nil {
		c.Failf("SerializeInstances: %v", err)
	}
	n := r.Intn(full.Len() - 12)
	c.Desc = fmt.Sprintf("fails after %d of %d bytes: %s %s", n, full.Len(), kind, m.describe(2))
	c.Sig("fail", n, full.Len(), kind)
	w := &failWriter{n: n}
	var err error
	if p := Panics(func() { err = base.SerializeInstances(g, w) }); p != nil {
		c.Failf("writer failed after %d of %d bytes: panic %v", n, full.Len(), p)
	}
	if err == nil && w.got >= n && n < full.Len()-200 {
		c.Failf("writer failed after %d of %d bytes without an error", n, full.Len())
	}
	c.Obs("failures", 1)
	path := filepath.Join(c.Dir(), "full")
	n = r.Intn(full.Len() + 40)
	n0 := openFiles()
	if p := Panics(func() { fullDisk(n, func() { err = base.SerializeInstancesToFile(g, path) }) }); p != nil {
		c.Failf("disk full after %d of %d bytes: panic %v", n, full.Len(), p)
	}
	if k := openFiles(); k > n0 {
		c.Failf("disk full after %d of %d bytes: %d files left open", n, full.Len(), k-n0)
	}
	if err == nil {
		b, _ := ioutil.ReadFile(path)
		back, err := base.DeserializeInstances(bytes.NewReader(b))
		if err != nil {
			c.Failf("disk full after %d of %d bytes: no error, but the file can't be read: %v", n, full.Len(), err)
		}
		c08Same(c, "written to a nearly full disk", back, m)
	}
	c.Obs("full disks", 1)
	if _, e := os.Stat("/dev/full"); e == nil && r.Intn(4) == 0 {
		if base.SerializeInstancesToFile(g, "/dev/full") == nil {
			c.Failf("no error on a full device")
		}
	}
	if base.SerializeInstancesToFile(g, filepath.Join(c.Dir(), "no", "such", "dir")) == nil {
		c.Failf("no error for a path that cannot be created")
	}
}
