package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
)

func init() {
	register(&Property{
		ID:   "C09",
		Rule: "attributes of every kind with random names and values (empty, long, unicode, quotes, numbers; up to 70000 values), grids and pairs of grids that are equal up to order or differ in one cell, value, name, group or size; every result compared with a set or table model; distinct by shape of the inputs",
		W: []Workload{
			{Name: "values", Quick: 160000, Thorough: 640000, Fn: c09Values},
			{Name: "many-values", Quick: 2, Thorough: 6, Fn: c09Many},
			{Name: "json", Quick: 160000, Thorough: 640000, Fn: c09JSON},
			{Name: "malformed-json", Quick: 240000, Thorough: 960000, Fn: c09Malformed},
			{Name: "sets", Quick: 160000, Thorough: 640000, Fn: c09Sets},
			{Name: "grids", Quick: 160000, Thorough: 640000, Fn: c09Grids},
			{Name: "class-access", Quick: 120000, Thorough: 480000, Fn: c09Class},
		},
	})
}

var oddStrings = []string{"", " ", "a", "A", "aa", "0", "1", "-1", "1.0", "1e3", "NaN", "\"", "\\", "a,b", "a b", "{x}", "é", "日本", "\n", "\t", "'", "@data", "%", "?", "null", "true"}

func oddString(c *Case) string {
	if c.R.Intn(25) == 0 { // a long one
		return strings.Repeat(catWords[c.R.Intn(len(catWords))], 1+c.R.Intn(100)) + oddStrings[c.R.Intn(len(oddStrings))]
	}
	switch c.R.Intn(3) {
	case 0:
		return oddStrings[c.R.Intn(len(oddStrings))]
	case 1:
		return catWords[c.R.Intn(len(catWords))]
	}
	return oddStrings[c.R.Intn(len(oddStrings))] + catWords[c.R.Intn(len(catWords))] + fmt.Sprint(c.R.Intn(5))
}

// somePrecision is a number of digits, usually a small one.
func somePrecision(r *rand.Rand) int {
	if r.Intn(6) == 0 {
		return []int{15, 16, 17, 18, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 70000}[r.Intn(14)]
	}
	return r.Intn(15)
}

// randAttr makes an attribute of a random kind.
func randAttr(c *Case, name string) base.Attribute {
	r := c.R
	switch r.Intn(3) {
	case 0:
		a := base.NewFloatAttribute(name)
		a.Precision = somePrecision(r)
		return a
	case 1:
		return base.NewBinaryAttribute(name)
	}
	a := base.NewCategoricalAttribute()
	a.SetName(name)
	for k := r.Intn(6); k > 0; k-- {
		a.GetSysValFromString(oddString(c))
	}
	return a
}

// c09Many gives an attribute more values than fit into two bytes.
func c09Many(c *Case) {
	n := 65536 + 100 + c.R.Intn(3000)
	c.Sig("many", n)
	c.Desc = fmt.Sprint(n, " values")
	a := base.NewCategoricalAttribute()
	name := func(i int) string { return strconv.Itoa(100000 + i) }
	for i := 0; i < n; i++ {
		if got := a.GetSysValFromString(name(i)); unpackU(got) != uint64(i) {
			c.Failf("value %d was stored as %v", i, got)
		}
	}
	if len(a.GetValues()) != n {
		c.Failf("%d values, want %d", len(a.GetValues()), n)
	}
	js, err := a.MarshalJSON()
	if err != nil {
		c.Failf("MarshalJSON: %v", err)
	}
	back, err := base.DeserializeAttribute(js)
	if err != nil {
		c.Failf("DeserializeAttribute: %v", err)
	}
	for i := 0; i < n; i++ {
		if got := a.GetStringFromSysVal(packU(uint64(i))); got != name(i) {
			c.Failf("index %d reads %q, want %q", i, got, name(i))
		}
		if got := back.GetStringFromSysVal(packU(uint64(i))); got != name(i) {
			c.Failf("after JSON: index %d reads %q, want %q", i, got, name(i))
		}
	}
	for _, i := range []int{0, 255, 256, 65535, 65536, 65537, n - 1, c.R.Intn(n)} {
		if got := a.GetSysVal(name(i)); got == nil || unpackU(got) != uint64(i) {
			c.Failf("GetSysVal(%q) = %v, want %d", name(i), got, i)
		}
	}
	c.Obs("many_values", n)
}

func c09Values(c *Case) {
	r := c.R
	// categorical
	a := base.NewCategoricalAttribute()
	a.SetName(oddString(c))
	var model []string
	n := big(r, r.Intn(40), 700)
	for k := 0; k < n; k++ {
		s := oddString(c)
		idx := indexOf(model, s)
		if got := a.GetSysVal(s); (got == nil) != (idx < 0) || (idx >= 0 && unpackU(got) != uint64(idx)) {
			c.Failf("GetSysVal(%q) = %v, want index %d of %q", s, got, idx, model)
		}
		if r.Intn(3) == 0 {
			continue
		}
		if idx < 0 {
			idx = len(model)
			model = append(model, s)
		}
		got := a.GetSysValFromString(s)
		if len(got) != 8 || unpackU(got) != uint64(idx) {
			c.Failf("GetSysValFromString(%q) = %v, want index %d", s, got, idx)
		}
		if b := a.GetStringFromSysVal(got); b != s {
			c.Failf("GetStringFromSysVal gave %q for %q", b, s)
		}
		if b := a.GetUsrVal(got); b != s {
			c.Failf("GetUsrVal gave %q for %q", b, s)
		}
	}
	if fmt.Sprintf("%q", a.GetValues()) != fmt.Sprintf("%q", model) && len(model) > 0 {
		c.Failf("values %q, want %q", a.GetValues(), model)
	}
	for i, s := range model {
		if a.GetStringFromSysVal(packU(uint64(i))) != s {
			c.Failf("index %d reads %q, want %q", i, a.GetStringFromSysVal(packU(uint64(i))), s)
		}
	}
	// float
	f := base.NewFloatAttribute("f")
	f.Precision = r.Intn(12)
	for k := 0; k < 6; k++ {
		v := genFloat(r, []ValueStyle{VSmallInt, VGauss, VWide, VSpecial}[r.Intn(4)])
		txt := strconv.FormatFloat(v, "eEfgG"[r.Intn(5)], -1, 64)
		if got := f.GetSysValFromString(txt); !bytes.Equal(got, packF(v)) {
			c.Failf("float %q became %v, want %v", txt, got, packF(v))
		}
		if got, err := f.CheckSysValFromString(txt); err != nil || !bytes.Equal(got, packF(v)) {
			c.Failf("float %q checked as %v, %v", txt, got, err)
		}
		if got := f.GetFloatFromSysVal(packF(v)); math.Float64bits(got) != math.Float64bits(v) {
			c.Failf("GetFloatFromSysVal(%v) = %v", v, got)
		}
		back, err := strconv.ParseFloat(f.GetStringFromSysVal(packF(v)), 64)
		if err != nil {
			c.Failf("text of %v does not parse: %v", v, err)
		}
		if back != v && math.Abs(back-v) > 0.5000001*math.Pow(10, -float64(f.Precision))+1e-15*math.Abs(v) {
			c.Failf("text of %v at precision %d is %q", v, f.Precision, f.GetStringFromSysVal(packF(v)))
		}
		bits := r.Uint64()
		if got := base.PackU64ToBytes(bits); !bytes.Equal(got, packU(bits)) || base.UnpackBytesToU64(got) != bits {
			c.Failf("PackU64ToBytes(%x) = %v", bits, got)
		}
		if got := base.PackFloatToBytes(v); !bytes.Equal(got, packF(v)) || math.Float64bits(base.UnpackBytesToFloat(got)) != math.Float64bits(v) {
			c.Failf("PackFloatToBytes(%v) = %v", v, got)
		}
		buf := make([]byte, 8+r.Intn(3))
		base.PackU64ToBytesInline(bits, buf)
		if !bytes.Equal(buf[:8], packU(bits)) || !bytes.Equal(buf[8:], make([]byte, len(buf)-8)) {
			c.Failf("PackU64ToBytesInline(%x) = %v", bits, buf)
		}
		base.PackFloatToBytesInline(v, buf)
		if !bytes.Equal(buf[:8], packF(v)) {
			c.Failf("PackFloatToBytesInline(%v) = %v", v, buf)
		}
	}
	for _, s := range []string{"", "x", "1,5", "1 2", "--1", "0x", "é"} {
		if _, err := f.CheckSysValFromString(s); err == nil {
			c.Failf("CheckSysValFromString accepted %q", s)
		}
		if Panics(func() { f.GetSysValFromString(s) }) == nil {
			c.Failf("GetSysValFromString accepted %q as a float", s)
		}
	}
	// binary
	b := base.NewBinaryAttribute("b")
	for _, s := range []string{"0", "1", "0.0", "1.0", "0e0", "1e0"} {
		want := byte(0)
		if s[0] == '1' {
			want = 1
		}
		got := b.GetSysValFromString(s)
		if len(got) != 1 || got[0] != want || b.GetStringFromSysVal(got) != fmt.Sprint(want) {
			c.Failf("binary %q became %v, read back as %q", s, got, b.GetStringFromSysVal(got))
		}
	}
	c.Desc = fmt.Sprintf("values %q precision %d", model, f.Precision)
	c.Sig(len(model), fmt.Sprint(model), f.Precision)
	c.Obs("values", n+12)
}

// sameAttr compares all an attribute declares.
func sameAttr(a, b base.Attribute) bool {
	if a.GetName() != b.GetName() || a.GetType() != b.GetType() {
		return false
	}
	switch x := a.(type) {
	case *base.FloatAttribute:
		y, ok := b.(*base.FloatAttribute)
		return ok && x.Precision == y.Precision
	case *base.CategoricalAttribute:
		y, ok := b.(*base.CategoricalAttribute)
		return ok && fmt.Sprintf("%q", x.GetValues()) == fmt.Sprintf("%q", y.GetValues())
	}
	return true
}

func c09JSON(c *Case) {
	r := c.R
	n := r.Intn(7)
	attrs := []base.Attribute{}
	var raws []json.RawMessage
	for i := 0; i < n; i++ {
		a := randAttr(c, oddString(c))
		attrs = append(attrs, a)
		raw, err := base.SerializeAttribute(a)
		if err != nil {
			c.Failf("SerializeAttribute(%s): %v", a, err)
		}
		raws = append(raws, raw)
		back, err := base.DeserializeAttribute(raw)
		if err != nil {
			c.Failf("DeserializeAttribute(%s): %v", raw, err)
		}
		if !sameAttr(a, back) || !a.Equals(back) || !back.Equals(a) {
			c.Failf("%s came back as %s from %s", a, back, raw)
		}
		m, err := base.MarshalAttribute(a)
		if err != nil || m["name"] != a.GetName() {
			c.Failf("MarshalAttribute(%s) = %v, %v", a, m, err)
		}
		// a used attribute is replaced, not appended to
		if ca, ok := a.(*base.CategoricalAttribute); ok {
			var full struct {
				Attr json.RawMessage `json:"attr"`
			}
			json.Unmarshal(raw, &full)
			used := newCat(r, "used", 1+r.Intn(4))
			if err := used.UnmarshalJSON(full.Attr); err != nil {
				c.Failf("UnmarshalJSON(%s): %v", full.Attr, err)
			}
			if len(used.GetValues()) != len(ca.GetValues()) || (len(ca.GetValues()) > 0 && fmt.Sprintf("%q", used.GetValues()) != fmt.Sprintf("%q", ca.GetValues())) {
				c.Failf("a used attribute has values %q after reading %q", used.GetValues(), ca.GetValues())
			}
		}
	}
	list, _ := json.Marshal(raws)
	if n == 0 {
		list = []byte("[]")
	}
	back, err := base.DeserializeAttributes(list)
	if err != nil || len(back) != n {
		c.Failf("DeserializeAttributes(%s) = %v, %v", list, back, err)
	}
	for i := range back {
		if !sameAttr(attrs[i], back[i]) {
			c.Failf("attribute %d: %s came back as %s", i, attrs[i], back[i])
		}
	}
	c.Desc = string(list)
	c.Sig(string(list))
	c.Obs("attributes", n)
	// matching with a grid's own attributes
	t := genTable(r, GenOpts{Rows: 1, Floats: 1 + r.Intn(3), Cats: r.Intn(3), Bins: r.Intn(2), ClassCat: 1 + r.Intn(3), ShuffleAttrOrder: true})
	var ser []base.Attribute
	p := r.Perm(len(t.Attrs))
	for _, j := range p {
		raw, _ := base.SerializeAttribute(t.Attrs[j])
		x, err := base.DeserializeAttribute(raw)
		if err != nil {
			c.Failf("DeserializeAttribute: %v", err)
		}
		ser = append(ser, x)
	}
	got, err := base.ReplaceDeserializedAttributesWithVersionsFromInstances(ser, t.Grid)
	if err != nil || len(got) != len(p) {
		c.Failf("Replace...: %v %v", got, err)
	}
	for k, j := range p {
		if got[k] != t.Attrs[j] {
			c.Failf("attribute %d matched with %s, want %s", k, got[k], t.Attrs[j])
		}
	}
	if _, err := base.ReplaceDeserializedAttributesWithVersionsFromInstances(append(ser, base.NewFloatAttribute("nowhere")), t.Grid); err == nil {
		c.Failf("an attribute the grid does not have was matched")
	}
}

func c09Malformed(c *Case) {
	r := c.R
	a := randAttr(c, oddString(c))
	raw, _ := base.SerializeAttribute(a)
	mut := append([]byte(nil), raw...)
	switch r.Intn(5) {
	case 0:
		mut = mut[:r.Intn(len(mut)+1)]
	case 1:
		for k := 1 + r.Intn(4); k > 0; k-- {
			mut[r.Intn(len(mut))] = byte(r.Intn(256))
		}
	case 2: // replace a field by JSON of another kind
		var m map[string]interface{}
		json.Unmarshal(raw, &m)
		vals := []interface{}{nil, 1.5, "x", true, []interface{}{}, []interface{}{1.0, "a"}, map[string]interface{}{}, map[string]interface{}{"values": nil}, map[string]interface{}{"values": 3}, map[string]interface{}{"values": []interface{}{nil}}, map[string]interface{}{"precision": "x"}, map[string]interface{}{"precision": nil}}
		k := []string{"type", "name", "attr"}[r.Intn(3)]
		m[k] = vals[r.Intn(len(vals))]
		if r.Intn(4) == 0 {
			delete(m, k)
		}
		mut, _ = json.Marshal(m)
	case 3:
		k := r.Intn(len(mut) + 1)
		mut = append(append(append([]byte(nil), mut[:k]...), []byte(oddString(c))...), mut[k:]...)
	case 4:
		mut = []byte(oddString(c))
	}
	c.Desc = string(mut)
	c.Sig(string(mut))
	got, err := base.DeserializeAttribute(mut)
	if err == nil {
		if got == nil {
			c.Failf("no attribute and no error from %q", mut)
		}
		// what was accepted must be a working attribute
		raw2, err := base.SerializeAttribute(got)
		if err != nil {
			c.Failf("SerializeAttribute of an accepted attribute: %v", err)
		}
		again, err := base.DeserializeAttribute(raw2)
		if err != nil || !sameAttr(got, again) {
			c.Failf("accepted %s, but it comes back as %v (%v)", got, again, err)
		}
		c.Obs("accepted", 1)
	} else {
		if err.Error() == "" {
			c.Failf("empty error")
		}
		c.Obs("refused", 1)
	}
	if _, err2 := base.DeserializeAttributes(append(append([]byte("["), mut...), ']')); err2 == nil && err != nil && json.Valid(mut) {
		c.Failf("DeserializeAttributes accepted what DeserializeAttribute refuses: %q", mut)
	}
	base.DeserializeAttributes(mut)
}

func ptrSet(as []base.Attribute) map[base.Attribute]int {
	m := map[base.Attribute]int{}
	for _, a := range as {
		m[a]++
	}
	return m
}

func sameList(a, b []base.Attribute) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameSet(a, b []base.Attribute) bool {
	if len(a) != len(b) {
		return false
	}
	m, n := ptrSet(a), ptrSet(b)
	for k := range m {
		if n[k] != m[k] {
			return false
		}
	}
	return true
}

// attrKey identifies attributes that Equals considers the same.
func attrKey(a base.Attribute) string {
	s := fmt.Sprintf("%d|%s", a.GetType(), a.GetName())
	if ca, ok := a.(*base.CategoricalAttribute); ok {
		s += fmt.Sprintf("%q", ca.GetValues())
	}
	return s
}

func compKey(a base.Attribute) string {
	s := fmt.Sprint(a.GetType())
	if ca, ok := a.(*base.CategoricalAttribute); ok {
		s += fmt.Sprintf("%q", ca.GetValues())
	}
	return s
}

func c09Sets(c *Case) {
	r := c.R
	names := []string{"x", "y", "z", "w"}
	mk := func() base.Attribute {
		switch r.Intn(3) {
		case 0:
			a := base.NewFloatAttribute(names[r.Intn(4)])
			a.Precision = r.Intn(3)
			return a
		case 1:
			return base.NewBinaryAttribute(names[r.Intn(4)])
		}
		a := base.NewCategoricalAttribute()
		a.SetName(names[r.Intn(4)])
		for _, k := range r.Perm(3)[:r.Intn(4)] {
			a.GetSysValFromString(catWords[k])
		}
		return a
	}
	pool := make([]base.Attribute, 8)
	for i := range pool {
		pool[i] = mk()
	}
	for _, a := range pool {
		for _, b := range pool {
			if a.Equals(b) != (attrKey(a) == attrKey(b)) {
				c.Failf("%s Equals %s: %v", a, b, a.Equals(b))
			}
			if a.Compatible(b) != (compKey(a) == compKey(b)) {
				c.Failf("%s Compatible %s: %v", a, b, a.Compatible(b))
			}
		}
	}
	if r.Intn(40) == 0 { // many values, of which one differs
		n := 8 + r.Intn(600)
		at := r.Intn(n)
		x, y, z := base.NewCategoricalAttribute(), base.NewCategoricalAttribute(), base.NewCategoricalAttribute()
		for i := 0; i < n; i++ {
			v := fmt.Sprint("v", i)
			x.GetSysValFromString(v)
			z.GetSysValFromString(v)
			if i == at {
				v = "other"
			}
			y.GetSysValFromString(v)
		}
		if x.Equals(y) || x.Compatible(y) || y.Equals(x) || y.Compatible(x) {
			c.Failf("categorical attributes with %d values that differ in value %d: Equals %v %v, Compatible %v %v", n, at, x.Equals(y), y.Equals(x), x.Compatible(y), y.Compatible(x))
		}
		if !x.Equals(z) || !x.Compatible(z) {
			c.Failf("categorical attributes with the same %d values: Equals %v, Compatible %v", n, x.Equals(z), x.Compatible(z))
		}
	}
	var a1, a2 []base.Attribute
	for _, i := range r.Perm(8)[:r.Intn(9)] {
		a1 = append(a1, pool[i])
	}
	for _, i := range r.Perm(8)[:r.Intn(9)] {
		a2 = append(a2, pool[i])
	}
	k2, p2 := map[string]bool{}, ptrSet(a2)
	for _, a := range a2 {
		k2[attrKey(a)] = true
	}
	var inter, diff, interR, diffR []base.Attribute
	for _, a := range a1 {
		if k2[attrKey(a)] {
			inter = append(inter, a)
		} else {
			diff = append(diff, a)
		}
		if p2[a] > 0 {
			interR = append(interR, a)
		} else {
			diffR = append(diffR, a)
		}
	}
	if got := base.AttributeIntersect(a1, a2); !sameList(got, inter) {
		c.Failf("AttributeIntersect(%v,%v) = %v", a1, a2, got)
	}
	if got := base.AttributeDifference(a1, a2); !sameList(got, diff) {
		c.Failf("AttributeDifference(%v,%v) = %v", a1, a2, got)
	}
	if got := base.AttributeIntersectReferences(a1, a2); !sameSet(got, interR) {
		c.Failf("AttributeIntersectReferences(%v,%v) = %v", a1, a2, got)
	}
	if got := base.AttributeDifferenceReferences(a1, a2); !sameSet(got, diffR) {
		c.Failf("AttributeDifferenceReferences(%v,%v) = %v", a1, a2, got)
	}
	c.Desc = fmt.Sprintf("%v | %v", a1, a2)
	c.Sig(c.Desc)
	c.Obs("sets", 4)
	// of a grid
	t := genTable(r, GenOpts{Rows: 2, Floats: r.Intn(5), Cats: r.Intn(4), Bins: r.Intn(3), ClassCat: r.Intn(3), ClassFloat: r.Intn(2) == 0, ClassBin: r.Intn(3) == 0, ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0, SameNames: r.Intn(4) == 0})
	g, m, kind := wrap(c, t)
	var ncf, nc []base.Attribute
	for _, a := range g.AllAttributes() {
		j := m.Index(a)
		if m.Class[j] {
			continue
		}
		nc = append(nc, a)
		if _, ok := a.(*base.FloatAttribute); ok {
			ncf = append(ncf, a)
		}
	}
	if got := base.NonClassFloatAttributes(g); !sameList(got, ncf) {
		c.Failf("%s: NonClassFloatAttributes = %v, want %v", kind, got, ncf)
	}
	if got := base.NonClassAttributes(g); !sameSet(got, nc) {
		c.Failf("%s: NonClassAttributes = %v, want %v", kind, got, nc)
	}
	var want []base.Attribute
	for _, j := range r.Perm(len(m.Attrs)) {
		if r.Intn(4) > 0 {
			want = append(want, m.Attrs[j])
		}
	}
	specs := base.ResolveAttributes(g, want)
	if len(specs) != len(want) {
		c.Failf("ResolveAttributes returned %d of %d", len(specs), len(want))
	}
	for i, s := range specs {
		if s.GetAttribute() != want[i] {
			c.Failf("ResolveAttributes: spec %d is of %s, want %s", i, s.GetAttribute(), want[i])
		}
		if got := g.Get(s, 0); !bytes.Equal(got, m.Cells[0][m.Index(want[i])]) {
			c.Failf("ResolveAttributes: spec %d reads %v", i, got)
		}
	}
	seen := map[base.Attribute]bool{}
	for _, s := range base.ResolveAllAttributes(g) {
		seen[s.GetAttribute()] = true
	}
	if len(seen) != len(m.Attrs) {
		c.Failf("ResolveAllAttributes resolved %d of %d", len(seen), len(m.Attrs))
	}
	for _, a := range m.Attrs {
		if got := base.GetAttributeByName(g, a.GetName()); got == nil || got.GetName() != a.GetName() || !seen[got] {
			c.Failf("GetAttributeByName(%q) = %v", a.GetName(), got)
		}
	}
	if got := base.GetAttributeByName(g, "no such attribute"); got != nil {
		c.Failf("GetAttributeByName of an unknown name = %v", got)
	}
}

// rebuild makes a dense grid with copies of t's attributes, in a new order of
// columns and with the categorical values renumbered when renum says so.
func rebuild(c *Case, t *Table, order []int, renum bool) *Table {
	r := c.R
	n := &Table{}
	g := base.NewDenseInstances()
	maps := map[int][]int{}
	for _, j := range order {
		var a base.Attribute
		switch x := t.Attrs[j].(type) {
		case *base.CategoricalAttribute:
			y := base.NewCategoricalAttribute()
			y.SetName(x.GetName())
			p := allIdx(len(x.GetValues()))
			if renum {
				p = r.Perm(len(p))
			}
			inv := make([]int, len(p))
			for k, v := range p {
				y.GetSysValFromString(x.GetValues()[v])
				inv[v] = k
			}
			maps[j] = inv
			a = y
		case *base.BinaryAttribute:
			a = base.NewBinaryAttribute(x.GetName())
		case *base.FloatAttribute:
			y := base.NewFloatAttribute(x.GetName())
			y.Precision = x.Precision
			a = y
		}
		n.Attrs = append(n.Attrs, a)
		n.Class = append(n.Class, t.Class[j])
		n.Specs = append(n.Specs, g.AddAttribute(a))
		if t.Class[j] {
			g.AddClassAttribute(a)
		}
	}
	g.Extend(t.Rows())
	for i := range t.Cells {
		row := make([][]byte, len(order))
		for k, j := range order {
			row[k] = append([]byte(nil), t.Cells[i][j]...)
			if m := maps[j]; m != nil {
				row[k] = packU(uint64(m[unpackU(row[k])]))
			}
			g.Set(n.Specs[k], i, row[k])
		}
		n.Cells = append(n.Cells, row)
	}
	n.Grid = g
	return n
}

func c09Grids(c *Case) {
	r := c.R
	t := genTable(r, GenOpts{Rows: r.Intn(12), Floats: r.Intn(4), Cats: r.Intn(3), Bins: r.Intn(3), ClassCat: 1 + r.Intn(3), Style: VSmallInt, ShuffleAttrOrder: true})
	renum := r.Intn(2) == 0
	order := r.Perm(len(t.Attrs))
	if r.Intn(2) == 0 {
		order = allIdx(len(t.Attrs))
	}
	n := rebuild(c, t, order, renum)
	change := r.Intn(7)
	equal := true
	compatible := true
	for k, j := range order {
		if !n.Attrs[k].Equals(t.Attrs[j]) {
			compatible = false
		}
	}
	switch change {
	case 0, 1: // one cell
		if n.Rows() > 0 {
			i, k := r.Intn(n.Rows()), r.Intn(len(order))
			var v []byte
			switch x := n.Attrs[k].(type) {
			case *base.CategoricalAttribute:
				v = packU(uint64(r.Intn(len(x.GetValues()))))
			case *base.BinaryAttribute:
				v = []byte{byte(r.Intn(2))}
			default:
				v = packF(genFloat(r, VSmallInt))
			}
			equal = bytes.Equal(v, n.Cells[i][k])
			n.Grid.Set(n.Specs[k], i, v)
			n.Cells[i][k] = v
		}
	case 2: // one row more
		n.Grid.Extend(1)
		equal = false
	case 3: // another attribute
		g := rebuild(c, n, allIdx(len(order)), false)
		k := r.Intn(len(order))
		g.Attrs[k].SetName("renamed")
		n = g
		equal, compatible = false, false
	case 4: // an extra column
		x := base.NewDenseInstances()
		for k := range n.Attrs {
			x.AddAttribute(n.Attrs[k])
		}
		x.AddAttribute(base.NewFloatAttribute("extra"))
		x.Extend(n.Rows())
		for k, a := range n.Attrs {
			s, _ := x.GetAttribute(a)
			for i := range n.Cells {
				x.Set(s, i, n.Cells[i][k])
			}
		}
		n.Grid = x
		equal, compatible = false, false
	}
	c.Desc = fmt.Sprintf("change %d order %v renumbered %v of %s", change, order, renum, t.describe(4))
	c.Sig(change, fmt.Sprint(order), renum, kinds(t), t.Rows())
	c.Obs("pairs", 1)
	for _, p := range [][2]base.FixedDataGrid{{t.Grid, n.Grid}, {n.Grid, t.Grid}} {
		if got := base.InstancesAreEqual(p[0], p[1]); got != equal {
			c.Failf("InstancesAreEqual = %v, want %v\n%s\n%s", got, equal, snapshot(p[0]), snapshot(p[1]))
		}
		got := base.CheckCompatible(p[0], p[1])
		if (got != nil) != compatible {
			c.Failf("CheckCompatible = %v, want compatible: %v", got, compatible)
		}
		if compatible && !sameList(got, p[0].AllAttributes()) {
			c.Failf("CheckCompatible returned %v, want %v", got, p[0].AllAttributes())
		}
		// strict: same groups, same attributes in them, in the same order
		want := groupsKey(p[0].(*base.DenseInstances)) == groupsKey(p[1].(*base.DenseInstances))
		if got := base.CheckStrictlyCompatible(p[0], p[1]); got != want {
			c.Failf("CheckStrictlyCompatible = %v, want %v: %s / %s", got, want, groupsKey(p[0].(*base.DenseInstances)), groupsKey(p[1].(*base.DenseInstances)))
		}
	}
	if !base.InstancesAreEqual(t.Grid, t.Grid) {
		c.Failf("a grid does not equal itself")
	}
	v := base.NewInstancesViewFromAttrs(t.Grid, t.Attrs)
	if !base.InstancesAreEqual(t.Grid, v) || !base.InstancesAreEqual(v, t.Grid) {
		c.Failf("a grid does not equal its view")
	}
	if base.CheckStrictlyCompatible(v, t.Grid) || base.CheckStrictlyCompatible(t.Grid, v) {
		c.Failf("a view was called strictly compatible")
	}
}

func groupsKey(g *base.DenseInstances) string {
	m := g.AllAttributeGroups()
	var names []string
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	s := ""
	for _, k := range names {
		s += k + ":"
		for _, a := range m[k].Attributes() {
			s += attrKey(a) + ";"
		}
		s += "|"
	}
	return s
}

func c09Class(c *Case) {
	r := c.R
	o := GenOpts{Rows: 1 + r.Intn(15), Floats: r.Intn(4), Cats: r.Intn(3), Bins: r.Intn(2), Style: VSmallInt, ShuffleAttrOrder: true, ExplicitGroups: r.Intn(2) == 0}
	switch r.Intn(4) {
	case 0:
		o.ClassFloat = true
	case 1:
		o.ClassBin = true
	case 2:
		o.ClassFloat, o.ClassCat = true, 2
	default:
		o.ClassCat = 1 + r.Intn(4)
	}
	t := genTable(r, o)
	g, m, kind := wrap(c, t)
	c.Desc = kind + " " + t.describe(4)
	c.Sig(kind, kinds(t), t.Rows())
	before := snapshot(g)
	cl := m.ClassIdx()
	pv := base.GeneratePredictionVector(g)
	cols, rows := pv.Size()
	if cols != len(cl) || rows != t.Rows() {
		c.Failf("prediction vector is %dx%d, want %dx%d", cols, rows, len(cl), t.Rows())
	}
	var ca []base.Attribute
	for _, j := range cl {
		ca = append(ca, m.Attrs[j])
	}
	if !sameSet(pv.AllClassAttributes(), ca) || !sameSet(pv.AllAttributes(), ca) {
		c.Failf("prediction vector has %v (class %v), want %v", pv.AllAttributes(), pv.AllClassAttributes(), ca)
	}
	if len(cl) != 1 {
		if Panics(func() { base.GetClass(g, 0) }) == nil || Panics(func() { base.SetClass(pv, 0, "1") }) == nil {
			c.Failf("GetClass or SetClass accepted %d class attributes", len(cl))
		}
		return
	}
	j := cl[0]
	a := m.Attrs[j]
	for i := range m.Cells {
		want := a.GetStringFromSysVal(m.Cells[i][j])
		if got := base.GetClass(g, i); got != want {
			c.Failf("GetClass(%d) = %q, want %q", i, got, want)
		}
	}
	for _, i := range r.Perm(len(m.Cells)) {
		base.SetClass(pv, i, a.GetStringFromSysVal(m.Cells[i][j]))
	}
	for i := range m.Cells {
		want := a.GetStringFromSysVal(m.Cells[i][j])
		if got := base.GetClass(pv, i); got != want {
			c.Failf("after SetClass, GetClass(%d) = %q, want %q", i, got, want)
		}
	}
	c.Obs("classes", 2*len(m.Cells))
	if snapshot(g) != before {
		c.Failf("the source grid was changed")
	}
	// a copy of the structure
	cp := base.CopyDenseInstances(t.Grid, t.Grid.AllAttributes())
	if !sameList(cp.AllAttributes(), t.Grid.AllAttributes()) && !sameSet(cp.AllAttributes(), t.Grid.AllAttributes()) {
		c.Failf("CopyDenseInstances has %v, want %v", cp.AllAttributes(), t.Grid.AllAttributes())
	}
	if _, n := cp.Size(); n != 0 {
		c.Failf("CopyDenseInstances has %d rows", n)
	}
	if !base.CheckStrictlyCompatible(cp, t.Grid) {
		c.Failf("CopyDenseInstances has groups %s, want %s", groupsKey(cp), groupsKey(t.Grid))
	}
	cp.Extend(t.Rows())
	e := t.expect()
	e.Class = map[int]bool{}
	for k, a := range t.Attrs {
		s, err := cp.GetAttribute(a)
		if err != nil {
			c.Failf("CopyDenseInstances: GetAttribute(%s): %v", a, err)
		}
		for i := range t.Cells {
			cp.Set(s, i, t.Cells[i][k])
		}
	}
	checkGrid(c, "structural copy, filled", cp, e, false)
}
