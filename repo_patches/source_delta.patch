From 387b6f9ec0854ec35b1a939e5297d75a79668b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:10 +0000
Subject: [PATCH 001/114] fix: refuse to add attributes to a group once storage
 is allocated

---
 base/dense.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/dense.go b/base/dense.go
index d3a87df..9b5b874 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -237,6 +237,11 @@ func (inst *DenseInstances) AddAttributeToAttributeGroup(newAttribute Attribute,
 	inst.lock.Lock()
 	defer inst.lock.Unlock()
 
+	// The row layout can't change once storage has been allocated
+	if inst.fixed {
+		return AttributeSpec{-1, 0, nil}, fmt.Errorf("Can't add additional Attributes")
+	}
+
 	// Check if the ag exists
 	if _, ok := inst.agMap[ag]; !ok {
 		return AttributeSpec{-1, 0, nil}, fmt.Errorf("AttributeGroup '%s' doesn't exist. Call CreateAttributeGroup() first", ag)
-- 
2.43.0


From 25f4776cf3fb08dc92462efec403577ba90f346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:09 +0000
Subject: [PATCH 002/114] fix: MapOverRows of a row-mapped view must use the
 mapping, as Get does

---
 base/view.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/base/view.go b/base/view.go
index 99d59d8..47ca2fa 100644
--- a/base/view.go
+++ b/base/view.go
@@ -221,6 +221,22 @@ func (v *InstancesView) MapOverRows(as []AttributeSpec, rowFunc func([][]byte, i
 			}
 		}
 		return nil
+	} else if v.rows != nil {
+		rowBuf := make([][]byte, len(as))
+		_, rows := v.Size()
+		for r := 0; r < rows; r++ {
+			for i, a := range as {
+				rowBuf[i] = v.Get(a, r)
+			}
+			ok, err := rowFunc(rowBuf, r)
+			if err != nil {
+				return err
+			}
+			if !ok {
+				break
+			}
+		}
+		return nil
 	} else {
 		return v.src.MapOverRows(as, rowFunc)
 	}
-- 
2.43.0


From ac5e38f7fba94b82da9f1bd3adc218781895fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:17 +0000
Subject: [PATCH 003/114] fix: LazyShuffle must produce a permutation of the
 rows

---
 base/util_instances.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 2def385..7e50e69 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -400,10 +400,8 @@ func InstancesTrainTestSplit(src FixedDataGrid, prop float64) (FixedDataGrid, Fi
 func LazyShuffle(from FixedDataGrid) FixedDataGrid {
 	_, rows := from.Size()
 	rowMap := make(map[int]int)
-	for i := 0; i < rows; i++ {
-		j := rand.Intn(i + 1)
+	for i, j := range rand.Perm(rows) {
 		rowMap[i] = j
-		rowMap[j] = i
 	}
 	return NewInstancesViewFromRows(from, rowMap)
 }
-- 
2.43.0


From 8f9297cd11af7761f03aa83edb56f1539e730352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:27 +0000
Subject: [PATCH 004/114] fix: SampleWithReplacement must return exactly the
 requested number of rows

---
 base/util_instances.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 7e50e69..e37e2a2 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -427,13 +427,12 @@ func Shuffle(from FixedDataGrid) FixedDataGrid {
 // IMPORTANT: There's a high chance of seeing duplicate rows
 // whenever size is close to the row count.
 func SampleWithReplacement(from FixedDataGrid, size int) FixedDataGrid {
-	rowMap := make(map[int]int)
+	sampled := make([]int, size)
 	_, rows := from.Size()
-	for i := 0; i < size; i++ {
-		srcRow := rand.Intn(rows)
-		rowMap[i] = srcRow
+	for i := range sampled {
+		sampled[i] = rand.Intn(rows)
 	}
-	return NewInstancesViewFromRows(from, rowMap)
+	return NewInstancesViewFromVisible(from, sampled, from.AllAttributes())
 }
 
 // CheckCompatible checks whether two DataGrids have the same Attributes
-- 
2.43.0


From 917bb2f4caa42c7d3211a7c942b5d4d7c143d3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:36 +0000
Subject: [PATCH 005/114] fix: class distributions by value must count every
 row

---
 base/util_instances.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index e37e2a2..6944822 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -146,7 +146,7 @@ func GetClassDistributionByBinaryFloatValue(inst FixedDataGrid) []int {
 			ret[0]++
 		}
 
-		return false, nil
+		return true, nil
 	})
 
 	return ret
@@ -177,7 +177,7 @@ func GetClassDistributionByCategoricalValue(inst FixedDataGrid) []int {
 	inst.MapOverRows(specs, func(vals [][]byte, row int) (bool, error) {
 		index := UnpackBytesToU64(vals[0])
 		ret[int(index)]++
-		return false, nil
+		return true, nil
 	})
 
 	return ret
-- 
2.43.0


From 41c5f71da2f5fff25d2b99719049f3684986c35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:35 +0000
Subject: [PATCH 006/114] fix: InstancesAreEqual must compare against the other
 instances

---
 base/util_instances.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 6944822..e019207 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -502,26 +502,36 @@ func CheckStrictlyCompatible(s1 FixedDataGrid, s2 FixedDataGrid) bool {
 // InstancesAreEqual checks whether a given Instance set is exactly
 // the same as another (i.e. has the same size and values).
 func InstancesAreEqual(inst, other FixedDataGrid) bool {
-	_, rows := inst.Size()
+	cols, rows := inst.Size()
+	if otherCols, otherRows := other.Size(); cols != otherCols || rows != otherRows {
+		return false
+	}
 
 	for _, a := range inst.AllAttributes() {
 		as1, err := inst.GetAttribute(a)
 		if err != nil {
 			panic(err) // That indicates some kind of error
 		}
-		as2, err := inst.GetAttribute(a)
-		if err != nil {
+
+		// CategoricalAttributes may number their values differently,
+		// so they're matched by name and compared by value
+		b := GetAttributeByName(other, a.GetName())
+		if b == nil || b.GetType() != a.GetType() {
 			return false // Obviously has different Attributes
 		}
-
-		if !as1.GetAttribute().Equals(as2.GetAttribute()) {
+		as2, err := other.GetAttribute(b)
+		if err != nil {
 			return false
 		}
 
 		for i := 0; i < rows; i++ {
 			b1 := inst.Get(as1, i)
-			b2 := inst.Get(as2, i)
-			if !byteSeqEqual(b1, b2) {
+			b2 := other.Get(as2, i)
+			if a.GetType() == CategoricalType {
+				if a.GetStringFromSysVal(b1) != b.GetStringFromSysVal(b2) {
+					return false
+				}
+			} else if !byteSeqEqual(b1, b2) {
 				return false
 			}
 		}
-- 
2.43.0


From d32c4cb7075927bb56c5d8fae48ef031c1822d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:44 +0000
Subject: [PATCH 007/114] fix: CheckStrictlyCompatible must compare attribute
 group lengths

---
 base/util_instances.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/util_instances.go b/base/util_instances.go
index e019207..5f738ed 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -487,6 +487,9 @@ func CheckStrictlyCompatible(s1 FixedDataGrid, s2 FixedDataGrid) bool {
 		ag2 := d2ags[a]
 		a1 := ag1.Attributes()
 		a2 := ag2.Attributes()
+		if len(a1) != len(a2) {
+			return false
+		}
 		for i := range a1 {
 			at1 := a1[i]
 			at2 := a2[i]
-- 
2.43.0


From d00598e4851ee71cc3e9ec65a6b2fb17e3c032e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:52 +0000
Subject: [PATCH 008/114] fix: MapOverRows of filtered instances must pass
 unfiltered attributes through

---
 base/filtered.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/filtered.go b/base/filtered.go
index 0d4f77f..cf25f59 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -186,6 +186,10 @@ func (l *LazilyFilteredInstances) MapOverRows(asv []AttributeSpec, mapFunc func(
 	newRowBuf := make([][]byte, len(asv))
 	return l.src.MapOverRows(oldAsv, func(oldRow [][]byte, oldRowNo int) (bool, error) {
 		for i, b := range oldRow {
+			if l.unfilteredMap[asv[i].attr] {
+				newRowBuf[i] = b
+				continue
+			}
 			newField := l.filter.Transform(oldAsv[i].attr, asv[i].attr, b)
 			newRowBuf[i] = newField
 		}
-- 
2.43.0


From cc4f636caaaf441e20b3d426030adca52cb6c097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:52 +0000
Subject: [PATCH 009/114] fix: RemoveClassAttribute must unmark every attribute
 a filter made of the class

---
 base/filtered.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/filtered.go b/base/filtered.go
index cf25f59..a5c4a8b 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -113,12 +113,16 @@ func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
 		l.classAttrs[cls] = false
 		return nil
 	}
+	matched := false
 	for _, a := range l.attrs {
 		if a.Old.Equals(cls) || a.New.Equals(cls) {
 			l.classAttrs[a.New] = false
-			return nil
+			matched = true
 		}
 	}
+	if matched {
+		return nil
+	}
 	return fmt.Errorf("Attribute %s could not be resolved", cls)
 }
 
-- 
2.43.0


From 7eba77efc3068053b895c89dadb76f7509d7b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:20 +0000
Subject: [PATCH 010/114] fix: sort float attributes by value, including
 negative values

---
 base/sort.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/base/sort.go b/base/sort.go
index 1cbfa57..9f1dfcf 100644
--- a/base/sort.go
+++ b/base/sort.go
@@ -5,10 +5,21 @@ import (
 	"encoding/binary"
 )
 
-func sortXorOp(b []byte) []byte {
+// sortKey returns bytes which order (least significant byte first)
+// in the same way as the values of the given Attribute.
+func sortKey(a Attribute, b []byte) []byte {
 	ret := make([]byte, len(b))
 	copy(ret, b)
-	ret[0] ^= 0x80
+	if _, ok := a.(*FloatAttribute); ok {
+		if ret[len(ret)-1]&0x80 != 0 {
+			// Larger magnitudes come first if negative
+			for i := range ret {
+				ret[i] ^= 0xFF
+			}
+		} else {
+			ret[len(ret)-1] ^= 0x80
+		}
+	}
 	return ret
 }
 
@@ -47,11 +58,7 @@ func createSortSpec(inst FixedDataGrid, attrsArg []AttributeSpec) []sortSpec {
 		byteBuf := make([]byte, rowSize)
 
 		for i, r := range row {
-			if i == 0 {
-				binary.Write(buf, binary.LittleEndian, sortXorOp(r))
-			} else {
-				binary.Write(buf, binary.LittleEndian, r)
-			}
+			binary.Write(buf, binary.LittleEndian, sortKey(attrs[i].attr, r))
 		}
 
 		buf.Read(byteBuf)
-- 
2.43.0


From f08a0d9a1104b420c13efe8519ff3840d2ee6dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:42 +0000
Subject: [PATCH 011/114] fix: ID3 prediction of an unseen attribute value must
 not depend on map order

---
 trees/id3.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trees/id3.go b/trees/id3.go
index 8574d48..1f5fb2c 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -396,7 +396,12 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 				} else {
 					// Suspicious of this
 					var bestChild string
+					childVals := make([]string, 0, len(cur.Children))
 					for c := range cur.Children {
+						childVals = append(childVals, c)
+					}
+					sort.Strings(childVals)
+					for _, c := range childVals {
 						bestChild = c
 						if c > classVar {
 							break
@@ -482,7 +487,12 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 				} else {
 					// Suspicious of this
 					var bestChild string
+					childVals := make([]string, 0, len(cur.Children))
 					for c := range cur.Children {
+						childVals = append(childVals, c)
+					}
+					sort.Strings(childVals)
+					for _, c := range childVals {
 						bestChild = c
 						if c > classVar {
 							break
-- 
2.43.0


From 5e6524324ed00fbd777e170da9913062dd9d2167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:42 +0000
Subject: [PATCH 012/114] fix: bagged models must break voting ties
 deterministically

---
 meta/bagging.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meta/bagging.go b/meta/bagging.go
index f509463..0e3c33a 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -98,8 +98,8 @@ func (b *BaggedModel) Fit(from base.FixedDataGrid) {
 // Predict gathers predictions from all the classifiers
 // and outputs the most common (majority) class
 //
-// IMPORTANT: in the event of a tie, the first class which
-// achieved the tie value is output.
+// IMPORTANT: in the event of a tie, the first class (in
+// alphabetical order) which achieved the tie value is output.
 func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, error) {
 	n := runtime.NumCPU()
 	// Channel to receive the results as they come in
@@ -169,7 +169,7 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 		// Find the most popular class
 		for c := range voting[i] {
 			votes := voting[i][c]
-			if votes > maxCount {
+			if votes > maxCount || (votes == maxCount && c < maxClass) {
 				maxClass = c
 				maxCount = votes
 			}
-- 
2.43.0


From 05ee03fb346abec1d138b630d94fc2cdfc3a00ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:39 +0000
Subject: [PATCH 013/114] fix: MapOverRows of Mat64Instances must report the
 callback's error

---
 base/mat.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/mat.go b/base/mat.go
index f644cf3..064840f 100644
--- a/base/mat.go
+++ b/base/mat.go
@@ -98,10 +98,13 @@ func (m *Mat64Instances) MapOverRows(as []AttributeSpec, f func([][]byte, int) (
 		for j, as := range as {
 			PackFloatToBytesInline(m.Data.At(i, as.position), rowData[j])
 		}
-		stat, err := f(rowData, i)
-		if !stat {
+		ok, err := f(rowData, i)
+		if err != nil {
 			return err
 		}
+		if !ok {
+			break
+		}
 	}
 	return nil
 }
-- 
2.43.0


From ff70b6f3499429e9ce60d95e5c476c86f971595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:39 +0000
Subject: [PATCH 014/114] fix: ConvertDataFrameToInstances must not round
 floats to six decimals

---
 base/dataframe_go.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/base/dataframe_go.go b/base/dataframe_go.go
index b5a186f..40603ef 100644
--- a/base/dataframe_go.go
+++ b/base/dataframe_go.go
@@ -1,7 +1,6 @@
 package base
 
 import (
-	"fmt"
 	"reflect"
 	"strconv"
 
@@ -53,9 +52,9 @@ func ConvertDataFrameToInstances(df *dataframe.DataFrame, classAttrIndex int) Fi
 			case int64:
 				val = strconv.FormatInt(v, 10)
 			case float64:
-				val = fmt.Sprintf("%f", v)
+				val = strconv.FormatFloat(v, 'g', -1, 64)
 			case float32:
-				val = fmt.Sprintf("%f", v)
+				val = strconv.FormatFloat(float64(v), 'g', -1, 64)
 			}
 
 			newInst.Set(newSpecs[j], i, newSpecs[j].GetAttribute().GetSysValFromString(val))
-- 
2.43.0


From 70c471728bb61c8f5a886e1cdfd0df456896cda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 015/114] fix: BinaryConvertFilter must map every non-zero
 float to 1

---
 filters/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/binary.go b/filters/binary.go
index 291ac7d..de95b09 100644
--- a/filters/binary.go
+++ b/filters/binary.go
@@ -93,7 +93,7 @@ func (b *BinaryConvertFilter) Transform(a base.Attribute, n base.Attribute, attr
 	} else if _, ok := a.(*base.FloatAttribute); ok {
 		// Float: check for non-zero
 		val := base.UnpackBytesToFloat(attrBytes)
-		if val > 0 {
+		if val != 0 {
 			ret[0] = 1
 		} else {
 			ret[0] = 0
-- 
2.43.0


From ca78356dbc317fdb039b2f30c02ae6a7096335e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:21 +0000
Subject: [PATCH 016/114] fix: malformed attribute JSON must be an error, not a
 panic

---
 base/categorical.go | 14 ++++++++++++--
 base/float.go       |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/base/categorical.go b/base/categorical.go
index ddcffb1..5403bd5 100644
--- a/base/categorical.go
+++ b/base/categorical.go
@@ -31,9 +31,19 @@ func (Attr *CategoricalAttribute) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	for _, v := range d["values"].([]interface{}) {
-		Attr.values = append(Attr.values, v.(string))
+	rawValues, ok := d["values"].([]interface{})
+	if !ok && d["values"] != nil {
+		return fmt.Errorf("Values must be a list")
 	}
+	values := make([]string, len(rawValues))
+	for i, v := range rawValues {
+		value, ok := v.(string)
+		if !ok {
+			return fmt.Errorf("Values must be strings")
+		}
+		values[i] = value
+	}
+	Attr.values = values
 	return nil
 }
 
diff --git a/base/float.go b/base/float.go
index db01d09..56d4282 100644
--- a/base/float.go
+++ b/base/float.go
@@ -32,8 +32,8 @@ func (f *FloatAttribute) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	if precision, ok := d["precision"]; ok {
-		f.Precision = int(precision.(float64))
+	if precision, ok := d["precision"].(float64); ok {
+		f.Precision = int(precision)
 		return nil
 	}
 	return fmt.Errorf("Precision must be specified")
-- 
2.43.0


From 60ecae74e1bb3c62f061f8683b1148e524ed4b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:31 +0000
Subject: [PATCH 017/114] fix: CSV loading with attribute groups must not add a
 row for the header

---
 base/csv.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/csv.go b/base/csv.go
index 93bb63d..0cee9b7 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -295,6 +295,10 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 		return nil, err
 	}
 
+	if hasHeaders {
+		rowCount--
+	}
+
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
 	for i := range attrs {
-- 
2.43.0


From e5ece51f414ba63c70779803bf709fb529b58c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:41 +0000
Subject: [PATCH 018/114] fix: a CSV file without data rows must be an error,
 not a panic

---
 base/csv.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/base/csv.go b/base/csv.go
index 0cee9b7..c452084 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -162,7 +162,7 @@ func ParseCSVBuildInstancesFromReader(r io.ReadSeeker, attrs []Attribute, hasHea
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
-				panic(err)
+				panic(r)
 			}
 			err = fmt.Errorf("error at line %d (error %s)", rowCounter, r.(error))
 		}
@@ -213,6 +213,10 @@ func ParseCSVToInstancesFromReader(r io.ReadSeeker, hasHeaders bool) (instances
 		rowCount--
 	}
 
+	if rowCount < 1 {
+		return nil, fmt.Errorf("no data rows to determine the Attributes from")
+	}
+
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
 	specs := make([]AttributeSpec, len(attrs))
@@ -261,6 +265,10 @@ func ParseCSVToTemplatedInstancesFromReader(r io.ReadSeeker, hasHeaders bool, te
 		rowCount--
 	}
 
+	if rowCount < 1 {
+		return nil, fmt.Errorf("no data rows to determine the Attributes from")
+	}
+
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
 	templateAttrs := template.AllAttributes()
@@ -299,6 +307,10 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 		rowCount--
 	}
 
+	if rowCount < 1 {
+		return nil, fmt.Errorf("no data rows to determine the Attributes from")
+	}
+
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
 	for i := range attrs {
-- 
2.43.0


From d90063418bc061c4f2d15fdc6a529ee2cf2d65a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:09 +0000
Subject: [PATCH 019/114] fix: writing instances to a file must create it, or
 replace what it held

---
 base/arff.go                | 2 +-
 base/serialize_instances.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 996201b..81ae0fc 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -31,7 +31,7 @@ func SerializeInstancesToDenseARFF(inst FixedDataGrid, path, relation string) er
 func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []Attribute, path, relation string) error {
 
 	// Open output file
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 7239776..65ce163 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -12,7 +12,7 @@ import (
 )
 
 func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
@@ -30,7 +30,7 @@ func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
 
 // SerializesInstancesToCSV converts a FixedDataGrid into a CSV file format.
 func SerializeInstancesToCSV(inst FixedDataGrid, path string) error {
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3886b0233e3943798dfe549e5f447cf75fa67431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:17 +0000
Subject: [PATCH 020/114] fix: report write errors when saving instances as CSV
 or ARFF

---
 base/arff.go                | 12 +++++++++---
 base/serialize_instances.go | 14 +++++++++-----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 81ae0fc..7398080 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -41,7 +41,10 @@ func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []
 
 }
 
-func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDataGrid, rawAttrs []Attribute, relation string) error {
+func SerializeInstancesToWriterDenseARFFWithAttributes(out io.Writer, inst FixedDataGrid, rawAttrs []Attribute, relation string) error {
+	// Write errors stick to the bufio.Writer, and surface in Flush
+	w := bufio.NewWriter(out)
+
 	// Write @relation header
 	fmt.Fprintf(w, "@relation %s\n\n", relation)
 
@@ -61,7 +64,7 @@ func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDa
 	fmt.Fprint(w, "\n@data\n")
 
 	buf := make([]string, len(attrs))
-	inst.MapOverRows(attrs, func(val [][]byte, row int) (bool, error) {
+	err := inst.MapOverRows(attrs, func(val [][]byte, row int) (bool, error) {
 		for i, v := range val {
 			buf[i] = attrs[i].attr.GetStringFromSysVal(v)
 		}
@@ -69,8 +72,11 @@ func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDa
 		fmt.Fprint(w, "\n")
 		return true, nil
 	})
+	if err != nil {
+		return err
+	}
 
-	return nil
+	return w.Flush()
 }
 
 // ParseARFFGetRows returns the number of data rows in an ARFF file.
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 65ce163..92d8736 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -60,21 +60,25 @@ func SerializeInstancesToCSVStream(inst FixedDataGrid, f io.Writer) error {
 	for i, v := range allAttrs {
 		headerRow[i] = v.GetName()
 	}
-	w.Write(headerRow)
+	if err := w.Write(headerRow); err != nil {
+		return err
+	}
 
 	specs := ResolveAttributes(inst, allAttrs)
 	curRow := make([]string, colCount)
-	inst.MapOverRows(specs, func(row [][]byte, rowNo int) (bool, error) {
+	err := inst.MapOverRows(specs, func(row [][]byte, rowNo int) (bool, error) {
 		for i, v := range row {
 			attr := allAttrs[i]
 			curRow[i] = attr.GetStringFromSysVal(v)
 		}
-		w.Write(curRow)
-		return true, nil
+		return true, w.Write(curRow)
 	})
+	if err != nil {
+		return err
+	}
 
 	w.Flush()
-	return nil
+	return w.Error()
 }
 
 // DeserializeInstancesFromTarReader returns DenseInstances from a FunctionalTarReader with the name prefix.
-- 
2.43.0


From 36d479661828559a759d4a62534ae3eb896113ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:52 +0000
Subject: [PATCH 021/114] fix: saving filtered instances must keep every
 attribute the filter makes

---
 base/serialize_instances.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 92d8736..f53af3d 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -47,12 +47,13 @@ func SerializeInstancesToCSVStream(inst FixedDataGrid, f io.Writer) error {
 	// Create the CSV writer
 	w := csv.NewWriter(f)
 
-	colCount, _ := inst.Size()
-
 	// Write out Attribute headers
 	// Start with the regular Attributes
 	normalAttrs := NonClassAttributes(inst)
 	classAttrs := inst.AllClassAttributes()
+
+	// (Size doesn't count Attributes a Filter adds)
+	colCount := len(normalAttrs) + len(classAttrs)
 	allAttrs := make([]Attribute, colCount)
 	n := copy(allAttrs, normalAttrs)
 	copy(allAttrs[n:], classAttrs)
@@ -273,7 +274,9 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 	tw.Flush()
 
 	// Now write the dimensions of the dataset
-	attrCount, rowCount := inst.Size()
+	// (Size doesn't count Attributes a Filter adds)
+	attrCount := len(inst.AllAttributes())
+	_, rowCount := inst.Size()
 	hdr = &tar.Header{
 		Name: p("DIMS"),
 		Size: 16,
-- 
2.43.0


From 6e055d4a99fbab283987a821230339755298f450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:18 +0000
Subject: [PATCH 022/114] fix: ARFF value lists, @data lines and malformed rows

Value lists with mixed spacing were split wrongly, a space after @data
or a value starting with @ made the row count differ from the rows read
(panic), rows with too many values panicked, rows with too few were padded
with zeros, and lines too long for the scanner silently ended the file.
---
 base/arff.go | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 7398080..66427fc 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -97,9 +97,6 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			continue
 		}
 		if counting {
-			if line[0] == '@' {
-				continue
-			}
 			if line[0] == '%' {
 				continue
 			}
@@ -107,13 +104,13 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			continue
 		}
 		if line[0] == '@' {
-			line = strings.ToLower(line)
+			line = strings.TrimSpace(strings.ToLower(line))
 			if line == "@data" {
 				counting = true
 			}
 		}
 	}
-	return count, nil
+	return count, scanner.Err()
 }
 
 // ParseARFFGetAttributes returns the set of Attributes represented in this ARFF
@@ -151,24 +148,13 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 			break
 		default:
 			if fields[2][0] == '{' {
-				if strings.HasSuffix(fields[len(fields)-1], "}") {
-					var cats []string
-					if len(fields) > 3 {
-						cats = fields[2:len(fields)]
-					} else {
-						cats = strings.Split(fields[2], ",")
-					}
-					if len(cats) == 0 {
-						panic(fmt.Errorf("Empty categorical field on line '%s'", line))
-					}
-					cats[0] = cats[0][1:]                                            // Remove leading '{'
-					cats[len(cats)-1] = cats[len(cats)-1][:len(cats[len(cats)-1])-1] // Remove trailing '}'
-					for i, v := range cats {                                         // Miaow
+				// The list may or may not have spaces around its commas
+				list := line[strings.Index(line, fields[1])+len(fields[1]):]
+				list = strings.TrimSpace(list[strings.Index(list, "{")+1:])
+				if strings.HasSuffix(list, "}") {
+					cats := strings.Split(strings.TrimSuffix(list, "}"), ",")
+					for i, v := range cats {
 						cats[i] = strings.TrimSpace(v)
-						if strings.HasSuffix(cats[i], ",") {
-							// Strip end comma
-							cats[i] = cats[i][0 : len(cats[i])-1]
-						}
 					}
 					attr = NewCategoricalAttribute()
 					for _, v := range cats {
@@ -188,6 +174,9 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 		attr.SetName(fields[1])
 		ret = append(ret, attr)
 	}
+	if err := scanner.Err(); err != nil {
+		panic(err)
+	}
 
 	maxPrecision, err := ParseCSVEstimateFilePrecision(filepath)
 	if err != nil {
@@ -208,7 +197,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
-				panic(err)
+				panic(r)
 			}
 			err = fmt.Errorf("Error at line %d (error %s)", rowCounter, r.(error))
 		}
@@ -232,6 +221,9 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 				} else if err != nil {
 					return err
 				}
+				if len(r) != len(specs) {
+					return fmt.Errorf("Expected %d values, found %d on line '%s'", len(specs), len(r), line)
+				}
 				for i, v := range r {
 					v = strings.TrimSpace(v)
 					if a, ok := specs[i].attr.(*CategoricalAttribute); ok {
@@ -252,7 +244,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
 
 // ParseDenseARFFToInstances parses the dense ARFF File into a FixedDataGrid
@@ -274,6 +266,9 @@ func ParseDenseARFFToInstances(filepath string) (ret *DenseInstances, err error)
 
 	// Get the Attributes we want
 	attrs := ParseARFFGetAttributes(filepath)
+	if len(attrs) == 0 {
+		return nil, fmt.Errorf("No Attributes found in '%s'", filepath)
+	}
 
 	// Allocate return value
 	ret = NewDenseInstances()
-- 
2.43.0


From f0f65fde6b09e2b5d077de4d51e844ded637e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 023/114] fix: reading serialized instances must not depend on
 where decompression pauses

---
 base/serialize_instances.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index f53af3d..dc19331 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -171,17 +171,12 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 	for i := 0; i < rowCount; i++ {
 		for j, s := range specs {
 			r := ret.Get(s, i)
-			n, err := reader.Read(r)
-			if n != len(r) {
-				return nil, WrapError(fmt.Errorf("Expected %d bytes (read %d) on row %d", len(r), n, i))
-			}
-			ret.Set(s, i, r)
+			// A single Read may stop short of the whole value
+			n, err := io.ReadFull(reader, r)
 			if err != nil {
-				if i == rowCount-1 && j == len(specs)-1 && err == io.EOF {
-					break
-				}
-				return nil, WrapError(fmt.Errorf("Read error in data section (at row %d from %d, attr %d from %d): %s", i, rowCount, j, len(specs), err))
+				return nil, WrapError(fmt.Errorf("Read error in data section (%d byte(s) at row %d from %d, attr %d from %d): %s", n, i, rowCount, j, len(specs), err))
 			}
+			ret.Set(s, i, r)
 		}
 	}
 
-- 
2.43.0


From 1a447af5ee97e73b2ecb7a9774d35cda0a1be1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:21 +0000
Subject: [PATCH 024/114] fix: instances saved without their data must be
 readable

---
 base/serialize_instances.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index dc19331..5db74d5 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -272,6 +272,9 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 	// (Size doesn't count Attributes a Filter adds)
 	attrCount := len(inst.AllAttributes())
 	_, rowCount := inst.Size()
+	if !includeData {
+		rowCount = 0 // only the structure is kept
+	}
 	hdr = &tar.Header{
 		Name: p("DIMS"),
 		Size: 16,
@@ -311,12 +314,14 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 
 	// First, estimate the amount of data we'll need...
 	dataLength := int64(0)
-	inst.MapOverRows(allSpecs, func(val [][]byte, row int) (bool, error) {
-		for _, v := range val {
-			dataLength += int64(len(v))
-		}
-		return true, nil
-	})
+	if includeData {
+		inst.MapOverRows(allSpecs, func(val [][]byte, row int) (bool, error) {
+			for _, v := range val {
+				dataLength += int64(len(v))
+			}
+			return true, nil
+		})
+	}
 
 	// Then write the header
 	hdr = &tar.Header{
-- 
2.43.0


From 66950be239d8d0692f1d73eb114a5444d9a1d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 025/114] fix: inconsistent lengths in a serialized file must
 be an error, not a panic

---
 base/serialize.go           | 10 +++++++---
 base/serialize_instances.go | 19 ++++++++++++++-----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/base/serialize.go b/base/serialize.go
index 5cf7ebe..986a7b1 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -205,6 +205,9 @@ func (c *ClassifierDeserializer) GetU64ForKey(key string) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
+	if len(b) != 8 {
+		return 0, WrapError(fmt.Errorf("Expected 8 bytes for %s, got %d", key, len(b)))
+	}
 	return UnpackBytesToU64(b), nil
 }
 
@@ -230,14 +233,15 @@ func (c *ClassifierDeserializer) GetAttributesForKey(key string) ([]Attribute, e
 		return nil, DescribeError("Unable to read ATTR_COUNT", err)
 	}
 
-	ret := make([]Attribute, attrCount)
+	ret := make([]Attribute, 0)
 
-	for i := range ret {
+	for i := uint64(0); i < attrCount; i++ {
 		attrKey := c.Prefix(key, fmt.Sprintf("%d", i))
-		ret[i], err = c.GetAttributeForKey(attrKey)
+		attr, err := c.GetAttributeForKey(attrKey)
 		if err != nil {
 			return nil, DescribeError("Unable to read Attribute", err)
 		}
+		ret = append(ret, attr)
 	}
 	return ret, nil
 }
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 5db74d5..b1684c1 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -127,6 +127,10 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 		return nil, DescribeError("Unable to deserialize normal attributes", err)
 	}
 
+	if attrCount != len(normalAttrs)+len(cAttrs) {
+		return nil, WrapError(fmt.Errorf("DIMS: expected %d Attributes, found %d", attrCount, len(normalAttrs)+len(cAttrs)))
+	}
+
 	// Create the return instances
 	ret = NewDenseInstances()
 
@@ -144,11 +148,6 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 		}
 		allAttributes[i+len(normalAttrs)] = v
 	}
-	// Allocate memory
-	err = ret.Extend(int(rowCount))
-	if err != nil {
-		return nil, WrapError(fmt.Errorf("Could not allocate memory"))
-	}
 
 	// Seek through the TAR file until we get to the DATA section
 	reader := tr.Regenerate()
@@ -160,10 +159,20 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 			return nil, WrapError(fmt.Errorf("Error seeking to DATA section: %s", err))
 		}
 		if hdr.Name == p("DATA") {
+			// Every value takes at least a byte
+			if rowCount < 0 || (attrCount > 0 && int64(rowCount) > hdr.Size/int64(attrCount)) {
+				return nil, WrapError(fmt.Errorf("DIMS: %d row(s) don't fit into the DATA section", rowCount))
+			}
 			break
 		}
 	}
 
+	// Allocate memory
+	err = ret.Extend(int(rowCount))
+	if err != nil {
+		return nil, WrapError(fmt.Errorf("Could not allocate memory"))
+	}
+
 	// Resolve AttributeSpecs
 	specs := ResolveAttributes(ret, allAttributes)
 
-- 
2.43.0


From 32ee1f00fad13ea93cf028ffdd09a39e66f559cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:26 +0000
Subject: [PATCH 026/114] fix: closing a classifier file must close the file

---
 base/serialize.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/serialize.go b/base/serialize.go
index 986a7b1..775d612 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -116,12 +116,17 @@ func (c *ClassifierDeserializer) ReadMetadataAtPrefix(prefix string) (Classifier
 // ReadSerializedClassifierStub is the counterpart of CreateSerializedClassifierStub.
 // It's used inside SaveableClassifiers to read information from a perviously saved
 // model file.
-func ReadSerializedClassifierStub(filePath string) (*ClassifierDeserializer, error) {
+func ReadSerializedClassifierStub(filePath string) (reader *ClassifierDeserializer, err error) {
 
 	f, err := os.Open(filePath)
 	if err != nil {
 		return nil, DescribeError("Can't open file", err)
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 
 	gzr, err := gzip.NewReader(f)
 	if err != nil {
@@ -152,8 +157,8 @@ func ReadSerializedClassifierStub(filePath string) (*ClassifierDeserializer, err
 	//
 	var metadata ClassifierMetadataV1
 	ret := &ClassifierDeserializer{
-		f,
 		gzr,
+		f,
 		tz,
 		&metadata,
 	}
-- 
2.43.0


From 0a7a66e6b0713fc735e31d1c3e2160e79234c959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 027/114] fix: copying the structure of instances with several
 categorical attributes

---
 base/util_instances.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 5f738ed..9ec6f52 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -44,10 +44,16 @@ func CopyDenseInstances(template *DenseInstances, templateAttrs []Attribute) *De
 		if ag, ok := template.agRevMap[s.pond]; !ok {
 			panic(ag)
 		} else {
-			_, err := instances.AddAttributeToAttributeGroup(a, ag)
+			// (Attributes which share a group in the template may do so in
+			// the copy, even if they have different categorical values)
+			group, err := instances.GetAttributeGroup(ag)
 			if err != nil {
 				panic(err)
 			}
+			if err := group.AddAttribute(a); err != nil {
+				panic(err)
+			}
+			instances.attributes = append(instances.attributes, a)
 		}
 	}
 	return instances
-- 
2.43.0


From 2b0cd7a2e86a57ca026bcebc65ea51690127842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:46 +0000
Subject: [PATCH 028/114] fix: the CSV precision estimate must not take a comma
 for a decimal point

---
 base/csv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/csv.go b/base/csv.go
index c452084..e419d1c 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -31,7 +31,7 @@ func ParseCSVGetRowsFromReader(r io.ReadSeeker) (int, error) {
 // digits occuring anywhere after the decimal point within the reader.
 func ParseCSVEstimateFilePrecisionFromReader(r io.ReadSeeker) (int, error) {
 	// Creat a basic regexp
-	rexp := regexp.MustCompile("[0-9]+(.[0-9]+)?")
+	rexp := regexp.MustCompile("[0-9]*\\.[0-9]+")
 
 	// Scan through the file line-by-line
 	maxL := 0
-- 
2.43.0


From deb57ea0fe08c244625006a5e926132a17bcd3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 029/114] fix: rows of a masked view must be visited in order,
 as saving relies on it

---
 base/view.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/view.go b/base/view.go
index 47ca2fa..225a0ae 100644
--- a/base/view.go
+++ b/base/view.go
@@ -207,7 +207,8 @@ func (v *InstancesView) Get(as AttributeSpec, row int) []byte {
 func (v *InstancesView) MapOverRows(as []AttributeSpec, rowFunc func([][]byte, int) (bool, error)) error {
 	if v.maskRows {
 		rowBuf := make([][]byte, len(as))
-		for r := range v.rows {
+		// (in order, as some callers rely on the order of rows)
+		for r := 0; r < len(v.rows); r++ {
 			row := v.rows[r]
 			for i, a := range as {
 				rowBuf[i] = v.src.Get(a, row)
-- 
2.43.0


From 3009733023560e356eb2ab9eace0a653125318ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 030/114] fix: kd-tree search returned phantom rows, too many
 rows, or missed nearer rows

Empty children were offered as row 0 at a bogus distance, a leaf reached
with a full set of neighbours was added without looking at its distance,
and the other side of a division was left out by an axis distance even for
distances (cosine) which that does not bound.
---
 kdtree/kdtree.go | 50 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/kdtree/kdtree.go b/kdtree/kdtree.go
index 6bddbe8..7e0d30b 100644
--- a/kdtree/kdtree.go
+++ b/kdtree/kdtree.go
@@ -114,6 +114,10 @@ func (t *Tree) buildHandle(data []int, featureIndex int) *node {
 // Search return srcRowNo([]int) and length([]float64) contained
 // k nearest neighbors from specific distance function.
 func (t *Tree) Search(k int, disType pairwise.PairwiseDistanceFunc, target []float64) ([]int, []float64, error) {
+	if k < 0 {
+		return []int{}, []float64{}, errors.New("k is negative")
+	}
+
 	if k > len(t.data) {
 		return []int{}, []float64{}, errors.New("k is largerer than amount of trainData")
 	}
@@ -138,12 +142,32 @@ func (t *Tree) Search(k int, disType pairwise.PairwiseDistanceFunc, target []flo
 	return srcRowNo, length, nil
 }
 
+// insertNode offers a node to the heap of the k nearest neighbors.
+func (t *Tree) insertNode(k int, h *heap, length float64, n *node) {
+	if k > h.size() {
+		h.insert(n.value, length, n.srcRowNo)
+	} else if h.maximum().length > length {
+		h.extractMax()
+		h.insert(n.value, length, n.srcRowNo)
+	}
+}
+
+// boundedByAxis returns true if the distance between two points is never
+// smaller than their distance along a single axis.
+func boundedByAxis(disType pairwise.PairwiseDistanceFunc) bool {
+	switch disType.(type) {
+	case *pairwise.Euclidean, *pairwise.Manhattan, *pairwise.Chebyshev, *pairwise.Cranberra:
+		return true
+	}
+	return false
+}
+
 func (t *Tree) searchHandle(k int, disType pairwise.PairwiseDistanceFunc, target []float64, h *heap, n *node) {
 	if n.feature == -1 {
 		vectorX := mat.NewDense(len(target), 1, target)
 		vectorY := mat.NewDense(len(target), 1, n.value)
 		length := disType.Distance(vectorX, vectorY)
-		h.insert(n.value, length, n.srcRowNo)
+		t.insertNode(k, h, length, n)
 		return
 	} else if n.feature == -2 {
 		return
@@ -177,11 +201,15 @@ func (t *Tree) searchHandle(k int, disType pairwise.PairwiseDistanceFunc, target
 			t.searchAllNodes(k, disType, target, h, n.left)
 		}
 	} else {
-		vectorX = mat.NewDense(1, 1, []float64{target[n.feature]})
-		vectorY = mat.NewDense(1, 1, []float64{n.value[n.feature]})
-		length = disType.Distance(vectorX, vectorY)
+		// The other side can be left out only if nothing in it is nearer
+		prune := false
+		if boundedByAxis(disType) {
+			vectorX = mat.NewDense(1, 1, []float64{target[n.feature]})
+			vectorY = mat.NewDense(1, 1, []float64{n.value[n.feature]})
+			prune = h.maximum().length <= disType.Distance(vectorX, vectorY)
+		}
 
-		if h.maximum().length > length {
+		if !prune {
 			if dir {
 				t.searchAllNodes(k, disType, target, h, n.right)
 			} else {
@@ -192,16 +220,14 @@ func (t *Tree) searchHandle(k int, disType pairwise.PairwiseDistanceFunc, target
 }
 
 func (t *Tree) searchAllNodes(k int, disType pairwise.PairwiseDistanceFunc, target []float64, h *heap, n *node) {
+	if n.feature == -2 {
+		return
+	}
+
 	vectorX := mat.NewDense(len(target), 1, target)
 	vectorY := mat.NewDense(len(target), 1, n.value)
 	length := disType.Distance(vectorX, vectorY)
-
-	if k > h.size() {
-		h.insert(n.value, length, n.srcRowNo)
-	} else if h.maximum().length > length {
-		h.extractMax()
-		h.insert(n.value, length, n.srcRowNo)
-	}
+	t.insertNode(k, h, length, n)
 
 	if n.left != nil {
 		t.searchAllNodes(k, disType, target, h, n.left)
-- 
2.43.0


From 4ea40b2496f1d0149651f82b082fa2e6fb666e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 031/114] fix: KNN broke ties by map iteration order, so
 predictions changed from call to call

---
 knn/knn.go               | 8 ++++++--
 knn/knn_opt_euclidean.go | 7 ++++++-
 utilities/utilities.go   | 3 +++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index 0ce44fa..ca419c4 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -286,9 +286,11 @@ func (KNN *KNNClassifier) vote(maxmap map[string]int, values []int) string {
 	}
 
 	// Sort the maxMap
+	// (a tie goes to the label of the nearer neighbour)
 	var maxClass string
 	maxVal := -1
-	for a := range maxmap {
+	for _, elem := range values {
+		a := base.GetClass(KNN.TrainingData, elem)
 		if maxmap[a] > maxVal {
 			maxVal = maxmap[a]
 			maxClass = a
@@ -314,9 +316,11 @@ func (KNN *KNNClassifier) weightedVote(maxmap map[string]float64, values []int,
 	}
 
 	// Sort the maxMap
+	// (a tie goes to the label of the nearer neighbour)
 	var maxClass string
 	maxVal := -1.0
-	for a := range maxmap {
+	for _, elem := range values {
+		a := base.GetClass(KNN.TrainingData, elem)
 		if maxmap[a] > maxVal {
 			maxVal = maxmap[a]
 			maxClass = a
diff --git a/knn/knn_opt_euclidean.go b/knn/knn_opt_euclidean.go
index a6b159c..806d677 100644
--- a/knn/knn_opt_euclidean.go
+++ b/knn/knn_opt_euclidean.go
@@ -15,7 +15,12 @@ type distanceRecs []C.struct_dist
 
 func (d distanceRecs) Len() int           { return len(d) }
 func (d distanceRecs) Swap(i, j int)      { d[i], d[j] = d[j], d[i] }
-func (d distanceRecs) Less(i, j int) bool { return d[i].dist < d[j].dist }
+func (d distanceRecs) Less(i, j int) bool {
+	if d[i].dist == d[j].dist {
+		return d[i].p < d[j].p
+	}
+	return d[i].dist < d[j].dist
+}
 
 func (KNN *KNNClassifier) optimisedEuclideanPredict(d *base.DenseInstances) base.FixedDataGrid {
 
diff --git a/utilities/utilities.go b/utilities/utilities.go
index d2a9c35..2d207f5 100644
--- a/utilities/utilities.go
+++ b/utilities/utilities.go
@@ -17,6 +17,9 @@ func (sm *sortedIntMap) Len() int {
 }
 
 func (sm *sortedIntMap) Less(i, j int) bool {
+	if sm.m[sm.s[i]] == sm.m[sm.s[j]] {
+		return sm.s[i] < sm.s[j]
+	}
 	return sm.m[sm.s[i]] < sm.m[sm.s[j]]
 }
 
-- 
2.43.0


From 933fa4591dd85f9d1deeb511c94834c0fccccb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:23 +0000
Subject: [PATCH 032/114] fix: the optimised KNN search ignored Weighted

---
 knn/knn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knn/knn.go b/knn/knn.go
index ca419c4..089b1b8 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -126,7 +126,7 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	}
 
 	// Use optimised version if permitted
-	if KNN.Algorithm == "linear" && KNN.AllowOptimisations {
+	if KNN.Algorithm == "linear" && KNN.AllowOptimisations && !KNN.Weighted {
 		if KNN.DistanceFunc == "euclidean" {
 			if KNN.canUseOptimisations(what) {
 				return KNN.optimisedEuclideanPredict(what.(*base.DenseInstances)), nil
-- 
2.43.0


From f6e910d25271d1da0a8009c4c678670639c2e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 033/114] fix: the optimised KNN search accumulated distances
 in single precision

Neighbours closer together than a float can tell apart, or further away
than a float can hold, were picked by row number.
---
 knn/knn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knn/knn.h b/knn/knn.h
index e785b99..99c67b5 100644
--- a/knn/knn.h
+++ b/knn/knn.h
@@ -4,7 +4,7 @@
 #include <stdint.h>
 
 struct dist {
-    float dist;
+    double dist;
     uint32_t p;
 };
 
-- 
2.43.0


From 2bbc7a5bede6f1487e0fce8e26b83e416a394089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 034/114] fix: KNN compared the class values of mixed grids
 with a float class, or left out a feature instead

---
 knn/knn.go               | 10 ++--------
 knn/knn_opt_euclidean.go |  4 ++--
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index 089b1b8..13f9967 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -134,20 +134,14 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		}
 	}
 
-	// Remove the Attributes which aren't numeric
+	// Remove the Attributes which aren't numeric and those we are trying to predict
 	allNumericAttrs := make([]base.Attribute, 0)
-	for _, a := range allAttrs {
+	for _, a := range base.AttributeDifference(allAttrs, KNN.TrainingData.AllClassAttributes()) {
 		if fAttr, ok := a.(*base.FloatAttribute); ok {
 			allNumericAttrs = append(allNumericAttrs, fAttr)
 		}
 	}
 
-	// If every Attribute is a FloatAttribute, then we remove the last one
-	// because that is the Attribute we are trying to predict.
-	if len(allNumericAttrs) == len(allAttrs) {
-		allNumericAttrs = allNumericAttrs[:len(allNumericAttrs)-1]
-	}
-
 	// Generate return vector
 	ret := base.GeneratePredictionVector(what)
 
diff --git a/knn/knn_opt_euclidean.go b/knn/knn_opt_euclidean.go
index 806d677..c980e31 100644
--- a/knn/knn_opt_euclidean.go
+++ b/knn/knn_opt_euclidean.go
@@ -13,8 +13,8 @@ type dist C.struct_dist
 
 type distanceRecs []C.struct_dist
 
-func (d distanceRecs) Len() int           { return len(d) }
-func (d distanceRecs) Swap(i, j int)      { d[i], d[j] = d[j], d[i] }
+func (d distanceRecs) Len() int      { return len(d) }
+func (d distanceRecs) Swap(i, j int) { d[i], d[j] = d[j], d[i] }
 func (d distanceRecs) Less(i, j int) bool {
 	if d[i].dist == d[j].dist {
 		return d[i].p < d[j].p
-- 
2.43.0


From e77039eb3c1f8138e31418ac8a3c1ae40b679ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 035/114] fix: KNN panicked or returned unclassified rows
 without an error

(asked for more neighbours than there are rows, for none, without numeric
attributes, or given no rows to classify)
---
 knn/knn.go               | 20 +++++++++++++++++++-
 knn/knn_opt_euclidean.go |  2 +-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index 13f9967..b22ce9c 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -88,6 +88,11 @@ func (KNN *KNNClassifier) canUseOptimisations(what base.FixedDataGrid) bool {
 		}
 	}
 
+	// Check that there is something to compare
+	if _, rows := whatd.Size(); rows == 0 || len(normalAttrs) == 0 {
+		return false
+	}
+
 	// Check that all of the Attributes are numeric
 	for _, a := range normalAttrs {
 		if _, ok := a.(*base.FloatAttribute); !ok {
@@ -125,6 +130,12 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		return nil, errors.New("attributes not compatible")
 	}
 
+	// Check that there are enough neighbours to be found
+	_, trainRows := KNN.TrainingData.Size()
+	if KNN.NearestNeighbours < 1 || KNN.NearestNeighbours > trainRows {
+		return nil, fmt.Errorf("can't find %d nearest neighbours in %d rows", KNN.NearestNeighbours, trainRows)
+	}
+
 	// Use optimised version if permitted
 	if KNN.Algorithm == "linear" && KNN.AllowOptimisations && !KNN.Weighted {
 		if KNN.DistanceFunc == "euclidean" {
@@ -142,6 +153,10 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		}
 	}
 
+	if len(allNumericAttrs) == 0 {
+		return nil, errors.New("no numeric attributes to compare")
+	}
+
 	// Generate return vector
 	ret := base.GeneratePredictionVector(what)
 
@@ -186,7 +201,7 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	}
 
 	// Iterate over all outer rows
-	what.MapOverRows(whatAttrSpecs, func(predRow [][]byte, predRowNo int) (bool, error) {
+	err := what.MapOverRows(whatAttrSpecs, func(predRow [][]byte, predRowNo int) (bool, error) {
 
 		if (curRow%1) == 0 && curRow > 0 {
 			fmt.Printf("KNN: %.2f %% done\r", float64(curRow)*100.0/float64(maxRow))
@@ -255,6 +270,9 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		return true, nil
 
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return ret, nil
 }
diff --git a/knn/knn_opt_euclidean.go b/knn/knn_opt_euclidean.go
index c980e31..08be8c8 100644
--- a/knn/knn_opt_euclidean.go
+++ b/knn/knn_opt_euclidean.go
@@ -38,7 +38,7 @@ func (KNN *KNNClassifier) optimisedEuclideanPredict(d *base.DenseInstances) base
 		// Detect whether the AttributeGroup has any classes in it
 		attrs := agTrain[ag].Attributes()
 		//matched := false
-		if len(base.AttributeIntersect(classAttrs, attrs)) == 0 {
+		if len(attrs) > 0 && len(base.AttributeIntersect(classAttrs, attrs)) == 0 {
 			agPos[ag] = counter
 		}
 		counter++
-- 
2.43.0


From e034476fc10258e23993c44bc90eccbdda74d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 036/114] fix: rounding took the cosine distance out of its
 documented range

A slightly negative distance turned a neighbour's vote in weighted KNN
into a huge negative one.
---
 metrics/pairwise/cosine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics/pairwise/cosine.go b/metrics/pairwise/cosine.go
index 08b9ca1..8df5000 100644
--- a/metrics/pairwise/cosine.go
+++ b/metrics/pairwise/cosine.go
@@ -30,5 +30,6 @@ func (c *Cosine) Distance(vectorX *mat.Dense, vectorY *mat.Dense) float64 {
 
 	cos := dotXY / (lengthX * lengthY)
 
-	return 1 - cos
+	// (rounding may take the cosine out of its range)
+	return 1 - math.Max(-1, math.Min(1, cos))
 }
-- 
2.43.0


From 9543a5256f745ccaa981cd1ad27fd2f7fec389d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 037/114] fix: loading a malformed file panicked when the
 failure was not an error value

(two attributes of one name in an ARFF file, for example)
---
 base/arff.go                | 4 ++--
 base/csv.go                 | 2 +-
 base/serialize_instances.go | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 66427fc..568a043 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -199,7 +199,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 			if _, ok := r.(runtime.Error); ok {
 				panic(r)
 			}
-			err = fmt.Errorf("Error at line %d (error %s)", rowCounter, r.(error))
+			err = fmt.Errorf("Error at line %d (error %v)", rowCounter, r)
 		}
 	}()
 
@@ -254,7 +254,7 @@ func ParseDenseARFFToInstances(filepath string) (ret *DenseInstances, err error)
 			if _, ok := r.(runtime.Error); ok {
 				panic(r)
 			}
-			err = r.(error)
+			err = fmt.Errorf("%v", r)
 		}
 	}()
 
diff --git a/base/csv.go b/base/csv.go
index e419d1c..02e9c58 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -164,7 +164,7 @@ func ParseCSVBuildInstancesFromReader(r io.ReadSeeker, attrs []Attribute, hasHea
 			if _, ok := r.(runtime.Error); ok {
 				panic(r)
 			}
-			err = fmt.Errorf("error at line %d (error %s)", rowCounter, r.(error))
+			err = fmt.Errorf("error at line %d (error %v)", rowCounter, r)
 		}
 	}()
 
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index b1684c1..9e269b9 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -201,7 +201,7 @@ func DeserializeInstances(f io.ReadSeeker) (ret *DenseInstances, err error) {
 			if _, ok := r.(runtime.Error); ok {
 				panic(r)
 			}
-			err = r.(error)
+			err = fmt.Errorf("%v", r)
 		}
 	}()
 
-- 
2.43.0


From 41ab4dbe1eed12f9c45df4a1cc6050444d836a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 038/114] fix: BinningFilter produced values outside the
 attribute's list

Values above the training range (or any value above a constant column), and
bins whose labels coincide at the attribute's precision, got an index with
no value, and reading them panicked.
---
 filters/binning.go | 9 +++++----
 filters/disc.go    | 9 +++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/filters/binning.go b/filters/binning.go
index fb9ebf6..e56e7ab 100644
--- a/filters/binning.go
+++ b/filters/binning.go
@@ -88,9 +88,10 @@ func (b *BinningFilter) Transform(a base.Attribute, n base.Attribute, field []by
 	// Casts to float64 to replicate a floating point precision error
 	delta := float64(maxVal-minVal) / float64(b.bins)
 	val := float64(af.GetFloatFromSysVal(field))
-	if val <= minVal {
-		disc = 0
-	} else {
+	if val >= maxVal && val > minVal {
+		// (values above those seen in training go in the last bin)
+		disc = b.bins
+	} else if val > minVal {
 		disc = int(math.Floor(float64(float64(val-minVal)/delta + 0.0001)))
 	}
 	return base.PackU64ToBytes(uint64(disc))
@@ -112,7 +113,7 @@ func (b *BinningFilter) GetAttributesAfterFiltering() []base.FilteredAttribute {
 				floatVal := float64(i)*delta + minVal
 				fmtStr := fmt.Sprintf("%%.%df", a.(*base.FloatAttribute).Precision)
 				binVal := fmt.Sprintf(fmtStr, floatVal)
-				retAttr.GetSysValFromString(binVal)
+				addBinLabel(retAttr, binVal, i)
 			}
 			ret[i] = base.FilteredAttribute{a, retAttr}
 		} else {
diff --git a/filters/disc.go b/filters/disc.go
index 940829e..42937bb 100644
--- a/filters/disc.go
+++ b/filters/disc.go
@@ -60,3 +60,12 @@ func (d *AbstractDiscretizeFilter) getAttributeSpecs() []base.AttributeSpec {
 	}
 	return as
 }
+
+// addBinLabel adds the value describing a bin to an Attribute. A bin must
+// have a value of its own, even if its description matches another's.
+func addBinLabel(a *base.CategoricalAttribute, label string, bin int) {
+	if a.GetSysVal(label) != nil {
+		label = fmt.Sprintf("%s (%d)", label, bin)
+	}
+	a.GetSysValFromString(label)
+}
-- 
2.43.0


From 7c19b3ee0e51f5756bd835a2d5de7683f7574f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:44 +0000
Subject: [PATCH 039/114] fix: ChiMergeFilter put the lowest value of an
 interval in the one below

---
 filters/chimerge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/chimerge.go b/filters/chimerge.go
index 826e8d0..d197c51 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -173,7 +173,7 @@ func (c *ChiMergeFilter) Transform(a base.Attribute, n base.Attribute, field []b
 	dis := 0
 	val := base.UnpackBytesToFloat(field)
 	for j, k := range table {
-		if k.Value < val {
+		if k.Value <= val {
 			dis = j
 			continue
 		}
-- 
2.43.0


From 64bbaa74456cf091d064ad1124f02cf6b8abd68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:49 +0000
Subject: [PATCH 040/114] fix: ChiMergeFilter intervals closer than 0.000001
 shared a label

which left later intervals without a value.
---
 filters/chimerge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/chimerge.go b/filters/chimerge.go
index d197c51..6e840ac 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -151,8 +151,8 @@ func (c *ChiMergeFilter) GetAttributesAfterFiltering() []base.FilteredAttribute
 		if c.attrs[a] {
 			retAttr := new(base.CategoricalAttribute)
 			retAttr.SetName(a.GetName())
-			for _, k := range c.tables[a] {
-				retAttr.GetSysValFromString(fmt.Sprintf("%f", k.Value))
+			for i, k := range c.tables[a] {
+				addBinLabel(retAttr, fmt.Sprintf("%f", k.Value), i)
 			}
 			ret[i] = base.FilteredAttribute{a, retAttr}
 		} else {
-- 
2.43.0


From 722e82cf23b35e89d3b22483e1520677182b938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 041/114] fix: chi-squared probabilities were NaN for two
 classes and wrong for large statistics

so ChiMerge never merged anything in two-class data, and merged the most
different intervals of large data sets.
---
 filters/chimerge_funcs.go | 45 ++++++---------------------------------
 1 file changed, 6 insertions(+), 39 deletions(-)

diff --git a/filters/chimerge_funcs.go b/filters/chimerge_funcs.go
index 6b649c1..8016814 100644
--- a/filters/chimerge_funcs.go
+++ b/filters/chimerge_funcs.go
@@ -2,6 +2,7 @@ package filters
 
 import (
 	"github.com/sjwhitworth/golearn/base"
+	"gonum.org/v1/gonum/mathext"
 	"math"
 )
 
@@ -41,47 +42,13 @@ func ChiMBuildFrequencyTable(attr base.Attribute, inst base.FixedDataGrid) []*Fr
 	return ret
 }
 
-func chiSquaredPdf(k float64, x float64) float64 {
-	if x < 0 {
-		return 0
-	}
-	top := math.Pow(x, (k/2)-1) * math.Exp(-x/2)
-	bottom := math.Pow(2, k/2) * math.Gamma(k/2)
-	return top / bottom
-}
-
+// chiSquaredPercentile returns the probability that a chi-squared variable
+// with k degrees of freedom is no greater than x.
 func chiSquaredPercentile(k int, x float64) float64 {
-	// Implements Yahya et al.'s "A Numerical Procedure
-	//  for Computing Chi-Square Percentage Points"
-	// InterStat Journal 01/2007; April 25:page:1-8.
-	steps := 32
-	intervals := 4 * steps
-	w := x / (4.0 * float64(steps))
-	values := make([]float64, intervals+1)
-	for i := 0; i < intervals+1; i++ {
-		c := w * float64(i)
-		v := chiSquaredPdf(float64(k), c)
-		values[i] = v
-	}
-
-	ret1 := values[0] + values[len(values)-1]
-	ret2 := 0.0
-	ret3 := 0.0
-	ret4 := 0.0
-
-	for i := 2; i < intervals-1; i += 4 {
-		ret2 += values[i]
-	}
-
-	for i := 4; i < intervals-3; i += 4 {
-		ret3 += values[i]
-	}
-
-	for i := 1; i < intervals; i += 2 {
-		ret4 += values[i]
+	if k < 1 || x <= 0 {
+		return 0
 	}
-
-	return (2.0 * w / 45) * (7*ret1 + 12*ret2 + 14*ret3 + 32*ret4)
+	return mathext.GammaIncReg(float64(k)/2, x/2)
 }
 
 func chiCountClasses(entries []*FrequencyTableEntry) map[string]int {
-- 
2.43.0


From e2da358b7548662c575153b0cec550a4500ea62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:53 +0000
Subject: [PATCH 042/114] fix: ChiMerge results depended on map order and could
 fall below the minimum number of intervals

---
 filters/chimerge.go       |  3 +++
 filters/chimerge_funcs.go | 11 +++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/filters/chimerge.go b/filters/chimerge.go
index 6e840ac..84fab00 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -107,6 +107,9 @@ func chiMerge(inst base.FixedDataGrid, attr base.Attribute, sig float64, minrows
 		//  The higher of the two things as the value
 		//  Combining the class frequencies
 		for i, v := range minChiIndexes {
+			if len(freq) <= minrows {
+				break
+			}
 			freq = chiMergeMergeZipAdjacent(freq, v-i)
 		}
 	}
diff --git a/filters/chimerge_funcs.go b/filters/chimerge_funcs.go
index 8016814..9d83f2c 100644
--- a/filters/chimerge_funcs.go
+++ b/filters/chimerge_funcs.go
@@ -4,6 +4,7 @@ import (
 	"github.com/sjwhitworth/golearn/base"
 	"gonum.org/v1/gonum/mathext"
 	"math"
+	"sort"
 )
 
 func ChiMBuildFrequencyTable(attr base.Attribute, inst base.FixedDataGrid) []*FrequencyTableEntry {
@@ -98,8 +99,14 @@ func chiComputeStatistic(entry1 *FrequencyTableEntry, entry2 *FrequencyTableEntr
 	}
 
 	// Compute chi-squared value
+	// (always in the same order, so that equal pairs have equal values)
+	classes := make([]string, 0, len(classCounter))
+	for k := range classCounter {
+		classes = append(classes, k)
+	}
+	sort.Strings(classes)
 	chiSum := 0.0
-	for k := range expectedClassValues1 {
+	for _, k := range classes {
 		numerator := float64(entry1.Frequency[k])
 		numerator -= expectedClassValues1[k]
 		numerator = math.Pow(numerator, 2)
@@ -109,7 +116,7 @@ func chiComputeStatistic(entry1 *FrequencyTableEntry, entry2 *FrequencyTableEntr
 		}
 		chiSum += numerator / denominator
 	}
-	for k := range expectedClassValues2 {
+	for _, k := range classes {
 		numerator := float64(entry2.Frequency[k])
 		numerator -= expectedClassValues2[k]
 		numerator = math.Pow(numerator, 2)
-- 
2.43.0


From 5bcdd61a4d9e7907ba28c2000edbbd60d1000313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 043/114] fix: the Gini impurity was always 1

so the Gini rule split on an arbitrary attribute.
---
 trees/gini.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/trees/gini.go b/trees/gini.go
index 23b1569..9c3e3bb 100644
--- a/trees/gini.go
+++ b/trees/gini.go
@@ -70,18 +70,16 @@ func (g *GiniCoefficientRuleGenerator) GetSplitRuleFromSelection(consideredAttri
 
 // computeGini computes the Gini impurity measure
 func computeGini(s map[string]int) float64 {
-	// Compute probability map
-	p := make(map[string]float64)
+	// Count everything
+	total := 0
 	for i := range s {
-		if p[i] == 0 {
-			continue
-		}
-		p[i] = 1.0 / float64(p[i])
+		total += s[i]
 	}
-	// Compute overall sum
+	// Compute overall sum of squared probabilities
 	sum := 0.0
-	for i := range p {
-		sum += p[i] * p[i]
+	for i := range s {
+		p := float64(s[i]) / float64(total)
+		sum += p * p
 	}
 
 	return 1.0 - sum
-- 
2.43.0


From 7d3502124ffe62a888b66a6aa38e424776577b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:17 +0000
Subject: [PATCH 044/114] fix: a random tree asked to consider more attributes
 than are left never finished

---
 trees/random.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trees/random.go b/trees/random.go
index c5b44ed..6760433 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -24,7 +24,7 @@ func (r *RandomTreeRuleGenerator) GenerateSplitRule(f base.FixedDataGrid) *Decis
 
 	attrCounter := 0
 	for {
-		if len(consideredAttributes) >= r.Attributes {
+		if len(consideredAttributes) >= r.Attributes || len(consideredAttributes) >= maximumAttribute {
 			break
 		}
 		selectedAttrIndex := rand.Intn(maximumAttribute)
-- 
2.43.0


From 616f1c767b2e1b7b316d5e507a8fc0b1c9c03e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 045/114] fix: ID3 never split on the last remaining attribute

A leaf was made as soon as one attribute was left, so a data set with a
single attribute was answered with the majority class.
---
 trees/id3.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index 1f5fb2c..d63f6ca 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -222,8 +222,7 @@ func InferID3Tree(from base.FixedDataGrid, with RuleGenerator) *DecisionTreeNode
 
 	// If there are no more Attributes left to split on,
 	// return a DecisionTreeLeaf with the majority class
-	cols, _ := from.Size()
-	if cols == 2 {
+	if len(base.NonClassAttributes(from)) == 0 {
 		ret := &DecisionTreeNode{
 			LeafNode,
 			nil,
-- 
2.43.0


From 1a7e06c635a6e3dcde1a40ef347d805f847e062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 046/114] fix: pruning ignored thresholds and collapsed the
 tree if there were no rows to test on

The test rows of a numeric split were divided by the attribute's exact
values, so its children were not pruned, or by the wrong rows.
---
 trees/id3.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/trees/id3.go b/trees/id3.go
index d63f6ca..fa1440e 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -321,8 +321,18 @@ func (d *DecisionTreeNode) Prune(using base.FixedDataGrid) {
 		return
 	}
 
+	// There's nothing to go by
+	if _, rows := using.Size(); rows == 0 {
+		return
+	}
+
 	// Recursively prune children of this node
-	sub := base.DecomposeOnAttributeValues(using, d.SplitRule.SplitAttr)
+	var sub map[string]base.FixedDataGrid
+	if _, ok := d.SplitRule.SplitAttr.(*base.FloatAttribute); ok {
+		sub = base.DecomposeOnNumericAttributeThreshold(using, d.SplitRule.SplitAttr, d.SplitRule.SplitVal)
+	} else {
+		sub = base.DecomposeOnAttributeValues(using, d.SplitRule.SplitAttr)
+	}
 	for k := range d.Children {
 		if sub[k] == nil {
 			continue
-- 
2.43.0


From ec78444495764e0769547ac319e90d5e92a42ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 047/114] fix: predicting with a decision tree panicked if an
 attribute was missing

---
 trees/id3.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index fa1440e..555d42e 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -371,7 +371,7 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	}
 	predAttrs := base.AttributeDifferenceReferences(what.AllAttributes(), predictions.AllClassAttributes())
 	predAttrSpecs := base.ResolveAttributes(what, predAttrs)
-	what.MapOverRows(predAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
+	err = what.MapOverRows(predAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		cur := d
 		for {
 			if cur.Children == nil {
@@ -382,9 +382,7 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 				at := cur.SplitRule.SplitAttr
 				ats, err := what.GetAttribute(at)
 				if err != nil {
-					//predictions.Set(classAttrSpec, rowNo, classAttr.GetSysValFromString(cur.Class))
-					//break
-					panic(err)
+					return false, err
 				}
 
 				var classVar string
@@ -422,6 +420,9 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		}
 		return true, nil
 	})
+	if err != nil {
+		return nil, err
+	}
 	return predictions, nil
 }
 
@@ -454,7 +455,7 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 		panic("PredictProba supports only 1 row predictions")
 	}
 	var results ClassesProba
-	what.MapOverRows(predAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
+	err := what.MapOverRows(predAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		cur := d
 		for {
 			if cur.Children == nil {
@@ -473,9 +474,7 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 				at := cur.SplitRule.SplitAttr
 				ats, err := what.GetAttribute(at)
 				if err != nil {
-					//predictions.Set(classAttrSpec, rowNo, classAttr.GetSysValFromString(cur.Class))
-					//break
-					panic(err)
+					return false, err
 				}
 
 				var classVar string
@@ -513,6 +512,9 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 		}
 		return true, nil
 	})
+	if err != nil {
+		return nil, err
+	}
 	return results, nil
 }
 
-- 
2.43.0


From 2c7fdff1c6a6963a07ed66a4da03235dc7a4291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 048/114] fix: numeric splits after repeated values were not
 considered

and thresholds between adjacent or very large numbers were lost to rounding.
---
 trees/entropy.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/trees/entropy.go b/trees/entropy.go
index faa6613..35b0cb5 100644
--- a/trees/entropy.go
+++ b/trees/entropy.go
@@ -122,7 +122,6 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 
 	minSplitEntropy := math.Inf(1)
 	minSplitVal := math.Inf(1)
-	prevVal := math.NaN()
 	prevInd := 0
 
 	splitDist := [2][]int{make([]int, numClasses), make([]int, numClasses)}
@@ -132,22 +131,21 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 	}
 
 	// Consider each possible function
-	for i := 0; i < len(refs)-1; {
-		val := refs[i].val + refs[i+1].val
-		val /= 2
-		if val == prevVal {
-			i++
+	for i := 0; i < len(refs)-1; i++ {
+		if refs[i].val == refs[i+1].val {
 			continue
 		}
+		val := refs[i].val/2 + refs[i+1].val/2
+		if !(val < refs[i+1].val) {
+			// (there's no number between the two)
+			val = refs[i].val
+		}
 		// refs is sorted, so we only need to update values that are
-		// bigger than prevVal, but are lower than val
-		for j := prevInd; j < len(refs) && refs[j].val < val; j++ {
-			splitDist[0][refs[j].class]++
-			splitDist[1][refs[j].class]--
-			i++
-			prevInd++
+		// bigger than the last threshold, but no bigger than this one
+		for ; prevInd <= i; prevInd++ {
+			splitDist[0][refs[prevInd].class]++
+			splitDist[1][refs[prevInd].class]--
 		}
-		prevVal = val
 		splitEntropy := getSplitEntropyFast(splitDist)
 		if splitEntropy < minSplitEntropy {
 			minSplitEntropy = splitEntropy
-- 
2.43.0


From 3217e9bcec35fbf61b293089863566cec3813e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 049/114] fix: the information gain ratio was not one

It divided the gain by the entropy left after the split instead of by the
information in the split itself, which ranks attributes as the plain gain
does.
---
 trees/gr.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/trees/gr.go b/trees/gr.go
index 46577f5..db28510 100644
--- a/trees/gr.go
+++ b/trees/gr.go
@@ -56,14 +56,24 @@ func (r *InformationGainRatioRuleGenerator) GetSplitRuleFromSelection(considered
 		var informationGain float64
 		var localEntropy float64
 		var splitVal float64
+		var proposedClassDist map[string]map[string]int
 		if fAttr, ok := s.(*base.FloatAttribute); ok {
 			localEntropy, splitVal = getNumericAttributeEntropy(f, fAttr)
+			if math.IsInf(localEntropy, 1) {
+				// (all the values are the same)
+				continue
+			}
+			proposedClassDist = base.GetClassDistributionAfterThreshold(f, fAttr, splitVal)
 		} else {
-			proposedClassDist := base.GetClassDistributionAfterSplit(f, s)
+			proposedClassDist = base.GetClassDistributionAfterSplit(f, s)
 			localEntropy = getSplitEntropy(proposedClassDist)
 		}
 		informationGain = baseEntropy - localEntropy
-		informationGainRatio := informationGain / localEntropy
+		// An Attribute with a single value doesn't gain anything
+		informationGainRatio := 0.0
+		if splitInfo := getSplitInformation(proposedClassDist); splitInfo > 0 {
+			informationGainRatio = informationGain / splitInfo
+		}
 		if informationGainRatio > maxRatio {
 			maxRatio = informationGainRatio
 			selectedAttribute = s
@@ -74,3 +84,15 @@ func (r *InformationGainRatioRuleGenerator) GetSplitRuleFromSelection(considered
 	// Pick the one which maximises IG
 	return &DecisionTreeRule{selectedAttribute, selectedVal}
 }
+
+// getSplitInformation determines the entropy of the
+// sizes of the parts produced by a split
+func getSplitInformation(s map[string]map[string]int) float64 {
+	sizes := make(map[string]int)
+	for a := range s {
+		for c := range s[a] {
+			sizes[a] += s[a][c]
+		}
+	}
+	return getBaseEntropy(sizes)
+}
-- 
2.43.0


From bba2965f420b0e4de03aa36f8d520aa191b25f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 050/114] fix: fitting a decision tree to no rows panicked
 later on, and Gini split on constant attributes

---
 trees/gini.go   | 4 ++++
 trees/id3.go    | 6 ++++++
 trees/random.go | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/trees/gini.go b/trees/gini.go
index 9c3e3bb..61aed4c 100644
--- a/trees/gini.go
+++ b/trees/gini.go
@@ -49,6 +49,10 @@ func (g *GiniCoefficientRuleGenerator) GetSplitRuleFromSelection(consideredAttri
 		var splitVal float64
 		if fAttr, ok := s.(*base.FloatAttribute); ok {
 			_, splitVal = getNumericAttributeEntropy(f, fAttr)
+			if math.IsInf(splitVal, 1) {
+				// (all the values are the same)
+				continue
+			}
 			proposedDist = base.GetClassDistributionAfterThreshold(f, fAttr, splitVal)
 		} else {
 			proposedDist = base.GetClassDistributionAfterSplit(f, s)
diff --git a/trees/id3.go b/trees/id3.go
index 555d42e..d582b77 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -557,8 +557,14 @@ func NewID3DecisionTreeFromRule(prune float64, rule RuleGenerator) *ID3DecisionT
 
 // Fit builds the ID3 decision tree
 func (t *ID3DecisionTree) Fit(on base.FixedDataGrid) error {
+	if _, rows := on.Size(); rows == 0 {
+		return fmt.Errorf("no training data")
+	}
 	if t.PruneSplit > 0.001 {
 		trainData, testData := base.InstancesTrainTestSplit(on, t.PruneSplit)
+		if _, rows := trainData.Size(); rows == 0 {
+			return fmt.Errorf("no training data is left if %f is used for pruning", t.PruneSplit)
+		}
 		t.Root = InferID3Tree(trainData, t.Rule)
 		t.Root.Prune(testData)
 	} else {
diff --git a/trees/random.go b/trees/random.go
index 6760433..f430908 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -69,6 +69,9 @@ func NewRandomTree(attrs int) *RandomTree {
 
 // Fit builds a RandomTree suitable for prediction
 func (rt *RandomTree) Fit(from base.FixedDataGrid) error {
+	if _, rows := from.Size(); rows == 0 {
+		return fmt.Errorf("no training data")
+	}
 	rt.Root = InferID3Tree(from, rt.Rule)
 	return nil
 }
-- 
2.43.0


From cbe09e36dfde7f9c111592ae515c7552a4111a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 051/114] fix: trees: ID3 Fit with pruning shuffled the
 caller's training data in place

---
 trees/id3.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trees/id3.go b/trees/id3.go
index d582b77..c28d1e7 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -561,7 +561,8 @@ func (t *ID3DecisionTree) Fit(on base.FixedDataGrid) error {
 		return fmt.Errorf("no training data")
 	}
 	if t.PruneSplit > 0.001 {
-		trainData, testData := base.InstancesTrainTestSplit(on, t.PruneSplit)
+		// Split a view, since splitting shuffles DenseInstances in place
+		trainData, testData := base.InstancesTrainTestSplit(base.LazyShuffle(on), t.PruneSplit)
 		if _, rows := trainData.Size(); rows == 0 {
 			return fmt.Errorf("no training data is left if %f is used for pruning", t.PruneSplit)
 		}
-- 
2.43.0


From 7c26c49f4e3352a4615165ceb5419e7658fb41fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 052/114] fix: trees: CART trees predicted 0 when the root
 could not be split, missed or panicked on thresholds between extreme values,
 and panicked on unusable input

---
 trees/cart_classifier.go | 17 +++++++++++------
 trees/cart_regressor.go  | 19 ++++++++++++-------
 trees/cart_utils.go      | 10 ++++++++++
 3 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index daf6a29..fb095c6 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -178,6 +178,9 @@ func (tree *CARTDecisionTreeClassifier) Fit(X base.FixedDataGrid) error {
 	if err != nil {
 		return err
 	}
+	if len(data) == 0 || len(data[0]) == 0 {
+		return errors.New("Need at least one row and one numeric Attribute to build a tree")
+	}
 
 	emptyNode, err = classifierBestSplit(*tree, data, y, tree.labels, emptyNode, tree.criterion, tree.maxDepth, 0)
 
@@ -192,13 +195,8 @@ func (tree *CARTDecisionTreeClassifier) Fit(X base.FixedDataGrid) error {
 // Stop If depth reaches maxDepth or nodes are pure
 func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []int64, labels []int64, upperNode classifierNode, criterion string, maxDepth int64, depth int64) (classifierNode, error) {
 
-	// Ensure that we have not reached maxDepth. maxDepth =-1 means split until nodes are pure
 	depth++
 
-	if maxDepth != -1 && depth > maxDepth {
-		return upperNode, nil
-	}
-
 	numFeatures := len(data[0])
 	var bestGini, origGini float64
 	var err error
@@ -207,6 +205,13 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 	if err != nil {
 		return upperNode, err
 	}
+	// (both sides have the same label if this node can't be split)
+	upperNode.RightLabel = upperNode.LeftLabel
+
+	// Ensure that we have not reached maxDepth. maxDepth =-1 means split until nodes are pure
+	if maxDepth != -1 && depth > maxDepth {
+		return upperNode, nil
+	}
 
 	bestGini = origGini
 
@@ -236,7 +241,7 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 		// Iterate over all possible thresholds for that feature
 		for j := 0; j < len(unique)-1; j++ {
 
-			threshold := (unique[j] + unique[j+1]) / 2
+			threshold := splitThreshold(unique[j], unique[j+1])
 			// Ensure that same split has not been made before
 			if validate(tree.triedSplits, int64(i), threshold) {
 				// We need to split data from fresh when considering new feature for the first time.
diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 69ae9d6..ec785a9 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -90,7 +90,7 @@ func calculateRegressionLoss(y []float64, criterion string) (float64, float64, e
 		loss, avg := computeMseImpurityAndAverage(y)
 		return loss, avg, nil
 	} else {
-		panic("Invalid impurity function, choose from MAE or MSE")
+		return 0, 0, errors.New("Invalid impurity function, choose from MAE or MSE")
 	}
 }
 
@@ -166,6 +166,9 @@ func (tree *CARTDecisionTreeRegressor) Fit(X base.FixedDataGrid) error {
 	if err != nil {
 		return err
 	}
+	if len(data) == 0 || len(data[0]) == 0 {
+		return errors.New("Need at least one row and one numeric Attribute to build a tree")
+	}
 
 	emptyNode, err = regressorBestSplit(*tree, data, y, emptyNode, tree.criterion, tree.maxDepth, 0)
 	if err != nil {
@@ -179,13 +182,8 @@ func (tree *CARTDecisionTreeRegressor) Fit(X base.FixedDataGrid) error {
 // Recursive function - stops if maxDepth is reached or nodes are pure
 func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []float64, upperNode regressorNode, criterion string, maxDepth int64, depth int64) (regressorNode, error) {
 
-	// Ensure that we have not reached maxDepth. maxDepth =-1 means split until nodes are pure
 	depth++
 
-	if depth > maxDepth && maxDepth != -1 {
-		return upperNode, nil
-	}
-
 	numFeatures := len(data[0])
 	var bestLoss, origLoss float64
 	var err error
@@ -193,6 +191,13 @@ func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []fl
 	if err != nil {
 		return upperNode, err
 	}
+	// (both sides have the same prediction if this node can't be split)
+	upperNode.RightPred = upperNode.LeftPred
+
+	// Ensure that we have not reached maxDepth. maxDepth =-1 means split until nodes are pure
+	if depth > maxDepth && maxDepth != -1 {
+		return upperNode, nil
+	}
 
 	bestLoss = origLoss
 
@@ -220,7 +225,7 @@ func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []fl
 		var leftY, rightY []float64
 
 		for j := 0; j < len(unique)-1; j++ {
-			threshold := (unique[j] + unique[j+1]) / 2
+			threshold := splitThreshold(unique[j], unique[j+1])
 			if validate(tree.triedSplits, int64(i), threshold) {
 				if firstTime {
 					left, right, leftY, rightY = regressorCreateSplit(sortData, int64(i), sortY, threshold)
diff --git a/trees/cart_utils.go b/trees/cart_utils.go
index 251dee9..0cf25d6 100644
--- a/trees/cart_utils.go
+++ b/trees/cart_utils.go
@@ -26,6 +26,16 @@ func getFeature(data [][]float64, feature int64) []float64 {
 	return featureVals
 }
 
+// Find the threshold which splits values up to low from those starting at high.
+func splitThreshold(low, high float64) float64 {
+	threshold := low/2 + high/2
+	if !(threshold > low && threshold <= high) {
+		// There's nothing in between
+		return high
+	}
+	return threshold
+}
+
 // Make sure that split being considered has not been done before.
 // Else we will unnecessarily try splits that won't improve Impurity.
 func validate(triedSplits [][]float64, feature int64, threshold float64) bool {
-- 
2.43.0


From 13b782bef1319aef170884f19caa5130fe7d39f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 053/114] fix: trees: isolation forest scored rows of
 unsplittable data as outliers and could not separate values closer than 1e-6

---
 trees/isolation.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/trees/isolation.go b/trees/isolation.go
index 3f83c90..40df140 100644
--- a/trees/isolation.go
+++ b/trees/isolation.go
@@ -40,11 +40,11 @@ func minMax(feature int64, data [][]float64) (float64, float64) {
 
 // Select a random threshold between the minimum and maximum of the feature.
 func selectValue(min, max float64) float64 {
-	val := min + (rand.Float64() * (max - min))
-	if val == min {
-		val += 0.000001
-	} else if val == max {
-		val -= 0.000001
+	frac := rand.Float64()
+	val := min*(1-frac) + max*frac
+	if !(val >= min && val < max) {
+		// Values up to the threshold go left, and some must go right
+		val = min
 	}
 	return val
 }
@@ -81,6 +81,8 @@ func buildTree(data [][]float64, upperNode regressorNode, depth int, maxDepth in
 	upperNode.isNodeNeeded = true
 	if (depth > maxDepth) || (len(data) <= 1) || !checkData(data) {
 		upperNode.isNodeNeeded = false
+		upperNode.LeftPred = float64(len(data))
+		upperNode.RightPred = float64(len(data))
 		return upperNode
 	}
 
@@ -154,6 +156,13 @@ func (iForest *IsolationForest) Fit(X base.FixedDataGrid) {
 
 // Calculate the path length to reach a leaf node for a datapoint. Outliers have smaller path lengths than standard data points.
 func pathLength(tree regressorNode, instance []float64, path float64) float64 {
+	if !tree.isNodeNeeded {
+		// The root could not be split
+		if tree.LeftPred <= 1 {
+			return path
+		}
+		return path + cFactor(int(tree.LeftPred))
+	}
 	path++
 
 	if instance[tree.Feature] <= tree.Threshold {
-- 
2.43.0


From 4f2c09dca1c826badb795baa7f5a5fc6e5cc257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 054/114] fix: naive: fitting panicked when no row of some
 class had any feature

---
 naive/bernoulli_nb.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 767a90a..0f5f38c 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -251,8 +251,11 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 	for c, _ := range nb.classInstances {
 		nb.condProb[c] = make([]float64, nb.features)
 		for feat := 0; feat < nb.features; feat++ {
-			classTerms, _ := docsContainingTerm[c]
-			numDocs := classTerms[feat]
+			// No entry means that no document of this class has any term
+			numDocs := 0
+			if classTerms, ok := docsContainingTerm[c]; ok {
+				numDocs = classTerms[feat]
+			}
 			docsInClass, _ := nb.classInstances[c]
 
 			classCondProb, _ := nb.condProb[c]
-- 
2.43.0


From 956575f2ebd3c3b41e9962aee924238005ff060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 055/114] fix: naive: equally likely classes were chosen at
 random, and a fit to no rows predicted an empty class

---
 naive/bernoulli_nb.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 0f5f38c..478385e 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/sjwhitworth/golearn/base"
 	"math"
+	"sort"
 )
 
 // A Bernoulli Naive Bayes Classifier. Naive Bayes classifiers assumes
@@ -204,6 +205,10 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 		return fmt.Errorf("Only one class Attribute can be used")
 	}
 
+	if _, rows := X.Size(); rows == 0 {
+		return fmt.Errorf("No training instances")
+	}
+
 	// Number of features and instances in this training set
 	_, nb.trainingInstances = X.Size()
 	nb.attrs = featAttrs
@@ -290,7 +295,16 @@ func (nb *BernoulliNBClassifier) PredictOne(vector [][]byte) string {
 	bestScore := -math.MaxFloat64
 	bestClass := ""
 
-	for class, classCount := range nb.classInstances {
+	// Consider the classes in a fixed order, so that ties are always
+	// resolved in the same way
+	classes := make([]string, 0, len(nb.classInstances))
+	for class := range nb.classInstances {
+		classes = append(classes, class)
+	}
+	sort.Strings(classes)
+
+	for _, class := range classes {
+		classCount := nb.classInstances[class]
 		// Init classScore with log(prior)
 		classScore := math.Log((float64(classCount)) / float64(nb.trainingInstances))
 		for f := 0; f < nb.features; f++ {
-- 
2.43.0


From f4572ef74e813e31b1bef41cf08aef0b90c800bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:31 +0000
Subject: [PATCH 056/114] fix: linear_models: linear regression was wrong or
 NaN with constant or collinear attributes

---
 linear_models/linear_regression.go | 52 +++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/linear_models/linear_regression.go b/linear_models/linear_regression.go
index eb52c4e..3747c5a 100644
--- a/linear_models/linear_regression.go
+++ b/linear_models/linear_regression.go
@@ -6,6 +6,8 @@ import (
 	"github.com/sjwhitworth/golearn/base"
 
 	"fmt"
+	"math"
+
 	_ "github.com/gonum/blas"
 	"gonum.org/v1/gonum/mat"
 )
@@ -15,6 +17,10 @@ var (
 	NoTrainingDataError = errors.New("you need to Fit() before you can Predict()")
 )
 
+// collinearityTolerance is how far a column of the design matrix has to be
+// from the span of the preceding ones, relative to its length.
+const collinearityTolerance = 1e-12
+
 type LinearRegression struct {
 	fitted                 bool
 	disturbance            float64
@@ -79,24 +85,48 @@ func (lr *LinearRegression) Fit(inst base.FixedDataGrid) error {
 		return true, nil
 	})
 
-	n := cols
-	qr := new(mat.QR)
-	qr.Factorize(explVariables)
+	// Columns which are linear combinations of the ones before them (such as
+	// constant or duplicate Attributes) have no coefficient of their own
+	used := make([]int, cols)
+	for i := range used {
+		used[i] = i
+	}
 	var q, reg mat.Dense
-	qr.QTo(&q)
-	qr.RTo(&reg)
+	for {
+		design := mat.NewDense(rows, len(used), nil)
+		for i, col := range used {
+			design.SetCol(i, mat.Col(nil, col, explVariables))
+		}
+		qr := new(mat.QR)
+		qr.Factorize(design)
+		q.Reset()
+		reg.Reset()
+		qr.QTo(&q)
+		qr.RTo(&reg)
+		dependent := -1
+		for i := range used {
+			if math.Abs(reg.At(i, i)) <= collinearityTolerance*mat.Norm(design.ColView(i), 2) {
+				dependent = i
+				break
+			}
+		}
+		if dependent < 0 {
+			break
+		}
+		used = append(used[:dependent], used[dependent+1:]...)
+	}
 
 	var transposed, qty mat.Dense
 	transposed.CloneFrom(q.T())
 	qty.Mul(&transposed, observed)
 
-	regressionCoefficients := make([]float64, n)
-	for i := n - 1; i >= 0; i-- {
-		regressionCoefficients[i] = qty.At(i, 0)
-		for j := i + 1; j < n; j++ {
-			regressionCoefficients[i] -= regressionCoefficients[j] * reg.At(i, j)
+	regressionCoefficients := make([]float64, cols)
+	for i := len(used) - 1; i >= 0; i-- {
+		coefficient := qty.At(i, 0)
+		for j := i + 1; j < len(used); j++ {
+			coefficient -= regressionCoefficients[used[j]] * reg.At(i, j)
 		}
-		regressionCoefficients[i] /= reg.At(i, i)
+		regressionCoefficients[used[i]] = coefficient / reg.At(i, i)
 	}
 
 	lr.disturbance = regressionCoefficients[0]
-- 
2.43.0


From bfc478e7843aa76e20c256bbb2fdcaadc33dc342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 057/114] fix: linear_models: linear regression accepted
 classes which are not numeric and panicked on missing attributes

---
 linear_models/linear_regression.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/linear_models/linear_regression.go b/linear_models/linear_regression.go
index 3747c5a..e76dd4a 100644
--- a/linear_models/linear_regression.go
+++ b/linear_models/linear_regression.go
@@ -43,6 +43,9 @@ func (lr *LinearRegression) Fit(inst base.FixedDataGrid) error {
 	if len(classAttrs) != 1 {
 		return fmt.Errorf("Only 1 class variable is permitted")
 	}
+	if _, ok := classAttrs[0].(*base.FloatAttribute); !ok {
+		return fmt.Errorf("%v: the class variable should be a FloatAttribute", classAttrs[0])
+	}
 	classAttrSpecs := base.ResolveAttributes(inst, classAttrs)
 
 	// Retrieve relevant Attributes
@@ -143,7 +146,14 @@ func (lr *LinearRegression) Predict(X base.FixedDataGrid) (base.FixedDataGrid, e
 	}
 
 	ret := base.GeneratePredictionVector(X)
-	attrSpecs := base.ResolveAttributes(X, lr.attrs)
+	attrSpecs := make([]base.AttributeSpec, len(lr.attrs))
+	for i, a := range lr.attrs {
+		spec, err := X.GetAttribute(a)
+		if err != nil {
+			return nil, err
+		}
+		attrSpecs[i] = spec
+	}
 	clsSpec, err := ret.GetAttribute(lr.cls)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 87d8d866446be0ed91f81d1f52fe7b5e2188a5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:20 +0000
Subject: [PATCH 058/114] fix: linear_models: predictions ignored negative
 attribute values

---
 linear_models/liblinear.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_models/liblinear.go b/linear_models/liblinear.go
index 47e7456..d13ff38 100644
--- a/linear_models/liblinear.go
+++ b/linear_models/liblinear.go
@@ -90,7 +90,7 @@ func Predict(model *Model, x []float64) float64 {
 func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 	n_ele := 0
 	for i := 0; i < len(x); i++ {
-		if x[i] > 0 {
+		if x[i] != 0 {
 			n_ele++
 		}
 	}
@@ -99,7 +99,7 @@ func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 	c_x := make([]C.struct_feature_node, n_ele)
 	j := 0
 	for i := 0; i < len(x); i++ {
-		if x[i] > 0 {
+		if x[i] != 0 {
 			c_x[j].index = C.int(i + 1)
 			c_x[j].value = C.double(x[i])
 			j++
-- 
2.43.0


From c928037c5574b0062e48f1a3ed5929a88a2386bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 059/114] fix: linear_models: training passed Go pointers to Go
 pointers to C, and problems with a bias or ragged rows wrote outside their
 arrays

---
 linear_models/liblinear.go | 142 ++++++++++++++++++++++++++-----------
 linear_models/linearsvc.go |  15 ++--
 2 files changed, 104 insertions(+), 53 deletions(-)

diff --git a/linear_models/liblinear.go b/linear_models/liblinear.go
index d13ff38..0679a13 100644
--- a/linear_models/liblinear.go
+++ b/linear_models/liblinear.go
@@ -1,12 +1,16 @@
 package linear_models
 
 /*
+#include <stdlib.h>
 #include "linear.h"
 */
 import "C"
 import "fmt"
+import "runtime"
 import "unsafe"
 
+// Problem holds training data. Its arrays are allocated by C, because memory
+// passed to C mustn't contain Go pointers.
 type Problem struct {
 	c_prob C.struct_problem
 }
@@ -42,31 +46,85 @@ func NewParameter(solver_type int, C float64, eps float64) *Parameter {
 	return &param
 }
 
+// setWeights changes how much each class weighs in training. The caller has to
+// call clearWeights after training.
+func (p *Parameter) setWeights(labels []int, weights []float64) {
+	p.clearWeights()
+	n := len(weights)
+	p.c_param.nr_weight = C.int(n)
+	p.c_param.weight_label = (*C.int)(c_calloc(n, unsafe.Sizeof(C.int(0))))
+	p.c_param.weight = (*C.double)(c_calloc(n, unsafe.Sizeof(C.double(0))))
+	c_labels := (*[1 << 28]C.int)(unsafe.Pointer(p.c_param.weight_label))[:n:n]
+	c_weights := (*[1 << 28]C.double)(unsafe.Pointer(p.c_param.weight))[:n:n]
+	for i := range weights {
+		c_labels[i] = C.int(labels[i])
+		c_weights[i] = C.double(weights[i])
+	}
+}
+
+func (p *Parameter) clearWeights() {
+	C.free(unsafe.Pointer(p.c_param.weight_label))
+	C.free(unsafe.Pointer(p.c_param.weight))
+	p.c_param.nr_weight = 0
+	p.c_param.weight_label = nil
+	p.c_param.weight = nil
+}
+
+// c_calloc allocates a zeroed array, which isn't managed by Go.
+func c_calloc(n int, size uintptr) unsafe.Pointer {
+	if n == 0 {
+		n = 1
+	}
+	return C.calloc(C.size_t(n), C.size_t(size))
+}
+
+// NewProblem converts rows of features and their labels. If bias is positive,
+// each row has an additional feature of that value.
 func NewProblem(X [][]float64, y []float64, bias float64) *Problem {
-	prob := Problem{}
-	prob.c_prob.l = C.int(len(X))
-	prob.c_prob.n = C.int(len(X[0]) + 1)
+	rows, cols := len(X), len(X[0])
+	if len(y) < rows {
+		rows = len(y)
+	}
+	for i := range X {
+		if len(X[i]) > cols {
+			cols = len(X[i])
+		}
+	}
 
-	prob.c_prob.x = convert_features(X, bias)
-	c_y := make([]C.double, len(y))
-	for i := 0; i < len(y); i++ {
+	prob := &Problem{}
+	prob.c_prob.l = C.int(rows)
+	prob.c_prob.n = C.int(cols + 1)
+	prob.c_prob.x = convert_features(X[:rows], cols, bias)
+	prob.c_prob.y = (*C.double)(c_calloc(rows, unsafe.Sizeof(C.double(0))))
+	c_y := (*[1 << 28]C.double)(unsafe.Pointer(prob.c_prob.y))[:rows:rows]
+	for i := range c_y {
 		c_y[i] = C.double(y[i])
 	}
-	prob.c_prob.y = &c_y[0]
 	prob.c_prob.bias = C.double(-1)
-
-	return &prob
+	if bias > 0 {
+		prob.c_prob.bias = C.double(bias)
+	}
+	runtime.SetFinalizer(prob, func(prob *Problem) {
+		C.free(unsafe.Pointer(*prob.c_prob.x))
+		C.free(unsafe.Pointer(prob.c_prob.x))
+		C.free(unsafe.Pointer(prob.c_prob.y))
+	})
+	return prob
 }
 
 func Train(prob *Problem, param *Parameter) *Model {
 	libLinearHookPrintFunc() // Sets up logging
 	tmpCProb := &prob.c_prob
 	tmpCParam := &param.c_param
-	return &Model{unsafe.Pointer(C.train(tmpCProb, tmpCParam))}
+	ret := &Model{unsafe.Pointer(C.train(tmpCProb, tmpCParam))}
+	runtime.KeepAlive(prob)
+	return ret
 }
 
 func Export(model *Model, filePath string) error {
-	status := C.save_model(C.CString(filePath), (*C.struct_model)(model.c_model))
+	c_path := C.CString(filePath)
+	defer C.free(unsafe.Pointer(c_path))
+	status := C.save_model(c_path, (*C.struct_model)(model.c_model))
 	if status != 0 {
 		return fmt.Errorf("Problem occured during export to %s (status was %d)", filePath, status)
 	}
@@ -74,7 +132,9 @@ func Export(model *Model, filePath string) error {
 }
 
 func Load(model *Model, filePath string) error {
-	model.c_model = unsafe.Pointer(C.load_model(C.CString(filePath)))
+	c_path := C.CString(filePath)
+	defer C.free(unsafe.Pointer(c_path))
+	model.c_model = unsafe.Pointer(C.load_model(c_path))
 	if model.c_model == nil {
 		return fmt.Errorf("Something went wrong")
 	}
@@ -82,38 +142,35 @@ func Load(model *Model, filePath string) error {
 }
 
 func Predict(model *Model, x []float64) float64 {
-	c_x := convert_vector(x, 0)
-	c_y := C.predict((*C.struct_model)(model.c_model), c_x)
+	c_model := (*C.struct_model)(model.c_model)
+	c_x := convert_vector(x, int(c_model.nr_feature), float64(c_model.bias))
+	c_y := C.predict(c_model, c_x)
 	y := float64(c_y)
 	return y
 }
-func convert_vector(x []float64, bias float64) *C.struct_feature_node {
-	n_ele := 0
-	for i := 0; i < len(x); i++ {
-		if x[i] != 0 {
-			n_ele++
-		}
-	}
-	n_ele += 2
 
-	c_x := make([]C.struct_feature_node, n_ele)
-	j := 0
+// convert_vector converts a row, adding the bias after the given number of
+// features.
+func convert_vector(x []float64, features int, bias float64) *C.struct_feature_node {
+	c_x := make([]C.struct_feature_node, 0, len(x)+2)
 	for i := 0; i < len(x); i++ {
+		if bias > 0 && i >= features {
+			break
+		}
 		if x[i] != 0 {
-			c_x[j].index = C.int(i + 1)
-			c_x[j].value = C.double(x[i])
-			j++
+			c_x = append(c_x, C.struct_feature_node{index: C.int(i + 1), value: C.double(x[i])})
 		}
 	}
 	if bias > 0 {
-		c_x[j].index = C.int(0)
-		c_x[j].value = C.double(0)
-		j++
+		c_x = append(c_x, C.struct_feature_node{index: C.int(features + 1), value: C.double(bias)})
 	}
-	c_x[j].index = C.int(-1)
+	c_x = append(c_x, C.struct_feature_node{index: -1})
 	return &c_x[0]
 }
-func convert_features(X [][]float64, bias float64) **C.struct_feature_node {
+
+// convert_features converts rows, adding the bias after the given number of
+// features. The array returned and its first element have to be freed.
+func convert_features(X [][]float64, features int, bias float64) **C.struct_feature_node {
 	n_samples := len(X)
 	n_elements := 0
 
@@ -122,16 +179,16 @@ func convert_features(X [][]float64, bias float64) **C.struct_feature_node {
 			if X[i][j] != 0.0 {
 				n_elements++
 			}
-			n_elements++ //for bias
 		}
+		n_elements += 2 // for the bias and the end
 	}
 
-	x_space := make([]C.struct_feature_node, n_elements+n_samples)
+	c_space := (*C.struct_feature_node)(c_calloc(n_elements, unsafe.Sizeof(C.struct_feature_node{})))
+	x_space := (*[1 << 28]C.struct_feature_node)(unsafe.Pointer(c_space))[:n_elements:n_elements]
+	c_x := (**C.struct_feature_node)(c_calloc(n_samples, unsafe.Sizeof(c_space)))
+	x := (*[1 << 28]*C.struct_feature_node)(unsafe.Pointer(c_x))[:n_samples:n_samples]
 
 	cursor := 0
-	x := make([]*C.struct_feature_node, n_samples)
-	var c_x **C.struct_feature_node
-
 	for i := 0; i < n_samples; i++ {
 		x[i] = &x_space[cursor]
 
@@ -141,15 +198,14 @@ func convert_features(X [][]float64, bias float64) **C.struct_feature_node {
 				x_space[cursor].value = C.double(X[i][j])
 				cursor++
 			}
-			if bias > 0 {
-				x_space[cursor].index = C.int(0)
-				x_space[cursor].value = C.double(bias)
-				cursor++
-			}
+		}
+		if bias > 0 {
+			x_space[cursor].index = C.int(features + 1)
+			x_space[cursor].value = C.double(bias)
+			cursor++
 		}
 		x_space[cursor].index = C.int(-1)
 		cursor++
 	}
-	c_x = &x[0]
 	return c_x
 }
diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 6166198..db87f4b 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -1,14 +1,11 @@
 package linear_models
 
-import "C"
-
 import (
 	"encoding/json"
 	"fmt"
 	"github.com/sjwhitworth/golearn/base"
 	"io/ioutil"
 	"os"
-	"unsafe"
 )
 
 // LinearSVCParams represnts all available LinearSVC options.
@@ -150,7 +147,7 @@ func NewLinearSVCFromParams(params *LinearSVCParams) (*LinearSVC, error) {
 func (lr *LinearSVC) Fit(X base.FixedDataGrid) error {
 
 	var weightVec []float64
-	var weightClasses []C.int
+	var weightClasses []int
 
 	// Creates the class weighting
 	if lr.Param.ClassWeights == nil {
@@ -163,9 +160,9 @@ func (lr *LinearSVC) Fit(X base.FixedDataGrid) error {
 		weightVec = lr.Param.ClassWeights
 	}
 
-	weightClasses = make([]C.int, len(weightVec))
+	weightClasses = make([]int, len(weightVec))
 	for i := range weightVec {
-		weightClasses[i] = C.int(i)
+		weightClasses[i] = i
 	}
 
 	// Convert the problem
@@ -174,11 +171,9 @@ func (lr *LinearSVC) Fit(X base.FixedDataGrid) error {
 
 	// Train
 	prob := NewProblem(problemVec, labelVec, 0)
-	lr.param.c_param.nr_weight = C.int(len(weightVec))
-	lr.param.c_param.weight_label = &(weightClasses[0])
-	lr.param.c_param.weight = (*C.double)(unsafe.Pointer(&weightVec[0]))
+	lr.param.setWeights(weightClasses, weightVec)
+	defer lr.param.clearWeights()
 
-	//	lr.param.weights = (*C.double)unsafe.Pointer(&(weightVec[0]));
 	lr.model = Train(prob, lr.param)
 	return nil
 }
-- 
2.43.0


From 1ed2507b6fbcc1f3d97e66efe6b3b22534ae7e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 060/114] fix: linear_models: predicting before training
 crashed the process, and unusable data panicked

---
 linear_models/linearsvc.go | 13 ++++++++++---
 linear_models/logistic.go  |  9 ++++++---
 linear_models/util.go      | 30 ++++++++++++++++++++++++++++++
 3 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index db87f4b..e4692b9 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -146,6 +146,10 @@ func NewLinearSVCFromParams(params *LinearSVCParams) (*LinearSVC, error) {
 // converts the FixedDataGrid into the right format and trains the model.
 func (lr *LinearSVC) Fit(X base.FixedDataGrid) error {
 
+	if err := checkTrainingData(X); err != nil {
+		return err
+	}
+
 	var weightVec []float64
 	var weightClasses []int
 
@@ -182,10 +186,10 @@ func (lr *LinearSVC) Fit(X base.FixedDataGrid) error {
 func (lr *LinearSVC) Predict(X base.FixedDataGrid) (base.FixedDataGrid, error) {
 
 	// Only support 1 class Attribute
-	classAttrs := X.AllClassAttributes()
-	if len(classAttrs) != 1 {
-		panic(fmt.Sprintf("%d Wrong number of classes", len(classAttrs)))
+	if err := checkPredictionData(lr.model, X); err != nil {
+		return nil, err
 	}
+	classAttrs := X.AllClassAttributes()
 	// Generate return structure
 	ret := base.GeneratePredictionVector(X)
 	classAttrSpecs := base.ResolveAttributes(ret, classAttrs)
@@ -263,6 +267,9 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 		f.Close()
 	}()
 
+	if lr.model == nil {
+		return NoTrainingDataError
+	}
 	err = Export(lr.model, f.Name())
 	if err != nil {
 		return base.DescribeError("Error exporting model", err)
diff --git a/linear_models/logistic.go b/linear_models/logistic.go
index 96c3206..b10df62 100644
--- a/linear_models/logistic.go
+++ b/linear_models/logistic.go
@@ -28,6 +28,9 @@ func NewLogisticRegression(penalty string, C float64, eps float64) (*LogisticReg
 }
 
 func (lr *LogisticRegression) Fit(X base.FixedDataGrid) error {
+	if err := checkTrainingData(X); err != nil {
+		return err
+	}
 	problemVec := convertInstancesToProblemVec(X)
 	labelVec := convertInstancesToLabelVec(X)
 	prob := NewProblem(problemVec, labelVec, 0)
@@ -38,10 +41,10 @@ func (lr *LogisticRegression) Fit(X base.FixedDataGrid) error {
 func (lr *LogisticRegression) Predict(X base.FixedDataGrid) (base.FixedDataGrid, error) {
 
 	// Only support 1 class Attribute
-	classAttrs := X.AllClassAttributes()
-	if len(classAttrs) != 1 {
-		panic(fmt.Sprintf("%d Wrong number of classes", len(classAttrs)))
+	if err := checkPredictionData(lr.model, X); err != nil {
+		return nil, err
 	}
+	classAttrs := X.AllClassAttributes()
 	// Generate return structure
 	ret := base.GeneratePredictionVector(X)
 	classAttrSpecs := base.ResolveAttributes(ret, classAttrs)
diff --git a/linear_models/util.go b/linear_models/util.go
index ac6b2ce..4ff84e5 100644
--- a/linear_models/util.go
+++ b/linear_models/util.go
@@ -5,6 +5,36 @@ import (
 	"github.com/sjwhitworth/golearn/base"
 )
 
+// checkTrainingData checks that a liblinear model can be trained with X.
+func checkTrainingData(X base.FixedDataGrid) error {
+	classAttrs := X.AllClassAttributes()
+	if len(classAttrs) != 1 {
+		return fmt.Errorf("%d ClassAttributes (1 expected)", len(classAttrs))
+	}
+	if _, ok := classAttrs[0].(*base.FloatAttribute); !ok {
+		return fmt.Errorf("%s: ClassAttribute must be a FloatAttribute", classAttrs[0])
+	}
+	if _, rows := X.Size(); rows == 0 {
+		return NotEnoughDataError
+	}
+	return nil
+}
+
+// checkPredictionData checks that a model can issue predictions for X.
+func checkPredictionData(model *Model, X base.FixedDataGrid) error {
+	if model == nil || model.c_model == nil {
+		return NoTrainingDataError
+	}
+	classAttrs := X.AllClassAttributes()
+	if len(classAttrs) != 1 {
+		return fmt.Errorf("%d ClassAttributes (1 expected)", len(classAttrs))
+	}
+	if _, ok := classAttrs[0].(*base.FloatAttribute); !ok {
+		return fmt.Errorf("%s: ClassAttribute must be a FloatAttribute", classAttrs[0])
+	}
+	return nil
+}
+
 func generateClassWeightVectorFromDist(X base.FixedDataGrid) []float64 {
 	classDist := base.GetClassDistributionByBinaryFloatValue(X)
 	ret := make([]float64, len(classDist))
-- 
2.43.0


From 7aef33747671eb15a565c7cbb396a9581186de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:55 +0000
Subject: [PATCH 061/114] fix: linear_models: saving an SVC printed to stdout,
 left temporary files behind and ignored errors; a loaded SVC was retrained
 with other parameters

---
 linear_models/linearsvc.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index e4692b9..37b9738 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -240,11 +240,11 @@ func (lr *LinearSVC) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
-		writer.Close()
-	}()
-	fmt.Printf("writer: %v", writer)
-	return lr.SaveWithPrefix(writer, "")
+	err = lr.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -265,6 +265,7 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	}
 	defer func() {
 		f.Close()
+		os.Remove(f.Name())
 	}()
 
 	if lr.model == nil {
@@ -285,7 +286,7 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	if err != nil {
 		return base.DescribeError("Error writing model parameters", err)
 	}
-	writer.WriteBytesForKey(writer.Prefix(prefix, "MODEL"), bytes)
+	err = writer.WriteBytesForKey(writer.Prefix(prefix, "MODEL"), bytes)
 	if err != nil {
 		return base.DescribeError("Error writing model", err)
 	}
@@ -306,7 +307,8 @@ func (lr *LinearSVC) Load(filePath string) error {
 }
 
 func (lr *LinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix string) error {
-	err := reader.GetJSONForKey(reader.Prefix(prefix, "PARAMETERS"), &lr.Param)
+	params := &LinearSVCParams{}
+	err := reader.GetJSONForKey(reader.Prefix(prefix, "PARAMETERS"), params)
 	if err != nil {
 		return base.DescribeError("Error reading PARAMETERS", err)
 	}
@@ -317,18 +319,26 @@ func (lr *LinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 	}
 
 	f, err := ioutil.TempFile(os.TempDir(), "linear")
+	if err != nil {
+		return err
+	}
 	defer func() {
 		f.Close()
+		os.Remove(f.Name())
 	}()
 
-	f.WriteAt(modelBytes, 0)
-
-	lr.model = &Model{}
+	if _, err = f.WriteAt(modelBytes, 0); err != nil {
+		return base.DescribeError("Error writing model", err)
+	}
 
-	err = Load(lr.model, f.Name())
+	model := &Model{}
+	err = Load(model, f.Name())
 	if err != nil {
 		return base.DescribeError("Unable to reload the model", err)
 	}
+	lr.model = model
+	lr.Param = params
+	lr.param = params.convertToNativeFormat()
 	return nil
 }
 
-- 
2.43.0


From b8a776e47ff3d8a2b6380902d0f7af9345c8440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:49 +0000
Subject: [PATCH 062/114] fix: linear_models: dual SVC training could stop long
 before the optimum (as fixed in later liblinear versions)

---
 linear_models/linear.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/linear_models/linear.cpp b/linear_models/linear.cpp
index e435db7..68b7b6e 100644
--- a/linear_models/linear.cpp
+++ b/linear_models/linear.cpp
@@ -918,7 +918,8 @@ static void solve_l2r_l1l2_svc(
 		if(iter % 10 == 0)
 			info(".");
 
-		if(PGmax_new - PGmin_new <= eps)
+		if(PGmax_new - PGmin_new <= eps &&
+			fabs(PGmax_new) <= eps && fabs(PGmin_new) <= eps)
 		{
 			if(active_size == l)
 				break;
-- 
2.43.0


From f41025e13a6634ecd1d92d95520aba745181fa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 063/114] fix: filtered instances listed their class attributes
 in random order

---
 base/filtered.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/filtered.go b/base/filtered.go
index a5c4a8b..7719671 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -133,7 +133,7 @@ func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
 // by the Filter.
 func (l *LazilyFilteredInstances) AllClassAttributes() []Attribute {
 	ret := make([]Attribute, 0)
-	for a := range l.classAttrs {
+	for _, a := range l.AllAttributes() {
 		if l.classAttrs[a] {
 			ret = append(ret, a)
 		}
-- 
2.43.0


From a3fc83f49461ebabebb6a7c54bb6bebbc5a62318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 064/114] fix: neural: layered networks predicted categorical
 classes from the wrong neurons, panicked on categorical attributes and could
 not predict separately loaded data

---
 neural/layered.go | 50 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index c1daee9..35aba73 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -64,6 +64,20 @@ func (m *MultiLayerNet) convertToFloatInsts(X base.FixedDataGrid) base.FixedData
 	return insts
 }
 
+// neuronForAttribute returns the index of the neuron which was trained
+// with an equal Attribute.
+func (m *MultiLayerNet) neuronForAttribute(a base.Attribute) int {
+	if index, ok := m.attrs[a]; ok {
+		return index
+	}
+	for b, index := range m.attrs {
+		if b.Equals(a) {
+			return index
+		}
+	}
+	panic("Can't resolve the Attribute!")
+}
+
 // Predict uses the underlying network to produce predictions for the
 // class variables of X.
 //
@@ -113,6 +127,18 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 	// Resolve the output Attributespecs
 	outputAs := base.ResolveAttributes(ret, outputAttrs)
 
+	// Find the neurons which belong to them
+	inputIndices := make([]int, len(inputAs))
+	for i, as := range inputAs {
+		inputIndices[i] = m.neuronForAttribute(as.GetAttribute())
+	}
+	outputIndices := make([]int, len(outputAs))
+	if floatMode > 0 {
+		for i, as := range outputAs {
+			outputIndices[i] = m.neuronForAttribute(as.GetAttribute())
+		}
+	}
+
 	// Map over each input row
 	insts.MapOverRows(inputAs, func(row [][]byte, rc int) (bool, error) {
 		// Clear the activation vector
@@ -121,23 +147,18 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 		}
 		// Build the activation vector
 		for i, vb := range row {
-			if cIndex, ok := m.attrs[inputAs[i].GetAttribute()]; !ok {
-				panic("Can't resolve the Attribute!")
-			} else {
-				a.Set(cIndex, 0, base.UnpackBytesToFloat(vb))
-			}
+			a.Set(inputIndices[i], 0, base.UnpackBytesToFloat(vb))
 		}
 		// Robots, activate!
 		m.network.Activate(a, layers)
 
 		// Decide which class to set
 		if floatMode > 0 {
-			for _, as := range outputAs {
-				cIndex := m.attrs[as.GetAttribute()]
-				ret.Set(as, rc, base.PackFloatToBytes(a.At(cIndex, 0)))
+			for i, as := range outputAs {
+				ret.Set(as, rc, base.PackFloatToBytes(a.At(outputIndices[i], 0)))
 			}
 		} else {
-			maxIndex := 0
+			maxIndex := m.classAttrOffset
 			maxVal := 0.0
 			for i := m.classAttrOffset; i < m.classAttrOffset+m.classAttrCount; i++ {
 				val := a.At(i, 0)
@@ -147,6 +168,11 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 				}
 			}
 			maxIndex -= m.classAttrOffset
+			if m.classAttrCount == 1 && maxVal > 0.5 {
+				// Two-valued classes have a single output neuron
+				values := outputAttrs[0].(*base.CategoricalAttribute).GetValues()
+				maxIndex = len(values) - 1
+			}
 			ret.Set(outputAs[0], rc, base.PackU64ToBytes(uint64(maxIndex)))
 		}
 		return true, nil
@@ -191,13 +217,15 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 	// Enumerate the Attributes
 	trainingAttrs := make(map[base.Attribute]int)
 	classAttrs := make(map[base.Attribute]int)
-	attrCounter := 0
+	m.attrs = make(map[base.Attribute]int)
+	attrCounter := -1
 	for i, a := range inputAttrsVec {
 		attrCounter = i
 		m.attrs[a] = attrCounter
 		trainingAttrs[a] = attrCounter
 	}
-	m.classAttrOffset = attrCounter + 1
+	m.classAttrOffset = len(inputAttrsVec) + hiddenSize
+	m.classAttrCount = 0
 	for _, a := range classAttrsVec {
 		attrCounter++
 		m.attrs[a] = attrCounter + hiddenSize
-- 
2.43.0


From b4750985764d69e00332640cbf10cb9abe78401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:57 +0000
Subject: [PATCH 065/114] fix: neural: training stopped when errors cancelled
 out rather than at the documented mean squared error

---
 neural/layered.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index 35aba73..3292bc7 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -5,7 +5,6 @@ import (
 	"github.com/sjwhitworth/golearn/base"
 	"github.com/sjwhitworth/golearn/filters"
 	"gonum.org/v1/gonum/mat"
-	"math"
 	"math/rand"
 )
 
@@ -270,7 +269,7 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 
 	// Initialise biases for output layer
 	for i := 0; i < len(classAttrsVec); i++ {
-		nodeOffset := layerOffset + i
+		nodeOffset := layerOffset + i + 1
 		m.network.SetBias(nodeOffset, rand.NormFloat64()*0.1)
 	}
 
@@ -316,10 +315,9 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 	// until convergence (what's that)
 	for iteration := 0; iteration < m.MaxIterations; iteration++ {
 		totalError := 0.0
-		maxRow := 0
+		trained := 0
 		insts.MapOverRows(trainAs, func(row [][]byte, i int) (bool, error) {
 
-			maxRow = i
 			// Clear vectors
 			for i := 0; i < size; i++ {
 				trainVec.Set(i, 0, 0.0)
@@ -350,7 +348,11 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 			}
 
 			// Update total error
-			totalError += math.Abs(mat.Sum(errVec))
+			for a := range classAttrs {
+				e := errVec.At(classAttrs[a], 0)
+				totalError += e * e
+			}
+			trained++
 
 			// Back-propagate the error
 			b := m.network.Error(trainVec, errVec, totalLayers)
@@ -364,7 +366,7 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 			return true, nil
 		})
 
-		totalError /= float64(maxRow)
+		totalError /= float64(trained * len(classAttrs))
 		// If we've converged, no need to carry on
 		if totalError < m.Convergence {
 			break
-- 
2.43.0


From 1540be8181564ef2357f7c88ac8df954cd7ebc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 066/114] fix: neural: the softplus function had the sigmoid's
 derivative and overflowed

---
 neural/funcs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural/funcs.go b/neural/funcs.go
index 48bf3db..d48d70c 100644
--- a/neural/funcs.go
+++ b/neural/funcs.go
@@ -21,6 +21,6 @@ var Linear NeuralFunction = NeuralFunction{
 // Rectified Linear function
 // https://www.wikiwand.com/en/Rectifier_(neural_networks)
 var SoftplusRectifier NeuralFunction = NeuralFunction{
-	func(v float64) float64 { return math.Log(1 + math.Exp(v)) },
-	func(v float64) float64 { return v * (1 - v) },
+	func(v float64) float64 { return math.Max(v, 0) + math.Log1p(math.Exp(-math.Abs(v))) },
+	func(v float64) float64 { return 1.0 - math.Exp(-v) },
 }
-- 
2.43.0


From 692c98d2bc87d547f65246e68411b88f3e01711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:02 +0000
Subject: [PATCH 067/114] fix: neural: weights which started out small were set
 to zero by training

---
 neural/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural/network.go b/neural/network.go
index 5119133..080c213 100644
--- a/neural/network.go
+++ b/neural/network.go
@@ -139,7 +139,7 @@ func (n *Network) UpdateWeights(out, err *mat.Dense, learnRate float64) {
 		if target == source {
 			return v
 		}
-		if math.Abs(n.origWeights.At(target, source)) > 0.005 {
+		if n.origWeights.At(target, source) != 0 {
 			return v + learnRate*out.At(source, 0)*err.At(target, 0)
 		}
 		return 0.00
-- 
2.43.0


From 3265beca5e11e93b3af7aa0af925bdb067de96f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 068/114] fix: perceptron: learn from the classes, predict
 every row and match the attributes

---
 perceptron/average.go | 115 ++++++++++++++++++++++++++++++------------
 1 file changed, 82 insertions(+), 33 deletions(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index b4d0249..6df3e3a 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -12,6 +12,7 @@ type AveragePerceptron struct {
 	weights      []float64
 	edges        []float64
 	bias         float64
+	biasSum      float64
 	threshold    float64
 	learningRate float64
 	trainError   float64
@@ -21,41 +22,52 @@ type AveragePerceptron struct {
 
 type instance struct {
 	class    string
+	expected float64 // 1.0 or -1.0
 	features []float64
 }
 
 type instances []instance
 
+// updateWeights moves the weights towards the right answer for the features.
 func (p *AveragePerceptron) updateWeights(features []float64, correction float64) {
 
-	for i, _ := range p.weights {
-		fv := &features[i]
-		if fv != nil {
-			update := p.learningRate * correction * *fv
-			p.weights[i] = update
-			p.edges[i]++
+	for i, fv := range features {
+		if i < len(p.weights) {
+			p.weights[i] += p.learningRate * correction * fv
 		}
 	}
+	p.bias += p.learningRate * correction
+}
 
-	p.average()
+// accumulate adds the current weights to the sums which are averaged.
+func (p *AveragePerceptron) accumulate() {
+
+	for i, wv := range p.weights {
+		p.edges[i] += wv
+	}
+	p.biasSum += p.bias
+	p.count++
 }
 
+// average replaces the weights by their average throughout training.
 func (p *AveragePerceptron) average() {
 
-	for i, fcount := range p.edges {
-		wv := &p.weights[i]
-		if wv != nil {
-			p.weights[i] = (p.count**wv + fcount) / (fcount + 1)
-		}
+	if p.count == 0 {
+		return
 	}
-	p.count++
+	for i, sum := range p.edges {
+		p.weights[i] = sum / p.count
+	}
+	p.bias = p.biasSum / p.count
 }
 
 func (p *AveragePerceptron) score(datum instance) float64 {
-	score := 0.0
+	score := p.bias
 
-	for i, wv := range p.weights {
-		score += datum.features[i] * wv
+	for i, fv := range datum.features {
+		if i < len(p.weights) {
+			score += fv * p.weights[i]
+		}
 	}
 
 	if score >= p.threshold {
@@ -71,17 +83,26 @@ func (p *AveragePerceptron) Fit(trainingData base.FixedDataGrid) {
 	p.trainError = 0.1
 	learning := true
 
+	// Forget anything from an earlier Fit
+	for i := range p.weights {
+		p.weights[i] = 0
+		p.edges[i] = 0
+	}
+	p.bias = 0
+	p.biasSum = 0
+	p.count = 0
+
 	data := processData(trainingData)
 	for learning {
 		for _, datum := range data {
 			response := p.score(datum)
-			expected := 0.0
-			correction := expected - response
+			correction := datum.expected - response
 
-			if expected != response {
+			if datum.expected != response {
 				p.updateWeights(datum.features, correction)
 				p.trainError += math.Abs(correction)
 			}
+			p.accumulate()
 		}
 
 		epochs++
@@ -104,21 +125,14 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 		panic("Cannot call Predict on an untrained AveragePerceptron")
 	}
 
-	data := processData(what)
-
 	allAttrs := base.CheckCompatible(what, p.TrainingData)
 	if allAttrs == nil {
 		// Don't have the same Attributes
 		return nil
 	}
 
-	// Remove the Attributes which aren't numeric
-	allNumericAttrs := make([]base.Attribute, 0)
-	for _, a := range allAttrs {
-		if fAttr, ok := a.(*base.FloatAttribute); ok {
-			allNumericAttrs = append(allNumericAttrs, fAttr)
-		}
-	}
+	// The features have to be in the order they were trained in
+	data := processAttributes(what, numericAttributes(p.TrainingData))
 
 	ret := base.GeneratePredictionVector(what)
 	classAttr := ret.AllClassAttributes()[0]
@@ -132,21 +146,41 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 		if result > 0.0 {
 			ret.Set(classSpec, i, base.PackU64ToBytes(1))
 		} else {
-			ret.Set(classSpec, 1, []byte{0, 0, 0, 0, 0, 0, 0, 0})
+			ret.Set(classSpec, i, base.PackU64ToBytes(0))
 		}
 	}
 
 	return ret
 }
 
+// numericAttributes returns the numeric non-class Attributes.
+func numericAttributes(x base.FixedDataGrid) []base.Attribute {
+	numericAttrSpecs := base.ResolveAttributes(x, base.NonClassFloatAttributes(x))
+	ret := make([]base.Attribute, len(numericAttrSpecs))
+	for i, spec := range numericAttrSpecs {
+		ret[i] = spec.GetAttribute()
+	}
+	return ret
+}
+
 func processData(x base.FixedDataGrid) instances {
+	return processAttributes(x, numericAttributes(x))
+}
+
+func processAttributes(x base.FixedDataGrid, numericAttrs []base.Attribute) instances {
 	_, rows := x.Size()
 
 	result := make(instances, rows)
 
 	// Retrieve numeric non-class Attributes
-	numericAttrs := base.NonClassFloatAttributes(x)
-	numericAttrSpecs := base.ResolveAttributes(x, numericAttrs)
+	numericAttrSpecs := make([]base.AttributeSpec, len(numericAttrs))
+	for i, a := range numericAttrs {
+		spec, err := x.GetAttribute(a)
+		if err != nil {
+			panic(err)
+		}
+		numericAttrSpecs[i] = spec
+	}
 
 	// Retrieve class Attributes
 	classAttrs := x.AllClassAttributes()
@@ -166,6 +200,11 @@ func processData(x base.FixedDataGrid) instances {
 		panic("Wrong class Attribute type!")
 	}
 
+	classSpec, err := x.GetAttribute(classAttr)
+	if err != nil {
+		panic(err)
+	}
+
 	// Convert each row
 	x.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		// Allocate a new row
@@ -178,7 +217,11 @@ func processData(x base.FixedDataGrid) instances {
 
 		// Get the class for the values
 		class := base.GetClass(x, rowNo)
-		instance := instance{class, probRow}
+		expected := -1.0
+		if x.Get(classSpec, rowNo)[0] != 0 {
+			expected = 1.0
+		}
+		instance := instance{class, expected, probRow}
 		result[rowNo] = instance
 		return true, nil
 	})
@@ -190,7 +233,13 @@ func NewAveragePerceptron(features int, learningRate float64, startingThreshold
 	weights := make([]float64, features)
 	edges := make([]float64, features)
 
-	p := AveragePerceptron{nil, weights, edges, startingThreshold, learningRate, trainError, 0.0, false, 0}
+	p := AveragePerceptron{
+		weights:      weights,
+		edges:        edges,
+		threshold:    startingThreshold,
+		learningRate: learningRate,
+		trainError:   trainError,
+	}
 
 	return &p
 }
-- 
2.43.0


From 7b80836f888bdbdfb8d99154ef1aa61b3e52487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:19 +0000
Subject: [PATCH 069/114] fix: pca: keep the caller's matrix and centre
 whatever is transformed

---
 pca/pca.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pca/pca.go b/pca/pca.go
index c6c6837..7c722c6 100644
--- a/pca/pca.go
+++ b/pca/pca.go
@@ -8,6 +8,7 @@ import (
 type PCA struct {
 	Num_components int
 	svd            *mat.SVD
+	mean           *mat.Dense
 }
 
 // Number of components. 0 - by default, use number of features as number of components
@@ -24,8 +25,8 @@ func (pca *PCA) FitTransform(X *mat.Dense) *mat.Dense {
 // Fit PCA model
 func (pca *PCA) Fit(X *mat.Dense) *PCA {
 	// Mean to input data
-	M := mean(X)
-	X = matrixSubVector(X, M)
+	pca.mean = mean(X)
+	X = matrixSubVector(X, pca.mean)
 
 	// Get SVD decomposition from data
 	pca.svd = &mat.SVD{}
@@ -48,6 +49,9 @@ func (pca *PCA) Transform(X *mat.Dense) *mat.Dense {
 
 	num_samples, num_features := X.Dims()
 
+	// The components are relative to the mean of the data they were fitted to
+	X = matrixSubVector(X, pca.mean)
+
 	vTemp := new(mat.Dense)
 	pca.svd.VTo(vTemp)
 	//Compute to full data
@@ -75,18 +79,19 @@ func mean(matrix *mat.Dense) *mat.Dense {
 }
 
 // After computing of mean, compute: X(input matrix)  - X(mean vector)
-func matrixSubVector(mat, vec *mat.Dense) *mat.Dense {
-	rowsm, colsm := mat.Dims()
+func matrixSubVector(matrix, vec *mat.Dense) *mat.Dense {
+	rowsm, colsm := matrix.Dims()
 	_, colsv := vec.Dims()
 	if colsv != colsm {
 		panic("Error in dimension")
 	}
+	ret := mat.NewDense(rowsm, colsm, nil)
 	for i := 0; i < rowsm; i++ {
 		for j := 0; j < colsm; j++ {
-			mat.Set(i, j, (mat.At(i, j) - vec.At(0, j)))
+			ret.Set(i, j, (matrix.At(i, j) - vec.At(0, j)))
 		}
 	}
-	return mat
+	return ret
 }
 
 //Multiplication of X(input data) and V(from SVD)
-- 
2.43.0


From 5945dc450a4ad26565fb64292fcc607495427535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:41 +0000
Subject: [PATCH 070/114] fix: clustering: DBSCAN lost points near noise, or
 panicked

---
 clustering/dbscan.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/clustering/dbscan.go b/clustering/dbscan.go
index 82861f1..a4d7e1c 100644
--- a/clustering/dbscan.go
+++ b/clustering/dbscan.go
@@ -96,15 +96,13 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 					neighbours = neighbours.Or(neighbours, newNeighbours)
 					reset = true
 				}
-			} else {
-				continue
 			}
 			if clustered.Bit(i) == 0 {
 				clusterMap[c] = append(clusterMap[c], i)
 				clustered = clustered.SetBit(clustered, i, 1)
 			}
 			if reset {
-				i = 0
+				i = -1 // start again from the first point
 			}
 		}
 	}
@@ -118,8 +116,7 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 		neighbours := big.NewInt(0)
 		neighbours = regionQuery(i, neighbours, dist, params.Eps)
 		if BitCount(neighbours) < params.MinCount {
-			// Noise, cluster 0
-			clustered = clustered.Or(clustered, neighbours)
+			// Noise, cluster 0 (unless a cluster reaches it later)
 			continue
 		}
 		c = c + 1 // Increment cluster count
-- 
2.43.0


From a156eb387f350214c80bf3aa417e04c74542fce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:43 +0000
Subject: [PATCH 071/114] fix: clustering: ClusterMap.Equals was wrong for
 empty clusters

---
 clustering/clustering.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clustering/clustering.go b/clustering/clustering.go
index 3636d5b..1a90669 100644
--- a/clustering/clustering.go
+++ b/clustering/clustering.go
@@ -80,6 +80,10 @@ func (ref ClusterMap) Equals(other ClusterMap) (bool, error) {
 	// Check that after transformation, key contains the same points
 	arraysEqual := func(a1, a2 []int) bool {
 
+		if len(a1) != len(a2) {
+			return false
+		}
+
 		cnt := make(map[int]bool)
 		for _, a := range a1 {
 			cnt[a] = true
@@ -96,6 +100,10 @@ func (ref ClusterMap) Equals(other ClusterMap) (bool, error) {
 	}
 	newMap := ClusterMap(make(map[int][]int))
 	for cOld := range other {
+		if len(other[cOld]) == 0 {
+			// Empty clusters can be re-labelled as any other empty cluster
+			continue
+		}
 		cNew := clusterIdMap[cOld]
 		if !arraysEqual(ref[cNew], other[cOld]) {
 			return false, fmt.Errorf("Re-labelled cluster %d => %d doesn't contain the same points (%d, %d)", cOld, cNew, ref[cNew], other[cOld])
-- 
2.43.0


From a7ac69903b3d67211eea6d6f17fed067213ea7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:00 +0000
Subject: [PATCH 072/114] fix: clustering: EM crashed on empty or degenerate
 components and mixed up attributes

---
 clustering/em.go | 47 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/clustering/em.go b/clustering/em.go
index 70894df..8afe636 100644
--- a/clustering/em.go
+++ b/clustering/em.go
@@ -14,6 +14,7 @@ var (
 	NoTrainingDataError         = errors.New("You need to Fit() before you can Predict()")
 	InsufficientComponentsError = errors.New("Estimation requires at least one component")
 	InsufficientDataError       = errors.New("Estimation requires n_obs >= n_comps")
+	NoNumericAttributesError    = errors.New("Estimation requires at least one numeric attribute")
 )
 
 type ExpectationMaximization struct {
@@ -40,9 +41,12 @@ func NewExpectationMaximization(n_comps int) (*ExpectationMaximization, error) {
 
 // Fit method - generates the component parameters (means and covariance matrices)
 func (em *ExpectationMaximization) Fit(inst base.FixedDataGrid) error {
-	// Numeric Attrs
-	attrs := base.NonClassAttributes(inst)
-	attrSpecs := base.ResolveAttributes(inst, attrs)
+	// Numeric Attrs, in the order of the columns of the input matrix
+	attrSpecs := base.ResolveAttributes(inst, base.NonClassFloatAttributes(inst))
+	attrs := make([]base.Attribute, len(attrSpecs))
+	for i, spec := range attrSpecs {
+		attrs[i] = spec.GetAttribute()
+	}
 
 	_, n_obs := inst.Size()
 	n_feats := len(attrs)
@@ -50,6 +54,9 @@ func (em *ExpectationMaximization) Fit(inst base.FixedDataGrid) error {
 	if n_obs < em.n_comps {
 		return InsufficientDataError
 	}
+	if n_feats == 0 {
+		return NoNumericAttributesError
+	}
 
 	// Build the input matrix
 	X := mat.NewDense(n_obs, n_feats, nil)
@@ -94,8 +101,19 @@ func (em *ExpectationMaximization) Predict(inst base.FixedDataGrid) (ClusterMap,
 	_, n_obs := inst.Size()
 	n_feats := len(em.attrs)
 
-	// Numeric attrs
-	attrSpecs := base.ResolveAttributes(inst, em.attrs)
+	// Numeric attrs, in the order they were fitted in
+	attrSpecs := make([]base.AttributeSpec, n_feats)
+	for i, a := range em.attrs {
+		spec, err := inst.GetAttribute(a)
+		if err != nil {
+			return nil, err
+		}
+		attrSpecs[i] = spec
+	}
+
+	if n_obs == 0 {
+		return ClusterMap(make(map[int][]int)), nil
+	}
 
 	// Build the input matrix
 	X := mat.NewDense(n_obs, n_feats, nil)
@@ -144,10 +162,11 @@ func maximization(X *mat.Dense, y mat.Vector, p Params, n_comps int) Params {
 			covs_k_reg = p.Covs[k]
 		} else if n_obs < n_feats {
 			p_new.Means.SetRow(k, means(X_yk))
-			covs_k_reg = shrunkCovariance(X_yk)
+			covs_k_reg = regularized(shrunkCovariance(X_yk))
 		} else {
 			p_new.Means.SetRow(k, means(X_yk))
 			stat.CovarianceMatrix(covs_k_reg, X_yk, nil)
+			covs_k_reg = regularized(covs_k_reg)
 		}
 
 		p_new.Covs[k] = covs_k_reg
@@ -191,6 +210,19 @@ func estimateLogProb(X *mat.Dense, p Params, n_comps int) mat.Vector {
 	return y_new
 }
 
+// Adds to the diagonal of a covariance matrix which is singular (e.g. because
+// a feature is constant), so that there is a Gaussian which has it
+func regularized(covs *mat.SymDense) *mat.SymDense {
+	n_feats, _ := covs.Dims()
+	var chol mat.Cholesky
+	for reg := 1e-6; !chol.Factorize(covs) && reg < math.MaxFloat64/10; reg *= 10 {
+		for j := 0; j < n_feats; j++ {
+			covs.SetSym(j, j, covs.At(j, j)+reg)
+		}
+	}
+	return covs
+}
+
 // Returns a symmetric matrix with variance on the diagonal
 func shrunkCovariance(X *mat.Dense) *mat.SymDense {
 	n_obs, n_feats := X.Dims()
@@ -313,6 +345,9 @@ func where(X *mat.Dense, y mat.Vector, target int) *mat.Dense {
 			rows++
 		}
 	}
+	if rows == 0 {
+		return &mat.Dense{}
+	}
 	X_i := mat.NewDense(rows, n_feats, result)
 	return X_i
 }
-- 
2.43.0


From 7dd8c205f45e725a8c783ad8eb9202ba86c2a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:23 +0000
Subject: [PATCH 073/114] fix: meta: bagging ignored errors, crashed or never
 ended

---
 ensemble/randomforest.go |  6 ++++--
 meta/bagging.go          | 42 +++++++++++++++++++++++++++++++++++-----
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index 0d9492a..4e613a0 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -48,12 +48,14 @@ func (f *RandomForest) Fit(on base.FixedDataGrid) error {
 		tree := trees.NewID3DecisionTree(0.00)
 		f.Model.AddModel(tree)
 	}
-	f.Model.Fit(on)
-	return nil
+	return f.Model.Fit(on)
 }
 
 // Predict generates predictions from a trained RandomForest.
 func (f *RandomForest) Predict(with base.FixedDataGrid) (base.FixedDataGrid, error) {
+	if f.Model == nil {
+		return nil, errors.New("Fit must be called before Predict")
+	}
 	return f.Model.Predict(with)
 }
 
diff --git a/meta/bagging.go b/meta/bagging.go
index 0e3c33a..e855f7e 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -29,7 +29,7 @@ func (b *BaggedModel) generateTrainingAttrs(model int, from base.FixedDataGrid)
 		ret = attrs
 	} else {
 		for {
-			if len(ret) >= b.RandomFeatures {
+			if len(ret) >= b.RandomFeatures || len(ret) >= len(attrs) {
 				break
 			}
 			attrIndex := rand.Intn(len(attrs))
@@ -79,20 +79,30 @@ func (b *BaggedModel) AddModel(m base.Classifier) {
 }
 
 // Fit generates and trains each model on a randomised subset of
-// Instances.
-func (b *BaggedModel) Fit(from base.FixedDataGrid) {
+// Instances. If any of them can't be trained, it returns an error.
+func (b *BaggedModel) Fit(from base.FixedDataGrid) error {
+	if _, rows := from.Size(); rows == 0 {
+		return fmt.Errorf("no training data")
+	}
 	var wait sync.WaitGroup
+	errs := make([]error, len(b.Models))
 	b.selectedAttributes = make(map[int][]base.Attribute)
 	for i, m := range b.Models {
 		wait.Add(1)
 		go func(c base.Classifier, f base.FixedDataGrid, model int) {
 			l := b.generateTrainingInstances(model, f)
-			c.Fit(l)
+			errs[model] = c.Fit(l)
 			wait.Done()
 		}(m, from, i)
 	}
 	wait.Wait()
+	for i, err := range errs {
+		if err != nil {
+			return base.FormatError(err, "Can't fit model %d", i)
+		}
+	}
 	b.fitOn = base.NewStructuralCopy(from)
+	return nil
 }
 
 // Predict gathers predictions from all the classifiers
@@ -101,7 +111,19 @@ func (b *BaggedModel) Fit(from base.FixedDataGrid) {
 // IMPORTANT: in the event of a tie, the first class (in
 // alphabetical order) which achieved the tie value is output.
 func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, error) {
+	if b.selectedAttributes == nil {
+		return nil, fmt.Errorf("Fit must be called before Predict")
+	}
+	for i := range b.Models {
+		for _, a := range b.selectedAttributes[i] {
+			if _, err := from.GetAttribute(a); err != nil {
+				return nil, base.FormatError(err, "Can't predict with model %d", i)
+			}
+		}
+	}
 	n := runtime.NumCPU()
+	// Whatever goes wrong when predicting with each model
+	errs := make([]error, len(b.Models))
 	// Channel to receive the results as they come in
 	votes := make(chan base.DataGrid, n)
 	// Count the votes for each class
@@ -142,7 +164,11 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 				if i, ok := <-processpipe; ok {
 					c := b.Models[i]
 					l := b.generatePredictionInstances(i, from)
-					v, _ := c.Predict(l)
+					v, err := c.Predict(l)
+					if err != nil {
+						errs[i] = err
+						continue
+					}
 					votes <- v
 				} else {
 					processwait.Done()
@@ -161,6 +187,12 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 	close(votes)       // Close the vote channel and allow it to drain
 	votingwait.Wait()  // All the votes are in
 
+	for i, err := range errs {
+		if err != nil {
+			return nil, base.FormatError(err, "Can't predict with model %d", i)
+		}
+	}
+
 	// Generate the overall consensus
 	ret := base.GeneratePredictionVector(from)
 	for i := range voting {
-- 
2.43.0


From 73e1a1a52f74638cd140bd4c5e6a755abcfd6008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:25 +0000
Subject: [PATCH 074/114] fix: meta: one-vs-all hid the errors of its
 classifiers

---
 ensemble/multisvc.go |  3 +--
 meta/one_v_all.go    | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 2f29780..5aa71c2 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -69,8 +69,7 @@ func (m *MultiLinearSVC) initializeOneVsAllModel() {
 // Fit builds the MultiLinearSVC by building n (where n is the number of values
 // the singular CategoricalAttribute can take) seperate one-vs-rest models.
 func (m *MultiLinearSVC) Fit(instances base.FixedDataGrid) error {
-	m.m.Fit(instances)
-	return nil
+	return m.m.Fit(instances)
 }
 
 // Predict issues predictions from the MultiLinearSVC. Each underlying LinearSVC is
diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index e6a7e6f..cb38181 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -33,8 +33,8 @@ func NewOneVsAllModel(f func(string) base.Classifier) *OneVsAllModel {
 
 // Fit creates n filtered datasets (where n is the number of values
 // a CategoricalAttribute can take) and uses them to train the
-// underlying classifiers.
-func (m *OneVsAllModel) Fit(using base.FixedDataGrid) {
+// underlying classifiers. It returns an error if any of them can't be trained.
+func (m *OneVsAllModel) Fit(using base.FixedDataGrid) error {
 	var classAttr *base.CategoricalAttribute
 	// Do some validation
 	classAttrs := using.AllClassAttributes()
@@ -77,7 +77,10 @@ func (m *OneVsAllModel) Fit(using base.FixedDataGrid) {
 		filters[i] = f
 		classifiers[i] = m.NewClassifierFunction(classVals[int(i)])
 		if !fittingToStructure {
-			classifiers[i].Fit(base.NewLazilyFilteredInstances(using, f))
+			err := classifiers[i].Fit(base.NewLazilyFilteredInstances(using, f))
+			if err != nil {
+				return base.FormatError(err, "Can't fit classifier for class %s", classVals[int(i)])
+			}
 		}
 	}
 
@@ -85,6 +88,7 @@ func (m *OneVsAllModel) Fit(using base.FixedDataGrid) {
 	m.classifiers = classifiers
 	m.fitOn = base.NewStructuralCopy(using)
 	m.classValues = classVals
+	return nil
 }
 
 // Predict issues predictions. Each class-specific classifier is expected
@@ -151,10 +155,10 @@ func (m *OneVsAllModel) LoadWithPrefix(reader *base.ClassifierDeserializer, pref
 	if err != nil {
 		return base.DescribeError("Can't load INSTANCE_STRUCTURE", err)
 	}
-	m.Fit(fitOn)
-	/*if err != nil {
-		base.DescribeError("Could not fit reloaded classifier to the structure", err)
-	}*/
+	err = m.Fit(fitOn)
+	if err != nil {
+		return base.DescribeError("Could not fit reloaded classifier to the structure", err)
+	}
 
 	// Reload the filters
 	numFiltersU64, err := reader.GetU64ForKey(reader.Prefix(prefix, "FILTER_COUNT"))
-- 
2.43.0


From f56f0145d47e1f8ac97d191e746c1fcac26fa36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:01 +0000
Subject: [PATCH 075/114] fix: trees: Save completes and closes its file, Load
 replaces an existing tree and reports malformed ones

---
 trees/id3.go    | 65 ++++++++++++++++++++++++++++++++++++++++---------
 trees/random.go | 18 +++++++++-----
 2 files changed, 66 insertions(+), 17 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index c28d1e7..2252343 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -61,7 +61,9 @@ func (d *DecisionTreeRule) unmarshalJSON(data []byte) error {
 		return err
 	}
 	if splitVal, ok := jsonMap["split_val"]; ok {
-		d.SplitVal = splitVal.(float64)
+		if d.SplitVal, ok = splitVal.(float64); !ok {
+			return fmt.Errorf("split_val isn't a number: %v", splitVal)
+		}
 	}
 	split := jsonMap["split_attribute"]
 	splitBytes, err := json.Marshal(split)
@@ -74,7 +76,6 @@ func (d *DecisionTreeRule) unmarshalJSON(data []byte) error {
 			return err
 		}
 		if d.SplitAttr == nil {
-			panic("Should not be nil")
 			return fmt.Errorf("base.DeserializeAttribute returned nil")
 		}
 	} else {
@@ -128,13 +129,16 @@ func (d *DecisionTreeNode) Save(filePath string) error {
 		return err
 	}
 	err = d.SaveWithPrefix(serializer, "")
-	if err != nil {
-		return err
+	if closeErr := serializer.Close(); err == nil {
+		err = closeErr
 	}
-	return serializer.Close()
+	return err
 }
 
 func (d *DecisionTreeNode) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
+	if d == nil {
+		return fmt.Errorf("no tree to save")
+	}
 	b, err := json.Marshal(d)
 	if err != nil {
 		return err
@@ -160,6 +164,8 @@ func (d *DecisionTreeNode) Load(filePath string) error {
 		return err
 	}
 
+	defer reader.Close()
+
 	return d.LoadWithPrefix(reader, "")
 }
 
@@ -171,7 +177,13 @@ func (d *DecisionTreeNode) LoadWithPrefix(reader *base.ClassifierDeserializer, p
 		return err
 	}
 
-	err = json.Unmarshal(b, d)
+	// Unmarshalling on top of an existing node would mix both trees
+	loaded := DecisionTreeNode{}
+	err = json.Unmarshal(b, &loaded)
+	if err != nil {
+		return err
+	}
+	err = loaded.checkLoaded()
 	if err != nil {
 		return err
 	}
@@ -181,11 +193,34 @@ func (d *DecisionTreeNode) LoadWithPrefix(reader *base.ClassifierDeserializer, p
 		return err
 	}
 
-	d.ClassAttr = a
+	loaded.ClassAttr = a
+	*d = loaded
 
 	return nil
 }
 
+// checkLoaded returns an error if something's missing from this (sub)tree.
+func (d *DecisionTreeNode) checkLoaded() error {
+	if d.Children == nil {
+		return nil
+	}
+	if d.SplitRule == nil || d.SplitRule.SplitAttr == nil {
+		return fmt.Errorf("tree contains a node with children but no rule")
+	}
+	if len(d.Children) == 0 {
+		return fmt.Errorf("tree contains a rule without children")
+	}
+	for _, c := range d.Children {
+		if c == nil {
+			return fmt.Errorf("tree contains an empty node")
+		}
+		if err := c.checkLoaded(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // InferID3Tree builds a decision tree using a RuleGenerator
 // from a set of Instances (implements the ID3 algorithm)
 func InferID3Tree(from base.FixedDataGrid, with RuleGenerator) *DecisionTreeNode {
@@ -598,8 +633,11 @@ func (t *ID3DecisionTree) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Printf("writer: %v", writer)
-	return t.SaveWithPrefix(writer, "")
+	err = t.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func (t *ID3DecisionTree) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -611,10 +649,15 @@ func (t *ID3DecisionTree) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
 	return t.LoadWithPrefix(reader, "")
 }
 
 func (t *ID3DecisionTree) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix string) error {
-	t.Root = &DecisionTreeNode{}
-	return t.Root.LoadWithPrefix(reader, prefix)
+	root := &DecisionTreeNode{}
+	if err := root.LoadWithPrefix(reader, prefix); err != nil {
+		return err
+	}
+	t.Root = root
+	return nil
 }
diff --git a/trees/random.go b/trees/random.go
index f430908..33e5276 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -98,10 +98,11 @@ func (rt *RandomTree) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
-		writer.Close()
-	}()
-	return rt.SaveWithPrefix(writer, "")
+	err = rt.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // SaveWithPrefix outputs this model to a file with a prefix.
@@ -115,13 +116,18 @@ func (rt *RandomTree) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
 	return rt.LoadWithPrefix(reader, "")
 }
 
 // LoadWithPrefix retrives this random tree from disk with a given prefix.
 func (rt *RandomTree) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix string) error {
-	rt.Root = &DecisionTreeNode{}
-	return rt.Root.LoadWithPrefix(reader, prefix)
+	root := &DecisionTreeNode{}
+	if err := root.LoadWithPrefix(reader, prefix); err != nil {
+		return err
+	}
+	rt.Root = root
+	return nil
 }
 
 // GetMetadata returns required serialization metadata
-- 
2.43.0


From 178befbf34063fe8db829de63704e8badcde102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:40 +0000
Subject: [PATCH 076/114] fix: knn: Save doesn't print, saving with a prefix
 writes the metadata Load needs and leaves the file open

---
 knn/knn.go | 53 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index b22ce9c..36ade57 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -365,18 +365,26 @@ func (KNN *KNNClassifier) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Printf("writer: %v", writer)
-	return KNN.SaveWithPrefix(writer, "")
+	err = KNN.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // SaveWithPrefix outputs KNN as part of another file.
 func (KNN *KNNClassifier) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
-	err := writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
-	if err != nil {
-		return err
+	if KNN.TrainingData == nil {
+		return fmt.Errorf("no training data to save")
 	}
-	err = writer.Close()
-	return err
+	// The metadata of the file itself is already there
+	if prefix != "" {
+		err := writer.WriteMetadataAtPrefix(prefix, KNN.GetMetadata())
+		if err != nil {
+			return err
+		}
+	}
+	return writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
 }
 
 // Load reloads a given KNN classifier when it's the only thing in the output file.
@@ -385,6 +393,7 @@ func (KNN *KNNClassifier) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
 
 	return KNN.LoadWithPrefix(reader, "")
 }
@@ -405,19 +414,29 @@ func (KNN *KNNClassifier) LoadWithPrefix(reader *base.ClassifierDeserializer, pr
 	}
 
 	metadata := clsMetadata.ClassifierMetadata
-	KNN.DistanceFunc = metadata["distance_func"].(string)
-	KNN.Algorithm = metadata["algorithm"].(string)
-	//KNN.NearestNeighbours = metadata["neighbours"].(int)
-	KNN.Weighted = metadata["weighted"].(bool)
-	KNN.AllowOptimisations = metadata["allow_optimizations"].(bool)
-
+	distanceFunc, ok1 := metadata["distance_func"].(string)
+	algorithm, ok2 := metadata["algorithm"].(string)
+	weighted, ok3 := metadata["weighted"].(bool)
+	allowOptimisations, ok4 := metadata["allow_optimizations"].(bool)
 	// 101 on why JSON is a bad serialization format
-	floatNeighbours := metadata["neighbours"].(float64)
-	KNN.NearestNeighbours = int(floatNeighbours)
+	floatNeighbours, ok5 := metadata["neighbours"].(float64)
+	if !ok1 || !ok2 || !ok3 || !ok4 || !ok5 {
+		return fmt.Errorf("This file's METADATA is incomplete: %v", metadata)
+	}
 
-	KNN.TrainingData, err = reader.GetInstancesForKey(reader.Prefix(prefix, "TrainingInstances"))
+	trainingData, err := reader.GetInstancesForKey(reader.Prefix(prefix, "TrainingInstances"))
+	if err != nil {
+		return err
+	}
 
-	return err
+	KNN.DistanceFunc = distanceFunc
+	KNN.Algorithm = algorithm
+	KNN.NearestNeighbours = int(floatNeighbours)
+	KNN.Weighted = weighted
+	KNN.AllowOptimisations = allowOptimisations
+	KNN.TrainingData = trainingData
+
+	return nil
 }
 
 // ReloadKNNClassifier reloads a KNNClassifier when it's the only thing in an output file.
-- 
2.43.0


From 3fb110248a1fa8df98bf327030d52d123b8ca51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 077/114] fix: ensembles: Save completes its file and reports
 failures, members can be embedded, Load checks the number of members and
 restores a forest's size

---
 ensemble/multisvc.go     |  7 +++++--
 ensemble/randomforest.go | 33 ++++++++++++++++++++++++++++-----
 meta/bagging.go          | 17 ++++++++++++++++-
 meta/one_v_all.go        | 15 +++++++++++++--
 4 files changed, 62 insertions(+), 10 deletions(-)

diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 5aa71c2..5c58dd2 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -97,11 +97,13 @@ func (m *MultiLinearSVC) Save(filePath string) error {
 		return err
 	}
 	err = m.SaveWithPrefix(serializer, "")
+	if closeErr := serializer.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		return fmt.Errorf("Unable to Save(): %v", err)
 	}
-	serializer.Close()
-	return err
+	return nil
 }
 
 func (m *MultiLinearSVC) SaveWithPrefix(serializer *base.ClassifierSerializer, prefix string) error {
@@ -140,6 +142,7 @@ func (m *MultiLinearSVC) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
 
 	err = m.LoadWithPrefix(reader, "")
 	if err != nil {
diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index 4e613a0..9db8b99 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -80,11 +80,16 @@ func (f *RandomForest) Save(filePath string) error {
 	}
 
 	err = f.SaveWithPrefix(writer, "model")
-	writer.Close()
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
 func (f *RandomForest) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
+	if f.Model == nil {
+		return fmt.Errorf("Fit must be called before saving")
+	}
 	return f.Model.SaveWithPrefix(writer, prefix)
 }
 
@@ -93,15 +98,33 @@ func (f *RandomForest) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
 	return f.LoadWithPrefix(reader, "model")
 }
 
 func (f *RandomForest) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix string) error {
-	f.Model = new(meta.BaggedModel)
-	for i := 0; i < f.ForestSize; i++ {
+	numTrees, err := reader.GetU64ForKey(reader.Prefix(prefix, "NUM_CLASSIFIERS"))
+	if err != nil {
+		return base.DescribeError("Can't read the size of the forest", err)
+	}
+	if numTrees > 0 {
+		// Check the last tree is there before creating that many
+		lastTree := reader.Prefix(prefix, fmt.Sprintf("CLASSIFIERS/%d//tree", numTrees-1))
+		if _, err := reader.GetBytesForKey(lastTree); err != nil {
+			return base.FormatError(err, "Can't read a forest of %d trees", numTrees)
+		}
+	}
+	model := new(meta.BaggedModel)
+	for i := uint64(0); i < numTrees; i++ {
 		tree := trees.NewID3DecisionTree(0.00)
-		f.Model.AddModel(tree)
+		model.AddModel(tree)
 	}
 
-	return f.Model.LoadWithPrefix(reader, prefix)
+	if err := model.LoadWithPrefix(reader, prefix); err != nil {
+		return err
+	}
+	f.Model = model
+	f.ForestSize = int(numTrees)
+	f.Features = model.RandomFeatures
+	return nil
 }
diff --git a/meta/bagging.go b/meta/bagging.go
index e855f7e..516b9e0 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -239,7 +239,9 @@ func (b *BaggedModel) Save(filePath string) error {
 		return err
 	}
 	err = b.SaveWithPrefix(writer, "")
-	writer.Close()
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
@@ -269,6 +271,10 @@ func (b *BaggedModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix s
 		return writer.Prefix(prefix, writer.Prefix(n, fmt.Sprintf("%d", i)))
 	}
 
+	if b.fitOn == nil {
+		return fmt.Errorf("Fit must be called before saving")
+	}
+
 	// Export the number of random features
 	randomFeaturesKey := writer.Prefix(prefix, "NUM_RANDOM_FEATURES")
 	err := writer.WriteU64ForKey(randomFeaturesKey, uint64(b.RandomFeatures))
@@ -336,6 +342,15 @@ func (b *BaggedModel) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 		return base.DescribeError("Can't read NUM_RANDOM_FEATURES", err)
 	}
 
+	// Check that there's a classifier for everything that's been saved
+	numClassifiers, err := reader.GetU64ForKey(reader.Prefix(prefix, "NUM_CLASSIFIERS"))
+	if err != nil {
+		return base.DescribeError("Can't read NUM_CLASSIFIERS", err)
+	}
+	if numClassifiers != uint64(len(b.Models)) {
+		return fmt.Errorf("Expected %d classifiers to load, have %d", numClassifiers, len(b.Models))
+	}
+
 	b.RandomFeatures = int(randomFeatures)
 
 	// Reload the classifiers
diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index cb38181..74c31d4 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -227,6 +227,9 @@ func (m *OneVsAllModel) LoadWithPrefix(reader *base.ClassifierDeserializer, pref
 		return base.DescribeError("Can't read CLASS_VALUES", err)
 	}
 	m.classValues = classVals
+	if len(m.filters) != int(m.maxClassVal)+1 || len(classVals) != int(m.maxClassVal)+1 {
+		return fmt.Errorf("Expected %d filters and class values, got %d and %d", m.maxClassVal+1, len(m.filters), len(classVals))
+	}
 
 	// Reload the classifiers
 	m.classifiers = make([]base.Classifier, 0)
@@ -258,7 +261,11 @@ func (m *OneVsAllModel) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	return m.SaveWithPrefix(writer, "")
+	err = m.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -267,6 +274,10 @@ func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix
 		return writer.Prefix(prefix, writer.Prefix(n, fmt.Sprintf("%d", i)))
 	}
 
+	if m.fitOn == nil {
+		return fmt.Errorf("Fit must be called before saving")
+	}
+
 	// Save the instances
 	err := writer.WriteInstancesForKey(writer.Prefix(prefix, "INSTANCE_STRUCTURE"), m.fitOn, false)
 	if err != nil {
@@ -328,7 +339,7 @@ func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix
 		}
 	}
 
-	return writer.Close()
+	return nil
 }
 
 func (m *OneVsAllModel) generateAttributes(from base.FixedDataGrid) map[base.Attribute]base.Attribute {
-- 
2.43.0


From c529984c993833e61bbee64dde72532540b879f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 078/114] fix: naive: Save reports failures, Load closes its
 file

---
 naive/bernoulli_nb.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 478385e..58792de 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -76,7 +76,9 @@ func (nb *BernoulliNBClassifier) Save(filePath string) error {
 		return err
 	}
 	err = nb.SaveWithPrefix(writer, "")
-	writer.Close()
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
@@ -86,6 +88,8 @@ func (nb *BernoulliNBClassifier) Load(filePath string) error {
 		return err
 	}
 
+	defer reader.Close()
+
 	return nb.LoadWithPrefix(reader, "")
 }
 
@@ -137,6 +141,9 @@ func (nb *BernoulliNBClassifier) LoadWithPrefix(reader *base.ClassifierDeseriali
 }
 
 func (nb *BernoulliNBClassifier) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
+	if nb.fitOn == nil {
+		return fmt.Errorf("Fit must be called before saving")
+	}
 
 	// Save the instance template
 	err := writer.WriteInstancesForKey(writer.Prefix(prefix, "INSTANCE_STRUCTURE"), nb.fitOn, false)
-- 
2.43.0


From 26d8bc3cb5dcfd14d72152cf7434c2267d10225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:25 +0000
Subject: [PATCH 079/114] fix: linear_models: loading a damaged model is an
 error, not an endless loop

---
 linear_models/linear.cpp | 114 +++++++++++++++++++++++----------------
 1 file changed, 68 insertions(+), 46 deletions(-)

diff --git a/linear_models/linear.cpp b/linear_models/linear.cpp
index 68b7b6e..de31931 100644
--- a/linear_models/linear.cpp
+++ b/linear_models/linear.cpp
@@ -1,4 +1,5 @@
 #include <math.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -2646,25 +2647,37 @@ struct model *load_model(const char *model_file_name)
 	if(fp==NULL) return NULL;
 
 	int i;
-	int nr_feature;
 	int n;
-	int nr_class;
-	double bias;
+	int nr_label = 0;
 	model *model_ = Malloc(model,1);
 	parameter& param = model_->param;
 
+	param.solver_type = -1;
+	model_->nr_class = 0;
+	model_->nr_feature = -1;
+	model_->bias = -1;
 	model_->label = NULL;
+	model_->w = NULL;
 
 	char *old_locale = strdup(setlocale(LC_ALL, NULL));
 	setlocale(LC_ALL, "C");
 
 	char cmd[81];
-	while(1)
+	bool ok = true;
+	while(ok)
 	{
-		fscanf(fp,"%80s",cmd);
+		if(fscanf(fp,"%80s",cmd)!=1)
+		{
+			ok = false;
+			break;
+		}
 		if(strcmp(cmd,"solver_type")==0)
 		{
-			fscanf(fp,"%80s",cmd);
+			if(fscanf(fp,"%80s",cmd)!=1)
+			{
+				ok = false;
+				break;
+			}
 			int i;
 			for(i=0;solver_type_table[i];i++)
 			{
@@ -2677,28 +2690,20 @@ struct model *load_model(const char *model_file_name)
 			if(solver_type_table[i] == NULL)
 			{
 				fprintf(stderr,"unknown solver type.\n");
-
-				setlocale(LC_ALL, old_locale);
-				free(model_->label);
-				free(model_);
-				free(old_locale);
-				return NULL;
+				ok = false;
 			}
 		}
 		else if(strcmp(cmd,"nr_class")==0)
 		{
-			fscanf(fp,"%d",&nr_class);
-			model_->nr_class=nr_class;
+			ok = fscanf(fp,"%d",&model_->nr_class)==1;
 		}
 		else if(strcmp(cmd,"nr_feature")==0)
 		{
-			fscanf(fp,"%d",&nr_feature);
-			model_->nr_feature=nr_feature;
+			ok = fscanf(fp,"%d",&model_->nr_feature)==1;
 		}
 		else if(strcmp(cmd,"bias")==0)
 		{
-			fscanf(fp,"%lf",&bias);
-			model_->bias=bias;
+			ok = fscanf(fp,"%lf",&model_->bias)==1;
 		}
 		else if(strcmp(cmd,"w")==0)
 		{
@@ -2706,47 +2711,64 @@ struct model *load_model(const char *model_file_name)
 		}
 		else if(strcmp(cmd,"label")==0)
 		{
-			int nr_class = model_->nr_class;
-			model_->label = Malloc(int,nr_class);
-			for(int i=0;i<nr_class;i++)
-				fscanf(fp,"%d",&model_->label[i]);
+			nr_label = model_->nr_class;
+			free(model_->label);
+			model_->label = nr_label > 0 ? Malloc(int,nr_label) : NULL;
+			ok = model_->label != NULL;
+			for(int i=0;ok && i<nr_label;i++)
+				ok = fscanf(fp,"%d",&model_->label[i])==1;
 		}
 		else
 		{
 			fprintf(stderr,"unknown text in model file: [%s]\n",cmd);
-			setlocale(LC_ALL, old_locale);
-			free(model_->label);
-			free(model_);
-			free(old_locale);
-			return NULL;
+			ok = false;
 		}
 	}
 
-	nr_feature=model_->nr_feature;
-	if(model_->bias>=0)
-		n=nr_feature+1;
-	else
-		n=nr_feature;
-	int w_size = n;
-	int nr_w;
-	if(nr_class==2 && param.solver_type != MCSVM_CS)
-		nr_w = 1;
-	else
-		nr_w = nr_class;
-
-	model_->w=Malloc(double, w_size*nr_w);
-	for(i=0; i<w_size; i++)
+	// Everything needed has to be there before there's anything to allocate
+	int nr_feature=model_->nr_feature;
+	int nr_class=model_->nr_class;
+	bool regression = param.solver_type == L2R_L2LOSS_SVR
+		|| param.solver_type == L2R_L2LOSS_SVR_DUAL
+		|| param.solver_type == L2R_L1LOSS_SVR_DUAL;
+	if(param.solver_type < 0 || nr_class < 1 || nr_feature < 0 || nr_feature == INT_MAX
+		|| (nr_label != nr_class && !(regression && nr_label == 0)))
+		ok = false;
+
+	if(ok)
 	{
-		int j;
-		for(j=0; j<nr_w; j++)
-			fscanf(fp, "%lf ", &model_->w[i*nr_w+j]);
-		fscanf(fp, "\n");
+		if(model_->bias>=0)
+			n=nr_feature+1;
+		else
+			n=nr_feature;
+		int nr_w;
+		if(nr_class==2 && param.solver_type != MCSVM_CS)
+			nr_w = 1;
+		else
+			nr_w = nr_class;
+
+		model_->w=(double *)malloc((size_t)n*nr_w*sizeof(double));
+		ok = model_->w != NULL || n == 0;
+		for(i=0; ok && i<n; i++)
+		{
+			int j;
+			for(j=0; ok && j<nr_w; j++)
+				ok = fscanf(fp, "%lf ", &model_->w[(size_t)i*nr_w+j])==1;
+		}
 	}
 
 	setlocale(LC_ALL, old_locale);
 	free(old_locale);
 
-	if (ferror(fp) != 0 || fclose(fp) != 0) return NULL;
+	if (ferror(fp) != 0) ok = false;
+	if (fclose(fp) != 0) ok = false;
+	if (!ok)
+	{
+		free(model_->w);
+		free(model_->label);
+		free(model_);
+		return NULL;
+	}
 
 	return model_;
 }
-- 
2.43.0


From 967d9e90e841d76112f5e96425ced5b28c8a8e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:27 +0000
Subject: [PATCH 080/114] fix: linear_models: saved models hold the exact
 weights

---
 linear_models/linear.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_models/linear.cpp b/linear_models/linear.cpp
index de31931..8a82d4b 100644
--- a/linear_models/linear.cpp
+++ b/linear_models/linear.cpp
@@ -2623,14 +2623,14 @@ int save_model(const char *model_file_name, const struct model *model_)
 
 	fprintf(fp, "nr_feature %d\n", nr_feature);
 
-	fprintf(fp, "bias %.16g\n", model_->bias);
+	fprintf(fp, "bias %.17g\n", model_->bias);
 
 	fprintf(fp, "w\n");
 	for(i=0; i<w_size; i++)
 	{
 		int j;
 		for(j=0; j<nr_w; j++)
-			fprintf(fp, "%.16g ", model_->w[i*nr_w+j]);
+			fprintf(fp, "%.17g ", model_->w[i*nr_w+j]);
 		fprintf(fp, "\n");
 	}
 
-- 
2.43.0


From aea6a8385196fa6d8e3a7d68d8439ca577ce21fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:27 +0000
Subject: [PATCH 081/114] fix: base: a saved file with a wrong checksum is an
 error instead of different values

---
 base/serialize.go           | 5 +++++
 base/serialize_instances.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/base/serialize.go b/base/serialize.go
index 775d612..ed19923 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -133,6 +133,11 @@ func ReadSerializedClassifierStub(filePath string) (reader *ClassifierDeserializ
 		return nil, DescribeError("Can't decompress", err)
 	}
 
+	// The checksum is only verified at the end of the file
+	if _, err = io.Copy(ioutil.Discard, gzr); err != nil {
+		return nil, DescribeError("Can't decompress", err)
+	}
+
 	regenerateFunc := func() *tar.Reader {
 		f.Seek(0, os.SEEK_SET)
 		gzr.Reset(f)
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 9e269b9..e105b41 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -6,6 +6,7 @@ import (
 	"encoding/csv"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"reflect"
 	"runtime"
@@ -210,6 +211,10 @@ func DeserializeInstances(f io.ReadSeeker) (ret *DenseInstances, err error) {
 	if err != nil {
 		panic(WrapError(err))
 	}
+	// The checksum is only verified at the end of the file
+	if _, err = io.Copy(ioutil.Discard, gzReader); err != nil {
+		return nil, DescribeError("Can't decompress", err)
+	}
 	regenerateTarReader := func() *tar.Reader {
 		f.Seek(0, os.SEEK_SET)
 		gzReader.Reset(f)
-- 
2.43.0


From 0b3600854952cc7e1de802b99242c3d210e20c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:28 +0000
Subject: [PATCH 082/114] fix: base: of several entries with one name, the most
 recent is returned as documented

---
 base/serialize.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/base/serialize.go b/base/serialize.go
index ed19923..eb1db71 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -59,7 +59,6 @@ func (f *FunctionalTarReader) GetNamedFile(name string) ([]byte, error) {
 			}
 
 			returnCandidate = ret
-			break
 		}
 	}
 	if returnCandidate == nil {
-- 
2.43.0


From 22e7369c81022a35c033f386a593e729d02190d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:45 +0000
Subject: [PATCH 083/114] fix: base: a filter applies to grids with equal
 Attributes, not only to the very ones it was made from

---
 base/filtered.go | 63 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 11 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index 7719671..26532f8 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -16,6 +16,7 @@ type LazilyFilteredInstances struct {
 	attrs         []FilteredAttribute
 	classAttrs    map[Attribute]bool
 	unfilteredMap map[Attribute]bool
+	filterAttrs   map[Attribute]Attribute
 }
 
 // NewLazilyFitleredInstances returns a new FixedDataGrid after
@@ -31,8 +32,22 @@ func NewLazilyFilteredInstances(src FixedDataGrid, f Filter) *LazilyFilteredInst
 	for _, a := range src.AllAttributes() {
 		unFilteredMap[a] = true
 	}
+	// The Filter may have been created using equal Attributes of another
+	// FixedDataGrid: it only recognises its own
+	filterAttrs := make(map[Attribute]Attribute)
+	for _, a := range attrs {
+		for b := range unFilteredMap {
+			if a.Old.Equals(b) {
+				unFilteredMap[b] = false
+				filterAttrs[b] = a.Old
+			}
+		}
+	}
 	for _, a := range attrs {
 		unFilteredMap[a.Old] = false
+		if _, ok := unFilteredMap[a.New]; !ok {
+			unFilteredMap[a.New] = false
+		}
 	}
 
 	// Create the return structure
@@ -42,6 +57,7 @@ func NewLazilyFilteredInstances(src FixedDataGrid, f Filter) *LazilyFilteredInst
 		attrs,
 		make(map[Attribute]bool),
 		unFilteredMap,
+		filterAttrs,
 	}
 
 	// Transfer class Attributes
@@ -51,9 +67,34 @@ func NewLazilyFilteredInstances(src FixedDataGrid, f Filter) *LazilyFilteredInst
 	return ret
 }
 
+// unfiltered returns the source's version of an Attribute, or nil
+// if the Filter changes it or it's unknown.
+func (l *LazilyFilteredInstances) unfiltered(target Attribute) Attribute {
+	if unfiltered, ok := l.unfilteredMap[target]; ok {
+		if unfiltered {
+			return target
+		}
+		return nil
+	}
+	for a, unfiltered := range l.unfilteredMap {
+		if unfiltered && a.Equals(target) {
+			return a
+		}
+	}
+	return nil
+}
+
+// transform applies the Filter, using the Filter's version of the Attribute.
+func (l *LazilyFilteredInstances) transform(old, to Attribute, seq []byte) []byte {
+	if a, ok := l.filterAttrs[old]; ok {
+		old = a
+	}
+	return l.filter.Transform(old, to, seq)
+}
+
 // GetAttribute returns an AttributeSpecification for a given Attribute
 func (l *LazilyFilteredInstances) GetAttribute(target Attribute) (AttributeSpec, error) {
-	if l.unfilteredMap[target] {
+	if l.unfiltered(target) != nil {
 		return l.src.GetAttribute(target)
 	}
 	var ret AttributeSpec
@@ -61,7 +102,7 @@ func (l *LazilyFilteredInstances) GetAttribute(target Attribute) (AttributeSpec,
 	for i, a := range l.attrs {
 		if a.New.Equals(target) {
 			ret.position = i
-			ret.attr = target
+			ret.attr = a.New
 			return ret, nil
 		}
 	}
@@ -89,8 +130,8 @@ func (l *LazilyFilteredInstances) AllAttributes() []Attribute {
 // AddClassAttribute adds a given Attribute (either before or after filtering)
 // to the set of defined class Attributes.
 func (l *LazilyFilteredInstances) AddClassAttribute(cls Attribute) error {
-	if l.unfilteredMap[cls] {
-		l.classAttrs[cls] = true
+	if a := l.unfiltered(cls); a != nil {
+		l.classAttrs[a] = true
 		return nil
 	}
 	matched := false
@@ -109,8 +150,8 @@ func (l *LazilyFilteredInstances) AddClassAttribute(cls Attribute) error {
 // RemoveClassAttribute removes a given Attribute (either before or
 // after filtering) from the set of defined class Attributes.
 func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
-	if l.unfilteredMap[cls] {
-		l.classAttrs[cls] = false
+	if a := l.unfiltered(cls); a != nil {
+		l.classAttrs[a] = false
 		return nil
 	}
 	matched := false
@@ -142,7 +183,7 @@ func (l *LazilyFilteredInstances) AllClassAttributes() []Attribute {
 }
 
 func (l *LazilyFilteredInstances) transformNewToOldAttribute(as AttributeSpec) (AttributeSpec, error) {
-	if l.unfilteredMap[as.GetAttribute()] {
+	if l.unfiltered(as.GetAttribute()) != nil {
 		return as, nil
 	}
 	for _, a := range l.attrs {
@@ -164,10 +205,10 @@ func (l *LazilyFilteredInstances) Get(as AttributeSpec, row int) []byte {
 		panic(fmt.Sprintf("Attribute %s could not be resolved. (Error: %s)", as.String(), err.Error()))
 	}
 	byteSeq := l.src.Get(asOld, row)
-	if l.unfilteredMap[as.attr] {
+	if l.unfiltered(as.attr) != nil {
 		return byteSeq
 	}
-	newByteSeq := l.filter.Transform(asOld.attr, as.attr, byteSeq)
+	newByteSeq := l.transform(asOld.attr, as.attr, byteSeq)
 	return newByteSeq
 }
 
@@ -190,11 +231,11 @@ func (l *LazilyFilteredInstances) MapOverRows(asv []AttributeSpec, mapFunc func(
 	newRowBuf := make([][]byte, len(asv))
 	return l.src.MapOverRows(oldAsv, func(oldRow [][]byte, oldRowNo int) (bool, error) {
 		for i, b := range oldRow {
-			if l.unfilteredMap[asv[i].attr] {
+			if l.unfiltered(asv[i].attr) != nil {
 				newRowBuf[i] = b
 				continue
 			}
-			newField := l.filter.Transform(oldAsv[i].attr, asv[i].attr, b)
+			newField := l.transform(oldAsv[i].attr, asv[i].attr, b)
 			newRowBuf[i] = newField
 		}
 		return mapFunc(newRowBuf, oldRowNo)
-- 
2.43.0


From 9ed01bc96960098f6a1b8a0fd9364f780d8fa7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:45 +0000
Subject: [PATCH 084/114] fix: meta: OneVsAllModel.Fit reports unsupported
 class attributes as errors

---
 meta/one_v_all.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index 74c31d4..4e72d09 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -38,9 +38,12 @@ func (m *OneVsAllModel) Fit(using base.FixedDataGrid) error {
 	var classAttr *base.CategoricalAttribute
 	// Do some validation
 	classAttrs := using.AllClassAttributes()
+	if len(classAttrs) != 1 {
+		return fmt.Errorf("Only 1 class Attribute is supported, had %d", len(classAttrs))
+	}
 	for _, a := range classAttrs {
 		if c, ok := a.(*base.CategoricalAttribute); !ok {
-			panic("Unsupported ClassAttribute type")
+			return fmt.Errorf("Unsupported ClassAttribute type: %v", a)
 		} else {
 			classAttr = c
 		}
@@ -57,7 +60,7 @@ func (m *OneVsAllModel) Fit(using base.FixedDataGrid) error {
 		}
 	}
 	if val == 0 {
-		panic("Must have more than one class!")
+		return fmt.Errorf("Must have more than one class!")
 	}
 	m.maxClassVal = val
 
-- 
2.43.0


From 055da43e3e6a4e9214fb7e116002f2ce49460cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:18 +0000
Subject: [PATCH 085/114] fix: base: a classifier file that can't be completed
 is closed all the same

---
 base/serialize.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/serialize.go b/base/serialize.go
index eb1db71..026e4d3 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -272,6 +272,9 @@ type ClassifierSerializer struct {
 // Close finalizes the Classifier serialization session.
 func (c *ClassifierSerializer) Close() error {
 
+	// Whatever happens, don't leave the file open (closing it twice is harmless)
+	defer c.fileWriter.Close()
+
 	// Finally, close and flush the various levels
 	if err := c.tarWriter.Flush(); err != nil {
 		return fmt.Errorf("Could not flush tar: %s", err)
@@ -419,10 +422,12 @@ func CreateSerializedClassifierStub(filePath string, metadata ClassifierMetadata
 		Size: int64(len(SerializationFormatVersion)),
 	}
 	if err := tw.WriteHeader(hdr); err != nil {
+		f.Close()
 		return nil, fmt.Errorf("Could not write CLS_MANIFEST header: %s", err)
 	}
 
 	if _, err := tw.Write([]byte(SerializationFormatVersion)); err != nil {
+		f.Close()
 		return nil, fmt.Errorf("Could not write CLS_MANIFEST contents: %s", err)
 	}
 
@@ -431,6 +436,7 @@ func CreateSerializedClassifierStub(filePath string, metadata ClassifierMetadata
 	//
 	err = ret.WriteMetadataAtPrefix("", metadata)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("JSON marshal error: %s", err)
 	}
 
-- 
2.43.0


From 0ab9b23602deabd1c8c2c761c9e234e1488387fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:04 +0000
Subject: [PATCH 086/114] fix: ensemble: MultiLinearSVC.Load replaces
 parameters and weights, and survives empty ones

---
 ensemble/multisvc.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 5c58dd2..921bb52 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -156,16 +156,20 @@ func (m *MultiLinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, pre
 	p := func(fName string) string {
 		return fmt.Sprintf("%s/%s", prefix, fName)
 	}
-	err := reader.GetJSONForKey(p("params"), &m.parameters)
+	params := &linear_models.LinearSVCParams{}
+	err := reader.GetJSONForKey(p("params"), params)
 	if err != nil {
 		return fmt.Errorf("Can't load parameters: %v", err)
 	}
 
-	err = reader.GetJSONForKey(p("weights"), &m.weights)
+	var weights map[string]float64
+	err = reader.GetJSONForKey(p("weights"), &weights)
 	if err != nil {
 		return fmt.Errorf("Can't load parameters: %v", err)
 	}
 
+	m.parameters = params
+	m.weights = weights
 	m.initializeOneVsAllModel()
 
 	// Load the model
-- 
2.43.0


From bee2c818f9305782b209e8c41d75ab84b7444ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 087/114] fix: trees refuse grids without exactly one class,
 and predictions before Fit, with an error

---
 trees/id3.go    | 20 ++++++++++++++++++++
 trees/random.go |  3 +++
 2 files changed, 23 insertions(+)

diff --git a/trees/id3.go b/trees/id3.go
index 2252343..c7b59eb 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -117,6 +117,14 @@ func getClassAttr(from base.FixedDataGrid) base.Attribute {
 	return allClassAttrs[0]
 }
 
+// checkClassAttr checks that there's exactly one class Attribute.
+func checkClassAttr(from base.FixedDataGrid) error {
+	if n := len(from.AllClassAttributes()); n != 1 {
+		return fmt.Errorf("%d class Attributes (1 expected)", n)
+	}
+	return nil
+}
+
 // Save sends the classification tree to an output file
 func (d *DecisionTreeNode) Save(filePath string) error {
 	metadata := base.ClassifierMetadataV1{
@@ -398,6 +406,12 @@ func (d *DecisionTreeNode) Prune(using base.FixedDataGrid) {
 
 // Predict outputs a base.Instances containing predictions from this tree
 func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid, error) {
+	if d == nil {
+		return nil, fmt.Errorf("Fit must be called before Predict")
+	}
+	if err := checkClassAttr(what); err != nil {
+		return nil, err
+	}
 	predictions := base.GeneratePredictionVector(what)
 	classAttr := getClassAttr(predictions)
 	classAttrSpec, err := predictions.GetAttribute(classAttr)
@@ -481,6 +495,9 @@ func (o ClassesProba) Less(i, j int) bool {
 // Predict class probabilities of the input samples what, returns a sorted array (by probability) of classes, and another array representing it's probabilities
 func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, error) {
 	d := t.Root
+	if d == nil {
+		return nil, fmt.Errorf("Fit must be called before PredictProba")
+	}
 	predictions := base.GeneratePredictionVector(what)
 	predAttrs := base.AttributeDifferenceReferences(what.AllAttributes(), predictions.AllClassAttributes())
 	predAttrSpecs := base.ResolveAttributes(what, predAttrs)
@@ -595,6 +612,9 @@ func (t *ID3DecisionTree) Fit(on base.FixedDataGrid) error {
 	if _, rows := on.Size(); rows == 0 {
 		return fmt.Errorf("no training data")
 	}
+	if err := checkClassAttr(on); err != nil {
+		return err
+	}
 	if t.PruneSplit > 0.001 {
 		// Split a view, since splitting shuffles DenseInstances in place
 		trainData, testData := base.InstancesTrainTestSplit(base.LazyShuffle(on), t.PruneSplit)
diff --git a/trees/random.go b/trees/random.go
index 33e5276..0d3ad26 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -72,6 +72,9 @@ func (rt *RandomTree) Fit(from base.FixedDataGrid) error {
 	if _, rows := from.Size(); rows == 0 {
 		return fmt.Errorf("no training data")
 	}
+	if err := checkClassAttr(from); err != nil {
+		return err
+	}
 	rt.Root = InferID3Tree(from, rt.Rule)
 	return nil
 }
-- 
2.43.0


From 276c43b0f87ea71a87112c0dc56011880b973985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 088/114] fix: naive Bayes returns an error for grids without
 exactly one class

---
 naive/bernoulli_nb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 58792de..38f19a1 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -343,6 +343,10 @@ func (nb *BernoulliNBClassifier) PredictOne(vector [][]byte) string {
 // IMPORTANT: Predict panics if Fit was not called or if the
 // document vector and train matrix have a different number of columns.
 func (nb *BernoulliNBClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid, error) {
+	if n := len(what.AllClassAttributes()); n != 1 {
+		return nil, fmt.Errorf("%d class Attributes (1 expected)", n)
+	}
+
 	// Generate return vector
 	ret := base.GeneratePredictionVector(what)
 
-- 
2.43.0


From 6b618d26387bd45d0a308e3e558c91a89f9cd48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 089/114] fix: bagged models return an error for grids without
 exactly one class

---
 meta/bagging.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meta/bagging.go b/meta/bagging.go
index 516b9e0..5f5fdd3 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -114,6 +114,9 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 	if b.selectedAttributes == nil {
 		return nil, fmt.Errorf("Fit must be called before Predict")
 	}
+	if n := len(from.AllClassAttributes()); n != 1 {
+		return nil, fmt.Errorf("%d class Attributes (1 expected)", n)
+	}
 	for i := range b.Models {
 		for _, a := range b.selectedAttributes[i] {
 			if _, err := from.GetAttribute(a); err != nil {
-- 
2.43.0


From 4eca03f12037fd8b5f80fa86730cc1b94ebee75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 090/114] fix: kNN returns an error if Fit was not called

---
 knn/knn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knn/knn.go b/knn/knn.go
index 36ade57..5e0b635 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -123,6 +123,10 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		return nil, errors.New("unsupported searching algorithm")
 	}
 
+	if KNN.TrainingData == nil {
+		return nil, errors.New("Fit must be called before Predict")
+	}
+
 	// Check Compatibility
 	allAttrs := base.CheckCompatible(what, KNN.TrainingData)
 	if allAttrs == nil {
-- 
2.43.0


From 904a49b0f67597893298c60d523e2300985914a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:40 +0000
Subject: [PATCH 091/114] fix: trees return an error for a class of another
 type

---
 trees/id3.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trees/id3.go b/trees/id3.go
index c7b59eb..4f4aaf4 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -414,6 +414,9 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	}
 	predictions := base.GeneratePredictionVector(what)
 	classAttr := getClassAttr(predictions)
+	if d.ClassAttr != nil && d.ClassAttr.GetType() != classAttr.GetType() {
+		return nil, fmt.Errorf("can't predict %v with a tree built for %v", classAttr, d.ClassAttr)
+	}
 	classAttrSpec, err := predictions.GetAttribute(classAttr)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 743c53d995eb02cf118ed77f5e9ad6cac34e075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:40 +0000
Subject: [PATCH 092/114] fix: naive Bayes can predict when fitted without
 features

---
 naive/bernoulli_nb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 38f19a1..e7f8180 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -290,7 +290,7 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 // IMPORTANT: PredictOne panics if Fit was not called or if the
 // document vector and train matrix have a different number of columns.
 func (nb *BernoulliNBClassifier) PredictOne(vector [][]byte) string {
-	if nb.features == 0 {
+	if nb.trainingInstances == 0 {
 		panic("Fit should be called before predicting")
 	}
 
-- 
2.43.0


From 90fb7b21beb61b6ce6145c6e9e29bd2725a7be5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:14 +0000
Subject: [PATCH 093/114] fix: kNN returns an error if the class is not the one
 trained for

---
 knn/knn.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/knn/knn.go b/knn/knn.go
index 5e0b635..6bbb3c0 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -134,6 +134,13 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		return nil, errors.New("attributes not compatible")
 	}
 
+	// Check that there's one class to predict, the one in the training data
+	trainClasses := KNN.TrainingData.AllClassAttributes()
+	classes := what.AllClassAttributes()
+	if len(trainClasses) != 1 || len(classes) != 1 || !classes[0].Equals(trainClasses[0]) {
+		return nil, errors.New("class attributes not compatible")
+	}
+
 	// Check that there are enough neighbours to be found
 	_, trainRows := KNN.TrainingData.Size()
 	if KNN.NearestNeighbours < 1 || KNN.NearestNeighbours > trainRows {
-- 
2.43.0


From 0709bafbc1cb70be2762e30e760a6a79fd922b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:14 +0000
Subject: [PATCH 094/114] fix: bagged models whose Fit failed refuse to predict

---
 meta/bagging.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meta/bagging.go b/meta/bagging.go
index 5f5fdd3..cba0ff8 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -98,6 +98,8 @@ func (b *BaggedModel) Fit(from base.FixedDataGrid) error {
 	wait.Wait()
 	for i, err := range errs {
 		if err != nil {
+			// The models can't be used for prediction
+			b.selectedAttributes = nil
 			return base.FormatError(err, "Can't fit model %d", i)
 		}
 	}
-- 
2.43.0


From 6541d213d6b0d5d27ff69b3b146c391b023a2ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:41 +0000
Subject: [PATCH 095/114] fix: naive Bayes returns an error for a class of
 another type

---
 naive/bernoulli_nb.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index e7f8180..d3bcc18 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -343,8 +343,15 @@ func (nb *BernoulliNBClassifier) PredictOne(vector [][]byte) string {
 // IMPORTANT: Predict panics if Fit was not called or if the
 // document vector and train matrix have a different number of columns.
 func (nb *BernoulliNBClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid, error) {
-	if n := len(what.AllClassAttributes()); n != 1 {
-		return nil, fmt.Errorf("%d class Attributes (1 expected)", n)
+	classAttrs := what.AllClassAttributes()
+	if len(classAttrs) != 1 {
+		return nil, fmt.Errorf("%d class Attributes (1 expected)", len(classAttrs))
+	}
+	if nb.fitOn != nil {
+		// Check that it can hold the classes which were trained
+		if cls := nb.fitOn.AllClassAttributes()[0]; cls.GetType() != classAttrs[0].GetType() {
+			return nil, fmt.Errorf("can't predict %v having trained with %v", classAttrs[0], cls)
+		}
 	}
 
 	// Generate return vector
-- 
2.43.0


From a506b725c3f97a496dc61e7612a5b417655a020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:08 +0000
Subject: [PATCH 096/114] fix: kNN predicts a neighbour's class when distances
 are not numbers

---
 knn/knn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/knn/knn.go b/knn/knn.go
index 6bbb3c0..fc3ca9f 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -342,8 +342,12 @@ func (KNN *KNNClassifier) weightedVote(maxmap map[string]float64, values []int,
 	// (a tie goes to the label of the nearer neighbour)
 	var maxClass string
 	maxVal := -1.0
-	for _, elem := range values {
+	for k, elem := range values {
 		a := base.GetClass(KNN.TrainingData, elem)
+		if k == 0 {
+			// (distances which aren't numbers don't win against others)
+			maxClass = a
+		}
 		if maxmap[a] > maxVal {
 			maxVal = maxmap[a]
 			maxClass = a
-- 
2.43.0


From 9c64a78be86e171ec1ef81eb5058f5d2858773a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:19 +0000
Subject: [PATCH 097/114] fix: liblinear models are freed

---
 linear_models/liblinear.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/linear_models/liblinear.go b/linear_models/liblinear.go
index 0679a13..f07b919 100644
--- a/linear_models/liblinear.go
+++ b/linear_models/liblinear.go
@@ -112,11 +112,30 @@ func NewProblem(X [][]float64, y []float64, bias float64) *Problem {
 	return prob
 }
 
+// set makes the Model own a C model: it's freed when it's replaced, or
+// when the Model isn't used any more.
+func (m *Model) set(c_model *C.struct_model) {
+	runtime.SetFinalizer(m, nil)
+	m.free()
+	m.c_model = unsafe.Pointer(c_model)
+	runtime.SetFinalizer(m, (*Model).free)
+}
+
+func (m *Model) free() {
+	c_model := (*C.struct_model)(m.c_model)
+	m.c_model = nil
+	if c_model != nil {
+		C.free_model_content(c_model)
+		C.free(unsafe.Pointer(c_model))
+	}
+}
+
 func Train(prob *Problem, param *Parameter) *Model {
 	libLinearHookPrintFunc() // Sets up logging
 	tmpCProb := &prob.c_prob
 	tmpCParam := &param.c_param
-	ret := &Model{unsafe.Pointer(C.train(tmpCProb, tmpCParam))}
+	ret := &Model{}
+	ret.set(C.train(tmpCProb, tmpCParam))
 	runtime.KeepAlive(prob)
 	return ret
 }
@@ -125,6 +144,7 @@ func Export(model *Model, filePath string) error {
 	c_path := C.CString(filePath)
 	defer C.free(unsafe.Pointer(c_path))
 	status := C.save_model(c_path, (*C.struct_model)(model.c_model))
+	runtime.KeepAlive(model)
 	if status != 0 {
 		return fmt.Errorf("Problem occured during export to %s (status was %d)", filePath, status)
 	}
@@ -134,7 +154,7 @@ func Export(model *Model, filePath string) error {
 func Load(model *Model, filePath string) error {
 	c_path := C.CString(filePath)
 	defer C.free(unsafe.Pointer(c_path))
-	model.c_model = unsafe.Pointer(C.load_model(c_path))
+	model.set(C.load_model(c_path))
 	if model.c_model == nil {
 		return fmt.Errorf("Something went wrong")
 	}
@@ -145,6 +165,7 @@ func Predict(model *Model, x []float64) float64 {
 	c_model := (*C.struct_model)(model.c_model)
 	c_x := convert_vector(x, int(c_model.nr_feature), float64(c_model.bias))
 	c_y := C.predict(c_model, c_x)
+	runtime.KeepAlive(model)
 	y := float64(c_y)
 	return y
 }
-- 
2.43.0


From 16eb7ad39da1be96213adba7b3b1e7a0c6888a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 098/114] fix: the conjugate gradient solver ends on denormal
 residuals

---
 linear_models/tron.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/linear_models/tron.cpp b/linear_models/tron.cpp
index 7d1fd6e..504ce20 100644
--- a/linear_models/tron.cpp
+++ b/linear_models/tron.cpp
@@ -178,7 +178,8 @@ int TRON::trcg(double delta, double *g, double *s, double *r)
 	rTr = ddot_(&n, r, &inc, r, &inc);
 	while (1)
 	{
-		if (dnrm2_(&n, r, &inc) <= cgtol)
+		// (the square of a tiny residual is zero)
+		if (dnrm2_(&n, r, &inc) <= cgtol || rTr <= 0)
 			break;
 		cg_iter++;
 		fun_obj->Hv(d, Hd);
-- 
2.43.0


From 55043f49343025e0ab42edcc3cf769adf0a3e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 099/114] fix: training a conversion filter again no longer
 duplicates its attributes

---
 filters/binary.go | 2 ++
 filters/float.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/filters/binary.go b/filters/binary.go
index de95b09..26b916f 100644
--- a/filters/binary.go
+++ b/filters/binary.go
@@ -115,6 +115,8 @@ func (b *BinaryConvertFilter) Transform(a base.Attribute, n base.Attribute, attr
 // If the CategoricalAttribute has more than two (n) values, the Filter
 // generates n BinaryAttributes and sets each of them if the value's observed.
 func (b *BinaryConvertFilter) Train() error {
+	// Forget what an earlier call computed
+	b.converted = make([]base.FilteredAttribute, 0)
 	for _, a := range b.attrs {
 		if ac, ok := a.(*base.CategoricalAttribute); ok {
 			vals := ac.GetValues()
diff --git a/filters/float.go b/filters/float.go
index f80bf0b..ce38d0c 100644
--- a/filters/float.go
+++ b/filters/float.go
@@ -105,6 +105,8 @@ func (f *FloatConvertFilter) Transform(a base.Attribute, n base.Attribute, attrB
 // If the CategoricalAttribute has more than two (n) values, the Filter
 // generates n FloatAttributes and sets each of them if the value's observed.
 func (f *FloatConvertFilter) Train() error {
+	// Forget what an earlier call computed
+	f.converted = make([]base.FilteredAttribute, 0)
 	for _, a := range f.attrs {
 		if ac, ok := a.(*base.CategoricalAttribute); ok {
 			vals := ac.GetValues()
-- 
2.43.0


From fe05165a3a6ff6d361de5feb99d2169ae1157699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 100/114] fix: a weight set after the first update is a
 connection like any other

---
 neural/network.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural/network.go b/neural/network.go
index 080c213..a0085f8 100644
--- a/neural/network.go
+++ b/neural/network.go
@@ -77,6 +77,10 @@ func (n *Network) SetWeight(src, target int, v float64) {
 	src--
 	target--
 	n.weights.Set(target, src, v)
+	if n.origWeights != nil {
+		// UpdateWeights only keeps the connections found in there
+		n.origWeights.Set(target, src, v)
+	}
 }
 
 // SetBias sets the bias at a given neuron (counted from 1).
-- 
2.43.0


From 0fe1c86cc69651e770736c2344d1a91c6657c4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:15 +0000
Subject: [PATCH 101/114] fix: EM fitting ends when the components go round in
 circles

---
 clustering/em.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/clustering/em.go b/clustering/em.go
index 8afe636..c75bd95 100644
--- a/clustering/em.go
+++ b/clustering/em.go
@@ -17,6 +17,9 @@ var (
 	NoNumericAttributesError    = errors.New("Estimation requires at least one numeric attribute")
 )
 
+// maxIterations limits the number of steps which Fit takes
+const maxIterations = 1000
+
 type ExpectationMaximization struct {
 	n_comps int
 	eps     float64
@@ -75,11 +78,9 @@ func (em *ExpectationMaximization) Fit(inst base.FixedDataGrid) error {
 	p.Means = initMeans(X, em.n_comps, n_feats)
 	p.Covs = initCovariance(em.n_comps, n_feats)
 
-	// Iterate until convergence
-	for {
-		if dist < em.eps {
-			break
-		}
+	// Iterate until convergence, or give up: every row counts towards one
+	// component only, so the parameters can end up going round in circles
+	for iter := 0; iter < maxIterations && dist >= em.eps; iter++ {
 		y_new := expectation(X, p, em.n_comps)
 		p_new := maximization(X, y_new, p, em.n_comps)
 		dist = distance(p, p_new)
-- 
2.43.0


From aafba47148e84ff56c1f70e49067fb092a41a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:18 +0000
Subject: [PATCH 102/114] fix: discretisation filters accept Attributes equal
 to those of the training set

---
 filters/disc.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filters/disc.go b/filters/disc.go
index 42937bb..5fe23dd 100644
--- a/filters/disc.go
+++ b/filters/disc.go
@@ -17,11 +17,12 @@ func (d *AbstractDiscretizeFilter) AddAttribute(a base.Attribute) error {
 	if _, ok := a.(*base.FloatAttribute); !ok {
 		return fmt.Errorf("%s is not a FloatAttribute", a)
 	}
-	_, err := d.train.GetAttribute(a)
+	spec, err := d.train.GetAttribute(a)
 	if err != nil {
 		return fmt.Errorf("invalid attribute")
 	}
-	d.attrs[a] = true
+	// The argument only needs to equal the training set's Attribute
+	d.attrs[spec.GetAttribute()] = true
 	return nil
 }
 
-- 
2.43.0


From a6a021d5ec164327ccd58acff890b9a638175e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:47 +0000
Subject: [PATCH 103/114] fix: views resolve the class attributes they are
 given

---
 base/view.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/base/view.go b/base/view.go
index 225a0ae..2b903fa 100644
--- a/base/view.go
+++ b/base/view.go
@@ -152,24 +152,23 @@ func (v *InstancesView) AllAttributes() []Attribute {
 // class Attributes, if it hasn't been filtered.
 func (v *InstancesView) AddClassAttribute(a Attribute) error {
 	// Check that this Attribute is defined
-	matched := false
 	for _, r := range v.AllAttributes() {
 		if r.Equals(a) {
-			matched = true
+			v.classAttrs[r] = true
+			return nil
 		}
 	}
-	if !matched {
-		return fmt.Errorf("Attribute has been filtered")
-	}
-
-	v.classAttrs[a] = true
-	return nil
+	return fmt.Errorf("Attribute has been filtered")
 }
 
 // RemoveClassAttribute removes the given Attribute from the set of
 // class Attributes.
 func (v *InstancesView) RemoveClassAttribute(a Attribute) error {
-	v.classAttrs[a] = false
+	for r := range v.classAttrs {
+		if r.Equals(a) {
+			v.classAttrs[r] = false
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From baade72f3c4ea3c945a068c62b6388292108c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:47 +0000
Subject: [PATCH 104/114] fix: read CSV and ARFF lines longer than 64 kB

---
 base/arff.go |  6 +++---
 base/csv.go  | 10 +++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 568a043..17b0706 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -90,7 +90,7 @@ func ParseARFFGetRows(filepath string) (int, error) {
 
 	counting := false
 	count := 0
-	scanner := bufio.NewScanner(f)
+	scanner := newLineScanner(f)
 	for scanner.Scan() {
 		line := scanner.Text()
 		if len(line) == 0 {
@@ -123,7 +123,7 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 	}
 	defer f.Close()
 
-	scanner := bufio.NewScanner(f)
+	scanner := newLineScanner(f)
 	for scanner.Scan() {
 		var attr Attribute
 		line := scanner.Text()
@@ -203,7 +203,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 		}
 	}()
 
-	scanner := bufio.NewScanner(r)
+	scanner := newLineScanner(r)
 	reading := false
 	specs := ResolveAttributes(u, attrs)
 	for scanner.Scan() {
diff --git a/base/csv.go b/base/csv.go
index 02e9c58..b97f1a6 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -5,6 +5,7 @@ import (
 	"encoding/csv"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"runtime"
 	"strings"
@@ -27,6 +28,13 @@ func ParseCSVGetRowsFromReader(r io.ReadSeeker) (int, error) {
 	return counter, nil
 }
 
+// newLineScanner returns a Scanner which isn't limited to lines of 64 kB.
+func newLineScanner(r io.Reader) *bufio.Scanner {
+	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt32)
+	return scanner
+}
+
 // ParseCSVEstimateFilePrecisionFromReader determines what the maximum number of
 // digits occuring anywhere after the decimal point within the reader.
 func ParseCSVEstimateFilePrecisionFromReader(r io.ReadSeeker) (int, error) {
@@ -37,7 +45,7 @@ func ParseCSVEstimateFilePrecisionFromReader(r io.ReadSeeker) (int, error) {
 	maxL := 0
 
 	r.Seek(0, 0)
-	scanner := bufio.NewScanner(r)
+	scanner := newLineScanner(r)
 	lineCount := 0
 	for scanner.Scan() {
 		if lineCount > 5 {
-- 
2.43.0


From 4a755357b55933d8c6e82d07d72ae4e566411f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:47 +0000
Subject: [PATCH 105/114] fix: training a conversion filter again forgets how
 many values attributes had

---
 filters/binary.go | 2 ++
 filters/float.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/filters/binary.go b/filters/binary.go
index 26b916f..0c5ac68 100644
--- a/filters/binary.go
+++ b/filters/binary.go
@@ -117,6 +117,8 @@ func (b *BinaryConvertFilter) Transform(a base.Attribute, n base.Attribute, attr
 func (b *BinaryConvertFilter) Train() error {
 	// Forget what an earlier call computed
 	b.converted = make([]base.FilteredAttribute, 0)
+	b.twoValuedCategoricalAttributes = make(map[base.Attribute]bool)
+	b.nValuedCategoricalAttributeMap = make(map[base.Attribute]map[uint64]base.Attribute)
 	for _, a := range b.attrs {
 		if ac, ok := a.(*base.CategoricalAttribute); ok {
 			vals := ac.GetValues()
diff --git a/filters/float.go b/filters/float.go
index ce38d0c..c83a41f 100644
--- a/filters/float.go
+++ b/filters/float.go
@@ -107,6 +107,8 @@ func (f *FloatConvertFilter) Transform(a base.Attribute, n base.Attribute, attrB
 func (f *FloatConvertFilter) Train() error {
 	// Forget what an earlier call computed
 	f.converted = make([]base.FilteredAttribute, 0)
+	f.twoValuedCategoricalAttributes = make(map[base.Attribute]bool)
+	f.nValuedCategoricalAttributeMap = make(map[base.Attribute]map[uint64]base.Attribute)
 	for _, a := range f.attrs {
 		if ac, ok := a.(*base.CategoricalAttribute); ok {
 			vals := ac.GetValues()
-- 
2.43.0


From a3c33725086c6b0700abbe288b6df46de2a28bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:47 +0000
Subject: [PATCH 106/114] fix: an error without description prints the error it
 wraps

---
 base/error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/error.go b/base/error.go
index c962670..c4bcbf7 100644
--- a/base/error.go
+++ b/base/error.go
@@ -30,7 +30,7 @@ func (g *GoLearnError) Error() string {
 	}
 
 	if g.Description == "" {
-		fmt.Sprintf("%s", g.WrappedError)
+		return fmt.Sprintf("%s", g.WrappedError)
 	}
 	return fmt.Sprintf("GoLearnError( %s: %s )", g.Description, g.WrappedError)
 }
-- 
2.43.0


From d2eabecc053209643814d9aacc77d304fe74a69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:47 +0000
Subject: [PATCH 107/114] fix: micro precision counts rows predicted as classes
 the reference lacks

---
 evaluation/confusion.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/evaluation/confusion.go b/evaluation/confusion.go
index eb71faf..57a427b 100644
--- a/evaluation/confusion.go
+++ b/evaluation/confusion.go
@@ -136,7 +136,12 @@ func GetMicroPrecision(c ConfusionMatrix) float64 {
 	falsePositives := 0.0
 	for k := range c {
 		truePositives += GetTruePositives(k, c)
-		falsePositives += GetFalsePositives(k, c)
+		// (a class may only ever have been predicted)
+		for l := range c[k] {
+			if l != k {
+				falsePositives += float64(c[k][l])
+			}
+		}
 	}
 	return truePositives / (truePositives + falsePositives)
 }
-- 
2.43.0


From d3de9545eef09b647dbd8098ca03c77558471a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:47 +0000
Subject: [PATCH 108/114] fix: the printed confusion matrix shows classes which
 were only predicted

---
 evaluation/confusion.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/evaluation/confusion.go b/evaluation/confusion.go
index 57a427b..828e715 100644
--- a/evaluation/confusion.go
+++ b/evaluation/confusion.go
@@ -212,15 +212,29 @@ func ShowConfusionMatrix(c ConfusionMatrix) string {
 	w.Init(&buffer, 0, 8, 0, '\t', 0)
 
 	ref := make([]string, 0)
-	fmt.Fprintf(w, "Reference Class\t")
 	for k := range c {
-		fmt.Fprintf(w, "%s\t", k)
 		ref = append(ref, k)
 	}
+	// Some classes may only ever have been predicted
+	pred := append([]string{}, ref...)
+	found := make(map[string]bool)
+	for _, k := range ref {
+		for l := range c[k] {
+			if _, ok := c[l]; !ok && !found[l] {
+				found[l] = true
+				pred = append(pred, l)
+			}
+		}
+	}
+
+	fmt.Fprintf(w, "Reference Class\t")
+	for _, k := range pred {
+		fmt.Fprintf(w, "%s\t", k)
+	}
 	fmt.Fprintf(w, "\n")
 
 	fmt.Fprintf(w, "---------------\t")
-	for _, v := range ref {
+	for _, v := range pred {
 		for t := 0; t < len(v); t++ {
 			fmt.Fprintf(w, "-")
 		}
@@ -230,7 +244,7 @@ func ShowConfusionMatrix(c ConfusionMatrix) string {
 
 	for _, v := range ref {
 		fmt.Fprintf(w, "%s\t", v)
-		for _, v2 := range ref {
+		for _, v2 := range pred {
 			fmt.Fprintf(w, "%d\t", c[v][v2])
 		}
 		fmt.Fprintf(w, "\n")
-- 
2.43.0


From 3fb4075b5aa816adfeefc7a5e146635a98c1139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:33 +0000
Subject: [PATCH 109/114] fix: SerializeInstancesToFile: close the file if
 writing fails

---
 base/serialize_instances.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index e105b41..cecba1d 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -17,6 +17,7 @@ func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	err = SerializeInstances(inst, f)
 	if err != nil {
 		return err
@@ -25,7 +26,6 @@ func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
 	if err != nil {
 		return fmt.Errorf("Couldn't flush file: %s", err)
 	}
-	f.Close()
 	return nil
 }
 
-- 
2.43.0


From 0d0dfa5e7f6396fccfb85be8599ec19f00374481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:44 +0000
Subject: [PATCH 110/114] fix: the optimised kNN search added up attribute
 groups in map order, so predictions changed from call to call

---
 knn/knn_opt_euclidean.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/knn/knn_opt_euclidean.go b/knn/knn_opt_euclidean.go
index 08be8c8..6db60d6 100644
--- a/knn/knn_opt_euclidean.go
+++ b/knn/knn_opt_euclidean.go
@@ -47,7 +47,13 @@ func (KNN *KNNClassifier) optimisedEuclideanPredict(d *base.DenseInstances) base
 	rowPointers := make([]*C.double, len(agPred))
 	trainPointers := make([]*C.double, len(agPred))
 	rowSizes := make([]int, len(agPred))
+	// (always in the same order, because sums of floats depend on it)
+	agNames := make([]string, 0, len(agPred))
 	for ag := range agPred {
+		agNames = append(agNames, ag)
+	}
+	sort.Strings(agNames)
+	for _, ag := range agNames {
 		if ap, ok := agPos[ag]; ok {
 
 			rowPointers[ap] = (*C.double)(unsafe.Pointer(&(agPred[ag].Storage()[0])))
@@ -67,7 +73,7 @@ func (KNN *KNNClassifier) optimisedEuclideanPredict(d *base.DenseInstances) base
 		for i := 0; i < trainRows; i++ {
 			distanceVec[i].dist = 0
 		}
-		for ag := range agPred {
+		for _, ag := range agNames {
 			if ap, ok := agPos[ag]; ok {
 				C.euclidean_distance(
 					&(distanceVec[0]),
-- 
2.43.0


From 31dbfb841ce8b65847779f73ce2d02314ab8b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:44 +0000
Subject: [PATCH 111/114] fix: attributes with names or values which aren't
 UTF-8 were saved as others without an error

---
 base/binary.go               |  3 +++
 base/categorical.go          |  6 ++++++
 base/float.go                |  3 +++
 base/serialize_attributes.go | 12 ++++++++++++
 4 files changed, 24 insertions(+)

diff --git a/base/binary.go b/base/binary.go
index 152ef01..d703500 100644
--- a/base/binary.go
+++ b/base/binary.go
@@ -13,6 +13,9 @@ type BinaryAttribute struct {
 
 // MarshalJSON returns a JSON version of this BinaryAttribute for serialisation.
 func (b *BinaryAttribute) MarshalJSON() ([]byte, error) {
+	if err := checkText(b.Name); err != nil {
+		return nil, err
+	}
 	return json.Marshal(map[string]interface{}{
 		"type": "binary",
 		"name": b.Name,
diff --git a/base/categorical.go b/base/categorical.go
index 5403bd5..417ed3d 100644
--- a/base/categorical.go
+++ b/base/categorical.go
@@ -15,6 +15,12 @@ type CategoricalAttribute struct {
 
 // MarshalJSON returns a JSON version of this Attribute.
 func (Attr *CategoricalAttribute) MarshalJSON() ([]byte, error) {
+	if err := checkText(Attr.Name); err != nil {
+		return nil, err
+	}
+	if err := checkText(Attr.values...); err != nil {
+		return nil, err
+	}
 	return json.Marshal(map[string]interface{}{
 		"type": "categorical",
 		"name": Attr.Name,
diff --git a/base/float.go b/base/float.go
index 56d4282..14aa19d 100644
--- a/base/float.go
+++ b/base/float.go
@@ -16,6 +16,9 @@ type FloatAttribute struct {
 // MarshalJSON returns a JSON representation of this Attribute
 // for serialisation.
 func (f *FloatAttribute) MarshalJSON() ([]byte, error) {
+	if err := checkText(f.Name); err != nil {
+		return nil, err
+	}
 	return json.Marshal(map[string]interface{}{
 		"type": "float",
 		"name": f.Name,
diff --git a/base/serialize_attributes.go b/base/serialize_attributes.go
index 30dc599..67c8606 100644
--- a/base/serialize_attributes.go
+++ b/base/serialize_attributes.go
@@ -4,8 +4,20 @@ import (
 	"archive/tar"
 	"encoding/json"
 	"fmt"
+	"unicode/utf8"
 )
 
+// checkText returns an error if JSON can't represent any of the strings, which
+// it would change silently.
+func checkText(text ...string) error {
+	for _, s := range text {
+		if !utf8.ValidString(s) {
+			return fmt.Errorf("%q isn't valid UTF-8", s)
+		}
+	}
+	return nil
+}
+
 func writeAttributesToFilePart(attrs []Attribute, f *tar.Writer, name string) error {
 	// Get the marshaled Attribute array
 	body, err := json.Marshal(attrs)
-- 
2.43.0


From b57f65e811c703275f9738902994c611235c43d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:06 +0000
Subject: [PATCH 112/114] fix: creating an AttributeGroup again hid the one
 which was there, and its Attributes from kNN

---
 base/dense.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/dense.go b/base/dense.go
index 9b5b874..c644d0c 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -135,7 +135,8 @@ func (inst *DenseInstances) createAttributeGroup(name string, size int) {
 // CreateAttributeGroup adds a new AttributeGroup to this set of instances
 // with a given name. If the size is 0, a bit-ag is added
 // if the size of not 0, then the size of each ag attribute
-// is set to that number of bytes.
+// is set to that number of bytes. Returns an error if there's
+// already a group of that name.
 func (inst *DenseInstances) CreateAttributeGroup(name string, size int) (err error) {
 	defer func() {
 		if r := recover(); r != nil {
@@ -149,6 +150,9 @@ func (inst *DenseInstances) CreateAttributeGroup(name string, size int) (err err
 	inst.lock.Lock()
 	defer inst.lock.Unlock()
 
+	if _, ok := inst.agMap[name]; ok {
+		return fmt.Errorf("AttributeGroup '%s' already exists", name)
+	}
 	inst.createAttributeGroup(name, size)
 	return nil
 }
-- 
2.43.0


From b2c155363562c6b09374c55b0353dfbaa067495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:22 +0000
Subject: [PATCH 113/114] fix: a class label as wide as its column does not run
 into the first count of the printed tables

---
 evaluation/confusion.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evaluation/confusion.go b/evaluation/confusion.go
index 828e715..b401d22 100644
--- a/evaluation/confusion.go
+++ b/evaluation/confusion.go
@@ -184,7 +184,7 @@ func GetMacroRecall(c ConfusionMatrix) float64 {
 func GetSummary(c ConfusionMatrix) string {
 	var buffer bytes.Buffer
 	w := new(tabwriter.Writer)
-	w.Init(&buffer, 0, 8, 0, '\t', 0)
+	w.Init(&buffer, 0, 8, 1, '\t', 0)
 
 	fmt.Fprintln(w, "Reference Class\tTrue Positives\tFalse Positives\tTrue Negatives\tPrecision\tRecall\tF1 Score")
 	fmt.Fprintln(w, "---------------\t--------------\t---------------\t--------------\t---------\t------\t--------")
@@ -209,7 +209,7 @@ func GetSummary(c ConfusionMatrix) string {
 func ShowConfusionMatrix(c ConfusionMatrix) string {
 	var buffer bytes.Buffer
 	w := new(tabwriter.Writer)
-	w.Init(&buffer, 0, 8, 0, '\t', 0)
+	w.Init(&buffer, 0, 8, 1, '\t', 0)
 
 	ref := make([]string, 0)
 	for k := range c {
-- 
2.43.0


From d682bc0fc76df15da1c15fbda603b7c4f1d914aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:25 +0000
Subject: [PATCH 114/114] fix: a bagged model or forest asked for another class
 had its members add labels to it at the same time

---
 meta/bagging.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/meta/bagging.go b/meta/bagging.go
index cba0ff8..d569862 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -119,6 +119,12 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 	if n := len(from.AllClassAttributes()); n != 1 {
 		return nil, fmt.Errorf("%d class Attributes (1 expected)", n)
 	}
+	// The models would add their labels to another class, all at once
+	for _, a := range b.fitOn.AllClassAttributes() {
+		if class := from.AllClassAttributes()[0]; !a.Equals(class) {
+			return nil, fmt.Errorf("Can't predict %v with a model for %v", class, a)
+		}
+	}
 	for i := range b.Models {
 		for _, a := range b.selectedAttributes[i] {
 			if _, err := from.GetAttribute(a); err != nil {
-- 
2.43.0

