From a9a702aa1fb436a70b0ddd2d4c69db7b764d9fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 01/27] fix: cursor without a column list must not hand out the
 stored row

---
 storage/basic/basic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 0380e21..7e8d7c3 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -404,7 +404,7 @@ func (rs *rows) Next(ctx context.Context) (types.Row, error) {
 		return row, nil
 	}
 
-	return rs.items[rs.next-1].row, nil
+	return slices.Clone(rs.items[rs.next-1].row), nil
 }
 
 func (rs *rows) Current() (storage.RowRef, error) {
-- 
2.43.0


From e780f02b5ba5e788030bc1f205909ef332012feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 02/27] fix: scan with a predicate must skip null columns
 instead of panicking

---
 storage/basic/basic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 7e8d7c3..83242d7 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -348,7 +348,7 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 				return false
 			}
 
-			if predFn != nil && !predFn(it.row[predCol]) {
+			if predFn != nil && (it.row[predCol] == nil || !predFn(it.row[predCol])) {
 				return true
 			}
 
-- 
2.43.0


From e4d1d352b21ce3089382124a646680930fdbfe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 03/27] fix: dropping a table must delete its rows

---
 storage/basic/basic.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 83242d7..20bfa03 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -220,7 +220,19 @@ func (tx *transaction) DropTable(ctx context.Context, tid storage.TableId) error
 		panic(fmt.Sprintf("basic: unable to delete table type: %d", tid))
 	}
 
-	// XXX: delete all rows in the table
+	rel := toRelationId(tid, primaryIndexId)
+	var items []item
+	tx.tree.AscendGreaterOrEqual(item{rel: rel},
+		func(it item) bool {
+			if it.rel != rel {
+				return false
+			}
+			items = append(items, it)
+			return true
+		})
+	for _, it := range items {
+		tx.tree.Delete(it)
+	}
 	return nil
 }
 
-- 
2.43.0


From 92d51b794f51d71eee7b66d5982cb65ac7e0008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 04/27] fix: a failed multi-row insert must not leave some rows
 behind

---
 storage/basic/basic.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 20bfa03..eb423b6 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -379,6 +379,15 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 	tbl.tx.forWrite()
 
+	tree := tbl.tx.tree.Clone()
+	err := tbl.insertRows(rows)
+	if err != nil {
+		tbl.tx.tree = tree
+	}
+	return err
+}
+
+func (tbl *table) insertRows(rows []types.Row) error {
 	rel := toRelationId(tbl.tid, primaryIndexId)
 	for _, row := range rows {
 		row, err := types.ConvertRow(tbl.tt.ColumnTypes, row)
-- 
2.43.0


From ad2e0bc79e33fc8be383a50b80c8aaea83222bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 05/27] fix: update must convert the row and keep it when the
 update fails

---
 storage/basic/basic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index eb423b6..978171d 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -467,15 +467,21 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 	rr.tbl.tx.forWrite()
 
 	if types.ColumnKeyUpdated(rr.tbl.tt.Key, cols) {
+		tree := rr.tbl.tx.tree.Clone()
 		err := rr.Delete(ctx)
 		if err != nil {
 			return err
 		}
 		err = rr.tbl.Insert(ctx, []types.Row{row})
 		if err != nil {
+			rr.tbl.tx.tree = tree
 			return err
 		}
 	} else {
+		row, err := types.ConvertRow(rr.tbl.tt.ColumnTypes, row)
+		if err != nil {
+			return err
+		}
 		rr.tbl.tx.tree.ReplaceOrInsert(
 			rowToItem(toRelationId(rr.tbl.tid, primaryIndexId), rr.tbl.tt.Key, row))
 	}
-- 
2.43.0


From 7fc6729bdddd9b9f4d4c5d922c6455a28375e024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 06/27] fix: insert must refuse a row missing a not null column

---
 storage/basic/basic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 978171d..13b5a83 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -390,6 +390,12 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 func (tbl *table) insertRows(rows []types.Row) error {
 	rel := toRelationId(tbl.tid, primaryIndexId)
 	for _, row := range rows {
+		if len(row) < len(tbl.tt.ColumnTypes) {
+			// Missing columns are null; convert them too, to check for not null.
+			row = append(append(make(types.Row, 0, len(tbl.tt.ColumnTypes)), row...),
+				make(types.Row, len(tbl.tt.ColumnTypes)-len(row))...)
+		}
+
 		row, err := types.ConvertRow(tbl.tt.ColumnTypes, row)
 		if err != nil {
 			return err
-- 
2.43.0


From f9fa43c1f161a5ff06f8e33c6b902271375a068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 07/27] fix: read the identifier name table under its lock

---
 types/identifier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/identifier.go b/types/identifier.go
index 9f2c95a..b41e84b 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -320,6 +320,9 @@ func ID(s string, quoted bool) Identifier {
 }
 
 func (id Identifier) String() string {
+	mutex.RLock()
+	defer mutex.RUnlock()
+
 	return names[id]
 }
 
-- 
2.43.0


From 2863b1e404188616f4e6aba38640378bc77f490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 08/27] fix: encode every keyword identifier as a keyword

---
 types/identifier.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/types/identifier.go b/types/identifier.go
index b41e84b..6116a92 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -346,10 +346,11 @@ func (id *Identifier) GobDecode(val []byte) error {
 }
 
 func (id Identifier) GobEncode() ([]byte, error) {
-	if id.IsReserved() {
-		return append([]byte{1}, []byte(id.String())...), nil
+	s := id.String()
+	if kid, ok := keywords[s]; ok && kid == id {
+		return append([]byte{1}, []byte(s)...), nil
 	}
-	return append([]byte{0}, []byte(id.String())...), nil
+	return append([]byte{0}, []byte(s)...), nil
 }
 
 func init() {
-- 
2.43.0


From 3a724128c1f8e9a6e3423fd839e17b5068100ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 09/27] fix: truncate long identifiers after lower casing them

---
 types/identifier.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/types/identifier.go b/types/identifier.go
index 6116a92..7a76776 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -284,6 +284,10 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 		s = strings.ToLower(s)
 	}
 
+	if len(s) > MaxIdentifier {
+		s = s[:MaxIdentifier]
+	}
+
 	if id, ok := identifiers[s]; ok {
 		return id, true
 	}
@@ -299,10 +303,6 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 }
 
 func ID(s string, quoted bool) Identifier {
-	if len(s) > MaxIdentifier {
-		s = s[:MaxIdentifier]
-	}
-
 	mutex.RLock()
 	id, ok := lookupID(s, quoted, false)
 	mutex.RUnlock()
-- 
2.43.0


From a27088f6e87fe0fb28422b47ad52c43d9c367ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 10/27] fix: compare NaN equal to itself and below other
 numbers

---
 types/value.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/types/value.go b/types/value.go
index 9ebb7fe..1bcbaab 100644
--- a/types/value.go
+++ b/types/value.go
@@ -98,12 +98,7 @@ func (i Int64Value) compare(val Value) int {
 		}
 		return 0
 	case Float64Value:
-		if Float64Value(i) < v {
-			return -1
-		} else if Float64Value(i) > v {
-			return 1
-		}
-		return 0
+		return compareFloats(Float64Value(i), v)
 	}
 	panic(fmt.Sprintf("unexpected type for value: %T: %v", val, val))
 }
@@ -121,23 +116,25 @@ func (_ Float64Value) order() int {
 func (f Float64Value) compare(val Value) int {
 	switch v := val.(type) {
 	case Int64Value:
-		if f < Float64Value(v) {
-			return -1
-		} else if f > Float64Value(v) {
-			return 1
-		}
-		return 0
+		return compareFloats(f, Float64Value(v))
 	case Float64Value:
-		if f < v {
-			return -1
-		} else if f > v {
-			return 1
-		}
-		return 0
+		return compareFloats(f, v)
 	}
 	panic(fmt.Sprintf("unexpected type for value: %T: %v", val, val))
 }
 
+// compareFloats sorts NaN before all other values.
+func compareFloats(f1, f2 Float64Value) int {
+	nan1 := math.IsNaN(float64(f1))
+	nan2 := math.IsNaN(float64(f2))
+	if f1 < f2 || (nan1 && !nan2) {
+		return -1
+	} else if f1 > f2 || (!nan1 && nan2) {
+		return 1
+	}
+	return 0
+}
+
 type StringValue string
 
 func (s StringValue) String() string {
-- 
2.43.0


From d75c40e4fb81e545a64eebf8989743280c900454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 11/27] fix: refuse to convert a double that is not a 64 bit
 integer

---
 types/value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/value.go b/types/value.go
index 1bcbaab..94a754e 100644
--- a/types/value.go
+++ b/types/value.go
@@ -281,6 +281,9 @@ func CastValue(vt ValueType, val Value) (Value, error) {
 		}
 	case Int64Type:
 		if f, ok := val.(Float64Value); ok {
+			if math.IsNaN(float64(f)) || f < math.MinInt64 || f >= math.MaxInt64 {
+				return nil, fmt.Errorf("expected a 64 bit integer value: %v", val)
+			}
 			return Int64Value(f), nil
 		} else if s, ok := val.(StringValue); ok {
 			i, err := strconv.ParseInt(strings.Trim(string(s), " \t\n"), 10, 64)
-- 
2.43.0


From 80d6b74c104827bdd1d767042c241a8934949c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 12/27] fix: compare the whole length of a value with the
 column size

---
 types/value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/value.go b/types/value.go
index 94a754e..db7260a 100644
--- a/types/value.go
+++ b/types/value.go
@@ -325,7 +325,7 @@ func ConvertValue(ct ColumnType, val Value) (Value, error) {
 			return nil, fmt.Errorf("expected a string value: %v", val)
 		}
 
-		if uint32(len(s)) > ct.Size {
+		if uint64(len(s)) > uint64(ct.Size) {
 			return nil, fmt.Errorf("string value too long: %d; expected %d", len(s), ct.Size)
 		}
 	case BytesType:
@@ -334,7 +334,7 @@ func ConvertValue(ct ColumnType, val Value) (Value, error) {
 			return nil, fmt.Errorf("expected a bytes value: %v", val)
 		}
 
-		if uint32(len(b)) > ct.Size {
+		if uint64(len(b)) > uint64(ct.Size) {
 			return nil, fmt.Errorf("bytes value too long: %d; expected %d", len(b), ct.Size)
 		}
 	case Float64Type:
-- 
2.43.0


From 6632a42ef1539311611dc5ec192024a46f18dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 13/27] fix: report a failure to close the cursor of a typed
 table

---
 engine/typedtable.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engine/typedtable.go b/engine/typedtable.go
index e1a429a..9908380 100644
--- a/engine/typedtable.go
+++ b/engine/typedtable.go
@@ -198,7 +198,7 @@ func TypedTableInsert(ctx context.Context, tx storage.Transaction, ti *TypedInfo
 }
 
 func typedTableSelect(ctx context.Context, tx storage.Transaction, ti *TypedInfo,
-	minSt, maxSt interface{}, fn func(rows storage.Rows, row types.Row) error) error {
+	minSt, maxSt interface{}, fn func(rows storage.Rows, row types.Row) error) (err error) {
 
 	tbl, err := tx.OpenTable(ctx, ti.tid, ti.tn, ti.colNames, ti.colTypes, ti.primary)
 	if err != nil {
@@ -209,7 +209,10 @@ func typedTableSelect(ctx context.Context, tx storage.Transaction, ti *TypedInfo
 		return err
 	}
 	defer func() {
-		rows.Close(ctx)
+		cerr := rows.Close(ctx)
+		if err == nil {
+			err = cerr
+		}
 	}()
 
 	for {
-- 
2.43.0


From b3520c878fe0369d783d058d41af208933a4e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 14/27] fix: fail table creation when the table id sequence is
 missing

---
 engine/engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/engine.go b/engine/engine.go
index 188d1f2..2c5e041 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -352,6 +352,7 @@ func DecodeTableType(buf []byte) (*TableType, error) {
 
 func (tx *transaction) nextTableId(ctx context.Context) (int64, error) {
 	var tid int64
+	var found bool
 	sr := &sequencesRow{
 		Sequence: nextTableIdSequence,
 	}
@@ -360,6 +361,7 @@ func (tx *transaction) nextTableId(ctx context.Context) (int64, error) {
 			var sr sequencesRow
 			sequencesTypedInfo.RowToStruct(row, &sr)
 			tid = sr.Current
+			found = true
 			return &struct {
 				Current int64
 			}{
@@ -368,6 +370,8 @@ func (tx *transaction) nextTableId(ctx context.Context) (int64, error) {
 		})
 	if err != nil {
 		return 0, err
+	} else if !found {
+		return 0, fmt.Errorf("engine: sequence not found: %s", nextTableIdSequence)
 	}
 
 	return tid, nil
-- 
2.43.0


From 42b6fd9bae1794e1f884c1dba331dd6ec49f5d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 15/27] fix: read typed table rows into pointers to narrow and
 named types

---
 engine/typedtable.go | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/engine/typedtable.go b/engine/typedtable.go
index 9908380..411d385 100644
--- a/engine/typedtable.go
+++ b/engine/typedtable.go
@@ -88,6 +88,11 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 				fval.SetZero()
 				continue
 			}
+			if ct.Type != types.BytesType {
+				// The field might be a pointer to any type of the right kind.
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval = fval.Elem()
+			}
 		}
 
 		switch ct.Type {
@@ -96,23 +101,13 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if !ok {
 				panic(fmt.Sprintf("typed tabled: expected boolean value: %#v", row[cdx]))
 			}
-			if ct.NotNull {
-				fval.SetBool(bool(b))
-			} else {
-				b := bool(b)
-				fval.Set(reflect.ValueOf(&b))
-			}
+			fval.SetBool(bool(b))
 		case types.StringType:
 			s, ok := row[cdx].(types.StringValue)
 			if !ok {
 				panic(fmt.Sprintf("typed tabled: expected string value: %#v", row[cdx]))
 			}
-			if ct.NotNull {
-				fval.SetString(string(s))
-			} else {
-				s := string(s)
-				fval.Set(reflect.ValueOf(&s))
-			}
+			fval.SetString(string(s))
 		case types.BytesType:
 			b, ok := row[cdx].(types.BytesValue)
 			if !ok {
@@ -124,23 +119,13 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if !ok {
 				panic(fmt.Sprintf("typed tabled: expected float64 value: %#v", row[cdx]))
 			}
-			if ct.NotNull {
-				fval.SetFloat(float64(f))
-			} else {
-				f := float64(f)
-				fval.Set(reflect.ValueOf(&f))
-			}
+			fval.SetFloat(float64(f))
 		case types.Int64Type:
 			i, ok := row[cdx].(types.Int64Value)
 			if !ok {
 				panic(fmt.Sprintf("typed tabled: expected int64 value: %#v", row[cdx]))
 			}
-			if ct.NotNull {
-				fval.SetInt(int64(i))
-			} else {
-				i := int64(i)
-				fval.Set(reflect.ValueOf(&i))
-			}
+			fval.SetInt(int64(i))
 		default:
 			panic(fmt.Sprintf("typed table: unexpected column type: %#v %d", ct, ct.Type))
 		}
-- 
2.43.0


From dd4a0c6e9b486f6f26ad838f90d10f455fcfd30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 16/27] fix: report an unsupported statement instead of
 panicking with a transaction open

---
 evaluate/evaluate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluate/evaluate.go b/evaluate/evaluate.go
index 7934c1b..7ab35c2 100644
--- a/evaluate/evaluate.go
+++ b/evaluate/evaluate.go
@@ -38,7 +38,7 @@ func Evaluate(ctx context.Context, tx engine.Transaction, stmt sql.Stmt) error {
 		panic("evaluate: set unexpected")
 	}
 
-	panic(fmt.Sprintf("evaluate: unexpected stmt: %#v", stmt))
+	return fmt.Errorf("evaluate: unsupported statement: %T", stmt)
 }
 
 func columnNumber(nam types.Identifier, colNames []types.Identifier) (types.ColumnNum, bool) {
-- 
2.43.0


From 90afa98eec4a286dae5319e5aa02c0bcb8531885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 17/27] fix: scanner: bytes literals must not share the
 scanner's buffer

---
 parser/scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 36fb80c..63fa967 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -468,7 +468,7 @@ func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
 	if r == token.Error {
 		return token.Error
 	}
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = []byte(s.buffer.String())
 	return token.Bytes
 }
 
@@ -570,6 +570,6 @@ func (s *Scanner) scanHexBytes(sctx *ScanCtx) rune {
 		s.buffer.WriteByte(byte(d1*16 + d2))
 	}
 
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = []byte(s.buffer.String())
 	return token.Bytes
 }
-- 
2.43.0


From ffa88b8467ff5180f83d4e25e343f96472ea9385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 18/27] fix: scanner: an escape that is not a unicode character
 is an error

---
 parser/scanner/scanner.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 63fa967..96557e7 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/leftmike/maho/parser/token"
 	"github.com/leftmike/maho/types"
@@ -16,6 +17,7 @@ var (
 	errMissingQuote     = errors.New(`scanner: missing terminating "'"`)
 	errIncompleteEscape = errors.New("scanner: incomplete escape")
 	errZeroParameter    = errors.New("scanner: zero parameter")
+	errInvalidUnicode   = errors.New("scanner: escape is not a valid unicode character")
 )
 
 type Position struct {
@@ -426,7 +428,12 @@ func (s *Scanner) scanUnicode(sctx *ScanCtx, digits int) rune {
 		u = u*16 + d
 		digits -= 1
 	}
-	return rune(u)
+	r := rune(u)
+	if !utf8.ValidRune(r) {
+		sctx.Error = errInvalidUnicode
+		return token.Error
+	}
+	return r
 }
 
 func (s *Scanner) scanOctalDigit(sctx *ScanCtx) (byte, bool) {
-- 
2.43.0


From 3a06d1d16aaebc837e5628c6bb5911b3367b2987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 19/27] fix: scanner: don't drop a - or / at the end of the
 input

---
 parser/scanner/scanner.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 96557e7..c463d70 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -144,8 +144,6 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
-			return r2
 		} else {
 			s.unreadRune()
 		}
@@ -166,8 +164,6 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
-			return r2
 		} else {
 			s.unreadRune()
 		}
-- 
2.43.0


From 6fcdfe9c1edf6c8c96e8572ec47a843d6eaa3a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 20/27] fix: scanner: an unterminated comment is an error

---
 parser/scanner/scanner.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index c463d70..e6b950a 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -14,10 +14,11 @@ import (
 )
 
 var (
-	errMissingQuote     = errors.New(`scanner: missing terminating "'"`)
-	errIncompleteEscape = errors.New("scanner: incomplete escape")
-	errZeroParameter    = errors.New("scanner: zero parameter")
-	errInvalidUnicode   = errors.New("scanner: escape is not a valid unicode character")
+	errMissingCommentEnd = errors.New(`scanner: missing terminating "*/"`)
+	errMissingQuote      = errors.New(`scanner: missing terminating "'"`)
+	errIncompleteEscape  = errors.New("scanner: incomplete escape")
+	errZeroParameter     = errors.New("scanner: zero parameter")
+	errInvalidUnicode    = errors.New("scanner: escape is not a valid unicode character")
 )
 
 type Position struct {
@@ -153,7 +154,10 @@ SkipWhitespace:
 
 			for {
 				r2 = s.readRune(sctx)
-				if r2 < 0 {
+				if r2 == token.EOF {
+					sctx.Error = errMissingCommentEnd
+					return token.Error
+				} else if r2 < 0 {
 					return r2
 				}
 
-- 
2.43.0


From f88e30ac191718c3da42fb6aa693a83004465ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 21/27] fix: scanner: report a read error seen while looking
 ahead

---
 parser/scanner/scanner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index e6b950a..f7c8d8c 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -43,6 +43,7 @@ type Scanner struct {
 	rr          io.RuneReader
 	unread      bool
 	read        rune
+	err         error // valid if read is token.Error
 	filename    string
 	line        int
 	column      int
@@ -256,6 +257,9 @@ SkipWhitespace:
 func (s *Scanner) readRune(sctx *ScanCtx) rune {
 	if s.unread {
 		s.unread = false
+		if s.read == token.Error {
+			sctx.Error = s.err
+		}
 		return s.read
 	}
 
@@ -265,6 +269,8 @@ func (s *Scanner) readRune(sctx *ScanCtx) rune {
 		s.read = token.EOF
 		return token.EOF
 	} else if err != nil {
+		s.read = token.Error
+		s.err = err
 		sctx.Error = err
 		return token.Error
 	}
-- 
2.43.0


From 0242c2ec74df67d54655b3b64b47f3d07710c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 22/27] fix: parser: skip empty statements, and the rest of a
 statement starting with an error

---
 parser/parser.go | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d65da6f..2fc98a9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -31,26 +31,20 @@ func NewParser(rr io.RuneReader, fn string) *Parser {
 }
 
 func (p *Parser) Parse() (stmt sql.Stmt, err error) {
-	t, err := p.scanRune()
-	if err != nil {
-		return nil, err
-	} else if t == token.EOF {
-		return nil, io.EOF
-	}
-	p.unscan()
-
-	if p.failed {
-		for {
-			t, err = p.scanRune()
-			if err != nil {
-				return nil, err
-			} else if t == token.EOF {
-				return nil, io.EOF
-			} else if t == token.EndOfStatement {
-				break
-			}
+	for {
+		t, err := p.scanRune()
+		if err != nil {
+			p.failed = true
+			return nil, err
+		} else if t == token.EOF {
+			return nil, io.EOF
+		} else if t == token.EndOfStatement {
+			// The end of a statement which failed, or an empty statement.
+			p.failed = false
+		} else if !p.failed {
+			p.unscan()
+			break
 		}
-		p.failed = false
 	}
 
 	defer func() {
@@ -244,10 +238,6 @@ func (p *Parser) expectEndOfStatement() {
 }
 
 func (p *Parser) parseStmt() sql.Stmt {
-	if p.maybeToken(token.EndOfStatement) {
-		return nil
-	}
-
 	switch p.expectReserved(
 		types.ALTER,
 		types.BEGIN,
-- 
2.43.0


From 740bef5f3c2da787a051ab44d604607326187c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 23/27] fix: parser: SET and USE with NULL are errors

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2fc98a9..9bcf7d5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1658,7 +1658,7 @@ func (p *Parser) parseSet() sql.Stmt {
 	}
 	e := p.parseExpr()
 	l, ok := e.(sql.Literal)
-	if !ok {
+	if !ok || l.Value == nil {
 		p.error(fmt.Sprintf("expected a literal value, got %s", e.String()))
 	}
 	if sv, ok := l.Value.(types.StringValue); ok {
@@ -1836,7 +1836,7 @@ func (p *Parser) parseUse() sql.Stmt {
 
 	e := p.parseExpr()
 	l, ok := e.(sql.Literal)
-	if !ok {
+	if !ok || l.Value == nil {
 		p.error(fmt.Sprintf("expected a literal value, got %s", e.String()))
 	}
 	if sv, ok := l.Value.(types.StringValue); ok {
-- 
2.43.0


From 02bcfffb02e1d0377f44e28f5addb543d4a531ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 24/27] fix: parser: DETACH, EXECUTE and PREPARE aren't
 statements

---
 parser/parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9bcf7d5..c2eda77 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -245,12 +245,9 @@ func (p *Parser) parseStmt() sql.Stmt {
 		types.COPY,
 		types.CREATE,
 		types.DELETE,
-		types.DETACH,
 		types.DROP,
-		types.EXECUTE,
 		types.EXPLAIN,
 		types.INSERT,
-		types.PREPARE,
 		types.ROLLBACK,
 		types.SELECT,
 		types.SET,
-- 
2.43.0


From 30f4ed3a704a114db16fab47f7b2965445c9d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 25/27] fix: parser: adjust the precedence of operators within
 the operand of a subquery

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index c2eda77..074487d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1102,6 +1102,10 @@ func adjustPrecedence(e sql.Expr) sql.Expr {
 		for idx, arg := range e.Args {
 			e.Args[idx] = adjustPrecedence(arg)
 		}
+	case *sql.Subquery:
+		if e.Expr != nil {
+			e.Expr = adjustPrecedence(e.Expr)
+		}
 	}
 
 	return e
-- 
2.43.0


From 6d83a6db295d0fefc6552961fdb33b849a93d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 26/27] fix: sql: format DEFAULT in INSERT

---
 parser/sql/query.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/sql/query.go b/parser/sql/query.go
index ca2eb8b..86364df 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -138,7 +138,11 @@ func (stmt *InsertValues) String() string {
 			if j > 0 {
 				buf.WriteString(", ")
 			}
-			buf.WriteString(v.String())
+			if v == nil {
+				buf.WriteString("DEFAULT")
+			} else {
+				buf.WriteString(v.String())
+			}
 		}
 
 		buf.WriteRune(')')
-- 
2.43.0


From 403d4ca1df6c9cd94f849ac6156098c5877eac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 27/27] fix: parser: expect the end of COPY before the data

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 074487d..c37dbf8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1381,6 +1381,10 @@ func (p *Parser) parseCopy() sql.Stmt {
 		s.Delimiter = rune(p.sctx.String[0])
 	}
 
+	// The end of the statement is before what the reader returns.
+	p.expectEndOfStatement()
+	p.unscan()
+
 	// Must be last because the scanner will skip to the end of the line before returning
 	// the reader.
 	s.From, s.FromLine = p.scanner.RuneReader()
-- 
2.43.0

