From 62c3bb739ce6aad831592b9be521cce67545b06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 01/72] fix: AppendRowsFromTable() checks its row range and
 leaves the table unchanged on error

---
 gotables.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/gotables.go b/gotables.go
index a47e0fe..09dd038 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3531,6 +3531,20 @@ func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRo
 		}
 	}
 
+	// Check the range of rows before appending any of them. Note: firstRow > lastRow means there are no rows to append.
+	if firstRow <= lastRow && (firstRow < 0 || lastRow > fromTable.RowCount()-1) {
+		return fmt.Errorf("[%s].%s([%s], %d, %d): row range is outside [%s] with RowCount() %d",
+			toTable.Name(), UtilFuncNameNoParens(), fromTable.Name(), firstRow, lastRow, fromTable.Name(), fromTable.RowCount())
+	}
+
+	// If a row cannot be appended, leave toTable as it was.
+	var originalRowCount int = toTable.RowCount()
+	defer func() {
+		if err != nil {
+			toTable.rows = toTable.rows[:originalRowCount]
+		}
+	}()
+
 	// Note: multiple assignment syntax in for loop.
 	for fromRow, toRow := firstRow, toTable.RowCount(); fromRow <= lastRow; fromRow, toRow = fromRow+1, toRow+1 {
 
-- 
2.43.0


From 64f57b983b27741b0c76217996a676b451a5d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 02/72] fix: deleting or renaming a column keeps the sort keys
 in step (Sort panicked)

---
 gotables.go | 10 ++++++++++
 sort.go     | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/gotables.go b/gotables.go
index 09dd038..8c8c37a 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1854,6 +1854,9 @@ func (table *Table) DeleteColByColIndex(colIndex int) error {
 		return err
 	}
 
+	// A deleted col can no longer be a sort key.
+	table.deleteSortKeysOfCol(colName)
+
 	// From Ivo Balbaert p182 for deleting a single element from a slice.
 	table.colNames = append(table.colNames[:colIndex], table.colNames[colIndex+1:]...)
 
@@ -2651,6 +2654,13 @@ func (table *Table) RenameCol(oldName string, newName string) error {
 	}
 	table.colNames[colIndex] = newName
 
+	// Rename col in sort keys (if any).
+	for keyIndex := range table.sortKeys {
+		if table.sortKeys[keyIndex].colName == oldName {
+			table.sortKeys[keyIndex].colName = newName
+		}
+	}
+
 	// Rename col in map of col names to col indexes.
 	delete(table.colNamesMap, oldName)    // Delete the old one.
 	table.colNamesMap[newName] = colIndex // Add the new one.
diff --git a/sort.go b/sort.go
index 4f107b4..95d1aa8 100644
--- a/sort.go
+++ b/sort.go
@@ -283,6 +283,17 @@ func (table *Table) DeleteSortKey(keyName string) error {
 	return fmt.Errorf("[%s].%s(%q) sort key not found: %q", table.Name(), UtilFuncName(), keyName, keyName)
 }
 
+// Delete all sort keys (if any) of this col.
+func (table *Table) deleteSortKeysOfCol(colName string) {
+	var keys SortKeys = newSortKeys()
+	for _, key := range table.sortKeys {
+		if key.colName != colName {
+			keys = append(keys, key)
+		}
+	}
+	table.sortKeys = keys
+}
+
 func (table *Table) getColNames() []string {
 	if table == nil {
 		_, _ = os.Stderr.WriteString(fmt.Sprintf("%s table.%s table is <nil>\n", UtilFuncSource(), UtilFuncName()))
-- 
2.43.0


From c67227c827270a60cfd3905a6caa098cbc796b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 03/72] fix: SwapCols() and SwapColsByColIndex() swap the cells
 along with the column names and types

---
 sort.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sort.go b/sort.go
index 95d1aa8..b6ac62e 100644
--- a/sort.go
+++ b/sort.go
@@ -947,6 +947,10 @@ func (table *Table) SwapColsByColIndex(colIndex1 int, colIndex2 int) error {
 			table.tableName, UtilFuncName(), table.tableName, colIndex1, colIndex2)
 	}
 
+	for _, row := range table.rows {
+		row[colIndex1], row[colIndex2] = row[colIndex2], row[colIndex1]
+	}
+
 	table.colNames[colIndex1], table.colNames[colIndex2] = table.colNames[colIndex2], table.colNames[colIndex1]
 
 	table.colTypes[colIndex1], table.colTypes[colIndex2] = table.colTypes[colIndex2], table.colTypes[colIndex1]
@@ -992,6 +996,10 @@ func (table *Table) SwapCols(colName1 string, colName2 string) error {
 			table.tableName, UtilFuncName(), table.tableName, colName1, colName2)
 	}
 
+	for _, row := range table.rows {
+		row[col1], row[col2] = row[col2], row[col1]
+	}
+
 	table.colNames[col1], table.colNames[col2] = table.colNames[col2], table.colNames[col1]
 
 	table.colTypes[col1], table.colTypes[col2] = table.colTypes[col2], table.colTypes[col1]
-- 
2.43.0


From 22879bdff9e463c9ade7262a01efd5a63f583107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:16 +0000
Subject: [PATCH 04/72] fix: OrderColsBySortKeys() no longer panics when a
 column is a sort key more than once

---
 sort.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sort.go b/sort.go
index b6ac62e..03acb27 100644
--- a/sort.go
+++ b/sort.go
@@ -873,13 +873,18 @@ func (table *Table) OrderColsBySortKeys() error {
 	// Populate new order ...
 
 	// First slots with key col names.
+	var placed = map[string]bool{}
 	for key = 0; key < table.SortKeyCount(); key++ {
 		keyName := table.sortKeys[key].colName
-		newOrder[key] = keyName
+		if placed[keyName] {
+			continue // This col is already placed: it is a sort key more than once.
+		}
+		placed[keyName] = true
+		newOrder[len(placed)-1] = keyName
 	}
 
 	// Subsequent slots with non-key col names.
-	row := table.SortKeyCount()
+	row := len(placed)
 	for col := 0; col < table.ColCount(); col++ {
 		colName := table.colNames[col]
 		var isSortKey bool
-- 
2.43.0


From 1be6a5b295f4affc100f31fa38f0503744bd857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 05/72] fix: typed ByColIndex setters, zero-value setters and
 GetCellInfo refuse a bad index instead of panicking

---
 helpers.go | 98 +++++++++++++++++++++++++++++++++++++++++++++++++++---
 tree.go    |  3 +-
 2 files changed, 95 insertions(+), 6 deletions(-)

diff --git a/helpers.go b/helpers.go
index 83fc552..33cbfbf 100644
--- a/helpers.go
+++ b/helpers.go
@@ -868,9 +868,6 @@ func (table *Table) SetTable(colName string, rowIndex int, newVal *Table) error
 			UtilFuncNameNoParens(), colName, rowIndex, table.Name(), colName)
 	}
 
-	// This may help with reporting errors.
-	newVal.parentTable = table
-
 	colType, err := table.ColType(colName)
 	if err != nil {
 		return err
@@ -898,6 +895,9 @@ func (table *Table) SetTable(colName string, rowIndex int, newVal *Table) error
 	// Note: This essentially inlines SetValByColIndex(): an average 30% speedup.
 	table.rows[rowIndex][colIndex] = newVal
 
+	// This may help with reporting errors.
+	newVal.parentTable = table
+
 	return nil
 }
 
@@ -969,6 +969,10 @@ func (table *Table) SetByteSliceByColIndex(colIndex int, rowIndex int, newVal []
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1010,6 +1014,10 @@ func (table *Table) SetUint8SliceByColIndex(colIndex int, rowIndex int, newVal [
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1045,6 +1053,10 @@ func (table *Table) SetBoolByColIndex(colIndex int, rowIndex int, newVal bool) e
 
 	const valType string = "bool"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1080,6 +1092,10 @@ func (table *Table) SetByteByColIndex(colIndex int, rowIndex int, newVal byte) e
 
 	const valType string = "byte"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1115,6 +1131,10 @@ func (table *Table) SetFloat32ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float32"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1150,6 +1170,10 @@ func (table *Table) SetFloat64ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float64"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1185,6 +1209,10 @@ func (table *Table) SetIntByColIndex(colIndex int, rowIndex int, newVal int) err
 
 	const valType string = "int"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1220,6 +1248,10 @@ func (table *Table) SetInt16ByColIndex(colIndex int, rowIndex int, newVal int16)
 
 	const valType string = "int16"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1255,6 +1287,10 @@ func (table *Table) SetInt32ByColIndex(colIndex int, rowIndex int, newVal int32)
 
 	const valType string = "int32"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1290,6 +1326,10 @@ func (table *Table) SetInt64ByColIndex(colIndex int, rowIndex int, newVal int64)
 
 	const valType string = "int64"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1325,6 +1365,10 @@ func (table *Table) SetInt8ByColIndex(colIndex int, rowIndex int, newVal int8) e
 
 	const valType string = "int8"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1360,6 +1404,10 @@ func (table *Table) SetRuneByColIndex(colIndex int, rowIndex int, newVal rune) e
 
 	const valType string = "rune"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1395,6 +1443,10 @@ func (table *Table) SetStringByColIndex(colIndex int, rowIndex int, newVal strin
 
 	const valType string = "string"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1430,6 +1482,10 @@ func (table *Table) SetUintByColIndex(colIndex int, rowIndex int, newVal uint) e
 
 	const valType string = "uint"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1465,6 +1521,10 @@ func (table *Table) SetUint16ByColIndex(colIndex int, rowIndex int, newVal uint1
 
 	const valType string = "uint16"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1500,6 +1560,10 @@ func (table *Table) SetUint32ByColIndex(colIndex int, rowIndex int, newVal uint3
 
 	const valType string = "uint32"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1535,6 +1599,10 @@ func (table *Table) SetUint64ByColIndex(colIndex int, rowIndex int, newVal uint6
 
 	const valType string = "uint64"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1570,6 +1638,10 @@ func (table *Table) SetUint8ByColIndex(colIndex int, rowIndex int, newVal uint8)
 
 	const valType string = "uint8"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -1611,8 +1683,9 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 			UtilFuncNameNoParens(), colIndex, rowIndex, table.Name(), colIndex)
 	}
 
-	// This may help with reporting errors.
-	newVal.parentTable = table
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
 
 	colType := table.colTypes[colIndex]
 
@@ -1633,6 +1706,9 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 	// Note: This essentially inlines SetValByColIndex(): an average 5 times speedup.
 	table.rows[rowIndex][colIndex] = newVal
 
+	// This may help with reporting errors.
+	newVal.parentTable = table
+
 	return nil
 }
 
@@ -1649,6 +1725,10 @@ func (table *Table) SetTimeByColIndex(colIndex int, rowIndex int, newVal time.Ti
 
 	const valType string = "time.Time"
 
+	if _, err := table.ColTypeByColIndex(colIndex); err != nil {
+		return err
+	}
+
 	colType := table.colTypes[colIndex]
 
 	if valType != colType {
@@ -4855,6 +4935,10 @@ func (table *Table) SetCellToZeroValueByColIndex(colIndex int, rowIndex int) err
 		return fmt.Errorf("table.%s: table is <nil>", UtilFuncName())
 	}
 
+	if hasCell, err := table.HasCellByColIndex(colIndex, rowIndex); !hasCell {
+		return err
+	}
+
 	var colType = table.colTypes[colIndex]
 
 	switch colType {
@@ -4937,6 +5021,10 @@ func (table *Table) SetRowCellsToZeroValue(rowIndex int) error {
 		return fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 	}
 
+	if hasRow, err := table.HasRow(rowIndex); !hasRow {
+		return err
+	}
+
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		var colType string = table.colTypes[colIndex]
 		switch colType {
diff --git a/tree.go b/tree.go
index 480072e..2baf41d 100644
--- a/tree.go
+++ b/tree.go
@@ -222,13 +222,14 @@ func (table *Table) GetCellInfoByColIndex(colIndex int, rowIndex int) (cellInfo
 	cellInfo.Table = table
 	cellInfo.ColIndex = colIndex
 	cellInfo.RowIndex = rowIndex
-	cellInfo.ColType = table.colTypes[colIndex]
 
 	cellInfo.ColName, err = table.ColName(colIndex)
 	if err != nil {
 		return cellInfo, err
 	}
 
+	cellInfo.ColType = table.colTypes[colIndex]
+
 	return cellInfo, nil
 }
 
-- 
2.43.0


From 824bf36827e1720739cd546f495e024fc008029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 06/72] fix: SetSortKeys(), SetSortKeysReverse() and
 AppendColsFromTable() leave the table as it was on error

---
 gotables.go | 14 ++++++++++++++
 sort.go     |  5 +++++
 2 files changed, 19 insertions(+)

diff --git a/gotables.go b/gotables.go
index 8c8c37a..fddb824 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3472,6 +3472,20 @@ func (table *Table) AppendColsFromTable(fromTable *Table) error {
 		return err
 	}
 
+	// Check all duplicate columns before appending any column, so that an error leaves table as it was.
+	for colIndex, colName := range fromTable.colNames {
+		if hasCol, _ := table.HasCol(colName); hasCol {
+			colType, err := table.ColType(colName)
+			if err != nil {
+				return err
+			}
+			if colType != fromTable.colTypes[colIndex] {
+				return fmt.Errorf("[%s].%s([%s]): skipping duplicate colName %q (is okay), but expecting type %q, not %q",
+					table.Name(), UtilFuncName(), fromTable.Name(), colName, colType, fromTable.colTypes[colIndex])
+			}
+		}
+	}
+
 	for rowIndex := 0; rowIndex < colsTable.RowCount(); rowIndex++ {
 		colName, err := colsTable.GetString("colName", rowIndex)
 		if err != nil {
diff --git a/sort.go b/sort.go
index 03acb27..8f782c3 100644
--- a/sort.go
+++ b/sort.go
@@ -171,6 +171,7 @@ func (table *Table) SetSortKeys(sortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	var existingSortKeys SortKeys = table.sortKeys
 	table.sortKeys = newSortKeys() // Replace any existing sort keys.
 
 	for _, colName := range sortColNames {
@@ -178,6 +179,7 @@ func (table *Table) SetSortKeys(sortColNames ...string) error {
 		if err != nil {
 			//			errSortKey := errors.New(fmt.Sprintf("SetSortKeys(%v): %v\n", sortColNames, err))
 			errSortKey := fmt.Errorf("SetSortKeys(%v): %v", sortColNames, err)
+			table.sortKeys = existingSortKeys // Leave the table as it was.
 			return errSortKey
 		}
 	}
@@ -197,10 +199,13 @@ func (table *Table) SetSortKeysReverse(reverseSortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	var existingSortKeys SortKeys = append(newSortKeys(), table.sortKeys...)
+
 	for _, colName := range reverseSortColNames {
 		err := table.setSortKeyReverse(colName)
 		if err != nil {
 			errSortKey := fmt.Errorf("SetSortKeysReverse(%v): %v", reverseSortColNames, err)
+			table.sortKeys = existingSortKeys // Leave the table as it was.
 			return errSortKey
 		}
 	}
-- 
2.43.0


From bddb99b7a00a2bc02b60db58ffb6d4ea21480625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 07/72] fix: TableSet.AppendTable() refuses a nil table

---
 gotables.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gotables.go b/gotables.go
index fddb824..afad58b 100644
--- a/gotables.go
+++ b/gotables.go
@@ -423,6 +423,10 @@ func (tableSet *TableSet) AppendTable(newTable *Table) error {
 		return fmt.Errorf("%s tableSet.%s tableSet is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	if newTable == nil {
+		return fmt.Errorf("tableSet.%s(newTable): newTable is <nil>", UtilFuncNameNoParens())
+	}
+
 	// Note: Could maintain a map in parallel for rapid lookup of table names.
 	for _, existingTable := range tableSet.tables {
 		if existingTable.Name() == newTable.Name() {
-- 
2.43.0


From 6e8632ee377b465d076a55bb6fe09ada0ea12092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 08/72] fix: Nest() takes the keys from either table and leaves
 both tables as they were on error

---
 nest.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/nest.go b/nest.go
index 38bb58a..20c68a6 100644
--- a/nest.go
+++ b/nest.go
@@ -42,9 +42,7 @@ SOFTWARE.
 		nestedString, _ = table.GetString(nestColName, rowIndex)
 		nestedTable,  _ = gotables.NewTableFromString(nestedString)
 */
-func (table *Table) Nest(nestable *Table, nestColName string) error {
-
-	var err error
+func (table *Table) Nest(nestable *Table, nestColName string) (err error) {
 
 	if table == nil {
 		return fmt.Errorf("table.%s(nestable, nestColName): table is <nil>", UtilFuncName())
@@ -54,9 +52,25 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 		return fmt.Errorf("table.%s(nestable, nestColName): nestable is <nil>", UtilFuncName())
 	}
 
+	// In case of error, leave both tables as they were.
+	var colCount int = table.ColCount()
+	var tableRows []tableRow = append([]tableRow{}, table.rows...)
+	var tableKeys SortKeys = append(newSortKeys(), table.sortKeys...)
+	var nestableRows []tableRow = append([]tableRow{}, nestable.rows...)
+	var nestableKeys SortKeys = append(newSortKeys(), nestable.sortKeys...)
+	defer func() {
+		if err != nil {
+			if table.ColCount() > colCount {
+				_ = table.DeleteColByColIndex(colCount)
+			}
+			table.rows, table.sortKeys = tableRows, tableKeys
+			nestable.rows, nestable.sortKeys = nestableRows, nestableKeys
+		}
+	}()
+
 	// Use whichever table has sort keys for the shared keys. table is dominant over nestable.
 	if table.SortKeyCount() == 0 {
-		err = nestable.SetSortKeysFromTable(table)
+		err = table.SetSortKeysFromTable(nestable)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 478b9d2d877679bb4d0f87667cb4c1f5527845f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 09/72] fix: unpadded text includes the table set name and
 handles byte, slice and time columns

---
 gotables.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index afad58b..292ce74 100644
--- a/gotables.go
+++ b/gotables.go
@@ -342,6 +342,9 @@ func (tableSet *TableSet) _String(horizontalSeparator byte) string {
 
 	var buf bytes.Buffer
 	//	buf.WriteString("# From file: \"" + tableSet.name + "\"\n\n")
+	if tableSet.Name() != "" {
+		buf.WriteString(fmt.Sprintf("[[%s]]\n\n", tableSet.Name()))
+	}
 	var tableSep = ""
 	var table *Table
 	for i := 0; i < len(tableSet.tables); i++ {
@@ -1207,6 +1210,7 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				var runeVal rune
 				var tVal bool
 				var ui8Val uint8
+				var ui8SliceVal []uint8
 				var ui16Val uint16
 				var ui32Val uint32
 				var ui64Val uint64
@@ -1219,6 +1223,7 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				var f32Val float32
 				var f64Val float64
 				var tableVal *Table
+				var timeVal time.Time
 				buf.WriteString(horizontalSep)
 				switch table.colTypes[colIndex] {
 				case "string":
@@ -1232,9 +1237,12 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				case "bool":
 					tVal = row[colIndex].(bool)
 					buf.WriteString(fmt.Sprintf("%t", tVal))
-				case "uint8":
+				case "uint8", "byte":
 					ui8Val = row[colIndex].(uint8)
 					buf.WriteString(fmt.Sprintf("%d", ui8Val))
+				case "[]uint8", "[]byte":
+					ui8SliceVal = row[colIndex].([]uint8)
+					buf.WriteString(fmt.Sprintf("%v", ui8SliceVal))
 				case "uint16":
 					ui16Val = row[colIndex].(uint16)
 					buf.WriteString(fmt.Sprintf("%d", ui16Val))
@@ -1276,6 +1284,9 @@ func (table *Table) _String(horizontalSeparator byte) string {
 					buf.WriteByte(91) // Opening square bracket.
 					buf.WriteString(tableName)
 					buf.WriteByte(93) // Closing square bracket.
+				case "time.Time":
+					timeVal = row[colIndex].(time.Time)
+					buf.WriteString(timeVal.Format(time.RFC3339Nano)) // Omits the fraction if it is zero.
 				default:
 					log.Printf("%s #1 ERROR IN %s: unknown type: %s\n",
 						UtilFuncSource(), UtilFuncName(), table.colTypes[colIndex])
-- 
2.43.0


From f8c5a4e4c1deb0edfd1f3e58d227123ac5c02c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 10/72] fix: padded text prints integers exactly

---
 gotables.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 292ce74..b1b9b3e 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1346,7 +1346,9 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 				var toWrite string
 				if row <= 1 { // It's a colName or typeName
 					toWrite = matrix[col][row]
-				} else { // It's numeric. Note: float conversion handles int conversion.
+				} else if colTypes[col] != "float32" && colTypes[col] != "float64" {
+					toWrite = matrix[col][row] // Integrals are already formatted. A float would lose digits of large ones.
+				} else { // It's float.
 					var bits int
 					switch colTypes[col] {
 					case "float32":
-- 
2.43.0


From 65221f08f27c82e6ab0bb9e6419b6df846f3ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 11/72] fix: struct text form escapes strings and runes

---
 gotables.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gotables.go b/gotables.go
index b1b9b3e..20f44a1 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1648,12 +1648,10 @@ func printStruct(table *Table) string {
 
 			switch table.colTypes[colIndex] {
 			case "string":
-				// Note 1: GetValAsStringByColIndex() doesn't include delimiters around strings.
-				// Note 2: Don't use %q. Use \"%s\" instead. Because %q replicates escape slashes.
-				s += " = " + fmt.Sprintf("\"%s\"", asString)
+				// Note: GetValAsStringByColIndex() doesn't include delimiters around strings, nor escapes within them.
+				s += " = " + strconv.Quote(asString)
 			case "rune":
-				// Note: GetValAsStringByColIndex() doesn't include delimiters around runes.
-				s += " = " + fmt.Sprintf("'%s'", asString)
+				s += " = " + strconv.QuoteRune(table.rows[RowIndexZero][colIndex].(rune))
 			default:
 				// All other types don't have delimiters.
 				s += " = " + asString
-- 
2.43.0


From b665663e8ab62b6f8cff7ac536e2e8fb0f10943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 12/72] fix: the parser keeps its line number in the parser,
 not in a package variable

---
 parser.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 48847af..12b531f 100644
--- a/parser.go
+++ b/parser.go
@@ -91,8 +91,6 @@ func init() {
 	uintSliceRegexp = regexp.MustCompile(uintSliceRegexpString)
 }
 
-var globalLineNum int
-
 const globalErrorLimit int = 10
 
 var globalErrorCount int
@@ -284,8 +282,8 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 	var readError error
 	var stringReader *strings.Reader = strings.NewReader(s)
 	var inputReader *bufio.Reader = bufio.NewReader(stringReader)
-	globalLineNum = 1
-	for ; ; globalLineNum++ {
+	p.lineNum = 1
+	for ; ; p.lineNum++ {
 		line, readError = inputReader.ReadString('\n')
 		line = strings.TrimSpace(line)
 
@@ -651,7 +649,7 @@ func (p *parser) parseFile(inputFileName string) (*TableSet, error) {
 }
 
 func (p *parser) gotFilePos() string {
-	return fmt.Sprintf("%s:%d:", p.fileName, globalLineNum)
+	return fmt.Sprintf("%s:%d:", p.fileName, p.lineNum)
 }
 
 func file_line() string {
@@ -1286,6 +1284,7 @@ func rangeForIntegerType(min int64, max uint64) string {
 // parser definition: fields and methods.
 type parser struct {
 	fileName string // Needed for printing file and line diagnostics.
+	lineNum  int    // Needed for printing file and line diagnostics.
 }
 
 // Needed for printing file and line diagnostics.
-- 
2.43.0


From a7c98485d2d1be11afbbece8e0d0699fa29ea241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 13/72] fix: the parser reads rune literals exactly

---
 parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 12b531f..bd7a79b 100644
--- a/parser.go
+++ b/parser.go
@@ -117,9 +117,8 @@ var stringRegexp *regexp.Regexp = regexp.MustCompile(`^"(?:[^"\\]*(?:\\.)?)*"`)
 
 var boolRegexp *regexp.Regexp = regexp.MustCompile(`^\b(true|false)\b`)
 
-// Note: (\\') successfully parses '\'' It needs to go before ([^']*)
-//             This may not be terribly efficient, awaiting a more specific regular expresssion.
-const runeRegexpString string = `'((\\n)|(\\')|([^']\\[xuU].*)|([^']*))'`
+// Note: \\' and \\\\ are matched before other escapes, so that '\'' and '\\' end where they should.
+const runeRegexpString string = `^'(\\'|\\\\|\\[^'\\][^']*|[^'\\]*)'`
 
 var runeRegexp *regexp.Regexp = regexp.MustCompile(runeRegexpString)
 
-- 
2.43.0


From 856c150ac01a00572c16d099301926501dea3c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 14/72] fix: the parser reads time values as they are printed

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index bd7a79b..b202922 100644
--- a/parser.go
+++ b/parser.go
@@ -148,7 +148,7 @@ const tableNameNilPattern string = `^(\[\])`                  // Don't add $ at
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(Z|([+-]\d{2}:\d{2}))`
 // RFC3339Nano = "2006-01-02T15:04:05.999999999Z07:00"
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|([+-]\d{2}:\d{2}))`
-const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{9})?(Z|([+-]\d{2}:\d{2}))`
+const rfc3339TimePattern string = `^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{1,9})?(Z|([+-]\d{2}:\d{2}))`
 
 var tableSetNameRegexp *regexp.Regexp = regexp.MustCompile(tableSetNamePattern)
 var tableNameRegexp *regexp.Regexp = regexp.MustCompile(tableNamePattern)
-- 
2.43.0


From 27cc93fe3b8a5a0a7cea5b526331c07a08d94d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 15/72] fix: the parser reads infinities and does not skip junk
 before NaN

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index b202922..5ea43c2 100644
--- a/parser.go
+++ b/parser.go
@@ -136,7 +136,7 @@ var intRegexp *regexp.Regexp
 // Allow negative float numbers! 15/03/2017 Amazed that this was missed during initial testing!
 // var floatRegexp		*regexp.Regexp = regexp.MustCompile(`(^[-+]?(\b[0-9]+\.([0-9]+\b)?|\b\.[0-9]+\b))|([Nn][Aa][Nn])|(\b[-+]?\d+\b)`)
 // From Regular Expressions Cookbook.
-var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?)|([Nn][Aa][Nn])`)
+var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?|[Nn][Aa][Nn]|[-+]?Inf)`)
 
 const tableSetNamePattern string = `^\[\[[a-zA-Z_][a-zA-Z0-9_]*\]\]$`
 const namePattern string = `^[a-zA-Z_][a-zA-Z0-9_]*$`
-- 
2.43.0


From 3377d7e649a2f90fc9383b96e9110473f973f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 16/72] fix: the parser rejects values that run into each other

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index 5ea43c2..99e34d3 100644
--- a/parser.go
+++ b/parser.go
@@ -1258,6 +1258,10 @@ func (p *parser) getRowSlice(line string, table *Table, colNames []string, colTy
 		}
 
 		remaining = remaining[rangeFound[1]:]
+		if i < lenColTypes-1 && len(remaining) > 0 && remaining[0] != ' ' && remaining[0] != '\t' {
+			return nil, fmt.Errorf("%s col %s expecting white space after value of type %s but found: %s",
+				p.gotFilePos(), colNames[i], colTypes[i], remaining)
+		}
 		//		remaining = strings.TrimLeft(remaining, " \t\r\n") // Remove leading whitespace. Is \t\r\n overkill?
 		remaining = strings.TrimLeft(remaining, " \t") // Remove leading whitespace.
 		colCount++
-- 
2.43.0


From e8b59600f5c0b86e92adaafbcdafa8b83cc51bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 17/72] fix: signed integers with a leading zero are octal

---
 parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.go b/parser.go
index 99e34d3..f40c3ee 100644
--- a/parser.go
+++ b/parser.go
@@ -1411,6 +1411,8 @@ func parseInt(s string, bitSize int) (int64Val int64, err error) {
 		default: // octal with leading 0 only: not leading 0o or 0O
 			int64Val, err = strconv.ParseInt(s, _OCT, bitSize)
 		}
+	} else if len(s) >= 3 && (s[0] == '-' || s[0] == '+') && s[1] == '0' {
+		int64Val, err = strconv.ParseInt(s, _OCT, bitSize) // signed octal with leading 0 only
 	} else {
 		int64Val, err = strconv.ParseInt(s, _DEC, bitSize)
 	}
-- 
2.43.0


From 086cf0f07ce577b4e65f72d85ee9a8887611fcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 18/72] fix: struct text lines must all have the form of the
 first

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index f40c3ee..91c2964 100644
--- a/parser.go
+++ b/parser.go
@@ -398,6 +398,10 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 					}
 				*/
 
+				if !structHasRowData && len(lineSplit) > 2 {
+					return nil, fmt.Errorf("%s expecting <name> <type> but found: %s", p.gotFilePos(), line)
+				}
+
 				if structHasRowData {
 					// Find the equals sign byte location within the string so we can locate the value data after equals.
 					// We know it's there (from the line split above), so don't check for nil returned.
@@ -406,7 +410,7 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 						return nil, fmt.Errorf("%s expecting <name> <type> = <value> but found: %s", p.gotFilePos(), line)
 					}
 					// Just because the first line is isStructShape with data doesn't mean subsequent lines are.
-					if len(lineSplit) < 4 {
+					if len(lineSplit) < 4 || lineSplit[structEqualsIndex] != "=" {
 						return nil, fmt.Errorf("#5 %s looks like struct with data but found: %s", p.gotFilePos(), line)
 					}
 					var valueData string = line[rangeFound[1]:]        // Just after = equals sign.
-- 
2.43.0


From 2bc1357fe6babb3961b542be2223a5197a2d2101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 19/72] fix: names are ASCII letters, digits and underscores
 everywhere

---
 parser.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 91c2964..f9b1483 100644
--- a/parser.go
+++ b/parser.go
@@ -25,7 +25,6 @@ import (
 	"strconv"
 	"strings"
 	"time"
-	"unicode"
 )
 
 /*
@@ -808,18 +807,23 @@ func isValidName(name string) (bool, error) {
 	if len(name) == 0 {
 		return false, fmt.Errorf("%s: len(name) == 0", UtilFuncName())
 	}
-	if !unicode.IsLetter(rune(name[0])) && name[0] != '_' {
+	if !isNameLetter(name[0]) {
 		return false, fmt.Errorf("%s: invalid first char: %c (expecting letter or '_')", UtilFuncName(), name[0])
 	}
 	for i := 1; i < len(name); i++ {
-		if !unicode.IsLetter(rune(name[i])) && name[i] != '_' && !unicode.IsNumber(rune(name[i])) {
-			return false, fmt.Errorf("%s: invalid char: %c (expecting letter or '_' or number)", UtilFuncName(), name[0])
+		if !isNameLetter(name[i]) && (name[i] < '0' || name[i] > '9') {
+			return false, fmt.Errorf("%s: invalid char: %c (expecting letter or '_' or number)", UtilFuncName(), name[i])
 		}
 	}
 
 	return true, nil
 }
 
+// As in namePattern. Bytes above ASCII are parts of multi-byte chars, not letters.
+func isNameLetter(c byte) bool {
+	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
+}
+
 // Note: The same validity rules apply to both table names and col names.
 func IsValidColName(colName string) (bool, error) {
 
-- 
2.43.0


From e9ec82442ae051b95f637e20144c8c896d5e4912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 20/72] fix: padded text keeps the digits of floats

---
 gotables.go | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/gotables.go b/gotables.go
index 20f44a1..06218da 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1346,27 +1346,16 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 				var toWrite string
 				if row <= 1 { // It's a colName or typeName
 					toWrite = matrix[col][row]
-				} else if colTypes[col] != "float32" && colTypes[col] != "float64" {
-					toWrite = matrix[col][row] // Integrals are already formatted. A float would lose digits of large ones.
-				} else { // It's float.
-					var bits int
-					switch colTypes[col] {
-					case "float32":
-						bits = 32
-					case "float64":
-						bits = 64
-					default:
-						bits = 64 // For int and other non-float integrals.
-					}
-					// Convert back to float so we can format it again in light of the maximum precision in the column.
-					float64Val, err := strconv.ParseFloat(matrix[col][row], bits)
-					if err != nil {
-						_, _ = os.Stderr.WriteString(fmt.Sprintf("%s %s %s\n", UtilFuncSource(), UtilFuncName(), err))
-						UtilPrintCaller()
-						return ""
+				} else { // It's numeric. Keep the digits as formatted, so that no digit changes.
+					toWrite = matrix[col][row]
+					missing := precis[col] - precisionOf(toWrite)
+					if missing > 0 && toWrite != "NaN" && !strings.HasSuffix(toWrite, "Inf") {
+						// Extend a float to the maximum precision in the column.
+						if pointsOf(toWrite) == 0 {
+							toWrite += "."
+						}
+						toWrite += strings.Repeat("0", missing)
 					}
-					toWrite = strconv.FormatFloat(float64Val, 'f', precis[col], bits)
-					//					width[col] = max(width[col], len(toWrite))
 				}
 				//				s = fmt.Sprintf("%s%*s", sep, width[col], matrix[col][row])	// Align right
 				if colTypes[col] == "float32" || colTypes[col] == "float64" {
-- 
2.43.0


From 0bf53c4132a1599584dfa6c0eb5ae903e14bec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 21/72] fix: the parser rejects invalid UTF-8 in strings and
 runes

---
 parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.go b/parser.go
index f9b1483..76dac5d 100644
--- a/parser.go
+++ b/parser.go
@@ -25,6 +25,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 /*
@@ -906,6 +907,9 @@ func (p *parser) getRowSlice(line string, table *Table, colNames []string, colTy
 					p.gotFilePos(), colTypes[i], remaining)
 			}
 			textFound = remaining[rangeFound[0]:rangeFound[1]]
+			if !utf8.ValidString(textFound) { // Unquoting would replace the invalid bytes.
+				return nil, fmt.Errorf("%s invalid UTF-8 in string: %q", p.gotFilePos(), textFound)
+			}
 			unquoted, err := strconv.Unquote(textFound) // Note: strconv.Unquote() strips off surrounding double-quotes.
 			if err != nil {
 				return nil, fmt.Errorf("%s error: %v of string: %s",
@@ -1170,6 +1174,9 @@ func (p *parser) getRowSlice(line string, table *Table, colNames []string, colTy
 				return nil, fmt.Errorf("%s invalid rune with zero length: ''", p.gotFilePos())
 			}
 			textFound = remaining[rangeFound[0]:rangeFound[1]]
+			if !utf8.ValidString(textFound) { // Unquoting would replace the invalid bytes.
+				return nil, fmt.Errorf("%s invalid UTF-8 in rune: %q", p.gotFilePos(), textFound)
+			}
 			var runeText string = textFound[1 : len(textFound)-1] // Strip off leading and trailing '' quotes.
 			runeVal, err = parseRune(runeText)
 			if err != nil {
-- 
2.43.0


From 112982bd169550f156e7d613f75cc991c4db5a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 22/72] fix: col names at the end of the text without col types
 are an error

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 76dac5d..5507030 100644
--- a/parser.go
+++ b/parser.go
@@ -525,6 +525,9 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 		}
 
 		if readError == io.EOF {
+			if expecting == _COL_TYPES {
+				return nil, fmt.Errorf("%s expecting row of col names to be followed by a row of col types", p.gotFilePos())
+			}
 			return tables, nil // It's not an error to reach EOF. It just means end of document.
 		}
 	}
-- 
2.43.0


From 0b6a01ce307066c7fb530bf7042fbd6b47d7b81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 23/72] fix: JSON export is valid JSON for every string, rune
 and float

---
 json.go | 59 +++++++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 4 deletions(-)

diff --git a/json.go b/json.go
index 376de3a..2979cb3 100644
--- a/json.go
+++ b/json.go
@@ -5,13 +5,14 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	_ "math"
+	"math"
 	_ "os"
 	"reflect"
 	"regexp"
 	_ "strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 type circRefMap map[*Table]struct{}
@@ -143,7 +144,12 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 			switch val.(type) {
 
 			case string:
-				buf.WriteString(fmt.Sprintf("%q", val.(string)))
+				var quoted string
+				quoted, err = quoteJSON(val.(string))
+				if err != nil {
+					return fmt.Errorf("%s table [%s] col %s row %d: %v", UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, err)
+				}
+				buf.WriteString(quoted)
 
 			case bool, int, uint, int8, int16, int64, uint8, uint16, uint32, uint64, float32, float64:
 				var valStr string
@@ -151,7 +157,12 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				if err != nil {
 					return err
 				}
-				buf.WriteString(valStr)
+				switch valStr {
+				case "NaN", "+Inf", "-Inf": // JSON numbers don't include these.
+					buf.WriteString(fmt.Sprintf("%q", valStr))
+				default:
+					buf.WriteString(valStr)
+				}
 
 			// rune vs int32
 			case int32:
@@ -164,7 +175,12 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				case "int32":
 					buf.WriteString(valStr)
 				case "rune":
-					buf.WriteString(fmt.Sprintf("%q", valStr))
+					var quoted string
+					quoted, err = quoteJSON(valStr)
+					if err != nil {
+						return err
+					}
+					buf.WriteString(quoted)
 				default:
 					msg := invalidColTypeMsg(table.Name(), fmt.Sprintf("%s: %s", UtilFuncName(), table.colTypes[colIndex]))
 					buf.WriteString(msg)
@@ -377,6 +393,24 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 						}
 					case "string":
 						err = table.SetStringByColIndex(colIndex, rowIndex, cell.(string))
+					case "float32", "float64": // Values that are not JSON numbers.
+						var float64Val float64
+						switch cell.(string) {
+						case "NaN":
+							float64Val = math.NaN()
+						case "+Inf":
+							float64Val = math.Inf(1)
+						case "-Inf":
+							float64Val = math.Inf(-1)
+						default:
+							return nil, fmt.Errorf("%s %s: unexpected value %q of type: %s",
+								UtilFuncSource(), UtilFuncName(), cell, colType)
+						}
+						if colType == "float32" {
+							err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
+						} else {
+							err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64Val)
+						}
 					default:
 						return nil, fmt.Errorf("%s %s: unexpected value of type: %s",
 							UtilFuncSource(), UtilFuncName(), colType)
@@ -687,3 +721,20 @@ func indentJSON(jsonString string) (jsonStringIndented string, err error) {
 
 	return
 }
+
+// Return string as a JSON string literal. (A Go literal from %q is not always valid JSON.)
+func quoteJSON(s string) (quoted string, err error) {
+	if !utf8.ValidString(s) {
+		return "", fmt.Errorf("string is not valid UTF-8 so it cannot be a JSON string: %q", s)
+	}
+
+	var buf bytes.Buffer
+	encoder := json.NewEncoder(&buf)
+	encoder.SetEscapeHTML(false)
+	err = encoder.Encode(s)
+	if err != nil {
+		return "", err
+	}
+
+	return strings.TrimSuffix(buf.String(), "\n"), nil
+}
-- 
2.43.0


From e118570caf3331dadf10506b43f12b2f3da7a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 24/72] fix: JSON import reads integers exactly or reports an
 error

---
 json.go | 82 +++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 62 insertions(+), 20 deletions(-)

diff --git a/json.go b/json.go
index 2979cb3..511c90d 100644
--- a/json.go
+++ b/json.go
@@ -9,7 +9,7 @@ import (
 	_ "os"
 	"reflect"
 	"regexp"
-	_ "strconv"
+	"strconv"
 	"strings"
 	"time"
 	"unicode/utf8"
@@ -428,40 +428,51 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 
 				// Deal with conversions to larger ints: int64 uint64
 				case json.Number: // We set to json.Number with: decoder.UseNumber()
+					// Convert via the widest type of the same kind. Not via float64, which loses digits of large integrals.
+					var int64Val int64
+					var uint64Val uint64
 					var float64Val float64
-					float64Val, err = cell.(json.Number).Float64()
+					var number string = cell.(json.Number).String()
+					switch colType {
+					case "int", "int8", "int16", "int32", "int64":
+						int64Val, err = jsonNumberAsInt(number, numericBits[colType])
+					case "uint", "byte", "uint8", "uint16", "uint32", "uint64":
+						uint64Val, err = jsonNumberAsUint(number, numericBits[colType])
+					case "float32", "float64":
+						float64Val, err = strconv.ParseFloat(number, numericBits[colType])
+					}
 					if err != nil {
-						err := fmt.Errorf("could not convert json.Number to float64")
-						return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
+						return nil, fmt.Errorf("%s %s: could not convert JSON number %s to gotables %s: %v",
+							UtilFuncSource(), UtilFuncName(), number, colType, err)
 					}
 
 					switch colType { // We need to convert them back to gotables numeric types
 					case "int64":
-						err = table.SetInt64ByColIndex(colIndex, rowIndex, int64(float64Val))
+						err = table.SetInt64ByColIndex(colIndex, rowIndex, int64(int64Val))
 					case "uint64":
-						err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(float64Val))
+						err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(uint64Val))
 					case "float32":
 						err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
 					case "float64":
 						err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64Val)
 					case "int":
-						err = table.SetIntByColIndex(colIndex, rowIndex, int(float64Val))
+						err = table.SetIntByColIndex(colIndex, rowIndex, int(int64Val))
 					case "uint":
-						err = table.SetUintByColIndex(colIndex, rowIndex, uint(float64Val))
+						err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
 					case "byte":
-						err = table.SetByteByColIndex(colIndex, rowIndex, byte(float64Val))
+						err = table.SetByteByColIndex(colIndex, rowIndex, byte(uint64Val))
 					case "int8":
-						err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(float64Val))
+						err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(int64Val))
 					case "int16":
-						err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(float64Val))
+						err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(int64Val))
 					case "int32":
-						err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(float64Val))
+						err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(int64Val))
 					case "uint8":
-						err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(float64Val))
+						err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(uint64Val))
 					case "uint16":
-						err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(float64Val))
+						err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(uint64Val))
 					case "uint32":
-						err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(float64Val))
+						err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(uint64Val))
 					default:
 						return nil, fmt.Errorf("%s %s: unexpected value of type: %s",
 							UtilFuncSource(), UtilFuncName(), colType)
@@ -477,14 +488,18 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 				case []interface{}: // This cell is a slice (probably either byte or uint8)
 					var interfaceSlice []interface{} = cell.([]interface{})
 					var byteSlice []byte = []byte{} // Ready to append to.
-					var float64Val float64
 					for _, sliceVal := range interfaceSlice {
-						float64Val, err = sliceVal.(json.Number).Float64()
+						number, isNumber := sliceVal.(json.Number)
+						if !isNumber {
+							return nil, fmt.Errorf("%s %s: unexpected value in slice of type: %v",
+								UtilFuncSource(), UtilFuncName(), reflect.TypeOf(sliceVal))
+						}
+						uint64Val, err := jsonNumberAsUint(number.String(), _BITS_8)
 						if err != nil {
-							err := fmt.Errorf("could not convert json.Number to float64")
-							return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
+							return nil, fmt.Errorf("%s %s: could not convert JSON number %s to gotables %s: %v",
+								UtilFuncSource(), UtilFuncName(), number, colType, err)
 						}
-						byteSlice = append(byteSlice, byte(float64Val))
+						byteSlice = append(byteSlice, byte(uint64Val))
 					}
 					err = table.SetByteSliceByColIndex(colIndex, rowIndex, byteSlice)
 					if err != nil {
@@ -738,3 +753,30 @@ func quoteJSON(s string) (quoted string, err error) {
 
 	return strings.TrimSuffix(buf.String(), "\n"), nil
 }
+
+// Bit width of numeric types for strconv functions.
+var numericBits = map[string]int{
+	"int": strconv.IntSize, "int8": _BITS_8, "int16": _BITS_16, "int32": _BITS_32, "int64": _BITS_64,
+	"uint": strconv.IntSize, "byte": _BITS_8, "uint8": _BITS_8, "uint16": _BITS_16, "uint32": _BITS_32, "uint64": _BITS_64,
+	"float32": _BITS_32, "float64": _BITS_64,
+}
+
+// Integral JSON numbers may also be written with a fraction or exponent: 1.0 or 1e3
+func jsonNumberAsInteger(number string) string {
+	if strings.ContainsAny(number, ".eE") {
+		const maxExactFloat = 1 << 53
+		float64Val, err := strconv.ParseFloat(number, _BITS_64)
+		if err == nil && float64Val == math.Trunc(float64Val) && math.Abs(float64Val) < maxExactFloat {
+			return strconv.FormatFloat(float64Val, 'f', -1, _BITS_64)
+		}
+	}
+	return number
+}
+
+func jsonNumberAsInt(number string, bits int) (int64, error) {
+	return strconv.ParseInt(jsonNumberAsInteger(number), _DEC, bits)
+}
+
+func jsonNumberAsUint(number string, bits int) (uint64, error) {
+	return strconv.ParseUint(jsonNumberAsInteger(number), _DEC, bits)
+}
-- 
2.43.0


From 305adbb73f2b5e86fa91b11565d143c336e3631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 25/72] fix: malformed JSON documents are errors, not panics or
 silent defaults

---
 json.go | 63 +++++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/json.go b/json.go
index 511c90d..ac71a85 100644
--- a/json.go
+++ b/json.go
@@ -318,6 +318,8 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 		if err != nil {
 			return nil, err
 		}
+	} else if val, found := jsonMap["isStructShape"]; found {
+		return nil, fmt.Errorf("%s: expecting a bool isStructShape but found type %T: %v", UtilFuncName(), val, val)
 	}
 
 	// (2) Retrieve and process metadata.
@@ -331,8 +333,9 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 		var colName string
 		var colType string
 		var val interface{}
-		for colName, val = range colNameAndType.(map[string]interface{}) {
-			// There's only one map element here: colName and colType.
+		colName, val, err = singleElement(colNameAndType)
+		if err != nil {
+			return nil, fmt.Errorf("table [%s] metadata: %v", tableName, err)
 		}
 		var ok bool
 		colType, ok = val.(string)
@@ -350,6 +353,9 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 	var data []interface{}
 	data, exists = jsonMap["data"].([]interface{})
 	if !exists {
+		if val, found := jsonMap["data"]; found {
+			return nil, fmt.Errorf("table [%s] expecting an array of rows as data but found type %T: %v", tableName, val, val)
+		}
 		// Zero rows in this table. That's okay.
 		return table, nil
 	}
@@ -362,12 +368,24 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 			return nil, err
 		}
 
-		var row []interface{} = val.([]interface{})
+		row, isRow := val.([]interface{})
+		if !isRow {
+			return nil, fmt.Errorf("table [%s] row %d: expecting an array of cells but found type %T: %v", tableName, rowIndex, val, val)
+		}
+		if len(row) != table.ColCount() {
+			return nil, fmt.Errorf("table [%s] row %d: expecting %d cell%s but found %d",
+				tableName, rowIndex, table.ColCount(), plural(table.ColCount()), len(row))
+		}
 		for colIndex, val := range row {
 			// where(fmt.Sprintf("\t\tcol [%d] %v", colIndex, val))
-			var cell interface{}
-			for _, cell = range val.(map[string]interface{}) {
-				// There's only one map element here: colName and colType.
+			colName, cell, err := singleElement(val)
+			if err != nil {
+				return nil, fmt.Errorf("table [%s] row %d: %v", tableName, rowIndex, err)
+			}
+			if colName != table.colNames[colIndex] {
+				return nil, fmt.Errorf("table [%s] row %d: expecting col %s but found %s", tableName, rowIndex, table.colNames[colIndex], colName)
+			}
+			{
 				// where(fmt.Sprintf("\t\t\tcol=%d row=%d celltype=%T cell=%v", colIndex, rowIndex, cell, cell))
 
 				var colType string = table.colTypes[colIndex]
@@ -377,11 +395,14 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 					case "rune":
 						var stringVal = cell.(string)
 						var runeSlice []rune = []rune(stringVal)
+						if len(runeSlice) != 1 {
+							return nil, fmt.Errorf("%s %s: expecting a single rune but found: %q", UtilFuncSource(), UtilFuncName(), stringVal)
+						}
 						var runeVal rune = runeSlice[0]
 						err = table.SetRuneByColIndex(colIndex, rowIndex, runeVal)
 					case "time.Time":
 						var timeVal time.Time
-						timeVal, err = time.Parse(time.RFC3339, cell.(string))
+						timeVal, err = parseTimeExactly(cell.(string))
 						if err != nil { // We need this extra error check here
 							err := fmt.Errorf("could not convert JSON time string to gotables %s", colType)
 							return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
@@ -637,6 +658,9 @@ func NewTableSetFromJSON(jsonTableSetString string) (tableSet *TableSet, err err
 	if err != nil {
 		return nil, err
 	}
+	if _, err = decoder.Token(); err != io.EOF {
+		return nil, fmt.Errorf("%s: unexpected text after JSON document", UtilFuncName())
+	}
 
 	// (1) Retrieve and process TableSet name.
 	var tableSetName string
@@ -664,7 +688,10 @@ func NewTableSetFromJSON(jsonTableSetString string) (tableSet *TableSet, err err
 	// (3) Loop through the array of tables.
 	for _, tableMapInterface = range tablesMap {
 
-		tableMap = tableMapInterface.(map[string]interface{})
+		tableMap, exists = tableMapInterface.(map[string]interface{})
+		if !exists {
+			return nil, fmt.Errorf("%s: expecting a table but found type %T: %v", UtilFuncName(), tableMapInterface, tableMapInterface)
+		}
 
 		var table *Table
 		table, err = newTableFromJSON_recursive(tableMap)
@@ -780,3 +807,23 @@ func jsonNumberAsInt(number string, bits int) (int64, error) {
 func jsonNumberAsUint(number string, bits int) (uint64, error) {
 	return strconv.ParseUint(jsonNumberAsInteger(number), _DEC, bits)
 }
+
+// Metadata and cells are maps of 1 element: the col name and its type or value.
+func singleElement(element interface{}) (key string, val interface{}, err error) {
+	elementMap, isMap := element.(map[string]interface{})
+	if !isMap || len(elementMap) != 1 {
+		return "", nil, fmt.Errorf("expecting a single name and value but found: %v", element)
+	}
+	for key, val = range elementMap {
+		// There's only one map element here.
+	}
+	return
+}
+
+// time.Parse() also accepts times that it does not read exactly, such as more than 9 fractional digits.
+func parseTimeExactly(s string) (timeVal time.Time, err error) {
+	if loc := rfc3339TimeRegexp.FindStringIndex(s); loc == nil || loc[1] != len(s) {
+		return timeVal, fmt.Errorf("expecting an RFC3339 time but found: %q", s)
+	}
+	return time.Parse(time.RFC3339, s)
+}
-- 
2.43.0


From eff68cbac4cdab118e3956622cf7a8f59b7b1328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 26/72] fix: JSON export accepts a nested table referred to by
 several cells

---
 json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json.go b/json.go
index ac71a85..49f7b44 100644
--- a/json.go
+++ b/json.go
@@ -254,6 +254,9 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 	}
 	buf.WriteByte(']') // End array of rows.
 
+	// A reference is circular only from within this table. It's okay for other cells to refer to it.
+	delete(refMap, table)
+
 	return
 }
 
-- 
2.43.0


From 654d3725d6c63d0afeaa322359949e9735ca9b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:57:17 +1100
Subject: [PATCH 27/72] fix: malformed YAML documents are errors, not panics or
 silent defaults

---
 yaml.go | 146 ++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 99 insertions(+), 47 deletions(-)

diff --git a/yaml.go b/yaml.go
index 09d961b..3db1805 100644
--- a/yaml.go
+++ b/yaml.go
@@ -3,6 +3,7 @@ package gotables
 import (
 	_ "encoding/json"
 	"fmt"
+	"math"
 	_ "os"
 	_ "strings"
 	"time"
@@ -49,15 +50,13 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 
 	tableSet, err = NewTableSet(tableSetName)
 	if err != nil {
-		return
+		return nil, err
 	}
 
 	// (2) Retrieve and process tables.
 	var tablesMap []interface{}
 	var anyVal interface{}
-	anyVal, exists = tableSetMap["tables"]
-	tablesMap = anyVal.([]interface{})
-
+	tablesMap, exists = tableSetMap["tables"].([]interface{})
 	if !exists {
 		return nil, fmt.Errorf("%s %s: in YAML doc: 'tables' is missing", UtilFuncSource(), UtilFuncName())
 	}
@@ -67,17 +66,20 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 	// (3) Loop through the array of tables.
 	for _, anyVal = range tablesMap {
 
-		tableMap = anyVal.(map[string]interface{})
+		tableMap, exists = anyVal.(map[string]interface{})
+		if !exists {
+			return nil, fmt.Errorf("%s %s: in YAML doc: expecting a table but found type %T: %v", UtilFuncSource(), UtilFuncName(), anyVal, anyVal)
+		}
 
 		var table *Table
 		table, err = newTableFromYAML_recursive(tableMap)
 		if err != nil {
-			return
+			return nil, err
 		}
 
 		err = tableSet.Append(table)
 		if err != nil {
-			return
+			return nil, err
 		}
 	}
 
@@ -107,9 +109,16 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 	if len(tableName) > 0 {
 		table, err = NewTable(tableName)
 		if err != nil {
-			return
+			return nil, err
 		}
 	} else {
+		// A nil table has no cols or rows.
+		for _, key := range []string{"metadata", "data"} {
+			slice, isSlice := tableMap[key].([]interface{})
+			if tableMap[key] != nil && (!isSlice || len(slice) > 0) {
+				return nil, fmt.Errorf("%s %s: in YAML doc: table without a name has %s: %v", UtilFuncSource(), UtilFuncName(), key, tableMap[key])
+			}
+		}
 		table = NewNilTable()
 		return
 	}
@@ -120,8 +129,10 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 	if exists {
 		err = table.SetStructShape(isStructShape)
 		if err != nil {
-			return
+			return nil, err
 		}
+	} else if val, found := tableMap["isStructShape"]; found {
+		return nil, fmt.Errorf("%s %s: in YAML doc: expecting a bool isStructShape but found type %T: %v", UtilFuncSource(), UtilFuncName(), val, val)
 	}
 
 	// (2) Retrieve and process metadata.
@@ -129,20 +140,21 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 	metadata, exists = tableMap["metadata"].([]interface{})
 	if !exists {
 		err = fmt.Errorf("%s %s: in YAML doc: table 'metadata' is missing", UtilFuncSource(), UtilFuncName())
-		return
+		return nil, err
 	}
 	// Loop through the array of metadata.
 	for _, colNameAndType := range metadata {
 		var colName string
 		var colType string
 		var typeVal interface{}
-		for colName, typeVal = range colNameAndType.(map[string]interface{}) {
-			// There's only one map element here: colName and colType.
+		colName, typeVal, err = singleElement(colNameAndType)
+		if err != nil {
+			return nil, fmt.Errorf("%s %s: in YAML doc: metadata: %v", UtilFuncSource(), UtilFuncName(), err)
 		}
 		colType, ok := typeVal.(string)
 		if !ok {
 			err = fmt.Errorf("expecting colType string value from YAML but got type %T and value: %v", typeVal, typeVal)
-			return
+			return nil, err
 		}
 
 		colType = trimQuote(colType) // YAML likes to quote some strings.
@@ -173,11 +185,20 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 		dataMapSlice = whatever.([]interface{})
 		data = make([][]interface{}, len(dataMapSlice))
 		for i, el1 := range dataMapSlice {
-			for _, el2 := range el1.([]interface{}) {
+			rowSlice, isSlice := el1.([]interface{})
+			if !isSlice {
+				return nil, fmt.Errorf("%s %s: in YAML doc: table [%s] row %d: expecting a row of values but found type %T: %v",
+					UtilFuncSource(), UtilFuncName(), tableName, i, el1, el1)
+			}
+			for _, el2 := range rowSlice {
 				data[i] = append(data[i], el2)
 			}
 		}
+	case nil:
+		// No data.
 	default:
+		return nil, fmt.Errorf("%s %s: in YAML doc: table [%s] expecting rows of data but found type %T: %v",
+			UtilFuncSource(), UtilFuncName(), tableName, whatever, whatever)
 	}
 
 	whatever, exists = existsInMap(tableMap, "data")
@@ -196,12 +217,20 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 			return
 		}
 		row = data[rowIndex]
+		if len(row) != table.ColCount() {
+			return nil, fmt.Errorf("%s %s: in YAML doc: table [%s] row %d: expecting %d value%s but found %d",
+				UtilFuncSource(), UtilFuncName(), tableName, rowIndex, table.ColCount(), plural(table.ColCount()), len(row))
+		}
 		for colIndex := 0; colIndex < len(row); colIndex++ {
 			switch row[colIndex].(type) {
 			case uint:
 				err = table.SetUintByColIndex(colIndex, rowIndex, row[colIndex].(uint))
 			case int:
 				var intVal = row[colIndex].(int)
+				if !yamlIntFits(intVal, table.colTypes[colIndex]) {
+					return nil, fmt.Errorf("%s %s: in YAML doc: table [%s] col %s row %d: value is out of range of type %s: %d",
+						UtilFuncSource(), UtilFuncName(), tableName, table.colNames[colIndex], rowIndex, table.colTypes[colIndex], intVal)
+				}
 				switch table.colTypes[colIndex] {
 				case "int":
 					err = table.SetIntByColIndex(colIndex, rowIndex, row[colIndex].(int))
@@ -229,8 +258,6 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 					err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(intVal))
 				case "float32":
 					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(intVal))
-				case "time.Time":
-					err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
 				case "rune":
 					err = table.SetRuneByColIndex(colIndex, rowIndex, rune(intVal))
 				default:
@@ -251,6 +278,10 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				switch table.colTypes[colIndex] {
 				case "float32":
 					var float64Val float64 = row[colIndex].(float64)
+					if math.IsInf(float64(float32(float64Val)), 0) && !math.IsInf(float64Val, 0) {
+						return nil, fmt.Errorf("%s %s: in YAML doc: table [%s] col %s row %d: value is out of range of type float32: %v",
+							UtilFuncSource(), UtilFuncName(), tableName, table.colNames[colIndex], rowIndex, float64Val)
+					}
 					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
 				case "float64":
 					err = table.SetFloat64ByColIndex(colIndex, rowIndex, row[colIndex].(float64))
@@ -275,36 +306,34 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
 			case interface{}:
 				switch table.colTypes[colIndex] {
-				case "byte":
-					err = table.SetByteByColIndex(colIndex, rowIndex, row[colIndex].(byte))
-
-				case "uint":
-					var uint64Val uint64 = row[colIndex].(uint64)
-					err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
-
-				case "uint16":
-					err = table.SetUint16ByColIndex(colIndex, rowIndex, row[colIndex].(uint16))
-
-				case "uint32":
-					err = table.SetUint32ByColIndex(colIndex, rowIndex, row[colIndex].(uint32))
-
-				case "uint64":
-					err = table.SetUint64ByColIndex(colIndex, rowIndex, row[colIndex].(uint64))
-
-				case "int8":
-					err = table.SetInt8ByColIndex(colIndex, rowIndex, row[colIndex].(int8))
-
-				case "int16":
-					err = table.SetInt16ByColIndex(colIndex, rowIndex, row[colIndex].(int16))
-
-				case "int64":
-					err = table.SetInt64ByColIndex(colIndex, rowIndex, row[colIndex].(int64))
+				case "uint", "uint64", "float32", "float64":
+					// Integers too big for int.
+					uint64Val, isUint64 := row[colIndex].(uint64)
+					if !isUint64 {
+						return nil, fmt.Errorf("%s %s: in YAML doc: table [%s] col %s row %d: expecting type %s but found type %T: %v",
+							UtilFuncSource(), UtilFuncName(), tableName, table.colNames[colIndex], rowIndex, table.colTypes[colIndex], row[colIndex], row[colIndex])
+					}
+					switch table.colTypes[colIndex] {
+					case "uint":
+						err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
+					case "uint64":
+						err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64Val)
+					case "float32":
+						err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(uint64Val))
+					case "float64":
+						err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64(uint64Val))
+					}
 
 				case "*Table":
 					var tableOut *Table
-					tableOut, err = newTableFromYAML_recursive(row[colIndex].(map[string]interface{}))
+					nestedMap, isMap := row[colIndex].(map[string]interface{})
+					if !isMap {
+						return nil, fmt.Errorf("%s %s: in YAML doc: table [%s] col %s row %d: expecting a table but found type %T: %v",
+							UtilFuncSource(), UtilFuncName(), tableName, table.colNames[colIndex], rowIndex, row[colIndex], row[colIndex])
+					}
+					tableOut, err = newTableFromYAML_recursive(nestedMap)
 					if err != nil {
-						return
+						return nil, err
 					}
 					err = table.SetTableByColIndex(colIndex, rowIndex, tableOut)
 
@@ -319,11 +348,16 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 						sliceVal = row[colIndex].([]interface{})
 						byteSliceVal = make([]byte, len(sliceVal))
 						for i := 0; i < len(sliceVal); i++ {
-							var intVal int = sliceVal[i].(int)
+							intVal, isInt := sliceVal[i].(int)
+							if !isInt || !yamlIntFits(intVal, "byte") {
+								return nil, fmt.Errorf("%s %s: in YAML doc: table [%s] col %s row %d: expecting a byte but found: %v",
+									UtilFuncSource(), UtilFuncName(), tableName, table.colNames[colIndex], rowIndex, sliceVal[i])
+							}
 							byteSliceVal[i] = byte(intVal)
 						}
-					case interface{}:
 					default:
+						return nil, fmt.Errorf("%s %s: in YAML doc: table [%s] col %s row %d: expecting a slice of bytes but found type %T: %v",
+							UtilFuncSource(), UtilFuncName(), tableName, table.colNames[colIndex], rowIndex, row[colIndex], row[colIndex])
 					}
 					switch table.colTypes[colIndex] {
 					case "[]byte":
@@ -348,9 +382,6 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 					table = nil
 					return
 				}
-			case []interface{}:
-			case []byte:
-			case *Table:
 			default:
 				msg := invalidColTypeMsg(table.Name(), table.colTypes[colIndex])
 				err = fmt.Errorf("#3 %s %s: %s", UtilFuncSource(), UtilFuncName(), msg)
@@ -591,6 +622,27 @@ func printMap(m map[string]interface{}) string {
 	return fmt.Sprintf("len=%d %v\n", len(m), m)
 }
 
+// Can this col type hold this integer exactly? Floats hold the nearest value.
+func yamlIntFits(intVal int, colType string) bool {
+	switch colType {
+	case "int8":
+		return intVal >= math.MinInt8 && intVal <= math.MaxInt8
+	case "int16":
+		return intVal >= math.MinInt16 && intVal <= math.MaxInt16
+	case "int32", "rune":
+		return int64(intVal) >= math.MinInt32 && int64(intVal) <= math.MaxInt32
+	case "byte", "uint8":
+		return intVal >= 0 && intVal <= math.MaxUint8
+	case "uint16":
+		return intVal >= 0 && intVal <= math.MaxUint16
+	case "uint32":
+		return intVal >= 0 && int64(intVal) <= math.MaxUint32
+	case "uint", "uint64":
+		return intVal >= 0
+	}
+	return true
+}
+
 func trimQuote(s string) string {
 	// From: https://stackoverflow.com/questions/44222554/how-to-remove-quotes-from-around-a-string-in-golang
 
-- 
2.43.0


From 6cc21f0df33956d1a3d736eefd3e70cb96563999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:57:17 +1100
Subject: [PATCH 28/72] fix: YAML import accepts whole numbers in float64
 columns

---
 yaml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaml.go b/yaml.go
index 3db1805..f0b871a 100644
--- a/yaml.go
+++ b/yaml.go
@@ -258,6 +258,8 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 					err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(intVal))
 				case "float32":
 					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(intVal))
+				case "float64":
+					err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64(intVal))
 				case "rune":
 					err = table.SetRuneByColIndex(colIndex, rowIndex, rune(intVal))
 				default:
-- 
2.43.0


From 7517297d08a876a23887f0c444aa7397d90fc865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 29/72] fix: YAML export reports circular references and other
 errors

---
 yaml.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/yaml.go b/yaml.go
index f0b871a..cf05c54 100644
--- a/yaml.go
+++ b/yaml.go
@@ -410,13 +410,13 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	var yamlMap map[string]interface{}
 	yamlMap, err = tableSet.GetTableSetAsMap()
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	var yamlBytes []byte
 	yamlBytes, err = yaml.Marshal(yamlMap)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	yamlString = string(yamlBytes)
@@ -443,7 +443,7 @@ func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, er
 		}
 
 		var yamlTable map[string]interface{}
-		yamlTable, err = table.getTableAsMap()
+		yamlTable, err = table.getTableAsMap(circRefMap{})
 		if err != nil {
 			return
 		}
@@ -457,7 +457,11 @@ func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, er
 	return
 }
 
-func (table *Table) getTableAsMap() (yamlTable map[string]interface{}, err error) {
+func (table *Table) getTableAsMap(refMap circRefMap) (yamlTable map[string]interface{}, err error) {
+
+	// Add this table to the circular reference map while inside it.
+	refMap[table] = EmptyStruct
+	defer delete(refMap, table)
 
 	var yamlObject map[string]interface{} // Cell name and value pair.
 	var yamlTableData [][]interface{}
@@ -558,7 +562,13 @@ func (table *Table) getTableAsMap() (yamlTable map[string]interface{}, err error
 				return err
 			}
 
-			anyVal, err = nestedTable.getTableAsMap()
+			_, exists := refMap[nestedTable]
+			if exists {
+				circError := NewCircRefError(table, nestedTable, "")
+				return fmt.Errorf("%s: %w", "getTableAsMap()", circError)
+			}
+
+			anyVal, err = nestedTable.getTableAsMap(refMap)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From c1dfe77684440e7a99ec7050342a032f3b40df1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:51 +1100
Subject: [PATCH 30/72] fix: Walk and IsValidTableNesting report exactly the
 tables that contain themselves

---
 tree.go | 64 ++++++++++++---------------------------------------------
 1 file changed, 13 insertions(+), 51 deletions(-)

diff --git a/tree.go b/tree.go
index 2baf41d..d735e79 100644
--- a/tree.go
+++ b/tree.go
@@ -84,13 +84,17 @@ func (table *Table) Walk(
 		return
 	}
 
-	if table == nil {
+	if walkSafe == nil {
 		err = fmt.Errorf("table.%s(): walkSafe is nil", UtilFuncNameNoParens())
 		return
 	}
 
 	// where(fmt.Sprintf("Walk() walkSafe %p = %v", walkSafe, walkSafe))
 
+	// A reference to this table is circular only from within this table. It's okay for other cells to refer to it.
+	walkSafe[table] = EmptyStruct
+	defer delete(walkSafe, table)
+
 	// Visit table.
 	if visitTable != nil {
 		// where("visitTable")
@@ -162,13 +166,8 @@ func (table *Table) Walk(
 						if exists { // Invalid table with circular reference!
 							// Construct CircRefError.
 							circError := NewCircRefError(table, nestedTable, "")
-							err = fmt.Errorf("visitCell(): %s", circError) // Wrap circError in err.
+							err = fmt.Errorf("visitCell(): %w", circError) // Wrap circError in err.
 							return err
-						} else {
-							// Add this nested table to the map.
-// where(fmt.Sprintf("ADDING [%s] to %p %v", nestedTable.Name(), walkSafe, walkSafe))
-							walkSafe[nestedTable] = EmptyStruct
-// where(fmt.Sprintf("walkSafe %p = %v", walkSafe, walkSafe))
 						}
 					}
 
@@ -179,12 +178,13 @@ func (table *Table) Walk(
 // where(fmt.Sprintf("walkSafe %p = %v", walkSafe, walkSafe))
 // where("calling nestedTable.Walk()")
 					err = nestedTable.Walk(walkNestedTables, walkSafe, visitTable, visitRow, visitCell)
-					if err != nil {
-						return
-					}
 
 					// Back up from nested table.
 					nestedTable.depth--
+
+					if err != nil {
+						return
+					}
 				}
 			}
 		}
@@ -325,50 +325,12 @@ func (rootTable *Table) IsValidTableNesting() (valid bool, err error) {
 		return false, fmt.Errorf("rootTable.%s(): rootTable is nil", UtilFuncNameNoParens())
 	}
 
-	if rootTable.parentTable != nil {
-		msg := fmt.Sprintf("rootTable.parentTable should be <nil> but found: %q", rootTable.parentTable.Name())
-		circError := NewCircRefError(rootTable, nil, msg)
-		err = fmt.Errorf("%s: %w", funcName, circError) // Wrap circError in err.
-	}
-
-	var refMap circRefMap = map[*Table]struct{}{}
-	refMap[rootTable] = EmptyStruct // Add the root table to the map.
-
-	var visitCell func(walkNestedTables bool, cellInfo CellInfo) (err error)
-	visitCell = func(walkNestedTables bool, cellInfo CellInfo) (err error) {
-		if IsTableColType(cellInfo.ColType) {
-			var nestedTable *Table
-			nestedTable, err = rootTable.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
-			if err != nil {
-				return err
-			}
-
-			if nestedTable.parentTable == nil {
-				msg := fmt.Sprintf("nestedTable.parentTable should not be <nil>")
-				circError := NewCircRefError(rootTable, nestedTable, msg)
-				err = fmt.Errorf("%s: %w", funcName, circError) // Wrap circError in err.
-			}
-
-			// Have we already seen this table?
-			_, exists := refMap[nestedTable]
-			if exists { // Invalid table with circular reference!
-				// Construct CircRefError.
-				circError := NewCircRefError(rootTable, nestedTable, "")
-				err = fmt.Errorf("%s: %w", funcName, circError) // Wrap circError in err.
-				return err
-			} else {
-				// Add this nested table to the map.
-				refMap[nestedTable] = EmptyStruct
-			}
-		}
-		return nil
-	}
-
+	// Walk reports a table that contains itself, at any depth.
 	var walkSafe WalkSafe = make(WalkSafe)
-	err = rootTable.Walk(walkNestedTables, walkSafe, nil, nil, visitCell)
+	err = rootTable.Walk(walkNestedTables, walkSafe, nil, nil, nil)
 	if err != nil {
 		// Found a circular reference!
-		return false, err
+		return false, fmt.Errorf("%s: %w", funcName, err)
 	}
 
 	return true, nil
-- 
2.43.0


From f3b085f3d44ae15e758ad04ebc44ec973a760d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:59:02 +1100
Subject: [PATCH 31/72] fix: CopyDeep() returns a deep copy and leaves its
 receiver as it was

---
 tree.go | 51 ++++++++++++++++++---------------------------------
 1 file changed, 18 insertions(+), 33 deletions(-)

diff --git a/tree.go b/tree.go
index d735e79..b16e851 100644
--- a/tree.go
+++ b/tree.go
@@ -369,61 +369,46 @@ func (table *Table) CopyDeep() (tableCopy *Table, err error) {
 		return nil, fmt.Errorf("table.%s: table is nil", UtilFuncName())
 	}
 
-	// This may seem odd, but this is the point in CopyDeep() where it's possible
-	// to set tableCopy before all the recursive calls have occurred.
-	tableCopy = table
-
-	var visitTable = func(t *Table) (err error) {
-		// where(fmt.Sprintf("[%s]", t.Name()))
-		return
+	// Note: Copy() refuses a table with a circular reference.
+	tableCopy, err = table.Copy()
+	if err != nil {
+		return nil, err
 	}
 
-	var visitCell = func(walkDeep bool, cell CellInfo) (err error) {
-		if IsTableColType(cell.ColType) {
-			// where(fmt.Sprintf("[%s] IsTableColType", cell.Table.Name()))
+	// Replace each nested table with its own deep copy.
+	for colIndex := 0; colIndex < tableCopy.ColCount(); colIndex++ {
+		if !IsTableColType(tableCopy.colTypes[colIndex]) {
+			continue
+		}
 
+		for rowIndex := 0; rowIndex < tableCopy.RowCount(); rowIndex++ {
 			var nestedTable *Table
-			nestedTable, err = cell.Table.GetTableByColIndex(cell.ColIndex, cell.RowIndex)
+			nestedTable, err = tableCopy.GetTableByColIndex(colIndex, rowIndex)
 			if err != nil {
-				return
+				return nil, err
 			}
-			// where(fmt.Sprintf("nestedTable = %p", nestedTable))
 
 			var isNilTable bool
 			isNilTable, err = nestedTable.IsNilTable()
 			if err != nil {
-				return
+				return nil, err
 			}
 
 			var nestedTableCopy *Table
 			if isNilTable {
-				nestedTableCopy = NewNilTable()	// New reference just to be on the safe side.
+				nestedTableCopy = NewNilTable() // New reference just to be on the safe side.
 			} else {
-				nestedTableCopy, err = nestedTable.Copy()
+				nestedTableCopy, err = nestedTable.CopyDeep()
 				if err != nil {
-					return
+					return nil, err
 				}
 			}
 
-			err = cell.Table.SetTableByColIndex(cell.ColIndex, cell.RowIndex, nestedTableCopy)
+			err = tableCopy.SetTableByColIndex(colIndex, rowIndex, nestedTableCopy)
 			if err != nil {
-			// where(fmt.Sprintf("nestedTableCopy = %p", nestedTableCopy))
-				return
+				return nil, err
 			}
 		}
-		tableCopy = cell.Table
-
-		return
-	}
-
-	const walkDeep = true
-	var walkSafe WalkSafe = make(WalkSafe)
-	// where(fmt.Sprintf("declaring walkSafe = %p", walkSafe))
-	// where("BEGIN Walk()")
-	err = table.Walk(walkDeep, walkSafe, visitTable, nil, visitCell)
-	// where("END Walk()")
-	if err != nil {
-		return nil, err
 	}
 
 	return
-- 
2.43.0


From bf465cd508046fa2067f85fc39562be5434aba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:59:16 +1100
Subject: [PATCH 32/72] fix: copies and extracts do not share byte slices with
 their source

---
 gotables.go | 12 ++++++++++--
 merge.go    |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index 06218da..62ae84f 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3610,7 +3610,7 @@ where("\n" + cellVal.(*Table).StringNested())
 }
 */
 
-			err = toTable.SetVal(colName, toRow, cellVal)
+			err = toTable.SetVal(colName, toRow, copyOfVal(cellVal))
 			if err != nil {
 				return err
 			}
@@ -3634,6 +3634,14 @@ where("\n" + cellVal.(*Table).StringNested())
 	return nil
 }
 
+// A copied cell must not share the bytes of a byte slice with the cell it is copied from.
+func copyOfVal(val interface{}) interface{} {
+	if byteSlice, isByteSlice := val.([]byte); isByteSlice && byteSlice != nil {
+		return append([]byte{}, byteSlice...)
+	}
+	return val
+}
+
 /*
 	Create a new table from a range of rows in this table.
 */
@@ -4188,7 +4196,7 @@ func (table *Table) NewTableReorderColsByColIndex(orderIndices ...int) (reordere
 		}
 
 		for rowIndex := 0; rowIndex < rowCount; rowIndex++ {
-			reorderedTable.rows[rowIndex][oldIndex] = table.rows[rowIndex][newIndex]
+			reorderedTable.rows[rowIndex][oldIndex] = copyOfVal(table.rows[rowIndex][newIndex])
 		}
 	}
 
diff --git a/merge.go b/merge.go
index 2131936..c4286a1 100644
--- a/merge.go
+++ b/merge.go
@@ -498,7 +498,7 @@ func (srcTable *Table) copyTableCells(beginRow int, targTable *Table) error {
 			if err != nil {
 				return err
 			}
-			err = targTable.SetVal(colName, targRow, cellVal)
+			err = targTable.SetVal(colName, targRow, copyOfVal(cellVal))
 			// where(fmt.Sprintf("targTable.SetVal(%q, %d, cellVal=%v)\n", colName, targRow, cellVal))
 			if err != nil {
 				return err
-- 
2.43.0


From 20d3f6450d8ef270cb950a26f8092058ab54beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:59:38 +1100
Subject: [PATCH 33/72] fix: StringNested() leaves the names of nested tables
 as they are and refuses circular references

---
 gotables.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gotables.go b/gotables.go
index 62ae84f..54d137b 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4533,6 +4533,13 @@ func (table *Table) IsTableCol(colName string) (isTableCol bool, err error) {
 }
 
 func (table *Table) StringNested() (stringNested string) {
+	if table != nil {
+		if hasCircularReference, err := table.HasCircularReference(); hasCircularReference {
+			_, _ = os.Stderr.WriteString(fmt.Sprintf("%s ERROR table.%s: %v\n", UtilFuncSource(), UtilFuncName(), err))
+			return ""
+		}
+	}
+
 	table.stringNested_recursive(table.Name(), "", "", 0, &stringNested)
 	return
 }
@@ -4620,14 +4627,16 @@ globalDepth++
 				}
 				newName := headName + tailName
 //where(fmt.Sprintf("newName = %s", newName))
-				err = nestedTable.SetName(newName)
+				// Rename a shallow copy, not the nested table itself.
+				var renamedTable Table = *nestedTable
+				err = renamedTable.SetName(newName)
 				if err != nil {
 					return
 				}
 
 // where(fmt.Sprintf("\n>>> nestedTable.stringNested_recursive(%q, %q, %d, stringNested=\n%s)",
 // table.Name(), colName, rowIndex, *stringNested))
-				nestedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
+				renamedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
 			}
 		}
 	}
-- 
2.43.0


From 74771faa0e04292d5403b087422ad138a669aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 34/72] fix: no unsynchronised package-level call counters

---
 gotables.go | 6 ------
 tree.go     | 8 +-------
 2 files changed, 1 insertion(+), 13 deletions(-)

diff --git a/gotables.go b/gotables.go
index 54d137b..6bd801c 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4571,11 +4571,7 @@ func (tableSet *TableSet) StringNested() (stringNested string) {
 }
 */
 
-var globalDepth int
 func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string) {
-//where(fmt.Sprintf("depth=%d [%s]",  globalDepth, table.Name()))
-globalDepth++
-
 	const debug = true
 
 //where(fmt.Sprintf("stringNested_recursive(parentTableName: [%s], parentColName: %q, parentRowIndex: %d, stringNested)\n",
@@ -4641,7 +4637,5 @@ globalDepth++
 		}
 	}
 
-	globalDepth--
-
 	return
 }
diff --git a/tree.go b/tree.go
index b16e851..ad583db 100644
--- a/tree.go
+++ b/tree.go
@@ -527,12 +527,9 @@ func (rootTable *Table) NewTreeTable1(tablesDepth int) (treeTable *Table, err er
 	If there are no type *Table cols in table, or if depth is set to 0, then
 	return table unchanged.
 */
-var globalTreeCalls int
-var globalTreeDepth int
 func (table *Table) NewTreeTable(depth int) (treeTable *Table, err error) {
-globalTreeCalls++
 if CURRENT_TESTS_VERBOSE {
-where(fmt.Sprintf("NewTreeTable(globalTreeCalls=%d)\n", globalTreeCalls))
+where(fmt.Sprintf("NewTreeTable(depth=%d)\n", depth))
 }
 	// where("caller: " + UtilFuncCaller())
 	// where(UtilFuncName())
@@ -558,11 +555,8 @@ where(fmt.Sprintf("NewTreeTable(globalTreeCalls=%d)\n", globalTreeCalls))
 }
 
 func newTreeTable_recursive(originalTable *Table, table *Table, depth int) (err error) {
-globalTreeDepth++
 if CURRENT_TESTS_VERBOSE {
 where(fmt.Sprintf("newTreeTable_recursive(depth=%d)\n", depth))
-where(fmt.Sprintf("newTreeTable_recursive(globalTreeCalls=%d)\n", globalTreeCalls))
-where(fmt.Sprintf("newTreeTable_recursive(globalTreeDepth=%d)\n", globalTreeDepth))
 }
 
 	if originalTable == nil {
-- 
2.43.0


From a4f0676ca5a164100c7c6842ed38d3c11afc44fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:00:30 +1100
Subject: [PATCH 35/72] fix: GOB encoding and decoding keep the sort keys

---
 gob.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/gob.go b/gob.go
index 978b96b..e948448 100644
--- a/gob.go
+++ b/gob.go
@@ -68,7 +68,7 @@ func (table *Table) exportTable() (*TableExported, error) {
 		return nil, err
 	}
 
-	tableExported.SortKeys = []SortKeyExported{}
+	tableExported.SortKeys = make([]SortKeyExported, len(table.sortKeys))
 	for keyIndex, _ := range table.sortKeys {
 		tableExported.SortKeys[keyIndex] = SortKeyExported{}
 		tableExported.SortKeys[keyIndex].ColName = table.sortKeys[keyIndex].colName
@@ -131,13 +131,12 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, err
 	}
 
-	table.sortKeys = []sortKey{}
-	for keyIndex, _ := range table.sortKeys {
-		table.sortKeys[keyIndex] = sortKey{}
-		table.sortKeys[keyIndex].colName = tableExported.SortKeys[keyIndex].ColName
-		table.sortKeys[keyIndex].colType = tableExported.SortKeys[keyIndex].ColType
-		table.sortKeys[keyIndex].reverse = tableExported.SortKeys[keyIndex].Reverse
-		table.sortKeys[keyIndex].sortFunc = tableExported.SortKeys[keyIndex].SortFunc
+	for _, key := range tableExported.SortKeys {
+		err = table.AppendSortKey(key.ColName)
+		if err != nil {
+			return nil, err
+		}
+		table.sortKeys[len(table.sortKeys)-1].reverse = key.Reverse
 	}
 
 	table.isStructShape = tableExported.StructShape
-- 
2.43.0


From 56d6ef85e0978bec52cd6369ce9c12ab4c4d2788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 36/72] fix: malformed GOB data is an error, not a panic or an
 invalid table

---
 gob.go      | 66 ++++++++++++++++++++++++++++++++++-------------------
 gotables.go |  2 +-
 2 files changed, 43 insertions(+), 25 deletions(-)

diff --git a/gob.go b/gob.go
index e948448..4f01082 100644
--- a/gob.go
+++ b/gob.go
@@ -88,7 +88,6 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, fmt.Errorf("table.%s() table is <nil>", UtilFuncName())
 	}
 	var err error
-	var elementCount int
 	var table *Table
 
 	var tableName string = tableExported.TableName
@@ -100,35 +99,43 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 
 	var colCount int = len(tableExported.ColNames)
 
-	table.colNames = make([]string, colCount)
-	elementCount = copy(table.colNames, tableExported.ColNames)
-	if elementCount != colCount {
-		err = fmt.Errorf("importTable() [%s] expecting to import %d col names but imported: %d",
-			tableName, colCount, elementCount)
+	if len(tableExported.ColTypes) != colCount || len(tableExported.ColNamesMap) != colCount {
+		err = fmt.Errorf("importTable() [%s] expecting to import %d col types and lookup entries but found: %d and %d",
+			tableName, colCount, len(tableExported.ColTypes), len(tableExported.ColNamesMap))
 		return nil, err
 	}
 
-	table.colTypes = make([]string, colCount)
-	elementCount = copy(table.colTypes, tableExported.ColTypes)
-	if elementCount != colCount {
-		err = fmt.Errorf("importTable() [%s] expecting to import %d col types but imported: %d",
-			tableName, colCount, elementCount)
-		return nil, err
-	}
+	for colIndex, colName := range tableExported.ColNames {
+		if tableExported.ColNamesMap[colName] != colIndex {
+			err = fmt.Errorf("importTable() [%s] inconsistent lookup entry of col %q: %d",
+				tableName, colName, tableExported.ColNamesMap[colName])
+			return nil, err
+		}
 
-	table.colNamesMap = map[string]int{}
-	for key, val := range tableExported.ColNamesMap {
-		table.colNamesMap[key] = val
+		err = table.AppendCol(colName, tableExported.ColTypes[colIndex])
+		if err != nil {
+			return nil, err
+		}
 	}
 
-	var rowCount int = len(tableExported.Rows)
+	for rowIndex, row := range tableExported.Rows {
+		if len(row) != colCount {
+			err = fmt.Errorf("importTable() [%s] expecting to import %d cells in row %d but found: %d",
+				tableName, colCount, rowIndex, len(row))
+			return nil, err
+		}
 
-	table.rows = make([]tableRow, rowCount)
-	elementCount = copy(table.rows, tableExported.Rows)
-	if elementCount != rowCount {
-		err = fmt.Errorf("importTable() [%s] expecting to import %d rows but imported: %d",
-			table.Name(), rowCount, elementCount)
-		return nil, err
+		err = table.AppendRow()
+		if err != nil {
+			return nil, err
+		}
+
+		for colIndex, cellVal := range row {
+			err = table.SetValByColIndex(colIndex, rowIndex, cellVal)
+			if err != nil {
+				return nil, err
+			}
+		}
 	}
 
 	for _, key := range tableExported.SortKeys {
@@ -190,6 +197,10 @@ func (tableSet *TableSet) GobEncode() ([]bytes.Buffer, error) {
 	var encodedTableSet []bytes.Buffer
 	var err error
 
+	if tableSet == nil {
+		return emptyBuffer, fmt.Errorf("tableSet.%s() tableSet is <nil>", UtilFuncName())
+	}
+
 	for tableIndex := 0; tableIndex < len(tableSet.tables); tableIndex++ {
 		var table *Table = tableSet.tables[tableIndex]
 		var encodedTable *bytes.Buffer
@@ -257,6 +268,10 @@ func GobDecodeTableSet(buffer []bytes.Buffer) (*TableSet, error) {
 		return nil, err
 	}
 
+	if len(buffer) == 0 {
+		return nil, fmt.Errorf("%s: buffer is empty", UtilFuncName())
+	}
+
 	var table *Table
 	var tableCount = len(buffer) - 1 // The tail end buffer element is the TableSet header.
 	for tableIndex := 0; tableIndex < tableCount; tableIndex++ {
@@ -279,7 +294,10 @@ func GobDecodeTableSet(buffer []bytes.Buffer) (*TableSet, error) {
 	if err != nil {
 		return nil, err
 	}
-	tableSet.tableSetName = tableSetHeader.TableSetName
+	err = tableSet.SetName(tableSetHeader.TableSetName)
+	if err != nil {
+		return nil, err
+	}
 	tableSet.fileName = tableSetHeader.FileName
 
 	return tableSet, nil
diff --git a/gotables.go b/gotables.go
index 6bd801c..bee7996 100644
--- a/gotables.go
+++ b/gotables.go
@@ -2821,7 +2821,7 @@ func (table *Table) IsValidTable() (isValid bool, err error) {
 
 	_, err = table.isValidColNamesMap()
 	if err != nil {
-		return false, nil
+		return false, err
 	}
 
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
-- 
2.43.0


From ef350642d61e57dcfa7d03fed1ff5125fbd0a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 37/72] fix: YAML export double quotes multi-line strings

---
 yaml.go | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/yaml.go b/yaml.go
index cf05c54..c4e096a 100644
--- a/yaml.go
+++ b/yaml.go
@@ -5,8 +5,9 @@ import (
 	"fmt"
 	"math"
 	_ "os"
-	_ "strings"
+	"strings"
 	"time"
+	"unicode/utf8"
 
 	yaml "gopkg.in/yaml.v3"
 )
@@ -414,7 +415,7 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	}
 
 	var yamlBytes []byte
-	yamlBytes, err = yaml.Marshal(yamlMap)
+	yamlBytes, err = yaml.Marshal(quoteMultiLineStrings(yamlMap))
 	if err != nil {
 		return "", err
 	}
@@ -424,6 +425,44 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	return
 }
 
+/*
+	The yaml package writes a multi-line string as a block literal, which it doesn't always read back
+	as the same string (for example if the string starts with white space). So double quote them instead.
+*/
+func quoteMultiLineStrings(val interface{}) interface{} {
+	switch val := val.(type) {
+	case string:
+		if strings.Contains(val, "\n") && utf8.ValidString(val) {
+			return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: val, Style: yaml.DoubleQuotedStyle}
+		}
+	case map[string]interface{}:
+		quoted := make(map[string]interface{}, len(val))
+		for key, element := range val {
+			quoted[key] = quoteMultiLineStrings(element)
+		}
+		return quoted
+	case []map[string]interface{}:
+		quoted := make([]interface{}, len(val))
+		for i, element := range val {
+			quoted[i] = quoteMultiLineStrings(element)
+		}
+		return quoted
+	case []interface{}:
+		quoted := make([]interface{}, len(val))
+		for i, element := range val {
+			quoted[i] = quoteMultiLineStrings(element)
+		}
+		return quoted
+	case [][]interface{}:
+		quoted := make([]interface{}, len(val))
+		for i, element := range val {
+			quoted[i] = quoteMultiLineStrings(element)
+		}
+		return quoted
+	}
+	return val
+}
+
 func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, err error) {
 
 	if tableSet == nil {
-- 
2.43.0


From cfcb036c47e725812c7234085c2588c9f1eccba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 38/72] fix: NewTableSetFromYAML: refuse an unnamed table in a
 table set

---
 yaml.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaml.go b/yaml.go
index c4e096a..74abcaa 100644
--- a/yaml.go
+++ b/yaml.go
@@ -78,6 +78,10 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 			return nil, err
 		}
 
+		if table.isNilTable {
+			return nil, fmt.Errorf("%s %s: in YAML doc: a table in 'tables' has an empty 'tableName'", UtilFuncSource(), UtilFuncName())
+		}
+
 		err = tableSet.Append(table)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From d9a0953d5cae9c5f94d88ce48ac24327fa58f24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 39/72] fix: CompareRows: honour reversed sort keys, as Sort
 does

---
 sort.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sort.go b/sort.go
index 8f782c3..882aa08 100644
--- a/sort.go
+++ b/sort.go
@@ -788,6 +788,11 @@ func (table *Table) CompareRows(rowIndex1 int, rowIndex2 int) (int, error) {
 		cellVal2, _ := table.GetVal(colName, rowIndex2)
 		compared := sortFunc(cellVal1, cellVal2)
 
+		if table.sortKeys[i].reverse {
+			// Reverse the sign to reverse the comparison, as in Sort().
+			compared *= -1
+		}
+
 		if compared != 0 {
 			// We have a decision: At least one search value doesn't match a cell value.
 			return compared, nil
-- 
2.43.0


From b9d7d5a06f3c16cfa956c32a1983e35d481c4332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 40/72] fix: sort NaN cells before all numbers, instead of as
 equal to every number, which left rows unsorted and unfindable

---
 sort.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sort.go b/sort.go
index 882aa08..be5dd34 100644
--- a/sort.go
+++ b/sort.go
@@ -6,6 +6,7 @@ package gotables
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"sort"
 	"strings"
@@ -457,8 +458,10 @@ var compare_float32 compareFunc = func(i, j interface{}) int {
 		return -1
 	} else if float32i > float32j {
 		return +1
-	} else {
+	} else if float32i == float32j {
 		return 0
+	} else { // At least one of them is NaN, and NaN sorts to before all numbers.
+		return compare_bool(!math.IsNaN(float64(float32i)), !math.IsNaN(float64(float32j)))
 	}
 }
 
@@ -469,8 +472,10 @@ var compare_float64 compareFunc = func(i, j interface{}) int {
 		return -1
 	} else if float64i > float64j {
 		return +1
-	} else {
+	} else if float64i == float64j {
 		return 0
+	} else { // At least one of them is NaN, and NaN sorts to before all numbers.
+		return compare_bool(!math.IsNaN(float64i), !math.IsNaN(float64j))
 	}
 }
 
-- 
2.43.0


From 89a53731e0fbadaa7b45c9d507523dddba60bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 41/72] fix: SearchLast: report not found, instead of panic,
 for values below all rows or an empty table

---
 sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index be5dd34..4b6a43d 100644
--- a/sort.go
+++ b/sort.go
@@ -1091,7 +1091,7 @@ func (table *Table) searchByKeysLast(searchValues []interface{}) (int, error) {
 
 	// See logic at: https://golang.org/pkg/sort/#Search
 	// See Search() source code at: https://golang.org/src/sort/search.go?s=2247:2287#L49
-	if searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
+	if searchIndex >= 0 && searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
 		return searchIndex, nil
 	} else {
 		return -1, fmt.Errorf("[%s].Search(%v) search values not in table: %v",
-- 
2.43.0


From eac737a96b097da3e426cfc172bad4636916bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 42/72] fix: SetSortKeysFromTable: copy the direction of each
 key, also when a column is a key twice

---
 sort.go | 42 ++++++++----------------------------------
 1 file changed, 8 insertions(+), 34 deletions(-)

diff --git a/sort.go b/sort.go
index 4b6a43d..c43e43b 100644
--- a/sort.go
+++ b/sort.go
@@ -829,43 +829,17 @@ func (table *Table) SetSortKeysFromTable(fromTable *Table) error {
 		return fmt.Errorf("table.%s(fromTable): fromTable.SortKeyCount() == 0", UtilFuncName())
 	}
 
-	var err error
-	var ascending []string // They default to ascending, and may be later reversed.
-	var descending []string
-
-	keysTable, err := fromTable.GetSortKeysAsTable()
-	if err != nil {
-		return err
-	}
-
-	for rowIndex := 0; rowIndex < keysTable.RowCount(); rowIndex++ {
-
-		var colName string
-		colName, err = keysTable.GetString("colName", rowIndex)
-		if err != nil {
-			return err
-		}
+	var existingSortKeys SortKeys = table.sortKeys
+	var fromSortKeys SortKeys = append(newSortKeys(), fromTable.sortKeys...)
+	table.sortKeys = newSortKeys() // Replace any existing sort keys.
 
-		var reverse bool
-		reverse, err = keysTable.GetBool("reverse", rowIndex)
+	for _, fromKey := range fromSortKeys {
+		err := table.AppendSortKey(fromKey.colName)
 		if err != nil {
-			return err
-		}
-
-		ascending = append(ascending, colName)
-		if reverse {
-			descending = append(descending, colName)
+			table.sortKeys = existingSortKeys // Leave the table as it was.
+			return fmt.Errorf("%s(): %v", UtilFuncName(), err)
 		}
-	}
-
-	err = table.SetSortKeys(ascending...)
-	if err != nil {
-		return err
-	}
-
-	err = table.SetSortKeysReverse(descending...)
-	if err != nil {
-		return err
+		table.sortKeys[len(table.sortKeys)-1].reverse = fromKey.reverse
 	}
 
 	return nil
-- 
2.43.0


From 85552dbaf1eb4ceb99554913dbb5e0a7950d93c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 43/72] fix: Merge: no error when the tables have no key in
 common

---
 merge.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/merge.go b/merge.go
index c4286a1..bd6827b 100644
--- a/merge.go
+++ b/merge.go
@@ -242,6 +242,8 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 
 	// where(fmt.Sprintf("BEFORE Merge()\n%s\n", merged))
 
+	var deleteCount int // Count of rows tagged for deletion.
+
 	// Loop through to the second-last row, comparing each row with the row after it.
 	for rowIndex := 0; rowIndex < merged.RowCount()-1; rowIndex++ {
 
@@ -435,6 +437,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 			if err != nil {
 				return nil, err
 			}
+			deleteCount++
 		}
 	}
 
@@ -448,16 +451,13 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return nil, err
 	}
 
-	// Find the block of rows to delete.
-	first, last, err := merged.SearchRange(true)
-	if err != nil {
-		return nil, err
-	}
-
-	// Delete the block of rows.
-	err = merged.DeleteRows(first, last)
-	if err != nil {
-		return nil, err
+	// Find the block of rows to delete, if any. They sort to the end of the table.
+	if deleteCount > 0 {
+		// Delete the block of rows.
+		err = merged.DeleteRows(merged.RowCount()-deleteCount, merged.RowCount()-1)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Delete the temporary tag columns.
-- 
2.43.0


From 1223f2b170c4bfd3d60960dde48f423e596993ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 44/72] fix: Merge: a table with no rows is merged like any
 other, instead of returning the other table itself

---
 merge.go | 35 -----------------------------------
 1 file changed, 35 deletions(-)

diff --git a/merge.go b/merge.go
index bd6827b..74580c9 100644
--- a/merge.go
+++ b/merge.go
@@ -79,23 +79,6 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return nil
 	}
 
-	// Local function.
-	sortMerged := func(localMerged *Table) (*Table, error) {
-		if localMerged.SortKeyCount() == 0 {
-			err = setSortKeysBetweenTables()
-			if err != nil {
-				return nil, err
-			}
-		}
-
-		err = localMerged.Sort()
-		if err != nil {
-			return nil, err
-		}
-
-		return localMerged, nil
-	}
-
 	if table1 == nil {
 		err = fmt.Errorf("func (table1 *Table) %s(table2 *Table): table1 is <nil>", UtilFuncName())
 		return merged, err
@@ -106,24 +89,6 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return merged, err
 	}
 
-	// TODO: this value of merged is never used (SA4006)
-	if table1.RowCount() == 0 {
-		merged, err = sortMerged(table2)
-		if err != nil {
-			return nil, err
-		}
-		return table2, nil
-	}
-
-	// TODO: this value of merged is never used (SA4006)
-	if table2.RowCount() == 0 {
-		merged, err = sortMerged(table1)
-		if err != nil {
-			return nil, err
-		}
-		return table1, nil
-	}
-
 	// Check that table1 and table2 have the same sort columns.
 	err = setSortKeysBetweenTables()
 	if err != nil {
-- 
2.43.0


From 64349fc2b7858e75527515fddc9ebf2fe8b48e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 45/72] fix: Merge: merge byte, rune, []byte, []uint8,
 time.Time and *Table columns, instead of an error

---
 merge.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 74580c9..5b6ab84 100644
--- a/merge.go
+++ b/merge.go
@@ -26,6 +26,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"time"
 )
 
 /*
@@ -280,7 +281,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "int8", "int16", "int32", "int64", "int":
+				case "int8", "int16", "int32", "int64", "int", "rune":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 int64
@@ -308,7 +309,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "uint8", "uint16", "uint32", "uint64", "uint":
+				case "uint8", "uint16", "uint32", "uint64", "uint", "byte":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 uint64
@@ -378,6 +379,29 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
+				case "[]byte", "[]uint8", "time.Time", "*Table":
+					var val1 interface{}
+					var val2 interface{}
+					val1, err = merged.GetValByColIndex(colIndex, rowIndex1)
+					if err != nil {
+						return nil, err
+					}
+					val2, err = merged.GetValByColIndex(colIndex, rowIndex2)
+					if err != nil {
+						return nil, err
+					}
+					if !isZeroCell(val1) { // Covers combinations (c) and (d)
+						err = merged.SetValByColIndex(colIndex, rowIndex2, copyOfVal(val1)) // Use val1
+						if err != nil {
+							return nil, err
+						}
+					} else if !isZeroCell(val2) { // Covers combination (b)
+						err = merged.SetValByColIndex(colIndex, rowIndex1, copyOfVal(val2)) // Use val2
+						if err != nil {
+							return nil, err
+						}
+					}
+					// Otherwise both vals must be zero. Do nothing.
 				default:
 					// Should never reach here.
 					var isValid bool
@@ -447,6 +471,19 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	return merged, nil
 }
 
+// True if this cell value of a slice, time or table column is the zero value of its column type.
+func isZeroCell(val interface{}) bool {
+	switch val := val.(type) {
+	case []byte:
+		return len(val) == 0
+	case time.Time:
+		return val.IsZero() || val.Equal(MinTime)
+	case *Table:
+		return val == nil || val.isNilTable
+	}
+	return false
+}
+
 // This copies from left (srcTable) to right (targTable) beginning at beginRow in targTable.
 func (srcTable *Table) copyTableCells(beginRow int, targTable *Table) error {
 	for srcCol := 0; srcCol < srcTable.ColCount(); srcCol++ {
-- 
2.43.0


From d33cccc02969d88e9a2d9477ebb2d281a8e62b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 46/72] fix: Merge: tables may have columns named as the
 temporary columns are

---
 merge.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 5b6ab84..032b731 100644
--- a/merge.go
+++ b/merge.go
@@ -131,7 +131,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	var tempColCount int // To ignore temporary columns.
 
 	// Add a column to keep track of which columns came from which table.
-	const tableNumberColName = "_TABLE_"
+	tableNumberColName := unusedColName(merged, "_TABLE_")
 	err = merged.AppendCol(tableNumberColName, "int")
 	if err != nil {
 		return nil, err
@@ -199,7 +199,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	}
 
 	// Add a column to keep track of which columns are duplicates, to be deleted later.
-	const deleteColName = "_DELETE_"
+	deleteColName := unusedColName(merged, "_DELETE_")
 	err = merged.AppendCol(deleteColName, "bool")
 	if err != nil {
 		return nil, err
@@ -471,6 +471,17 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	return merged, nil
 }
 
+// Return a column name beginning with colName which is not the name of a column in table.
+func unusedColName(table *Table, colName string) string {
+	for {
+		hasCol, _ := table.HasCol(colName)
+		if !hasCol {
+			return colName
+		}
+		colName += "_"
+	}
+}
+
 // True if this cell value of a slice, time or table column is the zero value of its column type.
 func isZeroCell(val interface{}) bool {
 	switch val := val.(type) {
-- 
2.43.0


From 6f30739a12892d90826665871f68c3ddd5afa334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 47/72] fix: Equals compares nested tables by column name

---
 gotables.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index bee7996..9791d6f 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3407,7 +3407,8 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 				if err != nil {
 					return false, err
 				}
-				nestedTable2, err := table2.GetTableByColIndex(colIndex, rowIndex)
+				// Column order need not match, so use colName and not colIndex.
+				nestedTable2, err := table2.GetTable(colName, rowIndex)
 				if err != nil {
 					return false, err
 				}
-- 
2.43.0


From 50a1660bfca68107fd9176e470e601129d5491d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 48/72] fix: Equals treats NaN as the same as NaN

---
 gotables.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 9791d6f..7698418 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3434,7 +3434,7 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 						table1.Name(), table2.Name(), colIndex, colName, rowIndex, t1, t2)
 				}
 			} else { // For all other (atomic) types.
-				if val1 != val2 {
+				if val1 != val2 && !(isNaN(val1) && isNaN(val2)) {
 					if colType == "string" {
 						return false, fmt.Errorf("table1[%s].Equals(table2[%s]): colIndex=%d colName=%q rowIndex=%d: %q != %q",
 							table1.Name(), table2.Name(), colIndex, colName, rowIndex, val1, val2)
@@ -3451,6 +3451,17 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 	return true, nil
 }
 
+// True if val is a floating point NaN, which is not equal to itself using ==.
+func isNaN(val interface{}) bool {
+	switch floatVal := val.(type) {
+	case float32:
+		return floatVal != floatVal
+	case float64:
+		return floatVal != floatVal
+	}
+	return false
+}
+
 /*
 	Append all columns from fromTable to table.
 
-- 
2.43.0


From 3896c12e71f219df9748fe12d9dba62db7e78140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 49/72] fix: Equals reports a circular reference

---
 gotables.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/gotables.go b/gotables.go
index 7698418..c65c86d 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3285,14 +3285,26 @@ func isExportableName(name string) bool {
 	Useful for testing.
 */
 func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
+	return table1.equals(table2, make(WalkSafe))
+}
+
+// walkSafe holds the tables which enclose table1, to stop at a circular reference.
+func (table1 *Table) equals(table2 *Table, walkSafe WalkSafe) (equals bool, err error) {
 
 	if table1 == nil {
-		return false, fmt.Errorf("table1.%s(table2): table1 is nil", UtilFuncNameNoParens())
+		return false, fmt.Errorf("table1.Equals(table2): table1 is nil")
 	}
 
 	if table2 == nil {
-		return false, fmt.Errorf("table1.%s(table2): table2 is nil", UtilFuncNameNoParens())
+		return false, fmt.Errorf("table1.Equals(table2): table2 is nil")
+	}
+
+	if _, exists := walkSafe[table1]; exists {
+		return false, fmt.Errorf("table1[%s].Equals(table2[%s]): %w",
+			table1.Name(), table2.Name(), NewCircRefError(table1, table1, ""))
 	}
+	walkSafe[table1] = EmptyStruct
+	defer delete(walkSafe, table1)
 
 	// Compare NilTable status.
 	var table1IsNil bool
@@ -3414,16 +3426,16 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 				}
 
 				// Recursive call to compare nested tables.
-				equals, err := nestedTable1.Equals(nestedTable2)
+				equals, err := nestedTable1.equals(nestedTable2, walkSafe)
 				if !equals {
 
 					if nestedTable1.parentTable != nil {
 						// Hmmm. Maybe the error message will be composed with each recursive call?
 						parentTableName := nestedTable1.parentTable.Name()
-						return equals, fmt.Errorf("%v (parent table [%s] colIndex=%d colName=%q rowIndex=%d)",
+						return equals, fmt.Errorf("%w (parent table [%s] colIndex=%d colName=%q rowIndex=%d)",
 							err, parentTableName, colIndex, colName, rowIndex)
 					} else {
-						return equals, fmt.Errorf("%v (nested table)", err)
+						return equals, fmt.Errorf("%w (nested table)", err)
 					}
 				}
 			} else if isTime {
-- 
2.43.0


From 8a9da6c30e79575120abf835f51a59ebf49f9d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 50/72] fix: Walk no longer writes into nested tables

---
 gotables.go | 1 -
 tree.go     | 6 ------
 2 files changed, 7 deletions(-)

diff --git a/gotables.go b/gotables.go
index c65c86d..24b4bc7 100644
--- a/gotables.go
+++ b/gotables.go
@@ -504,7 +504,6 @@ type Table struct {
 	isStructShape bool
 	isNilTable    bool
 	parentTable   *Table
-	depth         int
 }
 
 // For GOB.
diff --git a/tree.go b/tree.go
index ad583db..7157813 100644
--- a/tree.go
+++ b/tree.go
@@ -171,17 +171,11 @@ func (table *Table) Walk(
 						}
 					}
 
-					// Down into nested table.
-					nestedTable.depth++
-
 					// Recursive call to visit nested tables.
 // where(fmt.Sprintf("walkSafe %p = %v", walkSafe, walkSafe))
 // where("calling nestedTable.Walk()")
 					err = nestedTable.Walk(walkNestedTables, walkSafe, visitTable, visitRow, visitCell)
 
-					// Back up from nested table.
-					nestedTable.depth--
-
 					if err != nil {
 						return
 					}
-- 
2.43.0


From e3703d74cc53d55b4dfaabc79908919a7aff8c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 51/72] fix: HasCircularReference keeps the CircRefError

---
 tree.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tree.go b/tree.go
index 7157813..b4bbc0a 100644
--- a/tree.go
+++ b/tree.go
@@ -1,9 +1,9 @@
 package gotables
 
 import (
+	"errors"
 	"fmt"
 	"os"
-	"strings"
 )
 
 var CURRENT_TESTS_VERBOSE bool = false
@@ -297,9 +297,8 @@ func (rootTable *Table) HasCircularReference() (hasCircularReference bool, err e
 
 	isValidTableNesting, err := rootTable.IsValidTableNesting()
 	if !isValidTableNesting {
-		// Say the error is from here, not from the called method.
-		replacedMsg := strings.Replace(err.Error(), "IsValidTableNesting", "HasCircularReference", 1)
-		err = fmt.Errorf("%s", replacedMsg)
+		// Say the error is from here, not from the called method. Keep the CircRefError wrapped inside.
+		err = fmt.Errorf("HasCircularReference(): %w", errors.Unwrap(err))
 		return !isValidTableNesting, err
 	}
 
-- 
2.43.0


From 8bb533e72fce8c2740c393f376fab7d9e34e89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 52/72] fix: GetTableAsCSV keeps an empty cell in a one-column
 table

---
 gotables.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gotables.go b/gotables.go
index 24b4bc7..b21ee6f 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1771,6 +1771,13 @@ func (table *Table) GetTableAsCSV(optionalSubstituteHeadingNames ...string) (str
 			}
 		}
 
+		if len(record) == 1 && record[0] == "" {
+			// A single empty field would be a blank line, which CSV readers skip. Quote it to keep the row.
+			csvWriter.Flush()
+			buf.WriteString("\"\"\n")
+			continue
+		}
+
 		err = csvWriter.Write(record)
 		if err != nil {
 			return "", err
-- 
2.43.0


From 43f24c19a91e9b3199378cf313499a13a79d0a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 53/72] fix: generate.go: generated code compiles for *Table
 and time.Time columns and for names that clash with its own variables

---
 generate.go | 97 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 77 insertions(+), 20 deletions(-)

diff --git a/generate.go b/generate.go
index 949cbdc..565f920 100644
--- a/generate.go
+++ b/generate.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"go/token"
 	"strings"
 	"time"
 	"unicode"
@@ -46,6 +47,10 @@ func (table *Table) GenerateTypeStruct() (string, error) {
 		return "", fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	if err := table.isGeneratable(); err != nil {
+		return "", fmt.Errorf("%s: %v", UtilFuncName(), err)
+	}
+
 	var buf bytes.Buffer
 	tableName := table.Name()
 
@@ -71,7 +76,7 @@ func (table *Table) GenerateTypeStruct() (string, error) {
 		buf.WriteString("\t")
 		buf.WriteString(colName)
 		buf.WriteString(" ")
-		buf.WriteString(colType)
+		buf.WriteString(generatedType(colType))
 		buf.WriteString("\n")
 	}
 
@@ -155,38 +160,35 @@ func (tableSet *TableSet) generateTypeStructSet() (string, error) {
 		                return nil, fmt.Errorf("TypeStructSliceFromTable_MyTable(slice []MyTable) slice is <nil>")
 		        }
 
+		        var err error
+
 		        var MyTable []MyTable = make([]MyTable, table.RowCount())
 
 		        for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
-		                f, err := table.GetFloat32("f", rowIndex)
+		                MyTable[rowIndex].f, err = table.GetFloat32("f", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].f = f
 
-		                b, err := table.GetBool("b", rowIndex)
+		                MyTable[rowIndex].b, err = table.GetBool("b", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].b = b
 
-		                i, err := table.GetInt("i", rowIndex)
+		                MyTable[rowIndex].i, err = table.GetInt("i", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].i = i
 
-		                str, err := table.GetString("str", rowIndex)
+		                MyTable[rowIndex].str, err = table.GetString("str", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].str = str
 
-		                bb, err := table.GetByteSlice("bb", rowIndex)
+		                MyTable[rowIndex].bb, err = table.GetByteSlice("bb", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].bb = bb
 		        }
 
 		        return MyTable, nil
@@ -223,6 +225,10 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 		return "", fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	if err := table.isGeneratable(); err != nil {
+		return "", fmt.Errorf("%s: %v", UtilFuncName(), err)
+	}
+
 	var buf bytes.Buffer
 
 	tableName := table.Name()
@@ -235,14 +241,23 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 		tableName, tableName))
 	buf.WriteString("*/\n")
 
-	buf.WriteString(fmt.Sprintf("func %s(table *gotables.Table) ([]%s, error) {\n", funcName, tableName))
-	buf.WriteString("\tif table == nil {\n")
+	// Variables of the generated function, which must differ from tableName.
+	tableVar := generatedVar("table", tableName)
+	errVar := generatedVar("err", tableName)
+	rowVar := generatedVar("rowIndex", tableName)
+
+	buf.WriteString(fmt.Sprintf("func %s(%s *gotables.Table) ([]%s, error) {\n", funcName, tableVar, tableName))
+	buf.WriteString(fmt.Sprintf("\tif %s == nil {\n", tableVar))
 	buf.WriteString(fmt.Sprintf("\t\treturn nil, fmt.Errorf(\"%s(slice []%s) slice is <nil>\")\n", funcName, tableName))
 	buf.WriteString("\t}\n\n")
 
-	buf.WriteString(fmt.Sprintf("\tvar %s []%s = make([]%s, table.RowCount())\n\n", tableName, tableName, tableName))
+	if table.ColCount() > 0 {
+		buf.WriteString(fmt.Sprintf("\tvar %s error\n\n", errVar))
+	}
+
+	buf.WriteString(fmt.Sprintf("\tvar %s []%s = make([]%s, %s.RowCount())\n\n", tableName, tableName, tableName, tableVar))
 
-	buf.WriteString("\tfor rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {\n")
+	buf.WriteString(fmt.Sprintf("\tfor %s := 0; %s < %s.RowCount(); %s++ {\n", rowVar, rowVar, tableVar, rowVar))
 	var sep string = ""
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		colName, err := table.ColName(colIndex)
@@ -254,11 +269,11 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 			return "", err
 		}
 		buf.WriteString(sep)
-		buf.WriteString(fmt.Sprintf("\t\t%s, err := table.%s(%q, rowIndex)\n", colName, getterName(colType), colName))
-		buf.WriteString("\t\tif err != nil {\n")
-		buf.WriteString("\t\t\treturn nil, err\n")
+		buf.WriteString(fmt.Sprintf("\t\t%s[%s].%s, %s = %s.%s(%q, %s)\n",
+			tableName, rowVar, colName, errVar, tableVar, getterName(colType), colName, rowVar))
+		buf.WriteString(fmt.Sprintf("\t\tif %s != nil {\n", errVar))
+		buf.WriteString(fmt.Sprintf("\t\t\treturn nil, %s\n", errVar))
 		buf.WriteString("\t\t}\n")
-		buf.WriteString(fmt.Sprintf("\t\t%s[rowIndex].%s = %s\n", tableName, colName, colName))
 		sep = "\n"
 	}
 
@@ -305,6 +320,40 @@ func (tableSet *TableSet) generateTypeStructSliceFromTableSet() (string, error)
 	return tableSetGenerated, nil
 }
 
+// Returns an error if Go code cannot be generated because of the table name or a col name.
+func (table *Table) isGeneratable() error {
+	tableName := table.Name()
+	if token.IsKeyword(tableName) {
+		return fmt.Errorf("table [%s] cannot be a Go type: its name is a Go keyword", tableName)
+	}
+	switch tableName {
+	case "", "_", "init", "error", "nil", "make", "len", "fmt", "time", "gotables":
+		return fmt.Errorf("table [%s] cannot be a Go type: its name is used otherwise in the generated code", tableName)
+	}
+	for _, colName := range table.colNames {
+		if token.IsKeyword(colName) || colName == "_" {
+			return fmt.Errorf("table [%s] col %s cannot be a Go struct field", tableName, colName)
+		}
+	}
+	return nil
+}
+
+// Returns the name of this type in generated code.
+func generatedType(typeName string) string {
+	if typeName == "*Table" {
+		return "*gotables.Table"
+	}
+	return typeName
+}
+
+// Returns a name for a variable in generated code that differs from tableName.
+func generatedVar(varName string, tableName string) string {
+	if varName == tableName {
+		return varName + "_"
+	}
+	return varName
+}
+
 func typeProper(typeName string) string {
 	var buf bytes.Buffer
 	var upshifted bool = false
@@ -325,7 +374,11 @@ func typeProper(typeName string) string {
 
 // Returns getter/setter name without Get/Set prefix
 func accessorName(typeName string) string {
-	if strings.HasPrefix(typeName, "[]") {
+	if typeName == "*Table" {
+		return "Table"
+	} else if typeName == "time.Time" {
+		return "Time"
+	} else if strings.HasPrefix(typeName, "[]") {
 		return fmt.Sprintf("%sSlice", typeProper(typeName[2:]))
 	} else {
 		return fmt.Sprintf("%s", typeProper(typeName))
@@ -489,6 +542,10 @@ func (table *Table) GenerateTypeStructSliceToTable() (string, error) {
 		return "", fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	if err := table.isGeneratable(); err != nil {
+		return "", fmt.Errorf("%s: %v", UtilFuncName(), err)
+	}
+
 	var err error
 	var buf bytes.Buffer
 
-- 
2.43.0


From e1541c490673e88d75f768414fc8fd1580dd2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 54/72] fix: make ShufflePseudorandom() give the same order
 each time, whatever else uses math/rand

---
 gotables.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gotables.go b/gotables.go
index b21ee6f..35650c5 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4376,11 +4376,11 @@ func (table *Table) ShufflePseudorandom() error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
-	// This forces rand.Shuffle() to start from scratch on each call.
-	// Otherwise there is a surprise side effect if a rand function is called elsewhere.
-	rand.Seed(0)
+	// Start from scratch on each call, with a source of our own: rand.Seed() and rand.Shuffle()
+	// would use the source shared by the whole program (which rand.Seed() no longer reseeds from Go 1.24).
+	pseudorandom := rand.New(rand.NewSource(0))
 
-	rand.Shuffle(len(table.rows), func(i, j int) {
+	pseudorandom.Shuffle(len(table.rows), func(i, j int) {
 		table.rows[i], table.rows[j] = table.rows[j], table.rows[i]
 	})
 
-- 
2.43.0


From 89753a55f2394ace0eed856a0b02d2b359998129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 11:22:07 +1100
Subject: [PATCH 55/72] fix: gotecho and gotsyntax compile against the current
 API

---
 cmd/gotecho/gotecho.go     | 4 ++--
 cmd/gotsyntax/gotsyntax.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gotecho/gotecho.go b/cmd/gotecho/gotecho.go
index 19ffb0b..498ed67 100644
--- a/cmd/gotecho/gotecho.go
+++ b/cmd/gotecho/gotecho.go
@@ -169,7 +169,7 @@ func main() {
 			finalMsg = fmt.Sprintf("warning: ignoring gotecho -r %s which is a different table from gotecho -t %s\n",
 				flags.r.String(), flags.t.String())
 		}
-		table, err := tables.Table(flags.r.String())
+		table, err := tables.GetTable(flags.r.String())
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "Error finding -r %s: %s\n", flags.r.String(), err)
 			os.Exit(10)
@@ -194,7 +194,7 @@ func main() {
 
 	if flags.t.AllOk() {
 		// Print just this table.
-		table, err := tables.Table(flags.t.String())
+		table, err := tables.GetTable(flags.t.String())
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "Error finding -t %s: %s\n", flags.t.String(), err)
 			os.Exit(11)
diff --git a/cmd/gotsyntax/gotsyntax.go b/cmd/gotsyntax/gotsyntax.go
index 1c501b1..5c96218 100644
--- a/cmd/gotsyntax/gotsyntax.go
+++ b/cmd/gotsyntax/gotsyntax.go
@@ -72,7 +72,7 @@ func main() {
 		} else {
 			tableCount := tables.TableCount()
 			if tableCount == 1 {
-				table0, err := tables.TableByTableIndex(0)
+				table0, err := tables.GetTableByTableIndex(0)
 				if err != nil {
 					fmt.Fprintf(os.Stderr, "SYSTEM ERROR: %v\n", err)
 					exitVal = 2
-- 
2.43.0


From 3b48ee6de7cf681f1a4cb124d70fca2481654b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 11:22:07 +1100
Subject: [PATCH 56/72] fix: gotecho accepts -u as its first flag

---
 cmd/gotecho/gotecho.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/gotecho/gotecho.go b/cmd/gotecho/gotecho.go
index 498ed67..e077a48 100644
--- a/cmd/gotecho/gotecho.go
+++ b/cmd/gotecho/gotecho.go
@@ -28,6 +28,7 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"strings"
 	"time"
 
 	"github.com/urban-wombat/gotables"
@@ -119,7 +120,7 @@ func main() {
 		os.Exit(2)
 	}
 
-	if len(os.Args) > 2 && os.Args[1] != "-t" && os.Args[1] != "-r" {
+	if len(os.Args) > 2 && !strings.HasPrefix(os.Args[1], "-") {
 		fmt.Fprintf(os.Stderr, "expecting flags to come before <gotables-file>\n")
 		printUsage()
 		os.Exit(3)
-- 
2.43.0


From e19e4685923a7c89269e407c5f89a9b0f5f0ef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 57/72] fix: name the line of a repeated column name

---
 parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.go b/parser.go
index 5507030..f7df4f9 100644
--- a/parser.go
+++ b/parser.go
@@ -713,6 +713,7 @@ func (p *parser) getTableName(line string) (string, error) {
 }
 
 func (p *parser) getColNames(colNames []string) ([]string, error) {
+	found := make(map[string]bool, len(colNames))
 	for i := 0; i < len(colNames); i++ {
 		isValid, err := IsValidColName(colNames[i])
 		if !isValid {
@@ -728,6 +729,10 @@ func (p *parser) getColNames(colNames []string) ([]string, error) {
 				return nil, fmt.Errorf("%s %s", p.gotFilePos(), err) // Default error.
 			}
 		}
+		if found[colNames[i]] {
+			return nil, fmt.Errorf("%s col already exists: %s", p.gotFilePos(), colNames[i])
+		}
+		found[colNames[i]] = true
 	}
 
 	return colNames, nil
-- 
2.43.0


From 1736293c3077b699d4af4d4ba4c9325c51b5a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 58/72] fix: gotecho reads standard input byte for byte

---
 cmd/gotecho/gotecho.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/cmd/gotecho/gotecho.go b/cmd/gotecho/gotecho.go
index e077a48..8703e3e 100644
--- a/cmd/gotecho/gotecho.go
+++ b/cmd/gotecho/gotecho.go
@@ -26,6 +26,7 @@ SOFTWARE.
 import (
 	"flag"
 	"fmt"
+	"io/ioutil"
 	"log"
 	"os"
 	"strings"
@@ -141,7 +142,7 @@ func main() {
 			os.Exit(5)
 		}
 		if canPipe {
-			stdin, err := util.GulpFromPipeWithTimeout(pipeTimeout * time.Second)
+			stdin, err := gulpFromPipeWithTimeout(pipeTimeout * time.Second)
 			if err != nil {
 				fmt.Fprintf(os.Stderr, "ERROR: %s %v\n", util.ProgName(), err)
 				printUsage()
@@ -219,6 +220,27 @@ func main() {
 	}
 }
 
+// Read all of stdin, byte for byte. (Reading it rune by rune would replace bytes which are not UTF-8.)
+func gulpFromPipeWithTimeout(timeout time.Duration) (string, error) {
+	type gulp struct {
+		input []byte
+		err   error
+	}
+	c := make(chan gulp, 1)
+
+	go func() {
+		input, err := ioutil.ReadAll(os.Stdin)
+		c <- gulp{input, err}
+	}()
+
+	select {
+	case result := <-c:
+		return string(result.input), result.err
+	case <-time.After(timeout):
+		return "", fmt.Errorf("did not read any piped input from stdin after waiting %v", timeout)
+	}
+}
+
 func nonFlagArgs(nfa []string) (nonFlagArgs []string) {
 	for i := 0; i < len(nfa); i++ {
 		if len(nfa[i]) > 0 {
-- 
2.43.0


From f58b5546770bfc33d13acaac18a734e2009bf7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 59/72] fix: IsValidCellValue() accepts exactly the values that
 can be stored

---
 gotables.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gotables.go b/gotables.go
index 35650c5..49af615 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3156,14 +3156,17 @@ func (table *Table) IsValidCellValue(colName string, value interface{}) (bool, e
 		return false, err
 	}
 
-	if value == nil {
+	if nested, isTable := value.(*Table); value == nil || isTable && nested == nil {
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: <nil>", table.Name(), colName, colType)
 	}
 
-	valueType := reflect.TypeOf(value)
-	valueTypeName := valueType.Name()
+	// Same as for SetVal()
+	valueTypeName := fmt.Sprintf("%T", value)
+	if valueTypeName == "*gotables.Table" {
+		valueTypeName = "*Table"
+	}
 
-	if valueTypeName != colType {
+	if valueTypeName != colType && !isAlias(colType, valueTypeName) {
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: %v", table.Name(), colName, colType, value)
 	}
 
-- 
2.43.0


From 36c5afd15a476329c99f929ee0fdad6adbf3e2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 60/72] fix: SortKeyCount() and GetValMustGet() of a nil table
 do not crash with a nil dereference

---
 gotables.go | 5 +++++
 sort.go     | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/gotables.go b/gotables.go
index 49af615..4f34d86 100644
--- a/gotables.go
+++ b/gotables.go
@@ -2285,6 +2285,11 @@ func (table *Table) RowCount() int {
 	Like its non-MustGet alternative but panics on error.
 */
 func (table *Table) GetValMustGet(colName string, rowIndex int) (val interface{}) {
+	if table == nil {
+		err := fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
+		panic(err)
+	}
+
 	if table.isNilTable {
 		err := fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 		panic(err)
diff --git a/sort.go b/sort.go
index c43e43b..fcdbdd8 100644
--- a/sort.go
+++ b/sort.go
@@ -814,6 +814,12 @@ func newSortKeys() SortKeys {
 }
 
 func (table *Table) SortKeyCount() int {
+	if table == nil {
+		_, _ = os.Stderr.WriteString(fmt.Sprintf("%s table.%s table is <nil>\n", UtilFuncSource(), UtilFuncName()))
+		UtilPrintCaller()
+		return -1
+	}
+
 	return len(table.sortKeys)
 }
 
-- 
2.43.0


From 96fe92b8782136a247fc521d87b300a2f1e9e399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 11:43:46 +1100
Subject: [PATCH 61/72] fix: Merge() that fails leaves the sort keys of its
 tables as they were

---
 merge.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/merge.go b/merge.go
index 032b731..c6b05e6 100644
--- a/merge.go
+++ b/merge.go
@@ -90,6 +90,14 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return merged, err
 	}
 
+	// If the tables cannot be merged leave their sort keys as they were.
+	sortKeys1, sortKeys2 := table1.sortKeys, table2.sortKeys
+	defer func() {
+		if err != nil {
+			table1.sortKeys, table2.sortKeys = sortKeys1, sortKeys2
+		}
+	}()
+
 	// Check that table1 and table2 have the same sort columns.
 	err = setSortKeysBetweenTables()
 	if err != nil {
-- 
2.43.0


From 878335e9ba33c362e1b1f3ef2ec4044c9f4b9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:13 +0000
Subject: [PATCH 62/72] fix: UtilRound() rounds negative numbers to nearest,
 and huge numbers do not overflow

---
 util.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/util.go b/util.go
index 7e2fbdf..3677173 100644
--- a/util.go
+++ b/util.go
@@ -544,17 +544,15 @@ Round up if fraction is >= 0.5 otherwise round down.
 From: https://medium.com/@edoardo849/mercato-how-to-build-an-effective-web-scraper-with-golang-e2918d279f49#.istjzw4nl
 */
 func UtilRound(val float64, places int) (rounded float64) {
-	const roundOn = 0.5 // Round up if fraction is >= 0.5 otherwise round down.
-	var round float64
 	pow := math.Pow(10, float64(places))
 	digit := pow * val
-	_, frac := math.Modf(digit) // Modf(f) returns integer and fractional floating-point numbers that sum to f
-	if frac >= roundOn {
-		round = math.Ceil(digit)
-	} else {
-		round = math.Floor(digit)
+	if math.IsNaN(val) || math.IsInf(pow, 0) || math.IsInf(digit, 0) { // val has no digits at this many places. Avoid overflow.
+		return val
+	}
+	if pow == 0 { // Every digit of val is to the right of this many places. Avoid dividing by zero.
+		return 0
 	}
-	rounded = round / pow
+	rounded = math.Round(digit) / pow // Round() rounds to nearest, including if val is negative.
 	return
 }
 
-- 
2.43.0


From 69cbf305f076a5f4179425f9814f1e4a96ca0883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 63/72] fix: UtilGulpFromPipe() returns the bytes it was given

---
 util.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/util.go b/util.go
index 3677173..2cab7d3 100644
--- a/util.go
+++ b/util.go
@@ -1,11 +1,10 @@
 package gotables
 
 import (
-	"bufio"
 	"bytes"
 	"fmt"
 	"go/format"
-	"io"
+	"io/ioutil"
 	"log"
 	"math"
 	"os"
@@ -588,18 +587,10 @@ func UtilCanReadFromPipe() (bool, error) {
 */
 func UtilGulpFromPipe() (string, error) {
 
-	reader := bufio.NewReader(os.Stdin)
-	var output []rune
-	for {
-		inputRune, _, err := reader.ReadRune()
-		if err != nil && err == io.EOF {
-			break
-		}
-		if err != nil {
-			return "", err
-		}
-
-		output = append(output, inputRune)
+	// Not by rune: bytes which are not valid UTF-8 must survive.
+	output, err := ioutil.ReadAll(os.Stdin)
+	if err != nil {
+		return "", err
 	}
 
 	return string(output), nil
-- 
2.43.0


From 5ee1c5286431964fd26542800202030469577bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 64/72] fix: UtilGulpFromPipeWithTimeout() reports a read error
 and does not share its results with its reader

---
 util.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/util.go b/util.go
index 2cab7d3..175425e 100644
--- a/util.go
+++ b/util.go
@@ -605,16 +605,21 @@ func UtilGulpFromPipe() (string, error) {
 */
 func UtilGulpFromPipeWithTimeout(timeout time.Duration) (input string, err error) {
 
-	c1 := make(chan string, 1)
+	type gulped struct {
+		input string
+		err   error
+	}
+	c1 := make(chan gulped, 1)
 
 	go func() {
-		input, err = UtilGulpFromPipe()
-		c1 <- input
+		// Not the named results: this func may have returned by now.
+		input, err := UtilGulpFromPipe()
+		c1 <- gulped{input, err}
 	}()
 
 	select {
 	case result := <-c1:
-		return result, nil
+		return result.input, result.err
 	case <-time.After(timeout):
 		return "", fmt.Errorf("did not read any piped input from stdin after waiting %v", timeout)
 	}
-- 
2.43.0


From 6da2aadb6d2adf96423c74af551633f3d80d81a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 65/72] fix: UtilRound() of infinity is infinity at any number
 of places

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 175425e..fc851a7 100644
--- a/util.go
+++ b/util.go
@@ -545,7 +545,7 @@ From: https://medium.com/@edoardo849/mercato-how-to-build-an-effective-web-scrap
 func UtilRound(val float64, places int) (rounded float64) {
 	pow := math.Pow(10, float64(places))
 	digit := pow * val
-	if math.IsNaN(val) || math.IsInf(pow, 0) || math.IsInf(digit, 0) { // val has no digits at this many places. Avoid overflow.
+	if math.IsNaN(val) || math.IsInf(val, 0) || math.IsInf(pow, 0) || math.IsInf(digit, 0) { // val has no digits at this many places. Avoid overflow.
 		return val
 	}
 	if pow == 0 { // Every digit of val is to the right of this many places. Avoid dividing by zero.
-- 
2.43.0


From 3b4e876bfe5274e6d8a9dee9663b5469bca87537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 66/72] fix: UtilRound() of the largest numbers does not
 overflow

---
 util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util.go b/util.go
index fc851a7..98f4e02 100644
--- a/util.go
+++ b/util.go
@@ -552,6 +552,9 @@ func UtilRound(val float64, places int) (rounded float64) {
 		return 0
 	}
 	rounded = math.Round(digit) / pow // Round() rounds to nearest, including if val is negative.
+	if math.IsInf(rounded, 0) {       // The nearest is beyond the largest float64.
+		return val
+	}
 	return
 }
 
-- 
2.43.0


From 00cd884a565cde89f259365994779973017589bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 67/72] fix: StringPadded() pads columns wider than a million
 characters

---
 gotables.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gotables.go b/gotables.go
index 4f34d86..8562bf6 100644
--- a/gotables.go
+++ b/gotables.go
@@ -23,6 +23,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 )
 
 //	"golang.org/x/text/width"
@@ -1320,6 +1321,15 @@ func min(a int, b int) int {
 	}
 }
 
+// The spaces to pad s to width. Note: the fmt package refuses a width greater than a million.
+func padding(s string, width int) string {
+	missing := width - utf8.RuneCountInString(s)
+	if missing <= 0 {
+		return ""
+	}
+	return strings.Repeat(" ", missing)
+}
+
 // 18.01.2017 M Gorman
 // This prints a gotable in tabular format. Called indirectly by table.String()
 func printMatrix(tableName string, matrix [][]string, width []int, precis []int, alignRight []bool, colTypes []string) string {
@@ -1362,7 +1372,7 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 					// The padding is to ensure the next column to the right is aligned along a straight edge.
 					toWrite = padTrailingZeros(toWrite)
 				}
-				s = fmt.Sprintf("%s%*s", sep, width[col], toWrite) // Align right
+				s = sep + padding(toWrite, width[col]) + toWrite // Align right
 				if col == rightmostCol {
 					// Padding to the right of the rightmost column is unnecessary. Remove it here.
 					// Remove any jagged space padding to the right of decimal point.
@@ -1374,7 +1384,7 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 					// Don't pad (unnecessarily) to the right of rightmost col if it is left-aligned.
 					s = fmt.Sprintf("%s%s", sep, matrix[col][row]) // With no padding, doesn't need align left with -
 				} else {
-					s = fmt.Sprintf("%s%-*s", sep, width[col], matrix[col][row]) // Align left with -
+					s = sep + matrix[col][row] + padding(matrix[col][row], width[col]) // Align left
 				}
 				buf.WriteString(s)
 			}
-- 
2.43.0


From d5a805ea7802b46a2cf5105e32041dcb815300f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:55 +0000
Subject: [PATCH 68/72] fix: UtilFuncName() and the like name generic functions

---
 util.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/util.go b/util.go
index 98f4e02..0d7b154 100644
--- a/util.go
+++ b/util.go
@@ -256,6 +256,7 @@ func UtilPrintCaller() {
 
 	// Remove package name from function name and append ().
 	var funcBaseName = func(longName string) (baseName string) {
+		longName = strings.TrimSuffix(longName, "[...]") // Generic function.
 		lastIndex = strings.LastIndex(longName, ".")
 		if lastIndex >= 0 {
 			baseName = longName[lastIndex+1:] + "()"
@@ -331,6 +332,7 @@ func UtilPrintCallerCaller() {
 
 	// Remove package name from function name and append ().
 	var funcBaseName = func(longName string) (baseName string) {
+		longName = strings.TrimSuffix(longName, "[...]") // Generic function.
 		lastIndex = strings.LastIndex(longName, ".")
 		if lastIndex >= 0 {
 			baseName = longName[lastIndex+1:] + "()"
@@ -403,7 +405,7 @@ func UtilPrintCallerCaller() {
 func UtilFuncName() string {
 	const stackFramesToSkip = 1
 	pc, _, _, _ := runtime.Caller(stackFramesToSkip)
-	nameFull := runtime.FuncForPC(pc).Name() // main.foo
+	nameFull := strings.TrimSuffix(runtime.FuncForPC(pc).Name(), "[...]") // main.foo or generic main.foo[...]
 	nameEnd := filepath.Ext(nameFull)        // .foo
 	name := strings.TrimPrefix(nameEnd, ".") // foo
 	return name + "()"
@@ -415,7 +417,7 @@ func UtilFuncName() string {
 func UtilFuncCaller() string {
 	const stackFramesToSkip = 2
 	pc, _, _, _ := runtime.Caller(stackFramesToSkip)
-	nameFull := runtime.FuncForPC(pc).Name() // main.foo
+	nameFull := strings.TrimSuffix(runtime.FuncForPC(pc).Name(), "[...]") // main.foo or generic main.foo[...]
 	nameEnd := filepath.Ext(nameFull)        // .foo
 	name := strings.TrimPrefix(nameEnd, ".") // foo
 	return name + "()"
@@ -427,7 +429,7 @@ func UtilFuncCaller() string {
 func UtilFuncCallerCaller() string {
 	const stackFramesToSkip = 3
 	pc, _, _, _ := runtime.Caller(stackFramesToSkip)
-	nameFull := runtime.FuncForPC(pc).Name() // main.foo
+	nameFull := strings.TrimSuffix(runtime.FuncForPC(pc).Name(), "[...]") // main.foo or generic main.foo[...]
 	nameEnd := filepath.Ext(nameFull)        // .foo
 	name := strings.TrimPrefix(nameEnd, ".") // foo
 	return name + "()"
@@ -439,7 +441,7 @@ func UtilFuncCallerCaller() string {
 func UtilFuncCallerCallerCaller() string {
 	const stackFramesToSkip = 4
 	pc, _, _, _ := runtime.Caller(stackFramesToSkip)
-	nameFull := runtime.FuncForPC(pc).Name() // main.foo
+	nameFull := strings.TrimSuffix(runtime.FuncForPC(pc).Name(), "[...]") // main.foo or generic main.foo[...]
 	nameEnd := filepath.Ext(nameFull)        // .foo
 	name := strings.TrimPrefix(nameEnd, ".") // foo
 	return name + "()"
@@ -486,7 +488,7 @@ func utilFuncTopCaller() string {
 */
 func UtilFuncNameNoParens() string {
 	pc, _, _, _ := runtime.Caller(1)
-	nameFull := runtime.FuncForPC(pc).Name() // main.foo
+	nameFull := strings.TrimSuffix(runtime.FuncForPC(pc).Name(), "[...]") // main.foo or generic main.foo[...]
 	nameEnd := filepath.Ext(nameFull)        // .foo
 	name := strings.TrimPrefix(nameEnd, ".") // foo
 	return name
-- 
2.43.0


From d6938deaf35c8d3cef539f2f59407b4084863aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:58 +0000
Subject: [PATCH 69/72] fix: Equals() names the table around a nested
 difference however it got there

---
 gotables.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gotables.go b/gotables.go
index 8562bf6..8119ad2 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3453,14 +3453,10 @@ func (table1 *Table) equals(table2 *Table, walkSafe WalkSafe) (equals bool, err
 				equals, err := nestedTable1.equals(nestedTable2, walkSafe)
 				if !equals {
 
-					if nestedTable1.parentTable != nil {
-						// Hmmm. Maybe the error message will be composed with each recursive call?
-						parentTableName := nestedTable1.parentTable.Name()
-						return equals, fmt.Errorf("%w (parent table [%s] colIndex=%d colName=%q rowIndex=%d)",
-							err, parentTableName, colIndex, colName, rowIndex)
-					} else {
-						return equals, fmt.Errorf("%w (nested table)", err)
-					}
+					// Hmmm. Maybe the error message will be composed with each recursive call?
+					// Note: nestedTable1.parentTable may be <nil> or another table.
+					return equals, fmt.Errorf("%w (parent table [%s] colIndex=%d colName=%q rowIndex=%d)",
+						err, table1.Name(), colIndex, colName, rowIndex)
 				}
 			} else if isTime {
 				var t1 time.Time = val1.(time.Time)
-- 
2.43.0


From 3a0191948626cc3c9a59bb311b84eefa0a9a3df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:13 +0000
Subject: [PATCH 70/72] fix: Any name of a table set is exported as valid JSON

---
 json.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 49f7b44..76ff58e 100644
--- a/json.go
+++ b/json.go
@@ -604,7 +604,11 @@ func (tableSet *TableSet) GetTableSetAsJSON() (jsonTableSetString string, err er
 	var buf bytes.Buffer
 
 	buf.WriteByte(123) // Opening brace outermost
-	buf.WriteString(fmt.Sprintf(`"tableSetName":%q,`, tableSet.Name()))
+	quotedName, err := quoteJSON(tableSet.Name())
+	if err != nil {
+		return "", fmt.Errorf("%s table set name: %v", UtilFuncName(), err)
+	}
+	buf.WriteString(fmt.Sprintf(`"tableSetName":%s,`, quotedName))
 	buf.WriteString(`"tables":[`) // Opening array of tables
 
 	var tableCount int = tableSet.TableCount()
-- 
2.43.0


From b67de33affac17882e6bed2088fde56f75bf6dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:44 +0000
Subject: [PATCH 71/72] fix: JSON numbers that are not integers are refused in
 integer columns

---
 json.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/json.go b/json.go
index 76ff58e..5ec68e5 100644
--- a/json.go
+++ b/json.go
@@ -796,15 +796,43 @@ var numericBits = map[string]int{
 }
 
 // Integral JSON numbers may also be written with a fraction or exponent: 1.0 or 1e3
+// Digit by digit. Not via float64, which would round 1.00000000000000000001 to an integer.
 func jsonNumberAsInteger(number string) string {
-	if strings.ContainsAny(number, ".eE") {
-		const maxExactFloat = 1 << 53
-		float64Val, err := strconv.ParseFloat(number, _BITS_64)
-		if err == nil && float64Val == math.Trunc(float64Val) && math.Abs(float64Val) < maxExactFloat {
-			return strconv.FormatFloat(float64Val, 'f', -1, _BITS_64)
+	var mantissa string = number
+	var exponent int
+	if index := strings.IndexAny(number, "eE"); index >= 0 {
+		var err error
+		mantissa = number[:index]
+		exponent, err = strconv.Atoi(number[index+1:])
+		if err != nil {
+			return number
 		}
 	}
-	return number
+
+	var sign string
+	if strings.HasPrefix(mantissa, "-") {
+		sign = "-"
+		mantissa = mantissa[1:]
+	}
+
+	var digits string = mantissa
+	var point int = len(mantissa)
+	if index := strings.IndexByte(mantissa, '.'); index >= 0 {
+		digits = mantissa[:index] + mantissa[index+1:]
+		point = index
+	}
+	point += exponent
+	point -= len(digits) - len(strings.TrimLeft(digits, "0"))
+	digits = strings.Trim(digits, "0")
+
+	const maxDigits = 20 // Of the largest uint64.
+	switch {
+	case digits == "":
+		return "0"
+	case point < len(digits) || point > maxDigits: // A fraction, or too large.
+		return number
+	}
+	return sign + digits + strings.Repeat("0", point-len(digits))
 }
 
 func jsonNumberAsInt(number string, bits int) (int64, error) {
-- 
2.43.0


From 540ffff2c97c53cc092699330ecc76d77ca58086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:02 +0000
Subject: [PATCH 72/72] fix: GOB import rejects a column without an entry in
 the lookup map

---
 gob.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gob.go b/gob.go
index 4f01082..bc58fc4 100644
--- a/gob.go
+++ b/gob.go
@@ -106,9 +106,10 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 	}
 
 	for colIndex, colName := range tableExported.ColNames {
-		if tableExported.ColNamesMap[colName] != colIndex {
-			err = fmt.Errorf("importTable() [%s] inconsistent lookup entry of col %q: %d",
-				tableName, colName, tableExported.ColNamesMap[colName])
+		mapIndex, exists := tableExported.ColNamesMap[colName]
+		if !exists || mapIndex != colIndex {
+			err = fmt.Errorf("importTable() [%s] missing or inconsistent lookup entry of col %q: %d",
+				tableName, colName, mapIndex)
 			return nil, err
 		}
 
-- 
2.43.0

