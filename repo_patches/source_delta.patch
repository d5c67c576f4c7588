From 80b659c27a561410e559ee2b7d04bb2ff3bceded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 01/85] fix: MySQL column order that position differences alone
 do not reveal

---
 schema/generator.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 2f4421f..6e3a172 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -232,6 +232,14 @@ func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName
 func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired CreateTable) ([]string, error) {
 	ddls := []string{}
 
+	// Simulated order of the current columns that are expected to exist, to notice moves that positions don't tell
+	columnOrder := []string{}
+	for _, currentColumn := range currentTable.columns {
+		if findColumnByName(desired.table.columns, currentColumn.name) != nil {
+			columnOrder = append(columnOrder, currentColumn.name)
+		}
+	}
+
 	// Examine each column
 	for i, desiredColumn := range desired.table.columns {
 		currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
@@ -260,6 +268,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					after = " AFTER " + g.escapeSQLName(desired.table.columns[i-1].name)
 				}
 				ddl += after
+				columnOrder = moveString(columnOrder, desiredColumn.name, i)
 			}
 
 			ddls = append(ddls, ddl)
@@ -270,6 +279,12 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				currentPos := currentColumn.position
 				desiredPos := desiredColumn.position
 				changeOrder := currentPos > desiredPos && currentPos-desiredPos > len(currentTable.columns)-len(desired.table.columns)
+				if i < len(columnOrder) && columnOrder[i] != currentColumn.name {
+					changeOrder = true
+				}
+				if changeOrder {
+					columnOrder = moveString(columnOrder, currentColumn.name, i)
+				}
 
 				// Change column type and orders, *except* AUTO_INCREMENT and UNIQUE KEY.
 				if !g.haveSameColumnDefinition(*currentColumn, desiredColumn) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) || changeOrder {
@@ -1553,6 +1568,23 @@ func containsString(strs []string, str string) bool {
 	return false
 }
 
+// moveString returns strs with str at the index, taken away from where it was if any.
+func moveString(strs []string, str string, index int) []string {
+	moved := []string{}
+	for _, s := range strs {
+		if s != str {
+			moved = append(moved, s)
+		}
+	}
+	if index > len(moved) {
+		index = len(moved)
+	}
+	moved = append(moved, "")
+	copy(moved[index+1:], moved[index:])
+	moved[index] = str
+	return moved
+}
+
 func removeTableByName(tables []*Table, name string) []*Table {
 	removed := false
 	ret := []*Table{}
-- 
2.43.0


From 165699096a7b619d4afe339cf421e9e1191e676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 02/85] fix: don't revert a column's type when removing its
 AUTO_INCREMENT

---
 schema/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 6e3a172..287c75e 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -443,6 +443,10 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 		for _, currentColumn := range currentTable.columns {
 			desiredColumn := findColumnByName(desired.table.columns, currentColumn.name)
 			if currentColumn.autoIncrement && (desiredColumn == nil || !desiredColumn.autoIncrement) {
+				if desiredColumn != nil {
+					// The column is kept. Don't revert what has been changed above.
+					currentColumn = *desiredColumn
+				}
 				currentColumn.autoIncrement = false
 				definition, err := g.generateColumnDefinition(currentColumn, false)
 				if err != nil {
-- 
2.43.0


From 9e93e1e4b9244abb8d482dbe87274de444302a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 03/85] fix: drop referencing tables before referenced ones

---
 schema/generator.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 287c75e..0686c41 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -142,7 +142,7 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 	}
 
 	// Clean up obsoleted tables, indexes, columns
-	for _, currentTable := range g.currentTables {
+	for _, currentTable := range sortReferencingFirst(g.currentTables) {
 		desiredTable := findTableByName(g.desiredTables, currentTable.name)
 		if desiredTable == nil {
 			// Obsoleted table found. Drop table.
@@ -1589,6 +1589,31 @@ func moveString(strs []string, str string, index int) []string {
 	return moved
 }
 
+// A table can't be dropped before foreign keys to it. Place referencing tables before referenced ones, and keep the order of others.
+func sortReferencingFirst(tables []*Table) []*Table {
+	sorted := []*Table{}
+	visited := map[*Table]bool{}
+	var visit func(table *Table)
+	visit = func(table *Table) {
+		if visited[table] {
+			return
+		}
+		visited[table] = true
+		for _, other := range tables {
+			for _, foreignKey := range other.foreignKeys {
+				if foreignKey.referenceName == table.name || strings.HasSuffix(table.name, "."+foreignKey.referenceName) {
+					visit(other)
+				}
+			}
+		}
+		sorted = append(sorted, table)
+	}
+	for _, table := range tables {
+		visit(table)
+	}
+	return sorted
+}
+
 func removeTableByName(tables []*Table, name string) []*Table {
 	removed := false
 	ret := []*Table{}
-- 
2.43.0


From c231024c80504517a4695deab93efee99476d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 04/85] fix: keep AUTO_INCREMENT valid while its key is
 replaced

---
 schema/generator.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 0686c41..845d843 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -439,10 +439,14 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 	}
 
 	// Remove old AUTO_INCREMENT from deleted column before deleting key (primary or not)
+	keylessAutoIncrement := "" // An AUTO_INCREMENT column needs a key anytime. Remove it for a while when all of its keys are replaced.
 	if g.mode == GeneratorModeMysql {
 		for _, currentColumn := range currentTable.columns {
 			desiredColumn := findColumnByName(desired.table.columns, currentColumn.name)
-			if currentColumn.autoIncrement && (desiredColumn == nil || !desiredColumn.autoIncrement) {
+			if currentColumn.autoIncrement && desiredColumn != nil && desiredColumn.autoIncrement && !keepsKey(currentTable, desired.table, currentColumn.name) {
+				keylessAutoIncrement = currentColumn.name
+			}
+			if currentColumn.autoIncrement && (desiredColumn == nil || !desiredColumn.autoIncrement || keylessAutoIncrement == currentColumn.name) {
 				if desiredColumn != nil {
 					// The column is kept. Don't revert what has been changed above.
 					currentColumn = *desiredColumn
@@ -498,7 +502,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 	if g.mode == GeneratorModeMysql {
 		for _, desiredColumn := range desired.table.columns {
 			currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
-			if desiredColumn.autoIncrement && (currentColumn == nil || !currentColumn.autoIncrement) {
+			if desiredColumn.autoIncrement && (currentColumn == nil || !currentColumn.autoIncrement || keylessAutoIncrement == currentColumn.name) {
 				definition, err := g.generateColumnDefinition(desiredColumn, false)
 				if err != nil {
 					return ddls, err
@@ -1393,6 +1397,23 @@ func areSamePrimaryKeys(primaryKeyA *Index, primaryKeyB *Index) bool {
 	}
 }
 
+// Whether a key on the column stays while primary keys and indexes in `desired` are examined
+func keepsKey(current Table, desired Table, columnName string) bool {
+	for _, index := range current.indexes {
+		if index.columns[0].column != columnName {
+			continue
+		}
+		if index.primary {
+			if areSamePrimaryKeys(current.PrimaryKey(), desired.PrimaryKey()) {
+				return true
+			}
+		} else if desiredIndex := findIndexByName(desired.indexes, index.name); desiredIndex == nil || areSameIndexes(index, *desiredIndex) {
+			return true
+		}
+	}
+	return false
+}
+
 func areSameIndexes(indexA Index, indexB Index) bool {
 	if indexA.unique != indexB.unique {
 		return false
-- 
2.43.0


From e6fb57f5d4580219accdee4d8d0855a114fba4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 05/85] fix: drop a unique index that an inline UNIQUE doesn't
 make

---
 schema/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 845d843..9ce4b63 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -762,6 +762,9 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 	} else if currentIndex.unique {
 		var uniqueKeyColumn *Column
 		for _, column := range desiredTable.columns {
+			if len(currentIndex.columns) > 1 || (g.mode == GeneratorModeMysql && currentIndex.name != column.name) {
+				continue // This is not what the column's UNIQUE makes.
+			}
 			if column.name == currentIndex.columns[0].column && column.keyOption.isUnique() {
 				uniqueKeyColumn = &column
 				break
-- 
2.43.0


From 11843efa75d7f25096cd6bb5e2ae14e89c38a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 06/85] fix: keep values of a set type

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 9ce4b63..ce9ca0c 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -796,7 +796,7 @@ func generateDataType(column Column) string {
 		}
 	} else {
 		switch column.typeName {
-		case "enum":
+		case "enum", "set":
 			return fmt.Sprintf("%s(%s)%s", column.typeName, strings.Join(column.enumValues, ", "), suffix)
 		default:
 			return fmt.Sprintf("%s%s", column.typeName, suffix)
-- 
2.43.0


From 1f876f8049fd2335f7b29efea9804dc1080e296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 07/85] fix: notice a changed scale

---
 schema/generator.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index ce9ca0c..72b8823 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1295,8 +1295,16 @@ func (g *Generator) haveSameDataType(current Column, desired Column) bool {
 	return g.normalizeDataType(current.typeName) == g.normalizeDataType(desired.typeName) &&
 		reflect.DeepEqual(current.enumValues, desired.enumValues) &&
 		(current.length == nil || desired.length == nil || current.length.intVal == desired.length.intVal) && // detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
+		(current.length == nil || desired.length == nil || scaleOf(current) == scaleOf(desired)) &&
 		current.array == desired.array
-	// TODO: scale
+}
+
+// Omitting the scale means 0
+func scaleOf(column Column) int {
+	if column.scale == nil {
+		return 0
+	}
+	return column.scale.intVal
 }
 
 func areSameCheckDefinition(checkA *CheckDefinition, checkB *CheckDefinition) bool {
-- 
2.43.0


From a3e90e9b5e24362ac8267f734d905f77c8692f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 08/85] fix: notice a changed prefix length of an index column

---
 schema/generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 72b8823..a57d551 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1442,7 +1442,9 @@ func areSameIndexes(indexA Index, indexB Index) bool {
 		if indexB.columns[i].direction == "" {
 			indexB.columns[i].direction = AscScr
 		}
-		// TODO: check length?
+		if !reflect.DeepEqual(indexAColumn.length, indexB.columns[i].length) {
+			return false
+		}
 		if indexAColumn.column != indexB.columns[i].column || indexAColumn.direction != indexB.columns[i].direction {
 			return false
 		}
-- 
2.43.0


From 1acc451f7de9b89756ed2069be67b44c70f36c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 09/85] fix: notice changed columns and references of a foreign
 key

---
 schema/generator.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index a57d551..5327c84 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1485,7 +1485,14 @@ func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB Forei
 	if foreignKeyA.notForReplication != foreignKeyB.notForReplication {
 		return false
 	}
-	// TODO: check index, reference
+	if strings.Join(foreignKeyA.indexColumns, ",") != strings.Join(foreignKeyB.indexColumns, ",") ||
+		strings.Join(foreignKeyA.referenceColumns, ",") != strings.Join(foreignKeyB.referenceColumns, ",") {
+		return false
+	}
+	if g.mode == GeneratorModeMysql && foreignKeyA.referenceName != foreignKeyB.referenceName {
+		return false
+	}
+	// TODO: check index, reference with a schema name
 	return true
 }
 
-- 
2.43.0


From de4e7341b198fa6c439e2f6d5bbbaff603fb58d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 10/85] fix: don't recreate a MySQL foreign key with RESTRICT

---
 schema/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 5327c84..47a4377 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1530,6 +1530,9 @@ func (g *Generator) normalizeOnUpdate(onUpdate string) string {
 	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onUpdate == "" {
 		return "NO ACTION"
 	} else {
+		if g.mode == GeneratorModeMysql && strings.ToUpper(onUpdate) == "RESTRICT" {
+			return "" // MySQL doesn't show the default action
+		}
 		return onUpdate
 	}
 }
@@ -1538,6 +1541,9 @@ func (g *Generator) normalizeOnDelete(onDelete string) string {
 	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onDelete == "" {
 		return "NO ACTION"
 	} else {
+		if g.mode == GeneratorModeMysql && strings.ToUpper(onDelete) == "RESTRICT" {
+			return "" // MySQL doesn't show the default action
+		}
 		return onDelete
 	}
 }
-- 
2.43.0


From 5e5f6d5f0af0a800a414e9ee3b8b0299a4cfa566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 11/85] fix: alias types that MySQL reports by another name

---
 schema/generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 47a4377..d650515 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -26,7 +26,9 @@ var (
 		"varchar": "character varying",
 	}
 	mysqlDataTypeAliases = map[string]string{
-		"boolean": "tinyint",
+		"boolean":          "tinyint",
+		"numeric":          "decimal",
+		"double precision": "double",
 	}
 )
 
-- 
2.43.0


From e0318fe6c073c8f02d9efbbfcc11a43b8c92f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 12/85] fix: print a column default exactly as the schema file
 has it

---
 schema/generator.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index d650515..a79300f 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1720,17 +1720,13 @@ func generateSequenceClause(sequence *Sequence) string {
 func generateDefaultDefinition(defaultVal Value) (string, error) {
 	switch defaultVal.valueType {
 	case ValueTypeStr:
-		return fmt.Sprintf("DEFAULT '%s'", defaultVal.strVal), nil
+		return fmt.Sprintf("DEFAULT '%s'", strings.Replace(defaultVal.strVal, "'", "''", -1)), nil
 	case ValueTypeInt:
-		return fmt.Sprintf("DEFAULT %d", defaultVal.intVal), nil
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeFloat:
-		return fmt.Sprintf("DEFAULT %f", defaultVal.floatVal), nil
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeBit:
-		if defaultVal.bitVal {
-			return "DEFAULT b'1'", nil
-		} else {
-			return "DEFAULT b'0'", nil
-		}
+		return fmt.Sprintf("DEFAULT b'%s'", string(defaultVal.raw)), nil
 	case ValueTypeValArg: // NULL, CURRENT_TIMESTAMP, ...
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	default:
-- 
2.43.0


From 4516c317676af3a2789cfbfc74b36403aee9a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 13/85] fix: drop SQLite columns after views that would break

---
 schema/generator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index a79300f..1b6d3c5 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -144,6 +144,7 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 	}
 
 	// Clean up obsoleted tables, indexes, columns
+	absentColumnDDLs := []string{}
 	for _, currentTable := range sortReferencingFirst(g.currentTables) {
 		desiredTable := findTableByName(g.desiredTables, currentTable.name)
 		if desiredTable == nil {
@@ -189,6 +190,11 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 
 			// Column is obsoleted. Drop column.
 			columnDDLs := g.generateDDLsForAbsentColumn(currentTable, column.name)
+			if g.mode == GeneratorModeSQLite3 {
+				// SQLite refuses to drop a column while there's a view of a dropped table or column.
+				absentColumnDDLs = append(absentColumnDDLs, columnDDLs...)
+				continue
+			}
 			ddls = append(ddls, columnDDLs...)
 			// TODO: simulate to remove column from `currentTable.columns`?
 		}
@@ -210,7 +216,7 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 		ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(currentView.name)))
 	}
 
-	return ddls, nil
+	return append(ddls, absentColumnDDLs...), nil
 }
 
 func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName string) []string {
-- 
2.43.0


From b947b71453adc41df053058528b9ff56e0fd1b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 14/85] fix: don't take a table named like sqliteX for an
 internal one

---
 adapter/sqlite3/sqlite3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index b33094a..dd33ed2 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -26,7 +26,7 @@ func NewDatabase(config adapter.Config) (adapter.Database, error) {
 
 func (d *Sqlite3Database) TableNames() ([]string, error) {
 	rows, err := d.db.Query(
-		`select tbl_name from sqlite_master where type = 'table' and tbl_name not like 'sqlite_%'`,
+		`select tbl_name from sqlite_master where type = 'table' and tbl_name not like 'sqlite\_%' escape '\'`,
 	)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f11efc6836b947d97bbdb156ed9b12ce70c5ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 15/85] fix: report a failed commit

---
 adapter/database.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index 3cd6755..bb2e6ec 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -74,6 +74,5 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 			return err
 		}
 	}
-	transaction.Commit()
-	return nil
+	return transaction.Commit()
 }
-- 
2.43.0


From ad16c3829001f61d13b656766701d6f641ae0c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 16/85] fix: report errors while reading the catalog

---
 adapter/mssql/mssql.go       | 19 +++++++++++++------
 adapter/mysql/mysql.go       |  6 +++---
 adapter/postgres/postgres.go | 18 +++++++++---------
 adapter/sqlite3/sqlite3.go   |  4 ++--
 4 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index a84e86a..8e30427 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -47,7 +47,7 @@ func (d *MssqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
-	return tables, nil
+	return tables, rows.Err()
 }
 
 func (d *MssqlDatabase) DumpTableDDL(table string) (string, error) {
@@ -206,7 +206,7 @@ WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
@@ -245,7 +245,7 @@ WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
 		}
 		cols = append(cols, col)
 	}
-	return cols, nil
+	return cols, rows.Err()
 }
 
 type indexDef struct {
@@ -309,6 +309,9 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		indexDefMap[indexName] = definition
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	rows.Close()
 
 	query = fmt.Sprintf(`SELECT
@@ -346,6 +349,10 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		}
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	indexDefs := make([]*indexDef, 0)
 	for _, definition := range indexDefMap {
 		indexDefs = append(indexDefs, definition)
@@ -389,7 +396,7 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		defs = append(defs, def)
 	}
 
-	return defs, nil
+	return defs, rows.Err()
 }
 
 func boolToOnOff(in bool) string {
@@ -436,7 +443,7 @@ INNER JOIN sys.sql_modules
 		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(ddls, definition)
 	}
-	return ddls, nil
+	return ddls, rows.Err()
 }
 
 func (d *MssqlDatabase) Triggers() ([]string, error) {
@@ -461,7 +468,7 @@ INNER JOIN sys.all_sql_modules s ON s.object_id = tr.object_id`
 		triggers = append(triggers, definition)
 	}
 
-	return triggers, nil
+	return triggers, rows.Err()
 }
 
 func (d *MssqlDatabase) DB() *sql.DB {
diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 7f5709d..3e923d2 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -41,7 +41,7 @@ func (d *MysqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, table)
 	}
-	return tables, nil
+	return tables, rows.Err()
 }
 
 func (d *MysqlDatabase) DumpTableDDL(table string) (string, error) {
@@ -75,7 +75,7 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", viewName, definition))
 	}
-	return ddls, nil
+	return ddls, rows.Err()
 }
 
 func (d *MysqlDatabase) Triggers() ([]string, error) {
@@ -93,7 +93,7 @@ func (d *MysqlDatabase) Triggers() ([]string, error) {
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", trigger, timing, event, table, statement))
 	}
-	return ddls, nil
+	return ddls, rows.Err()
 }
 
 func (d *MysqlDatabase) DB() *sql.DB {
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index f9d2a35..728fbb8 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -52,7 +52,7 @@ func (d *PostgresDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
-	return tables, nil
+	return tables, rows.Err()
 }
 
 var (
@@ -89,7 +89,7 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 			),
 		)
 	}
-	return ddls, nil
+	return ddls, rows.Err()
 }
 
 func (d *PostgresDatabase) Triggers() ([]string, error) {
@@ -225,7 +225,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
@@ -265,7 +265,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 		}
 		cols = append(cols, col)
 	}
-	return cols, nil
+	return cols, rows.Err()
 }
 
 func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
@@ -273,7 +273,7 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
@@ -290,7 +290,7 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 		}
 		indexes = append(indexes, indexdef)
 	}
-	return indexes, nil
+	return indexes, rows.Err()
 }
 
 func (d *PostgresDatabase) getPrimaryKeyColumns(table string) ([]string, error) {
@@ -318,7 +318,7 @@ WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		}
 		columnNames = append(columnNames, columnName)
 	}
-	return columnNames, nil
+	return columnNames, rows.Err()
 }
 
 // refs: https://gist.github.com/PickledDragon/dd41f4e72b428175354d
@@ -359,7 +359,7 @@ WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		)
 		defs = append(defs, def)
 	}
-	return defs, nil
+	return defs, rows.Err()
 }
 
 var (
@@ -400,7 +400,7 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 		}
 		defs = append(defs, def)
 	}
-	return defs, nil
+	return defs, rows.Err()
 }
 
 func (d *PostgresDatabase) DB() *sql.DB {
diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index dd33ed2..6d78233 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -41,7 +41,7 @@ func (d *Sqlite3Database) TableNames() ([]string, error) {
 		}
 		tables = append(tables, name)
 	}
-	return tables, nil
+	return tables, rows.Err()
 }
 
 func (d *Sqlite3Database) DumpTableDDL(table string) (string, error) {
@@ -68,7 +68,7 @@ func (d *Sqlite3Database) Views() ([]string, error) {
 		ddls = append(ddls, sql)
 	}
 
-	return ddls, nil
+	return ddls, rows.Err()
 }
 
 func (d *Sqlite3Database) Triggers() ([]string, error) {
-- 
2.43.0


From 35798fc516c492b30356c39c399c70f813a9133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 17/85] fix: refuse NOT FOR REPLICATION without IDENTITY
 instead of crashing

---
 sqlparser/ast.go    | 10 ++++++++++
 sqlparser/parser.go |  4 +++-
 sqlparser/parser.y  |  2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 299e0ec..87463d8 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -975,6 +975,16 @@ type ColumnType struct {
 	Identity *IdentityOpt
 }
 
+// setNotForReplication marks the identity of a column. There is nothing to mark without one.
+func setNotForReplication(yylex interface{}, ct *ColumnType) bool {
+	if ct.Identity == nil {
+		yylex.(*Tokenizer).Error("NOT FOR REPLICATION without IDENTITY")
+		return false
+	}
+	ct.Identity.NotForReplication = true
+	return true
+}
+
 type DefaultDefinition struct {
 	Value          *SQLVal
 	ConstraintName ColIdent // only for MSSQL
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index afa3a4d..7e409c6 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4218,7 +4218,9 @@ yydefault:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:1017
 		{
-			yyDollar[1].columnType.Identity.NotForReplication = true
+			if !setNotForReplication(yylex, &yyDollar[1].columnType) {
+				return 1
+			}
 			yyVAL.columnType = yyDollar[1].columnType
 		}
 	case 140:
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index b148377..f856eee 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1015,7 +1015,7 @@ column_definition_type:
 // for MSSQL: IDENTITY(N,M) NOT FOR REPLICATION
 | column_definition_type NOT FOR REPLICATION
   {
-    $1.Identity.NotForReplication = true
+    if !setNotForReplication(yylex, &$1) { return 1 }
     $$ = $1
   }
 
-- 
2.43.0


From 8cf0393a87416fe279f374fdf7c4d31099466752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 18/85] fix: print a boolean default instead of crashing

---
 sqlparser/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 87463d8..8fc8b17 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -2503,7 +2503,7 @@ func (node *SQLVal) Format(buf *TrackedBuffer) {
 	case ValArg:
 		buf.WriteArg(string(node.Val))
 	case ValBool:
-		buf.Myprintf("%t", node.Val)
+		buf.Myprintf("%s", []byte(node.Val))
 	default:
 		panic("unexpected")
 	}
-- 
2.43.0


From 452c479c88188153b7a93412a9fc5391935b20de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 19/85] fix: emit NOW() and boolean defaults as what they are

---
 schema/generator.go |  2 ++
 sqlparser/ast.go    | 19 +++++++++++++++++++
 sqlparser/parser.go |  4 ++--
 sqlparser/parser.y  |  4 ++--
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 1b6d3c5..e0a43cb 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1733,6 +1733,8 @@ func generateDefaultDefinition(defaultVal Value) (string, error) {
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeBit:
 		return fmt.Sprintf("DEFAULT b'%s'", string(defaultVal.raw)), nil
+	case ValueTypeBool:
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeValArg: // NULL, CURRENT_TIMESTAMP, ...
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	default:
diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 8fc8b17..8137aa8 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -2480,6 +2480,25 @@ func NewBoolSQLVal(in bool) *SQLVal {
 	return &SQLVal{Type: ValBool, Val: []byte(fmt.Sprintf("%t", in))}
 }
 
+// newDefaultBool builds the default TRUE or FALSE, which MySQL takes and reports as a number.
+func newDefaultBool(yylex interface{}, in bool) *SQLVal {
+	if yylex.(*Tokenizer).mode == ParserModeMysql {
+		if in {
+			return NewIntVal([]byte("1"))
+		}
+		return NewIntVal([]byte("0"))
+	}
+	return NewBoolSQLVal(in)
+}
+
+// newNowVal builds the default NOW(), which MySQL reports as CURRENT_TIMESTAMP.
+func newNowVal(yylex interface{}) *SQLVal {
+	if yylex.(*Tokenizer).mode == ParserModeMysql {
+		return NewValArg([]byte("current_timestamp"))
+	}
+	return NewValArg([]byte("now()"))
+}
+
 func NewValArgWithOpt(in []byte, opt *SQLVal) *SQLVal {
 	if opt != nil {
 		combined := string(in) + "(" + string(opt.Val) + ")"
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 7e409c6..5598727 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4281,13 +4281,13 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:1062
 		{
-			yyVAL.optVal = NewBoolSQLVal(bool(yyDollar[1].boolVal))
+			yyVAL.optVal = newDefaultBool(yylex, bool(yyDollar[1].boolVal))
 		}
 	case 150:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1066
 		{
-			yyVAL.optVal = NewBitVal(yyDollar[1].bytes)
+			yyVAL.optVal = newNowVal(yylex)
 		}
 	case 151:
 		yyDollar = yyS[yypt-1 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index f856eee..419bb23 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1060,11 +1060,11 @@ default_val:
   }
 | boolean_value
   {
-    $$ = NewBoolSQLVal(bool($1))
+    $$ = newDefaultBool(yylex, bool($1))
   }
 | NOW openb closeb
   {
-    $$ = NewBitVal($1)
+    $$ = newNowVal(yylex)
   }
 
 identity_behavior:
-- 
2.43.0


From d7ffcf2ec8247447a5ef48a1938aa3e7cc0a1063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 20/85] fix: don't crash on a special comment with nothing to
 execute

---
 sqlparser/comments.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlparser/comments.go b/sqlparser/comments.go
index a0f7f1b..1b26613 100644
--- a/sqlparser/comments.go
+++ b/sqlparser/comments.go
@@ -170,6 +170,10 @@ func ExtractMysqlComment(sql string) (version string, innerSQL string) {
 		digitCount++
 		return !unicode.IsDigit(c) || digitCount == 6
 	})
+	if endOfVersionIndex < 0 {
+		// nothing but a version
+		endOfVersionIndex = len(sql)
+	}
 	version = sql[0:endOfVersionIndex]
 	innerSQL = strings.TrimFunc(sql[endOfVersionIndex:], unicode.IsSpace)
 
-- 
2.43.0


From 68ce024e12058942e51f0bbf7e4259b1f070e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 21/85] fix: refuse a cast of nothing, which could not be
 printed

---
 sqlparser/parser.go | 3 ++-
 sqlparser/parser.y  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 5598727..d0061ed 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -7001,7 +7001,8 @@ yydefault:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3176
 		{
-			yyVAL.expr = &ConvertExpr{Type: yyDollar[2].convertType}
+			yylex.Error("nothing to cast to " + yyDollar[2].convertType.Type)
+			return 1
 		}
 	case 615:
 		yyDollar = yyS[yypt-4 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 419bb23..53bea4b 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -3174,7 +3174,7 @@ function_call_nonkeyword:
   }
 | TYPECAST simple_convert_type
   {
-    $$ = &ConvertExpr{Type: $2}
+    yylex.Error("nothing to cast to " + $2.Type); return 1
   }
 
 func_datetime_precision_opt:
-- 
2.43.0


From face21ef7efa64c88841ef58e91d233f118875cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 22/85] fix: compare numeric defaults as numbers, not as digits

---
 schema/generator.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index e0a43cb..50a45c8 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -4,6 +4,7 @@ package schema
 import (
 	"fmt"
 	"log"
+	"math/big"
 	"reflect"
 	"sort"
 	"strings"
@@ -1359,10 +1360,13 @@ func areSameValue(current, desired *Value) bool {
 	// NOTE: -1 can be changed to '-1' in show create table and valueType is not reliable
 	currentRaw := string(current.raw)
 	desiredRaw := string(desired.raw)
-	if desired.valueType == ValueTypeFloat && len(currentRaw) > len(desiredRaw) {
-		// Round "0.00" to "0.0" for comparison with desired.
-		// Ideally we should do this seeing precision in a data type.
-		currentRaw = currentRaw[0:len(desiredRaw)]
+	if desired.valueType == ValueTypeFloat || desired.valueType == ValueTypeInt {
+		// Databases show 0 or 0.0 as "0.00" when a data type has such a scale. Compare numbers, not digits.
+		currentNum, currentOk := new(big.Rat).SetString(currentRaw)
+		desiredNum, desiredOk := new(big.Rat).SetString(desiredRaw)
+		if currentOk && desiredOk {
+			return currentNum.Cmp(desiredNum) == 0
+		}
 	}
 	return currentRaw == desiredRaw
 }
-- 
2.43.0


From 2b86e74f5c1c4c06421cd058c0bf06b1d2c6a159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 23/85] fix: do not print a comment for minus a negative value

---
 sqlparser/ast.go          | 5 +++++
 sqlparser/parsed_query.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 8137aa8..84db59a 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -2765,6 +2765,11 @@ func (node *UnaryExpr) Format(buf *TrackedBuffer) {
 		buf.Myprintf("%s %v", node.Operator, node.Expr)
 		return
 	}
+	if value, ok := node.Expr.(*SQLVal); ok && node.Operator == UMinusStr && bytes.HasPrefix(value.Val, []byte("-")) {
+		// The value is negative, and "--" starts a comment.
+		buf.Myprintf("%s %v", node.Operator, node.Expr)
+		return
+	}
 	buf.Myprintf("%s%v", node.Operator, node.Expr)
 }
 
diff --git a/sqlparser/parsed_query.go b/sqlparser/parsed_query.go
index b0f9b72..3a77d37 100644
--- a/sqlparser/parsed_query.go
+++ b/sqlparser/parsed_query.go
@@ -53,6 +53,10 @@ func (pq *ParsedQuery) GenerateQuery(bindVariables map[string]*querypb.BindVaria
 	current := 0
 	for _, loc := range pq.bindLocations {
 		buf.WriteString(pq.Query[current:loc.offset])
+		if loc.offset > 0 && pq.Query[loc.offset-1] == '-' {
+			// The value may be negative, and "--" starts a comment.
+			buf.WriteByte(' ')
+		}
 		name := pq.Query[loc.offset : loc.offset+loc.length]
 		if encodable, ok := extras[name[1:]]; ok {
 			encodable.EncodeSQL(buf)
-- 
2.43.0


From ff0e5ceedebcde0f642446ca850cf481a3eaeacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 24/85] fix: keep every byte of an identifier when printing it

---
 sqlparser/ast.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 84db59a..7a00144 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -3622,7 +3622,7 @@ func formatID(buf *TrackedBuffer, original, lowered string) {
 		isDbSystemVariable = true
 	}
 
-	for i, c := range original {
+	for i, c := range []byte(original) {
 		if !isLetter(uint16(c)) && (!isDbSystemVariable || !isCarat(uint16(c))) {
 			if i == 0 || !isDigit(uint16(c)) {
 				goto mustEscape
@@ -3632,13 +3632,16 @@ func formatID(buf *TrackedBuffer, original, lowered string) {
 	if _, ok := keywords[lowered]; ok {
 		goto mustEscape
 	}
+	if lowered == "dual" && original != lowered { // the tokenizer lowers it
+		goto mustEscape
+	}
 	buf.Myprintf("%s", original)
 	return
 
 mustEscape:
 	buf.WriteByte('`')
-	for _, c := range original {
-		buf.WriteRune(c)
+	for _, c := range []byte(original) {
+		buf.WriteByte(c)
 		if c == '`' {
 			buf.WriteByte('`')
 		}
-- 
2.43.0


From fdb5b0009b803771b35b7e03cdf496fa1cd87ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 25/85] fix: quote function and variable names that need it

---
 sqlparser/ast.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 7a00144..ec8bc44 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -2857,7 +2857,8 @@ func (node *FuncExpr) Format(buf *TrackedBuffer) {
 	// Function names should not be back-quoted even
 	// if they match a reserved word. So, print the
 	// name as is.
-	buf.Myprintf("%s(%s%v)", node.Name.String(), distinct, node.Exprs)
+	formatBareID(buf, node.Name)
+	buf.Myprintf("(%s%v)", distinct, node.Exprs)
 }
 
 func (node *FuncExpr) walkSubtree(visit Visit) error {
@@ -3433,7 +3434,8 @@ func (node *SetExpr) Format(buf *TrackedBuffer) {
 	if node.Name.EqualString("charset") || node.Name.EqualString("names") {
 		buf.Myprintf("%s %v", node.Name.String(), node.Expr)
 	} else {
-		buf.Myprintf("%s = %v", node.Name.String(), node.Expr)
+		formatBareID(buf, node.Name)
+		buf.Myprintf(" = %v", node.Expr)
 	}
 }
 
@@ -3616,6 +3618,19 @@ func Backtick(in string) string {
 	return buf.String()
 }
 
+// formatBareID prints a name without backticks, even if it is a reserved
+// word, unless it could not have been written without them.
+func formatBareID(buf *TrackedBuffer, name ColIdent) {
+	original := name.String()
+	for i, c := range []byte(original) {
+		if !isLetter(uint16(c)) && (c != '.' || !strings.HasPrefix(original, "@@")) && (i == 0 || !isDigit(uint16(c))) {
+			buf.Myprintf("%v", name)
+			return
+		}
+	}
+	buf.Myprintf("%s", original)
+}
+
 func formatID(buf *TrackedBuffer, original, lowered string) {
 	isDbSystemVariable := false
 	if len(original) > 1 && original[:2] == "@@" {
-- 
2.43.0


From a7a0894e2c438e01ba8952dfbc1b7141434a2da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 26/85] fix: escape the separator of group_concat when printing
 it

---
 sqlparser/parser.go | 2 +-
 sqlparser/parser.y  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index d0061ed..8701374 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -7220,7 +7220,7 @@ yydefault:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3342
 		{
-			yyVAL.str = " separator '" + string(yyDollar[2].bytes) + "'"
+			yyVAL.str = " separator " + String(NewStrVal(yyDollar[2].bytes))
 		}
 	case 651:
 		yyDollar = yyS[yypt-1 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 53bea4b..6d034aa 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -3340,7 +3340,7 @@ separator_opt:
   }
 | SEPARATOR STRING
   {
-    $$ = " separator '"+string($2)+"'"
+    $$ = " separator "+String(NewStrVal($2))
   }
 
 when_expression_list:
-- 
2.43.0


From 46593d9846c0308e7e3d425cd500f2a24a1a02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 27/85] fix: print expr::type as it was written

---
 sqlparser/ast.go    | 9 +++++++--
 sqlparser/parser.go | 2 +-
 sqlparser/parser.y  | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index ec8bc44..a63485b 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -3014,12 +3014,17 @@ func (node *SubstrExpr) walkSubtree(visit Visit) error {
 // ConvertExpr represents a call to CONVERT(expr, type)
 // or it's equivalent CAST(expr AS type). Both are rewritten to the former.
 type ConvertExpr struct {
-	Expr Expr
-	Type *ConvertType
+	Expr     Expr
+	Type     *ConvertType
+	Typecast bool // expr::type
 }
 
 // Format formats the node.
 func (node *ConvertExpr) Format(buf *TrackedBuffer) {
+	if node.Typecast {
+		buf.Myprintf("%v::%v", node.Expr, node.Type)
+		return
+	}
 	buf.Myprintf("convert(%v, %v)", node.Expr, node.Type)
 }
 
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 8701374..7e3ce27 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -6839,7 +6839,7 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:3042
 		{
-			yyVAL.expr = &ConvertExpr{Expr: yyDollar[1].expr, Type: yyDollar[3].convertType}
+			yyVAL.expr = &ConvertExpr{Expr: yyDollar[1].expr, Type: yyDollar[3].convertType, Typecast: true}
 		}
 	case 586:
 		yyDollar = yyS[yypt-4 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 6d034aa..ce7c66f 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -3040,7 +3040,7 @@ value_expression:
   }
 | value_expression TYPECAST simple_convert_type
   {
-    $$ = &ConvertExpr{Expr: $1, Type: $3}
+    $$ = &ConvertExpr{Expr: $1, Type: $3, Typecast: true}
   }
 | function_call_generic
 | function_call_keyword
-- 
2.43.0


From 608be6a964be53114a943b8263bd50ccf4931c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 28/85] fix: accept only numbers that SQL reads as the same
 number

---
 sqlparser/dependency/sqltypes/value.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/sqlparser/dependency/sqltypes/value.go b/sqlparser/dependency/sqltypes/value.go
index 683b235..9f9de7f 100644
--- a/sqlparser/dependency/sqltypes/value.go
+++ b/sqlparser/dependency/sqltypes/value.go
@@ -18,10 +18,12 @@ limitations under the License.
 package sqltypes
 
 import (
+	"bytes"
 	"encoding/base64"
 	"encoding/json"
 	"fmt"
 	"strconv"
+	"strings"
 
 	"github.com/k0kubun/sqldef/sqlparser/dependency/bytes2"
 	"github.com/k0kubun/sqldef/sqlparser/dependency/hack"
@@ -60,12 +62,12 @@ type Value struct {
 func NewValue(typ querypb.Type, val []byte) (v Value, err error) {
 	switch {
 	case IsSigned(typ):
-		if _, err := strconv.ParseInt(string(val), 0, 64); err != nil {
+		if _, err := strconv.ParseInt(string(val), integerBase(string(val)), 64); err != nil {
 			return NULL, err
 		}
 		return MakeTrusted(typ, val), nil
 	case IsUnsigned(typ):
-		if _, err := strconv.ParseUint(string(val), 0, 64); err != nil {
+		if _, err := strconv.ParseUint(string(val), integerBase(string(val)), 64); err != nil {
 			return NULL, err
 		}
 		return MakeTrusted(typ, val), nil
@@ -73,6 +75,10 @@ func NewValue(typ querypb.Type, val []byte) (v Value, err error) {
 		if _, err := strconv.ParseFloat(string(val), 64); err != nil {
 			return NULL, err
 		}
+		if bytes.ContainsAny(val, "_xXnN") {
+			// 1_0, 0x1p0, nan and inf are numbers in Go, but not in SQL.
+			return NULL, fmt.Errorf("invalid number: %s", val)
+		}
 		return MakeTrusted(typ, val), nil
 	case IsQuoted(typ) || typ == Null:
 		return MakeTrusted(typ, val), nil
@@ -81,6 +87,16 @@ func NewValue(typ querypb.Type, val []byte) (v Value, err error) {
 	return NULL, fmt.Errorf("invalid type specified for MakeValue: %v", typ)
 }
 
+// integerBase returns the base of an integer in SQL, where a leading zero
+// does not mean octal, and there are no prefixes but 0x and no underscores.
+func integerBase(val string) int {
+	digits := strings.ToLower(strings.TrimLeft(val, "+-"))
+	if strings.HasPrefix(digits, "0x") && !strings.Contains(digits, "_") {
+		return 0
+	}
+	return 10
+}
+
 // MakeTrusted makes a new Value based on the type.
 // This function should only be used if you know the value
 // and type conform to the rules. Every place this function is
@@ -129,11 +145,11 @@ func NewVarBinary(v string) Value {
 // NewIntegral builds an integral type from a string representaion.
 // The type will be Int64 or Uint64. Int64 will be preferred where possible.
 func NewIntegral(val string) (n Value, err error) {
-	signed, err := strconv.ParseInt(val, 0, 64)
+	signed, err := strconv.ParseInt(val, integerBase(val), 64)
 	if err == nil {
 		return MakeTrusted(Int64, strconv.AppendInt(nil, signed, 10)), nil
 	}
-	unsigned, err := strconv.ParseUint(val, 0, 64)
+	unsigned, err := strconv.ParseUint(val, integerBase(val), 64)
 	if err != nil {
 		return Value{}, err
 	}
-- 
2.43.0


From af5a186b2d9ee8e5ed4eff4146e5a1f2fd6d5b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 29/85] fix: walk ORDER BY and LIMIT of a union

---
 sqlparser/ast.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index a63485b..674ba83 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -435,6 +435,8 @@ func (node *Union) walkSubtree(visit Visit) error {
 		visit,
 		node.Left,
 		node.Right,
+		node.OrderBy,
+		node.Limit,
 	)
 }
 
-- 
2.43.0


From 99ca8d6b6188fbe6544d67d9f1ed528f90ccc119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 30/85] fix: redact literals that are not normalized

---
 sqlparser/redact_query.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sqlparser/redact_query.go b/sqlparser/redact_query.go
index f71c577..ed69bc7 100644
--- a/sqlparser/redact_query.go
+++ b/sqlparser/redact_query.go
@@ -15,5 +15,22 @@ func RedactSQLQuery(sql string) (string, error) {
 	prefix := "redacted"
 	Normalize(stmt, bv, prefix)
 
+	// Some literals are not turned into bind variables.
+	nz := newNormalizer(stmt, bv, prefix)
+	_ = Walk(func(node SQLNode) (bool, error) {
+		switch node := node.(type) {
+		case *SQLVal:
+			if node.Type != ValArg {
+				node.Type = ValArg
+				node.Val = append([]byte(":"), nz.newName()...)
+			}
+		case *GroupConcatExpr:
+			if node.Separator != "" {
+				node.Separator = " separator :" + nz.newName()
+			}
+		}
+		return true, nil
+	}, stmt)
+
 	return comments.Leading + String(stmt) + comments.Trailing, nil
 }
-- 
2.43.0


From cb4e769897de12d9ab81ff8471225a0bc9826317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 31/85] fix: tokenize a stream in the MySQL mode

---
 sqlparser/token.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlparser/token.go b/sqlparser/token.go
index fb64320..db39c66 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -78,6 +78,7 @@ func NewTokenizer(r io.Reader) *Tokenizer {
 	return &Tokenizer{
 		InStream: r,
 		buf:      make([]byte, defaultBufSize),
+		mode:     ParserModeMysql,
 	}
 }
 
-- 
2.43.0


From f7416836bf45f5075f51791fd6628b62cff2454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 32/85] fix: split at the separators outside comments and keep
 a last piece of one byte

---
 sqlparser/ast.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 674ba83..2f9e471 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -107,7 +107,7 @@ func SplitStatement(blob string) (string, string, error) {
 	tkn := 0
 	for {
 		tkn, _ = tokenizer.Scan()
-		if tkn == 0 || tkn == ';' || tkn == eofChar {
+		if tkn == 0 || tkn == ';' && tokenizer.specialComment == nil || tkn == eofChar {
 			break
 		}
 	}
@@ -131,16 +131,14 @@ func SplitStatementToPieces(blob string) (pieces []string, err error) {
 	stmtBegin := 0
 	for {
 		tkn, _ = tokenizer.Scan()
-		if tkn == ';' {
+		if tkn == ';' && tokenizer.specialComment == nil {
 			stmt = blob[stmtBegin : tokenizer.Position-2]
 			pieces = append(pieces, stmt)
 			stmtBegin = tokenizer.Position - 1
 
 		} else if tkn == 0 || tkn == eofChar {
-			blobTail := tokenizer.Position - 2
-
-			if stmtBegin < blobTail {
-				stmt = blob[stmtBegin : blobTail+1]
+			if stmtBegin < len(blob) {
+				stmt = blob[stmtBegin:]
 				pieces = append(pieces, stmt)
 			}
 			break
-- 
2.43.0


From 649b0c763b39f8d8e127825da91523752479c32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 33/85] fix: find the end of a statement outside quotes and
 comments

---
 sqlparser/token.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sqlparser/token.go b/sqlparser/token.go
index db39c66..bf2992c 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -681,12 +681,16 @@ func (tkn *Tokenizer) Scan() (int, []byte) {
 }
 
 // skipStatement scans until the EOF, or end of statement is encountered.
+// A separator in a string, a quoted identifier or a comment is not the end.
 func (tkn *Tokenizer) skipStatement() {
-	ch := tkn.lastChar
-	for ch != ';' && ch != eofChar {
-		tkn.next()
-		ch = tkn.lastChar
+	multi, forceEOF := tkn.multi, tkn.ForceEOF
+	tkn.multi, tkn.ForceEOF = true, false
+	for {
+		if typ, _ := tkn.Scan(); typ == 0 {
+			break
+		}
 	}
+	tkn.multi, tkn.ForceEOF = multi, forceEOF
 }
 
 func (tkn *Tokenizer) skipBlank() {
-- 
2.43.0


From c8ad663f2423347921d9c49c545acb3fa4f9f369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 34/85] fix: report the error of a reader and read on after an
 empty read

---
 sqlparser/ast.go   | 10 +++++++++-
 sqlparser/token.go | 15 +++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 2f9e471..388950d 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -85,12 +85,20 @@ func ParseNext(tokenizer *Tokenizer) (Statement, error) {
 		tokenizer.skipBlank()
 	}
 	if tokenizer.lastChar == eofChar {
+		if tokenizer.readError != nil {
+			return nil, tokenizer.readError
+		}
 		return nil, io.EOF
 	}
 
 	tokenizer.reset()
 	tokenizer.multi = true
-	if yyParse(tokenizer) != 0 {
+	failed := yyParse(tokenizer) != 0
+	if tokenizer.lastChar == eofChar && tokenizer.readError != nil && tokenizer.readError != io.EOF {
+		// The statement ends where reading failed.
+		return nil, tokenizer.readError
+	}
+	if failed {
 		if tokenizer.partialDDL != nil {
 			tokenizer.ParseTree = tokenizer.partialDDL
 			return tokenizer.ParseTree, nil
diff --git a/sqlparser/token.go b/sqlparser/token.go
index bf2992c..15b3bfa 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -38,6 +38,9 @@ const (
 	ParserModeMssql
 )
 
+// maxEmptyReads is how often a reader may give nothing before it is an error.
+const maxEmptyReads = 100
+
 // Tokenizer is the struct used to generate SQL
 // tokens for the parser.
 type Tokenizer struct {
@@ -48,6 +51,7 @@ type Tokenizer struct {
 	Position       int
 	lastToken      []byte
 	LastError      error
+	readError      error
 	posVarIndex    int
 	ParseTree      Statement
 	partialDDL     *DDL
@@ -980,9 +984,16 @@ func (tkn *Tokenizer) consumeNext(buffer *bytes2.Buffer) {
 func (tkn *Tokenizer) next() {
 	if tkn.bufPos >= tkn.bufSize && tkn.InStream != nil {
 		// Try and refill the buffer
-		var err error
+		err := tkn.readError
 		tkn.bufPos = 0
-		if tkn.bufSize, err = tkn.InStream.Read(tkn.buf); err != io.EOF && err != nil {
+		tkn.bufSize = 0
+		for tries := 0; tkn.bufSize == 0 && err == nil; tries++ {
+			if tkn.bufSize, err = tkn.InStream.Read(tkn.buf); tries == maxEmptyReads && tkn.bufSize == 0 && err == nil {
+				err = io.ErrNoProgress
+			}
+		}
+		tkn.readError = err
+		if err != io.EOF && err != nil {
 			tkn.LastError = err
 		}
 	}
-- 
2.43.0


From 713aeb21027659e3e8a617a53abe2e9f2d06147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 35/85] fix: report a NUL byte wherever it stands

---
 sqlparser/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlparser/token.go b/sqlparser/token.go
index 15b3bfa..46c2c0f 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -526,7 +526,7 @@ func (tkn *Tokenizer) Scan() (int, []byte) {
 		// leave specialComment scan mode after all stream consumed.
 		tkn.specialComment = nil
 	}
-	if tkn.lastChar == 0 {
+	if tkn.Position == 0 {
 		tkn.next()
 	}
 
-- 
2.43.0


From 9e09b33e23a7d2f673b670da0b610095df29fb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 36/85] fix: export referenced tables before the tables
 referencing them, and views of the right database

---
 adapter/mysql/mysql.go | 49 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 3e923d2..acd1135 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -41,7 +41,52 @@ func (d *MysqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, table)
 	}
-	return tables, rows.Err()
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+	return d.sortByReferences(tables)
+}
+
+// A dump must be applicable to an empty database, so referenced tables come before the tables referencing them.
+func (d *MysqlDatabase) sortByReferences(tables []string) ([]string, error) {
+	rows, err := d.db.Query("select TABLE_NAME, REFERENCED_TABLE_NAME from INFORMATION_SCHEMA.REFERENTIAL_CONSTRAINTS where CONSTRAINT_SCHEMA = database() and UNIQUE_CONSTRAINT_SCHEMA = database() order by TABLE_NAME, REFERENCED_TABLE_NAME")
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+
+	references := map[string][]string{}
+	for rows.Next() {
+		var table, referenced string
+		if err := rows.Scan(&table, &referenced); err != nil {
+			return nil, err
+		}
+		references[table] = append(references[table], referenced)
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	sorted := []string{}
+	pending := map[string]bool{}
+	for _, table := range tables {
+		pending[table] = true
+	}
+	var visit func(table string)
+	visit = func(table string) {
+		if !pending[table] {
+			return
+		}
+		pending[table] = false
+		for _, referenced := range references[table] {
+			visit(referenced)
+		}
+		sorted = append(sorted, table)
+	}
+	for _, table := range tables {
+		visit(table)
+	}
+	return sorted, nil
 }
 
 func (d *MysqlDatabase) DumpTableDDL(table string) (string, error) {
@@ -69,7 +114,7 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		if err = rows.Scan(&viewName, &viewType); err != nil {
 			return nil, err
 		}
-		query := fmt.Sprintf("select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_NAME = '%s';", viewName)
+		query := fmt.Sprintf("select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_SCHEMA = database() and TABLE_NAME = '%s';", viewName)
 		if err = d.db.QueryRow(query).Scan(&definition); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From bcec075618dd4d58dcf0f4349cfaeccc40381e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 37/85] fix: quote the names in a MySQL dump and quotes inside
 names

---
 adapter/mysql/mysql.go | 17 +++++++++++++----
 schema/generator.go    |  6 +++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index acd1135..746b46c 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -3,6 +3,7 @@ package mysql
 import (
 	"database/sql"
 	"fmt"
+	"strings"
 
 	driver "github.com/go-sql-driver/mysql"
 	"github.com/k0kubun/sqldef/adapter"
@@ -91,7 +92,7 @@ func (d *MysqlDatabase) sortByReferences(tables []string) ([]string, error) {
 
 func (d *MysqlDatabase) DumpTableDDL(table string) (string, error) {
 	var ddl string
-	sql := fmt.Sprintf("show create table `%s`;", table) // TODO: escape table name
+	sql := fmt.Sprintf("show create table %s;", quoteName(table))
 
 	err := d.db.QueryRow(sql).Scan(&table, &ddl)
 	if err != nil {
@@ -114,11 +115,11 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		if err = rows.Scan(&viewName, &viewType); err != nil {
 			return nil, err
 		}
-		query := fmt.Sprintf("select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_SCHEMA = database() and TABLE_NAME = '%s';", viewName)
+		query := fmt.Sprintf("select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_SCHEMA = database() and TABLE_NAME = %s;", quoteString(viewName))
 		if err = d.db.QueryRow(query).Scan(&definition); err != nil {
 			return nil, err
 		}
-		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", viewName, definition))
+		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", quoteName(viewName), definition))
 	}
 	return ddls, rows.Err()
 }
@@ -136,7 +137,7 @@ func (d *MysqlDatabase) Triggers() ([]string, error) {
 		if err = rows.Scan(&trigger, &event, &table, &statement, &timing, &created, &sqlMode, &definer, &characterSetClient, &collationConnection, &databaseCollation); err != nil {
 			return nil, err
 		}
-		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", trigger, timing, event, table, statement))
+		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", quoteName(trigger), timing, event, quoteName(table), statement))
 	}
 	return ddls, rows.Err()
 }
@@ -149,6 +150,14 @@ func (d *MysqlDatabase) Close() error {
 	return d.db.Close()
 }
 
+func quoteName(name string) string {
+	return "`" + strings.Replace(name, "`", "``", -1) + "`"
+}
+
+func quoteString(s string) string {
+	return "'" + strings.NewReplacer("\\", "\\\\", "'", "''").Replace(s) + "'"
+}
+
 func mysqlBuildDSN(config adapter.Config) string {
 	c := driver.NewConfig()
 	c.User = config.User
diff --git a/schema/generator.go b/schema/generator.go
index 50a45c8..fc73024 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1081,11 +1081,11 @@ func (g *Generator) escapeTableName(name string) string {
 func (g *Generator) escapeSQLName(name string) string {
 	switch g.mode {
 	case GeneratorModePostgres:
-		return fmt.Sprintf("\"%s\"", name)
+		return fmt.Sprintf("\"%s\"", strings.Replace(name, "\"", "\"\"", -1))
 	case GeneratorModeMssql:
-		return fmt.Sprintf("[%s]", name)
+		return fmt.Sprintf("[%s]", strings.Replace(name, "]", "]]", -1))
 	default:
-		return fmt.Sprintf("`%s`", name)
+		return fmt.Sprintf("`%s`", strings.Replace(name, "`", "``", -1))
 	}
 }
 
-- 
2.43.0


From 5e630e72d3ab76a2393e2ce2d6ff5404ebd0a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 38/85] fix: skip only statements that drop something

---
 adapter/database.go | 56 ++++++++++++++++++++++++++++++++++++++++++++-
 sqldef.go           |  3 +--
 2 files changed, 56 insertions(+), 3 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index bb2e6ec..447fb4b 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -64,7 +64,7 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 	}
 	fmt.Println("-- Apply --")
 	for _, ddl := range ddls {
-		if skipDrop && strings.Contains(ddl, "DROP") {
+		if skipDrop && IsDropDDL(ddl) {
 			fmt.Printf("-- Skipped: %s;\n", ddl)
 			continue
 		}
@@ -76,3 +76,57 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 	}
 	return transaction.Commit()
 }
+
+// IsDropDDL tells whether a DDL drops something. DROP in a name, a literal, a comment or a created trigger's body doesn't.
+func IsDropDDL(ddl string) bool {
+	// Whether a backslash escapes a quote depends on the database. Don't take a DROP for a literal in either of them.
+	return hasDropClause(ddl, false) || hasDropClause(ddl, true)
+}
+
+func hasDropClause(ddl string, backslashEscapes bool) bool {
+	isWord := func(c byte) bool {
+		return c == '_' || c == '$' || c == '#' || c == '@' || c >= 0x80 || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
+	}
+	skipTo := func(i int, end string) int {
+		if n := strings.Index(ddl[i:], end); n >= 0 {
+			return i + n + len(end)
+		}
+		return len(ddl)
+	}
+	firstWord := true
+	for i := 0; i < len(ddl); {
+		switch c := ddl[i]; {
+		case c == '\'' || c == '"':
+			for i++; i < len(ddl) && ddl[i] != c; i++ {
+				if ddl[i] == '\\' && backslashEscapes {
+					i++
+				}
+			}
+			i++
+		case c == '`':
+			i = skipTo(i+1, "`")
+		case c == '[':
+			i = skipTo(i+1, "]")
+		case strings.HasPrefix(ddl[i:], "--"):
+			i = skipTo(i, "\n")
+		case strings.HasPrefix(ddl[i:], "/*"):
+			i = skipTo(i+2, "*/")
+		case isWord(c):
+			start := i
+			for i < len(ddl) && isWord(ddl[i]) {
+				i++
+			}
+			word := strings.ToUpper(ddl[start:i])
+			if word == "DROP" {
+				return true
+			}
+			if firstWord && word == "CREATE" {
+				return false
+			}
+			firstWord = false
+		default:
+			i++
+		}
+	}
+	return false
+}
diff --git a/sqldef.go b/sqldef.go
index b5e7241..4029704 100644
--- a/sqldef.go
+++ b/sqldef.go
@@ -5,7 +5,6 @@ import (
 	"io/ioutil"
 	"log"
 	"os"
-	"strings"
 
 	"github.com/k0kubun/sqldef/adapter"
 	"github.com/k0kubun/sqldef/schema"
@@ -85,7 +84,7 @@ func readFile(filepath string) (string, error) {
 func showDDLs(ddls []string, skipDrop bool) {
 	fmt.Println("-- dry run --")
 	for _, ddl := range ddls {
-		if skipDrop && strings.Contains(ddl, "DROP") {
+		if skipDrop && adapter.IsDropDDL(ddl) {
 			fmt.Printf("-- Skipped: %s;\n", ddl)
 			continue
 		}
-- 
2.43.0


From 81aa375724d609e93dff264948371bc324886b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 39/85] fix: keep precision and scale of numeric, time and
 timestamp columns in PostgreSQL dumps

---
 adapter/postgres/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 728fbb8..8033387 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -209,7 +209,7 @@ func (c *column) GetDataType() string {
 
 func (d *PostgresDatabase) getColumns(table string) ([]column, error) {
 	const query = `SELECT s.column_name, s.column_default, s.is_nullable, s.character_maximum_length,
-	CASE WHEN s.data_type IN ('ARRAY', 'USER-DEFINED') THEN format_type(f.atttypid, f.atttypmod) ELSE s.data_type END,
+	CASE WHEN s.data_type IN ('ARRAY', 'USER-DEFINED', 'numeric') OR s.data_type LIKE 'time%' THEN format_type(f.atttypid, f.atttypmod) ELSE s.data_type END,
 	CASE WHEN p.contype = 'u' THEN true ELSE false END AS uniquekey,
 	CASE WHEN pc.contype = 'c' THEN pg_get_constraintdef(pc.oid, true) ELSE NULL END AS check,
 	s.identity_generation
-- 
2.43.0


From bf2e8a580a7e624609db34b7218299672de82ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 40/85] fix: notice PostgreSQL type changes of time zone and of
 omitted lengths

---
 schema/generator.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index fc73024..4187f34 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -320,7 +320,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					ddls = append(ddls, ddl)
 				}
 			case GeneratorModePostgres:
-				if !g.haveSameDataType(*currentColumn, desiredColumn) {
+				if !g.haveSameDataType(*currentColumn, desiredColumn) || currentColumn.timezone != desiredColumn.timezone {
 					// Change type
 					ddl := fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s TYPE %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name), generateDataType(desiredColumn))
 					ddls = append(ddls, ddl)
@@ -796,6 +796,9 @@ func generateDataType(column Column) string {
 	if column.array {
 		suffix = "[]"
 	}
+	if column.timezone {
+		suffix = " WITH TIME ZONE" + suffix
+	}
 
 	if column.length != nil {
 		if column.scale != nil {
@@ -821,9 +824,6 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	if column.unsigned {
 		definition += "UNSIGNED "
 	}
-	if column.timezone {
-		definition += "WITH TIME ZONE "
-	}
 
 	// [CHARACTER SET] and [COLLATE] should be placed before [NOT NULL | NULL] on MySQL
 	if column.charset != "" {
@@ -1303,11 +1303,25 @@ func (g *Generator) haveSameColumnDefinition(current Column, desired Column) boo
 func (g *Generator) haveSameDataType(current Column, desired Column) bool {
 	return g.normalizeDataType(current.typeName) == g.normalizeDataType(desired.typeName) &&
 		reflect.DeepEqual(current.enumValues, desired.enumValues) &&
+		(g.mode != GeneratorModePostgres || lengthOf(current) == lengthOf(desired)) && // PostgreSQL always shows a length that is set
 		(current.length == nil || desired.length == nil || current.length.intVal == desired.length.intVal) && // detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
 		(current.length == nil || desired.length == nil || scaleOf(current) == scaleOf(desired)) &&
 		current.array == desired.array
 }
 
+// Omitting the length means 1 for fixed-length types, and no limit otherwise
+func lengthOf(column Column) int {
+	if column.length != nil {
+		return column.length.intVal
+	}
+	switch column.typeName {
+	case "char", "character", "bit":
+		return 1
+	default:
+		return -1
+	}
+}
+
 // Omitting the scale means 0
 func scaleOf(column Column) int {
 	if column.scale == nil {
-- 
2.43.0


From 1b892c63545dca64bff971e94403d5830b9a3291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 41/85] fix: read the casts PostgreSQL shows in column defaults
 of any type

---
 sqlparser/parser.go | 5236 +++++++++++++++++++++----------------------
 sqlparser/parser.y  |    9 +-
 2 files changed, 2622 insertions(+), 2623 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 7e3ce27..e042c41 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -736,399 +736,386 @@ var yyExca = [...]int{
 	121, 104,
 	-2, 94,
 	-1, 36,
-	153, 416,
-	154, 416,
-	-2, 406,
+	153, 415,
+	154, 415,
+	-2, 405,
 	-1, 272,
+	109, 748,
+	-2, 744,
+	-1, 273,
 	109, 749,
 	-2, 745,
-	-1, 273,
-	109, 750,
-	-2, 746,
 	-1, 343,
-	80, 943,
+	80, 942,
 	-2, 58,
 	-1, 344,
-	80, 894,
+	80, 893,
 	-2, 59,
 	-1, 349,
-	80, 873,
-	-2, 716,
+	80, 872,
+	-2, 715,
 	-1, 351,
-	80, 917,
-	-2, 718,
+	80, 916,
+	-2, 717,
 	-1, 652,
 	51, 41,
 	53, 41,
 	-2, 43,
 	-1, 797,
-	109, 752,
-	-2, 748,
+	109, 751,
+	-2, 747,
 	-1, 1039,
 	5, 28,
-	-2, 551,
+	-2, 550,
 	-1, 1064,
 	5, 27,
-	-2, 690,
+	-2, 689,
 	-1, 1165,
 	5, 27,
 	-2, 64,
-	-1, 1382,
+	-1, 1383,
 	5, 28,
-	-2, 691,
+	-2, 690,
 	-1, 1465,
 	5, 27,
-	-2, 693,
-	-1, 1590,
+	-2, 692,
+	-1, 1591,
 	5, 28,
-	-2, 694,
+	-2, 693,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 14695
+const yyLast = 14697
 
 var yyAct = [...]int{
-	273, 1580, 1515, 1067, 1478, 974, 1475, 270, 729, 861,
-	498, 1597, 1098, 579, 1388, 1519, 1401, 1252, 1542, 578,
-	3, 1156, 1279, 464, 773, 302, 1280, 879, 1167, 1253,
-	1101, 276, 644, 903, 646, 89, 909, 277, 89, 1249,
-	1129, 902, 969, 1083, 982, 251, 862, 822, 923, 1123,
-	833, 53, 1031, 830, 266, 245, 348, 1225, 66, 735,
-	1072, 964, 89, 89, 353, 1153, 849, 250, 662, 353,
-	952, 918, 353, 353, 345, 799, 511, 517, 89, 462,
-	89, 648, 661, 858, 279, 633, 89, 942, 523, 330,
-	342, 275, 602, 1013, 328, 335, 260, 339, 337, 246,
-	247, 248, 249, 607, 531, 608, 1137, 939, 545, 52,
-	264, 555, 1661, 1305, 936, 832, 555, 1622, 1407, 329,
-	465, 466, 1292, 593, 1293, 1654, 1414, 1695, 1638, 1691,
-	86, 1588, 1535, 544, 543, 553, 554, 546, 547, 548,
-	549, 550, 551, 552, 545, 1121, 333, 555, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 338, 1547,
-	555, 1157, 1158, 1682, 975, 1626, 1647, 1637, 1244, 1373,
-	1611, 1376, 1546, 477, 1587, 478, 475, 1091, 1275, 1276,
-	1090, 485, 663, 1092, 664, 938, 1274, 539, 892, 542,
-	506, 1136, 48, 26, 27, 557, 558, 559, 560, 561,
-	562, 563, 898, 540, 541, 538, 544, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 893, 894,
-	555, 1431, 1430, 1133, 89, 1135, 1134, 764, 353, 353,
-	353, 353, 1139, 353, 765, 941, 953, 1506, 853, 1325,
-	353, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 1324, 1365, 555, 546, 547, 548, 549,
-	550, 551, 552, 545, 1363, 1454, 555, 353, 943, 244,
-	548, 549, 550, 551, 552, 545, 520, 965, 555, 1575,
-	1517, 737, 738, 1653, 1494, 1655, 491, 1565, 570, 571,
-	572, 573, 574, 575, 576, 465, 466, 1335, 1336, 1680,
-	736, 1125, 1126, 1127, 502, 503, 519, 514, 518, 1130,
-	1128, 299, 300, 84, 80, 81, 82, 556, 1690, 487,
-	1581, 1203, 556, 859, 536, 1340, 1582, 919, 89, 1462,
-	1372, 510, 1409, 1536, 1408, 89, 89, 89, 1115, 1114,
-	1341, 353, 920, 1404, 1419, 1286, 1103, 353, 1369, 510,
-	493, 345, 495, 556, 1418, 1669, 1349, 1526, 580, 566,
-	1421, 880, 882, 1287, 510, 480, 556, 591, 544, 543,
+	273, 1098, 1516, 1520, 1478, 1389, 1543, 1067, 1581, 974,
+	729, 302, 1279, 579, 1475, 277, 1402, 861, 773, 1252,
+	1280, 937, 1101, 578, 3, 1253, 879, 464, 1167, 674,
+	1249, 646, 903, 607, 608, 89, 969, 644, 89, 982,
+	1304, 909, 923, 1129, 276, 1123, 251, 53, 902, 862,
+	1083, 1225, 348, 833, 66, 735, 964, 1156, 822, 1031,
+	245, 1153, 89, 89, 353, 830, 849, 662, 918, 353,
+	517, 250, 353, 353, 1072, 799, 511, 661, 89, 832,
+	89, 462, 898, 858, 342, 633, 89, 602, 1013, 648,
+	330, 275, 531, 339, 337, 329, 1137, 52, 936, 328,
+	498, 523, 939, 1662, 246, 247, 248, 249, 593, 1305,
+	1623, 1292, 936, 264, 1408, 260, 553, 554, 546, 547,
+	548, 549, 550, 551, 552, 545, 496, 555, 555, 545,
+	465, 466, 555, 270, 925, 1293, 1655, 952, 1415, 1121,
+	1696, 1639, 1692, 1598, 1589, 1548, 1547, 1648, 932, 539,
+	921, 542, 1157, 1158, 1683, 975, 922, 557, 558, 559,
+	560, 561, 562, 563, 345, 540, 541, 538, 544, 543,
 	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	492, 494, 555, 1420, 470, 78, 544, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 1295, 1646,
-	555, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 1547, 1439, 555, 1586, 467, 966, 333,
-	953, 737, 738, 628, 946, 743, 556, 1120, 77, 1082,
-	78, 1081, 652, 1108, 476, 653, 881, 1080, 659, 595,
-	596, 597, 598, 599, 600, 601, 544, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 727, 223,
-	555, 556, 301, 49, 1106, 79, 83, 1204, 89, 1402,
-	1403, 1405, 556, 1200, 1686, 89, 1540, 89, 353, 1385,
-	89, 1132, 1136, 89, 556, 568, 569, 89, 1212, 353,
-	353, 353, 353, 353, 353, 353, 353, 1047, 919, 1025,
-	771, 535, 490, 353, 353, 486, 900, 899, 89, 768,
-	1008, 57, 528, 920, 1133, 1319, 1135, 1134, 530, 1558,
-	1208, 850, 1557, 353, 529, 528, 347, 89, 530, 919,
-	1556, 468, 1555, 353, 472, 473, 59, 60, 61, 62,
-	63, 530, 1554, 752, 920, 798, 796, 1553, 807, 808,
-	809, 810, 811, 812, 813, 814, 815, 816, 817, 818,
-	819, 820, 821, 728, 800, 776, 1320, 680, 1552, 676,
-	739, 1201, 740, 1199, 1550, 744, 1332, 353, 747, 806,
-	750, 1070, 665, 786, 787, 1246, 1202, 1493, 556, 1009,
-	1100, 732, 797, 804, 805, 803, 1207, 469, 1111, 75,
-	479, 837, 850, 766, 1054, 1044, 556, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 778, 1598,
-	555, 556, 785, 801, 842, 845, 525, 76, 89, 795,
-	851, 89, 89, 89, 89, 89, 580, 793, 1599, 840,
-	841, 510, 1496, 89, 1672, 1110, 89, 70, 73, 825,
-	89, 1492, 1671, 529, 528, 89, 89, 529, 528, 353,
-	827, 828, 71, 74, 1100, 837, 556, 863, 471, 345,
-	530, 474, 353, 1100, 530, 1652, 1651, 855, 847, 72,
-	68, 1650, 904, 482, 483, 484, 1099, 887, 327, 1600,
-	347, 347, 347, 347, 1551, 347, 529, 528, 838, 839,
-	50, 1596, 347, 1248, 846, 789, 791, 792, 1100, 1504,
-	802, 790, 1433, 530, 1432, 333, 333, 333, 333, 333,
-	897, 865, 866, 860, 868, 1301, 1648, 876, 353, 533,
-	333, 884, 353, 1162, 353, 89, 885, 89, 854, 333,
-	856, 857, 89, 890, 89, 774, 775, 89, 353, 889,
-	864, 888, 907, 867, 1022, 1023, 1024, 1424, 1160, 509,
-	1140, 1140, 954, 955, 956, 957, 463, 971, 1649, 521,
-	944, 945, 947, 948, 949, 1461, 950, 951, 823, 1043,
-	824, 1042, 796, 967, 968, 1370, 1423, 1428, 1351, 1548,
-	1140, 529, 528, 960, 961, 962, 1154, 963, 529, 528,
-	69, 1117, 1290, 347, 1289, 1288, 1180, 1109, 530, 667,
-	1093, 1226, 1028, 1029, 1030, 530, 21, 770, 1573, 1699,
-	1469, 1688, 1398, 1681, 1011, 1012, 556, 518, 797, 800,
-	981, 919, 986, 1398, 1660, 510, 914, 1003, 913, 1004,
-	915, 916, 1005, 977, 1228, 917, 920, 1398, 1659, 1568,
-	1014, 826, 769, 1015, 1398, 1645, 1567, 544, 543, 553,
-	554, 546, 547, 548, 549, 550, 551, 552, 545, 529,
-	528, 555, 255, 1573, 1644, 1511, 1181, 1177, 1064, 1027,
-	1182, 1179, 1178, 749, 353, 74, 530, 89, 801, 1085,
-	1038, 1087, 1641, 1640, 1633, 510, 1183, 1398, 1630, 1021,
-	1230, 748, 1176, 353, 1235, 1055, 1229, 1469, 1578, 1398,
-	1569, 1227, 733, 904, 353, 1053, 731, 1233, 488, 1086,
-	1469, 1502, 1469, 510, 1510, 353, 1469, 1470, 1077, 481,
-	1231, 1232, 1398, 1397, 89, 463, 1095, 1271, 510, 1505,
-	347, 1384, 510, 1425, 1116, 1328, 1327, 1036, 1234, 1236,
-	656, 347, 347, 347, 347, 347, 347, 347, 347, 1416,
-	1088, 1322, 1323, 1051, 1250, 347, 347, 1068, 1131, 1322,
-	1321, 333, 1037, 510, 630, 510, 353, 835, 510, 672,
-	671, 1312, 1574, 1159, 1573, 780, 1168, 1104, 1105, 1107,
-	657, 1069, 655, 1165, 1068, 533, 23, 54, 347, 835,
-	629, 635, 638, 639, 640, 636, 353, 637, 641, 89,
-	89, 1073, 1074, 1380, 50, 1141, 1142, 89, 1144, 1145,
-	1146, 630, 1464, 1215, 630, 1155, 353, 1415, 1161, 1069,
-	1331, 1049, 630, 1046, 1143, 1037, 1217, 1435, 1434, 829,
-	1221, 1222, 50, 1173, 1326, 1094, 1172, 1174, 23, 843,
-	843, 891, 1037, 1239, 1240, 843, 1242, 1243, 1241, 292,
-	291, 294, 295, 296, 297, 1037, 353, 353, 293, 298,
-	1068, 1062, 1251, 1048, 1063, 1045, 23, 556, 1612, 658,
-	1218, 1219, 886, 772, 655, 1256, 257, 1692, 1224, 1254,
-	1273, 1237, 843, 1658, 50, 353, 1635, 353, 353, 730,
-	863, 1571, 1238, 1245, 797, 904, 863, 904, 1570, 1247,
-	1259, 1562, 1213, 1561, 1523, 1261, 1503, 1448, 1220, 1260,
-	943, 347, 50, 970, 1262, 1263, 1311, 1310, 1264, 1308,
-	1278, 1266, 50, 1291, 347, 1298, 1277, 1272, 544, 543,
-	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	1265, 965, 555, 1122, 1296, 1147, 1131, 1149, 1150, 1151,
-	1152, 1294, 1163, 1164, 89, 353, 1097, 959, 1616, 1073,
-	1074, 1079, 89, 958, 1302, 65, 1543, 353, 1436, 1250,
-	1171, 1618, 1076, 746, 734, 507, 353, 303, 47, 784,
-	972, 1078, 873, 870, 347, 869, 347, 874, 89, 875,
-	1613, 639, 640, 1666, 353, 635, 638, 639, 640, 636,
-	347, 637, 641, 353, 1315, 871, 89, 1338, 1353, 1636,
-	872, 1307, 1309, 1217, 261, 262, 1211, 1010, 1356, 524,
-	1664, 1342, 1020, 1019, 347, 47, 512, 1449, 1148, 670,
-	1344, 1350, 522, 256, 489, 979, 1300, 513, 1354, 334,
-	1378, 774, 775, 745, 1347, 1446, 1299, 1170, 973, 1329,
-	643, 258, 259, 1352, 524, 1445, 353, 1337, 353, 353,
-	353, 89, 353, 1361, 1334, 1285, 252, 1018, 353, 1656,
-	777, 1529, 1391, 1392, 1393, 1017, 253, 54, 904, 1528,
-	1452, 1379, 1069, 1346, 983, 984, 985, 1284, 1283, 353,
-	333, 1406, 526, 1377, 1560, 1394, 1387, 1559, 1411, 1537,
-	580, 1095, 1113, 1413, 1358, 1359, 1410, 1360, 1396, 767,
-	56, 1362, 58, 1364, 1175, 1614, 1615, 1617, 1619, 1620,
-	1521, 7, 353, 353, 1339, 1131, 1522, 6, 834, 836,
-	353, 654, 1168, 904, 1313, 1314, 1084, 1316, 1317, 1318,
-	353, 51, 1412, 1417, 852, 1520, 5, 1, 556, 1441,
-	1437, 1442, 1443, 1444, 1518, 347, 1438, 1566, 1119, 1399,
-	1400, 1564, 67, 1440, 1625, 1572, 1102, 1455, 1456, 1304,
-	1457, 1458, 1459, 1333, 1169, 353, 353, 1112, 1184, 976,
-	1166, 991, 1427, 1579, 1429, 1593, 1476, 911, 901, 353,
-	461, 64, 1549, 1465, 878, 912, 1254, 910, 908, 353,
-	1463, 673, 937, 1138, 1491, 497, 497, 497, 497, 1495,
-	497, 940, 1474, 679, 1490, 1489, 677, 497, 678, 675,
-	1453, 681, 674, 1499, 231, 353, 353, 89, 347, 1497,
-	353, 1507, 340, 642, 47, 666, 527, 1198, 1197, 353,
-	987, 1206, 763, 1007, 505, 233, 564, 1512, 1016, 565,
-	1089, 346, 567, 1524, 1621, 1257, 516, 1527, 347, 1451,
-	353, 1052, 590, 848, 278, 788, 290, 496, 287, 289,
-	288, 1544, 1538, 779, 1061, 537, 1539, 268, 347, 577,
-	1254, 581, 582, 583, 584, 585, 586, 587, 588, 589,
-	332, 592, 594, 594, 594, 594, 594, 594, 594, 594,
-	347, 622, 623, 624, 625, 626, 634, 632, 1426, 631,
-	1075, 1071, 645, 331, 353, 843, 1214, 1375, 1258, 1084,
-	1534, 843, 1514, 783, 1576, 25, 55, 263, 19, 18,
-	17, 353, 20, 1584, 353, 16, 1577, 1589, 353, 15,
-	14, 1594, 29, 13, 12, 1563, 11, 347, 10, 347,
-	1281, 9, 353, 353, 1608, 8, 1601, 1602, 1603, 1604,
-	1605, 353, 353, 4, 353, 863, 1606, 1607, 254, 22,
-	2, 0, 353, 1583, 580, 1609, 1034, 1631, 0, 0,
-	1035, 1629, 0, 1623, 1624, 0, 0, 1039, 1040, 1041,
-	0, 0, 0, 0, 0, 1479, 1050, 0, 0, 0,
-	0, 1056, 0, 0, 1057, 1058, 1059, 1060, 1481, 1642,
-	1643, 0, 0, 0, 0, 1657, 0, 1330, 0, 1628,
-	1508, 0, 1509, 0, 0, 1663, 353, 1662, 0, 1343,
-	353, 0, 0, 0, 0, 0, 1668, 0, 1345, 0,
-	0, 0, 1670, 0, 0, 0, 0, 89, 1665, 353,
-	0, 0, 0, 1677, 1675, 497, 1348, 1678, 0, 0,
-	89, 0, 0, 1676, 0, 347, 497, 497, 497, 497,
-	497, 497, 497, 497, 1689, 0, 1480, 353, 0, 1685,
-	497, 497, 0, 353, 1687, 1696, 0, 1693, 0, 0,
-	0, 0, 1697, 0, 0, 0, 499, 500, 501, 0,
-	504, 0, 0, 0, 0, 0, 1679, 508, 1482, 1483,
-	1484, 1485, 1486, 1487, 1488, 0, 0, 0, 1389, 0,
-	1389, 1389, 1389, 0, 1395, 0, 0, 0, 0, 0,
-	347, 0, 544, 543, 553, 554, 546, 547, 548, 549,
-	550, 551, 552, 545, 1033, 47, 555, 0, 0, 0,
-	0, 1389, 0, 0, 0, 1684, 0, 0, 0, 581,
-	936, 0, 0, 0, 544, 543, 553, 554, 546, 547,
-	548, 549, 550, 551, 552, 545, 0, 997, 555, 0,
-	0, 1032, 925, 0, 347, 347, 1223, 0, 0, 0,
-	996, 0, 1447, 0, 0, 0, 932, 0, 921, 0,
-	0, 0, 1450, 0, 922, 0, 0, 0, 334, 334,
-	334, 334, 334, 0, 1479, 0, 0, 1001, 0, 0,
-	0, 0, 0, 645, 0, 883, 995, 1481, 0, 0,
-	0, 0, 334, 1270, 0, 1477, 0, 1467, 1468, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 1281, 0, 0, 0, 0, 515, 928, 0, 924,
-	933, 1498, 0, 0, 0, 0, 930, 929, 0, 0,
-	0, 0, 0, 0, 0, 992, 989, 990, 0, 988,
-	0, 0, 0, 0, 0, 0, 0, 1281, 1513, 0,
-	0, 87, 1516, 0, 243, 1480, 0, 0, 0, 1303,
-	0, 1389, 0, 0, 1125, 1126, 1127, 999, 1002, 497,
-	0, 497, 1130, 1128, 299, 300, 267, 0, 87, 87,
-	0, 0, 1541, 0, 0, 497, 0, 1482, 1483, 1484,
-	1485, 1486, 1487, 1488, 87, 0, 87, 0, 0, 0,
-	0, 0, 87, 0, 0, 742, 0, 0, 0, 0,
-	0, 0, 556, 0, 0, 0, 753, 754, 755, 756,
-	757, 758, 759, 760, 0, 0, 0, 0, 1355, 0,
-	761, 762, 994, 926, 1026, 1357, 1281, 0, 0, 927,
-	0, 0, 0, 0, 556, 0, 0, 1366, 1367, 1368,
-	843, 0, 1371, 1591, 603, 0, 1592, 0, 0, 0,
-	1595, 0, 0, 993, 0, 1381, 1382, 1383, 0, 1386,
-	0, 0, 0, 0, 1516, 1281, 0, 0, 0, 0,
-	0, 0, 0, 1281, 1281, 0, 1627, 605, 0, 934,
-	0, 935, 0, 1124, 1634, 0, 1065, 1066, 1125, 1126,
-	1127, 0, 998, 0, 931, 0, 1130, 1128, 299, 300,
-	0, 0, 0, 0, 1545, 0, 1422, 0, 1000, 0,
-	0, 0, 0, 0, 334, 0, 0, 0, 610, 611,
-	612, 613, 614, 615, 616, 617, 618, 619, 0, 0,
-	87, 0, 0, 0, 1132, 1136, 0, 0, 1281, 606,
-	0, 0, 1667, 0, 0, 0, 0, 620, 604, 1190,
-	0, 0, 0, 0, 609, 0, 0, 0, 0, 0,
-	0, 1389, 0, 0, 0, 0, 0, 1133, 0, 1135,
-	1134, 0, 0, 0, 0, 1460, 0, 0, 229, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 347,
-	0, 1471, 1472, 1473, 0, 1516, 0, 0, 0, 0,
-	0, 47, 239, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 1501, 0, 1191, 0, 0, 0, 0, 1193,
-	1186, 1187, 0, 1194, 1189, 1188, 0, 621, 1196, 1192,
-	0, 0, 0, 497, 87, 0, 0, 0, 0, 1195,
-	0, 87, 650, 87, 0, 1185, 0, 0, 0, 978,
-	0, 980, 0, 224, 0, 1530, 1531, 1532, 1533, 226,
-	0, 0, 0, 0, 0, 1006, 232, 228, 1132, 1136,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 1255, 0, 47, 0, 0, 230, 0, 0, 234,
-	0, 1133, 0, 1135, 1134, 0, 0, 0, 1267, 1268,
-	1269, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 1585, 0, 0, 0, 0, 1590,
-	0, 0, 0, 0, 1297, 23, 24, 48, 26, 27,
-	0, 0, 0, 0, 0, 0, 0, 225, 0, 0,
-	1306, 0, 0, 1610, 42, 0, 0, 0, 28, 0,
-	0, 0, 0, 0, 87, 0, 0, 0, 0, 1632,
-	0, 87, 0, 87, 0, 0, 87, 37, 0, 87,
-	0, 50, 0, 751, 0, 227, 0, 235, 236, 237,
-	238, 242, 0, 0, 0, 0, 241, 240, 0, 0,
-	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 87, 0, 0, 0, 0, 0, 0,
-	0, 0, 751, 334, 0, 0, 0, 0, 0, 0,
-	0, 30, 31, 33, 32, 35, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 1683, 0, 0,
-	0, 0, 1374, 0, 0, 36, 43, 44, 0, 0,
-	45, 46, 34, 0, 267, 0, 0, 0, 0, 267,
-	267, 0, 0, 844, 844, 267, 0, 1700, 1701, 844,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 38, 39, 0, 40, 41, 0,
-	0, 0, 0, 1205, 0, 0, 0, 0, 0, 267,
-	267, 267, 267, 0, 87, 0, 844, 87, 87, 87,
-	87, 87, 0, 0, 0, 0, 0, 0, 0, 877,
-	0, 0, 87, 0, 0, 0, 650, 0, 0, 0,
-	0, 87, 87, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 1255, 0,
-	0, 1466, 0, 0, 0, 0, 0, 0, 49, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 1500,
-	0, 87, 0, 87, 0, 0, 0, 0, 87, 0,
-	87, 0, 0, 87, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 703, 1525, 751, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	267, 0, 1255, 0, 47, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 267, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 688, 267, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 704, 0, 0, 0,
-	0, 0, 0, 87, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	1639, 0, 0, 0, 0, 0, 0, 610, 611, 612,
-	613, 614, 615, 616, 617, 618, 619, 0, 720, 721,
-	1118, 722, 723, 724, 726, 725, 705, 706, 707, 711,
-	709, 708, 710, 682, 684, 0, 620, 683, 689, 685,
-	686, 687, 701, 690, 691, 692, 693, 694, 695, 696,
-	697, 698, 699, 700, 702, 712, 713, 714, 715, 716,
-	717, 718, 719, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 1209, 1210, 0, 1694, 0,
-	0, 0, 0, 87, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 267, 0, 0, 621, 0, 0, 0,
-	0, 0, 0, 0, 267, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 751, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 844,
-	0, 0, 0, 0, 0, 844, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	938, 1627, 555, 1536, 544, 543, 553, 554, 546, 547,
+	548, 549, 550, 551, 552, 545, 1638, 1244, 555, 1612,
+	1588, 1377, 475, 1373, 510, 48, 26, 27, 1274, 928,
+	1091, 924, 933, 1090, 893, 894, 1092, 301, 930, 929,
+	1275, 1276, 892, 663, 89, 664, 506, 764, 353, 353,
+	353, 353, 1431, 353, 765, 491, 1430, 853, 1139, 941,
+	353, 544, 543, 553, 554, 546, 547, 548, 549, 550,
+	551, 552, 545, 953, 1326, 555, 546, 547, 548, 549,
+	550, 551, 552, 545, 1325, 1366, 555, 353, 1370, 510,
+	1576, 548, 549, 550, 551, 552, 545, 1454, 1364, 555,
+	520, 347, 244, 943, 465, 466, 468, 1136, 1518, 472,
+	473, 1494, 1479, 1566, 1654, 965, 1656, 737, 738, 493,
+	1691, 495, 519, 1336, 1337, 1481, 544, 543, 553, 554,
+	546, 547, 548, 549, 550, 551, 552, 545, 1681, 1133,
+	555, 1135, 1134, 279, 1582, 926, 502, 503, 89, 492,
+	494, 927, 1405, 556, 556, 89, 89, 89, 556, 1203,
+	859, 353, 736, 1341, 1583, 919, 1462, 353, 84, 80,
+	81, 82, 1410, 1409, 1115, 499, 500, 501, 1342, 504,
+	920, 1114, 1103, 1303, 1286, 57, 508, 1670, 1125, 1126,
+	1127, 1350, 1527, 1480, 1287, 1108, 1130, 1128, 299, 300,
+	1647, 934, 1295, 935, 1537, 333, 480, 1548, 556, 75,
+	59, 60, 61, 62, 63, 470, 931, 78, 1439, 880,
+	882, 77, 467, 78, 556, 1482, 1483, 1484, 1485, 1486,
+	1487, 1488, 743, 1082, 570, 571, 572, 573, 574, 575,
+	576, 1120, 1081, 476, 595, 596, 597, 598, 599, 600,
+	601, 653, 953, 1080, 659, 727, 966, 70, 73, 946,
+	919, 345, 1587, 223, 79, 347, 347, 347, 347, 1204,
+	347, 490, 71, 74, 1200, 920, 1687, 347, 1403, 1404,
+	1406, 556, 1541, 737, 738, 1386, 1190, 1613, 89, 72,
+	68, 1212, 556, 510, 881, 89, 49, 89, 353, 1106,
+	89, 568, 569, 89, 533, 556, 1047, 89, 1025, 353,
+	353, 353, 353, 353, 353, 353, 353, 680, 676, 771,
+	335, 83, 535, 353, 353, 486, 900, 899, 89, 1320,
+	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
+	552, 545, 1008, 353, 555, 768, 556, 89, 530, 479,
+	1208, 1191, 1477, 353, 1246, 86, 1193, 1186, 1187, 752,
+	1194, 1189, 1188, 1559, 919, 1196, 1192, 1558, 1132, 1136,
+	800, 1557, 1201, 1556, 1199, 528, 1195, 1617, 347, 920,
+	1321, 1044, 1185, 338, 667, 1555, 776, 1202, 529, 528,
+	1619, 530, 1554, 1553, 1551, 750, 1333, 353, 477, 806,
+	478, 1133, 1070, 1135, 1134, 530, 485, 665, 797, 1614,
+	69, 850, 1100, 804, 805, 803, 732, 850, 566, 1054,
+	1493, 1009, 842, 845, 742, 837, 1207, 525, 851, 529,
+	528, 1673, 482, 483, 484, 753, 754, 755, 756, 757,
+	758, 759, 760, 521, 795, 793, 530, 469, 89, 761,
+	762, 89, 89, 89, 89, 89, 796, 778, 76, 1672,
+	529, 528, 1653, 89, 825, 863, 89, 1248, 1652, 1111,
+	89, 1496, 1022, 1023, 1024, 89, 89, 530, 333, 353,
+	827, 828, 838, 839, 789, 791, 792, 1651, 846, 837,
+	790, 798, 353, 1100, 807, 808, 809, 810, 811, 812,
+	813, 814, 815, 816, 817, 818, 819, 820, 821, 855,
+	50, 847, 887, 1601, 1597, 347, 1110, 1492, 471, 327,
+	802, 474, 854, 1504, 856, 857, 347, 347, 347, 347,
+	347, 347, 347, 347, 1615, 1616, 1618, 1620, 1621, 1100,
+	347, 347, 865, 866, 487, 868, 864, 876, 353, 867,
+	556, 1649, 353, 1599, 353, 89, 885, 89, 890, 884,
+	780, 510, 89, 889, 89, 1549, 1433, 89, 353, 1099,
+	533, 1432, 1600, 347, 907, 774, 775, 529, 528, 345,
+	1424, 971, 1220, 1301, 1140, 1180, 1423, 509, 997, 1162,
+	1140, 1100, 904, 1650, 530, 823, 1160, 824, 967, 968,
+	1140, 996, 544, 543, 553, 554, 546, 547, 548, 549,
+	550, 551, 552, 545, 829, 1552, 555, 1461, 1428, 1352,
+	1154, 529, 528, 1117, 843, 843, 1290, 1289, 1001, 21,
+	843, 1574, 1700, 510, 1043, 800, 1042, 995, 530, 1469,
+	1689, 1399, 1682, 1569, 797, 1399, 1661, 1568, 628, 954,
+	955, 956, 957, 529, 528, 1181, 1177, 652, 770, 1182,
+	1179, 1178, 1288, 1014, 74, 1399, 1660, 843, 1399, 1646,
+	530, 1574, 1645, 1015, 1109, 1183, 1642, 1641, 978, 1093,
+	980, 1176, 801, 1021, 977, 255, 992, 989, 990, 826,
+	988, 749, 796, 769, 1006, 1512, 347, 1634, 510, 1027,
+	1399, 1631, 1064, 748, 353, 1469, 1579, 89, 733, 347,
+	529, 528, 731, 1085, 488, 1087, 1399, 1570, 999, 1002,
+	1469, 1502, 1511, 353, 1469, 510, 1505, 530, 1469, 1470,
+	1425, 1036, 1399, 1398, 353, 1053, 1271, 510, 1385, 510,
+	1329, 1328, 1323, 1324, 1086, 353, 481, 1051, 1323, 1322,
+	1037, 510, 656, 1116, 89, 1095, 630, 510, 1028, 1029,
+	1030, 23, 1077, 835, 510, 972, 672, 671, 1417, 347,
+	463, 347, 463, 23, 333, 333, 333, 333, 333, 1088,
+	1575, 1313, 1574, 994, 1062, 347, 1069, 1063, 728, 333,
+	1250, 1215, 657, 1068, 655, 739, 353, 740, 333, 1464,
+	744, 1131, 1068, 747, 1104, 1105, 1107, 50, 629, 347,
+	54, 1069, 1049, 886, 993, 655, 835, 1165, 1381, 50,
+	50, 23, 556, 904, 1046, 630, 353, 630, 766, 89,
+	89, 1416, 630, 1037, 1332, 919, 1327, 89, 1094, 1159,
+	914, 1155, 913, 1161, 915, 916, 353, 785, 1037, 917,
+	920, 891, 1068, 998, 1048, 1147, 1037, 1149, 1150, 1151,
+	1152, 658, 1172, 1174, 772, 784, 1045, 50, 1173, 1000,
+	292, 291, 294, 295, 296, 297, 1435, 1434, 1693, 293,
+	298, 942, 1659, 1079, 1636, 1572, 353, 353, 1571, 1563,
+	1562, 1524, 1503, 257, 1448, 1254, 1168, 943, 863, 970,
+	1251, 1312, 1141, 1142, 863, 1144, 1145, 1146, 1219, 1256,
+	1311, 1224, 1218, 1309, 1273, 353, 1238, 353, 353, 1245,
+	797, 1084, 1237, 543, 553, 554, 546, 547, 548, 549,
+	550, 551, 552, 545, 1226, 1260, 555, 1259, 1261, 50,
+	347, 1298, 1265, 1163, 1164, 730, 1217, 801, 860, 1278,
+	965, 1102, 1205, 1272, 1122, 1097, 959, 1291, 1073, 1074,
+	1544, 958, 1112, 1277, 65, 1436, 1250, 1228, 1241, 1171,
+	1076, 746, 734, 507, 873, 1294, 888, 1296, 871, 874,
+	1078, 870, 869, 872, 89, 353, 1221, 1222, 1667, 1131,
+	1302, 1306, 89, 261, 262, 266, 1479, 353, 1637, 1239,
+	1240, 1211, 1242, 1243, 1010, 875, 353, 639, 640, 1481,
+	1665, 1020, 524, 347, 1019, 904, 1148, 904, 89, 670,
+	512, 489, 1300, 1230, 353, 522, 1379, 1235, 1449, 1229,
+	333, 513, 1339, 353, 1227, 979, 89, 774, 775, 745,
+	1233, 1446, 1354, 347, 1314, 1315, 1299, 1317, 1318, 1319,
+	1170, 973, 643, 1231, 1232, 981, 1343, 986, 258, 259,
+	524, 1018, 1003, 347, 1004, 1345, 1351, 1005, 1445, 1017,
+	1335, 1234, 1236, 1355, 1285, 252, 1657, 1480, 1530, 1348,
+	253, 54, 1529, 1452, 1069, 347, 353, 1362, 353, 353,
+	353, 89, 353, 1392, 1393, 1394, 1284, 1283, 353, 526,
+	843, 1316, 1380, 1258, 1084, 1561, 843, 1560, 777, 1482,
+	1483, 1484, 1485, 1486, 1487, 1488, 1538, 1412, 1113, 353,
+	767, 1407, 1395, 56, 1414, 1522, 7, 1388, 1523, 6,
+	1095, 1124, 347, 1217, 347, 1281, 1125, 1126, 1127, 1397,
+	1411, 58, 556, 1175, 1130, 1128, 299, 300, 1441, 1340,
+	1442, 1443, 1444, 353, 353, 1419, 983, 984, 985, 680,
+	676, 353, 1440, 1521, 5, 654, 834, 836, 1131, 1418,
+	51, 353, 1, 1519, 1357, 1567, 1119, 1565, 67, 1626,
+	1573, 1437, 852, 1334, 1169, 1184, 1438, 976, 1166, 635,
+	638, 639, 640, 636, 991, 637, 641, 1580, 904, 1073,
+	1074, 1594, 1331, 1476, 911, 901, 353, 353, 461, 64,
+	1550, 912, 910, 1254, 1344, 908, 673, 1138, 940, 1426,
+	353, 679, 677, 1346, 1491, 303, 47, 1463, 1465, 1495,
+	353, 678, 878, 675, 681, 231, 1546, 340, 642, 1490,
+	1489, 1349, 1474, 666, 527, 1198, 1197, 987, 514, 518,
+	347, 1206, 1497, 1168, 904, 353, 353, 89, 1499, 763,
+	353, 1506, 1507, 1508, 1007, 536, 505, 1513, 233, 353,
+	564, 1016, 1089, 47, 1525, 346, 1622, 1257, 516, 1528,
+	1427, 256, 1429, 1451, 1052, 590, 848, 334, 278, 788,
+	353, 635, 638, 639, 640, 636, 1254, 637, 641, 580,
+	290, 1545, 287, 1390, 1539, 1390, 1390, 1390, 591, 1396,
+	1540, 289, 288, 779, 1061, 347, 1132, 1136, 1453, 537,
+	268, 332, 626, 634, 1455, 1456, 632, 1457, 1458, 1459,
+	1509, 631, 1510, 1075, 1071, 331, 1390, 1213, 1214, 1376,
+	1535, 783, 25, 1577, 55, 353, 263, 19, 18, 1133,
+	17, 1135, 1134, 20, 16, 15, 14, 1578, 29, 333,
+	13, 12, 353, 11, 1585, 353, 10, 9, 8, 353,
+	347, 347, 1595, 4, 863, 254, 1590, 22, 1447, 2,
+	0, 0, 0, 353, 353, 1609, 0, 0, 1450, 0,
+	0, 0, 353, 353, 0, 353, 1610, 1607, 1608, 0,
+	1630, 0, 0, 353, 1624, 1625, 0, 0, 0, 0,
+	1632, 0, 0, 0, 1034, 0, 0, 0, 1035, 0,
+	0, 0, 0, 1467, 1468, 1039, 1040, 1041, 0, 1643,
+	1644, 0, 0, 0, 1050, 0, 0, 1281, 0, 1056,
+	0, 0, 1057, 1058, 1059, 1060, 0, 1498, 0, 0,
+	1658, 0, 0, 497, 497, 497, 497, 353, 497, 0,
+	0, 353, 1663, 1664, 0, 497, 0, 1669, 0, 1666,
+	0, 0, 1281, 1514, 0, 0, 0, 1517, 89, 0,
+	353, 1671, 47, 0, 1330, 1677, 1390, 0, 1678, 0,
+	0, 89, 1338, 1676, 0, 0, 1679, 565, 1686, 0,
+	567, 0, 0, 1688, 0, 0, 0, 1542, 353, 0,
+	0, 0, 0, 1690, 353, 0, 1697, 0, 1347, 1602,
+	1603, 1604, 1605, 1606, 786, 787, 0, 577, 0, 581,
+	582, 583, 584, 585, 586, 587, 588, 589, 0, 592,
+	594, 594, 594, 594, 594, 594, 594, 594, 0, 622,
+	623, 624, 625, 0, 0, 515, 0, 0, 0, 0,
+	645, 0, 1281, 0, 944, 945, 947, 948, 949, 0,
+	950, 951, 0, 0, 0, 0, 843, 580, 0, 1592,
+	840, 841, 1593, 0, 0, 0, 1596, 960, 961, 962,
+	87, 963, 0, 243, 0, 1125, 1126, 1127, 0, 0,
+	1517, 1281, 0, 1130, 1128, 299, 300, 0, 1694, 1281,
+	1281, 0, 1628, 0, 0, 267, 0, 87, 87, 0,
+	1635, 0, 0, 0, 1223, 0, 0, 0, 0, 0,
+	0, 0, 0, 87, 0, 87, 0, 0, 0, 0,
+	0, 87, 0, 0, 0, 0, 0, 0, 0, 1698,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	1374, 897, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 1270, 0, 0, 1281, 0, 0, 0, 1668, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1390, 0, 0,
+	0, 0, 0, 497, 0, 0, 0, 0, 1371, 0,
+	0, 0, 0, 0, 497, 497, 497, 497, 497, 497,
+	497, 497, 0, 0, 0, 347, 0, 0, 497, 497,
+	0, 1517, 544, 543, 553, 554, 546, 547, 548, 549,
+	550, 551, 552, 545, 0, 703, 555, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1515, 0, 0,
+	0, 0, 0, 0, 0, 1011, 1012, 0, 518, 0,
+	0, 1421, 0, 0, 0, 1132, 1136, 0, 0, 87,
+	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
+	552, 545, 0, 47, 555, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 1356, 581, 1133, 0,
+	1135, 1134, 0, 1358, 0, 0, 0, 0, 0, 0,
+	0, 0, 688, 0, 0, 1367, 1368, 1369, 1143, 0,
+	1372, 1038, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 1382, 1383, 1384, 1055, 1387, 0, 0,
+	0, 0, 0, 0, 0, 704, 334, 334, 334, 334,
+	334, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 645, 0, 883, 0, 0, 0, 0, 0, 0,
+	334, 0, 0, 87, 0, 0, 0, 0, 0, 0,
+	87, 650, 87, 0, 0, 1422, 610, 611, 612, 613,
+	614, 615, 616, 617, 618, 619, 0, 720, 721, 0,
+	722, 723, 724, 726, 725, 705, 706, 707, 711, 709,
+	708, 710, 682, 684, 0, 620, 683, 689, 685, 686,
+	687, 701, 690, 691, 692, 693, 694, 695, 696, 697,
+	698, 699, 700, 702, 712, 713, 714, 715, 716, 717,
+	718, 719, 556, 0, 0, 1420, 0, 497, 0, 497,
+	0, 0, 0, 0, 1460, 0, 0, 0, 0, 0,
+	0, 0, 0, 497, 0, 0, 0, 0, 0, 0,
+	1471, 1472, 1473, 0, 0, 0, 0, 0, 0, 0,
+	0, 1685, 0, 0, 0, 0, 0, 0, 0, 0,
+	556, 1501, 0, 0, 0, 621, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1308, 1310, 0, 0, 0,
+	0, 0, 1026, 87, 0, 0, 0, 0, 0, 0,
+	87, 0, 87, 0, 0, 87, 0, 0, 87, 0,
+	0, 0, 751, 1531, 1532, 1533, 1534, 0, 0, 0,
+	1247, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 87, 0, 1262, 1263, 0, 0, 1264,
+	0, 0, 1266, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 87, 0, 1065, 1066, 0, 0, 0, 0,
+	0, 751, 544, 543, 553, 554, 546, 547, 548, 549,
+	550, 551, 552, 545, 0, 0, 555, 0, 1359, 1360,
+	0, 1361, 334, 0, 0, 1363, 0, 1365, 0, 0,
+	0, 0, 0, 1586, 0, 0, 0, 0, 1591, 0,
+	0, 0, 0, 267, 0, 0, 0, 0, 267, 267,
+	0, 1032, 844, 844, 267, 0, 0, 0, 844, 0,
+	0, 0, 1611, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 1400, 1401, 0, 0, 0, 1633, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 267, 267,
+	267, 267, 0, 87, 0, 844, 87, 87, 87, 87,
+	87, 0, 1033, 0, 0, 0, 0, 0, 877, 47,
+	0, 87, 0, 0, 1353, 650, 0, 0, 0, 0,
+	87, 87, 544, 543, 553, 554, 546, 547, 548, 549,
+	550, 551, 552, 545, 0, 0, 555, 0, 0, 0,
+	0, 497, 544, 543, 553, 554, 546, 547, 548, 549,
+	550, 551, 552, 545, 1378, 229, 555, 0, 0, 0,
+	0, 580, 0, 0, 0, 0, 1684, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 239,
+	603, 0, 0, 0, 0, 23, 24, 48, 26, 27,
+	0, 0, 0, 0, 0, 0, 1701, 1702, 0, 1255,
+	87, 47, 87, 1413, 42, 0, 0, 87, 28, 87,
+	0, 0, 87, 605, 0, 0, 1267, 1268, 1269, 0,
+	0, 0, 556, 0, 0, 0, 0, 37, 0, 0,
+	224, 50, 0, 0, 0, 0, 226, 751, 0, 0,
+	0, 0, 0, 232, 228, 0, 0, 0, 0, 267,
+	0, 0, 1297, 0, 610, 611, 612, 613, 614, 615,
+	616, 617, 618, 619, 0, 0, 0, 0, 1307, 0,
+	0, 0, 0, 230, 0, 606, 234, 0, 0, 0,
+	0, 0, 0, 620, 604, 0, 0, 0, 0, 0,
+	609, 30, 31, 33, 32, 35, 0, 267, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 267, 0, 36, 43, 44, 0, 0,
+	45, 46, 34, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 225, 0, 0, 0, 0, 0,
+	0, 0, 556, 0, 0, 0, 0, 0, 0, 0,
+	0, 334, 87, 0, 38, 39, 0, 40, 41, 0,
+	0, 0, 556, 621, 0, 0, 0, 0, 0, 0,
+	0, 0, 227, 0, 235, 236, 237, 238, 242, 0,
+	1375, 0, 0, 241, 240, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 1118,
+	0, 0, 0, 0, 0, 0, 1564, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1584, 580, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 49, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 1209, 1210, 0, 0, 0, 0,
+	0, 1629, 87, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 267, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 267, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 751, 0, 0, 0, 1255, 0, 0,
+	1466, 0, 0, 0, 0, 0, 0, 0, 844, 0,
+	0, 0, 0, 0, 844, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1500, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1680, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1526, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	1255, 0, 47, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 87,
+	0, 0, 0, 0, 0, 0, 0, 87, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 154, 0, 92, 0, 0,
+	274, 0, 0, 87, 116, 271, 0, 0, 130, 313,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 304,
+	305, 87, 0, 0, 0, 0, 0, 895, 0, 50,
+	0, 0, 272, 292, 291, 294, 295, 296, 297, 0,
+	0, 105, 293, 298, 299, 300, 896, 0, 0, 269,
+	285, 0, 312, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 1640,
+	0, 0, 282, 283, 0, 0, 650, 0, 325, 0,
+	284, 0, 0, 280, 281, 286, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 323, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 1695, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 87, 169, 107, 195, 175, 314, 324, 320,
+	321, 318, 319, 317, 316, 315, 326, 306, 307, 308,
+	309, 311, 0, 125, 310, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 170, 0, 322, 104,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	87, 0, 0, 0, 0, 0, 0, 0, 87, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 87, 0, 0, 0, 0, 0, 449, 439,
-	0, 408, 451, 381, 397, 459, 399, 400, 430, 365,
-	416, 154, 394, 92, 384, 358, 391, 359, 382, 410,
-	116, 380, 441, 419, 130, 457, 133, 424, 0, 176,
-	142, 0, 0, 412, 443, 414, 436, 407, 431, 372,
-	423, 452, 395, 427, 453, 0, 0, 650, 352, 0,
-	905, 906, 0, 0, 0, 0, 0, 105, 0, 426,
-	448, 393, 460, 429, 357, 425, 0, 363, 366, 458,
-	446, 388, 389, 1096, 0, 0, 0, 0, 0, 0,
-	411, 415, 433, 404, 0, 0, 0, 0, 0, 0,
-	0, 0, 385, 0, 422, 0, 0, 0, 369, 364,
-	0, 409, 0, 0, 0, 371, 0, 386, 434, 0,
-	354, 438, 444, 406, 203, 447, 403, 402, 161, 0,
-	108, 0, 182, 120, 396, 131, 432, 450, 413, 442,
-	383, 392, 110, 390, 168, 155, 194, 421, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 362, 355, 387, 437, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 87, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 360, 0, 177, 196, 214, 215,
-	361, 379, 445, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 428, 169,
-	107, 195, 175, 375, 378, 373, 374, 417, 418, 454,
-	455, 456, 435, 370, 0, 376, 377, 0, 440, 125,
-	420, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	398, 356, 401, 0, 0, 0, 0, 0, 0, 0,
-	367, 368, 170, 405, 0, 104, 0, 0, 0, 0,
 	0, 0, 0, 0, 844, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 449, 439, 0, 408, 451,
 	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
@@ -1138,10 +1125,10 @@ var yyAct = [...]int{
 	427, 453, 0, 0, 0, 352, 0, 905, 906, 0,
 	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
 	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
-	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
+	1096, 0, 0, 0, 0, 0, 0, 411, 415, 433,
 	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
 	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
-	0, 0, 371, 1674, 386, 434, 0, 354, 438, 444,
+	0, 0, 371, 1675, 386, 434, 0, 354, 438, 444,
 	406, 203, 447, 403, 402, 161, 87, 108, 0, 182,
 	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
 	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
@@ -1166,11 +1153,11 @@ var yyAct = [...]int{
 	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
 	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
 	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
-	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 905, 906, 0, 0, 0,
 	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
 	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
 	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
-	0, 0, 0, 0, 0, 1216, 0, 385, 0, 422,
+	0, 0, 0, 0, 0, 0, 0, 385, 0, 422,
 	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
 	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
 	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
@@ -1196,12 +1183,12 @@ var yyAct = [...]int{
 	400, 430, 365, 416, 154, 394, 92, 384, 358, 391,
 	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
 	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
-	407, 431, 372, 423, 452, 395, 427, 453, 50, 0,
+	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
 	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
 	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
 	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
 	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
-	0, 0, 0, 0, 0, 385, 0, 422, 0, 0,
+	0, 0, 0, 1216, 0, 385, 0, 422, 0, 0,
 	0, 369, 364, 0, 409, 0, 0, 0, 371, 0,
 	386, 434, 0, 354, 438, 444, 406, 203, 447, 403,
 	402, 161, 0, 108, 0, 182, 120, 396, 131, 432,
@@ -1227,12 +1214,12 @@ var yyAct = [...]int{
 	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
 	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
 	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
-	372, 423, 452, 395, 427, 453, 0, 0, 0, 272,
+	372, 423, 452, 395, 427, 453, 50, 0, 0, 352,
 	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
 	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
 	0, 411, 415, 433, 404, 0, 0, 0, 0, 0,
-	0, 794, 0, 385, 0, 422, 0, 0, 0, 369,
+	0, 0, 0, 385, 0, 422, 0, 0, 0, 369,
 	364, 0, 409, 0, 0, 0, 371, 0, 386, 434,
 	0, 354, 438, 444, 406, 203, 447, 403, 402, 161,
 	0, 108, 0, 182, 120, 396, 131, 432, 450, 413,
@@ -1258,11 +1245,11 @@ var yyAct = [...]int{
 	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
 	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
 	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 0, 0, 0, 352, 0, 0,
+	452, 395, 427, 453, 0, 0, 0, 272, 0, 0,
 	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
 	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
 	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
-	415, 433, 404, 0, 0, 0, 0, 0, 0, 0,
+	415, 433, 404, 0, 0, 0, 0, 0, 0, 794,
 	0, 385, 0, 422, 0, 0, 0, 369, 364, 0,
 	409, 0, 0, 0, 371, 0, 386, 434, 0, 354,
 	438, 444, 406, 203, 447, 403, 402, 161, 0, 108,
@@ -1289,7 +1276,7 @@ var yyAct = [...]int{
 	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
 	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
 	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
-	427, 453, 0, 0, 0, 272, 0, 0, 0, 0,
+	427, 453, 0, 0, 0, 352, 0, 0, 0, 0,
 	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
 	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
 	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
@@ -1320,7 +1307,7 @@ var yyAct = [...]int{
 	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
 	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
 	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
-	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 272, 0, 0, 0, 0, 0, 0,
 	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
 	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
 	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
@@ -1335,12 +1322,12 @@ var yyAct = [...]int{
 	355, 387, 437, 93, 183, 192, 106, 172, 96, 190,
 	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
 	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 350, 199,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
 	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
 	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
 	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
 	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
-	208, 209, 0, 0, 0, 351, 349, 124, 173, 128,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
 	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
 	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
 	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
@@ -1351,7 +1338,7 @@ var yyAct = [...]int{
 	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
 	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
 	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
 	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
 	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
 	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
@@ -1366,12 +1353,12 @@ var yyAct = [...]int{
 	437, 93, 183, 192, 106, 172, 96, 190, 179, 181,
 	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
 	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	112, 178, 101, 200, 201, 98, 350, 199, 148, 153,
 	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
 	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
 	144, 146, 0, 150, 123, 0, 0, 360, 0, 177,
 	196, 214, 215, 361, 379, 445, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	0, 0, 0, 351, 349, 124, 173, 128, 135, 164,
 	212, 428, 169, 107, 195, 175, 375, 378, 373, 374,
 	417, 418, 454, 455, 456, 435, 370, 0, 376, 377,
 	0, 440, 125, 420, 91, 99, 132, 210, 211, 0,
@@ -1381,7 +1368,7 @@ var yyAct = [...]int{
 	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
 	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
 	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
-	372, 423, 452, 395, 427, 453, 0, 0, 0, 352,
+	372, 423, 452, 395, 427, 453, 0, 0, 0, 88,
 	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
 	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
@@ -1394,15 +1381,15 @@ var yyAct = [...]int{
 	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
 	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
 	218, 219, 220, 221, 222, 362, 355, 387, 437, 93,
-	183, 660, 106, 172, 96, 190, 179, 181, 140, 126,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
 	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
 	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 350, 199, 148, 153, 151, 198,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
 	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
 	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
 	0, 150, 123, 0, 0, 360, 0, 177, 196, 214,
 	215, 361, 379, 445, 206, 207, 208, 209, 0, 0,
-	0, 351, 349, 124, 173, 128, 135, 164, 212, 428,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 428,
 	169, 107, 195, 175, 375, 378, 373, 374, 417, 418,
 	454, 455, 456, 435, 370, 0, 376, 377, 0, 440,
 	125, 420, 91, 99, 132, 210, 211, 0, 163, 118,
@@ -1424,7 +1411,7 @@ var yyAct = [...]int{
 	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
 	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
 	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 362, 355, 387, 437, 93, 183, 341,
+	220, 221, 222, 362, 355, 387, 437, 93, 183, 660,
 	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
 	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
 	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
@@ -1433,127 +1420,43 @@ var yyAct = [...]int{
 	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
 	123, 0, 0, 360, 0, 177, 196, 214, 215, 361,
 	379, 445, 206, 207, 208, 209, 0, 0, 0, 351,
-	349, 344, 343, 128, 135, 164, 212, 428, 169, 107,
+	349, 124, 173, 128, 135, 164, 212, 428, 169, 107,
 	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
 	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
 	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
 	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
-	368, 170, 405, 154, 104, 92, 0, 0, 274, 0,
-	0, 0, 116, 271, 0, 0, 130, 313, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 304, 305, 0,
-	0, 0, 0, 0, 0, 895, 0, 50, 0, 0,
-	272, 292, 291, 294, 295, 296, 297, 0, 0, 105,
-	293, 298, 299, 300, 896, 0, 0, 269, 285, 0,
-	312, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	282, 283, 0, 0, 0, 0, 325, 0, 284, 0,
-	0, 280, 281, 286, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 323,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 314, 324, 320, 321, 318,
-	319, 317, 316, 315, 326, 306, 307, 308, 309, 311,
-	0, 125, 310, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
-	154, 0, 92, 831, 170, 274, 322, 104, 0, 116,
-	271, 0, 0, 130, 313, 133, 0, 0, 176, 142,
-	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
-	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
-	294, 295, 296, 297, 0, 0, 105, 293, 298, 299,
-	300, 0, 0, 0, 269, 285, 0, 312, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 282, 283, 265,
-	0, 0, 0, 325, 0, 284, 0, 0, 280, 281,
-	286, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 323, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
-	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
-	0, 170, 274, 322, 104, 0, 116, 271, 0, 0,
-	130, 313, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 304, 305, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 510, 272, 292, 291, 294, 295, 296,
-	297, 0, 0, 105, 293, 298, 299, 300, 0, 0,
-	0, 269, 285, 0, 312, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 282, 283, 0, 0, 0, 0,
-	325, 0, 284, 0, 0, 280, 281, 286, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 323, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 314,
-	324, 320, 321, 318, 319, 317, 316, 315, 326, 306,
-	307, 308, 309, 311, 0, 125, 310, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
-	0, 0, 0, 0, 154, 0, 92, 0, 170, 274,
-	322, 104, 0, 116, 271, 0, 0, 130, 313, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 304, 305,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 272, 292, 291, 294, 295, 296, 297, 0, 0,
-	105, 293, 298, 299, 300, 0, 0, 0, 269, 285,
-	0, 312, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 282, 283, 265, 0, 0, 0, 325, 0, 284,
-	0, 0, 280, 281, 286, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	323, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 314, 324, 320, 321,
-	318, 319, 317, 316, 315, 326, 306, 307, 308, 309,
-	311, 0, 125, 310, 91, 99, 132, 210, 211, 23,
-	163, 118, 197, 0, 0, 0, 0, 0, 0, 0,
-	0, 154, 0, 92, 0, 170, 274, 322, 104, 0,
+	368, 170, 405, 0, 104, 449, 439, 0, 408, 451,
+	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
+	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
+	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
+	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
+	427, 453, 0, 0, 0, 352, 0, 0, 0, 0,
+	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
+	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
+	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
+	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
+	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
+	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
+	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
+	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
+	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
+	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
+	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
+	222, 362, 355, 387, 437, 93, 183, 341, 106, 172,
+	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
+	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
+	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
+	350, 199, 148, 153, 151, 198, 185, 191, 141, 138,
+	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
+	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
+	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
+	206, 207, 208, 209, 0, 0, 0, 351, 349, 344,
+	343, 128, 135, 164, 212, 428, 169, 107, 195, 175,
+	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
+	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
+	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
+	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
+	405, 154, 104, 92, 831, 0, 274, 0, 0, 0,
 	116, 271, 0, 0, 130, 313, 133, 0, 0, 176,
 	142, 0, 0, 0, 0, 304, 305, 0, 0, 0,
 	0, 0, 0, 0, 0, 50, 0, 0, 272, 292,
@@ -1561,7 +1464,7 @@ var yyAct = [...]int{
 	299, 300, 0, 0, 0, 269, 285, 0, 312, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 282, 283,
-	0, 0, 0, 0, 325, 0, 284, 0, 0, 280,
+	265, 0, 0, 0, 325, 0, 284, 0, 0, 280,
 	281, 286, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 203, 0, 0, 323, 161, 0,
 	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
@@ -1585,7 +1488,7 @@ var yyAct = [...]int{
 	92, 0, 170, 274, 322, 104, 0, 116, 271, 0,
 	0, 130, 313, 133, 0, 0, 176, 142, 0, 0,
 	0, 0, 304, 305, 0, 0, 0, 0, 0, 0,
-	0, 0, 50, 0, 0, 272, 292, 291, 294, 295,
+	0, 0, 50, 0, 510, 272, 292, 291, 294, 295,
 	296, 297, 0, 0, 105, 293, 298, 299, 300, 0,
 	0, 0, 269, 285, 0, 312, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
@@ -1610,19 +1513,190 @@ var yyAct = [...]int{
 	314, 324, 320, 321, 318, 319, 317, 316, 315, 326,
 	306, 307, 308, 309, 311, 0, 125, 310, 91, 99,
 	132, 210, 211, 0, 163, 118, 197, 0, 0, 0,
-	0, 154, 0, 92, 0, 0, 0, 0, 0, 170,
-	116, 322, 104, 0, 130, 313, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 304, 305, 0, 0, 0,
-	0, 0, 0, 0, 0, 50, 0, 0, 272, 292,
-	291, 294, 295, 296, 297, 0, 0, 105, 293, 298,
-	299, 300, 0, 0, 0, 0, 285, 0, 312, 0,
+	0, 0, 0, 0, 0, 154, 0, 92, 0, 170,
+	274, 322, 104, 0, 116, 271, 0, 0, 130, 313,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 304,
+	305, 0, 0, 0, 0, 0, 0, 0, 0, 50,
+	0, 0, 272, 292, 291, 294, 295, 296, 297, 0,
+	0, 105, 293, 298, 299, 300, 0, 0, 0, 269,
+	285, 0, 312, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 282, 283, 265, 0, 0, 0, 325, 0,
+	284, 0, 0, 280, 281, 286, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 323, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 314, 324, 320,
+	321, 318, 319, 317, 316, 315, 326, 306, 307, 308,
+	309, 311, 0, 125, 310, 91, 99, 132, 210, 211,
+	23, 163, 118, 197, 0, 0, 0, 0, 0, 0,
+	0, 0, 154, 0, 92, 0, 170, 274, 322, 104,
+	0, 116, 271, 0, 0, 130, 313, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 304, 305, 0, 0,
+	0, 0, 0, 0, 0, 0, 50, 0, 0, 272,
+	292, 291, 294, 295, 296, 297, 0, 0, 105, 293,
+	298, 299, 300, 0, 0, 0, 269, 285, 0, 312,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 282,
+	283, 0, 0, 0, 0, 325, 0, 284, 0, 0,
+	280, 281, 286, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 323, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 314, 324, 320, 321, 318, 319,
+	317, 316, 315, 326, 306, 307, 308, 309, 311, 0,
+	125, 310, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 0, 0, 0, 0, 0, 0, 0, 154,
+	0, 92, 0, 170, 274, 322, 104, 0, 116, 271,
+	0, 0, 130, 313, 133, 0, 0, 176, 142, 0,
+	0, 0, 0, 304, 305, 0, 0, 0, 0, 0,
+	0, 0, 0, 50, 0, 0, 272, 292, 291, 294,
+	295, 296, 297, 0, 0, 105, 293, 298, 299, 300,
+	0, 0, 0, 269, 285, 0, 312, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 282, 283, 0, 0,
+	0, 0, 325, 0, 284, 0, 0, 280, 281, 286,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 323, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 314, 324, 320, 321, 318, 319, 317, 316, 315,
+	326, 306, 307, 308, 309, 311, 0, 125, 310, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
+	0, 0, 154, 0, 92, 0, 0, 0, 0, 0,
+	170, 116, 322, 104, 0, 130, 313, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 304, 305, 0, 0,
+	0, 0, 0, 0, 0, 0, 50, 0, 0, 272,
+	292, 291, 294, 295, 296, 297, 0, 0, 105, 293,
+	298, 299, 300, 0, 0, 0, 0, 285, 0, 312,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 282,
+	283, 0, 0, 0, 0, 325, 0, 284, 0, 0,
+	280, 281, 286, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 323, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 1699, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 314, 324, 320, 321, 318, 319,
+	317, 316, 315, 326, 306, 307, 308, 309, 311, 0,
+	125, 310, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 0, 0, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 170, 116, 322, 104, 0, 130, 313,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 304,
+	305, 0, 0, 0, 0, 0, 0, 0, 0, 50,
+	0, 0, 272, 292, 291, 294, 295, 296, 297, 0,
+	0, 105, 293, 298, 299, 300, 0, 0, 0, 0,
+	285, 0, 312, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 282, 283, 0, 0, 0, 0, 325, 0,
+	284, 0, 0, 280, 281, 286, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 323, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 314, 324, 320,
+	321, 318, 319, 317, 316, 315, 326, 306, 307, 308,
+	309, 311, 0, 125, 310, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 0, 0, 0, 154, 0,
+	92, 0, 0, 0, 0, 0, 170, 116, 322, 104,
+	0, 130, 0, 133, 0, 0, 176, 142, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 352, 0, 0, 0, 0,
+	0, 0, 0, 0, 105, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 544, 543, 553, 554, 546, 547, 548, 549, 550,
+	551, 552, 545, 0, 0, 555, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 203, 0, 0, 0, 161, 0, 108, 0, 182,
+	120, 0, 131, 0, 0, 0, 0, 0, 0, 110,
+	0, 168, 155, 194, 0, 156, 166, 134, 186, 162,
+	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
+	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
+	222, 0, 0, 0, 0, 93, 183, 192, 106, 172,
+	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
+	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
+	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
+	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
+	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
+	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
+	0, 0, 0, 177, 196, 214, 215, 0, 0, 0,
+	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
+	173, 128, 135, 164, 212, 0, 169, 107, 195, 175,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 282, 283,
-	0, 0, 0, 0, 325, 0, 284, 0, 0, 280,
-	281, 286, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 203, 0, 0, 323, 161, 0,
+	0, 0, 0, 0, 0, 0, 125, 0, 91, 99,
+	132, 210, 211, 0, 163, 118, 197, 0, 0, 0,
+	0, 154, 0, 92, 0, 532, 0, 0, 0, 170,
+	116, 556, 104, 0, 130, 0, 133, 0, 0, 176,
+	142, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 352, 0,
+	534, 0, 0, 0, 0, 0, 0, 105, 0, 0,
+	0, 0, 0, 529, 528, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	530, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 203, 0, 0, 0, 161, 0,
 	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 1698, 156, 166,
+	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
 	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
 	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
 	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
@@ -1635,642 +1709,568 @@ var yyAct = [...]int{
 	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
 	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
 	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 314, 324, 320, 321, 318, 319, 317,
-	316, 315, 326, 306, 307, 308, 309, 311, 0, 125,
-	310, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	0, 0, 0, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 170, 116, 322, 104, 0, 130, 313, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 304, 305,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 272, 292, 291, 294, 295, 296, 297, 0, 0,
-	105, 293, 298, 299, 300, 0, 0, 0, 0, 285,
-	0, 312, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 282, 283, 0, 0, 0, 0, 325, 0, 284,
-	0, 0, 280, 281, 286, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	323, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 314, 324, 320, 321,
-	318, 319, 317, 316, 315, 326, 306, 307, 308, 309,
-	311, 0, 125, 310, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 0, 0, 0, 154, 0, 92,
-	0, 0, 0, 0, 0, 170, 116, 322, 104, 0,
-	130, 0, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 352, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
-	552, 545, 0, 0, 555, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
-	154, 0, 92, 0, 532, 0, 0, 0, 170, 116,
-	556, 104, 0, 130, 0, 133, 0, 0, 176, 142,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 352, 0, 534,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
-	0, 0, 529, 528, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 530,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 649, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 651,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 23, 163, 118, 197, 0,
-	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
-	0, 170, 0, 0, 104, 0, 116, 0, 0, 0,
-	130, 0, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 0, 352, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 23, 163, 118, 197, 0, 0, 0, 0,
-	0, 0, 0, 0, 154, 0, 92, 0, 170, 0,
-	0, 104, 0, 116, 0, 0, 0, 130, 0, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 0, 781, 0, 0, 782, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 669, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 668, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 649, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 651, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 647, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 1390, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 1673, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 1282, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 651, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 352, 0, 534, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 0, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 741, 169, 107, 195, 175, 0, 0, 0, 0,
+	107, 195, 175, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
+	0, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	0, 154, 0, 92, 0, 649, 0, 0, 0, 0,
+	116, 0, 170, 0, 130, 104, 133, 0, 0, 176,
+	142, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 88, 0,
+	651, 0, 0, 0, 0, 0, 0, 105, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 154, 0, 92, 0, 0, 0,
-	0, 0, 627, 116, 0, 170, 0, 130, 104, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 203, 0, 0, 0, 161, 0,
+	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
+	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
+	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
+	107, 195, 175, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
+	0, 91, 99, 132, 210, 211, 23, 163, 118, 197,
+	0, 0, 0, 0, 0, 0, 0, 0, 154, 0,
+	92, 0, 170, 0, 0, 104, 0, 116, 0, 0,
+	0, 130, 0, 133, 0, 0, 176, 142, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	0, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 0, 0, 0, 0,
+	0, 0, 50, 0, 0, 352, 0, 0, 0, 0,
+	0, 0, 0, 0, 105, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 125, 0, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 336, 0, 0, 0, 0, 0, 0,
-	154, 0, 92, 0, 0, 170, 0, 0, 104, 116,
-	0, 0, 0, 130, 0, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 203, 0, 0, 0, 161, 0, 108, 0, 182,
+	120, 0, 131, 0, 0, 0, 0, 0, 0, 110,
+	0, 168, 155, 194, 0, 156, 166, 134, 186, 162,
+	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
+	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
+	222, 0, 0, 0, 0, 93, 183, 192, 106, 172,
+	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
+	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
+	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
+	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
+	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
+	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
+	0, 0, 0, 177, 196, 214, 215, 0, 0, 0,
+	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
+	173, 128, 135, 164, 212, 0, 169, 107, 195, 175,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 125, 0, 91, 99,
+	132, 210, 211, 23, 163, 118, 197, 0, 0, 0,
+	0, 0, 0, 0, 0, 154, 0, 92, 0, 170,
+	0, 0, 104, 0, 116, 0, 0, 0, 130, 0,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 50,
+	0, 0, 88, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 352, 0, 0, 781, 0, 0, 782, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 0, 116, 669, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 352, 0, 668, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 649,
+	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 88, 0, 651, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 647, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 352, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 1391, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 88, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 1674, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 352, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 1282, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 50,
+	0, 0, 88, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 88, 0, 651, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 352, 0, 534, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 88, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 741, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 627, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 88, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 336, 0, 0, 0, 0, 0,
+	0, 154, 0, 92, 0, 0, 170, 0, 0, 104,
+	116, 0, 0, 0, 130, 0, 133, 0, 0, 176,
+	142, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 88, 0,
+	0, 0, 0, 0, 0, 0, 0, 105, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 203, 0, 0, 0, 161, 0,
+	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
+	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
+	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
+	107, 195, 175, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
+	0, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	0, 154, 0, 92, 0, 0, 0, 0, 0, 0,
+	116, 0, 170, 0, 130, 104, 133, 0, 0, 176,
+	142, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 88, 0,
+	0, 0, 0, 0, 0, 0, 0, 105, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 85, 0, 203, 0, 0, 0, 161, 0,
+	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
+	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
+	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
+	107, 195, 175, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
+	0, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	0, 154, 0, 92, 0, 0, 0, 0, 0, 0,
+	116, 0, 170, 0, 130, 104, 133, 0, 0, 176,
+	142, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 352, 0,
+	0, 0, 0, 0, 0, 0, 0, 105, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 85, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 352, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 203, 0, 0, 0, 161, 0,
+	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
+	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
+	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
+	107, 195, 175, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
+	0, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	0, 154, 0, 92, 0, 0, 0, 0, 0, 0,
+	116, 0, 170, 0, 130, 104, 133, 0, 0, 176,
+	142, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 88, 0,
+	0, 0, 0, 0, 0, 0, 0, 105, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 88, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 203, 0, 0, 0, 161, 0,
+	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
+	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
+	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
+	107, 195, 175, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
+	0, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	0, 154, 0, 92, 0, 0, 0, 0, 0, 0,
+	116, 0, 170, 0, 130, 104, 133, 0, 0, 176,
+	142, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 272, 0,
+	0, 0, 0, 0, 0, 0, 0, 105, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 0, 116,
-	0, 170, 0, 130, 104, 133, 0, 0, 176, 142,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 272, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 0, 0, 203, 0, 0, 0, 161, 0,
+	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
+	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 703, 216, 217, 218,
+	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 688, 0, 0, 177, 196, 214, 215,
+	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
+	107, 195, 175, 0, 0, 0, 704, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
+	0, 91, 99, 132, 210, 211, 0, 163, 118, 197,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 170, 0, 0, 104, 0, 610, 611, 612,
+	613, 614, 615, 616, 617, 618, 619, 0, 720, 721,
+	0, 722, 723, 724, 726, 725, 705, 706, 707, 711,
+	709, 708, 710, 682, 684, 0, 620, 683, 689, 685,
+	686, 687, 701, 690, 691, 692, 693, 694, 695, 696,
+	697, 698, 699, 700, 702, 712, 713, 714, 715, 716,
+	717, 718, 719, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 170, 0, 0, 104,
+	0, 0, 0, 0, 0, 0, 621,
 }
 
 var yyPact = [...]int{
-	2299, -1000, -204, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	2449, -1000, -216, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1272, 1315, -1000, -1000, -1000, -1000, -1000, -1000, 1123,
-	529, 307, 346, 195, 13542, 340, 2107, 14102, -1000, 92,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 1070, -1000, -1000,
-	-1000, -1000, -1000, 1259, 1270, 1080, 1241, 1186, -1000, 7336,
-	262, 11856, 13262, 6182, -1000, 880, -187, 296, 13822, 260,
-	260, 13822, 13822, 260, -1000, -103, 315, 14102, -1000, 14102,
-	241, 874, 241, 241, 241, 14102, -1000, 396, -1000, -1000,
+	-1000, 1246, 1298, -1000, -1000, -1000, -1000, -1000, -1000, 1092,
+	319, 280, 325, 230, 13433, 324, 2394, 13993, -1000, 105,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 995, -1000, -1000,
+	-1000, -1000, -1000, 1238, 1244, 1067, 1218, 1135, -1000, 7227,
+	274, 11747, 13153, 6360, -1000, 897, -177, 281, 13713, 271,
+	271, 13713, 13713, 271, -1000, -77, 304, 13993, -1000, 13993,
+	262, 871, 262, 262, 262, 13993, -1000, 396, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2284,20 +2284,20 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 14102, 863, 1215, 231, 4026, 4026, 4026,
-	4026, 151, 4026, -65, 1135, -1000, -1000, -1000, -1000, 4026,
+	-1000, -1000, -1000, 13993, 839, 1172, 180, 4204, 4204, 4204,
+	4204, 173, 4204, -29, 1103, -1000, -1000, -1000, -1000, 4204,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	781, 1217, 7910, 7910, 1272, -1000, 1070, -1000, -1000, -1000,
-	1208, -1000, -1000, 563, 1291, -1000, 9042, 392, -1000, 7910,
-	115, 962, -1000, -1000, 962, -1000, -1000, 375, -1000, -1000,
-	8476, 8476, 8476, 8476, 8476, 8476, 8476, -1000, -1000, -1000,
+	759, 1181, 7801, 7801, 1246, -1000, 995, -1000, -1000, -1000,
+	1171, -1000, -1000, 544, 1268, -1000, 8933, 393, -1000, 7801,
+	77, 948, -1000, -1000, 948, -1000, -1000, 371, -1000, -1000,
+	8367, 8367, 8367, 8367, 8367, 8367, 8367, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 962, -1000, 7623, 962, 962, 962, 962, 962, 962,
-	962, 962, 7910, 962, 962, 962, 962, 962, 962, 962,
-	962, 962, 1898, 962, 962, 962, 962, 12976, 971, 1165,
-	-1000, -1000, -1000, 1238, 9896, 10736, 14102, 939, -1000, 1026,
-	5874, -79, -1000, -1000, -1000, 502, 10456, -1000, -1000, -1000,
-	1210, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 948, -1000, 7514, 948, 948, 948, 948, 948, 948,
+	948, 948, 7801, 948, 948, 948, 948, 948, 948, 948,
+	948, 948, 2344, 948, 948, 948, 948, 12867, 959, 1431,
+	-1000, -1000, -1000, 1210, 9787, 10627, 13993, 921, -1000, 988,
+	6052, -38, -1000, -1000, -1000, 507, 10347, -1000, -1000, -1000,
+	1170, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2308,156 +2308,156 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 926, -1000, 2607, 338, -1000, -1000, 14102, 1048, 861,
-	519, 857, 1134, 250, 14102, -1000, 12696, 4026, 303, 14102,
-	1230, 1133, 14102, 846, 828, -1000, 5566, -1000, 4026, 4026,
-	4026, 4026, 4026, 4026, 4026, 4026, -1000, -1000, -1000, -1000,
-	-1000, -1000, 4026, 4026, -1000, -22, -1000, 14102, -1000, -1000,
-	-1000, -1000, 1310, 419, 799, 391, 1030, -1000, 721, 1259,
-	781, 1186, 10176, 1148, -1000, -1000, 14102, -1000, 7910, 7910,
-	639, -1000, 12416, -1000, -1000, 4334, 431, 8476, 648, 505,
-	8476, 8476, 8476, 8476, 8476, 8476, 8476, 8476, 8476, 8476,
-	8476, 8476, 8476, 8476, 8476, 723, 1898, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 796, -1000, 1070, 1003, 1003,
-	11, 11, 11, 11, 11, 11, 8759, 6762, 781, 924,
-	454, 7623, 7336, 7336, 7910, 7910, 14382, 14382, 7336, 1243,
-	445, 454, 14382, -1000, 781, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 30, -1000, -1000, -1000, -1000, -1000,
+	-1000, 893, -1000, 14407, 315, -1000, -1000, 13993, 1074, 837,
+	524, 833, 1102, 292, 13993, -1000, 12587, 4204, 290, 13993,
+	1196, 1101, 13993, 828, 816, -1000, 5744, -1000, 4204, 4204,
+	4204, 4204, 4204, 4204, 4204, 4204, -1000, -1000, -1000, -1000,
+	-1000, -1000, 4204, 4204, -1000, -22, -1000, 13993, -1000, -1000,
+	-1000, -1000, 1291, 435, 820, 390, 991, -1000, 731, 1238,
+	759, 1135, 10067, 1004, -1000, -1000, 13993, -1000, 7801, 7801,
+	598, -1000, 12307, -1000, -1000, 4512, 441, 8367, 638, 505,
+	8367, 8367, 8367, 8367, 8367, 8367, 8367, 8367, 8367, 8367,
+	8367, 8367, 8367, 8367, 8367, 720, 2344, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 814, -1000, 995, 994, 994,
+	22, 22, 22, 22, 22, 22, 8650, 6653, 759, 890,
+	498, 7514, 7227, 7227, 7801, 7801, 14273, 14273, 7227, 1219,
+	515, 498, 14273, -1000, 759, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 29, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 7336, 7336, 7336, 7336, 178, 14102, -1000, 14382,
-	11856, 11856, 11856, 11856, 11856, -1000, 1155, 1153, -1000, 1175,
-	1152, 1159, 14102, -1000, 921, 9896, 313, 962, -1000, 12136,
-	-1000, -1000, 178, 1031, 11856, 14102, -1000, -1000, 5258, 1026,
-	-79, 998, -1000, -74, -46, 6475, 401, -1000, -1000, -1000,
-	-1000, 3410, 711, 1742, -129, -9, -1000, -1000, -1000, -1000,
-	1068, -1000, 1068, 216, 1068, 1068, 1068, -1000, 1068, 1068,
-	26, 26, 26, 26, 26, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 1121, 1115, -1000, 1068, 1068, 1068, -1000, 1068,
+	-1000, -1000, 7227, 7227, 7227, 7227, 195, 13993, -1000, 14273,
+	11747, 11747, 11747, 11747, 11747, -1000, 1122, 1121, -1000, 1118,
+	1114, 1145, 13993, -1000, 883, 9787, 351, 948, -1000, 12027,
+	-1000, -1000, 195, 942, 11747, 13993, -1000, -1000, 5436, 988,
+	-38, 978, -1000, -40, -50, 2907, 401, -1000, -1000, -1000,
+	-1000, 3588, 895, 84, -134, -5, -1000, -1000, -1000, -1000,
+	1025, -1000, 1025, 231, 1025, 1025, 1025, -1000, 1025, 1025,
+	43, 43, 43, 43, 43, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 1089, 1084, -1000, 1025, 1025, 1025, -1000, 1025,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	1099, 225, 1099, 1071, 1071, -1000, -1000, 13822, 1236, -127,
-	788, 4026, 1222, 4026, 14102, 1286, 14102, -1000, -1000, -1000,
-	1772, 14102, -1000, 14102, -1000, -1000, 14102, 4026, -1000, -1000,
+	1078, 243, 1078, 1027, 1027, -1000, -1000, 13713, 1209, -136,
+	809, 4204, 1192, 4204, 13993, 1328, 13993, -1000, -1000, -1000,
+	753, 13993, -1000, 13993, -1000, -1000, 13993, 4204, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 499, -1000, -1000, -1000, -1000, 1191, 7910,
-	7910, 4950, 7910, -1000, -1000, -1000, 1217, -1000, 1243, 1266,
-	-1000, 1201, 1200, 7336, -1000, -1000, 431, 441, -1000, -1000,
-	688, -1000, -1000, -1000, -1000, 390, 962, -1000, 355, -1000,
-	-1000, -1000, -1000, 648, 8476, 8476, 8476, 1651, 355, 1683,
-	55, 515, 11, 173, 173, 6, 6, 6, 6, 6,
-	161, 161, -1000, -1000, -1000, -1000, 781, -1000, -1000, -1000,
-	781, 7336, 999, -1000, -1000, 7910, -1000, 781, 919, 919,
-	728, 583, 1022, -1000, 388, 1020, 919, 7336, 526, -1000,
-	7910, 781, -1000, -1000, 919, 781, 919, 919, 1042, 962,
-	-1000, 1017, -1000, 501, 1165, 1119, 1132, 961, -1000, -1000,
-	-1000, -1000, 1151, -1000, 1131, -1000, -1000, -1000, -1000, -1000,
-	317, 311, 309, 13822, -1000, 1280, 11856, 979, -1000, -1000,
-	998, -79, -86, -1000, -1000, -1000, -1000, 454, -1000, -1000,
-	755, 992, 3083, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1114, 636, 13822, 211, 207, 409, 378, 752, -1000,
-	-1000, -1000, 579, -1000, 13822, 1303, -1000, -1000, 204, -1000,
-	203, 518, 744, 14102, 129, 1101, 1991, -1000, -209, -1000,
-	-13, -1000, -1000, 702, 26, 26, 1068, 26, 26, 26,
-	-1000, -1000, 401, 1209, 401, 401, 401, 401, 739, 739,
-	-130, -130, -1000, -1000, -1000, 700, 1099, -1000, -1000, -1000,
-	675, -1000, 1112, 1070, -1000, 4642, -1000, -1000, -1000, -1000,
-	-1000, 1235, 1130, -1000, -1000, -1000, 110, -1000, 751, 2054,
-	451, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 176, 350, -1000, 4026, -1000, 508, 14102, 14102,
-	1189, 454, 454, 379, -1000, -1000, 14102, -1000, -1000, -1000,
-	-1000, 1012, -1000, -1000, -1000, 3718, 7336, -1000, 1651, 355,
-	1047, -1000, 8476, 8476, -1000, -1000, 919, 7336, 454, -1000,
-	-1000, -1000, 705, 723, 705, 8476, 8476, 4950, 8476, 8476,
-	-120, 982, 506, -1000, 7910, 626, -1000, -1000, -1000, -1000,
-	-1000, 1129, 14382, 962, -1000, 9609, 13822, 1272, 14382, 7910,
-	7910, -1000, -1000, 7910, 1098, -1000, 7910, -1000, -1000, -1000,
-	962, 962, 962, 884, -1000, 1272, 979, -1000, -1000, -1000,
-	-77, -89, -1000, -1000, 3410, -1000, 3410, 11576, -1000, 1288,
-	1256, 214, 238, -1000, 750, 749, -1000, 747, -1000, -12,
-	-1000, -185, 86, -47, -1000, -1000, 962, -1000, 1083, 1234,
-	-1000, 1218, 667, -1000, 1857, -198, -1000, -1000, -1000, -1000,
-	-1000, -1000, 962, 1077, 1075, -1000, 1074, -1000, -1000, -1000,
-	927, 401, 401, 26, 401, 401, 401, -1000, 460, -1000,
-	-1000, -1000, -1000, 916, -1000, 908, -1000, 54, 40, -1000,
-	991, -1000, 892, 14102, 13822, -1000, 977, -1000, 496, 1255,
-	138, 14102, 1286, -1000, 205, -1000, 13822, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 13822, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 14102, -1000, -1000,
-	-1000, -1000, -1000, 13822, 229, -1000, -1000, 731, 7910, -1000,
-	-1000, -1000, 4642, -1000, 1280, 11856, -1000, -1000, 781, -1000,
-	8476, 355, 355, -1000, -1000, 781, 1068, 1068, -1000, 1068,
-	1071, -1000, -1000, 1068, 78, 1068, 68, 781, 781, 295,
-	766, -1000, 277, 150, 962, -114, -1000, 454, 7910, -1000,
-	1223, 914, 960, -1000, -1000, 7049, 781, 888, 370, 884,
-	1259, -1000, 454, 454, 454, 11016, 454, 11016, 11016, 11016,
-	9322, 13822, 1259, -1000, -1000, -1000, -1000, 3083, -1000, 879,
-	-1000, 1068, 1068, 314, 314, -191, 199, 197, -1000, -1000,
-	-1000, -1000, -187, -1000, -1000, 518, -1000, 7910, 11016, -173,
-	-1000, 974, 905, 244, -1000, 144, 781, -1000, 732, -1000,
-	703, 889, -1000, -1000, -1000, 401, -1000, -1000, -1000, -1000,
-	-1000, 26, 730, 26, -24, -25, 656, -1000, 654, 986,
-	1128, 4642, 3410, 292, 1353, -1000, -1000, 1246, 1233, 13822,
-	-1000, -1000, -1000, 1065, -1000, -1000, -1000, -1000, 1211, 13822,
-	-1000, -1000, 454, 1277, 968, -1000, 355, -1000, -1000, 210,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 8476,
-	8476, -1000, 8476, 8476, 8476, 781, 718, 454, 194, -1000,
-	962, -1000, -1000, 990, 13822, 13822, -1000, -1000, 873, -1000,
-	-1000, 869, 869, 869, 313, -1000, -1000, 1554, 11576, 1227,
-	-1000, 601, -1000, -1000, 521, 126, 592, -1000, 13822, -187,
-	-1000, 962, 587, 867, 1064, 651, -1000, 885, 29, -130,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 401, -1000, 401,
-	-1000, -1000, 870, 821, 11576, 13822, 14102, -1000, -1000, 13822,
-	-1000, -1000, -1000, -1000, -1000, 107, 184, 1062, 11016, 962,
-	232, 1275, 1265, -1000, -1000, 310, 310, 310, 310, 42,
-	-1000, -1000, 1300, -1000, 962, -1000, 1070, 367, -1000, 13822,
-	-1000, -1000, -1000, -1000, -1000, 1126, 1773, 120, -1000, 734,
-	494, 637, 488, 467, 462, 452, 450, 442, 439, -1000,
-	-1000, -1000, 1298, -1000, -1000, -1000, 1294, 1061, -1000, 1059,
-	7910, 130, -1000, -1000, 802, 795, -1000, -1000, -1000, -1000,
-	-1000, -1000, 856, 1056, 1049, 931, -1000, 105, 184, -1000,
-	-1000, -1000, -1000, 11576, 854, 175, 191, -1000, 7910, 7910,
-	-1000, -1000, -1000, -1000, 781, 127, -163, 14382, 960, 781,
-	13822, -1000, -1000, 13822, -1000, -134, 1773, 13822, -1000, 643,
-	-1000, -1000, 569, 631, 569, 569, 569, 569, 569, 314,
-	314, 13822, 11576, 587, -1000, -116, 1024, -1000, -1000, -193,
-	11576, 11576, -126, 13822, 7910, 184, -1000, 844, 1048, 841,
-	-1000, 13822, 1044, 454, 946, -1000, 1182, -123, -167, 941,
-	-1000, -1000, 962, 839, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, 518, 518, 820, 801,
-	-1000, -1000, -1000, 108, 710, 623, 618, 617, -19, -1000,
-	1263, 1280, 1041, 794, 780, -1000, -200, -1000, 454, -1000,
-	-1000, -127, -1000, 175, 1198, 11576, -1000, 1166, -1000, 13822,
-	-1000, 1773, -1000, -1000, 227, 1554, 594, -1000, 586, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, 11296, 1554, 11016, 1280,
-	1554, 7910, -1000, -1000, 152, 769, -128, 781, -1000, 14102,
-	1126, -1000, -1000, -1000, 365, 1126, 767, 1554, -1000, 454,
-	170, -1000, -165, -1000, 1035, -1000, 4642, -1000, -1000, -1000,
-	962, -168, 13822, -1000, 8193, -1000, 765, 310, 781, -1000,
-	-1000, -1000,
+	-1000, -1000, -1000, 511, -1000, -1000, -1000, -1000, 1148, 7801,
+	7801, 5128, 7801, -1000, -1000, -1000, 1181, -1000, 1219, 1230,
+	-1000, 1162, 1159, 7227, -1000, -1000, 441, 484, -1000, -1000,
+	586, -1000, -1000, -1000, -1000, 379, 948, -1000, 2321, -1000,
+	-1000, -1000, -1000, 638, 8367, 8367, 8367, 2181, 2321, 2301,
+	23, 1011, 22, 174, 174, 27, 27, 27, 27, 27,
+	161, 161, -1000, -1000, -1000, -1000, 759, -1000, -1000, -1000,
+	759, 7227, 983, -1000, -1000, 7801, -1000, 759, 877, 877,
+	763, 539, 993, -1000, 377, 981, 877, 7227, 521, -1000,
+	7801, 759, -1000, -1000, 877, 759, 877, 877, 935, 948,
+	-1000, 979, -1000, 502, 1431, 1088, 1100, 1329, -1000, -1000,
+	-1000, -1000, 1120, -1000, 1023, -1000, -1000, -1000, -1000, -1000,
+	313, 302, 293, 13713, -1000, 1252, 11747, 954, -1000, -1000,
+	978, -38, -53, -1000, -1000, -1000, -1000, 498, -1000, -1000,
+	804, 965, 3280, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1083, 699, 13713, 227, 225, 424, 320, 799, -1000,
+	-1000, -1000, 630, -1000, 13713, 1289, -1000, -1000, 226, -1000,
+	219, 520, 746, 13993, 123, 1082, 1259, -1000, -219, -1000,
+	-7, -1000, -1000, 722, 43, 43, 1025, 43, 43, 43,
+	-1000, -1000, 401, 1167, 401, 401, 401, 401, 743, 743,
+	-139, -139, -1000, -1000, -1000, 718, 1078, -1000, -1000, -1000,
+	711, -1000, 1073, 995, -1000, 4820, -1000, -1000, -1000, -1000,
+	-1000, 1208, 1099, -1000, -1000, -1000, 126, -1000, 710, 411,
+	432, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 194, 332, -1000, 4204, -1000, 518, 13993, 13993,
+	1144, 498, 498, 362, -1000, -1000, 13993, -1000, -1000, -1000,
+	-1000, 960, -1000, -1000, -1000, 3896, 7227, -1000, 2181, 2321,
+	691, -1000, 8367, 8367, -1000, -1000, 877, 7227, 498, -1000,
+	-1000, -1000, 1008, 720, 1008, 8367, 8367, 5128, 8367, 8367,
+	-91, 975, 455, -1000, 7801, 570, -1000, -1000, -1000, -1000,
+	-1000, 1096, 14273, 948, -1000, 9500, 13713, 1246, 14273, 7801,
+	7801, -1000, -1000, 7801, 1070, -1000, 7801, -1000, -1000, -1000,
+	948, 948, 948, 863, -1000, 1246, 954, -1000, -1000, -1000,
+	-55, -47, -1000, -1000, 3588, -1000, 3588, 11467, -1000, 1267,
+	1235, 233, 249, -1000, 787, 752, -1000, 751, -1000, -23,
+	-1000, -174, 70, 49, -1000, -1000, 948, -1000, 1069, 1204,
+	-1000, 1174, 705, -1000, 311, -202, -1000, -1000, -1000, -1000,
+	-202, -1000, 948, 1041, 1038, -1000, 1029, -1000, -1000, -1000,
+	907, 401, 401, 43, 401, 401, 401, -1000, 454, -1000,
+	-1000, -1000, -1000, 875, -1000, 869, -1000, 65, 55, -1000,
+	963, -1000, 867, 13993, 13713, -1000, 961, -1000, 496, 1231,
+	144, 13993, 1328, -1000, 223, -1000, 13713, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 13713, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 13993, -1000, -1000,
+	-1000, -1000, -1000, 13713, 244, -1000, -1000, 742, 7801, -1000,
+	-1000, -1000, 4820, -1000, 1252, 11747, -1000, -1000, 759, -1000,
+	8367, 2321, 2321, -1000, -1000, 759, 1025, 1025, -1000, 1025,
+	1027, -1000, -1000, 1025, 92, 1025, 79, 759, 759, 215,
+	1869, -1000, 150, 1821, 948, -84, -1000, 498, 7801, -1000,
+	1179, 920, 945, -1000, -1000, 6940, 759, 865, 356, 863,
+	1238, -1000, 498, 498, 498, 10907, 498, 10907, 10907, 10907,
+	9213, 13713, 1238, -1000, -1000, -1000, -1000, 3280, -1000, 859,
+	-1000, 1025, 1025, 303, 303, -195, 218, 217, -1000, -1000,
+	-1000, -1000, -177, -1000, -1000, 520, -1000, 7801, 10907, -161,
+	-1000, 958, 894, 1718, -1000, 1896, -1000, 759, -1000, 712,
+	-1000, 706, 856, -1000, -1000, -1000, 401, -1000, -1000, -1000,
+	-1000, -1000, 43, 741, 43, -10, -14, 693, -1000, 688,
+	1005, 1095, 4820, 3588, 276, 1322, -1000, -1000, 1229, 1199,
+	13713, -1000, -1000, -1000, 1022, -1000, -1000, -1000, -1000, 1182,
+	13713, -1000, -1000, 498, 1250, 952, -1000, 2321, -1000, -1000,
+	222, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	8367, 8367, -1000, 8367, 8367, 8367, 759, 740, 498, 211,
+	-1000, 948, -1000, -1000, 947, 13713, 13713, -1000, -1000, 855,
+	-1000, -1000, 851, 851, 851, 351, -1000, -1000, 241, 11467,
+	1193, -1000, 647, -1000, -1000, 534, 133, 601, -1000, 13713,
+	-177, -1000, 948, 687, 847, 1020, 645, -1000, 852, -134,
+	-134, -134, -1000, -1000, -1000, -1000, -1000, 401, -1000, 401,
+	-1000, -1000, 848, 821, 11467, 13713, 13993, -1000, -1000, 13713,
+	-1000, -1000, -1000, -1000, -1000, 115, 197, 1019, 10907, 948,
+	247, 1248, 1242, -1000, -1000, 419, 419, 419, 419, 93,
+	-1000, -1000, 1287, -1000, 948, -1000, 995, 353, -1000, 13713,
+	-1000, -1000, -1000, -1000, -1000, 1090, 1125, 94, -1000, 690,
+	494, 738, 493, 492, 485, 473, 471, 467, 463, -1000,
+	-1000, -1000, 1278, -1000, -1000, -1000, 1275, 1018, -1000, 1017,
+	7801, 136, -1000, -1000, 773, 769, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, 843, 1016, 1013, 909, -1000, 96, 197,
+	-1000, -1000, -1000, -1000, 11467, 832, 179, 209, -1000, 7801,
+	7801, -1000, -1000, -1000, -1000, 759, 153, -150, 14273, 945,
+	759, 13713, -1000, -1000, 13713, -1000, -148, 1125, 13713, -1000,
+	636, -1000, -1000, 683, 635, 683, 683, 683, 683, 683,
+	303, 303, 13713, 11467, 687, -1000, -87, 413, -1000, -1000,
+	-200, 11467, 11467, -110, 13713, 7801, 197, -1000, 827, 1074,
+	824, -1000, 13713, 1012, 498, 943, -1000, 1141, -94, -154,
+	929, -1000, -1000, 948, 803, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 520, 520, 798,
+	795, -1000, -1000, -1000, 89, 715, 609, 590, 584, -8,
+	-1000, 1240, 1252, 1010, 792, 772, -1000, -209, -1000, 498,
+	-1000, -1000, -136, -1000, 179, 1158, 11467, -1000, 1131, -1000,
+	13713, -1000, 1125, -1000, -1000, 239, 241, 581, -1000, 553,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 11187, 241, 10907,
+	1252, 241, 7801, -1000, -1000, 171, 768, -137, 759, -1000,
+	13993, 1090, -1000, -1000, -1000, 347, 1090, 766, 241, -1000,
+	498, 152, -1000, -152, -1000, 1006, -1000, 4820, -1000, -1000,
+	-1000, 948, -155, 13713, -1000, 8084, -1000, 758, 419, 759,
+	-1000, -1000, -1000,
 }
 
 var yyPgo = [...]int{
-	0, 1580, 19, 816, 1579, 1578, 1573, 1355, 1336, 1330,
-	1565, 1561, 1558, 1556, 1554, 1553, 1552, 1550, 1549, 1545,
-	1542, 1540, 1539, 1538, 511, 1537, 1536, 1535, 88, 1533,
-	96, 1530, 1527, 52, 115, 53, 50, 54, 1526, 32,
-	119, 89, 1523, 60, 1521, 1520, 98, 1519, 85, 1517,
-	1516, 95, 1515, 1500, 27, 3, 1487, 31, 1485, 1484,
-	91, 7, 1483, 1480, 1479, 1478, 1476, 1475, 75, 13,
-	17, 25, 29, 1474, 84, 37, 1473, 66, 1472, 1471,
-	1469, 1467, 51, 1466, 77, 24, 45, 76, 1465, 14,
-	1464, 83, 43, 39, 9, 97, 82, 1461, 46, 90,
-	68, 1460, 1458, 627, 1456, 1455, 1454, 1453, 1452, 1451,
-	600, 597, 1450, 1448, 1447, 56, 0, 462, 10, 104,
-	1446, 58, 1445, 1866, 93, 81, 34, 1443, 55, 1477,
-	47, 1442, 1434, 57, 92, 1432, 105, 103, 1431, 1429,
-	1428, 1426, 1423, 87, 40, 70, 202, 1421, 1413, 1412,
-	21, 61, 42, 65, 79, 1411, 1408, 1407, 36, 1405,
-	16, 30, 2, 71, 1402, 1401, 1400, 1398, 41, 33,
-	1397, 26, 22, 18, 6, 4, 1396, 1395, 1393, 1,
-	1391, 28, 1390, 5, 1389, 8, 1388, 1384, 1383, 1379,
-	1375, 1374, 1372, 1371, 1368, 1367, 23, 12, 48, 49,
-	11, 59, 44, 1364, 15, 1357, 1351, 1187, 759, 1341,
-	1334, 1324, 1322, 123,
+	0, 1559, 23, 809, 1557, 1555, 1553, 1343, 1308, 1305,
+	1548, 1547, 1546, 1543, 1541, 1540, 1538, 1536, 1535, 1534,
+	1533, 1530, 1528, 1527, 365, 1526, 1524, 1522, 101, 1521,
+	115, 1520, 1519, 59, 79, 65, 53, 1175, 1518, 37,
+	95, 90, 1515, 74, 1514, 1513, 94, 1511, 85, 1506,
+	1503, 500, 1502, 1501, 26, 7, 1500, 44, 1499, 1494,
+	91, 133, 1493, 1492, 1491, 1482, 1480, 1469, 75, 13,
+	19, 11, 25, 1468, 323, 15, 1466, 66, 1465, 1464,
+	1463, 1459, 47, 1458, 70, 18, 46, 76, 1457, 5,
+	1456, 83, 50, 30, 17, 93, 77, 1455, 49, 84,
+	67, 1452, 1451, 638, 1450, 1448, 1446, 1444, 1439, 1431,
+	529, 627, 1427, 1426, 1425, 52, 0, 217, 100, 92,
+	1424, 54, 1423, 1735, 88, 89, 31, 1418, 60, 126,
+	58, 1417, 1415, 51, 87, 29, 34, 33, 1414, 1413,
+	1411, 1402, 1401, 1061, 43, 137, 82, 1398, 1397, 21,
+	57, 56, 36, 61, 81, 1396, 1395, 1392, 41, 1391,
+	16, 22, 2, 68, 1390, 1389, 1388, 1385, 48, 32,
+	1384, 20, 12, 6, 14, 4, 1383, 1381, 1377, 8,
+	1374, 28, 1368, 9, 1367, 10, 1365, 1364, 1363, 40,
+	1360, 1359, 1358, 1357, 1356, 1355, 27, 1, 42, 45,
+	143, 55, 39, 1353, 3, 1352, 1350, 1405, 767, 1345,
+	1329, 1323, 1321, 108,
 }
 
 var yyR1 = [...]int{
@@ -2478,66 +2478,65 @@ var yyR1 = [...]int{
 	198, 198, 198, 199, 199, 199, 199, 199, 199, 199,
 	199, 194, 194, 195, 195, 195, 195, 195, 195, 195,
 	195, 195, 195, 195, 195, 195, 195, 144, 144, 144,
-	144, 144, 144, 193, 193, 189, 189, 189, 189, 189,
-	139, 139, 137, 137, 137, 137, 137, 137, 137, 137,
-	137, 137, 138, 138, 138, 138, 138, 138, 138, 138,
-	140, 140, 140, 140, 140, 140, 140, 140, 136, 136,
+	144, 144, 144, 193, 193, 189, 189, 189, 189, 139,
+	139, 137, 137, 137, 137, 137, 137, 137, 137, 137,
+	137, 138, 138, 138, 138, 138, 138, 138, 138, 140,
+	140, 140, 140, 140, 140, 140, 140, 136, 136, 141,
 	141, 141, 141, 141, 141, 141, 141, 141, 141, 141,
 	141, 141, 141, 141, 141, 141, 141, 141, 141, 141,
-	141, 141, 141, 142, 142, 142, 142, 142, 142, 142,
-	142, 153, 153, 143, 143, 151, 151, 152, 152, 152,
-	150, 150, 150, 147, 147, 148, 148, 149, 149, 149,
-	145, 145, 145, 146, 146, 146, 156, 174, 174, 174,
-	176, 176, 177, 177, 175, 175, 175, 175, 175, 175,
-	175, 175, 175, 175, 175, 164, 164, 200, 200, 173,
-	173, 173, 170, 170, 170, 170, 170, 170, 170, 170,
-	163, 163, 172, 172, 171, 171, 158, 158, 158, 158,
-	158, 159, 160, 160, 160, 160, 157, 196, 196, 196,
-	197, 197, 161, 161, 162, 162, 167, 167, 167, 168,
-	168, 168, 169, 169, 169, 12, 12, 12, 12, 12,
-	12, 12, 12, 12, 12, 12, 12, 186, 186, 186,
-	186, 186, 186, 186, 186, 186, 186, 186, 210, 210,
-	211, 211, 211, 211, 211, 211, 211, 180, 178, 178,
-	179, 179, 13, 14, 14, 14, 14, 14, 15, 15,
-	17, 18, 18, 18, 18, 18, 18, 18, 18, 18,
+	141, 141, 142, 142, 142, 142, 142, 142, 142, 142,
+	153, 153, 143, 143, 151, 151, 152, 152, 152, 150,
+	150, 150, 147, 147, 148, 148, 149, 149, 149, 145,
+	145, 145, 146, 146, 146, 156, 174, 174, 174, 176,
+	176, 177, 177, 175, 175, 175, 175, 175, 175, 175,
+	175, 175, 175, 175, 164, 164, 200, 200, 173, 173,
+	173, 170, 170, 170, 170, 170, 170, 170, 170, 163,
+	163, 172, 172, 171, 171, 158, 158, 158, 158, 158,
+	159, 160, 160, 160, 160, 157, 196, 196, 196, 197,
+	197, 161, 161, 162, 162, 167, 167, 167, 168, 168,
+	168, 169, 169, 169, 12, 12, 12, 12, 12, 12,
+	12, 12, 12, 12, 12, 12, 186, 186, 186, 186,
+	186, 186, 186, 186, 186, 186, 186, 210, 210, 211,
+	211, 211, 211, 211, 211, 211, 180, 178, 178, 179,
+	179, 13, 14, 14, 14, 14, 14, 15, 15, 17,
+	18, 18, 18, 18, 18, 18, 18, 18, 18, 18,
 	18, 18, 18, 18, 18, 18, 18, 18, 18, 18,
-	18, 18, 18, 18, 108, 108, 105, 105, 106, 106,
-	107, 107, 107, 109, 109, 109, 132, 132, 132, 19,
-	19, 21, 21, 22, 23, 20, 20, 20, 20, 20,
-	212, 24, 25, 25, 26, 26, 26, 30, 30, 30,
-	28, 28, 29, 29, 35, 35, 34, 34, 36, 36,
-	36, 36, 120, 120, 120, 119, 119, 38, 38, 39,
-	39, 40, 40, 41, 41, 41, 53, 53, 89, 89,
-	89, 92, 92, 42, 42, 42, 42, 43, 43, 44,
-	44, 45, 45, 127, 127, 126, 126, 126, 125, 125,
-	47, 47, 47, 49, 48, 48, 48, 48, 50, 50,
-	52, 52, 51, 51, 54, 54, 54, 54, 55, 55,
-	90, 90, 37, 37, 37, 37, 37, 37, 37, 104,
-	104, 57, 57, 56, 56, 56, 56, 56, 56, 56,
-	56, 56, 56, 67, 67, 67, 67, 67, 67, 58,
-	58, 58, 58, 58, 58, 58, 33, 33, 68, 68,
-	68, 74, 69, 69, 61, 61, 61, 61, 61, 61,
+	18, 18, 18, 108, 108, 105, 105, 106, 106, 107,
+	107, 107, 109, 109, 109, 132, 132, 132, 19, 19,
+	21, 21, 22, 23, 20, 20, 20, 20, 20, 212,
+	24, 25, 25, 26, 26, 26, 30, 30, 30, 28,
+	28, 29, 29, 35, 35, 34, 34, 36, 36, 36,
+	36, 120, 120, 120, 119, 119, 38, 38, 39, 39,
+	40, 40, 41, 41, 41, 53, 53, 89, 89, 89,
+	92, 92, 42, 42, 42, 42, 43, 43, 44, 44,
+	45, 45, 127, 127, 126, 126, 126, 125, 125, 47,
+	47, 47, 49, 48, 48, 48, 48, 50, 50, 52,
+	52, 51, 51, 54, 54, 54, 54, 55, 55, 90,
+	90, 37, 37, 37, 37, 37, 37, 37, 104, 104,
+	57, 57, 56, 56, 56, 56, 56, 56, 56, 56,
+	56, 56, 67, 67, 67, 67, 67, 67, 58, 58,
+	58, 58, 58, 58, 58, 33, 33, 68, 68, 68,
+	74, 69, 69, 61, 61, 61, 61, 61, 61, 61,
 	61, 61, 61, 61, 61, 61, 61, 61, 61, 61,
 	61, 61, 61, 61, 61, 61, 61, 61, 61, 61,
-	61, 61, 61, 61, 61, 61, 65, 65, 65, 63,
+	61, 61, 61, 61, 61, 65, 65, 65, 63, 63,
 	63, 63, 63, 63, 63, 63, 63, 63, 63, 63,
-	63, 63, 63, 63, 64, 64, 64, 64, 64, 64,
-	64, 64, 64, 213, 213, 66, 66, 66, 66, 31,
-	31, 31, 31, 31, 130, 130, 133, 133, 133, 133,
-	133, 133, 133, 133, 133, 133, 133, 133, 133, 133,
-	134, 134, 134, 134, 134, 134, 134, 78, 78, 32,
-	32, 76, 76, 77, 79, 79, 75, 75, 75, 60,
-	60, 60, 60, 60, 60, 60, 60, 62, 62, 62,
-	80, 80, 81, 81, 82, 82, 83, 83, 84, 85,
-	85, 85, 86, 86, 86, 86, 87, 87, 87, 59,
-	59, 59, 59, 59, 59, 88, 88, 88, 88, 93,
-	93, 70, 70, 72, 72, 71, 73, 94, 94, 98,
-	95, 95, 99, 99, 99, 99, 97, 97, 97, 122,
-	122, 122, 102, 102, 110, 110, 111, 111, 103, 103,
-	112, 112, 112, 112, 112, 112, 112, 112, 112, 112,
-	113, 113, 113, 114, 114, 117, 117, 118, 118, 123,
-	123, 124, 124, 115, 115, 115, 115, 115, 115, 115,
-	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+	63, 63, 63, 64, 64, 64, 64, 64, 64, 64,
+	64, 64, 213, 213, 66, 66, 66, 66, 31, 31,
+	31, 31, 31, 130, 130, 133, 133, 133, 133, 133,
+	133, 133, 133, 133, 133, 133, 133, 133, 133, 134,
+	134, 134, 134, 134, 134, 134, 78, 78, 32, 32,
+	76, 76, 77, 79, 79, 75, 75, 75, 60, 60,
+	60, 60, 60, 60, 60, 60, 62, 62, 62, 80,
+	80, 81, 81, 82, 82, 83, 83, 84, 85, 85,
+	85, 86, 86, 86, 86, 87, 87, 87, 59, 59,
+	59, 59, 59, 59, 88, 88, 88, 88, 93, 93,
+	70, 70, 72, 72, 71, 73, 94, 94, 98, 95,
+	95, 99, 99, 99, 99, 97, 97, 97, 122, 122,
+	122, 102, 102, 110, 110, 111, 111, 103, 103, 112,
+	112, 112, 112, 112, 112, 112, 112, 112, 112, 113,
+	113, 113, 114, 114, 117, 117, 118, 118, 123, 123,
+	124, 124, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
@@ -2547,6 +2546,7 @@ var yyR1 = [...]int{
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+	115, 115, 115, 115, 115, 115, 115, 115, 115, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
@@ -2560,7 +2560,7 @@ var yyR1 = [...]int{
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
-	116, 116, 116, 207, 208, 128, 129, 129, 129,
+	116, 116, 207, 208, 128, 129, 129, 129,
 }
 
 var yyR2 = [...]int{
@@ -2578,67 +2578,67 @@ var yyR2 = [...]int{
 	3, 3, 3, 2, 3, 1, 1, 1, 1, 2,
 	2, 3, 2, 4, 4, 2, 2, 3, 2, 3,
 	2, 7, 8, 3, 3, 6, 5, 8, 7, 4,
-	2, 4, 6, 2, 1, 1, 1, 1, 1, 1,
+	2, 4, 6, 2, 1, 1, 1, 1, 2, 1,
 	3, 1, 2, 0, 4, 3, 4, 3, 3, 3,
 	3, 3, 3, 3, 2, 4, 6, 2, 3, 2,
-	3, 1, 3, 0, 2, 0, 3, 3, 2, 2,
-	2, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 2, 3, 2, 2, 2, 2, 1, 1,
-	1, 3, 3, 2, 1, 2, 1, 1, 1, 1,
-	4, 4, 4, 4, 4, 1, 5, 2, 2, 3,
-	3, 3, 3, 3, 1, 1, 1, 1, 1, 1,
-	1, 6, 6, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 3, 0, 3, 0, 5, 0, 3, 5,
-	0, 3, 3, 0, 1, 0, 1, 0, 2, 1,
-	0, 3, 3, 0, 1, 2, 6, 0, 1, 4,
-	1, 2, 1, 3, 2, 3, 2, 3, 3, 3,
-	3, 3, 3, 3, 3, 0, 1, 1, 1, 0,
-	2, 5, 2, 3, 3, 2, 3, 2, 3, 4,
-	1, 1, 1, 3, 3, 2, 2, 5, 5, 8,
-	8, 13, 1, 1, 2, 2, 10, 0, 1, 1,
-	0, 3, 0, 1, 1, 3, 0, 1, 3, 1,
-	2, 3, 1, 1, 1, 6, 11, 13, 7, 7,
-	7, 12, 7, 7, 7, 4, 5, 1, 1, 1,
+	3, 1, 3, 0, 2, 0, 3, 3, 3, 2,
+	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
+	1, 2, 3, 2, 2, 2, 2, 1, 1, 1,
+	3, 3, 2, 1, 2, 1, 1, 1, 1, 4,
+	4, 4, 4, 4, 1, 5, 2, 2, 3, 3,
+	3, 3, 3, 1, 1, 1, 1, 1, 1, 1,
+	6, 6, 1, 1, 1, 1, 1, 1, 1, 1,
+	1, 3, 0, 3, 0, 5, 0, 3, 5, 0,
+	3, 3, 0, 1, 0, 1, 0, 2, 1, 0,
+	3, 3, 0, 1, 2, 6, 0, 1, 4, 1,
+	2, 1, 3, 2, 3, 2, 3, 3, 3, 3,
+	3, 3, 3, 3, 0, 1, 1, 1, 0, 2,
+	5, 2, 3, 3, 2, 3, 2, 3, 4, 1,
+	1, 1, 3, 3, 2, 2, 5, 5, 8, 8,
+	13, 1, 1, 2, 2, 10, 0, 1, 1, 0,
+	3, 0, 1, 1, 3, 0, 1, 3, 1, 2,
+	3, 1, 1, 1, 6, 11, 13, 7, 7, 7,
+	12, 7, 7, 7, 4, 5, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 7, 1, 3,
-	8, 8, 5, 4, 6, 5, 4, 4, 3, 2,
-	3, 4, 4, 4, 4, 4, 4, 4, 4, 3,
-	3, 3, 3, 4, 3, 6, 4, 2, 4, 2,
-	2, 2, 2, 3, 1, 1, 0, 1, 0, 1,
-	0, 2, 2, 0, 2, 2, 0, 1, 1, 2,
-	1, 1, 2, 1, 1, 2, 2, 2, 2, 2,
-	0, 2, 0, 2, 1, 2, 2, 0, 1, 1,
-	0, 1, 0, 1, 0, 1, 1, 3, 1, 2,
-	3, 5, 0, 1, 2, 1, 1, 0, 2, 1,
-	3, 1, 1, 1, 3, 3, 3, 7, 1, 1,
-	3, 1, 3, 4, 4, 4, 3, 2, 4, 0,
-	1, 0, 2, 0, 1, 0, 1, 2, 1, 1,
-	1, 2, 2, 1, 2, 3, 2, 3, 2, 2,
-	2, 1, 1, 3, 0, 5, 5, 5, 0, 2,
-	0, 4, 1, 3, 3, 2, 3, 1, 2, 0,
-	3, 1, 1, 3, 3, 4, 4, 5, 3, 4,
-	5, 6, 2, 1, 2, 1, 2, 1, 2, 1,
-	1, 1, 1, 1, 1, 1, 0, 2, 1, 1,
-	1, 3, 1, 3, 1, 1, 1, 1, 1, 3,
+	1, 1, 1, 1, 1, 1, 7, 1, 3, 8,
+	8, 5, 4, 6, 5, 4, 4, 3, 2, 3,
+	4, 4, 4, 4, 4, 4, 4, 4, 3, 3,
+	3, 3, 4, 3, 6, 4, 2, 4, 2, 2,
+	2, 2, 3, 1, 1, 0, 1, 0, 1, 0,
+	2, 2, 0, 2, 2, 0, 1, 1, 2, 1,
+	1, 2, 1, 1, 2, 2, 2, 2, 2, 0,
+	2, 0, 2, 1, 2, 2, 0, 1, 1, 0,
+	1, 0, 1, 0, 1, 1, 3, 1, 2, 3,
+	5, 0, 1, 2, 1, 1, 0, 2, 1, 3,
+	1, 1, 1, 3, 3, 3, 7, 1, 1, 3,
+	1, 3, 4, 4, 4, 3, 2, 4, 0, 1,
+	0, 2, 0, 1, 0, 1, 2, 1, 1, 1,
+	2, 2, 1, 2, 3, 2, 3, 2, 2, 2,
+	1, 1, 3, 0, 5, 5, 5, 0, 2, 0,
+	4, 1, 3, 3, 2, 3, 1, 2, 0, 3,
+	1, 1, 3, 3, 4, 4, 5, 3, 4, 5,
+	6, 2, 1, 2, 1, 2, 1, 2, 1, 1,
+	1, 1, 1, 1, 1, 0, 2, 1, 1, 1,
+	3, 1, 3, 1, 1, 1, 1, 1, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
-	3, 3, 3, 3, 2, 2, 2, 2, 2, 2,
-	3, 3, 1, 1, 1, 1, 4, 5, 6, 4,
-	4, 6, 6, 6, 6, 8, 8, 6, 8, 8,
-	9, 7, 5, 4, 2, 2, 2, 2, 2, 2,
-	2, 2, 2, 0, 2, 4, 4, 4, 4, 0,
-	3, 4, 7, 3, 1, 1, 2, 3, 3, 1,
-	2, 2, 1, 1, 2, 1, 2, 2, 1, 2,
-	1, 2, 1, 1, 1, 1, 1, 0, 1, 0,
-	2, 1, 2, 4, 0, 2, 1, 3, 5, 1,
-	1, 1, 1, 1, 1, 1, 1, 1, 2, 2,
-	0, 3, 0, 2, 0, 3, 1, 3, 2, 0,
-	1, 1, 0, 2, 4, 4, 0, 2, 4, 2,
-	1, 3, 5, 4, 6, 1, 3, 3, 5, 0,
-	5, 1, 3, 1, 2, 3, 1, 1, 3, 3,
-	1, 3, 3, 3, 3, 3, 1, 2, 1, 1,
-	1, 1, 1, 1, 0, 2, 0, 3, 0, 1,
+	3, 3, 3, 2, 2, 2, 2, 2, 2, 3,
+	3, 1, 1, 1, 1, 4, 5, 6, 4, 4,
+	6, 6, 6, 6, 8, 8, 6, 8, 8, 9,
+	7, 5, 4, 2, 2, 2, 2, 2, 2, 2,
+	2, 2, 0, 2, 4, 4, 4, 4, 0, 3,
+	4, 7, 3, 1, 1, 2, 3, 3, 1, 2,
+	2, 1, 1, 2, 1, 2, 2, 1, 2, 1,
+	2, 1, 1, 1, 1, 1, 0, 1, 0, 2,
+	1, 2, 4, 0, 2, 1, 3, 5, 1, 1,
+	1, 1, 1, 1, 1, 1, 1, 2, 2, 0,
+	3, 0, 2, 0, 3, 1, 3, 2, 0, 1,
+	1, 0, 2, 4, 4, 0, 2, 4, 2, 1,
+	3, 5, 4, 6, 1, 3, 3, 5, 0, 5,
+	1, 3, 1, 2, 3, 1, 1, 3, 3, 1,
+	3, 3, 3, 3, 3, 1, 2, 1, 1, 1,
+	1, 1, 1, 0, 2, 0, 3, 0, 1, 1,
+	1, 1, 1, 1, 1, 1, 1, 1, 1, 0,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	0, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
@@ -2663,7 +2663,7 @@ var yyR2 = [...]int{
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 0, 0, 1, 1,
+	1, 1, 1, 1, 0, 0, 1, 1,
 }
 
 var yyChk = [...]int{
@@ -2797,19 +2797,19 @@ var yyChk = [...]int{
 	-208, 53, -82, -55, 263, 267, 268, -168, -169, -172,
 	-171, -117, 135, 10, 9, 19, 131, 125, 55, 55,
 	55, -196, 134, 309, -198, 312, -144, -207, 52, 22,
-	28, 58, -199, 52, -189, 311, -207, -143, 52, -143,
-	52, 52, 54, -146, -146, -145, -146, -146, -146, 55,
-	106, 54, 53, 54, 199, 199, 53, 54, 53, -51,
-	-117, 53, 80, -188, 19, 159, 160, -51, -202, -210,
-	120, 135, -128, -117, -128, -117, -51, -128, -117, 127,
-	-158, 57, -37, -55, -39, -208, -61, -208, -143, -143,
-	-143, -152, -143, 186, -143, 186, -208, -208, -208, 53,
-	19, -208, 53, 19, -207, -32, 285, -37, 27, -93,
-	53, -208, -208, -208, 53, 109, -208, -86, -89, -117,
-	135, -89, -89, -89, -126, -117, -86, 54, 53, -143,
-	-143, -160, 155, 156, 29, 157, -160, 309, 135, 135,
-	-196, -197, -37, -89, 299, 53, 54, -199, 210, 200,
-	239, 216, -208, 54, 54, 54, -146, -145, 57, -145,
+	28, 58, -199, 52, -189, 311, -189, -207, -143, 52,
+	-143, 52, 52, 54, -146, -146, -145, -146, -146, -146,
+	55, 106, 54, 53, 54, 199, 199, 53, 54, 53,
+	-51, -117, 53, 80, -188, 19, 159, 160, -51, -202,
+	-210, 120, 135, -128, -117, -128, -117, -51, -128, -117,
+	127, -158, 57, -37, -55, -39, -208, -61, -208, -143,
+	-143, -143, -152, -143, 186, -143, 186, -208, -208, -208,
+	53, 19, -208, 53, 19, -207, -32, 285, -37, 27,
+	-93, 53, -208, -208, -208, 53, 109, -208, -86, -89,
+	-117, 135, -89, -89, -89, -126, -117, -86, 54, 53,
+	-143, -143, -160, 155, 156, 29, 157, -160, 309, 135,
+	135, -196, -197, -37, -89, 299, 53, 54, -199, -135,
+	239, 55, -208, 54, 54, 54, -146, -145, 57, -145,
 	246, 246, 58, 58, 52, 51, 50, -181, -169, 122,
 	20, 6, 8, 9, 10, 19, 22, -117, 52, 26,
 	-117, -80, 13, -145, 55, -61, -61, -61, -61, -61,
@@ -2817,201 +2817,201 @@ var yyChk = [...]int{
 	54, -208, -208, -208, -54, -174, -176, 291, -175, 51,
 	132, 64, 164, 165, 166, 167, 168, 169, 170, -171,
 	-85, -197, 50, 66, 158, -197, 50, -161, -117, -196,
-	-207, -208, 54, 52, 58, 54, 208, -150, -146, -146,
-	54, 54, -172, -117, -51, -162, -117, 173, -203, -204,
-	-7, -9, -8, 52, -89, -207, 125, -81, 14, 16,
-	-208, -208, -208, -208, -31, 90, 291, 9, -70, -2,
-	109, -117, -173, 50, -175, 291, 52, 293, 55, -164,
-	80, 57, 80, 80, 80, 80, 80, 80, 80, 9,
-	10, 52, 52, -37, -193, 157, -195, 54, 54, 54,
-	52, 52, -190, 53, 51, 174, -204, -172, 54, -178,
-	-179, 145, 135, -37, -69, -208, 289, 47, 294, -94,
-	-208, -117, -117, -177, -175, -117, 58, -200, 50, 69,
-	58, -200, -200, -200, -200, -200, -160, -160, -162, -172,
-	-208, 286, 54, 176, 301, 302, 144, 303, 157, 304,
-	305, -90, 310, -172, -172, -191, 291, -117, -37, -204,
-	54, -185, -208, 53, -117, 52, 37, 290, 295, -207,
-	54, 53, -197, -197, 54, 54, 291, 58, 16, 58,
-	58, 58, 58, 302, 144, 304, 16, -55, 52, 54,
-	54, 312, -183, -179, 32, -172, 37, -117, -175, 128,
-	-174, 58, 58, 306, -123, -174, -89, -55, -174, -37,
-	147, 54, 291, -208, -51, -173, 109, -173, 54, -174,
-	148, 294, 52, -118, -207, 295, -162, -61, 144, 54,
-	-208, -208,
+	-207, -208, 54, 52, 58, 54, -149, -149, -149, -146,
+	-146, 54, 54, -172, -117, -51, -162, -117, 173, -203,
+	-204, -7, -9, -8, 52, -89, -207, 125, -81, 14,
+	16, -208, -208, -208, -208, -31, 90, 291, 9, -70,
+	-2, 109, -117, -173, 50, -175, 291, 52, 293, 55,
+	-164, 80, 57, 80, 80, 80, 80, 80, 80, 80,
+	9, 10, 52, 52, -37, -193, 157, -195, 54, 54,
+	54, 52, 52, -190, 53, 51, 174, -204, -172, 54,
+	-178, -179, 145, 135, -37, -69, -208, 289, 47, 294,
+	-94, -208, -117, -117, -177, -175, -117, 58, -200, 50,
+	69, 58, -200, -200, -200, -200, -200, -160, -160, -162,
+	-172, -208, 286, 54, 176, 301, 302, 144, 303, 157,
+	304, 305, -90, 310, -172, -172, -191, 291, -117, -37,
+	-204, 54, -185, -208, 53, -117, 52, 37, 290, 295,
+	-207, 54, 53, -197, -197, 54, 54, 291, 58, 16,
+	58, 58, 58, 58, 302, 144, 304, 16, -55, 52,
+	54, 54, 312, -183, -179, 32, -172, 37, -117, -175,
+	128, -174, 58, 58, 306, -123, -174, -89, -55, -174,
+	-37, 147, 54, 291, -208, -51, -173, 109, -173, 54,
+	-174, 148, 294, 52, -118, -207, 295, -162, -61, 144,
+	54, -208, -208,
 }
 
 var yyDef = [...]int{
 	0, -2, 2, -2, 5, 6, 7, 8, 9, 10,
 	11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
-	21, 674, 0, 430, 430, 430, 430, 430, 430, 0,
-	-2, 728, 0, 0, 0, 0, -2, 420, 421, 0,
-	423, 424, 995, 995, 995, 995, 995, 0, 33, 34,
-	993, 1, 3, 682, 0, 0, 434, 437, 432, 0,
-	728, 0, 0, 0, 60, 0, 317, 0, 0, 726,
-	726, 0, 0, 726, 95, 0, 0, 0, 729, 0,
-	724, 0, 724, 724, 724, 0, 379, 502, 749, 750,
-	860, 861, 862, 863, 864, 865, 866, 867, 868, 869,
-	870, 871, 872, 873, 874, 875, 876, 877, 878, 879,
-	880, 881, 882, 883, 884, 885, 886, 887, 888, 889,
-	890, 891, 892, 893, 894, 895, 896, 897, 898, 899,
-	900, 901, 902, 903, 904, 905, 906, 907, 908, 909,
-	910, 911, 912, 913, 914, 915, 916, 917, 918, 919,
-	920, 921, 922, 923, 924, 925, 926, 927, 928, 929,
-	930, 931, 932, 933, 934, 935, 936, 937, 938, 939,
-	940, 941, 942, 943, 944, 945, 946, 947, 948, 949,
-	950, 951, 952, 953, 954, 955, 956, 957, 958, 959,
-	960, 961, 962, 963, 964, 965, 966, 967, 968, 969,
-	970, 971, 972, 973, 974, 975, 976, 977, 978, 979,
-	980, 981, 982, 983, 984, 985, 986, 987, 988, 989,
-	990, 991, 992, 0, 0, 0, 0, 996, 996, 996,
-	996, 0, 996, 408, 397, 399, 400, 401, 402, 996,
-	417, 418, 407, 419, 422, 425, 426, 427, 428, 429,
-	27, 686, 0, 0, 674, 29, 0, 430, 435, 436,
-	440, 438, 439, 431, 0, 448, 452, 0, 512, 0,
-	517, 519, -2, -2, 0, 554, 555, 556, 557, 558,
-	0, 0, 0, 0, 0, 0, 0, 582, 583, 584,
-	585, 659, 660, 661, 662, 663, 664, 665, 666, 521,
-	522, 656, 706, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 647, 0, 613, 613, 613, 613, 613, 613,
-	613, 613, 0, 0, 0, 0, 0, 0, 0, 459,
-	461, 462, 463, 483, 0, 485, 0, 0, 41, 45,
-	0, 962, 710, -2, -2, 0, 0, 747, 748, -2,
-	872, -2, 745, 746, 753, 754, 755, 756, 757, 758,
-	759, 760, 761, 762, 763, 764, 765, 766, 767, 768,
-	769, 770, 771, 772, 773, 774, 775, 776, 777, 778,
-	779, 780, 781, 782, 783, 784, 785, 786, 787, 788,
-	789, 790, 791, 792, 793, 794, 795, 796, 797, 798,
-	799, 800, 801, 802, 803, 804, 805, 806, 807, 808,
-	809, 810, 811, 812, 813, 814, 815, 816, 817, 818,
-	819, 820, 821, 822, 823, 824, 825, 826, 827, 828,
-	829, 830, 831, 832, 833, 834, 835, 836, 837, 838,
-	839, 840, 841, 842, 843, 844, 845, 846, 847, 848,
-	849, 850, 851, 852, 853, 854, 855, 856, 857, 858,
-	859, 0, 108, 0, 0, 318, 319, 0, 96, 0,
-	0, 0, 0, 0, 0, 105, 0, 996, 0, 0,
-	0, 0, 0, 0, 0, 378, 0, 380, 996, 996,
-	996, 996, 996, 996, 996, 996, 389, 997, 998, 390,
-	391, 392, 996, 996, 394, 0, 409, 0, 403, 28,
-	994, 22, 0, 0, 683, 0, 675, 676, 679, 682,
-	27, 437, 0, 442, 441, 433, 0, 449, 0, 0,
-	0, 453, 0, 455, 456, 0, 515, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 539, 540, 541,
-	542, 543, 544, 545, 518, 0, 532, 0, 0, 0,
-	574, 575, 576, 577, 578, 579, 0, 444, 27, 0,
-	552, 0, 0, 0, 0, 0, 0, 0, 0, 440,
-	0, 648, 0, 604, 0, 605, 606, 607, 608, 609,
-	610, 611, 612, 640, 0, 642, 643, 644, 645, 646,
-	182, 183, 184, 185, 186, 187, 188, 189, 190, 191,
-	208, 209, 0, 444, 0, 0, 43, 0, 501, 0,
-	0, 0, 0, 0, 0, 490, 0, 0, 493, 0,
-	0, 0, 0, 484, 0, 0, 504, 926, 486, 0,
-	488, 489, -2, 0, 0, 0, 39, 40, 0, 46,
-	962, 48, 49, 0, 0, 0, 263, 719, 720, 721,
-	717, 326, 0, 113, 257, 253, 115, 116, 117, 118,
-	243, 181, 243, 243, 243, 243, 243, 215, 243, 243,
-	260, 260, 260, 260, 260, 224, 225, 226, 227, 228,
-	229, 230, 0, 0, 200, 243, 243, 243, 204, 243,
-	206, 207, 233, 234, 235, 236, 237, 238, 239, 240,
-	245, 245, 245, 247, 247, 198, 199, 0, 0, 99,
-	0, 996, 0, 996, 0, 0, 0, 71, 72, 106,
-	0, 0, 345, 0, 373, 725, 0, 996, 376, 377,
-	503, 751, 752, 381, 382, 383, 384, 385, 386, 387,
-	388, 393, 396, 410, 404, 405, 398, 687, 0, 0,
-	0, 0, 0, 678, 680, 681, 686, 30, 440, 0,
-	667, 0, 0, 0, 443, 25, 513, 514, 516, 533,
-	0, 535, 537, 454, 450, 0, 657, -2, 523, 524,
-	548, 549, 550, 0, 0, 0, 0, 546, 528, 0,
-	559, 560, 561, 562, 563, 564, 565, 566, 567, 568,
-	569, 570, 573, 624, 625, 581, 0, 571, 572, 580,
-	0, 0, 445, 446, 551, 0, 705, 27, 0, 0,
-	0, 0, 0, 656, 0, 0, 0, 0, 654, 651,
-	0, 0, 614, 641, 0, 0, 0, 0, 0, 0,
-	500, 508, 707, 0, 460, 479, 481, 0, 476, 491,
-	492, 494, 0, 496, 0, 498, 499, 464, 465, 466,
-	0, 0, 0, 0, 487, 508, 0, 508, 42, 711,
-	47, 0, 0, 52, 53, 712, 713, 714, 715, 264,
-	0, 107, 327, 329, 332, 333, 334, 109, 110, 111,
-	112, 0, 320, 322, 0, 0, 0, 0, 0, 300,
-	301, 120, 0, 122, 0, 0, 125, 126, 0, 128,
-	130, 320, 0, 0, 0, 0, 0, 119, 0, 259,
-	255, 254, 180, 0, 260, 260, 243, 260, 260, 260,
-	217, 218, 263, 0, 263, 263, 263, 263, 0, 0,
-	250, 250, 203, 205, 192, 0, 245, 194, 195, 196,
-	0, 197, 0, 0, 65, 0, 97, 98, 66, 727,
-	67, 81, 0, 73, 74, 75, 0, 995, 94, 0,
-	740, 346, 730, 731, 732, 733, 734, 735, 736, 737,
-	738, 739, 0, 0, 372, 996, 375, 413, 0, 0,
-	0, 684, 685, 0, 677, 23, 0, 722, 723, 668,
-	669, 457, 534, 536, 538, 0, 444, 525, 546, 529,
-	0, 526, 0, 0, 520, 586, 0, 0, 553, -2,
-	589, 590, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 674, 0, 652, 0, 0, 603, 615, 616, 617,
-	618, 699, 0, 0, -2, 0, 0, 674, 0, 0,
-	0, 473, 480, 0, 0, 474, 0, 475, 495, 497,
-	0, 0, 0, 0, 471, 674, 508, 38, 50, 51,
-	0, 0, 57, 265, 0, 330, 0, 0, 306, 0,
-	0, 0, 323, 292, 0, 0, 295, 0, 297, 317,
+	21, 673, 0, 429, 429, 429, 429, 429, 429, 0,
+	-2, 727, 0, 0, 0, 0, -2, 419, 420, 0,
+	422, 423, 994, 994, 994, 994, 994, 0, 33, 34,
+	992, 1, 3, 681, 0, 0, 433, 436, 431, 0,
+	727, 0, 0, 0, 60, 0, 316, 0, 0, 725,
+	725, 0, 0, 725, 95, 0, 0, 0, 728, 0,
+	723, 0, 723, 723, 723, 0, 378, 501, 748, 749,
+	859, 860, 861, 862, 863, 864, 865, 866, 867, 868,
+	869, 870, 871, 872, 873, 874, 875, 876, 877, 878,
+	879, 880, 881, 882, 883, 884, 885, 886, 887, 888,
+	889, 890, 891, 892, 893, 894, 895, 896, 897, 898,
+	899, 900, 901, 902, 903, 904, 905, 906, 907, 908,
+	909, 910, 911, 912, 913, 914, 915, 916, 917, 918,
+	919, 920, 921, 922, 923, 924, 925, 926, 927, 928,
+	929, 930, 931, 932, 933, 934, 935, 936, 937, 938,
+	939, 940, 941, 942, 943, 944, 945, 946, 947, 948,
+	949, 950, 951, 952, 953, 954, 955, 956, 957, 958,
+	959, 960, 961, 962, 963, 964, 965, 966, 967, 968,
+	969, 970, 971, 972, 973, 974, 975, 976, 977, 978,
+	979, 980, 981, 982, 983, 984, 985, 986, 987, 988,
+	989, 990, 991, 0, 0, 0, 0, 995, 995, 995,
+	995, 0, 995, 407, 396, 398, 399, 400, 401, 995,
+	416, 417, 406, 418, 421, 424, 425, 426, 427, 428,
+	27, 685, 0, 0, 673, 29, 0, 429, 434, 435,
+	439, 437, 438, 430, 0, 447, 451, 0, 511, 0,
+	516, 518, -2, -2, 0, 553, 554, 555, 556, 557,
+	0, 0, 0, 0, 0, 0, 0, 581, 582, 583,
+	584, 658, 659, 660, 661, 662, 663, 664, 665, 520,
+	521, 655, 705, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 646, 0, 612, 612, 612, 612, 612, 612,
+	612, 612, 0, 0, 0, 0, 0, 0, 0, 458,
+	460, 461, 462, 482, 0, 484, 0, 0, 41, 45,
+	0, 961, 709, -2, -2, 0, 0, 746, 747, -2,
+	871, -2, 744, 745, 752, 753, 754, 755, 756, 757,
+	758, 759, 760, 761, 762, 763, 764, 765, 766, 767,
+	768, 769, 770, 771, 772, 773, 774, 775, 776, 777,
+	778, 779, 780, 781, 782, 783, 784, 785, 786, 787,
+	788, 789, 790, 791, 792, 793, 794, 795, 796, 797,
+	798, 799, 800, 801, 802, 803, 804, 805, 806, 807,
+	808, 809, 810, 811, 812, 813, 814, 815, 816, 817,
+	818, 819, 820, 821, 822, 823, 824, 825, 826, 827,
+	828, 829, 830, 831, 832, 833, 834, 835, 836, 837,
+	838, 839, 840, 841, 842, 843, 844, 845, 846, 847,
+	848, 849, 850, 851, 852, 853, 854, 855, 856, 857,
+	858, 0, 108, 0, 0, 317, 318, 0, 96, 0,
+	0, 0, 0, 0, 0, 105, 0, 995, 0, 0,
+	0, 0, 0, 0, 0, 377, 0, 379, 995, 995,
+	995, 995, 995, 995, 995, 995, 388, 996, 997, 389,
+	390, 391, 995, 995, 393, 0, 408, 0, 402, 28,
+	993, 22, 0, 0, 682, 0, 674, 675, 678, 681,
+	27, 436, 0, 441, 440, 432, 0, 448, 0, 0,
+	0, 452, 0, 454, 455, 0, 514, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 538, 539, 540,
+	541, 542, 543, 544, 517, 0, 531, 0, 0, 0,
+	573, 574, 575, 576, 577, 578, 0, 443, 27, 0,
+	551, 0, 0, 0, 0, 0, 0, 0, 0, 439,
+	0, 647, 0, 603, 0, 604, 605, 606, 607, 608,
+	609, 610, 611, 639, 0, 641, 642, 643, 644, 645,
+	181, 182, 183, 184, 185, 186, 187, 188, 189, 190,
+	207, 208, 0, 443, 0, 0, 43, 0, 500, 0,
+	0, 0, 0, 0, 0, 489, 0, 0, 492, 0,
+	0, 0, 0, 483, 0, 0, 503, 925, 485, 0,
+	487, 488, -2, 0, 0, 0, 39, 40, 0, 46,
+	961, 48, 49, 0, 0, 0, 262, 718, 719, 720,
+	716, 325, 0, 113, 256, 252, 115, 116, 117, 118,
+	242, 180, 242, 242, 242, 242, 242, 214, 242, 242,
+	259, 259, 259, 259, 259, 223, 224, 225, 226, 227,
+	228, 229, 0, 0, 199, 242, 242, 242, 203, 242,
+	205, 206, 232, 233, 234, 235, 236, 237, 238, 239,
+	244, 244, 244, 246, 246, 197, 198, 0, 0, 99,
+	0, 995, 0, 995, 0, 0, 0, 71, 72, 106,
+	0, 0, 344, 0, 372, 724, 0, 995, 375, 376,
+	502, 750, 751, 380, 381, 382, 383, 384, 385, 386,
+	387, 392, 395, 409, 403, 404, 397, 686, 0, 0,
+	0, 0, 0, 677, 679, 680, 685, 30, 439, 0,
+	666, 0, 0, 0, 442, 25, 512, 513, 515, 532,
+	0, 534, 536, 453, 449, 0, 656, -2, 522, 523,
+	547, 548, 549, 0, 0, 0, 0, 545, 527, 0,
+	558, 559, 560, 561, 562, 563, 564, 565, 566, 567,
+	568, 569, 572, 623, 624, 580, 0, 570, 571, 579,
+	0, 0, 444, 445, 550, 0, 704, 27, 0, 0,
+	0, 0, 0, 655, 0, 0, 0, 0, 653, 650,
+	0, 0, 613, 640, 0, 0, 0, 0, 0, 0,
+	499, 507, 706, 0, 459, 478, 480, 0, 475, 490,
+	491, 493, 0, 495, 0, 497, 498, 463, 464, 465,
+	0, 0, 0, 0, 486, 507, 0, 507, 42, 710,
+	47, 0, 0, 52, 53, 711, 712, 713, 714, 263,
+	0, 107, 326, 328, 331, 332, 333, 109, 110, 111,
+	112, 0, 319, 321, 0, 0, 0, 0, 0, 299,
+	300, 120, 0, 122, 0, 0, 125, 126, 0, 128,
+	130, 319, 0, 0, 0, 0, 0, 119, 0, 258,
+	254, 253, 179, 0, 259, 259, 242, 259, 259, 259,
+	216, 217, 262, 0, 262, 262, 262, 262, 0, 0,
+	249, 249, 202, 204, 191, 0, 244, 193, 194, 195,
+	0, 196, 0, 0, 65, 0, 97, 98, 66, 726,
+	67, 81, 0, 73, 74, 75, 0, 994, 94, 0,
+	739, 345, 729, 730, 731, 732, 733, 734, 735, 736,
+	737, 738, 0, 0, 371, 995, 374, 412, 0, 0,
+	0, 683, 684, 0, 676, 23, 0, 721, 722, 667,
+	668, 456, 533, 535, 537, 0, 443, 524, 545, 528,
+	0, 525, 0, 0, 519, 585, 0, 0, 552, -2,
+	588, 589, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 673, 0, 651, 0, 0, 602, 614, 615, 616,
+	617, 698, 0, 0, -2, 0, 0, 673, 0, 0,
+	0, 472, 479, 0, 0, 473, 0, 474, 494, 496,
+	0, 0, 0, 0, 470, 673, 507, 38, 50, 51,
+	0, 0, 57, 264, 0, 329, 0, 0, 305, 0,
+	0, 0, 322, 291, 0, 0, 294, 0, 296, 316,
 	121, 0, 0, 0, 127, 129, 0, 133, 134, 0,
 	151, 0, 0, 140, 0, 175, 144, 145, 146, 147,
-	148, 149, 0, 243, 243, 171, 0, 258, 114, 256,
-	0, 263, 263, 260, 263, 263, 263, 219, 0, 220,
-	221, 222, 223, 0, 241, 0, 201, 0, 0, 202,
-	0, 193, 0, 0, 0, -2, 100, 101, 0, 84,
-	0, 0, 0, 335, 0, 995, 0, 360, 361, 362,
-	363, 364, 365, 366, 995, 0, 347, 348, 349, 350,
-	351, 352, 353, 354, 355, 356, 357, 0, 995, 741,
-	742, 743, 744, 0, 0, 374, 395, 0, 0, 411,
-	412, 688, 0, 24, 508, 0, 451, 658, 0, 527,
-	0, 547, 530, 587, 447, 0, 243, 243, 629, 243,
-	247, 632, 633, 243, 635, 243, 638, 0, 0, 0,
-	0, 657, 0, 0, 0, 649, 602, 655, 0, 31,
-	0, 699, 689, 701, 703, 0, 27, 0, 695, 0,
-	682, 708, 509, 709, 477, 0, 482, 0, 0, 0,
-	485, 0, 682, 37, 54, 55, 56, 328, 331, 0,
-	302, 243, 243, 0, 0, 0, 0, 0, 293, 294,
-	296, 298, 317, 139, 123, 320, 124, 0, 0, 0,
-	152, 0, 0, 0, 143, 0, 0, 167, 0, 169,
-	0, 0, 244, 210, 211, 263, 212, 213, 214, 261,
-	262, 260, 0, 260, 0, 0, 0, 248, 0, 0,
-	0, 0, 0, 0, 0, 82, 83, 0, 0, 0,
-	358, 359, 339, 0, 340, 342, 343, 344, 0, 322,
-	338, 414, 415, 670, 458, 588, 531, 591, 626, 260,
-	630, 631, 634, 636, 637, 639, 593, 592, 594, 0,
-	0, 597, 0, 0, 0, 0, 0, 653, 0, 32,
-	0, 704, -2, 0, 0, 0, 44, 35, 0, 468,
-	469, 0, 0, 0, 504, 472, 36, 267, 0, 679,
-	305, 320, 312, 313, 0, 0, 320, 321, 322, 317,
-	299, 0, 0, 0, 136, 0, 141, 0, 0, 250,
-	178, 179, 150, 168, 170, 172, 216, 263, 242, 263,
-	251, 252, 0, 0, 0, 0, 0, 102, 103, 0,
+	175, 149, 0, 242, 242, 171, 0, 257, 114, 255,
+	0, 262, 262, 259, 262, 262, 262, 218, 0, 219,
+	220, 221, 222, 0, 240, 0, 200, 0, 0, 201,
+	0, 192, 0, 0, 0, -2, 100, 101, 0, 84,
+	0, 0, 0, 334, 0, 994, 0, 359, 360, 361,
+	362, 363, 364, 365, 994, 0, 346, 347, 348, 349,
+	350, 351, 352, 353, 354, 355, 356, 0, 994, 740,
+	741, 742, 743, 0, 0, 373, 394, 0, 0, 410,
+	411, 687, 0, 24, 507, 0, 450, 657, 0, 526,
+	0, 546, 529, 586, 446, 0, 242, 242, 628, 242,
+	246, 631, 632, 242, 634, 242, 637, 0, 0, 0,
+	0, 656, 0, 0, 0, 648, 601, 654, 0, 31,
+	0, 698, 688, 700, 702, 0, 27, 0, 694, 0,
+	681, 707, 508, 708, 476, 0, 481, 0, 0, 0,
+	484, 0, 681, 37, 54, 55, 56, 327, 330, 0,
+	301, 242, 242, 0, 0, 0, 0, 0, 292, 293,
+	295, 297, 316, 139, 123, 319, 124, 0, 0, 0,
+	152, 0, 0, 0, 143, 0, 148, 0, 167, 0,
+	169, 0, 0, 243, 209, 210, 262, 211, 212, 213,
+	260, 261, 259, 0, 259, 0, 0, 0, 247, 0,
+	0, 0, 0, 0, 0, 0, 82, 83, 0, 0,
+	0, 357, 358, 338, 0, 339, 341, 342, 343, 0,
+	321, 337, 413, 414, 669, 457, 587, 530, 590, 625,
+	259, 629, 630, 633, 635, 636, 638, 592, 591, 593,
+	0, 0, 596, 0, 0, 0, 0, 0, 652, 0,
+	32, 0, 703, -2, 0, 0, 0, 44, 35, 0,
+	467, 468, 0, 0, 0, 503, 471, 36, 266, 0,
+	678, 304, 319, 311, 312, 0, 0, 319, 320, 321,
+	316, 298, 0, 0, 0, 136, 0, 141, 0, 256,
+	256, 256, 150, 168, 170, 172, 215, 262, 241, 262,
+	250, 251, 0, 0, 0, 0, 0, 102, 103, 0,
 	85, 86, 87, 88, 89, 0, 0, 0, 0, 0,
-	323, 672, 0, 627, 628, 0, 0, 0, 0, 619,
-	601, 650, 0, 702, 0, -2, 0, 697, 696, 0,
-	478, 505, 506, 507, 467, 289, 268, 0, 270, 0,
-	285, 0, 0, 0, 0, 0, 0, 0, 0, 303,
-	304, 307, 0, 314, 315, 308, 0, 0, 323, 0,
-	0, 173, 135, 153, 0, 0, 176, 177, 231, 232,
-	246, 249, 0, 0, 0, 90, 324, 0, 70, 76,
-	78, 79, 80, 0, 0, 0, 0, 26, 0, 0,
-	595, 596, 598, 599, 0, 0, 0, 0, 692, 27,
-	0, 470, 266, 0, 271, 0, 0, 0, 274, 0,
-	286, 276, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 131, 0, 0, 138, 142, 510,
-	0, 0, 92, 0, 0, 0, 77, 0, 96, 0,
-	368, 0, 0, 673, 671, 600, 0, 0, 0, 700,
-	-2, 698, 290, 0, 272, 277, 275, 278, 287, 288,
-	279, 280, 281, 282, 283, 284, 320, 320, 0, 0,
-	132, 174, 137, 0, 0, 0, 0, 0, 0, 164,
-	0, 508, 0, 0, 0, 68, 0, 325, 91, 69,
-	336, 99, 367, 0, 0, 0, 620, 0, 623, 0,
-	269, 0, 309, 310, 0, 267, 0, 155, 0, 157,
-	158, 159, 160, 161, 162, 163, 0, 267, 0, 508,
-	267, 0, 341, 369, 0, 0, 621, 0, 273, 0,
-	289, 154, 156, 165, 0, 289, 0, 267, 62, 93,
-	0, 337, 0, 291, 0, 316, 0, 61, 511, 63,
-	0, 0, 0, 166, 0, 622, 0, 0, 0, 311,
-	370, 371,
+	322, 671, 0, 626, 627, 0, 0, 0, 0, 618,
+	600, 649, 0, 701, 0, -2, 0, 696, 695, 0,
+	477, 504, 505, 506, 466, 288, 267, 0, 269, 0,
+	284, 0, 0, 0, 0, 0, 0, 0, 0, 302,
+	303, 306, 0, 313, 314, 307, 0, 0, 322, 0,
+	0, 173, 135, 153, 0, 0, 176, 177, 178, 230,
+	231, 245, 248, 0, 0, 0, 90, 323, 0, 70,
+	76, 78, 79, 80, 0, 0, 0, 0, 26, 0,
+	0, 594, 595, 597, 598, 0, 0, 0, 0, 691,
+	27, 0, 469, 265, 0, 270, 0, 0, 0, 273,
+	0, 285, 275, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 131, 0, 0, 138, 142,
+	509, 0, 0, 92, 0, 0, 0, 77, 0, 96,
+	0, 367, 0, 0, 672, 670, 599, 0, 0, 0,
+	699, -2, 697, 289, 0, 271, 276, 274, 277, 286,
+	287, 278, 279, 280, 281, 282, 283, 319, 319, 0,
+	0, 132, 174, 137, 0, 0, 0, 0, 0, 0,
+	164, 0, 507, 0, 0, 0, 68, 0, 324, 91,
+	69, 335, 99, 366, 0, 0, 0, 619, 0, 622,
+	0, 268, 0, 308, 309, 0, 266, 0, 155, 0,
+	157, 158, 159, 160, 161, 162, 163, 0, 266, 0,
+	507, 266, 0, 340, 368, 0, 0, 620, 0, 272,
+	0, 288, 154, 156, 165, 0, 288, 0, 266, 62,
+	93, 0, 336, 0, 290, 0, 315, 0, 61, 510,
+	63, 0, 0, 0, 166, 0, 621, 0, 0, 0,
+	310, 369, 370,
 }
 
 var yyTok1 = [...]int{
@@ -4272,7 +4272,7 @@ yydefault:
 			yyVAL.optVal = yyDollar[1].optVal
 		}
 	case 148:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:1058
 		{
 			yyVAL.optVal = NewBitVal(yyDollar[1].bytes)
@@ -4452,831 +4452,831 @@ yydefault:
 		{
 			yyVAL.bytes = nil
 		}
-	case 180:
+	case 179:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1196
+//line sqlparser/parser.y:1195
 		{
 			yyVAL.columnType = yyDollar[1].columnType
 			yyVAL.columnType.Length = yyDollar[2].optVal
 		}
-	case 181:
+	case 180:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1201
+//line sqlparser/parser.y:1200
 		{
 			yyVAL.columnType = yyDollar[1].columnType
 		}
+	case 181:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:1206
+		{
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
+		}
 	case 182:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1207
+//line sqlparser/parser.y:1210
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 183:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1211
+//line sqlparser/parser.y:1214
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 184:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1215
+//line sqlparser/parser.y:1218
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 185:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1219
+//line sqlparser/parser.y:1222
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 186:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1223
+//line sqlparser/parser.y:1226
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 187:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1227
+//line sqlparser/parser.y:1230
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 188:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1231
+//line sqlparser/parser.y:1234
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1235
+//line sqlparser/parser.y:1238
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 190:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1239
+//line sqlparser/parser.y:1242
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 191:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1243
-		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
-		}
-	case 192:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1249
+//line sqlparser/parser.y:1248
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 193:
+	case 192:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1255
+//line sqlparser/parser.y:1254
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes)}
 			yyVAL.columnType.Length = yyDollar[3].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[3].LengthScaleOption.Scale
 		}
-	case 194:
+	case 193:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1261
+//line sqlparser/parser.y:1260
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 195:
+	case 194:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1267
+//line sqlparser/parser.y:1266
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 196:
+	case 195:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1273
+//line sqlparser/parser.y:1272
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 197:
+	case 196:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1279
+//line sqlparser/parser.y:1278
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 			yyVAL.columnType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.columnType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 198:
+	case 197:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1285
+//line sqlparser/parser.y:1284
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 199:
+	case 198:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1289
+//line sqlparser/parser.y:1288
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 200:
+	case 199:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1295
+//line sqlparser/parser.y:1294
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 201:
+	case 200:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1299
+//line sqlparser/parser.y:1298
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Timezone: yyDollar[3].boolVal}
 		}
-	case 202:
+	case 201:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1303
+//line sqlparser/parser.y:1302
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Timezone: yyDollar[3].boolVal}
 		}
-	case 203:
+	case 202:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1307
+//line sqlparser/parser.y:1306
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 204:
+	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1311
+//line sqlparser/parser.y:1310
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 205:
+	case 204:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1315
+//line sqlparser/parser.y:1314
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
+	case 205:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:1318
+		{
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
+		}
 	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1319
+//line sqlparser/parser.y:1322
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1323
+//line sqlparser/parser.y:1328
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1329
+//line sqlparser/parser.y:1332
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 209:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1333
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line sqlparser/parser.y:1338
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 210:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1339
+//line sqlparser/parser.y:1342
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 211:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1343
+//line sqlparser/parser.y:1346
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 212:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1347
+//line sqlparser/parser.y:1350
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 213:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1351
+//line sqlparser/parser.y:1354
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
 		}
 	case 214:
-		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1355
-		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Collate: yyDollar[4].str}
-		}
-	case 215:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1359
+//line sqlparser/parser.y:1358
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
-	case 216:
+	case 215:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1363
+//line sqlparser/parser.y:1362
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Length: yyDollar[3].optVal, Charset: yyDollar[4].str, Collate: yyDollar[5].str}
 		}
-	case 217:
+	case 216:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1367
+//line sqlparser/parser.y:1366
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 218:
+	case 217:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1371
+//line sqlparser/parser.y:1370
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
+	case 218:
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:1374
+		{
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
+		}
 	case 219:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1375
+//line sqlparser/parser.y:1378
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
 	case 220:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1379
+//line sqlparser/parser.y:1382
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
 	case 221:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1383
+//line sqlparser/parser.y:1386
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
 	case 222:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1387
+//line sqlparser/parser.y:1390
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
 		}
 	case 223:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1391
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:1394
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), Charset: yyDollar[2].str, Collate: yyDollar[3].str}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 224:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1395
+//line sqlparser/parser.y:1398
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 225:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1399
+//line sqlparser/parser.y:1402
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 226:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1403
+//line sqlparser/parser.y:1406
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 227:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1407
+//line sqlparser/parser.y:1410
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 228:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1411
+//line sqlparser/parser.y:1414
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 229:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1415
+//line sqlparser/parser.y:1418
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 230:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1419
+		yyDollar = yyS[yypt-6 : yypt+1]
+//line sqlparser/parser.y:1422
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), EnumValues: yyDollar[3].strs, Charset: yyDollar[5].str, Collate: yyDollar[6].str}
 		}
 	case 231:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1423
+//line sqlparser/parser.y:1427
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), EnumValues: yyDollar[3].strs, Charset: yyDollar[5].str, Collate: yyDollar[6].str}
 		}
 	case 232:
-		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1428
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:1433
 		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes), EnumValues: yyDollar[3].strs, Charset: yyDollar[5].str, Collate: yyDollar[6].str}
+			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 233:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1434
+//line sqlparser/parser.y:1437
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 234:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1438
+//line sqlparser/parser.y:1441
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 235:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1442
+//line sqlparser/parser.y:1445
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 236:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1446
+//line sqlparser/parser.y:1449
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 237:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1450
+//line sqlparser/parser.y:1453
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 238:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1454
+//line sqlparser/parser.y:1457
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 239:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1458
+//line sqlparser/parser.y:1461
 		{
 			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
 		}
 	case 240:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1462
-		{
-			yyVAL.columnType = ColumnType{Type: string(yyDollar[1].bytes)}
-		}
-	case 241:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1468
+//line sqlparser/parser.y:1467
 		{
 			yyVAL.strs = make([]string, 0, 4)
 			yyVAL.strs = append(yyVAL.strs, "'"+string(yyDollar[1].bytes)+"'")
 		}
-	case 242:
+	case 241:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1473
+//line sqlparser/parser.y:1472
 		{
 			yyVAL.strs = append(yyDollar[1].strs, "'"+string(yyDollar[3].bytes)+"'")
 		}
-	case 243:
+	case 242:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1478
+//line sqlparser/parser.y:1477
 		{
 			yyVAL.optVal = nil
 		}
-	case 244:
+	case 243:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1482
+//line sqlparser/parser.y:1481
 		{
 			yyVAL.optVal = NewIntVal(yyDollar[2].bytes)
 		}
-	case 245:
+	case 244:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1487
+//line sqlparser/parser.y:1486
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{}
 		}
-	case 246:
+	case 245:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1491
+//line sqlparser/parser.y:1490
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{
 				Length: NewIntVal(yyDollar[2].bytes),
 				Scale:  NewIntVal(yyDollar[4].bytes),
 			}
 		}
-	case 247:
+	case 246:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1499
+//line sqlparser/parser.y:1498
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{}
 		}
-	case 248:
+	case 247:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1503
+//line sqlparser/parser.y:1502
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{
 				Length: NewIntVal(yyDollar[2].bytes),
 			}
 		}
-	case 249:
+	case 248:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1509
+//line sqlparser/parser.y:1508
 		{
 			yyVAL.LengthScaleOption = LengthScaleOption{
 				Length: NewIntVal(yyDollar[2].bytes),
 				Scale:  NewIntVal(yyDollar[4].bytes),
 			}
 		}
-	case 250:
+	case 249:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1517
+//line sqlparser/parser.y:1516
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 251:
+	case 250:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1521
+//line sqlparser/parser.y:1520
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 252:
+	case 251:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1525
+//line sqlparser/parser.y:1524
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 253:
+	case 252:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1530
+//line sqlparser/parser.y:1529
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 254:
+	case 253:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1534
+//line sqlparser/parser.y:1533
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 255:
+	case 254:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1539
+//line sqlparser/parser.y:1538
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 256:
+	case 255:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1543
+//line sqlparser/parser.y:1542
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 257:
+	case 256:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1548
+//line sqlparser/parser.y:1547
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 258:
+	case 257:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1552
+//line sqlparser/parser.y:1551
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 259:
+	case 258:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1556
+//line sqlparser/parser.y:1555
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 260:
+	case 259:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1561
+//line sqlparser/parser.y:1560
 		{
 			yyVAL.str = ""
 		}
-	case 261:
+	case 260:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1565
+//line sqlparser/parser.y:1564
 		{
 			yyVAL.str = string(yyDollar[3].bytes)
 		}
-	case 262:
+	case 261:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1569
+//line sqlparser/parser.y:1568
 		{
 			yyVAL.str = string(yyDollar[3].bytes)
 		}
-	case 263:
+	case 262:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1574
+//line sqlparser/parser.y:1573
 		{
 			yyVAL.str = ""
 		}
-	case 264:
+	case 263:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1578
+//line sqlparser/parser.y:1577
 		{
 			yyVAL.str = string(yyDollar[1].bytes) // Set pseudo collation "binary" for BINARY attribute (deprecated in future MySQL versions)
 		}
-	case 265:
+	case 264:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1582
+//line sqlparser/parser.y:1581
 		{
 			yyVAL.str = string(yyDollar[2].bytes)
 		}
-	case 266:
+	case 265:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1588
+//line sqlparser/parser.y:1587
 		{
 			yyVAL.indexDefinition = &IndexDefinition{Info: yyDollar[1].indexInfo, Columns: yyDollar[3].indexColumns, Options: yyDollar[5].indexOptions, Partition: yyDollar[6].indexPartition}
 		}
-	case 267:
+	case 266:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1593
+//line sqlparser/parser.y:1592
 		{
 			yyVAL.indexOptions = []*IndexOption{}
 		}
-	case 268:
+	case 267:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1597
+//line sqlparser/parser.y:1596
 		{
 			yyVAL.indexOptions = yyDollar[1].indexOptions
 		}
-	case 269:
+	case 268:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1601
+//line sqlparser/parser.y:1600
 		{
 			yyVAL.indexOptions = yyDollar[3].indexOptions
 		}
-	case 270:
+	case 269:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1607
+//line sqlparser/parser.y:1606
 		{
 			yyVAL.indexOptions = []*IndexOption{yyDollar[1].indexOption}
 		}
-	case 271:
+	case 270:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1611
+//line sqlparser/parser.y:1610
 		{
 			yyVAL.indexOptions = append(yyVAL.indexOptions, yyDollar[2].indexOption)
 		}
-	case 272:
+	case 271:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1617
+//line sqlparser/parser.y:1616
 		{
 			yyVAL.indexOptions = []*IndexOption{yyDollar[1].indexOption}
 		}
-	case 273:
+	case 272:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1621
+//line sqlparser/parser.y:1620
 		{
 			yyVAL.indexOptions = append(yyVAL.indexOptions, yyDollar[3].indexOption)
 		}
-	case 274:
+	case 273:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1627
+//line sqlparser/parser.y:1626
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Using: string(yyDollar[2].bytes)}
 		}
-	case 275:
+	case 274:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1631
+//line sqlparser/parser.y:1630
 		{
 			// should not be string
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: NewIntVal(yyDollar[3].bytes)}
 		}
-	case 276:
+	case 275:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1636
+//line sqlparser/parser.y:1635
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: NewStrVal(yyDollar[2].bytes)}
 		}
-	case 277:
+	case 276:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1640
+//line sqlparser/parser.y:1639
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[2].bytes), Value: NewStrVal([]byte(yyDollar[3].colIdent.String()))}
 		}
-	case 278:
+	case 277:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1644
+//line sqlparser/parser.y:1643
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
-	case 279:
+	case 278:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1648
+//line sqlparser/parser.y:1647
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: NewIntVal(yyDollar[3].bytes)}
 		}
+	case 279:
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:1651
+		{
+			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
+		}
 	case 280:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1652
+//line sqlparser/parser.y:1655
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
 	case 281:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1656
+//line sqlparser/parser.y:1659
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
 	case 282:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1660
+//line sqlparser/parser.y:1663
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
 	case 283:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1664
+//line sqlparser/parser.y:1667
 		{
 			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
 		}
 	case 284:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1668
-		{
-			yyVAL.indexOption = &IndexOption{Name: string(yyDollar[1].bytes), Value: yyDollar[3].optVal}
-		}
-	case 285:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1674
+//line sqlparser/parser.y:1673
 		{
 			yyVAL.str = ""
 		}
-	case 286:
+	case 285:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1678
+//line sqlparser/parser.y:1677
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 287:
+	case 286:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1684
+//line sqlparser/parser.y:1683
 		{
 			yyVAL.optVal = NewBoolSQLVal(true)
 		}
-	case 288:
+	case 287:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1688
+//line sqlparser/parser.y:1687
 		{
 			yyVAL.optVal = NewBoolSQLVal(false)
 		}
-	case 289:
+	case 288:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1694
+//line sqlparser/parser.y:1693
 		{
 			yyVAL.indexPartition = nil
 		}
-	case 290:
+	case 289:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1698
+//line sqlparser/parser.y:1697
 		{
 			yyVAL.indexPartition = &IndexPartition{Name: yyDollar[2].colIdent.String()}
 		}
-	case 291:
+	case 290:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1702
+//line sqlparser/parser.y:1701
 		{
 			yyVAL.indexPartition = &IndexPartition{Name: yyDollar[2].colIdent.String(), Column: yyDollar[4].colIdent.String()}
 		}
-	case 292:
+	case 291:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1708
+//line sqlparser/parser.y:1707
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true}
 		}
-	case 293:
+	case 292:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1712
+//line sqlparser/parser.y:1711
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].str), Name: NewColIdent(string(yyDollar[3].bytes)), Spatial: true, Unique: false}
 		}
-	case 294:
+	case 293:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1716
+//line sqlparser/parser.y:1715
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].str), Name: NewColIdent(string(yyDollar[3].bytes)), Fulltext: true}
 		}
-	case 295:
+	case 294:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1720
+//line sqlparser/parser.y:1719
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes), Name: NewColIdent(string(yyDollar[2].bytes)), Fulltext: true}
 		}
-	case 296:
+	case 295:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1724
+//line sqlparser/parser.y:1723
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].str), Name: NewColIdent(string(yyDollar[3].bytes)), Unique: true}
 		}
-	case 297:
+	case 296:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1728
+//line sqlparser/parser.y:1727
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: true}
 		}
-	case 298:
+	case 297:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1732
+//line sqlparser/parser.y:1731
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].str), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: false, Clustered: yyDollar[3].boolVal}
 		}
-	case 299:
+	case 298:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:1736
+//line sqlparser/parser.y:1735
 		{
 			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].str), Name: NewColIdent(string(yyDollar[2].bytes)), Unique: true, Clustered: yyDollar[4].boolVal}
 		}
-	case 300:
+	case 299:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1742
+//line sqlparser/parser.y:1741
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 301:
+	case 300:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1746
+//line sqlparser/parser.y:1745
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 302:
+	case 301:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1752
+//line sqlparser/parser.y:1751
 		{
 			yyVAL.indexColumns = []IndexColumn{yyDollar[1].indexColumn}
 		}
-	case 303:
+	case 302:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1756
+//line sqlparser/parser.y:1755
 		{
 			yyVAL.indexColumns = append(yyVAL.indexColumns, yyDollar[3].indexColumn)
 		}
-	case 304:
+	case 303:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1762
+//line sqlparser/parser.y:1761
 		{
 			yyVAL.indexColumn = IndexColumn{Column: yyDollar[1].colIdent, Length: yyDollar[2].optVal, Direction: yyDollar[3].str}
 		}
-	case 305:
+	case 304:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1767
+//line sqlparser/parser.y:1766
 		{
 			yyVAL.indexColumn = IndexColumn{Column: NewColIdent(string(yyDollar[1].bytes)), Length: yyDollar[2].optVal}
 		}
-	case 306:
+	case 305:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1773
+//line sqlparser/parser.y:1772
 		{
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[2].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 307:
+	case 306:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1778
+//line sqlparser/parser.y:1777
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = NewColIdent("")
 			yyDollar[1].foreignKeyDefinition.OnDelete = yyDollar[4].colIdent
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[5].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 308:
+	case 307:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:1785
+//line sqlparser/parser.y:1784
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = yyDollar[4].colIdent
 			yyDollar[1].foreignKeyDefinition.OnDelete = NewColIdent("")
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[5].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 309:
+	case 308:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:1792
+//line sqlparser/parser.y:1791
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = yyDollar[7].colIdent
 			yyDollar[1].foreignKeyDefinition.OnDelete = yyDollar[4].colIdent
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[8].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 310:
+	case 309:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:1799
+//line sqlparser/parser.y:1798
 		{
 			yyDollar[1].foreignKeyDefinition.OnUpdate = yyDollar[4].colIdent
 			yyDollar[1].foreignKeyDefinition.OnDelete = yyDollar[7].colIdent
 			yyDollar[1].foreignKeyDefinition.NotForReplication = bool(yyDollar[8].boolVal)
 			yyVAL.foreignKeyDefinition = yyDollar[1].foreignKeyDefinition
 		}
-	case 311:
+	case 310:
 		yyDollar = yyS[yypt-13 : yypt+1]
-//line sqlparser/parser.y:1808
+//line sqlparser/parser.y:1807
 		{
 			yyVAL.foreignKeyDefinition = &ForeignKeyDefinition{
 				ConstraintName:   yyDollar[2].colIdent,
@@ -5286,33 +5286,33 @@ yydefault:
 				ReferenceColumns: yyDollar[12].colIdents,
 			}
 		}
-	case 312:
+	case 311:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1820
+//line sqlparser/parser.y:1819
 		{
 			yyVAL.colIdent = NewColIdent("RESTRICT")
 		}
-	case 313:
+	case 312:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1824
+//line sqlparser/parser.y:1823
 		{
 			yyVAL.colIdent = NewColIdent("CASCADE")
 		}
-	case 314:
+	case 313:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1828
+//line sqlparser/parser.y:1827
 		{
 			yyVAL.colIdent = NewColIdent("SET NULL")
 		}
-	case 315:
+	case 314:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1832
+//line sqlparser/parser.y:1831
 		{
 			yyVAL.colIdent = NewColIdent("NO ACTION")
 		}
-	case 316:
+	case 315:
 		yyDollar = yyS[yypt-10 : yypt+1]
-//line sqlparser/parser.y:1838
+//line sqlparser/parser.y:1837
 		{
 			yyVAL.indexDefinition = &IndexDefinition{
 				Info:      &IndexInfo{Type: string(yyDollar[3].bytes) + " " + string(yyDollar[4].bytes), Name: yyDollar[2].colIdent, Primary: true, Unique: true, Clustered: yyDollar[5].boolVal},
@@ -5321,117 +5321,117 @@ yydefault:
 				Partition: yyDollar[10].indexPartition,
 			}
 		}
-	case 317:
+	case 316:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1849
+//line sqlparser/parser.y:1848
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 318:
+	case 317:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1853
+//line sqlparser/parser.y:1852
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 319:
+	case 318:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1857
+//line sqlparser/parser.y:1856
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 320:
+	case 319:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1863
+//line sqlparser/parser.y:1862
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 321:
+	case 320:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1867
+//line sqlparser/parser.y:1866
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 322:
+	case 321:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1872
+//line sqlparser/parser.y:1871
 		{
 			yyVAL.colIdent = NewColIdent("")
 		}
-	case 324:
+	case 323:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1879
+//line sqlparser/parser.y:1878
 		{
 			yyVAL.colIdents = []ColIdent{yyDollar[1].colIdent}
 		}
-	case 325:
+	case 324:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1883
+//line sqlparser/parser.y:1882
 		{
 			yyVAL.colIdents = append(yyDollar[1].colIdents, yyDollar[3].colIdent)
 		}
-	case 326:
+	case 325:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1888
+//line sqlparser/parser.y:1887
 		{
 			yyVAL.str = ""
 		}
-	case 327:
+	case 326:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1892
+//line sqlparser/parser.y:1891
 		{
 			yyVAL.str = " " + string(yyDollar[1].str)
 		}
-	case 328:
+	case 327:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1896
+//line sqlparser/parser.y:1895
 		{
 			yyVAL.str = string(yyDollar[1].str) + ", " + string(yyDollar[3].str)
 		}
-	case 329:
+	case 328:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1904
+//line sqlparser/parser.y:1903
 		{
 			yyVAL.str = yyDollar[1].str
 		}
-	case 330:
+	case 329:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1908
+//line sqlparser/parser.y:1907
 		{
 			yyVAL.str = yyDollar[1].str + " " + yyDollar[2].str
 		}
-	case 331:
+	case 330:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1912
+//line sqlparser/parser.y:1911
 		{
 			yyVAL.str = yyDollar[1].str + "=" + yyDollar[3].str
 		}
-	case 332:
+	case 331:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1918
+//line sqlparser/parser.y:1917
 		{
 			yyVAL.str = yyDollar[1].colIdent.String()
 		}
-	case 333:
+	case 332:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1922
+//line sqlparser/parser.y:1921
 		{
 			yyVAL.str = "'" + string(yyDollar[1].bytes) + "'"
 		}
-	case 334:
+	case 333:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1926
+//line sqlparser/parser.y:1925
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 335:
+	case 334:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1932
+//line sqlparser/parser.y:1931
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 336:
+	case 335:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line sqlparser/parser.y:1936
+//line sqlparser/parser.y:1935
 		{
 			yyVAL.statement = &DDL{
 				Action:  AddIndexStr,
@@ -5445,9 +5445,9 @@ yydefault:
 				IndexCols: yyDollar[10].indexColumns,
 			}
 		}
-	case 337:
+	case 336:
 		yyDollar = yyS[yypt-13 : yypt+1]
-//line sqlparser/parser.y:1950
+//line sqlparser/parser.y:1949
 		{
 			yyVAL.statement = &DDL{
 				Action:  AddPrimaryKeyStr,
@@ -5461,9 +5461,9 @@ yydefault:
 				IndexCols: yyDollar[12].indexColumns,
 			}
 		}
-	case 338:
+	case 337:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1964
+//line sqlparser/parser.y:1963
 		{
 			yyVAL.statement = &DDL{
 				Action:     AddForeignKeyStr,
@@ -5472,21 +5472,21 @@ yydefault:
 				ForeignKey: yyDollar[7].foreignKeyDefinition,
 			}
 		}
-	case 339:
+	case 338:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1973
+//line sqlparser/parser.y:1972
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 340:
+	case 339:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1977
+//line sqlparser/parser.y:1976
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 341:
+	case 340:
 		yyDollar = yyS[yypt-12 : yypt+1]
-//line sqlparser/parser.y:1981
+//line sqlparser/parser.y:1980
 		{
 			yyVAL.statement = &DDL{
 				Action: AddColVindexStr,
@@ -5499,9 +5499,9 @@ yydefault:
 				VindexCols: yyDollar[9].columns,
 			}
 		}
-	case 342:
+	case 341:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1994
+//line sqlparser/parser.y:1993
 		{
 			yyVAL.statement = &DDL{
 				Action: DropColVindexStr,
@@ -5511,71 +5511,71 @@ yydefault:
 				},
 			}
 		}
-	case 343:
+	case 342:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2004
+//line sqlparser/parser.y:2003
 		{
 			// Change this to a rename statement
 			yyVAL.statement = &DDL{Action: RenameStr, Table: yyDollar[4].tableName, NewName: yyDollar[7].tableName}
 		}
-	case 344:
+	case 343:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2009
+//line sqlparser/parser.y:2008
 		{
 			// Rename an index can just be an alter
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 345:
+	case 344:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2014
+//line sqlparser/parser.y:2013
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[3].tableName.ToViewName(), NewName: yyDollar[3].tableName.ToViewName()}
 		}
-	case 346:
+	case 345:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2018
+//line sqlparser/parser.y:2017
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, PartitionSpec: yyDollar[5].partSpec}
 		}
-	case 367:
+	case 366:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2050
+//line sqlparser/parser.y:2049
 		{
 			yyVAL.partSpec = &PartitionSpec{Action: ReorganizeStr, Name: yyDollar[3].colIdent, Definitions: yyDollar[6].partDefs}
 		}
-	case 368:
+	case 367:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2056
+//line sqlparser/parser.y:2055
 		{
 			yyVAL.partDefs = []*PartitionDefinition{yyDollar[1].partDef}
 		}
-	case 369:
+	case 368:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2060
+//line sqlparser/parser.y:2059
 		{
 			yyVAL.partDefs = append(yyDollar[1].partDefs, yyDollar[3].partDef)
 		}
-	case 370:
+	case 369:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:2066
+//line sqlparser/parser.y:2065
 		{
 			yyVAL.partDef = &PartitionDefinition{Name: yyDollar[2].colIdent, Limit: yyDollar[7].expr}
 		}
-	case 371:
+	case 370:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:2070
+//line sqlparser/parser.y:2069
 		{
 			yyVAL.partDef = &PartitionDefinition{Name: yyDollar[2].colIdent, Maxvalue: true}
 		}
-	case 372:
+	case 371:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2076
+//line sqlparser/parser.y:2075
 		{
 			yyVAL.statement = &DDL{Action: RenameStr, Table: yyDollar[3].tableName, NewName: yyDollar[5].tableName}
 		}
-	case 373:
+	case 372:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2082
+//line sqlparser/parser.y:2081
 		{
 			var exists bool
 			if yyDollar[3].byt != 0 {
@@ -5583,16 +5583,16 @@ yydefault:
 			}
 			yyVAL.statement = &DDL{Action: DropStr, Table: yyDollar[4].tableName, IfExists: exists}
 		}
-	case 374:
+	case 373:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2090
+//line sqlparser/parser.y:2089
 		{
 			// Change this to an alter statement
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[5].tableName, NewName: yyDollar[5].tableName}
 		}
-	case 375:
+	case 374:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2095
+//line sqlparser/parser.y:2094
 		{
 			var exists bool
 			if yyDollar[3].byt != 0 {
@@ -5600,123 +5600,123 @@ yydefault:
 			}
 			yyVAL.statement = &DDL{Action: DropStr, Table: yyDollar[4].tableName.ToViewName(), IfExists: exists}
 		}
-	case 376:
+	case 375:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2103
+//line sqlparser/parser.y:2102
 		{
 			yyVAL.statement = &DBDDL{Action: DropStr, DBName: string(yyDollar[4].bytes)}
 		}
-	case 377:
+	case 376:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2107
+//line sqlparser/parser.y:2106
 		{
 			yyVAL.statement = &DBDDL{Action: DropStr, DBName: string(yyDollar[4].bytes)}
 		}
-	case 378:
+	case 377:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2113
+//line sqlparser/parser.y:2112
 		{
 			yyVAL.statement = &DDL{Action: TruncateStr, Table: yyDollar[3].tableName}
 		}
-	case 379:
+	case 378:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2117
+//line sqlparser/parser.y:2116
 		{
 			yyVAL.statement = &DDL{Action: TruncateStr, Table: yyDollar[2].tableName}
 		}
-	case 380:
+	case 379:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2122
+//line sqlparser/parser.y:2121
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[3].tableName, NewName: yyDollar[3].tableName}
 		}
+	case 380:
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line sqlparser/parser.y:2127
+		{
+			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
+		}
 	case 381:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2128
+//line sqlparser/parser.y:2131
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 382:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2132
+//line sqlparser/parser.y:2135
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 383:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2136
+//line sqlparser/parser.y:2140
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 384:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2141
+//line sqlparser/parser.y:2144
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 385:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2145
+//line sqlparser/parser.y:2148
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 386:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2149
+//line sqlparser/parser.y:2152
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 387:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2153
+//line sqlparser/parser.y:2156
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 388:
-		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2157
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:2160
 		{
-			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
+			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 389:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2161
+//line sqlparser/parser.y:2164
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 390:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2165
+//line sqlparser/parser.y:2168
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 391:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2169
+//line sqlparser/parser.y:2172
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 392:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2173
-		{
-			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
-		}
-	case 393:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2177
+//line sqlparser/parser.y:2176
 		{
 			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
 		}
-	case 394:
+	case 393:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2181
+//line sqlparser/parser.y:2180
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 395:
+	case 394:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2185
+//line sqlparser/parser.y:2184
 		{
 			// this is ugly, but I couldn't find a better way for now
 			if yyDollar[4].str == "processlist" {
@@ -5726,604 +5726,604 @@ yydefault:
 				yyVAL.statement = &Show{Type: yyDollar[4].str, ShowTablesOpt: showTablesOpt}
 			}
 		}
-	case 396:
+	case 395:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2195
+//line sqlparser/parser.y:2194
 		{
 			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
 		}
-	case 397:
+	case 396:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2199
+//line sqlparser/parser.y:2198
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 398:
+	case 397:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2203
+//line sqlparser/parser.y:2202
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes), OnTable: yyDollar[4].tableName}
 		}
-	case 399:
+	case 398:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2207
+//line sqlparser/parser.y:2206
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 400:
+	case 399:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2211
+//line sqlparser/parser.y:2210
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 401:
+	case 400:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2215
+//line sqlparser/parser.y:2214
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 402:
+	case 401:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2219
+//line sqlparser/parser.y:2218
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 403:
+	case 402:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2229
+//line sqlparser/parser.y:2228
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 404:
+	case 403:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2235
+//line sqlparser/parser.y:2234
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 405:
+	case 404:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2239
+//line sqlparser/parser.y:2238
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 406:
+	case 405:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2245
+//line sqlparser/parser.y:2244
 		{
 			yyVAL.str = ""
 		}
-	case 407:
+	case 406:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2249
+//line sqlparser/parser.y:2248
 		{
 			yyVAL.str = "extended "
 		}
-	case 408:
+	case 407:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2255
+//line sqlparser/parser.y:2254
 		{
 			yyVAL.str = ""
 		}
-	case 409:
+	case 408:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2259
+//line sqlparser/parser.y:2258
 		{
 			yyVAL.str = "full "
 		}
-	case 410:
+	case 409:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2265
+//line sqlparser/parser.y:2264
 		{
 			yyVAL.str = ""
 		}
-	case 411:
+	case 410:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2269
+//line sqlparser/parser.y:2268
 		{
 			yyVAL.str = yyDollar[2].tableIdent.v
 		}
-	case 412:
+	case 411:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2273
+//line sqlparser/parser.y:2272
 		{
 			yyVAL.str = yyDollar[2].tableIdent.v
 		}
-	case 413:
+	case 412:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2279
+//line sqlparser/parser.y:2278
 		{
 			yyVAL.showFilter = nil
 		}
-	case 414:
+	case 413:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2283
+//line sqlparser/parser.y:2282
 		{
 			yyVAL.showFilter = &ShowFilter{Like: string(yyDollar[2].bytes)}
 		}
-	case 415:
+	case 414:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2287
+//line sqlparser/parser.y:2286
 		{
 			yyVAL.showFilter = &ShowFilter{Filter: yyDollar[2].expr}
 		}
-	case 416:
+	case 415:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2293
+//line sqlparser/parser.y:2292
 		{
 			yyVAL.str = ""
 		}
-	case 417:
+	case 416:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2297
+//line sqlparser/parser.y:2296
 		{
 			yyVAL.str = SessionStr
 		}
-	case 418:
+	case 417:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2301
+//line sqlparser/parser.y:2300
 		{
 			yyVAL.str = GlobalStr
 		}
-	case 419:
+	case 418:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2307
+//line sqlparser/parser.y:2306
 		{
 			yyVAL.statement = &Use{DBName: yyDollar[2].tableIdent}
 		}
-	case 420:
+	case 419:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2311
+//line sqlparser/parser.y:2310
 		{
 			yyVAL.statement = &Use{DBName: TableIdent{v: ""}}
 		}
-	case 421:
+	case 420:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2317
+//line sqlparser/parser.y:2316
 		{
 			yyVAL.statement = &Begin{}
 		}
-	case 422:
+	case 421:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2321
+//line sqlparser/parser.y:2320
 		{
 			yyVAL.statement = &Begin{}
 		}
-	case 423:
+	case 422:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2327
+//line sqlparser/parser.y:2326
 		{
 			yyVAL.statement = &Commit{}
 		}
-	case 424:
+	case 423:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2333
+//line sqlparser/parser.y:2332
 		{
 			yyVAL.statement = &Rollback{}
 		}
-	case 425:
+	case 424:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2339
+//line sqlparser/parser.y:2338
 		{
 			yyVAL.statement = &OtherRead{}
 		}
-	case 426:
+	case 425:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2343
+//line sqlparser/parser.y:2342
 		{
 			yyVAL.statement = &OtherRead{}
 		}
-	case 427:
+	case 426:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2347
+//line sqlparser/parser.y:2346
 		{
 			yyVAL.statement = &OtherRead{}
 		}
-	case 428:
+	case 427:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2351
+//line sqlparser/parser.y:2350
 		{
 			yyVAL.statement = &OtherAdmin{}
 		}
-	case 429:
+	case 428:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2355
+//line sqlparser/parser.y:2354
 		{
 			yyVAL.statement = &OtherAdmin{}
 		}
-	case 430:
+	case 429:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2360
+//line sqlparser/parser.y:2359
 		{
 			setAllowComments(yylex, true)
 		}
-	case 431:
+	case 430:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2364
+//line sqlparser/parser.y:2363
 		{
 			yyVAL.bytes2 = yyDollar[2].bytes2
 			setAllowComments(yylex, false)
 		}
-	case 432:
+	case 431:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2370
+//line sqlparser/parser.y:2369
 		{
 			yyVAL.bytes2 = nil
 		}
-	case 433:
+	case 432:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2374
+//line sqlparser/parser.y:2373
 		{
 			yyVAL.bytes2 = append(yyDollar[1].bytes2, yyDollar[2].bytes)
 		}
-	case 434:
+	case 433:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2380
+//line sqlparser/parser.y:2379
 		{
 			yyVAL.str = UnionStr
 		}
-	case 435:
+	case 434:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2384
+//line sqlparser/parser.y:2383
 		{
 			yyVAL.str = UnionAllStr
 		}
-	case 436:
+	case 435:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2388
+//line sqlparser/parser.y:2387
 		{
 			yyVAL.str = UnionDistinctStr
 		}
-	case 437:
+	case 436:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2393
+//line sqlparser/parser.y:2392
 		{
 			yyVAL.str = ""
 		}
-	case 438:
+	case 437:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2397
+//line sqlparser/parser.y:2396
 		{
 			yyVAL.str = SQLNoCacheStr
 		}
-	case 439:
+	case 438:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2401
+//line sqlparser/parser.y:2400
 		{
 			yyVAL.str = SQLCacheStr
 		}
-	case 440:
+	case 439:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2406
+//line sqlparser/parser.y:2405
 		{
 			yyVAL.str = ""
 		}
-	case 441:
+	case 440:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2410
+//line sqlparser/parser.y:2409
 		{
 			yyVAL.str = DistinctStr
 		}
-	case 442:
+	case 441:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2415
+//line sqlparser/parser.y:2414
 		{
 			yyVAL.str = ""
 		}
-	case 443:
+	case 442:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2419
+//line sqlparser/parser.y:2418
 		{
 			yyVAL.str = StraightJoinHint
 		}
-	case 444:
+	case 443:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2424
+//line sqlparser/parser.y:2423
 		{
 			yyVAL.selectExprs = nil
 		}
-	case 445:
+	case 444:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2428
+//line sqlparser/parser.y:2427
 		{
 			yyVAL.selectExprs = yyDollar[1].selectExprs
 		}
-	case 446:
+	case 445:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2434
+//line sqlparser/parser.y:2433
 		{
 			yyVAL.selectExprs = SelectExprs{yyDollar[1].selectExpr}
 		}
-	case 447:
+	case 446:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2438
+//line sqlparser/parser.y:2437
 		{
 			yyVAL.selectExprs = append(yyVAL.selectExprs, yyDollar[3].selectExpr)
 		}
-	case 448:
+	case 447:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2444
+//line sqlparser/parser.y:2443
 		{
 			yyVAL.selectExpr = &StarExpr{}
 		}
-	case 449:
+	case 448:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2448
+//line sqlparser/parser.y:2447
 		{
 			yyVAL.selectExpr = &AliasedExpr{Expr: yyDollar[1].expr, As: yyDollar[2].colIdent}
 		}
-	case 450:
+	case 449:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2452
+//line sqlparser/parser.y:2451
 		{
 			yyVAL.selectExpr = &StarExpr{TableName: TableName{Name: yyDollar[1].tableIdent}}
 		}
-	case 451:
+	case 450:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2456
+//line sqlparser/parser.y:2455
 		{
 			yyVAL.selectExpr = &StarExpr{TableName: TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}}
 		}
-	case 452:
+	case 451:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2461
+//line sqlparser/parser.y:2460
 		{
 			yyVAL.colIdent = ColIdent{}
 		}
-	case 453:
+	case 452:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2465
+//line sqlparser/parser.y:2464
 		{
 			yyVAL.colIdent = yyDollar[1].colIdent
 		}
-	case 454:
+	case 453:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2469
+//line sqlparser/parser.y:2468
 		{
 			yyVAL.colIdent = yyDollar[2].colIdent
 		}
-	case 456:
+	case 455:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2476
+//line sqlparser/parser.y:2475
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 457:
+	case 456:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2481
+//line sqlparser/parser.y:2480
 		{
 			yyVAL.tableExprs = TableExprs{&AliasedTableExpr{Expr: TableName{Name: NewTableIdent("dual")}}}
 		}
-	case 458:
+	case 457:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2485
+//line sqlparser/parser.y:2484
 		{
 			yyVAL.tableExprs = yyDollar[2].tableExprs
 		}
-	case 459:
+	case 458:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2491
+//line sqlparser/parser.y:2490
 		{
 			yyVAL.tableExprs = TableExprs{yyDollar[1].tableExpr}
 		}
-	case 460:
+	case 459:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2495
+//line sqlparser/parser.y:2494
 		{
 			yyVAL.tableExprs = append(yyVAL.tableExprs, yyDollar[3].tableExpr)
 		}
-	case 463:
+	case 462:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2505
+//line sqlparser/parser.y:2504
 		{
 			yyVAL.tableExpr = yyDollar[1].aliasedTableName
 		}
-	case 464:
+	case 463:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2509
+//line sqlparser/parser.y:2508
 		{
 			yyVAL.tableExpr = &AliasedTableExpr{Expr: yyDollar[1].subquery, As: yyDollar[3].tableIdent}
 		}
-	case 465:
+	case 464:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2513
+//line sqlparser/parser.y:2512
 		{
 			yyVAL.tableExpr = &ParenTableExpr{Exprs: yyDollar[2].tableExprs}
 		}
-	case 466:
+	case 465:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2519
+//line sqlparser/parser.y:2518
 		{
 			yyVAL.aliasedTableName = &AliasedTableExpr{Expr: yyDollar[1].tableName, As: yyDollar[2].tableIdent, Hints: yyDollar[3].indexHints}
 		}
-	case 467:
+	case 466:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2523
+//line sqlparser/parser.y:2522
 		{
 			yyVAL.aliasedTableName = &AliasedTableExpr{Expr: yyDollar[1].tableName, Partitions: yyDollar[4].partitions, As: yyDollar[6].tableIdent, Hints: yyDollar[7].indexHints}
 		}
-	case 468:
+	case 467:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2529
+//line sqlparser/parser.y:2528
 		{
 			yyVAL.columns = Columns{yyDollar[1].colIdent}
 		}
-	case 469:
+	case 468:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2534
+//line sqlparser/parser.y:2533
 		{
 			yyVAL.columns = Columns{NewColIdent(string(yyDollar[1].bytes))}
 		}
-	case 470:
+	case 469:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2538
+//line sqlparser/parser.y:2537
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[3].colIdent)
 		}
-	case 471:
+	case 470:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2544
+//line sqlparser/parser.y:2543
 		{
 			yyVAL.partitions = Partitions{yyDollar[1].colIdent}
 		}
-	case 472:
+	case 471:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2548
+//line sqlparser/parser.y:2547
 		{
 			yyVAL.partitions = append(yyVAL.partitions, yyDollar[3].colIdent)
 		}
-	case 473:
+	case 472:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2561
+//line sqlparser/parser.y:2560
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 474:
+	case 473:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2565
+//line sqlparser/parser.y:2564
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 475:
+	case 474:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2569
+//line sqlparser/parser.y:2568
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 476:
+	case 475:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2573
+//line sqlparser/parser.y:2572
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr}
 		}
-	case 477:
+	case 476:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2579
+//line sqlparser/parser.y:2578
 		{
 			yyVAL.joinCondition = JoinCondition{On: yyDollar[2].expr}
 		}
-	case 478:
+	case 477:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2581
+//line sqlparser/parser.y:2580
 		{
 			yyVAL.joinCondition = JoinCondition{Using: yyDollar[3].columns}
 		}
-	case 479:
+	case 478:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2585
+//line sqlparser/parser.y:2584
 		{
 			yyVAL.joinCondition = JoinCondition{}
 		}
-	case 480:
+	case 479:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2587
+//line sqlparser/parser.y:2586
 		{
 			yyVAL.joinCondition = yyDollar[1].joinCondition
 		}
-	case 481:
+	case 480:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2591
+//line sqlparser/parser.y:2590
 		{
 			yyVAL.joinCondition = JoinCondition{}
 		}
-	case 482:
+	case 481:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2593
+//line sqlparser/parser.y:2592
 		{
 			yyVAL.joinCondition = JoinCondition{On: yyDollar[2].expr}
 		}
-	case 483:
+	case 482:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2596
+//line sqlparser/parser.y:2595
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 484:
+	case 483:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2598
+//line sqlparser/parser.y:2597
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 485:
+	case 484:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2601
+//line sqlparser/parser.y:2600
 		{
 			yyVAL.tableIdent = NewTableIdent("")
 		}
-	case 486:
+	case 485:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2605
+//line sqlparser/parser.y:2604
 		{
 			yyVAL.tableIdent = yyDollar[1].tableIdent
 		}
-	case 487:
+	case 486:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2609
+//line sqlparser/parser.y:2608
 		{
 			yyVAL.tableIdent = yyDollar[2].tableIdent
 		}
-	case 489:
+	case 488:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2616
+//line sqlparser/parser.y:2615
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 490:
+	case 489:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2622
+//line sqlparser/parser.y:2621
 		{
 			yyVAL.str = JoinStr
 		}
-	case 491:
+	case 490:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2626
+//line sqlparser/parser.y:2625
 		{
 			yyVAL.str = JoinStr
 		}
-	case 492:
+	case 491:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2630
+//line sqlparser/parser.y:2629
 		{
 			yyVAL.str = JoinStr
 		}
-	case 493:
+	case 492:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2636
+//line sqlparser/parser.y:2635
 		{
 			yyVAL.str = StraightJoinStr
 		}
-	case 494:
+	case 493:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2642
+//line sqlparser/parser.y:2641
 		{
 			yyVAL.str = LeftJoinStr
 		}
-	case 495:
+	case 494:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2646
+//line sqlparser/parser.y:2645
 		{
 			yyVAL.str = LeftJoinStr
 		}
-	case 496:
+	case 495:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2650
+//line sqlparser/parser.y:2649
 		{
 			yyVAL.str = RightJoinStr
 		}
-	case 497:
+	case 496:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2654
+//line sqlparser/parser.y:2653
 		{
 			yyVAL.str = RightJoinStr
 		}
-	case 498:
+	case 497:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2660
+//line sqlparser/parser.y:2659
 		{
 			yyVAL.str = NaturalJoinStr
 		}
-	case 499:
+	case 498:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2664
+//line sqlparser/parser.y:2663
 		{
 			if yyDollar[2].str == LeftJoinStr {
 				yyVAL.str = NaturalLeftJoinStr
@@ -6331,465 +6331,465 @@ yydefault:
 				yyVAL.str = NaturalRightJoinStr
 			}
 		}
-	case 500:
+	case 499:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2674
+//line sqlparser/parser.y:2673
 		{
 			yyVAL.tableName = yyDollar[2].tableName
 		}
-	case 501:
+	case 500:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2678
+//line sqlparser/parser.y:2677
 		{
 			yyVAL.tableName = yyDollar[1].tableName
 		}
-	case 502:
+	case 501:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2684
+//line sqlparser/parser.y:2683
 		{
 			yyVAL.tableName = TableName{Name: yyDollar[1].tableIdent}
 		}
-	case 503:
+	case 502:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2688
+//line sqlparser/parser.y:2687
 		{
 			yyVAL.tableName = TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}
 		}
-	case 504:
+	case 503:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2693
+//line sqlparser/parser.y:2692
 		{
 			yyVAL.indexHints = nil
 		}
-	case 505:
+	case 504:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2697
+//line sqlparser/parser.y:2696
 		{
 			yyVAL.indexHints = &IndexHints{Type: UseStr, Indexes: yyDollar[4].columns}
 		}
-	case 506:
+	case 505:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2701
+//line sqlparser/parser.y:2700
 		{
 			yyVAL.indexHints = &IndexHints{Type: IgnoreStr, Indexes: yyDollar[4].columns}
 		}
-	case 507:
+	case 506:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2705
+//line sqlparser/parser.y:2704
 		{
 			yyVAL.indexHints = &IndexHints{Type: ForceStr, Indexes: yyDollar[4].columns}
 		}
-	case 508:
+	case 507:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2710
+//line sqlparser/parser.y:2709
 		{
 			yyVAL.expr = nil
 		}
-	case 509:
+	case 508:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2714
+//line sqlparser/parser.y:2713
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 510:
+	case 509:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2719
+//line sqlparser/parser.y:2718
 		{
 			yyVAL.columns = nil
 		}
-	case 511:
+	case 510:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2723
+//line sqlparser/parser.y:2722
 		{
 			yyVAL.columns = yyDollar[3].columns
 		}
-	case 512:
+	case 511:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2729
+//line sqlparser/parser.y:2728
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 513:
+	case 512:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2733
+//line sqlparser/parser.y:2732
 		{
 			yyVAL.expr = &AndExpr{Left: yyDollar[1].expr, Right: yyDollar[3].expr}
 		}
-	case 514:
+	case 513:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2737
+//line sqlparser/parser.y:2736
 		{
 			yyVAL.expr = &OrExpr{Left: yyDollar[1].expr, Right: yyDollar[3].expr}
 		}
-	case 515:
+	case 514:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2741
+//line sqlparser/parser.y:2740
 		{
 			yyVAL.expr = &NotExpr{Expr: yyDollar[2].expr}
 		}
-	case 516:
+	case 515:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2745
+//line sqlparser/parser.y:2744
 		{
 			yyVAL.expr = &IsExpr{Operator: yyDollar[3].str, Expr: yyDollar[1].expr}
 		}
-	case 517:
+	case 516:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2749
+//line sqlparser/parser.y:2748
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 518:
+	case 517:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2753
+//line sqlparser/parser.y:2752
 		{
 			yyVAL.expr = &Default{ColName: yyDollar[2].str}
 		}
-	case 519:
+	case 518:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2759
+//line sqlparser/parser.y:2758
 		{
 			yyVAL.str = ""
 		}
-	case 520:
+	case 519:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2763
+//line sqlparser/parser.y:2762
 		{
 			yyVAL.str = string(yyDollar[2].bytes)
 		}
-	case 521:
+	case 520:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2769
+//line sqlparser/parser.y:2768
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 522:
+	case 521:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2773
+//line sqlparser/parser.y:2772
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 523:
+	case 522:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2779
+//line sqlparser/parser.y:2778
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: yyDollar[2].str, Right: yyDollar[3].expr}
 		}
-	case 524:
+	case 523:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2783
+//line sqlparser/parser.y:2782
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: InStr, Right: yyDollar[3].colTuple}
 		}
-	case 525:
+	case 524:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2787
+//line sqlparser/parser.y:2786
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotInStr, Right: yyDollar[4].colTuple}
 		}
-	case 526:
+	case 525:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2791
+//line sqlparser/parser.y:2790
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: LikeStr, Right: yyDollar[3].expr, Escape: yyDollar[4].expr}
 		}
-	case 527:
+	case 526:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2795
+//line sqlparser/parser.y:2794
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotLikeStr, Right: yyDollar[4].expr, Escape: yyDollar[5].expr}
 		}
-	case 528:
+	case 527:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2799
+//line sqlparser/parser.y:2798
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: RegexpStr, Right: yyDollar[3].expr}
 		}
-	case 529:
+	case 528:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2803
+//line sqlparser/parser.y:2802
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotRegexpStr, Right: yyDollar[4].expr}
 		}
-	case 530:
+	case 529:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2807
+//line sqlparser/parser.y:2806
 		{
 			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: BetweenStr, From: yyDollar[3].expr, To: yyDollar[5].expr}
 		}
-	case 531:
+	case 530:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2811
+//line sqlparser/parser.y:2810
 		{
 			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: NotBetweenStr, From: yyDollar[4].expr, To: yyDollar[6].expr}
 		}
-	case 532:
+	case 531:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2815
+//line sqlparser/parser.y:2814
 		{
 			yyVAL.expr = &ExistsExpr{Subquery: yyDollar[2].subquery}
 		}
-	case 533:
+	case 532:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2821
+//line sqlparser/parser.y:2820
 		{
 			yyVAL.str = IsNullStr
 		}
-	case 534:
+	case 533:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2825
+//line sqlparser/parser.y:2824
 		{
 			yyVAL.str = IsNotNullStr
 		}
-	case 535:
+	case 534:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2829
+//line sqlparser/parser.y:2828
 		{
 			yyVAL.str = IsTrueStr
 		}
-	case 536:
+	case 535:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2833
+//line sqlparser/parser.y:2832
 		{
 			yyVAL.str = IsNotTrueStr
 		}
-	case 537:
+	case 536:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2837
+//line sqlparser/parser.y:2836
 		{
 			yyVAL.str = IsFalseStr
 		}
-	case 538:
+	case 537:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2841
+//line sqlparser/parser.y:2840
 		{
 			yyVAL.str = IsNotFalseStr
 		}
-	case 539:
+	case 538:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2847
+//line sqlparser/parser.y:2846
 		{
 			yyVAL.str = EqualStr
 		}
-	case 540:
+	case 539:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2851
+//line sqlparser/parser.y:2850
 		{
 			yyVAL.str = LessThanStr
 		}
-	case 541:
+	case 540:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2855
+//line sqlparser/parser.y:2854
 		{
 			yyVAL.str = GreaterThanStr
 		}
-	case 542:
+	case 541:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2859
+//line sqlparser/parser.y:2858
 		{
 			yyVAL.str = LessEqualStr
 		}
-	case 543:
+	case 542:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2863
+//line sqlparser/parser.y:2862
 		{
 			yyVAL.str = GreaterEqualStr
 		}
-	case 544:
+	case 543:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2867
+//line sqlparser/parser.y:2866
 		{
 			yyVAL.str = NotEqualStr
 		}
-	case 545:
+	case 544:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2871
+//line sqlparser/parser.y:2870
 		{
 			yyVAL.str = NullSafeEqualStr
 		}
-	case 546:
+	case 545:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2876
+//line sqlparser/parser.y:2875
 		{
 			yyVAL.expr = nil
 		}
-	case 547:
+	case 546:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2880
+//line sqlparser/parser.y:2879
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 548:
+	case 547:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2886
+//line sqlparser/parser.y:2885
 		{
 			yyVAL.colTuple = yyDollar[1].valTuple
 		}
-	case 549:
+	case 548:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2890
+//line sqlparser/parser.y:2889
 		{
 			yyVAL.colTuple = yyDollar[1].subquery
 		}
-	case 550:
+	case 549:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2894
+//line sqlparser/parser.y:2893
 		{
 			yyVAL.colTuple = ListArg(yyDollar[1].bytes)
 		}
-	case 551:
+	case 550:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2900
+//line sqlparser/parser.y:2899
 		{
 			yyVAL.subquery = &Subquery{yyDollar[2].selStmt}
 		}
-	case 552:
+	case 551:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2906
+//line sqlparser/parser.y:2905
 		{
 			yyVAL.exprs = Exprs{yyDollar[1].expr}
 		}
-	case 553:
+	case 552:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2910
+//line sqlparser/parser.y:2909
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
-	case 554:
+	case 553:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2916
+//line sqlparser/parser.y:2915
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 555:
+	case 554:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2920
+//line sqlparser/parser.y:2919
 		{
 			yyVAL.expr = yyDollar[1].boolVal
 		}
-	case 556:
+	case 555:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2924
+//line sqlparser/parser.y:2923
 		{
 			yyVAL.expr = yyDollar[1].colName
 		}
-	case 557:
+	case 556:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2928
+//line sqlparser/parser.y:2927
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 558:
+	case 557:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2932
+//line sqlparser/parser.y:2931
 		{
 			yyVAL.expr = yyDollar[1].subquery
 		}
-	case 559:
+	case 558:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2936
+//line sqlparser/parser.y:2935
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitAndStr, Right: yyDollar[3].expr}
 		}
-	case 560:
+	case 559:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2940
+//line sqlparser/parser.y:2939
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitOrStr, Right: yyDollar[3].expr}
 		}
-	case 561:
+	case 560:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2944
+//line sqlparser/parser.y:2943
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitXorStr, Right: yyDollar[3].expr}
 		}
-	case 562:
+	case 561:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2948
+//line sqlparser/parser.y:2947
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: PlusStr, Right: yyDollar[3].expr}
 		}
-	case 563:
+	case 562:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2952
+//line sqlparser/parser.y:2951
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MinusStr, Right: yyDollar[3].expr}
 		}
-	case 564:
+	case 563:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2956
+//line sqlparser/parser.y:2955
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MultStr, Right: yyDollar[3].expr}
 		}
-	case 565:
+	case 564:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2960
+//line sqlparser/parser.y:2959
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: DivStr, Right: yyDollar[3].expr}
 		}
-	case 566:
+	case 565:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2964
+//line sqlparser/parser.y:2963
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: IntDivStr, Right: yyDollar[3].expr}
 		}
-	case 567:
+	case 566:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2968
+//line sqlparser/parser.y:2967
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ModStr, Right: yyDollar[3].expr}
 		}
-	case 568:
+	case 567:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2972
+//line sqlparser/parser.y:2971
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ModStr, Right: yyDollar[3].expr}
 		}
-	case 569:
+	case 568:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2976
+//line sqlparser/parser.y:2975
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftLeftStr, Right: yyDollar[3].expr}
 		}
-	case 570:
+	case 569:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2980
+//line sqlparser/parser.y:2979
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftRightStr, Right: yyDollar[3].expr}
 		}
-	case 571:
+	case 570:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2984
+//line sqlparser/parser.y:2983
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONExtractOp, Right: yyDollar[3].expr}
 		}
-	case 572:
+	case 571:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2988
+//line sqlparser/parser.y:2987
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONUnquoteExtractOp, Right: yyDollar[3].expr}
 		}
-	case 573:
+	case 572:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2992
+//line sqlparser/parser.y:2991
 		{
 			yyVAL.expr = &CollateExpr{Expr: yyDollar[1].expr, Charset: yyDollar[3].str}
 		}
-	case 574:
+	case 573:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2996
+//line sqlparser/parser.y:2995
 		{
 			yyVAL.expr = &UnaryExpr{Operator: BinaryStr, Expr: yyDollar[2].expr}
 		}
-	case 575:
+	case 574:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3000
+//line sqlparser/parser.y:2999
 		{
 			yyVAL.expr = &UnaryExpr{Operator: UBinaryStr, Expr: yyDollar[2].expr}
 		}
-	case 576:
+	case 575:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3004
+//line sqlparser/parser.y:3003
 		{
 			if num, ok := yyDollar[2].expr.(*SQLVal); ok && num.Type == IntVal {
 				yyVAL.expr = num
@@ -6797,9 +6797,9 @@ yydefault:
 				yyVAL.expr = &UnaryExpr{Operator: UPlusStr, Expr: yyDollar[2].expr}
 			}
 		}
-	case 577:
+	case 576:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3012
+//line sqlparser/parser.y:3011
 		{
 			if num, ok := yyDollar[2].expr.(*SQLVal); ok && num.Type == IntVal {
 				// Handle double negative
@@ -6813,21 +6813,21 @@ yydefault:
 				yyVAL.expr = &UnaryExpr{Operator: UMinusStr, Expr: yyDollar[2].expr}
 			}
 		}
-	case 578:
+	case 577:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3026
+//line sqlparser/parser.y:3025
 		{
 			yyVAL.expr = &UnaryExpr{Operator: TildaStr, Expr: yyDollar[2].expr}
 		}
-	case 579:
+	case 578:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3030
+//line sqlparser/parser.y:3029
 		{
 			yyVAL.expr = &UnaryExpr{Operator: BangStr, Expr: yyDollar[2].expr}
 		}
-	case 580:
+	case 579:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3034
+//line sqlparser/parser.y:3033
 		{
 			// This rule prevents the usage of INTERVAL
 			// as a function. If support is needed for that,
@@ -6835,492 +6835,492 @@ yydefault:
 			// will be non-trivial because of grammar conflicts.
 			yyVAL.expr = &IntervalExpr{Expr: yyDollar[2].expr, Unit: yyDollar[3].colIdent.String()}
 		}
-	case 581:
+	case 580:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3042
+//line sqlparser/parser.y:3041
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[1].expr, Type: yyDollar[3].convertType, Typecast: true}
 		}
-	case 586:
+	case 585:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3056
+//line sqlparser/parser.y:3055
 		{
 			yyVAL.expr = &FuncExpr{Name: yyDollar[1].colIdent, Exprs: yyDollar[3].selectExprs}
 		}
-	case 587:
+	case 586:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3060
+//line sqlparser/parser.y:3059
 		{
 			yyVAL.expr = &FuncExpr{Name: yyDollar[1].colIdent, Distinct: true, Exprs: yyDollar[4].selectExprs}
 		}
-	case 588:
+	case 587:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3064
+//line sqlparser/parser.y:3063
 		{
 			yyVAL.expr = &FuncExpr{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].colIdent, Exprs: yyDollar[5].selectExprs}
 		}
-	case 589:
+	case 588:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3074
+//line sqlparser/parser.y:3073
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("left"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 590:
+	case 589:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3078
+//line sqlparser/parser.y:3077
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("right"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 591:
+	case 590:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3082
+//line sqlparser/parser.y:3081
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].convertType}
 		}
-	case 592:
+	case 591:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3086
+//line sqlparser/parser.y:3085
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].convertType}
 		}
-	case 593:
+	case 592:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3090
+//line sqlparser/parser.y:3089
 		{
 			yyVAL.expr = &ConvertUsingExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].str}
 		}
-	case 594:
+	case 593:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3094
+//line sqlparser/parser.y:3093
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
 		}
-	case 595:
+	case 594:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3098
+//line sqlparser/parser.y:3097
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 596:
+	case 595:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3102
+//line sqlparser/parser.y:3101
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 597:
+	case 596:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3106
+//line sqlparser/parser.y:3105
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
 		}
-	case 598:
+	case 597:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3110
+//line sqlparser/parser.y:3109
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 599:
+	case 598:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3114
+//line sqlparser/parser.y:3113
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 600:
+	case 599:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line sqlparser/parser.y:3118
+//line sqlparser/parser.y:3117
 		{
 			yyVAL.expr = &MatchExpr{Columns: yyDollar[3].selectExprs, Expr: yyDollar[7].expr, Option: yyDollar[8].str}
 		}
-	case 601:
+	case 600:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:3122
+//line sqlparser/parser.y:3121
 		{
 			yyVAL.expr = &GroupConcatExpr{Distinct: yyDollar[3].str, Exprs: yyDollar[4].selectExprs, OrderBy: yyDollar[5].orderBy, Separator: yyDollar[6].str}
 		}
-	case 602:
+	case 601:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3126
+//line sqlparser/parser.y:3125
 		{
 			yyVAL.expr = &CaseExpr{Expr: yyDollar[2].expr, Whens: yyDollar[3].whens, Else: yyDollar[4].expr}
 		}
-	case 603:
+	case 602:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3130
+//line sqlparser/parser.y:3129
 		{
 			yyVAL.expr = &ValuesFuncExpr{Name: yyDollar[3].colName}
 		}
-	case 604:
+	case 603:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3140
+//line sqlparser/parser.y:3139
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_timestamp")}
 		}
-	case 605:
+	case 604:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3144
+//line sqlparser/parser.y:3143
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_timestamp")}
 		}
-	case 606:
+	case 605:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3148
+//line sqlparser/parser.y:3147
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_time")}
 		}
-	case 607:
+	case 606:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3152
+//line sqlparser/parser.y:3151
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_date")}
 		}
-	case 608:
+	case 607:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3157
+//line sqlparser/parser.y:3156
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtime")}
 		}
-	case 609:
+	case 608:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3162
+//line sqlparser/parser.y:3161
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtimestamp")}
 		}
-	case 610:
+	case 609:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3167
+//line sqlparser/parser.y:3166
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_date")}
 		}
-	case 611:
+	case 610:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3172
+//line sqlparser/parser.y:3171
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_time")}
 		}
-	case 612:
+	case 611:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3176
+//line sqlparser/parser.y:3175
 		{
 			yylex.Error("nothing to cast to " + yyDollar[2].convertType.Type)
 			return 1
 		}
-	case 615:
+	case 614:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3190
+//line sqlparser/parser.y:3189
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("if"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 616:
+	case 615:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3194
+//line sqlparser/parser.y:3193
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("database"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 617:
+	case 616:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3198
+//line sqlparser/parser.y:3197
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("mod"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 618:
+	case 617:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3202
+//line sqlparser/parser.y:3201
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("replace"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 619:
+	case 618:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3208
+//line sqlparser/parser.y:3207
 		{
 			yyVAL.str = ""
 		}
-	case 620:
+	case 619:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3212
+//line sqlparser/parser.y:3211
 		{
 			yyVAL.str = BooleanModeStr
 		}
-	case 621:
+	case 620:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3216
+//line sqlparser/parser.y:3215
 		{
 			yyVAL.str = NaturalLanguageModeStr
 		}
-	case 622:
+	case 621:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:3220
+//line sqlparser/parser.y:3219
 		{
 			yyVAL.str = NaturalLanguageModeWithQueryExpansionStr
 		}
-	case 623:
+	case 622:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3224
+//line sqlparser/parser.y:3223
 		{
 			yyVAL.str = QueryExpansionStr
 		}
-	case 624:
+	case 623:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3230
+//line sqlparser/parser.y:3229
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 625:
+	case 624:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3234
+//line sqlparser/parser.y:3233
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 626:
+	case 625:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3240
+//line sqlparser/parser.y:3239
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 627:
+	case 626:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3244
+//line sqlparser/parser.y:3243
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Operator: CharacterSetStr}
 		}
-	case 628:
+	case 627:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3248
+//line sqlparser/parser.y:3247
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: string(yyDollar[3].bytes)}
 		}
-	case 629:
+	case 628:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3252
+//line sqlparser/parser.y:3251
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 630:
+	case 629:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3256
+//line sqlparser/parser.y:3255
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 631:
+	case 630:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3260
+//line sqlparser/parser.y:3259
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 			yyVAL.convertType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.convertType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 632:
+	case 631:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3266
+//line sqlparser/parser.y:3265
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 633:
+	case 632:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3270
+//line sqlparser/parser.y:3269
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 634:
+	case 633:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3274
+//line sqlparser/parser.y:3273
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 635:
+	case 634:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3278
+//line sqlparser/parser.y:3277
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 636:
+	case 635:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3282
+//line sqlparser/parser.y:3281
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 637:
+	case 636:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3286
+//line sqlparser/parser.y:3285
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 638:
+	case 637:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3290
+//line sqlparser/parser.y:3289
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 639:
+	case 638:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3294
+//line sqlparser/parser.y:3293
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 640:
+	case 639:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3300
+//line sqlparser/parser.y:3299
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 641:
+	case 640:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3304
+//line sqlparser/parser.y:3303
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes)}
 		}
-	case 642:
+	case 641:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3308
+//line sqlparser/parser.y:3307
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 643:
+	case 642:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3312
+//line sqlparser/parser.y:3311
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 644:
+	case 643:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3316
+//line sqlparser/parser.y:3315
 		{
 			yyVAL.convertType = &ConvertType{Type: yyDollar[1].columnType.Type}
 		}
-	case 645:
+	case 644:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3320
+//line sqlparser/parser.y:3319
 		{
 			yyVAL.convertType = &ConvertType{Type: yyDollar[1].columnType.Type}
 		}
-	case 646:
+	case 645:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3324
+//line sqlparser/parser.y:3323
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 647:
+	case 646:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3329
+//line sqlparser/parser.y:3328
 		{
 			yyVAL.expr = nil
 		}
-	case 648:
+	case 647:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3333
+//line sqlparser/parser.y:3332
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 649:
+	case 648:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3338
+//line sqlparser/parser.y:3337
 		{
 			yyVAL.str = string("")
 		}
-	case 650:
+	case 649:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3342
+//line sqlparser/parser.y:3341
 		{
 			yyVAL.str = " separator " + String(NewStrVal(yyDollar[2].bytes))
 		}
-	case 651:
+	case 650:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3348
+//line sqlparser/parser.y:3347
 		{
 			yyVAL.whens = []*When{yyDollar[1].when}
 		}
-	case 652:
+	case 651:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3352
+//line sqlparser/parser.y:3351
 		{
 			yyVAL.whens = append(yyDollar[1].whens, yyDollar[2].when)
 		}
-	case 653:
+	case 652:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3358
+//line sqlparser/parser.y:3357
 		{
 			yyVAL.when = &When{Cond: yyDollar[2].expr, Val: yyDollar[4].expr}
 		}
-	case 654:
+	case 653:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3363
+//line sqlparser/parser.y:3362
 		{
 			yyVAL.expr = nil
 		}
-	case 655:
+	case 654:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3367
+//line sqlparser/parser.y:3366
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 656:
+	case 655:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3373
+//line sqlparser/parser.y:3372
 		{
 			yyVAL.colName = &ColName{Name: yyDollar[1].colIdent}
 		}
-	case 657:
+	case 656:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3377
+//line sqlparser/parser.y:3376
 		{
 			yyVAL.colName = &ColName{Qualifier: TableName{Name: yyDollar[1].tableIdent}, Name: yyDollar[3].colIdent}
 		}
-	case 658:
+	case 657:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3381
+//line sqlparser/parser.y:3380
 		{
 			yyVAL.colName = &ColName{Qualifier: TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}, Name: yyDollar[5].colIdent}
 		}
-	case 659:
+	case 658:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3387
+//line sqlparser/parser.y:3386
 		{
 			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
 		}
-	case 660:
+	case 659:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3391
+//line sqlparser/parser.y:3390
 		{
 			yyVAL.expr = NewHexVal(yyDollar[1].bytes)
 		}
-	case 661:
+	case 660:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3395
+//line sqlparser/parser.y:3394
 		{
 			yyVAL.expr = NewBitVal(yyDollar[1].bytes)
 		}
-	case 662:
+	case 661:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3399
+//line sqlparser/parser.y:3398
 		{
 			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
 		}
-	case 663:
+	case 662:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3403
+//line sqlparser/parser.y:3402
 		{
 			yyVAL.expr = NewFloatVal(yyDollar[1].bytes)
 		}
-	case 664:
+	case 663:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3407
+//line sqlparser/parser.y:3406
 		{
 			yyVAL.expr = NewHexNum(yyDollar[1].bytes)
 		}
-	case 665:
+	case 664:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3411
+//line sqlparser/parser.y:3410
 		{
 			yyVAL.expr = NewValArg(yyDollar[1].bytes)
 		}
-	case 666:
+	case 665:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3415
+//line sqlparser/parser.y:3414
 		{
 			yyVAL.expr = &NullVal{}
 		}
-	case 667:
+	case 666:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3421
+//line sqlparser/parser.y:3420
 		{
 			// TODO(sougou): Deprecate this construct.
 			if yyDollar[1].colIdent.Lowered() != "value" {
@@ -7329,239 +7329,239 @@ yydefault:
 			}
 			yyVAL.expr = NewIntVal([]byte("1"))
 		}
-	case 668:
+	case 667:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3430
+//line sqlparser/parser.y:3429
 		{
 			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
 		}
-	case 669:
+	case 668:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3434
+//line sqlparser/parser.y:3433
 		{
 			yyVAL.expr = NewValArg(yyDollar[1].bytes)
 		}
-	case 670:
+	case 669:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3439
+//line sqlparser/parser.y:3438
 		{
 			yyVAL.exprs = nil
 		}
-	case 671:
+	case 670:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3443
+//line sqlparser/parser.y:3442
 		{
 			yyVAL.exprs = yyDollar[3].exprs
 		}
-	case 672:
+	case 671:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3448
+//line sqlparser/parser.y:3447
 		{
 			yyVAL.expr = nil
 		}
-	case 673:
+	case 672:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3452
+//line sqlparser/parser.y:3451
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 674:
+	case 673:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3457
+//line sqlparser/parser.y:3456
 		{
 			yyVAL.orderBy = nil
 		}
-	case 675:
+	case 674:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3461
+//line sqlparser/parser.y:3460
 		{
 			yyVAL.orderBy = yyDollar[3].orderBy
 		}
-	case 676:
+	case 675:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3467
+//line sqlparser/parser.y:3466
 		{
 			yyVAL.orderBy = OrderBy{yyDollar[1].order}
 		}
-	case 677:
+	case 676:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3471
+//line sqlparser/parser.y:3470
 		{
 			yyVAL.orderBy = append(yyDollar[1].orderBy, yyDollar[3].order)
 		}
-	case 678:
+	case 677:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3477
+//line sqlparser/parser.y:3476
 		{
 			yyVAL.order = &Order{Expr: yyDollar[1].expr, Direction: yyDollar[2].str}
 		}
-	case 679:
+	case 678:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3482
+//line sqlparser/parser.y:3481
 		{
 			yyVAL.str = AscScr
 		}
-	case 680:
+	case 679:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3486
+//line sqlparser/parser.y:3485
 		{
 			yyVAL.str = AscScr
 		}
-	case 681:
+	case 680:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3490
+//line sqlparser/parser.y:3489
 		{
 			yyVAL.str = DescScr
 		}
-	case 682:
+	case 681:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3495
+//line sqlparser/parser.y:3494
 		{
 			yyVAL.limit = nil
 		}
-	case 683:
+	case 682:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3499
+//line sqlparser/parser.y:3498
 		{
 			yyVAL.limit = &Limit{Rowcount: yyDollar[2].expr}
 		}
-	case 684:
+	case 683:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3503
+//line sqlparser/parser.y:3502
 		{
 			yyVAL.limit = &Limit{Offset: yyDollar[2].expr, Rowcount: yyDollar[4].expr}
 		}
-	case 685:
+	case 684:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3507
+//line sqlparser/parser.y:3506
 		{
 			yyVAL.limit = &Limit{Offset: yyDollar[4].expr, Rowcount: yyDollar[2].expr}
 		}
-	case 686:
+	case 685:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3512
+//line sqlparser/parser.y:3511
 		{
 			yyVAL.str = ""
 		}
-	case 687:
+	case 686:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3516
+//line sqlparser/parser.y:3515
 		{
 			yyVAL.str = ForUpdateStr
 		}
-	case 688:
+	case 687:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3520
+//line sqlparser/parser.y:3519
 		{
 			yyVAL.str = ShareModeStr
 		}
-	case 689:
+	case 688:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3533
+//line sqlparser/parser.y:3532
 		{
 			yyVAL.ins = &Insert{Rows: yyDollar[2].values}
 		}
-	case 690:
+	case 689:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3537
+//line sqlparser/parser.y:3536
 		{
 			yyVAL.ins = &Insert{Rows: yyDollar[1].selStmt}
 		}
-	case 691:
+	case 690:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3541
+//line sqlparser/parser.y:3540
 		{
 			// Drop the redundant parenthesis.
 			yyVAL.ins = &Insert{Rows: yyDollar[2].selStmt}
 		}
-	case 692:
+	case 691:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3546
+//line sqlparser/parser.y:3545
 		{
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[5].values}
 		}
-	case 693:
+	case 692:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3550
+//line sqlparser/parser.y:3549
 		{
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[4].selStmt}
 		}
-	case 694:
+	case 693:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3554
+//line sqlparser/parser.y:3553
 		{
 			// Drop the redundant parenthesis.
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[5].selStmt}
 		}
-	case 695:
+	case 694:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3561
+//line sqlparser/parser.y:3560
 		{
 			yyVAL.columns = Columns{yyDollar[1].colIdent}
 		}
-	case 696:
+	case 695:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3565
+//line sqlparser/parser.y:3564
 		{
 			yyVAL.columns = Columns{yyDollar[3].colIdent}
 		}
-	case 697:
+	case 696:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3569
+//line sqlparser/parser.y:3568
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[3].colIdent)
 		}
-	case 698:
+	case 697:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3573
+//line sqlparser/parser.y:3572
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[5].colIdent)
 		}
-	case 699:
+	case 698:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3578
+//line sqlparser/parser.y:3577
 		{
 			yyVAL.updateExprs = nil
 		}
-	case 700:
+	case 699:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3582
+//line sqlparser/parser.y:3581
 		{
 			yyVAL.updateExprs = yyDollar[5].updateExprs
 		}
-	case 701:
+	case 700:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3588
+//line sqlparser/parser.y:3587
 		{
 			yyVAL.values = Values{yyDollar[1].valTuple}
 		}
-	case 702:
+	case 701:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3592
+//line sqlparser/parser.y:3591
 		{
 			yyVAL.values = append(yyDollar[1].values, yyDollar[3].valTuple)
 		}
-	case 703:
+	case 702:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3598
+//line sqlparser/parser.y:3597
 		{
 			yyVAL.valTuple = yyDollar[1].valTuple
 		}
-	case 704:
+	case 703:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3602
+//line sqlparser/parser.y:3601
 		{
 			yyVAL.valTuple = ValTuple{}
 		}
-	case 705:
+	case 704:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3608
+//line sqlparser/parser.y:3607
 		{
 			yyVAL.valTuple = ValTuple(yyDollar[2].exprs)
 		}
-	case 706:
+	case 705:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3614
+//line sqlparser/parser.y:3613
 		{
 			if len(yyDollar[1].valTuple) == 1 {
 				yyVAL.expr = &ParenExpr{yyDollar[1].valTuple[0]}
@@ -7569,282 +7569,282 @@ yydefault:
 				yyVAL.expr = yyDollar[1].valTuple
 			}
 		}
-	case 707:
+	case 706:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3624
+//line sqlparser/parser.y:3623
 		{
 			yyVAL.updateExprs = UpdateExprs{yyDollar[1].updateExpr}
 		}
-	case 708:
+	case 707:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3628
+//line sqlparser/parser.y:3627
 		{
 			yyVAL.updateExprs = append(yyDollar[1].updateExprs, yyDollar[3].updateExpr)
 		}
-	case 709:
+	case 708:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3634
+//line sqlparser/parser.y:3633
 		{
 			yyVAL.updateExpr = &UpdateExpr{Name: yyDollar[1].colName, Expr: yyDollar[3].expr}
 		}
-	case 710:
+	case 709:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3640
+//line sqlparser/parser.y:3639
 		{
 			yyVAL.setExprs = SetExprs{yyDollar[1].setExpr}
 		}
-	case 711:
+	case 710:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3644
+//line sqlparser/parser.y:3643
 		{
 			yyVAL.setExprs = append(yyDollar[1].setExprs, yyDollar[3].setExpr)
 		}
-	case 712:
+	case 711:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3650
+//line sqlparser/parser.y:3649
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("on"))}
 		}
-	case 713:
+	case 712:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3654
+//line sqlparser/parser.y:3653
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("off"))}
 		}
-	case 714:
+	case 713:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3658
+//line sqlparser/parser.y:3657
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: yyDollar[3].expr}
 		}
-	case 715:
+	case 714:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3662
+//line sqlparser/parser.y:3661
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent(string(yyDollar[1].bytes)), Expr: yyDollar[2].expr}
 		}
-	case 717:
+	case 716:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3669
+//line sqlparser/parser.y:3668
 		{
 			yyVAL.bytes = []byte("charset")
 		}
-	case 719:
+	case 718:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3676
+//line sqlparser/parser.y:3675
 		{
 			yyVAL.expr = NewStrVal([]byte(yyDollar[1].colIdent.String()))
 		}
-	case 720:
+	case 719:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3680
+//line sqlparser/parser.y:3679
 		{
 			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
 		}
-	case 721:
+	case 720:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3684
+//line sqlparser/parser.y:3683
 		{
 			yyVAL.expr = &Default{}
 		}
-	case 724:
+	case 723:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3693
+//line sqlparser/parser.y:3692
 		{
 			yyVAL.byt = 0
 		}
-	case 725:
+	case 724:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3695
+//line sqlparser/parser.y:3694
 		{
 			yyVAL.byt = 1
 		}
-	case 726:
+	case 725:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3698
+//line sqlparser/parser.y:3697
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 727:
+	case 726:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3700
+//line sqlparser/parser.y:3699
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 728:
+	case 727:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3703
+//line sqlparser/parser.y:3702
 		{
 			yyVAL.str = ""
 		}
-	case 729:
+	case 728:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3705
+//line sqlparser/parser.y:3704
 		{
 			yyVAL.str = IgnoreStr
 		}
+	case 729:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:3708
+		{
+			yyVAL.empty = struct{}{}
+		}
 	case 730:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3709
+//line sqlparser/parser.y:3710
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 731:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3711
+//line sqlparser/parser.y:3712
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 732:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3713
+//line sqlparser/parser.y:3714
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 733:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3715
+//line sqlparser/parser.y:3716
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 734:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3717
+//line sqlparser/parser.y:3718
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 735:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3719
+//line sqlparser/parser.y:3720
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 736:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3721
+//line sqlparser/parser.y:3722
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 737:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3723
+//line sqlparser/parser.y:3724
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 738:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3725
+//line sqlparser/parser.y:3726
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 739:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3727
+		yyDollar = yyS[yypt-0 : yypt+1]
+//line sqlparser/parser.y:3729
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 740:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3730
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:3731
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 741:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3732
+//line sqlparser/parser.y:3733
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 742:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3734
+//line sqlparser/parser.y:3737
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 743:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3738
+//line sqlparser/parser.y:3739
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 744:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3740
+//line sqlparser/parser.y:3743
 		{
-			yyVAL.empty = struct{}{}
+			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
 	case 745:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3744
+//line sqlparser/parser.y:3747
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 746:
+	case 747:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3748
+//line sqlparser/parser.y:3754
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
 	case 748:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3755
-		{
-			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
-		}
-	case 749:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3761
+//line sqlparser/parser.y:3760
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 750:
+	case 749:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3765
+//line sqlparser/parser.y:3764
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 752:
+	case 751:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3772
+//line sqlparser/parser.y:3771
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 993:
+	case 992:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4038
+//line sqlparser/parser.y:4037
 		{
 			if incNesting(yylex) {
 				yylex.Error("max nesting level reached")
 				return 1
 			}
 		}
-	case 994:
+	case 993:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4047
+//line sqlparser/parser.y:4046
 		{
 			decNesting(yylex)
 		}
-	case 995:
+	case 994:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:4052
+//line sqlparser/parser.y:4051
 		{
 			forceEOF(yylex)
 		}
-	case 996:
+	case 995:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:4057
+//line sqlparser/parser.y:4056
 		{
 			forceEOF(yylex)
 		}
-	case 997:
+	case 996:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4061
+//line sqlparser/parser.y:4060
 		{
 			forceEOF(yylex)
 		}
-	case 998:
+	case 997:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4065
+//line sqlparser/parser.y:4064
 		{
 			forceEOF(yylex)
 		}
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index ce7c66f..4c98bd0 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1054,7 +1054,7 @@ default_val:
   {
     $$ = $1
   }
-| BIT_LITERAL
+| BIT_LITERAL character_cast_opt
   {
     $$ = NewBitVal($1)
   }
@@ -1186,10 +1186,9 @@ character_cast_opt:
   {
     $$ = nil
   }
-| TYPECAST CHARACTER VARYING
-| TYPECAST TIMESTAMP time_zone_opt
-| TYPECAST BPCHAR
-| TYPECAST TEXT
+| TYPECAST column_type array_opt
+| TYPECAST BPCHAR array_opt
+| TYPECAST ID array_opt
 
 numeric_type:
   int_type length_opt
-- 
2.43.0


From 73fe257457ef0b9fc058f01ba33f4b36b89541ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 42/85] fix: drop NOT NULL left by PostgreSQL identities and
 primary keys, and know smallserial

---
 schema/generator.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 4187f34..425a9d9 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -326,9 +326,10 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					ddls = append(ddls, ddl)
 				}
 
+				dropNotNull := false
 				if !isPrimaryKey(*currentColumn, currentTable) { // Primary Key implies NOT NULL
 					if g.notNull(*currentColumn) && !g.notNull(desiredColumn) {
-						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name)))
+						dropNotNull = true // after DROP IDENTITY, which an identity column needs
 					} else if !g.notNull(*currentColumn) && g.notNull(desiredColumn) {
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s SET NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name)))
 					}
@@ -353,6 +354,10 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 				}
 
+				if dropNotNull {
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name)))
+				}
+
 				// default
 				if !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) {
 					if desiredColumn.defaultDef == nil {
@@ -481,6 +486,14 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			case GeneratorModePostgres:
 				tableName := strings.SplitN(desired.table.name, ".", 2)[1] // without schema
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(tableName+"_pkey")))
+
+				// NOT NULL stays in the columns of the dropped primary key
+				for _, column := range desired.table.columns {
+					currentColumn := findColumnByName(currentTable.columns, column.name)
+					if currentColumn != nil && isPrimaryKey(*currentColumn, currentTable) && !isPrimaryKey(column, desired.table) && !g.notNull(column) {
+						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(column.name)))
+					}
+				}
 			default:
 			}
 		}
@@ -1093,7 +1106,7 @@ func (g *Generator) notNull(column Column) bool {
 	if column.notNull == nil {
 		switch g.mode {
 		case GeneratorModePostgres:
-			return column.typeName == "serial" || column.typeName == "bigserial"
+			return column.typeName == "smallserial" || column.typeName == "serial" || column.typeName == "bigserial" || column.identity != nil
 		default:
 			return false
 		}
-- 
2.43.0


From 913e094d744fbdf13120cc84a31f14684b3e5845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 43/85] fix: dump PostgreSQL constraints of the right table,
 and add, change and drop them

---
 adapter/postgres/postgres.go |  169 +-
 schema/ast.go                |    1 +
 schema/generator.go          |   82 +-
 schema/parser.go             |   10 +
 sqlparser/ast.go             |    1 +
 sqlparser/parser.go          | 4711 +++++++++++++++++-----------------
 sqlparser/parser.y           |    5 +
 7 files changed, 2535 insertions(+), 2444 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 8033387..b4545a0 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -57,13 +57,13 @@ func (d *PostgresDatabase) TableNames() ([]string, error) {
 
 var (
 	suffixSemicolon = regexp.MustCompile(`;$`)
-	spaces          = regexp.MustCompile(`[ ]+`)
+	spaces          = regexp.MustCompile(`[ \n]+|'[^']*'|"[^"]*"`) // Spaces in a quoted string have to be kept
 )
 
 func (d *PostgresDatabase) Views() ([]string, error) {
 	rows, err := d.db.Query(
 		`select table_schema, table_name, definition from information_schema.tables
-		 inner join pg_views on table_name = viewname
+		 inner join pg_views on table_schema = schemaname and table_name = viewname
 		 where table_schema not in ('information_schema', 'pg_catalog')
 		 and (table_schema != 'public' or table_name != 'pg_buffercache')
 		 and table_type = 'VIEW';`,
@@ -80,12 +80,16 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 			return nil, err
 		}
 		definition = strings.TrimSpace(definition)
-		definition = strings.ReplaceAll(definition, "\n", "")
 		definition = suffixSemicolon.ReplaceAllString(definition, "")
-		definition = spaces.ReplaceAllString(definition, " ")
+		definition = spaces.ReplaceAllStringFunc(definition, func(token string) string {
+			if token[0] == '\'' || token[0] == '"' {
+				return token
+			}
+			return " "
+		})
 		ddls = append(
 			ddls, fmt.Sprintf(
-				"CREATE VIEW %s AS %s", schema+"."+name, definition,
+				"CREATE VIEW %s AS %s", escapeTableName(schema, name), definition,
 			),
 		)
 	}
@@ -101,7 +105,7 @@ func (d *PostgresDatabase) DumpTableDDL(table string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	pkeyCols, err := d.getPrimaryKeyColumns(table)
+	pkeyName, pkeyCols, err := d.getPrimaryKey(table)
 	if err != nil {
 		return "", err
 	}
@@ -117,18 +121,19 @@ func (d *PostgresDatabase) DumpTableDDL(table string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return buildDumpTableDDL(table, cols, pkeyCols, indexDefs, foreginDefs, policyDefs), nil
+	return buildDumpTableDDL(table, cols, pkeyName, pkeyCols, indexDefs, foreginDefs, policyDefs), nil
 }
 
-func buildDumpTableDDL(table string, columns []column, pkeyCols, indexDefs, foreginDefs, policyDefs []string) string {
+func buildDumpTableDDL(table string, columns []column, pkeyName string, pkeyCols, indexDefs, foreginDefs, policyDefs []string) string {
 	var queryBuilder strings.Builder
-	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s (", table)
+	schema, tableName := splitTableName(table)
+	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s (", escapeTableName(schema, tableName))
 	for i, col := range columns {
 		if i > 0 {
 			fmt.Fprint(&queryBuilder, ",")
 		}
 		fmt.Fprint(&queryBuilder, "\n"+indent)
-		fmt.Fprintf(&queryBuilder, "\"%s\" %s", col.Name, col.GetDataType())
+		fmt.Fprintf(&queryBuilder, "%s %s", quoteName(col.Name), col.GetDataType())
 		if col.Length > 0 {
 			fmt.Fprintf(&queryBuilder, "(%d)", col.Length)
 		}
@@ -150,7 +155,14 @@ func buildDumpTableDDL(table string, columns []column, pkeyCols, indexDefs, fore
 	}
 	if len(pkeyCols) > 0 {
 		fmt.Fprint(&queryBuilder, ",\n"+indent)
-		fmt.Fprintf(&queryBuilder, "PRIMARY KEY (\"%s\")", strings.Join(pkeyCols, "\", \""))
+		if pkeyName != tableName+"_pkey" {
+			fmt.Fprintf(&queryBuilder, "CONSTRAINT %s ", quoteName(pkeyName))
+		}
+		quotedCols := []string{}
+		for _, col := range pkeyCols {
+			quotedCols = append(quotedCols, quoteName(col))
+		}
+		fmt.Fprintf(&queryBuilder, "PRIMARY KEY (%s)", strings.Join(quotedCols, ", "))
 	}
 	fmt.Fprintf(&queryBuilder, "\n);\n")
 	for _, v := range indexDefs {
@@ -211,16 +223,17 @@ func (d *PostgresDatabase) getColumns(table string) ([]column, error) {
 	const query = `SELECT s.column_name, s.column_default, s.is_nullable, s.character_maximum_length,
 	CASE WHEN s.data_type IN ('ARRAY', 'USER-DEFINED', 'numeric') OR s.data_type LIKE 'time%' THEN format_type(f.atttypid, f.atttypmod) ELSE s.data_type END,
 	CASE WHEN p.contype = 'u' THEN true ELSE false END AS uniquekey,
+	pc.conname AS checkname,
 	CASE WHEN pc.contype = 'c' THEN pg_get_constraintdef(pc.oid, true) ELSE NULL END AS check,
 	s.identity_generation
 FROM pg_attribute f
 	JOIN pg_class c ON c.oid = f.attrelid JOIN pg_type t ON t.oid = f.atttypid
 	LEFT JOIN pg_attrdef d ON d.adrelid = c.oid AND d.adnum = f.attnum
 	LEFT JOIN pg_namespace n ON n.oid = c.relnamespace
-	LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND p.contype = 'u'
-	LEFT JOIN pg_constraint pc ON pc.conrelid = c.oid AND f.attnum = ANY (pc.conkey) AND pc.contype = 'c'
-	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname
-WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum > 0 ORDER BY f.attnum;`
+	LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND array_length(p.conkey, 1) = 1 AND p.contype = 'u'
+	LEFT JOIN pg_constraint pc ON pc.conrelid = c.oid AND f.attnum = pc.conkey[1] AND pc.contype = 'c'
+	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname AND s.table_schema = n.nspname
+WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum > 0 AND NOT f.attisdropped ORDER BY f.attnum, pc.conname;`
 
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
@@ -233,9 +246,9 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 	for rows.Next() {
 		col := column{}
 		var colName, isNullable, dataType string
-		var maxLenStr, colDefault, check, idGen *string
+		var maxLenStr, colDefault, checkName, check, idGen *string
 		var isUnique bool
-		err = rows.Scan(&colName, &colDefault, &isNullable, &maxLenStr, &dataType, &isUnique, &check, &idGen)
+		err = rows.Scan(&colName, &colDefault, &isNullable, &maxLenStr, &dataType, &isUnique, &checkName, &check, &idGen)
 		if err != nil {
 			return nil, err
 		}
@@ -246,7 +259,10 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 				return nil, err
 			}
 		}
-		col.Name = strings.Trim(colName, `" `)
+		col.Name = colName
+		if len(cols) > 0 && cols[len(cols)-1].Name == colName {
+			continue // A column has only one check.
+		}
 		if colDefault != nil {
 			col.Default = *colDefault
 		}
@@ -259,6 +275,9 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 		col.Length = maxLen
 		if check != nil {
 			col.Check = *check
+			if *checkName != fmt.Sprintf("%s_%s_check", table, colName) {
+				col.Check = fmt.Sprintf("CONSTRAINT %s %s", quoteName(*checkName), col.Check)
+			}
 		}
 		if idGen != nil {
 			col.IdentityGeneration = *idGen
@@ -269,97 +288,79 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 }
 
 func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
-	const query = "SELECT indexName, indexdef FROM pg_indexes WHERE schemaname=$1 AND tablename=$2"
+	// Exclude what a primary key and UNIQUE of a column make
+	const query = `SELECT indexdef FROM pg_indexes
+WHERE schemaname = $1 AND tablename = $2 AND NOT EXISTS (
+	SELECT 1 FROM pg_constraint con
+		JOIN pg_class c ON c.oid = con.conrelid
+		JOIN pg_namespace n ON n.oid = c.relnamespace
+	WHERE n.nspname = $1 AND c.relname = $2 AND con.conname = indexname
+		AND (con.contype = 'p' OR con.contype = 'u' AND array_length(con.conkey, 1) = 1)
+)`
 	schema, table := splitTableName(table)
-	rows, err := d.db.Query(query, schema, table)
-	if err != nil {
-		return nil, err
-	}
-	defer rows.Close()
-
-	indexes := make([]string, 0)
-	for rows.Next() {
-		var indexName, indexdef string
-		err = rows.Scan(&indexName, &indexdef)
-		if err != nil {
-			return nil, err
-		}
-		indexName = strings.Trim(indexName, `" `)
-		if strings.HasSuffix(indexName, "_pkey") {
-			continue
-		}
-		indexes = append(indexes, indexdef)
-	}
-	return indexes, rows.Err()
+	return d.queryStrings(query, schema, table)
 }
 
-func (d *PostgresDatabase) getPrimaryKeyColumns(table string) ([]string, error) {
+func (d *PostgresDatabase) getPrimaryKey(table string) (string, []string, error) {
 	const query = `SELECT
-	tc.table_schema, tc.constraint_name, tc.table_name, kcu.column_name
+	tc.constraint_name, kcu.column_name
 FROM
 	information_schema.table_constraints AS tc
 	JOIN information_schema.key_column_usage AS kcu
-		ON tc.constraint_name = kcu.constraint_name
+		ON tc.constraint_name = kcu.constraint_name AND tc.table_schema = kcu.table_schema AND tc.table_name = kcu.table_name
 WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$2 ORDER BY kcu.ordinal_position`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		return nil, err
+		return "", nil, err
 	}
 	defer rows.Close()
 
 	columnNames := make([]string, 0)
-	var tableSchema, constraintName, tableName string
+	var constraintName string
 	for rows.Next() {
 		var columnName string
-		err = rows.Scan(&tableSchema, &constraintName, &tableName, &columnName)
+		err = rows.Scan(&constraintName, &columnName)
 		if err != nil {
-			return nil, err
+			return "", nil, err
 		}
 		columnNames = append(columnNames, columnName)
 	}
-	return columnNames, rows.Err()
+	return constraintName, columnNames, rows.Err()
 }
 
-// refs: https://gist.github.com/PickledDragon/dd41f4e72b428175354d
+// What the parser doesn't support in a foreign key
+var foreignKeyOptions = regexp.MustCompile(` MATCH (FULL|PARTIAL)|( DEFERRABLE)?( INITIALLY DEFERRED)?( NOT VALID)?$`)
+
 func (d *PostgresDatabase) getForeginDefs(table string) ([]string, error) {
-	const query = `SELECT
-	tc.table_schema, tc.constraint_name, tc.table_name, kcu.column_name,
-	ccu.table_schema AS foreign_table_schema,
-	ccu.table_name AS foreign_table_name,
-	ccu.column_name AS foreign_column_name,
-	rc.update_rule AS foreign_update_rule,
-	rc.delete_rule AS foreign_delete_rule
-FROM
-	information_schema.table_constraints AS tc
-	JOIN information_schema.key_column_usage AS kcu
-		ON tc.constraint_name = kcu.constraint_name
-	JOIN information_schema.constraint_column_usage AS ccu
-		ON tc.constraint_name = ccu.constraint_name
-	JOIN information_schema.referential_constraints AS rc
-		ON tc.constraint_name = rc.constraint_name
-WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$2`
+	const query = `SELECT quote_ident(con.conname) || ' ' || pg_get_constraintdef(con.oid) FROM pg_constraint con
+	JOIN pg_class c ON c.oid = con.conrelid
+	JOIN pg_namespace n ON n.oid = c.relnamespace
+WHERE con.contype = 'f' AND n.nspname = $1 AND c.relname = $2 ORDER BY con.conname`
 	schema, table := splitTableName(table)
-	rows, err := d.db.Query(query, schema, table)
+	defs, err := d.queryStrings(query, schema, table)
+	for i, def := range defs {
+		defs[i] = fmt.Sprintf("ALTER TABLE ONLY %s ADD CONSTRAINT %s", escapeTableName(schema, table), foreignKeyOptions.ReplaceAllString(def, ""))
+	}
+	return defs, err
+}
+
+func (d *PostgresDatabase) queryStrings(query string, args ...interface{}) ([]string, error) {
+	rows, err := d.db.Query(query, args...)
 	if err != nil {
 		return nil, err
 	}
 	defer rows.Close()
 
-	defs := make([]string, 0)
+	strs := make([]string, 0)
 	for rows.Next() {
-		var tableSchema, constraintName, tableName, columnName, foreignTableSchema, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule string
-		err = rows.Scan(&tableSchema, &constraintName, &tableName, &columnName, &foreignTableSchema, &foreignTableName, &foreignColumnName, &foreignUpdateRule, &foreignDeleteRule)
-		if err != nil {
+		var str string
+		if err := rows.Scan(&str); err != nil {
 			return nil, err
 		}
-		def := fmt.Sprintf(
-			"ALTER TABLE ONLY %s.%s ADD CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s.%s(%s) ON UPDATE %s ON DELETE %s",
-			tableSchema, tableName, constraintName, columnName, foreignTableSchema, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule,
-		)
-		defs = append(defs, def)
+		strs = append(strs, str)
 	}
-	return defs, rows.Err()
+	return strs, rows.Err()
 }
 
 var (
@@ -390,7 +391,7 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 		roles = policyRolesSuffixRegex.ReplaceAllString(roles, "")
 		def := fmt.Sprintf(
 			"CREATE POLICY %s ON %s AS %s FOR %s TO %s",
-			policyName, table, permissive, cmd, roles,
+			quoteName(policyName), escapeTableName(schema, table), permissive, cmd, roles,
 		)
 		if using.Valid {
 			def += fmt.Sprintf(" USING %s", using.String)
@@ -444,3 +445,19 @@ func splitTableName(table string) (string, string) {
 	}
 	return schema, table
 }
+
+var plainName = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)
+
+func escapeTableName(schema, table string) string {
+	names := []string{schema, table}
+	for i, name := range names {
+		if !plainName.MatchString(name) {
+			names[i] = quoteName(name)
+		}
+	}
+	return strings.Join(names, ".")
+}
+
+func quoteName(name string) string {
+	return `"` + strings.ReplaceAll(name, `"`, `""`) + `"`
+}
diff --git a/schema/ast.go b/schema/ast.go
index 0529ecf..a79661a 100644
--- a/schema/ast.go
+++ b/schema/ast.go
@@ -113,6 +113,7 @@ type ForeignKey struct {
 	constraintName    string
 	indexName         string
 	indexColumns      []string
+	referenceSchema   string // only for PostgreSQL
 	referenceName     string
 	referenceColumns  []string
 	onDelete          string
diff --git a/schema/generator.go b/schema/generator.go
index 425a9d9..8bb8cf7 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"math/big"
 	"reflect"
+	"regexp"
 	"sort"
 	"strings"
 )
@@ -82,6 +83,7 @@ func GenerateIdempotentDDLs(mode GeneratorMode, desiredSQL string, currentSQL st
 // Main part of DDL genearation
 func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 	ddls := []string{}
+	foreignKeyDDLs := []string{}
 
 	// Incrementally examine desiredDDLs
 	for _, ddl := range desiredDDLs {
@@ -120,7 +122,7 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 			if err != nil {
 				return ddls, err
 			}
-			ddls = append(ddls, fkeyDDLs...)
+			foreignKeyDDLs = append(foreignKeyDDLs, fkeyDDLs...)
 		case *AddPolicy:
 			policyDDLs, err := g.generateDDLsForCreatePolicy(desired.tableName, desired.policy, "CREATE POLICY", ddl.Statement())
 			if err != nil {
@@ -144,6 +146,9 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 		}
 	}
 
+	// Referenced tables may be created after the statement.
+	ddls = append(ddls, foreignKeyDDLs...)
+
 	// Clean up obsoleted tables, indexes, columns
 	absentColumnDDLs := []string{}
 	for _, currentTable := range sortReferencingFirst(g.currentTables) {
@@ -374,13 +379,21 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				}
 
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
-					constraintName := fmt.Sprintf("%s_%s_check", strings.Replace(desired.table.name, "public.", "", 1), desiredColumn.name)
+					constraintName := fmt.Sprintf("%s_%s_check", strings.SplitN(desired.table.name, ".", 2)[1], desiredColumn.name) // without schema
 					if currentColumn.check != nil {
-						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), constraintName)
+						currentConstraintName := currentColumn.check.constraintName
+						if currentConstraintName == "" {
+							currentConstraintName = constraintName
+						}
+						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeConstraintName(currentConstraintName))
 						ddls = append(ddls, ddl)
 					}
 					if desiredColumn.check != nil {
-						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK (%s)", g.escapeTableName(desired.table.name), constraintName, desiredColumn.check.definition)
+						desiredConstraintName := desiredColumn.check.constraintName
+						if desiredConstraintName == "" {
+							desiredConstraintName = constraintName
+						}
+						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK (%s)", g.escapeTableName(desired.table.name), g.escapeConstraintName(desiredConstraintName), desiredColumn.check.definition)
 						if desiredColumn.checkNoInherit {
 							ddl += " NO INHERIT"
 						}
@@ -388,6 +401,14 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 				}
 
+				// UNIQUE
+				if !currentColumn.keyOption.isUnique() && desiredColumn.keyOption.isUnique() {
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ADD UNIQUE (%s)", g.escapeTableName(desired.table.name), g.escapeSQLName(desiredColumn.name)))
+				} else if currentColumn.keyOption.isUnique() && !desiredColumn.keyOption.isUnique() {
+					constraintName := fmt.Sprintf("%s_%s_key", strings.SplitN(desired.table.name, ".", 2)[1], desiredColumn.name) // without schema
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(constraintName)))
+				}
+
 				// TODO: support adding a column's `references`
 			case GeneratorModeMssql:
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
@@ -484,8 +505,11 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			case GeneratorModeMysql:
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY", g.escapeTableName(desired.table.name)))
 			case GeneratorModePostgres:
-				tableName := strings.SplitN(desired.table.name, ".", 2)[1] // without schema
-				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(tableName+"_pkey")))
+				constraintName := currentPrimaryKey.name
+				if constraintName == "PRIMARY" { // not specified
+					constraintName = strings.SplitN(desired.table.name, ".", 2)[1] + "_pkey" // without schema
+				}
+				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(constraintName)))
 
 				// NOT NULL stays in the columns of the dropped primary key
 				for _, column := range desired.table.columns {
@@ -616,7 +640,19 @@ func (g *Generator) generateDDLsForCreateIndex(tableName string, desiredIndex In
 func (g *Generator) generateDDLsForAddForeignKey(tableName string, desiredForeignKey ForeignKey, action string, statement string) ([]string, error) {
 	var ddls []string
 
-	// TODO: Simulate currentTable.foreignKeys too
+	currentTable := findTableByName(g.currentTables, tableName)
+	if currentTable == nil {
+		return nil, fmt.Errorf("%s is performed for inexistent table '%s': '%s'", action, tableName, statement)
+	}
+	currentForeignKey := findForeignKeyByName(currentTable.foreignKeys, desiredForeignKey.constraintName)
+	if currentForeignKey == nil {
+		// Foreign key not found, add foreign key.
+		ddls = append(ddls, statement)
+	} else if !g.areSameForeignKeys(*currentForeignKey, desiredForeignKey) {
+		// Foreign key found. If it's different, drop and add foreign key.
+		ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(tableName), g.escapeSQLName(currentForeignKey.constraintName)))
+		ddls = append(ddls, statement)
+	}
 
 	// Examine indexes in desiredTable to delete obsoleted indexes later
 	desiredTable := findTableByName(g.desiredTables, tableName)
@@ -784,7 +820,7 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 	} else if currentIndex.unique {
 		var uniqueKeyColumn *Column
 		for _, column := range desiredTable.columns {
-			if len(currentIndex.columns) > 1 || (g.mode == GeneratorModeMysql && currentIndex.name != column.name) {
+			if len(currentIndex.columns) > 1 || (g.mode == GeneratorModeMysql && currentIndex.name != column.name) || g.mode == GeneratorModePostgres {
 				continue // This is not what the column's UNIQUE makes.
 			}
 			if column.name == currentIndex.columns[0].column && column.keyOption.isUnique() {
@@ -1036,9 +1072,13 @@ func (g *Generator) generateForeignKeyDefinition(foreignKey ForeignKey) string {
 		referenceColumns = append(referenceColumns, g.escapeSQLName(column))
 	}
 
+	referenceName := g.escapeSQLName(foreignKey.referenceName)
+	if foreignKey.referenceSchema != "" {
+		referenceName = g.escapeSQLName(foreignKey.referenceSchema) + "." + referenceName
+	}
 	definition += fmt.Sprintf(
 		"(%s) REFERENCES %s (%s) ",
-		strings.Join(indexColumns, ","), g.escapeSQLName(foreignKey.referenceName),
+		strings.Join(indexColumns, ","), referenceName,
 		strings.Join(referenceColumns, ","),
 	)
 
@@ -1102,6 +1142,16 @@ func (g *Generator) escapeSQLName(name string) string {
 	}
 }
 
+var plainName = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)
+
+// Quote a constraint's name only when it's needed
+func (g *Generator) escapeConstraintName(name string) string {
+	if plainName.MatchString(name) {
+		return name
+	}
+	return g.escapeSQLName(name)
+}
+
 func (g *Generator) notNull(column Column) bool {
 	if column.notNull == nil {
 		switch g.mode {
@@ -1528,13 +1578,23 @@ func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB Forei
 		strings.Join(foreignKeyA.referenceColumns, ",") != strings.Join(foreignKeyB.referenceColumns, ",") {
 		return false
 	}
-	if g.mode == GeneratorModeMysql && foreignKeyA.referenceName != foreignKeyB.referenceName {
+	if (g.mode == GeneratorModeMysql || g.mode == GeneratorModePostgres) && foreignKeyA.referenceName != foreignKeyB.referenceName {
+		return false
+	}
+	if normalizeReferenceSchema(foreignKeyA.referenceSchema) != normalizeReferenceSchema(foreignKeyB.referenceSchema) {
 		return false
 	}
-	// TODO: check index, reference with a schema name
+	// TODO: check index
 	return true
 }
 
+func normalizeReferenceSchema(referenceSchema string) string {
+	if referenceSchema == "public" {
+		return "" // the default
+	}
+	return referenceSchema
+}
+
 func areSamePolicies(policyA, policyB Policy) bool {
 	if strings.ToLower(policyA.scope) != strings.ToLower(policyB.scope) {
 		return false
diff --git a/schema/parser.go b/schema/parser.go
index d5eac91..659c75e 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -192,6 +192,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 			constraintName:    foreignKeyDef.ConstraintName.String(),
 			indexName:         foreignKeyDef.IndexName.String(),
 			indexColumns:      indexColumns,
+			referenceSchema:   referenceSchema(mode, foreignKeyDef),
 			referenceName:     foreignKeyDef.ReferenceName.String(),
 			referenceColumns:  referenceColumns,
 			onDelete:          foreignKeyDef.OnDelete.String(),
@@ -357,6 +358,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 					constraintName:    stmt.ForeignKey.ConstraintName.String(),
 					indexName:         stmt.ForeignKey.IndexName.String(),
 					indexColumns:      indexColumns,
+					referenceSchema:   referenceSchema(mode, stmt.ForeignKey),
 					referenceName:     stmt.ForeignKey.ReferenceName.String(),
 					referenceColumns:  referenceColumns,
 					onDelete:          stmt.ForeignKey.OnDelete.String(),
@@ -465,6 +467,14 @@ func normalizedTableName(mode GeneratorMode, tableName sqlparser.TableName) stri
 	return table
 }
 
+// Schema of the table a foreign key refers to, when there can be several ones
+func referenceSchema(mode GeneratorMode, foreignKey *sqlparser.ForeignKeyDefinition) string {
+	if mode != GeneratorModePostgres {
+		return ""
+	}
+	return foreignKey.ReferenceSchema.String()
+}
+
 // TODO: parse charset in parser.y instead of "detecting" it
 func detectCharset(table sqlparser.TableSpec) string {
 	for _, option := range strings.Split(table.Options, " ") {
diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 388950d..6eff0cb 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -1408,6 +1408,7 @@ type ForeignKeyDefinition struct {
 	ConstraintName    ColIdent
 	IndexName         ColIdent
 	IndexColumns      []ColIdent
+	ReferenceSchema   TableIdent
 	ReferenceName     ColIdent
 	ReferenceColumns  []ColIdent
 	OnDelete          ColIdent
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index e042c41..75affa5 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -736,430 +736,389 @@ var yyExca = [...]int{
 	121, 104,
 	-2, 94,
 	-1, 36,
-	153, 415,
-	154, 415,
-	-2, 405,
+	153, 416,
+	154, 416,
+	-2, 406,
 	-1, 272,
-	109, 748,
-	-2, 744,
-	-1, 273,
 	109, 749,
 	-2, 745,
+	-1, 273,
+	109, 750,
+	-2, 746,
 	-1, 343,
-	80, 942,
+	80, 943,
 	-2, 58,
 	-1, 344,
-	80, 893,
+	80, 894,
 	-2, 59,
 	-1, 349,
-	80, 872,
-	-2, 715,
+	80, 873,
+	-2, 716,
 	-1, 351,
-	80, 916,
-	-2, 717,
+	80, 917,
+	-2, 718,
 	-1, 652,
 	51, 41,
 	53, 41,
 	-2, 43,
 	-1, 797,
-	109, 751,
-	-2, 747,
+	109, 752,
+	-2, 748,
 	-1, 1039,
 	5, 28,
-	-2, 550,
+	-2, 551,
 	-1, 1064,
 	5, 27,
-	-2, 689,
+	-2, 690,
 	-1, 1165,
 	5, 27,
 	-2, 64,
 	-1, 1383,
 	5, 28,
-	-2, 690,
+	-2, 691,
 	-1, 1465,
 	5, 27,
-	-2, 692,
-	-1, 1591,
-	5, 28,
 	-2, 693,
+	-1, 1592,
+	5, 28,
+	-2, 694,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 14697
+const yyLast = 14599
 
 var yyAct = [...]int{
-	273, 1098, 1516, 1520, 1478, 1389, 1543, 1067, 1581, 974,
-	729, 302, 1279, 579, 1475, 277, 1402, 861, 773, 1252,
-	1280, 937, 1101, 578, 3, 1253, 879, 464, 1167, 674,
-	1249, 646, 903, 607, 608, 89, 969, 644, 89, 982,
-	1304, 909, 923, 1129, 276, 1123, 251, 53, 902, 862,
-	1083, 1225, 348, 833, 66, 735, 964, 1156, 822, 1031,
-	245, 1153, 89, 89, 353, 830, 849, 662, 918, 353,
-	517, 250, 353, 353, 1072, 799, 511, 661, 89, 832,
-	89, 462, 898, 858, 342, 633, 89, 602, 1013, 648,
-	330, 275, 531, 339, 337, 329, 1137, 52, 936, 328,
-	498, 523, 939, 1662, 246, 247, 248, 249, 593, 1305,
-	1623, 1292, 936, 264, 1408, 260, 553, 554, 546, 547,
-	548, 549, 550, 551, 552, 545, 496, 555, 555, 545,
-	465, 466, 555, 270, 925, 1293, 1655, 952, 1415, 1121,
-	1696, 1639, 1692, 1598, 1589, 1548, 1547, 1648, 932, 539,
-	921, 542, 1157, 1158, 1683, 975, 922, 557, 558, 559,
-	560, 561, 562, 563, 345, 540, 541, 538, 544, 543,
+	273, 1544, 1478, 1475, 1517, 1067, 974, 1389, 1521, 1402,
+	1252, 1582, 729, 861, 1101, 579, 464, 1098, 277, 879,
+	302, 937, 1280, 1253, 509, 773, 1279, 578, 3, 1167,
+	903, 646, 952, 1249, 251, 89, 607, 1599, 89, 674,
+	644, 608, 909, 1129, 1123, 245, 923, 1304, 498, 276,
+	982, 862, 969, 53, 1225, 1083, 822, 902, 66, 348,
+	1031, 735, 89, 89, 353, 833, 1156, 830, 662, 353,
+	1153, 918, 353, 353, 964, 250, 1072, 849, 89, 799,
+	89, 511, 462, 517, 942, 661, 89, 858, 633, 246,
+	247, 248, 249, 335, 342, 648, 275, 602, 339, 523,
+	1013, 260, 328, 337, 531, 1137, 936, 545, 1374, 52,
+	555, 1663, 345, 832, 939, 593, 1305, 555, 1624, 330,
+	1373, 510, 465, 466, 1415, 264, 329, 1408, 86, 1292,
+	1293, 1697, 1640, 270, 1693, 1590, 1548, 1537, 544, 543,
 	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	938, 1627, 555, 1536, 544, 543, 553, 554, 546, 547,
-	548, 549, 550, 551, 552, 545, 1638, 1244, 555, 1612,
-	1588, 1377, 475, 1373, 510, 48, 26, 27, 1274, 928,
-	1091, 924, 933, 1090, 893, 894, 1092, 301, 930, 929,
-	1275, 1276, 892, 663, 89, 664, 506, 764, 353, 353,
-	353, 353, 1431, 353, 765, 491, 1430, 853, 1139, 941,
-	353, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 953, 1326, 555, 546, 547, 548, 549,
-	550, 551, 552, 545, 1325, 1366, 555, 353, 1370, 510,
-	1576, 548, 549, 550, 551, 552, 545, 1454, 1364, 555,
-	520, 347, 244, 943, 465, 466, 468, 1136, 1518, 472,
-	473, 1494, 1479, 1566, 1654, 965, 1656, 737, 738, 493,
-	1691, 495, 519, 1336, 1337, 1481, 544, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 1681, 1133,
-	555, 1135, 1134, 279, 1582, 926, 502, 503, 89, 492,
-	494, 927, 1405, 556, 556, 89, 89, 89, 556, 1203,
-	859, 353, 736, 1341, 1583, 919, 1462, 353, 84, 80,
-	81, 82, 1410, 1409, 1115, 499, 500, 501, 1342, 504,
-	920, 1114, 1103, 1303, 1286, 57, 508, 1670, 1125, 1126,
-	1127, 1350, 1527, 1480, 1287, 1108, 1130, 1128, 299, 300,
-	1647, 934, 1295, 935, 1537, 333, 480, 1548, 556, 75,
-	59, 60, 61, 62, 63, 470, 931, 78, 1439, 880,
-	882, 77, 467, 78, 556, 1482, 1483, 1484, 1485, 1486,
-	1487, 1488, 743, 1082, 570, 571, 572, 573, 574, 575,
-	576, 1120, 1081, 476, 595, 596, 597, 598, 599, 600,
-	601, 653, 953, 1080, 659, 727, 966, 70, 73, 946,
-	919, 345, 1587, 223, 79, 347, 347, 347, 347, 1204,
-	347, 490, 71, 74, 1200, 920, 1687, 347, 1403, 1404,
-	1406, 556, 1541, 737, 738, 1386, 1190, 1613, 89, 72,
-	68, 1212, 556, 510, 881, 89, 49, 89, 353, 1106,
-	89, 568, 569, 89, 533, 556, 1047, 89, 1025, 353,
-	353, 353, 353, 353, 353, 353, 353, 680, 676, 771,
-	335, 83, 535, 353, 353, 486, 900, 899, 89, 1320,
-	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
-	552, 545, 1008, 353, 555, 768, 556, 89, 530, 479,
-	1208, 1191, 1477, 353, 1246, 86, 1193, 1186, 1187, 752,
-	1194, 1189, 1188, 1559, 919, 1196, 1192, 1558, 1132, 1136,
-	800, 1557, 1201, 1556, 1199, 528, 1195, 1617, 347, 920,
-	1321, 1044, 1185, 338, 667, 1555, 776, 1202, 529, 528,
-	1619, 530, 1554, 1553, 1551, 750, 1333, 353, 477, 806,
-	478, 1133, 1070, 1135, 1134, 530, 485, 665, 797, 1614,
-	69, 850, 1100, 804, 805, 803, 732, 850, 566, 1054,
-	1493, 1009, 842, 845, 742, 837, 1207, 525, 851, 529,
-	528, 1673, 482, 483, 484, 753, 754, 755, 756, 757,
-	758, 759, 760, 521, 795, 793, 530, 469, 89, 761,
-	762, 89, 89, 89, 89, 89, 796, 778, 76, 1672,
-	529, 528, 1653, 89, 825, 863, 89, 1248, 1652, 1111,
-	89, 1496, 1022, 1023, 1024, 89, 89, 530, 333, 353,
-	827, 828, 838, 839, 789, 791, 792, 1651, 846, 837,
-	790, 798, 353, 1100, 807, 808, 809, 810, 811, 812,
-	813, 814, 815, 816, 817, 818, 819, 820, 821, 855,
-	50, 847, 887, 1601, 1597, 347, 1110, 1492, 471, 327,
-	802, 474, 854, 1504, 856, 857, 347, 347, 347, 347,
-	347, 347, 347, 347, 1615, 1616, 1618, 1620, 1621, 1100,
-	347, 347, 865, 866, 487, 868, 864, 876, 353, 867,
-	556, 1649, 353, 1599, 353, 89, 885, 89, 890, 884,
-	780, 510, 89, 889, 89, 1549, 1433, 89, 353, 1099,
-	533, 1432, 1600, 347, 907, 774, 775, 529, 528, 345,
-	1424, 971, 1220, 1301, 1140, 1180, 1423, 509, 997, 1162,
-	1140, 1100, 904, 1650, 530, 823, 1160, 824, 967, 968,
-	1140, 996, 544, 543, 553, 554, 546, 547, 548, 549,
-	550, 551, 552, 545, 829, 1552, 555, 1461, 1428, 1352,
-	1154, 529, 528, 1117, 843, 843, 1290, 1289, 1001, 21,
-	843, 1574, 1700, 510, 1043, 800, 1042, 995, 530, 1469,
-	1689, 1399, 1682, 1569, 797, 1399, 1661, 1568, 628, 954,
-	955, 956, 957, 529, 528, 1181, 1177, 652, 770, 1182,
-	1179, 1178, 1288, 1014, 74, 1399, 1660, 843, 1399, 1646,
-	530, 1574, 1645, 1015, 1109, 1183, 1642, 1641, 978, 1093,
-	980, 1176, 801, 1021, 977, 255, 992, 989, 990, 826,
-	988, 749, 796, 769, 1006, 1512, 347, 1634, 510, 1027,
-	1399, 1631, 1064, 748, 353, 1469, 1579, 89, 733, 347,
-	529, 528, 731, 1085, 488, 1087, 1399, 1570, 999, 1002,
-	1469, 1502, 1511, 353, 1469, 510, 1505, 530, 1469, 1470,
-	1425, 1036, 1399, 1398, 353, 1053, 1271, 510, 1385, 510,
-	1329, 1328, 1323, 1324, 1086, 353, 481, 1051, 1323, 1322,
-	1037, 510, 656, 1116, 89, 1095, 630, 510, 1028, 1029,
-	1030, 23, 1077, 835, 510, 972, 672, 671, 1417, 347,
-	463, 347, 463, 23, 333, 333, 333, 333, 333, 1088,
-	1575, 1313, 1574, 994, 1062, 347, 1069, 1063, 728, 333,
-	1250, 1215, 657, 1068, 655, 739, 353, 740, 333, 1464,
-	744, 1131, 1068, 747, 1104, 1105, 1107, 50, 629, 347,
-	54, 1069, 1049, 886, 993, 655, 835, 1165, 1381, 50,
-	50, 23, 556, 904, 1046, 630, 353, 630, 766, 89,
-	89, 1416, 630, 1037, 1332, 919, 1327, 89, 1094, 1159,
-	914, 1155, 913, 1161, 915, 916, 353, 785, 1037, 917,
-	920, 891, 1068, 998, 1048, 1147, 1037, 1149, 1150, 1151,
-	1152, 658, 1172, 1174, 772, 784, 1045, 50, 1173, 1000,
-	292, 291, 294, 295, 296, 297, 1435, 1434, 1693, 293,
-	298, 942, 1659, 1079, 1636, 1572, 353, 353, 1571, 1563,
-	1562, 1524, 1503, 257, 1448, 1254, 1168, 943, 863, 970,
-	1251, 1312, 1141, 1142, 863, 1144, 1145, 1146, 1219, 1256,
-	1311, 1224, 1218, 1309, 1273, 353, 1238, 353, 353, 1245,
-	797, 1084, 1237, 543, 553, 554, 546, 547, 548, 549,
-	550, 551, 552, 545, 1226, 1260, 555, 1259, 1261, 50,
-	347, 1298, 1265, 1163, 1164, 730, 1217, 801, 860, 1278,
-	965, 1102, 1205, 1272, 1122, 1097, 959, 1291, 1073, 1074,
-	1544, 958, 1112, 1277, 65, 1436, 1250, 1228, 1241, 1171,
-	1076, 746, 734, 507, 873, 1294, 888, 1296, 871, 874,
-	1078, 870, 869, 872, 89, 353, 1221, 1222, 1667, 1131,
-	1302, 1306, 89, 261, 262, 266, 1479, 353, 1637, 1239,
-	1240, 1211, 1242, 1243, 1010, 875, 353, 639, 640, 1481,
-	1665, 1020, 524, 347, 1019, 904, 1148, 904, 89, 670,
-	512, 489, 1300, 1230, 353, 522, 1379, 1235, 1449, 1229,
-	333, 513, 1339, 353, 1227, 979, 89, 774, 775, 745,
-	1233, 1446, 1354, 347, 1314, 1315, 1299, 1317, 1318, 1319,
-	1170, 973, 643, 1231, 1232, 981, 1343, 986, 258, 259,
-	524, 1018, 1003, 347, 1004, 1345, 1351, 1005, 1445, 1017,
-	1335, 1234, 1236, 1355, 1285, 252, 1657, 1480, 1530, 1348,
-	253, 54, 1529, 1452, 1069, 347, 353, 1362, 353, 353,
-	353, 89, 353, 1392, 1393, 1394, 1284, 1283, 353, 526,
-	843, 1316, 1380, 1258, 1084, 1561, 843, 1560, 777, 1482,
-	1483, 1484, 1485, 1486, 1487, 1488, 1538, 1412, 1113, 353,
-	767, 1407, 1395, 56, 1414, 1522, 7, 1388, 1523, 6,
-	1095, 1124, 347, 1217, 347, 1281, 1125, 1126, 1127, 1397,
-	1411, 58, 556, 1175, 1130, 1128, 299, 300, 1441, 1340,
-	1442, 1443, 1444, 353, 353, 1419, 983, 984, 985, 680,
-	676, 353, 1440, 1521, 5, 654, 834, 836, 1131, 1418,
-	51, 353, 1, 1519, 1357, 1567, 1119, 1565, 67, 1626,
-	1573, 1437, 852, 1334, 1169, 1184, 1438, 976, 1166, 635,
-	638, 639, 640, 636, 991, 637, 641, 1580, 904, 1073,
-	1074, 1594, 1331, 1476, 911, 901, 353, 353, 461, 64,
-	1550, 912, 910, 1254, 1344, 908, 673, 1138, 940, 1426,
-	353, 679, 677, 1346, 1491, 303, 47, 1463, 1465, 1495,
-	353, 678, 878, 675, 681, 231, 1546, 340, 642, 1490,
-	1489, 1349, 1474, 666, 527, 1198, 1197, 987, 514, 518,
-	347, 1206, 1497, 1168, 904, 353, 353, 89, 1499, 763,
-	353, 1506, 1507, 1508, 1007, 536, 505, 1513, 233, 353,
-	564, 1016, 1089, 47, 1525, 346, 1622, 1257, 516, 1528,
-	1427, 256, 1429, 1451, 1052, 590, 848, 334, 278, 788,
-	353, 635, 638, 639, 640, 636, 1254, 637, 641, 580,
-	290, 1545, 287, 1390, 1539, 1390, 1390, 1390, 591, 1396,
-	1540, 289, 288, 779, 1061, 347, 1132, 1136, 1453, 537,
-	268, 332, 626, 634, 1455, 1456, 632, 1457, 1458, 1459,
-	1509, 631, 1510, 1075, 1071, 331, 1390, 1213, 1214, 1376,
-	1535, 783, 25, 1577, 55, 353, 263, 19, 18, 1133,
-	17, 1135, 1134, 20, 16, 15, 14, 1578, 29, 333,
-	13, 12, 353, 11, 1585, 353, 10, 9, 8, 353,
-	347, 347, 1595, 4, 863, 254, 1590, 22, 1447, 2,
-	0, 0, 0, 353, 353, 1609, 0, 0, 1450, 0,
-	0, 0, 353, 353, 0, 353, 1610, 1607, 1608, 0,
-	1630, 0, 0, 353, 1624, 1625, 0, 0, 0, 0,
-	1632, 0, 0, 0, 1034, 0, 0, 0, 1035, 0,
-	0, 0, 0, 1467, 1468, 1039, 1040, 1041, 0, 1643,
-	1644, 0, 0, 0, 1050, 0, 0, 1281, 0, 1056,
-	0, 0, 1057, 1058, 1059, 1060, 0, 1498, 0, 0,
-	1658, 0, 0, 497, 497, 497, 497, 353, 497, 0,
-	0, 353, 1663, 1664, 0, 497, 0, 1669, 0, 1666,
-	0, 0, 1281, 1514, 0, 0, 0, 1517, 89, 0,
-	353, 1671, 47, 0, 1330, 1677, 1390, 0, 1678, 0,
-	0, 89, 1338, 1676, 0, 0, 1679, 565, 1686, 0,
-	567, 0, 0, 1688, 0, 0, 0, 1542, 353, 0,
-	0, 0, 0, 1690, 353, 0, 1697, 0, 1347, 1602,
-	1603, 1604, 1605, 1606, 786, 787, 0, 577, 0, 581,
-	582, 583, 584, 585, 586, 587, 588, 589, 0, 592,
-	594, 594, 594, 594, 594, 594, 594, 594, 0, 622,
-	623, 624, 625, 0, 0, 515, 0, 0, 0, 0,
-	645, 0, 1281, 0, 944, 945, 947, 948, 949, 0,
-	950, 951, 0, 0, 0, 0, 843, 580, 0, 1592,
-	840, 841, 1593, 0, 0, 0, 1596, 960, 961, 962,
-	87, 963, 0, 243, 0, 1125, 1126, 1127, 0, 0,
-	1517, 1281, 0, 1130, 1128, 299, 300, 0, 1694, 1281,
-	1281, 0, 1628, 0, 0, 267, 0, 87, 87, 0,
-	1635, 0, 0, 0, 1223, 0, 0, 0, 0, 0,
-	0, 0, 0, 87, 0, 87, 0, 0, 0, 0,
-	0, 87, 0, 0, 0, 0, 0, 0, 0, 1698,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	1374, 897, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 1270, 0, 0, 1281, 0, 0, 0, 1668, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 1390, 0, 0,
-	0, 0, 0, 497, 0, 0, 0, 0, 1371, 0,
-	0, 0, 0, 0, 497, 497, 497, 497, 497, 497,
-	497, 497, 0, 0, 0, 347, 0, 0, 497, 497,
-	0, 1517, 544, 543, 553, 554, 546, 547, 548, 549,
-	550, 551, 552, 545, 0, 703, 555, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 1515, 0, 0,
-	0, 0, 0, 0, 0, 1011, 1012, 0, 518, 0,
-	0, 1421, 0, 0, 0, 1132, 1136, 0, 0, 87,
+	1549, 1684, 555, 279, 975, 1656, 338, 1628, 544, 543,
+	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
+	1121, 477, 555, 478, 936, 1157, 1158, 1649, 1639, 485,
 	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
-	552, 545, 0, 47, 555, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 1356, 581, 1133, 0,
-	1135, 1134, 0, 1358, 0, 0, 0, 0, 0, 0,
-	0, 0, 688, 0, 0, 1367, 1368, 1369, 1143, 0,
-	1372, 1038, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 1382, 1383, 1384, 1055, 1387, 0, 0,
-	0, 0, 0, 0, 0, 704, 334, 334, 334, 334,
-	334, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 645, 0, 883, 0, 0, 0, 0, 0, 0,
-	334, 0, 0, 87, 0, 0, 0, 0, 0, 0,
-	87, 650, 87, 0, 0, 1422, 610, 611, 612, 613,
-	614, 615, 616, 617, 618, 619, 0, 720, 721, 0,
-	722, 723, 724, 726, 725, 705, 706, 707, 711, 709,
-	708, 710, 682, 684, 0, 620, 683, 689, 685, 686,
-	687, 701, 690, 691, 692, 693, 694, 695, 696, 697,
-	698, 699, 700, 702, 712, 713, 714, 715, 716, 717,
-	718, 719, 556, 0, 0, 1420, 0, 497, 0, 497,
-	0, 0, 0, 0, 1460, 0, 0, 0, 0, 0,
-	0, 0, 0, 497, 0, 0, 0, 0, 0, 0,
-	1471, 1472, 1473, 0, 0, 0, 0, 0, 0, 0,
-	0, 1685, 0, 0, 0, 0, 0, 0, 0, 0,
-	556, 1501, 0, 0, 0, 621, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 1308, 1310, 0, 0, 0,
-	0, 0, 1026, 87, 0, 0, 0, 0, 0, 0,
-	87, 0, 87, 0, 0, 87, 0, 0, 87, 0,
-	0, 0, 751, 1531, 1532, 1533, 1534, 0, 0, 0,
-	1247, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 87, 0, 1262, 1263, 0, 0, 1264,
-	0, 0, 1266, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 87, 0, 1065, 1066, 0, 0, 0, 0,
-	0, 751, 544, 543, 553, 554, 546, 547, 548, 549,
-	550, 551, 552, 545, 0, 0, 555, 0, 1359, 1360,
-	0, 1361, 334, 0, 0, 1363, 0, 1365, 0, 0,
-	0, 0, 0, 1586, 0, 0, 0, 0, 1591, 0,
-	0, 0, 0, 267, 0, 0, 0, 0, 267, 267,
-	0, 1032, 844, 844, 267, 0, 0, 0, 844, 0,
-	0, 0, 1611, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 1400, 1401, 0, 0, 0, 1633, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 267, 267,
-	267, 267, 0, 87, 0, 844, 87, 87, 87, 87,
-	87, 0, 1033, 0, 0, 0, 0, 0, 877, 47,
-	0, 87, 0, 0, 1353, 650, 0, 0, 0, 0,
-	87, 87, 544, 543, 553, 554, 546, 547, 548, 549,
-	550, 551, 552, 545, 0, 0, 555, 0, 0, 0,
-	0, 497, 544, 543, 553, 554, 546, 547, 548, 549,
-	550, 551, 552, 545, 1378, 229, 555, 0, 0, 0,
-	0, 580, 0, 0, 0, 0, 1684, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 239,
-	603, 0, 0, 0, 0, 23, 24, 48, 26, 27,
-	0, 0, 0, 0, 0, 0, 1701, 1702, 0, 1255,
-	87, 47, 87, 1413, 42, 0, 0, 87, 28, 87,
-	0, 0, 87, 605, 0, 0, 1267, 1268, 1269, 0,
-	0, 0, 556, 0, 0, 0, 0, 37, 0, 0,
-	224, 50, 0, 0, 0, 0, 226, 751, 0, 0,
-	0, 0, 0, 232, 228, 0, 0, 0, 0, 267,
-	0, 0, 1297, 0, 610, 611, 612, 613, 614, 615,
-	616, 617, 618, 619, 0, 0, 0, 0, 1307, 0,
-	0, 0, 0, 230, 0, 606, 234, 0, 0, 0,
-	0, 0, 0, 620, 604, 0, 0, 0, 0, 0,
-	609, 30, 31, 33, 32, 35, 0, 267, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 267, 0, 36, 43, 44, 0, 0,
-	45, 46, 34, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 225, 0, 0, 0, 0, 0,
-	0, 0, 556, 0, 0, 0, 0, 0, 0, 0,
-	0, 334, 87, 0, 38, 39, 0, 40, 41, 0,
-	0, 0, 556, 621, 0, 0, 0, 0, 0, 0,
-	0, 0, 227, 0, 235, 236, 237, 238, 242, 0,
-	1375, 0, 0, 241, 240, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 1118,
-	0, 0, 0, 0, 0, 0, 1564, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 1584, 580, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 49, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 1209, 1210, 0, 0, 0, 0,
-	0, 1629, 87, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 267, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 267, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 751, 0, 0, 0, 1255, 0, 0,
-	1466, 0, 0, 0, 0, 0, 0, 0, 844, 0,
-	0, 0, 0, 0, 844, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 1500, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 1680, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 1526, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	1255, 0, 47, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	552, 545, 938, 898, 555, 1244, 925, 546, 547, 548,
+	549, 550, 551, 552, 545, 1589, 1613, 555, 1377, 475,
+	932, 1091, 921, 1274, 1090, 333, 892, 1092, 922, 1275,
+	1276, 663, 1614, 664, 89, 893, 894, 764, 353, 353,
+	353, 353, 506, 353, 765, 539, 1431, 542, 1430, 1139,
+	353, 941, 1454, 557, 558, 559, 560, 561, 562, 563,
+	510, 540, 541, 538, 544, 543, 553, 554, 546, 547,
+	548, 549, 550, 551, 552, 545, 953, 353, 555, 943,
+	853, 928, 1136, 924, 933, 1326, 1325, 48, 26, 27,
+	930, 929, 965, 1366, 520, 1364, 244, 544, 543, 553,
+	554, 546, 547, 548, 549, 550, 551, 552, 545, 1577,
+	1519, 555, 465, 466, 1133, 1567, 1135, 1134, 519, 1495,
+	491, 301, 1618, 1655, 1692, 1657, 556, 487, 737, 738,
+	736, 1370, 510, 556, 1682, 1620, 1336, 1337, 89, 1405,
+	1583, 84, 80, 81, 82, 89, 89, 89, 1538, 502,
+	503, 353, 1203, 859, 1615, 1584, 1200, 353, 548, 549,
+	550, 551, 552, 545, 1462, 1410, 555, 1341, 556, 544,
+	543, 553, 554, 546, 547, 548, 549, 550, 551, 552,
+	545, 1409, 1342, 555, 493, 347, 495, 1549, 556, 919,
+	468, 1115, 1114, 472, 473, 1103, 1671, 926, 1286, 345,
+	1295, 1350, 1528, 927, 920, 480, 1108, 953, 1287, 470,
+	556, 75, 78, 1439, 492, 494, 77, 467, 78, 743,
+	1648, 880, 882, 556, 570, 571, 572, 573, 574, 575,
+	576, 628, 1082, 966, 1081, 946, 1080, 727, 566, 476,
+	652, 595, 596, 597, 598, 599, 600, 601, 223, 659,
+	653, 737, 738, 934, 1201, 935, 1199, 1588, 79, 70,
+	73, 1204, 1120, 568, 569, 1403, 1404, 1406, 931, 1202,
+	1688, 919, 1542, 1106, 71, 74, 1386, 1212, 89, 1616,
+	1617, 1619, 1621, 1622, 556, 89, 920, 89, 353, 1047,
+	89, 72, 68, 89, 83, 1025, 881, 89, 333, 353,
+	353, 353, 353, 353, 353, 353, 353, 771, 535, 486,
+	680, 900, 899, 353, 353, 676, 1320, 556, 89, 768,
+	1208, 544, 543, 553, 554, 546, 547, 548, 549, 550,
+	551, 552, 545, 353, 530, 555, 490, 89, 919, 1008,
+	1560, 850, 1559, 353, 774, 775, 1043, 1558, 1042, 347,
+	347, 347, 347, 920, 347, 777, 752, 770, 49, 1557,
+	806, 347, 529, 528, 776, 529, 528, 1321, 528, 800,
+	1032, 728, 556, 57, 804, 805, 803, 1246, 739, 530,
+	740, 1556, 530, 744, 530, 1555, 747, 353, 533, 556,
+	529, 528, 769, 1554, 796, 1552, 1207, 750, 59, 60,
+	61, 62, 63, 1333, 1070, 797, 510, 530, 1100, 529,
+	528, 766, 69, 834, 836, 842, 845, 665, 1009, 837,
+	732, 851, 529, 528, 525, 479, 530, 1497, 1674, 852,
+	785, 1111, 850, 778, 1054, 1600, 1494, 1492, 89, 530,
+	469, 89, 89, 89, 89, 89, 795, 793, 1099, 1100,
+	529, 528, 1673, 89, 1601, 76, 89, 1248, 863, 1100,
+	89, 1654, 347, 1553, 825, 89, 89, 530, 667, 353,
+	1100, 789, 791, 792, 1493, 827, 828, 790, 1110, 878,
+	1653, 798, 353, 837, 807, 808, 809, 810, 811, 812,
+	813, 814, 815, 816, 817, 818, 819, 820, 821, 847,
+	1424, 855, 801, 50, 1140, 887, 838, 839, 482, 483,
+	484, 471, 846, 802, 474, 1652, 327, 345, 544, 543,
+	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
+	904, 860, 555, 1650, 954, 955, 956, 957, 353, 1602,
+	876, 556, 353, 1044, 353, 89, 854, 89, 856, 857,
+	885, 1598, 89, 1505, 89, 884, 890, 89, 353, 888,
+	1433, 865, 866, 889, 868, 907, 1432, 864, 1301, 1162,
+	867, 1022, 1023, 1024, 823, 1651, 824, 944, 945, 947,
+	948, 949, 1423, 950, 951, 1160, 1140, 971, 1140, 1461,
+	1428, 529, 528, 1352, 333, 333, 333, 333, 333, 347,
+	960, 961, 962, 1154, 963, 463, 967, 968, 530, 333,
+	347, 347, 347, 347, 347, 347, 347, 347, 333, 1117,
+	21, 1575, 1701, 510, 347, 347, 1226, 1469, 1690, 1570,
+	796, 521, 1399, 1683, 800, 1399, 1662, 1569, 981, 1550,
+	986, 797, 1399, 1661, 780, 1003, 1290, 1004, 1399, 1647,
+	1005, 1575, 1646, 1513, 533, 1643, 1642, 347, 1289, 1228,
+	1288, 1034, 1635, 510, 1512, 1035, 1014, 1109, 1015, 1093,
+	919, 977, 1039, 1040, 1041, 914, 255, 913, 826, 915,
+	916, 1050, 1399, 1632, 917, 920, 1056, 1469, 1580, 1057,
+	1058, 1059, 1060, 1027, 353, 749, 1064, 89, 829, 1399,
+	1571, 1085, 748, 1087, 1469, 1503, 1506, 1021, 843, 843,
+	1469, 510, 1425, 353, 843, 1230, 1469, 1470, 656, 1235,
+	733, 1229, 1399, 1398, 353, 731, 1227, 1271, 510, 1385,
+	510, 1417, 1233, 1329, 1328, 353, 1053, 1086, 556, 1323,
+	1324, 1323, 1322, 1095, 89, 1231, 1232, 488, 1028, 1029,
+	1030, 843, 1037, 510, 1077, 1036, 630, 510, 657, 1116,
+	655, 904, 1068, 1234, 1236, 835, 510, 801, 672, 671,
+	1088, 1051, 292, 291, 294, 295, 296, 297, 481, 463,
+	347, 293, 298, 1313, 835, 603, 353, 1141, 1142, 23,
+	1144, 1145, 1146, 347, 1381, 630, 1131, 1104, 1105, 1107,
+	543, 553, 554, 546, 547, 548, 549, 550, 551, 552,
+	545, 1165, 1062, 555, 1250, 1063, 353, 1068, 605, 89,
+	89, 1416, 635, 638, 639, 640, 636, 89, 637, 641,
+	1332, 1069, 1073, 1074, 1168, 50, 353, 1576, 1159, 1575,
+	1155, 1143, 1327, 1173, 23, 54, 886, 1094, 655, 972,
+	333, 1161, 891, 347, 1215, 347, 1037, 1174, 1172, 610,
+	611, 612, 613, 614, 615, 616, 617, 618, 619, 347,
+	1464, 1223, 630, 1069, 1049, 658, 353, 353, 23, 1046,
+	606, 772, 257, 1037, 1217, 1479, 1251, 629, 620, 604,
+	50, 863, 50, 347, 1254, 609, 1037, 863, 1481, 1219,
+	1435, 1434, 1273, 1256, 1218, 353, 1241, 353, 353, 1238,
+	1237, 630, 1694, 1224, 1068, 1245, 1048, 797, 1270, 1660,
+	1213, 1045, 1637, 1573, 50, 1572, 1564, 1563, 50, 266,
+	1261, 1260, 1259, 1525, 1504, 1448, 1291, 1278, 553, 554,
+	546, 547, 548, 549, 550, 551, 552, 545, 943, 1272,
+	555, 970, 1312, 904, 1311, 904, 1147, 1309, 1149, 1150,
+	1151, 1152, 1277, 1298, 1265, 965, 1480, 1296, 621, 1294,
+	1163, 1164, 730, 1180, 89, 353, 1221, 1222, 1122, 1302,
+	1097, 959, 89, 958, 1131, 65, 1316, 353, 1306, 1239,
+	1240, 1545, 1242, 1243, 1073, 1074, 353, 1436, 1482, 1483,
+	1484, 1485, 1486, 1487, 1488, 1084, 1250, 1171, 89, 635,
+	638, 639, 640, 636, 353, 637, 641, 1076, 746, 556,
+	734, 507, 873, 353, 347, 784, 89, 874, 1308, 1310,
+	1354, 1343, 871, 1339, 1079, 1102, 875, 872, 639, 640,
+	1345, 1078, 870, 1181, 1177, 869, 1112, 1182, 1179, 1178,
+	261, 262, 74, 1356, 1348, 1668, 1638, 1351, 1211, 1010,
+	1358, 1666, 1020, 1183, 1019, 1148, 1355, 1330, 670, 1176,
+	524, 1217, 1367, 1368, 1369, 1338, 353, 1372, 353, 353,
+	353, 89, 353, 522, 489, 1392, 1393, 1394, 353, 512,
+	1382, 1383, 1384, 1362, 1387, 1380, 1300, 347, 1379, 1449,
+	513, 1347, 774, 775, 1407, 1388, 979, 745, 1446, 353,
+	1299, 1170, 1395, 973, 643, 524, 1414, 1397, 1095, 1411,
+	1445, 1359, 1360, 1412, 1361, 1477, 1018, 347, 1363, 1335,
+	1365, 258, 259, 1285, 1017, 252, 904, 1658, 1531, 253,
+	54, 1530, 1422, 353, 353, 1314, 1315, 347, 1317, 1318,
+	1319, 353, 680, 1452, 1069, 1419, 556, 676, 1418, 1284,
+	1283, 353, 526, 1131, 1357, 1427, 1562, 1429, 1561, 347,
+	1539, 58, 1437, 1113, 1438, 767, 1400, 1401, 56, 333,
+	1523, 7, 514, 518, 843, 1524, 6, 1258, 1084, 1175,
+	843, 1168, 904, 983, 984, 985, 353, 353, 1340, 536,
+	1522, 5, 654, 1453, 51, 1, 1520, 1568, 1119, 1566,
+	353, 1460, 1254, 1479, 67, 1463, 347, 1627, 347, 1281,
+	353, 1574, 1465, 1334, 1169, 1474, 1481, 1471, 1472, 1473,
+	1491, 1184, 1489, 580, 1498, 1496, 1490, 1500, 976, 1166,
+	991, 1581, 591, 1595, 1476, 353, 353, 89, 1502, 911,
+	353, 1507, 1508, 1509, 1441, 901, 1442, 1443, 1444, 353,
+	461, 64, 1551, 912, 910, 908, 1526, 673, 1440, 1138,
+	940, 1514, 679, 677, 678, 675, 681, 231, 340, 642,
+	353, 666, 527, 1198, 1197, 1540, 1331, 987, 1206, 1546,
+	1532, 1533, 1534, 1535, 1480, 1254, 303, 47, 1344, 763,
+	1007, 505, 233, 564, 1541, 1016, 1089, 1346, 346, 1623,
+	1257, 516, 1529, 1451, 1455, 1456, 1052, 1457, 1458, 1459,
+	1426, 590, 848, 278, 788, 1349, 1482, 1483, 1484, 1485,
+	1486, 1487, 1488, 290, 347, 287, 353, 289, 288, 1578,
+	1516, 779, 1061, 537, 47, 268, 332, 496, 626, 634,
+	632, 631, 256, 353, 1075, 1071, 353, 1586, 334, 331,
+	353, 1596, 1579, 1591, 1214, 1376, 1536, 783, 863, 25,
+	55, 1587, 263, 19, 353, 353, 1592, 18, 1610, 17,
+	20, 1608, 1609, 353, 353, 16, 353, 1390, 15, 1390,
+	1390, 1390, 14, 1396, 353, 29, 1631, 13, 12, 347,
+	1612, 1611, 11, 1633, 1603, 1604, 1605, 1606, 1607, 1625,
+	1626, 10, 9, 1125, 1126, 1127, 1634, 8, 4, 254,
+	1390, 1130, 1128, 299, 300, 22, 2, 0, 0, 0,
+	0, 1510, 515, 1511, 0, 0, 1644, 1645, 0, 1659,
+	0, 0, 0, 0, 0, 0, 0, 0, 353, 0,
+	1664, 0, 353, 1547, 347, 347, 1670, 1665, 786, 787,
+	0, 1672, 1447, 0, 0, 0, 0, 87, 0, 89,
+	243, 353, 1450, 1677, 1667, 0, 1680, 1679, 1678, 0,
+	0, 0, 89, 0, 1687, 0, 0, 0, 0, 1689,
+	0, 0, 267, 1691, 87, 87, 0, 0, 0, 353,
+	0, 0, 0, 0, 1685, 353, 0, 1467, 1468, 1698,
+	87, 580, 87, 0, 840, 841, 0, 0, 87, 0,
+	0, 1281, 0, 0, 497, 497, 497, 497, 0, 497,
+	0, 1499, 0, 0, 1702, 1703, 497, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1695, 0, 0,
+	0, 0, 0, 47, 0, 0, 1281, 1515, 0, 0,
+	0, 1518, 0, 0, 0, 0, 0, 0, 565, 0,
+	1390, 567, 0, 0, 0, 1686, 499, 500, 501, 0,
+	504, 0, 0, 0, 0, 0, 0, 508, 0, 0,
+	0, 1543, 0, 1132, 1136, 897, 0, 0, 577, 0,
+	581, 582, 583, 584, 585, 586, 587, 588, 589, 0,
+	592, 594, 594, 594, 594, 594, 594, 594, 594, 0,
+	622, 623, 624, 625, 0, 0, 1133, 0, 1135, 1134,
+	0, 645, 0, 0, 1371, 0, 0, 0, 0, 0,
+	1699, 0, 0, 0, 0, 0, 0, 1281, 0, 0,
+	0, 0, 0, 1220, 0, 0, 87, 0, 0, 0,
+	0, 843, 0, 0, 1593, 0, 0, 1594, 0, 0,
+	0, 1597, 0, 544, 543, 553, 554, 546, 547, 548,
+	549, 550, 551, 552, 545, 1518, 1281, 555, 0, 0,
+	0, 0, 0, 0, 1281, 1281, 0, 1629, 0, 1011,
+	1012, 1033, 518, 0, 0, 1636, 544, 543, 553, 554,
+	546, 547, 548, 549, 550, 551, 552, 545, 0, 0,
+	555, 544, 543, 553, 554, 546, 547, 548, 549, 550,
+	551, 552, 545, 1190, 0, 555, 1303, 0, 0, 0,
+	0, 1125, 1126, 1127, 0, 0, 0, 0, 0, 1130,
+	1128, 299, 300, 0, 0, 0, 0, 997, 0, 1281,
+	87, 0, 0, 1669, 0, 1038, 0, 87, 650, 87,
+	996, 0, 0, 0, 497, 0, 0, 0, 0, 0,
+	1055, 0, 1390, 0, 0, 497, 497, 497, 497, 497,
+	497, 497, 497, 0, 0, 0, 0, 1001, 1191, 497,
+	497, 0, 0, 1193, 1186, 1187, 995, 1194, 1189, 1188,
+	347, 0, 1196, 1192, 0, 0, 1518, 0, 0, 0,
+	0, 0, 0, 1195, 0, 742, 0, 0, 0, 1185,
+	0, 0, 0, 0, 0, 0, 753, 754, 755, 756,
+	757, 758, 759, 760, 0, 0, 0, 0, 0, 0,
+	761, 762, 0, 0, 0, 992, 989, 990, 0, 988,
+	0, 0, 0, 0, 47, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 581, 0,
+	0, 0, 0, 0, 0, 0, 0, 999, 1002, 0,
+	0, 0, 0, 556, 0, 0, 0, 0, 0, 0,
+	87, 0, 0, 0, 0, 0, 0, 87, 0, 87,
+	0, 0, 87, 0, 0, 87, 0, 0, 0, 751,
+	0, 1132, 1136, 0, 0, 0, 556, 334, 334, 334,
+	334, 334, 1124, 0, 0, 0, 0, 1125, 1126, 1127,
+	87, 556, 645, 0, 883, 1130, 1128, 299, 300, 0,
+	0, 334, 994, 0, 1133, 0, 1135, 1134, 0, 87,
+	0, 0, 0, 0, 0, 0, 0, 0, 751, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 993, 1247, 0, 0, 0, 0, 0,
+	23, 24, 48, 26, 27, 0, 0, 0, 0, 1262,
+	1263, 0, 0, 1264, 0, 0, 1266, 0, 0, 42,
+	267, 0, 0, 28, 0, 267, 267, 0, 0, 844,
+	844, 267, 998, 0, 0, 844, 229, 0, 497, 0,
+	497, 0, 37, 0, 0, 0, 50, 0, 1000, 0,
+	0, 0, 0, 0, 497, 0, 0, 0, 0, 0,
+	239, 0, 0, 0, 0, 267, 267, 267, 267, 0,
+	87, 0, 844, 87, 87, 87, 87, 87, 0, 0,
+	0, 0, 0, 0, 0, 877, 0, 0, 87, 978,
+	0, 980, 650, 0, 0, 0, 0, 87, 87, 0,
+	0, 0, 0, 1026, 0, 1006, 30, 31, 33, 32,
+	35, 224, 0, 0, 0, 0, 0, 226, 0, 0,
+	0, 0, 0, 0, 232, 228, 0, 1132, 1136, 0,
+	36, 43, 44, 0, 0, 45, 46, 34, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1353, 0,
+	0, 0, 0, 0, 230, 0, 0, 234, 0, 0,
+	1133, 0, 1135, 1134, 0, 1065, 1066, 0, 0, 38,
+	39, 0, 40, 41, 0, 0, 0, 87, 0, 87,
+	0, 0, 0, 0, 87, 0, 87, 0, 1378, 87,
+	0, 0, 0, 334, 0, 580, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 751, 225, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 267, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1413, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 227, 0, 235, 236, 237, 238, 242,
+	0, 0, 0, 0, 241, 240, 0, 0, 0, 0,
+	0, 0, 0, 49, 267, 0, 0, 0, 0, 0,
+	47, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	267, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 497, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 87,
-	0, 0, 0, 0, 0, 0, 0, 87, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 154, 0, 92, 0, 0,
-	274, 0, 0, 87, 116, 271, 0, 0, 130, 313,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 304,
-	305, 87, 0, 0, 0, 0, 0, 895, 0, 50,
-	0, 0, 272, 292, 291, 294, 295, 296, 297, 0,
-	0, 105, 293, 298, 299, 300, 896, 0, 0, 269,
-	285, 0, 312, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 1640,
-	0, 0, 282, 283, 0, 0, 650, 0, 325, 0,
-	284, 0, 0, 280, 281, 286, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 323, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 1695, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 87, 169, 107, 195, 175, 314, 324, 320,
-	321, 318, 319, 317, 316, 315, 326, 306, 307, 308,
-	309, 311, 0, 125, 310, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 170, 0, 322, 104,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 844, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 449, 439, 0, 408, 451,
-	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
-	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
-	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
-	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
-	427, 453, 0, 0, 0, 352, 0, 905, 906, 0,
-	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
-	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
-	1096, 0, 0, 0, 0, 0, 0, 411, 415, 433,
-	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
-	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
-	0, 0, 371, 1675, 386, 434, 0, 354, 438, 444,
-	406, 203, 447, 403, 402, 161, 87, 108, 0, 182,
-	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
-	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
-	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
-	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 362, 355, 387, 437, 93, 183, 192, 106, 172,
-	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
-	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
-	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
-	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
-	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
-	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
-	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
-	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
-	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
-	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
-	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
-	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
-	405, 0, 104, 449, 439, 0, 408, 451, 381, 397,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 1205, 0, 0, 0, 0, 0, 0,
+	1255, 0, 47, 0, 0, 0, 1118, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1267, 1268, 1269,
+	703, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 1421, 0, 0, 0,
+	0, 0, 0, 1297, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 1307,
+	0, 1565, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 1209, 1210, 0, 0, 0, 0, 0, 0, 87,
+	0, 0, 0, 0, 0, 0, 0, 688, 0, 267,
+	1585, 580, 0, 0, 0, 0, 0, 0, 0, 0,
+	267, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	751, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	704, 0, 0, 0, 0, 844, 0, 0, 0, 0,
+	0, 844, 0, 0, 0, 0, 1630, 0, 0, 0,
+	0, 0, 334, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 610, 611, 612, 613, 614, 615, 616, 617, 618,
+	619, 1375, 720, 721, 0, 722, 723, 724, 726, 725,
+	705, 706, 707, 711, 709, 708, 710, 682, 684, 0,
+	620, 683, 689, 685, 686, 687, 701, 690, 691, 692,
+	693, 694, 695, 696, 697, 698, 699, 700, 702, 712,
+	713, 714, 715, 716, 717, 718, 719, 0, 0, 0,
+	1420, 0, 0, 1681, 0, 0, 87, 0, 0, 0,
+	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	87, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	621, 0, 0, 0, 0, 0, 0, 0, 87, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 154, 0, 92, 0, 0, 0, 0, 0, 0,
+	116, 0, 0, 0, 130, 0, 133, 0, 1255, 176,
+	142, 1466, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 352, 0,
+	0, 0, 0, 650, 0, 0, 0, 105, 0, 1501,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 544, 543, 553, 554, 546, 547,
+	548, 549, 550, 551, 552, 545, 1527, 0, 555, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 1255, 0, 47, 203, 0, 0, 0, 161, 0,
+	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
+	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 87,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
+	0, 1641, 0, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
+	107, 195, 175, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
+	0, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 170, 0, 556, 104, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 844, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 1696,
+	0, 0, 0, 449, 439, 0, 408, 451, 381, 397,
 	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
 	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
 	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
 	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
 	0, 0, 0, 352, 0, 905, 906, 0, 0, 0,
 	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
-	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
+	425, 0, 363, 366, 458, 446, 388, 389, 1096, 0,
 	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
 	0, 0, 0, 0, 0, 0, 0, 385, 0, 422,
-	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
-	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
+	0, 1676, 0, 369, 364, 0, 409, 0, 0, 0,
+	371, 0, 386, 434, 87, 354, 438, 444, 406, 203,
 	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
 	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
 	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
@@ -1184,11 +1143,11 @@ var yyAct = [...]int{
 	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
 	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
 	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
-	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 352, 0, 905, 906, 0, 0, 0, 0, 0,
 	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
 	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
 	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
-	0, 0, 0, 1216, 0, 385, 0, 422, 0, 0,
+	0, 0, 0, 0, 0, 385, 0, 422, 0, 0,
 	0, 369, 364, 0, 409, 0, 0, 0, 371, 0,
 	386, 434, 0, 354, 438, 444, 406, 203, 447, 403,
 	402, 161, 0, 108, 0, 182, 120, 396, 131, 432,
@@ -1214,12 +1173,12 @@ var yyAct = [...]int{
 	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
 	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
 	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
-	372, 423, 452, 395, 427, 453, 50, 0, 0, 352,
+	372, 423, 452, 395, 427, 453, 0, 0, 0, 352,
 	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
 	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
 	0, 411, 415, 433, 404, 0, 0, 0, 0, 0,
-	0, 0, 0, 385, 0, 422, 0, 0, 0, 369,
+	0, 1216, 0, 385, 0, 422, 0, 0, 0, 369,
 	364, 0, 409, 0, 0, 0, 371, 0, 386, 434,
 	0, 354, 438, 444, 406, 203, 447, 403, 402, 161,
 	0, 108, 0, 182, 120, 396, 131, 432, 450, 413,
@@ -1245,11 +1204,11 @@ var yyAct = [...]int{
 	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
 	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
 	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 0, 0, 0, 272, 0, 0,
+	452, 395, 427, 453, 50, 0, 0, 352, 0, 0,
 	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
 	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
 	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
-	415, 433, 404, 0, 0, 0, 0, 0, 0, 794,
+	415, 433, 404, 0, 0, 0, 0, 0, 0, 0,
 	0, 385, 0, 422, 0, 0, 0, 369, 364, 0,
 	409, 0, 0, 0, 371, 0, 386, 434, 0, 354,
 	438, 444, 406, 203, 447, 403, 402, 161, 0, 108,
@@ -1276,11 +1235,11 @@ var yyAct = [...]int{
 	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
 	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
 	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
-	427, 453, 0, 0, 0, 352, 0, 0, 0, 0,
+	427, 453, 0, 0, 0, 272, 0, 0, 0, 0,
 	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
 	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
 	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
-	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
+	404, 0, 0, 0, 0, 0, 0, 794, 0, 385,
 	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
 	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
 	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
@@ -1307,7 +1266,7 @@ var yyAct = [...]int{
 	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
 	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
 	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
-	0, 0, 0, 272, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
 	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
 	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
 	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
@@ -1338,7 +1297,7 @@ var yyAct = [...]int{
 	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
 	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
 	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
-	0, 352, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 272, 0, 0, 0, 0, 0, 0, 0, 0,
 	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
 	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
 	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
@@ -1353,12 +1312,12 @@ var yyAct = [...]int{
 	437, 93, 183, 192, 106, 172, 96, 190, 179, 181,
 	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
 	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 350, 199, 148, 153,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
 	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
 	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
 	144, 146, 0, 150, 123, 0, 0, 360, 0, 177,
 	196, 214, 215, 361, 379, 445, 206, 207, 208, 209,
-	0, 0, 0, 351, 349, 124, 173, 128, 135, 164,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
 	212, 428, 169, 107, 195, 175, 375, 378, 373, 374,
 	417, 418, 454, 455, 456, 435, 370, 0, 376, 377,
 	0, 440, 125, 420, 91, 99, 132, 210, 211, 0,
@@ -1368,7 +1327,7 @@ var yyAct = [...]int{
 	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
 	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
 	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
-	372, 423, 452, 395, 427, 453, 0, 0, 0, 88,
+	372, 423, 452, 395, 427, 453, 0, 0, 0, 352,
 	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
 	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
@@ -1384,12 +1343,12 @@ var yyAct = [...]int{
 	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
 	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
 	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	101, 200, 201, 98, 350, 199, 148, 153, 151, 198,
 	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
 	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
 	0, 150, 123, 0, 0, 360, 0, 177, 196, 214,
 	215, 361, 379, 445, 206, 207, 208, 209, 0, 0,
-	0, 147, 103, 124, 173, 128, 135, 164, 212, 428,
+	0, 351, 349, 124, 173, 128, 135, 164, 212, 428,
 	169, 107, 195, 175, 375, 378, 373, 374, 417, 418,
 	454, 455, 456, 435, 370, 0, 376, 377, 0, 440,
 	125, 420, 91, 99, 132, 210, 211, 0, 163, 118,
@@ -1399,7 +1358,7 @@ var yyAct = [...]int{
 	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
 	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
 	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 0, 0, 0, 352, 0, 0,
+	452, 395, 427, 453, 0, 0, 0, 88, 0, 0,
 	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
 	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
 	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
@@ -1411,16 +1370,16 @@ var yyAct = [...]int{
 	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
 	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
 	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 362, 355, 387, 437, 93, 183, 660,
+	220, 221, 222, 362, 355, 387, 437, 93, 183, 192,
 	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
 	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
 	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 350, 199, 148, 153, 151, 198, 185, 191,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
 	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
 	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
 	123, 0, 0, 360, 0, 177, 196, 214, 215, 361,
-	379, 445, 206, 207, 208, 209, 0, 0, 0, 351,
-	349, 124, 173, 128, 135, 164, 212, 428, 169, 107,
+	379, 445, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 428, 169, 107,
 	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
 	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
 	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
@@ -1442,7 +1401,7 @@ var yyAct = [...]int{
 	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
 	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
 	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 362, 355, 387, 437, 93, 183, 341, 106, 172,
+	222, 362, 355, 387, 437, 93, 183, 660, 106, 172,
 	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
 	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
 	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
@@ -1450,133 +1409,49 @@ var yyAct = [...]int{
 	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
 	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
 	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
-	206, 207, 208, 209, 0, 0, 0, 351, 349, 344,
-	343, 128, 135, 164, 212, 428, 169, 107, 195, 175,
+	206, 207, 208, 209, 0, 0, 0, 351, 349, 124,
+	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
 	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
 	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
 	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
 	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
-	405, 154, 104, 92, 831, 0, 274, 0, 0, 0,
-	116, 271, 0, 0, 130, 313, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 304, 305, 0, 0, 0,
-	0, 0, 0, 0, 0, 50, 0, 0, 272, 292,
-	291, 294, 295, 296, 297, 0, 0, 105, 293, 298,
-	299, 300, 0, 0, 0, 269, 285, 0, 312, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 282, 283,
-	265, 0, 0, 0, 325, 0, 284, 0, 0, 280,
-	281, 286, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 203, 0, 0, 323, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
-	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 314, 324, 320, 321, 318, 319, 317,
-	316, 315, 326, 306, 307, 308, 309, 311, 0, 125,
-	310, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	0, 0, 0, 0, 0, 0, 0, 0, 154, 0,
-	92, 0, 170, 274, 322, 104, 0, 116, 271, 0,
-	0, 130, 313, 133, 0, 0, 176, 142, 0, 0,
-	0, 0, 304, 305, 0, 0, 0, 0, 0, 0,
-	0, 0, 50, 0, 510, 272, 292, 291, 294, 295,
-	296, 297, 0, 0, 105, 293, 298, 299, 300, 0,
-	0, 0, 269, 285, 0, 312, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 282, 283, 0, 0, 0,
-	0, 325, 0, 284, 0, 0, 280, 281, 286, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 203, 0, 0, 323, 161, 0, 108, 0, 182,
-	120, 0, 131, 0, 0, 0, 0, 0, 0, 110,
-	0, 168, 155, 194, 0, 156, 166, 134, 186, 162,
-	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
-	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 0, 0, 0, 0, 93, 183, 192, 106, 172,
-	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
-	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
-	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
-	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
-	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
-	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 0, 0, 177, 196, 214, 215, 0, 0, 0,
-	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
-	173, 128, 135, 164, 212, 0, 169, 107, 195, 175,
-	314, 324, 320, 321, 318, 319, 317, 316, 315, 326,
-	306, 307, 308, 309, 311, 0, 125, 310, 91, 99,
-	132, 210, 211, 0, 163, 118, 197, 0, 0, 0,
-	0, 0, 0, 0, 0, 154, 0, 92, 0, 170,
-	274, 322, 104, 0, 116, 271, 0, 0, 130, 313,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 304,
-	305, 0, 0, 0, 0, 0, 0, 0, 0, 50,
-	0, 0, 272, 292, 291, 294, 295, 296, 297, 0,
-	0, 105, 293, 298, 299, 300, 0, 0, 0, 269,
-	285, 0, 312, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 282, 283, 265, 0, 0, 0, 325, 0,
-	284, 0, 0, 280, 281, 286, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 323, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 0, 169, 107, 195, 175, 314, 324, 320,
-	321, 318, 319, 317, 316, 315, 326, 306, 307, 308,
-	309, 311, 0, 125, 310, 91, 99, 132, 210, 211,
-	23, 163, 118, 197, 0, 0, 0, 0, 0, 0,
-	0, 0, 154, 0, 92, 0, 170, 274, 322, 104,
-	0, 116, 271, 0, 0, 130, 313, 133, 0, 0,
-	176, 142, 0, 0, 0, 0, 304, 305, 0, 0,
-	0, 0, 0, 0, 0, 0, 50, 0, 0, 272,
-	292, 291, 294, 295, 296, 297, 0, 0, 105, 293,
-	298, 299, 300, 0, 0, 0, 269, 285, 0, 312,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 282,
-	283, 0, 0, 0, 0, 325, 0, 284, 0, 0,
-	280, 281, 286, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 203, 0, 0, 323, 161,
-	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
-	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
-	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
-	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
-	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
-	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
-	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
-	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
-	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
-	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
-	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
-	169, 107, 195, 175, 314, 324, 320, 321, 318, 319,
-	317, 316, 315, 326, 306, 307, 308, 309, 311, 0,
-	125, 310, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 0, 0, 0, 0, 0, 0, 0, 0, 154,
-	0, 92, 0, 170, 274, 322, 104, 0, 116, 271,
+	405, 0, 104, 449, 439, 0, 408, 451, 381, 397,
+	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
+	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
+	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
+	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
+	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
+	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
+	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
+	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
+	0, 0, 0, 0, 0, 0, 0, 385, 0, 422,
+	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
+	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
+	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
+	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
+	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 362,
+	355, 387, 437, 93, 183, 341, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 350, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
+	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
+	208, 209, 0, 0, 0, 351, 349, 344, 343, 128,
+	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
+	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
+	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 398, 356, 401, 0, 0,
+	0, 0, 0, 0, 0, 367, 368, 170, 405, 154,
+	104, 92, 0, 0, 274, 0, 0, 0, 116, 271,
 	0, 0, 130, 313, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 304, 305, 0, 0, 0, 0, 0,
-	0, 0, 0, 50, 0, 0, 272, 292, 291, 294,
+	0, 895, 0, 50, 0, 0, 272, 292, 291, 294,
 	295, 296, 297, 0, 0, 105, 293, 298, 299, 300,
-	0, 0, 0, 269, 285, 0, 312, 0, 0, 0,
+	896, 0, 0, 269, 285, 0, 312, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 282, 283, 0, 0,
 	0, 0, 325, 0, 284, 0, 0, 280, 281, 286,
@@ -1599,678 +1474,793 @@ var yyAct = [...]int{
 	175, 314, 324, 320, 321, 318, 319, 317, 316, 315,
 	326, 306, 307, 308, 309, 311, 0, 125, 310, 91,
 	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
-	0, 0, 154, 0, 92, 0, 0, 0, 0, 0,
-	170, 116, 322, 104, 0, 130, 313, 133, 0, 0,
-	176, 142, 0, 0, 0, 0, 304, 305, 0, 0,
-	0, 0, 0, 0, 0, 0, 50, 0, 0, 272,
-	292, 291, 294, 295, 296, 297, 0, 0, 105, 293,
-	298, 299, 300, 0, 0, 0, 0, 285, 0, 312,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 282,
-	283, 0, 0, 0, 0, 325, 0, 284, 0, 0,
-	280, 281, 286, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 203, 0, 0, 323, 161,
-	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
-	0, 0, 0, 110, 0, 168, 155, 194, 1699, 156,
-	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
-	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
-	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
-	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
-	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
-	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
-	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
-	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
-	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
-	169, 107, 195, 175, 314, 324, 320, 321, 318, 319,
-	317, 316, 315, 326, 306, 307, 308, 309, 311, 0,
-	125, 310, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 0, 0, 0, 0, 154, 0, 92, 0, 0,
-	0, 0, 0, 170, 116, 322, 104, 0, 130, 313,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 304,
-	305, 0, 0, 0, 0, 0, 0, 0, 0, 50,
-	0, 0, 272, 292, 291, 294, 295, 296, 297, 0,
-	0, 105, 293, 298, 299, 300, 0, 0, 0, 0,
-	285, 0, 312, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 282, 283, 0, 0, 0, 0, 325, 0,
-	284, 0, 0, 280, 281, 286, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 323, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 0, 169, 107, 195, 175, 314, 324, 320,
-	321, 318, 319, 317, 316, 315, 326, 306, 307, 308,
-	309, 311, 0, 125, 310, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 0, 0, 0, 0, 154, 0,
-	92, 0, 0, 0, 0, 0, 170, 116, 322, 104,
-	0, 130, 0, 133, 0, 0, 176, 142, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 352, 0, 0, 0, 0,
-	0, 0, 0, 0, 105, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 0, 0, 555, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 203, 0, 0, 0, 161, 0, 108, 0, 182,
-	120, 0, 131, 0, 0, 0, 0, 0, 0, 110,
-	0, 168, 155, 194, 0, 156, 166, 134, 186, 162,
-	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
-	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 0, 0, 0, 0, 93, 183, 192, 106, 172,
-	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
-	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
-	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
-	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
-	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
-	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 0, 0, 177, 196, 214, 215, 0, 0, 0,
-	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
-	173, 128, 135, 164, 212, 0, 169, 107, 195, 175,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 125, 0, 91, 99,
-	132, 210, 211, 0, 163, 118, 197, 0, 0, 0,
-	0, 154, 0, 92, 0, 532, 0, 0, 0, 170,
-	116, 556, 104, 0, 130, 0, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 352, 0,
-	534, 0, 0, 0, 0, 0, 0, 105, 0, 0,
-	0, 0, 0, 529, 528, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	530, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 154, 0, 92, 831,
+	170, 274, 322, 104, 0, 116, 271, 0, 0, 130,
+	313, 133, 0, 0, 176, 142, 0, 0, 0, 0,
+	304, 305, 0, 0, 0, 0, 0, 0, 0, 0,
+	50, 0, 0, 272, 292, 291, 294, 295, 296, 297,
+	0, 0, 105, 293, 298, 299, 300, 0, 0, 0,
+	269, 285, 0, 312, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 282, 283, 265, 0, 0, 0, 325,
+	0, 284, 0, 0, 280, 281, 286, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 323, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 0, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 314, 324,
+	320, 321, 318, 319, 317, 316, 315, 326, 306, 307,
+	308, 309, 311, 0, 125, 310, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 0, 0, 0, 0,
+	0, 0, 0, 154, 0, 92, 0, 170, 274, 322,
+	104, 0, 116, 271, 0, 0, 130, 313, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 304, 305, 0,
+	0, 0, 0, 0, 0, 0, 0, 50, 0, 510,
+	272, 292, 291, 294, 295, 296, 297, 0, 0, 105,
+	293, 298, 299, 300, 0, 0, 0, 269, 285, 0,
+	312, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	282, 283, 0, 0, 0, 0, 325, 0, 284, 0,
+	0, 280, 281, 286, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 323,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 314, 324, 320, 321, 318,
+	319, 317, 316, 315, 326, 306, 307, 308, 309, 311,
+	0, 125, 310, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
+	154, 0, 92, 0, 170, 274, 322, 104, 0, 116,
+	271, 0, 0, 130, 313, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
+	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
+	294, 295, 296, 297, 0, 0, 105, 293, 298, 299,
+	300, 0, 0, 0, 269, 285, 0, 312, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 282, 283, 265,
+	0, 0, 0, 325, 0, 284, 0, 0, 280, 281,
+	286, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 323, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
+	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
+	91, 99, 132, 210, 211, 23, 163, 118, 197, 0,
+	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
+	0, 170, 274, 322, 104, 0, 116, 271, 0, 0,
+	130, 313, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 304, 305, 0, 0, 0, 0, 0, 0, 0,
+	0, 50, 0, 0, 272, 292, 291, 294, 295, 296,
+	297, 0, 0, 105, 293, 298, 299, 300, 0, 0,
+	0, 269, 285, 0, 312, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 282, 283, 0, 0, 0, 0,
+	325, 0, 284, 0, 0, 280, 281, 286, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 323, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 314,
+	324, 320, 321, 318, 319, 317, 316, 315, 326, 306,
+	307, 308, 309, 311, 0, 125, 310, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
+	0, 0, 0, 0, 154, 0, 92, 0, 170, 274,
+	322, 104, 0, 116, 271, 0, 0, 130, 313, 133,
+	0, 0, 176, 142, 0, 0, 0, 0, 304, 305,
+	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
+	0, 272, 292, 291, 294, 295, 296, 297, 0, 0,
+	105, 293, 298, 299, 300, 0, 0, 0, 269, 285,
+	0, 312, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 282, 283, 0, 0, 0, 0, 325, 0, 284,
+	0, 0, 280, 281, 286, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
+	323, 161, 0, 108, 0, 182, 120, 0, 131, 0,
+	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
+	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
+	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
+	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
+	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
+	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
+	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
+	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
+	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
+	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
+	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
+	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
+	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
+	212, 0, 169, 107, 195, 175, 314, 324, 320, 321,
+	318, 319, 317, 316, 315, 326, 306, 307, 308, 309,
+	311, 0, 125, 310, 91, 99, 132, 210, 211, 0,
+	163, 118, 197, 0, 0, 0, 0, 154, 0, 92,
+	0, 0, 0, 0, 0, 170, 116, 322, 104, 0,
+	130, 313, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 304, 305, 0, 0, 0, 0, 0, 0, 0,
+	0, 50, 0, 0, 272, 292, 291, 294, 295, 296,
+	297, 0, 0, 105, 293, 298, 299, 300, 0, 0,
+	0, 0, 285, 0, 312, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 282, 283, 0, 0, 0, 0,
+	325, 0, 284, 0, 0, 280, 281, 286, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 323, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 1700, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 314,
+	324, 320, 321, 318, 319, 317, 316, 315, 326, 306,
+	307, 308, 309, 311, 0, 125, 310, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
+	154, 0, 92, 0, 0, 0, 0, 0, 170, 116,
+	322, 104, 0, 130, 313, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
+	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
+	294, 295, 296, 297, 0, 0, 105, 293, 298, 299,
+	300, 0, 0, 0, 0, 285, 0, 312, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 282, 283, 0,
+	0, 0, 0, 325, 0, 284, 0, 0, 280, 281,
+	286, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 323, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
+	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
+	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
+	0, 0, 0, 154, 0, 92, 0, 532, 0, 0,
+	0, 170, 116, 322, 104, 0, 130, 0, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	352, 0, 534, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 529, 528, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 530, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 649, 0, 0,
+	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	88, 0, 651, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 23, 163,
+	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
+	154, 0, 92, 0, 170, 0, 0, 104, 0, 116,
+	0, 0, 0, 130, 0, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 50, 0, 0, 352, 0, 0,
+	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
+	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
+	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
+	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
+	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
+	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
+	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
+	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
+	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
+	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
+	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
+	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
+	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
+	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
+	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
+	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
+	91, 99, 132, 210, 211, 23, 163, 118, 197, 0,
+	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
+	0, 170, 0, 0, 104, 0, 116, 0, 0, 0,
+	130, 0, 133, 0, 0, 176, 142, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 203, 0, 0, 0, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
-	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
-	0, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	0, 154, 0, 92, 0, 649, 0, 0, 0, 0,
-	116, 0, 170, 0, 130, 104, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 88, 0,
-	651, 0, 0, 0, 0, 0, 0, 105, 0, 0,
+	0, 50, 0, 0, 88, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
+	0, 0, 0, 0, 0, 0, 116, 0, 170, 0,
+	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 352, 0, 0, 781, 0, 0,
+	782, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
+	0, 0, 0, 0, 0, 0, 116, 669, 170, 0,
+	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 352, 0, 668, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
+	0, 649, 0, 0, 0, 0, 116, 0, 170, 0,
+	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 88, 0, 651, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 647, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
+	0, 0, 0, 0, 0, 0, 116, 0, 170, 0,
+	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 352, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 203, 0, 0, 0, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
-	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
-	0, 91, 99, 132, 210, 211, 23, 163, 118, 197,
-	0, 0, 0, 0, 0, 0, 0, 0, 154, 0,
-	92, 0, 170, 0, 0, 104, 0, 116, 0, 0,
-	0, 130, 0, 133, 0, 0, 176, 142, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 50, 0, 0, 352, 0, 0, 0, 0,
-	0, 0, 0, 0, 105, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 1391, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
+	0, 0, 0, 0, 0, 0, 116, 0, 170, 0,
+	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 88, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
+	0, 0, 0, 0, 0, 1675, 116, 0, 170, 0,
+	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 352, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 1282, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
+	0, 0, 0, 0, 0, 0, 116, 0, 170, 0,
+	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 50, 0, 0, 88, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 203, 0, 0, 0, 161, 0, 108, 0, 182,
-	120, 0, 131, 0, 0, 0, 0, 0, 0, 110,
-	0, 168, 155, 194, 0, 156, 166, 134, 186, 162,
-	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
-	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 0, 0, 0, 0, 93, 183, 192, 106, 172,
-	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
-	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
-	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
-	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
-	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
-	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 0, 0, 177, 196, 214, 215, 0, 0, 0,
-	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
-	173, 128, 135, 164, 212, 0, 169, 107, 195, 175,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 125, 0, 91, 99,
-	132, 210, 211, 23, 163, 118, 197, 0, 0, 0,
-	0, 0, 0, 0, 0, 154, 0, 92, 0, 170,
-	0, 0, 104, 0, 116, 0, 0, 0, 130, 0,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 50,
-	0, 0, 88, 0, 0, 0, 0, 0, 0, 0,
-	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
-	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 352, 0, 0, 781, 0, 0, 782, 0,
-	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
-	0, 0, 0, 0, 116, 669, 170, 0, 130, 104,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 352, 0, 668, 0, 0, 0, 0, 0,
-	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 0, 154, 0, 92, 0, 649,
-	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 88, 0, 651, 0, 0, 0, 0, 0,
-	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 647, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
-	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 352, 0, 0, 0, 0, 0, 0, 0,
-	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 1391, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
-	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 88, 0, 0, 0, 0, 0, 0, 0,
-	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
-	0, 0, 0, 1674, 116, 0, 170, 0, 130, 104,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 352, 0, 0, 0, 0, 0, 0, 0,
-	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 1282, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
-	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 50,
-	0, 0, 88, 0, 0, 0, 0, 0, 0, 0,
-	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
-	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 88, 0, 651, 0, 0, 0, 0, 0,
-	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
-	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 352, 0, 534, 0, 0, 0, 0, 0,
-	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
-	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 88, 0, 0, 0, 0, 0, 0, 0,
-	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 741, 169, 107, 195, 175, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
-	0, 0, 0, 627, 116, 0, 170, 0, 130, 104,
-	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 88, 0, 0, 0, 0, 0, 0, 0,
-	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
-	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
-	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
-	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
-	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
-	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
-	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
-	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
-	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
-	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
-	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
-	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
-	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
-	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
-	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
-	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
-	0, 163, 118, 197, 336, 0, 0, 0, 0, 0,
-	0, 154, 0, 92, 0, 0, 170, 0, 0, 104,
-	116, 0, 0, 0, 130, 0, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 88, 0,
-	0, 0, 0, 0, 0, 0, 0, 105, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 203, 0, 0, 0, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
-	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
-	0, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	0, 154, 0, 92, 0, 0, 0, 0, 0, 0,
-	116, 0, 170, 0, 130, 104, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 88, 0,
-	0, 0, 0, 0, 0, 0, 0, 105, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
+	0, 0, 0, 0, 0, 0, 116, 0, 170, 0,
+	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 88, 0, 651, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 85, 0, 203, 0, 0, 0, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
-	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
-	0, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	0, 154, 0, 92, 0, 0, 0, 0, 0, 0,
-	116, 0, 170, 0, 130, 104, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 352, 0,
-	0, 0, 0, 0, 0, 0, 0, 105, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
+	0, 0, 0, 0, 0, 0, 116, 0, 170, 0,
+	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 352, 0, 534, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
+	0, 0, 0, 0, 0, 0, 116, 0, 170, 0,
+	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 88, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 741, 169, 107, 195, 175, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
+	0, 0, 0, 0, 0, 627, 116, 0, 170, 0,
+	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 88, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
+	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
+	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 336, 0, 0, 0,
+	0, 0, 0, 154, 0, 92, 0, 0, 170, 0,
+	0, 104, 116, 0, 0, 0, 130, 0, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 85, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	352, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 203, 0, 0, 0, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
-	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
-	0, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	0, 154, 0, 92, 0, 0, 0, 0, 0, 0,
-	116, 0, 170, 0, 130, 104, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 88, 0,
-	0, 0, 0, 0, 0, 0, 0, 105, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 203, 0, 0, 0, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
-	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
-	0, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	0, 154, 0, 92, 0, 0, 0, 0, 0, 0,
-	116, 0, 170, 0, 130, 104, 133, 0, 0, 176,
-	142, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 272, 0,
-	0, 0, 0, 0, 0, 0, 0, 105, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
+	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
+	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	272, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 203, 0, 0, 0, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
-	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
-	149, 90, 160, 167, 0, 109, 703, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
-	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
-	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
-	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
-	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
-	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 688, 0, 0, 177, 196, 214, 215,
-	0, 0, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 0, 0, 0, 704, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
-	0, 91, 99, 132, 210, 211, 0, 163, 118, 197,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 170, 0, 0, 104, 0, 610, 611, 612,
-	613, 614, 615, 616, 617, 618, 619, 0, 720, 721,
-	0, 722, 723, 724, 726, 725, 705, 706, 707, 711,
-	709, 708, 710, 682, 684, 0, 620, 683, 689, 685,
-	686, 687, 701, 690, 691, 692, 693, 694, 695, 696,
-	697, 698, 699, 700, 702, 712, 713, 714, 715, 716,
-	717, 718, 719, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
+	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
+	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 703, 216,
+	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 688, 0, 0, 177, 196,
+	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	0, 169, 107, 195, 175, 0, 0, 0, 704, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 170, 0, 0, 104, 0, 610,
+	611, 612, 613, 614, 615, 616, 617, 618, 619, 0,
+	720, 721, 0, 722, 723, 724, 726, 725, 705, 706,
+	707, 711, 709, 708, 710, 682, 684, 0, 620, 683,
+	689, 685, 686, 687, 701, 690, 691, 692, 693, 694,
+	695, 696, 697, 698, 699, 700, 702, 712, 713, 714,
+	715, 716, 717, 718, 719, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 621,
+	0, 0, 0, 0, 0, 0, 0, 0, 621,
 }
 
 var yyPact = [...]int{
-	2449, -1000, -216, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	2174, -1000, -204, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1246, 1298, -1000, -1000, -1000, -1000, -1000, -1000, 1092,
-	319, 280, 325, 230, 13433, 324, 2394, 13993, -1000, 105,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 995, -1000, -1000,
-	-1000, -1000, -1000, 1238, 1244, 1067, 1218, 1135, -1000, 7227,
-	274, 11747, 13153, 6360, -1000, 897, -177, 281, 13713, 271,
-	271, 13713, 13713, 271, -1000, -77, 304, 13993, -1000, 13993,
-	262, 871, 262, 262, 262, 13993, -1000, 396, -1000, -1000,
+	-1000, 1315, 1363, -1000, -1000, -1000, -1000, -1000, -1000, 1123,
+	331, 285, 329, 213, 13335, 319, 2185, 13895, -1000, 109,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 1062, -1000, -1000,
+	-1000, -1000, -1000, 1308, 1313, 1066, 1301, 1202, -1000, 7412,
+	279, 11649, 13055, 6258, -1000, 914, -185, 286, 13615, 275,
+	275, 13615, 13615, 275, -1000, -70, 310, 13895, -1000, 13895,
+	271, 913, 271, 271, 271, 13895, -1000, 390, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2284,20 +2274,20 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 13993, 839, 1172, 180, 4204, 4204, 4204,
-	4204, 173, 4204, -29, 1103, -1000, -1000, -1000, -1000, 4204,
+	-1000, -1000, -1000, 13895, 882, 1245, 255, 4102, 4102, 4102,
+	4102, 186, 4102, -23, 1161, -1000, -1000, -1000, -1000, 4102,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	759, 1181, 7801, 7801, 1246, -1000, 995, -1000, -1000, -1000,
-	1171, -1000, -1000, 544, 1268, -1000, 8933, 393, -1000, 7801,
-	77, 948, -1000, -1000, 948, -1000, -1000, 371, -1000, -1000,
-	8367, 8367, 8367, 8367, 8367, 8367, 8367, -1000, -1000, -1000,
+	759, 1260, 7986, 7986, 1315, -1000, 1062, -1000, -1000, -1000,
+	1239, -1000, -1000, 551, 1341, -1000, 8835, 389, -1000, 7986,
+	163, 1030, -1000, -1000, 1030, -1000, -1000, 343, -1000, -1000,
+	8552, 8552, 8552, 8552, 8552, 8552, 8552, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 948, -1000, 7514, 948, 948, 948, 948, 948, 948,
-	948, 948, 7801, 948, 948, 948, 948, 948, 948, 948,
-	948, 948, 2344, 948, 948, 948, 948, 12867, 959, 1431,
-	-1000, -1000, -1000, 1210, 9787, 10627, 13993, 921, -1000, 988,
-	6052, -38, -1000, -1000, -1000, 507, 10347, -1000, -1000, -1000,
-	1170, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1030, -1000, 7699, 1030, 1030, 1030, 1030, 1030, 1030,
+	1030, 1030, 7986, 1030, 1030, 1030, 1030, 1030, 1030, 1030,
+	1030, 1030, 869, 1030, 1030, 1030, 1030, 12769, 1048, 1159,
+	-1000, -1000, -1000, 1282, 9689, 10529, 13895, 897, -1000, 1012,
+	5950, -40, -1000, -1000, -1000, 527, 10249, -1000, -1000, -1000,
+	1229, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2308,156 +2298,156 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 893, -1000, 14407, 315, -1000, -1000, 13993, 1074, 837,
-	524, 833, 1102, 292, 13993, -1000, 12587, 4204, 290, 13993,
-	1196, 1101, 13993, 828, 816, -1000, 5744, -1000, 4204, 4204,
-	4204, 4204, 4204, 4204, 4204, 4204, -1000, -1000, -1000, -1000,
-	-1000, -1000, 4204, 4204, -1000, -22, -1000, 13993, -1000, -1000,
-	-1000, -1000, 1291, 435, 820, 390, 991, -1000, 731, 1238,
-	759, 1135, 10067, 1004, -1000, -1000, 13993, -1000, 7801, 7801,
-	598, -1000, 12307, -1000, -1000, 4512, 441, 8367, 638, 505,
-	8367, 8367, 8367, 8367, 8367, 8367, 8367, 8367, 8367, 8367,
-	8367, 8367, 8367, 8367, 8367, 720, 2344, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 814, -1000, 995, 994, 994,
-	22, 22, 22, 22, 22, 22, 8650, 6653, 759, 890,
-	498, 7514, 7227, 7227, 7801, 7801, 14273, 14273, 7227, 1219,
-	515, 498, 14273, -1000, 759, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 29, -1000, -1000, -1000, -1000, -1000,
+	-1000, 905, -1000, 14309, 307, -1000, -1000, 13895, 1111, 860,
+	538, 855, 1160, 270, 13895, -1000, 12489, 4102, 287, 13895,
+	1274, 1158, 13895, 837, 830, -1000, 5642, -1000, 4102, 4102,
+	4102, 4102, 4102, 4102, 4102, 4102, -1000, -1000, -1000, -1000,
+	-1000, -1000, 4102, 4102, -1000, -22, -1000, 13895, -1000, -1000,
+	-1000, -1000, 1356, 419, 529, 388, 1018, -1000, 510, 1308,
+	759, 1202, 9969, 1174, -1000, -1000, 13895, -1000, 7986, 7986,
+	595, -1000, 12209, -1000, -1000, 4410, 437, 8552, 641, 476,
+	8552, 8552, 8552, 8552, 8552, 8552, 8552, 8552, 8552, 8552,
+	8552, 8552, 8552, 8552, 8552, 709, 869, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 813, -1000, 1062, 906, 906,
+	12, 12, 12, 12, 12, 12, 2833, 6838, 759, 902,
+	482, 7699, 7412, 7412, 7986, 7986, 14175, 14175, 7412, 1284,
+	455, 482, 14175, -1000, 759, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 62, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 7227, 7227, 7227, 7227, 195, 13993, -1000, 14273,
-	11747, 11747, 11747, 11747, 11747, -1000, 1122, 1121, -1000, 1118,
-	1114, 1145, 13993, -1000, 883, 9787, 351, 948, -1000, 12027,
-	-1000, -1000, 195, 942, 11747, 13993, -1000, -1000, 5436, 988,
-	-38, 978, -1000, -40, -50, 2907, 401, -1000, -1000, -1000,
-	-1000, 3588, 895, 84, -134, -5, -1000, -1000, -1000, -1000,
-	1025, -1000, 1025, 231, 1025, 1025, 1025, -1000, 1025, 1025,
-	43, 43, 43, 43, 43, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 1089, 1084, -1000, 1025, 1025, 1025, -1000, 1025,
+	-1000, -1000, 7412, 7412, 7412, 7412, 198, 13895, -1000, 14175,
+	11649, 11649, 11649, 11649, 11649, -1000, 1195, 1192, -1000, 1182,
+	1172, 1186, 13895, -1000, 893, 9689, 363, 1030, -1000, 11929,
+	-1000, -1000, 198, 985, 11649, 13895, -1000, -1000, 5334, 1012,
+	-40, 989, -1000, -46, -39, 6551, 396, -1000, -1000, -1000,
+	-1000, 3486, 740, 146, -122, -3, -1000, -1000, -1000, -1000,
+	1086, -1000, 1086, 217, 1086, 1086, 1086, -1000, 1086, 1086,
+	56, 56, 56, 56, 56, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 1121, 1119, -1000, 1086, 1086, 1086, -1000, 1086,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	1078, 243, 1078, 1027, 1027, -1000, -1000, 13713, 1209, -136,
-	809, 4204, 1192, 4204, 13993, 1328, 13993, -1000, -1000, -1000,
-	753, 13993, -1000, 13993, -1000, -1000, 13993, 4204, -1000, -1000,
+	1103, 230, 1103, 1089, 1089, -1000, -1000, 13615, 1281, -137,
+	806, 4102, 1273, 4102, 13895, 1375, 13895, -1000, -1000, -1000,
+	1932, 13895, -1000, 13895, -1000, -1000, 13895, 4102, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 511, -1000, -1000, -1000, -1000, 1148, 7801,
-	7801, 5128, 7801, -1000, -1000, -1000, 1181, -1000, 1219, 1230,
-	-1000, 1162, 1159, 7227, -1000, -1000, 441, 484, -1000, -1000,
-	586, -1000, -1000, -1000, -1000, 379, 948, -1000, 2321, -1000,
-	-1000, -1000, -1000, 638, 8367, 8367, 8367, 2181, 2321, 2301,
-	23, 1011, 22, 174, 174, 27, 27, 27, 27, 27,
-	161, 161, -1000, -1000, -1000, -1000, 759, -1000, -1000, -1000,
-	759, 7227, 983, -1000, -1000, 7801, -1000, 759, 877, 877,
-	763, 539, 993, -1000, 377, 981, 877, 7227, 521, -1000,
-	7801, 759, -1000, -1000, 877, 759, 877, 877, 935, 948,
-	-1000, 979, -1000, 502, 1431, 1088, 1100, 1329, -1000, -1000,
-	-1000, -1000, 1120, -1000, 1023, -1000, -1000, -1000, -1000, -1000,
-	313, 302, 293, 13713, -1000, 1252, 11747, 954, -1000, -1000,
-	978, -38, -53, -1000, -1000, -1000, -1000, 498, -1000, -1000,
-	804, 965, 3280, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1083, 699, 13713, 227, 225, 424, 320, 799, -1000,
-	-1000, -1000, 630, -1000, 13713, 1289, -1000, -1000, 226, -1000,
-	219, 520, 746, 13993, 123, 1082, 1259, -1000, -219, -1000,
-	-7, -1000, -1000, 722, 43, 43, 1025, 43, 43, 43,
-	-1000, -1000, 401, 1167, 401, 401, 401, 401, 743, 743,
-	-139, -139, -1000, -1000, -1000, 718, 1078, -1000, -1000, -1000,
-	711, -1000, 1073, 995, -1000, 4820, -1000, -1000, -1000, -1000,
-	-1000, 1208, 1099, -1000, -1000, -1000, 126, -1000, 710, 411,
-	432, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 194, 332, -1000, 4204, -1000, 518, 13993, 13993,
-	1144, 498, 498, 362, -1000, -1000, 13993, -1000, -1000, -1000,
-	-1000, 960, -1000, -1000, -1000, 3896, 7227, -1000, 2181, 2321,
-	691, -1000, 8367, 8367, -1000, -1000, 877, 7227, 498, -1000,
-	-1000, -1000, 1008, 720, 1008, 8367, 8367, 5128, 8367, 8367,
-	-91, 975, 455, -1000, 7801, 570, -1000, -1000, -1000, -1000,
-	-1000, 1096, 14273, 948, -1000, 9500, 13713, 1246, 14273, 7801,
-	7801, -1000, -1000, 7801, 1070, -1000, 7801, -1000, -1000, -1000,
-	948, 948, 948, 863, -1000, 1246, 954, -1000, -1000, -1000,
-	-55, -47, -1000, -1000, 3588, -1000, 3588, 11467, -1000, 1267,
-	1235, 233, 249, -1000, 787, 752, -1000, 751, -1000, -23,
-	-1000, -174, 70, 49, -1000, -1000, 948, -1000, 1069, 1204,
-	-1000, 1174, 705, -1000, 311, -202, -1000, -1000, -1000, -1000,
-	-202, -1000, 948, 1041, 1038, -1000, 1029, -1000, -1000, -1000,
-	907, 401, 401, 43, 401, 401, 401, -1000, 454, -1000,
-	-1000, -1000, -1000, 875, -1000, 869, -1000, 65, 55, -1000,
-	963, -1000, 867, 13993, 13713, -1000, 961, -1000, 496, 1231,
-	144, 13993, 1328, -1000, 223, -1000, 13713, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 13713, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 13993, -1000, -1000,
-	-1000, -1000, -1000, 13713, 244, -1000, -1000, 742, 7801, -1000,
-	-1000, -1000, 4820, -1000, 1252, 11747, -1000, -1000, 759, -1000,
-	8367, 2321, 2321, -1000, -1000, 759, 1025, 1025, -1000, 1025,
-	1027, -1000, -1000, 1025, 92, 1025, 79, 759, 759, 215,
-	1869, -1000, 150, 1821, 948, -84, -1000, 498, 7801, -1000,
-	1179, 920, 945, -1000, -1000, 6940, 759, 865, 356, 863,
-	1238, -1000, 498, 498, 498, 10907, 498, 10907, 10907, 10907,
-	9213, 13713, 1238, -1000, -1000, -1000, -1000, 3280, -1000, 859,
-	-1000, 1025, 1025, 303, 303, -195, 218, 217, -1000, -1000,
-	-1000, -1000, -177, -1000, -1000, 520, -1000, 7801, 10907, -161,
-	-1000, 958, 894, 1718, -1000, 1896, -1000, 759, -1000, 712,
-	-1000, 706, 856, -1000, -1000, -1000, 401, -1000, -1000, -1000,
-	-1000, -1000, 43, 741, 43, -10, -14, 693, -1000, 688,
-	1005, 1095, 4820, 3588, 276, 1322, -1000, -1000, 1229, 1199,
-	13713, -1000, -1000, -1000, 1022, -1000, -1000, -1000, -1000, 1182,
-	13713, -1000, -1000, 498, 1250, 952, -1000, 2321, -1000, -1000,
-	222, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	8367, 8367, -1000, 8367, 8367, 8367, 759, 740, 498, 211,
-	-1000, 948, -1000, -1000, 947, 13713, 13713, -1000, -1000, 855,
-	-1000, -1000, 851, 851, 851, 351, -1000, -1000, 241, 11467,
-	1193, -1000, 647, -1000, -1000, 534, 133, 601, -1000, 13713,
-	-177, -1000, 948, 687, 847, 1020, 645, -1000, 852, -134,
-	-134, -134, -1000, -1000, -1000, -1000, -1000, 401, -1000, 401,
-	-1000, -1000, 848, 821, 11467, 13713, 13993, -1000, -1000, 13713,
-	-1000, -1000, -1000, -1000, -1000, 115, 197, 1019, 10907, 948,
-	247, 1248, 1242, -1000, -1000, 419, 419, 419, 419, 93,
-	-1000, -1000, 1287, -1000, 948, -1000, 995, 353, -1000, 13713,
-	-1000, -1000, -1000, -1000, -1000, 1090, 1125, 94, -1000, 690,
-	494, 738, 493, 492, 485, 473, 471, 467, 463, -1000,
-	-1000, -1000, 1278, -1000, -1000, -1000, 1275, 1018, -1000, 1017,
-	7801, 136, -1000, -1000, 773, 769, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 843, 1016, 1013, 909, -1000, 96, 197,
-	-1000, -1000, -1000, -1000, 11467, 832, 179, 209, -1000, 7801,
-	7801, -1000, -1000, -1000, -1000, 759, 153, -150, 14273, 945,
-	759, 13713, -1000, -1000, 13713, -1000, -148, 1125, 13713, -1000,
-	636, -1000, -1000, 683, 635, 683, 683, 683, 683, 683,
-	303, 303, 13713, 11467, 687, -1000, -87, 413, -1000, -1000,
-	-200, 11467, 11467, -110, 13713, 7801, 197, -1000, 827, 1074,
-	824, -1000, 13713, 1012, 498, 943, -1000, 1141, -94, -154,
-	929, -1000, -1000, 948, 803, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 520, 520, 798,
-	795, -1000, -1000, -1000, 89, 715, 609, 590, 584, -8,
-	-1000, 1240, 1252, 1010, 792, 772, -1000, -209, -1000, 498,
-	-1000, -1000, -136, -1000, 179, 1158, 11467, -1000, 1131, -1000,
-	13713, -1000, 1125, -1000, -1000, 239, 241, 581, -1000, 553,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 11187, 241, 10907,
-	1252, 241, 7801, -1000, -1000, 171, 768, -137, 759, -1000,
-	13993, 1090, -1000, -1000, -1000, 347, 1090, 766, 241, -1000,
-	498, 152, -1000, -152, -1000, 1006, -1000, 4820, -1000, -1000,
-	-1000, 948, -155, 13713, -1000, 8084, -1000, 758, 419, 759,
-	-1000, -1000, -1000,
+	-1000, -1000, -1000, 518, -1000, -1000, -1000, -1000, 1213, 7986,
+	7986, 5026, 7986, -1000, -1000, -1000, 1260, -1000, 1284, 1305,
+	-1000, 1222, 1220, 7412, -1000, -1000, 437, 487, -1000, -1000,
+	695, -1000, -1000, -1000, -1000, 376, 1030, -1000, 617, -1000,
+	-1000, -1000, -1000, 641, 8552, 8552, 8552, 420, 617, 1820,
+	1035, 898, 12, 251, 251, 5, 5, 5, 5, 5,
+	102, 102, -1000, -1000, -1000, -1000, 759, -1000, -1000, -1000,
+	759, 7412, 993, -1000, -1000, 7986, -1000, 759, 889, 889,
+	485, 711, 1058, -1000, 370, 1053, 889, 7412, 546, -1000,
+	7986, 759, -1000, -1000, 889, 759, 889, 889, 973, 1030,
+	-1000, 1051, -1000, 514, 1159, 1134, 1157, 972, -1000, -1000,
+	-1000, -1000, 1191, -1000, 1184, -1000, -1000, -1000, -1000, -1000,
+	306, 304, 302, 13615, -1000, 1332, 11649, 1009, -1000, -1000,
+	989, -40, -52, -1000, -1000, -1000, -1000, 482, -1000, -1000,
+	804, 984, 3178, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1118, 588, 13615, 250, 259, 408, 341, 802, -1000,
+	-1000, -1000, 602, -1000, 13615, 1354, -1000, -1000, 247, -1000,
+	246, 526, 752, 13895, 154, 1116, 2070, -1000, -210, -1000,
+	-6, -1000, -1000, 720, 56, 56, 1086, 56, 56, 56,
+	-1000, -1000, 396, 1226, 396, 396, 396, 396, 736, 736,
+	-116, -116, -1000, -1000, -1000, 717, 1103, -1000, -1000, -1000,
+	701, -1000, 1110, 1062, -1000, 4718, -1000, -1000, -1000, -1000,
+	-1000, 1279, 1147, -1000, -1000, -1000, 147, -1000, 1108, 1868,
+	324, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 197, 334, -1000, 4102, -1000, 498, 13895, 13895,
+	1211, 482, 482, 358, -1000, -1000, 13895, -1000, -1000, -1000,
+	-1000, 1033, -1000, -1000, -1000, 3794, 7412, -1000, 420, 617,
+	1772, -1000, 8552, 8552, -1000, -1000, 889, 7412, 482, -1000,
+	-1000, -1000, 710, 709, 710, 8552, 8552, 5026, 8552, 8552,
+	-93, 1020, 488, -1000, 7986, 570, -1000, -1000, -1000, -1000,
+	-1000, 1146, 14175, 1030, -1000, 9402, 13615, 1315, 14175, 7986,
+	7986, -1000, -1000, 7986, 1102, -1000, 7986, -1000, -1000, -1000,
+	1030, 1030, 1030, 864, -1000, 1315, 1009, -1000, -1000, -1000,
+	-50, -48, -1000, -1000, 3486, -1000, 3486, 11369, -1000, 1340,
+	1304, 257, 273, -1000, 795, 793, -1000, 781, -1000, -5,
+	-1000, -179, 78, 34, -1000, -1000, 1030, -1000, 1101, 1278,
+	-1000, 1258, 700, -1000, 1874, -195, -1000, -1000, -1000, -1000,
+	-195, -1000, 1030, 1095, 1092, -1000, 1090, -1000, -1000, -1000,
+	919, 396, 396, 56, 396, 396, 396, -1000, 451, -1000,
+	-1000, -1000, -1000, 878, -1000, 876, -1000, 77, 76, -1000,
+	979, -1000, 870, 13895, 13615, -1000, 967, -1000, 513, 1300,
+	167, 13895, 1375, -1000, 237, -1000, 13615, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 13615, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 13895, -1000, -1000,
+	-1000, -1000, -1000, 13615, 264, -1000, -1000, 726, 7986, -1000,
+	-1000, -1000, 4718, -1000, 1332, 11649, -1000, -1000, 759, -1000,
+	8552, 617, 617, -1000, -1000, 759, 1086, 1086, -1000, 1086,
+	1089, -1000, -1000, 1086, 99, 1086, 97, 759, 759, 268,
+	1805, -1000, 67, 89, 1030, -77, -1000, 482, 7986, -1000,
+	1261, 954, 931, -1000, -1000, 7125, 759, 866, 357, 864,
+	1308, -1000, 482, 482, 482, 10809, 482, 10809, 10809, 10809,
+	9115, 13615, 1308, -1000, -1000, -1000, -1000, 3178, -1000, 859,
+	-1000, 1086, 1086, 300, 300, -182, 236, 220, -1000, -1000,
+	-1000, -1000, -185, -1000, -1000, 526, -1000, 7986, 10809, -175,
+	-1000, 958, 867, 1546, -1000, 2541, -1000, 759, -1000, 718,
+	-1000, 636, 848, -1000, -1000, -1000, 396, -1000, -1000, -1000,
+	-1000, -1000, 56, 723, 56, -8, -10, 698, -1000, 692,
+	1039, 1137, 4718, 3486, 281, 1438, -1000, -1000, 1291, 1276,
+	13615, -1000, -1000, -1000, 1073, -1000, -1000, -1000, -1000, 1263,
+	13615, -1000, -1000, 482, 1330, 932, -1000, 617, -1000, -1000,
+	187, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	8552, 8552, -1000, 8552, 8552, 8552, 759, 722, 482, 219,
+	-1000, 1030, -1000, -1000, 1028, 13615, 13615, -1000, -1000, 853,
+	-1000, -1000, 847, 847, 847, 363, -1000, -1000, 1024, 11369,
+	1268, -1000, 577, -1000, -1000, 598, 151, 567, -1000, 13615,
+	-185, -1000, 1030, 542, 841, 1072, 685, -1000, 842, -122,
+	-122, -122, -1000, -1000, -1000, -1000, -1000, 396, -1000, 396,
+	-1000, -1000, 800, 789, 11369, 13615, 13895, -1000, -1000, 13615,
+	-1000, -1000, -1000, -1000, -1000, 127, 269, 1071, 10809, 1030,
+	267, 1317, 1312, -1000, -1000, 196, 196, 196, 196, 47,
+	-1000, -1000, 1351, -1000, 1030, -1000, 1062, 353, -1000, 13615,
+	-1000, -1000, -1000, -1000, -1000, 1131, 1352, 84, -1000, 774,
+	505, 596, 503, 495, 491, 469, 457, 452, 450, -1000,
+	-1000, -1000, 1349, -1000, -1000, -1000, -1000, 1346, 1065, -1000,
+	1064, 7986, 148, -1000, -1000, 773, 765, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 836, 1063, 1061, 976, -1000, 125,
+	269, -1000, -1000, -1000, -1000, 11369, 824, 185, 210, -1000,
+	7986, 7986, -1000, -1000, -1000, -1000, 759, 158, -159, 14175,
+	931, 759, 13615, -1000, -1000, 13615, -1000, -143, 1352, 13615,
+	-1000, 683, -1000, -1000, 575, 671, 575, 575, 575, 575,
+	575, 300, 300, 13615, 11369, 542, -1000, -80, 168, -1000,
+	-1000, -192, 11369, 11369, -134, 13615, 7986, 269, -1000, 819,
+	1111, 799, -1000, 13615, 1060, 482, 921, -1000, 1209, -112,
+	-163, 899, -1000, -1000, 1030, 792, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 526, 526,
+	788, 785, -1000, -1000, -1000, 119, 707, 647, 612, 593,
+	11, -1000, 1311, 1332, 1057, 779, 772, -1000, -201, -1000,
+	482, -1000, -1000, -137, -1000, 185, 1219, 11369, -1000, 1208,
+	-1000, 13615, -1000, 1352, -1000, -1000, 258, 1024, 584, -1000,
+	560, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 11089, 1024,
+	10809, 1332, 1024, 7986, -1000, -1000, 177, 769, -140, 759,
+	-1000, 13895, 1131, -1000, -1000, -1000, 351, 1131, 764, 1024,
+	-1000, 482, 166, -1000, -160, -1000, 1050, -1000, 4718, -1000,
+	-1000, -1000, 1030, -164, 13615, -1000, 8269, -1000, 758, 196,
+	759, -1000, -1000, -1000,
 }
 
 var yyPgo = [...]int{
-	0, 1559, 23, 809, 1557, 1555, 1553, 1343, 1308, 1305,
-	1548, 1547, 1546, 1543, 1541, 1540, 1538, 1536, 1535, 1534,
-	1533, 1530, 1528, 1527, 365, 1526, 1524, 1522, 101, 1521,
-	115, 1520, 1519, 59, 79, 65, 53, 1175, 1518, 37,
-	95, 90, 1515, 74, 1514, 1513, 94, 1511, 85, 1506,
-	1503, 500, 1502, 1501, 26, 7, 1500, 44, 1499, 1494,
-	91, 133, 1493, 1492, 1491, 1482, 1480, 1469, 75, 13,
-	19, 11, 25, 1468, 323, 15, 1466, 66, 1465, 1464,
-	1463, 1459, 47, 1458, 70, 18, 46, 76, 1457, 5,
-	1456, 83, 50, 30, 17, 93, 77, 1455, 49, 84,
-	67, 1452, 1451, 638, 1450, 1448, 1446, 1444, 1439, 1431,
-	529, 627, 1427, 1426, 1425, 52, 0, 217, 100, 92,
-	1424, 54, 1423, 1735, 88, 89, 31, 1418, 60, 126,
-	58, 1417, 1415, 51, 87, 29, 34, 33, 1414, 1413,
-	1411, 1402, 1401, 1061, 43, 137, 82, 1398, 1397, 21,
-	57, 56, 36, 61, 81, 1396, 1395, 1392, 41, 1391,
-	16, 22, 2, 68, 1390, 1389, 1388, 1385, 48, 32,
-	1384, 20, 12, 6, 14, 4, 1383, 1381, 1377, 8,
-	1374, 28, 1368, 9, 1367, 10, 1365, 1364, 1363, 40,
-	1360, 1359, 1358, 1357, 1356, 1355, 27, 1, 42, 45,
-	143, 55, 39, 1353, 3, 1352, 1350, 1405, 767, 1345,
-	1329, 1323, 1321, 108,
+	0, 1616, 27, 810, 1615, 1609, 1608, 1390, 1375, 1370,
+	1607, 1602, 1601, 1592, 1588, 1587, 1585, 1582, 1578, 1575,
+	1570, 1569, 1567, 1563, 563, 1562, 1560, 1559, 99, 1557,
+	101, 1556, 1555, 60, 113, 67, 65, 1119, 1554, 40,
+	126, 119, 1549, 76, 1545, 1544, 103, 1541, 88, 1540,
+	1539, 93, 1538, 1536, 19, 5, 1535, 49, 1533, 1532,
+	96, 133, 1531, 1528, 1527, 1525, 1523, 1514, 79, 15,
+	10, 20, 23, 1513, 153, 18, 1512, 77, 1511, 1506,
+	1503, 1502, 53, 1501, 83, 25, 34, 81, 1500, 7,
+	1499, 87, 55, 33, 13, 98, 85, 1498, 51, 94,
+	68, 1496, 1495, 645, 1493, 1492, 1491, 1490, 1489, 1478,
+	615, 630, 1477, 1474, 1473, 59, 0, 311, 48, 104,
+	1472, 58, 1471, 1622, 100, 95, 31, 1469, 45, 1537,
+	56, 1468, 1467, 54, 97, 39, 41, 36, 1466, 1465,
+	1464, 1463, 1462, 84, 43, 32, 193, 1460, 1459, 21,
+	66, 74, 52, 70, 82, 1457, 1455, 1454, 42, 1453,
+	9, 14, 4, 71, 1452, 1451, 1450, 1445, 57, 30,
+	1439, 22, 26, 1, 3, 2, 1434, 1433, 1431, 11,
+	1430, 29, 1429, 6, 1428, 12, 1421, 1414, 1413, 47,
+	1411, 1407, 1404, 1399, 1398, 1397, 16, 17, 46, 44,
+	37, 61, 50, 1396, 8, 1395, 1394, 1486, 24, 1392,
+	1388, 1379, 1361, 115,
 }
 
 var yyR1 = [...]int{
@@ -2492,51 +2482,52 @@ var yyR1 = [...]int{
 	175, 175, 175, 175, 164, 164, 200, 200, 173, 173,
 	173, 170, 170, 170, 170, 170, 170, 170, 170, 163,
 	163, 172, 172, 171, 171, 158, 158, 158, 158, 158,
-	159, 160, 160, 160, 160, 157, 196, 196, 196, 197,
-	197, 161, 161, 162, 162, 167, 167, 167, 168, 168,
-	168, 169, 169, 169, 12, 12, 12, 12, 12, 12,
-	12, 12, 12, 12, 12, 12, 186, 186, 186, 186,
-	186, 186, 186, 186, 186, 186, 186, 210, 210, 211,
-	211, 211, 211, 211, 211, 211, 180, 178, 178, 179,
-	179, 13, 14, 14, 14, 14, 14, 15, 15, 17,
+	159, 160, 160, 160, 160, 160, 157, 196, 196, 196,
+	197, 197, 161, 161, 162, 162, 167, 167, 167, 168,
+	168, 168, 169, 169, 169, 12, 12, 12, 12, 12,
+	12, 12, 12, 12, 12, 12, 12, 186, 186, 186,
+	186, 186, 186, 186, 186, 186, 186, 186, 210, 210,
+	211, 211, 211, 211, 211, 211, 211, 180, 178, 178,
+	179, 179, 13, 14, 14, 14, 14, 14, 15, 15,
+	17, 18, 18, 18, 18, 18, 18, 18, 18, 18,
 	18, 18, 18, 18, 18, 18, 18, 18, 18, 18,
-	18, 18, 18, 18, 18, 18, 18, 18, 18, 18,
-	18, 18, 18, 108, 108, 105, 105, 106, 106, 107,
-	107, 107, 109, 109, 109, 132, 132, 132, 19, 19,
-	21, 21, 22, 23, 20, 20, 20, 20, 20, 212,
-	24, 25, 25, 26, 26, 26, 30, 30, 30, 28,
-	28, 29, 29, 35, 35, 34, 34, 36, 36, 36,
-	36, 120, 120, 120, 119, 119, 38, 38, 39, 39,
-	40, 40, 41, 41, 41, 53, 53, 89, 89, 89,
-	92, 92, 42, 42, 42, 42, 43, 43, 44, 44,
-	45, 45, 127, 127, 126, 126, 126, 125, 125, 47,
-	47, 47, 49, 48, 48, 48, 48, 50, 50, 52,
-	52, 51, 51, 54, 54, 54, 54, 55, 55, 90,
-	90, 37, 37, 37, 37, 37, 37, 37, 104, 104,
-	57, 57, 56, 56, 56, 56, 56, 56, 56, 56,
-	56, 56, 67, 67, 67, 67, 67, 67, 58, 58,
-	58, 58, 58, 58, 58, 33, 33, 68, 68, 68,
-	74, 69, 69, 61, 61, 61, 61, 61, 61, 61,
+	18, 18, 18, 18, 108, 108, 105, 105, 106, 106,
+	107, 107, 107, 109, 109, 109, 132, 132, 132, 19,
+	19, 21, 21, 22, 23, 20, 20, 20, 20, 20,
+	212, 24, 25, 25, 26, 26, 26, 30, 30, 30,
+	28, 28, 29, 29, 35, 35, 34, 34, 36, 36,
+	36, 36, 120, 120, 120, 119, 119, 38, 38, 39,
+	39, 40, 40, 41, 41, 41, 53, 53, 89, 89,
+	89, 92, 92, 42, 42, 42, 42, 43, 43, 44,
+	44, 45, 45, 127, 127, 126, 126, 126, 125, 125,
+	47, 47, 47, 49, 48, 48, 48, 48, 50, 50,
+	52, 52, 51, 51, 54, 54, 54, 54, 55, 55,
+	90, 90, 37, 37, 37, 37, 37, 37, 37, 104,
+	104, 57, 57, 56, 56, 56, 56, 56, 56, 56,
+	56, 56, 56, 67, 67, 67, 67, 67, 67, 58,
+	58, 58, 58, 58, 58, 58, 33, 33, 68, 68,
+	68, 74, 69, 69, 61, 61, 61, 61, 61, 61,
 	61, 61, 61, 61, 61, 61, 61, 61, 61, 61,
 	61, 61, 61, 61, 61, 61, 61, 61, 61, 61,
-	61, 61, 61, 61, 61, 65, 65, 65, 63, 63,
+	61, 61, 61, 61, 61, 61, 65, 65, 65, 63,
 	63, 63, 63, 63, 63, 63, 63, 63, 63, 63,
-	63, 63, 63, 64, 64, 64, 64, 64, 64, 64,
-	64, 64, 213, 213, 66, 66, 66, 66, 31, 31,
-	31, 31, 31, 130, 130, 133, 133, 133, 133, 133,
-	133, 133, 133, 133, 133, 133, 133, 133, 133, 134,
-	134, 134, 134, 134, 134, 134, 78, 78, 32, 32,
-	76, 76, 77, 79, 79, 75, 75, 75, 60, 60,
-	60, 60, 60, 60, 60, 60, 62, 62, 62, 80,
-	80, 81, 81, 82, 82, 83, 83, 84, 85, 85,
-	85, 86, 86, 86, 86, 87, 87, 87, 59, 59,
-	59, 59, 59, 59, 88, 88, 88, 88, 93, 93,
-	70, 70, 72, 72, 71, 73, 94, 94, 98, 95,
-	95, 99, 99, 99, 99, 97, 97, 97, 122, 122,
-	122, 102, 102, 110, 110, 111, 111, 103, 103, 112,
-	112, 112, 112, 112, 112, 112, 112, 112, 112, 113,
-	113, 113, 114, 114, 117, 117, 118, 118, 123, 123,
-	124, 124, 115, 115, 115, 115, 115, 115, 115, 115,
+	63, 63, 63, 63, 64, 64, 64, 64, 64, 64,
+	64, 64, 64, 213, 213, 66, 66, 66, 66, 31,
+	31, 31, 31, 31, 130, 130, 133, 133, 133, 133,
+	133, 133, 133, 133, 133, 133, 133, 133, 133, 133,
+	134, 134, 134, 134, 134, 134, 134, 78, 78, 32,
+	32, 76, 76, 77, 79, 79, 75, 75, 75, 60,
+	60, 60, 60, 60, 60, 60, 60, 62, 62, 62,
+	80, 80, 81, 81, 82, 82, 83, 83, 84, 85,
+	85, 85, 86, 86, 86, 86, 87, 87, 87, 59,
+	59, 59, 59, 59, 59, 88, 88, 88, 88, 93,
+	93, 70, 70, 72, 72, 71, 73, 94, 94, 98,
+	95, 95, 99, 99, 99, 99, 97, 97, 97, 122,
+	122, 122, 102, 102, 110, 110, 111, 111, 103, 103,
+	112, 112, 112, 112, 112, 112, 112, 112, 112, 112,
+	113, 113, 113, 114, 114, 117, 117, 118, 118, 123,
+	123, 124, 124, 115, 115, 115, 115, 115, 115, 115,
+	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
@@ -2546,7 +2537,6 @@ var yyR1 = [...]int{
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
-	115, 115, 115, 115, 115, 115, 115, 115, 115, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
@@ -2560,7 +2550,7 @@ var yyR1 = [...]int{
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
-	116, 116, 207, 208, 128, 129, 129, 129,
+	116, 116, 116, 207, 208, 128, 129, 129, 129,
 }
 
 var yyR2 = [...]int{
@@ -2595,50 +2585,50 @@ var yyR2 = [...]int{
 	3, 3, 3, 3, 0, 1, 1, 1, 0, 2,
 	5, 2, 3, 3, 2, 3, 2, 3, 4, 1,
 	1, 1, 3, 3, 2, 2, 5, 5, 8, 8,
-	13, 1, 1, 2, 2, 10, 0, 1, 1, 0,
-	3, 0, 1, 1, 3, 0, 1, 3, 1, 2,
-	3, 1, 1, 1, 6, 11, 13, 7, 7, 7,
-	12, 7, 7, 7, 4, 5, 1, 1, 1, 1,
+	13, 1, 1, 2, 2, 2, 10, 0, 1, 1,
+	0, 3, 0, 1, 1, 3, 0, 1, 3, 1,
+	2, 3, 1, 1, 1, 6, 11, 13, 7, 7,
+	7, 12, 7, 7, 7, 4, 5, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 1, 7, 1, 3, 8,
-	8, 5, 4, 6, 5, 4, 4, 3, 2, 3,
-	4, 4, 4, 4, 4, 4, 4, 4, 3, 3,
-	3, 3, 4, 3, 6, 4, 2, 4, 2, 2,
-	2, 2, 3, 1, 1, 0, 1, 0, 1, 0,
-	2, 2, 0, 2, 2, 0, 1, 1, 2, 1,
-	1, 2, 1, 1, 2, 2, 2, 2, 2, 0,
-	2, 0, 2, 1, 2, 2, 0, 1, 1, 0,
-	1, 0, 1, 0, 1, 1, 3, 1, 2, 3,
-	5, 0, 1, 2, 1, 1, 0, 2, 1, 3,
-	1, 1, 1, 3, 3, 3, 7, 1, 1, 3,
-	1, 3, 4, 4, 4, 3, 2, 4, 0, 1,
-	0, 2, 0, 1, 0, 1, 2, 1, 1, 1,
-	2, 2, 1, 2, 3, 2, 3, 2, 2, 2,
-	1, 1, 3, 0, 5, 5, 5, 0, 2, 0,
-	4, 1, 3, 3, 2, 3, 1, 2, 0, 3,
-	1, 1, 3, 3, 4, 4, 5, 3, 4, 5,
-	6, 2, 1, 2, 1, 2, 1, 2, 1, 1,
-	1, 1, 1, 1, 1, 0, 2, 1, 1, 1,
-	3, 1, 3, 1, 1, 1, 1, 1, 3, 3,
+	1, 1, 1, 1, 1, 1, 1, 7, 1, 3,
+	8, 8, 5, 4, 6, 5, 4, 4, 3, 2,
+	3, 4, 4, 4, 4, 4, 4, 4, 4, 3,
+	3, 3, 3, 4, 3, 6, 4, 2, 4, 2,
+	2, 2, 2, 3, 1, 1, 0, 1, 0, 1,
+	0, 2, 2, 0, 2, 2, 0, 1, 1, 2,
+	1, 1, 2, 1, 1, 2, 2, 2, 2, 2,
+	0, 2, 0, 2, 1, 2, 2, 0, 1, 1,
+	0, 1, 0, 1, 0, 1, 1, 3, 1, 2,
+	3, 5, 0, 1, 2, 1, 1, 0, 2, 1,
+	3, 1, 1, 1, 3, 3, 3, 7, 1, 1,
+	3, 1, 3, 4, 4, 4, 3, 2, 4, 0,
+	1, 0, 2, 0, 1, 0, 1, 2, 1, 1,
+	1, 2, 2, 1, 2, 3, 2, 3, 2, 2,
+	2, 1, 1, 3, 0, 5, 5, 5, 0, 2,
+	0, 4, 1, 3, 3, 2, 3, 1, 2, 0,
+	3, 1, 1, 3, 3, 4, 4, 5, 3, 4,
+	5, 6, 2, 1, 2, 1, 2, 1, 2, 1,
+	1, 1, 1, 1, 1, 1, 0, 2, 1, 1,
+	1, 3, 1, 3, 1, 1, 1, 1, 1, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
-	3, 3, 3, 2, 2, 2, 2, 2, 2, 3,
-	3, 1, 1, 1, 1, 4, 5, 6, 4, 4,
-	6, 6, 6, 6, 8, 8, 6, 8, 8, 9,
-	7, 5, 4, 2, 2, 2, 2, 2, 2, 2,
-	2, 2, 0, 2, 4, 4, 4, 4, 0, 3,
-	4, 7, 3, 1, 1, 2, 3, 3, 1, 2,
-	2, 1, 1, 2, 1, 2, 2, 1, 2, 1,
-	2, 1, 1, 1, 1, 1, 0, 1, 0, 2,
-	1, 2, 4, 0, 2, 1, 3, 5, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 2, 2, 0,
-	3, 0, 2, 0, 3, 1, 3, 2, 0, 1,
-	1, 0, 2, 4, 4, 0, 2, 4, 2, 1,
-	3, 5, 4, 6, 1, 3, 3, 5, 0, 5,
-	1, 3, 1, 2, 3, 1, 1, 3, 3, 1,
-	3, 3, 3, 3, 3, 1, 2, 1, 1, 1,
-	1, 1, 1, 0, 2, 0, 3, 0, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 1, 1, 0,
+	3, 3, 3, 3, 2, 2, 2, 2, 2, 2,
+	3, 3, 1, 1, 1, 1, 4, 5, 6, 4,
+	4, 6, 6, 6, 6, 8, 8, 6, 8, 8,
+	9, 7, 5, 4, 2, 2, 2, 2, 2, 2,
+	2, 2, 2, 0, 2, 4, 4, 4, 4, 0,
+	3, 4, 7, 3, 1, 1, 2, 3, 3, 1,
+	2, 2, 1, 1, 2, 1, 2, 2, 1, 2,
+	1, 2, 1, 1, 1, 1, 1, 0, 1, 0,
+	2, 1, 2, 4, 0, 2, 1, 3, 5, 1,
+	1, 1, 1, 1, 1, 1, 1, 1, 2, 2,
+	0, 3, 0, 2, 0, 3, 1, 3, 2, 0,
+	1, 1, 0, 2, 4, 4, 0, 2, 4, 2,
+	1, 3, 5, 4, 6, 1, 3, 3, 5, 0,
+	5, 1, 3, 1, 2, 3, 1, 1, 3, 3,
+	1, 3, 3, 3, 3, 3, 1, 2, 1, 1,
+	1, 1, 1, 1, 0, 2, 0, 3, 0, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
+	0, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
@@ -2663,7 +2653,7 @@ var yyR2 = [...]int{
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 0, 0, 1, 1,
+	1, 1, 1, 1, 1, 0, 0, 1, 1,
 }
 
 var yyChk = [...]int{
@@ -2816,202 +2806,202 @@ var yyChk = [...]int{
 	-208, 57, 135, -72, 32, -2, -207, -117, -117, 53,
 	54, -208, -208, -208, -54, -174, -176, 291, -175, 51,
 	132, 64, 164, 165, 166, 167, 168, 169, 170, -171,
-	-85, -197, 50, 66, 158, -197, 50, -161, -117, -196,
-	-207, -208, 54, 52, 58, 54, -149, -149, -149, -146,
-	-146, 54, 54, -172, -117, -51, -162, -117, 173, -203,
-	-204, -7, -9, -8, 52, -89, -207, 125, -81, 14,
-	16, -208, -208, -208, -208, -31, 90, 291, 9, -70,
-	-2, 109, -117, -173, 50, -175, 291, 52, 293, 55,
-	-164, 80, 57, 80, 80, 80, 80, 80, 80, 80,
-	9, 10, 52, 52, -37, -193, 157, -195, 54, 54,
-	54, 52, 52, -190, 53, 51, 174, -204, -172, 54,
-	-178, -179, 145, 135, -37, -69, -208, 289, 47, 294,
-	-94, -208, -117, -117, -177, -175, -117, 58, -200, 50,
-	69, 58, -200, -200, -200, -200, -200, -160, -160, -162,
-	-172, -208, 286, 54, 176, 301, 302, 144, 303, 157,
-	304, 305, -90, 310, -172, -172, -191, 291, -117, -37,
-	-204, 54, -185, -208, 53, -117, 52, 37, 290, 295,
-	-207, 54, 53, -197, -197, 54, 54, 291, 58, 16,
-	58, 58, 58, 58, 302, 144, 304, 16, -55, 52,
-	54, 54, 312, -183, -179, 32, -172, 37, -117, -175,
-	128, -174, 58, 58, 306, -123, -174, -89, -55, -174,
-	-37, 147, 54, 291, -208, -51, -173, 109, -173, 54,
-	-174, 148, 294, 52, -118, -207, 295, -162, -61, 144,
-	54, -208, -208,
+	-85, -197, 50, 66, 28, 158, -197, 50, -161, -117,
+	-196, -207, -208, 54, 52, 58, 54, -149, -149, -149,
+	-146, -146, 54, 54, -172, -117, -51, -162, -117, 173,
+	-203, -204, -7, -9, -8, 52, -89, -207, 125, -81,
+	14, 16, -208, -208, -208, -208, -31, 90, 291, 9,
+	-70, -2, 109, -117, -173, 50, -175, 291, 52, 293,
+	55, -164, 80, 57, 80, 80, 80, 80, 80, 80,
+	80, 9, 10, 52, 52, -37, -193, 157, -195, 54,
+	54, 54, 52, 52, -190, 53, 51, 174, -204, -172,
+	54, -178, -179, 145, 135, -37, -69, -208, 289, 47,
+	294, -94, -208, -117, -117, -177, -175, -117, 58, -200,
+	50, 69, 58, -200, -200, -200, -200, -200, -160, -160,
+	-162, -172, -208, 286, 54, 176, 301, 302, 144, 303,
+	157, 304, 305, -90, 310, -172, -172, -191, 291, -117,
+	-37, -204, 54, -185, -208, 53, -117, 52, 37, 290,
+	295, -207, 54, 53, -197, -197, 54, 54, 291, 58,
+	16, 58, 58, 58, 58, 302, 144, 304, 16, -55,
+	52, 54, 54, 312, -183, -179, 32, -172, 37, -117,
+	-175, 128, -174, 58, 58, 306, -123, -174, -89, -55,
+	-174, -37, 147, 54, 291, -208, -51, -173, 109, -173,
+	54, -174, 148, 294, 52, -118, -207, 295, -162, -61,
+	144, 54, -208, -208,
 }
 
 var yyDef = [...]int{
 	0, -2, 2, -2, 5, 6, 7, 8, 9, 10,
 	11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
-	21, 673, 0, 429, 429, 429, 429, 429, 429, 0,
-	-2, 727, 0, 0, 0, 0, -2, 419, 420, 0,
-	422, 423, 994, 994, 994, 994, 994, 0, 33, 34,
-	992, 1, 3, 681, 0, 0, 433, 436, 431, 0,
-	727, 0, 0, 0, 60, 0, 316, 0, 0, 725,
-	725, 0, 0, 725, 95, 0, 0, 0, 728, 0,
-	723, 0, 723, 723, 723, 0, 378, 501, 748, 749,
-	859, 860, 861, 862, 863, 864, 865, 866, 867, 868,
-	869, 870, 871, 872, 873, 874, 875, 876, 877, 878,
-	879, 880, 881, 882, 883, 884, 885, 886, 887, 888,
-	889, 890, 891, 892, 893, 894, 895, 896, 897, 898,
-	899, 900, 901, 902, 903, 904, 905, 906, 907, 908,
-	909, 910, 911, 912, 913, 914, 915, 916, 917, 918,
-	919, 920, 921, 922, 923, 924, 925, 926, 927, 928,
-	929, 930, 931, 932, 933, 934, 935, 936, 937, 938,
-	939, 940, 941, 942, 943, 944, 945, 946, 947, 948,
-	949, 950, 951, 952, 953, 954, 955, 956, 957, 958,
-	959, 960, 961, 962, 963, 964, 965, 966, 967, 968,
-	969, 970, 971, 972, 973, 974, 975, 976, 977, 978,
-	979, 980, 981, 982, 983, 984, 985, 986, 987, 988,
-	989, 990, 991, 0, 0, 0, 0, 995, 995, 995,
-	995, 0, 995, 407, 396, 398, 399, 400, 401, 995,
-	416, 417, 406, 418, 421, 424, 425, 426, 427, 428,
-	27, 685, 0, 0, 673, 29, 0, 429, 434, 435,
-	439, 437, 438, 430, 0, 447, 451, 0, 511, 0,
-	516, 518, -2, -2, 0, 553, 554, 555, 556, 557,
-	0, 0, 0, 0, 0, 0, 0, 581, 582, 583,
-	584, 658, 659, 660, 661, 662, 663, 664, 665, 520,
-	521, 655, 705, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 646, 0, 612, 612, 612, 612, 612, 612,
-	612, 612, 0, 0, 0, 0, 0, 0, 0, 458,
-	460, 461, 462, 482, 0, 484, 0, 0, 41, 45,
-	0, 961, 709, -2, -2, 0, 0, 746, 747, -2,
-	871, -2, 744, 745, 752, 753, 754, 755, 756, 757,
-	758, 759, 760, 761, 762, 763, 764, 765, 766, 767,
-	768, 769, 770, 771, 772, 773, 774, 775, 776, 777,
-	778, 779, 780, 781, 782, 783, 784, 785, 786, 787,
-	788, 789, 790, 791, 792, 793, 794, 795, 796, 797,
-	798, 799, 800, 801, 802, 803, 804, 805, 806, 807,
-	808, 809, 810, 811, 812, 813, 814, 815, 816, 817,
-	818, 819, 820, 821, 822, 823, 824, 825, 826, 827,
-	828, 829, 830, 831, 832, 833, 834, 835, 836, 837,
-	838, 839, 840, 841, 842, 843, 844, 845, 846, 847,
-	848, 849, 850, 851, 852, 853, 854, 855, 856, 857,
-	858, 0, 108, 0, 0, 317, 318, 0, 96, 0,
-	0, 0, 0, 0, 0, 105, 0, 995, 0, 0,
-	0, 0, 0, 0, 0, 377, 0, 379, 995, 995,
-	995, 995, 995, 995, 995, 995, 388, 996, 997, 389,
-	390, 391, 995, 995, 393, 0, 408, 0, 402, 28,
-	993, 22, 0, 0, 682, 0, 674, 675, 678, 681,
-	27, 436, 0, 441, 440, 432, 0, 448, 0, 0,
-	0, 452, 0, 454, 455, 0, 514, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 538, 539, 540,
-	541, 542, 543, 544, 517, 0, 531, 0, 0, 0,
-	573, 574, 575, 576, 577, 578, 0, 443, 27, 0,
-	551, 0, 0, 0, 0, 0, 0, 0, 0, 439,
-	0, 647, 0, 603, 0, 604, 605, 606, 607, 608,
-	609, 610, 611, 639, 0, 641, 642, 643, 644, 645,
+	21, 674, 0, 430, 430, 430, 430, 430, 430, 0,
+	-2, 728, 0, 0, 0, 0, -2, 420, 421, 0,
+	423, 424, 995, 995, 995, 995, 995, 0, 33, 34,
+	993, 1, 3, 682, 0, 0, 434, 437, 432, 0,
+	728, 0, 0, 0, 60, 0, 317, 0, 0, 726,
+	726, 0, 0, 726, 95, 0, 0, 0, 729, 0,
+	724, 0, 724, 724, 724, 0, 379, 502, 749, 750,
+	860, 861, 862, 863, 864, 865, 866, 867, 868, 869,
+	870, 871, 872, 873, 874, 875, 876, 877, 878, 879,
+	880, 881, 882, 883, 884, 885, 886, 887, 888, 889,
+	890, 891, 892, 893, 894, 895, 896, 897, 898, 899,
+	900, 901, 902, 903, 904, 905, 906, 907, 908, 909,
+	910, 911, 912, 913, 914, 915, 916, 917, 918, 919,
+	920, 921, 922, 923, 924, 925, 926, 927, 928, 929,
+	930, 931, 932, 933, 934, 935, 936, 937, 938, 939,
+	940, 941, 942, 943, 944, 945, 946, 947, 948, 949,
+	950, 951, 952, 953, 954, 955, 956, 957, 958, 959,
+	960, 961, 962, 963, 964, 965, 966, 967, 968, 969,
+	970, 971, 972, 973, 974, 975, 976, 977, 978, 979,
+	980, 981, 982, 983, 984, 985, 986, 987, 988, 989,
+	990, 991, 992, 0, 0, 0, 0, 996, 996, 996,
+	996, 0, 996, 408, 397, 399, 400, 401, 402, 996,
+	417, 418, 407, 419, 422, 425, 426, 427, 428, 429,
+	27, 686, 0, 0, 674, 29, 0, 430, 435, 436,
+	440, 438, 439, 431, 0, 448, 452, 0, 512, 0,
+	517, 519, -2, -2, 0, 554, 555, 556, 557, 558,
+	0, 0, 0, 0, 0, 0, 0, 582, 583, 584,
+	585, 659, 660, 661, 662, 663, 664, 665, 666, 521,
+	522, 656, 706, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 647, 0, 613, 613, 613, 613, 613, 613,
+	613, 613, 0, 0, 0, 0, 0, 0, 0, 459,
+	461, 462, 463, 483, 0, 485, 0, 0, 41, 45,
+	0, 962, 710, -2, -2, 0, 0, 747, 748, -2,
+	872, -2, 745, 746, 753, 754, 755, 756, 757, 758,
+	759, 760, 761, 762, 763, 764, 765, 766, 767, 768,
+	769, 770, 771, 772, 773, 774, 775, 776, 777, 778,
+	779, 780, 781, 782, 783, 784, 785, 786, 787, 788,
+	789, 790, 791, 792, 793, 794, 795, 796, 797, 798,
+	799, 800, 801, 802, 803, 804, 805, 806, 807, 808,
+	809, 810, 811, 812, 813, 814, 815, 816, 817, 818,
+	819, 820, 821, 822, 823, 824, 825, 826, 827, 828,
+	829, 830, 831, 832, 833, 834, 835, 836, 837, 838,
+	839, 840, 841, 842, 843, 844, 845, 846, 847, 848,
+	849, 850, 851, 852, 853, 854, 855, 856, 857, 858,
+	859, 0, 108, 0, 0, 318, 319, 0, 96, 0,
+	0, 0, 0, 0, 0, 105, 0, 996, 0, 0,
+	0, 0, 0, 0, 0, 378, 0, 380, 996, 996,
+	996, 996, 996, 996, 996, 996, 389, 997, 998, 390,
+	391, 392, 996, 996, 394, 0, 409, 0, 403, 28,
+	994, 22, 0, 0, 683, 0, 675, 676, 679, 682,
+	27, 437, 0, 442, 441, 433, 0, 449, 0, 0,
+	0, 453, 0, 455, 456, 0, 515, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 539, 540, 541,
+	542, 543, 544, 545, 518, 0, 532, 0, 0, 0,
+	574, 575, 576, 577, 578, 579, 0, 444, 27, 0,
+	552, 0, 0, 0, 0, 0, 0, 0, 0, 440,
+	0, 648, 0, 604, 0, 605, 606, 607, 608, 609,
+	610, 611, 612, 640, 0, 642, 643, 644, 645, 646,
 	181, 182, 183, 184, 185, 186, 187, 188, 189, 190,
-	207, 208, 0, 443, 0, 0, 43, 0, 500, 0,
-	0, 0, 0, 0, 0, 489, 0, 0, 492, 0,
-	0, 0, 0, 483, 0, 0, 503, 925, 485, 0,
-	487, 488, -2, 0, 0, 0, 39, 40, 0, 46,
-	961, 48, 49, 0, 0, 0, 262, 718, 719, 720,
-	716, 325, 0, 113, 256, 252, 115, 116, 117, 118,
+	207, 208, 0, 444, 0, 0, 43, 0, 501, 0,
+	0, 0, 0, 0, 0, 490, 0, 0, 493, 0,
+	0, 0, 0, 484, 0, 0, 504, 926, 486, 0,
+	488, 489, -2, 0, 0, 0, 39, 40, 0, 46,
+	962, 48, 49, 0, 0, 0, 262, 719, 720, 721,
+	717, 326, 0, 113, 256, 252, 115, 116, 117, 118,
 	242, 180, 242, 242, 242, 242, 242, 214, 242, 242,
 	259, 259, 259, 259, 259, 223, 224, 225, 226, 227,
 	228, 229, 0, 0, 199, 242, 242, 242, 203, 242,
 	205, 206, 232, 233, 234, 235, 236, 237, 238, 239,
 	244, 244, 244, 246, 246, 197, 198, 0, 0, 99,
-	0, 995, 0, 995, 0, 0, 0, 71, 72, 106,
-	0, 0, 344, 0, 372, 724, 0, 995, 375, 376,
-	502, 750, 751, 380, 381, 382, 383, 384, 385, 386,
-	387, 392, 395, 409, 403, 404, 397, 686, 0, 0,
-	0, 0, 0, 677, 679, 680, 685, 30, 439, 0,
-	666, 0, 0, 0, 442, 25, 512, 513, 515, 532,
-	0, 534, 536, 453, 449, 0, 656, -2, 522, 523,
-	547, 548, 549, 0, 0, 0, 0, 545, 527, 0,
-	558, 559, 560, 561, 562, 563, 564, 565, 566, 567,
-	568, 569, 572, 623, 624, 580, 0, 570, 571, 579,
-	0, 0, 444, 445, 550, 0, 704, 27, 0, 0,
-	0, 0, 0, 655, 0, 0, 0, 0, 653, 650,
-	0, 0, 613, 640, 0, 0, 0, 0, 0, 0,
-	499, 507, 706, 0, 459, 478, 480, 0, 475, 490,
-	491, 493, 0, 495, 0, 497, 498, 463, 464, 465,
-	0, 0, 0, 0, 486, 507, 0, 507, 42, 710,
-	47, 0, 0, 52, 53, 711, 712, 713, 714, 263,
-	0, 107, 326, 328, 331, 332, 333, 109, 110, 111,
-	112, 0, 319, 321, 0, 0, 0, 0, 0, 299,
+	0, 996, 0, 996, 0, 0, 0, 71, 72, 106,
+	0, 0, 345, 0, 373, 725, 0, 996, 376, 377,
+	503, 751, 752, 381, 382, 383, 384, 385, 386, 387,
+	388, 393, 396, 410, 404, 405, 398, 687, 0, 0,
+	0, 0, 0, 678, 680, 681, 686, 30, 440, 0,
+	667, 0, 0, 0, 443, 25, 513, 514, 516, 533,
+	0, 535, 537, 454, 450, 0, 657, -2, 523, 524,
+	548, 549, 550, 0, 0, 0, 0, 546, 528, 0,
+	559, 560, 561, 562, 563, 564, 565, 566, 567, 568,
+	569, 570, 573, 624, 625, 581, 0, 571, 572, 580,
+	0, 0, 445, 446, 551, 0, 705, 27, 0, 0,
+	0, 0, 0, 656, 0, 0, 0, 0, 654, 651,
+	0, 0, 614, 641, 0, 0, 0, 0, 0, 0,
+	500, 508, 707, 0, 460, 479, 481, 0, 476, 491,
+	492, 494, 0, 496, 0, 498, 499, 464, 465, 466,
+	0, 0, 0, 0, 487, 508, 0, 508, 42, 711,
+	47, 0, 0, 52, 53, 712, 713, 714, 715, 263,
+	0, 107, 327, 329, 332, 333, 334, 109, 110, 111,
+	112, 0, 320, 322, 0, 0, 0, 0, 0, 299,
 	300, 120, 0, 122, 0, 0, 125, 126, 0, 128,
-	130, 319, 0, 0, 0, 0, 0, 119, 0, 258,
+	130, 320, 0, 0, 0, 0, 0, 119, 0, 258,
 	254, 253, 179, 0, 259, 259, 242, 259, 259, 259,
 	216, 217, 262, 0, 262, 262, 262, 262, 0, 0,
 	249, 249, 202, 204, 191, 0, 244, 193, 194, 195,
-	0, 196, 0, 0, 65, 0, 97, 98, 66, 726,
-	67, 81, 0, 73, 74, 75, 0, 994, 94, 0,
-	739, 345, 729, 730, 731, 732, 733, 734, 735, 736,
-	737, 738, 0, 0, 371, 995, 374, 412, 0, 0,
-	0, 683, 684, 0, 676, 23, 0, 721, 722, 667,
-	668, 456, 533, 535, 537, 0, 443, 524, 545, 528,
-	0, 525, 0, 0, 519, 585, 0, 0, 552, -2,
-	588, 589, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 673, 0, 651, 0, 0, 602, 614, 615, 616,
-	617, 698, 0, 0, -2, 0, 0, 673, 0, 0,
-	0, 472, 479, 0, 0, 473, 0, 474, 494, 496,
-	0, 0, 0, 0, 470, 673, 507, 38, 50, 51,
-	0, 0, 57, 264, 0, 329, 0, 0, 305, 0,
-	0, 0, 322, 291, 0, 0, 294, 0, 296, 316,
+	0, 196, 0, 0, 65, 0, 97, 98, 66, 727,
+	67, 81, 0, 73, 74, 75, 0, 995, 94, 0,
+	740, 346, 730, 731, 732, 733, 734, 735, 736, 737,
+	738, 739, 0, 0, 372, 996, 375, 413, 0, 0,
+	0, 684, 685, 0, 677, 23, 0, 722, 723, 668,
+	669, 457, 534, 536, 538, 0, 444, 525, 546, 529,
+	0, 526, 0, 0, 520, 586, 0, 0, 553, -2,
+	589, 590, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 674, 0, 652, 0, 0, 603, 615, 616, 617,
+	618, 699, 0, 0, -2, 0, 0, 674, 0, 0,
+	0, 473, 480, 0, 0, 474, 0, 475, 495, 497,
+	0, 0, 0, 0, 471, 674, 508, 38, 50, 51,
+	0, 0, 57, 264, 0, 330, 0, 0, 305, 0,
+	0, 0, 323, 291, 0, 0, 294, 0, 296, 317,
 	121, 0, 0, 0, 127, 129, 0, 133, 134, 0,
 	151, 0, 0, 140, 0, 175, 144, 145, 146, 147,
 	175, 149, 0, 242, 242, 171, 0, 257, 114, 255,
 	0, 262, 262, 259, 262, 262, 262, 218, 0, 219,
 	220, 221, 222, 0, 240, 0, 200, 0, 0, 201,
 	0, 192, 0, 0, 0, -2, 100, 101, 0, 84,
-	0, 0, 0, 334, 0, 994, 0, 359, 360, 361,
-	362, 363, 364, 365, 994, 0, 346, 347, 348, 349,
-	350, 351, 352, 353, 354, 355, 356, 0, 994, 740,
-	741, 742, 743, 0, 0, 373, 394, 0, 0, 410,
-	411, 687, 0, 24, 507, 0, 450, 657, 0, 526,
-	0, 546, 529, 586, 446, 0, 242, 242, 628, 242,
-	246, 631, 632, 242, 634, 242, 637, 0, 0, 0,
-	0, 656, 0, 0, 0, 648, 601, 654, 0, 31,
-	0, 698, 688, 700, 702, 0, 27, 0, 694, 0,
-	681, 707, 508, 708, 476, 0, 481, 0, 0, 0,
-	484, 0, 681, 37, 54, 55, 56, 327, 330, 0,
+	0, 0, 0, 335, 0, 995, 0, 360, 361, 362,
+	363, 364, 365, 366, 995, 0, 347, 348, 349, 350,
+	351, 352, 353, 354, 355, 356, 357, 0, 995, 741,
+	742, 743, 744, 0, 0, 374, 395, 0, 0, 411,
+	412, 688, 0, 24, 508, 0, 451, 658, 0, 527,
+	0, 547, 530, 587, 447, 0, 242, 242, 629, 242,
+	246, 632, 633, 242, 635, 242, 638, 0, 0, 0,
+	0, 657, 0, 0, 0, 649, 602, 655, 0, 31,
+	0, 699, 689, 701, 703, 0, 27, 0, 695, 0,
+	682, 708, 509, 709, 477, 0, 482, 0, 0, 0,
+	485, 0, 682, 37, 54, 55, 56, 328, 331, 0,
 	301, 242, 242, 0, 0, 0, 0, 0, 292, 293,
-	295, 297, 316, 139, 123, 319, 124, 0, 0, 0,
+	295, 297, 317, 139, 123, 320, 124, 0, 0, 0,
 	152, 0, 0, 0, 143, 0, 148, 0, 167, 0,
 	169, 0, 0, 243, 209, 210, 262, 211, 212, 213,
 	260, 261, 259, 0, 259, 0, 0, 0, 247, 0,
 	0, 0, 0, 0, 0, 0, 82, 83, 0, 0,
-	0, 357, 358, 338, 0, 339, 341, 342, 343, 0,
-	321, 337, 413, 414, 669, 457, 587, 530, 590, 625,
-	259, 629, 630, 633, 635, 636, 638, 592, 591, 593,
-	0, 0, 596, 0, 0, 0, 0, 0, 652, 0,
-	32, 0, 703, -2, 0, 0, 0, 44, 35, 0,
-	467, 468, 0, 0, 0, 503, 471, 36, 266, 0,
-	678, 304, 319, 311, 312, 0, 0, 319, 320, 321,
-	316, 298, 0, 0, 0, 136, 0, 141, 0, 256,
+	0, 358, 359, 339, 0, 340, 342, 343, 344, 0,
+	322, 338, 414, 415, 670, 458, 588, 531, 591, 626,
+	259, 630, 631, 634, 636, 637, 639, 593, 592, 594,
+	0, 0, 597, 0, 0, 0, 0, 0, 653, 0,
+	32, 0, 704, -2, 0, 0, 0, 44, 35, 0,
+	468, 469, 0, 0, 0, 504, 472, 36, 266, 0,
+	679, 304, 320, 311, 312, 0, 0, 320, 321, 322,
+	317, 298, 0, 0, 0, 136, 0, 141, 0, 256,
 	256, 256, 150, 168, 170, 172, 215, 262, 241, 262,
 	250, 251, 0, 0, 0, 0, 0, 102, 103, 0,
 	85, 86, 87, 88, 89, 0, 0, 0, 0, 0,
-	322, 671, 0, 626, 627, 0, 0, 0, 0, 618,
-	600, 649, 0, 701, 0, -2, 0, 696, 695, 0,
-	477, 504, 505, 506, 466, 288, 267, 0, 269, 0,
+	323, 672, 0, 627, 628, 0, 0, 0, 0, 619,
+	601, 650, 0, 702, 0, -2, 0, 697, 696, 0,
+	478, 505, 506, 507, 467, 288, 267, 0, 269, 0,
 	284, 0, 0, 0, 0, 0, 0, 0, 0, 302,
-	303, 306, 0, 313, 314, 307, 0, 0, 322, 0,
-	0, 173, 135, 153, 0, 0, 176, 177, 178, 230,
-	231, 245, 248, 0, 0, 0, 90, 323, 0, 70,
-	76, 78, 79, 80, 0, 0, 0, 0, 26, 0,
-	0, 594, 595, 597, 598, 0, 0, 0, 0, 691,
-	27, 0, 469, 265, 0, 270, 0, 0, 0, 273,
-	0, 285, 275, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 131, 0, 0, 138, 142,
-	509, 0, 0, 92, 0, 0, 0, 77, 0, 96,
-	0, 367, 0, 0, 672, 670, 599, 0, 0, 0,
-	699, -2, 697, 289, 0, 271, 276, 274, 277, 286,
-	287, 278, 279, 280, 281, 282, 283, 319, 319, 0,
-	0, 132, 174, 137, 0, 0, 0, 0, 0, 0,
-	164, 0, 507, 0, 0, 0, 68, 0, 324, 91,
-	69, 335, 99, 366, 0, 0, 0, 619, 0, 622,
-	0, 268, 0, 308, 309, 0, 266, 0, 155, 0,
-	157, 158, 159, 160, 161, 162, 163, 0, 266, 0,
-	507, 266, 0, 340, 368, 0, 0, 620, 0, 272,
-	0, 288, 154, 156, 165, 0, 288, 0, 266, 62,
-	93, 0, 336, 0, 290, 0, 315, 0, 61, 510,
-	63, 0, 0, 0, 166, 0, 621, 0, 0, 0,
-	310, 369, 370,
+	303, 306, 0, 313, 315, 314, 307, 0, 0, 323,
+	0, 0, 173, 135, 153, 0, 0, 176, 177, 178,
+	230, 231, 245, 248, 0, 0, 0, 90, 324, 0,
+	70, 76, 78, 79, 80, 0, 0, 0, 0, 26,
+	0, 0, 595, 596, 598, 599, 0, 0, 0, 0,
+	692, 27, 0, 470, 265, 0, 270, 0, 0, 0,
+	273, 0, 285, 275, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 131, 0, 0, 138,
+	142, 510, 0, 0, 92, 0, 0, 0, 77, 0,
+	96, 0, 368, 0, 0, 673, 671, 600, 0, 0,
+	0, 700, -2, 698, 289, 0, 271, 276, 274, 277,
+	286, 287, 278, 279, 280, 281, 282, 283, 320, 320,
+	0, 0, 132, 174, 137, 0, 0, 0, 0, 0,
+	0, 164, 0, 508, 0, 0, 0, 68, 0, 325,
+	91, 69, 336, 99, 367, 0, 0, 0, 620, 0,
+	623, 0, 268, 0, 308, 309, 0, 266, 0, 155,
+	0, 157, 158, 159, 160, 161, 162, 163, 0, 266,
+	0, 508, 266, 0, 341, 369, 0, 0, 621, 0,
+	272, 0, 288, 154, 156, 165, 0, 288, 0, 266,
+	62, 93, 0, 337, 0, 290, 0, 316, 0, 61,
+	511, 63, 0, 0, 0, 166, 0, 622, 0, 0,
+	0, 310, 370, 371,
 }
 
 var yyTok1 = [...]int{
@@ -5282,37 +5272,44 @@ yydefault:
 				ConstraintName:   yyDollar[2].colIdent,
 				IndexName:        yyDollar[5].colIdent,
 				IndexColumns:     yyDollar[7].colIdents,
+				ReferenceSchema:  yyDollar[10].tableName.Qualifier,
 				ReferenceName:    NewColIdent(yyDollar[10].tableName.Name.String()),
 				ReferenceColumns: yyDollar[12].colIdents,
 			}
 		}
 	case 311:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1819
+//line sqlparser/parser.y:1820
 		{
 			yyVAL.colIdent = NewColIdent("RESTRICT")
 		}
 	case 312:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1823
+//line sqlparser/parser.y:1824
 		{
 			yyVAL.colIdent = NewColIdent("CASCADE")
 		}
 	case 313:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1827
+//line sqlparser/parser.y:1828
 		{
 			yyVAL.colIdent = NewColIdent("SET NULL")
 		}
 	case 314:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1831
+//line sqlparser/parser.y:1832
 		{
 			yyVAL.colIdent = NewColIdent("NO ACTION")
 		}
 	case 315:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:1836
+		{
+			yyVAL.colIdent = NewColIdent("SET DEFAULT")
+		}
+	case 316:
 		yyDollar = yyS[yypt-10 : yypt+1]
-//line sqlparser/parser.y:1837
+//line sqlparser/parser.y:1842
 		{
 			yyVAL.indexDefinition = &IndexDefinition{
 				Info:      &IndexInfo{Type: string(yyDollar[3].bytes) + " " + string(yyDollar[4].bytes), Name: yyDollar[2].colIdent, Primary: true, Unique: true, Clustered: yyDollar[5].boolVal},
@@ -5321,117 +5318,117 @@ yydefault:
 				Partition: yyDollar[10].indexPartition,
 			}
 		}
-	case 316:
+	case 317:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1848
+//line sqlparser/parser.y:1853
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 317:
+	case 318:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1852
+//line sqlparser/parser.y:1857
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 318:
+	case 319:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1856
+//line sqlparser/parser.y:1861
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 319:
+	case 320:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1862
+//line sqlparser/parser.y:1867
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 320:
+	case 321:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1866
+//line sqlparser/parser.y:1871
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 321:
+	case 322:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1871
+//line sqlparser/parser.y:1876
 		{
 			yyVAL.colIdent = NewColIdent("")
 		}
-	case 323:
+	case 324:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1878
+//line sqlparser/parser.y:1883
 		{
 			yyVAL.colIdents = []ColIdent{yyDollar[1].colIdent}
 		}
-	case 324:
+	case 325:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1882
+//line sqlparser/parser.y:1887
 		{
 			yyVAL.colIdents = append(yyDollar[1].colIdents, yyDollar[3].colIdent)
 		}
-	case 325:
+	case 326:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1887
+//line sqlparser/parser.y:1892
 		{
 			yyVAL.str = ""
 		}
-	case 326:
+	case 327:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1891
+//line sqlparser/parser.y:1896
 		{
 			yyVAL.str = " " + string(yyDollar[1].str)
 		}
-	case 327:
+	case 328:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1895
+//line sqlparser/parser.y:1900
 		{
 			yyVAL.str = string(yyDollar[1].str) + ", " + string(yyDollar[3].str)
 		}
-	case 328:
+	case 329:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1903
+//line sqlparser/parser.y:1908
 		{
 			yyVAL.str = yyDollar[1].str
 		}
-	case 329:
+	case 330:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1907
+//line sqlparser/parser.y:1912
 		{
 			yyVAL.str = yyDollar[1].str + " " + yyDollar[2].str
 		}
-	case 330:
+	case 331:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1911
+//line sqlparser/parser.y:1916
 		{
 			yyVAL.str = yyDollar[1].str + "=" + yyDollar[3].str
 		}
-	case 331:
+	case 332:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1917
+//line sqlparser/parser.y:1922
 		{
 			yyVAL.str = yyDollar[1].colIdent.String()
 		}
-	case 332:
+	case 333:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1921
+//line sqlparser/parser.y:1926
 		{
 			yyVAL.str = "'" + string(yyDollar[1].bytes) + "'"
 		}
-	case 333:
+	case 334:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1925
+//line sqlparser/parser.y:1930
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 334:
+	case 335:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1931
+//line sqlparser/parser.y:1936
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 335:
+	case 336:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line sqlparser/parser.y:1935
+//line sqlparser/parser.y:1940
 		{
 			yyVAL.statement = &DDL{
 				Action:  AddIndexStr,
@@ -5445,9 +5442,9 @@ yydefault:
 				IndexCols: yyDollar[10].indexColumns,
 			}
 		}
-	case 336:
+	case 337:
 		yyDollar = yyS[yypt-13 : yypt+1]
-//line sqlparser/parser.y:1949
+//line sqlparser/parser.y:1954
 		{
 			yyVAL.statement = &DDL{
 				Action:  AddPrimaryKeyStr,
@@ -5461,9 +5458,9 @@ yydefault:
 				IndexCols: yyDollar[12].indexColumns,
 			}
 		}
-	case 337:
+	case 338:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1963
+//line sqlparser/parser.y:1968
 		{
 			yyVAL.statement = &DDL{
 				Action:     AddForeignKeyStr,
@@ -5472,21 +5469,21 @@ yydefault:
 				ForeignKey: yyDollar[7].foreignKeyDefinition,
 			}
 		}
-	case 338:
+	case 339:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1972
+//line sqlparser/parser.y:1977
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 339:
+	case 340:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1976
+//line sqlparser/parser.y:1981
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 340:
+	case 341:
 		yyDollar = yyS[yypt-12 : yypt+1]
-//line sqlparser/parser.y:1980
+//line sqlparser/parser.y:1985
 		{
 			yyVAL.statement = &DDL{
 				Action: AddColVindexStr,
@@ -5499,9 +5496,9 @@ yydefault:
 				VindexCols: yyDollar[9].columns,
 			}
 		}
-	case 341:
+	case 342:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1993
+//line sqlparser/parser.y:1998
 		{
 			yyVAL.statement = &DDL{
 				Action: DropColVindexStr,
@@ -5511,71 +5508,71 @@ yydefault:
 				},
 			}
 		}
-	case 342:
+	case 343:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2003
+//line sqlparser/parser.y:2008
 		{
 			// Change this to a rename statement
 			yyVAL.statement = &DDL{Action: RenameStr, Table: yyDollar[4].tableName, NewName: yyDollar[7].tableName}
 		}
-	case 343:
+	case 344:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2008
+//line sqlparser/parser.y:2013
 		{
 			// Rename an index can just be an alter
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 344:
+	case 345:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2013
+//line sqlparser/parser.y:2018
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[3].tableName.ToViewName(), NewName: yyDollar[3].tableName.ToViewName()}
 		}
-	case 345:
+	case 346:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2017
+//line sqlparser/parser.y:2022
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, PartitionSpec: yyDollar[5].partSpec}
 		}
-	case 366:
+	case 367:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2049
+//line sqlparser/parser.y:2054
 		{
 			yyVAL.partSpec = &PartitionSpec{Action: ReorganizeStr, Name: yyDollar[3].colIdent, Definitions: yyDollar[6].partDefs}
 		}
-	case 367:
+	case 368:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2055
+//line sqlparser/parser.y:2060
 		{
 			yyVAL.partDefs = []*PartitionDefinition{yyDollar[1].partDef}
 		}
-	case 368:
+	case 369:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2059
+//line sqlparser/parser.y:2064
 		{
 			yyVAL.partDefs = append(yyDollar[1].partDefs, yyDollar[3].partDef)
 		}
-	case 369:
+	case 370:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:2065
+//line sqlparser/parser.y:2070
 		{
 			yyVAL.partDef = &PartitionDefinition{Name: yyDollar[2].colIdent, Limit: yyDollar[7].expr}
 		}
-	case 370:
+	case 371:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:2069
+//line sqlparser/parser.y:2074
 		{
 			yyVAL.partDef = &PartitionDefinition{Name: yyDollar[2].colIdent, Maxvalue: true}
 		}
-	case 371:
+	case 372:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2075
+//line sqlparser/parser.y:2080
 		{
 			yyVAL.statement = &DDL{Action: RenameStr, Table: yyDollar[3].tableName, NewName: yyDollar[5].tableName}
 		}
-	case 372:
+	case 373:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2081
+//line sqlparser/parser.y:2086
 		{
 			var exists bool
 			if yyDollar[3].byt != 0 {
@@ -5583,16 +5580,16 @@ yydefault:
 			}
 			yyVAL.statement = &DDL{Action: DropStr, Table: yyDollar[4].tableName, IfExists: exists}
 		}
-	case 373:
+	case 374:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2089
+//line sqlparser/parser.y:2094
 		{
 			// Change this to an alter statement
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[5].tableName, NewName: yyDollar[5].tableName}
 		}
-	case 374:
+	case 375:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2094
+//line sqlparser/parser.y:2099
 		{
 			var exists bool
 			if yyDollar[3].byt != 0 {
@@ -5600,51 +5597,45 @@ yydefault:
 			}
 			yyVAL.statement = &DDL{Action: DropStr, Table: yyDollar[4].tableName.ToViewName(), IfExists: exists}
 		}
-	case 375:
+	case 376:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2102
+//line sqlparser/parser.y:2107
 		{
 			yyVAL.statement = &DBDDL{Action: DropStr, DBName: string(yyDollar[4].bytes)}
 		}
-	case 376:
+	case 377:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2106
+//line sqlparser/parser.y:2111
 		{
 			yyVAL.statement = &DBDDL{Action: DropStr, DBName: string(yyDollar[4].bytes)}
 		}
-	case 377:
+	case 378:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2112
+//line sqlparser/parser.y:2117
 		{
 			yyVAL.statement = &DDL{Action: TruncateStr, Table: yyDollar[3].tableName}
 		}
-	case 378:
+	case 379:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2116
+//line sqlparser/parser.y:2121
 		{
 			yyVAL.statement = &DDL{Action: TruncateStr, Table: yyDollar[2].tableName}
 		}
-	case 379:
+	case 380:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2121
+//line sqlparser/parser.y:2126
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[3].tableName, NewName: yyDollar[3].tableName}
 		}
-	case 380:
-		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2127
-		{
-			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
-		}
 	case 381:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2131
+//line sqlparser/parser.y:2132
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 382:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2135
+//line sqlparser/parser.y:2136
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
@@ -5656,67 +5647,73 @@ yydefault:
 		}
 	case 384:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2144
+//line sqlparser/parser.y:2145
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 385:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2148
+//line sqlparser/parser.y:2149
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 386:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2152
+//line sqlparser/parser.y:2153
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 387:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2156
+//line sqlparser/parser.y:2157
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 388:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2160
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line sqlparser/parser.y:2161
 		{
-			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
+			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
 	case 389:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2164
+//line sqlparser/parser.y:2165
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 390:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2168
+//line sqlparser/parser.y:2169
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 391:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2172
+//line sqlparser/parser.y:2173
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 392:
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:2177
+		{
+			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
+		}
+	case 393:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2176
+//line sqlparser/parser.y:2181
 		{
 			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
 		}
-	case 393:
+	case 394:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2180
+//line sqlparser/parser.y:2185
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 394:
+	case 395:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2184
+//line sqlparser/parser.y:2189
 		{
 			// this is ugly, but I couldn't find a better way for now
 			if yyDollar[4].str == "processlist" {
@@ -5726,604 +5723,604 @@ yydefault:
 				yyVAL.statement = &Show{Type: yyDollar[4].str, ShowTablesOpt: showTablesOpt}
 			}
 		}
-	case 395:
+	case 396:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2194
+//line sqlparser/parser.y:2199
 		{
 			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
 		}
-	case 396:
+	case 397:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2198
+//line sqlparser/parser.y:2203
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 397:
+	case 398:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2202
+//line sqlparser/parser.y:2207
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes), OnTable: yyDollar[4].tableName}
 		}
-	case 398:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2206
-		{
-			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
-		}
 	case 399:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2210
+//line sqlparser/parser.y:2211
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 400:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2214
+//line sqlparser/parser.y:2215
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 401:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2218
+//line sqlparser/parser.y:2219
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 402:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2228
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:2223
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 403:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2234
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:2233
 		{
-			yyVAL.str = string(yyDollar[1].bytes)
+			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
 	case 404:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2238
+//line sqlparser/parser.y:2239
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
 	case 405:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:2243
+		{
+			yyVAL.str = string(yyDollar[1].bytes)
+		}
+	case 406:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2244
+//line sqlparser/parser.y:2249
 		{
 			yyVAL.str = ""
 		}
-	case 406:
+	case 407:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2248
+//line sqlparser/parser.y:2253
 		{
 			yyVAL.str = "extended "
 		}
-	case 407:
+	case 408:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2254
+//line sqlparser/parser.y:2259
 		{
 			yyVAL.str = ""
 		}
-	case 408:
+	case 409:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2258
+//line sqlparser/parser.y:2263
 		{
 			yyVAL.str = "full "
 		}
-	case 409:
+	case 410:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2264
+//line sqlparser/parser.y:2269
 		{
 			yyVAL.str = ""
 		}
-	case 410:
+	case 411:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2268
+//line sqlparser/parser.y:2273
 		{
 			yyVAL.str = yyDollar[2].tableIdent.v
 		}
-	case 411:
+	case 412:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2272
+//line sqlparser/parser.y:2277
 		{
 			yyVAL.str = yyDollar[2].tableIdent.v
 		}
-	case 412:
+	case 413:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2278
+//line sqlparser/parser.y:2283
 		{
 			yyVAL.showFilter = nil
 		}
-	case 413:
+	case 414:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2282
+//line sqlparser/parser.y:2287
 		{
 			yyVAL.showFilter = &ShowFilter{Like: string(yyDollar[2].bytes)}
 		}
-	case 414:
+	case 415:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2286
+//line sqlparser/parser.y:2291
 		{
 			yyVAL.showFilter = &ShowFilter{Filter: yyDollar[2].expr}
 		}
-	case 415:
+	case 416:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2292
+//line sqlparser/parser.y:2297
 		{
 			yyVAL.str = ""
 		}
-	case 416:
+	case 417:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2296
+//line sqlparser/parser.y:2301
 		{
 			yyVAL.str = SessionStr
 		}
-	case 417:
+	case 418:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2300
+//line sqlparser/parser.y:2305
 		{
 			yyVAL.str = GlobalStr
 		}
-	case 418:
+	case 419:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2306
+//line sqlparser/parser.y:2311
 		{
 			yyVAL.statement = &Use{DBName: yyDollar[2].tableIdent}
 		}
-	case 419:
+	case 420:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2310
+//line sqlparser/parser.y:2315
 		{
 			yyVAL.statement = &Use{DBName: TableIdent{v: ""}}
 		}
-	case 420:
+	case 421:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2316
+//line sqlparser/parser.y:2321
 		{
 			yyVAL.statement = &Begin{}
 		}
-	case 421:
+	case 422:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2320
+//line sqlparser/parser.y:2325
 		{
 			yyVAL.statement = &Begin{}
 		}
-	case 422:
+	case 423:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2326
+//line sqlparser/parser.y:2331
 		{
 			yyVAL.statement = &Commit{}
 		}
-	case 423:
+	case 424:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2332
+//line sqlparser/parser.y:2337
 		{
 			yyVAL.statement = &Rollback{}
 		}
-	case 424:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2338
-		{
-			yyVAL.statement = &OtherRead{}
-		}
 	case 425:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2342
+//line sqlparser/parser.y:2343
 		{
 			yyVAL.statement = &OtherRead{}
 		}
 	case 426:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2346
+//line sqlparser/parser.y:2347
 		{
 			yyVAL.statement = &OtherRead{}
 		}
 	case 427:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2350
+//line sqlparser/parser.y:2351
 		{
-			yyVAL.statement = &OtherAdmin{}
+			yyVAL.statement = &OtherRead{}
 		}
 	case 428:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2354
+//line sqlparser/parser.y:2355
 		{
 			yyVAL.statement = &OtherAdmin{}
 		}
 	case 429:
-		yyDollar = yyS[yypt-0 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:2359
 		{
-			setAllowComments(yylex, true)
+			yyVAL.statement = &OtherAdmin{}
 		}
 	case 430:
+		yyDollar = yyS[yypt-0 : yypt+1]
+//line sqlparser/parser.y:2364
+		{
+			setAllowComments(yylex, true)
+		}
+	case 431:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2363
+//line sqlparser/parser.y:2368
 		{
 			yyVAL.bytes2 = yyDollar[2].bytes2
 			setAllowComments(yylex, false)
 		}
-	case 431:
+	case 432:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2369
+//line sqlparser/parser.y:2374
 		{
 			yyVAL.bytes2 = nil
 		}
-	case 432:
+	case 433:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2373
+//line sqlparser/parser.y:2378
 		{
 			yyVAL.bytes2 = append(yyDollar[1].bytes2, yyDollar[2].bytes)
 		}
-	case 433:
+	case 434:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2379
+//line sqlparser/parser.y:2384
 		{
 			yyVAL.str = UnionStr
 		}
-	case 434:
+	case 435:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2383
+//line sqlparser/parser.y:2388
 		{
 			yyVAL.str = UnionAllStr
 		}
-	case 435:
+	case 436:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2387
+//line sqlparser/parser.y:2392
 		{
 			yyVAL.str = UnionDistinctStr
 		}
-	case 436:
+	case 437:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2392
+//line sqlparser/parser.y:2397
 		{
 			yyVAL.str = ""
 		}
-	case 437:
+	case 438:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2396
+//line sqlparser/parser.y:2401
 		{
 			yyVAL.str = SQLNoCacheStr
 		}
-	case 438:
+	case 439:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2400
+//line sqlparser/parser.y:2405
 		{
 			yyVAL.str = SQLCacheStr
 		}
-	case 439:
+	case 440:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2405
+//line sqlparser/parser.y:2410
 		{
 			yyVAL.str = ""
 		}
-	case 440:
+	case 441:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2409
+//line sqlparser/parser.y:2414
 		{
 			yyVAL.str = DistinctStr
 		}
-	case 441:
+	case 442:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2414
+//line sqlparser/parser.y:2419
 		{
 			yyVAL.str = ""
 		}
-	case 442:
+	case 443:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2418
+//line sqlparser/parser.y:2423
 		{
 			yyVAL.str = StraightJoinHint
 		}
-	case 443:
+	case 444:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2423
+//line sqlparser/parser.y:2428
 		{
 			yyVAL.selectExprs = nil
 		}
-	case 444:
+	case 445:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2427
+//line sqlparser/parser.y:2432
 		{
 			yyVAL.selectExprs = yyDollar[1].selectExprs
 		}
-	case 445:
+	case 446:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2433
+//line sqlparser/parser.y:2438
 		{
 			yyVAL.selectExprs = SelectExprs{yyDollar[1].selectExpr}
 		}
-	case 446:
+	case 447:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2437
+//line sqlparser/parser.y:2442
 		{
 			yyVAL.selectExprs = append(yyVAL.selectExprs, yyDollar[3].selectExpr)
 		}
-	case 447:
+	case 448:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2443
+//line sqlparser/parser.y:2448
 		{
 			yyVAL.selectExpr = &StarExpr{}
 		}
-	case 448:
+	case 449:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2447
+//line sqlparser/parser.y:2452
 		{
 			yyVAL.selectExpr = &AliasedExpr{Expr: yyDollar[1].expr, As: yyDollar[2].colIdent}
 		}
-	case 449:
+	case 450:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2451
+//line sqlparser/parser.y:2456
 		{
 			yyVAL.selectExpr = &StarExpr{TableName: TableName{Name: yyDollar[1].tableIdent}}
 		}
-	case 450:
+	case 451:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2455
+//line sqlparser/parser.y:2460
 		{
 			yyVAL.selectExpr = &StarExpr{TableName: TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}}
 		}
-	case 451:
+	case 452:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2460
+//line sqlparser/parser.y:2465
 		{
 			yyVAL.colIdent = ColIdent{}
 		}
-	case 452:
+	case 453:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2464
+//line sqlparser/parser.y:2469
 		{
 			yyVAL.colIdent = yyDollar[1].colIdent
 		}
-	case 453:
+	case 454:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2468
+//line sqlparser/parser.y:2473
 		{
 			yyVAL.colIdent = yyDollar[2].colIdent
 		}
-	case 455:
+	case 456:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2475
+//line sqlparser/parser.y:2480
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 456:
+	case 457:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2480
+//line sqlparser/parser.y:2485
 		{
 			yyVAL.tableExprs = TableExprs{&AliasedTableExpr{Expr: TableName{Name: NewTableIdent("dual")}}}
 		}
-	case 457:
+	case 458:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2484
+//line sqlparser/parser.y:2489
 		{
 			yyVAL.tableExprs = yyDollar[2].tableExprs
 		}
-	case 458:
+	case 459:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2490
+//line sqlparser/parser.y:2495
 		{
 			yyVAL.tableExprs = TableExprs{yyDollar[1].tableExpr}
 		}
-	case 459:
+	case 460:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2494
+//line sqlparser/parser.y:2499
 		{
 			yyVAL.tableExprs = append(yyVAL.tableExprs, yyDollar[3].tableExpr)
 		}
-	case 462:
+	case 463:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2504
+//line sqlparser/parser.y:2509
 		{
 			yyVAL.tableExpr = yyDollar[1].aliasedTableName
 		}
-	case 463:
+	case 464:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2508
+//line sqlparser/parser.y:2513
 		{
 			yyVAL.tableExpr = &AliasedTableExpr{Expr: yyDollar[1].subquery, As: yyDollar[3].tableIdent}
 		}
-	case 464:
+	case 465:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2512
+//line sqlparser/parser.y:2517
 		{
 			yyVAL.tableExpr = &ParenTableExpr{Exprs: yyDollar[2].tableExprs}
 		}
-	case 465:
+	case 466:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2518
+//line sqlparser/parser.y:2523
 		{
 			yyVAL.aliasedTableName = &AliasedTableExpr{Expr: yyDollar[1].tableName, As: yyDollar[2].tableIdent, Hints: yyDollar[3].indexHints}
 		}
-	case 466:
+	case 467:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2522
+//line sqlparser/parser.y:2527
 		{
 			yyVAL.aliasedTableName = &AliasedTableExpr{Expr: yyDollar[1].tableName, Partitions: yyDollar[4].partitions, As: yyDollar[6].tableIdent, Hints: yyDollar[7].indexHints}
 		}
-	case 467:
+	case 468:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2528
+//line sqlparser/parser.y:2533
 		{
 			yyVAL.columns = Columns{yyDollar[1].colIdent}
 		}
-	case 468:
+	case 469:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2533
+//line sqlparser/parser.y:2538
 		{
 			yyVAL.columns = Columns{NewColIdent(string(yyDollar[1].bytes))}
 		}
-	case 469:
+	case 470:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2537
+//line sqlparser/parser.y:2542
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[3].colIdent)
 		}
-	case 470:
+	case 471:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2543
+//line sqlparser/parser.y:2548
 		{
 			yyVAL.partitions = Partitions{yyDollar[1].colIdent}
 		}
-	case 471:
+	case 472:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2547
+//line sqlparser/parser.y:2552
 		{
 			yyVAL.partitions = append(yyVAL.partitions, yyDollar[3].colIdent)
 		}
-	case 472:
+	case 473:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2560
+//line sqlparser/parser.y:2565
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 473:
+	case 474:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2564
+//line sqlparser/parser.y:2569
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 474:
+	case 475:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2568
+//line sqlparser/parser.y:2573
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 475:
+	case 476:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2572
+//line sqlparser/parser.y:2577
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr}
 		}
-	case 476:
+	case 477:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2578
+//line sqlparser/parser.y:2583
 		{
 			yyVAL.joinCondition = JoinCondition{On: yyDollar[2].expr}
 		}
-	case 477:
+	case 478:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2580
+//line sqlparser/parser.y:2585
 		{
 			yyVAL.joinCondition = JoinCondition{Using: yyDollar[3].columns}
 		}
-	case 478:
+	case 479:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2584
+//line sqlparser/parser.y:2589
 		{
 			yyVAL.joinCondition = JoinCondition{}
 		}
-	case 479:
+	case 480:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2586
+//line sqlparser/parser.y:2591
 		{
 			yyVAL.joinCondition = yyDollar[1].joinCondition
 		}
-	case 480:
+	case 481:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2590
+//line sqlparser/parser.y:2595
 		{
 			yyVAL.joinCondition = JoinCondition{}
 		}
-	case 481:
+	case 482:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2592
+//line sqlparser/parser.y:2597
 		{
 			yyVAL.joinCondition = JoinCondition{On: yyDollar[2].expr}
 		}
-	case 482:
+	case 483:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2595
+//line sqlparser/parser.y:2600
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 483:
+	case 484:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2597
+//line sqlparser/parser.y:2602
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 484:
+	case 485:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2600
+//line sqlparser/parser.y:2605
 		{
 			yyVAL.tableIdent = NewTableIdent("")
 		}
-	case 485:
+	case 486:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2604
+//line sqlparser/parser.y:2609
 		{
 			yyVAL.tableIdent = yyDollar[1].tableIdent
 		}
-	case 486:
+	case 487:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2608
+//line sqlparser/parser.y:2613
 		{
 			yyVAL.tableIdent = yyDollar[2].tableIdent
 		}
-	case 488:
+	case 489:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2615
+//line sqlparser/parser.y:2620
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 489:
+	case 490:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2621
+//line sqlparser/parser.y:2626
 		{
 			yyVAL.str = JoinStr
 		}
-	case 490:
+	case 491:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2625
+//line sqlparser/parser.y:2630
 		{
 			yyVAL.str = JoinStr
 		}
-	case 491:
+	case 492:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2629
+//line sqlparser/parser.y:2634
 		{
 			yyVAL.str = JoinStr
 		}
-	case 492:
+	case 493:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2635
+//line sqlparser/parser.y:2640
 		{
 			yyVAL.str = StraightJoinStr
 		}
-	case 493:
+	case 494:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2641
+//line sqlparser/parser.y:2646
 		{
 			yyVAL.str = LeftJoinStr
 		}
-	case 494:
+	case 495:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2645
+//line sqlparser/parser.y:2650
 		{
 			yyVAL.str = LeftJoinStr
 		}
-	case 495:
+	case 496:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2649
+//line sqlparser/parser.y:2654
 		{
 			yyVAL.str = RightJoinStr
 		}
-	case 496:
+	case 497:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2653
+//line sqlparser/parser.y:2658
 		{
 			yyVAL.str = RightJoinStr
 		}
-	case 497:
+	case 498:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2659
+//line sqlparser/parser.y:2664
 		{
 			yyVAL.str = NaturalJoinStr
 		}
-	case 498:
+	case 499:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2663
+//line sqlparser/parser.y:2668
 		{
 			if yyDollar[2].str == LeftJoinStr {
 				yyVAL.str = NaturalLeftJoinStr
@@ -6331,465 +6328,465 @@ yydefault:
 				yyVAL.str = NaturalRightJoinStr
 			}
 		}
-	case 499:
+	case 500:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2673
+//line sqlparser/parser.y:2678
 		{
 			yyVAL.tableName = yyDollar[2].tableName
 		}
-	case 500:
+	case 501:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2677
+//line sqlparser/parser.y:2682
 		{
 			yyVAL.tableName = yyDollar[1].tableName
 		}
-	case 501:
+	case 502:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2683
+//line sqlparser/parser.y:2688
 		{
 			yyVAL.tableName = TableName{Name: yyDollar[1].tableIdent}
 		}
-	case 502:
+	case 503:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2687
+//line sqlparser/parser.y:2692
 		{
 			yyVAL.tableName = TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}
 		}
-	case 503:
+	case 504:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2692
+//line sqlparser/parser.y:2697
 		{
 			yyVAL.indexHints = nil
 		}
-	case 504:
+	case 505:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2696
+//line sqlparser/parser.y:2701
 		{
 			yyVAL.indexHints = &IndexHints{Type: UseStr, Indexes: yyDollar[4].columns}
 		}
-	case 505:
+	case 506:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2700
+//line sqlparser/parser.y:2705
 		{
 			yyVAL.indexHints = &IndexHints{Type: IgnoreStr, Indexes: yyDollar[4].columns}
 		}
-	case 506:
+	case 507:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2704
+//line sqlparser/parser.y:2709
 		{
 			yyVAL.indexHints = &IndexHints{Type: ForceStr, Indexes: yyDollar[4].columns}
 		}
-	case 507:
+	case 508:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2709
+//line sqlparser/parser.y:2714
 		{
 			yyVAL.expr = nil
 		}
-	case 508:
+	case 509:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2713
+//line sqlparser/parser.y:2718
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 509:
+	case 510:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2718
+//line sqlparser/parser.y:2723
 		{
 			yyVAL.columns = nil
 		}
-	case 510:
+	case 511:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2722
+//line sqlparser/parser.y:2727
 		{
 			yyVAL.columns = yyDollar[3].columns
 		}
-	case 511:
+	case 512:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2728
+//line sqlparser/parser.y:2733
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 512:
+	case 513:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2732
+//line sqlparser/parser.y:2737
 		{
 			yyVAL.expr = &AndExpr{Left: yyDollar[1].expr, Right: yyDollar[3].expr}
 		}
-	case 513:
+	case 514:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2736
+//line sqlparser/parser.y:2741
 		{
 			yyVAL.expr = &OrExpr{Left: yyDollar[1].expr, Right: yyDollar[3].expr}
 		}
-	case 514:
+	case 515:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2740
+//line sqlparser/parser.y:2745
 		{
 			yyVAL.expr = &NotExpr{Expr: yyDollar[2].expr}
 		}
-	case 515:
+	case 516:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2744
+//line sqlparser/parser.y:2749
 		{
 			yyVAL.expr = &IsExpr{Operator: yyDollar[3].str, Expr: yyDollar[1].expr}
 		}
-	case 516:
+	case 517:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2748
+//line sqlparser/parser.y:2753
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 517:
+	case 518:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2752
+//line sqlparser/parser.y:2757
 		{
 			yyVAL.expr = &Default{ColName: yyDollar[2].str}
 		}
-	case 518:
+	case 519:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2758
+//line sqlparser/parser.y:2763
 		{
 			yyVAL.str = ""
 		}
-	case 519:
+	case 520:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2762
+//line sqlparser/parser.y:2767
 		{
 			yyVAL.str = string(yyDollar[2].bytes)
 		}
-	case 520:
+	case 521:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2768
+//line sqlparser/parser.y:2773
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 521:
+	case 522:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2772
+//line sqlparser/parser.y:2777
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 522:
+	case 523:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2778
+//line sqlparser/parser.y:2783
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: yyDollar[2].str, Right: yyDollar[3].expr}
 		}
-	case 523:
+	case 524:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2782
+//line sqlparser/parser.y:2787
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: InStr, Right: yyDollar[3].colTuple}
 		}
-	case 524:
+	case 525:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2786
+//line sqlparser/parser.y:2791
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotInStr, Right: yyDollar[4].colTuple}
 		}
-	case 525:
+	case 526:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2790
+//line sqlparser/parser.y:2795
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: LikeStr, Right: yyDollar[3].expr, Escape: yyDollar[4].expr}
 		}
-	case 526:
+	case 527:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2794
+//line sqlparser/parser.y:2799
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotLikeStr, Right: yyDollar[4].expr, Escape: yyDollar[5].expr}
 		}
-	case 527:
+	case 528:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2798
+//line sqlparser/parser.y:2803
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: RegexpStr, Right: yyDollar[3].expr}
 		}
-	case 528:
+	case 529:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2802
+//line sqlparser/parser.y:2807
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotRegexpStr, Right: yyDollar[4].expr}
 		}
-	case 529:
+	case 530:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2806
+//line sqlparser/parser.y:2811
 		{
 			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: BetweenStr, From: yyDollar[3].expr, To: yyDollar[5].expr}
 		}
-	case 530:
+	case 531:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2810
+//line sqlparser/parser.y:2815
 		{
 			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: NotBetweenStr, From: yyDollar[4].expr, To: yyDollar[6].expr}
 		}
-	case 531:
+	case 532:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2814
+//line sqlparser/parser.y:2819
 		{
 			yyVAL.expr = &ExistsExpr{Subquery: yyDollar[2].subquery}
 		}
-	case 532:
+	case 533:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2820
+//line sqlparser/parser.y:2825
 		{
 			yyVAL.str = IsNullStr
 		}
-	case 533:
+	case 534:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2824
+//line sqlparser/parser.y:2829
 		{
 			yyVAL.str = IsNotNullStr
 		}
-	case 534:
+	case 535:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2828
+//line sqlparser/parser.y:2833
 		{
 			yyVAL.str = IsTrueStr
 		}
-	case 535:
+	case 536:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2832
+//line sqlparser/parser.y:2837
 		{
 			yyVAL.str = IsNotTrueStr
 		}
-	case 536:
+	case 537:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2836
+//line sqlparser/parser.y:2841
 		{
 			yyVAL.str = IsFalseStr
 		}
-	case 537:
+	case 538:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2840
+//line sqlparser/parser.y:2845
 		{
 			yyVAL.str = IsNotFalseStr
 		}
-	case 538:
+	case 539:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2846
+//line sqlparser/parser.y:2851
 		{
 			yyVAL.str = EqualStr
 		}
-	case 539:
+	case 540:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2850
+//line sqlparser/parser.y:2855
 		{
 			yyVAL.str = LessThanStr
 		}
-	case 540:
+	case 541:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2854
+//line sqlparser/parser.y:2859
 		{
 			yyVAL.str = GreaterThanStr
 		}
-	case 541:
+	case 542:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2858
+//line sqlparser/parser.y:2863
 		{
 			yyVAL.str = LessEqualStr
 		}
-	case 542:
+	case 543:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2862
+//line sqlparser/parser.y:2867
 		{
 			yyVAL.str = GreaterEqualStr
 		}
-	case 543:
+	case 544:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2866
+//line sqlparser/parser.y:2871
 		{
 			yyVAL.str = NotEqualStr
 		}
-	case 544:
+	case 545:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2870
+//line sqlparser/parser.y:2875
 		{
 			yyVAL.str = NullSafeEqualStr
 		}
-	case 545:
+	case 546:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2875
+//line sqlparser/parser.y:2880
 		{
 			yyVAL.expr = nil
 		}
-	case 546:
+	case 547:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2879
+//line sqlparser/parser.y:2884
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 547:
+	case 548:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2885
+//line sqlparser/parser.y:2890
 		{
 			yyVAL.colTuple = yyDollar[1].valTuple
 		}
-	case 548:
+	case 549:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2889
+//line sqlparser/parser.y:2894
 		{
 			yyVAL.colTuple = yyDollar[1].subquery
 		}
-	case 549:
+	case 550:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2893
+//line sqlparser/parser.y:2898
 		{
 			yyVAL.colTuple = ListArg(yyDollar[1].bytes)
 		}
-	case 550:
+	case 551:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2899
+//line sqlparser/parser.y:2904
 		{
 			yyVAL.subquery = &Subquery{yyDollar[2].selStmt}
 		}
-	case 551:
+	case 552:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2905
+//line sqlparser/parser.y:2910
 		{
 			yyVAL.exprs = Exprs{yyDollar[1].expr}
 		}
-	case 552:
+	case 553:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2909
+//line sqlparser/parser.y:2914
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
-	case 553:
+	case 554:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2915
+//line sqlparser/parser.y:2920
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 554:
+	case 555:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2919
+//line sqlparser/parser.y:2924
 		{
 			yyVAL.expr = yyDollar[1].boolVal
 		}
-	case 555:
+	case 556:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2923
+//line sqlparser/parser.y:2928
 		{
 			yyVAL.expr = yyDollar[1].colName
 		}
-	case 556:
+	case 557:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2927
+//line sqlparser/parser.y:2932
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 557:
+	case 558:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2931
+//line sqlparser/parser.y:2936
 		{
 			yyVAL.expr = yyDollar[1].subquery
 		}
-	case 558:
+	case 559:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2935
+//line sqlparser/parser.y:2940
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitAndStr, Right: yyDollar[3].expr}
 		}
-	case 559:
+	case 560:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2939
+//line sqlparser/parser.y:2944
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitOrStr, Right: yyDollar[3].expr}
 		}
-	case 560:
+	case 561:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2943
+//line sqlparser/parser.y:2948
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitXorStr, Right: yyDollar[3].expr}
 		}
-	case 561:
+	case 562:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2947
+//line sqlparser/parser.y:2952
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: PlusStr, Right: yyDollar[3].expr}
 		}
-	case 562:
+	case 563:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2951
+//line sqlparser/parser.y:2956
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MinusStr, Right: yyDollar[3].expr}
 		}
-	case 563:
+	case 564:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2955
+//line sqlparser/parser.y:2960
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MultStr, Right: yyDollar[3].expr}
 		}
-	case 564:
+	case 565:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2959
+//line sqlparser/parser.y:2964
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: DivStr, Right: yyDollar[3].expr}
 		}
-	case 565:
+	case 566:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2963
+//line sqlparser/parser.y:2968
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: IntDivStr, Right: yyDollar[3].expr}
 		}
-	case 566:
+	case 567:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2967
+//line sqlparser/parser.y:2972
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ModStr, Right: yyDollar[3].expr}
 		}
-	case 567:
+	case 568:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2971
+//line sqlparser/parser.y:2976
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ModStr, Right: yyDollar[3].expr}
 		}
-	case 568:
+	case 569:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2975
+//line sqlparser/parser.y:2980
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftLeftStr, Right: yyDollar[3].expr}
 		}
-	case 569:
+	case 570:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2979
+//line sqlparser/parser.y:2984
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftRightStr, Right: yyDollar[3].expr}
 		}
-	case 570:
+	case 571:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2983
+//line sqlparser/parser.y:2988
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONExtractOp, Right: yyDollar[3].expr}
 		}
-	case 571:
+	case 572:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2987
+//line sqlparser/parser.y:2992
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONUnquoteExtractOp, Right: yyDollar[3].expr}
 		}
-	case 572:
+	case 573:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2991
+//line sqlparser/parser.y:2996
 		{
 			yyVAL.expr = &CollateExpr{Expr: yyDollar[1].expr, Charset: yyDollar[3].str}
 		}
-	case 573:
+	case 574:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2995
+//line sqlparser/parser.y:3000
 		{
 			yyVAL.expr = &UnaryExpr{Operator: BinaryStr, Expr: yyDollar[2].expr}
 		}
-	case 574:
+	case 575:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2999
+//line sqlparser/parser.y:3004
 		{
 			yyVAL.expr = &UnaryExpr{Operator: UBinaryStr, Expr: yyDollar[2].expr}
 		}
-	case 575:
+	case 576:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3003
+//line sqlparser/parser.y:3008
 		{
 			if num, ok := yyDollar[2].expr.(*SQLVal); ok && num.Type == IntVal {
 				yyVAL.expr = num
@@ -6797,9 +6794,9 @@ yydefault:
 				yyVAL.expr = &UnaryExpr{Operator: UPlusStr, Expr: yyDollar[2].expr}
 			}
 		}
-	case 576:
+	case 577:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3011
+//line sqlparser/parser.y:3016
 		{
 			if num, ok := yyDollar[2].expr.(*SQLVal); ok && num.Type == IntVal {
 				// Handle double negative
@@ -6813,21 +6810,21 @@ yydefault:
 				yyVAL.expr = &UnaryExpr{Operator: UMinusStr, Expr: yyDollar[2].expr}
 			}
 		}
-	case 577:
+	case 578:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3025
+//line sqlparser/parser.y:3030
 		{
 			yyVAL.expr = &UnaryExpr{Operator: TildaStr, Expr: yyDollar[2].expr}
 		}
-	case 578:
+	case 579:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3029
+//line sqlparser/parser.y:3034
 		{
 			yyVAL.expr = &UnaryExpr{Operator: BangStr, Expr: yyDollar[2].expr}
 		}
-	case 579:
+	case 580:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3033
+//line sqlparser/parser.y:3038
 		{
 			// This rule prevents the usage of INTERVAL
 			// as a function. If support is needed for that,
@@ -6835,492 +6832,492 @@ yydefault:
 			// will be non-trivial because of grammar conflicts.
 			yyVAL.expr = &IntervalExpr{Expr: yyDollar[2].expr, Unit: yyDollar[3].colIdent.String()}
 		}
-	case 580:
+	case 581:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3041
+//line sqlparser/parser.y:3046
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[1].expr, Type: yyDollar[3].convertType, Typecast: true}
 		}
-	case 585:
+	case 586:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3055
+//line sqlparser/parser.y:3060
 		{
 			yyVAL.expr = &FuncExpr{Name: yyDollar[1].colIdent, Exprs: yyDollar[3].selectExprs}
 		}
-	case 586:
+	case 587:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3059
+//line sqlparser/parser.y:3064
 		{
 			yyVAL.expr = &FuncExpr{Name: yyDollar[1].colIdent, Distinct: true, Exprs: yyDollar[4].selectExprs}
 		}
-	case 587:
+	case 588:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3063
+//line sqlparser/parser.y:3068
 		{
 			yyVAL.expr = &FuncExpr{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].colIdent, Exprs: yyDollar[5].selectExprs}
 		}
-	case 588:
+	case 589:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3073
+//line sqlparser/parser.y:3078
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("left"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 589:
+	case 590:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3077
+//line sqlparser/parser.y:3082
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("right"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 590:
+	case 591:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3081
+//line sqlparser/parser.y:3086
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].convertType}
 		}
-	case 591:
+	case 592:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3085
+//line sqlparser/parser.y:3090
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].convertType}
 		}
-	case 592:
+	case 593:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3089
+//line sqlparser/parser.y:3094
 		{
 			yyVAL.expr = &ConvertUsingExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].str}
 		}
-	case 593:
+	case 594:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3093
+//line sqlparser/parser.y:3098
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
 		}
-	case 594:
+	case 595:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3097
+//line sqlparser/parser.y:3102
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 595:
+	case 596:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3101
+//line sqlparser/parser.y:3106
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 596:
+	case 597:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3105
+//line sqlparser/parser.y:3110
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
 		}
-	case 597:
+	case 598:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3109
+//line sqlparser/parser.y:3114
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 598:
+	case 599:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3113
+//line sqlparser/parser.y:3118
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 599:
+	case 600:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line sqlparser/parser.y:3117
+//line sqlparser/parser.y:3122
 		{
 			yyVAL.expr = &MatchExpr{Columns: yyDollar[3].selectExprs, Expr: yyDollar[7].expr, Option: yyDollar[8].str}
 		}
-	case 600:
+	case 601:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:3121
+//line sqlparser/parser.y:3126
 		{
 			yyVAL.expr = &GroupConcatExpr{Distinct: yyDollar[3].str, Exprs: yyDollar[4].selectExprs, OrderBy: yyDollar[5].orderBy, Separator: yyDollar[6].str}
 		}
-	case 601:
+	case 602:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3125
+//line sqlparser/parser.y:3130
 		{
 			yyVAL.expr = &CaseExpr{Expr: yyDollar[2].expr, Whens: yyDollar[3].whens, Else: yyDollar[4].expr}
 		}
-	case 602:
+	case 603:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3129
+//line sqlparser/parser.y:3134
 		{
 			yyVAL.expr = &ValuesFuncExpr{Name: yyDollar[3].colName}
 		}
-	case 603:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3139
-		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_timestamp")}
-		}
 	case 604:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3143
+//line sqlparser/parser.y:3144
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_timestamp")}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_timestamp")}
 		}
 	case 605:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3147
+//line sqlparser/parser.y:3148
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_time")}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_timestamp")}
 		}
 	case 606:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3151
+//line sqlparser/parser.y:3152
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_date")}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_time")}
 		}
 	case 607:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3156
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtime")}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_date")}
 		}
 	case 608:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3161
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtimestamp")}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtime")}
 		}
 	case 609:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3166
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_date")}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtimestamp")}
 		}
 	case 610:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3171
 		{
-			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_time")}
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_date")}
 		}
 	case 611:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3175
+//line sqlparser/parser.y:3176
+		{
+			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_time")}
+		}
+	case 612:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line sqlparser/parser.y:3180
 		{
 			yylex.Error("nothing to cast to " + yyDollar[2].convertType.Type)
 			return 1
 		}
-	case 614:
+	case 615:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3189
+//line sqlparser/parser.y:3194
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("if"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 615:
+	case 616:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3193
+//line sqlparser/parser.y:3198
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("database"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 616:
+	case 617:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3197
+//line sqlparser/parser.y:3202
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("mod"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 617:
+	case 618:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3201
+//line sqlparser/parser.y:3206
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("replace"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 618:
+	case 619:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3207
+//line sqlparser/parser.y:3212
 		{
 			yyVAL.str = ""
 		}
-	case 619:
+	case 620:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3211
+//line sqlparser/parser.y:3216
 		{
 			yyVAL.str = BooleanModeStr
 		}
-	case 620:
+	case 621:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3215
+//line sqlparser/parser.y:3220
 		{
 			yyVAL.str = NaturalLanguageModeStr
 		}
-	case 621:
+	case 622:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:3219
+//line sqlparser/parser.y:3224
 		{
 			yyVAL.str = NaturalLanguageModeWithQueryExpansionStr
 		}
-	case 622:
+	case 623:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3223
+//line sqlparser/parser.y:3228
 		{
 			yyVAL.str = QueryExpansionStr
 		}
-	case 623:
+	case 624:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3229
+//line sqlparser/parser.y:3234
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 624:
+	case 625:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3233
+//line sqlparser/parser.y:3238
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 625:
+	case 626:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3239
+//line sqlparser/parser.y:3244
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 626:
+	case 627:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3243
+//line sqlparser/parser.y:3248
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Operator: CharacterSetStr}
 		}
-	case 627:
+	case 628:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3247
+//line sqlparser/parser.y:3252
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: string(yyDollar[3].bytes)}
 		}
-	case 628:
+	case 629:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3251
+//line sqlparser/parser.y:3256
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 629:
+	case 630:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3255
+//line sqlparser/parser.y:3260
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 630:
+	case 631:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3259
+//line sqlparser/parser.y:3264
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 			yyVAL.convertType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.convertType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 631:
+	case 632:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3265
+//line sqlparser/parser.y:3270
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 632:
+	case 633:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3269
+//line sqlparser/parser.y:3274
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 633:
+	case 634:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3273
+//line sqlparser/parser.y:3278
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 634:
+	case 635:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3277
+//line sqlparser/parser.y:3282
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 635:
+	case 636:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3281
+//line sqlparser/parser.y:3286
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 636:
+	case 637:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3285
+//line sqlparser/parser.y:3290
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 637:
+	case 638:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3289
+//line sqlparser/parser.y:3294
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 638:
+	case 639:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3293
+//line sqlparser/parser.y:3298
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 639:
+	case 640:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3299
+//line sqlparser/parser.y:3304
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 640:
+	case 641:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3303
+//line sqlparser/parser.y:3308
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes)}
 		}
-	case 641:
+	case 642:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3307
+//line sqlparser/parser.y:3312
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 642:
+	case 643:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3311
+//line sqlparser/parser.y:3316
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 643:
+	case 644:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3315
+//line sqlparser/parser.y:3320
 		{
 			yyVAL.convertType = &ConvertType{Type: yyDollar[1].columnType.Type}
 		}
-	case 644:
+	case 645:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3319
+//line sqlparser/parser.y:3324
 		{
 			yyVAL.convertType = &ConvertType{Type: yyDollar[1].columnType.Type}
 		}
-	case 645:
+	case 646:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3323
+//line sqlparser/parser.y:3328
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 646:
+	case 647:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3328
+//line sqlparser/parser.y:3333
 		{
 			yyVAL.expr = nil
 		}
-	case 647:
+	case 648:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3332
+//line sqlparser/parser.y:3337
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 648:
+	case 649:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3337
+//line sqlparser/parser.y:3342
 		{
 			yyVAL.str = string("")
 		}
-	case 649:
+	case 650:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3341
+//line sqlparser/parser.y:3346
 		{
 			yyVAL.str = " separator " + String(NewStrVal(yyDollar[2].bytes))
 		}
-	case 650:
+	case 651:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3347
+//line sqlparser/parser.y:3352
 		{
 			yyVAL.whens = []*When{yyDollar[1].when}
 		}
-	case 651:
+	case 652:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3351
+//line sqlparser/parser.y:3356
 		{
 			yyVAL.whens = append(yyDollar[1].whens, yyDollar[2].when)
 		}
-	case 652:
+	case 653:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3357
+//line sqlparser/parser.y:3362
 		{
 			yyVAL.when = &When{Cond: yyDollar[2].expr, Val: yyDollar[4].expr}
 		}
-	case 653:
+	case 654:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3362
+//line sqlparser/parser.y:3367
 		{
 			yyVAL.expr = nil
 		}
-	case 654:
+	case 655:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3366
+//line sqlparser/parser.y:3371
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 655:
+	case 656:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3372
+//line sqlparser/parser.y:3377
 		{
 			yyVAL.colName = &ColName{Name: yyDollar[1].colIdent}
 		}
-	case 656:
+	case 657:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3376
+//line sqlparser/parser.y:3381
 		{
 			yyVAL.colName = &ColName{Qualifier: TableName{Name: yyDollar[1].tableIdent}, Name: yyDollar[3].colIdent}
 		}
-	case 657:
+	case 658:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3380
+//line sqlparser/parser.y:3385
 		{
 			yyVAL.colName = &ColName{Qualifier: TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}, Name: yyDollar[5].colIdent}
 		}
-	case 658:
+	case 659:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3386
+//line sqlparser/parser.y:3391
 		{
 			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
 		}
-	case 659:
+	case 660:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3390
+//line sqlparser/parser.y:3395
 		{
 			yyVAL.expr = NewHexVal(yyDollar[1].bytes)
 		}
-	case 660:
+	case 661:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3394
+//line sqlparser/parser.y:3399
 		{
 			yyVAL.expr = NewBitVal(yyDollar[1].bytes)
 		}
-	case 661:
+	case 662:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3398
+//line sqlparser/parser.y:3403
 		{
 			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
 		}
-	case 662:
+	case 663:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3402
+//line sqlparser/parser.y:3407
 		{
 			yyVAL.expr = NewFloatVal(yyDollar[1].bytes)
 		}
-	case 663:
+	case 664:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3406
+//line sqlparser/parser.y:3411
 		{
 			yyVAL.expr = NewHexNum(yyDollar[1].bytes)
 		}
-	case 664:
+	case 665:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3410
+//line sqlparser/parser.y:3415
 		{
 			yyVAL.expr = NewValArg(yyDollar[1].bytes)
 		}
-	case 665:
+	case 666:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3414
+//line sqlparser/parser.y:3419
 		{
 			yyVAL.expr = &NullVal{}
 		}
-	case 666:
+	case 667:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3420
+//line sqlparser/parser.y:3425
 		{
 			// TODO(sougou): Deprecate this construct.
 			if yyDollar[1].colIdent.Lowered() != "value" {
@@ -7329,239 +7326,239 @@ yydefault:
 			}
 			yyVAL.expr = NewIntVal([]byte("1"))
 		}
-	case 667:
+	case 668:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3429
+//line sqlparser/parser.y:3434
 		{
 			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
 		}
-	case 668:
+	case 669:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3433
+//line sqlparser/parser.y:3438
 		{
 			yyVAL.expr = NewValArg(yyDollar[1].bytes)
 		}
-	case 669:
+	case 670:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3438
+//line sqlparser/parser.y:3443
 		{
 			yyVAL.exprs = nil
 		}
-	case 670:
+	case 671:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3442
+//line sqlparser/parser.y:3447
 		{
 			yyVAL.exprs = yyDollar[3].exprs
 		}
-	case 671:
+	case 672:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3447
+//line sqlparser/parser.y:3452
 		{
 			yyVAL.expr = nil
 		}
-	case 672:
+	case 673:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3451
+//line sqlparser/parser.y:3456
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 673:
+	case 674:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3456
+//line sqlparser/parser.y:3461
 		{
 			yyVAL.orderBy = nil
 		}
-	case 674:
+	case 675:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3460
+//line sqlparser/parser.y:3465
 		{
 			yyVAL.orderBy = yyDollar[3].orderBy
 		}
-	case 675:
+	case 676:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3466
+//line sqlparser/parser.y:3471
 		{
 			yyVAL.orderBy = OrderBy{yyDollar[1].order}
 		}
-	case 676:
+	case 677:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3470
+//line sqlparser/parser.y:3475
 		{
 			yyVAL.orderBy = append(yyDollar[1].orderBy, yyDollar[3].order)
 		}
-	case 677:
+	case 678:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3476
+//line sqlparser/parser.y:3481
 		{
 			yyVAL.order = &Order{Expr: yyDollar[1].expr, Direction: yyDollar[2].str}
 		}
-	case 678:
+	case 679:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3481
+//line sqlparser/parser.y:3486
 		{
 			yyVAL.str = AscScr
 		}
-	case 679:
+	case 680:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3485
+//line sqlparser/parser.y:3490
 		{
 			yyVAL.str = AscScr
 		}
-	case 680:
+	case 681:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3489
+//line sqlparser/parser.y:3494
 		{
 			yyVAL.str = DescScr
 		}
-	case 681:
+	case 682:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3494
+//line sqlparser/parser.y:3499
 		{
 			yyVAL.limit = nil
 		}
-	case 682:
+	case 683:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3498
+//line sqlparser/parser.y:3503
 		{
 			yyVAL.limit = &Limit{Rowcount: yyDollar[2].expr}
 		}
-	case 683:
+	case 684:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3502
+//line sqlparser/parser.y:3507
 		{
 			yyVAL.limit = &Limit{Offset: yyDollar[2].expr, Rowcount: yyDollar[4].expr}
 		}
-	case 684:
+	case 685:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3506
+//line sqlparser/parser.y:3511
 		{
 			yyVAL.limit = &Limit{Offset: yyDollar[4].expr, Rowcount: yyDollar[2].expr}
 		}
-	case 685:
+	case 686:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3511
+//line sqlparser/parser.y:3516
 		{
 			yyVAL.str = ""
 		}
-	case 686:
+	case 687:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3515
+//line sqlparser/parser.y:3520
 		{
 			yyVAL.str = ForUpdateStr
 		}
-	case 687:
+	case 688:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3519
+//line sqlparser/parser.y:3524
 		{
 			yyVAL.str = ShareModeStr
 		}
-	case 688:
+	case 689:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3532
+//line sqlparser/parser.y:3537
 		{
 			yyVAL.ins = &Insert{Rows: yyDollar[2].values}
 		}
-	case 689:
+	case 690:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3536
+//line sqlparser/parser.y:3541
 		{
 			yyVAL.ins = &Insert{Rows: yyDollar[1].selStmt}
 		}
-	case 690:
+	case 691:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3540
+//line sqlparser/parser.y:3545
 		{
 			// Drop the redundant parenthesis.
 			yyVAL.ins = &Insert{Rows: yyDollar[2].selStmt}
 		}
-	case 691:
+	case 692:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3545
+//line sqlparser/parser.y:3550
 		{
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[5].values}
 		}
-	case 692:
+	case 693:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3549
+//line sqlparser/parser.y:3554
 		{
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[4].selStmt}
 		}
-	case 693:
+	case 694:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3553
+//line sqlparser/parser.y:3558
 		{
 			// Drop the redundant parenthesis.
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[5].selStmt}
 		}
-	case 694:
+	case 695:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3560
+//line sqlparser/parser.y:3565
 		{
 			yyVAL.columns = Columns{yyDollar[1].colIdent}
 		}
-	case 695:
+	case 696:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3564
+//line sqlparser/parser.y:3569
 		{
 			yyVAL.columns = Columns{yyDollar[3].colIdent}
 		}
-	case 696:
+	case 697:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3568
+//line sqlparser/parser.y:3573
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[3].colIdent)
 		}
-	case 697:
+	case 698:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3572
+//line sqlparser/parser.y:3577
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[5].colIdent)
 		}
-	case 698:
+	case 699:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3577
+//line sqlparser/parser.y:3582
 		{
 			yyVAL.updateExprs = nil
 		}
-	case 699:
+	case 700:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3581
+//line sqlparser/parser.y:3586
 		{
 			yyVAL.updateExprs = yyDollar[5].updateExprs
 		}
-	case 700:
+	case 701:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3587
+//line sqlparser/parser.y:3592
 		{
 			yyVAL.values = Values{yyDollar[1].valTuple}
 		}
-	case 701:
+	case 702:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3591
+//line sqlparser/parser.y:3596
 		{
 			yyVAL.values = append(yyDollar[1].values, yyDollar[3].valTuple)
 		}
-	case 702:
+	case 703:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3597
+//line sqlparser/parser.y:3602
 		{
 			yyVAL.valTuple = yyDollar[1].valTuple
 		}
-	case 703:
+	case 704:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3601
+//line sqlparser/parser.y:3606
 		{
 			yyVAL.valTuple = ValTuple{}
 		}
-	case 704:
+	case 705:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3607
+//line sqlparser/parser.y:3612
 		{
 			yyVAL.valTuple = ValTuple(yyDollar[2].exprs)
 		}
-	case 705:
+	case 706:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3613
+//line sqlparser/parser.y:3618
 		{
 			if len(yyDollar[1].valTuple) == 1 {
 				yyVAL.expr = &ParenExpr{yyDollar[1].valTuple[0]}
@@ -7569,282 +7566,282 @@ yydefault:
 				yyVAL.expr = yyDollar[1].valTuple
 			}
 		}
-	case 706:
+	case 707:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3623
+//line sqlparser/parser.y:3628
 		{
 			yyVAL.updateExprs = UpdateExprs{yyDollar[1].updateExpr}
 		}
-	case 707:
+	case 708:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3627
+//line sqlparser/parser.y:3632
 		{
 			yyVAL.updateExprs = append(yyDollar[1].updateExprs, yyDollar[3].updateExpr)
 		}
-	case 708:
+	case 709:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3633
+//line sqlparser/parser.y:3638
 		{
 			yyVAL.updateExpr = &UpdateExpr{Name: yyDollar[1].colName, Expr: yyDollar[3].expr}
 		}
-	case 709:
+	case 710:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3639
+//line sqlparser/parser.y:3644
 		{
 			yyVAL.setExprs = SetExprs{yyDollar[1].setExpr}
 		}
-	case 710:
+	case 711:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3643
+//line sqlparser/parser.y:3648
 		{
 			yyVAL.setExprs = append(yyDollar[1].setExprs, yyDollar[3].setExpr)
 		}
-	case 711:
+	case 712:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3649
+//line sqlparser/parser.y:3654
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("on"))}
 		}
-	case 712:
+	case 713:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3653
+//line sqlparser/parser.y:3658
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("off"))}
 		}
-	case 713:
+	case 714:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3657
+//line sqlparser/parser.y:3662
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: yyDollar[3].expr}
 		}
-	case 714:
+	case 715:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3661
+//line sqlparser/parser.y:3666
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent(string(yyDollar[1].bytes)), Expr: yyDollar[2].expr}
 		}
-	case 716:
+	case 717:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3668
+//line sqlparser/parser.y:3673
 		{
 			yyVAL.bytes = []byte("charset")
 		}
-	case 718:
+	case 719:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3675
+//line sqlparser/parser.y:3680
 		{
 			yyVAL.expr = NewStrVal([]byte(yyDollar[1].colIdent.String()))
 		}
-	case 719:
+	case 720:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3679
+//line sqlparser/parser.y:3684
 		{
 			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
 		}
-	case 720:
+	case 721:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3683
+//line sqlparser/parser.y:3688
 		{
 			yyVAL.expr = &Default{}
 		}
-	case 723:
+	case 724:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3692
+//line sqlparser/parser.y:3697
 		{
 			yyVAL.byt = 0
 		}
-	case 724:
+	case 725:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3694
+//line sqlparser/parser.y:3699
 		{
 			yyVAL.byt = 1
 		}
-	case 725:
+	case 726:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3697
+//line sqlparser/parser.y:3702
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 726:
+	case 727:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3699
+//line sqlparser/parser.y:3704
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 727:
+	case 728:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3702
+//line sqlparser/parser.y:3707
 		{
 			yyVAL.str = ""
 		}
-	case 728:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3704
-		{
-			yyVAL.str = IgnoreStr
-		}
 	case 729:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3708
+//line sqlparser/parser.y:3709
 		{
-			yyVAL.empty = struct{}{}
+			yyVAL.str = IgnoreStr
 		}
 	case 730:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3710
+//line sqlparser/parser.y:3713
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 731:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3712
+//line sqlparser/parser.y:3715
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 732:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3714
+//line sqlparser/parser.y:3717
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 733:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3716
+//line sqlparser/parser.y:3719
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 734:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3718
+//line sqlparser/parser.y:3721
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 735:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3720
+//line sqlparser/parser.y:3723
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 736:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3722
+//line sqlparser/parser.y:3725
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 737:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3724
+//line sqlparser/parser.y:3727
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 738:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3726
+//line sqlparser/parser.y:3729
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 739:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3729
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:3731
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 740:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3731
+		yyDollar = yyS[yypt-0 : yypt+1]
+//line sqlparser/parser.y:3734
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 741:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3733
+//line sqlparser/parser.y:3736
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 742:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3737
+//line sqlparser/parser.y:3738
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 743:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3739
+//line sqlparser/parser.y:3742
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 744:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3743
+//line sqlparser/parser.y:3744
 		{
-			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
+			yyVAL.empty = struct{}{}
 		}
 	case 745:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3747
+//line sqlparser/parser.y:3748
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 747:
+	case 746:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3754
+//line sqlparser/parser.y:3752
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
 	case 748:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3760
+//line sqlparser/parser.y:3759
 		{
-			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
+			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
 	case 749:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3764
+//line sqlparser/parser.y:3765
+		{
+			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
+		}
+	case 750:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:3769
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 751:
+	case 752:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3771
+//line sqlparser/parser.y:3776
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 992:
+	case 993:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4037
+//line sqlparser/parser.y:4042
 		{
 			if incNesting(yylex) {
 				yylex.Error("max nesting level reached")
 				return 1
 			}
 		}
-	case 993:
+	case 994:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4046
+//line sqlparser/parser.y:4051
 		{
 			decNesting(yylex)
 		}
-	case 994:
+	case 995:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:4051
+//line sqlparser/parser.y:4056
 		{
 			forceEOF(yylex)
 		}
-	case 995:
+	case 996:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:4056
+//line sqlparser/parser.y:4061
 		{
 			forceEOF(yylex)
 		}
-	case 996:
+	case 997:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4060
+//line sqlparser/parser.y:4065
 		{
 			forceEOF(yylex)
 		}
-	case 997:
+	case 998:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4064
+//line sqlparser/parser.y:4069
 		{
 			forceEOF(yylex)
 		}
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 4c98bd0..0d8b6c9 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1809,6 +1809,7 @@ foreign_key_without_options:
       ConstraintName: $2,
       IndexName: $5,
       IndexColumns: $7,
+      ReferenceSchema: $10.Qualifier,
       ReferenceName: NewColIdent($10.Name.String()),
       ReferenceColumns: $12,
     }
@@ -1831,6 +1832,10 @@ reference_option:
   {
     $$ = NewColIdent("NO ACTION")
   }
+| SET DEFAULT
+  {
+    $$ = NewColIdent("SET DEFAULT")
+  }
 
 primary_key_definition:
   CONSTRAINT sql_id PRIMARY KEY clustered_opt '(' index_column_list ')' index_option_opt index_partition_opt
-- 
2.43.0


From 34f08b7999ca53d7da857bd02518d2c69c8deebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 44/85] fix: print expressions with the quotes of the database

---
 schema/generator.go |  6 ++---
 schema/parser.go    | 55 ++++++++++++++++++++++++++++++++++++---------
 2 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 8bb8cf7..3bf760e 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -415,7 +415,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					constraintName := fmt.Sprintf("%s_%s_check", strings.Replace(desired.table.name, "dbo.", "", 1), desiredColumn.name)
 					if currentColumn.check != nil {
 						currentConstraintName := currentColumn.check.constraintName
-						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), currentConstraintName)
+						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeConstraintName(currentConstraintName))
 						ddls = append(ddls, ddl)
 					}
 					if desiredColumn.check != nil {
@@ -427,7 +427,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 						if desiredColumn.check.notForReplication {
 							replicationDefinition = " NOT FOR REPLICATION"
 						}
-						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK%s (%s)", g.escapeTableName(desired.table.name), desiredConstraintName, replicationDefinition, desiredColumn.check.definition)
+						ddl := fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s CHECK%s (%s)", g.escapeTableName(desired.table.name), g.escapeConstraintName(desiredConstraintName), replicationDefinition, desiredColumn.check.definition)
 						ddls = append(ddls, ddl)
 					}
 				}
@@ -1146,7 +1146,7 @@ var plainName = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)
 
 // Quote a constraint's name only when it's needed
 func (g *Generator) escapeConstraintName(name string) string {
-	if plainName.MatchString(name) {
+	if plainName.MatchString(name) || g.mode == GeneratorModeMssql && plainName.MatchString(strings.ToLower(name)) {
 		return name
 	}
 	return g.escapeSQLName(name)
diff --git a/schema/parser.go b/schema/parser.go
index 659c75e..6392d53 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -121,8 +121,8 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 		}
 		if parsedCol.Type.Check != nil {
 			column.check = &CheckDefinition{
-				definition:        sqlparser.String(parsedCol.Type.Check.Where.Expr),
-				constraintName:    sqlparser.String(parsedCol.Type.Check.ConstraintName),
+				definition:        formatNode(mode, parsedCol.Type.Check.Where.Expr),
+				constraintName:    parsedCol.Type.Check.ConstraintName.String(),
 				notForReplication: parsedCol.Type.Check.NotForReplication,
 			}
 		}
@@ -210,7 +210,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 	}, nil
 }
 
-func parseIndex(stmt *sqlparser.DDL) (Index, error) {
+func parseIndex(mode GeneratorMode, stmt *sqlparser.DDL) (Index, error) {
 	if stmt.IndexSpec == nil {
 		return Index{}, fmt.Errorf("stmt.IndexSpec was null on parseIndex: %#v", stmt)
 	}
@@ -238,7 +238,7 @@ func parseIndex(stmt *sqlparser.DDL) (Index, error) {
 		if parenExpr, ok := expr.(*sqlparser.ParenExpr); ok {
 			expr = parenExpr.Expr
 		}
-		where = sqlparser.String(expr)
+		where = formatNode(mode, expr)
 	}
 
 	includedColumns := []string{}
@@ -312,7 +312,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				table:     table,
 			}, nil
 		} else if stmt.Action == "create index" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -322,7 +322,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				index:     index,
 			}, nil
 		} else if stmt.Action == "add index" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -332,7 +332,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				index:     index,
 			}, nil
 		} else if stmt.Action == "add primary key" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -373,10 +373,10 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			}
 			var using, withCheck string
 			if stmt.Policy.Using != nil {
-				using = sqlparser.String(stmt.Policy.Using.Expr)
+				using = formatNode(mode, stmt.Policy.Using.Expr)
 			}
 			if stmt.Policy.WithCheck != nil {
-				withCheck = sqlparser.String(stmt.Policy.WithCheck.Expr)
+				withCheck = formatNode(mode, stmt.Policy.WithCheck.Expr)
 			}
 			return &AddPolicy{
 				statement: ddl,
@@ -394,12 +394,12 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			return &View{
 				statement:  ddl,
 				name:       stmt.View.Name.Name.String(),
-				definition: sqlparser.String(stmt.View.Definition),
+				definition: formatNode(mode, stmt.View.Definition),
 			}, nil
 		} else if stmt.Action == "create trigger" {
 			body := []string{}
 			for _, triggerStatement := range stmt.Trigger.Body {
-				body = append(body, sqlparser.String(triggerStatement))
+				body = append(body, formatNode(mode, triggerStatement))
 			}
 
 			return &Trigger{
@@ -445,6 +445,39 @@ func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
 	return result, nil
 }
 
+// Print an expression or a statement with the quotes of the database. `sqlparser.String` uses MySQL's ones.
+func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
+	if mode == GeneratorModeMysql {
+		return sqlparser.String(node)
+	}
+
+	formatName := func(buf *sqlparser.TrackedBuffer, node sqlparser.SQLNode, name string) {
+		quoted := sqlparser.String(node)
+		if strings.HasPrefix(quoted, "`") {
+			quoted = (&Generator{mode: mode}).escapeSQLName(name)
+		}
+		buf.Myprintf("%s", quoted)
+	}
+	buf := sqlparser.NewTrackedBuffer(func(buf *sqlparser.TrackedBuffer, node sqlparser.SQLNode) {
+		switch node := node.(type) {
+		case sqlparser.ColIdent:
+			formatName(buf, node, node.String())
+		case sqlparser.TableIdent:
+			formatName(buf, node, node.String())
+		case *sqlparser.SQLVal:
+			if node.Type == sqlparser.StrVal {
+				buf.Myprintf("'%s'", strings.Replace(string(node.Val), "'", "''", -1))
+			} else {
+				node.Format(buf)
+			}
+		default:
+			node.Format(buf)
+		}
+	})
+	buf.Myprintf("%v", node)
+	return buf.String()
+}
+
 // Replace pseudo collation "binary" with "{charset}_bin"
 func normalizeCollate(collate string, table sqlparser.TableSpec) string {
 	if collate == "binary" {
-- 
2.43.0


From 883a573d29a1e9bd012f23a6009917f1e3d22089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 45/85] fix: qualify PostgreSQL indexes and views, and replace
 or drop views before what they need

---
 schema/ast.go       |  1 +
 schema/generator.go | 45 +++++++++++++++++++++++++++++++++++----------
 schema/parser.go    | 18 +++++++++++++++++-
 3 files changed, 53 insertions(+), 11 deletions(-)

diff --git a/schema/ast.go b/schema/ast.go
index a79661a..b5bc7c0 100644
--- a/schema/ast.go
+++ b/schema/ast.go
@@ -135,6 +135,7 @@ type View struct {
 	statement  string
 	name       string
 	definition string
+	columns    []string
 }
 
 type Trigger struct {
diff --git a/schema/generator.go b/schema/generator.go
index 3bf760e..9b04ff1 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -188,6 +188,14 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 			// TODO: simulate to remove index from `currentTable.indexes`?
 		}
 
+		// Check policies.
+		for _, policy := range currentTable.policies {
+			if containsString(convertPolicyNames(desiredTable.policies), policy.name) {
+				continue
+			}
+			ddls = append(ddls, fmt.Sprintf("DROP POLICY %s ON %s", g.escapeSQLName(policy.name), g.escapeTableName(currentTable.name)))
+		}
+
 		// Check columns.
 		for _, column := range currentTable.columns {
 			if containsString(convertColumnsToColumnNames(desiredTable.columns), column.name) {
@@ -204,24 +212,22 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 			ddls = append(ddls, columnDDLs...)
 			// TODO: simulate to remove column from `currentTable.columns`?
 		}
-
-		// Check policies.
-		for _, policy := range currentTable.policies {
-			if containsString(convertPolicyNames(desiredTable.policies), policy.name) {
-				continue
-			}
-			ddls = append(ddls, fmt.Sprintf("DROP POLICY %s ON %s", g.escapeSQLName(policy.name), g.escapeTableName(currentTable.name)))
-		}
 	}
 
 	// Clean up obsoleted views
+	absentViewDDLs := []string{}
 	for _, currentView := range g.currentViews {
 		if containsString(convertViewNames(g.desiredViews), currentView.name) {
 			continue
 		}
-		ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(currentView.name)))
+		absentViewDDLs = append(absentViewDDLs, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(currentView.name)))
 	}
 
+	if g.mode == GeneratorModePostgres {
+		// PostgreSQL refuses to drop or change what a view depends on.
+		return append(absentViewDDLs, ddls...), nil
+	}
+	ddls = append(ddls, absentViewDDLs...)
 	return append(ddls, absentColumnDDLs...), nil
 }
 
@@ -711,7 +717,7 @@ func (g *Generator) generateDDLsForCreateView(viewName string, desiredView *View
 	} else {
 		// View found. If it's different, create or replace view.
 		if strings.ToLower(currentView.definition) != strings.ToLower(desiredView.definition) {
-			if g.mode == GeneratorModeSQLite3 || g.mode == GeneratorModeMssql {
+			if g.mode == GeneratorModeSQLite3 || g.mode == GeneratorModeMssql || (g.mode == GeneratorModePostgres && !addsColumns(currentView, desiredView)) {
 				ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(viewName)))
 				ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", g.escapeTableName(viewName), desiredView.definition))
 			} else {
@@ -729,6 +735,19 @@ func (g *Generator) generateDDLsForCreateView(viewName string, desiredView *View
 	return ddls, nil
 }
 
+// PostgreSQL can replace a view only when columns are kept or added to the end.
+func addsColumns(currentView *View, desiredView *View) bool {
+	if len(currentView.columns) > len(desiredView.columns) {
+		return false
+	}
+	for i, column := range currentView.columns {
+		if column != desiredView.columns[i] {
+			return false
+		}
+	}
+	return true
+}
+
 func (g *Generator) generateDDLsForCreateTrigger(triggerName string, desiredTrigger *Trigger) ([]string, error) {
 	var ddls []string
 	currentTrigger := findTriggerByName(g.currentTriggers, triggerName)
@@ -775,6 +794,9 @@ func (g *Generator) generateDDLsForAbsentForeignKey(currentForeignKey ForeignKey
 	case GeneratorModePostgres, GeneratorModeMssql:
 		var referencesColumn *Column
 		for _, column := range desiredTable.columns {
+			if g.mode == GeneratorModePostgres && column.name != currentForeignKey.indexColumns[0] {
+				continue // This is not what the column's REFERENCES makes.
+			}
 			if column.references == currentForeignKey.referenceName {
 				referencesColumn = &column
 				break
@@ -1101,6 +1123,9 @@ func (g *Generator) generateDropIndex(tableName string, indexName string) string
 	case GeneratorModeMysql:
 		return fmt.Sprintf("ALTER TABLE %s DROP INDEX %s", g.escapeTableName(tableName), g.escapeSQLName(indexName))
 	case GeneratorModePostgres:
+		if schemaTable := strings.SplitN(tableName, ".", 2); len(schemaTable) == 2 && schemaTable[0] != "public" {
+			return fmt.Sprintf("DROP INDEX %s.%s", g.escapeSQLName(schemaTable[0]), g.escapeSQLName(indexName))
+		}
 		return fmt.Sprintf("DROP INDEX %s", g.escapeSQLName(indexName))
 	case GeneratorModeMssql:
 		return fmt.Sprintf("DROP INDEX %s ON %s", g.escapeSQLName(indexName), g.escapeTableName(tableName))
diff --git a/schema/parser.go b/schema/parser.go
index 6392d53..d7fd343 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -393,8 +393,9 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 		} else if stmt.Action == "create view" {
 			return &View{
 				statement:  ddl,
-				name:       stmt.View.Name.Name.String(),
+				name:       normalizedTableName(mode, stmt.View.Name),
 				definition: formatNode(mode, stmt.View.Definition),
+				columns:    parseViewColumns(mode, stmt.View.Definition),
 			}, nil
 		} else if stmt.Action == "create trigger" {
 			body := []string{}
@@ -421,6 +422,21 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 	}
 }
 
+func parseViewColumns(mode GeneratorMode, definition sqlparser.SelectStatement) []string {
+	columns := []string{}
+	switch definition := definition.(type) {
+	case *sqlparser.Select:
+		for _, selectExpr := range definition.SelectExprs {
+			columns = append(columns, formatNode(mode, selectExpr))
+		}
+	case *sqlparser.Union:
+		columns = parseViewColumns(mode, definition.Left)
+	case *sqlparser.ParenSelect:
+		columns = parseViewColumns(mode, definition.Select)
+	}
+	return columns
+}
+
 // Parse `ddls`, which is expected to `;`-concatenated DDLs
 // and not to include destructive DDL.
 func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
-- 
2.43.0


From 595d58b27631c6b4bcf5a405f7f11ba968cc6f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 46/85] fix: compare literals of views, triggers and policies
 exactly, and all parts of policies

---
 schema/generator.go | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 9b04ff1..c6dfcd1 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -716,7 +716,7 @@ func (g *Generator) generateDDLsForCreateView(viewName string, desiredView *View
 		ddls = append(ddls, desiredView.statement)
 	} else {
 		// View found. If it's different, create or replace view.
-		if strings.ToLower(currentView.definition) != strings.ToLower(desiredView.definition) {
+		if normalizeDefinition(currentView.definition) != normalizeDefinition(desiredView.definition) {
 			if g.mode == GeneratorModeSQLite3 || g.mode == GeneratorModeMssql || (g.mode == GeneratorModePostgres && !addsColumns(currentView, desiredView)) {
 				ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(viewName)))
 				ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", g.escapeTableName(viewName), desiredView.definition))
@@ -1487,9 +1487,7 @@ func areSameTriggerDefinition(triggerA, triggerB *Trigger) bool {
 		return false
 	}
 	for i := 0; i < len(triggerA.body); i++ {
-		bodyA := strings.ToLower(strings.Replace(triggerA.body[i], " ", "", -1))
-		bodyB := strings.ToLower(strings.Replace(triggerB.body[i], " ", "", -1))
-		if bodyA != bodyB {
+		if normalizeSpaces(normalizeDefinition(triggerA.body[i])) != normalizeSpaces(normalizeDefinition(triggerB.body[i])) {
 			return false
 		}
 	}
@@ -1627,11 +1625,8 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
 		return false
 	}
-	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) {
-		return fmt.Sprintf("(%s)", policyA.using) == policyB.using
-	}
-	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) {
-		return fmt.Sprintf("(%s)", policyA.withCheck) == policyB.withCheck
+	if !areSamePolicyExpressions(policyA.using, policyB.using) || !areSamePolicyExpressions(policyA.withCheck, policyB.withCheck) {
+		return false
 	}
 	if len(policyA.roles) != len(policyB.roles) {
 		return false
@@ -1650,6 +1645,38 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	return true
 }
 
+func areSamePolicyExpressions(exprA, exprB string) bool {
+	exprA = normalizeDefinition(exprA)
+	exprB = normalizeDefinition(exprB)
+	return exprA == exprB || fmt.Sprintf("(%s)", exprA) == exprB
+}
+
+var stringLiteral = regexp.MustCompile(`'(?:[^'\\]|\\.|'')*'`)
+
+// Ignore cases of everything but string literals
+func normalizeDefinition(definition string) string {
+	return replaceUnquoted(definition, strings.ToLower)
+}
+
+// Ignore spaces of everything but string literals
+func normalizeSpaces(definition string) string {
+	return replaceUnquoted(definition, func(str string) string {
+		return strings.Replace(str, " ", "", -1)
+	})
+}
+
+func replaceUnquoted(definition string, replace func(string) string) string {
+	var builder strings.Builder
+	end := 0
+	for _, literal := range stringLiteral.FindAllStringIndex(definition, -1) {
+		builder.WriteString(replace(definition[end:literal[0]]))
+		builder.WriteString(definition[literal[0]:literal[1]])
+		end = literal[1]
+	}
+	builder.WriteString(replace(definition[end:]))
+	return builder.String()
+}
+
 func (g *Generator) normalizeOnUpdate(onUpdate string) string {
 	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onUpdate == "" {
 		return "NO ACTION"
-- 
2.43.0


From 1ae79e416f6ab594b4ce1bb570d4985e7f8a6c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 47/85] fix: fold names that aren't quoted in PostgreSQL

---
 schema/parser.go   | 2 +-
 sqlparser/token.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index d7fd343..b8b4c0e 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -469,7 +469,7 @@ func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 
 	formatName := func(buf *sqlparser.TrackedBuffer, node sqlparser.SQLNode, name string) {
 		quoted := sqlparser.String(node)
-		if strings.HasPrefix(quoted, "`") {
+		if strings.HasPrefix(quoted, "`") || mode == GeneratorModePostgres && strings.ToLower(name) != name {
 			quoted = (&Generator{mode: mode}).escapeSQLName(name)
 		}
 		buf.Myprintf("%s", quoted)
diff --git a/sqlparser/token.go b/sqlparser/token.go
index 46c2c0f..776a8d9 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -721,6 +721,10 @@ func (tkn *Tokenizer) scanIdentifier(firstByte byte, isDbSystemVariable bool) (i
 	if loweredStr == "dual" {
 		return ID, lowered
 	}
+	// PostgreSQL folds names that aren't quoted to lower case
+	if tkn.mode == ParserModePostgres {
+		return ID, lowered
+	}
 	return ID, buffer.Bytes()
 }
 
-- 
2.43.0


From 55d8b041ef41ce18ec0977f18f14051159aa1b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 48/85] fix: compare PostgreSQL's quoted names of views exactly

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index c6dfcd1..8dc4be3 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1651,7 +1651,7 @@ func areSamePolicyExpressions(exprA, exprB string) bool {
 	return exprA == exprB || fmt.Sprintf("(%s)", exprA) == exprB
 }
 
-var stringLiteral = regexp.MustCompile(`'(?:[^'\\]|\\.|'')*'`)
+var stringLiteral = regexp.MustCompile(`'(?:[^'\\]|\\.|'')*'|"[^"]*"`) // and PostgreSQL's quoted names
 
 // Ignore cases of everything but string literals
 func normalizeDefinition(definition string) string {
-- 
2.43.0


From 661e5228b4de314a6a95a11bd5c6c68b9bd4d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 49/85] fix: split statements outside of quoted strings and
 comments

---
 schema/parser.go | 65 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 6 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index b8b4c0e..d9af54f 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -4,7 +4,6 @@ package schema
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -440,14 +439,11 @@ func parseViewColumns(mode GeneratorMode, definition sqlparser.SelectStatement)
 // Parse `ddls`, which is expected to `;`-concatenated DDLs
 // and not to include destructive DDL.
 func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
-	re := regexp.MustCompilePOSIX("^--.*")
-	str = re.ReplaceAllString(str, "")
-
-	ddls := strings.Split(str, ";")
+	ddls := splitDDLs(mode, str)
 	result := []DDL{}
 
 	for _, ddl := range ddls {
-		ddl = strings.TrimSpace(ddl) // TODO: trim trailing comment as well, or ignore it by parser somehow?
+		ddl = strings.TrimSpace(ddl)
 		if len(ddl) == 0 {
 			continue
 		}
@@ -461,6 +457,63 @@ func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
 	return result, nil
 }
 
+// Split `;`-concatenated DDLs, and remove comments except ones the parser skips. A quoted string, a quoted name
+// and a comment don't have them.
+func splitDDLs(mode GeneratorMode, str string) []string {
+	ddls := []string{}
+	var ddl strings.Builder
+	skipTo := func(start int, end string) int { // index next to the `end`
+		if i := strings.Index(str[start:], end); i >= 0 {
+			return start + i + len(end)
+		}
+		return len(str)
+	}
+
+	for i := 0; i < len(str); {
+		next := i + 1
+		switch {
+		case str[i] == ';':
+			ddls = append(ddls, ddl.String())
+			ddl.Reset()
+			i = next
+			continue
+		case strings.HasPrefix(str[i:], "--") && (mode != GeneratorModeMysql || i == 0 || str[i-1] == '\n' || i+2 == len(str) || str[i+2] <= ' '),
+			str[i] == '#' && mode == GeneratorModeMysql:
+			i = skipTo(i, "\n")
+			if i < len(str) {
+				ddl.WriteByte('\n')
+			}
+			continue
+		case strings.HasPrefix(str[i:], "/*") && !strings.HasPrefix(str[i:], "/*!"):
+			next = skipTo(i+2, "*/")
+			if strings.TrimSpace(ddl.String()) == "" { // not inside a DDL
+				i = next
+				continue
+			}
+		case strings.HasPrefix(str[i:], "/*!"):
+			next = skipTo(i+2, "*/")
+		case str[i] == '\'' || str[i] == '"':
+			for next < len(str) && str[next] != str[i] {
+				if str[next] == '\\' && mode == GeneratorModeMysql {
+					next++
+				}
+				next++
+			}
+			next++
+		case str[i] == '`' && mode != GeneratorModePostgres:
+			next = skipTo(i+1, "`")
+		case str[i] == '[' && mode == GeneratorModeMssql:
+			next = skipTo(i+1, "]")
+		}
+		if next > len(str) {
+			next = len(str)
+		}
+		ddl.WriteString(str[i:next])
+		i = next
+	}
+	return append(ddls, ddl.String())
+}
+
 // Print an expression or a statement with the quotes of the database. `sqlparser.String` uses MySQL's ones.
 func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 	if mode == GeneratorModeMysql {
-- 
2.43.0


From d3505d9b8a92eb6710ef6baf63e778ece2a02c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 50/85] fix: notice changed methods of PostgreSQL indexes

---
 schema/ast.go       | 1 +
 schema/generator.go | 3 +++
 schema/parser.go    | 6 ++++++
 3 files changed, 10 insertions(+)

diff --git a/schema/ast.go b/schema/ast.go
index b5bc7c0..cbaa54c 100644
--- a/schema/ast.go
+++ b/schema/ast.go
@@ -85,6 +85,7 @@ type Index struct {
 	clustered bool           // for MSSQL
 	partition IndexPartition // for MSSQL
 	options   []IndexOption
+	method    string // for Postgres, "" for the default one
 }
 
 type IndexColumn struct {
diff --git a/schema/generator.go b/schema/generator.go
index 8dc4be3..9ed1b25 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1564,6 +1564,9 @@ func areSameIndexes(indexA Index, indexB Index) bool {
 	if indexA.where != indexB.where {
 		return false
 	}
+	if indexA.method != indexB.method {
+		return false
+	}
 
 	if len(indexA.included) != len(indexB.included) {
 		return false
diff --git a/schema/parser.go b/schema/parser.go
index d9af54f..f7626ed 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -262,6 +262,11 @@ func parseIndex(mode GeneratorMode, stmt *sqlparser.DDL) (Index, error) {
 		indexParition.column = stmt.IndexSpec.Partition.Column
 	}
 
+	method := stmt.IndexSpec.Type.Lowered()
+	if mode != GeneratorModePostgres || method == "btree" {
+		method = ""
+	}
+
 	return Index{
 		name:      stmt.IndexSpec.Name.String(),
 		indexType: "", // not supported in parser yet
@@ -273,6 +278,7 @@ func parseIndex(mode GeneratorMode, stmt *sqlparser.DDL) (Index, error) {
 		included:  includedColumns,
 		options:   indexOptions,
 		partition: indexParition,
+		method:    method,
 	}, nil
 }
 
-- 
2.43.0


From 6cb125ccac0f660708f0cf108a9752834191d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 51/85] fix: compare PostgreSQL checks, predicates and policies
 whatever their parentheses, and know decimal and float

---
 adapter/postgres/postgres.go |  4 ++--
 schema/ast.go                |  1 +
 schema/generator.go          | 16 ++++++++++++----
 schema/parser.go             | 32 +++++++++++++++++++++++++-------
 4 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index b4545a0..f3c17b0 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -394,10 +394,10 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 			quoteName(policyName), escapeTableName(schema, table), permissive, cmd, roles,
 		)
 		if using.Valid {
-			def += fmt.Sprintf(" USING %s", using.String)
+			def += fmt.Sprintf(" USING (%s)", using.String)
 		}
 		if withCheck.Valid {
-			def += fmt.Sprintf(" WITH CHECK %s", withCheck.String)
+			def += fmt.Sprintf(" WITH CHECK (%s)", withCheck.String)
 		}
 		defs = append(defs, def)
 	}
diff --git a/schema/ast.go b/schema/ast.go
index cbaa54c..0cd2687 100644
--- a/schema/ast.go
+++ b/schema/ast.go
@@ -211,6 +211,7 @@ type DefaultDefinition struct {
 
 type CheckDefinition struct {
 	definition        string
+	normalized        string // the definition to be compared
 	constraintName    string
 	notForReplication bool
 }
diff --git a/schema/generator.go b/schema/generator.go
index 9ed1b25..259e134 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -27,6 +27,10 @@ var (
 		"char":    "character",
 		"varchar": "character varying",
 	}
+	postgresDataTypeAliases = map[string]string{
+		"decimal": "numeric",
+		"float":   "double precision",
+	}
 	mysqlDataTypeAliases = map[string]string{
 		"boolean":          "tinyint",
 		"numeric":          "decimal",
@@ -1425,7 +1429,7 @@ func areSameCheckDefinition(checkA *CheckDefinition, checkB *CheckDefinition) bo
 	if checkA == nil || checkB == nil {
 		return false
 	}
-	return checkA.definition == checkB.definition && checkA.notForReplication == checkB.notForReplication
+	return checkA.normalized == checkB.normalized && checkA.notForReplication == checkB.notForReplication
 }
 
 func areSameIdentityDefinition(identityA *Identity, identityB *Identity) bool {
@@ -1509,6 +1513,12 @@ func (g *Generator) normalizeDataType(dataType string) string {
 			dataType = alias
 		}
 	}
+	if g.mode == GeneratorModePostgres {
+		alias, ok = postgresDataTypeAliases[dataType]
+		if ok {
+			dataType = alias
+		}
+	}
 	return dataType
 }
 
@@ -1649,9 +1659,7 @@ func areSamePolicies(policyA, policyB Policy) bool {
 }
 
 func areSamePolicyExpressions(exprA, exprB string) bool {
-	exprA = normalizeDefinition(exprA)
-	exprB = normalizeDefinition(exprB)
-	return exprA == exprB || fmt.Sprintf("(%s)", exprA) == exprB
+	return normalizeDefinition(exprA) == normalizeDefinition(exprB)
 }
 
 var stringLiteral = regexp.MustCompile(`'(?:[^'\\]|\\.|'')*'|"[^"]*"`) // and PostgreSQL's quoted names
diff --git a/schema/parser.go b/schema/parser.go
index f7626ed..3826432 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -121,6 +121,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 		if parsedCol.Type.Check != nil {
 			column.check = &CheckDefinition{
 				definition:        formatNode(mode, parsedCol.Type.Check.Where.Expr),
+				normalized:        formatNormalized(mode, parsedCol.Type.Check.Where.Expr),
 				constraintName:    parsedCol.Type.Check.ConstraintName.String(),
 				notForReplication: parsedCol.Type.Check.NotForReplication,
 			}
@@ -233,11 +234,7 @@ func parseIndex(mode GeneratorMode, stmt *sqlparser.DDL) (Index, error) {
 	where := ""
 	if stmt.IndexSpec.Where != nil && stmt.IndexSpec.Where.Type == sqlparser.WhereStr {
 		expr := stmt.IndexSpec.Where.Expr
-		// remove root paren expression
-		if parenExpr, ok := expr.(*sqlparser.ParenExpr); ok {
-			expr = parenExpr.Expr
-		}
-		where = formatNode(mode, expr)
+		where = formatNormalized(mode, expr)
 	}
 
 	includedColumns := []string{}
@@ -378,10 +375,10 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			}
 			var using, withCheck string
 			if stmt.Policy.Using != nil {
-				using = formatNode(mode, stmt.Policy.Using.Expr)
+				using = formatNormalized(mode, stmt.Policy.Using.Expr)
 			}
 			if stmt.Policy.WithCheck != nil {
-				withCheck = formatNode(mode, stmt.Policy.WithCheck.Expr)
+				withCheck = formatNormalized(mode, stmt.Policy.WithCheck.Expr)
 			}
 			return &AddPolicy{
 				statement: ddl,
@@ -553,6 +550,27 @@ func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 	return buf.String()
 }
 
+// Print an expression with parentheses around all operations, whether they had ones or not, to compare it.
+func formatNormalized(mode GeneratorMode, node sqlparser.Expr) string {
+	buf := sqlparser.NewTrackedBuffer(func(buf *sqlparser.TrackedBuffer, node sqlparser.SQLNode) {
+		switch node := node.(type) {
+		case *sqlparser.ParenExpr:
+			buf.Myprintf("%v", node.Expr)
+		case *sqlparser.AndExpr, *sqlparser.OrExpr, *sqlparser.NotExpr, *sqlparser.ComparisonExpr, *sqlparser.RangeCond,
+			*sqlparser.IsExpr, *sqlparser.BinaryExpr, *sqlparser.UnaryExpr, *sqlparser.CollateExpr:
+			buf.Myprintf("(")
+			node.Format(buf)
+			buf.Myprintf(")")
+		case sqlparser.ColIdent, sqlparser.TableIdent, *sqlparser.SQLVal:
+			buf.Myprintf("%s", formatNode(mode, node))
+		default:
+			node.Format(buf)
+		}
+	})
+	buf.Myprintf("%v", node)
+	return buf.String()
+}
+
 // Replace pseudo collation "binary" with "{charset}_bin"
 func normalizeCollate(collate string, table sqlparser.TableSpec) string {
 	if collate == "binary" {
-- 
2.43.0


From c7257f2ae4a4cf366174f3a855411aaef887792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 52/85] fix: quote roles in dumps of PostgreSQL policies

---
 adapter/postgres/postgres.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index f3c17b0..7c94ac1 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -10,7 +10,7 @@ import (
 	"strings"
 
 	"github.com/k0kubun/sqldef/adapter"
-	_ "github.com/lib/pq"
+	"github.com/lib/pq"
 )
 
 const indent = "    "
@@ -363,11 +363,6 @@ func (d *PostgresDatabase) queryStrings(query string, args ...interface{}) ([]st
 	return strs, rows.Err()
 }
 
-var (
-	policyRolesPrefixRegex = regexp.MustCompile(`^{`)
-	policyRolesSuffixRegex = regexp.MustCompile(`}$`)
-)
-
 func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 	const query = "SELECT policyname, permissive, roles, cmd, qual, with_check FROM pg_policies WHERE schemaname = $1 AND tablename = $2;"
 	schema, table := splitTableName(table)
@@ -380,18 +375,22 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 	defs := make([]string, 0)
 	for rows.Next() {
 		var (
-			policyName, permissive, roles, cmd string
-			using, withCheck                   sql.NullString
+			policyName, permissive, cmd string
+			roles                       pq.StringArray
+			using, withCheck            sql.NullString
 		)
 		err = rows.Scan(&policyName, &permissive, &roles, &cmd, &using, &withCheck)
 		if err != nil {
 			return nil, err
 		}
-		roles = policyRolesPrefixRegex.ReplaceAllString(roles, "")
-		roles = policyRolesSuffixRegex.ReplaceAllString(roles, "")
+		for i, role := range roles {
+			if role != "public" {
+				roles[i] = quoteName(role)
+			}
+		}
 		def := fmt.Sprintf(
 			"CREATE POLICY %s ON %s AS %s FOR %s TO %s",
-			quoteName(policyName), escapeTableName(schema, table), permissive, cmd, roles,
+			quoteName(policyName), escapeTableName(schema, table), permissive, cmd, strings.Join(roles, ", "),
 		)
 		if using.Valid {
 			def += fmt.Sprintf(" USING (%s)", using.String)
-- 
2.43.0


From 6f635687761a372c71bd2651171e6d985e2e41c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:01 +0000
Subject: [PATCH 53/85] fix: refuse a schema file with a comment that doesn't
 end

---
 schema/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index 3826432..a0d390e 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -489,7 +489,7 @@ func splitDDLs(mode GeneratorMode, str string) []string {
 			continue
 		case strings.HasPrefix(str[i:], "/*") && !strings.HasPrefix(str[i:], "/*!"):
 			next = skipTo(i+2, "*/")
-			if strings.TrimSpace(ddl.String()) == "" { // not inside a DDL
+			if strings.TrimSpace(ddl.String()) == "" && strings.Contains(str[i+2:], "*/") { // not inside a DDL
 				i = next
 				continue
 			}
-- 
2.43.0


From 21d614945ba954b77041f45bc7001959ac9fdd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 54/85] fix: refuse a table with two primary keys, or two
 indexes or foreign keys of the same name

---
 schema/parser.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index a0d390e..63ba53e 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -202,12 +202,40 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 		foreignKeys = append(foreignKeys, foreignKey)
 	}
 
-	return Table{
+	table := Table{
 		name:        normalizedTableName(mode, stmt.NewName),
 		columns:     columns,
 		indexes:     indexes,
 		foreignKeys: foreignKeys,
-	}, nil
+	}
+	return table, validateKeys(table)
+}
+
+// A table can't have two primary keys, nor two indexes or two foreign keys of the same name.
+func validateKeys(table Table) error {
+	primaryKeys := 0
+	for _, column := range table.columns {
+		if column.keyOption == ColumnKeyPrimary {
+			primaryKeys++
+		}
+	}
+	for i, index := range table.indexes {
+		if index.primary {
+			primaryKeys++
+		}
+		if index.name != "" && findIndexByName(table.indexes[:i], index.name) != nil {
+			return fmt.Errorf("index '%s' is doubly created against table '%s'", index.name, table.name)
+		}
+	}
+	if primaryKeys > 1 {
+		return fmt.Errorf("primary key is doubly created against table '%s'", table.name)
+	}
+	for i, foreignKey := range table.foreignKeys {
+		if foreignKey.constraintName != "" && findForeignKeyByName(table.foreignKeys[:i], foreignKey.constraintName) != nil {
+			return fmt.Errorf("foreign key '%s' is doubly created against table '%s'", foreignKey.constraintName, table.name)
+		}
+	}
+	return nil
 }
 
 func parseIndex(mode GeneratorMode, stmt *sqlparser.DDL) (Index, error) {
-- 
2.43.0


From bc9478efa1050c2591bd0e0170a35e0778373daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 55/85] fix: connect to MySQL and MSSQL with any user name,
 password, database and host

---
 adapter/mssql/mssql.go |  4 +++-
 adapter/mysql/mysql.go | 13 ++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 8e30427..07639bb 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -3,8 +3,10 @@ package mssql
 import (
 	"database/sql"
 	"fmt"
+	"net"
 	"net/url"
 	"regexp"
+	"strconv"
 	"strings"
 
 	_ "github.com/denisenkom/go-mssqldb"
@@ -486,7 +488,7 @@ func mssqlBuildDSN(config adapter.Config) string {
 	u := &url.URL{
 		Scheme:   "sqlserver",
 		User:     url.UserPassword(config.User, config.Password),
-		Host:     fmt.Sprintf("%s:%d", config.Host, config.Port),
+		Host:     net.JoinHostPort(strings.Trim(config.Host, "[]"), strconv.Itoa(config.Port)),
 		RawQuery: query.Encode(),
 	}
 	return u.String()
diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 746b46c..09e6689 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -3,6 +3,8 @@ package mysql
 import (
 	"database/sql"
 	"fmt"
+	"net"
+	"strconv"
 	"strings"
 
 	driver "github.com/go-sql-driver/mysql"
@@ -15,13 +17,14 @@ type MysqlDatabase struct {
 }
 
 func NewDatabase(config adapter.Config) (adapter.Database, error) {
-	db, err := sql.Open("mysql", mysqlBuildDSN(config))
+	// A DSN can't have all of the names and passwords.
+	connector, err := driver.NewConnector(mysqlBuildConfig(config))
 	if err != nil {
 		return nil, err
 	}
 
 	return &MysqlDatabase{
-		db:     db,
+		db:     sql.OpenDB(connector),
 		config: config,
 	}, nil
 }
@@ -158,17 +161,17 @@ func quoteString(s string) string {
 	return "'" + strings.NewReplacer("\\", "\\\\", "'", "''").Replace(s) + "'"
 }
 
-func mysqlBuildDSN(config adapter.Config) string {
+func mysqlBuildConfig(config adapter.Config) *driver.Config {
 	c := driver.NewConfig()
 	c.User = config.User
 	c.Passwd = config.Password
 	c.DBName = config.DbName
 	if config.Socket == "" {
 		c.Net = "tcp"
-		c.Addr = fmt.Sprintf("%s:%d", config.Host, config.Port)
+		c.Addr = net.JoinHostPort(strings.Trim(config.Host, "[]"), strconv.Itoa(config.Port))
 	} else {
 		c.Net = "unix"
 		c.Addr = config.Socket
 	}
-	return c.FormatDSN()
+	return c
 }
-- 
2.43.0


From bdd7afed43577ec14856c8e7ffe6104dc2bdc54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 56/85] fix: connect to PostgreSQL with any user name,
 password, database and socket

---
 adapter/postgres/postgres.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 7c94ac1..ad215a5 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -3,7 +3,6 @@ package postgres
 import (
 	"database/sql"
 	"fmt"
-	"net/url"
 	"os"
 	"regexp"
 	"strconv"
@@ -412,27 +411,27 @@ func (d *PostgresDatabase) Close() error {
 }
 
 func postgresBuildDSN(config adapter.Config) string {
-	user := config.User
-	password := config.Password
-	database := config.DbName
-	host := ""
-	if config.Socket == "" {
-		host = fmt.Sprintf("%s:%d", config.Host, config.Port)
-	} else {
+	host := strings.Trim(config.Host, "[]")
+	if config.Socket != "" {
 		host = config.Socket
 	}
 
 	var options []string
-	if sslmode, ok := os.LookupEnv("PGSSLMODE"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslmode=%s", sslmode)) // TODO: uri escape
-	}
-
-	if sslrootcert, ok := os.LookupEnv("PGSSLROOTCERT"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslrootcert=%s", sslrootcert))
+	for _, option := range [][]string{
+		{"user", config.User},
+		{"password", config.Password},
+		{"host", host},
+		{"port", strconv.Itoa(config.Port)},
+		{"dbname", config.DbName},
+		{"sslmode", os.Getenv("PGSSLMODE")}, // TODO: have this in adapter.Config, or standardize config with DSN?
+		{"sslrootcert", os.Getenv("PGSSLROOTCERT")},
+	} {
+		if option[1] != "" {
+			value := strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(option[1])
+			options = append(options, fmt.Sprintf("%s='%s'", option[0], value))
+		}
 	}
-
-	// `QueryEscape` instead of `PathEscape` so that colon can be escaped.
-	return fmt.Sprintf("postgres://%s:%s@%s/%s?%s", url.QueryEscape(user), url.QueryEscape(password), host, database, strings.Join(options, "&"))
+	return strings.Join(options, " ")
 }
 
 func splitTableName(table string) (string, string) {
-- 
2.43.0


From 650d9343f863432faf7d891102dc18d97319242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 57/85] fix: open SQLite files with a question mark in their
 names

---
 adapter/sqlite3/sqlite3.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index 6d78233..792689c 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -2,6 +2,7 @@ package sqlite3
 
 import (
 	"database/sql"
+	"strings"
 
 	"github.com/k0kubun/sqldef/adapter"
 	_ "github.com/mattn/go-sqlite3"
@@ -13,7 +14,16 @@ type Sqlite3Database struct {
 }
 
 func NewDatabase(config adapter.Config) (adapter.Database, error) {
-	db, err := sql.Open("sqlite3", config.DbName)
+	name := config.DbName
+	if strings.Contains(name, "?") && !strings.HasPrefix(name, "file:") {
+		// Otherwise what follows the `?` is not a part of the name.
+		name = strings.NewReplacer("%", "%25", "?", "%3f", "#", "%23").Replace(name)
+		if strings.HasPrefix(name, "/") {
+			name = "//" + name
+		}
+		name = "file:" + name
+	}
+	db, err := sql.Open("sqlite3", name)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 88b616cd0a092f31d65445ec43c5ae4dce77fcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 58/85] fix: take option values that begin with a double quote
 as they are

---
 cmd/mssqldef/mssqldef.go     |  8 ++++----
 cmd/mysqldef/mysqldef.go     | 10 +++++-----
 cmd/psqldef/psqldef.go       |  8 ++++----
 cmd/sqlite3def/sqlite3def.go |  2 +-
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/cmd/mssqldef/mssqldef.go b/cmd/mssqldef/mssqldef.go
index b99b028..763111d 100644
--- a/cmd/mssqldef/mssqldef.go
+++ b/cmd/mssqldef/mssqldef.go
@@ -20,12 +20,12 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		User     string `short:"U" long:"user" description:"MSSQL user name" value-name:"user_name" default:"sa"`
-		Password string `short:"P" long:"password" description:"MSSQL user password, overridden by $MSSQL_PWD" value-name:"password"`
-		Host     string `short:"h" long:"host" description:"Host to connect to the MSSQL server" value-name:"host_name" default:"127.0.0.1"`
+		User     string `short:"U" long:"user" description:"MSSQL user name" value-name:"user_name" default:"sa" unquote:"false"`
+		Password string `short:"P" long:"password" description:"MSSQL user password, overridden by $MSSQL_PWD" value-name:"password" unquote:"false"`
+		Host     string `short:"h" long:"host" description:"Host to connect to the MSSQL server" value-name:"host_name" default:"127.0.0.1" unquote:"false"`
 		Port     uint   `short:"p" long:"port" description:"Port used for the connection" value-name:"port_num" default:"1433"`
 		Prompt   bool   `long:"password-prompt" description:"Force MSSQL user password prompt"`
-		File     string `long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"sql_file" default:"-"`
+		File     string `long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"sql_file" default:"-" unquote:"false"`
 		DryRun   bool   `long:"dry-run" description:"Don't run DDLs but just show them"`
 		Export   bool   `long:"export" description:"Just dump the current schema to stdout"`
 		SkipDrop bool   `long:"skip-drop" description:"Skip destructive changes such as DROP"`
diff --git a/cmd/mysqldef/mysqldef.go b/cmd/mysqldef/mysqldef.go
index 700dc9a..8dae3a5 100644
--- a/cmd/mysqldef/mysqldef.go
+++ b/cmd/mysqldef/mysqldef.go
@@ -20,13 +20,13 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		User     string `short:"u" long:"user" description:"MySQL user name" value-name:"user_name" default:"root"`
-		Password string `short:"p" long:"password" description:"MySQL user password, overridden by $MYSQL_PWD" value-name:"password"`
-		Host     string `short:"h" long:"host" description:"Host to connect to the MySQL server" value-name:"host_name" default:"127.0.0.1"`
+		User     string `short:"u" long:"user" description:"MySQL user name" value-name:"user_name" default:"root" unquote:"false"`
+		Password string `short:"p" long:"password" description:"MySQL user password, overridden by $MYSQL_PWD" value-name:"password" unquote:"false"`
+		Host     string `short:"h" long:"host" description:"Host to connect to the MySQL server" value-name:"host_name" default:"127.0.0.1" unquote:"false"`
 		Port     uint   `short:"P" long:"port" description:"Port used for the connection" value-name:"port_num" default:"3306"`
-		Socket   string `short:"S" long:"socket" description:"The socket file to use for connection" value-name:"socket"`
+		Socket   string `short:"S" long:"socket" description:"The socket file to use for connection" value-name:"socket" unquote:"false"`
 		Prompt   bool   `long:"password-prompt" description:"Force MySQL user password prompt"`
-		File     string `long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"sql_file" default:"-"`
+		File     string `long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"sql_file" default:"-" unquote:"false"`
 		DryRun   bool   `long:"dry-run" description:"Don't run DDLs but just show them"`
 		Export   bool   `long:"export" description:"Just dump the current schema to stdout"`
 		SkipDrop bool   `long:"skip-drop" description:"Skip destructive changes such as DROP"`
diff --git a/cmd/psqldef/psqldef.go b/cmd/psqldef/psqldef.go
index 220153e..a44ffd5 100644
--- a/cmd/psqldef/psqldef.go
+++ b/cmd/psqldef/psqldef.go
@@ -20,12 +20,12 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		User     string `short:"U" long:"user" description:"PostgreSQL user name" value-name:"username" default:"postgres"`
-		Password string `short:"W" long:"password" description:"PostgreSQL user password, overridden by $PGPASSWORD" value-name:"password"`
-		Host     string `short:"h" long:"host" description:"Host or socket directory to connect to the PostgreSQL server" value-name:"hostname" default:"127.0.0.1"`
+		User     string `short:"U" long:"user" description:"PostgreSQL user name" value-name:"username" default:"postgres" unquote:"false"`
+		Password string `short:"W" long:"password" description:"PostgreSQL user password, overridden by $PGPASSWORD" value-name:"password" unquote:"false"`
+		Host     string `short:"h" long:"host" description:"Host or socket directory to connect to the PostgreSQL server" value-name:"hostname" default:"127.0.0.1" unquote:"false"`
 		Port     uint   `short:"p" long:"port" description:"Port used for the connection" value-name:"port" default:"5432"`
 		Prompt   bool   `long:"password-prompt" description:"Force PostgreSQL user password prompt"`
-		File     string `short:"f" long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"filename" default:"-"`
+		File     string `short:"f" long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"filename" default:"-" unquote:"false"`
 		DryRun   bool   `long:"dry-run" description:"Don't run DDLs but just show them"`
 		Export   bool   `long:"export" description:"Just dump the current schema to stdout"`
 		SkipDrop bool   `long:"skip-drop" description:"Skip destructive changes such as DROP"`
diff --git a/cmd/sqlite3def/sqlite3def.go b/cmd/sqlite3def/sqlite3def.go
index ab253fc..6c238c0 100644
--- a/cmd/sqlite3def/sqlite3def.go
+++ b/cmd/sqlite3def/sqlite3def.go
@@ -18,7 +18,7 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		File     string `short:"f" long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"filename" default:"-"`
+		File     string `short:"f" long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"filename" default:"-" unquote:"false"`
 		DryRun   bool   `long:"dry-run" description:"Don't run DDLs but just show them"`
 		Export   bool   `long:"export" description:"Just dump the current schema to stdout"`
 		SkipDrop bool   `long:"skip-drop" description:"Skip destructive changes such as DROP"`
-- 
2.43.0


From 6ba79ad9abde7e35f7ab77cf41139dc6d37debaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 59/85] fix: compare policies without AS or FOR with their
 defaults

---
 schema/parser.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index 63ba53e..f9e3930 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -408,13 +408,22 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			if stmt.Policy.WithCheck != nil {
 				withCheck = formatNormalized(mode, stmt.Policy.WithCheck.Expr)
 			}
+			// What PostgreSQL takes and shows for omitted ones
+			permissive := stmt.Policy.Permissive.Raw()
+			if permissive == "" {
+				permissive = "PERMISSIVE"
+			}
+			command := string(stmt.Policy.Scope)
+			if command == "" {
+				command = "ALL"
+			}
 			return &AddPolicy{
 				statement: ddl,
 				tableName: normalizedTableName(mode, stmt.Table),
 				policy: Policy{
 					name:       stmt.Policy.Name.String(),
-					permissive: stmt.Policy.Permissive.Raw(),
-					scope:      string(stmt.Policy.Scope),
+					permissive: permissive,
+					scope:      command,
 					roles:      scope,
 					using:      using,
 					withCheck:  withCheck,
-- 
2.43.0


From 0a3ab6025a2b91ce8496d1cae52e8da2c591c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 60/85] fix: ignore comments in the definitions of views and
 triggers

---
 schema/parser.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/schema/parser.go b/schema/parser.go
index f9e3930..2e04ee9 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -430,6 +430,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				},
 			}, nil
 		} else if stmt.Action == "create view" {
+			removeComments(stmt.View.Definition)
 			return &View{
 				statement:  ddl,
 				name:       normalizedTableName(mode, stmt.View.Name),
@@ -439,6 +440,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 		} else if stmt.Action == "create trigger" {
 			body := []string{}
 			for _, triggerStatement := range stmt.Trigger.Body {
+				removeComments(triggerStatement)
 				body = append(body, formatNode(mode, triggerStatement))
 			}
 
@@ -554,6 +556,32 @@ func splitDDLs(mode GeneratorMode, str string) []string {
 	return append(ddls, ddl.String())
 }
 
+// Remove comments other than optimizer hints, which make no difference to the definition of a view or a trigger.
+func removeComments(node sqlparser.SQLNode) {
+	hints := func(comments sqlparser.Comments) sqlparser.Comments {
+		var hints sqlparser.Comments
+		for _, comment := range comments {
+			if strings.HasPrefix(string(comment), "/*+") {
+				hints = append(hints, comment)
+			}
+		}
+		return hints
+	}
+	sqlparser.Walk(func(node sqlparser.SQLNode) (bool, error) {
+		switch node := node.(type) {
+		case *sqlparser.Select:
+			node.Comments = hints(node.Comments)
+		case *sqlparser.Insert:
+			node.Comments = hints(node.Comments)
+		case *sqlparser.Update:
+			node.Comments = hints(node.Comments)
+		case *sqlparser.Delete:
+			node.Comments = hints(node.Comments)
+		}
+		return true, nil
+	}, node)
+}
+
 // Print an expression or a statement with the quotes of the database. `sqlparser.String` uses MySQL's ones.
 func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 	if mode == GeneratorModeMysql {
-- 
2.43.0


From 4877cd397048f53cc1c6b5fba4f0ee4de6138ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 61/85] fix: do not change MySQL columns of type real in every
 run

---
 schema/generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/schema/generator.go b/schema/generator.go
index 259e134..583171a 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -35,6 +35,7 @@ var (
 		"boolean":          "tinyint",
 		"numeric":          "decimal",
 		"double precision": "double",
+		"real":             "double",
 	}
 )
 
-- 
2.43.0


From ed04c5a32e93a51dd872e2d2dcf5d8267bdc6ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 62/85] fix: take backslashes in strings of PostgreSQL, SQLite
 and SQL Server as they are

---
 schema/generator.go | 31 +++++++++++++++++++------------
 sqlparser/token.go  | 26 ++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 583171a..2622858 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -721,7 +721,7 @@ func (g *Generator) generateDDLsForCreateView(viewName string, desiredView *View
 		ddls = append(ddls, desiredView.statement)
 	} else {
 		// View found. If it's different, create or replace view.
-		if normalizeDefinition(currentView.definition) != normalizeDefinition(desiredView.definition) {
+		if normalizeDefinition(g.mode, currentView.definition) != normalizeDefinition(g.mode, desiredView.definition) {
 			if g.mode == GeneratorModeSQLite3 || g.mode == GeneratorModeMssql || (g.mode == GeneratorModePostgres && !addsColumns(currentView, desiredView)) {
 				ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(viewName)))
 				ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", g.escapeTableName(viewName), desiredView.definition))
@@ -772,7 +772,7 @@ func (g *Generator) generateDDLsForCreateTrigger(triggerName string, desiredTrig
 		ddls = append(ddls, fmt.Sprintf("CREATE %s", triggerDefinition))
 	} else {
 		// Trigger found. If it's different, create or replace trigger.
-		if !areSameTriggerDefinition(currentTrigger, desiredTrigger) {
+		if !areSameTriggerDefinition(g.mode, currentTrigger, desiredTrigger) {
 			createPrefix := "CREATE "
 			if g.mode == GeneratorModeMssql {
 				createPrefix += "OR ALTER "
@@ -1478,7 +1478,7 @@ func areSameValue(current, desired *Value) bool {
 	return currentRaw == desiredRaw
 }
 
-func areSameTriggerDefinition(triggerA, triggerB *Trigger) bool {
+func areSameTriggerDefinition(mode GeneratorMode, triggerA, triggerB *Trigger) bool {
 	if triggerA.time != triggerB.time {
 		return false
 	}
@@ -1492,7 +1492,7 @@ func areSameTriggerDefinition(triggerA, triggerB *Trigger) bool {
 		return false
 	}
 	for i := 0; i < len(triggerA.body); i++ {
-		if normalizeSpaces(normalizeDefinition(triggerA.body[i])) != normalizeSpaces(normalizeDefinition(triggerB.body[i])) {
+		if normalizeSpaces(mode, normalizeDefinition(mode, triggerA.body[i])) != normalizeSpaces(mode, normalizeDefinition(mode, triggerB.body[i])) {
 			return false
 		}
 	}
@@ -1660,27 +1660,34 @@ func areSamePolicies(policyA, policyB Policy) bool {
 }
 
 func areSamePolicyExpressions(exprA, exprB string) bool {
-	return normalizeDefinition(exprA) == normalizeDefinition(exprB)
+	return normalizeDefinition(GeneratorModePostgres, exprA) == normalizeDefinition(GeneratorModePostgres, exprB)
 }
 
-var stringLiteral = regexp.MustCompile(`'(?:[^'\\]|\\.|'')*'|"[^"]*"`) // and PostgreSQL's quoted names
+var (
+	stringLiteral      = regexp.MustCompile(`'(?:[^']|'')*'|"[^"]*"`) // and quoted names
+	mysqlStringLiteral = regexp.MustCompile(`'(?:[^'\\]|\\.|'')*'|"[^"]*"`)
+)
 
 // Ignore cases of everything but string literals
-func normalizeDefinition(definition string) string {
-	return replaceUnquoted(definition, strings.ToLower)
+func normalizeDefinition(mode GeneratorMode, definition string) string {
+	return replaceUnquoted(mode, definition, strings.ToLower)
 }
 
 // Ignore spaces of everything but string literals
-func normalizeSpaces(definition string) string {
-	return replaceUnquoted(definition, func(str string) string {
+func normalizeSpaces(mode GeneratorMode, definition string) string {
+	return replaceUnquoted(mode, definition, func(str string) string {
 		return strings.Replace(str, " ", "", -1)
 	})
 }
 
-func replaceUnquoted(definition string, replace func(string) string) string {
+func replaceUnquoted(mode GeneratorMode, definition string, replace func(string) string) string {
+	literals := stringLiteral
+	if mode == GeneratorModeMysql {
+		literals = mysqlStringLiteral
+	}
 	var builder strings.Builder
 	end := 0
-	for _, literal := range stringLiteral.FindAllStringIndex(definition, -1) {
+	for _, literal := range literals.FindAllStringIndex(definition, -1) {
 		builder.WriteString(replace(definition[end:literal[0]]))
 		builder.WriteString(definition[literal[0]:literal[1]])
 		end = literal[1]
diff --git a/sqlparser/token.go b/sqlparser/token.go
index 776a8d9..706bca7 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -862,6 +862,10 @@ exit:
 }
 
 func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
+	if tkn.mode != ParserModeMysql {
+		return tkn.scanStandardString(delim, typ)
+	}
+
 	var buffer bytes2.Buffer
 	for {
 		ch := tkn.lastChar
@@ -920,6 +924,28 @@ func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 	return typ, buffer.Bytes()
 }
 
+// scanStandardString scans a string where a backslash is nothing special.
+func (tkn *Tokenizer) scanStandardString(delim uint16, typ int) (int, []byte) {
+	var buffer bytes2.Buffer
+	for {
+		ch := tkn.lastChar
+		if ch == eofChar {
+			// Unterminated string.
+			return LEX_ERROR, buffer.Bytes()
+		}
+		tkn.next()
+
+		if ch == delim {
+			if tkn.lastChar != delim {
+				// Correctly terminated string, which is not a double delim.
+				return typ, buffer.Bytes()
+			}
+			tkn.next()
+		}
+		buffer.WriteByte(byte(ch))
+	}
+}
+
 func (tkn *Tokenizer) scanCommentType1(prefix string) (int, []byte) {
 	buffer := &bytes2.Buffer{}
 	buffer.WriteString(prefix)
-- 
2.43.0


From a56058f0125b44598f387da87d69e4252b19fc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 63/85] fix: escape quotes in values of an enum

---
 sqlparser/parser.go | 4 ++--
 sqlparser/parser.y  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 75affa5..a1e9eaf 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4826,13 +4826,13 @@ yydefault:
 //line sqlparser/parser.y:1467
 		{
 			yyVAL.strs = make([]string, 0, 4)
-			yyVAL.strs = append(yyVAL.strs, "'"+string(yyDollar[1].bytes)+"'")
+			yyVAL.strs = append(yyVAL.strs, String(NewStrVal(yyDollar[1].bytes)))
 		}
 	case 241:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1472
 		{
-			yyVAL.strs = append(yyDollar[1].strs, "'"+string(yyDollar[3].bytes)+"'")
+			yyVAL.strs = append(yyDollar[1].strs, String(NewStrVal(yyDollar[3].bytes)))
 		}
 	case 242:
 		yyDollar = yyS[yypt-0 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 0d8b6c9..8f12dbd 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1466,11 +1466,11 @@ enum_values:
   STRING
   {
     $$ = make([]string, 0, 4)
-    $$ = append($$, "'" + string($1) + "'")
+    $$ = append($$, String(NewStrVal($1)))
   }
 | enum_values ',' STRING
   {
-    $$ = append($1, "'" + string($3) + "'")
+    $$ = append($1, String(NewStrVal($3)))
   }
 
 length_opt:
-- 
2.43.0


From 302893672641d01c88904b253a1f9c664f5c15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 64/85] fix: don't quote current_user in PostgreSQL's
 expressions

---
 schema/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index 2e04ee9..13cf0df 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -590,7 +590,9 @@ func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 
 	formatName := func(buf *sqlparser.TrackedBuffer, node sqlparser.SQLNode, name string) {
 		quoted := sqlparser.String(node)
-		if strings.HasPrefix(quoted, "`") || mode == GeneratorModePostgres && strings.ToLower(name) != name {
+		if lower := strings.ToLower(name); mode == GeneratorModePostgres && (lower == "current_user" || lower == "session_user") {
+			quoted = lower // not columns
+		} else if strings.HasPrefix(quoted, "`") || mode == GeneratorModePostgres && strings.ToLower(name) != name {
 			quoted = (&Generator{mode: mode}).escapeSQLName(name)
 		}
 		buf.Myprintf("%s", quoted)
-- 
2.43.0


From d29f334d4c2ff245099d194a09e84f8d0f719d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 65/85] fix: don't add MySQL's FROM dual to other databases'
 views

---
 schema/parser.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/schema/parser.go b/schema/parser.go
index 13cf0df..13a5848 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -609,6 +609,14 @@ func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 			} else {
 				node.Format(buf)
 			}
+		case *sqlparser.Select:
+			if !hasTables(node) {
+				buf.Myprintf("select %v%s%s%s%v%v%v%v%v%v%s",
+					node.Comments, node.Cache, node.Distinct, node.Hints, node.SelectExprs,
+					node.Where, node.GroupBy, node.Having, node.OrderBy, node.Limit, node.Lock)
+			} else {
+				node.Format(buf)
+			}
 		default:
 			node.Format(buf)
 		}
@@ -617,6 +625,22 @@ func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 	return buf.String()
 }
 
+// The parser adds MySQL's `FROM dual` to a SELECT without FROM. Others don't have the table.
+func hasTables(node *sqlparser.Select) bool {
+	if len(node.From) != 1 || sqlparser.String(node.From) != "dual" {
+		return true
+	}
+	hasColumns := false
+	sqlparser.Walk(func(node sqlparser.SQLNode) (bool, error) {
+		switch node.(type) {
+		case *sqlparser.ColName, *sqlparser.StarExpr:
+			hasColumns = true
+		}
+		return !hasColumns, nil
+	}, node.SelectExprs, node.Where, node.GroupBy, node.Having, node.OrderBy)
+	return hasColumns
+}
+
 // Print an expression with parentheses around all operations, whether they had ones or not, to compare it.
 func formatNormalized(mode GeneratorMode, node sqlparser.Expr) string {
 	buf := sqlparser.NewTrackedBuffer(func(buf *sqlparser.TrackedBuffer, node sqlparser.SQLNode) {
-- 
2.43.0


From 85b128df07b6cfab0962f5720709723f3dad47d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 66/85] fix: escape backslashes in defaults of MySQL columns

---
 schema/generator.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 2622858..7598174 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -381,7 +381,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP DEFAULT", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
 					} else {
 						// set
-						definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+						definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
 						if err != nil {
 							return ddls, err
 						}
@@ -466,7 +466,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 					if desiredColumn.defaultDef != nil {
 						// set
-						definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+						definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
 						if err != nil {
 							return ddls, err
 						}
@@ -916,7 +916,7 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	}
 
 	if column.defaultDef != nil && column.defaultDef.value != nil {
-		def, err := generateDefaultDefinition(*column.defaultDef.value)
+		def, err := g.generateDefaultDefinition(*column.defaultDef.value)
 		if err != nil {
 			return "", fmt.Errorf("%s in column: %#v", err.Error(), column)
 		}
@@ -1885,10 +1885,14 @@ func generateSequenceClause(sequence *Sequence) string {
 	return strings.TrimSpace(ddl)
 }
 
-func generateDefaultDefinition(defaultVal Value) (string, error) {
+func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error) {
 	switch defaultVal.valueType {
 	case ValueTypeStr:
-		return fmt.Sprintf("DEFAULT '%s'", strings.Replace(defaultVal.strVal, "'", "''", -1)), nil
+		str := strings.Replace(defaultVal.strVal, "'", "''", -1)
+		if g.mode == GeneratorModeMysql {
+			str = strings.Replace(str, "\\", "\\\\", -1)
+		}
+		return fmt.Sprintf("DEFAULT '%s'", str), nil
 	case ValueTypeInt:
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeFloat:
-- 
2.43.0


From f93c5f34d5e04d5babc6ac309d30502d7f2da497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:25 +0000
Subject: [PATCH 67/85] fix: tell PostgreSQL roles apart whose quoted names
 differ in case

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 7598174..ef6b30f 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1652,7 +1652,7 @@ func areSamePolicies(policyA, policyB Policy) bool {
 		return policyB.roles[i] <= policyB.roles[j]
 	})
 	for i := range policyA.roles {
-		if strings.ToLower(policyA.roles[i]) != strings.ToLower(policyB.roles[i]) {
+		if policyA.roles[i] != policyB.roles[i] {
 			return false
 		}
 	}
-- 
2.43.0


From 7fd0450829183f7d62cb4b0f43ad3601166fdcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 68/85] fix: don't take the NOT NULL of a MySQL primary key for
 a change

---
 schema/generator.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index ef6b30f..1a1b08c 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -311,9 +311,15 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					columnOrder = moveString(columnOrder, currentColumn.name, i)
 				}
 
+				comparedColumn, changedColumn := desiredColumn, desiredColumn
+				if !g.notNull(desiredColumn) && (isPrimaryKey(*currentColumn, currentTable) || isPrimaryKey(desiredColumn, desired.table)) {
+					comparedColumn.notNull = currentColumn.notNull // a primary key implies NOT NULL
+					changedColumn.notNull = nil
+				}
+
 				// Change column type and orders, *except* AUTO_INCREMENT and UNIQUE KEY.
-				if !g.haveSameColumnDefinition(*currentColumn, desiredColumn) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) || changeOrder {
-					definition, err := g.generateColumnDefinition(desiredColumn, false)
+				if !g.haveSameColumnDefinition(*currentColumn, comparedColumn) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) || changeOrder {
+					definition, err := g.generateColumnDefinition(changedColumn, false)
 					if err != nil {
 						return ddls, err
 					}
@@ -496,6 +502,9 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				if desiredColumn != nil {
 					// The column is kept. Don't revert what has been changed above.
 					currentColumn = *desiredColumn
+					if !g.notNull(currentColumn) && isPrimaryKey(currentColumn, currentTable) {
+						currentColumn.notNull = nil // a primary key refuses NULL
+					}
 				}
 				currentColumn.autoIncrement = false
 				definition, err := g.generateColumnDefinition(currentColumn, false)
@@ -515,6 +524,18 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			switch g.mode {
 			case GeneratorModeMysql:
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY", g.escapeTableName(desired.table.name)))
+
+				// NOT NULL stays in the columns of the dropped primary key
+				for _, column := range desired.table.columns {
+					currentColumn := findColumnByName(currentTable.columns, column.name)
+					if currentColumn != nil && isPrimaryKey(*currentColumn, currentTable) && !isPrimaryKey(column, desired.table) && !g.notNull(column) {
+						definition, err := g.generateColumnDefinition(column, false)
+						if err != nil {
+							return ddls, err
+						}
+						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s CHANGE COLUMN %s %s", g.escapeTableName(desired.table.name), g.escapeSQLName(column.name), definition))
+					}
+				}
 			case GeneratorModePostgres:
 				constraintName := currentPrimaryKey.name
 				if constraintName == "PRIMARY" { // not specified
-- 
2.43.0


From 82a024391f585bb452a3f2edafe3646e15803d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 69/85] fix: separate the indexes of a SQL Server table in its
 dump

---
 adapter/mssql/mssql.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 07639bb..ed37a29 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -156,6 +156,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 			}
 			fmt.Fprint(&queryBuilder, " )")
 		}
+		fmt.Fprint(&queryBuilder, ";\n")
 	}
 	return strings.TrimSuffix(queryBuilder.String(), ";\n")
 }
-- 
2.43.0


From cd10c7f7bf8e2d33ee9d73c887ec61eb69b4c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 70/85] fix: dump the indexes of a SQL Server table and their
 columns in a fixed order

---
 adapter/mssql/mssql.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index ed37a29..7b28d36 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -282,13 +282,15 @@ func (d *MssqlDatabase) getIndexDefs(table string) ([]*indexDef, error) {
 	ind.allow_page_locks
 FROM sys.indexes ind
 INNER JOIN sys.stats st ON ind.object_id = st.object_id AND ind.index_id = st.stats_id
-WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
+WHERE ind.object_id = OBJECT_ID('[%s].[%s]')
+ORDER BY ind.index_id`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
 		return nil, err
 	}
 
+	indexDefs := make([]*indexDef, 0)
 	indexDefMap := make(map[string]*indexDef)
 	var indexName, typeDesc, fillfactor string
 	var isPrimary, isUnique, padIndex, ignoreDupKey, noRecompute, incremental, rowLocks, pageLocks bool
@@ -310,6 +312,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 
 		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
 		indexDefMap[indexName] = definition
+		indexDefs = append(indexDefs, definition)
 	}
 
 	if err := rows.Err(); err != nil {
@@ -324,7 +327,8 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	ic.is_included_column
 FROM sys.indexes ind
 INNER JOIN sys.index_columns ic ON ind.object_id = ic.object_id AND ind.index_id = ic.index_id
-WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
+WHERE ind.object_id = OBJECT_ID('[%s].[%s]')
+ORDER BY ind.index_id, ic.key_ordinal, ic.index_column_id`, schema, table)
 
 	rows, err = d.db.Query(query)
 	if err != nil {
@@ -356,10 +360,6 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		return nil, err
 	}
 
-	indexDefs := make([]*indexDef, 0)
-	for _, definition := range indexDefMap {
-		indexDefs = append(indexDefs, definition)
-	}
 	return indexDefs, nil
 }
 
-- 
2.43.0


From bc854f5e543c0f64b75494fc1935ef2b62e66b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 71/85] fix: leave out FILLFACTOR = 0 in the dump, which SQL
 Server refuses

---
 adapter/mssql/mssql.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 7b28d36..b7b2b88 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -302,13 +302,17 @@ ORDER BY ind.index_id`, schema, table)
 
 		options := []indexOption{
 			{name: "PAD_INDEX", value: boolToOnOff(padIndex)},
-			{name: "FILLFACTOR", value: fillfactor},
+		}
+		if fillfactor != "0" { // the default, which can't be given
+			options = append(options, indexOption{name: "FILLFACTOR", value: fillfactor})
+		}
+		options = append(options, []indexOption{
 			{name: "IGNORE_DUP_KEY", value: boolToOnOff(ignoreDupKey)},
 			{name: "STATISTICS_NORECOMPUTE", value: boolToOnOff(noRecompute)},
 			{name: "STATISTICS_INCREMENTAL", value: boolToOnOff(incremental)},
 			{name: "ALLOW_ROW_LOCKS", value: boolToOnOff(rowLocks)},
 			{name: "ALLOW_PAGE_LOCKS", value: boolToOnOff(pageLocks)},
-		}
+		}...)
 
 		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
 		indexDefMap[indexName] = definition
-- 
2.43.0


From 01d4eadf2cc95d38c89cf4e41ac02e8bf540d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 72/85] fix: dump a SQL Server foreign key of several columns
 as one

---
 adapter/mssql/mssql.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index b7b2b88..98f0c37 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -367,6 +367,14 @@ ORDER BY ind.index_id, ic.key_ordinal, ic.index_column_id`, schema, table)
 	return indexDefs, nil
 }
 
+type foreignKey struct {
+	name           string
+	columns        []string
+	foreignTable   string
+	foreignColumns []string
+	options        string
+}
+
 func (d *MssqlDatabase) getForeignDefs(table string) ([]string, error) {
 	schema, table := splitTableName(table)
 	query := fmt.Sprintf(`SELECT
@@ -378,7 +386,8 @@ func (d *MssqlDatabase) getForeignDefs(table string) ([]string, error) {
 	f.delete_referential_action_desc,
 	f.is_not_for_replication
 FROM sys.foreign_keys f INNER JOIN sys.foreign_key_columns fc ON f.OBJECT_ID = fc.constraint_object_id
-WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
+WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')
+ORDER BY f.object_id, fc.constraint_column_id`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
@@ -386,7 +395,7 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	}
 	defer rows.Close()
 
-	defs := make([]string, 0)
+	foreignKeys := make([]*foreignKey, 0)
 	for rows.Next() {
 		var constraintName, columnName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule string
 		var notForReplication bool
@@ -396,14 +405,26 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		}
 		foreignUpdateRule = strings.Replace(foreignUpdateRule, "_", " ", -1)
 		foreignDeleteRule = strings.Replace(foreignDeleteRule, "_", " ", -1)
-		def := fmt.Sprintf("CONSTRAINT [%s] FOREIGN KEY ([%s]) REFERENCES [%s] ([%s]) ON UPDATE %s ON DELETE %s", constraintName, columnName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule)
+		options := fmt.Sprintf(" ON UPDATE %s ON DELETE %s", foreignUpdateRule, foreignDeleteRule)
 		if notForReplication {
-			def += " NOT FOR REPLICATION"
+			options += " NOT FOR REPLICATION"
 		}
-		defs = append(defs, def)
+		if n := len(foreignKeys); n == 0 || foreignKeys[n-1].name != constraintName {
+			foreignKeys = append(foreignKeys, &foreignKey{name: constraintName, foreignTable: foreignTableName, options: options})
+		}
+		key := foreignKeys[len(foreignKeys)-1]
+		key.columns = append(key.columns, fmt.Sprintf("[%s]", columnName))
+		key.foreignColumns = append(key.foreignColumns, fmt.Sprintf("[%s]", foreignColumnName))
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
 	}
 
-	return defs, rows.Err()
+	defs := make([]string, 0)
+	for _, key := range foreignKeys {
+		defs = append(defs, fmt.Sprintf("CONSTRAINT [%s] FOREIGN KEY (%s) REFERENCES [%s] (%s)%s", key.name, strings.Join(key.columns, ", "), key.foreignTable, strings.Join(key.foreignColumns, ", "), key.options))
+	}
+	return defs, nil
 }
 
 func boolToOnOff(in bool) string {
-- 
2.43.0


From 3060999557cdf503eddee18b803a130859fecbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 73/85] fix: keep the line breaks and spaces of SQL Server
 views

---
 adapter/mssql/mssql.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 98f0c37..041972d 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -437,7 +437,6 @@ func boolToOnOff(in bool) string {
 
 var (
 	suffixSemicolon = regexp.MustCompile(`;$`)
-	spaces          = regexp.MustCompile(`[ ]+`)
 )
 
 func (d *MssqlDatabase) Views() ([]string, error) {
@@ -466,9 +465,7 @@ INNER JOIN sys.sql_modules
 			return nil, err
 		}
 		definition = strings.TrimSpace(definition)
-		definition = strings.ReplaceAll(definition, "\n", "")
 		definition = suffixSemicolon.ReplaceAllString(definition, "")
-		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(ddls, definition)
 	}
 	return ddls, rows.Err()
-- 
2.43.0


From 391b54f1f3085481ae05cf47ce330da515c8ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:59 +0000
Subject: [PATCH 74/85] fix: take SQL Server indexes for nonclustered and
 primary keys for clustered unless they say otherwise

---
 sqlparser/parser.go | 5154 ++++++++++++++++++++++---------------------
 sqlparser/parser.y  |   28 +-
 2 files changed, 2616 insertions(+), 2566 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index a1e9eaf..ae86f95 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -736,724 +736,809 @@ var yyExca = [...]int{
 	121, 104,
 	-2, 94,
 	-1, 36,
-	153, 416,
-	154, 416,
-	-2, 406,
+	153, 419,
+	154, 419,
+	-2, 409,
 	-1, 272,
-	109, 749,
-	-2, 745,
+	109, 752,
+	-2, 748,
 	-1, 273,
-	109, 750,
-	-2, 746,
+	109, 753,
+	-2, 749,
 	-1, 343,
-	80, 943,
+	80, 946,
 	-2, 58,
 	-1, 344,
-	80, 894,
+	80, 897,
 	-2, 59,
 	-1, 349,
-	80, 873,
-	-2, 716,
+	80, 876,
+	-2, 719,
 	-1, 351,
-	80, 917,
-	-2, 718,
+	80, 920,
+	-2, 721,
 	-1, 652,
 	51, 41,
 	53, 41,
 	-2, 43,
 	-1, 797,
-	109, 752,
-	-2, 748,
+	109, 755,
+	-2, 751,
 	-1, 1039,
 	5, 28,
-	-2, 551,
+	-2, 554,
 	-1, 1064,
 	5, 27,
-	-2, 690,
+	-2, 693,
 	-1, 1165,
 	5, 27,
 	-2, 64,
 	-1, 1383,
 	5, 28,
-	-2, 691,
+	-2, 694,
 	-1, 1465,
 	5, 27,
-	-2, 693,
-	-1, 1592,
+	-2, 696,
+	-1, 1594,
 	5, 28,
-	-2, 694,
+	-2, 697,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 14599
+const yyLast = 14760
 
 var yyAct = [...]int{
-	273, 1544, 1478, 1475, 1517, 1067, 974, 1389, 1521, 1402,
-	1252, 1582, 729, 861, 1101, 579, 464, 1098, 277, 879,
-	302, 937, 1280, 1253, 509, 773, 1279, 578, 3, 1167,
-	903, 646, 952, 1249, 251, 89, 607, 1599, 89, 674,
-	644, 608, 909, 1129, 1123, 245, 923, 1304, 498, 276,
-	982, 862, 969, 53, 1225, 1083, 822, 902, 66, 348,
-	1031, 735, 89, 89, 353, 833, 1156, 830, 662, 353,
-	1153, 918, 353, 353, 964, 250, 1072, 849, 89, 799,
-	89, 511, 462, 517, 942, 661, 89, 858, 633, 246,
-	247, 248, 249, 335, 342, 648, 275, 602, 339, 523,
-	1013, 260, 328, 337, 531, 1137, 936, 545, 1374, 52,
-	555, 1663, 345, 832, 939, 593, 1305, 555, 1624, 330,
-	1373, 510, 465, 466, 1415, 264, 329, 1408, 86, 1292,
-	1293, 1697, 1640, 270, 1693, 1590, 1548, 1537, 544, 543,
-	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	1549, 1684, 555, 279, 975, 1656, 338, 1628, 544, 543,
+	273, 974, 270, 1519, 729, 1546, 1475, 1389, 1478, 1067,
+	1584, 1098, 1523, 1279, 277, 861, 579, 1402, 1252, 1101,
+	773, 302, 937, 578, 3, 1253, 1280, 903, 879, 674,
+	1167, 464, 276, 607, 608, 89, 1249, 1601, 89, 251,
+	646, 909, 1123, 969, 245, 644, 982, 1304, 1129, 902,
+	923, 279, 1083, 1031, 862, 348, 1225, 66, 822, 1156,
+	735, 964, 89, 89, 353, 53, 833, 830, 918, 353,
+	1153, 250, 353, 353, 662, 849, 1072, 511, 89, 498,
+	89, 799, 462, 517, 342, 661, 89, 633, 246, 247,
+	248, 249, 275, 1013, 602, 260, 858, 523, 330, 339,
+	648, 337, 939, 531, 1137, 52, 1665, 328, 1305, 545,
+	593, 936, 555, 333, 1626, 548, 549, 550, 551, 552,
+	545, 555, 329, 555, 1501, 1502, 264, 465, 466, 1539,
+	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
+	552, 545, 1616, 345, 555, 1408, 1293, 1415, 1292, 539,
+	1699, 542, 1373, 510, 1121, 1642, 832, 557, 558, 559,
+	560, 561, 562, 563, 1695, 540, 541, 538, 544, 543,
 	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	1121, 477, 555, 478, 936, 1157, 1158, 1649, 1639, 485,
+	938, 1592, 555, 1550, 1658, 301, 1551, 1157, 1158, 1686,
 	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
-	552, 545, 938, 898, 555, 1244, 925, 546, 547, 548,
-	549, 550, 551, 552, 545, 1589, 1613, 555, 1377, 475,
-	932, 1091, 921, 1274, 1090, 333, 892, 1092, 922, 1275,
-	1276, 663, 1614, 664, 89, 893, 894, 764, 353, 353,
-	353, 353, 506, 353, 765, 539, 1431, 542, 1430, 1139,
-	353, 941, 1454, 557, 558, 559, 560, 561, 562, 563,
-	510, 540, 541, 538, 544, 543, 553, 554, 546, 547,
-	548, 549, 550, 551, 552, 545, 953, 353, 555, 943,
-	853, 928, 1136, 924, 933, 1326, 1325, 48, 26, 27,
-	930, 929, 965, 1366, 520, 1364, 244, 544, 543, 553,
-	554, 546, 547, 548, 549, 550, 551, 552, 545, 1577,
-	1519, 555, 465, 466, 1133, 1567, 1135, 1134, 519, 1495,
-	491, 301, 1618, 1655, 1692, 1657, 556, 487, 737, 738,
-	736, 1370, 510, 556, 1682, 1620, 1336, 1337, 89, 1405,
-	1583, 84, 80, 81, 82, 89, 89, 89, 1538, 502,
-	503, 353, 1203, 859, 1615, 1584, 1200, 353, 548, 549,
-	550, 551, 552, 545, 1462, 1410, 555, 1341, 556, 544,
-	543, 553, 554, 546, 547, 548, 549, 550, 551, 552,
-	545, 1409, 1342, 555, 493, 347, 495, 1549, 556, 919,
-	468, 1115, 1114, 472, 473, 1103, 1671, 926, 1286, 345,
-	1295, 1350, 1528, 927, 920, 480, 1108, 953, 1287, 470,
-	556, 75, 78, 1439, 492, 494, 77, 467, 78, 743,
-	1648, 880, 882, 556, 570, 571, 572, 573, 574, 575,
-	576, 628, 1082, 966, 1081, 946, 1080, 727, 566, 476,
-	652, 595, 596, 597, 598, 599, 600, 601, 223, 659,
-	653, 737, 738, 934, 1201, 935, 1199, 1588, 79, 70,
-	73, 1204, 1120, 568, 569, 1403, 1404, 1406, 931, 1202,
-	1688, 919, 1542, 1106, 71, 74, 1386, 1212, 89, 1616,
-	1617, 1619, 1621, 1622, 556, 89, 920, 89, 353, 1047,
-	89, 72, 68, 89, 83, 1025, 881, 89, 333, 353,
-	353, 353, 353, 353, 353, 353, 353, 771, 535, 486,
-	680, 900, 899, 353, 353, 676, 1320, 556, 89, 768,
-	1208, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 353, 530, 555, 490, 89, 919, 1008,
-	1560, 850, 1559, 353, 774, 775, 1043, 1558, 1042, 347,
-	347, 347, 347, 920, 347, 777, 752, 770, 49, 1557,
-	806, 347, 529, 528, 776, 529, 528, 1321, 528, 800,
-	1032, 728, 556, 57, 804, 805, 803, 1246, 739, 530,
-	740, 1556, 530, 744, 530, 1555, 747, 353, 533, 556,
-	529, 528, 769, 1554, 796, 1552, 1207, 750, 59, 60,
-	61, 62, 63, 1333, 1070, 797, 510, 530, 1100, 529,
-	528, 766, 69, 834, 836, 842, 845, 665, 1009, 837,
-	732, 851, 529, 528, 525, 479, 530, 1497, 1674, 852,
-	785, 1111, 850, 778, 1054, 1600, 1494, 1492, 89, 530,
-	469, 89, 89, 89, 89, 89, 795, 793, 1099, 1100,
-	529, 528, 1673, 89, 1601, 76, 89, 1248, 863, 1100,
-	89, 1654, 347, 1553, 825, 89, 89, 530, 667, 353,
-	1100, 789, 791, 792, 1493, 827, 828, 790, 1110, 878,
-	1653, 798, 353, 837, 807, 808, 809, 810, 811, 812,
-	813, 814, 815, 816, 817, 818, 819, 820, 821, 847,
-	1424, 855, 801, 50, 1140, 887, 838, 839, 482, 483,
-	484, 471, 846, 802, 474, 1652, 327, 345, 544, 543,
+	552, 545, 1651, 975, 555, 546, 547, 548, 549, 550,
+	551, 552, 545, 898, 1630, 555, 1641, 1591, 1244, 1615,
+	496, 1377, 475, 1274, 89, 1275, 1276, 1136, 353, 353,
+	353, 353, 1620, 353, 48, 26, 27, 893, 894, 892,
+	353, 84, 80, 81, 82, 1622, 663, 506, 664, 347,
+	1431, 1430, 1370, 510, 468, 1139, 941, 472, 473, 1133,
+	1091, 1135, 1134, 1090, 1617, 953, 1092, 353, 510, 764,
+	853, 1326, 1325, 1366, 244, 1364, 765, 1579, 1454, 1521,
+	520, 965, 509, 570, 571, 572, 573, 574, 575, 576,
+	544, 543, 553, 554, 546, 547, 548, 549, 550, 551,
+	552, 545, 936, 1495, 555, 544, 543, 553, 554, 546,
+	547, 548, 549, 550, 551, 552, 545, 1569, 556, 555,
+	519, 465, 466, 943, 925, 736, 566, 556, 89, 556,
+	1540, 1694, 1220, 737, 738, 89, 89, 89, 932, 1405,
+	921, 353, 1657, 1684, 1659, 1585, 922, 353, 1336, 1337,
+	556, 1203, 544, 543, 553, 554, 546, 547, 548, 549,
+	550, 551, 552, 545, 502, 503, 555, 859, 544, 543,
 	553, 554, 546, 547, 548, 549, 550, 551, 552, 545,
-	904, 860, 555, 1650, 954, 955, 956, 957, 353, 1602,
-	876, 556, 353, 1044, 353, 89, 854, 89, 856, 857,
-	885, 1598, 89, 1505, 89, 884, 890, 89, 353, 888,
-	1433, 865, 866, 889, 868, 907, 1432, 864, 1301, 1162,
-	867, 1022, 1023, 1024, 823, 1651, 824, 944, 945, 947,
-	948, 949, 1423, 950, 951, 1160, 1140, 971, 1140, 1461,
-	1428, 529, 528, 1352, 333, 333, 333, 333, 333, 347,
-	960, 961, 962, 1154, 963, 463, 967, 968, 530, 333,
-	347, 347, 347, 347, 347, 347, 347, 347, 333, 1117,
-	21, 1575, 1701, 510, 347, 347, 1226, 1469, 1690, 1570,
-	796, 521, 1399, 1683, 800, 1399, 1662, 1569, 981, 1550,
-	986, 797, 1399, 1661, 780, 1003, 1290, 1004, 1399, 1647,
-	1005, 1575, 1646, 1513, 533, 1643, 1642, 347, 1289, 1228,
-	1288, 1034, 1635, 510, 1512, 1035, 1014, 1109, 1015, 1093,
-	919, 977, 1039, 1040, 1041, 914, 255, 913, 826, 915,
-	916, 1050, 1399, 1632, 917, 920, 1056, 1469, 1580, 1057,
-	1058, 1059, 1060, 1027, 353, 749, 1064, 89, 829, 1399,
-	1571, 1085, 748, 1087, 1469, 1503, 1506, 1021, 843, 843,
-	1469, 510, 1425, 353, 843, 1230, 1469, 1470, 656, 1235,
-	733, 1229, 1399, 1398, 353, 731, 1227, 1271, 510, 1385,
-	510, 1417, 1233, 1329, 1328, 353, 1053, 1086, 556, 1323,
-	1324, 1323, 1322, 1095, 89, 1231, 1232, 488, 1028, 1029,
-	1030, 843, 1037, 510, 1077, 1036, 630, 510, 657, 1116,
-	655, 904, 1068, 1234, 1236, 835, 510, 801, 672, 671,
-	1088, 1051, 292, 291, 294, 295, 296, 297, 481, 463,
-	347, 293, 298, 1313, 835, 603, 353, 1141, 1142, 23,
-	1144, 1145, 1146, 347, 1381, 630, 1131, 1104, 1105, 1107,
-	543, 553, 554, 546, 547, 548, 549, 550, 551, 552,
-	545, 1165, 1062, 555, 1250, 1063, 353, 1068, 605, 89,
-	89, 1416, 635, 638, 639, 640, 636, 89, 637, 641,
-	1332, 1069, 1073, 1074, 1168, 50, 353, 1576, 1159, 1575,
-	1155, 1143, 1327, 1173, 23, 54, 886, 1094, 655, 972,
-	333, 1161, 891, 347, 1215, 347, 1037, 1174, 1172, 610,
-	611, 612, 613, 614, 615, 616, 617, 618, 619, 347,
-	1464, 1223, 630, 1069, 1049, 658, 353, 353, 23, 1046,
-	606, 772, 257, 1037, 1217, 1479, 1251, 629, 620, 604,
-	50, 863, 50, 347, 1254, 609, 1037, 863, 1481, 1219,
-	1435, 1434, 1273, 1256, 1218, 353, 1241, 353, 353, 1238,
-	1237, 630, 1694, 1224, 1068, 1245, 1048, 797, 1270, 1660,
-	1213, 1045, 1637, 1573, 50, 1572, 1564, 1563, 50, 266,
-	1261, 1260, 1259, 1525, 1504, 1448, 1291, 1278, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 943, 1272,
-	555, 970, 1312, 904, 1311, 904, 1147, 1309, 1149, 1150,
-	1151, 1152, 1277, 1298, 1265, 965, 1480, 1296, 621, 1294,
-	1163, 1164, 730, 1180, 89, 353, 1221, 1222, 1122, 1302,
-	1097, 959, 89, 958, 1131, 65, 1316, 353, 1306, 1239,
-	1240, 1545, 1242, 1243, 1073, 1074, 353, 1436, 1482, 1483,
-	1484, 1485, 1486, 1487, 1488, 1084, 1250, 1171, 89, 635,
-	638, 639, 640, 636, 353, 637, 641, 1076, 746, 556,
-	734, 507, 873, 353, 347, 784, 89, 874, 1308, 1310,
-	1354, 1343, 871, 1339, 1079, 1102, 875, 872, 639, 640,
-	1345, 1078, 870, 1181, 1177, 869, 1112, 1182, 1179, 1178,
-	261, 262, 74, 1356, 1348, 1668, 1638, 1351, 1211, 1010,
-	1358, 1666, 1020, 1183, 1019, 1148, 1355, 1330, 670, 1176,
-	524, 1217, 1367, 1368, 1369, 1338, 353, 1372, 353, 353,
-	353, 89, 353, 522, 489, 1392, 1393, 1394, 353, 512,
-	1382, 1383, 1384, 1362, 1387, 1380, 1300, 347, 1379, 1449,
-	513, 1347, 774, 775, 1407, 1388, 979, 745, 1446, 353,
-	1299, 1170, 1395, 973, 643, 524, 1414, 1397, 1095, 1411,
-	1445, 1359, 1360, 1412, 1361, 1477, 1018, 347, 1363, 1335,
-	1365, 258, 259, 1285, 1017, 252, 904, 1658, 1531, 253,
-	54, 1530, 1422, 353, 353, 1314, 1315, 347, 1317, 1318,
-	1319, 353, 680, 1452, 1069, 1419, 556, 676, 1418, 1284,
-	1283, 353, 526, 1131, 1357, 1427, 1562, 1429, 1561, 347,
-	1539, 58, 1437, 1113, 1438, 767, 1400, 1401, 56, 333,
-	1523, 7, 514, 518, 843, 1524, 6, 1258, 1084, 1175,
-	843, 1168, 904, 983, 984, 985, 353, 353, 1340, 536,
-	1522, 5, 654, 1453, 51, 1, 1520, 1568, 1119, 1566,
-	353, 1460, 1254, 1479, 67, 1463, 347, 1627, 347, 1281,
-	353, 1574, 1465, 1334, 1169, 1474, 1481, 1471, 1472, 1473,
-	1491, 1184, 1489, 580, 1498, 1496, 1490, 1500, 976, 1166,
-	991, 1581, 591, 1595, 1476, 353, 353, 89, 1502, 911,
-	353, 1507, 1508, 1509, 1441, 901, 1442, 1443, 1444, 353,
-	461, 64, 1551, 912, 910, 908, 1526, 673, 1440, 1138,
-	940, 1514, 679, 677, 678, 675, 681, 231, 340, 642,
-	353, 666, 527, 1198, 1197, 1540, 1331, 987, 1206, 1546,
-	1532, 1533, 1534, 1535, 1480, 1254, 303, 47, 1344, 763,
-	1007, 505, 233, 564, 1541, 1016, 1089, 1346, 346, 1623,
-	1257, 516, 1529, 1451, 1455, 1456, 1052, 1457, 1458, 1459,
-	1426, 590, 848, 278, 788, 1349, 1482, 1483, 1484, 1485,
-	1486, 1487, 1488, 290, 347, 287, 353, 289, 288, 1578,
-	1516, 779, 1061, 537, 47, 268, 332, 496, 626, 634,
-	632, 631, 256, 353, 1075, 1071, 353, 1586, 334, 331,
-	353, 1596, 1579, 1591, 1214, 1376, 1536, 783, 863, 25,
-	55, 1587, 263, 19, 353, 353, 1592, 18, 1610, 17,
-	20, 1608, 1609, 353, 353, 16, 353, 1390, 15, 1390,
-	1390, 1390, 14, 1396, 353, 29, 1631, 13, 12, 347,
-	1612, 1611, 11, 1633, 1603, 1604, 1605, 1606, 1607, 1625,
-	1626, 10, 9, 1125, 1126, 1127, 1634, 8, 4, 254,
-	1390, 1130, 1128, 299, 300, 22, 2, 0, 0, 0,
-	0, 1510, 515, 1511, 0, 0, 1644, 1645, 0, 1659,
-	0, 0, 0, 0, 0, 0, 0, 0, 353, 0,
-	1664, 0, 353, 1547, 347, 347, 1670, 1665, 786, 787,
-	0, 1672, 1447, 0, 0, 0, 0, 87, 0, 89,
-	243, 353, 1450, 1677, 1667, 0, 1680, 1679, 1678, 0,
-	0, 0, 89, 0, 1687, 0, 0, 0, 0, 1689,
-	0, 0, 267, 1691, 87, 87, 0, 0, 0, 353,
-	0, 0, 0, 0, 1685, 353, 0, 1467, 1468, 1698,
-	87, 580, 87, 0, 840, 841, 0, 0, 87, 0,
-	0, 1281, 0, 0, 497, 497, 497, 497, 0, 497,
-	0, 1499, 0, 0, 1702, 1703, 497, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 1695, 0, 0,
-	0, 0, 0, 47, 0, 0, 1281, 1515, 0, 0,
-	0, 1518, 0, 0, 0, 0, 0, 0, 565, 0,
-	1390, 567, 0, 0, 0, 1686, 499, 500, 501, 0,
-	504, 0, 0, 0, 0, 0, 0, 508, 0, 0,
-	0, 1543, 0, 1132, 1136, 897, 0, 0, 577, 0,
-	581, 582, 583, 584, 585, 586, 587, 588, 589, 0,
-	592, 594, 594, 594, 594, 594, 594, 594, 594, 0,
-	622, 623, 624, 625, 0, 0, 1133, 0, 1135, 1134,
-	0, 645, 0, 0, 1371, 0, 0, 0, 0, 0,
-	1699, 0, 0, 0, 0, 0, 0, 1281, 0, 0,
-	0, 0, 0, 1220, 0, 0, 87, 0, 0, 0,
-	0, 843, 0, 0, 1593, 0, 0, 1594, 0, 0,
-	0, 1597, 0, 544, 543, 553, 554, 546, 547, 548,
-	549, 550, 551, 552, 545, 1518, 1281, 555, 0, 0,
-	0, 0, 0, 0, 1281, 1281, 0, 1629, 0, 1011,
-	1012, 1033, 518, 0, 0, 1636, 544, 543, 553, 554,
-	546, 547, 548, 549, 550, 551, 552, 545, 0, 0,
-	555, 544, 543, 553, 554, 546, 547, 548, 549, 550,
-	551, 552, 545, 1190, 0, 555, 1303, 0, 0, 0,
-	0, 1125, 1126, 1127, 0, 0, 0, 0, 0, 1130,
-	1128, 299, 300, 0, 0, 0, 0, 997, 0, 1281,
-	87, 0, 0, 1669, 0, 1038, 0, 87, 650, 87,
-	996, 0, 0, 0, 497, 0, 0, 0, 0, 0,
-	1055, 0, 1390, 0, 0, 497, 497, 497, 497, 497,
-	497, 497, 497, 0, 0, 0, 0, 1001, 1191, 497,
-	497, 0, 0, 1193, 1186, 1187, 995, 1194, 1189, 1188,
-	347, 0, 1196, 1192, 0, 0, 1518, 0, 0, 0,
-	0, 0, 0, 1195, 0, 742, 0, 0, 0, 1185,
-	0, 0, 0, 0, 0, 0, 753, 754, 755, 756,
-	757, 758, 759, 760, 0, 0, 0, 0, 0, 0,
-	761, 762, 0, 0, 0, 992, 989, 990, 0, 988,
-	0, 0, 0, 0, 47, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 581, 0,
-	0, 0, 0, 0, 0, 0, 0, 999, 1002, 0,
-	0, 0, 0, 556, 0, 0, 0, 0, 0, 0,
-	87, 0, 0, 0, 0, 0, 0, 87, 0, 87,
-	0, 0, 87, 0, 0, 87, 0, 0, 0, 751,
-	0, 1132, 1136, 0, 0, 0, 556, 334, 334, 334,
-	334, 334, 1124, 0, 0, 0, 0, 1125, 1126, 1127,
-	87, 556, 645, 0, 883, 1130, 1128, 299, 300, 0,
-	0, 334, 994, 0, 1133, 0, 1135, 1134, 0, 87,
-	0, 0, 0, 0, 0, 0, 0, 0, 751, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 993, 1247, 0, 0, 0, 0, 0,
-	23, 24, 48, 26, 27, 0, 0, 0, 0, 1262,
-	1263, 0, 0, 1264, 0, 0, 1266, 0, 0, 42,
-	267, 0, 0, 28, 0, 267, 267, 0, 0, 844,
-	844, 267, 998, 0, 0, 844, 229, 0, 497, 0,
-	497, 0, 37, 0, 0, 0, 50, 0, 1000, 0,
-	0, 0, 0, 0, 497, 0, 0, 0, 0, 0,
-	239, 0, 0, 0, 0, 267, 267, 267, 267, 0,
-	87, 0, 844, 87, 87, 87, 87, 87, 0, 0,
-	0, 0, 0, 0, 0, 877, 0, 0, 87, 978,
-	0, 980, 650, 0, 0, 0, 0, 87, 87, 0,
-	0, 0, 0, 1026, 0, 1006, 30, 31, 33, 32,
-	35, 224, 0, 0, 0, 0, 0, 226, 0, 0,
-	0, 0, 0, 0, 232, 228, 0, 1132, 1136, 0,
+	1586, 1462, 555, 1341, 1410, 919, 333, 1409, 556, 1618,
+	1619, 1621, 1623, 1624, 83, 1295, 1108, 1115, 1342, 928,
+	920, 924, 933, 1114, 1103, 1530, 1673, 1286, 930, 929,
+	556, 1350, 1287, 347, 347, 347, 347, 1032, 347, 1106,
+	345, 556, 966, 480, 1551, 347, 595, 596, 597, 598,
+	599, 600, 601, 953, 78, 1650, 1120, 75, 653, 470,
+	659, 880, 882, 77, 57, 78, 737, 738, 1439, 499,
+	500, 501, 533, 504, 743, 467, 1082, 1081, 1080, 1590,
+	508, 919, 727, 1200, 476, 1403, 1404, 1406, 89, 59,
+	60, 61, 62, 63, 223, 89, 920, 89, 353, 946,
+	89, 79, 1204, 89, 919, 70, 73, 89, 1690, 353,
+	353, 353, 353, 353, 353, 353, 353, 680, 676, 920,
+	71, 74, 768, 353, 353, 49, 568, 569, 89, 1544,
+	556, 1386, 1212, 1047, 1025, 926, 881, 72, 68, 771,
+	535, 927, 486, 353, 463, 556, 347, 89, 900, 899,
+	1320, 1008, 667, 353, 530, 1208, 1562, 1561, 1560, 1559,
+	798, 1558, 752, 807, 808, 809, 810, 811, 812, 813,
+	814, 815, 816, 817, 818, 819, 820, 821, 528, 776,
+	800, 1201, 510, 1199, 479, 952, 1557, 1246, 806, 1556,
+	1554, 934, 556, 935, 530, 1333, 1202, 353, 529, 528,
+	750, 1321, 804, 805, 803, 1070, 931, 665, 556, 919,
+	801, 797, 529, 528, 914, 530, 913, 850, 915, 916,
+	491, 842, 845, 917, 920, 837, 850, 851, 1054, 530,
+	1009, 1207, 1100, 732, 525, 796, 1676, 778, 553, 554,
+	546, 547, 548, 549, 550, 551, 552, 545, 89, 795,
+	555, 89, 89, 89, 89, 89, 793, 1675, 69, 789,
+	791, 792, 1656, 89, 863, 790, 89, 482, 483, 484,
+	89, 825, 266, 529, 528, 89, 89, 774, 775, 353,
+	1248, 827, 828, 347, 493, 76, 495, 1655, 1654, 837,
+	530, 1497, 353, 1602, 347, 347, 347, 347, 347, 347,
+	347, 347, 333, 333, 333, 333, 333, 847, 347, 347,
+	1180, 855, 1603, 1100, 492, 494, 469, 333, 742, 1652,
+	887, 1604, 521, 529, 528, 1492, 333, 1111, 780, 753,
+	754, 755, 756, 757, 758, 759, 760, 1600, 533, 1374,
+	530, 347, 1507, 761, 762, 1494, 327, 1100, 353, 876,
+	865, 866, 353, 868, 353, 89, 1099, 89, 345, 838,
+	839, 1653, 89, 889, 89, 846, 890, 89, 353, 885,
+	884, 904, 1433, 864, 1110, 907, 867, 1432, 1100, 1301,
+	1181, 1177, 829, 1493, 1182, 1179, 1178, 471, 971, 74,
+	474, 1424, 843, 843, 1162, 1140, 770, 1160, 843, 854,
+	1183, 856, 857, 967, 968, 1044, 1176, 1022, 1023, 1024,
+	1140, 544, 543, 553, 554, 546, 547, 548, 549, 550,
+	551, 552, 545, 777, 1043, 555, 1042, 1028, 1029, 1030,
+	1423, 769, 50, 510, 1140, 843, 490, 823, 335, 824,
+	21, 1555, 802, 529, 528, 800, 1461, 797, 529, 528,
+	1572, 1428, 1352, 529, 528, 1154, 556, 1117, 1577, 1703,
+	530, 1469, 1692, 1571, 347, 530, 1399, 1685, 1399, 1664,
+	530, 796, 1552, 86, 1015, 801, 1014, 347, 1226, 1399,
+	1663, 834, 836, 1290, 544, 543, 553, 554, 546, 547,
+	548, 549, 550, 551, 552, 545, 255, 852, 555, 1399,
+	1649, 338, 1064, 1289, 353, 1027, 1288, 89, 1577, 1648,
+	1515, 1228, 1645, 1644, 1303, 1085, 477, 1087, 478, 1125,
+	1126, 1127, 1109, 353, 485, 514, 518, 1130, 1128, 299,
+	300, 1637, 510, 972, 353, 1399, 1634, 347, 1093, 347,
+	1469, 1582, 536, 977, 1053, 353, 826, 878, 1399, 1573,
+	1095, 749, 1086, 347, 89, 1469, 1505, 1514, 333, 748,
+	1021, 1469, 510, 1116, 1077, 1469, 1470, 1230, 1399, 1398,
+	1508, 1235, 978, 1229, 980, 733, 580, 347, 1227, 1271,
+	510, 1385, 510, 1425, 1233, 591, 1088, 731, 1006, 1131,
+	292, 291, 294, 295, 296, 297, 353, 1231, 1232, 293,
+	298, 488, 904, 481, 1104, 1105, 1107, 656, 1036, 1329,
+	1328, 1323, 1324, 1323, 1322, 1234, 1236, 1165, 1037, 510,
+	630, 510, 835, 510, 1051, 463, 353, 23, 23, 89,
+	89, 556, 635, 638, 639, 640, 636, 89, 637, 641,
+	1417, 1159, 1073, 1074, 672, 671, 353, 657, 1161, 655,
+	1155, 1062, 1173, 1464, 1063, 1221, 1222, 1578, 1250, 1577,
+	1069, 1068, 487, 1313, 1215, 1049, 1174, 1172, 1239, 1240,
+	1069, 1242, 1243, 50, 50, 1168, 886, 1068, 655, 835,
+	1381, 23, 54, 630, 1046, 1416, 353, 353, 629, 1084,
+	1435, 1434, 257, 1332, 1327, 1094, 891, 863, 1251, 1132,
+	1136, 630, 1219, 863, 556, 1254, 1037, 1048, 347, 1256,
+	1037, 1068, 630, 658, 1218, 353, 1273, 353, 353, 1102,
+	1037, 1238, 1237, 797, 1224, 1217, 1045, 50, 50, 1034,
+	1112, 772, 1133, 1035, 1135, 1134, 1696, 1245, 50, 1259,
+	1039, 1040, 1041, 1261, 1278, 1662, 1639, 1241, 1575, 1050,
+	942, 1574, 1566, 1260, 1056, 1565, 1527, 1057, 1058, 1059,
+	1060, 1291, 1506, 1448, 1277, 943, 628, 970, 1312, 1311,
+	1309, 1272, 1298, 1265, 965, 652, 1122, 1131, 1163, 1164,
+	730, 347, 1296, 1294, 89, 353, 1147, 1302, 1149, 1150,
+	1151, 1152, 89, 1097, 904, 959, 904, 353, 1306, 1073,
+	1074, 786, 787, 958, 65, 1547, 353, 1436, 1250, 1171,
+	1076, 347, 746, 635, 638, 639, 640, 636, 89, 637,
+	641, 734, 507, 873, 353, 871, 1010, 784, 874, 1079,
+	872, 347, 875, 353, 639, 640, 89, 1078, 870, 1339,
+	1343, 869, 1670, 1357, 1354, 1640, 1205, 261, 262, 1345,
+	1211, 524, 1668, 347, 580, 1020, 1019, 840, 841, 512,
+	1148, 670, 489, 1348, 522, 1300, 1351, 1449, 843, 1379,
+	513, 1258, 1084, 979, 843, 774, 775, 954, 955, 956,
+	957, 1355, 745, 1446, 1299, 1170, 353, 333, 353, 353,
+	353, 89, 353, 973, 1362, 1392, 1393, 1394, 353, 643,
+	347, 524, 347, 1281, 258, 259, 728, 1445, 1380, 1018,
+	1335, 1285, 1217, 739, 252, 740, 1660, 1017, 744, 353,
+	1388, 747, 1407, 1533, 253, 1095, 1414, 1412, 54, 1532,
+	1452, 1395, 1397, 1441, 1069, 1442, 1443, 1444, 897, 1223,
+	983, 984, 985, 1564, 1411, 526, 766, 1440, 1284, 1283,
+	1563, 1541, 1113, 353, 353, 1419, 1131, 56, 767, 680,
+	676, 353, 1525, 7, 58, 785, 1418, 1526, 6, 1175,
+	1331, 353, 1524, 5, 1340, 1314, 1315, 904, 1317, 1318,
+	1319, 1438, 1344, 1437, 654, 51, 1270, 1, 1522, 1500,
+	1570, 1346, 1119, 1455, 1456, 1568, 1457, 1458, 1459, 1479,
+	67, 1629, 1576, 1334, 1169, 1184, 353, 353, 976, 1349,
+	1166, 991, 1481, 1583, 1597, 1476, 911, 901, 347, 461,
+	353, 64, 1553, 1254, 912, 910, 908, 1463, 1465, 673,
+	353, 1138, 1168, 904, 1491, 940, 679, 677, 678, 1496,
+	675, 1490, 1011, 1012, 1474, 518, 1489, 681, 231, 1498,
+	340, 642, 666, 527, 1198, 353, 353, 89, 1197, 987,
+	353, 1206, 1509, 1510, 1511, 763, 860, 1007, 1516, 353,
+	505, 1390, 233, 1390, 1390, 1390, 1528, 1396, 564, 1016,
+	1480, 1089, 346, 347, 1625, 1257, 516, 1531, 1451, 1052,
+	353, 590, 848, 278, 888, 303, 47, 788, 290, 287,
+	289, 288, 779, 1542, 1390, 1548, 1254, 1061, 1038, 537,
+	1543, 268, 1482, 1483, 1484, 1485, 1486, 1487, 1488, 332,
+	626, 1356, 634, 1055, 632, 631, 1075, 1071, 1358, 331,
+	1141, 1142, 1214, 1144, 1145, 1146, 1376, 1538, 347, 347,
+	1367, 1368, 1369, 47, 783, 1372, 1447, 25, 353, 55,
+	1426, 256, 263, 19, 18, 1580, 1450, 334, 1382, 1383,
+	1384, 1581, 1387, 17, 20, 353, 16, 15, 353, 14,
+	1588, 29, 353, 981, 13, 986, 863, 1593, 12, 1598,
+	1003, 11, 1004, 10, 9, 1005, 353, 353, 8, 1612,
+	4, 1467, 1468, 254, 22, 353, 353, 2, 353, 0,
+	1613, 1610, 1611, 0, 0, 1281, 353, 1635, 1627, 1628,
+	1422, 0, 1633, 0, 0, 1499, 1605, 1606, 1607, 1608,
+	1609, 0, 0, 0, 515, 543, 553, 554, 546, 547,
+	548, 549, 550, 551, 552, 545, 0, 0, 555, 1477,
+	1281, 1517, 1646, 1647, 0, 1520, 0, 0, 0, 0,
+	0, 0, 0, 0, 1390, 1661, 0, 1666, 0, 87,
+	353, 1512, 243, 1513, 353, 0, 0, 0, 1667, 0,
+	0, 0, 0, 1669, 1672, 1545, 1674, 0, 0, 1460,
+	0, 89, 0, 353, 267, 0, 87, 87, 1679, 0,
+	1680, 1682, 0, 1681, 89, 1471, 1472, 1473, 0, 0,
+	1689, 0, 87, 0, 87, 1691, 0, 0, 1693, 0,
+	87, 353, 0, 0, 0, 0, 1504, 353, 0, 0,
+	1700, 1701, 0, 497, 497, 497, 497, 1247, 497, 1316,
+	0, 0, 0, 1281, 0, 497, 0, 0, 0, 0,
+	0, 0, 1262, 1263, 0, 0, 1264, 843, 0, 1266,
+	1595, 0, 47, 1596, 0, 0, 0, 1599, 1534, 1535,
+	1536, 1537, 0, 0, 0, 0, 0, 565, 0, 0,
+	567, 1520, 1281, 0, 0, 0, 0, 0, 0, 0,
+	1281, 1281, 0, 1631, 0, 0, 0, 0, 0, 0,
+	1697, 1638, 0, 0, 0, 0, 0, 577, 0, 581,
+	582, 583, 584, 585, 586, 587, 588, 589, 0, 592,
+	594, 594, 594, 594, 594, 594, 594, 594, 0, 622,
+	623, 624, 625, 0, 0, 0, 0, 0, 0, 0,
+	645, 0, 0, 944, 945, 947, 948, 949, 0, 950,
+	951, 1589, 0, 0, 556, 1281, 1594, 0, 87, 1671,
+	0, 0, 0, 0, 0, 1213, 960, 961, 962, 0,
+	963, 1371, 0, 0, 0, 0, 0, 0, 1390, 1124,
+	1614, 0, 0, 0, 1125, 1126, 1127, 997, 0, 0,
+	0, 1353, 1130, 1128, 299, 300, 1636, 0, 0, 0,
+	996, 0, 0, 0, 0, 0, 347, 0, 0, 0,
+	0, 0, 1520, 0, 0, 0, 0, 0, 1427, 0,
+	1429, 0, 0, 0, 1479, 0, 0, 1001, 0, 0,
+	0, 1378, 0, 0, 0, 0, 995, 1481, 580, 0,
+	0, 0, 0, 544, 543, 553, 554, 546, 547, 548,
+	549, 550, 551, 552, 545, 0, 1453, 555, 0, 0,
+	0, 0, 87, 0, 0, 0, 1125, 1126, 1127, 87,
+	650, 87, 0, 603, 1130, 1128, 299, 300, 0, 0,
+	1413, 0, 0, 497, 1687, 992, 989, 990, 0, 988,
+	0, 0, 0, 0, 497, 497, 497, 497, 497, 497,
+	497, 497, 1033, 0, 0, 1480, 605, 0, 497, 497,
+	0, 0, 1330, 0, 1704, 1705, 0, 999, 1002, 0,
+	1338, 0, 544, 543, 553, 554, 546, 547, 548, 549,
+	550, 551, 552, 545, 0, 0, 555, 1482, 1483, 1484,
+	1485, 1486, 1487, 1488, 0, 0, 1347, 610, 611, 612,
+	613, 614, 615, 616, 617, 618, 619, 0, 0, 0,
+	0, 0, 0, 0, 1132, 1136, 0, 0, 606, 0,
+	0, 0, 0, 47, 0, 0, 620, 604, 0, 0,
+	0, 0, 994, 609, 229, 0, 0, 581, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1133, 0, 1135,
+	1134, 0, 87, 0, 0, 0, 0, 1143, 239, 87,
+	0, 87, 0, 993, 87, 0, 0, 87, 0, 0,
+	0, 751, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 334, 334, 334, 334,
+	334, 0, 87, 0, 0, 0, 1132, 1136, 0, 0,
+	0, 645, 998, 883, 1190, 0, 621, 0, 0, 224,
+	334, 87, 0, 556, 1549, 226, 0, 0, 1000, 0,
+	751, 0, 232, 228, 0, 0, 0, 0, 0, 1133,
+	0, 1135, 1134, 0, 0, 0, 1567, 0, 0, 0,
+	23, 24, 48, 26, 27, 0, 0, 0, 0, 0,
+	0, 0, 230, 0, 0, 234, 0, 0, 0, 42,
+	0, 0, 267, 28, 0, 1587, 580, 267, 267, 1191,
+	0, 844, 844, 267, 1193, 1186, 1187, 844, 1194, 1189,
+	1188, 0, 37, 1196, 1192, 0, 50, 497, 0, 497,
+	0, 0, 556, 0, 1195, 0, 0, 0, 0, 0,
+	1185, 0, 0, 497, 0, 0, 0, 267, 267, 267,
+	267, 1632, 87, 225, 844, 87, 87, 87, 87, 87,
+	0, 0, 0, 0, 0, 0, 0, 877, 0, 0,
+	87, 0, 0, 0, 650, 1518, 0, 0, 0, 87,
+	87, 0, 0, 0, 1308, 1310, 30, 31, 33, 32,
+	35, 227, 1026, 235, 236, 237, 238, 242, 0, 0,
+	0, 0, 241, 240, 0, 0, 0, 0, 0, 0,
 	36, 43, 44, 0, 0, 45, 46, 34, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 1353, 0,
-	0, 0, 0, 0, 230, 0, 0, 234, 0, 0,
-	1133, 0, 1135, 1134, 0, 1065, 1066, 0, 0, 38,
-	39, 0, 40, 41, 0, 0, 0, 87, 0, 87,
-	0, 0, 0, 0, 87, 0, 87, 0, 1378, 87,
-	0, 0, 0, 334, 0, 580, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 751, 225, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 267, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 1413, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 227, 0, 235, 236, 237, 238, 242,
-	0, 0, 0, 0, 241, 240, 0, 0, 0, 0,
-	0, 0, 0, 49, 267, 0, 0, 0, 0, 0,
-	47, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	267, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 497, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 87,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 1205, 0, 0, 0, 0, 0, 0,
-	1255, 0, 47, 0, 0, 0, 1118, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 1267, 1268, 1269,
-	703, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 1421, 0, 0, 0,
-	0, 0, 0, 1297, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 1307,
-	0, 1565, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 1209, 1210, 0, 0, 0, 0, 0, 0, 87,
-	0, 0, 0, 0, 0, 0, 0, 688, 0, 267,
-	1585, 580, 0, 0, 0, 0, 0, 0, 0, 0,
-	267, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	751, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	704, 0, 0, 0, 0, 844, 0, 0, 0, 0,
-	0, 844, 0, 0, 0, 0, 1630, 0, 0, 0,
-	0, 0, 334, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 610, 611, 612, 613, 614, 615, 616, 617, 618,
-	619, 1375, 720, 721, 0, 722, 723, 724, 726, 725,
-	705, 706, 707, 711, 709, 708, 710, 682, 684, 0,
-	620, 683, 689, 685, 686, 687, 701, 690, 691, 692,
-	693, 694, 695, 696, 697, 698, 699, 700, 702, 712,
-	713, 714, 715, 716, 717, 718, 719, 0, 0, 0,
-	1420, 0, 0, 1681, 0, 0, 87, 0, 0, 0,
-	0, 0, 0, 0, 87, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1683, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 38,
+	39, 0, 40, 41, 1065, 1066, 0, 0, 0, 87,
+	0, 87, 0, 0, 0, 0, 87, 0, 87, 0,
+	0, 87, 0, 0, 0, 0, 0, 1359, 1360, 0,
+	1361, 0, 334, 0, 1363, 0, 1365, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 751, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 267, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	87, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	621, 0, 0, 0, 0, 0, 0, 0, 87, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 154, 0, 92, 0, 0, 0, 0, 0, 0,
-	116, 0, 0, 0, 130, 0, 133, 0, 1255, 176,
-	142, 1466, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 352, 0,
-	0, 0, 0, 650, 0, 0, 0, 105, 0, 1501,
+	0, 0, 1400, 1401, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 49, 0, 0, 267, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 47,
+	0, 0, 267, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 497, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 87, 1688, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 544, 543, 553, 554, 546, 547,
-	548, 549, 550, 551, 552, 545, 1527, 0, 555, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1118, 1255,
+	0, 47, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 1267, 1268, 1269, 703,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 1255, 0, 47, 203, 0, 0, 0, 161, 0,
-	108, 0, 182, 120, 0, 131, 0, 0, 0, 0,
-	0, 0, 110, 0, 168, 155, 194, 0, 156, 166,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1421, 0, 0, 0, 0,
+	0, 0, 1297, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1307, 0,
+	0, 0, 0, 1209, 1210, 0, 0, 0, 0, 0,
+	0, 87, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 267, 0, 0, 0, 0, 688, 0, 0, 0,
+	0, 0, 267, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 751, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 844, 0, 704,
+	0, 0, 0, 844, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 334, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	610, 611, 612, 613, 614, 615, 616, 617, 618, 619,
+	1375, 720, 721, 0, 722, 723, 724, 726, 725, 705,
+	706, 707, 711, 709, 708, 710, 682, 684, 0, 620,
+	683, 689, 685, 686, 687, 701, 690, 691, 692, 693,
+	694, 695, 696, 697, 698, 699, 700, 702, 712, 713,
+	714, 715, 716, 717, 718, 719, 0, 0, 87, 1420,
+	0, 0, 0, 0, 0, 0, 87, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 703, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 87, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 621,
+	87, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 1255, 0, 0,
+	1466, 0, 0, 0, 0, 0, 0, 0, 0, 688,
+	0, 0, 0, 0, 0, 650, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 1503, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 704, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 1529, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	1255, 0, 47, 610, 611, 612, 613, 614, 615, 616,
+	617, 618, 619, 0, 720, 721, 0, 722, 723, 724,
+	726, 725, 705, 706, 707, 711, 709, 708, 710, 682,
+	684, 0, 620, 683, 689, 685, 686, 687, 701, 690,
+	691, 692, 693, 694, 695, 696, 697, 698, 699, 700,
+	702, 712, 713, 714, 715, 716, 717, 718, 719, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 87, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 621, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 1643, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 844, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	1698, 0, 449, 439, 0, 408, 451, 381, 397, 459,
+	399, 400, 430, 365, 416, 154, 394, 92, 384, 358,
+	391, 359, 382, 410, 116, 380, 441, 419, 130, 457,
+	133, 424, 0, 176, 142, 0, 0, 412, 443, 414,
+	436, 407, 431, 372, 423, 452, 395, 427, 453, 0,
+	0, 0, 352, 0, 905, 906, 0, 0, 0, 0,
+	0, 105, 0, 426, 448, 393, 460, 429, 357, 425,
+	0, 363, 366, 458, 446, 388, 389, 1096, 0, 0,
+	0, 0, 0, 0, 411, 415, 433, 404, 0, 0,
+	0, 0, 0, 0, 0, 1678, 385, 0, 422, 0,
+	0, 0, 369, 364, 0, 409, 0, 0, 87, 371,
+	0, 386, 434, 0, 354, 438, 444, 406, 203, 447,
+	403, 402, 161, 0, 108, 0, 182, 120, 396, 131,
+	432, 450, 413, 442, 383, 392, 110, 390, 168, 155,
+	194, 421, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 362, 355,
+	387, 437, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 360, 0,
+	177, 196, 214, 215, 361, 379, 445, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 428, 169, 107, 195, 175, 375, 378, 373,
+	374, 417, 418, 454, 455, 456, 435, 370, 0, 376,
+	377, 0, 440, 125, 420, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 398, 356, 401, 0, 0, 0,
+	0, 0, 0, 0, 367, 368, 170, 405, 0, 104,
+	449, 439, 0, 408, 451, 381, 397, 459, 399, 400,
+	430, 365, 416, 154, 394, 92, 384, 358, 391, 359,
+	382, 410, 116, 380, 441, 419, 130, 457, 133, 424,
+	0, 176, 142, 0, 0, 412, 443, 414, 436, 407,
+	431, 372, 423, 452, 395, 427, 453, 0, 0, 0,
+	352, 0, 905, 906, 0, 0, 0, 0, 0, 105,
+	0, 426, 448, 393, 460, 429, 357, 425, 0, 363,
+	366, 458, 446, 388, 389, 0, 0, 0, 0, 0,
+	0, 0, 411, 415, 433, 404, 0, 0, 0, 0,
+	0, 0, 0, 0, 385, 0, 422, 0, 0, 0,
+	369, 364, 0, 409, 0, 0, 0, 371, 0, 386,
+	434, 0, 354, 438, 444, 406, 203, 447, 403, 402,
+	161, 0, 108, 0, 182, 120, 396, 131, 432, 450,
+	413, 442, 383, 392, 110, 390, 168, 155, 194, 421,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 362, 355, 387, 437,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 360, 0, 177, 196,
+	214, 215, 361, 379, 445, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	428, 169, 107, 195, 175, 375, 378, 373, 374, 417,
+	418, 454, 455, 456, 435, 370, 0, 376, 377, 0,
+	440, 125, 420, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 398, 356, 401, 0, 0, 0, 0, 0,
+	0, 0, 367, 368, 170, 405, 0, 104, 449, 439,
+	0, 408, 451, 381, 397, 459, 399, 400, 430, 365,
+	416, 154, 394, 92, 384, 358, 391, 359, 382, 410,
+	116, 380, 441, 419, 130, 457, 133, 424, 0, 176,
+	142, 0, 0, 412, 443, 414, 436, 407, 431, 372,
+	423, 452, 395, 427, 453, 0, 0, 0, 352, 0,
+	0, 0, 0, 0, 0, 0, 0, 105, 0, 426,
+	448, 393, 460, 429, 357, 425, 0, 363, 366, 458,
+	446, 388, 389, 0, 0, 0, 0, 0, 0, 0,
+	411, 415, 433, 404, 0, 0, 0, 0, 0, 0,
+	1216, 0, 385, 0, 422, 0, 0, 0, 369, 364,
+	0, 409, 0, 0, 0, 371, 0, 386, 434, 0,
+	354, 438, 444, 406, 203, 447, 403, 402, 161, 0,
+	108, 0, 182, 120, 396, 131, 432, 450, 413, 442,
+	383, 392, 110, 390, 168, 155, 194, 421, 156, 166,
 	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
 	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
-	219, 220, 221, 222, 0, 0, 0, 0, 93, 183,
+	219, 220, 221, 222, 362, 355, 387, 437, 93, 183,
 	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
 	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
 	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
 	200, 201, 98, 102, 199, 148, 153, 151, 198, 185,
-	191, 141, 138, 0, 97, 189, 139, 137, 129, 87,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
 	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
-	150, 123, 0, 0, 0, 0, 177, 196, 214, 215,
-	0, 1641, 0, 206, 207, 208, 209, 0, 0, 0,
-	147, 103, 124, 173, 128, 135, 164, 212, 0, 169,
-	107, 195, 175, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 125,
-	0, 91, 99, 132, 210, 211, 0, 163, 118, 197,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 170, 0, 556, 104, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 844, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 1696,
-	0, 0, 0, 449, 439, 0, 408, 451, 381, 397,
-	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
-	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
-	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
-	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
-	0, 0, 0, 352, 0, 905, 906, 0, 0, 0,
-	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
-	425, 0, 363, 366, 458, 446, 388, 389, 1096, 0,
-	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
-	0, 0, 0, 0, 0, 0, 0, 385, 0, 422,
-	0, 1676, 0, 369, 364, 0, 409, 0, 0, 0,
-	371, 0, 386, 434, 87, 354, 438, 444, 406, 203,
-	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
-	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
-	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 362,
-	355, 387, 437, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
-	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
-	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
-	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 398, 356, 401, 0, 0,
-	0, 0, 0, 0, 0, 367, 368, 170, 405, 0,
-	104, 449, 439, 0, 408, 451, 381, 397, 459, 399,
-	400, 430, 365, 416, 154, 394, 92, 384, 358, 391,
-	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
-	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
-	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
-	0, 352, 0, 905, 906, 0, 0, 0, 0, 0,
-	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
-	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
-	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
-	0, 0, 0, 0, 0, 385, 0, 422, 0, 0,
-	0, 369, 364, 0, 409, 0, 0, 0, 371, 0,
-	386, 434, 0, 354, 438, 444, 406, 203, 447, 403,
-	402, 161, 0, 108, 0, 182, 120, 396, 131, 432,
-	450, 413, 442, 383, 392, 110, 390, 168, 155, 194,
-	421, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 362, 355, 387,
-	437, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 360, 0, 177,
-	196, 214, 215, 361, 379, 445, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 428, 169, 107, 195, 175, 375, 378, 373, 374,
-	417, 418, 454, 455, 456, 435, 370, 0, 376, 377,
-	0, 440, 125, 420, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 398, 356, 401, 0, 0, 0, 0,
-	0, 0, 0, 367, 368, 170, 405, 0, 104, 449,
-	439, 0, 408, 451, 381, 397, 459, 399, 400, 430,
-	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
-	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
-	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
-	372, 423, 452, 395, 427, 453, 0, 0, 0, 352,
-	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
-	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
-	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
-	0, 411, 415, 433, 404, 0, 0, 0, 0, 0,
-	0, 1216, 0, 385, 0, 422, 0, 0, 0, 369,
-	364, 0, 409, 0, 0, 0, 371, 0, 386, 434,
-	0, 354, 438, 444, 406, 203, 447, 403, 402, 161,
-	0, 108, 0, 182, 120, 396, 131, 432, 450, 413,
-	442, 383, 392, 110, 390, 168, 155, 194, 421, 156,
-	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
-	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 362, 355, 387, 437, 93,
-	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
-	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
-	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
-	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
-	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 360, 0, 177, 196, 214,
-	215, 361, 379, 445, 206, 207, 208, 209, 0, 0,
-	0, 147, 103, 124, 173, 128, 135, 164, 212, 428,
-	169, 107, 195, 175, 375, 378, 373, 374, 417, 418,
-	454, 455, 456, 435, 370, 0, 376, 377, 0, 440,
-	125, 420, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 398, 356, 401, 0, 0, 0, 0, 0, 0,
-	0, 367, 368, 170, 405, 0, 104, 449, 439, 0,
-	408, 451, 381, 397, 459, 399, 400, 430, 365, 416,
-	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
-	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
-	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 50, 0, 0, 352, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
-	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
-	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
-	415, 433, 404, 0, 0, 0, 0, 0, 0, 0,
-	0, 385, 0, 422, 0, 0, 0, 369, 364, 0,
-	409, 0, 0, 0, 371, 0, 386, 434, 0, 354,
-	438, 444, 406, 203, 447, 403, 402, 161, 0, 108,
-	0, 182, 120, 396, 131, 432, 450, 413, 442, 383,
-	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 362, 355, 387, 437, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 360, 0, 177, 196, 214, 215, 361,
-	379, 445, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 428, 169, 107,
-	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
-	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
-	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
-	368, 170, 405, 0, 104, 449, 439, 0, 408, 451,
-	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
-	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
-	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
-	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
-	427, 453, 0, 0, 0, 272, 0, 0, 0, 0,
-	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
-	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
-	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
-	404, 0, 0, 0, 0, 0, 0, 794, 0, 385,
-	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
-	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
-	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
-	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
-	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
+	150, 123, 0, 0, 360, 0, 177, 196, 214, 215,
+	361, 379, 445, 206, 207, 208, 209, 0, 0, 0,
+	147, 103, 124, 173, 128, 135, 164, 212, 428, 169,
+	107, 195, 175, 375, 378, 373, 374, 417, 418, 454,
+	455, 456, 435, 370, 0, 376, 377, 0, 440, 125,
+	420, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	398, 356, 401, 0, 0, 0, 0, 0, 0, 0,
+	367, 368, 170, 405, 0, 104, 449, 439, 0, 408,
+	451, 381, 397, 459, 399, 400, 430, 365, 416, 154,
+	394, 92, 384, 358, 391, 359, 382, 410, 116, 380,
+	441, 419, 130, 457, 133, 424, 0, 176, 142, 0,
+	0, 412, 443, 414, 436, 407, 431, 372, 423, 452,
+	395, 427, 453, 50, 0, 0, 352, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 426, 448, 393,
+	460, 429, 357, 425, 0, 363, 366, 458, 446, 388,
+	389, 0, 0, 0, 0, 0, 0, 0, 411, 415,
+	433, 404, 0, 0, 0, 0, 0, 0, 0, 0,
+	385, 0, 422, 0, 0, 0, 369, 364, 0, 409,
+	0, 0, 0, 371, 0, 386, 434, 0, 354, 438,
+	444, 406, 203, 447, 403, 402, 161, 0, 108, 0,
+	182, 120, 396, 131, 432, 450, 413, 442, 383, 392,
+	110, 390, 168, 155, 194, 421, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 362, 355, 387, 437, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 360, 0, 177, 196, 214, 215, 361, 379,
+	445, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 428, 169, 107, 195,
+	175, 375, 378, 373, 374, 417, 418, 454, 455, 456,
+	435, 370, 0, 376, 377, 0, 440, 125, 420, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 398, 356,
+	401, 0, 0, 0, 0, 0, 0, 0, 367, 368,
+	170, 405, 0, 104, 449, 439, 0, 408, 451, 381,
+	397, 459, 399, 400, 430, 365, 416, 154, 394, 92,
+	384, 358, 391, 359, 382, 410, 116, 380, 441, 419,
+	130, 457, 133, 424, 0, 176, 142, 0, 0, 412,
+	443, 414, 436, 407, 431, 372, 423, 452, 395, 427,
+	453, 0, 0, 0, 272, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 426, 448, 393, 460, 429,
+	357, 425, 0, 363, 366, 458, 446, 388, 389, 0,
+	0, 0, 0, 0, 0, 0, 411, 415, 433, 404,
+	0, 0, 0, 0, 0, 0, 794, 0, 385, 0,
+	422, 0, 0, 0, 369, 364, 0, 409, 0, 0,
+	0, 371, 0, 386, 434, 0, 354, 438, 444, 406,
+	203, 447, 403, 402, 161, 0, 108, 0, 182, 120,
+	396, 131, 432, 450, 413, 442, 383, 392, 110, 390,
+	168, 155, 194, 421, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	362, 355, 387, 437, 93, 183, 192, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	360, 0, 177, 196, 214, 215, 361, 379, 445, 206,
+	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
+	128, 135, 164, 212, 428, 169, 107, 195, 175, 375,
+	378, 373, 374, 417, 418, 454, 455, 456, 435, 370,
+	0, 376, 377, 0, 440, 125, 420, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 398, 356, 401, 0,
+	0, 0, 0, 0, 0, 0, 367, 368, 170, 405,
+	0, 104, 449, 439, 0, 408, 451, 381, 397, 459,
+	399, 400, 430, 365, 416, 154, 394, 92, 384, 358,
+	391, 359, 382, 410, 116, 380, 441, 419, 130, 457,
+	133, 424, 0, 176, 142, 0, 0, 412, 443, 414,
+	436, 407, 431, 372, 423, 452, 395, 427, 453, 0,
+	0, 0, 352, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 426, 448, 393, 460, 429, 357, 425,
+	0, 363, 366, 458, 446, 388, 389, 0, 0, 0,
+	0, 0, 0, 0, 411, 415, 433, 404, 0, 0,
+	0, 0, 0, 0, 0, 0, 385, 0, 422, 0,
+	0, 0, 369, 364, 0, 409, 0, 0, 0, 371,
+	0, 386, 434, 0, 354, 438, 444, 406, 203, 447,
+	403, 402, 161, 0, 108, 0, 182, 120, 396, 131,
+	432, 450, 413, 442, 383, 392, 110, 390, 168, 155,
+	194, 421, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 362, 355,
+	387, 437, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 360, 0,
+	177, 196, 214, 215, 361, 379, 445, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 428, 169, 107, 195, 175, 375, 378, 373,
+	374, 417, 418, 454, 455, 456, 435, 370, 0, 376,
+	377, 0, 440, 125, 420, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 398, 356, 401, 0, 0, 0,
+	0, 0, 0, 0, 367, 368, 170, 405, 0, 104,
+	449, 439, 0, 408, 451, 381, 397, 459, 399, 400,
+	430, 365, 416, 154, 394, 92, 384, 358, 391, 359,
+	382, 410, 116, 380, 441, 419, 130, 457, 133, 424,
+	0, 176, 142, 0, 0, 412, 443, 414, 436, 407,
+	431, 372, 423, 452, 395, 427, 453, 0, 0, 0,
+	272, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 426, 448, 393, 460, 429, 357, 425, 0, 363,
+	366, 458, 446, 388, 389, 0, 0, 0, 0, 0,
+	0, 0, 411, 415, 433, 404, 0, 0, 0, 0,
+	0, 0, 0, 0, 385, 0, 422, 0, 0, 0,
+	369, 364, 0, 409, 0, 0, 0, 371, 0, 386,
+	434, 0, 354, 438, 444, 406, 203, 447, 403, 402,
+	161, 0, 108, 0, 182, 120, 396, 131, 432, 450,
+	413, 442, 383, 392, 110, 390, 168, 155, 194, 421,
+	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
+	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
+	217, 218, 219, 220, 221, 222, 362, 355, 387, 437,
+	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
+	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
+	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
+	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
+	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
+	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
+	146, 0, 150, 123, 0, 0, 360, 0, 177, 196,
+	214, 215, 361, 379, 445, 206, 207, 208, 209, 0,
+	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
+	428, 169, 107, 195, 175, 375, 378, 373, 374, 417,
+	418, 454, 455, 456, 435, 370, 0, 376, 377, 0,
+	440, 125, 420, 91, 99, 132, 210, 211, 0, 163,
+	118, 197, 398, 356, 401, 0, 0, 0, 0, 0,
+	0, 0, 367, 368, 170, 405, 0, 104, 449, 439,
+	0, 408, 451, 381, 397, 459, 399, 400, 430, 365,
+	416, 154, 394, 92, 384, 358, 391, 359, 382, 410,
+	116, 380, 441, 419, 130, 457, 133, 424, 0, 176,
+	142, 0, 0, 412, 443, 414, 436, 407, 431, 372,
+	423, 452, 395, 427, 453, 0, 0, 0, 352, 0,
+	0, 0, 0, 0, 0, 0, 0, 105, 0, 426,
+	448, 393, 460, 429, 357, 425, 0, 363, 366, 458,
+	446, 388, 389, 0, 0, 0, 0, 0, 0, 0,
+	411, 415, 433, 404, 0, 0, 0, 0, 0, 0,
+	0, 0, 385, 0, 422, 0, 0, 0, 369, 364,
+	0, 409, 0, 0, 0, 371, 0, 386, 434, 0,
+	354, 438, 444, 406, 203, 447, 403, 402, 161, 0,
+	108, 0, 182, 120, 396, 131, 432, 450, 413, 442,
+	383, 392, 110, 390, 168, 155, 194, 421, 156, 166,
+	134, 186, 162, 193, 204, 205, 184, 202, 171, 100,
+	149, 90, 160, 167, 0, 109, 0, 216, 217, 218,
+	219, 220, 221, 222, 362, 355, 387, 437, 93, 183,
+	192, 106, 172, 96, 190, 179, 181, 140, 126, 127,
+	174, 94, 95, 0, 165, 115, 159, 119, 114, 152,
+	180, 143, 187, 188, 111, 213, 113, 112, 178, 101,
+	200, 201, 98, 350, 199, 148, 153, 151, 198, 185,
+	191, 141, 138, 0, 97, 189, 139, 137, 129, 0,
+	117, 121, 157, 136, 158, 122, 145, 144, 146, 0,
+	150, 123, 0, 0, 360, 0, 177, 196, 214, 215,
+	361, 379, 445, 206, 207, 208, 209, 0, 0, 0,
+	351, 349, 124, 173, 128, 135, 164, 212, 428, 169,
+	107, 195, 175, 375, 378, 373, 374, 417, 418, 454,
+	455, 456, 435, 370, 0, 376, 377, 0, 440, 125,
+	420, 91, 99, 132, 210, 211, 0, 163, 118, 197,
+	398, 356, 401, 0, 0, 0, 0, 0, 0, 0,
+	367, 368, 170, 405, 0, 104, 449, 439, 0, 408,
+	451, 381, 397, 459, 399, 400, 430, 365, 416, 154,
+	394, 92, 384, 358, 391, 359, 382, 410, 116, 380,
+	441, 419, 130, 457, 133, 424, 0, 176, 142, 0,
+	0, 412, 443, 414, 436, 407, 431, 372, 423, 452,
+	395, 427, 453, 0, 0, 0, 88, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 426, 448, 393,
+	460, 429, 357, 425, 0, 363, 366, 458, 446, 388,
+	389, 0, 0, 0, 0, 0, 0, 0, 411, 415,
+	433, 404, 0, 0, 0, 0, 0, 0, 0, 0,
+	385, 0, 422, 0, 0, 0, 369, 364, 0, 409,
+	0, 0, 0, 371, 0, 386, 434, 0, 354, 438,
+	444, 406, 203, 447, 403, 402, 161, 0, 108, 0,
+	182, 120, 396, 131, 432, 450, 413, 442, 383, 392,
+	110, 390, 168, 155, 194, 421, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 362, 355, 387, 437, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 360, 0, 177, 196, 214, 215, 361, 379,
+	445, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 428, 169, 107, 195,
+	175, 375, 378, 373, 374, 417, 418, 454, 455, 456,
+	435, 370, 0, 376, 377, 0, 440, 125, 420, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 398, 356,
+	401, 0, 0, 0, 0, 0, 0, 0, 367, 368,
+	170, 405, 0, 104, 449, 439, 0, 408, 451, 381,
+	397, 459, 399, 400, 430, 365, 416, 154, 394, 92,
+	384, 358, 391, 359, 382, 410, 116, 380, 441, 419,
+	130, 457, 133, 424, 0, 176, 142, 0, 0, 412,
+	443, 414, 436, 407, 431, 372, 423, 452, 395, 427,
+	453, 0, 0, 0, 352, 0, 0, 0, 0, 0,
+	0, 0, 0, 105, 0, 426, 448, 393, 460, 429,
+	357, 425, 0, 363, 366, 458, 446, 388, 389, 0,
+	0, 0, 0, 0, 0, 0, 411, 415, 433, 404,
+	0, 0, 0, 0, 0, 0, 0, 0, 385, 0,
+	422, 0, 0, 0, 369, 364, 0, 409, 0, 0,
+	0, 371, 0, 386, 434, 0, 354, 438, 444, 406,
+	203, 447, 403, 402, 161, 0, 108, 0, 182, 120,
+	396, 131, 432, 450, 413, 442, 383, 392, 110, 390,
+	168, 155, 194, 421, 156, 166, 134, 186, 162, 193,
+	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
+	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
+	362, 355, 387, 437, 93, 183, 660, 106, 172, 96,
+	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
+	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
+	111, 213, 113, 112, 178, 101, 200, 201, 98, 350,
+	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
+	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
+	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
+	360, 0, 177, 196, 214, 215, 361, 379, 445, 206,
+	207, 208, 209, 0, 0, 0, 351, 349, 124, 173,
+	128, 135, 164, 212, 428, 169, 107, 195, 175, 375,
+	378, 373, 374, 417, 418, 454, 455, 456, 435, 370,
+	0, 376, 377, 0, 440, 125, 420, 91, 99, 132,
+	210, 211, 0, 163, 118, 197, 398, 356, 401, 0,
+	0, 0, 0, 0, 0, 0, 367, 368, 170, 405,
+	0, 104, 449, 439, 0, 408, 451, 381, 397, 459,
+	399, 400, 430, 365, 416, 154, 394, 92, 384, 358,
+	391, 359, 382, 410, 116, 380, 441, 419, 130, 457,
+	133, 424, 0, 176, 142, 0, 0, 412, 443, 414,
+	436, 407, 431, 372, 423, 452, 395, 427, 453, 0,
+	0, 0, 352, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 426, 448, 393, 460, 429, 357, 425,
+	0, 363, 366, 458, 446, 388, 389, 0, 0, 0,
+	0, 0, 0, 0, 411, 415, 433, 404, 0, 0,
+	0, 0, 0, 0, 0, 0, 385, 0, 422, 0,
+	0, 0, 369, 364, 0, 409, 0, 0, 0, 371,
+	0, 386, 434, 0, 354, 438, 444, 406, 203, 447,
+	403, 402, 161, 0, 108, 0, 182, 120, 396, 131,
+	432, 450, 413, 442, 383, 392, 110, 390, 168, 155,
+	194, 421, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 362, 355,
+	387, 437, 93, 183, 341, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 350, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 360, 0,
+	177, 196, 214, 215, 361, 379, 445, 206, 207, 208,
+	209, 0, 0, 0, 351, 349, 344, 343, 128, 135,
+	164, 212, 428, 169, 107, 195, 175, 375, 378, 373,
+	374, 417, 418, 454, 455, 456, 435, 370, 0, 376,
+	377, 0, 440, 125, 420, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 398, 356, 401, 0, 0, 0,
+	0, 0, 0, 0, 367, 368, 170, 405, 154, 104,
+	92, 0, 0, 274, 0, 0, 0, 116, 271, 0,
+	0, 130, 313, 133, 0, 0, 176, 142, 0, 0,
+	0, 0, 304, 305, 0, 0, 0, 0, 0, 0,
+	895, 0, 50, 0, 0, 272, 292, 291, 294, 295,
+	296, 297, 0, 0, 105, 293, 298, 299, 300, 896,
+	0, 0, 269, 285, 0, 312, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 282, 283, 0, 0, 0,
+	0, 325, 0, 284, 0, 0, 280, 281, 286, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 203, 0, 0, 323, 161, 0, 108, 0, 182,
+	120, 0, 131, 0, 0, 0, 0, 0, 0, 110,
+	0, 168, 155, 194, 0, 156, 166, 134, 186, 162,
 	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
 	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 362, 355, 387, 437, 93, 183, 192, 106, 172,
+	222, 0, 0, 0, 0, 93, 183, 192, 106, 172,
 	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
 	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
 	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
 	102, 199, 148, 153, 151, 198, 185, 191, 141, 138,
 	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
 	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
+	0, 0, 0, 177, 196, 214, 215, 0, 0, 0,
 	206, 207, 208, 209, 0, 0, 0, 147, 103, 124,
-	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
-	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
-	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
-	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
-	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
-	405, 0, 104, 449, 439, 0, 408, 451, 381, 397,
-	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
-	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
-	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
-	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
-	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
-	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
-	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
-	0, 0, 0, 0, 0, 0, 0, 385, 0, 422,
-	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
-	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
-	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
-	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
-	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 362,
-	355, 387, 437, 93, 183, 192, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
-	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
-	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
-	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
-	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
-	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 398, 356, 401, 0, 0,
-	0, 0, 0, 0, 0, 367, 368, 170, 405, 0,
-	104, 449, 439, 0, 408, 451, 381, 397, 459, 399,
-	400, 430, 365, 416, 154, 394, 92, 384, 358, 391,
-	359, 382, 410, 116, 380, 441, 419, 130, 457, 133,
-	424, 0, 176, 142, 0, 0, 412, 443, 414, 436,
-	407, 431, 372, 423, 452, 395, 427, 453, 0, 0,
-	0, 272, 0, 0, 0, 0, 0, 0, 0, 0,
-	105, 0, 426, 448, 393, 460, 429, 357, 425, 0,
-	363, 366, 458, 446, 388, 389, 0, 0, 0, 0,
-	0, 0, 0, 411, 415, 433, 404, 0, 0, 0,
-	0, 0, 0, 0, 0, 385, 0, 422, 0, 0,
-	0, 369, 364, 0, 409, 0, 0, 0, 371, 0,
-	386, 434, 0, 354, 438, 444, 406, 203, 447, 403,
-	402, 161, 0, 108, 0, 182, 120, 396, 131, 432,
-	450, 413, 442, 383, 392, 110, 390, 168, 155, 194,
-	421, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 362, 355, 387,
-	437, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 360, 0, 177,
-	196, 214, 215, 361, 379, 445, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 428, 169, 107, 195, 175, 375, 378, 373, 374,
-	417, 418, 454, 455, 456, 435, 370, 0, 376, 377,
-	0, 440, 125, 420, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 398, 356, 401, 0, 0, 0, 0,
-	0, 0, 0, 367, 368, 170, 405, 0, 104, 449,
-	439, 0, 408, 451, 381, 397, 459, 399, 400, 430,
-	365, 416, 154, 394, 92, 384, 358, 391, 359, 382,
-	410, 116, 380, 441, 419, 130, 457, 133, 424, 0,
-	176, 142, 0, 0, 412, 443, 414, 436, 407, 431,
-	372, 423, 452, 395, 427, 453, 0, 0, 0, 352,
-	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
-	426, 448, 393, 460, 429, 357, 425, 0, 363, 366,
-	458, 446, 388, 389, 0, 0, 0, 0, 0, 0,
-	0, 411, 415, 433, 404, 0, 0, 0, 0, 0,
-	0, 0, 0, 385, 0, 422, 0, 0, 0, 369,
-	364, 0, 409, 0, 0, 0, 371, 0, 386, 434,
-	0, 354, 438, 444, 406, 203, 447, 403, 402, 161,
-	0, 108, 0, 182, 120, 396, 131, 432, 450, 413,
-	442, 383, 392, 110, 390, 168, 155, 194, 421, 156,
+	173, 128, 135, 164, 212, 0, 169, 107, 195, 175,
+	314, 324, 320, 321, 318, 319, 317, 316, 315, 326,
+	306, 307, 308, 309, 311, 0, 125, 310, 91, 99,
+	132, 210, 211, 0, 163, 118, 197, 0, 0, 0,
+	0, 0, 0, 0, 0, 154, 0, 92, 831, 170,
+	274, 322, 104, 0, 116, 271, 0, 0, 130, 313,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 304,
+	305, 0, 0, 0, 0, 0, 0, 0, 0, 50,
+	0, 0, 272, 292, 291, 294, 295, 296, 297, 0,
+	0, 105, 293, 298, 299, 300, 0, 0, 0, 269,
+	285, 0, 312, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 282, 283, 265, 0, 0, 0, 325, 0,
+	284, 0, 0, 280, 281, 286, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 323, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 314, 324, 320,
+	321, 318, 319, 317, 316, 315, 326, 306, 307, 308,
+	309, 311, 0, 125, 310, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 0, 0, 0, 0, 0,
+	0, 0, 154, 0, 92, 0, 170, 274, 322, 104,
+	0, 116, 271, 0, 0, 130, 313, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 304, 305, 0, 0,
+	0, 0, 0, 0, 0, 0, 50, 0, 510, 272,
+	292, 291, 294, 295, 296, 297, 0, 0, 105, 293,
+	298, 299, 300, 0, 0, 0, 269, 285, 0, 312,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 282,
+	283, 0, 0, 0, 0, 325, 0, 284, 0, 0,
+	280, 281, 286, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 323, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
 	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
 	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
-	218, 219, 220, 221, 222, 362, 355, 387, 437, 93,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
 	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
 	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
 	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
-	101, 200, 201, 98, 350, 199, 148, 153, 151, 198,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
 	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
 	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
-	0, 150, 123, 0, 0, 360, 0, 177, 196, 214,
-	215, 361, 379, 445, 206, 207, 208, 209, 0, 0,
-	0, 351, 349, 124, 173, 128, 135, 164, 212, 428,
-	169, 107, 195, 175, 375, 378, 373, 374, 417, 418,
-	454, 455, 456, 435, 370, 0, 376, 377, 0, 440,
-	125, 420, 91, 99, 132, 210, 211, 0, 163, 118,
-	197, 398, 356, 401, 0, 0, 0, 0, 0, 0,
-	0, 367, 368, 170, 405, 0, 104, 449, 439, 0,
-	408, 451, 381, 397, 459, 399, 400, 430, 365, 416,
-	154, 394, 92, 384, 358, 391, 359, 382, 410, 116,
-	380, 441, 419, 130, 457, 133, 424, 0, 176, 142,
-	0, 0, 412, 443, 414, 436, 407, 431, 372, 423,
-	452, 395, 427, 453, 0, 0, 0, 88, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 426, 448,
-	393, 460, 429, 357, 425, 0, 363, 366, 458, 446,
-	388, 389, 0, 0, 0, 0, 0, 0, 0, 411,
-	415, 433, 404, 0, 0, 0, 0, 0, 0, 0,
-	0, 385, 0, 422, 0, 0, 0, 369, 364, 0,
-	409, 0, 0, 0, 371, 0, 386, 434, 0, 354,
-	438, 444, 406, 203, 447, 403, 402, 161, 0, 108,
-	0, 182, 120, 396, 131, 432, 450, 413, 442, 383,
-	392, 110, 390, 168, 155, 194, 421, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 362, 355, 387, 437, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 360, 0, 177, 196, 214, 215, 361,
-	379, 445, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 428, 169, 107,
-	195, 175, 375, 378, 373, 374, 417, 418, 454, 455,
-	456, 435, 370, 0, 376, 377, 0, 440, 125, 420,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 398,
-	356, 401, 0, 0, 0, 0, 0, 0, 0, 367,
-	368, 170, 405, 0, 104, 449, 439, 0, 408, 451,
-	381, 397, 459, 399, 400, 430, 365, 416, 154, 394,
-	92, 384, 358, 391, 359, 382, 410, 116, 380, 441,
-	419, 130, 457, 133, 424, 0, 176, 142, 0, 0,
-	412, 443, 414, 436, 407, 431, 372, 423, 452, 395,
-	427, 453, 0, 0, 0, 352, 0, 0, 0, 0,
-	0, 0, 0, 0, 105, 0, 426, 448, 393, 460,
-	429, 357, 425, 0, 363, 366, 458, 446, 388, 389,
-	0, 0, 0, 0, 0, 0, 0, 411, 415, 433,
-	404, 0, 0, 0, 0, 0, 0, 0, 0, 385,
-	0, 422, 0, 0, 0, 369, 364, 0, 409, 0,
-	0, 0, 371, 0, 386, 434, 0, 354, 438, 444,
-	406, 203, 447, 403, 402, 161, 0, 108, 0, 182,
-	120, 396, 131, 432, 450, 413, 442, 383, 392, 110,
-	390, 168, 155, 194, 421, 156, 166, 134, 186, 162,
-	193, 204, 205, 184, 202, 171, 100, 149, 90, 160,
-	167, 0, 109, 0, 216, 217, 218, 219, 220, 221,
-	222, 362, 355, 387, 437, 93, 183, 660, 106, 172,
-	96, 190, 179, 181, 140, 126, 127, 174, 94, 95,
-	0, 165, 115, 159, 119, 114, 152, 180, 143, 187,
-	188, 111, 213, 113, 112, 178, 101, 200, 201, 98,
-	350, 199, 148, 153, 151, 198, 185, 191, 141, 138,
-	0, 97, 189, 139, 137, 129, 0, 117, 121, 157,
-	136, 158, 122, 145, 144, 146, 0, 150, 123, 0,
-	0, 360, 0, 177, 196, 214, 215, 361, 379, 445,
-	206, 207, 208, 209, 0, 0, 0, 351, 349, 124,
-	173, 128, 135, 164, 212, 428, 169, 107, 195, 175,
-	375, 378, 373, 374, 417, 418, 454, 455, 456, 435,
-	370, 0, 376, 377, 0, 440, 125, 420, 91, 99,
-	132, 210, 211, 0, 163, 118, 197, 398, 356, 401,
-	0, 0, 0, 0, 0, 0, 0, 367, 368, 170,
-	405, 0, 104, 449, 439, 0, 408, 451, 381, 397,
-	459, 399, 400, 430, 365, 416, 154, 394, 92, 384,
-	358, 391, 359, 382, 410, 116, 380, 441, 419, 130,
-	457, 133, 424, 0, 176, 142, 0, 0, 412, 443,
-	414, 436, 407, 431, 372, 423, 452, 395, 427, 453,
-	0, 0, 0, 352, 0, 0, 0, 0, 0, 0,
-	0, 0, 105, 0, 426, 448, 393, 460, 429, 357,
-	425, 0, 363, 366, 458, 446, 388, 389, 0, 0,
-	0, 0, 0, 0, 0, 411, 415, 433, 404, 0,
-	0, 0, 0, 0, 0, 0, 0, 385, 0, 422,
-	0, 0, 0, 369, 364, 0, 409, 0, 0, 0,
-	371, 0, 386, 434, 0, 354, 438, 444, 406, 203,
-	447, 403, 402, 161, 0, 108, 0, 182, 120, 396,
-	131, 432, 450, 413, 442, 383, 392, 110, 390, 168,
-	155, 194, 421, 156, 166, 134, 186, 162, 193, 204,
-	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
-	109, 0, 216, 217, 218, 219, 220, 221, 222, 362,
-	355, 387, 437, 93, 183, 341, 106, 172, 96, 190,
-	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
-	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
-	213, 113, 112, 178, 101, 200, 201, 98, 350, 199,
-	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
-	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
-	122, 145, 144, 146, 0, 150, 123, 0, 0, 360,
-	0, 177, 196, 214, 215, 361, 379, 445, 206, 207,
-	208, 209, 0, 0, 0, 351, 349, 344, 343, 128,
-	135, 164, 212, 428, 169, 107, 195, 175, 375, 378,
-	373, 374, 417, 418, 454, 455, 456, 435, 370, 0,
-	376, 377, 0, 440, 125, 420, 91, 99, 132, 210,
-	211, 0, 163, 118, 197, 398, 356, 401, 0, 0,
-	0, 0, 0, 0, 0, 367, 368, 170, 405, 154,
-	104, 92, 0, 0, 274, 0, 0, 0, 116, 271,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 314, 324, 320, 321, 318, 319,
+	317, 316, 315, 326, 306, 307, 308, 309, 311, 0,
+	125, 310, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 0, 0, 0, 0, 0, 0, 0, 154,
+	0, 92, 0, 170, 274, 322, 104, 0, 116, 271,
 	0, 0, 130, 313, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 304, 305, 0, 0, 0, 0, 0,
-	0, 895, 0, 50, 0, 0, 272, 292, 291, 294,
+	0, 0, 0, 50, 0, 0, 272, 292, 291, 294,
 	295, 296, 297, 0, 0, 105, 293, 298, 299, 300,
-	896, 0, 0, 269, 285, 0, 312, 0, 0, 0,
+	0, 0, 0, 269, 285, 0, 312, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 282, 283, 0, 0,
+	0, 0, 0, 0, 0, 0, 282, 283, 265, 0,
 	0, 0, 325, 0, 284, 0, 0, 280, 281, 286,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 203, 0, 0, 323, 161, 0, 108, 0,
@@ -1473,8 +1558,8 @@ var yyAct = [...]int{
 	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
 	175, 314, 324, 320, 321, 318, 319, 317, 316, 315,
 	326, 306, 307, 308, 309, 311, 0, 125, 310, 91,
-	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
-	0, 0, 0, 0, 0, 0, 154, 0, 92, 831,
+	99, 132, 210, 211, 23, 163, 118, 197, 0, 0,
+	0, 0, 0, 0, 0, 0, 154, 0, 92, 0,
 	170, 274, 322, 104, 0, 116, 271, 0, 0, 130,
 	313, 133, 0, 0, 176, 142, 0, 0, 0, 0,
 	304, 305, 0, 0, 0, 0, 0, 0, 0, 0,
@@ -1482,7 +1567,7 @@ var yyAct = [...]int{
 	0, 0, 105, 293, 298, 299, 300, 0, 0, 0,
 	269, 285, 0, 312, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 282, 283, 265, 0, 0, 0, 325,
+	0, 0, 0, 282, 283, 0, 0, 0, 0, 325,
 	0, 284, 0, 0, 280, 281, 286, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
 	0, 0, 323, 161, 0, 108, 0, 182, 120, 0,
@@ -1506,7 +1591,7 @@ var yyAct = [...]int{
 	0, 0, 0, 154, 0, 92, 0, 170, 274, 322,
 	104, 0, 116, 271, 0, 0, 130, 313, 133, 0,
 	0, 176, 142, 0, 0, 0, 0, 304, 305, 0,
-	0, 0, 0, 0, 0, 0, 0, 50, 0, 510,
+	0, 0, 0, 0, 0, 0, 0, 50, 0, 0,
 	272, 292, 291, 294, 295, 296, 297, 0, 0, 105,
 	293, 298, 299, 300, 0, 0, 0, 269, 285, 0,
 	312, 0, 0, 0, 0, 0, 0, 0, 0, 0,
@@ -1531,736 +1616,667 @@ var yyAct = [...]int{
 	0, 169, 107, 195, 175, 314, 324, 320, 321, 318,
 	319, 317, 316, 315, 326, 306, 307, 308, 309, 311,
 	0, 125, 310, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
-	154, 0, 92, 0, 170, 274, 322, 104, 0, 116,
-	271, 0, 0, 130, 313, 133, 0, 0, 176, 142,
-	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
-	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
-	294, 295, 296, 297, 0, 0, 105, 293, 298, 299,
-	300, 0, 0, 0, 269, 285, 0, 312, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 282, 283, 265,
-	0, 0, 0, 325, 0, 284, 0, 0, 280, 281,
-	286, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 323, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
-	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
-	91, 99, 132, 210, 211, 23, 163, 118, 197, 0,
-	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
-	0, 170, 274, 322, 104, 0, 116, 271, 0, 0,
-	130, 313, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 304, 305, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 0, 272, 292, 291, 294, 295, 296,
-	297, 0, 0, 105, 293, 298, 299, 300, 0, 0,
-	0, 269, 285, 0, 312, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 282, 283, 0, 0, 0, 0,
-	325, 0, 284, 0, 0, 280, 281, 286, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 323, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 314,
-	324, 320, 321, 318, 319, 317, 316, 315, 326, 306,
-	307, 308, 309, 311, 0, 125, 310, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
-	0, 0, 0, 0, 154, 0, 92, 0, 170, 274,
-	322, 104, 0, 116, 271, 0, 0, 130, 313, 133,
-	0, 0, 176, 142, 0, 0, 0, 0, 304, 305,
-	0, 0, 0, 0, 0, 0, 0, 0, 50, 0,
-	0, 272, 292, 291, 294, 295, 296, 297, 0, 0,
-	105, 293, 298, 299, 300, 0, 0, 0, 269, 285,
-	0, 312, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 282, 283, 0, 0, 0, 0, 325, 0, 284,
-	0, 0, 280, 281, 286, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 203, 0, 0,
-	323, 161, 0, 108, 0, 182, 120, 0, 131, 0,
-	0, 0, 0, 0, 0, 110, 0, 168, 155, 194,
-	0, 156, 166, 134, 186, 162, 193, 204, 205, 184,
-	202, 171, 100, 149, 90, 160, 167, 0, 109, 0,
-	216, 217, 218, 219, 220, 221, 222, 0, 0, 0,
-	0, 93, 183, 192, 106, 172, 96, 190, 179, 181,
-	140, 126, 127, 174, 94, 95, 0, 165, 115, 159,
-	119, 114, 152, 180, 143, 187, 188, 111, 213, 113,
-	112, 178, 101, 200, 201, 98, 102, 199, 148, 153,
-	151, 198, 185, 191, 141, 138, 0, 97, 189, 139,
-	137, 129, 0, 117, 121, 157, 136, 158, 122, 145,
-	144, 146, 0, 150, 123, 0, 0, 0, 0, 177,
-	196, 214, 215, 0, 0, 0, 206, 207, 208, 209,
-	0, 0, 0, 147, 103, 124, 173, 128, 135, 164,
-	212, 0, 169, 107, 195, 175, 314, 324, 320, 321,
-	318, 319, 317, 316, 315, 326, 306, 307, 308, 309,
-	311, 0, 125, 310, 91, 99, 132, 210, 211, 0,
-	163, 118, 197, 0, 0, 0, 0, 154, 0, 92,
-	0, 0, 0, 0, 0, 170, 116, 322, 104, 0,
-	130, 313, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 304, 305, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 0, 272, 292, 291, 294, 295, 296,
-	297, 0, 0, 105, 293, 298, 299, 300, 0, 0,
-	0, 0, 285, 0, 312, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 282, 283, 0, 0, 0, 0,
-	325, 0, 284, 0, 0, 280, 281, 286, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 323, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 1700, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 314,
-	324, 320, 321, 318, 319, 317, 316, 315, 326, 306,
-	307, 308, 309, 311, 0, 125, 310, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 0, 0, 0,
-	154, 0, 92, 0, 0, 0, 0, 0, 170, 116,
-	322, 104, 0, 130, 313, 133, 0, 0, 176, 142,
-	0, 0, 0, 0, 304, 305, 0, 0, 0, 0,
-	0, 0, 0, 0, 50, 0, 0, 272, 292, 291,
-	294, 295, 296, 297, 0, 0, 105, 293, 298, 299,
-	300, 0, 0, 0, 0, 285, 0, 312, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 282, 283, 0,
-	0, 0, 0, 325, 0, 284, 0, 0, 280, 281,
-	286, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 323, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 314, 324, 320, 321, 318, 319, 317, 316,
-	315, 326, 306, 307, 308, 309, 311, 0, 125, 310,
-	91, 99, 132, 210, 211, 0, 163, 118, 197, 0,
-	0, 0, 0, 154, 0, 92, 0, 532, 0, 0,
-	0, 170, 116, 322, 104, 0, 130, 0, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	352, 0, 534, 0, 0, 0, 0, 0, 0, 105,
-	0, 0, 0, 0, 0, 529, 528, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 530, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 649, 0, 0,
-	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 651, 0, 0, 0, 0, 0, 0, 105,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	118, 197, 0, 0, 0, 0, 154, 0, 92, 0,
+	0, 0, 0, 0, 170, 116, 322, 104, 0, 130,
+	313, 133, 0, 0, 176, 142, 0, 0, 0, 0,
+	304, 305, 0, 0, 0, 0, 0, 0, 0, 0,
+	50, 0, 0, 272, 292, 291, 294, 295, 296, 297,
+	0, 0, 105, 293, 298, 299, 300, 0, 0, 0,
+	0, 285, 0, 312, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 282, 283, 0, 0, 0, 0, 325,
+	0, 284, 0, 0, 280, 281, 286, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 203,
+	0, 0, 323, 161, 0, 108, 0, 182, 120, 0,
+	131, 0, 0, 0, 0, 0, 0, 110, 0, 168,
+	155, 194, 1702, 156, 166, 134, 186, 162, 193, 204,
+	205, 184, 202, 171, 100, 149, 90, 160, 167, 0,
+	109, 0, 216, 217, 218, 219, 220, 221, 222, 0,
+	0, 0, 0, 93, 183, 192, 106, 172, 96, 190,
+	179, 181, 140, 126, 127, 174, 94, 95, 0, 165,
+	115, 159, 119, 114, 152, 180, 143, 187, 188, 111,
+	213, 113, 112, 178, 101, 200, 201, 98, 102, 199,
+	148, 153, 151, 198, 185, 191, 141, 138, 0, 97,
+	189, 139, 137, 129, 0, 117, 121, 157, 136, 158,
+	122, 145, 144, 146, 0, 150, 123, 0, 0, 0,
+	0, 177, 196, 214, 215, 0, 0, 0, 206, 207,
+	208, 209, 0, 0, 0, 147, 103, 124, 173, 128,
+	135, 164, 212, 0, 169, 107, 195, 175, 314, 324,
+	320, 321, 318, 319, 317, 316, 315, 326, 306, 307,
+	308, 309, 311, 0, 125, 310, 91, 99, 132, 210,
+	211, 0, 163, 118, 197, 0, 0, 0, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 170, 116, 322,
+	104, 0, 130, 313, 133, 0, 0, 176, 142, 0,
+	0, 0, 0, 304, 305, 0, 0, 0, 0, 0,
+	0, 0, 0, 50, 0, 0, 272, 292, 291, 294,
+	295, 296, 297, 0, 0, 105, 293, 298, 299, 300,
+	0, 0, 0, 0, 285, 0, 312, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 282, 283, 0, 0,
+	0, 0, 325, 0, 284, 0, 0, 280, 281, 286,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 323, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 314, 324, 320, 321, 318, 319, 317, 316, 315,
+	326, 306, 307, 308, 309, 311, 0, 125, 310, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 0,
+	0, 0, 154, 0, 92, 0, 0, 0, 0, 0,
+	170, 116, 322, 104, 0, 130, 0, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 352,
+	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 23, 163,
-	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
-	154, 0, 92, 0, 170, 0, 0, 104, 0, 116,
-	0, 0, 0, 130, 0, 133, 0, 0, 176, 142,
+	0, 0, 0, 0, 0, 544, 543, 553, 554, 546,
+	547, 548, 549, 550, 551, 552, 545, 0, 0, 555,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 50, 0, 0, 352, 0, 0,
-	0, 0, 0, 0, 0, 0, 105, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	125, 0, 91, 99, 132, 210, 211, 0, 163, 118,
+	197, 0, 0, 0, 0, 154, 0, 92, 0, 532,
+	0, 0, 0, 170, 116, 556, 104, 0, 130, 0,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 352, 0, 534, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 529, 528, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 530, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 649,
+	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 88, 0, 651, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	23, 163, 118, 197, 0, 0, 0, 0, 0, 0,
+	0, 0, 154, 0, 92, 0, 170, 0, 0, 104,
+	0, 116, 0, 0, 0, 130, 0, 133, 0, 0,
+	176, 142, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 50, 0, 0, 352,
+	0, 0, 0, 0, 0, 0, 0, 0, 105, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 203, 0, 0, 0, 161, 0, 108,
-	0, 182, 120, 0, 131, 0, 0, 0, 0, 0,
-	0, 110, 0, 168, 155, 194, 0, 156, 166, 134,
-	186, 162, 193, 204, 205, 184, 202, 171, 100, 149,
-	90, 160, 167, 0, 109, 0, 216, 217, 218, 219,
-	220, 221, 222, 0, 0, 0, 0, 93, 183, 192,
-	106, 172, 96, 190, 179, 181, 140, 126, 127, 174,
-	94, 95, 0, 165, 115, 159, 119, 114, 152, 180,
-	143, 187, 188, 111, 213, 113, 112, 178, 101, 200,
-	201, 98, 102, 199, 148, 153, 151, 198, 185, 191,
-	141, 138, 0, 97, 189, 139, 137, 129, 0, 117,
-	121, 157, 136, 158, 122, 145, 144, 146, 0, 150,
-	123, 0, 0, 0, 0, 177, 196, 214, 215, 0,
-	0, 0, 206, 207, 208, 209, 0, 0, 0, 147,
-	103, 124, 173, 128, 135, 164, 212, 0, 169, 107,
-	195, 175, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 125, 0,
-	91, 99, 132, 210, 211, 23, 163, 118, 197, 0,
-	0, 0, 0, 0, 0, 0, 0, 154, 0, 92,
-	0, 170, 0, 0, 104, 0, 116, 0, 0, 0,
-	130, 0, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 0, 0, 0, 203, 0, 0, 0, 161,
+	0, 108, 0, 182, 120, 0, 131, 0, 0, 0,
+	0, 0, 0, 110, 0, 168, 155, 194, 0, 156,
+	166, 134, 186, 162, 193, 204, 205, 184, 202, 171,
+	100, 149, 90, 160, 167, 0, 109, 0, 216, 217,
+	218, 219, 220, 221, 222, 0, 0, 0, 0, 93,
+	183, 192, 106, 172, 96, 190, 179, 181, 140, 126,
+	127, 174, 94, 95, 0, 165, 115, 159, 119, 114,
+	152, 180, 143, 187, 188, 111, 213, 113, 112, 178,
+	101, 200, 201, 98, 102, 199, 148, 153, 151, 198,
+	185, 191, 141, 138, 0, 97, 189, 139, 137, 129,
+	0, 117, 121, 157, 136, 158, 122, 145, 144, 146,
+	0, 150, 123, 0, 0, 0, 0, 177, 196, 214,
+	215, 0, 0, 0, 206, 207, 208, 209, 0, 0,
+	0, 147, 103, 124, 173, 128, 135, 164, 212, 0,
+	169, 107, 195, 175, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 0, 88, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	125, 0, 91, 99, 132, 210, 211, 23, 163, 118,
+	197, 0, 0, 0, 0, 0, 0, 0, 0, 154,
+	0, 92, 0, 170, 0, 0, 104, 0, 116, 0,
+	0, 0, 130, 0, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 50, 0, 0, 88, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
-	0, 0, 0, 0, 0, 0, 116, 0, 170, 0,
-	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 352, 0, 0, 781, 0, 0,
-	782, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 352, 0, 0, 781,
+	0, 0, 782, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
-	0, 0, 0, 0, 0, 0, 116, 669, 170, 0,
-	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 352, 0, 668, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
-	0, 649, 0, 0, 0, 0, 116, 0, 170, 0,
-	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 88, 0, 651, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 647, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
-	0, 0, 0, 0, 0, 0, 116, 0, 170, 0,
-	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 352, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 1391, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
-	0, 0, 0, 0, 0, 0, 116, 0, 170, 0,
-	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 88, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
-	0, 0, 0, 0, 0, 1675, 116, 0, 170, 0,
-	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 352, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 1282, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
-	0, 0, 0, 0, 0, 0, 116, 0, 170, 0,
-	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 50, 0, 0, 88, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
-	0, 0, 0, 0, 0, 0, 116, 0, 170, 0,
-	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 88, 0, 651, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
-	0, 0, 0, 0, 0, 0, 116, 0, 170, 0,
-	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 0, 116, 669,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 352, 0, 534, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 352, 0, 668, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 649, 0, 0, 0, 0, 116, 0,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
-	0, 0, 0, 0, 0, 0, 116, 0, 170, 0,
-	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 88, 0, 651, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 88, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 647, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 741, 169, 107, 195, 175, 0,
+	0, 0, 0, 0, 0, 0, 352, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 0, 154, 0, 92,
-	0, 0, 0, 0, 0, 627, 116, 0, 170, 0,
-	130, 104, 133, 0, 0, 176, 142, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 88, 0, 0, 0, 0, 0,
-	0, 0, 0, 105, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 1391, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 88, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	203, 0, 0, 0, 161, 0, 108, 0, 182, 120,
-	0, 131, 0, 0, 0, 0, 0, 0, 110, 0,
-	168, 155, 194, 0, 156, 166, 134, 186, 162, 193,
-	204, 205, 184, 202, 171, 100, 149, 90, 160, 167,
-	0, 109, 0, 216, 217, 218, 219, 220, 221, 222,
-	0, 0, 0, 0, 93, 183, 192, 106, 172, 96,
-	190, 179, 181, 140, 126, 127, 174, 94, 95, 0,
-	165, 115, 159, 119, 114, 152, 180, 143, 187, 188,
-	111, 213, 113, 112, 178, 101, 200, 201, 98, 102,
-	199, 148, 153, 151, 198, 185, 191, 141, 138, 0,
-	97, 189, 139, 137, 129, 0, 117, 121, 157, 136,
-	158, 122, 145, 144, 146, 0, 150, 123, 0, 0,
-	0, 0, 177, 196, 214, 215, 0, 0, 0, 206,
-	207, 208, 209, 0, 0, 0, 147, 103, 124, 173,
-	128, 135, 164, 212, 0, 169, 107, 195, 175, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 125, 0, 91, 99, 132,
-	210, 211, 0, 163, 118, 197, 336, 0, 0, 0,
-	0, 0, 0, 154, 0, 92, 0, 0, 170, 0,
-	0, 104, 116, 0, 0, 0, 130, 0, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 1677, 116, 0,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 352, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 1282, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 50, 0, 0, 88, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 85, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	352, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 88, 0, 651, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 0, 0, 0, 0, 0, 0, 0, 105,
+	0, 0, 0, 0, 0, 0, 352, 0, 534, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 0, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 0, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 0, 116, 0,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 154, 0, 92, 0, 0, 0, 0,
-	0, 0, 116, 0, 170, 0, 130, 104, 133, 0,
-	0, 176, 142, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 88, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	272, 0, 0, 0, 0, 0, 0, 0, 0, 105,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 741, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 0, 154,
+	0, 92, 0, 0, 0, 0, 0, 627, 116, 0,
+	170, 0, 130, 104, 133, 0, 0, 176, 142, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 203, 0, 0, 0,
-	161, 0, 108, 0, 182, 120, 0, 131, 0, 0,
-	0, 0, 0, 0, 110, 0, 168, 155, 194, 0,
-	156, 166, 134, 186, 162, 193, 204, 205, 184, 202,
-	171, 100, 149, 90, 160, 167, 0, 109, 703, 216,
-	217, 218, 219, 220, 221, 222, 0, 0, 0, 0,
-	93, 183, 192, 106, 172, 96, 190, 179, 181, 140,
-	126, 127, 174, 94, 95, 0, 165, 115, 159, 119,
-	114, 152, 180, 143, 187, 188, 111, 213, 113, 112,
-	178, 101, 200, 201, 98, 102, 199, 148, 153, 151,
-	198, 185, 191, 141, 138, 0, 97, 189, 139, 137,
-	129, 0, 117, 121, 157, 136, 158, 122, 145, 144,
-	146, 0, 150, 123, 0, 688, 0, 0, 177, 196,
-	214, 215, 0, 0, 0, 206, 207, 208, 209, 0,
-	0, 0, 147, 103, 124, 173, 128, 135, 164, 212,
-	0, 169, 107, 195, 175, 0, 0, 0, 704, 0,
+	0, 0, 0, 0, 0, 0, 88, 0, 0, 0,
+	0, 0, 0, 0, 0, 105, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 125, 0, 91, 99, 132, 210, 211, 0, 163,
-	118, 197, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 170, 0, 0, 104, 0, 610,
-	611, 612, 613, 614, 615, 616, 617, 618, 619, 0,
-	720, 721, 0, 722, 723, 724, 726, 725, 705, 706,
-	707, 711, 709, 708, 710, 682, 684, 0, 620, 683,
-	689, 685, 686, 687, 701, 690, 691, 692, 693, 694,
-	695, 696, 697, 698, 699, 700, 702, 712, 713, 714,
-	715, 716, 717, 718, 719, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 621,
+	0, 0, 203, 0, 0, 0, 161, 0, 108, 0,
+	182, 120, 0, 131, 0, 0, 0, 0, 0, 0,
+	110, 0, 168, 155, 194, 0, 156, 166, 134, 186,
+	162, 193, 204, 205, 184, 202, 171, 100, 149, 90,
+	160, 167, 0, 109, 0, 216, 217, 218, 219, 220,
+	221, 222, 0, 0, 0, 0, 93, 183, 192, 106,
+	172, 96, 190, 179, 181, 140, 126, 127, 174, 94,
+	95, 0, 165, 115, 159, 119, 114, 152, 180, 143,
+	187, 188, 111, 213, 113, 112, 178, 101, 200, 201,
+	98, 102, 199, 148, 153, 151, 198, 185, 191, 141,
+	138, 0, 97, 189, 139, 137, 129, 0, 117, 121,
+	157, 136, 158, 122, 145, 144, 146, 0, 150, 123,
+	0, 0, 0, 0, 177, 196, 214, 215, 0, 0,
+	0, 206, 207, 208, 209, 0, 0, 0, 147, 103,
+	124, 173, 128, 135, 164, 212, 0, 169, 107, 195,
+	175, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 125, 0, 91,
+	99, 132, 210, 211, 0, 163, 118, 197, 336, 0,
+	0, 0, 0, 0, 0, 154, 0, 92, 0, 0,
+	170, 0, 0, 104, 116, 0, 0, 0, 130, 0,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 88, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 88, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 85, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 352, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 88, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 154, 0, 92, 0, 0,
+	0, 0, 0, 0, 116, 0, 170, 0, 130, 104,
+	133, 0, 0, 176, 142, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 272, 0, 0, 0, 0, 0, 0, 0,
+	0, 105, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 203, 0,
+	0, 0, 161, 0, 108, 0, 182, 120, 0, 131,
+	0, 0, 0, 0, 0, 0, 110, 0, 168, 155,
+	194, 0, 156, 166, 134, 186, 162, 193, 204, 205,
+	184, 202, 171, 100, 149, 90, 160, 167, 0, 109,
+	0, 216, 217, 218, 219, 220, 221, 222, 0, 0,
+	0, 0, 93, 183, 192, 106, 172, 96, 190, 179,
+	181, 140, 126, 127, 174, 94, 95, 0, 165, 115,
+	159, 119, 114, 152, 180, 143, 187, 188, 111, 213,
+	113, 112, 178, 101, 200, 201, 98, 102, 199, 148,
+	153, 151, 198, 185, 191, 141, 138, 0, 97, 189,
+	139, 137, 129, 0, 117, 121, 157, 136, 158, 122,
+	145, 144, 146, 0, 150, 123, 0, 0, 0, 0,
+	177, 196, 214, 215, 0, 0, 0, 206, 207, 208,
+	209, 0, 0, 0, 147, 103, 124, 173, 128, 135,
+	164, 212, 0, 169, 107, 195, 175, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 125, 0, 91, 99, 132, 210, 211,
+	0, 163, 118, 197, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 170, 0, 0, 104,
 }
 
 var yyPact = [...]int{
-	2174, -1000, -204, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	2154, -1000, -208, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1315, 1363, -1000, -1000, -1000, -1000, -1000, -1000, 1123,
-	331, 285, 329, 213, 13335, 319, 2185, 13895, -1000, 109,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 1062, -1000, -1000,
-	-1000, -1000, -1000, 1308, 1313, 1066, 1301, 1202, -1000, 7412,
-	279, 11649, 13055, 6258, -1000, 914, -185, 286, 13615, 275,
-	275, 13615, 13615, 275, -1000, -70, 310, 13895, -1000, 13895,
-	271, 913, 271, 271, 271, 13895, -1000, 390, -1000, -1000,
+	-1000, 1293, 1332, -1000, -1000, -1000, -1000, -1000, -1000, 1132,
+	367, 322, 362, 123, 13607, 355, 2023, 14167, -1000, 97,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 1055, -1000, -1000,
+	-1000, -1000, -1000, 1277, 1288, 1066, 1264, 1189, -1000, 7401,
+	311, 11921, 13327, 6247, -1000, 950, -180, 334, 13887, 315,
+	315, 13887, 13887, 315, -1000, -57, 345, 14167, -1000, 14167,
+	299, 928, 299, 299, 299, 14167, -1000, 413, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2274,20 +2290,20 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 13895, 882, 1245, 255, 4102, 4102, 4102,
-	4102, 186, 4102, -23, 1161, -1000, -1000, -1000, -1000, 4102,
+	-1000, -1000, -1000, 14167, 926, 1213, 545, 4091, 4091, 4091,
+	4091, 211, 4091, -8, 1152, -1000, -1000, -1000, -1000, 4091,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	759, 1260, 7986, 7986, 1315, -1000, 1062, -1000, -1000, -1000,
-	1239, -1000, -1000, 551, 1341, -1000, 8835, 389, -1000, 7986,
-	163, 1030, -1000, -1000, 1030, -1000, -1000, 343, -1000, -1000,
-	8552, 8552, 8552, 8552, 8552, 8552, 8552, -1000, -1000, -1000,
+	759, 1220, 7975, 7975, 1293, -1000, 1055, -1000, -1000, -1000,
+	1210, -1000, -1000, 551, 1314, -1000, 9107, 411, -1000, 7975,
+	77, 1056, -1000, -1000, 1056, -1000, -1000, 396, -1000, -1000,
+	8541, 8541, 8541, 8541, 8541, 8541, 8541, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1030, -1000, 7699, 1030, 1030, 1030, 1030, 1030, 1030,
-	1030, 1030, 7986, 1030, 1030, 1030, 1030, 1030, 1030, 1030,
-	1030, 1030, 869, 1030, 1030, 1030, 1030, 12769, 1048, 1159,
-	-1000, -1000, -1000, 1282, 9689, 10529, 13895, 897, -1000, 1012,
-	5950, -40, -1000, -1000, -1000, 527, 10249, -1000, -1000, -1000,
-	1229, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1056, -1000, 7688, 1056, 1056, 1056, 1056, 1056, 1056,
+	1056, 1056, 7975, 1056, 1056, 1056, 1056, 1056, 1056, 1056,
+	1056, 1056, 1837, 1056, 1056, 1056, 1056, 13041, 1039, 1153,
+	-1000, -1000, -1000, 1257, 9961, 10801, 14167, 976, -1000, 1040,
+	5939, -15, -1000, -1000, -1000, 507, 10521, -1000, -1000, -1000,
+	1212, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
@@ -2298,175 +2314,175 @@ var yyPact = [...]int{
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 905, -1000, 14309, 307, -1000, -1000, 13895, 1111, 860,
-	538, 855, 1160, 270, 13895, -1000, 12489, 4102, 287, 13895,
-	1274, 1158, 13895, 837, 830, -1000, 5642, -1000, 4102, 4102,
-	4102, 4102, 4102, 4102, 4102, 4102, -1000, -1000, -1000, -1000,
-	-1000, -1000, 4102, 4102, -1000, -22, -1000, 13895, -1000, -1000,
-	-1000, -1000, 1356, 419, 529, 388, 1018, -1000, 510, 1308,
-	759, 1202, 9969, 1174, -1000, -1000, 13895, -1000, 7986, 7986,
-	595, -1000, 12209, -1000, -1000, 4410, 437, 8552, 641, 476,
-	8552, 8552, 8552, 8552, 8552, 8552, 8552, 8552, 8552, 8552,
-	8552, 8552, 8552, 8552, 8552, 709, 869, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 813, -1000, 1062, 906, 906,
-	12, 12, 12, 12, 12, 12, 2833, 6838, 759, 902,
-	482, 7699, 7412, 7412, 7986, 7986, 14175, 14175, 7412, 1284,
-	455, 482, 14175, -1000, 759, -1000, -1000, -1000, -1000, -1000,
+	-1000, 971, -1000, 2763, 342, -1000, -1000, 14167, 1109, 912,
+	541, 900, 1151, 275, 14167, -1000, 12761, 4091, 332, 14167,
+	1239, 1142, 14167, 884, 876, -1000, 5631, -1000, 4091, 4091,
+	4091, 4091, 4091, 4091, 4091, 4091, -1000, -1000, -1000, -1000,
+	-1000, -1000, 4091, 4091, -1000, 20, -1000, 14167, -1000, -1000,
+	-1000, -1000, 1329, 412, 758, 410, 1058, -1000, 633, 1277,
+	759, 1189, 10241, 1166, -1000, -1000, 14167, -1000, 7975, 7975,
+	573, -1000, 12481, -1000, -1000, 4399, 447, 8541, 760, 494,
+	8541, 8541, 8541, 8541, 8541, 8541, 8541, 8541, 8541, 8541,
+	8541, 8541, 8541, 8541, 8541, 762, 1837, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 871, -1000, 1055, 914, 914,
+	16, 16, 16, 16, 16, 16, 8824, 6827, 759, 949,
+	522, 7688, 7401, 7401, 7975, 7975, 14447, 14447, 7401, 1260,
+	521, 522, 14447, -1000, 759, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, 62, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 7412, 7412, 7412, 7412, 198, 13895, -1000, 14175,
-	11649, 11649, 11649, 11649, 11649, -1000, 1195, 1192, -1000, 1182,
-	1172, 1186, 13895, -1000, 893, 9689, 363, 1030, -1000, 11929,
-	-1000, -1000, 198, 985, 11649, 13895, -1000, -1000, 5334, 1012,
-	-40, 989, -1000, -46, -39, 6551, 396, -1000, -1000, -1000,
-	-1000, 3486, 740, 146, -122, -3, -1000, -1000, -1000, -1000,
-	1086, -1000, 1086, 217, 1086, 1086, 1086, -1000, 1086, 1086,
-	56, 56, 56, 56, 56, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 1121, 1119, -1000, 1086, 1086, 1086, -1000, 1086,
+	-1000, -1000, 7401, 7401, 7401, 7401, 222, 14167, -1000, 14447,
+	11921, 11921, 11921, 11921, 11921, -1000, 1181, 1178, -1000, 1165,
+	1163, 1172, 14167, -1000, 947, 9961, 393, 1056, -1000, 12201,
+	-1000, -1000, 222, 1005, 11921, 14167, -1000, -1000, 5323, 1040,
+	-15, 1023, -1000, -23, -27, 6540, 423, -1000, -1000, -1000,
+	-1000, 3475, 469, 274, -134, 12, -1000, -1000, -1000, -1000,
+	1093, -1000, 1093, 271, 1093, 1093, 1093, -1000, 1093, 1093,
+	55, 55, 55, 55, 55, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 1131, 1123, -1000, 1093, 1093, 1093, -1000, 1093,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	1102, 229, 1102, 1095, 1095, -1000, -1000, 13887, 1251, -88,
+	868, 4091, 1230, 4091, 14167, 1312, 14167, -1000, -1000, -1000,
+	1842, 14167, -1000, 14167, -1000, -1000, 14167, 4091, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	1103, 230, 1103, 1089, 1089, -1000, -1000, 13615, 1281, -137,
-	806, 4102, 1273, 4102, 13895, 1375, 13895, -1000, -1000, -1000,
-	1932, 13895, -1000, 13895, -1000, -1000, 13895, 4102, -1000, -1000,
+	-1000, -1000, -1000, 520, -1000, -1000, -1000, -1000, 1170, 7975,
+	7975, 5015, 7975, -1000, -1000, -1000, 1220, -1000, 1260, 1278,
+	-1000, 1204, 1203, 7401, -1000, -1000, 447, 487, -1000, -1000,
+	721, -1000, -1000, -1000, -1000, 405, 1056, -1000, 773, -1000,
+	-1000, -1000, -1000, 760, 8541, 8541, 8541, 277, 773, 1901,
+	525, 1513, 16, 18, 18, 7, 7, 7, 7, 7,
+	110, 110, -1000, -1000, -1000, -1000, 759, -1000, -1000, -1000,
+	759, 7401, 1037, -1000, -1000, 7975, -1000, 759, 945, 945,
+	753, 763, 1053, -1000, 404, 1034, 945, 7401, 530, -1000,
+	7975, 759, -1000, -1000, 945, 759, 945, 945, 1002, 1056,
+	-1000, 1038, -1000, 505, 1153, 1129, 1140, 972, -1000, -1000,
+	-1000, -1000, 1177, -1000, 1169, -1000, -1000, -1000, -1000, -1000,
+	338, 337, 336, 13887, -1000, 1302, 11921, 1028, -1000, -1000,
+	1023, -15, -3, -1000, -1000, -1000, -1000, 522, -1000, -1000,
+	863, 1022, 3167, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 1121, 686, 13887, 269, 265, 364, 341, 847, -1000,
+	-1000, -1000, 688, -1000, 13887, 1323, -1000, -1000, 268, -1000,
+	262, 540, 780, 14167, 138, 1104, 1797, -1000, -211, -1000,
+	10, -1000, -1000, 732, 55, 55, 1093, 55, 55, 55,
+	-1000, -1000, 423, 1211, 423, 423, 423, 423, 778, 778,
+	-104, -104, -1000, -1000, -1000, 719, 1102, -1000, -1000, -1000,
+	716, -1000, 1108, 1055, -1000, 4707, -1000, -1000, -1000, -1000,
+	-1000, 1243, 1139, -1000, -1000, -1000, 162, -1000, 635, 2069,
+	441, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 206, 365, -1000, 4091, -1000, 523, 14167, 14167,
+	1193, 522, 522, 403, -1000, -1000, 14167, -1000, -1000, -1000,
+	-1000, 1033, -1000, -1000, -1000, 3783, 7401, -1000, 277, 773,
+	261, -1000, 8541, 8541, -1000, -1000, 945, 7401, 522, -1000,
+	-1000, -1000, 752, 762, 752, 8541, 8541, 5015, 8541, 8541,
+	-70, 1047, 488, -1000, 7975, 583, -1000, -1000, -1000, -1000,
+	-1000, 1138, 14447, 1056, -1000, 9674, 13887, 1293, 14447, 7975,
+	7975, -1000, -1000, 7975, 1101, -1000, 7975, -1000, -1000, -1000,
+	1056, 1056, 1056, 906, -1000, 1293, 1028, -1000, -1000, -1000,
+	-40, -42, -1000, -1000, 3475, -1000, 3475, 11641, -1000, 1319,
+	1272, 276, 287, -1000, 831, 828, -1000, 808, -1000, 14,
+	-1000, -163, 83, -11, -1000, -1000, 1056, -1000, 1100, 1242,
+	-1000, 1217, 701, -1000, 842, -203, -1000, -1000, -1000, -1000,
+	-203, -1000, 1056, 1098, 1097, -1000, 1096, -1000, -1000, -1000,
+	989, 423, 423, 55, 423, 423, 423, -1000, 475, -1000,
+	-1000, -1000, -1000, 940, -1000, 938, -1000, 73, 72, -1000,
+	1021, -1000, 936, 14167, 13887, -1000, 1020, -1000, 495, 1271,
+	189, 14167, 1312, -1000, 263, -1000, 13887, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 13887, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 14167, -1000, -1000,
+	-1000, -1000, -1000, 13887, 284, -1000, -1000, 775, 7975, -1000,
+	-1000, -1000, 4707, -1000, 1302, 11921, -1000, -1000, 759, -1000,
+	8541, 773, 773, -1000, -1000, 759, 1093, 1093, -1000, 1093,
+	1095, -1000, -1000, 1093, 89, 1093, 87, 759, 759, 199,
+	1822, -1000, 99, 700, 1056, -64, -1000, 522, 7975, -1000,
+	1222, 988, 1007, -1000, -1000, 7114, 759, 908, 402, 906,
+	1277, -1000, 522, 522, 522, 11081, 522, 11081, 11081, 11081,
+	9387, 13887, 1277, -1000, -1000, -1000, -1000, 3167, -1000, 895,
+	-1000, 1093, 1093, 310, 310, -164, 252, 249, -1000, -1000,
+	-1000, -1000, -180, -1000, -1000, 540, -1000, 7975, 11081, -152,
+	-1000, 1012, 966, 1879, -1000, 2530, -1000, 759, -1000, 756,
+	-1000, 717, 909, -1000, -1000, -1000, 423, -1000, -1000, -1000,
+	-1000, -1000, 55, 774, 55, 5, 4, 699, -1000, 694,
+	1019, 1137, 4707, 3475, 326, 1307, -1000, -1000, 1268, 1241,
+	13887, -1000, -1000, -1000, 1091, -1000, -1000, -1000, -1000, 1221,
+	13887, -1000, -1000, 522, 1297, 1010, -1000, 773, -1000, -1000,
+	223, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	8541, 8541, -1000, 8541, 8541, 8541, 759, 769, 522, 246,
+	-1000, 1056, -1000, -1000, 1001, 13887, 13887, -1000, -1000, 892,
+	-1000, -1000, 888, 888, 888, 393, -1000, -1000, 1328, 11641,
+	1231, -1000, 655, -1000, -1000, 697, 145, 621, -1000, 13887,
+	-183, -1000, 1056, 508, 882, 1090, 664, -1000, 896, -134,
+	-134, -134, -1000, -1000, -1000, -1000, -1000, 423, -1000, 423,
+	-1000, -1000, 883, 836, 11641, 13887, 14167, -1000, -1000, 13887,
+	-1000, -1000, -1000, -1000, -1000, 106, 226, 1084, 11081, 1056,
+	280, 1295, 1287, -1000, -1000, 214, 214, 214, 214, 39,
+	-1000, -1000, 1322, -1000, 1056, -1000, 1055, 400, -1000, 13887,
+	-1000, -1000, -1000, -1000, -1000, 1135, 1843, 131, -1000, 797,
+	490, 764, 489, 486, 461, 459, 458, 457, 456, -1000,
+	-1000, -1000, 1321, -1000, -1000, -1000, -1000, 1313, 1083, -1000,
+	1080, -1000, -1000, 7975, 160, -1000, -1000, 789, 776, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, 875, 1079, 1076, 986,
+	-1000, 103, 226, -1000, -1000, -1000, -1000, 11641, 867, 200,
+	245, -1000, 7975, 7975, -1000, -1000, -1000, -1000, 759, 170,
+	-113, 14447, 1007, 759, 13887, -1000, -1000, 13887, -1000, -107,
+	1843, 13887, -1000, 659, -1000, -1000, 623, 643, 623, 623,
+	623, 623, 623, 310, 310, 13887, 11641, 508, -1000, -67,
+	88, -1000, -1000, -196, 11641, 11641, -77, 13887, 7975, 226,
+	-1000, 862, 1109, 858, -1000, 13887, 1074, 522, 1006, -1000,
+	1188, -74, -140, 1004, -1000, -1000, 1056, 839, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 518, -1000, -1000, -1000, -1000, 1213, 7986,
-	7986, 5026, 7986, -1000, -1000, -1000, 1260, -1000, 1284, 1305,
-	-1000, 1222, 1220, 7412, -1000, -1000, 437, 487, -1000, -1000,
-	695, -1000, -1000, -1000, -1000, 376, 1030, -1000, 617, -1000,
-	-1000, -1000, -1000, 641, 8552, 8552, 8552, 420, 617, 1820,
-	1035, 898, 12, 251, 251, 5, 5, 5, 5, 5,
-	102, 102, -1000, -1000, -1000, -1000, 759, -1000, -1000, -1000,
-	759, 7412, 993, -1000, -1000, 7986, -1000, 759, 889, 889,
-	485, 711, 1058, -1000, 370, 1053, 889, 7412, 546, -1000,
-	7986, 759, -1000, -1000, 889, 759, 889, 889, 973, 1030,
-	-1000, 1051, -1000, 514, 1159, 1134, 1157, 972, -1000, -1000,
-	-1000, -1000, 1191, -1000, 1184, -1000, -1000, -1000, -1000, -1000,
-	306, 304, 302, 13615, -1000, 1332, 11649, 1009, -1000, -1000,
-	989, -40, -52, -1000, -1000, -1000, -1000, 482, -1000, -1000,
-	804, 984, 3178, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 1118, 588, 13615, 250, 259, 408, 341, 802, -1000,
-	-1000, -1000, 602, -1000, 13615, 1354, -1000, -1000, 247, -1000,
-	246, 526, 752, 13895, 154, 1116, 2070, -1000, -210, -1000,
-	-6, -1000, -1000, 720, 56, 56, 1086, 56, 56, 56,
-	-1000, -1000, 396, 1226, 396, 396, 396, 396, 736, 736,
-	-116, -116, -1000, -1000, -1000, 717, 1103, -1000, -1000, -1000,
-	701, -1000, 1110, 1062, -1000, 4718, -1000, -1000, -1000, -1000,
-	-1000, 1279, 1147, -1000, -1000, -1000, 147, -1000, 1108, 1868,
-	324, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 197, 334, -1000, 4102, -1000, 498, 13895, 13895,
-	1211, 482, 482, 358, -1000, -1000, 13895, -1000, -1000, -1000,
-	-1000, 1033, -1000, -1000, -1000, 3794, 7412, -1000, 420, 617,
-	1772, -1000, 8552, 8552, -1000, -1000, 889, 7412, 482, -1000,
-	-1000, -1000, 710, 709, 710, 8552, 8552, 5026, 8552, 8552,
-	-93, 1020, 488, -1000, 7986, 570, -1000, -1000, -1000, -1000,
-	-1000, 1146, 14175, 1030, -1000, 9402, 13615, 1315, 14175, 7986,
-	7986, -1000, -1000, 7986, 1102, -1000, 7986, -1000, -1000, -1000,
-	1030, 1030, 1030, 864, -1000, 1315, 1009, -1000, -1000, -1000,
-	-50, -48, -1000, -1000, 3486, -1000, 3486, 11369, -1000, 1340,
-	1304, 257, 273, -1000, 795, 793, -1000, 781, -1000, -5,
-	-1000, -179, 78, 34, -1000, -1000, 1030, -1000, 1101, 1278,
-	-1000, 1258, 700, -1000, 1874, -195, -1000, -1000, -1000, -1000,
-	-195, -1000, 1030, 1095, 1092, -1000, 1090, -1000, -1000, -1000,
-	919, 396, 396, 56, 396, 396, 396, -1000, 451, -1000,
-	-1000, -1000, -1000, 878, -1000, 876, -1000, 77, 76, -1000,
-	979, -1000, 870, 13895, 13615, -1000, 967, -1000, 513, 1300,
-	167, 13895, 1375, -1000, 237, -1000, 13615, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 13615, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 13895, -1000, -1000,
-	-1000, -1000, -1000, 13615, 264, -1000, -1000, 726, 7986, -1000,
-	-1000, -1000, 4718, -1000, 1332, 11649, -1000, -1000, 759, -1000,
-	8552, 617, 617, -1000, -1000, 759, 1086, 1086, -1000, 1086,
-	1089, -1000, -1000, 1086, 99, 1086, 97, 759, 759, 268,
-	1805, -1000, 67, 89, 1030, -77, -1000, 482, 7986, -1000,
-	1261, 954, 931, -1000, -1000, 7125, 759, 866, 357, 864,
-	1308, -1000, 482, 482, 482, 10809, 482, 10809, 10809, 10809,
-	9115, 13615, 1308, -1000, -1000, -1000, -1000, 3178, -1000, 859,
-	-1000, 1086, 1086, 300, 300, -182, 236, 220, -1000, -1000,
-	-1000, -1000, -185, -1000, -1000, 526, -1000, 7986, 10809, -175,
-	-1000, 958, 867, 1546, -1000, 2541, -1000, 759, -1000, 718,
-	-1000, 636, 848, -1000, -1000, -1000, 396, -1000, -1000, -1000,
-	-1000, -1000, 56, 723, 56, -8, -10, 698, -1000, 692,
-	1039, 1137, 4718, 3486, 281, 1438, -1000, -1000, 1291, 1276,
-	13615, -1000, -1000, -1000, 1073, -1000, -1000, -1000, -1000, 1263,
-	13615, -1000, -1000, 482, 1330, 932, -1000, 617, -1000, -1000,
-	187, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	8552, 8552, -1000, 8552, 8552, 8552, 759, 722, 482, 219,
-	-1000, 1030, -1000, -1000, 1028, 13615, 13615, -1000, -1000, 853,
-	-1000, -1000, 847, 847, 847, 363, -1000, -1000, 1024, 11369,
-	1268, -1000, 577, -1000, -1000, 598, 151, 567, -1000, 13615,
-	-185, -1000, 1030, 542, 841, 1072, 685, -1000, 842, -122,
-	-122, -122, -1000, -1000, -1000, -1000, -1000, 396, -1000, 396,
-	-1000, -1000, 800, 789, 11369, 13615, 13895, -1000, -1000, 13615,
-	-1000, -1000, -1000, -1000, -1000, 127, 269, 1071, 10809, 1030,
-	267, 1317, 1312, -1000, -1000, 196, 196, 196, 196, 47,
-	-1000, -1000, 1351, -1000, 1030, -1000, 1062, 353, -1000, 13615,
-	-1000, -1000, -1000, -1000, -1000, 1131, 1352, 84, -1000, 774,
-	505, 596, 503, 495, 491, 469, 457, 452, 450, -1000,
-	-1000, -1000, 1349, -1000, -1000, -1000, -1000, 1346, 1065, -1000,
-	1064, 7986, 148, -1000, -1000, 773, 765, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 836, 1063, 1061, 976, -1000, 125,
-	269, -1000, -1000, -1000, -1000, 11369, 824, 185, 210, -1000,
-	7986, 7986, -1000, -1000, -1000, -1000, 759, 158, -159, 14175,
-	931, 759, 13615, -1000, -1000, 13615, -1000, -143, 1352, 13615,
-	-1000, 683, -1000, -1000, 575, 671, 575, 575, 575, 575,
-	575, 300, 300, 13615, 11369, 542, -1000, -80, 168, -1000,
-	-1000, -192, 11369, 11369, -134, 13615, 7986, 269, -1000, 819,
-	1111, 799, -1000, 13615, 1060, 482, 921, -1000, 1209, -112,
-	-163, 899, -1000, -1000, 1030, 792, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 526, 526,
-	788, 785, -1000, -1000, -1000, 119, 707, 647, 612, 593,
-	11, -1000, 1311, 1332, 1057, 779, 772, -1000, -201, -1000,
-	482, -1000, -1000, -137, -1000, 185, 1219, 11369, -1000, 1208,
-	-1000, 13615, -1000, 1352, -1000, -1000, 258, 1024, 584, -1000,
-	560, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 11089, 1024,
-	10809, 1332, 1024, 7986, -1000, -1000, 177, 769, -140, 759,
-	-1000, 13895, 1131, -1000, -1000, -1000, 351, 1131, 764, 1024,
-	-1000, 482, 166, -1000, -160, -1000, 1050, -1000, 4718, -1000,
-	-1000, -1000, 1030, -164, 13615, -1000, 8269, -1000, 758, 196,
-	759, -1000, -1000, -1000,
+	540, 540, 835, 826, -1000, -1000, -1000, 144, 683, 610,
+	609, 584, 40, -1000, 1280, 1302, 1073, 806, 795, -1000,
+	-206, -1000, 522, -1000, -1000, -88, -1000, 200, 1200, 11641,
+	-1000, 1185, -1000, 13887, -1000, 1843, -1000, -1000, 278, 1328,
+	579, -1000, 558, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	11361, 1328, 11081, 1302, 1328, 7975, -1000, -1000, 196, 793,
+	-102, 759, -1000, 14167, 1135, -1000, -1000, -1000, 379, 1135,
+	788, 1328, -1000, 522, 183, -1000, -130, -1000, 1064, -1000,
+	4707, -1000, -1000, -1000, 1056, -145, 13887, -1000, 8258, -1000,
+	785, 214, 759, -1000, -1000, -1000,
 }
 
 var yyPgo = [...]int{
-	0, 1616, 27, 810, 1615, 1609, 1608, 1390, 1375, 1370,
-	1607, 1602, 1601, 1592, 1588, 1587, 1585, 1582, 1578, 1575,
-	1570, 1569, 1567, 1563, 563, 1562, 1560, 1559, 99, 1557,
-	101, 1556, 1555, 60, 113, 67, 65, 1119, 1554, 40,
-	126, 119, 1549, 76, 1545, 1544, 103, 1541, 88, 1540,
-	1539, 93, 1538, 1536, 19, 5, 1535, 49, 1533, 1532,
-	96, 133, 1531, 1528, 1527, 1525, 1523, 1514, 79, 15,
-	10, 20, 23, 1513, 153, 18, 1512, 77, 1511, 1506,
-	1503, 1502, 53, 1501, 83, 25, 34, 81, 1500, 7,
-	1499, 87, 55, 33, 13, 98, 85, 1498, 51, 94,
-	68, 1496, 1495, 645, 1493, 1492, 1491, 1490, 1489, 1478,
-	615, 630, 1477, 1474, 1473, 59, 0, 311, 48, 104,
-	1472, 58, 1471, 1622, 100, 95, 31, 1469, 45, 1537,
-	56, 1468, 1467, 54, 97, 39, 41, 36, 1466, 1465,
-	1464, 1463, 1462, 84, 43, 32, 193, 1460, 1459, 21,
-	66, 74, 52, 70, 82, 1457, 1455, 1454, 42, 1453,
-	9, 14, 4, 71, 1452, 1451, 1450, 1445, 57, 30,
-	1439, 22, 26, 1, 3, 2, 1434, 1433, 1431, 11,
-	1430, 29, 1429, 6, 1428, 12, 1421, 1414, 1413, 47,
-	1411, 1407, 1404, 1399, 1398, 1397, 16, 17, 46, 44,
-	37, 61, 50, 1396, 8, 1395, 1394, 1486, 24, 1392,
-	1388, 1379, 1361, 115,
+	0, 1577, 23, 820, 1574, 1573, 1570, 1352, 1347, 1342,
+	1568, 1564, 1563, 1561, 1558, 1554, 1551, 1549, 1547, 1546,
+	1544, 1543, 1534, 1533, 444, 1532, 1529, 1527, 97, 1524,
+	95, 1517, 1516, 53, 156, 67, 66, 652, 1512, 45,
+	122, 98, 1509, 76, 1507, 1506, 101, 1505, 87, 1504,
+	1502, 818, 1500, 1499, 28, 9, 1491, 32, 1489, 1487,
+	92, 2, 1482, 1481, 1480, 1479, 1478, 1477, 81, 16,
+	18, 21, 25, 1473, 51, 14, 1472, 75, 1471, 1469,
+	1468, 1467, 65, 1466, 83, 20, 39, 77, 1465, 7,
+	1464, 96, 52, 36, 15, 99, 85, 1462, 54, 84,
+	74, 1461, 1459, 665, 1458, 1452, 1450, 1447, 1445, 1441,
+	564, 696, 1439, 1438, 1434, 55, 0, 185, 79, 103,
+	1433, 57, 1432, 1604, 93, 100, 40, 1431, 44, 220,
+	58, 1430, 1428, 56, 94, 29, 34, 33, 1427, 1420,
+	1418, 1417, 1416, 1130, 48, 565, 213, 1415, 1411, 22,
+	59, 61, 43, 70, 82, 1409, 1406, 1405, 41, 1404,
+	17, 19, 3, 68, 1402, 1401, 1399, 1397, 49, 27,
+	1396, 26, 13, 5, 6, 8, 1395, 1394, 1393, 10,
+	1391, 30, 1390, 1, 1388, 4, 1385, 1384, 1383, 47,
+	1382, 1381, 1380, 1375, 1372, 1370, 1369, 31, 11, 50,
+	42, 37, 60, 46, 1368, 12, 1367, 1365, 1475, 282,
+	1364, 1354, 1349, 1344, 110,
 }
 
 var yyR1 = [...]int{
-	0, 205, 206, 206, 1, 1, 1, 1, 1, 1,
+	0, 206, 207, 207, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 2, 2, 2, 6, 3, 4, 4, 5,
-	5, 7, 7, 27, 27, 8, 9, 9, 9, 209,
-	209, 46, 46, 91, 91, 10, 10, 10, 10, 96,
+	5, 7, 7, 27, 27, 8, 9, 9, 9, 210,
+	210, 46, 46, 91, 91, 10, 10, 10, 10, 96,
 	96, 100, 100, 100, 101, 101, 101, 101, 131, 131,
 	11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
-	11, 201, 201, 202, 202, 202, 203, 203, 204, 204,
-	204, 187, 187, 187, 188, 188, 188, 188, 188, 188,
+	11, 202, 202, 203, 203, 203, 204, 204, 205, 205,
+	205, 187, 187, 187, 188, 188, 188, 188, 188, 188,
 	190, 190, 191, 191, 121, 121, 185, 185, 184, 183,
 	183, 182, 182, 181, 192, 192, 16, 165, 166, 166,
 	166, 166, 166, 154, 135, 135, 135, 135, 135, 155,
 	155, 155, 155, 155, 155, 155, 155, 155, 155, 155,
 	155, 155, 155, 155, 155, 155, 155, 155, 155, 155,
-	198, 198, 198, 199, 199, 199, 199, 199, 199, 199,
-	199, 194, 194, 195, 195, 195, 195, 195, 195, 195,
+	199, 199, 199, 200, 200, 200, 200, 200, 200, 200,
+	200, 194, 194, 195, 195, 195, 195, 195, 195, 195,
 	195, 195, 195, 195, 195, 195, 195, 144, 144, 144,
 	144, 144, 144, 193, 193, 189, 189, 189, 189, 139,
 	139, 137, 137, 137, 137, 137, 137, 137, 137, 137,
@@ -2479,54 +2495,54 @@ var yyR1 = [...]int{
 	150, 150, 147, 147, 148, 148, 149, 149, 149, 145,
 	145, 145, 146, 146, 146, 156, 174, 174, 174, 176,
 	176, 177, 177, 175, 175, 175, 175, 175, 175, 175,
-	175, 175, 175, 175, 164, 164, 200, 200, 173, 173,
+	175, 175, 175, 175, 164, 164, 201, 201, 173, 173,
 	173, 170, 170, 170, 170, 170, 170, 170, 170, 163,
 	163, 172, 172, 171, 171, 158, 158, 158, 158, 158,
 	159, 160, 160, 160, 160, 160, 157, 196, 196, 196,
-	197, 197, 161, 161, 162, 162, 167, 167, 167, 168,
-	168, 168, 169, 169, 169, 12, 12, 12, 12, 12,
-	12, 12, 12, 12, 12, 12, 12, 186, 186, 186,
-	186, 186, 186, 186, 186, 186, 186, 186, 210, 210,
-	211, 211, 211, 211, 211, 211, 211, 180, 178, 178,
-	179, 179, 13, 14, 14, 14, 14, 14, 15, 15,
-	17, 18, 18, 18, 18, 18, 18, 18, 18, 18,
+	197, 197, 197, 198, 198, 161, 161, 162, 162, 167,
+	167, 167, 168, 168, 168, 169, 169, 169, 12, 12,
+	12, 12, 12, 12, 12, 12, 12, 12, 12, 12,
+	186, 186, 186, 186, 186, 186, 186, 186, 186, 186,
+	186, 211, 211, 212, 212, 212, 212, 212, 212, 212,
+	180, 178, 178, 179, 179, 13, 14, 14, 14, 14,
+	14, 15, 15, 17, 18, 18, 18, 18, 18, 18,
 	18, 18, 18, 18, 18, 18, 18, 18, 18, 18,
-	18, 18, 18, 18, 108, 108, 105, 105, 106, 106,
-	107, 107, 107, 109, 109, 109, 132, 132, 132, 19,
-	19, 21, 21, 22, 23, 20, 20, 20, 20, 20,
-	212, 24, 25, 25, 26, 26, 26, 30, 30, 30,
-	28, 28, 29, 29, 35, 35, 34, 34, 36, 36,
-	36, 36, 120, 120, 120, 119, 119, 38, 38, 39,
-	39, 40, 40, 41, 41, 41, 53, 53, 89, 89,
-	89, 92, 92, 42, 42, 42, 42, 43, 43, 44,
-	44, 45, 45, 127, 127, 126, 126, 126, 125, 125,
-	47, 47, 47, 49, 48, 48, 48, 48, 50, 50,
-	52, 52, 51, 51, 54, 54, 54, 54, 55, 55,
-	90, 90, 37, 37, 37, 37, 37, 37, 37, 104,
-	104, 57, 57, 56, 56, 56, 56, 56, 56, 56,
-	56, 56, 56, 67, 67, 67, 67, 67, 67, 58,
-	58, 58, 58, 58, 58, 58, 33, 33, 68, 68,
-	68, 74, 69, 69, 61, 61, 61, 61, 61, 61,
+	18, 18, 18, 18, 18, 18, 18, 108, 108, 105,
+	105, 106, 106, 107, 107, 107, 109, 109, 109, 132,
+	132, 132, 19, 19, 21, 21, 22, 23, 20, 20,
+	20, 20, 20, 213, 24, 25, 25, 26, 26, 26,
+	30, 30, 30, 28, 28, 29, 29, 35, 35, 34,
+	34, 36, 36, 36, 36, 120, 120, 120, 119, 119,
+	38, 38, 39, 39, 40, 40, 41, 41, 41, 53,
+	53, 89, 89, 89, 92, 92, 42, 42, 42, 42,
+	43, 43, 44, 44, 45, 45, 127, 127, 126, 126,
+	126, 125, 125, 47, 47, 47, 49, 48, 48, 48,
+	48, 50, 50, 52, 52, 51, 51, 54, 54, 54,
+	54, 55, 55, 90, 90, 37, 37, 37, 37, 37,
+	37, 37, 104, 104, 57, 57, 56, 56, 56, 56,
+	56, 56, 56, 56, 56, 56, 67, 67, 67, 67,
+	67, 67, 58, 58, 58, 58, 58, 58, 58, 33,
+	33, 68, 68, 68, 74, 69, 69, 61, 61, 61,
 	61, 61, 61, 61, 61, 61, 61, 61, 61, 61,
 	61, 61, 61, 61, 61, 61, 61, 61, 61, 61,
-	61, 61, 61, 61, 61, 61, 65, 65, 65, 63,
-	63, 63, 63, 63, 63, 63, 63, 63, 63, 63,
-	63, 63, 63, 63, 64, 64, 64, 64, 64, 64,
-	64, 64, 64, 213, 213, 66, 66, 66, 66, 31,
-	31, 31, 31, 31, 130, 130, 133, 133, 133, 133,
+	61, 61, 61, 61, 61, 61, 61, 61, 61, 65,
+	65, 65, 63, 63, 63, 63, 63, 63, 63, 63,
+	63, 63, 63, 63, 63, 63, 63, 64, 64, 64,
+	64, 64, 64, 64, 64, 64, 214, 214, 66, 66,
+	66, 66, 31, 31, 31, 31, 31, 130, 130, 133,
 	133, 133, 133, 133, 133, 133, 133, 133, 133, 133,
-	134, 134, 134, 134, 134, 134, 134, 78, 78, 32,
-	32, 76, 76, 77, 79, 79, 75, 75, 75, 60,
-	60, 60, 60, 60, 60, 60, 60, 62, 62, 62,
-	80, 80, 81, 81, 82, 82, 83, 83, 84, 85,
-	85, 85, 86, 86, 86, 86, 87, 87, 87, 59,
-	59, 59, 59, 59, 59, 88, 88, 88, 88, 93,
-	93, 70, 70, 72, 72, 71, 73, 94, 94, 98,
-	95, 95, 99, 99, 99, 99, 97, 97, 97, 122,
-	122, 122, 102, 102, 110, 110, 111, 111, 103, 103,
-	112, 112, 112, 112, 112, 112, 112, 112, 112, 112,
-	113, 113, 113, 114, 114, 117, 117, 118, 118, 123,
-	123, 124, 124, 115, 115, 115, 115, 115, 115, 115,
+	133, 133, 133, 134, 134, 134, 134, 134, 134, 134,
+	78, 78, 32, 32, 76, 76, 77, 79, 79, 75,
+	75, 75, 60, 60, 60, 60, 60, 60, 60, 60,
+	62, 62, 62, 80, 80, 81, 81, 82, 82, 83,
+	83, 84, 85, 85, 85, 86, 86, 86, 86, 87,
+	87, 87, 59, 59, 59, 59, 59, 59, 88, 88,
+	88, 88, 93, 93, 70, 70, 72, 72, 71, 73,
+	94, 94, 98, 95, 95, 99, 99, 99, 99, 97,
+	97, 97, 122, 122, 122, 102, 102, 110, 110, 111,
+	111, 103, 103, 112, 112, 112, 112, 112, 112, 112,
+	112, 112, 112, 113, 113, 113, 114, 114, 117, 117,
+	118, 118, 123, 123, 124, 124, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
@@ -2537,6 +2553,7 @@ var yyR1 = [...]int{
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
 	115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+	115, 115, 115, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
@@ -2549,8 +2566,8 @@ var yyR1 = [...]int{
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
 	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
-	116, 116, 116, 116, 116, 116, 116, 116, 116, 116,
-	116, 116, 116, 207, 208, 128, 129, 129, 129,
+	116, 116, 116, 116, 116, 116, 208, 209, 128, 129,
+	129, 129,
 }
 
 var yyR2 = [...]int{
@@ -2586,49 +2603,49 @@ var yyR2 = [...]int{
 	5, 2, 3, 3, 2, 3, 2, 3, 4, 1,
 	1, 1, 3, 3, 2, 2, 5, 5, 8, 8,
 	13, 1, 1, 2, 2, 2, 10, 0, 1, 1,
-	0, 3, 0, 1, 1, 3, 0, 1, 3, 1,
-	2, 3, 1, 1, 1, 6, 11, 13, 7, 7,
-	7, 12, 7, 7, 7, 4, 5, 1, 1, 1,
+	0, 1, 1, 0, 3, 0, 1, 1, 3, 0,
+	1, 3, 1, 2, 3, 1, 1, 1, 6, 11,
+	13, 7, 7, 7, 12, 7, 7, 7, 4, 5,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 7, 1, 3,
-	8, 8, 5, 4, 6, 5, 4, 4, 3, 2,
-	3, 4, 4, 4, 4, 4, 4, 4, 4, 3,
-	3, 3, 3, 4, 3, 6, 4, 2, 4, 2,
-	2, 2, 2, 3, 1, 1, 0, 1, 0, 1,
-	0, 2, 2, 0, 2, 2, 0, 1, 1, 2,
-	1, 1, 2, 1, 1, 2, 2, 2, 2, 2,
-	0, 2, 0, 2, 1, 2, 2, 0, 1, 1,
-	0, 1, 0, 1, 0, 1, 1, 3, 1, 2,
-	3, 5, 0, 1, 2, 1, 1, 0, 2, 1,
-	3, 1, 1, 1, 3, 3, 3, 7, 1, 1,
-	3, 1, 3, 4, 4, 4, 3, 2, 4, 0,
-	1, 0, 2, 0, 1, 0, 1, 2, 1, 1,
-	1, 2, 2, 1, 2, 3, 2, 3, 2, 2,
-	2, 1, 1, 3, 0, 5, 5, 5, 0, 2,
-	0, 4, 1, 3, 3, 2, 3, 1, 2, 0,
-	3, 1, 1, 3, 3, 4, 4, 5, 3, 4,
-	5, 6, 2, 1, 2, 1, 2, 1, 2, 1,
-	1, 1, 1, 1, 1, 1, 0, 2, 1, 1,
-	1, 3, 1, 3, 1, 1, 1, 1, 1, 3,
-	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
-	3, 3, 3, 3, 2, 2, 2, 2, 2, 2,
-	3, 3, 1, 1, 1, 1, 4, 5, 6, 4,
-	4, 6, 6, 6, 6, 8, 8, 6, 8, 8,
-	9, 7, 5, 4, 2, 2, 2, 2, 2, 2,
-	2, 2, 2, 0, 2, 4, 4, 4, 4, 0,
-	3, 4, 7, 3, 1, 1, 2, 3, 3, 1,
-	2, 2, 1, 1, 2, 1, 2, 2, 1, 2,
-	1, 2, 1, 1, 1, 1, 1, 0, 1, 0,
-	2, 1, 2, 4, 0, 2, 1, 3, 5, 1,
-	1, 1, 1, 1, 1, 1, 1, 1, 2, 2,
-	0, 3, 0, 2, 0, 3, 1, 3, 2, 0,
-	1, 1, 0, 2, 4, 4, 0, 2, 4, 2,
-	1, 3, 5, 4, 6, 1, 3, 3, 5, 0,
-	5, 1, 3, 1, 2, 3, 1, 1, 3, 3,
-	1, 3, 3, 3, 3, 3, 1, 2, 1, 1,
-	1, 1, 1, 1, 0, 2, 0, 3, 0, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	0, 1, 1, 1, 1, 1, 1, 1, 1, 1,
+	7, 1, 3, 8, 8, 5, 4, 6, 5, 4,
+	4, 3, 2, 3, 4, 4, 4, 4, 4, 4,
+	4, 4, 3, 3, 3, 3, 4, 3, 6, 4,
+	2, 4, 2, 2, 2, 2, 3, 1, 1, 0,
+	1, 0, 1, 0, 2, 2, 0, 2, 2, 0,
+	1, 1, 2, 1, 1, 2, 1, 1, 2, 2,
+	2, 2, 2, 0, 2, 0, 2, 1, 2, 2,
+	0, 1, 1, 0, 1, 0, 1, 0, 1, 1,
+	3, 1, 2, 3, 5, 0, 1, 2, 1, 1,
+	0, 2, 1, 3, 1, 1, 1, 3, 3, 3,
+	7, 1, 1, 3, 1, 3, 4, 4, 4, 3,
+	2, 4, 0, 1, 0, 2, 0, 1, 0, 1,
+	2, 1, 1, 1, 2, 2, 1, 2, 3, 2,
+	3, 2, 2, 2, 1, 1, 3, 0, 5, 5,
+	5, 0, 2, 0, 4, 1, 3, 3, 2, 3,
+	1, 2, 0, 3, 1, 1, 3, 3, 4, 4,
+	5, 3, 4, 5, 6, 2, 1, 2, 1, 2,
+	1, 2, 1, 1, 1, 1, 1, 1, 1, 0,
+	2, 1, 1, 1, 3, 1, 3, 1, 1, 1,
+	1, 1, 3, 3, 3, 3, 3, 3, 3, 3,
+	3, 3, 3, 3, 3, 3, 3, 2, 2, 2,
+	2, 2, 2, 3, 3, 1, 1, 1, 1, 4,
+	5, 6, 4, 4, 6, 6, 6, 6, 8, 8,
+	6, 8, 8, 9, 7, 5, 4, 2, 2, 2,
+	2, 2, 2, 2, 2, 2, 0, 2, 4, 4,
+	4, 4, 0, 3, 4, 7, 3, 1, 1, 2,
+	3, 3, 1, 2, 2, 1, 1, 2, 1, 2,
+	2, 1, 2, 1, 2, 1, 1, 1, 1, 1,
+	0, 1, 0, 2, 1, 2, 4, 0, 2, 1,
+	3, 5, 1, 1, 1, 1, 1, 1, 1, 1,
+	1, 2, 2, 0, 3, 0, 2, 0, 3, 1,
+	3, 2, 0, 1, 1, 0, 2, 4, 4, 0,
+	2, 4, 2, 1, 3, 5, 4, 6, 1, 3,
+	3, 5, 0, 5, 1, 3, 1, 2, 3, 1,
+	1, 3, 3, 1, 3, 3, 3, 3, 3, 1,
+	2, 1, 1, 1, 1, 1, 1, 0, 2, 0,
+	3, 0, 1, 1, 1, 1, 1, 1, 1, 1,
+	1, 1, 1, 0, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
@@ -2653,16 +2670,17 @@ var yyR2 = [...]int{
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 0, 0, 1, 1,
+	1, 1, 1, 1, 1, 1, 1, 1, 0, 0,
+	1, 1,
 }
 
 var yyChk = [...]int{
-	-1000, -205, -1, -2, -6, -7, -8, -9, -10, -11,
+	-1000, -206, -1, -2, -6, -7, -8, -9, -10, -11,
 	-12, -13, -14, -15, -17, -18, -19, -21, -22, -23,
 	-20, -3, -4, 6, 7, -27, 9, 10, 29, -16,
 	112, 113, 115, 114, 143, 116, 136, 48, 175, 176,
-	178, 179, 25, 137, 138, 141, 142, -207, 8, 279,
-	52, -206, 313, -82, 15, -26, 5, -24, -212, -24,
+	178, 179, 25, 137, 138, 141, 142, -208, 8, 279,
+	52, -207, 313, -82, 15, -26, 5, -24, -213, -24,
 	-24, -24, -24, -24, -165, 52, -121, -192, 151, 271,
 	118, 133, 150, 119, 134, 70, -103, 121, 123, 119,
 	119, 120, 121, 271, 118, 119, -51, -123, 55, -116,
@@ -2682,15 +2700,15 @@ var yyChk = [...]int{
 	168, 169, 170, 119, 106, 210, 112, 248, 120, 31,
 	149, -132, 119, -105, 152, 250, 251, 252, 253, 55,
 	260, 259, 254, -123, 177, -128, -128, -128, -128, -128,
-	-2, -86, 17, 16, -5, -3, -207, 6, 20, 21,
+	-2, -86, 17, 16, -5, -3, -208, 6, 20, 21,
 	-30, 38, 39, -25, -36, 97, -37, -123, -56, 72,
 	-61, 28, 55, -116, 23, -60, -57, -75, -73, -74,
 	106, 107, 95, 96, 103, 73, 108, -65, -63, -64,
 	-66, 57, 56, 65, 58, 59, 60, 61, 66, 67,
-	68, -117, -71, -207, 42, 43, 280, 281, 282, 283,
+	68, -117, -71, -208, 42, 43, 280, 281, 282, 283,
 	287, 284, 75, 32, 270, 278, 277, 276, 274, 275,
 	272, 273, 311, 124, 271, 101, 279, -103, -39, -40,
-	-41, -42, -53, -74, -207, -51, 11, -46, -51, -95,
+	-41, -42, -53, -74, -208, -51, 11, -46, -51, -95,
 	-131, 177, -99, 260, 259, -118, -97, -117, -115, 258,
 	210, 257, 55, -116, 117, 172, 298, 71, 22, 24,
 	241, 247, 171, 74, 106, 16, 75, 307, 308, 105,
@@ -2703,26 +2721,26 @@ var yyChk = [...]int{
 	15, 45, 133, 89, 115, 279, 43, 174, 118, 6,
 	285, 29, 136, 41, 119, 249, 77, 122, 67, 5,
 	134, 9, 48, 51, 276, 277, 278, 32, 76, 12,
-	69, -166, -154, 55, -196, 307, 308, 121, -117, -111,
+	69, -166, -154, 55, -197, 307, 308, 121, -117, -111,
 	124, -111, -117, -117, -111, 279, 119, -51, -51, -110,
 	124, 55, -110, -110, -110, -51, 109, -51, 55, 29,
-	271, 55, 149, 119, 150, 121, -129, -207, -118, -129,
-	-129, -129, 153, 154, -129, -106, 255, 50, -129, -208,
+	271, 55, 149, 119, 150, 121, -129, -208, -118, -129,
+	-129, -129, 153, 154, -129, -106, 255, 50, -129, -209,
 	54, -87, 19, 30, -37, -123, -83, -84, -37, -82,
 	-2, -24, 34, -28, 21, 63, 11, -120, 71, 70,
 	87, -119, 22, -117, 57, 109, -37, -58, 90, 72,
 	88, 89, 74, 92, 91, 102, 95, 96, 97, 98,
 	99, 100, 101, 93, 94, 105, 311, 80, 81, 82,
-	83, 84, 85, 86, -104, -207, -74, -207, 110, 111,
-	-61, -61, -61, -61, -61, -61, -61, -207, -2, -69,
-	-37, -207, -207, -207, -207, -207, -207, -207, -207, -207,
-	-78, -37, -207, -213, -207, -213, -213, -213, -213, -213,
-	-213, -213, -134, 106, 210, 139, 201, -137, -136, 216,
+	83, 84, 85, 86, -104, -208, -74, -208, 110, 111,
+	-61, -61, -61, -61, -61, -61, -61, -208, -2, -69,
+	-37, -208, -208, -208, -208, -208, -208, -208, -208, -208,
+	-78, -37, -208, -214, -208, -214, -214, -214, -214, -214,
+	-214, -214, -134, 106, 210, 139, 201, -137, -136, 216,
 	180, 181, 182, 183, 184, 185, 186, 187, 188, 189,
-	209, 289, -207, -207, -207, -207, -52, 26, -51, 29,
+	209, 289, -208, -208, -208, -208, -52, 26, -51, 29,
 	53, -47, -49, -48, -50, 40, 44, 46, 41, 42,
-	43, 47, -127, 22, -39, -207, -126, 145, -125, 22,
-	-123, 57, -51, -46, -209, 53, 11, 51, 53, -95,
+	43, 47, -127, 22, -39, -208, -126, 145, -125, 22,
+	-123, 57, -51, -46, -210, 53, 11, 51, 53, -95,
 	177, -96, -100, 261, 263, 80, -122, -117, 57, 28,
 	29, 54, 53, -155, -135, -139, -136, -141, -140, -142,
 	-137, -138, 206, 210, 207, 212, 213, 214, 106, 211,
@@ -2730,278 +2748,278 @@ var yyChk = [...]int{
 	226, 215, 227, 29, 139, 199, 200, 201, 204, 203,
 	205, 202, 228, 229, 230, 231, 232, 233, 234, 235,
 	191, 192, 194, 195, 196, 198, 197, 120, -51, -185,
-	51, 55, 72, 55, 50, -201, 50, 171, 172, -51,
+	51, 55, 72, 55, 50, -202, 50, 171, 172, -51,
 	-51, 265, -129, 122, -51, 23, 50, -51, 55, 55,
 	-124, -123, -115, -129, -129, -129, -129, -129, -129, -129,
 	-129, -129, -129, -108, 249, 256, -51, 9, 90, 53,
-	18, 109, 53, -85, 24, 25, -86, -208, -30, -62,
+	18, 109, 53, -85, 24, 25, -86, -209, -30, -62,
 	-117, 58, 61, -29, 41, -51, -37, -37, -67, 66,
 	72, 67, 68, -119, 97, -124, -118, -115, -61, -68,
 	-71, -74, 62, 90, 88, 89, 74, -61, -61, -61,
 	-61, -61, -61, -61, -61, -61, -61, -61, -61, -61,
 	-61, -61, -130, 55, 57, -134, 55, -60, -60, -117,
-	-35, 21, -34, -36, -208, 53, -208, -2, -34, -34,
+	-35, 21, -34, -36, -209, 53, -209, -2, -34, -34,
 	-37, -37, -75, -117, -123, -75, -34, -28, -76, -77,
-	76, -75, -208, 208, -34, -35, -34, -34, -91, 145,
+	76, -75, -209, 208, -34, -35, -34, -34, -91, 145,
 	-51, -94, -98, -75, -40, -41, -41, -40, -41, 40,
-	40, 40, 45, 40, 45, 40, -48, -123, -208, -54,
-	48, 123, 49, -207, -125, -91, 51, -39, -51, -99,
+	40, 40, 45, 40, 45, 40, -48, -123, -209, -54,
+	48, 123, 49, -208, -125, -91, 51, -39, -51, -99,
 	-96, 53, 262, 264, 265, 50, 69, -37, -146, 106,
 	105, -167, -168, -169, -118, 57, 58, -154, -156, -158,
 	-157, -170, -159, 127, 125, 129, 130, 134, -163, 120,
-	135, 66, 72, -198, 127, 50, 241, 247, 125, 135,
+	135, 66, 72, -199, 127, 50, 241, 247, 125, 135,
 	134, 312, 64, 128, 297, 299, 28, -149, 314, 236,
 	-147, 244, -143, 52, -143, -143, 208, -143, -143, -143,
 	-143, -143, -145, 210, -145, -145, -145, -145, 52, 52,
 	-143, -143, -143, -143, -151, 52, 193, -151, -151, -152,
 	52, -152, -117, 22, -183, 291, -184, 55, -129, 23,
-	-129, -51, -202, 8, 9, 10, -51, -112, 117, 114,
+	-129, -51, -203, 8, 9, 10, -51, -112, 117, 114,
 	115, -180, 113, 241, 210, 64, 28, 15, 280, 145,
 	296, 55, 146, -51, -51, -51, -129, -107, 11, 90,
 	36, -37, -37, -124, -84, -87, -102, 19, 11, 32,
-	32, -34, 66, 67, 68, 109, -207, -68, -61, -61,
-	-61, -33, 140, 71, -208, -208, -34, 53, -37, -208,
-	-208, -208, 53, 51, 22, 53, 11, 109, 53, 11,
-	-208, -34, -79, -77, 78, -37, -208, -208, -208, -208,
-	-208, -59, 29, 32, -2, -207, -207, -55, 53, 12,
+	32, -34, 66, 67, 68, 109, -208, -68, -61, -61,
+	-61, -33, 140, 71, -209, -209, -34, 53, -37, -209,
+	-209, -209, 53, 51, 22, 53, 11, 109, 53, 11,
+	-209, -34, -79, -77, 78, -37, -209, -209, -209, -209,
+	-209, -59, 29, 32, -2, -208, -208, -55, 53, 12,
 	80, -44, -43, 50, 51, -45, 50, -43, 40, 40,
 	120, 120, 120, -92, -117, -55, -39, -55, -100, -101,
-	266, 263, 269, 55, 53, -169, 80, 52, -197, 50,
+	266, 263, 269, 55, 53, -169, 80, 52, -198, 50,
 	72, -161, -117, 135, -163, -163, 55, -163, 55, 55,
-	66, 19, -117, 9, 135, 135, -197, 57, -123, -194,
-	298, 16, 52, -199, 52, 57, 58, 59, 66, -144,
+	66, 19, -117, 9, 135, 135, -198, 57, -123, -194,
+	298, 16, 52, -200, 52, 57, 58, 59, 66, -144,
 	65, -57, 237, 270, 273, 272, 238, 315, -148, 245,
 	58, -145, -145, -143, -145, -145, -145, -146, 29, -146,
 	-146, -146, -146, -153, 57, -153, -150, 291, 292, -150,
 	58, -151, 58, 50, 51, -2, -182, -181, -118, -187,
-	22, 50, -201, -128, -121, -211, 151, 126, 131, 130,
+	22, 50, -202, -128, -121, -212, 151, 126, 131, 130,
 	55, 125, 129, 145, -186, 151, 126, 127, 131, 130,
 	55, 120, 135, 125, 129, 145, 134, -113, -114, 122,
 	22, 120, 135, 145, 117, -129, -109, 88, 12, -123,
 	-123, 37, 109, -51, -38, 11, 97, -118, -35, -33,
-	71, -61, -61, -208, -36, -133, 106, 206, 139, 201,
+	71, -61, -61, -209, -36, -133, 106, 206, 139, 201,
 	195, 225, 226, 212, 243, 199, 244, -130, -133, -61,
 	-61, -118, -61, -61, 288, -82, 79, -37, 77, -93,
-	50, -94, -70, -72, -71, -207, -2, -88, -117, -92,
-	-82, -98, -37, -37, -37, 52, -37, -207, -207, -207,
-	-208, 53, -82, -55, 263, 267, 268, -168, -169, -172,
+	50, -94, -70, -72, -71, -208, -2, -88, -117, -92,
+	-82, -98, -37, -37, -37, 52, -37, -208, -208, -208,
+	-209, 53, -82, -55, 263, 267, 268, -168, -169, -172,
 	-171, -117, 135, 10, 9, 19, 131, 125, 55, 55,
-	55, -196, 134, 309, -198, 312, -144, -207, 52, 22,
-	28, 58, -199, 52, -189, 311, -189, -207, -143, 52,
+	55, -197, 134, 309, -199, 312, -144, -208, 52, 22,
+	28, 58, -200, 52, -189, 311, -189, -208, -143, 52,
 	-143, 52, 52, 54, -146, -146, -145, -146, -146, -146,
 	55, 106, 54, 53, 54, 199, 199, 53, 54, 53,
-	-51, -117, 53, 80, -188, 19, 159, 160, -51, -202,
-	-210, 120, 135, -128, -117, -128, -117, -51, -128, -117,
-	127, -158, 57, -37, -55, -39, -208, -61, -208, -143,
-	-143, -143, -152, -143, 186, -143, 186, -208, -208, -208,
-	53, 19, -208, 53, 19, -207, -32, 285, -37, 27,
-	-93, 53, -208, -208, -208, 53, 109, -208, -86, -89,
+	-51, -117, 53, 80, -188, 19, 159, 160, -51, -203,
+	-211, 120, 135, -128, -117, -128, -117, -51, -128, -117,
+	127, -158, 57, -37, -55, -39, -209, -61, -209, -143,
+	-143, -143, -152, -143, 186, -143, 186, -209, -209, -209,
+	53, 19, -209, 53, 19, -208, -32, 285, -37, 27,
+	-93, 53, -209, -209, -209, 53, 109, -209, -86, -89,
 	-117, 135, -89, -89, -89, -126, -117, -86, 54, 53,
 	-143, -143, -160, 155, 156, 29, 157, -160, 309, 135,
-	135, -196, -197, -37, -89, 299, 53, 54, -199, -135,
-	239, 55, -208, 54, 54, 54, -146, -145, 57, -145,
+	135, -197, -198, -37, -89, 299, 53, 54, -200, -135,
+	239, 55, -209, 54, 54, 54, -146, -145, 57, -145,
 	246, 246, 58, 58, 52, 51, 50, -181, -169, 122,
 	20, 6, 8, 9, 10, 19, 22, -117, 52, 26,
 	-117, -80, 13, -145, 55, -61, -61, -61, -61, -61,
-	-208, 57, 135, -72, 32, -2, -207, -117, -117, 53,
-	54, -208, -208, -208, -54, -174, -176, 291, -175, 51,
+	-209, 57, 135, -72, 32, -2, -208, -117, -117, 53,
+	54, -209, -209, -209, -54, -174, -176, 291, -175, 51,
 	132, 64, 164, 165, 166, 167, 168, 169, 170, -171,
-	-85, -197, 50, 66, 28, 158, -197, 50, -161, -117,
-	-196, -207, -208, 54, 52, 58, 54, -149, -149, -149,
-	-146, -146, 54, 54, -172, -117, -51, -162, -117, 173,
-	-203, -204, -7, -9, -8, 52, -89, -207, 125, -81,
-	14, 16, -208, -208, -208, -208, -31, 90, 291, 9,
-	-70, -2, 109, -117, -173, 50, -175, 291, 52, 293,
-	55, -164, 80, 57, 80, 80, 80, 80, 80, 80,
-	80, 9, 10, 52, 52, -37, -193, 157, -195, 54,
-	54, 54, 52, 52, -190, 53, 51, 174, -204, -172,
-	54, -178, -179, 145, 135, -37, -69, -208, 289, 47,
-	294, -94, -208, -117, -117, -177, -175, -117, 58, -200,
-	50, 69, 58, -200, -200, -200, -200, -200, -160, -160,
-	-162, -172, -208, 286, 54, 176, 301, 302, 144, 303,
-	157, 304, 305, -90, 310, -172, -172, -191, 291, -117,
-	-37, -204, 54, -185, -208, 53, -117, 52, 37, 290,
-	295, -207, 54, 53, -197, -197, 54, 54, 291, 58,
-	16, 58, 58, 58, 58, 302, 144, 304, 16, -55,
-	52, 54, 54, 312, -183, -179, 32, -172, 37, -117,
-	-175, 128, -174, 58, 58, 306, -123, -174, -89, -55,
-	-174, -37, 147, 54, 291, -208, -51, -173, 109, -173,
-	54, -174, 148, 294, 52, -118, -207, 295, -162, -61,
-	144, 54, -208, -208,
+	-85, -198, 50, 66, 28, 158, -198, 50, -161, -117,
+	-196, 307, 308, -208, -209, 54, 52, 58, 54, -149,
+	-149, -149, -146, -146, 54, 54, -172, -117, -51, -162,
+	-117, 173, -204, -205, -7, -9, -8, 52, -89, -208,
+	125, -81, 14, 16, -209, -209, -209, -209, -31, 90,
+	291, 9, -70, -2, 109, -117, -173, 50, -175, 291,
+	52, 293, 55, -164, 80, 57, 80, 80, 80, 80,
+	80, 80, 80, 9, 10, 52, 52, -37, -193, 157,
+	-195, 54, 54, 54, 52, 52, -190, 53, 51, 174,
+	-205, -172, 54, -178, -179, 145, 135, -37, -69, -209,
+	289, 47, 294, -94, -209, -117, -117, -177, -175, -117,
+	58, -201, 50, 69, 58, -201, -201, -201, -201, -201,
+	-160, -160, -162, -172, -209, 286, 54, 176, 301, 302,
+	144, 303, 157, 304, 305, -90, 310, -172, -172, -191,
+	291, -117, -37, -205, 54, -185, -209, 53, -117, 52,
+	37, 290, 295, -208, 54, 53, -198, -198, 54, 54,
+	291, 58, 16, 58, 58, 58, 58, 302, 144, 304,
+	16, -55, 52, 54, 54, 312, -183, -179, 32, -172,
+	37, -117, -175, 128, -174, 58, 58, 306, -123, -174,
+	-89, -55, -174, -37, 147, 54, 291, -209, -51, -173,
+	109, -173, 54, -174, 148, 294, 52, -118, -208, 295,
+	-162, -61, 144, 54, -209, -209,
 }
 
 var yyDef = [...]int{
 	0, -2, 2, -2, 5, 6, 7, 8, 9, 10,
 	11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
-	21, 674, 0, 430, 430, 430, 430, 430, 430, 0,
-	-2, 728, 0, 0, 0, 0, -2, 420, 421, 0,
-	423, 424, 995, 995, 995, 995, 995, 0, 33, 34,
-	993, 1, 3, 682, 0, 0, 434, 437, 432, 0,
-	728, 0, 0, 0, 60, 0, 317, 0, 0, 726,
-	726, 0, 0, 726, 95, 0, 0, 0, 729, 0,
-	724, 0, 724, 724, 724, 0, 379, 502, 749, 750,
-	860, 861, 862, 863, 864, 865, 866, 867, 868, 869,
-	870, 871, 872, 873, 874, 875, 876, 877, 878, 879,
-	880, 881, 882, 883, 884, 885, 886, 887, 888, 889,
-	890, 891, 892, 893, 894, 895, 896, 897, 898, 899,
-	900, 901, 902, 903, 904, 905, 906, 907, 908, 909,
-	910, 911, 912, 913, 914, 915, 916, 917, 918, 919,
-	920, 921, 922, 923, 924, 925, 926, 927, 928, 929,
-	930, 931, 932, 933, 934, 935, 936, 937, 938, 939,
-	940, 941, 942, 943, 944, 945, 946, 947, 948, 949,
-	950, 951, 952, 953, 954, 955, 956, 957, 958, 959,
-	960, 961, 962, 963, 964, 965, 966, 967, 968, 969,
-	970, 971, 972, 973, 974, 975, 976, 977, 978, 979,
-	980, 981, 982, 983, 984, 985, 986, 987, 988, 989,
-	990, 991, 992, 0, 0, 0, 0, 996, 996, 996,
-	996, 0, 996, 408, 397, 399, 400, 401, 402, 996,
-	417, 418, 407, 419, 422, 425, 426, 427, 428, 429,
-	27, 686, 0, 0, 674, 29, 0, 430, 435, 436,
-	440, 438, 439, 431, 0, 448, 452, 0, 512, 0,
-	517, 519, -2, -2, 0, 554, 555, 556, 557, 558,
-	0, 0, 0, 0, 0, 0, 0, 582, 583, 584,
-	585, 659, 660, 661, 662, 663, 664, 665, 666, 521,
-	522, 656, 706, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 647, 0, 613, 613, 613, 613, 613, 613,
-	613, 613, 0, 0, 0, 0, 0, 0, 0, 459,
-	461, 462, 463, 483, 0, 485, 0, 0, 41, 45,
-	0, 962, 710, -2, -2, 0, 0, 747, 748, -2,
-	872, -2, 745, 746, 753, 754, 755, 756, 757, 758,
-	759, 760, 761, 762, 763, 764, 765, 766, 767, 768,
-	769, 770, 771, 772, 773, 774, 775, 776, 777, 778,
-	779, 780, 781, 782, 783, 784, 785, 786, 787, 788,
-	789, 790, 791, 792, 793, 794, 795, 796, 797, 798,
-	799, 800, 801, 802, 803, 804, 805, 806, 807, 808,
-	809, 810, 811, 812, 813, 814, 815, 816, 817, 818,
-	819, 820, 821, 822, 823, 824, 825, 826, 827, 828,
-	829, 830, 831, 832, 833, 834, 835, 836, 837, 838,
-	839, 840, 841, 842, 843, 844, 845, 846, 847, 848,
-	849, 850, 851, 852, 853, 854, 855, 856, 857, 858,
-	859, 0, 108, 0, 0, 318, 319, 0, 96, 0,
-	0, 0, 0, 0, 0, 105, 0, 996, 0, 0,
-	0, 0, 0, 0, 0, 378, 0, 380, 996, 996,
-	996, 996, 996, 996, 996, 996, 389, 997, 998, 390,
-	391, 392, 996, 996, 394, 0, 409, 0, 403, 28,
-	994, 22, 0, 0, 683, 0, 675, 676, 679, 682,
-	27, 437, 0, 442, 441, 433, 0, 449, 0, 0,
-	0, 453, 0, 455, 456, 0, 515, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 539, 540, 541,
-	542, 543, 544, 545, 518, 0, 532, 0, 0, 0,
-	574, 575, 576, 577, 578, 579, 0, 444, 27, 0,
-	552, 0, 0, 0, 0, 0, 0, 0, 0, 440,
-	0, 648, 0, 604, 0, 605, 606, 607, 608, 609,
-	610, 611, 612, 640, 0, 642, 643, 644, 645, 646,
+	21, 677, 0, 433, 433, 433, 433, 433, 433, 0,
+	-2, 731, 0, 0, 0, 0, -2, 423, 424, 0,
+	426, 427, 998, 998, 998, 998, 998, 0, 33, 34,
+	996, 1, 3, 685, 0, 0, 437, 440, 435, 0,
+	731, 0, 0, 0, 60, 0, 320, 0, 0, 729,
+	729, 0, 0, 729, 95, 0, 0, 0, 732, 0,
+	727, 0, 727, 727, 727, 0, 382, 505, 752, 753,
+	863, 864, 865, 866, 867, 868, 869, 870, 871, 872,
+	873, 874, 875, 876, 877, 878, 879, 880, 881, 882,
+	883, 884, 885, 886, 887, 888, 889, 890, 891, 892,
+	893, 894, 895, 896, 897, 898, 899, 900, 901, 902,
+	903, 904, 905, 906, 907, 908, 909, 910, 911, 912,
+	913, 914, 915, 916, 917, 918, 919, 920, 921, 922,
+	923, 924, 925, 926, 927, 928, 929, 930, 931, 932,
+	933, 934, 935, 936, 937, 938, 939, 940, 941, 942,
+	943, 944, 945, 946, 947, 948, 949, 950, 951, 952,
+	953, 954, 955, 956, 957, 958, 959, 960, 961, 962,
+	963, 964, 965, 966, 967, 968, 969, 970, 971, 972,
+	973, 974, 975, 976, 977, 978, 979, 980, 981, 982,
+	983, 984, 985, 986, 987, 988, 989, 990, 991, 992,
+	993, 994, 995, 0, 0, 0, 0, 999, 999, 999,
+	999, 0, 999, 411, 400, 402, 403, 404, 405, 999,
+	420, 421, 410, 422, 425, 428, 429, 430, 431, 432,
+	27, 689, 0, 0, 677, 29, 0, 433, 438, 439,
+	443, 441, 442, 434, 0, 451, 455, 0, 515, 0,
+	520, 522, -2, -2, 0, 557, 558, 559, 560, 561,
+	0, 0, 0, 0, 0, 0, 0, 585, 586, 587,
+	588, 662, 663, 664, 665, 666, 667, 668, 669, 524,
+	525, 659, 709, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 650, 0, 616, 616, 616, 616, 616, 616,
+	616, 616, 0, 0, 0, 0, 0, 0, 0, 462,
+	464, 465, 466, 486, 0, 488, 0, 0, 41, 45,
+	0, 965, 713, -2, -2, 0, 0, 750, 751, -2,
+	875, -2, 748, 749, 756, 757, 758, 759, 760, 761,
+	762, 763, 764, 765, 766, 767, 768, 769, 770, 771,
+	772, 773, 774, 775, 776, 777, 778, 779, 780, 781,
+	782, 783, 784, 785, 786, 787, 788, 789, 790, 791,
+	792, 793, 794, 795, 796, 797, 798, 799, 800, 801,
+	802, 803, 804, 805, 806, 807, 808, 809, 810, 811,
+	812, 813, 814, 815, 816, 817, 818, 819, 820, 821,
+	822, 823, 824, 825, 826, 827, 828, 829, 830, 831,
+	832, 833, 834, 835, 836, 837, 838, 839, 840, 841,
+	842, 843, 844, 845, 846, 847, 848, 849, 850, 851,
+	852, 853, 854, 855, 856, 857, 858, 859, 860, 861,
+	862, 0, 108, 0, 0, 321, 322, 0, 96, 0,
+	0, 0, 0, 0, 0, 105, 0, 999, 0, 0,
+	0, 0, 0, 0, 0, 381, 0, 383, 999, 999,
+	999, 999, 999, 999, 999, 999, 392, 1000, 1001, 393,
+	394, 395, 999, 999, 397, 0, 412, 0, 406, 28,
+	997, 22, 0, 0, 686, 0, 678, 679, 682, 685,
+	27, 440, 0, 445, 444, 436, 0, 452, 0, 0,
+	0, 456, 0, 458, 459, 0, 518, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 542, 543, 544,
+	545, 546, 547, 548, 521, 0, 535, 0, 0, 0,
+	577, 578, 579, 580, 581, 582, 0, 447, 27, 0,
+	555, 0, 0, 0, 0, 0, 0, 0, 0, 443,
+	0, 651, 0, 607, 0, 608, 609, 610, 611, 612,
+	613, 614, 615, 643, 0, 645, 646, 647, 648, 649,
 	181, 182, 183, 184, 185, 186, 187, 188, 189, 190,
-	207, 208, 0, 444, 0, 0, 43, 0, 501, 0,
-	0, 0, 0, 0, 0, 490, 0, 0, 493, 0,
-	0, 0, 0, 484, 0, 0, 504, 926, 486, 0,
-	488, 489, -2, 0, 0, 0, 39, 40, 0, 46,
-	962, 48, 49, 0, 0, 0, 262, 719, 720, 721,
-	717, 326, 0, 113, 256, 252, 115, 116, 117, 118,
+	207, 208, 0, 447, 0, 0, 43, 0, 504, 0,
+	0, 0, 0, 0, 0, 493, 0, 0, 496, 0,
+	0, 0, 0, 487, 0, 0, 507, 929, 489, 0,
+	491, 492, -2, 0, 0, 0, 39, 40, 0, 46,
+	965, 48, 49, 0, 0, 0, 262, 722, 723, 724,
+	720, 329, 0, 113, 256, 252, 115, 116, 117, 118,
 	242, 180, 242, 242, 242, 242, 242, 214, 242, 242,
 	259, 259, 259, 259, 259, 223, 224, 225, 226, 227,
 	228, 229, 0, 0, 199, 242, 242, 242, 203, 242,
 	205, 206, 232, 233, 234, 235, 236, 237, 238, 239,
 	244, 244, 244, 246, 246, 197, 198, 0, 0, 99,
-	0, 996, 0, 996, 0, 0, 0, 71, 72, 106,
-	0, 0, 345, 0, 373, 725, 0, 996, 376, 377,
-	503, 751, 752, 381, 382, 383, 384, 385, 386, 387,
-	388, 393, 396, 410, 404, 405, 398, 687, 0, 0,
-	0, 0, 0, 678, 680, 681, 686, 30, 440, 0,
-	667, 0, 0, 0, 443, 25, 513, 514, 516, 533,
-	0, 535, 537, 454, 450, 0, 657, -2, 523, 524,
-	548, 549, 550, 0, 0, 0, 0, 546, 528, 0,
-	559, 560, 561, 562, 563, 564, 565, 566, 567, 568,
-	569, 570, 573, 624, 625, 581, 0, 571, 572, 580,
-	0, 0, 445, 446, 551, 0, 705, 27, 0, 0,
-	0, 0, 0, 656, 0, 0, 0, 0, 654, 651,
-	0, 0, 614, 641, 0, 0, 0, 0, 0, 0,
-	500, 508, 707, 0, 460, 479, 481, 0, 476, 491,
-	492, 494, 0, 496, 0, 498, 499, 464, 465, 466,
-	0, 0, 0, 0, 487, 508, 0, 508, 42, 711,
-	47, 0, 0, 52, 53, 712, 713, 714, 715, 263,
-	0, 107, 327, 329, 332, 333, 334, 109, 110, 111,
-	112, 0, 320, 322, 0, 0, 0, 0, 0, 299,
+	0, 999, 0, 999, 0, 0, 0, 71, 72, 106,
+	0, 0, 348, 0, 376, 728, 0, 999, 379, 380,
+	506, 754, 755, 384, 385, 386, 387, 388, 389, 390,
+	391, 396, 399, 413, 407, 408, 401, 690, 0, 0,
+	0, 0, 0, 681, 683, 684, 689, 30, 443, 0,
+	670, 0, 0, 0, 446, 25, 516, 517, 519, 536,
+	0, 538, 540, 457, 453, 0, 660, -2, 526, 527,
+	551, 552, 553, 0, 0, 0, 0, 549, 531, 0,
+	562, 563, 564, 565, 566, 567, 568, 569, 570, 571,
+	572, 573, 576, 627, 628, 584, 0, 574, 575, 583,
+	0, 0, 448, 449, 554, 0, 708, 27, 0, 0,
+	0, 0, 0, 659, 0, 0, 0, 0, 657, 654,
+	0, 0, 617, 644, 0, 0, 0, 0, 0, 0,
+	503, 511, 710, 0, 463, 482, 484, 0, 479, 494,
+	495, 497, 0, 499, 0, 501, 502, 467, 468, 469,
+	0, 0, 0, 0, 490, 511, 0, 511, 42, 714,
+	47, 0, 0, 52, 53, 715, 716, 717, 718, 263,
+	0, 107, 330, 332, 335, 336, 337, 109, 110, 111,
+	112, 0, 323, 325, 0, 0, 0, 0, 0, 299,
 	300, 120, 0, 122, 0, 0, 125, 126, 0, 128,
-	130, 320, 0, 0, 0, 0, 0, 119, 0, 258,
+	130, 323, 0, 0, 0, 0, 0, 119, 0, 258,
 	254, 253, 179, 0, 259, 259, 242, 259, 259, 259,
 	216, 217, 262, 0, 262, 262, 262, 262, 0, 0,
 	249, 249, 202, 204, 191, 0, 244, 193, 194, 195,
-	0, 196, 0, 0, 65, 0, 97, 98, 66, 727,
-	67, 81, 0, 73, 74, 75, 0, 995, 94, 0,
-	740, 346, 730, 731, 732, 733, 734, 735, 736, 737,
-	738, 739, 0, 0, 372, 996, 375, 413, 0, 0,
-	0, 684, 685, 0, 677, 23, 0, 722, 723, 668,
-	669, 457, 534, 536, 538, 0, 444, 525, 546, 529,
-	0, 526, 0, 0, 520, 586, 0, 0, 553, -2,
-	589, 590, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 674, 0, 652, 0, 0, 603, 615, 616, 617,
-	618, 699, 0, 0, -2, 0, 0, 674, 0, 0,
-	0, 473, 480, 0, 0, 474, 0, 475, 495, 497,
-	0, 0, 0, 0, 471, 674, 508, 38, 50, 51,
-	0, 0, 57, 264, 0, 330, 0, 0, 305, 0,
-	0, 0, 323, 291, 0, 0, 294, 0, 296, 317,
+	0, 196, 0, 0, 65, 0, 97, 98, 66, 730,
+	67, 81, 0, 73, 74, 75, 0, 998, 94, 0,
+	743, 349, 733, 734, 735, 736, 737, 738, 739, 740,
+	741, 742, 0, 0, 375, 999, 378, 416, 0, 0,
+	0, 687, 688, 0, 680, 23, 0, 725, 726, 671,
+	672, 460, 537, 539, 541, 0, 447, 528, 549, 532,
+	0, 529, 0, 0, 523, 589, 0, 0, 556, -2,
+	592, 593, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 677, 0, 655, 0, 0, 606, 618, 619, 620,
+	621, 702, 0, 0, -2, 0, 0, 677, 0, 0,
+	0, 476, 483, 0, 0, 477, 0, 478, 498, 500,
+	0, 0, 0, 0, 474, 677, 511, 38, 50, 51,
+	0, 0, 57, 264, 0, 333, 0, 0, 305, 0,
+	0, 0, 326, 291, 0, 0, 294, 0, 296, 320,
 	121, 0, 0, 0, 127, 129, 0, 133, 134, 0,
 	151, 0, 0, 140, 0, 175, 144, 145, 146, 147,
 	175, 149, 0, 242, 242, 171, 0, 257, 114, 255,
 	0, 262, 262, 259, 262, 262, 262, 218, 0, 219,
 	220, 221, 222, 0, 240, 0, 200, 0, 0, 201,
 	0, 192, 0, 0, 0, -2, 100, 101, 0, 84,
-	0, 0, 0, 335, 0, 995, 0, 360, 361, 362,
-	363, 364, 365, 366, 995, 0, 347, 348, 349, 350,
-	351, 352, 353, 354, 355, 356, 357, 0, 995, 741,
-	742, 743, 744, 0, 0, 374, 395, 0, 0, 411,
-	412, 688, 0, 24, 508, 0, 451, 658, 0, 527,
-	0, 547, 530, 587, 447, 0, 242, 242, 629, 242,
-	246, 632, 633, 242, 635, 242, 638, 0, 0, 0,
-	0, 657, 0, 0, 0, 649, 602, 655, 0, 31,
-	0, 699, 689, 701, 703, 0, 27, 0, 695, 0,
-	682, 708, 509, 709, 477, 0, 482, 0, 0, 0,
-	485, 0, 682, 37, 54, 55, 56, 328, 331, 0,
+	0, 0, 0, 338, 0, 998, 0, 363, 364, 365,
+	366, 367, 368, 369, 998, 0, 350, 351, 352, 353,
+	354, 355, 356, 357, 358, 359, 360, 0, 998, 744,
+	745, 746, 747, 0, 0, 377, 398, 0, 0, 414,
+	415, 691, 0, 24, 511, 0, 454, 661, 0, 530,
+	0, 550, 533, 590, 450, 0, 242, 242, 632, 242,
+	246, 635, 636, 242, 638, 242, 641, 0, 0, 0,
+	0, 660, 0, 0, 0, 652, 605, 658, 0, 31,
+	0, 702, 692, 704, 706, 0, 27, 0, 698, 0,
+	685, 711, 512, 712, 480, 0, 485, 0, 0, 0,
+	488, 0, 685, 37, 54, 55, 56, 331, 334, 0,
 	301, 242, 242, 0, 0, 0, 0, 0, 292, 293,
-	295, 297, 317, 139, 123, 320, 124, 0, 0, 0,
+	295, 297, 320, 139, 123, 323, 124, 0, 0, 0,
 	152, 0, 0, 0, 143, 0, 148, 0, 167, 0,
 	169, 0, 0, 243, 209, 210, 262, 211, 212, 213,
 	260, 261, 259, 0, 259, 0, 0, 0, 247, 0,
 	0, 0, 0, 0, 0, 0, 82, 83, 0, 0,
-	0, 358, 359, 339, 0, 340, 342, 343, 344, 0,
-	322, 338, 414, 415, 670, 458, 588, 531, 591, 626,
-	259, 630, 631, 634, 636, 637, 639, 593, 592, 594,
-	0, 0, 597, 0, 0, 0, 0, 0, 653, 0,
-	32, 0, 704, -2, 0, 0, 0, 44, 35, 0,
-	468, 469, 0, 0, 0, 504, 472, 36, 266, 0,
-	679, 304, 320, 311, 312, 0, 0, 320, 321, 322,
+	0, 361, 362, 342, 0, 343, 345, 346, 347, 0,
+	325, 341, 417, 418, 673, 461, 591, 534, 594, 629,
+	259, 633, 634, 637, 639, 640, 642, 596, 595, 597,
+	0, 0, 600, 0, 0, 0, 0, 0, 656, 0,
+	32, 0, 707, -2, 0, 0, 0, 44, 35, 0,
+	471, 472, 0, 0, 0, 507, 475, 36, 266, 0,
+	682, 304, 323, 311, 312, 0, 0, 323, 324, 325,
 	317, 298, 0, 0, 0, 136, 0, 141, 0, 256,
 	256, 256, 150, 168, 170, 172, 215, 262, 241, 262,
 	250, 251, 0, 0, 0, 0, 0, 102, 103, 0,
 	85, 86, 87, 88, 89, 0, 0, 0, 0, 0,
-	323, 672, 0, 627, 628, 0, 0, 0, 0, 619,
-	601, 650, 0, 702, 0, -2, 0, 697, 696, 0,
-	478, 505, 506, 507, 467, 288, 267, 0, 269, 0,
+	326, 675, 0, 630, 631, 0, 0, 0, 0, 622,
+	604, 653, 0, 705, 0, -2, 0, 700, 699, 0,
+	481, 508, 509, 510, 470, 288, 267, 0, 269, 0,
 	284, 0, 0, 0, 0, 0, 0, 0, 0, 302,
-	303, 306, 0, 313, 315, 314, 307, 0, 0, 323,
-	0, 0, 173, 135, 153, 0, 0, 176, 177, 178,
-	230, 231, 245, 248, 0, 0, 0, 90, 324, 0,
-	70, 76, 78, 79, 80, 0, 0, 0, 0, 26,
-	0, 0, 595, 596, 598, 599, 0, 0, 0, 0,
-	692, 27, 0, 470, 265, 0, 270, 0, 0, 0,
-	273, 0, 285, 275, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 131, 0, 0, 138,
-	142, 510, 0, 0, 92, 0, 0, 0, 77, 0,
-	96, 0, 368, 0, 0, 673, 671, 600, 0, 0,
-	0, 700, -2, 698, 289, 0, 271, 276, 274, 277,
-	286, 287, 278, 279, 280, 281, 282, 283, 320, 320,
-	0, 0, 132, 174, 137, 0, 0, 0, 0, 0,
-	0, 164, 0, 508, 0, 0, 0, 68, 0, 325,
-	91, 69, 336, 99, 367, 0, 0, 0, 620, 0,
-	623, 0, 268, 0, 308, 309, 0, 266, 0, 155,
-	0, 157, 158, 159, 160, 161, 162, 163, 0, 266,
-	0, 508, 266, 0, 341, 369, 0, 0, 621, 0,
-	272, 0, 288, 154, 156, 165, 0, 288, 0, 266,
-	62, 93, 0, 337, 0, 290, 0, 316, 0, 61,
-	511, 63, 0, 0, 0, 166, 0, 622, 0, 0,
-	0, 310, 370, 371,
+	303, 306, 0, 313, 315, 314, 307, 0, 0, 326,
+	0, 318, 319, 0, 173, 135, 153, 0, 0, 176,
+	177, 178, 230, 231, 245, 248, 0, 0, 0, 90,
+	327, 0, 70, 76, 78, 79, 80, 0, 0, 0,
+	0, 26, 0, 0, 598, 599, 601, 602, 0, 0,
+	0, 0, 695, 27, 0, 473, 265, 0, 270, 0,
+	0, 0, 273, 0, 285, 275, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 131, 0,
+	0, 138, 142, 513, 0, 0, 92, 0, 0, 0,
+	77, 0, 96, 0, 371, 0, 0, 676, 674, 603,
+	0, 0, 0, 703, -2, 701, 289, 0, 271, 276,
+	274, 277, 286, 287, 278, 279, 280, 281, 282, 283,
+	323, 323, 0, 0, 132, 174, 137, 0, 0, 0,
+	0, 0, 0, 164, 0, 511, 0, 0, 0, 68,
+	0, 328, 91, 69, 339, 99, 370, 0, 0, 0,
+	623, 0, 626, 0, 268, 0, 308, 309, 0, 266,
+	0, 155, 0, 157, 158, 159, 160, 161, 162, 163,
+	0, 266, 0, 511, 266, 0, 344, 372, 0, 0,
+	624, 0, 272, 0, 288, 154, 156, 165, 0, 288,
+	0, 266, 62, 93, 0, 340, 0, 290, 0, 316,
+	0, 61, 514, 63, 0, 0, 0, 166, 0, 625,
+	0, 0, 0, 310, 373, 374,
 }
 
 var yyTok1 = [...]int{
@@ -5141,7 +5159,7 @@ yydefault:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:1707
 		{
-			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true}
+			yyVAL.indexInfo = &IndexInfo{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true, Clustered: true}
 		}
 	case 292:
 		yyDollar = yyS[yypt-3 : yypt+1]
@@ -5343,92 +5361,110 @@ yydefault:
 			yyVAL.boolVal = BoolVal(false)
 		}
 	case 321:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-1 : yypt+1]
 //line sqlparser/parser.y:1871
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
 	case 322:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:1875
+		{
+			yyVAL.boolVal = BoolVal(false)
+		}
+	case 323:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1876
+//line sqlparser/parser.y:1881
 		{
-			yyVAL.colIdent = NewColIdent("")
+			yyVAL.boolVal = BoolVal(false)
 		}
 	case 324:
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line sqlparser/parser.y:1885
+		{
+			yyVAL.boolVal = BoolVal(true)
+		}
+	case 325:
+		yyDollar = yyS[yypt-0 : yypt+1]
+//line sqlparser/parser.y:1890
+		{
+			yyVAL.colIdent = NewColIdent("")
+		}
+	case 327:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1883
+//line sqlparser/parser.y:1897
 		{
 			yyVAL.colIdents = []ColIdent{yyDollar[1].colIdent}
 		}
-	case 325:
+	case 328:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1887
+//line sqlparser/parser.y:1901
 		{
 			yyVAL.colIdents = append(yyDollar[1].colIdents, yyDollar[3].colIdent)
 		}
-	case 326:
+	case 329:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:1892
+//line sqlparser/parser.y:1906
 		{
 			yyVAL.str = ""
 		}
-	case 327:
+	case 330:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1896
+//line sqlparser/parser.y:1910
 		{
 			yyVAL.str = " " + string(yyDollar[1].str)
 		}
-	case 328:
+	case 331:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1900
+//line sqlparser/parser.y:1914
 		{
 			yyVAL.str = string(yyDollar[1].str) + ", " + string(yyDollar[3].str)
 		}
-	case 329:
+	case 332:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1908
+//line sqlparser/parser.y:1922
 		{
 			yyVAL.str = yyDollar[1].str
 		}
-	case 330:
+	case 333:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:1912
+//line sqlparser/parser.y:1926
 		{
 			yyVAL.str = yyDollar[1].str + " " + yyDollar[2].str
 		}
-	case 331:
+	case 334:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:1916
+//line sqlparser/parser.y:1930
 		{
 			yyVAL.str = yyDollar[1].str + "=" + yyDollar[3].str
 		}
-	case 332:
+	case 335:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1922
+//line sqlparser/parser.y:1936
 		{
 			yyVAL.str = yyDollar[1].colIdent.String()
 		}
-	case 333:
+	case 336:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1926
+//line sqlparser/parser.y:1940
 		{
 			yyVAL.str = "'" + string(yyDollar[1].bytes) + "'"
 		}
-	case 334:
+	case 337:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:1930
+//line sqlparser/parser.y:1944
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 335:
+	case 338:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:1936
+//line sqlparser/parser.y:1950
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 336:
+	case 339:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line sqlparser/parser.y:1940
+//line sqlparser/parser.y:1954
 		{
 			yyVAL.statement = &DDL{
 				Action:  AddIndexStr,
@@ -5442,9 +5478,9 @@ yydefault:
 				IndexCols: yyDollar[10].indexColumns,
 			}
 		}
-	case 337:
+	case 340:
 		yyDollar = yyS[yypt-13 : yypt+1]
-//line sqlparser/parser.y:1954
+//line sqlparser/parser.y:1968
 		{
 			yyVAL.statement = &DDL{
 				Action:  AddPrimaryKeyStr,
@@ -5458,9 +5494,9 @@ yydefault:
 				IndexCols: yyDollar[12].indexColumns,
 			}
 		}
-	case 338:
+	case 341:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1968
+//line sqlparser/parser.y:1982
 		{
 			yyVAL.statement = &DDL{
 				Action:     AddForeignKeyStr,
@@ -5469,21 +5505,21 @@ yydefault:
 				ForeignKey: yyDollar[7].foreignKeyDefinition,
 			}
 		}
-	case 339:
+	case 342:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1977
+//line sqlparser/parser.y:1991
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 340:
+	case 343:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1981
+//line sqlparser/parser.y:1995
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 341:
+	case 344:
 		yyDollar = yyS[yypt-12 : yypt+1]
-//line sqlparser/parser.y:1985
+//line sqlparser/parser.y:1999
 		{
 			yyVAL.statement = &DDL{
 				Action: AddColVindexStr,
@@ -5496,9 +5532,9 @@ yydefault:
 				VindexCols: yyDollar[9].columns,
 			}
 		}
-	case 342:
+	case 345:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:1998
+//line sqlparser/parser.y:2012
 		{
 			yyVAL.statement = &DDL{
 				Action: DropColVindexStr,
@@ -5508,71 +5544,71 @@ yydefault:
 				},
 			}
 		}
-	case 343:
+	case 346:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2008
+//line sqlparser/parser.y:2022
 		{
 			// Change this to a rename statement
 			yyVAL.statement = &DDL{Action: RenameStr, Table: yyDollar[4].tableName, NewName: yyDollar[7].tableName}
 		}
-	case 344:
+	case 347:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2013
+//line sqlparser/parser.y:2027
 		{
 			// Rename an index can just be an alter
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, NewName: yyDollar[4].tableName}
 		}
-	case 345:
+	case 348:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2018
+//line sqlparser/parser.y:2032
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[3].tableName.ToViewName(), NewName: yyDollar[3].tableName.ToViewName()}
 		}
-	case 346:
+	case 349:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2022
+//line sqlparser/parser.y:2036
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[4].tableName, PartitionSpec: yyDollar[5].partSpec}
 		}
-	case 367:
+	case 370:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2054
+//line sqlparser/parser.y:2068
 		{
 			yyVAL.partSpec = &PartitionSpec{Action: ReorganizeStr, Name: yyDollar[3].colIdent, Definitions: yyDollar[6].partDefs}
 		}
-	case 368:
+	case 371:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2060
+//line sqlparser/parser.y:2074
 		{
 			yyVAL.partDefs = []*PartitionDefinition{yyDollar[1].partDef}
 		}
-	case 369:
+	case 372:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2064
+//line sqlparser/parser.y:2078
 		{
 			yyVAL.partDefs = append(yyDollar[1].partDefs, yyDollar[3].partDef)
 		}
-	case 370:
+	case 373:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:2070
+//line sqlparser/parser.y:2084
 		{
 			yyVAL.partDef = &PartitionDefinition{Name: yyDollar[2].colIdent, Limit: yyDollar[7].expr}
 		}
-	case 371:
+	case 374:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:2074
+//line sqlparser/parser.y:2088
 		{
 			yyVAL.partDef = &PartitionDefinition{Name: yyDollar[2].colIdent, Maxvalue: true}
 		}
-	case 372:
+	case 375:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2080
+//line sqlparser/parser.y:2094
 		{
 			yyVAL.statement = &DDL{Action: RenameStr, Table: yyDollar[3].tableName, NewName: yyDollar[5].tableName}
 		}
-	case 373:
+	case 376:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2086
+//line sqlparser/parser.y:2100
 		{
 			var exists bool
 			if yyDollar[3].byt != 0 {
@@ -5580,16 +5616,16 @@ yydefault:
 			}
 			yyVAL.statement = &DDL{Action: DropStr, Table: yyDollar[4].tableName, IfExists: exists}
 		}
-	case 374:
+	case 377:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2094
+//line sqlparser/parser.y:2108
 		{
 			// Change this to an alter statement
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[5].tableName, NewName: yyDollar[5].tableName}
 		}
-	case 375:
+	case 378:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2099
+//line sqlparser/parser.y:2113
 		{
 			var exists bool
 			if yyDollar[3].byt != 0 {
@@ -5597,123 +5633,123 @@ yydefault:
 			}
 			yyVAL.statement = &DDL{Action: DropStr, Table: yyDollar[4].tableName.ToViewName(), IfExists: exists}
 		}
-	case 376:
+	case 379:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2107
+//line sqlparser/parser.y:2121
 		{
 			yyVAL.statement = &DBDDL{Action: DropStr, DBName: string(yyDollar[4].bytes)}
 		}
-	case 377:
+	case 380:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2111
+//line sqlparser/parser.y:2125
 		{
 			yyVAL.statement = &DBDDL{Action: DropStr, DBName: string(yyDollar[4].bytes)}
 		}
-	case 378:
+	case 381:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2117
+//line sqlparser/parser.y:2131
 		{
 			yyVAL.statement = &DDL{Action: TruncateStr, Table: yyDollar[3].tableName}
 		}
-	case 379:
+	case 382:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2121
+//line sqlparser/parser.y:2135
 		{
 			yyVAL.statement = &DDL{Action: TruncateStr, Table: yyDollar[2].tableName}
 		}
-	case 380:
+	case 383:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2126
+//line sqlparser/parser.y:2140
 		{
 			yyVAL.statement = &DDL{Action: AlterStr, Table: yyDollar[3].tableName, NewName: yyDollar[3].tableName}
 		}
-	case 381:
+	case 384:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2132
+//line sqlparser/parser.y:2146
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 382:
+	case 385:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2136
+//line sqlparser/parser.y:2150
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 383:
+	case 386:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2140
+//line sqlparser/parser.y:2154
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 384:
+	case 387:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2145
+//line sqlparser/parser.y:2159
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 385:
+	case 388:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2149
+//line sqlparser/parser.y:2163
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 386:
+	case 389:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2153
+//line sqlparser/parser.y:2167
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 387:
+	case 390:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2157
+//line sqlparser/parser.y:2171
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 388:
+	case 391:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2161
+//line sqlparser/parser.y:2175
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes) + " " + string(yyDollar[3].bytes)}
 		}
-	case 389:
+	case 392:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2165
+//line sqlparser/parser.y:2179
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 390:
+	case 393:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2169
+//line sqlparser/parser.y:2183
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 391:
+	case 394:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2173
+//line sqlparser/parser.y:2187
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 392:
+	case 395:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2177
+//line sqlparser/parser.y:2191
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 393:
+	case 396:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2181
+//line sqlparser/parser.y:2195
 		{
 			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
 		}
-	case 394:
+	case 397:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2185
+//line sqlparser/parser.y:2199
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 395:
+	case 398:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2189
+//line sqlparser/parser.y:2203
 		{
 			// this is ugly, but I couldn't find a better way for now
 			if yyDollar[4].str == "processlist" {
@@ -5723,604 +5759,604 @@ yydefault:
 				yyVAL.statement = &Show{Type: yyDollar[4].str, ShowTablesOpt: showTablesOpt}
 			}
 		}
-	case 396:
+	case 399:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2199
+//line sqlparser/parser.y:2213
 		{
 			yyVAL.statement = &Show{Scope: yyDollar[2].str, Type: string(yyDollar[3].bytes)}
 		}
-	case 397:
+	case 400:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2203
+//line sqlparser/parser.y:2217
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 398:
+	case 401:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2207
+//line sqlparser/parser.y:2221
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes), OnTable: yyDollar[4].tableName}
 		}
-	case 399:
+	case 402:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2211
+//line sqlparser/parser.y:2225
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 400:
+	case 403:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2215
+//line sqlparser/parser.y:2229
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 401:
+	case 404:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2219
+//line sqlparser/parser.y:2233
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 402:
+	case 405:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2223
+//line sqlparser/parser.y:2237
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 403:
+	case 406:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2233
+//line sqlparser/parser.y:2247
 		{
 			yyVAL.statement = &Show{Type: string(yyDollar[2].bytes)}
 		}
-	case 404:
+	case 407:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2239
+//line sqlparser/parser.y:2253
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 405:
+	case 408:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2243
+//line sqlparser/parser.y:2257
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 406:
+	case 409:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2249
+//line sqlparser/parser.y:2263
 		{
 			yyVAL.str = ""
 		}
-	case 407:
+	case 410:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2253
+//line sqlparser/parser.y:2267
 		{
 			yyVAL.str = "extended "
 		}
-	case 408:
+	case 411:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2259
+//line sqlparser/parser.y:2273
 		{
 			yyVAL.str = ""
 		}
-	case 409:
+	case 412:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2263
+//line sqlparser/parser.y:2277
 		{
 			yyVAL.str = "full "
 		}
-	case 410:
+	case 413:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2269
+//line sqlparser/parser.y:2283
 		{
 			yyVAL.str = ""
 		}
-	case 411:
+	case 414:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2273
+//line sqlparser/parser.y:2287
 		{
 			yyVAL.str = yyDollar[2].tableIdent.v
 		}
-	case 412:
+	case 415:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2277
+//line sqlparser/parser.y:2291
 		{
 			yyVAL.str = yyDollar[2].tableIdent.v
 		}
-	case 413:
+	case 416:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2283
+//line sqlparser/parser.y:2297
 		{
 			yyVAL.showFilter = nil
 		}
-	case 414:
+	case 417:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2287
+//line sqlparser/parser.y:2301
 		{
 			yyVAL.showFilter = &ShowFilter{Like: string(yyDollar[2].bytes)}
 		}
-	case 415:
+	case 418:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2291
+//line sqlparser/parser.y:2305
 		{
 			yyVAL.showFilter = &ShowFilter{Filter: yyDollar[2].expr}
 		}
-	case 416:
+	case 419:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2297
+//line sqlparser/parser.y:2311
 		{
 			yyVAL.str = ""
 		}
-	case 417:
+	case 420:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2301
+//line sqlparser/parser.y:2315
 		{
 			yyVAL.str = SessionStr
 		}
-	case 418:
+	case 421:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2305
+//line sqlparser/parser.y:2319
 		{
 			yyVAL.str = GlobalStr
 		}
-	case 419:
+	case 422:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2311
+//line sqlparser/parser.y:2325
 		{
 			yyVAL.statement = &Use{DBName: yyDollar[2].tableIdent}
 		}
-	case 420:
+	case 423:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2315
+//line sqlparser/parser.y:2329
 		{
 			yyVAL.statement = &Use{DBName: TableIdent{v: ""}}
 		}
-	case 421:
+	case 424:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2321
+//line sqlparser/parser.y:2335
 		{
 			yyVAL.statement = &Begin{}
 		}
-	case 422:
+	case 425:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2325
+//line sqlparser/parser.y:2339
 		{
 			yyVAL.statement = &Begin{}
 		}
-	case 423:
+	case 426:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2331
+//line sqlparser/parser.y:2345
 		{
 			yyVAL.statement = &Commit{}
 		}
-	case 424:
+	case 427:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2337
+//line sqlparser/parser.y:2351
 		{
 			yyVAL.statement = &Rollback{}
 		}
-	case 425:
+	case 428:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2343
+//line sqlparser/parser.y:2357
 		{
 			yyVAL.statement = &OtherRead{}
 		}
-	case 426:
+	case 429:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2347
+//line sqlparser/parser.y:2361
 		{
 			yyVAL.statement = &OtherRead{}
 		}
-	case 427:
+	case 430:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2351
+//line sqlparser/parser.y:2365
 		{
 			yyVAL.statement = &OtherRead{}
 		}
-	case 428:
+	case 431:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2355
+//line sqlparser/parser.y:2369
 		{
 			yyVAL.statement = &OtherAdmin{}
 		}
-	case 429:
+	case 432:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2359
+//line sqlparser/parser.y:2373
 		{
 			yyVAL.statement = &OtherAdmin{}
 		}
-	case 430:
+	case 433:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2364
+//line sqlparser/parser.y:2378
 		{
 			setAllowComments(yylex, true)
 		}
-	case 431:
+	case 434:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2368
+//line sqlparser/parser.y:2382
 		{
 			yyVAL.bytes2 = yyDollar[2].bytes2
 			setAllowComments(yylex, false)
 		}
-	case 432:
+	case 435:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2374
+//line sqlparser/parser.y:2388
 		{
 			yyVAL.bytes2 = nil
 		}
-	case 433:
+	case 436:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2378
+//line sqlparser/parser.y:2392
 		{
 			yyVAL.bytes2 = append(yyDollar[1].bytes2, yyDollar[2].bytes)
 		}
-	case 434:
+	case 437:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2384
+//line sqlparser/parser.y:2398
 		{
 			yyVAL.str = UnionStr
 		}
-	case 435:
+	case 438:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2388
+//line sqlparser/parser.y:2402
 		{
 			yyVAL.str = UnionAllStr
 		}
-	case 436:
+	case 439:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2392
+//line sqlparser/parser.y:2406
 		{
 			yyVAL.str = UnionDistinctStr
 		}
-	case 437:
+	case 440:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2397
+//line sqlparser/parser.y:2411
 		{
 			yyVAL.str = ""
 		}
-	case 438:
+	case 441:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2401
+//line sqlparser/parser.y:2415
 		{
 			yyVAL.str = SQLNoCacheStr
 		}
-	case 439:
+	case 442:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2405
+//line sqlparser/parser.y:2419
 		{
 			yyVAL.str = SQLCacheStr
 		}
-	case 440:
+	case 443:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2410
+//line sqlparser/parser.y:2424
 		{
 			yyVAL.str = ""
 		}
-	case 441:
+	case 444:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2414
+//line sqlparser/parser.y:2428
 		{
 			yyVAL.str = DistinctStr
 		}
-	case 442:
+	case 445:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2419
+//line sqlparser/parser.y:2433
 		{
 			yyVAL.str = ""
 		}
-	case 443:
+	case 446:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2423
+//line sqlparser/parser.y:2437
 		{
 			yyVAL.str = StraightJoinHint
 		}
-	case 444:
+	case 447:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2428
+//line sqlparser/parser.y:2442
 		{
 			yyVAL.selectExprs = nil
 		}
-	case 445:
+	case 448:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2432
+//line sqlparser/parser.y:2446
 		{
 			yyVAL.selectExprs = yyDollar[1].selectExprs
 		}
-	case 446:
+	case 449:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2438
+//line sqlparser/parser.y:2452
 		{
 			yyVAL.selectExprs = SelectExprs{yyDollar[1].selectExpr}
 		}
-	case 447:
+	case 450:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2442
+//line sqlparser/parser.y:2456
 		{
 			yyVAL.selectExprs = append(yyVAL.selectExprs, yyDollar[3].selectExpr)
 		}
-	case 448:
+	case 451:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2448
+//line sqlparser/parser.y:2462
 		{
 			yyVAL.selectExpr = &StarExpr{}
 		}
-	case 449:
+	case 452:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2452
+//line sqlparser/parser.y:2466
 		{
 			yyVAL.selectExpr = &AliasedExpr{Expr: yyDollar[1].expr, As: yyDollar[2].colIdent}
 		}
-	case 450:
+	case 453:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2456
+//line sqlparser/parser.y:2470
 		{
 			yyVAL.selectExpr = &StarExpr{TableName: TableName{Name: yyDollar[1].tableIdent}}
 		}
-	case 451:
+	case 454:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2460
+//line sqlparser/parser.y:2474
 		{
 			yyVAL.selectExpr = &StarExpr{TableName: TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}}
 		}
-	case 452:
+	case 455:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2465
+//line sqlparser/parser.y:2479
 		{
 			yyVAL.colIdent = ColIdent{}
 		}
-	case 453:
+	case 456:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2469
+//line sqlparser/parser.y:2483
 		{
 			yyVAL.colIdent = yyDollar[1].colIdent
 		}
-	case 454:
+	case 457:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2473
+//line sqlparser/parser.y:2487
 		{
 			yyVAL.colIdent = yyDollar[2].colIdent
 		}
-	case 456:
+	case 459:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2480
+//line sqlparser/parser.y:2494
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
-	case 457:
+	case 460:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2485
+//line sqlparser/parser.y:2499
 		{
 			yyVAL.tableExprs = TableExprs{&AliasedTableExpr{Expr: TableName{Name: NewTableIdent("dual")}}}
 		}
-	case 458:
+	case 461:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2489
+//line sqlparser/parser.y:2503
 		{
 			yyVAL.tableExprs = yyDollar[2].tableExprs
 		}
-	case 459:
+	case 462:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2495
+//line sqlparser/parser.y:2509
 		{
 			yyVAL.tableExprs = TableExprs{yyDollar[1].tableExpr}
 		}
-	case 460:
+	case 463:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2499
+//line sqlparser/parser.y:2513
 		{
 			yyVAL.tableExprs = append(yyVAL.tableExprs, yyDollar[3].tableExpr)
 		}
-	case 463:
+	case 466:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2509
+//line sqlparser/parser.y:2523
 		{
 			yyVAL.tableExpr = yyDollar[1].aliasedTableName
 		}
-	case 464:
+	case 467:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2513
+//line sqlparser/parser.y:2527
 		{
 			yyVAL.tableExpr = &AliasedTableExpr{Expr: yyDollar[1].subquery, As: yyDollar[3].tableIdent}
 		}
-	case 465:
+	case 468:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2517
+//line sqlparser/parser.y:2531
 		{
 			yyVAL.tableExpr = &ParenTableExpr{Exprs: yyDollar[2].tableExprs}
 		}
-	case 466:
+	case 469:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2523
+//line sqlparser/parser.y:2537
 		{
 			yyVAL.aliasedTableName = &AliasedTableExpr{Expr: yyDollar[1].tableName, As: yyDollar[2].tableIdent, Hints: yyDollar[3].indexHints}
 		}
-	case 467:
+	case 470:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:2527
+//line sqlparser/parser.y:2541
 		{
 			yyVAL.aliasedTableName = &AliasedTableExpr{Expr: yyDollar[1].tableName, Partitions: yyDollar[4].partitions, As: yyDollar[6].tableIdent, Hints: yyDollar[7].indexHints}
 		}
-	case 468:
+	case 471:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2533
+//line sqlparser/parser.y:2547
 		{
 			yyVAL.columns = Columns{yyDollar[1].colIdent}
 		}
-	case 469:
+	case 472:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2538
+//line sqlparser/parser.y:2552
 		{
 			yyVAL.columns = Columns{NewColIdent(string(yyDollar[1].bytes))}
 		}
-	case 470:
+	case 473:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2542
+//line sqlparser/parser.y:2556
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[3].colIdent)
 		}
-	case 471:
+	case 474:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2548
+//line sqlparser/parser.y:2562
 		{
 			yyVAL.partitions = Partitions{yyDollar[1].colIdent}
 		}
-	case 472:
+	case 475:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2552
+//line sqlparser/parser.y:2566
 		{
 			yyVAL.partitions = append(yyVAL.partitions, yyDollar[3].colIdent)
 		}
-	case 473:
+	case 476:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2565
+//line sqlparser/parser.y:2579
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 474:
+	case 477:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2569
+//line sqlparser/parser.y:2583
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 475:
+	case 478:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2573
+//line sqlparser/parser.y:2587
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr, Condition: yyDollar[4].joinCondition}
 		}
-	case 476:
+	case 479:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2577
+//line sqlparser/parser.y:2591
 		{
 			yyVAL.tableExpr = &JoinTableExpr{LeftExpr: yyDollar[1].tableExpr, Join: yyDollar[2].str, RightExpr: yyDollar[3].tableExpr}
 		}
-	case 477:
+	case 480:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2583
+//line sqlparser/parser.y:2597
 		{
 			yyVAL.joinCondition = JoinCondition{On: yyDollar[2].expr}
 		}
-	case 478:
+	case 481:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2585
+//line sqlparser/parser.y:2599
 		{
 			yyVAL.joinCondition = JoinCondition{Using: yyDollar[3].columns}
 		}
-	case 479:
+	case 482:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2589
+//line sqlparser/parser.y:2603
 		{
 			yyVAL.joinCondition = JoinCondition{}
 		}
-	case 480:
+	case 483:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2591
+//line sqlparser/parser.y:2605
 		{
 			yyVAL.joinCondition = yyDollar[1].joinCondition
 		}
-	case 481:
+	case 484:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2595
+//line sqlparser/parser.y:2609
 		{
 			yyVAL.joinCondition = JoinCondition{}
 		}
-	case 482:
+	case 485:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2597
+//line sqlparser/parser.y:2611
 		{
 			yyVAL.joinCondition = JoinCondition{On: yyDollar[2].expr}
 		}
-	case 483:
+	case 486:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2600
+//line sqlparser/parser.y:2614
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 484:
+	case 487:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2602
+//line sqlparser/parser.y:2616
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 485:
+	case 488:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2605
+//line sqlparser/parser.y:2619
 		{
 			yyVAL.tableIdent = NewTableIdent("")
 		}
-	case 486:
+	case 489:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2609
+//line sqlparser/parser.y:2623
 		{
 			yyVAL.tableIdent = yyDollar[1].tableIdent
 		}
-	case 487:
+	case 490:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2613
+//line sqlparser/parser.y:2627
 		{
 			yyVAL.tableIdent = yyDollar[2].tableIdent
 		}
-	case 489:
+	case 492:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2620
+//line sqlparser/parser.y:2634
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 490:
+	case 493:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2626
+//line sqlparser/parser.y:2640
 		{
 			yyVAL.str = JoinStr
 		}
-	case 491:
+	case 494:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2630
+//line sqlparser/parser.y:2644
 		{
 			yyVAL.str = JoinStr
 		}
-	case 492:
+	case 495:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2634
+//line sqlparser/parser.y:2648
 		{
 			yyVAL.str = JoinStr
 		}
-	case 493:
+	case 496:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2640
+//line sqlparser/parser.y:2654
 		{
 			yyVAL.str = StraightJoinStr
 		}
-	case 494:
+	case 497:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2646
+//line sqlparser/parser.y:2660
 		{
 			yyVAL.str = LeftJoinStr
 		}
-	case 495:
+	case 498:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2650
+//line sqlparser/parser.y:2664
 		{
 			yyVAL.str = LeftJoinStr
 		}
-	case 496:
+	case 499:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2654
+//line sqlparser/parser.y:2668
 		{
 			yyVAL.str = RightJoinStr
 		}
-	case 497:
+	case 500:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2658
+//line sqlparser/parser.y:2672
 		{
 			yyVAL.str = RightJoinStr
 		}
-	case 498:
+	case 501:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2664
+//line sqlparser/parser.y:2678
 		{
 			yyVAL.str = NaturalJoinStr
 		}
-	case 499:
+	case 502:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2668
+//line sqlparser/parser.y:2682
 		{
 			if yyDollar[2].str == LeftJoinStr {
 				yyVAL.str = NaturalLeftJoinStr
@@ -6328,465 +6364,465 @@ yydefault:
 				yyVAL.str = NaturalRightJoinStr
 			}
 		}
-	case 500:
+	case 503:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2678
+//line sqlparser/parser.y:2692
 		{
 			yyVAL.tableName = yyDollar[2].tableName
 		}
-	case 501:
+	case 504:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2682
+//line sqlparser/parser.y:2696
 		{
 			yyVAL.tableName = yyDollar[1].tableName
 		}
-	case 502:
+	case 505:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2688
+//line sqlparser/parser.y:2702
 		{
 			yyVAL.tableName = TableName{Name: yyDollar[1].tableIdent}
 		}
-	case 503:
+	case 506:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2692
+//line sqlparser/parser.y:2706
 		{
 			yyVAL.tableName = TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}
 		}
-	case 504:
+	case 507:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2697
+//line sqlparser/parser.y:2711
 		{
 			yyVAL.indexHints = nil
 		}
-	case 505:
+	case 508:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2701
+//line sqlparser/parser.y:2715
 		{
 			yyVAL.indexHints = &IndexHints{Type: UseStr, Indexes: yyDollar[4].columns}
 		}
-	case 506:
+	case 509:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2705
+//line sqlparser/parser.y:2719
 		{
 			yyVAL.indexHints = &IndexHints{Type: IgnoreStr, Indexes: yyDollar[4].columns}
 		}
-	case 507:
+	case 510:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2709
+//line sqlparser/parser.y:2723
 		{
 			yyVAL.indexHints = &IndexHints{Type: ForceStr, Indexes: yyDollar[4].columns}
 		}
-	case 508:
+	case 511:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2714
+//line sqlparser/parser.y:2728
 		{
 			yyVAL.expr = nil
 		}
-	case 509:
+	case 512:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2718
+//line sqlparser/parser.y:2732
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 510:
+	case 513:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2723
+//line sqlparser/parser.y:2737
 		{
 			yyVAL.columns = nil
 		}
-	case 511:
+	case 514:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2727
+//line sqlparser/parser.y:2741
 		{
 			yyVAL.columns = yyDollar[3].columns
 		}
-	case 512:
+	case 515:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2733
+//line sqlparser/parser.y:2747
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 513:
+	case 516:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2737
+//line sqlparser/parser.y:2751
 		{
 			yyVAL.expr = &AndExpr{Left: yyDollar[1].expr, Right: yyDollar[3].expr}
 		}
-	case 514:
+	case 517:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2741
+//line sqlparser/parser.y:2755
 		{
 			yyVAL.expr = &OrExpr{Left: yyDollar[1].expr, Right: yyDollar[3].expr}
 		}
-	case 515:
+	case 518:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2745
+//line sqlparser/parser.y:2759
 		{
 			yyVAL.expr = &NotExpr{Expr: yyDollar[2].expr}
 		}
-	case 516:
+	case 519:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2749
+//line sqlparser/parser.y:2763
 		{
 			yyVAL.expr = &IsExpr{Operator: yyDollar[3].str, Expr: yyDollar[1].expr}
 		}
-	case 517:
+	case 520:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2753
+//line sqlparser/parser.y:2767
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 518:
+	case 521:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2757
+//line sqlparser/parser.y:2771
 		{
 			yyVAL.expr = &Default{ColName: yyDollar[2].str}
 		}
-	case 519:
+	case 522:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2763
+//line sqlparser/parser.y:2777
 		{
 			yyVAL.str = ""
 		}
-	case 520:
+	case 523:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2767
+//line sqlparser/parser.y:2781
 		{
 			yyVAL.str = string(yyDollar[2].bytes)
 		}
-	case 521:
+	case 524:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2773
+//line sqlparser/parser.y:2787
 		{
 			yyVAL.boolVal = BoolVal(true)
 		}
-	case 522:
+	case 525:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2777
+//line sqlparser/parser.y:2791
 		{
 			yyVAL.boolVal = BoolVal(false)
 		}
-	case 523:
+	case 526:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2783
+//line sqlparser/parser.y:2797
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: yyDollar[2].str, Right: yyDollar[3].expr}
 		}
-	case 524:
+	case 527:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2787
+//line sqlparser/parser.y:2801
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: InStr, Right: yyDollar[3].colTuple}
 		}
-	case 525:
+	case 528:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2791
+//line sqlparser/parser.y:2805
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotInStr, Right: yyDollar[4].colTuple}
 		}
-	case 526:
+	case 529:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2795
+//line sqlparser/parser.y:2809
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: LikeStr, Right: yyDollar[3].expr, Escape: yyDollar[4].expr}
 		}
-	case 527:
+	case 530:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2799
+//line sqlparser/parser.y:2813
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotLikeStr, Right: yyDollar[4].expr, Escape: yyDollar[5].expr}
 		}
-	case 528:
+	case 531:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2803
+//line sqlparser/parser.y:2817
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: RegexpStr, Right: yyDollar[3].expr}
 		}
-	case 529:
+	case 532:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:2807
+//line sqlparser/parser.y:2821
 		{
 			yyVAL.expr = &ComparisonExpr{Left: yyDollar[1].expr, Operator: NotRegexpStr, Right: yyDollar[4].expr}
 		}
-	case 530:
+	case 533:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:2811
+//line sqlparser/parser.y:2825
 		{
 			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: BetweenStr, From: yyDollar[3].expr, To: yyDollar[5].expr}
 		}
-	case 531:
+	case 534:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:2815
+//line sqlparser/parser.y:2829
 		{
 			yyVAL.expr = &RangeCond{Left: yyDollar[1].expr, Operator: NotBetweenStr, From: yyDollar[4].expr, To: yyDollar[6].expr}
 		}
-	case 532:
+	case 535:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2819
+//line sqlparser/parser.y:2833
 		{
 			yyVAL.expr = &ExistsExpr{Subquery: yyDollar[2].subquery}
 		}
-	case 533:
+	case 536:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2825
+//line sqlparser/parser.y:2839
 		{
 			yyVAL.str = IsNullStr
 		}
-	case 534:
+	case 537:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2829
+//line sqlparser/parser.y:2843
 		{
 			yyVAL.str = IsNotNullStr
 		}
-	case 535:
+	case 538:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2833
+//line sqlparser/parser.y:2847
 		{
 			yyVAL.str = IsTrueStr
 		}
-	case 536:
+	case 539:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2837
+//line sqlparser/parser.y:2851
 		{
 			yyVAL.str = IsNotTrueStr
 		}
-	case 537:
+	case 540:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2841
+//line sqlparser/parser.y:2855
 		{
 			yyVAL.str = IsFalseStr
 		}
-	case 538:
+	case 541:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2845
+//line sqlparser/parser.y:2859
 		{
 			yyVAL.str = IsNotFalseStr
 		}
-	case 539:
+	case 542:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2851
+//line sqlparser/parser.y:2865
 		{
 			yyVAL.str = EqualStr
 		}
-	case 540:
+	case 543:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2855
+//line sqlparser/parser.y:2869
 		{
 			yyVAL.str = LessThanStr
 		}
-	case 541:
+	case 544:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2859
+//line sqlparser/parser.y:2873
 		{
 			yyVAL.str = GreaterThanStr
 		}
-	case 542:
+	case 545:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2863
+//line sqlparser/parser.y:2877
 		{
 			yyVAL.str = LessEqualStr
 		}
-	case 543:
+	case 546:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2867
+//line sqlparser/parser.y:2881
 		{
 			yyVAL.str = GreaterEqualStr
 		}
-	case 544:
+	case 547:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2871
+//line sqlparser/parser.y:2885
 		{
 			yyVAL.str = NotEqualStr
 		}
-	case 545:
+	case 548:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2875
+//line sqlparser/parser.y:2889
 		{
 			yyVAL.str = NullSafeEqualStr
 		}
-	case 546:
+	case 549:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:2880
+//line sqlparser/parser.y:2894
 		{
 			yyVAL.expr = nil
 		}
-	case 547:
+	case 550:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:2884
+//line sqlparser/parser.y:2898
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 548:
+	case 551:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2890
+//line sqlparser/parser.y:2904
 		{
 			yyVAL.colTuple = yyDollar[1].valTuple
 		}
-	case 549:
+	case 552:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2894
+//line sqlparser/parser.y:2908
 		{
 			yyVAL.colTuple = yyDollar[1].subquery
 		}
-	case 550:
+	case 553:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2898
+//line sqlparser/parser.y:2912
 		{
 			yyVAL.colTuple = ListArg(yyDollar[1].bytes)
 		}
-	case 551:
+	case 554:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2904
+//line sqlparser/parser.y:2918
 		{
 			yyVAL.subquery = &Subquery{yyDollar[2].selStmt}
 		}
-	case 552:
+	case 555:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2910
+//line sqlparser/parser.y:2924
 		{
 			yyVAL.exprs = Exprs{yyDollar[1].expr}
 		}
-	case 553:
+	case 556:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2914
+//line sqlparser/parser.y:2928
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
-	case 554:
+	case 557:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2920
+//line sqlparser/parser.y:2934
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 555:
+	case 558:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2924
+//line sqlparser/parser.y:2938
 		{
 			yyVAL.expr = yyDollar[1].boolVal
 		}
-	case 556:
+	case 559:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2928
+//line sqlparser/parser.y:2942
 		{
 			yyVAL.expr = yyDollar[1].colName
 		}
-	case 557:
+	case 560:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2932
+//line sqlparser/parser.y:2946
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 558:
+	case 561:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:2936
+//line sqlparser/parser.y:2950
 		{
 			yyVAL.expr = yyDollar[1].subquery
 		}
-	case 559:
+	case 562:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2940
+//line sqlparser/parser.y:2954
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitAndStr, Right: yyDollar[3].expr}
 		}
-	case 560:
+	case 563:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2944
+//line sqlparser/parser.y:2958
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitOrStr, Right: yyDollar[3].expr}
 		}
-	case 561:
+	case 564:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2948
+//line sqlparser/parser.y:2962
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: BitXorStr, Right: yyDollar[3].expr}
 		}
-	case 562:
+	case 565:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2952
+//line sqlparser/parser.y:2966
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: PlusStr, Right: yyDollar[3].expr}
 		}
-	case 563:
+	case 566:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2956
+//line sqlparser/parser.y:2970
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MinusStr, Right: yyDollar[3].expr}
 		}
-	case 564:
+	case 567:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2960
+//line sqlparser/parser.y:2974
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: MultStr, Right: yyDollar[3].expr}
 		}
-	case 565:
+	case 568:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2964
+//line sqlparser/parser.y:2978
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: DivStr, Right: yyDollar[3].expr}
 		}
-	case 566:
+	case 569:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2968
+//line sqlparser/parser.y:2982
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: IntDivStr, Right: yyDollar[3].expr}
 		}
-	case 567:
+	case 570:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2972
+//line sqlparser/parser.y:2986
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ModStr, Right: yyDollar[3].expr}
 		}
-	case 568:
+	case 571:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2976
+//line sqlparser/parser.y:2990
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ModStr, Right: yyDollar[3].expr}
 		}
-	case 569:
+	case 572:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2980
+//line sqlparser/parser.y:2994
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftLeftStr, Right: yyDollar[3].expr}
 		}
-	case 570:
+	case 573:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2984
+//line sqlparser/parser.y:2998
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].expr, Operator: ShiftRightStr, Right: yyDollar[3].expr}
 		}
-	case 571:
+	case 574:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2988
+//line sqlparser/parser.y:3002
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONExtractOp, Right: yyDollar[3].expr}
 		}
-	case 572:
+	case 575:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2992
+//line sqlparser/parser.y:3006
 		{
 			yyVAL.expr = &BinaryExpr{Left: yyDollar[1].colName, Operator: JSONUnquoteExtractOp, Right: yyDollar[3].expr}
 		}
-	case 573:
+	case 576:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:2996
+//line sqlparser/parser.y:3010
 		{
 			yyVAL.expr = &CollateExpr{Expr: yyDollar[1].expr, Charset: yyDollar[3].str}
 		}
-	case 574:
+	case 577:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3000
+//line sqlparser/parser.y:3014
 		{
 			yyVAL.expr = &UnaryExpr{Operator: BinaryStr, Expr: yyDollar[2].expr}
 		}
-	case 575:
+	case 578:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3004
+//line sqlparser/parser.y:3018
 		{
 			yyVAL.expr = &UnaryExpr{Operator: UBinaryStr, Expr: yyDollar[2].expr}
 		}
-	case 576:
+	case 579:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3008
+//line sqlparser/parser.y:3022
 		{
 			if num, ok := yyDollar[2].expr.(*SQLVal); ok && num.Type == IntVal {
 				yyVAL.expr = num
@@ -6794,9 +6830,9 @@ yydefault:
 				yyVAL.expr = &UnaryExpr{Operator: UPlusStr, Expr: yyDollar[2].expr}
 			}
 		}
-	case 577:
+	case 580:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3016
+//line sqlparser/parser.y:3030
 		{
 			if num, ok := yyDollar[2].expr.(*SQLVal); ok && num.Type == IntVal {
 				// Handle double negative
@@ -6810,21 +6846,21 @@ yydefault:
 				yyVAL.expr = &UnaryExpr{Operator: UMinusStr, Expr: yyDollar[2].expr}
 			}
 		}
-	case 578:
+	case 581:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3030
+//line sqlparser/parser.y:3044
 		{
 			yyVAL.expr = &UnaryExpr{Operator: TildaStr, Expr: yyDollar[2].expr}
 		}
-	case 579:
+	case 582:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3034
+//line sqlparser/parser.y:3048
 		{
 			yyVAL.expr = &UnaryExpr{Operator: BangStr, Expr: yyDollar[2].expr}
 		}
-	case 580:
+	case 583:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3038
+//line sqlparser/parser.y:3052
 		{
 			// This rule prevents the usage of INTERVAL
 			// as a function. If support is needed for that,
@@ -6832,492 +6868,492 @@ yydefault:
 			// will be non-trivial because of grammar conflicts.
 			yyVAL.expr = &IntervalExpr{Expr: yyDollar[2].expr, Unit: yyDollar[3].colIdent.String()}
 		}
-	case 581:
+	case 584:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3046
+//line sqlparser/parser.y:3060
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[1].expr, Type: yyDollar[3].convertType, Typecast: true}
 		}
-	case 586:
+	case 589:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3060
+//line sqlparser/parser.y:3074
 		{
 			yyVAL.expr = &FuncExpr{Name: yyDollar[1].colIdent, Exprs: yyDollar[3].selectExprs}
 		}
-	case 587:
+	case 590:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3064
+//line sqlparser/parser.y:3078
 		{
 			yyVAL.expr = &FuncExpr{Name: yyDollar[1].colIdent, Distinct: true, Exprs: yyDollar[4].selectExprs}
 		}
-	case 588:
+	case 591:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3068
+//line sqlparser/parser.y:3082
 		{
 			yyVAL.expr = &FuncExpr{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].colIdent, Exprs: yyDollar[5].selectExprs}
 		}
-	case 589:
+	case 592:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3078
+//line sqlparser/parser.y:3092
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("left"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 590:
+	case 593:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3082
+//line sqlparser/parser.y:3096
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("right"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 591:
+	case 594:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3086
+//line sqlparser/parser.y:3100
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].convertType}
 		}
-	case 592:
+	case 595:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3090
+//line sqlparser/parser.y:3104
 		{
 			yyVAL.expr = &ConvertExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].convertType}
 		}
-	case 593:
+	case 596:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3094
+//line sqlparser/parser.y:3108
 		{
 			yyVAL.expr = &ConvertUsingExpr{Expr: yyDollar[3].expr, Type: yyDollar[5].str}
 		}
-	case 594:
+	case 597:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3098
+//line sqlparser/parser.y:3112
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
 		}
-	case 595:
+	case 598:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3102
+//line sqlparser/parser.y:3116
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 596:
+	case 599:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3106
+//line sqlparser/parser.y:3120
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 597:
+	case 600:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3110
+//line sqlparser/parser.y:3124
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: nil}
 		}
-	case 598:
+	case 601:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3114
+//line sqlparser/parser.y:3128
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 599:
+	case 602:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line sqlparser/parser.y:3118
+//line sqlparser/parser.y:3132
 		{
 			yyVAL.expr = &SubstrExpr{Name: yyDollar[3].colName, From: yyDollar[5].expr, To: yyDollar[7].expr}
 		}
-	case 600:
+	case 603:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line sqlparser/parser.y:3122
+//line sqlparser/parser.y:3136
 		{
 			yyVAL.expr = &MatchExpr{Columns: yyDollar[3].selectExprs, Expr: yyDollar[7].expr, Option: yyDollar[8].str}
 		}
-	case 601:
+	case 604:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:3126
+//line sqlparser/parser.y:3140
 		{
 			yyVAL.expr = &GroupConcatExpr{Distinct: yyDollar[3].str, Exprs: yyDollar[4].selectExprs, OrderBy: yyDollar[5].orderBy, Separator: yyDollar[6].str}
 		}
-	case 602:
+	case 605:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3130
+//line sqlparser/parser.y:3144
 		{
 			yyVAL.expr = &CaseExpr{Expr: yyDollar[2].expr, Whens: yyDollar[3].whens, Else: yyDollar[4].expr}
 		}
-	case 603:
+	case 606:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3134
+//line sqlparser/parser.y:3148
 		{
 			yyVAL.expr = &ValuesFuncExpr{Name: yyDollar[3].colName}
 		}
-	case 604:
+	case 607:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3144
+//line sqlparser/parser.y:3158
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_timestamp")}
 		}
-	case 605:
+	case 608:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3148
+//line sqlparser/parser.y:3162
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_timestamp")}
 		}
-	case 606:
+	case 609:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3152
+//line sqlparser/parser.y:3166
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_time")}
 		}
-	case 607:
+	case 610:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3156
+//line sqlparser/parser.y:3170
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("utc_date")}
 		}
-	case 608:
+	case 611:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3161
+//line sqlparser/parser.y:3175
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtime")}
 		}
-	case 609:
+	case 612:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3166
+//line sqlparser/parser.y:3180
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("localtimestamp")}
 		}
-	case 610:
+	case 613:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3171
+//line sqlparser/parser.y:3185
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_date")}
 		}
-	case 611:
+	case 614:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3176
+//line sqlparser/parser.y:3190
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("current_time")}
 		}
-	case 612:
+	case 615:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3180
+//line sqlparser/parser.y:3194
 		{
 			yylex.Error("nothing to cast to " + yyDollar[2].convertType.Type)
 			return 1
 		}
-	case 615:
+	case 618:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3194
+//line sqlparser/parser.y:3208
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("if"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 616:
+	case 619:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3198
+//line sqlparser/parser.y:3212
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("database"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 617:
+	case 620:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3202
+//line sqlparser/parser.y:3216
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("mod"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 618:
+	case 621:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3206
+//line sqlparser/parser.y:3220
 		{
 			yyVAL.expr = &FuncExpr{Name: NewColIdent("replace"), Exprs: yyDollar[3].selectExprs}
 		}
-	case 619:
+	case 622:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3212
+//line sqlparser/parser.y:3226
 		{
 			yyVAL.str = ""
 		}
-	case 620:
+	case 623:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3216
+//line sqlparser/parser.y:3230
 		{
 			yyVAL.str = BooleanModeStr
 		}
-	case 621:
+	case 624:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3220
+//line sqlparser/parser.y:3234
 		{
 			yyVAL.str = NaturalLanguageModeStr
 		}
-	case 622:
+	case 625:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line sqlparser/parser.y:3224
+//line sqlparser/parser.y:3238
 		{
 			yyVAL.str = NaturalLanguageModeWithQueryExpansionStr
 		}
-	case 623:
+	case 626:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3228
+//line sqlparser/parser.y:3242
 		{
 			yyVAL.str = QueryExpansionStr
 		}
-	case 624:
+	case 627:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3234
+//line sqlparser/parser.y:3248
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 625:
+	case 628:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3238
+//line sqlparser/parser.y:3252
 		{
 			yyVAL.str = string(yyDollar[1].bytes)
 		}
-	case 626:
+	case 629:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3244
+//line sqlparser/parser.y:3258
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 627:
+	case 630:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3248
+//line sqlparser/parser.y:3262
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: yyDollar[3].str, Operator: CharacterSetStr}
 		}
-	case 628:
+	case 631:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3252
+//line sqlparser/parser.y:3266
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal, Charset: string(yyDollar[3].bytes)}
 		}
-	case 629:
+	case 632:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3256
+//line sqlparser/parser.y:3270
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 630:
+	case 633:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3260
+//line sqlparser/parser.y:3274
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 631:
+	case 634:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3264
+//line sqlparser/parser.y:3278
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 			yyVAL.convertType.Length = yyDollar[2].LengthScaleOption.Length
 			yyVAL.convertType.Scale = yyDollar[2].LengthScaleOption.Scale
 		}
-	case 632:
+	case 635:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3270
+//line sqlparser/parser.y:3284
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 633:
+	case 636:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3274
+//line sqlparser/parser.y:3288
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 634:
+	case 637:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3278
+//line sqlparser/parser.y:3292
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 635:
+	case 638:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3282
+//line sqlparser/parser.y:3296
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 636:
+	case 639:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3286
+//line sqlparser/parser.y:3300
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 637:
+	case 640:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3290
+//line sqlparser/parser.y:3304
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes), Length: yyDollar[2].optVal}
 		}
-	case 638:
+	case 641:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3294
+//line sqlparser/parser.y:3308
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 639:
+	case 642:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3298
+//line sqlparser/parser.y:3312
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 640:
+	case 643:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3304
+//line sqlparser/parser.y:3318
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 641:
+	case 644:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3308
+//line sqlparser/parser.y:3322
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes) + " " + string(yyDollar[2].bytes)}
 		}
-	case 642:
+	case 645:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3312
+//line sqlparser/parser.y:3326
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 643:
+	case 646:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3316
+//line sqlparser/parser.y:3330
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 644:
+	case 647:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3320
+//line sqlparser/parser.y:3334
 		{
 			yyVAL.convertType = &ConvertType{Type: yyDollar[1].columnType.Type}
 		}
-	case 645:
+	case 648:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3324
+//line sqlparser/parser.y:3338
 		{
 			yyVAL.convertType = &ConvertType{Type: yyDollar[1].columnType.Type}
 		}
-	case 646:
+	case 649:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3328
+//line sqlparser/parser.y:3342
 		{
 			yyVAL.convertType = &ConvertType{Type: string(yyDollar[1].bytes)}
 		}
-	case 647:
+	case 650:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3333
+//line sqlparser/parser.y:3347
 		{
 			yyVAL.expr = nil
 		}
-	case 648:
+	case 651:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3337
+//line sqlparser/parser.y:3351
 		{
 			yyVAL.expr = yyDollar[1].expr
 		}
-	case 649:
+	case 652:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3342
+//line sqlparser/parser.y:3356
 		{
 			yyVAL.str = string("")
 		}
-	case 650:
+	case 653:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3346
+//line sqlparser/parser.y:3360
 		{
 			yyVAL.str = " separator " + String(NewStrVal(yyDollar[2].bytes))
 		}
-	case 651:
+	case 654:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3352
+//line sqlparser/parser.y:3366
 		{
 			yyVAL.whens = []*When{yyDollar[1].when}
 		}
-	case 652:
+	case 655:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3356
+//line sqlparser/parser.y:3370
 		{
 			yyVAL.whens = append(yyDollar[1].whens, yyDollar[2].when)
 		}
-	case 653:
+	case 656:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3362
+//line sqlparser/parser.y:3376
 		{
 			yyVAL.when = &When{Cond: yyDollar[2].expr, Val: yyDollar[4].expr}
 		}
-	case 654:
+	case 657:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3367
+//line sqlparser/parser.y:3381
 		{
 			yyVAL.expr = nil
 		}
-	case 655:
+	case 658:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3371
+//line sqlparser/parser.y:3385
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 656:
+	case 659:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3377
+//line sqlparser/parser.y:3391
 		{
 			yyVAL.colName = &ColName{Name: yyDollar[1].colIdent}
 		}
-	case 657:
+	case 660:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3381
+//line sqlparser/parser.y:3395
 		{
 			yyVAL.colName = &ColName{Qualifier: TableName{Name: yyDollar[1].tableIdent}, Name: yyDollar[3].colIdent}
 		}
-	case 658:
+	case 661:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3385
+//line sqlparser/parser.y:3399
 		{
 			yyVAL.colName = &ColName{Qualifier: TableName{Qualifier: yyDollar[1].tableIdent, Name: yyDollar[3].tableIdent}, Name: yyDollar[5].colIdent}
 		}
-	case 659:
+	case 662:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3391
+//line sqlparser/parser.y:3405
 		{
 			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
 		}
-	case 660:
+	case 663:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3395
+//line sqlparser/parser.y:3409
 		{
 			yyVAL.expr = NewHexVal(yyDollar[1].bytes)
 		}
-	case 661:
+	case 664:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3399
+//line sqlparser/parser.y:3413
 		{
 			yyVAL.expr = NewBitVal(yyDollar[1].bytes)
 		}
-	case 662:
+	case 665:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3403
+//line sqlparser/parser.y:3417
 		{
 			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
 		}
-	case 663:
+	case 666:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3407
+//line sqlparser/parser.y:3421
 		{
 			yyVAL.expr = NewFloatVal(yyDollar[1].bytes)
 		}
-	case 664:
+	case 667:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3411
+//line sqlparser/parser.y:3425
 		{
 			yyVAL.expr = NewHexNum(yyDollar[1].bytes)
 		}
-	case 665:
+	case 668:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3415
+//line sqlparser/parser.y:3429
 		{
 			yyVAL.expr = NewValArg(yyDollar[1].bytes)
 		}
-	case 666:
+	case 669:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3419
+//line sqlparser/parser.y:3433
 		{
 			yyVAL.expr = &NullVal{}
 		}
-	case 667:
+	case 670:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3425
+//line sqlparser/parser.y:3439
 		{
 			// TODO(sougou): Deprecate this construct.
 			if yyDollar[1].colIdent.Lowered() != "value" {
@@ -7326,239 +7362,239 @@ yydefault:
 			}
 			yyVAL.expr = NewIntVal([]byte("1"))
 		}
-	case 668:
+	case 671:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3434
+//line sqlparser/parser.y:3448
 		{
 			yyVAL.expr = NewIntVal(yyDollar[1].bytes)
 		}
-	case 669:
+	case 672:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3438
+//line sqlparser/parser.y:3452
 		{
 			yyVAL.expr = NewValArg(yyDollar[1].bytes)
 		}
-	case 670:
+	case 673:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3443
+//line sqlparser/parser.y:3457
 		{
 			yyVAL.exprs = nil
 		}
-	case 671:
+	case 674:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3447
+//line sqlparser/parser.y:3461
 		{
 			yyVAL.exprs = yyDollar[3].exprs
 		}
-	case 672:
+	case 675:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3452
+//line sqlparser/parser.y:3466
 		{
 			yyVAL.expr = nil
 		}
-	case 673:
+	case 676:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3456
+//line sqlparser/parser.y:3470
 		{
 			yyVAL.expr = yyDollar[2].expr
 		}
-	case 674:
+	case 677:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3461
+//line sqlparser/parser.y:3475
 		{
 			yyVAL.orderBy = nil
 		}
-	case 675:
+	case 678:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3465
+//line sqlparser/parser.y:3479
 		{
 			yyVAL.orderBy = yyDollar[3].orderBy
 		}
-	case 676:
+	case 679:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3471
+//line sqlparser/parser.y:3485
 		{
 			yyVAL.orderBy = OrderBy{yyDollar[1].order}
 		}
-	case 677:
+	case 680:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3475
+//line sqlparser/parser.y:3489
 		{
 			yyVAL.orderBy = append(yyDollar[1].orderBy, yyDollar[3].order)
 		}
-	case 678:
+	case 681:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3481
+//line sqlparser/parser.y:3495
 		{
 			yyVAL.order = &Order{Expr: yyDollar[1].expr, Direction: yyDollar[2].str}
 		}
-	case 679:
+	case 682:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3486
+//line sqlparser/parser.y:3500
 		{
 			yyVAL.str = AscScr
 		}
-	case 680:
+	case 683:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3490
+//line sqlparser/parser.y:3504
 		{
 			yyVAL.str = AscScr
 		}
-	case 681:
+	case 684:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3494
+//line sqlparser/parser.y:3508
 		{
 			yyVAL.str = DescScr
 		}
-	case 682:
+	case 685:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3499
+//line sqlparser/parser.y:3513
 		{
 			yyVAL.limit = nil
 		}
-	case 683:
+	case 686:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3503
+//line sqlparser/parser.y:3517
 		{
 			yyVAL.limit = &Limit{Rowcount: yyDollar[2].expr}
 		}
-	case 684:
+	case 687:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3507
+//line sqlparser/parser.y:3521
 		{
 			yyVAL.limit = &Limit{Offset: yyDollar[2].expr, Rowcount: yyDollar[4].expr}
 		}
-	case 685:
+	case 688:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3511
+//line sqlparser/parser.y:3525
 		{
 			yyVAL.limit = &Limit{Offset: yyDollar[4].expr, Rowcount: yyDollar[2].expr}
 		}
-	case 686:
+	case 689:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3516
+//line sqlparser/parser.y:3530
 		{
 			yyVAL.str = ""
 		}
-	case 687:
+	case 690:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3520
+//line sqlparser/parser.y:3534
 		{
 			yyVAL.str = ForUpdateStr
 		}
-	case 688:
+	case 691:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3524
+//line sqlparser/parser.y:3538
 		{
 			yyVAL.str = ShareModeStr
 		}
-	case 689:
+	case 692:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3537
+//line sqlparser/parser.y:3551
 		{
 			yyVAL.ins = &Insert{Rows: yyDollar[2].values}
 		}
-	case 690:
+	case 693:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3541
+//line sqlparser/parser.y:3555
 		{
 			yyVAL.ins = &Insert{Rows: yyDollar[1].selStmt}
 		}
-	case 691:
+	case 694:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3545
+//line sqlparser/parser.y:3559
 		{
 			// Drop the redundant parenthesis.
 			yyVAL.ins = &Insert{Rows: yyDollar[2].selStmt}
 		}
-	case 692:
+	case 695:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3550
+//line sqlparser/parser.y:3564
 		{
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[5].values}
 		}
-	case 693:
+	case 696:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line sqlparser/parser.y:3554
+//line sqlparser/parser.y:3568
 		{
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[4].selStmt}
 		}
-	case 694:
+	case 697:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line sqlparser/parser.y:3558
+//line sqlparser/parser.y:3572
 		{
 			// Drop the redundant parenthesis.
 			yyVAL.ins = &Insert{Columns: yyDollar[2].columns, Rows: yyDollar[5].selStmt}
 		}
-	case 695:
+	case 698:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3565
+//line sqlparser/parser.y:3579
 		{
 			yyVAL.columns = Columns{yyDollar[1].colIdent}
 		}
-	case 696:
+	case 699:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3569
+//line sqlparser/parser.y:3583
 		{
 			yyVAL.columns = Columns{yyDollar[3].colIdent}
 		}
-	case 697:
+	case 700:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3573
+//line sqlparser/parser.y:3587
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[3].colIdent)
 		}
-	case 698:
+	case 701:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3577
+//line sqlparser/parser.y:3591
 		{
 			yyVAL.columns = append(yyVAL.columns, yyDollar[5].colIdent)
 		}
-	case 699:
+	case 702:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3582
+//line sqlparser/parser.y:3596
 		{
 			yyVAL.updateExprs = nil
 		}
-	case 700:
+	case 703:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line sqlparser/parser.y:3586
+//line sqlparser/parser.y:3600
 		{
 			yyVAL.updateExprs = yyDollar[5].updateExprs
 		}
-	case 701:
+	case 704:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3592
+//line sqlparser/parser.y:3606
 		{
 			yyVAL.values = Values{yyDollar[1].valTuple}
 		}
-	case 702:
+	case 705:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3596
+//line sqlparser/parser.y:3610
 		{
 			yyVAL.values = append(yyDollar[1].values, yyDollar[3].valTuple)
 		}
-	case 703:
+	case 706:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3602
+//line sqlparser/parser.y:3616
 		{
 			yyVAL.valTuple = yyDollar[1].valTuple
 		}
-	case 704:
+	case 707:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3606
+//line sqlparser/parser.y:3620
 		{
 			yyVAL.valTuple = ValTuple{}
 		}
-	case 705:
+	case 708:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3612
+//line sqlparser/parser.y:3626
 		{
 			yyVAL.valTuple = ValTuple(yyDollar[2].exprs)
 		}
-	case 706:
+	case 709:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3618
+//line sqlparser/parser.y:3632
 		{
 			if len(yyDollar[1].valTuple) == 1 {
 				yyVAL.expr = &ParenExpr{yyDollar[1].valTuple[0]}
@@ -7566,282 +7602,282 @@ yydefault:
 				yyVAL.expr = yyDollar[1].valTuple
 			}
 		}
-	case 707:
+	case 710:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3628
+//line sqlparser/parser.y:3642
 		{
 			yyVAL.updateExprs = UpdateExprs{yyDollar[1].updateExpr}
 		}
-	case 708:
+	case 711:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3632
+//line sqlparser/parser.y:3646
 		{
 			yyVAL.updateExprs = append(yyDollar[1].updateExprs, yyDollar[3].updateExpr)
 		}
-	case 709:
+	case 712:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3638
+//line sqlparser/parser.y:3652
 		{
 			yyVAL.updateExpr = &UpdateExpr{Name: yyDollar[1].colName, Expr: yyDollar[3].expr}
 		}
-	case 710:
+	case 713:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3644
+//line sqlparser/parser.y:3658
 		{
 			yyVAL.setExprs = SetExprs{yyDollar[1].setExpr}
 		}
-	case 711:
+	case 714:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3648
+//line sqlparser/parser.y:3662
 		{
 			yyVAL.setExprs = append(yyDollar[1].setExprs, yyDollar[3].setExpr)
 		}
-	case 712:
+	case 715:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3654
+//line sqlparser/parser.y:3668
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("on"))}
 		}
-	case 713:
+	case 716:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3658
+//line sqlparser/parser.y:3672
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: NewStrVal([]byte("off"))}
 		}
-	case 714:
+	case 717:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3662
+//line sqlparser/parser.y:3676
 		{
 			yyVAL.setExpr = &SetExpr{Name: yyDollar[1].colIdent, Expr: yyDollar[3].expr}
 		}
-	case 715:
+	case 718:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3666
+//line sqlparser/parser.y:3680
 		{
 			yyVAL.setExpr = &SetExpr{Name: NewColIdent(string(yyDollar[1].bytes)), Expr: yyDollar[2].expr}
 		}
-	case 717:
+	case 720:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3673
+//line sqlparser/parser.y:3687
 		{
 			yyVAL.bytes = []byte("charset")
 		}
-	case 719:
+	case 722:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3680
+//line sqlparser/parser.y:3694
 		{
 			yyVAL.expr = NewStrVal([]byte(yyDollar[1].colIdent.String()))
 		}
-	case 720:
+	case 723:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3684
+//line sqlparser/parser.y:3698
 		{
 			yyVAL.expr = NewStrVal(yyDollar[1].bytes)
 		}
-	case 721:
+	case 724:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3688
+//line sqlparser/parser.y:3702
 		{
 			yyVAL.expr = &Default{}
 		}
-	case 724:
+	case 727:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3697
+//line sqlparser/parser.y:3711
 		{
 			yyVAL.byt = 0
 		}
-	case 725:
+	case 728:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line sqlparser/parser.y:3699
+//line sqlparser/parser.y:3713
 		{
 			yyVAL.byt = 1
 		}
-	case 726:
+	case 729:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3702
+//line sqlparser/parser.y:3716
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 727:
+	case 730:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line sqlparser/parser.y:3704
+//line sqlparser/parser.y:3718
 		{
 			yyVAL.empty = struct{}{}
 		}
-	case 728:
+	case 731:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3707
+//line sqlparser/parser.y:3721
 		{
 			yyVAL.str = ""
 		}
-	case 729:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3709
-		{
-			yyVAL.str = IgnoreStr
-		}
-	case 730:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3713
-		{
-			yyVAL.empty = struct{}{}
-		}
-	case 731:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3715
-		{
-			yyVAL.empty = struct{}{}
-		}
 	case 732:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3717
+//line sqlparser/parser.y:3723
 		{
-			yyVAL.empty = struct{}{}
+			yyVAL.str = IgnoreStr
 		}
 	case 733:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3719
+//line sqlparser/parser.y:3727
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 734:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3721
+//line sqlparser/parser.y:3729
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 735:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3723
+//line sqlparser/parser.y:3731
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 736:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3725
+//line sqlparser/parser.y:3733
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 737:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3727
+//line sqlparser/parser.y:3735
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 738:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3729
+//line sqlparser/parser.y:3737
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 739:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3731
+//line sqlparser/parser.y:3739
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 740:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:3734
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:3741
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 741:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3736
+//line sqlparser/parser.y:3743
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 742:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3738
+//line sqlparser/parser.y:3745
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 743:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3742
+		yyDollar = yyS[yypt-0 : yypt+1]
+//line sqlparser/parser.y:3748
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 744:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3744
+//line sqlparser/parser.y:3750
 		{
 			yyVAL.empty = struct{}{}
 		}
 	case 745:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3748
+//line sqlparser/parser.y:3752
 		{
-			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
+			yyVAL.empty = struct{}{}
 		}
 	case 746:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3752
+//line sqlparser/parser.y:3756
 		{
-			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
+			yyVAL.empty = struct{}{}
+		}
+	case 747:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:3758
+		{
+			yyVAL.empty = struct{}{}
 		}
 	case 748:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3759
+//line sqlparser/parser.y:3762
 		{
 			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
 		}
 	case 749:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3765
+//line sqlparser/parser.y:3766
+		{
+			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
+		}
+	case 751:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:3773
+		{
+			yyVAL.colIdent = NewColIdent(string(yyDollar[1].bytes))
+		}
+	case 752:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line sqlparser/parser.y:3779
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 750:
+	case 753:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3769
+//line sqlparser/parser.y:3783
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 752:
+	case 755:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:3776
+//line sqlparser/parser.y:3790
 		{
 			yyVAL.tableIdent = NewTableIdent(string(yyDollar[1].bytes))
 		}
-	case 993:
+	case 996:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4042
+//line sqlparser/parser.y:4056
 		{
 			if incNesting(yylex) {
 				yylex.Error("max nesting level reached")
 				return 1
 			}
 		}
-	case 994:
+	case 997:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4051
+//line sqlparser/parser.y:4065
 		{
 			decNesting(yylex)
 		}
-	case 995:
+	case 998:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:4056
+//line sqlparser/parser.y:4070
 		{
 			forceEOF(yylex)
 		}
-	case 996:
+	case 999:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line sqlparser/parser.y:4061
+//line sqlparser/parser.y:4075
 		{
 			forceEOF(yylex)
 		}
-	case 997:
+	case 1000:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4065
+//line sqlparser/parser.y:4079
 		{
 			forceEOF(yylex)
 		}
-	case 998:
+	case 1001:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line sqlparser/parser.y:4069
+//line sqlparser/parser.y:4083
 		{
 			forceEOF(yylex)
 		}
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 8f12dbd..4e80b93 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -333,7 +333,7 @@ func forceEOF(yylex interface{}) {
 %type <boolVal> no_inherit_opt
 %type <str> identity_behavior
 %type <sequence> sequence_opt
-%type <boolVal> clustered_opt not_for_replication_opt
+%type <boolVal> clustered_opt index_clustered_opt not_for_replication_opt
 %type <optVal> default_definition default_val
 %type <optVal> on_off
 %type <str> trigger_time trigger_event
@@ -582,7 +582,7 @@ create_statement:
     $1.TableSpec = $2
     $$ = $1
   }
-| CREATE unique_opt clustered_opt INDEX sql_id ON table_name '(' index_column_list ')' include_columns_opt where_expression_opt index_option_opt index_partition_opt
+| CREATE unique_opt index_clustered_opt INDEX sql_id ON table_name '(' index_column_list ')' include_columns_opt where_expression_opt index_option_opt index_partition_opt
   {
     $$ = &DDL{
         Action: CreateIndexStr,
@@ -602,7 +602,7 @@ create_statement:
       }
   }
 /* For MySQL */
-| CREATE unique_opt clustered_opt INDEX sql_id USING sql_id ON table_name '(' index_column_list ')' index_option_opt
+| CREATE unique_opt index_clustered_opt INDEX sql_id USING sql_id ON table_name '(' index_column_list ')' index_option_opt
   {
     $$ = &DDL{
         Action: CreateIndexStr,
@@ -618,7 +618,7 @@ create_statement:
       }
   }
 /* For PostgreSQL */
-| CREATE unique_opt clustered_opt INDEX sql_id ON table_name USING sql_id '(' index_column_list ')' where_expression_opt index_option_opt
+| CREATE unique_opt index_clustered_opt INDEX sql_id ON table_name USING sql_id '(' index_column_list ')' where_expression_opt index_option_opt
   {
     $$ = &DDL{
         Action: CreateIndexStr,
@@ -1705,7 +1705,7 @@ index_partition_opt:
 index_info:
   PRIMARY KEY
   {
-    $$ = &IndexInfo{Type: string($1) + " " + string($2), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true}
+    $$ = &IndexInfo{Type: string($1) + " " + string($2), Name: NewColIdent("PRIMARY"), Primary: true, Unique: true, Clustered: true}
   }
 | SPATIAL index_or_key ID
   {
@@ -1727,11 +1727,11 @@ index_info:
   {
     $$ = &IndexInfo{Type: string($1), Name: NewColIdent(string($2)), Unique: true}
   }
-| index_or_key ID clustered_opt
+| index_or_key ID index_clustered_opt
   {
     $$ = &IndexInfo{Type: string($1), Name: NewColIdent(string($2)), Unique: false, Clustered: $3}
   }
-| index_or_key ID UNIQUE clustered_opt
+| index_or_key ID UNIQUE index_clustered_opt
   {
     $$ = &IndexInfo{Type: string($1), Name: NewColIdent(string($2)), Unique: true, Clustered: $4}
   }
@@ -1862,6 +1862,20 @@ clustered_opt:
     $$ = BoolVal(false)
   }
 
+/* For SQL Server: an index is clustered only when it says so, unlike a primary key */
+index_clustered_opt:
+  {
+    $$ = BoolVal(false)
+  }
+| CLUSTERED
+  {
+    $$ = BoolVal(true)
+  }
+| NONCLUSTERED
+  {
+    $$ = BoolVal(false)
+  }
+
 /* For SQL Server */
 not_for_replication_opt:
   {
-- 
2.43.0


From 147c588f46d97afa460ca7be0866a0639e1d2a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:16 +0000
Subject: [PATCH 75/85] fix: notice that a SQL Server index is to be clustered
 or not

---
 schema/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 1a1b08c..997890b 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1609,6 +1609,10 @@ func areSameIndexes(indexA Index, indexB Index) bool {
 		}
 	}
 
+	if indexA.clustered != indexB.clustered {
+		return false
+	}
+
 	for _, optionB := range indexB.options {
 		if optionA := findIndexOptionByName(indexA.options, optionB.optionName); optionA != nil {
 			if !areSameValue(optionA.value, optionB.value) {
-- 
2.43.0


From 2166d7e5f42d2f333343f80616001df8f1a0669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:18 +0000
Subject: [PATCH 76/85] fix: notice options that a SQL Server index isn't to
 have any more

---
 schema/generator.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 997890b..746886a 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1622,10 +1622,29 @@ func areSameIndexes(indexA Index, indexB Index) bool {
 			return false
 		}
 	}
+	for _, optionA := range indexA.options {
+		if findIndexOptionByName(indexB.options, optionA.optionName) == nil && !isDefaultIndexOption(optionA) {
+			return false
+		}
+	}
 
 	return true
 }
 
+// Whether an index option of MSSQL has the value it has when it isn't given. Other databases' options are left alone.
+func isDefaultIndexOption(option IndexOption) bool {
+	switch strings.ToLower(option.optionName) {
+	case "pad_index", "ignore_dup_key", "statistics_norecompute", "statistics_incremental":
+		return !strings.EqualFold(string(option.value.raw), "true")
+	case "allow_row_locks", "allow_page_locks":
+		return !strings.EqualFold(string(option.value.raw), "false")
+	case "fillfactor":
+		return false
+	default:
+		return true
+	}
+}
+
 func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB ForeignKey) bool {
 	if g.normalizeOnUpdate(foreignKeyA.onUpdate) != g.normalizeOnUpdate(foreignKeyB.onUpdate) {
 		return false
-- 
2.43.0


From 1ad281fc0ef7f9d6be41899daa703878d1f93db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:20 +0000
Subject: [PATCH 77/85] fix: notice that a SQL Server foreign key refers to
 another table

---
 schema/generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 746886a..0b95535 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1659,18 +1659,18 @@ func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB Forei
 		strings.Join(foreignKeyA.referenceColumns, ",") != strings.Join(foreignKeyB.referenceColumns, ",") {
 		return false
 	}
-	if (g.mode == GeneratorModeMysql || g.mode == GeneratorModePostgres) && foreignKeyA.referenceName != foreignKeyB.referenceName {
+	if (g.mode == GeneratorModeMysql || g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && foreignKeyA.referenceName != foreignKeyB.referenceName {
 		return false
 	}
-	if normalizeReferenceSchema(foreignKeyA.referenceSchema) != normalizeReferenceSchema(foreignKeyB.referenceSchema) {
+	if g.normalizeReferenceSchema(foreignKeyA.referenceSchema) != g.normalizeReferenceSchema(foreignKeyB.referenceSchema) {
 		return false
 	}
 	// TODO: check index
 	return true
 }
 
-func normalizeReferenceSchema(referenceSchema string) string {
-	if referenceSchema == "public" {
+func (g *Generator) normalizeReferenceSchema(referenceSchema string) string {
+	if referenceSchema == "public" || (g.mode == GeneratorModeMssql && referenceSchema == "dbo") {
 		return "" // the default
 	}
 	return referenceSchema
-- 
2.43.0


From 564534a11a1949e72724f14f67d68c06f814ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:51 +0000
Subject: [PATCH 78/85] fix: replace a changed primary key of SQL Server and
 keep one whose name isn't given

---
 schema/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 0b95535..5c5033a 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -550,6 +550,10 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(column.name)))
 					}
 				}
+			case GeneratorModeMssql:
+				if desiredPrimaryKey != nil { // or else it's dropped as an obsoleted index
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentPrimaryKey.name)))
+				}
 			default:
 			}
 		}
@@ -855,7 +859,7 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 		if primaryKeyColumn == nil {
 			// If nil, it will be `DROP COLUMN`-ed and we can usually ignore it.
 			// However, it seems like you need to explicitly drop it first for MSSQL.
-			if g.mode == GeneratorModeMssql && (primaryKeyColumn == nil || primaryKeyColumn.name != currentIndex.columns[0].column) {
+			if g.mode == GeneratorModeMssql && desiredTable.PrimaryKey() == nil {
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentIndex.name)))
 			}
 		} else if primaryKeyColumn.name != currentIndex.columns[0].column { // TODO: check length of currentIndex.columns
-- 
2.43.0


From abf4d01dd3453e0957df408c09d0c39c05d67a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:53 +0000
Subject: [PATCH 79/85] fix: drop the check of a SQL Server column before the
 column

---
 schema/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 5c5033a..3956d12 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -239,9 +239,13 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName string) []string {
 	ddls := []string{}
 
-	// Only MSSQL has column default constraints. They need to be deleted before dropping the column.
+	// Only MSSQL has column default constraints. They and checks need to be deleted before dropping the column.
 	if g.mode == GeneratorModeMssql {
 		for _, column := range currentTable.columns {
+			if column.name == columnName && column.check != nil && column.check.constraintName != "" {
+				ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(column.check.constraintName))
+				ddls = append(ddls, ddl)
+			}
 			if column.name == columnName && column.defaultDef != nil && column.defaultDef.constraintName != "" {
 				ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(column.defaultDef.constraintName))
 				ddls = append(ddls, ddl)
-- 
2.43.0


From 32abff3453bde6fb63bae54031d52b67e1fd23ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:54 +0000
Subject: [PATCH 80/85] fix: add parentheses to getdate() in defaults

---
 schema/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 3956d12..ac01ad6 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1954,6 +1954,9 @@ func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error)
 	case ValueTypeBool:
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeValArg: // NULL, CURRENT_TIMESTAMP, ...
+		if g.mode == GeneratorModeMssql && strings.EqualFold(string(defaultVal.raw), "getdate") {
+			return fmt.Sprintf("DEFAULT %s()", string(defaultVal.raw)), nil
+		}
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	default:
 		return "", fmt.Errorf("unsupported default value type (valueType: '%d')", defaultVal.valueType)
-- 
2.43.0


From 10cee6fc27a682441017bf4cbb5d01186a91e1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:31 +0000
Subject: [PATCH 81/85] fix: quote names in the dump of a SQL Server table that
 need it

---
 adapter/mssql/mssql.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 041972d..f87c8e0 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -11,6 +11,7 @@ import (
 
 	_ "github.com/denisenkom/go-mssqldb"
 	"github.com/k0kubun/sqldef/adapter"
+	"github.com/k0kubun/sqldef/sqlparser"
 )
 
 const indent = "    "
@@ -70,13 +71,15 @@ func (d *MssqlDatabase) DumpTableDDL(table string) (string, error) {
 
 func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, foreignDefs []string) string {
 	var queryBuilder strings.Builder
+	schemaName, tableName := splitTableName(table)
+	table = quoteName(schemaName) + "." + quoteName(tableName)
 	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s (", table)
 	for i, col := range columns {
 		if i > 0 {
 			fmt.Fprint(&queryBuilder, ",")
 		}
 		fmt.Fprint(&queryBuilder, "\n"+indent)
-		fmt.Fprintf(&queryBuilder, "%s %s", col.Name, col.dataType)
+		fmt.Fprintf(&queryBuilder, "%s %s", quoteName(col.Name), col.dataType)
 		if col.dataType == "char" || col.dataType == "varchar" || col.dataType == "binary" || col.dataType == "varbinary" {
 			fmt.Fprintf(&queryBuilder, "(%s)", col.Length)
 		}
@@ -84,7 +87,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 			fmt.Fprint(&queryBuilder, " NOT NULL")
 		}
 		if col.DefaultName != "" {
-			fmt.Fprintf(&queryBuilder, " CONSTRAINT %s DEFAULT %s", col.DefaultName, col.DefaultVal)
+			fmt.Fprintf(&queryBuilder, " CONSTRAINT %s DEFAULT %s", quoteName(col.DefaultName), col.DefaultVal)
 		}
 		if col.Identity != nil {
 			fmt.Fprintf(&queryBuilder, " IDENTITY(%s,%s)", col.Identity.SeedValue, col.Identity.IncrementValue)
@@ -161,6 +164,15 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 	return strings.TrimSuffix(queryBuilder.String(), ";\n")
 }
 
+// quoteName puts brackets around a name that isn't read as one without them
+func quoteName(name string) string {
+	tokenizer := sqlparser.NewStringTokenizer(name, sqlparser.ParserModeMssql)
+	if token, _ := tokenizer.Scan(); token == sqlparser.ID && plainName.MatchString(name) {
+		return name
+	}
+	return "[" + name + "]"
+}
+
 type column struct {
 	Name        string
 	dataType    string
@@ -205,7 +217,7 @@ FROM sys.columns c WITH(NOLOCK)
 JOIN sys.types tp WITH(NOLOCK) ON c.user_type_id = tp.user_type_id
 LEFT JOIN sys.check_constraints cc WITH(NOLOCK) ON c.[object_id] = cc.parent_object_id AND cc.parent_column_id = c.column_id
 LEFT JOIN sys.identity_columns ic WITH(NOLOCK) ON c.[object_id] = ic.[object_id] AND ic.[column_id] = c.[column_id]
-WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
+WHERE c.[object_id] = OBJECT_ID('[%s].[%s]', 'U')`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
@@ -436,6 +448,7 @@ func boolToOnOff(in bool) string {
 }
 
 var (
+	plainName       = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
 	suffixSemicolon = regexp.MustCompile(`;$`)
 )
 
-- 
2.43.0


From 3f65b347275a2981794005c9281d404f74232483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:32 +0000
Subject: [PATCH 82/85] fix: dump the length of SQL Server's nchar, nvarchar,
 decimal, numeric, time and datetimeoffset columns

---
 adapter/mssql/mssql.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index f87c8e0..627e59d 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -80,8 +80,15 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 		}
 		fmt.Fprint(&queryBuilder, "\n"+indent)
 		fmt.Fprintf(&queryBuilder, "%s %s", quoteName(col.Name), col.dataType)
-		if col.dataType == "char" || col.dataType == "varchar" || col.dataType == "binary" || col.dataType == "varbinary" {
+		switch col.dataType {
+		case "char", "varchar", "binary", "varbinary", "nchar", "nvarchar":
 			fmt.Fprintf(&queryBuilder, "(%s)", col.Length)
+		case "decimal", "numeric":
+			fmt.Fprintf(&queryBuilder, "(%d, %d)", col.Precision, col.Scale)
+		case "time", "datetimeoffset":
+			if col.Scale != 7 { // the default
+				fmt.Fprintf(&queryBuilder, "(%d)", col.Scale)
+			}
 		}
 		if !col.Nullable {
 			fmt.Fprint(&queryBuilder, " NOT NULL")
@@ -177,6 +184,8 @@ type column struct {
 	Name        string
 	dataType    string
 	Length      string
+	Precision   int
+	Scale       int
 	Nullable    bool
 	Identity    *identity
 	DefaultName string
@@ -202,6 +211,8 @@ func (d *MssqlDatabase) getColumns(table string) ([]column, error) {
 	c.name,
 	[type_name] = tp.name,
 	c.max_length,
+	c.precision,
+	c.scale,
 	c.is_nullable,
 	c.is_identity,
 	ic.seed_value,
@@ -228,16 +239,23 @@ WHERE c.[object_id] = OBJECT_ID('[%s].[%s]', 'U')`, schema, table)
 	cols := []column{}
 	for rows.Next() {
 		col := column{}
-		var colName, dataType, maxLen, defaultId string
+		var colName, dataType, defaultId string
+		var maxLen int
 		var seedValue, incrementValue, defaultName, defaultVal, checkName, checkDefinition *string
 		var isNullable, isIdentity bool
 		var identityNotForReplication, checkNotForReplication *bool
-		err = rows.Scan(&colName, &dataType, &maxLen, &isNullable, &isIdentity, &seedValue, &incrementValue, &identityNotForReplication, &defaultId, &defaultName, &defaultVal, &checkName, &checkDefinition, &checkNotForReplication)
+		err = rows.Scan(&colName, &dataType, &maxLen, &col.Precision, &col.Scale, &isNullable, &isIdentity, &seedValue, &incrementValue, &identityNotForReplication, &defaultId, &defaultName, &defaultVal, &checkName, &checkDefinition, &checkNotForReplication)
 		if err != nil {
 			return nil, err
 		}
 		col.Name = colName
-		col.Length = maxLen
+		if maxLen > 0 && (dataType == "nchar" || dataType == "nvarchar") {
+			maxLen /= 2 // max_length is in bytes
+		}
+		col.Length = strconv.Itoa(maxLen)
+		if maxLen < 0 {
+			col.Length = "max"
+		}
 		if defaultId != "0" {
 			col.DefaultName = *defaultName
 			col.DefaultVal = *defaultVal
-- 
2.43.0


From cea578914ddb015a3a1e099155cb713d04d3a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:48 +0000
Subject: [PATCH 83/85] fix: take CURRENT_TIMESTAMP for what SQL Server shows
 as getdate()

---
 schema/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index ac01ad6..c737ec8 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1504,6 +1504,10 @@ func areSameValue(current, desired *Value) bool {
 			return currentNum.Cmp(desiredNum) == 0
 		}
 	}
+	// SQL Server shows CURRENT_TIMESTAMP as getdate()
+	if current.valueType == ValueTypeValArg && desired.valueType == ValueTypeValArg && strings.EqualFold(currentRaw, "getdate") {
+		return strings.EqualFold(desiredRaw, "getdate") || strings.EqualFold(desiredRaw, "current_timestamp")
+	}
 	return currentRaw == desiredRaw
 }
 
-- 
2.43.0


From 044829efa59e01b82b1613f102859e039a78b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:55 +0000
Subject: [PATCH 84/85] fix: dump the SQL Server tables that foreign keys refer
 to first

---
 adapter/mssql/mssql.go | 49 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 627e59d..6c9ffec 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -50,7 +50,54 @@ func (d *MssqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
-	return tables, rows.Err()
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+	return d.sortByReferences(tables)
+}
+
+// Foreign keys are dumped inside of CREATE TABLE, so that the tables they refer to have to be created first.
+func (d *MssqlDatabase) sortByReferences(tables []string) ([]string, error) {
+	rows, err := d.db.Query(`SELECT
+	schema_name(t.schema_id),
+	t.name,
+	schema_name(rt.schema_id),
+	rt.name
+FROM sys.foreign_keys f
+INNER JOIN sys.tables t ON t.object_id = f.parent_object_id
+INNER JOIN sys.tables rt ON rt.object_id = f.referenced_object_id
+ORDER BY f.object_id`)
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+
+	references := map[string][]string{}
+	for rows.Next() {
+		var schema, name, refSchema, refName string
+		if err := rows.Scan(&schema, &name, &refSchema, &refName); err != nil {
+			return nil, err
+		}
+		references[schema+"."+name] = append(references[schema+"."+name], refSchema+"."+refName)
+	}
+
+	sorted := []string{}
+	visited := map[string]bool{}
+	var visit func(table string)
+	visit = func(table string) {
+		if visited[table] {
+			return
+		}
+		visited[table] = true
+		for _, reference := range references[table] {
+			visit(reference)
+		}
+		sorted = append(sorted, table)
+	}
+	for _, table := range tables {
+		visit(table)
+	}
+	return sorted, rows.Err()
 }
 
 func (d *MssqlDatabase) DumpTableDDL(table string) (string, error) {
-- 
2.43.0


From 891f752984558de4c277afb3142f3540a18454fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:19 +0000
Subject: [PATCH 85/85] fix: drop and create a SQL Server trigger that moves to
 another table

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index c737ec8..9b39174 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -803,7 +803,7 @@ func (g *Generator) generateDDLsForCreateTrigger(triggerName string, desiredTrig
 		// Trigger found. If it's different, create or replace trigger.
 		if !areSameTriggerDefinition(g.mode, currentTrigger, desiredTrigger) {
 			createPrefix := "CREATE "
-			if g.mode == GeneratorModeMssql {
+			if g.mode == GeneratorModeMssql && currentTrigger.tableName == desiredTrigger.tableName {
 				createPrefix += "OR ALTER "
 			} else {
 				ddls = append(ddls, fmt.Sprintf("DROP TRIGGER %s", g.escapeSQLName(triggerName)))
-- 
2.43.0

