From 84f81922e52508410b772afa88fae943df15c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 01/52] fix: do not fail on a key that has both scalar and
 nested values

The panic lost the remaining keys of the line during the scan of keys.
---
 flatjsonl/type.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/flatjsonl/type.go b/flatjsonl/type.go
index c0a3638..3fe5455 100644
--- a/flatjsonl/type.go
+++ b/flatjsonl/type.go
@@ -41,6 +41,16 @@ func (t Type) Update(u Type) Type {
 		return t
 	}
 
+	// Nested values have columns of their own, they do not affect type of scalar.
+	if u == TypeObject || u == TypeArray {
+		return t
+	}
+
+	// JSON literals and other scalars make unconstrained type: string.
+	if t == TypeJSON || u == TypeJSON {
+		return TypeString
+	}
+
 	// Bool and non-bool make unconstrained type: string.
 	if (t == TypeBool && u != TypeBool) || (t != TypeBool && u == TypeBool) {
 		return TypeString
-- 
2.43.0


From 771cce28cc9b157edc952f599b92ed636f62de95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 02/52] fix: finish the line that failed to be processed

A line like {"a":1.2.3} never became finished, so that none of the following
rows were written and processing failed waiting for them.
---
 flatjsonl/reader.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 08cccda..72d43d7 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -302,12 +302,19 @@ func (rd *Reader) Read(sess *readSession) error {
 	return sess.scanner.Err()
 }
 
-func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
+func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) (err error) {
+	finished := sess.lineFinished == nil
+
 	defer func() {
 		if r := recover(); r != nil {
 			println("panic on line:", string(w.line))
 			println(fmt.Sprintf("%v", r))
 			println(string(debug.Stack()))
+
+			// Failed line has to be finished, otherwise it would block the lines that follow.
+			if !finished {
+				err = sess.lineFinished(seq)
+			}
 		}
 	}()
 
@@ -326,6 +333,8 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 	if len(line) < 2 || line[0] != '{' { //nolint:nestif
 		if line = rd.prefixedLine(seq, line, w.walker.FnString); line == nil {
 			if sess.lineFinished != nil {
+				finished = true
+
 				if err := sess.lineFinished(seq); err != nil {
 					return fmt.Errorf("failure in line finished callback, line %d: %w", n, err)
 				}
@@ -359,6 +368,8 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) error {
 	}
 
 	if sess.lineFinished != nil {
+		finished = true
+
 		if err := sess.lineFinished(seq); err != nil {
 			return fmt.Errorf("failure in line finished callback, line %d: %w", n, err)
 		}
-- 
2.43.0


From 5273dc8546d444244eca95c8012d628fc6817324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:16 +0000
Subject: [PATCH 03/52] fix: name a column by the first of the keys that differ
 by case

The name was picked by random order of map iteration.
---
 flatjsonl/keys.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b381051..63213d2 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -510,9 +510,18 @@ func (p *Processor) flKeysInit() {
 			return true
 		}
 
-		v := p.canonicalKeys[value.canonical]
-		value.isZero = value.isZero && v.isZero
-		value.t = v.t.Update(value.t)
+		if v, ok := p.canonicalKeys[value.canonical]; ok {
+			t := v.t.Update(value.t)
+			isZero := value.isZero && v.isZero
+
+			// Keys that differ by case are represented with the one that was found first.
+			if v.original != value.original {
+				value = v
+			}
+
+			value.t = t
+			value.isZero = isZero
+		}
 
 		p.canonicalKeys[value.canonical] = value
 
-- 
2.43.0


From a1361b01c7e60a944a2ddff1f3bf30cfa69ea795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 04/52] fix: show hierarchy of keys in a stable order

---
 flatjsonl/flattener.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index cf74ed7..2592aa3 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -3,6 +3,7 @@ package flatjsonl
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -392,8 +393,15 @@ func (k KeyHierarchy) Hierarchy() interface{} {
 
 	res := make([]interface{}, 0, len(k.Sub))
 
-	for _, s := range k.Sub {
-		res = append(res, s.Hierarchy())
+	names := make([]string, 0, len(k.Sub))
+	for name := range k.Sub {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	for _, name := range names {
+		res = append(res, k.Sub[name].Hierarchy())
 	}
 
 	return map[string]interface{}{k.Name: res}
-- 
2.43.0


From d9bc9cf55ef33670211b8aed84ce20cccd812456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 05/52] fix: make -skip-zero-cols skip columns with zero values

No key was ever considered to have only zero values.
---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 63213d2..628b1a3 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -84,7 +84,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	key := KeyFromPath(path)
 
 	k.UpdateType(t)
-	k.isZero = k.isZero && isZero
+	k.isZero = isZero
 	k.path = pp
 	k.original = key
 	k.canonical = p.ck(key)
-- 
2.43.0


From b24cb7ec73f28f2f2cc8da5566e66a867e355948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 06/52] fix: collect every type of a key once

A type was missing in JSON schema when it equals the merged type of previous
values, the list of types was growing with every line and was changed without a lock.
---
 flatjsonl/keys.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 628b1a3..237d9f3 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -29,19 +29,21 @@ type flKey struct {
 }
 
 func (k *flKey) UpdateType(u Type) {
-	if len(k.tt) == 0 {
+	if !k.hasType(u) {
 		k.tt = append(k.tt, u)
-	} else {
-		for _, t := range k.tt {
-			if t != u {
-				k.tt = append(k.tt, u)
+	}
 
-				break
-			}
+	k.t = k.t.Update(u)
+}
+
+func (k *flKey) hasType(u Type) bool {
+	for _, t := range k.tt {
+		if t == u {
+			return true
 		}
 	}
 
-	k.t = k.t.Update(u)
+	return false
 }
 
 type intOrString struct {
@@ -140,13 +142,7 @@ func (p *Processor) scanKey(pk, parent uint64, path []string, t Type, isZero boo
 		k = p.initKey(pk, parent, path, t, isZero)
 	}
 
-	updType := false
-
-	if k.t != t {
-		k.UpdateType(t)
-
-		updType = true
-	}
+	updType := !k.hasType(t)
 
 	if updType || (k.isZero && !isZero) {
 		p.mu.Lock()
-- 
2.43.0


From d75066790e17b2eb920780dad1520d44b47448c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 07/52] fix: write rows of PostgreSQL dump that fill the last
 table completely

The row was continued in a table that does not exist, and the process paniced.
---
 flatjsonl/pg_dump_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index bd5108e..02de49c 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -196,7 +196,7 @@ func (c *PGDumpWriter) insert(seq int64, tn string, values []string) error {
 	tw := c.csvCopiers[tableName]
 
 	for {
-		if len(values) < c.maxCols {
+		if len(values) <= c.maxCols {
 			row := make([]string, 0, len(values)+1)
 			row = append(row, strconv.Itoa(int(seq)))
 			row = append(row, values...)
-- 
2.43.0


From 7db71527a134f3928c5081b4c3f6aa33f4b6b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 08/52] fix: use default number of columns in PostgreSQL dump
 when it is not set

As SQLite writer does, zero value made -1 column per table.
---
 flatjsonl/pg_dump_writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index 02de49c..a08049c 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -48,6 +48,10 @@ type csvCopier struct {
 func NewPGDumpWriter(fn string, tableName string, p *Processor) (*PGDumpWriter, error) {
 	var err error
 
+	if p.f.SQLMaxCols == 0 {
+		p.f.SQLMaxCols = 500
+	}
+
 	c := &PGDumpWriter{
 		fn:         fn,
 		tableName:  tableName,
-- 
2.43.0


From 119218a633fb387527f89e8b1ecd129ca06cf113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 09/52] fix: declare type of columns with JSON literals in
 PostgreSQL dump

The dump could not be loaded.
---
 flatjsonl/pg_dump_writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index a08049c..f22a182 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -282,7 +282,7 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 
 		tp := ""
 
-		switch k.t {
+		switch k.t { //nolint: exhaustive
 		case TypeInt:
 			tp = " INT8"
 		case TypeBool:
@@ -294,7 +294,7 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 			if _, ok := c.p.cfg.ParseTime[k.original]; ok {
 				tp = " TIMESTAMP"
 			}
-		case TypeAbsent, TypeNull:
+		default:
 			tp = " VARCHAR"
 		}
 
-- 
2.43.0


From 14c900ff18233261a49ec5a47c3cf2ce15a9947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 10/52] fix: escape names of tables and columns in SQLite

A key with a double quote made processing fail.
---
 flatjsonl/sqlite_writer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 7d27ffc..fa98c3b 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -131,7 +131,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 	c.rowsTx++
 
 	tableName := tn
-	res := `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
+	res := `INSERT INTO "` + c.replacer.Replace(tableName) + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
 	part := 1
 
 	for i, v := range values {
@@ -146,7 +146,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
-			res = `INSERT INTO "` + tableName + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
+			res = `INSERT INTO "` + c.replacer.Replace(tableName) + `" VALUES (` + strconv.Itoa(int(seq)) + `,`
 		}
 
 		if v.Type != TypeNull && v.Type != TypeAbsent {
@@ -193,7 +193,7 @@ func (c *SQLiteWriter) execTx(res string) error {
 
 func (c *SQLiteWriter) createTable(tn string, keys []flKey, isTransposed bool) error {
 	tableName := tn
-	createTable := `CREATE TABLE "` + tableName + `" (
+	createTable := `CREATE TABLE "` + c.replacer.Replace(tableName) + `" (
 `
 
 	if !isTransposed {
@@ -219,7 +219,7 @@ _seq_id integer,
 
 			part++
 			tableName = tn + partSuffix + strconv.Itoa(part)
-			createTable = `CREATE TABLE "` + tableName + `" (
+			createTable = `CREATE TABLE "` + c.replacer.Replace(tableName) + `" (
 `
 
 			if !isTransposed {
@@ -242,7 +242,7 @@ _seq_id integer,
 			tp = " REAL"
 		}
 
-		createTable += `"` + k.replaced + `"` + tp + `,` + "\n"
+		createTable += `"` + c.replacer.Replace(k.replaced) + `"` + tp + `,` + "\n"
 	}
 
 	createTable = createTable[:len(createTable)-2] + "\n)"
-- 
2.43.0


From 70581592177184456c13bf00e6dc0d22530d56c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 11/52] fix: do not declare integer type for a column with
 numbers like 1.0 or 1e3

Numbers are written as they are, such values can not be loaded to PostgreSQL.
---
 flatjsonl/keys.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 237d9f3..2ff9d0b 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -354,11 +354,12 @@ func (p *Processor) scanAvailableKeys() error {
 
 					return x
 				}
-				w.FnNumber = func(_ int64, flatPath []byte, pl int, path []string, value float64, _ []byte) {
+				w.FnNumber = func(_ int64, flatPath []byte, pl int, path []string, value float64, raw []byte) {
 					pk, parent := h.hashParentBytes(flatPath, pl)
-					isInt := float64(int(value)) == value
 
-					if isInt {
+					// Numbers are written as they are, "1.0", "1e3" or a value that does not fit
+					// can not be loaded in a column of an integer type.
+					if _, err := strconv.ParseInt(string(raw), 10, 64); err == nil {
 						p.scanKey(pk, parent, path, TypeInt, value == 0)
 					} else {
 						p.scanKey(pk, parent, path, TypeFloat, value == 0)
-- 
2.43.0


From e1ce47037abc6a0e5cdc391efca5bf4e74ee06c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 12/52] fix: write sequence numbers and indexes exactly

Starting from 100000 they were rounded to 5 digits, like 1e+05.
---
 flatjsonl/flattener.go | 2 +-
 flatjsonl/writer.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 2592aa3..43a291b 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -252,7 +252,7 @@ func Format(v interface{}) string {
 	case string:
 		return val
 	case float64:
-		return strconv.FormatFloat(val, 'g', 5, 64)
+		return strconv.FormatFloat(val, 'f', -1, 64)
 	case bool:
 		return strconv.FormatBool(val)
 	default:
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 7caafba..49f09f2 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -50,7 +50,7 @@ func (v Value) Format() string {
 			return v.RawNumber
 		}
 
-		return strconv.FormatFloat(v.Number, 'g', 5, 64)
+		return strconv.FormatFloat(v.Number, 'f', -1, 64)
 	case TypeBool:
 		return strconv.FormatBool(v.Bool)
 	case TypeNull:
-- 
2.43.0


From 4b188f90185860a1833a3ba68d59ca4b712b7db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 13/52] fix: do not fail on transposed keys that are empty or
 have brackets

---
 flatjsonl/keys.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 2ff9d0b..e51b133 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -67,7 +67,7 @@ func (is intOrString) Value() Value {
 }
 
 func (is intOrString) String() string {
-	if is.s != "" {
+	if is.t == TypeString {
 		return is.s
 	}
 
@@ -203,19 +203,11 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 	}
 
 	// Array.
-	if trimmed[0] == '[' {
-		pos := strings.Index(trimmed, "]")
-		idx := trimmed[1:pos]
-
-		i, err := strconv.Atoi(idx)
-		if err != nil {
-			panic("BUG: failed to parse idx " + idx + ": " + err.Error())
-		}
-
-		trimmed = trimmed[pos+1:]
+	if i, pos, ok := arrayIndex(trimmed); ok {
+		trimmed = trimmed[pos:]
 		k.transposeKey = intOrString{t: TypeInt, i: i}
 	} else {
-		if pos := strings.Index(trimmed, "."); pos > 0 {
+		if pos := strings.Index(trimmed, "."); pos >= 0 {
 			k.transposeKey = intOrString{t: TypeString, s: trimmed[0:pos]}
 			trimmed = trimmed[pos:]
 		} else {
@@ -232,6 +224,21 @@ func scanTransposedKey(dst string, tk string, k *flKey) {
 	k.transposeTrimmed = trimmed
 }
 
+// arrayIndex finds index of array at the beginning of the key and position of the key remainder.
+func arrayIndex(key string) (i int, pos int, ok bool) {
+	pos = strings.Index(key, "]")
+	if pos < 2 || key[0] != '[' || (pos+1 < len(key) && key[pos+1] != '.') {
+		return 0, 0, false
+	}
+
+	i, err := strconv.Atoi(key[1:pos])
+	if err != nil || strconv.Itoa(i) != key[1:pos] {
+		return 0, 0, false
+	}
+
+	return i, pos + 1, true
+}
+
 type hasher struct {
 	digest *xxhash.Digest
 }
-- 
2.43.0


From 125a0b771a30ed0da7c97a8a017a864796972a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 14/52] fix: transpose keys to the destination of the longest
 prefix

---
 flatjsonl/keys.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index e51b133..5cc2392 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -92,13 +92,7 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	k.canonical = p.ck(key)
 	k.parent = parent
 
-	for tk, dst := range p.cfg.Transpose {
-		if len(k.original) > len(tk) && strings.HasPrefix(k.original, tk) {
-			scanTransposedKey(dst, tk, &k)
-
-			break
-		}
-	}
+	p.transposeKey(&k)
 
 	for r, x := range p.extractRegex {
 		if r.MatchString(key) {
@@ -192,6 +186,21 @@ func (p *Processor) collectKeyCardinality(k flKey) {
 	}
 }
 
+// transposeKey finds destination of a key with the most specific prefix.
+func (p *Processor) transposeKey(k *flKey) {
+	prefix, found := "", false
+
+	for tk := range p.cfg.Transpose {
+		if len(k.original) > len(tk) && strings.HasPrefix(k.original, tk) && (!found || len(tk) > len(prefix)) {
+			prefix, found = tk, true
+		}
+	}
+
+	if found {
+		scanTransposedKey(p.cfg.Transpose[prefix], prefix, k)
+	}
+}
+
 func scanTransposedKey(dst string, tk string, k *flKey) {
 	trimmed := strings.TrimPrefix(k.original, tk)
 	if len(trimmed) == 0 {
-- 
2.43.0


From 36d454c701545759f6ec5dcecf28583c71744968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 15/52] fix: transpose keys that are listed in configuration

---
 flatjsonl/keys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 5cc2392..0f6347e 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -505,6 +505,8 @@ func (p *Processor) flKeysInit() {
 				canonical: p.ck(key),
 			}
 
+			p.transposeKey(&k)
+
 			for r, x := range p.extractRegex {
 				if r.MatchString(key) {
 					k.extractor = x
-- 
2.43.0


From c0a5f268db954abd8083b7589c32d266b8c44175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 16/52] fix: use single column for transposed keys that differ
 by case

---
 flatjsonl/writer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 49f09f2..4355a5c 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -166,12 +166,14 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 		tw.keyIndexes = append(tw.keyIndexes, i)
 		tw.indexType = key.transposeKey.t
 
-		ik, ok := tw.trimmedKeys[key.transposeTrimmed]
+		trimmed := b.p.ck(key.transposeTrimmed)
+
+		ik, ok := tw.trimmedKeys[trimmed]
 		if !ok {
 			ik.idx = len(tw.trimmedKeys)
 			key.replaced = b.p.prepareKey(key.transposeTrimmed)
 			ik.k = key
-			tw.trimmedKeys[key.transposeTrimmed] = ik
+			tw.trimmedKeys[trimmed] = ik
 		}
 
 		tw.transposedMapping[i] = ik.idx
-- 
2.43.0


From b9040b24cb9b7ee6731101a484b3c76dd121d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 17/52] fix: use type of all indexes in transposed table

---
 flatjsonl/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index 4355a5c..a9299ab 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -164,7 +164,7 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 		tw := b.transposedWriter(key.transposeDst, keys)
 
 		tw.keyIndexes = append(tw.keyIndexes, i)
-		tw.indexType = key.transposeKey.t
+		tw.indexType = tw.indexType.Update(key.transposeKey.t)
 
 		trimmed := b.p.ck(key.transposeTrimmed)
 
-- 
2.43.0


From a8857a83aeac9bd0266001002ee1461150fe23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 18/52] fix: do not fail on a single key with empty segment

---
 flatjsonl/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 72d43d7..dd7a80f 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -217,7 +217,7 @@ func (rd *Reader) Read(sess *readSession) error {
 			path := make([]string, 0, len(kk.path))
 
 			for _, s := range kk.path {
-				if s[0] == '[' && s[len(s)-1] == ']' {
+				if len(s) > 1 && s[0] == '[' && s[len(s)-1] == ']' {
 					s = s[1 : len(s)-1]
 				}
 
-- 
2.43.0


From ce33433f3abea861e40a1d277f042b21d599f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 19/52] fix: read all values of a single key

---
 flatjsonl/processor.go | 30 +++++++++++++++++++++++++-----
 flatjsonl/reader.go    | 21 +++++++++------------
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 9e1f037..62c19d3 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -535,6 +535,29 @@ func (p *Processor) iterateForWriters() error {
 	return wi.waitPending()
 }
 
+// singleKey returns the only included key, unless it has values of keys that differ by case.
+func (p *Processor) singleKey() (kk flKey, ok bool) {
+	if len(p.includeKeys) != 1 {
+		return kk, false
+	}
+
+	for _, i := range p.includeKeys {
+		kk = p.keys[i]
+	}
+
+	cnt := 0
+
+	p.flKeys.Range(func(_ uint64, k flKey) bool {
+		if k.canonical == kk.canonical {
+			cnt++
+		}
+
+		return cnt <= 1
+	})
+
+	return kk, cnt <= 1
+}
+
 type lineBuf struct {
 	h      *hasher
 	values []Value
@@ -545,11 +568,8 @@ func newWriteIterator(p *Processor, pkIndex map[uint64]int, pkDst map[uint64]str
 	wi.pending = xsync.NewMapOf[int64, *lineBuf]()
 	wi.finished = &sync.Map{}
 
-	if len(p.includeKeys) == 1 {
-		for _, i := range p.includeKeys {
-			kk := p.keys[i]
-			wi.singleKeyHash = newHasher().hashBytes([]byte("." + strings.Join(kk.path, ".")))
-		}
+	if kk, ok := p.singleKey(); ok {
+		wi.singleKeyHash = newHasher().hashBytes([]byte("." + strings.Join(kk.path, ".")))
 	}
 
 	wi.lineBufPool = sync.Pool{
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index dd7a80f..5ca0bfc 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -211,22 +211,19 @@ func (rd *Reader) Read(sess *readSession) error {
 		doLineErr error
 	)
 
-	if len(rd.Processor.includeKeys) == 1 && !rd.Processor.f.ExtractStrings {
-		for _, i := range rd.Processor.includeKeys {
-			kk := rd.Processor.keys[i]
-			path := make([]string, 0, len(kk.path))
-
-			for _, s := range kk.path {
-				if len(s) > 1 && s[0] == '[' && s[len(s)-1] == ']' {
-					s = s[1 : len(s)-1]
-				}
+	if kk, ok := rd.Processor.singleKey(); ok && !rd.Processor.f.ExtractStrings && len(rd.Processor.extractRegex) == 0 {
+		path := make([]string, 0, len(kk.path))
 
-				path = append(path, s)
+		for _, s := range kk.path {
+			if len(s) > 1 && s[0] == '[' && s[len(s)-1] == ']' {
+				s = s[1 : len(s)-1]
 			}
 
-			rd.singleKeyPath = path
-			rd.singleKeyFlat = []byte("." + strings.Join(kk.path, "."))
+			path = append(path, s)
 		}
+
+		rd.singleKeyPath = path
+		rd.singleKeyFlat = []byte("." + strings.Join(kk.path, "."))
 	}
 
 	var n int64
-- 
2.43.0


From e7ffaa14e56dfa1637845fc99e04aeb09464a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 20/52] fix: do not fail on replacing keys without alphanumeric
 characters

---
 flatjsonl/keys.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 0f6347e..c58a4ba 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -788,25 +788,28 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	snk := strings.Trim(ski, "[]")
 
 	for {
-		if len(snk) == 0 {
-			panic("BUG: empty snk for '" + origKey + "'")
-		}
-
-		if stored, ok := p.replaceByKey[snk]; (!ok || origKey == stored) && (snk[0] == '_' || unicode.IsLetter(rune(snk[0]))) {
-			p.replaceByKey[snk] = origKey
-			origKey = snk
+		// Segment can be empty if it does not have alphanumeric characters.
+		if len(snk) > 0 {
+			if stored, ok := p.replaceByKey[snk]; (!ok || origKey == stored) && (snk[0] == '_' || unicode.IsLetter(rune(snk[0]))) {
+				p.replaceByKey[snk] = origKey
+				origKey = snk
 
-			break
+				break
+			}
 		}
 
 		i--
 
-		if i == 0 {
+		if i <= 0 {
 			break
 		}
 
 		ski := toSnakeCase(sk[i])
-		snk = strings.Trim(ski, "[]") + "_" + snk
+		if len(snk) > 0 {
+			ski += "_"
+		}
+
+		snk = strings.Trim(ski, "[]") + snk
 	}
 
 	return origKey
-- 
2.43.0


From 58c281eb7560d294ea0c3d06f93f47202ad18e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 21/52] fix: use first value that is not null for keys of one
 column

---
 flatjsonl/processor.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 62c19d3..0396f90 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -763,13 +763,14 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 	ev := l.values[i]
 	t := ev.Type
 
-	if t == TypeAbsent {
+	// Null value gives way to a value of another key of the same column.
+	if t == TypeAbsent || t == TypeNull {
 		l.values[i] = v
 
 		return
 	}
 
-	if wi.p.cfg.ConcatDelimiter != nil && v.Type != TypeAbsent {
+	if wi.p.cfg.ConcatDelimiter != nil && v.Type != TypeAbsent && v.Type != TypeNull {
 		cv := Value{
 			Type:   TypeString,
 			String: ev.Format() + *wi.p.cfg.ConcatDelimiter + v.Format(),
-- 
2.43.0


From 76e4fcfb5ff1bbe21fb14bba49b60ee1e4526be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 22/52] fix: use types of all keys replaced with the same name

---
 flatjsonl/keys.go | 3 +--
 flatjsonl/type.go | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index c58a4ba..c721398 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -706,8 +706,7 @@ func (p *Processor) prepareKeys() {
 	for i, pk := range p.keys {
 		if pk.transposeDst == "" {
 			if j, ok := keyExists[pk.replaced]; ok {
-				pk.UpdateType(p.keys[i].t)
-				p.keys[i] = pk
+				keys[j].UpdateType(pk.t)
 				keyMap[i] = j
 
 				continue
diff --git a/flatjsonl/type.go b/flatjsonl/type.go
index 3fe5455..75fedd4 100644
--- a/flatjsonl/type.go
+++ b/flatjsonl/type.go
@@ -37,7 +37,7 @@ func (t Type) Update(u Type) Type {
 		return TypeString
 	}
 
-	if u == TypeNull {
+	if u == TypeNull || u == TypeAbsent {
 		return t
 	}
 
-- 
2.43.0


From 945937decc4aba0d89be51a1d48098de7c7b969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 23/52] fix: make distinct names of keys that exceed the limit

---
 flatjsonl/keys.go      | 32 ++++++++++++++++++++++++++++----
 flatjsonl/processor.go |  1 +
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index c721398..49aa70f 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -655,6 +655,7 @@ func (p *Processor) prepareKeys() {
 
 	p.replaceKeys = make(map[string]string)
 	p.replaceByKey = make(map[string]string)
+	p.limitedKeys = make(map[string]string)
 
 	for k, r := range p.cfg.ReplaceKeys {
 		mk := p.ck(k)
@@ -741,12 +742,11 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 		return rep
 	}
 
+	idx := p.includeKeys[origKey]
+
 	defer func() {
 		if p.f.KeyLimit > 0 && len(kk) > p.f.KeyLimit {
-			i := p.includeKeys[kk]
-			is := strconv.Itoa(i)
-
-			kk = kk[0:(p.f.KeyLimit-len(is))] + is
+			kk = p.limitKey(kk, idx)
 
 			p.replaceKeys[ck] = kk
 		}
@@ -814,6 +814,30 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	return origKey
 }
 
+// limitKey truncates the key and adds a number that makes it different from other keys.
+func (p *Processor) limitKey(key string, i int) string {
+	if lk, ok := p.limitedKeys[key]; ok {
+		return lk
+	}
+
+	for {
+		is := strconv.Itoa(i)
+		lk := key[:max(0, p.f.KeyLimit-len(is))] + is
+
+		_, isKey := p.includeKeys[lk]
+		_, isReplace := p.replaceByKey[lk]
+
+		if !isKey && !isReplace {
+			p.limitedKeys[key] = lk
+			p.replaceByKey[lk] = key
+
+			return lk
+		}
+
+		i++
+	}
+}
+
 var (
 	matchFirstCap        = regexp.MustCompile("(.)([A-Z][a-z]+)")
 	matchAllCap          = regexp.MustCompile("([a-z0-9])([A-Z])")
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 0396f90..1d6110f 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -45,6 +45,7 @@ type Processor struct {
 
 	replaceKeys  map[string]string
 	replaceByKey map[string]string
+	limitedKeys  map[string]string
 
 	// keys are ordered by replaced column names, indexes match values of includeKeys.
 	keys []flKey
-- 
2.43.0


From 27be2f2580114e9309653a4fff97ae6f327013f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 24/52] fix: skip first lines when keys are not scanned

---
 flatjsonl/keys.go      | 2 --
 flatjsonl/processor.go | 1 +
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 49aa70f..11b3cfc 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -316,8 +316,6 @@ func (p *Processor) scanAvailableKeys() error {
 		p.rd.MaxLines = int64(p.f.MaxLinesKeys)
 	}
 
-	p.rd.OffsetLines = int64(p.f.OffsetLines)
-
 	for _, input := range p.inputs {
 		err := func() error {
 			task := "scanning keys"
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 1d6110f..6ee0c8c 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -132,6 +132,7 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		rd: &Reader{
 			Concurrency:    f.Concurrency,
 			AddSequence:    f.AddSequence,
+			OffsetLines:    int64(f.OffsetLines),
 			Progress:       pr,
 			Buf:            make([]byte, f.BufSize),
 			ExtractStrings: f.ExtractStrings,
-- 
2.43.0


From 6434c7409275b36a7b2004950328f99f9da358ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 25/52] fix: report failures to write the last part of output

---
 flatjsonl/csv_writer.go    | 14 +++++++++-----
 flatjsonl/raw_writer.go    | 19 ++++++++++---------
 flatjsonl/sqlite_writer.go | 13 +++++++++----
 3 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/flatjsonl/csv_writer.go b/flatjsonl/csv_writer.go
index e65f6be..bf2fa8b 100644
--- a/flatjsonl/csv_writer.go
+++ b/flatjsonl/csv_writer.go
@@ -127,13 +127,17 @@ func (c *CSVWriter) ReceiveRow(seq int64, values []Value) error {
 func (c *CSVWriter) Close() error {
 	c.w.Flush()
 
-	for _, tw := range c.transposed {
-		tw.w.Flush()
+	err := c.w.Error()
 
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transpose CSV file: " + err.Error())
+	for dst, tw := range c.transposed {
+		if twErr := tw.Close(); twErr != nil && err == nil {
+			err = fmt.Errorf("failed to close transposed CSV file for %s: %w", dst, twErr)
 		}
 	}
 
-	return c.f.Close()
+	if clErr := c.f.Close(); err == nil {
+		err = clErr
+	}
+
+	return err
 }
diff --git a/flatjsonl/raw_writer.go b/flatjsonl/raw_writer.go
index 0f7916d..cdb17ba 100644
--- a/flatjsonl/raw_writer.go
+++ b/flatjsonl/raw_writer.go
@@ -115,19 +115,20 @@ func (c *RawWriter) writeRow(row []string) error {
 
 // Close flushes rows and closes file.
 func (c *RawWriter) Close() error {
-	if err := c.w.Flush(); err != nil {
-		return fmt.Errorf("failed to flush RAW file: %w", err)
+	err := c.w.Flush()
+	if err != nil {
+		err = fmt.Errorf("failed to flush RAW file: %w", err)
 	}
 
-	for _, tw := range c.transposed {
-		if err := tw.w.Flush(); err != nil {
-			return fmt.Errorf("failed to flush transposed RAW file: %w", err)
+	for dst, tw := range c.transposed {
+		if twErr := tw.Close(); twErr != nil && err == nil {
+			err = fmt.Errorf("failed to close transposed RAW file for %s: %w", dst, twErr)
 		}
+	}
 
-		if err := tw.f.Close(); err != nil {
-			println("failed to close transposed RAW file: " + err.Error())
-		}
+	if clErr := c.f.Close(); err == nil {
+		err = clErr
 	}
 
-	return c.f.Close()
+	return err
 }
diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index fa98c3b..63377c1 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -257,12 +257,17 @@ _seq_id integer,
 
 // Close commits outstanding transaction and closes database instance.
 func (c *SQLiteWriter) Close() error {
+	var err error
+
 	if c.tx != nil {
-		err := c.tx.Commit()
-		if err != nil {
-			println(err.Error())
+		if err = c.tx.Commit(); err != nil {
+			err = fmt.Errorf("failed to commit SQLite transaction: %w", err)
 		}
 	}
 
-	return c.db.Close()
+	if clErr := c.db.Close(); err == nil {
+		err = clErr
+	}
+
+	return err
 }
-- 
2.43.0


From d826be51a84742ef70782389094d89e75d9040aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 26/52] fix: keep siblings of a key that has too many children

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 11b3cfc..b5f88b1 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -451,7 +451,7 @@ func (p *Processor) prepareScannedKeys() {
 				}
 			}
 
-			if len(k.original) > len(hc) && strings.HasPrefix(k.original, hc) {
+			if strings.HasPrefix(k.original, hc+".") {
 				p.flKeys.Delete(key)
 
 				deleted[k.original] = true
-- 
2.43.0


From 2516967bfefbacc3245b44ded517a4edb1e63737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 27/52] fix: keep a key that differs by case from an object or
 array

---
 flatjsonl/keys.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index b5f88b1..4144715 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -114,8 +114,9 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		p.collectKeyCardinality(k)
 	}
 
+	p.flKeysList = append(p.flKeysList, k.original)
+
 	if _, ok := p.canonicalKeys[k.canonical]; !ok {
-		p.flKeysList = append(p.flKeysList, k.original)
 		p.canonicalKeys[k.canonical] = k
 	}
 
@@ -473,8 +474,13 @@ func (p *Processor) prepareScannedKeys() {
 
 	var newFlKeys []string
 
+	canonical := make(map[string]bool)
+
+	// Keys that differ by case are listed once, with the first of them that has values.
 	for _, key := range p.flKeysList {
-		if !deleted[key] {
+		if !deleted[key] && !canonical[p.ck(key)] {
+			canonical[p.ck(key)] = true
+
 			newFlKeys = append(newFlKeys, key)
 		}
 	}
-- 
2.43.0


From 1366c5b09f5ba30937bdf4e4c84770906c5a4d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 28/52] fix: show types of JSON schema in the same order

---
 flatjsonl/flattener.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 43a291b..c04cf30 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -300,6 +300,9 @@ func (j *jsonSchema) AddType(t Type) {
 	}
 
 	j.Types = append(j.Types, tt)
+
+	// Types of array items come from different keys in no particular order.
+	sort.Strings(j.Types)
 }
 
 func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
-- 
2.43.0


From 1b7d19717f327d826244591306139aa4b5925304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 29/52] fix: show JSON schema of keys with values of different
 types

---
 flatjsonl/flattener.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index c04cf30..2a1e447 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -327,17 +327,20 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 	}
 
 	parentSchema := j
-	parentType := TypeObject
+	parentIsArray := false
 
 	for i := len(parents) - 1; i >= 0; i-- {
 		pk := parents[i]
 		name := pk.path[len(pk.path)-1]
 
-		if i != 0 && pk.t == TypeString {
-			pk.t = TypeObject
-		}
+		// Parent may have values of other types in other lines.
+		if _, _, isIndex := arrayIndex(name); parentIsArray && isIndex {
+			if parentSchema.Items == nil {
+				parentSchema.Items = &jsonSchema{}
+			}
 
-		if parentType == TypeObject {
+			parentSchema = parentSchema.Items
+		} else {
 			if parentSchema.Properties == nil {
 				parentSchema.Properties = make(map[string]*jsonSchema)
 			}
@@ -349,16 +352,9 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 
 			parentSchema.Properties[name] = property
 			parentSchema = property
-
-			parentType = pk.t
-		} else if parentType == TypeArray {
-			if parentSchema.Items == nil {
-				parentSchema.Items = &jsonSchema{}
-			}
-
-			parentSchema = parentSchema.Items
-			parentType = pk.t
 		}
+
+		parentIsArray = pk.hasType(TypeArray)
 	}
 
 	for _, t := range k.tt {
-- 
2.43.0


From a147f037011db67786d0752eddb9b5c14e7b03f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 30/52] fix: use parent key of an extracted URL

---
 flatjsonl/flattener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 2a1e447..438516d 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -227,9 +227,10 @@ func (fv *FastWalker) walkFastJSONString(seq int64, flatPath []byte, pl int, pat
 
 			v, err := p.ParseBytes(us)
 			if err == nil {
-				flatPath = append(flatPath, []byte(".URL")...)
 				pl := len(flatPath)
 
+				flatPath = append(flatPath, []byte(".URL")...)
+
 				if fv.WantPath {
 					fv.WalkFastJSON(seq, flatPath, pl, append(path, "URL"), v)
 				} else {
-- 
2.43.0


From 1a61216ec7d2c6cf54989e7d597d5673e810643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 31/52] fix: do not stop for good when memory usage stays above
 the limit

---
 flatjsonl/reader.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 5ca0bfc..5d71d48 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -229,14 +229,11 @@ func (rd *Reader) Read(sess *readSession) error {
 	var n int64
 
 	for sess.scanner.Scan() {
-		for {
-			if atomic.LoadInt64(&rd.Processor.throttle) != 0 {
-				atomic.StoreInt64(&rd.Processor.throttle, 0)
-				runtime.GC()
-				time.Sleep(110 * time.Millisecond)
-			} else {
-				break
-			}
+		if atomic.LoadInt64(&rd.Processor.throttle) != 0 {
+			runtime.GC()
+			time.Sleep(110 * time.Millisecond)
+			// Usage may stay above the limit, lines are delayed and not stopped then.
+			atomic.StoreInt64(&rd.Processor.throttle, 0)
 		}
 
 		if err := sess.scanner.Err(); err != nil {
-- 
2.43.0


From 6e8fb10b9c5d9f1e71370ed55ab177f80d3eda8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 32/52] fix: extract values of listed keys when the string
 itself is not listed

---
 flatjsonl/keys.go      | 11 +++++++++++
 flatjsonl/processor.go | 10 ++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 4144715..0a5f4d4 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -126,6 +126,17 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 	return k
 }
 
+// keyExtractor finds extractor for a key.
+func (p *Processor) keyExtractor(key []byte) extractor {
+	for r, x := range p.extractRegex {
+		if r.Match(key) {
+			return x
+		}
+	}
+
+	return nil
+}
+
 func (p *Processor) scanKey(pk, parent uint64, path []string, t Type, isZero bool) (_ extractor, stop bool) {
 	if _, phc := p.parentHighCardinality.Load(parent); phc {
 		return nil, true
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 6ee0c8c..577ce8e 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -689,14 +689,20 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 
 		l, _ := wi.pending.Load(seq)
 		pk := l.h.hashBytes(flatPath)
-		k, _ := wi.p.flKeys.Load(pk)
+		k, ok := wi.p.flKeys.Load(pk)
+		x := k.extractor
+
+		if !ok {
+			// Without scanning only the listed keys are known, but not the ones they are extracted from.
+			x = wi.p.keyExtractor(flatPath)
+		}
 
 		wi.setValue(Value{
 			Type:   TypeString,
 			String: string(value),
 		}, pk, l)
 
-		return k.extractor
+		return x
 	}
 	w.FnNumber = func(seq int64, flatPath []byte, pl int, _ []string, value float64, raw []byte) {
 		l, _ := wi.pending.Load(seq)
-- 
2.43.0


From ea1ec7680f1d2c768c34ccf97ac396bcecd563b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 33/52] fix: write parsed time in output timezone

---
 flatjsonl/processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 577ce8e..91beafe 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -758,6 +758,11 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 				t, err = time.Parse(tf, v.String)
 			}
 
+			if err == nil && wi.outputTZ != nil {
+				// Parsed value may have a time zone of its own.
+				t = t.In(wi.outputTZ)
+			}
+
 			if err != nil {
 				v.String = fmt.Sprintf("failed to parse time %s: %s", v.String, err)
 			} else {
-- 
2.43.0


From cb519cfe0e7d24832451058ead66ccd68e4e4309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 34/52] fix: do not panic when there are no keys to show as
 hierarchy

---
 flatjsonl/processor.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 91beafe..1d8cca8 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -336,9 +336,14 @@ func (p *Processor) maybeShowKeys() error {
 	}
 
 	if p.f.ShowKeysHier {
-		b, err := assertjson.MarshalIndentCompact(
-			p.keyHierarchy.Hierarchy().(map[string]interface{})["."], //nolint:errcheck
-			"", " ", 120)
+		var keys interface{} = []string{}
+
+		// There is nothing below the root if no keys were found.
+		if root, ok := p.keyHierarchy.Hierarchy().(map[string]interface{}); ok {
+			keys = root["."]
+		}
+
+		b, err := assertjson.MarshalIndentCompact(keys, "", " ", 120)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0e51896effdab9501f6932bae739f430e9fad853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 35/52] fix: strings with zero bytes failed the insert of
 SQLite rows

---
 flatjsonl/sqlite_writer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/sqlite_writer.go b/flatjsonl/sqlite_writer.go
index 63377c1..43d1ce5 100644
--- a/flatjsonl/sqlite_writer.go
+++ b/flatjsonl/sqlite_writer.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"database/sql"
+	"encoding/hex"
 	"fmt"
 	"strconv"
 	"strings"
@@ -150,7 +151,7 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 		}
 
 		if v.Type != TypeNull && v.Type != TypeAbsent {
-			res += `"` + c.replacer.Replace(v.Format()) + `",`
+			res += c.literal(v.Format()) + `,`
 		} else {
 			res += `NULL,`
 		}
@@ -161,6 +162,16 @@ func (c *SQLiteWriter) insert(seq int64, tn string, values []Value) error {
 	return c.execTx(res)
 }
 
+// literal quotes a value for SQL statement.
+func (c *SQLiteWriter) literal(s string) string {
+	if strings.IndexByte(s, 0) >= 0 {
+		// Zero byte would end the statement.
+		return `CAST(X'` + hex.EncodeToString([]byte(s)) + `' AS TEXT)`
+	}
+
+	return `"` + c.replacer.Replace(s) + `"`
+}
+
 func (c *SQLiteWriter) commitTx() error {
 	if err := c.tx.Commit(); err != nil {
 		return fmt.Errorf("failed to commit SQLite transaction: %w", err)
-- 
2.43.0


From 0fd1a490d40ea5e0e4cb3bcbf6d487d7bca8f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 36/52] fix: numbers out of range of a double had a numeric
 column type

---
 flatjsonl/keys.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 0a5f4d4..8424707 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -1,8 +1,10 @@
 package flatjsonl
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
+	"math"
 	"regexp"
 	"sort"
 	"strconv"
@@ -389,6 +391,10 @@ func (p *Processor) scanAvailableKeys() error {
 						p.scanKey(pk, parent, path, TypeInt, value == 0)
 					} else {
 						p.scanKey(pk, parent, path, TypeFloat, value == 0)
+
+						if !fitsFloat(value, raw) {
+							p.scanKey(pk, parent, path, TypeJSON, false)
+						}
 					}
 				}
 				w.FnBool = func(_ int64, flatPath []byte, pl int, path []string, value bool) {
@@ -419,6 +425,22 @@ func (p *Processor) scanAvailableKeys() error {
 	return nil
 }
 
+// fitsFloat is false for numbers that are out of range of a column of a numeric type, e.g. "1e400" or "1e-400".
+func fitsFloat(value float64, raw []byte) bool {
+	if value != 0 && !math.IsInf(value, 0) && !math.IsNaN(value) {
+		return true
+	}
+
+	f, err := strconv.ParseFloat(string(raw), 64)
+	if err != nil {
+		return false
+	}
+
+	mantissa, _, _ := bytes.Cut(bytes.ToLower(raw), []byte("e"))
+
+	return f != 0 || !bytes.ContainsAny(mantissa, "123456789")
+}
+
 func (p *Processor) prepareScannedKeys() {
 	var jsonKeys map[string]bool
 	if len(p.cfg.KeepJSON) > 0 {
-- 
2.43.0


From a5bc5b588bfc323ab24d3489632b348616469096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 37/52] fix: children limit does not apply to groups of the
 line prefix

---
 flatjsonl/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 8424707..89abd28 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -112,7 +112,8 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 		return existing
 	}
 
-	if p.f.ChildrenLimit > 0 && len(k.path) > 1 {
+	// Groups of a line prefix have no parent in the document.
+	if p.f.ChildrenLimit > 0 && len(k.path) > 1 && k.parent != 0 {
 		p.collectKeyCardinality(k)
 	}
 
-- 
2.43.0


From b58c44c33b11c9cc5dd298ac76fab81cba008907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 38/52] fix: JSON schema of array items did not admit objects
 and arrays among other values

---
 flatjsonl/flattener.go | 54 +++++++++++++++++++++++++++++++++---------
 flatjsonl/keys.go      |  9 +++++++
 2 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 438516d..99c6bce 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -307,6 +307,34 @@ func (j *jsonSchema) AddType(t Type) {
 }
 
 func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
+	s := j.schemaOf(k, keys, true)
+	if s == nil {
+		println("BUG: failed to load parent key for JSON schema:", k.parent)
+
+		return
+	}
+
+	for _, t := range k.tt {
+		s.AddType(t)
+	}
+}
+
+// AddContainer adds types of an object or array to the schema that has types of other values.
+//
+// Array items share a schema, only some of them may be objects or arrays.
+func (j *jsonSchema) AddContainer(k flKey, keys *xsync.MapOf[uint64, flKey]) {
+	s := j.schemaOf(k, keys, false)
+	if s == nil || len(s.Types) == 0 {
+		return
+	}
+
+	for _, t := range k.tt {
+		s.AddType(t)
+	}
+}
+
+// schemaOf finds the schema of a key, it returns nil if there is no such schema.
+func (j *jsonSchema) schemaOf(k flKey, keys *xsync.MapOf[uint64, flKey], create bool) *jsonSchema {
 	parents := []flKey{k}
 	parent := k.parent
 
@@ -317,9 +345,7 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 
 		pk, ok := keys.Load(parent)
 		if !ok {
-			println("BUG: failed to load parent key for JSON schema:", parent)
-
-			return
+			return nil
 		}
 
 		parents = append(parents, pk)
@@ -337,30 +363,36 @@ func (j *jsonSchema) AddKey(k flKey, keys *xsync.MapOf[uint64, flKey]) {
 		// Parent may have values of other types in other lines.
 		if _, _, isIndex := arrayIndex(name); parentIsArray && isIndex {
 			if parentSchema.Items == nil {
+				if !create {
+					return nil
+				}
+
 				parentSchema.Items = &jsonSchema{}
 			}
 
 			parentSchema = parentSchema.Items
 		} else {
-			if parentSchema.Properties == nil {
-				parentSchema.Properties = make(map[string]*jsonSchema)
-			}
-
 			property := parentSchema.Properties[name]
 			if property == nil {
+				if !create {
+					return nil
+				}
+
+				if parentSchema.Properties == nil {
+					parentSchema.Properties = make(map[string]*jsonSchema)
+				}
+
 				property = &jsonSchema{}
+				parentSchema.Properties[name] = property
 			}
 
-			parentSchema.Properties[name] = property
 			parentSchema = property
 		}
 
 		parentIsArray = pk.hasType(TypeArray)
 	}
 
-	for _, t := range k.tt {
-		parentSchema.AddType(t)
-	}
+	return parentSchema
 }
 
 // KeyHierarchy collects structural relations.
diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 89abd28..c694480 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -472,9 +472,12 @@ func (p *Processor) prepareScannedKeys() {
 		return true
 	})
 
+	var containers []flKey
+
 	p.flKeys.Range(func(key uint64, k flKey) bool {
 		if k.t == TypeObject || k.t == TypeArray {
 			deleted[k.original] = true
+			containers = append(containers, k)
 
 			return true
 		}
@@ -506,6 +509,12 @@ func (p *Processor) prepareScannedKeys() {
 		return true
 	})
 
+	if p.f.ShowJSONSchema {
+		for _, k := range containers {
+			p.jsonSchema.AddContainer(k, p.flKeys)
+		}
+	}
+
 	var newFlKeys []string
 
 	canonical := make(map[string]bool)
-- 
2.43.0


From 96c4a42f5b32a19ccc97f5f7f72ba34f9284f49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:07 +0000
Subject: [PATCH 39/52] fix: the expression that applies to a key that several
 match depended on the order of map iteration

---
 flatjsonl/keys.go      | 24 ++++++++++++------------
 flatjsonl/processor.go | 15 ++++++---------
 flatjsonl/regex.go     | 29 +++++++++++++++++++++++++++++
 3 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index c694480..4f8854f 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -96,9 +96,9 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 
 	p.transposeKey(&k)
 
-	for r, x := range p.extractRegex {
-		if r.MatchString(key) {
-			k.extractor = x
+	for _, e := range p.extractRegex {
+		if e.r.MatchString(key) {
+			k.extractor = e.x
 
 			break
 		}
@@ -131,9 +131,9 @@ func (p *Processor) initKey(pk, parent uint64, path []string, t Type, isZero boo
 
 // keyExtractor finds extractor for a key.
 func (p *Processor) keyExtractor(key []byte) extractor {
-	for r, x := range p.extractRegex {
-		if r.Match(key) {
-			return x
+	for _, e := range p.extractRegex {
+		if e.r.Match(key) {
+			return e.x
 		}
 	}
 
@@ -554,9 +554,9 @@ func (p *Processor) flKeysInit() {
 
 			p.transposeKey(&k)
 
-			for r, x := range p.extractRegex {
-				if r.MatchString(key) {
-					k.extractor = x
+			for _, e := range p.extractRegex {
+				if e.r.MatchString(key) {
+					k.extractor = e.x
 
 					break
 				}
@@ -799,12 +799,12 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 		}
 	}()
 
-	for reg, rep := range p.replaceRegex {
+	for _, rr := range p.replaceRegex {
 		kr := origKey
 
-		matches := reg.FindStringSubmatch(origKey)
+		matches := rr.r.FindStringSubmatch(origKey)
 		if matches != nil {
-			kr = rep
+			kr = rr.rep
 
 			for i, m := range matches {
 				if i == 0 {
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 1d8cca8..c42aa8b 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -39,8 +39,8 @@ type Processor struct {
 	includeKeys  map[string]int
 	includeRegex []*regexp.Regexp
 	excludeRegex []*regexp.Regexp
-	replaceRegex map[*regexp.Regexp]string
-	extractRegex map[*regexp.Regexp]extractor
+	replaceRegex []keyReplace
+	extractRegex []keyExtract
 	constVals    map[int]string
 
 	replaceKeys  map[string]string
@@ -183,9 +183,6 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		p.rd.MatchPrefix = regexp.MustCompile(f.MatchLinePrefix)
 	}
 
-	p.replaceRegex = map[*regexp.Regexp]string{}
-	p.extractRegex = map[*regexp.Regexp]extractor{}
-
 	for _, reg := range p.cfg.ExcludeKeysRegex {
 		r, err := regex(reg)
 		if err != nil {
@@ -204,22 +201,22 @@ func NewProcessor(f Flags, cfg Config, inputs ...Input) (*Processor, error) { //
 		p.includeRegex = append(p.includeRegex, r)
 	}
 
-	for reg, rep := range p.cfg.ReplaceKeysRegex {
+	for _, reg := range specificFirst(p.cfg.ReplaceKeysRegex) {
 		r, err := regex(reg)
 		if err != nil {
 			return nil, fmt.Errorf("include keys: %w", err)
 		}
 
-		p.replaceRegex[r] = rep
+		p.replaceRegex = append(p.replaceRegex, keyReplace{r: r, rep: p.cfg.ReplaceKeysRegex[reg]})
 	}
 
-	for reg, x := range p.cfg.ExtractValuesRegex {
+	for _, reg := range specificFirst(p.cfg.ExtractValuesRegex) {
 		r, err := regex(reg)
 		if err != nil {
 			return nil, fmt.Errorf("include keys: %w", err)
 		}
 
-		p.extractRegex[r] = x.Extractor()
+		p.extractRegex = append(p.extractRegex, keyExtract{r: r, x: p.cfg.ExtractValuesRegex[reg].Extractor()})
 	}
 
 	go p.watchMemUsage()
diff --git a/flatjsonl/regex.go b/flatjsonl/regex.go
index 9dad17c..94fbe8b 100644
--- a/flatjsonl/regex.go
+++ b/flatjsonl/regex.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"regexp"
+	"sort"
 	"strings"
 )
 
@@ -41,3 +42,31 @@ func regex(reg string) (*regexp.Regexp, error) {
 
 	return r, nil
 }
+
+type keyReplace struct {
+	r   *regexp.Regexp
+	rep string
+}
+
+type keyExtract struct {
+	r *regexp.Regexp
+	x extractor
+}
+
+// specificFirst returns expressions in a definite order, so that the longest of those that match a key applies.
+func specificFirst[V any](m map[string]V) []string {
+	res := make([]string, 0, len(m))
+	for reg := range m {
+		res = append(res, reg)
+	}
+
+	sort.Slice(res, func(i, j int) bool {
+		if len(res[i]) != len(res[j]) {
+			return len(res[i]) > len(res[j])
+		}
+
+		return res[i] < res[j]
+	})
+
+	return res
+}
-- 
2.43.0


From c926c824a1a93fe51c0220b5fe87dd589b3682e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:59 +0000
Subject: [PATCH 40/52] fix: names of columns of configured keys that differ by
 case depended on the order of map iteration

---
 flatjsonl/keys.go  | 18 ++++++++++++++----
 flatjsonl/regex.go |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 4f8854f..e10e2c4 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -535,8 +535,8 @@ func (p *Processor) flKeysInit() {
 	if p.flKeys.Size() == 0 && len(p.includeKeys) > 0 {
 		h := newHasher()
 
-		for key := range p.includeKeys {
-			if strings.HasPrefix(key, "const:") {
+		for _, key := range p.cfg.IncludeKeys {
+			if _, ok := p.includeKeys[key]; !ok || strings.HasPrefix(key, "const:") {
 				continue
 			}
 
@@ -562,6 +562,11 @@ func (p *Processor) flKeysInit() {
 				}
 			}
 
+			// Keys that differ by case are one column with the name of the first of them.
+			if _, ok := p.canonicalKeys[k.canonical]; !ok {
+				p.canonicalKeys[k.canonical] = k
+			}
+
 			p.flKeys.Store(pk, k)
 		}
 	}
@@ -704,8 +709,13 @@ func (p *Processor) prepareKeys() {
 	p.replaceByKey = make(map[string]string)
 	p.limitedKeys = make(map[string]string)
 
-	for k, r := range p.cfg.ReplaceKeys {
-		mk := p.ck(k)
+	for _, k := range specificFirst(p.cfg.ReplaceKeys) {
+		mk, r := p.ck(k), p.cfg.ReplaceKeys[k]
+
+		// Keys can differ only by case.
+		if _, ok := p.replaceKeys[mk]; ok {
+			continue
+		}
 
 		p.replaceByKey[r] = mk
 		p.replaceKeys[mk] = r
diff --git a/flatjsonl/regex.go b/flatjsonl/regex.go
index 94fbe8b..1ceda0f 100644
--- a/flatjsonl/regex.go
+++ b/flatjsonl/regex.go
@@ -53,7 +53,7 @@ type keyExtract struct {
 	x extractor
 }
 
-// specificFirst returns expressions in a definite order, so that the longest of those that match a key applies.
+// specificFirst returns keys or expressions in a definite order, so that the longest of those that match applies.
 func specificFirst[V any](m map[string]V) []string {
 	res := make([]string, 0, len(m))
 	for reg := range m {
-- 
2.43.0


From cf8d9f4d272f7eb6eaf8c9834460e5c47f9dce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:45 +0000
Subject: [PATCH 41/52] fix: workers appended to the shared path of a single
 key

---
 flatjsonl/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index 5d71d48..da27c3a 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -355,7 +355,7 @@ func (rd *Reader) doLine(w *syncWorker, seq, n int64, sess *readSession) (err er
 		}
 	} else {
 		if rd.singleKeyPath != nil {
-			w.walker.GetKey(seq, rd.singleKeyFlat, rd.singleKeyPath, pv)
+			w.walker.GetKey(seq, append(flatPath, rd.singleKeyFlat...), rd.singleKeyPath, pv)
 		} else {
 			w.walker.WalkFastJSON(seq, flatPath, 0, path, pv)
 		}
-- 
2.43.0


From f8cf0e21fad4525b67b4867042445f04ff4be363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:56 +0000
Subject: [PATCH 42/52] fix: values of a single listed key with dots, indexes
 or repeated properties in its path were lost or those of another key

---
 flatjsonl/flattener.go | 37 +++++++++++++++++++++++++++++++++++--
 flatjsonl/reader.go    | 12 +-----------
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/flatjsonl/flattener.go b/flatjsonl/flattener.go
index 99c6bce..5822595 100644
--- a/flatjsonl/flattener.go
+++ b/flatjsonl/flattener.go
@@ -52,10 +52,43 @@ func (fv *FastWalker) configure(p *Processor) {
 
 // GetKey walks into a single key.
 func (fv *FastWalker) GetKey(seq int64, flatPath []byte, path []string, v *fastjson.Value) {
-	vv := v.Get(path...)
-	if vv != nil {
+	if vv := fv.find(path, v); vv != nil && vv.Type() != fastjson.TypeNull {
 		fv.WalkFastJSON(seq, flatPath, 0, path, vv)
+
+		return
 	}
+
+	// Path of a listed key is not exact, segments can have dots and properties can be repeated.
+	fv.WalkFastJSON(seq, flatPath[:0], 0, nil, v)
+}
+
+// find returns the value of a path, or nil if there is no such value.
+func (fv *FastWalker) find(path []string, v *fastjson.Value) *fastjson.Value {
+	for i, segment := range path {
+		if len(fv.KeepJSON) > 0 && i > 0 && fv.KeepJSON[KeyFromPath(path[:i])] {
+			return nil
+		}
+
+		switch v.Type() { //nolint: exhaustive
+		case fastjson.TypeObject:
+			v = v.Get(segment)
+		case fastjson.TypeArray:
+			idx, pos, ok := arrayIndex(segment)
+			if !ok || pos != len(segment) {
+				return nil
+			}
+
+			v = v.Get(strconv.Itoa(idx))
+		default:
+			return nil
+		}
+
+		if v == nil {
+			return nil
+		}
+	}
+
+	return v
 }
 
 // WalkFastJSON iterates fastjson.Value JSON structure.
diff --git a/flatjsonl/reader.go b/flatjsonl/reader.go
index da27c3a..12e63f6 100644
--- a/flatjsonl/reader.go
+++ b/flatjsonl/reader.go
@@ -212,17 +212,7 @@ func (rd *Reader) Read(sess *readSession) error {
 	)
 
 	if kk, ok := rd.Processor.singleKey(); ok && !rd.Processor.f.ExtractStrings && len(rd.Processor.extractRegex) == 0 {
-		path := make([]string, 0, len(kk.path))
-
-		for _, s := range kk.path {
-			if len(s) > 1 && s[0] == '[' && s[len(s)-1] == ']' {
-				s = s[1 : len(s)-1]
-			}
-
-			path = append(path, s)
-		}
-
-		rd.singleKeyPath = path
+		rd.singleKeyPath = kk.path
 		rd.singleKeyFlat = []byte("." + strings.Join(kk.path, "."))
 	}
 
-- 
2.43.0


From e181389ce562016f98b46c8150e2810766218d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 43/52] fix: values longer than the field limit could not be
 parsed as time

---
 flatjsonl/processor.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index c42aa8b..39ff549 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -685,10 +685,6 @@ func (wi *writeIterator) setupWalker(w *FastWalker) {
 	w.FnObjectStop = nil
 	w.FnArrayStop = nil
 	w.FnString = func(seq int64, flatPath []byte, pl int, _ []string, value []byte) extractor {
-		if wi.fieldLimit != 0 && len(value) > wi.fieldLimit {
-			value = value[0:wi.fieldLimit]
-		}
-
 		l, _ := wi.pending.Load(seq)
 		pk := l.h.hashBytes(flatPath)
 		k, ok := wi.p.flKeys.Load(pk)
@@ -771,6 +767,10 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 				v.String = t.Format(wi.outTimeFmt)
 			}
 		}
+
+		if wi.fieldLimit != 0 && len(v.String) > wi.fieldLimit {
+			v.String = v.String[0:wi.fieldLimit]
+		}
 	}
 
 	v.Dst = wi.pkDst[pk]
-- 
2.43.0


From a30df8e499cd874cdf5a5d58c38c00a8d734dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:07 +0000
Subject: [PATCH 44/52] fix: limits of fields and names could cut a character
 of several bytes

---
 flatjsonl/keys.go      | 14 +++++++++++++-
 flatjsonl/processor.go |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index e10e2c4..ecb53d7 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -11,6 +11,7 @@ import (
 	"strings"
 	"sync/atomic"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/cespare/xxhash/v2"
 )
@@ -871,6 +872,17 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	return origKey
 }
 
+// truncate cuts a string to the limit of bytes, or at the beginning of a character that exceeds it.
+func truncate(s string, limit int) string {
+	for i := limit; i >= 0 && i > limit-utf8.UTFMax; i-- {
+		if utf8.RuneStart(s[i]) {
+			return s[:i]
+		}
+	}
+
+	return s[:limit]
+}
+
 // limitKey truncates the key and adds a number that makes it different from other keys.
 func (p *Processor) limitKey(key string, i int) string {
 	if lk, ok := p.limitedKeys[key]; ok {
@@ -879,7 +891,7 @@ func (p *Processor) limitKey(key string, i int) string {
 
 	for {
 		is := strconv.Itoa(i)
-		lk := key[:max(0, p.f.KeyLimit-len(is))] + is
+		lk := truncate(key, max(0, p.f.KeyLimit-len(is))) + is
 
 		_, isKey := p.includeKeys[lk]
 		_, isReplace := p.replaceByKey[lk]
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 39ff549..179a422 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -769,7 +769,7 @@ func (wi *writeIterator) setValue(v Value, pk uint64, l *lineBuf) {
 		}
 
 		if wi.fieldLimit != 0 && len(v.String) > wi.fieldLimit {
-			v.String = v.String[0:wi.fieldLimit]
+			v.String = truncate(v.String, wi.fieldLimit)
 		}
 	}
 
-- 
2.43.0


From dcc5ad4a67ca749ed7f1f3d1a900d66f4e3884a2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 45/52] fix: times of keys that differ by case were not parsed

---
 flatjsonl/pg_dump_writer.go |  2 +-
 flatjsonl/processor.go      | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/flatjsonl/pg_dump_writer.go b/flatjsonl/pg_dump_writer.go
index f22a182..3fb5858 100644
--- a/flatjsonl/pg_dump_writer.go
+++ b/flatjsonl/pg_dump_writer.go
@@ -291,7 +291,7 @@ func (c *PGDumpWriter) createTable(tn string, keys []flKey, isTransposed bool) e
 			tp = " FLOAT8"
 		case TypeString:
 			tp = " VARCHAR"
-			if _, ok := c.p.cfg.ParseTime[k.original]; ok {
+			if _, ok := c.p.timeFormat(k.original); ok {
 				tp = " TIMESTAMP"
 			}
 		default:
diff --git a/flatjsonl/processor.go b/flatjsonl/processor.go
index 179a422..f98b5fa 100644
--- a/flatjsonl/processor.go
+++ b/flatjsonl/processor.go
@@ -494,7 +494,7 @@ func (p *Processor) iterateForWriters() error {
 			}
 		}
 
-		if f, ok := p.cfg.ParseTime[value.original]; ok {
+		if f, ok := p.timeFormat(value.original); ok {
 			pkTimeFmt[key] = f
 		}
 
@@ -539,6 +539,21 @@ func (p *Processor) iterateForWriters() error {
 	return wi.waitPending()
 }
 
+// timeFormat finds format of time for a key, keys that differ by case are the same key.
+func (p *Processor) timeFormat(key string) (string, bool) {
+	if f, ok := p.cfg.ParseTime[key]; ok {
+		return f, true
+	}
+
+	for _, k := range specificFirst(p.cfg.ParseTime) {
+		if p.ck(k) == p.ck(key) {
+			return p.cfg.ParseTime[k], true
+		}
+	}
+
+	return "", false
+}
+
 // singleKey returns the only included key, unless it has values of keys that differ by case.
 func (p *Processor) singleKey() (kk flKey, ok bool) {
 	if len(p.includeKeys) != 1 {
-- 
2.43.0


From 9770ef029670cecb7fb8f2ce4a10844c1f5dbd9a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:59:42 +0000
Subject: [PATCH 46/52] fix: keys that differ by case from a transposed prefix
 were not transposed

---
 flatjsonl/keys.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index ecb53d7..64a043c 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -202,12 +202,16 @@ func (p *Processor) collectKeyCardinality(k flKey) {
 	}
 }
 
-// transposeKey finds destination of a key with the most specific prefix.
+// transposeKey finds destination of a key with the most specific prefix, keys that differ by case are the same key.
 func (p *Processor) transposeKey(k *flKey) {
 	prefix, found := "", false
 
-	for tk := range p.cfg.Transpose {
-		if len(k.original) > len(tk) && strings.HasPrefix(k.original, tk) && (!found || len(tk) > len(prefix)) {
+	for _, tk := range specificFirst(p.cfg.Transpose) {
+		if len(k.original) <= len(tk) || p.ck(k.original[:len(tk)]) != p.ck(tk) {
+			continue
+		}
+
+		if !found || (len(tk) == len(prefix) && strings.HasPrefix(k.original, tk)) {
 			prefix, found = tk, true
 		}
 	}
@@ -218,7 +222,7 @@ func (p *Processor) transposeKey(k *flKey) {
 }
 
 func scanTransposedKey(dst string, tk string, k *flKey) {
-	trimmed := strings.TrimPrefix(k.original, tk)
+	trimmed := k.original[len(tk):]
 	if len(trimmed) == 0 {
 		return
 	}
-- 
2.43.0


From 243e465cb47cfd9264413b10a787db4c5044c2d8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:48:56 +0000
Subject: [PATCH 47/52] fix: transposed keys replaced with the same name made
 several columns of the name

---
 flatjsonl/csv_writer.go |  2 +-
 flatjsonl/keys.go       | 16 +++++++++-------
 flatjsonl/writer.go     | 29 ++++++++++++++++++++++++-----
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/flatjsonl/csv_writer.go b/flatjsonl/csv_writer.go
index bf2fa8b..cc89f6f 100644
--- a/flatjsonl/csv_writer.go
+++ b/flatjsonl/csv_writer.go
@@ -72,7 +72,7 @@ func (c *CSVWriter) writeHead() error {
 	var keys []string
 
 	if c.b.isTransposed {
-		keys = make([]string, len(c.b.trimmedKeys))
+		keys = make([]string, c.b.columns)
 		for _, i := range c.b.trimmedKeys {
 			keys[i.idx] = i.k.replaced
 		}
diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 64a043c..3e93114 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -767,17 +767,19 @@ func (p *Processor) prepareKeys() {
 	keyMap := make(map[int]int)
 
 	for i, pk := range p.keys {
-		if pk.transposeDst == "" {
-			if j, ok := keyExists[pk.replaced]; ok {
-				keys[j].UpdateType(pk.t)
-				keyMap[i] = j
+		name := pk.replaced
+		if pk.transposeDst != "" {
+			name = pk.transposeDst + "\x00" + pk.transposeKey.String() + "\x00" + name
+		}
 
-				continue
-			}
+		if j, ok := keyExists[name]; ok {
+			keys[j].UpdateType(pk.t)
+			keyMap[i] = j
 
-			keyExists[pk.replaced] = len(keys)
+			continue
 		}
 
+		keyExists[name] = len(keys)
 		keyMap[i] = len(keys)
 		keys = append(keys, pk)
 	}
diff --git a/flatjsonl/writer.go b/flatjsonl/writer.go
index a9299ab..75f54ca 100644
--- a/flatjsonl/writer.go
+++ b/flatjsonl/writer.go
@@ -144,6 +144,7 @@ type baseWriter struct {
 	isTransposed bool
 	transposed   map[string]*baseWriter
 	trimmedKeys  map[string]idxKey
+	columns      int // Number of different columns of trimmed keys.
 
 	// transposedMapping maps original key index to reduced set of trimmed keys.
 	transposedMapping map[int]int
@@ -170,9 +171,16 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 
 		ik, ok := tw.trimmedKeys[trimmed]
 		if !ok {
-			ik.idx = len(tw.trimmedKeys)
 			key.replaced = b.p.prepareKey(key.transposeTrimmed)
-			ik.k = key
+
+			// Keys that are replaced with the same name share a column.
+			ik, ok = tw.column(key.replaced)
+			if !ok {
+				ik.idx = tw.columns
+				ik.k = key
+				tw.columns++
+			}
+
 			tw.trimmedKeys[trimmed] = ik
 		}
 
@@ -186,6 +194,16 @@ func (b *baseWriter) setupKeys(keys []flKey) {
 	}
 }
 
+func (b *baseWriter) column(replaced string) (idxKey, bool) {
+	for _, ik := range b.trimmedKeys {
+		if ik.k.replaced == replaced {
+			return ik, true
+		}
+	}
+
+	return idxKey{}, false
+}
+
 func (b *baseWriter) initFilteredKeys() {
 	if !b.isTransposed {
 		b.filteredKeys = make([]flKey, 0, len(b.keyIndexes))
@@ -197,7 +215,7 @@ func (b *baseWriter) initFilteredKeys() {
 		return
 	}
 
-	b.filteredKeys = make([]flKey, len(b.trimmedKeys))
+	b.filteredKeys = make([]flKey, b.columns)
 	for _, i := range b.trimmedKeys {
 		b.filteredKeys[i.idx] = i.k
 	}
@@ -236,6 +254,7 @@ func (b *baseWriter) transposedWriter(dst string, keys []flKey) *baseWriter {
 			replaced: b.p.prepareKey("._index"),
 		}},
 	}
+	tw.columns = len(tw.trimmedKeys)
 	tw.transposedMapping = map[int]int{}
 
 	b.transposed[dst] = tw
@@ -280,7 +299,7 @@ func (b *baseWriter) receiveRow(seq int64, values []Value) (transposedRows [][]s
 			row := transposedRowsIdx[transposeKey]
 
 			if row == nil {
-				row = make([]string, len(b.trimmedKeys))
+				row = make([]string, b.columns)
 				row[0] = strconv.Itoa(int(seq)) // Add sequence.
 				row[1] = transposeKey           // Add array idx/object property.
 				transposedRowsIdx[transposeKey] = row
@@ -320,7 +339,7 @@ func (b *baseWriter) receiveTransposedRowValues(seq int64, values []Value) (tran
 		row := transposedRowsIdx[transposeKey]
 
 		if row == nil {
-			row = make([]Value, len(b.trimmedKeys))
+			row = make([]Value, b.columns)
 			row[0] = Value{
 				Type:   TypeFloat,
 				Number: float64(seq),
-- 
2.43.0


From d41390e2a048a1407cd61bd900c75e6856d44d02 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:49:45 +0000
Subject: [PATCH 48/52] fix: a short name could be that of a key replaced by an
 expression: values of the column were lost

---
 flatjsonl/keys.go | 74 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 23 deletions(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 3e93114..1dc4a61 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -745,6 +745,25 @@ func (p *Processor) prepareKeys() {
 		return len(sorted[i].orig) < len(sorted[j].orig)
 	})
 
+	// Names made by regular expressions are not available for other keys.
+	for _, v := range sorted {
+		key := v.orig
+		if ck, ok := p.canonicalKeys[p.ck(key)]; ok {
+			key = ck.original
+			if ck.transposeDst != "" {
+				key = ck.transposeTrimmed
+			}
+		}
+
+		if _, ok := p.replaceKeys[p.ck(key)]; ok {
+			continue
+		}
+
+		if kr := p.replaceByRegex(key); kr != key {
+			p.replaceByKey[kr] = key
+		}
+	}
+
 	for _, v := range sorted {
 		origKey := v.orig
 
@@ -816,29 +835,8 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 		}
 	}()
 
-	for _, rr := range p.replaceRegex {
-		kr := origKey
-
-		matches := rr.r.FindStringSubmatch(origKey)
-		if matches != nil {
-			kr = rr.rep
-
-			for i, m := range matches {
-				if i == 0 {
-					continue
-				}
-
-				kr = strings.ReplaceAll(kr, "${"+strconv.Itoa(i)+"}", trimSpaces.ReplaceAllString(strings.TrimSpace(m), "_"))
-			}
-		}
-
-		if kr != origKey {
-			if strings.HasSuffix(kr, "|to_snake_case") {
-				kr = toSnakeCase(strings.TrimSuffix(kr, "|to_snake_case"))
-			}
-
-			return kr
-		}
+	if kr := p.replaceByRegex(origKey); kr != origKey {
+		return kr
 	}
 
 	if !p.f.ReplaceKeys {
@@ -878,6 +876,36 @@ func (p *Processor) prepareKey(origKey string) (kk string) {
 	return origKey
 }
 
+// replaceByRegex replaces a key with the first regular expression that changes it.
+func (p *Processor) replaceByRegex(origKey string) string {
+	for _, rr := range p.replaceRegex {
+		kr := origKey
+
+		matches := rr.r.FindStringSubmatch(origKey)
+		if matches != nil {
+			kr = rr.rep
+
+			for i, m := range matches {
+				if i == 0 {
+					continue
+				}
+
+				kr = strings.ReplaceAll(kr, "${"+strconv.Itoa(i)+"}", trimSpaces.ReplaceAllString(strings.TrimSpace(m), "_"))
+			}
+		}
+
+		if kr != origKey {
+			if strings.HasSuffix(kr, "|to_snake_case") {
+				kr = toSnakeCase(strings.TrimSuffix(kr, "|to_snake_case"))
+			}
+
+			return kr
+		}
+	}
+
+	return origKey
+}
+
 // truncate cuts a string to the limit of bytes, or at the beginning of a character that exceeds it.
 func truncate(s string, limit int) string {
 	for i := limit; i >= 0 && i > limit-utf8.UTFMax; i-- {
-- 
2.43.0


From 133e4ad4bb258bafc823a01503c9b749af108ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:52 +0000
Subject: [PATCH 49/52] fix: csvequals: files with different headers and no
 rows were equal

---
 cmd/csvequals/main.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cmd/csvequals/main.go b/cmd/csvequals/main.go
index eb96685..136917a 100644
--- a/cmd/csvequals/main.go
+++ b/cmd/csvequals/main.go
@@ -118,8 +118,6 @@ func main() {
 		if keys1 == nil {
 			keys1 = append(keys1, r1...)
 			keys2 = append(keys2, r2...)
-
-			continue
 		}
 
 		for i, v := range r1 {
-- 
2.43.0


From f0a50e31c0caa70efbe01a3f373f7fa6b2fd0860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 50/52] fix: transposed elements of an array and of an object
 with the same index had the type of one of them

---
 flatjsonl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index 1dc4a61..cbb4826 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -788,7 +788,7 @@ func (p *Processor) prepareKeys() {
 	for i, pk := range p.keys {
 		name := pk.replaced
 		if pk.transposeDst != "" {
-			name = pk.transposeDst + "\x00" + pk.transposeKey.String() + "\x00" + name
+			name = strings.Join([]string{pk.transposeDst, string(pk.transposeKey.t), pk.transposeKey.String(), name}, "\x00")
 		}
 
 		if j, ok := keyExists[name]; ok {
-- 
2.43.0


From 45103089c094e670c3a997dff2b6b320f6d130f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:17 +0000
Subject: [PATCH 51/52] fix: type of a column with concatenated values did not
 admit them

---
 flatjsonl/keys.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/flatjsonl/keys.go b/flatjsonl/keys.go
index cbb4826..2cea1f9 100644
--- a/flatjsonl/keys.go
+++ b/flatjsonl/keys.go
@@ -588,6 +588,10 @@ func (p *Processor) flKeysInit() {
 
 			// Keys that differ by case are represented with the one that was found first.
 			if v.original != value.original {
+				if p.concatenates(v.t, value.t) {
+					t = TypeString
+				}
+
 				value = v
 			}
 
@@ -792,6 +796,10 @@ func (p *Processor) prepareKeys() {
 		}
 
 		if j, ok := keyExists[name]; ok {
+			if p.concatenates(keys[j].t, pk.t) {
+				keys[j].UpdateType(TypeString)
+			}
+
 			keys[j].UpdateType(pk.t)
 			keyMap[i] = j
 
@@ -818,6 +826,17 @@ func (p *Processor) prepareKeys() {
 	p.keys = keys
 }
 
+// concatenates is true if values of two keys of the same column can be concatenated to a string.
+func (p *Processor) concatenates(types ...Type) bool {
+	for _, t := range types {
+		if t == TypeAbsent || t == TypeNull || t == TypeObject || t == TypeArray {
+			return false
+		}
+	}
+
+	return p.cfg.ConcatDelimiter != nil
+}
+
 func (p *Processor) prepareKey(origKey string) (kk string) {
 	ck := p.ck(origKey)
 
-- 
2.43.0


From 18afbc02b53fecf17f52f0ebafd5c2b9054053d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:06 +0000
Subject: [PATCH 52/52] fix: extraction of URLs by an expression that matches
 their parts did not end

---
 flatjsonl/url.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flatjsonl/url.go b/flatjsonl/url.go
index 858ecd9..5297a6f 100644
--- a/flatjsonl/url.go
+++ b/flatjsonl/url.go
@@ -2,6 +2,7 @@ package flatjsonl
 
 import (
 	"encoding/json"
+	"errors"
 	"net/url"
 	"strings"
 )
@@ -37,6 +38,8 @@ func decodeURL(s string) (URL, error) {
 	return uv, nil
 }
 
+var errNotURL = errors.New("string is not a URL")
+
 type urlExtractor struct{}
 
 // Name returns format name.
@@ -51,6 +54,11 @@ func (urlExtractor) extract(s []byte) ([]byte, extract, error) {
 		return nil, "", err
 	}
 
+	// A string without parts would be extracted from itself again and again.
+	if len(uv.Path) == 1 && uv.Path[0] == string(s) {
+		return nil, "", errNotURL
+	}
+
 	j, err := json.Marshal(uv)
 
 	return j, extractURL, err
-- 
2.43.0

